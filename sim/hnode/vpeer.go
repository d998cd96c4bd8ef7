package main

import (
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math/big"
	"sort"
	"time"

	"github.com/levilutz/basiccoin/verifsim/ref"
	"github.com/levilutz/basiccoin/verifsim/simrt"
)

// Virtual peers: an independent implementation of the peer protocol that can
// behave well or badly.

var errMut = errors.New("virtual peer misbehaved")

// mut is one deviation, made at the at-th value the virtual peer writes.
type mut struct {
	at   int
	kind int
	arg  int64
	done bool
}

const (
	mutNone = iota
	mutStall
	mutClose
	mutAbort
	mutFlip
	mutGarbage
	mutTruncClose
	mutTruncStall
	mutHuge
	mutSlow
	mutDup
	mutDrop
	mutZero
	mutKinds
)

// vconn is a virtual peer's connection.
type vconn struct {
	nt       *Net
	e        *simrt.Endpoint
	init     bool
	peerId   string
	myId     string
	err      error
	writes   int
	m        *mut
	broke    bool  // the protocol was broken from here
	brokeAt  int64 // when
	head     ref.H // our chain
	served   map[ref.H]int
	got      *vgot
	addrs    map[string]string // what we answer to address requests
	announce string
	seenTx   map[ref.H]int
	closedBy string
	recvAddr []string
	wantAck  bool
	lie      *lie
	cmds     map[string]int
	peerWork *big.Int
	peerHead ref.H
	noSync   bool // answer cancel to every sync
	slowRead int64
	label    string
	offered  ref.H
	complete bool
	owe      bool
	refused  bool  // the node said no to our chain
	refusing ref.H // to which
	judged   bool
	inc      int
	pinged   bool
	asIs     bool
	hostile  bool  // keeps to nothing, so cannot complain
	last     int64 // when something was read
	full     int   // download: 0 draw, 1 everything, 2 what is missing
}

// lie changes what a well-formed virtual peer claims.
type lie struct {
	work *ref.H // claimed work
	// withhold makes it refuse to know this entity
	withhold ref.H
	subst    map[ref.H]ref.H // serve another entity for an id
	reject   bool            // say the chain was not verified
}

type vgot struct {
	head ref.H
	work ref.H
}

// vhost makes a machine for virtual peers.
func (nt *Net) vhost() *simrt.Host {
	h := nt.w.NewHost(fmt.Sprintf("v%d", len(nt.vhosts)), fmt.Sprintf("10.0.5.%d", len(nt.vhosts)+1))
	nt.vhosts = append(nt.vhosts, h)
	return h
}

func (c *vconn) fail(err error) {
	if c.err == nil {
		c.err = err
	}
}

func (c *vconn) read(n int, d time.Duration) []byte {
	if c.err != nil {
		return make([]byte, n)
	}
	c.e.SetReadDeadline(simrt.Epoch + c.nt.w.Now() + int64(d))
	b := make([]byte, n)
	_, err := io.ReadFull(rd{c.e}, b)
	c.last = c.nt.w.Now()
	if err != nil {
		c.fail(err)
	}
	if c.slowRead > 0 {
		simrt.Sleep(time.Duration(c.slowRead))
	}
	return b
}

type rd struct{ e *simrt.Endpoint }

func (r rd) Read(b []byte) (int, error) { return r.e.Read(b) }

// write sends one value, with the deviation if it is due.
func (c *vconn) write(b []byte) {
	if c.err != nil {
		return
	}
	c.writes++
	if c.m != nil && !c.m.done && c.writes >= c.m.at && !c.asIs {
		c.m.done = true
		c.nt.w.Fault(fmt.Sprintf("peer-misbehaves-%d", c.m.kind))
		c.nt.w.Logf("%s misbehaves kind %d at value %d (%d bytes)", c.label, c.m.kind, c.writes, len(b))
		c.broke = true
		c.brokeAt = c.nt.w.Now()
		switch c.m.kind {
		case mutStall:
			simrt.Sleep(45 * time.Second)
		case mutClose:
			c.e.Close()
			c.fail(errMut)
			return
		case mutAbort:
			c.e.Abort()
			c.fail(errMut)
			return
		case mutFlip:
			b = append([]byte{}, b...)
			b[int(c.m.arg)%len(b)] ^= byte(1 << uint(c.m.arg%8))
		case mutGarbage:
			g := make([]byte, 1+c.m.arg%64)
			c.nt.r.Fill(g)
			b = append(g, b...)
		case mutTruncClose:
			c.e.Write(b[:int(c.m.arg)%len(b)])
			c.e.Close()
			c.fail(errMut)
			return
		case mutTruncStall:
			c.e.Write(b[:int(c.m.arg)%len(b)])
			simrt.Sleep(45 * time.Second)
			c.fail(errMut)
			return
		case mutHuge:
			b = append([]byte{}, b...)
			if len(b) == 8 {
				vals := []uint64{1 << 62, 1 << 23, 1<<64 - 1, 1 << 40, 1 << 22, 1 << 31}
				binary.BigEndian.PutUint64(b, vals[int(c.m.arg)%len(vals)])
			} else {
				for i := range b {
					b[i] = 0xff
				}
			}
		case mutSlow:
			c.broke = false
			for i := range b {
				if _, err := c.e.Write(b[i : i+1]); err != nil {
					c.fail(err)
					return
				}
				simrt.Sleep(time.Duration(c.m.arg%120) * time.Millisecond)
			}
			return
		case mutDup:
			b = append(append([]byte{}, b...), b...)
		case mutDrop:
			return
		case mutZero:
			b = make([]byte, len(b))
		}
	}
	c.e.SetWriteDeadline(simrt.Epoch + c.nt.w.Now() + 60e9)
	if _, err := c.e.Write(b); err != nil {
		c.fail(err)
	}
}

func (c *vconn) wStr(s string) {
	b := make([]byte, 2)
	binary.BigEndian.PutUint16(b, uint16(len(s)))
	c.write(append(b, s...))
}
func (c *vconn) rMsg(d time.Duration) []byte {
	b := c.read(2, d)
	n := int(binary.BigEndian.Uint16(b))
	return c.read(n, 30*time.Second)
}
func (c *vconn) rStr() string { return string(c.rMsg(40 * time.Second)) }
func (c *vconn) wU64(v uint64) {
	b := make([]byte, 8)
	binary.BigEndian.PutUint64(b, v)
	c.write(b)
}
func (c *vconn) rU64() uint64 { return binary.BigEndian.Uint64(c.read(8, 40*time.Second)) }
func (c *vconn) wH(h ref.H)   { c.write(h[:]) }
func (c *vconn) rH() ref.H {
	var h ref.H
	copy(h[:], c.read(32, 40*time.Second))
	return h
}
func (c *vconn) wBool(v bool) {
	if v {
		c.write([]byte{1})
	} else {
		c.write([]byte{0})
	}
}
func (c *vconn) rBool() bool { return c.read(1, 40*time.Second)[0] == 1 }

func (c *vconn) wTx(t *ref.Tx) {
	c.wBool(t.IsCoinbase)
	c.wU64(t.MinBlock)
	c.wU64(uint64(len(t.Inputs)))
	c.wU64(uint64(len(t.Outputs)))
	for _, i := range t.Inputs {
		c.wH(i.Utxo.TxId)
		c.wU64(i.Utxo.Ind)
		c.wU64(i.Utxo.Value)
		c.wStr(string(i.PublicKey))
		c.wStr(string(i.Signature))
	}
	for _, o := range t.Outputs {
		c.wU64(o.Value)
		c.wH(o.Pkh)
	}
}

func (c *vconn) rTx() *ref.Tx {
	t := &ref.Tx{IsCoinbase: c.rBool(), MinBlock: c.rU64()}
	ni, no := c.rU64(), c.rU64()
	if ni > 5000 || no > 5000 {
		c.fail(fmt.Errorf("transaction with %d inputs and %d outputs", ni, no))
		return t
	}
	for k := uint64(0); k < ni && c.err == nil; k++ {
		t.Inputs = append(t.Inputs, ref.TxIn{Utxo: ref.Utxo{TxId: c.rH(), Ind: c.rU64(), Value: c.rU64()}, PublicKey: []byte(c.rStr()), Signature: []byte(c.rStr())})
	}
	for k := uint64(0); k < no && c.err == nil; k++ {
		t.Outputs = append(t.Outputs, ref.TxOut{Value: c.rU64(), Pkh: c.rH()})
	}
	return t
}

func (c *vconn) wBlock(b *ref.Block) {
	c.wH(b.Prev)
	c.wH(b.Merkle)
	c.wH(b.Target)
	c.wH(b.Noise)
	c.wU64(b.Nonce)
	c.asIs = true // altering the time, which the identifier does not cover, is its own matter
	c.wU64(b.Time)
	c.asIs = false
}

func (c *vconn) rBlock() *ref.Block {
	return &ref.Block{Prev: c.rH(), Merkle: c.rH(), Target: c.rH(), Noise: c.rH(), Nonce: c.rU64(), Time: c.rU64()}
}

// dialNode connects a virtual peer to a node and shakes hands.
func (nt *Net) dialNode(h *simrt.Host, nd *Node, id string, m *mut) *vconn {
	return nt.dialNode2(h, nd, id, m, false)
}

func (nt *Net) dialNode2(h *simrt.Host, nd *Node, id string, m *mut, hostile bool) *vconn {
	e, err := nt.w.HDial(h, nd.h.IP, p2pPort, 10*time.Second)
	c := &vconn{nt: nt, e: e, init: true, myId: id, m: m, err: err, seenTx: map[ref.H]int{}, served: map[ref.H]int{}, cmds: map[string]int{}, label: h.Name + "->" + nd.name, hostile: hostile}
	if err != nil {
		return c
	}
	c.inc = nd.inc
	c.handshake()
	return c
}

func (c *vconn) handshake() {
	c.wStr("levilutz/basiccoin")
	c.wStr("v0.0.0")
	c.wStr(c.myId)
	if s := c.rStr(); c.err == nil && s != "levilutz/basiccoin" {
		c.fail(fmt.Errorf("bad hello %q", s))
	}
	if s := c.rStr(); c.err == nil && s != "v0.0.0" {
		c.fail(fmt.Errorf("bad version %q", s))
	}
	c.peerId = c.rStr()
	c.wStr("continue")
	if s := c.rStr(); c.err == nil && s != "continue" {
		c.fail(fmt.Errorf("peer answered %q", s))
	}
}

// vlisten accepts nodes that dial a virtual peer.
func (nt *Net) vlisten(h *simrt.Host, port int, id string, fn func(c *vconn)) *simrt.Listener {
	l, err := nt.w.HListen(h, port)
	if err != nil {
		panic(err)
	}
	nt.task("vlisten", func() {
		for {
			e, err := l.Accept()
			if err != nil {
				return
			}
			c := &vconn{nt: nt, e: e, myId: id, seenTx: map[ref.H]int{}, served: map[ref.H]int{}, cmds: map[string]int{}, label: h.Name}
			nt.task("vconn", func() {
				c.handshake()
				fn(c)
			})
		}
	})
	return l
}

// work is what we claim.
func (c *vconn) work() ref.H {
	if c.lie != nil && c.lie.work != nil {
		return *c.lie.work
	}
	i := c.nt.S.Info(c.head)
	if i == nil {
		return ref.H{}
	}
	return ref.FromInt(i.Work)
}

// command runs one of our commands.
func (c *vconn) command(name string, fn func()) bool {
	if c.err != nil {
		return false
	}
	c.nt.w.Logf("%s sends cmd:%s", c.label, name)
	c.wStr("cmd:" + name)
	resp := string(c.rMsg(60 * time.Second))
	if c.err != nil {
		return false
	}
	if resp == "cmd:close" {
		c.closedBy = "peer"
		c.e.Close()
		c.fail(io.EOF)
		return false
	}
	switch {
	case resp == "ack:"+name:
		fn()
	case len(resp) > 4 && resp[:4] == "cmd:":
		if c.init {
			c.handle(resp)
			if c.err != nil {
				return false
			}
			a := string(c.rMsg(60 * time.Second))
			if a == "cmd:close" {
				c.closedBy = "peer"
				c.e.Close()
				c.fail(io.EOF)
				return false
			}
			if a != "ack:"+name {
				c.unexpected("expected ack:" + name + ", got " + a)
				return false
			}
			fn()
		} else {
			if a := string(c.rMsg(60 * time.Second)); a != "ack:"+name {
				c.unexpected("expected ack:" + name + ", got " + a)
				return false
			}
			fn()
			c.handle(resp)
		}
	default:
		c.unexpected("answer to cmd:" + name + " was " + resp)
	}
	return c.err == nil
}

// unexpected reports that the node broke the protocol towards a virtual peer
// that has kept to it.
func (c *vconn) unexpected(what string) {
	if c.err == nil && !c.broke && !c.hostile && c.m == nil && c.lie == nil {
		c.nt.x.Fail("C12 C11", "protocol-desync", "%s: %s", c.label, clip(fmt.Sprintf("%q", what), 200))
	}
	c.fail(fmt.Errorf("unexpected: %s", what))
}

// poll waits for a command of the peer for at most d and handles it.
func (c *vconn) poll(d time.Duration) bool {
	if c.err != nil {
		return false
	}
	end := c.nt.w.Now() + int64(d)
	for c.e.Buffered() == 0 && !c.e.Eof() {
		if c.nt.w.Now() >= end {
			return false
		}
		simrt.Sleep(20 * time.Millisecond)
	}
	msg := string(c.rMsg(30 * time.Second))
	if c.err != nil {
		return false
	}
	c.handle(msg)
	if c.owe && c.err == nil {
		c.owe = false
		var ks []string
		for k := range c.addrs {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		c.sendAddrs(c.addrs, ks)
	}
	return c.err == nil
}

// serve answers commands until the time is over or the connection ends.
func (c *vconn) serve(d time.Duration) {
	end := c.nt.w.Now() + int64(d)
	for c.err == nil && c.nt.w.Now() < end {
		c.poll(time.Duration(end - c.nt.w.Now()))
	}
}

func (c *vconn) handle(msg string) {
	if c.err != nil {
		return
	}
	if msg == "cmd:close" {
		c.closedBy = "peer"
		c.e.Close()
		c.fail(io.EOF)
		return
	}
	if len(msg) < 4 || msg[:4] != "cmd:" {
		c.unexpected("message " + msg)
		return
	}
	name := msg[4:]
	c.nt.w.Logf("%s got %s", c.label, msg)
	c.cmds[name]++
	c.wStr("ack:" + name)
	switch name {
	case "ping":
	case "addrs-request":
		c.owe = c.addrs != nil
	case "peer-addrs":
		c.readAddrs()
	case "announce-addr":
		c.announce = c.rStr()
	case "new-tx":
		id := c.rH()
		c.seenTx[id]++
		t := c.nt.S.Txs[id]
		if t != nil && c.nt.r.N(4) > 0 {
			c.wBool(false)
			return
		}
		c.wBool(true)
		tx := c.rTx()
		if c.err == nil {
			if tx.Hash() != id {
				c.unexpected("transaction " + id.Short() + " arrived altered")
				return
			}
			c.nt.x.Checked(1)
			c.nt.S.AddTx(tx)
		}
	case "sync-chain":
		c.sync()
	default:
		c.unexpected("command " + name)
	}
}

func (c *vconn) readAddrs() {
	n := c.rU64()
	if n > 10000 {
		c.unexpected(fmt.Sprintf("%d addresses", n))
		return
	}
	for k := uint64(0); k < n && c.err == nil; k++ {
		c.rStr()
		c.recvAddr = append(c.recvAddr, c.rStr())
	}
}

// sendAddrs is our peer-addrs command.
func (c *vconn) sendAddrs(m map[string]string, order []string) bool {
	return c.command("peer-addrs", func() {
		c.wU64(uint64(len(order)))
		for _, k := range order {
			c.wStr(k)
			c.wStr(m[k])
		}
	})
}

// sendTx is our new-tx command; wanted tells whether the node asked for it.
func (c *vconn) sendTx(t *ref.Tx) (wanted, ok bool) {
	ok = c.command("new-tx", func() {
		c.wH(t.Hash())
		wanted = c.rBool()
		if c.err == nil && wanted {
			c.wTx(t)
		}
	})
	return wanted, ok
}

// syncNow is our sync-chain command.
func (c *vconn) syncNow() bool { return c.command("sync-chain", c.sync) }

// sync runs the chain synchronisation after the command was acknowledged.
func (c *vconn) sync() {
	c.complete = false
	our := c.work()
	c.wH(our)
	c.wH(c.head)
	tw, th := c.rH(), c.rH()
	if c.err != nil {
		return
	}
	c.got = &vgot{th, tw}
	c.peerHead = th
	have := c.nt.S.Info(th)
	if have != nil && ref.FromInt(have.Work) != tw {
		c.unexpected(fmt.Sprintf("head %s with work %s, should be %s", th.Short(), tw, ref.FromInt(have.Work)))
		return
	}
	cancel := c.noSync || tw == our || (our.Less(tw) && have != nil && c.full != 1 && c.nt.r.N(3) > 0)
	if cancel {
		c.wStr("cancel")
	} else {
		c.wStr("continue")
	}
	r := c.rStr()
	c.nt.w.Logf("%s sync: ours %s %s theirs %s %s, cancel %v, they say %q", c.label, our, c.head.Short(), tw, th.Short(), cancel, r)
	if c.err != nil {
		return
	}
	if r != "cancel" && r != "continue" {
		c.unexpected("sync answer " + r)
		return
	}
	if cancel || r == "cancel" {
		return
	}
	if tw.Less(our) {
		c.wStr("sync:send")
		if s := c.rStr(); s != "sync:recv" {
			c.unexpected("sync direction " + s)
			return
		}
		c.sendChain()
	} else {
		c.wStr("sync:recv")
		if s := c.rStr(); s != "sync:send" {
			c.unexpected("sync direction " + s)
			return
		}
		c.recvChain()
	}
}

func (c *vconn) sendChain() {
	s := c.nt.S
	var need []ref.H
	id := c.head
	c.offered = c.head
	c.wH(id)
	ok := c.rBool()
	for c.err == nil && !ok {
		if id.Zero() {
			c.unexpected("peer does not know the root")
			return
		}
		need = append(need, id)
		id = s.Blks[id].Prev
		c.wH(id)
		ok = c.rBool()
	}
	if c.err != nil {
		return
	}
	if len(need) == 0 {
		// the peer has our head already
		c.complete = true
		c.nt.x.Probe("sync-nothing-needed")
		return
	}
	for _, b := range need {
		blk := s.Blks[b]
		if c.lie != nil {
			if o, ok := c.lie.subst[b]; ok {
				if ob := s.Blks[o]; ob != nil {
					blk = ob
				}
			}
			if t, ok := c.lie.subst[ref.HL(b)]; ok { // another mined time
				cp := *blk
				cp.Time = binary.BigEndian.Uint64(t[24:])
				blk = &cp
			}
		}
		c.wBlock(blk)
	}
	if !c.rBool() {
		if c.err == nil {
			c.refused = true
			c.refusing = c.offered
			if i := s.Info(c.head); i != nil && i.Bad == "" && !c.broke && c.lie == nil {
				c.nt.w.Logf("%s: peer refused our chain", c.label)
				c.nt.x.Probe("peer-refused-chain")
			}
		}
		return
	}
	for c.err == nil {
		id := c.rH()
		if c.err != nil {
			return
		}
		if id.Zero() {
			break
		}
		c.served[id]++
		if c.lie != nil {
			if id == c.lie.withhold {
				c.e.Close()
				c.fail(errMut)
				return
			}
			if o, ok := c.lie.subst[id]; ok {
				id = o
			}
		}
		if m, ok := s.Mks[id]; ok {
			c.wBool(false)
			c.wH(m.L)
			c.wH(m.R)
		} else if t := s.Txs[id]; t != nil {
			c.wBool(true)
			c.wTx(t)
		} else {
			c.unexpected("request for unknown entity " + id.Short())
			c.e.Close()
			return
		}
	}
	if m := c.rStr(); c.err == nil && m != "complete" {
		c.unexpected("end of sync was " + m)
		return
	}
	c.complete = c.err == nil
	if c.complete {
		c.nt.w.Logf("%s: delivered %s", c.label, c.head.Short())
		c.nt.x.Probe("chain-delivered")
	}
}

// recvChain downloads the node's chain and checks every entity (C23, C11).
func (c *vconn) recvChain() {
	s := c.nt.S
	var need []ref.H
	id := c.rH()
	head := id
	if c.err == nil && c.got != nil && head != c.got.head {
		c.unexpected("the chain sent ends at another head than announced")
		return
	}
	full := c.full == 1 || c.full == 0 && c.nt.r.N(2) == 0 // act as if we had nothing
	for c.err == nil && !id.Zero() && (full || s.Blks[id] == nil) {
		need = append(need, id)
		c.wBool(false)
		id = c.rH()
	}
	c.wBool(true)
	if len(need) == 0 {
		c.complete = c.err == nil
		return
	}
	var roots []ref.H
	for _, b := range need {
		blk := c.rBlock()
		if c.err != nil {
			return
		}
		if blk.Hash() != b {
			c.complain("C23 C11", "served-wrong-block", "%s: block %s arrived as %s", c.label, b.Short(), blk.Hash().Short())
			c.fail(errMut)
			return
		}
		c.nt.x.Checked(1)
		if k := s.Blks[b]; k != nil && k.Time != blk.Time && !c.nt.poisoned[b] {
			c.complain("C23", "served-altered-block", "%s: block %s served with time %d, it has %d", c.label, b.Short(), blk.Time, k.Time)
		}
		s.AddBlock(blk)
		roots = append(roots, blk.Merkle)
	}
	if c.lie != nil && c.lie.reject {
		c.wBool(false)
		return
	}
	c.wBool(true)
	seen := map[ref.H]bool{}
	for len(roots) > 0 && c.err == nil {
		id := roots[0]
		roots = roots[1:]
		if seen[id] {
			continue
		}
		seen[id] = true
		if !full {
			if s.Txs[id] != nil {
				continue
			}
			if m, ok := s.Mks[id]; ok {
				roots = append(roots, m.L, m.R)
				continue
			}
		}
		c.wH(id)
		isTx := c.rBool()
		if c.err != nil {
			break
		}
		if isTx {
			t := c.rTx()
			if c.err == nil && t.Hash() != id {
				c.complain("C23 C11", "served-wrong-tx", "%s: transaction %s arrived as %s", c.label, id.Short(), t.Hash().Short())
				c.fail(errMut)
				return
			}
			if c.err == nil {
				s.AddTx(t)
				c.nt.x.Checked(1)
			}
		} else {
			m := ref.Mk{L: c.rH(), R: c.rH()}
			if c.err == nil && m.Hash() != id {
				c.complain("C23 C11", "served-wrong-merkle", "%s: node %s arrived as %s", c.label, id.Short(), m.Hash().Short())
				c.fail(errMut)
				return
			}
			if c.err == nil {
				s.AddMk(m)
				c.nt.x.Checked(1)
				roots = append(roots, m.L, m.R)
			}
		}
	}
	if c.err != nil {
		c.nt.w.Logf("%s: download of %s failed: %v", c.label, head.Short(), c.err)
		return
	}
	c.wH(ref.H{})
	c.wStr("complete")
	if c.err == nil {
		c.nt.x.Probe("chain-downloaded")
		c.complete = true
		if i := s.Info(head); i == nil {
			c.complain("C23", "served-incomplete-chain", "%s: chain %s cannot be evaluated after download", c.label, head.Short())
		} else if i.Bad != "" {
			c.complain(ruleProps(i.Bad), "served-invalid-chain:"+i.Bad, "%s: node serves chain %s that breaks %s", c.label, head.Short(), i.Bad)
		}
	}
}

// complain reports what the node served, unless we broke the protocol.
func (c *vconn) complain(props, class, f string, a ...any) {
	if !c.broke {
		c.nt.x.Fail(props, class, f, a...)
	}
}
