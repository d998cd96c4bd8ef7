package main

import (
	"encoding/json"
	"fmt"
	"time"

	"github.com/levilutz/basiccoin/verifsim/hx"
	"github.com/levilutz/basiccoin/verifsim/ref"
	"github.com/levilutz/basiccoin/verifsim/simrt"
)

// adv: hostile parties on peer connections and on HTTP, while honest peers and
// clients use the node and are judged as in feed.

// hostile is one hostile party: it holds at most one connection at a time.
type hostile struct {
	a    *adv
	h    *simrt.Host
	id   string
	q    []func()
	stop bool
	busy bool
	task *simrt.Task
	l    *simrt.Listener
	last *vconn
}

type adv struct {
	f        *feed
	nt       *Net
	nd       *Node
	hs       []*hostile
	poisoned bool
}

const (
	advOffer = iota
	advTx
	advAddrs
	advServe
	advRaw
	advLie
	advOddTx
	advScript
	advHandshake
	advEndless
	advAccept
	advPoison
	advKinds
)

func init() {
	hx.Register(&hx.Scenario{Name: "adv", Gen: genAdv, Run: runAdv, Opt: netOptions})
	extraOps["adv"] = func(nt *Net, op hx.Op) { nt.fd.ad.op(op) }
	extraOps["advhttp"] = func(nt *Net, op hx.Op) { nt.fd.ad.http(op) }
}

func genAdv(r *simrt.RNG, p *hx.Plan, thorough bool) {
	genFeedCfg(r, p)
	p.Cfg["vps"] = int64(1 + r.N(2))
	p.Cfg["advs"] = int64(1 + r.N(2))
	p.Cfg["miner"] = int64(r.N(4) / 3)
	p.Cfg["second"] = int64(r.N(3) / 2)
	n := int64(3 + r.N(8))
	if thorough {
		n = int64(4 + r.N(30))
	}
	p.Add(0, "start", 0)
	end := treeOps(r, p, 2000, n, []int{500, 3000}[r.N(2)], []int{0, 30}[r.N(2)])
	clientOps(r, p, 2500, end+2000, []int{400, 3000}[r.N(2)])
	m := 2 + r.N(14)
	for k := 0; k < m; k++ {
		t := int64(2500 + r.N(int(end)+4000))
		kind := r.N(advKinds)
		if kind == advPoison && r.N(6) > 0 {
			kind = advOffer
		}
		at := 1 + r.N(12)
		if r.N(2) == 0 {
			at = 1 + r.N(90)
		}
		p.Add(t, "adv", int64(r.N(8)), int64(kind), int64(r.N(mutKinds)), int64(at), int64(r.N(1<<16)), int64(r.U64()>>1))
		if r.N(4) == 0 {
			p.Add(t+int64(r.N(500)), "advhttp", 0, int64(r.N(12)), int64(r.U64()>>1))
		}
	}
	if r.N(4) == 0 {
		t := int64(3000 + r.N(int(end)))
		p.Add(t, "kill", 0)
		p.Add(t+int64(r.N(4000)), "restart", 0)
	}
}

func runAdv(x *hx.Run) {
	nt := newNet(x)
	p := x.Plan
	nd := nt.addNode()
	nd.newNet = true
	nt.crashProps = "C13 C04"
	if p.C("miner") > 0 {
		nd.miners = int(p.C("miner"))
		nd.paused = true
	}
	var sec *Node
	if p.C("second") > 0 {
		sec = nt.addNode()
		sec.seeds = []string{nd.addr()}
	}
	f := &feed{nt: nt, nd: nd}
	nt.fd = f
	a := &adv{f: f, nt: nt, nd: nd}
	f.ad = a
	for k := int64(0); k < p.C("vps"); k++ {
		f.vps = append(f.vps, nt.newVP(nd, true))
	}
	for k := int64(0); k < p.C("advs"); k++ {
		a.hs = append(a.hs, a.newHostile())
	}
	if sec != nil {
		nt.task("second", func() {
			simrt.Sleep(1500 * time.Millisecond)
			sec.start()
		})
	}
	nt.runOps(p.Ops)
	for _, v := range f.vps {
		v.drained(120 * time.Second)
	}
	for _, h := range a.hs {
		for k := 0; (len(h.q) > 0 || h.busy) && k < 6000; k++ {
			simrt.Sleep(100 * time.Millisecond)
		}
		h.stop = true
		if h.last != nil {
			h.last.e0close()
		}
	}
	for _, h := range a.hs {
		nt.w.Join(h.task)
		if h.l != nil {
			h.l.Close()
		}
	}
	if a.poisoned {
		return // reported; nothing after it can be judged
	}
	nt.calm()
	nt.settle(200 * time.Second)
	simrt.Sleep(3 * time.Second)
	f.finish()
	if sec != nil && sec.up && nd.up && !nd.dirty {
		// the honest pair agrees
		for k := 0; k < 180 && sec.up && nd.up && sec.head().Work.Cmp(nd.head().Work) != 0; k++ {
			simrt.Sleep(time.Second)
		}
		if sec.up && nd.up && sec.head().Work.Cmp(nd.head().Work) != 0 {
			x.Fail("C13 C06", "honest-pair-apart", "after hostile peers left, %s is at %s (height %d) and its peer %s at %s (height %d)", nd.name, nd.head().Id.Short(), nd.head().Height, sec.name, sec.head().Id.Short(), sec.head().Height)
		}
		sec.sweep()
	}
}

func (a *adv) newHostile() *hostile {
	h := &hostile{a: a, h: a.nt.vhost()}
	h.id = ref.HL(ref.HU(a.nt.x.Plan.Seed), ref.HU(uint64(5000+len(a.hs)))).String()
	h.task = a.nt.w.Harness(h.h.Name, func() {
		for !h.stop {
			if len(h.q) > 0 {
				f := h.q[0]
				h.q = h.q[1:]
				h.busy = true
				f()
				h.busy = false
				continue
			}
			simrt.Sleep(100 * time.Millisecond)
		}
	})
	return h
}

// op: who, session, deviation kind, at, arg, seed.
func (a *adv) op(op hx.Op) {
	h := a.hs[int(op.Arg(0))%len(a.hs)]
	if len(h.q) > 3 {
		return
	}
	h.q = append(h.q, func() {
		if h.last != nil {
			h.last.e0close()
			h.last = nil
		}
		if !a.nd.up || a.nt.w.Now() < a.nd.readyAt {
			return
		}
		kind := int(op.Arg(1))
		m := &mut{kind: int(op.Arg(2)), at: int(op.Arg(3)), arg: op.Arg(4)}
		a.nt.w.Logf("hostile %s session %d deviation %d at %d", h.h.Name, kind, m.kind, m.at)
		a.nt.x.Probe(fmt.Sprintf("hostile-session-%d", kind))
		h.session(simrt.NewRNG(uint64(op.Arg(5))), kind, m)
	})
}

func (h *hostile) dial(m *mut) *vconn {
	c := h.a.nt.dialNode2(h.h, h.a.nd, h.id, m, true)
	h.last = c
	return c
}

// ends demands that the node closes a connection on which the protocol was
// broken.
func (h *hostile) ends(c *vconn, what string) {
	a := h.a
	w := a.nt.w
	nd := a.nd
	inc := nd.inc
	t := w.Now()
	for w.Now()-t < int64(150*time.Second) {
		if c.e == nil || c.e.Eof() || !nd.up || nd.inc != inc {
			a.nt.x.Checked(1)
			return
		}
		simrt.Sleep(500 * time.Millisecond)
	}
	if nd.h.Slow > 1 || a.nt.faulty {
		return
	}
	a.nt.x.Fail("C13", "broken-connection-kept", "%s still holds its connection with %s 150 s after %s", nd.name, c.label, what)
}

// attend serves the node for a while, as the deviation leaves it.
func (c *vconn) attend(d time.Duration) {
	c.serve(d)
}

// some picks a chain to offer: a valid one the node lacks if there is one.
func (h *hostile) some(r *simrt.RNG) *ref.Info {
	f := h.a.f
	nt := h.a.nt
	if r.N(4) == 0 && len(f.valid) > 0 {
		return f.valid[r.N(len(f.valid))]
	}
	if r.N(5) == 0 && len(f.bads) > 0 {
		return f.bads[r.N(len(f.bads))]
	}
	base := f.nd.head()
	for k := r.N(4); k > 0 && base.Height > 0; k-- {
		base = base.Parent()
	}
	if ref.WorkOf(nt.S.NextTarget(base)).BitLen() > 12 {
		base = nt.S.Gen
	}
	i := nt.grow(r, base, 1+r.N(5), 3, true)
	for k := 0; k < 6 && i.Work.Cmp(f.nd.head().Work) <= 0 && ref.WorkOf(nt.S.NextTarget(i)).BitLen() <= 12; k++ {
		i = nt.grow(r, i, 1, 3, true)
	}
	f.valid = append(f.valid, i)
	return i
}

func (h *hostile) session(r *simrt.RNG, kind int, m *mut) {
	a := h.a
	nt := a.nt
	nd := a.nd
	switch kind {
	case advOffer:
		i := h.some(r)
		if c := h.dial(m); c.err == nil {
			c.head = i.Id
			if r.N(3) == 0 { // let the node begin
				c.poll(3 * time.Second)
			}
			c.syncNow()
			c.attend(time.Duration(r.N(5)) * time.Second)
		}
	case advTx:
		if c := h.dial(m); c.err == nil {
			for k := 0; k < 1+r.N(3); k++ {
				if t := h.tx(r); t != nil {
					nt.S.AddTx(t)
					c.sendTx(t)
				}
			}
			c.attend(time.Duration(r.N(3)) * time.Second)
		}
	case advAddrs:
		if c := h.dial(m); c.err == nil {
			mp, ks := h.addrs(r)
			c.sendAddrs(mp, ks)
			c.addrs = mp
			if r.N(2) == 0 {
				c.command("announce-addr", func() { c.wStr(mp[ks[0]]) })
			}
			c.command("addrs-request", func() {})
			c.attend(time.Duration(r.N(20)) * time.Second)
		}
	case advServe:
		if c := h.dial(m); c.err == nil {
			i := h.some(r)
			c.head = i.Id
			c.slowRead = int64(r.N(3)) * 20e6
			c.attend(time.Duration(5+r.N(40)) * time.Second)
		}
	case advRaw:
		h.raw(r)
	case advLie:
		h.lies(r)
	case advOddTx:
		if c := h.dial(nil); c.err == nil {
			for k := 0; k < 1+r.N(6) && c.err == nil; k++ {
				us := nt.spendable(nd.head())
				if len(us) == 0 {
					break
				}
				u := us[r.N(len(us))]
				if u.Value < 4 {
					continue
				}
				t := nt.badTx(r, u, us, r.N(badTxKinds))
				if t == nil {
					continue
				}
				nt.S.AddTx(t)
				c.sendTx(t)
			}
			c.attend(time.Second)
		}
	case advScript:
		h.script(r)
	case advHandshake:
		h.badHello(r)
	case advEndless:
		h.endless(r)
	case advAccept:
		h.accept(r, m)
	case advPoison:
		h.poison(r)
	}
	if r.N(2) == 0 && h.last != nil {
		h.last.e0close()
	}
}

// tx is a valid transaction, an invalid one or one known.
func (h *hostile) tx(r *simrt.RNG) *ref.Tx {
	nt := h.a.nt
	us := nt.spendable(h.a.nd.head())
	if len(us) == 0 {
		return nil
	}
	u := us[r.N(len(us))]
	if u.Value < 4 {
		return nil
	}
	if r.N(4) == 0 {
		return nt.badTx(r, u, us, r.N(badTxKinds))
	}
	return nt.payFrom(r, []ref.Utxo{u}, 1+r.Intn(u.Value/2), 1+r.N(3), 0)
}

// addrs are addresses nobody should dial.
func (h *hostile) addrs(r *simrt.RNG) (map[string]string, []string) {
	m := map[string]string{}
	var ks []string
	add := func(k, v string) {
		if _, ok := m[k]; !ok {
			ks = append(ks, k)
		}
		m[k] = v
	}
	for k := 0; k < 1+r.N(6); k++ {
		id := ref.HU(r.U64()).String()
		switch r.N(9) {
		case 0:
			add(id, "")
		case 1:
			add(id, "not an address")
		case 2:
			add(id, "10.0.0.1:99999")
		case 3:
			add(id, h.a.nd.addr())
		case 4:
			add(id, fmt.Sprintf("%s:%d", h.h.IP, 1+r.N(65535)))
		case 5:
			b := make([]byte, []int{1, 500, 65535}[r.N(3)])
			r.Fill(b)
			add(id, string(b))
		case 6:
			add("", "10.0.0.1:21720")
		case 7:
			b := make([]byte, []int{1, 500, 65535}[r.N(3)])
			r.Fill(b)
			add(string(b), h.a.nd.addr())
		case 8:
			add(id, "["+id+"]:1")
		}
	}
	return m, ks
}

// raw sends bytes that follow no protocol at all.
func (h *hostile) raw(r *simrt.RNG) {
	a := h.a
	w := a.nt.w
	var e *simrt.Endpoint
	var c *vconn
	shook := r.N(2) == 0
	if shook {
		if c = h.dial(nil); c.err != nil {
			return
		}
		e = c.e
	} else {
		var err error
		if e, err = w.HDial(h.h, a.nd.h.IP, p2pPort, 10*time.Second); err != nil {
			return
		}
		c = &vconn{nt: a.nt, e: e, label: h.h.Name + "->" + a.nd.name, hostile: true, seenTx: map[ref.H]int{}, served: map[ref.H]int{}, cmds: map[string]int{}}
		h.last = c
	}
	w.Fault("garbage-bytes")
	n := []int{0, 1, 2, 3, 40, 600, 70000}[r.N(7)]
	b := make([]byte, n)
	r.Fill(b)
	switch r.N(4) {
	case 0:
		for i := range b {
			b[i] = 0
		}
	case 1:
		for i := range b {
			b[i] = 0xff
		}
	case 2:
		copy(b, "\x00\x0dcmd:sync-chain")
	}
	e.SetWriteDeadline(simrt.Epoch + w.Now() + 40e9)
	for len(b) > 0 {
		k := len(b)
		if r.N(2) == 0 {
			k = 1 + r.N(k)
		}
		if _, err := e.Write(b[:k]); err != nil {
			break
		}
		b = b[k:]
		if r.N(3) == 0 {
			simrt.Sleep(time.Duration(r.N(2000)) * time.Millisecond)
		}
	}
	if !shook || n > 100 {
		h.ends(c, fmt.Sprintf("%d bytes of garbage (after the handshake: %v)", n, shook))
	}
}

// script plays one dialogue that breaks the protocol.
func (h *hostile) script(r *simrt.RNG) {
	a := h.a
	c := h.dial(nil)
	if c.err != nil {
		return
	}
	// idle or in the middle of something of the node's
	if r.N(2) == 0 {
		c.attend(time.Duration(r.N(3000)) * time.Millisecond)
	}
	if c.err != nil {
		return
	}
	a.nt.w.Fault("protocol-broken")
	k := r.N(15)
	what := ""
	switch k {
	case 0:
		c.wStr("cmd:no-such-command")
		what = "an unknown command"
	case 1:
		c.wStr("ack:ping")
		what = "an answer nobody asked for"
	case 2:
		c.wStr("")
		what = "an empty message"
	case 3:
		b := make([]byte, 65535)
		copy(b, "cmd:")
		c.wStr(string(b))
		what = "a command of 65535 bytes"
	case 4: // many commands without waiting
		for n := 0; n < 50 && c.err == nil; n++ {
			c.wStr("cmd:ping")
		}
	case 5:
		for n := 0; n < 20 && c.err == nil; n++ {
			c.wStr("cmd:sync-chain")
		}
		what = "sync commands in place of data"
	case 6:
		c.wStr("cmd:new-tx")
		what = "silence inside a command"
	case 7:
		c.wStr("cmd:peer-addrs")
		c.wU64(1 << uint(r.N(64)))
		what = "a list that does not come"
	case 8:
		c.wStr("cmd:close")
		what = "a request to close"
	case 9: // wrong acknowledgement
		for n := 0; n < 30 && c.err == nil; n++ {
			msg := c.rMsg(20 * time.Second)
			if len(msg) > 4 {
				c.wStr("ack:" + string(msg[4:]) + "x")
				what = "a wrong acknowledgement"
				break
			}
		}
		if c.err != nil {
			return
		}
	case 10: // a transaction with absurd counts
		c.command("new-tx", func() {
			c.wH(ref.HU(r.U64()))
			if c.rBool() {
				c.wBool(r.N(2) == 0)
				c.wU64(r.U64())
				c.wU64(1 << uint(r.N(64)))
				c.wU64(1 << uint(r.N(64)))
				what = "a transaction that does not end"
			}
		})
	case 11: // wants to send what it then does not
		c.command("sync-chain", func() {
			c.wH(maxH())
			c.wH(ref.HU(r.U64()))
			c.rH()
			c.rH()
			c.wStr([]string{"continue", "maybe", ""}[r.N(3)])
			c.rStr()
			c.wStr([]string{"sync:recv", "sync:send", "x"}[r.N(3)])
			what = "a sync that goes nowhere"
		})
	case 12: // both claim the lesser work
		c.command("sync-chain", func() {
			c.wH(ref.H{})
			c.wH(ref.HU(r.U64()))
			c.rH()
			c.rH()
			c.wStr("continue")
			if c.rStr() == "continue" {
				c.rStr()
				c.wStr("sync:recv")
				for n := 0; n < r.N(6); n++ {
					c.rH()
					c.wBool(n%2 == 1)
				}
				for n := 0; n < 8; n++ {
					c.wH(ref.HU(r.U64()))
				}
				what = "nonsense while the node sends its chain"
			}
		})
	case 13: // asks for what does not exist
		c.command("sync-chain", func() {
			c.wH(ref.H{})
			c.wH(ref.H{})
			if tw, _ := c.rH(), c.rH(); tw.Zero() {
				return
			}
			c.wStr("continue")
			c.rStr()
			c.rStr()
			c.wStr("sync:recv")
			n := 0
			for id := c.rH(); c.err == nil && !id.Zero(); id = c.rH() {
				c.wBool(false)
				n++
			}
			c.wBool(true)
			for ; n > 0; n-- {
				c.rBlock()
			}
			c.wBool(true)
			c.wH(ref.HU(r.U64()))
			what = "a request for an entity that does not exist"
		})
	case 14: // never reads
		c.wStr("cmd:addrs-request")
		simrt.Sleep(40 * time.Second)
		return
	}
	a.nt.w.Logf("%s: %s", c.label, what)
	if what == "" || c.e == nil {
		return
	}
	h.ends(c, what)
}

func maxH() (m ref.H) {
	for i := range m {
		m[i] = 0xff
	}
	return
}

// badHello breaks the handshake.
func (h *hostile) badHello(r *simrt.RNG) {
	a := h.a
	nt := a.nt
	e, err := nt.w.HDial(h.h, a.nd.h.IP, p2pPort, 10*time.Second)
	c := &vconn{nt: nt, e: e, myId: h.id, err: err, label: h.h.Name + "->" + a.nd.name, hostile: true, seenTx: map[ref.H]int{}, served: map[ref.H]int{}, cmds: map[string]int{}}
	if err != nil {
		return
	}
	h.last = c
	nt.w.Fault("bad-handshake")
	hello, ver, id, fin := "levilutz/basiccoin", "v0.0.0", h.id, "continue"
	ok := false
	switch r.N(9) {
	case 0:
		hello = "other"
	case 1:
		ver = "v9"
	case 2:
		id = ""
		ok = true
	case 3:
		b := make([]byte, 65535)
		r.Fill(b)
		id = string(b)
		ok = true
	case 4:
		fin = "cancel"
	case 5:
		fin = ""
	case 6:
		fin = string(make([]byte, 65535))
	case 7:
		hello = string(make([]byte, 65535))
	case 8: // stops half way
		c.wStr(hello)
		if r.N(2) == 0 {
			c.wStr(ver)
		}
		h.ends(c, "half a handshake")
		return
	}
	c.wStr(hello)
	c.wStr(ver)
	c.wStr(id)
	c.rStr()
	c.rStr()
	c.peerId = c.rStr()
	c.wStr(fin)
	c.rStr()
	if ok && c.err == nil {
		c.serve(5 * time.Second)
		return
	}
	h.ends(c, "a bad handshake")
}

// lies speaks the protocol well, but says what is not so.
func (h *hostile) lies(r *simrt.RNG) {
	a := h.a
	nt := a.nt
	i := h.some(r)
	c := h.dial(nil)
	if c.err != nil {
		return
	}
	nt.w.Fault("peer-lies")
	c.head = i.Id
	l := &lie{}
	c.lie = l
	switch r.N(7) {
	case 0:
		m := maxH()
		l.work = &m
	case 1:
		z := ref.HU(1 + r.Intn(3))
		l.work = &z
	case 2:
		z := ref.FromInt(i.Work)
		z[31] ^= byte(1 + r.N(255))
		l.work = &z
	case 3: // an entity of the chain is held back
		l.withhold = h.entity(r, i)
	case 4: // another is served in its place
		l.subst = map[ref.H]ref.H{h.entity(r, i): h.entity(r, i)}
	case 5: // another block
		b := i
		for k := r.N(3); k > 0 && b.Height > 1; k-- {
			b = b.Parent()
		}
		l.subst = map[ref.H]ref.H{b.Id: b.B.Prev}
	case 6:
		l.reject = true
		z := ref.HU(1)
		l.work = &z
	}
	c.syncNow()
	c.attend(time.Duration(r.N(4)) * time.Second)
}

// entity picks something below the newest blocks of a chain.
func (h *hostile) entity(r *simrt.RNG, i *ref.Info) ref.H {
	for k := r.N(3); k > 0 && i.Height > 1; k-- {
		i = i.Parent()
	}
	if i.B == nil || r.N(3) == 0 {
		if i.Height > 0 {
			return i.B.Merkle
		}
		return ref.H{}
	}
	if len(i.Txs) > 0 && r.N(2) == 0 {
		return i.Txs[r.N(len(i.Txs))]
	}
	m, ok := h.a.nt.S.Mks[i.B.Merkle]
	if !ok {
		return i.B.Merkle
	}
	if r.N(2) == 0 {
		return m.L
	}
	return m.R
}

// endless names headers for ever.
func (h *hostile) endless(r *simrt.RNG) {
	a := h.a
	c := h.dial(nil)
	if c.err != nil {
		return
	}
	a.nt.w.Fault("endless-headers")
	c.command("sync-chain", func() {
		c.wH(maxH())
		c.wH(ref.HU(r.U64()))
		c.rH()
		c.rH()
		c.wStr("continue")
		if c.rStr() != "continue" {
			return
		}
		c.rStr()
		c.wStr("sync:send")
		n := 1 + r.N(300)
		for k := 0; k < n && c.err == nil; k++ {
			c.wH(ref.HU(r.U64()))
			c.rBool()
		}
		switch r.N(3) {
		case 0: // attaches to the root, then other blocks
			c.wH(ref.H{})
			c.rBool()
			for k := 0; k < n && c.err == nil; k++ {
				c.wBlock(&ref.Block{Nonce: r.U64()})
			}
		case 1:
			c.e.Close()
			return
		}
		h.ends(c, "headers that lead nowhere")
	})
}

// accept lets the node dial us.
func (h *hostile) accept(r *simrt.RNG, m *mut) {
	a := h.a
	nt := a.nt
	port := 30000 + r.N(1000)
	var got *vconn
	if h.l != nil {
		h.l.Close()
		h.l = nil
	}
	mode := r.N(4)
	l, err := nt.w.HListen(h.h, port)
	if err != nil {
		return
	}
	h.l = l
	i := h.some(r)
	n := 0
	seed := r.U64()
	nt.task("vaccept", func() {
		for n < 4 {
			e, err := l.Accept()
			if err != nil {
				return
			}
			n++
			c := &vconn{nt: nt, e: e, myId: h.id + "x", seenTx: map[ref.H]int{}, served: map[ref.H]int{}, cmds: map[string]int{}, label: h.h.Name + "<-" + a.nd.name, hostile: true, inc: a.nd.inc}
			got = c
			nt.x.Probe("hostile-dialled")
			cm := *m
			nt.task("vaccepted", func() {
				switch mode {
				case 0:
					simrt.Sleep(time.Duration(seed%100) * time.Second)
					c.e0close()
					return
				case 1:
					g := make([]byte, seed%5000)
					nt.r.Fill(g)
					c.e.SetWriteDeadline(simrt.Epoch + nt.w.Now() + 40e9)
					c.e.Write(g)
					simrt.Sleep(40 * time.Second)
					c.e0close()
					return
				case 2:
					c.m = &cm
				}
				c.handshake()
				if mode == 3 {
					c.m = &cm
					c.m.at += c.writes
				}
				c.head = i.Id
				c.serve(20 * time.Second)
				if c.err == nil && seed%2 == 0 {
					c.syncNow()
				}
				c.e0close()
			})
		}
	})
	if c := h.dial(nil); c.err == nil {
		m := map[string]string{h.id + "x": fmt.Sprintf("%s:%d", h.h.IP, port)}
		c.sendAddrs(m, []string{h.id + "x"})
		c.attend(30 * time.Second)
	}
	if got != nil {
		simrt.Sleep(10 * time.Second)
		got.e0close()
	}
}

// poison offers a valid chain in which the mined time of a block, which its
// identifier does not cover, is another.
func (h *hostile) poison(r *simrt.RNG) {
	a := h.a
	nt := a.nt
	i := h.some(r)
	if i.Bad != "" || i.Height < 1 {
		return
	}
	c := h.dial(nil)
	if c.err != nil {
		return
	}
	var tb ref.H
	v := i.B.Time + 1 + r.Intn(5)
	for k := 0; k < 8; k++ {
		tb[31-k] = byte(v >> uint(8*k))
	}
	b := i
	if nt.poisoned == nil {
		nt.poisoned = map[ref.H]bool{}
	}
	nt.poisoned[b.Id] = true
	c.head = i.Id
	c.lie = &lie{subst: map[ref.H]ref.H{ref.HL(b.Id): tb}}
	a.nt.w.Fault("mined-time-altered")
	c.syncNow()
	end := nt.w.Now() + int64(5*time.Second)
	for nt.w.Now() < end {
		c.poll(200 * time.Millisecond)
		if c.err != nil {
			simrt.Sleep(200 * time.Millisecond)
		}
	}
	for _, nd := range nt.nodes {
		raw, ok := nd.h.Disk.Peek(nd.save + "/blocks/" + b.Id.String())
		if !ok {
			continue
		}
		if got, _, _, ok := ref.ParseBlockRec(raw); ok && got.Hash() == b.Id && got.Time != b.B.Time {
			a.poisoned = true
			nd.dirty = true
			nt.x.Fail("C04 C13 C23", "poisoned-mined-time", "%s stored block %s with mined time %d as a hostile peer stated it, its miner stated %d; the identifier does not cover it", nd.name, b.Id.Short(), got.Time, b.B.Time)
		}
	}
}

// http: node, kind, seed: requests no client should make.
func (a *adv) http(op hx.Op) {
	nt, nd := a.nt, a.nd
	r := simrt.NewRNG(uint64(op.Arg(2)))
	if !nd.up || nt.w.Now() < nd.readyAt {
		return
	}
	nt.task("hostile-http", func() {
		inc := nd.inc
		start := nt.w.Now()
		meth, path := "GET", ""
		var body []byte
		junk := func(n int) string {
			b := make([]byte, r.N(n))
			r.Fill(b)
			return fmt.Sprintf("%x", b)
		}
		eps := []string{"/version", "/wallet/head/height", "/wallet/balance", "/wallet/utxos", "/wallet/tx", "/wallet/tx/confirms", "/wallet/tx/block", "/wallet/merkle", "/wallet/block", "/wallet/richlist", "/admin/terminate", "/nowhere"}
		ps := []string{"txId", "publicKeyHash", "merkleId", "blockId", "maxLen", "excludeMempool"}
		switch op.Arg(1) {
		case 0, 1:
			path = eps[r.N(len(eps))]
			meth = []string{"GET", "POST", "PUT", "DELETE", "HEAD", "x"}[r.N(6)]
			if path == "/admin/terminate" {
				meth = "GET"
			}
		case 2, 3, 4:
			path = eps[r.N(len(eps)-2)] + "?"
			for k := 0; k < 1+r.N(4); k++ {
				v := junk(80)
				switch r.N(6) {
				case 0:
					v = ""
				case 1:
					v = ref.HU(r.U64()).String()
				case 2:
					v = nt.keys[0].Pkh.String() + "0"
				case 3:
					v = fmt.Sprint(int64(r.U64()))
				case 4:
					v = ref.H{}.String()
				}
				path += ps[r.N(len(ps))] + "=" + v + "&"
			}
		case 5: // the root block
			path = "/wallet/block?blockId=" + ref.H{}.String()
		default:
			meth, path = "POST", "/wallet/tx"
			us := nt.spendable(nd.head())
			t := &ref.Tx{}
			if len(us) > 0 && us[0].Value > 4 {
				t = nt.payFrom(r, us[:1], 1, 2, 0)
			}
			body, _ = json.Marshal(t)
			switch op.Arg(1) {
			case 6:
				body = body[:r.N(len(body)+1)]
			case 7:
				body = []byte([]string{"", "null", "[]", "{}", "0", "\"x\"", "{\"inputs\":null}", "{\"inputs\":[null],\"outputs\":[null]}", "{\"outputs\":[{}],\"inputs\":[{}]}", "{\"minBlock\":-1}", "{\"minBlock\":1e400}", "{\"minBlock\":18446744073709551616}"}[r.N(12)])
			case 8, 9:
				for k := 0; k < 1+r.N(4); k++ {
					body[r.N(len(body))] = byte(r.N(256))
				}
			case 10: // a coinbase
				t.IsCoinbase = true
				t.Inputs = nil
				t.MinBlock = r.Intn(20)
				body, _ = json.Marshal(t)
				nt.S.AddTx(t)
			case 11:
				t.Outputs = nil
				body, _ = json.Marshal(t)
				nt.S.AddTx(t)
			}
			var got ref.Tx
			if json.Unmarshal(body, &got) == nil {
				nt.S.AddTx(&got)
			}
		}
		nt.w.Fault("hostile-http")
		res := nt.w.HTTPCall(nt.client, nil, meth, nt.url(nd, path), "application/json", nil, body, 120*time.Second, simrt.HTTPFault{})
		nt.bounded(nd, inc, start, res, "a malformed request")
		nt.x.Checked(1)
	})
}
