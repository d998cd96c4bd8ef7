package main

import (
	"fmt"
	"math/big"
	"strings"
	"time"

	main_bcnode "github.com/levilutz/basiccoin/cmd/bcnode"
	"github.com/levilutz/basiccoin/internal/miner"
	"github.com/levilutz/basiccoin/pkg/core"
	"github.com/levilutz/basiccoin/verifsim/hx"
	"github.com/levilutz/basiccoin/verifsim/ref"
	"github.com/levilutz/basiccoin/verifsim/simrt"
)

// Net is the deployment of one run: real nodes, clients, virtual peers and
// the reference model that knows every entity.
type Net struct {
	x       *hx.Run
	w       *simrt.World
	P       ref.Params
	S       *ref.Store
	nodes   []*Node
	client  *simrt.Host
	vhosts  []*simrt.Host
	keys    []*ref.Key
	r       *simrt.RNG
	quiet   bool
	quietAt int64
	tasks   []*simrt.Task
	known   map[ref.H]bool // transactions made by the harness
	owner   map[ref.H]*ref.Key
	// disturbed is set while or after faults may have damaged deliveries
	faulty bool
	// rough is set once links or nodes were made slow
	rough bool
	// when each node last began one
	made     []*ref.Tx // transactions built into blocks
	asked    []ref.H
	lastLink map[*Node]int64
	gaveAll  bool
	hooks    []func(nd *Node, i *ref.Info)
	// props that a node crash breaks in this scenario
	crashProps string
	nonces     uint64
	payFloor   int64 // in the quiet phase: only build on payments accepted since
	accepted   []*sub
	strictNet  bool // no faults at all in this run
	fd         *feed
	poisoned   map[ref.H]bool   // blocks a hostile peer may have stored altered
	odd        map[ref.H][]byte // keys nobody can sign with, by hash
	odds       [][]byte
	sl         *slots
	wl         *wallets
}

// headRec is one entry of a node's head history.
type headRec struct {
	at   int64
	i    *ref.Info
	inc  int
	wall int64
}

// Node is one real node.
type Node struct {
	nt      *Net
	idx     int
	name    string
	h       *simrt.Host
	p       *simrt.Proc
	save    string
	http    bool
	listen  bool
	seeds   []string
	newNet  bool
	miners  int
	payout  *ref.Key
	paused  bool
	pace    int64
	tl      []headRec
	inc     int
	readyAt int64
	fuzzy   bool // head writes may have failed
	dirty   bool // disk errors were injected in this node's life
	maxOff  int64
	up      bool
	known   map[ref.H]int64 // accepted by HTTP in this incarnation, when
	args    []string
	exitOK  bool
	// HTTP flags, if not the usual ones, of now and of the next incarnation
	conf, nextConf *admConf
	ends           []*ending
	startAt        int64
	base           int // tasks of a fresh incarnation
	prod           bool
	lastWr         ref.H
	noHead         bool
	kills          int
	// it listens on the address its first connection shows
	autoAddr bool
}

const (
	p2pPort  = 21720
	httpPort = 8080
)

func easy(bits uint) ref.H {
	t := new(big.Int).Lsh(big.NewInt(1), 254-bits)
	t.Sub(t, big.NewInt(1))
	return ref.FromInt(t)
}

// newNet prepares the network parameters and the model.
func newNet(x *hx.Run) *Net {
	p := x.Plan
	get := func(k string, d int64) int64 {
		if v, ok := p.Cfg[k]; ok {
			return v
		}
		return d
	}
	nt := &Net{x: x, w: x.W, r: simrt.NewRNG(p.Seed ^ 0x77aa), known: map[ref.H]bool{}, owner: map[ref.H]*ref.Key{}, crashProps: "C13 C04"}
	nt.P = ref.Params{
		Reward: uint64(get("reward", 1000)), Period: uint64(get("period", 8)), BlockTime: uint64(get("blocktime", 10)),
		MaxBlock: uint64(get("maxblock", 1<<20)), MaxTx: uint64(get("maxtx", 16384)),
		MaxTarget: easy(uint(get("maxbits", 0))), OrigTarget: easy(uint(get("bits", 0))),
	}
	nt.S = ref.NewStore(nt.P)
	nt.watchLinks()
	tap := func(c core.Params) core.Params {
		c.BlockReward, c.DifficultyPeriod, c.BlockTargetTime = nt.P.Reward, nt.P.Period, nt.P.BlockTime
		c.MaxBlockVSize, c.MaxTxVSize = nt.P.MaxBlock, nt.P.MaxTx
		c.MaxTarget = core.NewHashTFromStringAssert(nt.P.MaxTarget.String())
		c.OriginalTarget = core.NewHashTFromStringAssert(nt.P.OrigTarget.String())
		return c
	}
	x.W.SetTap("pkg/core.DevNetParams", tap)
	x.W.SetTap("pkg/core.ProdNetParams", tap)
	nt.client = x.W.NewHost("client", "10.0.9.1")
	for i := 0; i < 6; i++ {
		nt.addKey(ref.HL(ref.HU(p.Seed), ref.HU(uint64(i))))
	}
	miner.MiningRounds = nt.rounds
	x.W.HostExit = nt.onExit
	return nt
}

func (nt *Net) addKey(seed ref.H) *ref.Key {
	k := ref.NewKey(seed)
	nt.keys = append(nt.keys, k)
	nt.owner[k.Pkh] = k
	return k
}

// rounds paces the miners of every node.
func (nt *Net) rounds() uint64 {
	p := simrt.Cur()
	for _, nd := range nt.nodes {
		if nd.h == p.Host {
			if nd.paused {
				simrt.Sleep(250 * time.Millisecond)
				return 0
			}
			d := nd.pace/2 + int64(simrt.RandSrc().Intn(uint64(nd.pace)+1))
			simrt.Sleep(time.Duration(d))
			// keep the expected time to a block within twice what the network
			// aims at (10 s once faults stopped), however hard it got
			aim := 2 * nt.P.BlockTime * 1e9
			if nt.quiet && aim > 10e9 {
				aim = 10e9
			}
			need := ref.WorkOf(nt.S.NextTarget(nd.head()))
			share := int64(0) // with how many miners
			for _, o := range nt.nodes {
				if !o.paused {
					share += int64(o.miners)
				}
			}
			if share < 1 {
				share = 1
			}
			need.Mul(need, big.NewInt(d)).Div(need, new(big.Int).SetUint64(aim))
			if nt.nonces > 500_000 || nt.x.Plan.Seed&3 != 0 {
				need.Div(need, big.NewInt(share))
			}
			n := uint64(1 << 18)
			if need.IsUint64() && need.Uint64() < n {
				n = 1 + need.Uint64()
			}
			nt.nonces += n
			nt.w.Opt.MaxYs += 150 * n // what the miner spends on these is no loop run wild
			return n
		}
	}
	return 0
}

// addNode declares a node.
func (nt *Net) addNode() *Node {
	i := len(nt.nodes)
	nd := &Node{nt: nt, idx: i, name: fmt.Sprintf("n%d", i), save: "/data", http: true, listen: true, pace: int64(2 * time.Second), known: map[ref.H]int64{}}
	nd.h = nt.w.NewHost(nd.name, fmt.Sprintf("10.0.0.%d", i+1))
	nd.payout = nt.keys[i%len(nt.keys)]
	nd.h.Disk.OnChange = nd.onDisk
	nt.nodes = append(nt.nodes, nd)
	return nd
}

func (nd *Node) addr() string { return fmt.Sprintf("%s:%d", nd.h.IP, p2pPort) }

// start launches the node process.
func (nd *Node) start() {
	if nd.up {
		return
	}
	a := []string{"bcnode"}
	if !nd.prod {
		a = append(a, "--dev")
	}
	if nd.listen {
		a = append(a, "--listen")
		if !nd.autoAddr {
			a = append(a, "--addr", nd.addr())
		}
	}
	if nd.newNet || len(nd.seeds) == 0 {
		a = append(a, "--new-network")
	} else {
		a = append(a, "--seeds", strings.Join(nd.seeds, ","))
	}
	if nd.miners > 0 {
		a = append(a, "--miners", fmt.Sprint(nd.miners), "--payout", nd.payout.Pkh.String())
	}
	nd.startAt = nd.nt.w.Now()
	if c := nd.nextConf; c != nil {
		nd.conf = c
		nd.http = c.wallet
		a = append(a, "--http", fmt.Sprint(httpPort))
		if c.wallet {
			a = append(a, "--http-wallet")
		}
		if c.admin {
			a = append(a, "--http-admin")
		}
		if c.pw != "" {
			a = append(a, "--admin-pw", c.pw)
		}
	} else if nd.http {
		a = append(a, "--http", fmt.Sprint(httpPort), "--http-wallet", "--http-admin", "--admin-pw", "pw")
	}
	if nd.save != "" {
		a = append(a, "--save-dir", nd.save)
	}
	nd.inc++
	nd.up = true
	nd.known = map[ref.H]int64{}
	nd.readyAt = nd.nt.w.Now() + int64(time.Second)
	nd.noHead = true
	if nd.h.Down {
		nd.nt.w.PowerOn(nd.h)
	}
	nd.p = nd.nt.w.Start(nd.h, fmt.Sprintf("%s.%d", nd.name, nd.inc), a, map[string]string{"HOME": "/home/user"}, main_bcnode.Main__)
	nd.p.OnLine = nd.onLine
	nd.note()
}

// restart starts the node again after it died.
func (nd *Node) restart() {
	if !nd.up {
		nd.nt.x.Probe("restart")
		nd.start()
	}
}

func (nd *Node) kill() {
	if nd.up {
		nd.nt.w.Fault("kill")
		nd.p.Kill()
	}
}

func site(stack string) string {
	f := strings.Fields(stack)
	if len(f) == 0 {
		return "?"
	}
	return f[0]
}

// siteProps names the properties that are about the part of a node that
// crashed: what they promise is gone with the node.
func siteProps(stack string) string {
	p := ""
	for _, s := range [][2]string{
		{"chain.(*State)", " C01 C05"}, {"chain.(*Mempool)", " C19"}, {"chain.(*Chain)", " C05"}, {"chain.", " C01"},
		{"disksyncmap.", " C10 C22 C23"}, {"syncmap.", " C22"}, {"syncqueue.", " C22"}, {"queue.", " C22"},
		{"inv.", " C10 C23"}, {"peer.", " C12"}, {"prot.", " C11 C12"}, {"peerfactory.", " C14"}, {"miner.", " C17"},
		{"rest.", " C16"}, {"topic.", " C15"}, {"bus.", " C15"},
	} {
		if strings.Contains(stack, " "+s[0]) || strings.HasPrefix(stack, s[0]) {
			p += s[1]
		}
	}
	return p
}

// onExit is told about the end of every process.
func (nt *Net) onExit(p *simrt.Proc) {
	for _, nd := range nt.nodes {
		if nd.p != p {
			continue
		}
		nd.up = false
		if p.Code == -9 {
			nd.kills++
			return
		}
		if strings.Contains(p.Reason, "terminated") {
			if nd.exitOK || nd.mayEnd() {
				return
			}
			nt.x.Fail("C25 C13", "terminated-unasked", "%s ended though nobody who may asked for it", nd.name)
			return
		}
		if strings.Contains(p.Reason, "failed to reach seed peer") {
			nt.x.Probe("seed-unreachable-exit")
			return
		}
		props := nt.crashProps + siteProps(p.Stack)
		if nd.kills > 0 || nd.dirty {
			props += " C08 C09"
		}
		nt.x.Fail(props, "node-crash:"+site(p.Stack), "node %s stopped: %s at %s", p.Name, p.Reason, p.Stack)
	}
}

func (nd *Node) onLine(l string) {
	nd.nt.w.Logf("%s| %s", nd.p.Name, clip(l, 200))
	switch {
	case strings.HasPrefix(l, "miner closed"):
		nd.nt.x.Fail("C17", "miner-stopped", "%s: %s", nd.name, l)
	case strings.Contains(l, "http: panic serving"):
		nd.nt.x.Fail("C16 C13", "http-handler-panic", "%s: %s", nd.name, l)
	case strings.HasPrefix(l, "!!! rewinding"):
		nd.nt.x.Probe("reorg-rewind")
	case strings.HasPrefix(l, "!!! mined"):
		nd.nt.x.Probe("mined")
	}
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// onDisk follows the saved head.
func (nd *Node) onDisk(op, path string) {
	if path != nd.save+"/head" {
		return
	}
	b, ok := nd.h.Disk.Peek(path)
	if !ok {
		return
	}
	id, ok := ref.ParseH(strings.TrimSpace(string(b)))
	if !ok {
		return
	}
	if !nd.noHead && len(nd.tl) > 0 && nd.tl[len(nd.tl)-1].i.Id == id {
		return
	}
	nd.newHead(id)
}

// loadFromDisk brings the entities of a chain from the node's records into
// the model.
func (nd *Node) loadFromDisk(id ref.H) string {
	s := nd.nt.S
	for k := id; !k.Zero() && s.Blks[k] == nil; {
		raw, ok := nd.h.Disk.Peek(nd.save + "/blocks/" + k.String())
		if !ok {
			return "no record of block " + k.Short()
		}
		b, _, _, ok := ref.ParseBlockRec(raw)
		if !ok || b.Hash() != k {
			return "bad record of block " + k.Short()
		}
		s.AddBlock(b)
		nd.nt.x.Checked(1)
		if e := nd.loadTree(b.Merkle); e != "" {
			delete(s.Blks, k)
			return e
		}
		k = b.Prev
	}
	return ""
}

func (nd *Node) loadTree(root ref.H) string {
	s := nd.nt.S
	q := []ref.H{root}
	for len(q) > 0 {
		id := q[0]
		q = q[1:]
		if s.Txs[id] != nil {
			continue
		}
		if m, ok := s.Mks[id]; ok {
			q = append(q, m.L, m.R)
			continue
		}
		if raw, ok := nd.h.Disk.Peek(nd.save + "/merkles/" + id.String()); ok {
			m, _, ok := ref.ParseMkRec(raw)
			if !ok || m.Hash() != id {
				return "bad record of node " + id.Short()
			}
			s.AddMk(m)
			q = append(q, m.L, m.R)
			continue
		}
		raw, ok := nd.h.Disk.Peek(nd.save + "/txs/" + id.String())
		if !ok {
			return "no record of " + id.Short()
		}
		t, _, ok := ref.ParseTxRec(raw)
		if !ok || t.Hash() != id {
			return "bad record of transaction " + id.Short()
		}
		s.AddTx(t)
	}
	return ""
}

// checkRecords compares the node's records of one block with the model.
func (nd *Node) checkRecords(i *ref.Info) {
	s := nd.nt.S
	x := nd.nt.x
	raw, ok := nd.h.Disk.Peek(nd.save + "/blocks/" + i.Id.String())
	if !ok {
		x.Fail("C10 C23 C08", "head-without-record", "%s adopted %s without a record of block %s", nd.name, i.Id.Short(), i.Id.Short())
		return
	}
	b, h, wk, ok := ref.ParseBlockRec(raw)
	if !ok || b.Hash() != i.Id {
		x.Fail("C10 C23", "bad-block-record", "%s has a bad record of block %s: %q", nd.name, i.Id.Short(), clip(string(raw), 300))
		return
	}
	if h != i.Height || wk.Int().Cmp(i.Work) != 0 {
		x.Fail("C10 C05", "bad-block-figures", "%s recorded height %d work %s for block %s, should be %d %s", nd.name, h, wk, i.Id.Short(), i.Height, ref.FromInt(i.Work))
	}
	x.Checked(1)
	for _, m := range s.TreeMks(i.B.Merkle) {
		raw, ok := nd.h.Disk.Peek(nd.save + "/merkles/" + m.String())
		if !ok {
			x.Fail("C10 C23 C08", "missing-merkle-record", "%s adopted %s without a record of node %s", nd.name, i.Id.Short(), m.Short())
			continue
		}
		mk, v, ok := ref.ParseMkRec(raw)
		if !ok || mk.Hash() != m || v != s.TreeSize(m) {
			x.Fail("C10", "bad-merkle-record", "%s has a bad record of node %s: %q (size should be %d)", nd.name, m.Short(), raw, s.TreeSize(m))
		}
		x.Checked(1)
	}
	for _, t := range i.Txs {
		raw, ok := nd.h.Disk.Peek(nd.save + "/txs/" + t.String())
		if !ok {
			x.Fail("C10 C23 C08", "missing-tx-record", "%s adopted %s without a record of transaction %s", nd.name, i.Id.Short(), t.Short())
			continue
		}
		tx, v, ok := ref.ParseTxRec(raw)
		if !ok || !tx.Same(s.Txs[t]) || v != tx.VSize() {
			x.Fail("C10", "bad-tx-record", "%s has a bad record of transaction %s: %q", nd.name, t.Short(), clip(string(raw), 300))
		}
		x.Checked(1)
	}
}

func ruleProps(bad string) string {
	p := "C05 C13 "
	bad = strings.TrimPrefix(bad, "bad-ancestor:")
	for strings.HasPrefix(bad, "bad-ancestor:") {
		bad = strings.TrimPrefix(bad, "bad-ancestor:")
	}
	switch bad {
	case "tx-spent-input", "tx-repeated", "unbalanced", "tx-overflow", "tx-double-input", "tx-no-surplus":
		return p + "C02 C04"
	case "tx-wrong-key", "tx-wrong-value", "tx-bad-signature", "tx-no-origin":
		return p + "C03 C02"
	case "coinbase-low", "coinbase-inputs", "coinbase-outputs", "second-coinbase":
		return p + "C02 C04"
	}
	return p + "C04"
}

// newHead judges a head change of a node.
func (nd *Node) newHead(id ref.H) {
	nt := nd.nt
	x := nt.x
	s := nt.S
	first := nd.noHead
	nd.noHead = false
	if e := nd.loadFromDisk(id); e != "" {
		x.Fail("C08 C10 C23 C05", "head-incomplete", "%s saved head %s but has %s", nd.name, id.Short(), e)
		return
	}
	i := s.Info(id)
	if i == nil {
		x.Fail("C08 C10 C23 C05", "head-incomplete", "%s saved head %s whose chain is incomplete", nd.name, id.Short())
		return
	}
	x.Checked(1)
	x.Probe("head-change")
	nt.w.Logf("%s head %s height %d", nd.name, id.Short(), i.Height)
	if i.Bad != "" {
		x.Fail(ruleProps(i.Bad), "adopted-invalid:"+strings.TrimPrefix(i.Bad, "bad-ancestor:"), "%s adopted block %s at height %d that breaks rule %s", nd.name, id.Short(), i.Height, i.Bad)
		return
	}
	var prev *ref.Info
	if len(nd.tl) > 0 {
		prev = nd.tl[len(nd.tl)-1].i
	}
	if prev != nil {
		if first {
			if i.Work.Cmp(prev.Work) < 0 {
				x.Fail("C08 C09", "restart-lost-chain", "%s restarted at head %s (height %d), it had %s (height %d)", nd.name, id.Short(), i.Height, prev.Id.Short(), prev.Height)
			}
		} else if i.Work.Cmp(prev.Work) <= 0 {
			x.Fail("C05", "head-not-heavier", "%s went from %s (work %v) to %s (work %v)", nd.name, prev.Id.Short(), prev.Work, id.Short(), i.Work)
		}
		if !ref.IsAncestor(prev, i) {
			x.Probe("reorg")
			d := 0
			for k := prev; !ref.IsAncestor(k, i); k = k.Parent() {
				d++
			}
			if d > 1 {
				x.Probe("reorg-deep")
			}
		}
	}
	base := prev
	for k := i; k.Height > 0 && (base == nil || !ref.IsAncestor(k, base)); k = k.Parent() {
		if int64(k.B.Time) > (nd.h.Wall()+nd.maxOff-nd.h.ClockNs)/1e9+3600 && !first {
			x.Fail("C04", "adopted-future-block", "%s adopted block %s with time %d, its clock says %d", nd.name, k.Id.Short(), k.B.Time, nd.h.Wall()/1e9)
		}
		nd.checkRecords(k)
		if len(k.Txs) > 1 {
			x.Probe("block-with-payments")
		}
	}
	// the ledger itself
	st := s.StateAt(i)
	want := new(big.Int).Mul(new(big.Int).SetUint64(nt.P.Reward), new(big.Int).SetUint64(i.Height))
	if st.Total().Cmp(want) != 0 {
		x.Fail("C02", "inflation", "%s adopted %s where all outputs sum to %v, %d rewards make %v", nd.name, id.Short(), st.Total(), i.Height, want)
	}
	nd.tl = append(nd.tl, headRec{nt.w.Now(), i, nd.inc, nd.h.Wall()})
	for _, f := range nt.hooks {
		f(nd, i)
	}
}

// head is the node's last adopted chain.
func (nd *Node) head() *ref.Info {
	if len(nd.tl) == 0 {
		return nd.nt.S.Gen
	}
	return nd.tl[len(nd.tl)-1].i
}

// window lists the states a node may have answered from between two instants.
func (nd *Node) window(start, end int64) []*ref.Info {
	var out []*ref.Info
	n := len(nd.tl)
	if n == 0 || nd.tl[0].at >= start {
		out = append(out, nd.nt.S.Gen)
	}
	for k, h := range nd.tl {
		next := int64(1) << 62
		if k+1 < n {
			next = nd.tl[k+1].at
		}
		if h.at <= end && next >= start {
			out = append(out, h.i)
		}
	}
	return out
}

// task runs fn beside the plan.
func (nt *Net) task(name string, fn func()) {
	nt.tasks = append(nt.tasks, nt.w.Harness(name, fn))
}

// setDrift changes a host's clock rate.
func setDrift(h *simrt.Host, pm int64) { h.SetDrift(pm) }
