package main

import (
	"time"

	"github.com/levilutz/basiccoin/verifsim/hx"
	"github.com/levilutz/basiccoin/verifsim/ref"
	"github.com/levilutz/basiccoin/verifsim/simrt"
)

// feed: one node, fed block trees by virtual peers while clients use it.

// vp is a virtual peer with its own task.
type vp struct {
	nt   *Net
	nd   *Node
	h    *simrt.Host
	id   string
	c    *vconn
	q    []func()
	stop bool
	busy bool
	task *simrt.Task
	n    int
	mut  *mut
	lie  *lie
	head ref.H
	// the peer keeps to the protocol; losing it is judged
	strict bool
	addrs  map[string]string
}

func (nt *Net) newVP(nd *Node, strict bool) *vp {
	v := &vp{nt: nt, nd: nd, h: nt.vhost(), strict: strict}
	v.id = ref.HL(ref.HU(nt.x.Plan.Seed), ref.HU(uint64(len(nt.vhosts)))).String()
	v.task = nt.w.Harness(v.h.Name, v.loop)
	return v
}

func (v *vp) do(fn func()) { v.q = append(v.q, fn) }

// conn makes sure there is a connection.
func (v *vp) conn() *vconn {
	if v.c != nil && v.c.err == nil && !v.c.e.Eof() {
		return v.c
	}
	if v.c != nil && v.c.e != nil {
		v.c.e.Close()
	}
	if !v.nd.up || v.nt.w.Now() < v.nd.readyAt {
		return nil
	}
	v.n++
	c := v.nt.dialNode(v.h, v.nd, v.id, v.mut)
	v.mut = nil
	c.lie = v.lie
	c.head = v.head
	c.addrs = v.addrs
	v.c = c
	if c.err != nil {
		c.e0close()
		return nil
	}
	return c
}

func (c *vconn) e0close() {
	if c.e != nil {
		c.e.Close()
	}
}

func (v *vp) loop() {
	for !v.stop {
		if len(v.q) > 0 {
			f := v.q[0]
			v.q = v.q[1:]
			v.busy = true
			f()
			v.busy = false
			continue
		}
		if v.c != nil && v.c.err == nil && !v.c.e.Eof() {
			v.c.poll(100 * time.Millisecond)
			v.lost("while idle")
			continue
		}
		simrt.Sleep(100 * time.Millisecond)
	}
	if v.c != nil {
		v.c.e0close()
	}
}

// lost judges the end of a connection of a peer that kept to the protocol.
func (v *vp) lost(when string) {
	c := v.c
	if c == nil || c.err == nil || c.err == errMut || !v.strict || c.broke || c.lie != nil {
		return
	}
	if c.refused || c.judged || c.closedBy == "peer" || v.nt.faulty || v.nd.h.Slow > 1 || !v.nd.up || v.nd.inc != c.inc {
		return
	}
	c.judged = true
	v.nt.x.Fail("C12 C11 C13", "peer-dropped", "%s: %s lost its connection (%v) %s, it kept to the protocol", v.nd.name, c.label, c.err, when)
}

// drained waits until the peer has nothing left to do.
func (v *vp) drained(max time.Duration) bool {
	end := v.nt.w.Now() + int64(max)
	for (len(v.q) > 0 || v.busy) && v.nt.w.Now() < end {
		simrt.Sleep(50 * time.Millisecond)
	}
	return len(v.q) == 0 && !v.busy
}

// timely tells whether every block of a chain has a time the node accepts.
func (nd *Node) timely(i *ref.Info) bool {
	lim := uint64(nd.h.Wall()/1e9) + 3600 - 10
	for k := i; k.Height > 0; k = k.Parent() {
		if k.B.Time > lim {
			return false
		}
	}
	return true
}

// offer delivers a chain to the node and judges what becomes of it. It returns
// whether the chain was delivered or not needed.
func (v *vp) offer(i *ref.Info, tries int) bool {
	x := v.nt.x
	w := v.nt.w
	nd := v.nd
	v.head = i.Id
	for try := 0; try < tries; try++ {
		c := v.conn()
		if c == nil {
			simrt.Sleep(500 * time.Millisecond)
			continue
		}
		c.head = i.Id
		inc := nd.inc
		c.inc = inc
		ok := c.syncNow()
		if ok && (c.complete || (c.got != nil && !c.got.work.Less(c.work()))) {
			if !c.complete {
				return true
			}
			// adopted within bounded time?
			if i.Bad != "" || !nd.timely(i) || v.lie != nil {
				return true
			}
			end := w.Now() + int64(20*time.Second)
			if nd.h.Slow > 1 || nd.h.Disk.SlowPM > 0 {
				end += int64(60 * time.Second)
			}
			for nd.up && nd.inc == inc && nd.head().Work.Cmp(i.Work) < 0 && w.Now() < end && !v.stop {
				if !c.poll(100*time.Millisecond) && c.err != nil {
					simrt.Sleep(100 * time.Millisecond)
				}
			}
			if nd.up && nd.inc == inc && nd.head().Work.Cmp(i.Work) < 0 && !nd.dirty && !v.stop {
				props := "C05 C07 C04"
				if nd.inc > 1 {
					props = "C05 C09 C07 C04"
				}
				x.Fail(props, "delivered-not-adopted", "%s was completely delivered valid chain %s (height %d work %v) and stays at %s (height %d work %v)", nd.name, i.Id.Short(), i.Height, i.Work, nd.head().Id.Short(), nd.head().Height, nd.head().Work)
			}
			x.Checked(1)
			x.Probe("adoption-judged")
			return true
		}
		if c.refused && c.refusing == i.Id && i.Bad == "" && nd.timely(i) && nd.up && nd.inc == inc && !c.broke && c.lie == nil && v.strict {
			// only a chain that is no longer heavier may be refused
			simrt.Sleep(3 * time.Second)
			if nd.head().Work.Cmp(i.Work) < 0 && !nd.dirty && nd.inc == inc {
				x.Fail("C07 C04 C05", "refused-valid-chain", "%s refused valid chain %s (height %d) being at height %d", nd.name, i.Id.Short(), i.Height, nd.head().Height)
			}
			return true
		}
		if c.refused {
			return true
		}
		v.lost("during a sync")
		if ok {
			// the node had the head already, without having adopted it
			simrt.Sleep(300 * time.Millisecond)
			if nd.head().Work.Cmp(i.Work) >= 0 || i.Bad != "" {
				return true
			}
			continue
		}
		simrt.Sleep(500 * time.Millisecond)
	}
	return false
}

func init() {
	hx.Register(&hx.Scenario{Name: "feed", Gen: genFeed, Run: runFeed, Opt: netOptions})
	hx.Register(&hx.Scenario{Name: "crash", Gen: genCrash, Run: runFeed, Opt: netOptions})
	extraOps["grow"] = func(nt *Net, op hx.Op) { nt.fd.grow(op) }
	extraOps["bad"] = func(nt *Net, op hx.Op) { nt.fd.bad(op) }
	extraOps["offer"] = func(nt *Net, op hx.Op) { nt.fd.offer(op) }
	extraOps["vtx"] = func(nt *Net, op hx.Op) { nt.fd.vtx(op) }
	extraOps["vsame"] = func(nt *Net, op hx.Op) { nt.fd.same(op) }
	extraOps["half"] = func(nt *Net, op hx.Op) { nt.fd.half(op) }
	extraOps["vidle"] = func(nt *Net, op hx.Op) { nt.fd.hangup(op) }
}

// feed is the block tree and the peers of a run.
type feed struct {
	nt    *Net
	nd    *Node
	vps   []*vp
	valid []*ref.Info
	bads  []*ref.Info
	told  []told
	ad    *adv
}

// told is a transaction some peers should hear about.
type told struct {
	id  ref.H
	t   *ref.Tx
	at  int64
	inc int
	to  []*vp
	cs  []*vconn
}

func genFeedCfg(r *simrt.RNG, p *hx.Plan) {
	drawSim(r, p)
	drawParams(r, p)
	p.Cfg["vps"] = int64(1 + r.N(3))
	if r.N(3) == 0 {
		p.Cfg["maxblock"] = int64(1500 + r.N(4000))
	}
	if r.N(4) == 0 {
		p.Cfg["maxtx"] = int64(700 + r.N(1500))
	}
}

// treeOps draws the growth of a block tree and what is offered of it.
func treeOps(r *simrt.RNG, p *hx.Plan, from, n int64, gap int, badPct int) int64 {
	t := from
	for k := int64(0); k < n; k++ {
		t += int64(50 + r.N(gap))
		s := int64(r.U64() >> 1)
		// base: 0 newest, else a random earlier block; length; edge kind+1
		base := int64(0)
		if r.N(3) == 0 {
			base = int64(1 + r.N(1000))
		}
		ek := int64(0)
		if r.N(3) == 0 {
			ek = 1 + int64(r.N(edgeKinds))
		}
		p.Add(t, "grow", base, int64(1+r.N(4)), s, ek, int64(r.N(5)))
		if r.N(100) < badPct {
			p.Add(t+1, "bad", int64(r.N(6)), int64(r.N(badKinds)), int64(r.U64()>>1), int64(r.N(3)))
			p.Add(t+2, "offer", int64(r.N(8)), 1, 0)
		}
		if badPct > 0 && r.N(6) == 0 {
			p.Add(t+2, "half", int64(r.N(8)), int64(r.N(4)), int64(r.U64()>>1), int64(1+r.N(3)), int64(r.N(3)))
		}
		if r.N(3) > 0 {
			off := int64(0)
			if r.N(4) == 0 {
				off = int64(1 + r.N(1000))
			}
			p.Add(t+3, "offer", int64(r.N(8)), 0, off)
		}
		if r.N(12) == 0 {
			p.Add(t+4, "offer", int64(r.N(8)), 1, int64(r.N(1000)))
		}
	}
	return t
}

func clientOps(r *simrt.RNG, p *hx.Plan, from, to int64, gap int) {
	for t := from; t < to; t += int64(20 + r.N(gap)) {
		switch r.N(9) {
		case 8:
			if r.N(3) == 0 {
				p.Add(t, "vsame", int64(r.N(2)), int64(r.N(60)), int64(r.U64()>>1))
			}
		case 0, 1:
			p.Add(t, "pay", 0, int64(r.N(16)), int64(r.U64()>>1))
		case 2:
			p.Add(t, "vtx", int64(r.N(8)), int64(r.N(badTxKinds+6)), int64(r.U64()>>1))
		default:
			p.Add(t, "query", 0, int64(r.N(10)), int64(r.U64()>>1))
		}
	}
}

func genFeed(r *simrt.RNG, p *hx.Plan, thorough bool) {
	genFeedCfg(r, p)
	p.Cfg["miner"] = int64(r.N(4) / 3)
	if p.Cfg["miner"] > 0 && p.Cfg["maxblock"] > 0 && r.N(2) == 0 {
		p.Add(int64(3000+r.N(20000)), "flood", 0, int64(5+r.N(30)), int64(r.U64()>>1))
	}
	n := int64(4 + r.N(16))
	if thorough {
		n = int64(4 + r.N(50))
	}
	p.Add(0, "start", 0)
	end := treeOps(r, p, 2000, n, []int{200, 1500, 5000}[r.N(3)], []int{0, 30, 70}[r.N(3)])
	clientOps(r, p, 2500, end+2000, []int{60, 600, 3000}[r.N(3)])
	if r.N(4) == 0 {
		t := int64(3000 + r.N(int(end)))
		p.Add(t, "kill", 0)
		p.Add(t+int64(r.N(4000)), "restart", 0)
	}
	if r.N(6) == 0 {
		p.Add(int64(r.N(int(end))), "diskslow", 0, int64(100+r.N(700)))
	}
	if r.N(4) == 0 {
		p.Add(int64(3000+r.N(int(end))), "vidle", int64(r.N(8)))
	}
	hiccups(r, p, end, 1)
}

func genCrash(r *simrt.RNG, p *hx.Plan, thorough bool) {
	genFeedCfg(r, p)
	p.Cfg["miner"] = int64(r.N(2))
	n := int64(4 + r.N(10))
	if thorough {
		n = int64(6 + r.N(40))
	}
	p.Add(0, "start", 0)
	gap := []int{300, 1500}[r.N(2)]
	end := treeOps(r, p, 2000, n, gap, []int{0, 0, 30}[r.N(3)])
	clientOps(r, p, 2500, end+2000, []int{200, 1500}[r.N(2)])
	k := 1 + r.N(4)
	for j := 0; j < k; j++ {
		t := int64(1000 + r.N(int(end)))
		down := int64(r.N(3000))
		switch r.N(7) {
		case 0:
			p.Add(t, "kill", 0)
		case 6: // around the saving of the head
			p.Add(t, "killdisk", 0, int64(r.N(6)), []int64{0, 30, 70, 100}[r.N(4)], 1)
		case 1, 2, 3:
			p.Add(t, "killdisk", 0, int64(r.N(40)), []int64{0, 30, 70, 100}[r.N(4)])
		case 4:
			p.Add(t, "killy", 0, int64(r.N(60000)))
		case 5:
			p.Add(t, "poweroff", 0)
		}
		p.Add(t+2000+down, "restart", 0)
		if r.N(2) == 0 { // what is left of its ledger
			p.Add(t+2000+down+int64(1050+r.N(400)), "query", 0, []int64{0, 0, 1, 2, 5}[r.N(5)], int64(r.N(1000)))
		}
		if r.N(3) == 0 { // again while it restores
			p.Add(t+2001+down, "killdisk", 0, int64(r.N(30)), []int64{0, 50, 100}[r.N(3)])
			p.Add(t+4000+down, "restart", 0)
		}
	}
	hiccups(r, p, end, 1)
}

func runFeed(x *hx.Run) {
	nt := newNet(x)
	p := x.Plan
	nd := nt.addNode()
	nd.newNet = true
	nt.crashProps = "C13 C04"
	if p.C("miner") > 0 {
		nd.miners = int(p.C("miner"))
		nd.paused = true
	}
	f := &feed{nt: nt, nd: nd}
	nt.fd = f
	for k := int64(0); k < p.C("vps"); k++ {
		f.vps = append(f.vps, nt.newVP(nd, true))
	}
	nt.runOps(p.Ops)
	for _, v := range f.vps {
		v.drained(120 * time.Second)
	}
	nt.calm()
	nt.settle(200 * time.Second)
	simrt.Sleep(3 * time.Second)
	if len(f.told) > 0 {
		for k := 0; k < 100; k++ {
			simrt.Sleep(2 * time.Second)
			at := int64(0)
			for _, v := range f.vps {
				if v.c != nil && v.c.last > at {
					at = v.c.last
				}
			}
			if nt.w.Now()-at > int64(5*time.Second) {
				break
			}
		}
		f.heard()
	}
	f.finish()
}

// finish offers the heaviest chain and checks the node at rest.
func (f *feed) finish() {
	nt := f.nt
	nd := f.nd
	x := nt.x
	for _, v := range f.vps {
		v.stop = true
		v.nt.w.Join(v.task)
	}
	var best *ref.Info
	for _, i := range f.valid {
		if nd.timely(i) && (best == nil || i.Work.Cmp(best.Work) > 0) {
			best = i
		}
	}
	if !nd.up {
		return // the crash has been reported
	}
	if best != nil && best.Work.Cmp(nd.head().Work) > 0 {
		v := nt.newVP(nd, true)
		done := false
		var okd bool
		v.do(func() { okd = v.offer(best, 20); done = true })
		end := nt.w.Now() + int64(180*time.Second)
		for !done && nt.w.Now() < end {
			simrt.Sleep(100 * time.Millisecond)
		}
		simrt.Sleep(2 * time.Second)
		if nd.up && !nd.dirty && nd.head().Work.Cmp(best.Work) < 0 {
			props := "C07 C05"
			if nd.inc > 1 {
				props = "C09 C07 C05"
			}
			x.Fail(props, "cannot-sync", "%s at height %d does not obtain valid chain %s (height %d) from a peer that has it (delivered %v)", nd.name, nd.head().Height, best.Id.Short(), best.Height, okd)
		}
		v.stop = true
		nt.w.Join(v.task)
	}
	nt.finalChecks()
	f.resume()
	nd.sweep()
	f.download()
	nt.leftovers(nd)
}

// resume submits transactions from before the last restart again, which the
// node must treat as it would treat new ones.
func (f *feed) resume() {
	nt, nd, x := f.nt, f.nd, f.nt.x
	if !nd.up || nd.dirty || !nd.http || len(nt.accepted) == 0 {
		return
	}
	for nd.noHead && nd.head().Height > 0 && nt.w.Now() < nd.readyAt+int64(20*time.Second) {
		simrt.Sleep(time.Second)
	}
	inc := nd.inc
	head := nd.head()
	st := nt.S.StateAt(head)
	used := map[ref.Utxo]bool{}
	for id := range nd.known {
		for _, in := range nt.S.Txs[id].Inputs {
			used[in.Utxo] = true
		}
	}
	var again []*sub
	room := nt.P.MaxBlock - 300
	seen := map[ref.H]bool{}
	for _, s := range nt.accepted {
		_, done := st.Incl[s.id]
		ok := s.ok && s.inc < inc && !done && !seen[s.id] && s.t.MinBlock <= head.Height && s.t.VSize() < room
		for _, in := range s.t.Inputs {
			if _, have := st.Utxos[in.Utxo]; !have || used[in.Utxo] {
				ok = false
			}
		}
		if !ok || len(again) >= 4 {
			continue
		}
		seen[s.id] = true
		for _, in := range s.t.Inputs {
			used[in.Utxo] = true
		}
		again = append(again, s)
	}
	if len(again) == 0 {
		return
	}
	x.Probe("resumed")
	n := len(nt.accepted)
	for _, s := range again {
		nt.post(nd, s.t, simrt.HTTPFault{})
	}
	again = nt.accepted[n:]
	for k := 0; k < 3; k++ {
		nt.query(nd, 2+k%2, nt.r.U64())
		nt.query(nd, 5+k%2, nt.r.U64())
	}
	if nd.miners == 0 {
		return
	}
	nd.paused = false
	nt.hush()
	h0 := nd.head().Height
	most := h0 + 6 + uint64(len(nd.known))
	limit := nt.w.Now() + int64(1800*time.Second)
	for nd.up && nd.inc == inc {
		simrt.Sleep(time.Second)
		miss := ""
		st := nt.S.StateAt(nd.head())
		for _, s := range again {
			if _, done := st.Incl[s.id]; !done && nt.stillSpendable(s, st) {
				miss = s.id.Short()
			}
		}
		if miss == "" {
			x.Probe("resumed-confirmed")
			break
		}
		if nd.head().Height > most {
			x.Fail("C09 C18 C19 C17", "resubmitted-not-confirmed", "%s mined %d blocks since it was given transaction %s again after a restart, and did not confirm it", nd.name, nd.head().Height-h0, miss)
			break
		}
		if nt.w.Now() > limit {
			if nd.head().Height == h0 {
				x.Fail("C17 C09", "no-growth", "%s mined nothing in half an hour", nd.name)
			}
			break
		}
	}
	nd.paused = true
	simrt.Sleep(15 * time.Second)
	nt.finalChecks()
}

// download fetches the node's chain as a new peer that has nothing.
func (f *feed) download() {
	nt := f.nt
	if !f.nd.up || f.nd.dirty || f.nd.head().Height == 0 {
		return
	}
	c := nt.dialNode(nt.vhost(), f.nd, ref.HL(ref.HU(nt.x.Plan.Seed), ref.HU(9999)).String(), nil)
	c.inc = f.nd.inc
	c.full = 1
	ok := c.err == nil && c.syncNow()
	if !ok || !c.complete {
		nt.x.Fail("C23 C07", "chain-not-served", "%s does not serve its chain of height %d to a new peer: %v", f.nd.name, f.nd.head().Height, c.err)
	}
	c.e0close()
}

func (f *feed) vp(k int64) *vp { return f.vps[int(k)%len(f.vps)] }

// grow: base, n, seed, edge, maxTx.
func (f *feed) grow(op hx.Op) {
	nt := f.nt
	r := simrt.NewRNG(uint64(op.Arg(2)))
	base := nt.S.Gen
	if n := len(f.valid); n > 0 {
		base = f.valid[n-1]
		if b := op.Arg(0); b > 0 {
			back := int(b) % 12
			if back >= n {
				base = nt.S.Gen
				if b%3 > 0 {
					base = f.valid[int(b)%n]
				}
			} else {
				base = f.valid[n-1-back]
			}
		}
	}
	// sometimes on the node's own chain
	if h := f.nd.head(); op.Arg(2)%5 == 0 && h.Height > 0 {
		base = h
	}
	if ref.WorkOf(nt.S.NextTarget(base)).BitLen() > 13 {
		base = nt.S.Gen
	}
	i := base
	if op.Arg(3) == 0 {
		for k := int64(0); k < op.Arg(1); k++ {
			i = nt.grow(r, i, 1, int(op.Arg(4)), true)
			f.valid = append(f.valid, i)
			if ref.WorkOf(nt.S.NextTarget(i)).BitLen() > 13 {
				break
			}
		}
		return
	}
	if c := nt.edge(r, i, int(op.Arg(3)-1)); c != nil {
		f.valid = append(f.valid, c)
	}
}

// bad: back, kind, seed, children.
func (f *feed) bad(op hx.Op) {
	r := simrt.NewRNG(uint64(op.Arg(2)))
	base := f.nt.S.Gen
	if n := len(f.valid); n > 0 {
		b := int(op.Arg(0))
		if b >= n {
			b = n - 1
		}
		base = f.valid[n-1-b]
	}
	if ref.WorkOf(f.nt.S.NextTarget(base)).BitLen() > 13 {
		return
	}
	i := f.nt.broken(r, base, int(op.Arg(1)))
	if i == nil {
		return
	}
	if i.Bad == "" { // valid but for the clock
		f.bads = append(f.bads, i)
		return
	}
	n := int(op.Arg(3))
	if i.Bad == "no-work" || i.Bad == "target" && !i.B.Target.Less(f.nt.P.MaxTarget) {
		n = 0
	}
	f.bads = append(f.bads, f.nt.onBad(r, i, n))
}

// offer: vp, bad?, back.
func (f *feed) offer(op hx.Op) {
	l := f.valid
	if op.Arg(1) == 1 {
		l = f.bads
	}
	if len(l) == 0 {
		return
	}
	i := l[len(l)-1]
	if b := int(op.Arg(2)); b > 0 {
		i = l[len(l)-1-(b-1)%len(l)]
	}
	v := f.vp(op.Arg(0))
	if len(v.q) < 6 {
		v.do(func() { v.offer(i, 3) })
	}
}

// vtx: vp, kind, seed: a transaction arrives from a peer.
func (f *feed) vtx(op hx.Op) {
	v := f.vp(op.Arg(0))
	if len(v.q) < 6 {
		v.do(func() { f.sendTx(v, int(op.Arg(1)), uint64(op.Arg(2))) })
	}
}

func (f *feed) sendTx(v *vp, kind int, seed uint64) {
	nt := f.nt
	nd := f.nd
	r := simrt.NewRNG(seed)
	head := nd.head()
	us := nt.spendable(head)
	if len(us) == 0 {
		return
	}
	u := us[r.N(len(us))]
	if u.Value < 4 {
		return
	}
	var t *ref.Tx
	switch {
	case kind < badTxKinds:
		if t = nt.badTx(r, u, us, kind); t == nil {
			return
		}
	case kind == badTxKinds && len(nt.accepted) > 0:
		t = nt.accepted[r.N(len(nt.accepted))].t
	default:
		t = nt.payFrom(r, []ref.Utxo{u}, 1+r.Intn(u.Value/2), 1+r.N(3), 0)
	}
	f.deliver(v, t, kind > badTxKinds)
}

// deliver sends a transaction to the node and judges what becomes of it.
func (f *feed) deliver(v *vp, t *ref.Tx, fresh bool) {
	nt := f.nt
	nd := f.nd
	c := v.conn()
	if c == nil {
		return
	}
	head := nd.head()
	id := nt.S.AddTx(t)
	bad := nt.S.CheckTx(t)
	inc := nd.inc
	tl := told{id: id, t: t, at: nt.w.Now(), inc: inc}
	for _, o := range f.vps {
		if o != v && o.c != nil && o.c.err == nil && o.c.inc == inc && (len(o.c.cmds) > 0 || o.c.got != nil) && nt.w.Now()-o.c.e.OpenedAt > int64(5*time.Second) {
			tl.to = append(tl.to, o)
			tl.cs = append(tl.cs, o.c)
		}
	}
	c.inc = inc
	_, ok := c.sendTx(t)
	if !ok {
		v.lost("sending a transaction")
		return
	}
	if bad != "" {
		nt.x.Probe("bad-tx-from-peer")
		return
	}
	nt.x.Probe("tx-from-peer")
	// it becomes known
	end := nt.w.Now() + int64(20*time.Second)
	if nd.h.Disk.SlowPM > 0 || nd.h.Slow > 1 {
		end += int64(60 * time.Second)
	}
	for nd.up && nd.inc == inc && !nt.knows(nd, id) && nt.w.Now() < end && !v.stop {
		c.poll(100 * time.Millisecond)
		if c.err != nil {
			simrt.Sleep(100 * time.Millisecond)
		}
	}
	if nd.up && nd.inc == inc && !nd.dirty && !v.stop && !nt.knows(nd, id) && ref.IsAncestor(head, nd.head()) {
		nt.x.Fail("C18 C13", "peer-tx-ignored", "%s got valid transaction %s from a peer and does not know it 20 s later", nd.name, id.Short())
	}
	if fresh && nd.inc == inc && nt.knows(nd, id) {
		f.told = append(f.told, tl)
	}
}

// heard checks that the other peers were told about new transactions.
func (f *feed) heard() {
	nd := f.nd
	nt := f.nt
	if nd.dirty {
		return
	}
	for _, tl := range f.told {
		if nd.inc != tl.inc || !nd.up {
			continue
		}
		// could it be included all the time until it was known everywhere?
		open := true
		for _, i := range nd.window(tl.at, tl.at+int64(60*time.Second)) {
			st := nt.S.StateAt(i)
			for _, in := range tl.t.Inputs {
				if _, ok := st.Utxos[in.Utxo]; !ok {
					open = false
				}
			}
		}
		if !open {
			continue
		}
		for k, v := range tl.to {
			c := tl.cs[k]
			if len(v.q) > 0 || v.busy || nt.w.Now()-c.last < int64(4*time.Second) {
				continue
			}
			if v.c != c || c.err != nil || c.e.Eof() || c.broke || c.lie != nil {
				continue
			}
			nt.x.Checked(1)
			nt.x.Probe("relay-judged")
			if c.seenTx[tl.id] == 0 {
				nt.x.Fail("C18", "tx-not-announced", "%s learned transaction %s from one peer and never told %s", nd.name, tl.id.Short(), c.label)
			}
		}
	}
}

// same: http?, jitter, seed: every peer brings one transaction at a time.
func (f *feed) same(op hx.Op) {
	nt := f.nt
	nd := f.nd
	r := simrt.NewRNG(uint64(op.Arg(2)))
	us := nt.spendable(nd.head())
	if len(us) == 0 || !nd.up {
		return
	}
	u := us[r.N(len(us))]
	if u.Value < 4 {
		return
	}
	t := nt.payFrom(r, []ref.Utxo{u}, 1+r.Intn(u.Value/2), 1+r.N(3), 0)
	at := nt.w.Now() + int64(3*time.Second)
	for _, v := range f.vps {
		v := v
		if len(v.q) >= 6 {
			continue
		}
		d := at + int64(r.N(int(op.Arg(1))+1))*1e6
		v.do(func() {
			c := v.conn()
			if c == nil {
				return
			}
			for nt.w.Now() < d && c.err == nil {
				if c.e.Buffered() > 0 {
					c.poll(0)
					continue
				}
				simrt.Sleep(time.Millisecond)
			}
			nt.x.Probe("same-tx-from-peers")
			f.deliver(v, t, false)
			if v.c == c && c.err == nil {
				c.command("ping", func() {})
			}
			v.lost("after a transaction others brought too")
		})
	}
	if op.Arg(0) == 1 {
		nt.task("post", func() {
			simrt.Sleep(time.Duration(at - nt.w.Now()))
			if nd.up && nt.w.Now() > nd.readyAt {
				nt.post(nd, t, simrt.HTTPFault{})
			}
		})
	}
}

// half: vp, back, seed, prefix length, children: a chain with payments whose
// start is valid and which later breaks a rule that takes the ledger to see,
// then its valid start again, and more on it.
func (f *feed) half(op hx.Op) {
	nt := f.nt
	r := simrt.NewRNG(uint64(op.Arg(2)))
	base := f.nd.head()
	for k := int64(0); k < op.Arg(1) && base.Height > 0; k++ {
		base = base.Parent()
	}
	n := int(op.Arg(3) + op.Arg(1))
	i := base
	for k := 0; k < n; k++ {
		if ref.WorkOf(nt.S.NextTarget(i)).BitLen() > 12 {
			return
		}
		i = nt.grow(r, i, 1, 4, true)
	}
	var b *ref.Info
	for try := 0; try < 8 && b == nil; try++ {
		b = nt.broken(r, i, 13+r.N(6))
	}
	if b == nil || b.Bad == "" {
		return
	}
	b = nt.onBad(r, b, int(op.Arg(4)))
	f.bads = append(f.bads, b)
	f.valid = append(f.valid, i)
	j := nt.grow(r, i, 1, 4, true)
	f.valid = append(f.valid, j)
	o := f.vp(op.Arg(0))
	nt.x.Probe("half-valid-chain")
	nq := r.N(5)
	qs := r.U64()
	o.do(func() {
		o.offer(b, 2)
		for k := 0; k < nq && f.nd.up && nt.w.Now() > f.nd.readyAt; k++ {
			nt.query(f.nd, (int(qs%10)+k*3)%10, qs+uint64(k))
		}
	})
	v := o
	if r.N(2) == 0 {
		v = f.vp(op.Arg(0) + 1)
	}
	if r.N(3) > 0 {
		v.do(func() { v.offer(i, 3) })
	}
	v.do(func() { v.offer(j, 3) })
}

func (f *feed) hangup(op hx.Op) {
	v := f.vp(op.Arg(0))
	v.do(func() {
		if v.c != nil && v.c.err == nil {
			v.c.fail(errMut)
			v.c.e0close()
		}
	})
}
