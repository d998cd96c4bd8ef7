package main

import (
	"fmt"
	"time"

	"github.com/levilutz/basiccoin/verifsim/hx"
	"github.com/levilutz/basiccoin/verifsim/ref"
	"github.com/levilutz/basiccoin/verifsim/simrt"
)

// join: nodes that already hold different chains meet, and nobody mines. What
// each obtains it can only obtain because it connected.

func init() {
	hx.Register(&hx.Scenario{Name: "join", Gen: genJoin, Run: runJoin, Opt: netOptions})
	extraOps["jstart"] = func(nt *Net, op hx.Op) {
		if nd := nt.nodes[int(op.Arg(0))%len(nt.nodes)]; !nd.up {
			nd.start()
		}
	}
	extraOps["jgive"] = func(nt *Net, op hx.Op) {
		nd := nt.nodes[int(op.Arg(0))%len(nt.nodes)]
		nt.task("give", func() { nt.give(nd, op.Arg(1), op.Arg(2), uint64(op.Arg(3))) })
	}
}

// give extends a node's chain by some blocks while it meets the others. armed:
// each is offered right after the node began another link.
func (nt *Net) give(nd *Node, k, armed int64, seed uint64) {
	r := simrt.NewRNG(seed)
	v := nt.newVP(nd, true)
	defer func() { v.stop = true }()
	for ; k > 0 && !nt.gaveAll; k-- {
		if armed > 0 {
			at := nt.w.Now()
			for end := at + int64(30*time.Second); nt.lastLink[nd] < at && nt.w.Now() < end && !nt.gaveAll; {
				simrt.Sleep(time.Millisecond)
			}
			simrt.Sleep(time.Duration(r.N(1<<(1+r.N(9)))) * time.Millisecond)
		} else {
			simrt.Sleep(time.Duration(r.N(3000)) * time.Millisecond)
		}
		if !nd.up || nt.w.Now() < nd.readyAt || nd.save == "" {
			continue
		}
		h := nd.head()
		if ref.WorkOf(nt.S.NextTarget(h)).BitLen() > 13 {
			return
		}
		i := nt.grow(r, h, 1+r.N(2), 2, true)
		if !timelyAt(i, nt.w.NowUnix()) {
			return
		}
		done := false
		v.do(func() {
			v.offer(i, 2)
			done = true
		})
		for end := nt.w.Now() + int64(60*time.Second); !done && nt.w.Now() < end; {
			simrt.Sleep(20 * time.Millisecond)
		}
		nt.x.Probe("given-while-joining")
	}
}

func genJoin(r *simrt.RNG, p *hx.Plan, thorough bool) {
	genFeedCfg(r, p)
	n := 1 + r.N(4)
	p.Cfg["n"] = int64(n)
	p.Cfg["vseed"] = int64(r.N(2)) // a virtual peer is the first seed
	if n == 1 {
		p.Cfg["vseed"] = 1
	}
	p.Cfg["topo"] = int64(r.N(3))
	k := []int{6, 20, 50}[r.N(3)]
	if n > 1 && r.N(2) == 0 {
		p.Cfg["meet"] = 5
		k = 6
	}
	if thorough && r.N(4) == 0 {
		k = 200
	}
	p.Cfg["trunk"] = int64(r.N(k))
	for i := 0; i <= n; i++ {
		p.Cfg[fmt.Sprintf("len%d", i)] = int64(r.N(1 + r.N(k)))
		p.Cfg[fmt.Sprintf("back%d", i)] = int64(r.N(1 + r.N(k)))
	}
	p.Cfg["empty"] = int64(r.N(8)) // which nodes start with nothing
	p.Cfg["mem"] = int64(r.N(3) / 2)
	p.Cfg["auto"] = int64(r.N(2))
	t := int64(0)
	for i := 0; i < n; i++ {
		p.Add(t, "jstart", int64(i))
		t += int64(r.N([]int{10, 2000, 8000}[r.N(3)]))
	}
	t += 2000
	for k := r.N(4); k > 0; k-- {
		p.Add(int64(r.N(int(t))), "query", int64(r.N(n)), int64(r.N(10)), int64(r.U64()>>1))
	}
	hiccups(r, p, t, n)
	if r.N(2) == 0 { // chains grow as the nodes meet
		for k := 1 + r.N(2); k > 0; k-- {
			p.Add(int64(r.N(int(t))), "jgive", int64(r.N(n)), int64(1+r.N(4)), int64(r.N(2)), int64(r.U64()>>1))
		}
	}
	if r.N(3) > 0 {
		return
	}
	for k := 1 + r.N(3); k > 0; k-- {
		at := int64(r.N(int(t) + 4000))
		i, j := int64(r.N(n)), int64(r.N(n))
		hold := int64(300 + r.N(20000))
		switch r.N(8) {
		case 0:
			p.Add(at, "kill", i)
			p.Add(at+hold, "restart", i)
		case 1:
			p.Add(at, "killdisk", i, int64(r.N(60)), []int64{0, 30, 70, 100}[r.N(4)])
			p.Add(at+hold, "restart", i)
		case 2:
			p.Add(at, "cut", i, j)
			p.Add(at+hold, "heal", i, j)
		case 3:
			p.Add(at, "reset", i, j)
		case 4:
			p.Add(at, "loss", i, j, int64(5+r.N(40)))
			p.Add(at+hold, "loss", i, j, 0)
		case 5:
			p.Add(at, "lat", i, j, int64(r.N(2500)))
			p.Add(at+hold, "lat", i, j, 0)
		case 6:
			p.Add(at, "slow", i, int64(2+r.N(20)))
			p.Add(at+hold, "slow", i, 1)
		case 7:
			p.Add(at, "term", i)
			p.Add(at+hold, "restart", i)
		}
	}
}

func runJoin(x *hx.Run) {
	nt := newNet(x)
	p := x.Plan
	n := int(p.C("n"))
	r := simrt.NewRNG(p.Seed ^ 0x101)
	// the chains
	var all []*ref.Info
	hard := func(i *ref.Info) bool { return ref.WorkOf(nt.S.NextTarget(i)).BitLen() > 13 }
	grow := func(i *ref.Info, k int) *ref.Info {
		for ; k > 0 && !hard(i); k-- {
			var c *ref.Info
			if r.N(4) == 0 {
				c = nt.edge(r, i, r.N(edgeKinds))
			}
			if c == nil || !timelyAt(c, nt.w.NowUnix()) {
				c = nt.grow(r, i, 1, 3, true)
			}
			if !timelyAt(c, nt.w.NowUnix()) {
				break
			}
			i = c
			all = append(all, i)
		}
		return i
	}
	trunk := grow(nt.S.Gen, int(p.C("trunk")))
	tips := make([]*ref.Info, n+1)
	for k := range tips {
		b := trunk
		if k > 0 && r.N(3) == 0 {
			b = tips[r.N(k)]
		}
		for d := p.C(fmt.Sprintf("back%d", k)); d > 0 && b.Height > 0; d-- {
			b = b.Parent()
		}
		tips[k] = grow(b, int(p.C(fmt.Sprintf("len%d", k))))
	}
	// the nodes get theirs
	for k := 0; k < n; k++ {
		nd := nt.addNode()
		nd.newNet = true
		if p.C("mem") > 0 && k == n-1 {
			nd.save = ""
			continue
		}
		if p.C("empty")>>k&1 != 0 || tips[k].Height == 0 {
			continue
		}
		nt.load(nd, r, all, tips[k])
		if !nd.up {
			return // reported
		}
	}
	for _, nd := range nt.nodes {
		if nd.up {
			nd.kill()
		}
		nd.newNet = false
	}
	var vs *simrt.Host
	if p.C("vseed") > 0 {
		vs = nt.vhost()
		id := ref.HL(ref.HU(p.Seed), ref.HU(77)).String()
		nt.vlisten(vs, p2pPort, id, func(c *vconn) {
			c.head = tips[n].Id
			for c.err == nil && !c.e.Eof() {
				c.poll(100 * time.Millisecond)
				if h := nt.S.Info(c.peerHead); h != nil && h.Bad == "" && c.got != nil && h.Work.Cmp(nt.S.Info(c.head).Work) > 0 {
					c.head = h.Id
				}
			}
			c.e0close()
		})
	}
	for k, nd := range nt.nodes {
		switch {
		case k == 0:
			if vs != nil {
				nd.seeds = []string{fmt.Sprintf("%s:%d", vs.IP, p2pPort)}
			} else {
				nd.newNet = true
			}
		case p.C("topo") == 0:
			nd.seeds = []string{nt.nodes[k-1].addr()}
		case p.C("topo") == 1:
			nd.seeds = []string{nt.nodes[0].addr()}
		default:
			for _, o := range nt.nodes[:k] {
				nd.seeds = append(nd.seeds, o.addr())
			}
		}
		if k > 0 && p.C("auto") > 0 {
			nd.autoAddr = true
		}
	}
	t0 := nt.w.Now() / 1e6
	ops := append([]hx.Op{}, p.Ops...)
	for k := range ops {
		ops[k].T += t0
	}
	nt.runOps(ops)
	nt.calm()
	nt.settle(200 * time.Second)
	nt.gaveAll = true
	// everyone ends with as much work as the best of those it is joined to
	var best *ref.Info
	consider := func(i *ref.Info) {
		if timelyAt(i, nt.w.NowUnix()) && (best == nil || i.Work.Cmp(best.Work) > 0) {
			best = i
		}
	}
	for _, nd := range nt.nodes {
		consider(nd.head())
	}
	if vs != nil {
		consider(tips[n])
	}
	if !nt.joined(best) {
		return
	}
	x.Probe("joined-synced")
	for k := p.C("meet"); k > 0; k-- {
		// links begin anew, and just then the chain of one end grows
		nd := nt.nodes[r.N(n)]
		h := nd.head()
		if nd.save == "" || !nd.up || hard(h) {
			break
		}
		i := nt.grow(r, h, 1+r.N(2), 2, true)
		if !timelyAt(i, nt.w.NowUnix()) {
			break
		}
		v := nt.newVP(nd, true)
		v.do(func() { v.conn() })
		v.drained(20 * time.Second)
		at := nt.w.Now()
		lat := 1 << (1 + r.N(11))
		if lat > 64 {
			nt.rough = true
		}
		for _, o := range nt.nodes {
			if o != nd {
				nt.w.SetLatency(nd.h, o.h, time.Duration(lat)*time.Millisecond)
				nt.w.ResetConns(nd.h, o.h)
			}
		}
		for end := at + int64(30*time.Second); nt.lastLink[nd] < at && nt.w.Now() < end; {
			simrt.Sleep(time.Millisecond)
		}
		simrt.Sleep(time.Duration(r.N(12*lat)) * time.Millisecond)
		v.do(func() { v.offer(i, 2) })
		v.drained(60 * time.Second)
		for _, o := range nt.nodes {
			if o != nd {
				nt.w.SetLatency(nd.h, o.h, 0)
			}
		}
		v.stop = true
		x.Probe("grown-while-meeting")
		if nd.head().Work.Cmp(i.Work) >= 0 {
			best = i
		}
		if !nt.joined(best) {
			return
		}
	}
	simrt.Sleep(30 * time.Second)
	for _, nd := range nt.nodes {
		if !nd.up || nd.dirty {
			continue
		}
		h := nt.download(nd)
		if h == nil {
			continue
		}
		if h.Work.Cmp(best.Work) < 0 {
			x.Fail("C07 C05", "joined-not-synced", "%s serves a chain of height %d work %v, another node holds %s (height %d work %v)", nd.name, h.Height, h.Work, best.Id.Short(), best.Height, best.Work)
		}
		if nd.save == "" {
			x.Probe("memory-node-judged")
			if h.Bad != "" {
				x.Fail(ruleProps(h.Bad), "adopted-invalid:"+h.Bad, "%s adopted block %s at height %d that breaks rule %s", nd.name, h.Id.Short(), h.Height, h.Bad)
				continue
			}
			nd.tl = append(nd.tl, headRec{nt.w.Now(), h, nd.inc, nd.h.Wall()})
			for k := 0; k <= 9; k++ {
				nt.query(nd, k, nt.r.U64())
			}
		} else if h.Id != nd.head().Id {
			x.Fail("C23 C08", "serves-other-head", "%s serves head %s and has %s", nd.name, h.Id.Short(), nd.head().Id.Short())
		}
		nd.sweep()
	}
	nt.finalChecks()
}

// joined waits until every node has a chain with that much work.
func (nt *Net) joined(best *ref.Info) bool {
	limit := nt.w.Now() + int64(900*time.Second)
	for {
		simrt.Sleep(2 * time.Second)
		why := ""
		for _, nd := range nt.nodes {
			if nd.inc > 0 && !nd.up {
				nd.restart()
				why = nd.name + " is down"
			}
			if nd.save != "" && nd.head().Work.Cmp(best.Work) < 0 {
				why = fmt.Sprintf("%s is at %s (height %d work %v)", nd.name, nd.head().Id.Short(), nd.head().Height, nd.head().Work)
			}
		}
		if why == "" {
			return true
		}
		if nt.w.Now() > limit {
			props := "C07"
			if nt.faulty {
				props += " C09"
			}
			nt.x.Fail(props, "joined-not-synced", "900 s after all could connect and without faults, %s, another node holds %s (height %d work %v)", why, best.Id.Short(), best.Height, best.Work)
			return false
		}
	}
}

// timelyAt tells whether no block of a chain is ahead of a clock.
func timelyAt(i *ref.Info, now int64) bool {
	for ; i.Height > 0; i = i.Parent() {
		if int64(i.B.Time) > now+3600-30 {
			return false
		}
	}
	return true
}

// load starts a node and delivers some side branches and then a chain to it.
func (nt *Net) load(nd *Node, r *simrt.RNG, all []*ref.Info, tip *ref.Info) {
	nd.start()
	v := nt.newVP(nd, true)
	list := []*ref.Info{tip}
	if r.N(2) == 0 {
		list = []*ref.Info{all[r.N(len(all))], tip}
	}
	done := false
	v.do(func() {
		for _, i := range list {
			v.offer(i, 20)
		}
		done = true
	})
	end := nt.w.Now() + int64(900*time.Second)
	for !done && nt.w.Now() < end {
		simrt.Sleep(100 * time.Millisecond)
	}
	if nd.up && nd.head().Work.Cmp(tip.Work) < 0 {
		nt.x.Fail("C07 C05", "cannot-sync", "%s at height %d does not obtain valid chain %s (height %d) from a peer that has it", nd.name, nd.head().Height, tip.Id.Short(), tip.Height)
	}
	v.stop = true
	nt.w.Join(v.task)
}

// download fetches a node's chain as a new peer that has nothing.
func (nt *Net) download(nd *Node) *ref.Info {
	c := nt.dialNode(nt.vhost(), nd, ref.HL(ref.HU(nt.x.Plan.Seed), ref.HU(uint64(9999+nd.idx))).String(), nil)
	c.inc = nd.inc
	c.full = 1
	ok := c.err == nil && c.syncNow()
	c.e0close()
	i := nt.S.Info(c.peerHead)
	if !ok || i == nil || !c.complete && i.Height > 0 {
		if nd.up && nd.inc == c.inc && nd.head().Height > 0 {
			nt.x.Fail("C23 C07", "chain-not-served", "%s does not serve its chain of height %d to a new peer: %v", nd.name, nd.head().Height, c.err)
		}
		return nil
	}
	return i
}
