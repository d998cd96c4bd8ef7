package main

import (
	"time"

	"github.com/levilutz/basiccoin/verifsim/hx"
	"github.com/levilutz/basiccoin/verifsim/simrt"
)

// netOptions are the simulator settings a plan carries.
func netOptions(p *hx.Plan) simrt.Options {
	return simrt.Options{
		PreemptQ: int(p.C("preempt")), SchedRand: int(p.C("schedrand")), StallPct: int(p.C("stall")),
		NetBase: p.C("netbase") * 1000, NetJitter: p.C("netjit") * 1000, SegPct: int(p.C("seg")),
		MaxVirtual: 4 * int64(time.Hour), MaxYs: 250_000_000, MaxReal: 60 * time.Second,
	}
}

func drawSim(r *simrt.RNG, p *hx.Plan) {
	p.Cfg["preempt"] = []int64{0, 300, 1500, 6000}[r.N(4)]
	p.Cfg["schedrand"] = []int64{0, 10, 50, 100}[r.N(4)]
	p.Cfg["stall"] = []int64{0, 0, 5, 30}[r.N(4)]
	p.Cfg["netbase"] = []int64{100, 1000, 20000}[r.N(3)]
	p.Cfg["netjit"] = []int64{0, 2000, 50000, 400000}[r.N(4)]
	p.Cfg["seg"] = []int64{0, 10, 60}[r.N(3)]
}

// hiccups delays tasks of nodes at some times.
func hiccups(r *simrt.RNG, p *hx.Plan, dur int64, n int) {
	if r.N(3) > 0 {
		return
	}
	for k := 1 + r.N(12); k > 0; k-- {
		p.Add(int64(r.N(int(dur))), "hiccup", int64(r.N(n)), int64(r.U64()>>1), []int64{1, 10, 100, 400}[r.N(4)])
	}
}

func drawParams(r *simrt.RNG, p *hx.Plan) {
	p.Cfg["period"] = []int64{4, 5, 8, 8, 16}[r.N(5)]
	p.Cfg["blocktime"] = []int64{5, 10, 10, 30}[r.N(4)]
	p.Cfg["maxbits"] = int64(r.N(2))
	p.Cfg["bits"] = p.Cfg["maxbits"] + int64(r.N(3))
	p.Cfg["reward"] = []int64{1000, 1000, 131072, 1 << 33, 1 << 47}[r.N(5)]
}

func init() {
	hx.Register(&hx.Scenario{Name: "net", Gen: genNet, Run: runNet, Opt: netOptions})
}

func genNet(r *simrt.RNG, p *hx.Plan, thorough bool) {
	drawSim(r, p)
	drawParams(r, p)
	n := 2 + r.N(3)
	p.Cfg["n"] = int64(n)
	p.Cfg["topo"] = int64(r.N(3))
	p.Cfg["miners"] = int64(1 + r.N(n))
	p.Cfg["threads"] = int64(1 + r.N(2))
	p.Cfg["entry"] = int64(r.N(n))
	p.Cfg["anew"] = int64(r.N(8) / 7)
	dur := int64(60+r.N(120)) * 1000
	if thorough {
		dur = int64(60+r.N(600)) * 1000
	}
	for i := 0; i < n; i++ {
		p.Add(int64(i)*int64(r.N(1500)), "start", int64(i))
	}
	// workload
	for t := int64(5000); t < dur; t += int64(200 + r.N(6000)) {
		i := int64(r.N(n))
		if r.N(3) == 0 {
			p.Add(t, "pay", i, int64(r.N(16)), int64(r.U64()>>1))
		} else {
			p.Add(t, "query", i, int64(r.N(10)), int64(r.U64()>>1))
		}
	}
	if r.N(4) == 0 { // small blocks, more pending than they hold
		p.Cfg["maxblock"] = int64(800 + r.N(2500))
		p.Cfg["maxtx"] = p.Cfg["maxblock"]/2 + int64(r.N(100)) - 50
		for k := 1 + r.N(4); k > 0; k-- {
			p.Add(int64(5000)+int64(r.N(int(dur))), "flood", int64(r.N(n)), int64(5+r.N(30)), int64(r.U64()>>1))
		}
	}
	// faults
	nf := r.N(8)
	for k := 0; k < nf; k++ {
		t := int64(5000) + int64(r.N(int(dur)))
		i, j := int64(r.N(n)), int64(r.N(n))
		hold := int64(500 + r.N(40000))
		switch r.N(14) {
		case 0:
			p.Add(t, "kill", i)
			p.Add(t+hold, "restart", i)
		case 1:
			p.Add(t, "killdisk", i, int64(r.N(12)), []int64{0, 30, 70, 100}[r.N(4)])
			p.Add(t+hold, "restart", i)
		case 2:
			p.Add(t, "killy", i, int64(r.N(20000)))
			p.Add(t+hold, "restart", i)
		case 3:
			p.Add(t, "cut", i, j)
			p.Add(t+hold, "heal", i, j)
		case 4:
			p.Add(t, "isolate", i)
			p.Add(t+hold*5, "healall")
		case 5:
			p.Add(t, "lat", i, j, int64(r.N(3000)))
			p.Add(t+hold, "lat", i, j, 0)
		case 6:
			p.Add(t, "loss", i, j, int64(5+r.N(40)))
			p.Add(t+hold, "loss", i, j, 0)
		case 7:
			p.Add(t, "reset", i, j)
		case 8:
			p.Add(t, "clock", i, int64(r.N(6000))-3000)
		case 9:
			p.Add(t, "drift", i, int64(r.N(200000))-100000)
		case 10:
			p.Add(t, "slow", i, int64(2+r.N(20)))
			p.Add(t+hold, "slow", i, 1)
		case 12:
			p.Add(t, "accepterr", i, int64(1+r.N(5)))
		case 13:
			p.Add(t, "dialerr", i, int64(1+r.N(20)))
		case 11:
			p.Add(t, "poweroff", i)
			p.Add(t+hold*4, "restart", i)
		}
	}
	hiccups(r, p, dur, n)
}

func runNet(x *hx.Run) {
	nt := newNet(x)
	p := x.Plan
	n := int(p.C("n"))
	for i := 0; i < n; i++ {
		nt.addNode()
	}
	pace := nt.P.BlockTime * 1e9
	for b := p.C("bits"); b >= 0; b-- {
		pace /= 2
	}
	for i, nd := range nt.nodes {
		switch p.C("topo") {
		case 0: // line
			if i > 0 {
				nd.seeds = []string{nt.nodes[i-1].addr()}
			}
		case 1: // star
			if i > 0 {
				nd.seeds = []string{nt.nodes[0].addr()}
			}
		case 2: // everyone knows everyone
			for j, o := range nt.nodes {
				if j != i && i > 0 {
					nd.seeds = append(nd.seeds, o.addr())
				}
			}
		}
		if i < int(p.C("miners")) {
			nd.miners = int(p.C("threads"))
		}
		nd.pace = int64(pace/2) * p.C("threads")
	}
	nt.runOps(p.Ops)
	nt.quietPhase(int(p.C("entry")))
}
