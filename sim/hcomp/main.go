package main

import (
	"strings"
	"time"

	"github.com/levilutz/basiccoin/verifsim/hx"
	"github.com/levilutz/basiccoin/verifsim/simrt"
)

func main() { hx.Main() }

func compOptions(p *hx.Plan) simrt.Options {
	return simrt.Options{
		PreemptQ: int(p.C("preempt")), SchedRand: int(p.C("schedrand")), StallPct: int(p.C("stall")),
		NetBase: p.C("netbase") * 1000, NetJitter: p.C("netjit") * 1000, SegPct: int(p.C("seg")),
		MaxVirtual: 2 * int64(time.Hour), MaxYs: 60_000_000, MaxReal: 40 * time.Second,
	}
}

func drawComp(r *simrt.RNG, p *hx.Plan) {
	p.Cfg["preempt"] = []int64{1, 2, 4, 10, 50, 400, 0}[r.N(7)]
	p.Cfg["schedrand"] = []int64{0, 10, 50, 100}[r.N(4)]
	p.Cfg["stall"] = []int64{0, 0, 5, 30}[r.N(4)]
	p.Cfg["netbase"] = []int64{100, 1000, 20000}[r.N(3)]
	p.Cfg["netjit"] = []int64{0, 2000, 50000, 400000}[r.N(4)]
	p.Cfg["seg"] = []int64{0, 10, 60, 95}[r.N(4)]
}

// comp is a run of components inside simulated processes.
type comp struct {
	x     *hx.Run
	w     *simrt.World
	props string
	stamp int
	left  int // tasks still running
	// set when the end of a process is expected
	killing bool
}

func newComp(x *hx.Run, props string) *comp {
	c := &comp{x: x, w: x.W, props: props}
	x.W.HostExit = func(p *simrt.Proc) {
		if p.Code == -9 || p.Reason == "main returned" {
			return
		}
		f := strings.Fields(p.Stack)
		site := "?"
		if len(f) > 0 {
			site = f[0]
		}
		x.Fail(props, "component-crash:"+site, "%s ended: %s at %s", p.Name, p.Reason, p.Stack)
	}
	return c
}

func (c *comp) tick() int {
	c.stamp++
	return c.stamp
}

// task starts one task of the current process.
func (c *comp) task(fn func()) {
	c.left++
	simrt.Go(func() {
		fn()
		c.left--
	})
}

// wait waits for the tasks of a process.
func (c *comp) wait(max time.Duration) bool {
	end := c.w.Now() + int64(max)
	for c.left > 0 {
		if c.w.Now() > end {
			return false
		}
		simrt.Sleep(5 * time.Millisecond)
	}
	return true
}

// until sleeps to an instant of the plan (in microseconds).
func (c *comp) until(us int64) {
	if d := us*1000 - c.w.Now(); d > 0 {
		simrt.Sleep(time.Duration(d))
	}
}
