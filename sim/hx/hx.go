// Package hx runs simulated scenarios: plans drawn from a seed, executed in a
// simrt.World, judged by oracles, minimised and replayed.
package hx

import (
	"encoding/json"
	"fmt"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"github.com/levilutz/basiccoin/verifsim/simrt"
)

// Op is one step of a plan: at T (virtual ms), do K with arguments.
type Op struct {
	T int64   `json:"t"`
	K string  `json:"k"`
	A []int64 `json:"a,omitempty"`
	S string  `json:"s,omitempty"`
}

// Arg returns the i-th argument or 0.
func (o Op) Arg(i int) int64 {
	if i < len(o.A) {
		return o.A[i]
	}
	return 0
}

// Plan is everything a run does, apart from the scheduler's own decisions.
type Plan struct {
	Scenario string           `json:"scenario"`
	Seed     uint64           `json:"seed"`
	Cfg      map[string]int64 `json:"cfg"`
	Ops      []Op             `json:"ops"`
}

func (p *Plan) C(k string) int64 { return p.Cfg[k] }

// Add appends a step.
func (p *Plan) Add(t int64, k string, a ...int64) { p.Ops = append(p.Ops, Op{T: t, K: k, A: a}) }

// Sort orders the steps by time.
func (p *Plan) Sort() {
	sort.SliceStable(p.Ops, func(i, j int) bool { return p.Ops[i].T < p.Ops[j].T })
}

// Violation is one broken property.
type Violation struct {
	Props []string `json:"props"`
	Class string   `json:"class"`
	Msg   string   `json:"msg"`
	T     int64    `json:"t"`
}

// Run is one execution in progress.
type Run struct {
	Plan    *Plan
	W       *simrt.World
	Viol    []Violation
	classes map[string]bool
	Probes  map[string]int
	Info    map[string]string
	Checks  int
}

// Fail records a violation (once per class).
func (x *Run) Fail(props string, class, format string, a ...any) {
	if x.classes[class] {
		return
	}
	x.classes[class] = true
	msg := fmt.Sprintf(format, a...)
	x.Viol = append(x.Viol, Violation{strings.Fields(props), class, msg, x.W.Now()})
	x.W.Logf("VIOLATION [%s] %s: %s", props, class, msg)
}

// Probe counts that a condition was reached.
func (x *Run) Probe(name string) { x.Probes[name]++ }

// Checked counts one oracle evaluation.
func (x *Run) Checked(n int) { x.Checks += n }

// Scenario is a family of runs.
type Scenario struct {
	Name string
	Gen  func(r *simrt.RNG, p *Plan, thorough bool)
	Run  func(x *Run)
	Opt  func(p *Plan) simrt.Options
}

var scenarios = map[string]*Scenario{}

// Register adds a scenario.
func Register(s *Scenario) { scenarios[s.Name] = s }

// Outcome is the result of one run.
type Outcome struct {
	Scenario string              `json:"scenario"`
	Seed     uint64              `json:"seed"`
	Why      string              `json:"why"`
	Hash     uint64              `json:"hash"`
	SchHash  uint64              `json:"schash"`
	Virtual  int64               `json:"virtual"`
	Switches uint64              `json:"switches"`
	Events   uint64              `json:"events"`
	Ys       uint64              `json:"ys"`
	Wall     float64             `json:"wall"`
	Ops      int                 `json:"ops"`
	Checks   int                 `json:"checks"`
	Viol     []Violation         `json:"viol,omitempty"`
	Faults   map[string]int      `json:"faults,omitempty"`
	Probes   map[string]int      `json:"probes,omitempty"`
	Trace    []string            `json:"-"`
	Record   map[string][]uint32 `json:"-"`
}

// MakePlan draws a plan.
func MakePlan(scen string, seed uint64, thorough bool) *Plan {
	s := scenarios[scen]
	if s == nil {
		panic("unknown scenario " + scen)
	}
	p := &Plan{Scenario: scen, Seed: seed, Cfg: map[string]int64{}}
	s.Gen(simrt.NewRNG(seed^0x51ed270b), p, thorough)
	p.Sort()
	return p
}

// runawayProps are the properties a program that spins for ever breaks.
const runawayProps = "C04 C05 C06 C07 C09 C12 C13 C14 C15 C16 C17 C18 C20 C21 C22"

// Execute runs a plan.
func Execute(p *Plan, streams map[string][]uint32, keepLog bool) *Outcome {
	s := scenarios[p.Scenario]
	opt := s.Opt(p)
	opt.KeepLog = keepLog
	if opt.MaxReal == 0 {
		opt.MaxReal = 60 * time.Second
	}
	w := simrt.NewWorld(p.Seed, opt, streams)
	x := &Run{Plan: p, W: w, classes: map[string]bool{}, Probes: map[string]int{}, Info: map[string]string{}}
	start := time.Now()
	res := w.Run(func() { s.Run(x) })
	if res.Why == "statement limit" {
		x.Fail(runawayProps, "runaway", "the program ran %d statements in %.0f simulated seconds without coming to rest", res.Ys, float64(res.Now)/1e9)
	}
	o := &Outcome{
		Scenario: p.Scenario, Seed: p.Seed, Why: res.Why, Hash: res.Hash, SchHash: res.SchHash, Virtual: res.Now,
		Switches: res.Switches, Events: res.Events, Ys: res.Ys, Wall: time.Since(start).Seconds(), Ops: len(p.Ops),
		Checks: x.Checks, Viol: x.Viol, Faults: w.Faults, Probes: x.Probes, Trace: w.Trace(),
	}
	o.Record = w.D.Record()
	simrt.W = nil
	return o
}

// HasClass reports whether the outcome has a violation of that class.
func (o *Outcome) HasClass(c string) bool {
	for _, v := range o.Viol {
		if v.Class == c {
			return true
		}
	}
	return false
}

// Replay is the file that reproduces a violation.
type Replay struct {
	Property  string              `json:"property"`
	Class     string              `json:"class"`
	Props     []string            `json:"props"`
	Msg       string              `json:"msg"`
	Hash      string              `json:"hash"`
	Plan      *Plan               `json:"plan"`
	Streams   map[string][]uint32 `json:"streams"`
	FirstSeed uint64              `json:"found_with_seed"`
	FirstOps  int                 `json:"found_with_ops"`
	Trace     []string            `json:"trace"`
}

// Minimise shrinks a failing plan while the class persists.
func Minimise(p *Plan, class string, limit time.Duration, logf func(string, ...any)) (*Plan, map[string][]uint32, *Outcome) {
	end := time.Now().Add(limit)
	tries := 0
	try := func(q *Plan, st map[string][]uint32) *Outcome {
		tries++
		o := Execute(q, st, false)
		if o.HasClass(class) && o.Why != "real time limit" {
			return o
		}
		return nil
	}
	best := p
	bestO := try(p, nil)
	if bestO == nil {
		return nil, nil, nil
	}
	// ddmin over the steps
	n := 2
	for len(best.Ops) > 0 && time.Now().Before(end) {
		chunk := (len(best.Ops) + n - 1) / n
		reduced := false
		for i := 0; i < len(best.Ops) && time.Now().Before(end); i += chunk {
			j := min(i+chunk, len(best.Ops))
			q := *best
			q.Ops = append(append([]Op{}, best.Ops[:i]...), best.Ops[j:]...)
			if o := try(&q, nil); o != nil {
				best, bestO = &q, o
				reduced = true
				i -= chunk
			}
		}
		if reduced {
			n = max(2, n-1)
		} else {
			if n >= len(best.Ops) {
				break
			}
			n = min(len(best.Ops), n*2)
		}
	}
	// simplify the scheduler's decisions: benign ranges
	streams := bestO.Record
	used := false
	names := make([]string, 0)
	for k := range streams {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		if len(streams[k]) == 0 || time.Now().After(end) {
			continue
		}
		var rec func(lo, hi, depth int)
		rec = func(lo, hi, depth int) {
			if lo >= hi || time.Now().After(end) {
				return
			}
			any := false
			for _, v := range streams[k][lo:min(hi, len(streams[k]))] {
				if v != 0 {
					any = true
				}
			}
			if !any {
				return
			}
			c := map[string][]uint32{}
			for kk, v := range streams {
				c[kk] = v
			}
			nv := append([]uint32{}, streams[k]...)
			for i := lo; i < hi && i < len(nv); i++ {
				nv[i] = 0
			}
			c[k] = nv
			if o := try(best, c); o != nil {
				streams = c
				bestO = o
				used = true
				return
			}
			if depth > 0 {
				m := (lo + hi) / 2
				rec(lo, m, depth-1)
				rec(m, hi, depth-1)
			}
		}
		rec(0, len(streams[k]), 3)
	}
	logf("minimised %d steps to %d in %d tries", len(p.Ops), len(best.Ops), tries)
	if !used {
		streams = nil
	} else {
		for k, v := range streams {
			n := len(v)
			for n > 0 && v[n-1] == 0 {
				n--
			}
			streams[k] = v[:n]
		}
	}
	return best, streams, bestO
}

func js(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return string(b)
}

func gcTick(n int) {
	if n%8 == 0 {
		runtime.GC()
	}
	if n%64 == 0 {
		debug.FreeOSMemory()
	}
}
