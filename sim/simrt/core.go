// Package simrt is the deterministic simulator runtime. One OS process runs
// one World at a time; every task of every simulated process is a goroutine,
// but exactly one holds the token. All scheduling, time, randomness, network
// and disk behaviour is decided here, from seeded decision streams that are
// recorded and can be replayed.
package simrt

import (
	"fmt"
	"os"
	"reflect"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"
	"unsafe"
)

const (
	nsPerY   = 1000 // virtual CPU cost of one statement
	chargeYs = 1000 // statements between charges
)

// Task is one simulated goroutine.
type Task struct {
	id      int
	proc    *Proc
	wake    chan struct{}
	exited  chan struct{}
	chunk   int // statements granted in the current slice
	yleft   int // saved while not running
	charge  int
	preempt int
	gen     uint64
	parked  bool
	killed  bool
	reaping bool
	done    bool
	why     string
	stall   time.Duration
	fn      func()
	Name    string
	waiters []waiter
}

type waiter struct {
	t   *Task
	gen uint64
}

type event struct {
	at  int64
	seq uint64
	fn  func()
}

// World is one simulated deployment.
type World struct {
	Seed      uint64
	now       int64
	evSeq     uint64
	heap      []event
	runq      []*Task
	cur       *Task
	nextTask  int
	tasks     []*Task
	Procs     []*Proc
	Hosts     map[string]*Host
	HostList  []*Host
	D         *Decider
	Opt       Options
	hash      uint64
	schash    uint64
	Switches  uint64
	Events    uint64
	Ys        uint64
	mainCh    chan struct{}
	ended     bool
	endWhy    string
	Faults    map[string]int
	trace     []string
	dns       map[string]string
	links     map[[2]string]*link
	taps      map[string]any
	nextPort  map[string]int
	mapW      map[unsafe.Pointer]*Task
	condWaits map[waiter]*condWait
	HostExit  func(p *Proc)
	// the program writes to, or closes, a connection
	OnNetWrite func(e *Endpoint, b []byte)
	OnNetClose func(e *Endpoint)
	OnDisk     func(h *Host, op, path string)
	Values     map[string]any
	inPick     bool
	allocs     int64
	memTick    int
	realEnd    time.Time
}

// Options of one run.
type Options struct {
	PreemptQ   int   // mean statements between preemptions; 0 = none
	SchedRand  int   // percent of scheduling choices made at random
	StallPct   int   // per-mille of preemptions that stall the task
	NetJitter  int64 // max extra latency ns
	NetBase    int64
	SegPct     int // percent of writes that are split
	FsStall    int // per-mille of disk operations that are slow
	MaxVirtual int64
	MaxYs      uint64
	MaxReal    time.Duration
	MemLimit   int64
	KeepLog    bool
}

var W *World
var yleft int

// RunResult describes how a world ended.
type RunResult struct {
	Why      string
	Now      int64
	Hash     uint64
	SchHash  uint64
	Switches uint64
	Events   uint64
	Ys       uint64
}

// NewWorld creates a world and makes it the current one.
func NewWorld(seed uint64, opt Options, replay map[string][]uint32) *World {
	if opt.MemLimit == 0 {
		opt.MemLimit = 1 << 30
	}
	w := &World{
		Seed: seed, Opt: opt, D: newDecider(seed, replay), hash: 14695981039346656037, schash: 14695981039346656037,
		Hosts: map[string]*Host{}, Faults: map[string]int{}, dns: map[string]string{}, links: map[[2]string]*link{},
		taps: map[string]any{}, nextPort: map[string]int{}, mapW: map[unsafe.Pointer]*Task{}, condWaits: map[waiter]*condWait{}, mainCh: make(chan struct{}, 1),
		Values: map[string]any{},
	}
	w.now = 1_700_000_000_000_000_000
	W = w
	return w
}

const Epoch = int64(1_700_000_000_000_000_000)

// Run executes the driver as a task and returns when it has finished.
func (w *World) Run(driver func()) RunResult {
	if w.Opt.MaxReal > 0 {
		w.realEnd = time.Now().Add(w.Opt.MaxReal)
	}
	if w.Opt.MaxVirtual > 0 {
		w.At(w.now+w.Opt.MaxVirtual, func() { w.end("virtual time limit") })
	}
	resetGlobals()
	w.spawn(nil, "driver", func() {
		runInits()
		driver()
		w.end("done")
	})
	nt := w.pick()
	if nt != nil {
		w.handTo(nt)
		<-w.mainCh
	}
	w.ended = true
	// Reap every task left.
	for _, t := range w.tasks {
		if !t.done {
			w.reap(t)
		}
	}
	return RunResult{w.endWhy, w.now - Epoch, w.hash, w.schash, w.Switches, w.Events, w.Ys}
}

func (w *World) end(why string) {
	if !w.ended {
		w.ended = true
		w.endWhy = why
	}
}

// Ended reports whether the run is over.
func (w *World) Ended() bool { return w.ended }

func (w *World) mix(v uint64) { w.hash = (w.hash ^ v) * 1099511628211 }
func (w *World) mixSch(v uint64) {
	w.schash = (w.schash ^ v) * 1099511628211
}

// At schedules fn to run at a virtual time. fn runs outside any task and must
// not block.
func (w *World) At(at int64, fn func()) {
	if at < w.now {
		at = w.now
	}
	w.evSeq++
	h := append(w.heap, event{at, w.evSeq, fn})
	i := len(h) - 1
	for i > 0 {
		p := (i - 1) / 2
		if h[p].at < h[i].at || (h[p].at == h[i].at && h[p].seq < h[i].seq) {
			break
		}
		h[p], h[i] = h[i], h[p]
		i = p
	}
	w.heap = h
}

func (w *World) popEvent() event {
	h := w.heap
	e := h[0]
	n := len(h) - 1
	h[0] = h[n]
	h[n] = event{}
	h = h[:n]
	i := 0
	for {
		c := 2*i + 1
		if c >= n {
			break
		}
		if c+1 < n && (h[c+1].at < h[c].at || (h[c+1].at == h[c].at && h[c+1].seq < h[c].seq)) {
			c++
		}
		if h[i].at < h[c].at || (h[i].at == h[c].at && h[i].seq < h[c].seq) {
			break
		}
		h[i], h[c] = h[c], h[i]
		i = c
	}
	w.heap = h
	return e
}

// pick chooses the next task to run, advancing time as needed; nil if the run
// is over.
func (w *World) pick() *Task {
	w.inPick = true
	for {
		if w.ended {
			w.inPick = false
			return nil
		}
		if n := len(w.runq); n > 0 {
			i := 0
			if n > 1 && w.Opt.SchedRand > 0 {
				i = int(w.D.sched.choose(func(r *RNG) uint32 {
					if int(r.Intn(100)) < w.Opt.SchedRand {
						return uint32(r.N(n))
					}
					return 0
				})) % n
			}
			t := w.runq[i]
			copy(w.runq[i:], w.runq[i+1:])
			w.runq = w.runq[:n-1]
			w.Switches++
			w.mix(uint64(t.id))
			w.mixSch(uint64(t.id))
			w.inPick = false
			return t
		}
		if len(w.heap) == 0 {
			w.end("quiescent")
			continue
		}
		e := w.popEvent()
		if e.at > w.now {
			w.now = e.at
		}
		w.Events++
		if w.Events&0xfff == 0 && w.Opt.MaxReal > 0 && time.Now().After(w.realEnd) {
			w.end("real time limit")
			continue
		}
		w.mix(uint64(w.now))
		e.fn()
	}
}

func (w *World) handTo(t *Task) {
	w.cur = t
	useGlobals(t)
	yleft = t.yleft
	t.wake <- struct{}{}
}

// sw gives up the token and returns when this task has it again.
func (w *World) sw(t *Task) {
	t.yleft = yleft
	nt := w.pick()
	if nt == t {
		w.cur = t
		useGlobals(t)
		yleft = t.yleft
		return
	}
	if nt == nil {
		w.mainCh <- struct{}{}
	} else {
		w.handTo(nt)
	}
	<-t.wake
	if t.killed {
		yleft = 0
		runtime.Goexit()
	}
}

// park blocks the current task until ready is called on it.
func (w *World) park(why string) {
	t := w.cur
	if t.killed {
		runtime.Goexit()
	}
	t.parked = true
	t.why = why
	w.sw(t)
}

func (w *World) newWait() waiter {
	t := w.cur
	if t.killed {
		runtime.Goexit()
	}
	t.gen++
	return waiter{t, t.gen}
}

// wakeup makes a waiting task runnable if it is still in that wait.
func (w *World) wakeup(x waiter) bool {
	t := x.t
	if len(w.condWaits) > 0 {
		if c := w.condWaits[x]; c != nil && !t.done && !t.killed {
			if c.fired {
				return false
			}
			c.fired = true
			if c.armed {
				w.wakeup(c.w)
			}
			return true
		}
	}
	if t == nil || t.done || t.killed || !t.parked || t.gen != x.gen {
		return false
	}
	t.parked = false
	t.gen++
	w.runq = append(w.runq, t)
	return true
}

// yield requeues the current task at the back.
func (w *World) yield() {
	t := w.cur
	if t.killed {
		runtime.Goexit()
	}
	if len(w.runq) == 0 {
		return
	}
	w.runq = append(w.runq, t)
	w.sw(t)
}

// Sleep blocks the current task for a virtual duration.
func Sleep(d time.Duration) {
	w := W
	if w.cur.killed {
		runtime.Goexit()
	}
	if d <= 0 {
		w.yield()
		return
	}
	x := w.newWait()
	w.At(w.now+int64(d), func() { w.wakeup(x) })
	w.park("sleep")
}

// Yield lets other tasks run.
func Yield() { W.yield() }

func (w *World) spawn(p *Proc, name string, fn func()) *Task {
	w.nextTask++
	t := &Task{id: w.nextTask, proc: p, wake: make(chan struct{}, 1), exited: make(chan struct{}, 1), charge: chargeYs, Name: name}
	w.drawPreempt(t)
	t.chunk = minInt(t.charge, t.preempt)
	t.yleft = t.chunk
	w.tasks = append(w.tasks, t)
	if len(w.tasks) > 256 && len(w.tasks)&0xff == 0 {
		live := w.tasks[:0]
		for _, x := range w.tasks {
			if !x.done {
				live = append(live, x)
			}
		}
		for i := len(live); i < len(w.tasks); i++ {
			w.tasks[i] = nil
		}
		w.tasks = live
	}
	if p != nil {
		p.tasks[t] = struct{}{}
	}
	go t.run(w, fn)
	w.runq = append(w.runq, t)
	return t
}

// Harness starts a harness task (never preempted, belongs to no process).
func (w *World) Harness(name string, fn func()) *Task { return w.spawn(nil, name, fn) }

// Join waits until a task has ended.
func (w *World) Join(t *Task) {
	for !t.done {
		x := w.newWait()
		t.waiters = append(t.waiters, x)
		w.park("join")
	}
}

func (t *Task) Done() bool { return t.done }

// Go starts a task in the current task's process.
func Go(fn func()) {
	w := W
	if w.cur.killed {
		runtime.Goexit()
	}
	w.spawn(w.cur.proc, "", fn).fn = fn
}

// Live lists the tasks of a process that have not ended, by what they run.
func (w *World) Live(p *Proc) map[string]int {
	m := map[string]int{}
	for _, t := range w.tasks {
		if t.proc == p && !t.done && !t.killed {
			n := t.Name
			if t.fn != nil {
				n = runtime.FuncForPC(reflect.ValueOf(t.fn).Pointer()).Name()
			}
			m[n]++
		}
	}
	return m
}

func (t *Task) run(w *World, fn func()) {
	<-t.wake
	normal := false
	defer func() {
		r := recover()
		if t.reaping {
			t.done = true
			t.exited <- struct{}{}
			return
		}
		if r != nil {
			msg := fmt.Sprint(r)
			if re, ok := r.(runtime.Error); ok {
				msg = "runtime error: " + strings.TrimPrefix(re.Error(), "runtime error: ")
			}
			if t.proc == nil {
				fmt.Fprintf(os.Stderr, "harness panic: %s\n%s\n", msg, debug.Stack())
				os.Exit(3)
			}
			if !t.killed {
				t.proc.exit(2, "panic: "+msg, trimStack(debug.Stack()), t)
			}
		}
		_ = normal
		t.done = true
		if t.proc != nil {
			delete(t.proc.tasks, t)
		}
		for _, x := range t.waiters {
			w.wakeup(x)
		}
		nt := w.pick()
		if nt == nil {
			w.mainCh <- struct{}{}
		} else {
			w.handTo(nt)
		}
	}()
	if t.killed {
		return
	}
	fn()
	normal = true
}

// reap makes a task that does not hold the token end at once.
func (w *World) reap(t *Task) {
	t.killed = true
	t.reaping = true
	for i, x := range w.runq {
		if x == t {
			w.runq = append(w.runq[:i], w.runq[i+1:]...)
			break
		}
	}
	sc, sy := w.cur, yleft
	w.cur = t
	useGlobals(t)
	yleft = 0
	t.wake <- struct{}{}
	<-t.exited
	w.cur = sc
	useGlobals(sc)
	yleft = sy
	t.done = true
	for _, x := range t.waiters {
		w.wakeup(x)
	}
}

// Y marks the start of a statement of simulated code.
func Y() {
	yleft--
	if yleft <= 0 {
		slowY()
	}
}

func minInt(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func (w *World) drawPreempt(t *Task) {
	if t.proc == nil || w.Opt.PreemptQ == 0 {
		t.preempt = 1 << 30
		return
	}
	q := w.Opt.PreemptQ
	v := int(w.D.pre.choose(func(r *RNG) uint32 {
		// Geometric-ish: product of a uniform and an exponential tail.
		n := 1 + r.Intn(uint64(2*q))
		if r.Intn(8) == 0 {
			n = 1 + r.Intn(uint64(q/8+1))
		}
		return uint32(n)
	}))
	if v == 0 {
		v = 50000
	}
	t.preempt = v
}

func slowY() {
	w := W
	t := w.cur
	if t == nil {
		yleft = 1 << 30
		return
	}
	if t.killed {
		runtime.Goexit()
	}
	used := t.chunk - yleft
	if used < 0 {
		used = 0
	}
	w.Ys += uint64(used)
	p := t.proc
	if p == nil {
		t.chunk = 1 << 30
		yleft = t.chunk
		return
	}
	p.Ys += int64(used)
	if p.killAtY > 0 && p.Ys >= p.killAtY {
		p.killAtY = 0
		w.Fault("kill-at-statement")
		p.exit(-9, "killed", "", t)
		runtime.Goexit()
	}
	t.charge -= used
	t.preempt -= used
	if t.stall > 0 {
		d := t.stall
		t.stall = 0
		t.chunk = 1
		Sleep(d)
		yleft, t.chunk = 1, 1
		return
	}
	grant := func() {
		t.chunk = minInt(t.charge, t.preempt)
		if p.killAtY > 0 {
			if l := int(p.killAtY - p.Ys); l < t.chunk {
				t.chunk = l
			}
		}
		if t.chunk < 1 {
			t.chunk = 1
		}
		yleft = t.chunk
	}
	if w.Opt.MaxYs > 0 && w.Ys > w.Opt.MaxYs {
		w.end("statement limit")
	}
	if t.charge <= 0 {
		t.charge = chargeYs
		w.memTick++
		if w.memTick&0x3ff == 0 {
			w.checkMem(t)
		}
		if t.preempt <= 0 {
			w.drawPreempt(t)
		}
		grant()
		Sleep(time.Duration(chargeYs * nsPerY * p.slow()))
		grant()
		return
	}
	if t.preempt <= 0 {
		w.drawPreempt(t)
		grant()
		if w.Opt.StallPct > 0 {
			v := w.D.stall.choose(func(r *RNG) uint32 {
				if int(r.Intn(1000)) < w.Opt.StallPct {
					return uint32(1 + r.Intn(1<<(r.Intn(12)+1)))
				}
				return 0
			})
			if v > 0 {
				w.Fault("task-stall")
				Sleep(time.Duration(v) * 250 * time.Microsecond)
				grant()
				return
			}
		}
		w.mixSch(0x9e37)
		w.yield()
		grant()
		return
	}
	grant()
}

func (w *World) checkMem(t *Task) {
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	if int64(ms.HeapAlloc) > 6<<30 {
		runtime.GC()
		runtime.ReadMemStats(&ms)
		if int64(ms.HeapAlloc) > 6<<30 {
			t.proc.exit(2, "fatal error: out of memory (heap grows without bound)", trimStack(debug.Stack()), t)
			runtime.Goexit()
		}
	}
}

// Hiccup delays some tasks of a process at one of the next statements each
// executes, each by its own time below max.
func (w *World) Hiccup(p *Proc, r *RNG, max time.Duration) {
	for _, t := range w.tasks {
		if t.proc != p || t.done || t.killed || t == w.cur || r.N(3) > 0 {
			continue
		}
		t.stall = time.Duration(1 + r.Intn(uint64(max)))
		used, k := t.chunk-t.yleft, 1
		if r.N(2) == 0 {
			k = 1 + r.N(40)
		}
		t.yleft, t.chunk = k, used+k
	}
	w.Fault("hiccup")
}

// Fault counts an injected fault.
func (w *World) Fault(kind string) { w.Faults[kind]++ }

// FaultN counts injected faults.
func (w *World) FaultN(kind string, n int) { w.Faults[kind] += n }

// Logf appends to the run's trace.
func (w *World) Logf(f string, a ...any) {
	s := fmt.Sprintf(f, a...)
	for i := 0; i < len(s); i++ {
		w.mix(uint64(s[i]))
	}
	if w.Opt.KeepLog {
		w.trace = append(w.trace, fmt.Sprintf("%12.6f %s", float64(w.now-Epoch)/1e9, s))
	}
}

// Trace returns the run's event trace.
func (w *World) Trace() []string { return w.trace }

// Now is the global virtual time in nanoseconds since the run began.
func (w *World) Now() int64 { return w.now - Epoch }

// After runs fn once d has passed.
func (w *World) After(d int64, fn func()) { w.At(w.now+d, fn) }

// NowUnix is the true virtual unix time in seconds.
func (w *World) NowUnix() int64 { return w.now / 1e9 }

// SetTap registers a replacement for a tapped function's result.
func (w *World) SetTap(name string, f any) { w.taps[name] = f }

// Tap lets the harness replace the result of a tapped function.
func Tap[T any](name string, v T) T {
	if f, ok := W.taps[name].(func(T) T); ok {
		return f(v)
	}
	return v
}

// Cur returns the current task's process, or nil.
func Cur() *Proc {
	if W == nil || W.cur == nil {
		return nil
	}
	return W.cur.proc
}

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	var out []string
	for i := 1; i+1 < len(lines); i += 2 {
		fn := lines[i]
		loc := strings.TrimSpace(lines[i+1])
		if strings.Contains(fn, "verifsim/") || strings.HasPrefix(fn, "runtime") || strings.HasPrefix(fn, "panic(") {
			continue
		}
		if j := strings.LastIndex(fn, "("); j > 0 {
			fn = fn[:j]
		}
		if j := strings.LastIndex(loc, "/"); j >= 0 {
			loc = loc[j+1:]
		}
		if j := strings.Index(loc, " "); j >= 0 {
			loc = loc[:j]
		}
		if j := strings.LastIndex(fn, "/"); j >= 0 {
			fn = fn[j+1:]
		}
		out = append(out, fn+" "+loc)
		if len(out) >= 6 {
			break
		}
	}
	return strings.Join(out, " < ")
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// Park/Wake for shims.
type Waiter = waiter

// NewWait, Park and Wake let shims block tasks.
func NewWait() Waiter    { return W.newWait() }
func Park(why string)    { W.park(why) }
func Wake(x Waiter) bool { return W.wakeup(x) }
func Killed() bool       { return W.cur == nil || W.cur.killed }
func CurTaskID() int     { return W.cur.id }
func ExitIfKilled() {
	if W.cur.killed {
		runtime.Goexit()
	}
}

// SpawnIn starts a task in a process from an event callback.
func (w *World) SpawnIn(p *Proc, fn func()) { w.spawn(p, "timer", fn) }

// ParkAfter blocks on x after running fn; a wake-up of x during fn is kept.
func ParkAfter(x Waiter, why string, fn func()) {
	w := W
	t := w.cur
	// While fn runs the task may block on other things, so the wait is
	// represented by a flag that wake-ups of x set.
	c := &condWait{}
	w.condWaits[x] = c
	fn()
	for !c.fired {
		c.w = w.newWait()
		c.armed = true
		w.park(why)
	}
	delete(w.condWaits, x)
	_ = t
}

type condWait struct {
	fired, armed bool
	w            waiter
}
