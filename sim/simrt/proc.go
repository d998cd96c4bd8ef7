package simrt

import (
	"runtime"
	"sort"
	"strings"
	"time"
)

// Host is one simulated machine: an address, a disk and a clock.
type Host struct {
	Name    string
	IP      string
	Disk    *Disk
	ClockNs int64 // wall clock minus true time
	// the next so many of these fail, the host being out of descriptors
	AcceptErrs, DialErrs int
	DriftPM              int64 // clock drift in parts per million
	base                 int64
	Down                 bool // powered off
	lst                  map[int]*Listener
	Slow                 int
}

// Proc is one simulated operating system process.
type Proc struct {
	ID       int
	Name     string
	Host     *Host
	Args     []string
	Env      map[string]string
	Dead     bool
	Code     int
	Reason   string
	Stack    string
	ExitedAt int64
	Started  int64
	tasks    map[*Task]struct{}
	Ys       int64
	killAtY  int64
	Out      strings.Builder
	OutLines []string
	outPart  string
	In       *Pipe
	KeepOut  int
	eps      map[*Endpoint]struct{}
	lsts     []*Listener
	Vals     map[string]any
	RNG      *RNG
	waiters  []waiter
	OnLine   func(line string)
	DiskOps  int64
	// crash point: die at this disk operation, having done this share of it
	KillAtDisk   int64
	KillPath     string // only operations on such paths count
	KillDiskFrac int    // 0..100
	UID          int
	fdSeq        int
}

// Pipe is a process's standard input.
type Pipe struct {
	buf    []byte
	closed bool
	wait   []waiter
}

func (p *Pipe) Feed(b []byte) {
	p.buf = append(p.buf, b...)
	p.wakeAll()
}
func (p *Pipe) CloseWrite() { p.closed = true; p.wakeAll() }
func (p *Pipe) wakeAll() {
	for _, x := range p.wait {
		W.wakeup(x)
	}
	p.wait = nil
}

// Waiting tells whether somebody is waiting for input.
func (p *Pipe) Waiting() bool { return len(p.wait) > 0 && len(p.buf) == 0 && !p.closed }

// ReadPipe reads standard input.
func (p *Pipe) Read(b []byte) (int, bool) {
	for len(p.buf) == 0 {
		if p.closed {
			return 0, false
		}
		p.wait = append(p.wait, W.newWait())
		W.park("stdin")
	}
	n := copy(b, p.buf)
	p.buf = p.buf[n:]
	return n, true
}

// NewHost adds a machine.
func (w *World) NewHost(name, ip string) *Host {
	h := &Host{Name: name, IP: ip, lst: map[int]*Listener{}, base: w.now}
	h.Disk = newDisk(h)
	w.Hosts[ip] = h
	w.HostList = append(w.HostList, h)
	w.dns[name] = ip
	return h
}

// Wall is the host's wall clock in ns.
func (h *Host) Wall() int64 {
	if h == nil {
		return W.now
	}
	return W.now + h.ClockNs + (W.now-h.base)/1_000_000*h.DriftPM
}

// Start runs a process.
func (w *World) Start(h *Host, name string, args []string, env map[string]string, main func()) *Proc {
	p := &Proc{ID: len(w.Procs) + 1, Name: name, Host: h, Args: args, Env: env, tasks: map[*Task]struct{}{},
		In: &Pipe{}, eps: map[*Endpoint]struct{}{}, Vals: map[string]any{}, Started: w.now - Epoch}
	p.RNG = NewRNG(w.Seed ^ uint64(p.ID)*0x5851f42d4c957f2d)
	p.RNG.U64()
	w.Procs = append(w.Procs, p)
	w.Logf("start %s", name)
	w.spawn(p, "main", func() {
		runInits()
		main()
		p.exit(0, "main returned", "", w.cur)
	})
	return p
}

func (p *Proc) slow() int {
	if p.Host != nil && p.Host.Slow > 1 {
		return p.Host.Slow
	}
	return 1
}

// exit ends the process; self is the running task if it belongs to it.
func (p *Proc) exit(code int, reason, stack string, self *Task) {
	if p.Dead {
		return
	}
	w := W
	p.Dead = true
	p.Code, p.Reason, p.Stack = code, reason, stack
	p.ExitedAt = w.now - Epoch
	var ts []*Task
	for t := range p.tasks {
		if t != self && !t.done {
			ts = append(ts, t)
		}
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	for _, t := range ts {
		t.killed = true
	}
	if self != nil {
		self.killed = true
		yleft = 0
	}
	for _, t := range ts {
		w.reap(t)
	}
	p.tasks = map[*Task]struct{}{}
	if self != nil {
		yleft = 0
	}
	w.Logf("exit %s: %s %s", p.Name, reason, stack)
	p.netExit()
	for _, x := range p.waiters {
		w.wakeup(x)
	}
	p.waiters = nil
	if w.HostExit != nil {
		w.HostExit(p)
	}
}

// Kill ends a process from a harness task.
func (p *Proc) Kill() {
	if W.inPick {
		panic("Kill outside a task")
	}
	p.exit(-9, "killed", "", nil)
}

// KillAtY arranges for the process to be killed after n more statements.
func (p *Proc) KillAtY(n int64) {
	p.killAtY = p.Ys + n
	for t := range p.tasks {
		if t != W.cur && t.yleft > 1 {
			t.chunk = t.chunk - t.yleft + 1
			t.yleft = 1
		}
	}
}

// Exit ends the current process (os.Exit).
func Exit(code int) {
	ExitIfKilled()
	t := W.cur
	if t.proc == nil {
		panic("os.Exit in harness")
	}
	t.proc.exit(code, "exit", "", t)
	runtime.Goexit()
}

// Fatal ends the current process with a fatal error.
func Fatal(msg string) {
	ExitIfKilled()
	t := W.cur
	if t.proc == nil {
		panic("fatal in harness: " + msg)
	}
	t.proc.exit(2, "fatal error: "+msg, "", t)
	runtime.Goexit()
}

// Wait blocks until the process has ended or the time is over.
func (p *Proc) Wait(d time.Duration) bool {
	if p.Dead {
		return true
	}
	x := W.newWait()
	p.waiters = append(p.waiters, x)
	W.At(W.now+int64(d), func() { W.wakeup(x) })
	W.park("wait proc")
	return p.Dead
}

// WriteOut receives standard output and error.
func (p *Proc) WriteOut(b []byte) {
	p.outPart += string(b)
	for {
		i := strings.IndexByte(p.outPart, '\n')
		if i < 0 {
			break
		}
		p.line(p.outPart[:i])
		p.outPart = p.outPart[i+1:]
	}
	if len(p.outPart) > 1<<16 {
		p.outPart = p.outPart[len(p.outPart)-1024:]
	}
}

// Partial is the text of the last, unterminated output line.
func (p *Proc) Partial() string { return p.outPart }

func (p *Proc) line(s string) {
	k := p.KeepOut
	if k == 0 {
		k = 200
	}
	p.OutLines = append(p.OutLines, s)
	if len(p.OutLines) > 2*k {
		p.OutLines = append([]string{}, p.OutLines[len(p.OutLines)-k:]...)
	}
	if p.OnLine != nil {
		p.OnLine(s)
	}
}

// WallNow is the wall clock seen by the current task.
func WallNow() int64 {
	w := W
	if w == nil {
		return time.Now().UnixNano()
	}
	if w.cur == nil || w.cur.proc == nil {
		return w.now
	}
	return w.cur.proc.Host.Wall()
}

// RandFill fills b from the process's random source.
func RandFill(b []byte) { RandSrc().Fill(b) }

// RandSrc is the current process's random source.
func RandSrc() *RNG {
	if p := Cur(); p != nil {
		return p.RNG
	}
	if r, ok := W.Values["rng"].(*RNG); ok {
		return r
	}
	r := NewRNG(W.Seed ^ 0xabcdef)
	W.Values["rng"] = r
	return r
}

// Val returns a per-process singleton.
func Val[T any](key string, mk func() T) T {
	p := Cur()
	m := W.Values
	if p != nil {
		m = p.Vals
	}
	if v, ok := m[key].(T); ok {
		return v
	}
	v := mk()
	m[key] = v
	return v
}

// DNS adds a name.
func (w *World) DNS(name, ip string) { w.dns[name] = ip }

// Lookup resolves a name for the simulated network.
func Lookup(name string) (string, bool) {
	if name == "" || name == "localhost" {
		if p := Cur(); p != nil {
			return p.Host.IP, true
		}
		return "127.0.0.1", true
	}
	if name == "127.0.0.1" || name == "0.0.0.0" {
		if p := Cur(); p != nil {
			return p.Host.IP, true
		}
	}
	ip, ok := W.dns[name]
	if ok {
		return ip, true
	}
	if _, ok := W.Hosts[name]; ok {
		return name, true
	}
	return name, strings.Count(name, ".") == 3
}

// WallOr is the wall clock of p's host (true time for the harness).
func (p *Proc) WallOr() int64 {
	if p == nil {
		return W.now
	}
	return p.Host.Wall()
}

// SetDrift changes the rate of a host's clock without a jump.
func (h *Host) SetDrift(pm int64) {
	h.ClockNs += (W.now - h.base) / 1_000_000 * h.DriftPM
	h.base = W.now
	h.DriftPM = pm
}
