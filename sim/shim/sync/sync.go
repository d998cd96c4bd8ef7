package sync

import (
	"MODPATH/verifsim/simrt"
)

type Locker interface {
	Lock()
	Unlock()
}

type Mutex struct {
	locked bool
	wait   []simrt.Waiter
}

func (m *Mutex) Lock() {
	simrt.ExitIfKilled()
	simrt.Y()
	for m.locked {
		m.wait = append(m.wait, simrt.NewWait())
		simrt.Park("mutex")
	}
	m.locked = true
}

func (m *Mutex) TryLock() bool {
	simrt.ExitIfKilled()
	simrt.Y()
	if m.locked {
		return false
	}
	m.locked = true
	return true
}

func wakeOne(q *[]simrt.Waiter) {
	for len(*q) > 0 {
		x := (*q)[0]
		*q = (*q)[1:]
		if simrt.Wake(x) {
			return
		}
	}
}

func wakeAll(q *[]simrt.Waiter) {
	l := *q
	*q = nil
	for _, x := range l {
		simrt.Wake(x)
	}
}

func (m *Mutex) Unlock() {
	simrt.ExitIfKilled()
	simrt.Y()
	if !m.locked {
		simrt.Fatal("sync: unlock of unlocked mutex")
	}
	m.locked = false
	wakeOne(&m.wait)
}

type RWMutex struct {
	w       bool
	readers int
	wwait   int
	q       []simrt.Waiter
}

func (m *RWMutex) Lock() {
	simrt.ExitIfKilled()
	simrt.Y()
	m.wwait++
	for m.w || m.readers > 0 {
		m.q = append(m.q, simrt.NewWait())
		simrt.Park("rwmutex lock")
	}
	m.wwait--
	m.w = true
}
func (m *RWMutex) TryLock() bool {
	simrt.ExitIfKilled()
	simrt.Y()
	if m.w || m.readers > 0 {
		return false
	}
	m.w = true
	return true
}
func (m *RWMutex) Unlock() {
	simrt.ExitIfKilled()
	simrt.Y()
	if !m.w {
		simrt.Fatal("sync: Unlock of unlocked RWMutex")
	}
	m.w = false
	wakeAll(&m.q)
}
func (m *RWMutex) RLock() {
	simrt.ExitIfKilled()
	simrt.Y()
	first := true
	for m.w || (first && m.wwait > 0) {
		first = false
		m.q = append(m.q, simrt.NewWait())
		simrt.Park("rwmutex rlock")
	}
	m.readers++
}
func (m *RWMutex) TryRLock() bool {
	simrt.ExitIfKilled()
	simrt.Y()
	if m.w || m.wwait > 0 {
		return false
	}
	m.readers++
	return true
}
func (m *RWMutex) RUnlock() {
	simrt.ExitIfKilled()
	simrt.Y()
	if m.readers <= 0 {
		simrt.Fatal("sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	if m.readers == 0 {
		wakeAll(&m.q)
	}
}

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

func (m *RWMutex) RLocker() Locker { return rlocker{m} }

type WaitGroup struct {
	n int
	q []simrt.Waiter
}

func (g *WaitGroup) Add(d int) {
	simrt.ExitIfKilled()
	simrt.Y()
	g.n += d
	if g.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if g.n == 0 {
		wakeAll(&g.q)
	}
}
func (g *WaitGroup) Done() { g.Add(-1) }
func (g *WaitGroup) Wait() {
	simrt.ExitIfKilled()
	simrt.Y()
	for g.n > 0 {
		g.q = append(g.q, simrt.NewWait())
		simrt.Park("waitgroup")
	}
}
func (g *WaitGroup) Go(f func()) {
	g.Add(1)
	simrt.Go(func() {
		defer g.Done()
		f()
	})
}

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	simrt.ExitIfKilled()
	simrt.Y()
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}
func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var a T1
	var b T2
	return func() (T1, T2) { o.Do(func() { a, b = f() }); return a, b }
}

type Cond struct {
	L Locker
	q []simrt.Waiter
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	simrt.ExitIfKilled()
	x := simrt.NewWait()
	c.q = append(c.q, x)
	// enqueue first, then release: a Signal in between must not be lost
	simrt.ParkAfter(x, "cond", c.L.Unlock)
	c.L.Lock()
}
func (c *Cond) Signal()    { simrt.ExitIfKilled(); simrt.Y(); wakeOne(&c.q) }
func (c *Cond) Broadcast() { simrt.ExitIfKilled(); simrt.Y(); wakeAll(&c.q) }

type Pool struct {
	New func() any
	l   []any
}

func (p *Pool) Get() any {
	simrt.ExitIfKilled()
	simrt.Y()
	if n := len(p.l); n > 0 {
		v := p.l[n-1]
		p.l = p.l[:n-1]
		return v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}
func (p *Pool) Put(v any) {
	simrt.ExitIfKilled()
	simrt.Y()
	p.l = append(p.l, v)
}

// Map is sync.Map with insertion order kept, so that Range is deterministic.
type Map struct {
	m    map[any]*any
	keys []any
}

func (m *Map) Load(k any) (any, bool) {
	simrt.ExitIfKilled()
	simrt.Y()
	if v, ok := m.m[k]; ok {
		return *v, true
	}
	return nil, false
}
func (m *Map) set(k, v any) {
	if m.m == nil {
		m.m = map[any]*any{}
	}
	if p, ok := m.m[k]; ok {
		*p = v
		return
	}
	m.m[k] = &v
	m.keys = append(m.keys, k)
}
func (m *Map) del(k any) {
	if _, ok := m.m[k]; !ok {
		return
	}
	delete(m.m, k)
	for i, x := range m.keys {
		if x == k {
			m.keys = append(append([]any{}, m.keys[:i]...), m.keys[i+1:]...)
			break
		}
	}
}
func (m *Map) Store(k, v any) {
	simrt.ExitIfKilled()
	simrt.Y()
	m.set(k, v)
}
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	simrt.ExitIfKilled()
	simrt.Y()
	if p, ok := m.m[k]; ok {
		return *p, true
	}
	m.set(k, v)
	return v, false
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	simrt.ExitIfKilled()
	simrt.Y()
	p, ok := m.m[k]
	if !ok {
		return nil, false
	}
	v := *p
	m.del(k)
	return v, true
}
func (m *Map) Delete(k any) { m.LoadAndDelete(k) }
func (m *Map) Swap(k, v any) (any, bool) {
	simrt.ExitIfKilled()
	simrt.Y()
	var old any
	p, ok := m.m[k]
	if ok {
		old = *p
	}
	m.set(k, v)
	return old, ok
}
func (m *Map) CompareAndSwap(k, o, n any) bool {
	simrt.ExitIfKilled()
	simrt.Y()
	p, ok := m.m[k]
	if !ok || *p != o {
		return false
	}
	*p = n
	return true
}
func (m *Map) CompareAndDelete(k, o any) bool {
	simrt.ExitIfKilled()
	simrt.Y()
	p, ok := m.m[k]
	if !ok || *p != o {
		return false
	}
	m.del(k)
	return true
}
func (m *Map) Clear() {
	simrt.ExitIfKilled()
	simrt.Y()
	m.m, m.keys = nil, nil
}
func (m *Map) Range(f func(k, v any) bool) {
	simrt.ExitIfKilled()
	for _, k := range append([]any{}, m.keys...) {
		simrt.Y()
		p, ok := m.m[k]
		if !ok {
			continue
		}
		if !f(k, *p) {
			return
		}
	}
}
