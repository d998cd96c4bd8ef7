package simrt

// Chan is a simulated Go channel.
type Chan[T any] struct {
	buf    []T
	cap    int
	closed bool
	recvq  []*sudog[T]
	sendq  []*sudog[T]
}

type selState struct {
	w     waiter
	fired bool
	idx   int
}

type sudog[T any] struct {
	sel *selState
	idx int
	val T
	ok  bool
}

func MakeChan[T any](n int) *Chan[T] {
	if n < 0 {
		panic("makechan: size out of range")
	}
	return &Chan[T]{cap: n}
}

func ChanLen[T any](c *Chan[T]) int {
	if c == nil {
		return 0
	}
	return len(c.buf)
}

func ChanCap[T any](c *Chan[T]) int {
	if c == nil {
		return 0
	}
	return c.cap
}

func popq[T any](q *[]*sudog[T]) *sudog[T] {
	for len(*q) > 0 {
		s := (*q)[0]
		(*q)[0] = nil
		*q = (*q)[1:]
		if !s.sel.fired && !s.sel.w.t.killed && !s.sel.w.t.done {
			return s
		}
	}
	return nil
}

func hasq[T any](q *[]*sudog[T]) bool {
	for len(*q) > 0 {
		s := (*q)[0]
		if !s.sel.fired && !s.sel.w.t.killed && !s.sel.w.t.done {
			return true
		}
		(*q)[0] = nil
		*q = (*q)[1:]
	}
	return false
}

func fire[T any](s *sudog[T]) {
	s.sel.fired = true
	s.sel.idx = s.idx
	W.wakeup(s.sel.w)
}

// trySend performs the send if it would not block.
func (c *Chan[T]) trySend(v T) bool {
	if c == nil {
		return false
	}
	if c.closed {
		panic(plainError("send on closed channel"))
	}
	if s := popq(&c.recvq); s != nil {
		s.val, s.ok = v, true
		fire(s)
		return true
	}
	if len(c.buf) < c.cap {
		c.buf = append(c.buf, v)
		return true
	}
	return false
}

// tryRecv: done reports whether the receive could happen now.
func (c *Chan[T]) tryRecv() (v T, ok, done bool) {
	if c == nil {
		return v, false, false
	}
	if len(c.buf) > 0 {
		v = c.buf[0]
		c.buf = c.buf[1:]
		if s := popq(&c.sendq); s != nil {
			c.buf = append(c.buf, s.val)
			s.ok = true
			fire(s)
		}
		return v, true, true
	}
	if s := popq(&c.sendq); s != nil {
		v = s.val
		s.ok = true
		fire(s)
		return v, true, true
	}
	if c.closed {
		return v, false, true
	}
	return v, false, false
}

type plainError string

func (e plainError) Error() string { return string(e) }
func (e plainError) RuntimeError() {}

// TrySend is for shims (timers); it never blocks.
func (c *Chan[T]) TrySend(v T) bool { return c.trySend(v) }

// Drain empties the buffer.
func (c *Chan[T]) Drain() { c.buf = nil }

func Send[T any](c *Chan[T], v T) {
	ExitIfKilled()
	Y()
	if c == nil {
		W.newWait()
		W.park("send on nil channel")
	}
	if c.trySend(v) {
		return
	}
	sel := &selState{w: W.newWait()}
	s := &sudog[T]{sel: sel, val: v}
	c.sendq = append(c.sendq, s)
	W.park("chan send")
	if !s.ok {
		panic(plainError("send on closed channel"))
	}
}

func Recv2[T any](c *Chan[T]) (T, bool) {
	ExitIfKilled()
	Y()
	if c == nil {
		W.newWait()
		W.park("receive from nil channel")
	}
	if v, ok, done := c.tryRecv(); done {
		return v, ok
	}
	sel := &selState{w: W.newWait()}
	s := &sudog[T]{sel: sel}
	c.recvq = append(c.recvq, s)
	W.park("chan receive")
	return s.val, s.ok
}

func Recv[T any](c *Chan[T]) T { v, _ := Recv2(c); return v }

func Close[T any](c *Chan[T]) {
	ExitIfKilled()
	Y()
	if c == nil {
		panic(plainError("close of nil channel"))
	}
	if c.closed {
		panic(plainError("close of closed channel"))
	}
	c.closed = true
	for s := popq(&c.recvq); s != nil; s = popq(&c.recvq) {
		s.ok = false
		fire(s)
	}
	for s := popq(&c.sendq); s != nil; s = popq(&c.sendq) {
		s.ok = false
		fire(s)
	}
}

// SelCase is one case of a select.
type SelCase interface {
	ready() bool
	exec()
	enqueue(sel *selState, i int)
	finish()
}

type SendC[T any] struct {
	c  *Chan[T]
	v  T
	sd *sudog[T]
}

type RecvC[T any] struct {
	c  *Chan[T]
	V  T
	Ok bool
	sd *sudog[T]
}

func SendCase[T any](c *Chan[T], v T) *SendC[T] { return &SendC[T]{c: c, v: v} }
func RecvCase[T any](c *Chan[T]) *RecvC[T]      { return &RecvC[T]{c: c} }

func SendCaseTo[T any](c *Chan[T]) func(T) *SendC[T] {
	return func(v T) *SendC[T] { return SendCase(c, v) }
}

// SendTo takes the channel first so that the value is converted to its type.
func SendTo[T any](c *Chan[T]) func(T) { return func(v T) { Send(c, v) } }

// MakeNamedChan makes a channel of a named type.
func MakeNamedChan[C ~*Chan[T], T any](n int) C { return C(MakeChan[T](n)) }

func (s *SendC[T]) ready() bool {
	return s.c != nil && (s.c.closed || hasq(&s.c.recvq) || len(s.c.buf) < s.c.cap)
}
func (s *SendC[T]) exec() { s.c.trySend(s.v) }
func (s *SendC[T]) enqueue(sel *selState, i int) {
	if s.c != nil {
		s.sd = &sudog[T]{sel: sel, idx: i, val: s.v}
		s.c.sendq = append(s.c.sendq, s.sd)
	}
}
func (s *SendC[T]) finish() {
	if !s.sd.ok {
		panic(plainError("send on closed channel"))
	}
}
func (s *RecvC[T]) ready() bool {
	return s.c != nil && (len(s.c.buf) > 0 || s.c.closed || hasq(&s.c.sendq))
}
func (s *RecvC[T]) exec() { s.V, s.Ok, _ = s.c.tryRecv() }
func (s *RecvC[T]) enqueue(sel *selState, i int) {
	if s.c != nil {
		s.sd = &sudog[T]{sel: sel, idx: i}
		s.c.recvq = append(s.c.recvq, s.sd)
	}
}
func (s *RecvC[T]) finish() { s.V, s.Ok = s.sd.val, s.sd.ok }

// Select runs a select statement and returns the chosen case, or -1.
func Select(hasDefault bool, cases ...SelCase) int {
	ExitIfKilled()
	Y()
	w := W
	var rdyBuf [8]int
	rdy := rdyBuf[:0]
	for i, c := range cases {
		if c.ready() {
			rdy = append(rdy, i)
		}
	}
	if n := len(rdy); n > 0 {
		k := 0
		if n > 1 {
			k = int(w.D.sel.choose(func(r *RNG) uint32 { return uint32(r.Intn(uint64(n))) })) % n
		}
		cases[rdy[k]].exec()
		return rdy[k]
	}
	if hasDefault {
		return -1
	}
	sel := &selState{w: w.newWait()}
	for i, c := range cases {
		c.enqueue(sel, i)
	}
	w.park("select")
	cases[sel.idx].finish()
	return sel.idx
}

// ChanRange evaluates the operand of a range over a channel.
func ChanRange[T any](c *Chan[T]) (v T, _ *Chan[T]) { return v, c }
