// Package context is the standard package's behaviour on simulated channels
// and timers.
package context

import (
	real "context"
	"fmt"
	"time"

	stime "MODPATH/verifsim/shim/time"
	"MODPATH/verifsim/simrt"
)

type Context interface {
	Deadline() (deadline time.Time, ok bool)
	Done() *simrt.Chan[struct{}]
	Err() error
	Value(key any) any
}
type CancelFunc = real.CancelFunc
type CancelCauseFunc = real.CancelCauseFunc

var Canceled = real.Canceled
var DeadlineExceeded = real.DeadlineExceeded

type empty string

func (empty) Deadline() (t time.Time, ok bool) { return }
func (empty) Done() *simrt.Chan[struct{}]      { return nil }
func (empty) Err() error                       { return nil }
func (empty) Value(any) any                    { return nil }
func (e empty) String() string                 { return string(e) }

func Background() Context { return empty("context.Background") }
func TODO() Context       { return empty("context.TODO") }

type ctx struct {
	parent   Context
	done     *simrt.Chan[struct{}]
	err      error
	cause    error
	kids     []*ctx
	dl       time.Time
	hasDl    bool
	onCancel func()
	stopped  bool
	timer    *stime.Timer
}

func (c *ctx) Deadline() (time.Time, bool) {
	if c.hasDl {
		return c.dl, true
	}
	return c.parent.Deadline()
}
func (c *ctx) Done() *simrt.Chan[struct{}] { return c.done }
func (c *ctx) Err() error                  { simrt.Y(); return c.err }
func (c *ctx) Value(k any) any {
	if k == any(&ctxKey) {
		return c
	}
	return c.parent.Value(k)
}
func (c *ctx) String() string { return fmt.Sprint(c.parent) + ".WithCancel" }

var ctxKey int

func (c *ctx) cancel(err, cause error) {
	if c.err != nil {
		return
	}
	if cause == nil {
		cause = err
	}
	c.err, c.cause = err, cause
	if c.timer != nil {
		c.timer.Stop()
	}
	simrt.Close(c.done)
	for _, k := range c.kids {
		k.cancel(err, cause)
	}
	c.kids = nil
	if c.onCancel != nil && !c.stopped {
		c.stopped = true
		simrt.Go(c.onCancel)
	}
}

func child(parent Context) *ctx {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	c := &ctx{parent: parent, done: simrt.MakeChan[struct{}](0)}
	if p, ok := parent.Value(&ctxKey).(*ctx); ok {
		if p.err != nil {
			c.cancel(p.err, p.cause)
		} else {
			p.kids = append(p.kids, c)
		}
		return c
	}
	if d := parent.Done(); d != nil {
		simrt.Go(func() {
			s, o := simrt.RecvCase(d), simrt.RecvCase(c.done)
			if simrt.Select(false, s, o) == 0 {
				c.cancel(parent.Err(), nil)
			}
		})
	}
	return c
}

func WithCancel(parent Context) (Context, CancelFunc) {
	c := child(parent)
	return c, func() { c.cancel(Canceled, nil) }
}
func WithCancelCause(parent Context) (Context, CancelCauseFunc) {
	c := child(parent)
	return c, func(e error) { c.cancel(Canceled, e) }
}
func WithDeadlineCause(parent Context, d time.Time, cause error) (Context, CancelFunc) {
	c := child(parent)
	if cur, ok := parent.Deadline(); ok && cur.Before(d) {
		return c, func() { c.cancel(Canceled, nil) }
	}
	c.dl, c.hasDl = d, true
	if left := stime.Until(d); left <= 0 {
		c.cancel(DeadlineExceeded, cause)
	} else if c.err == nil {
		c.timer = stime.AfterFunc(left, func() { c.cancel(DeadlineExceeded, cause) })
	}
	return c, func() { c.cancel(Canceled, nil) }
}
func WithDeadline(parent Context, d time.Time) (Context, CancelFunc) {
	return WithDeadlineCause(parent, d, nil)
}
func WithTimeout(parent Context, d time.Duration) (Context, CancelFunc) {
	return WithDeadlineCause(parent, stime.Now().Add(d), nil)
}
func WithTimeoutCause(parent Context, d time.Duration, cause error) (Context, CancelFunc) {
	return WithDeadlineCause(parent, stime.Now().Add(d), cause)
}

type valCtx struct {
	Context
	k, v any
}

func (c *valCtx) Value(k any) any {
	if k == c.k {
		return c.v
	}
	return c.Context.Value(k)
}
func WithValue(parent Context, k, v any) Context { return &valCtx{parent, k, v} }

type noCancel struct{ Context }

func (noCancel) Deadline() (t time.Time, ok bool) { return }
func (noCancel) Done() *simrt.Chan[struct{}]      { return nil }
func (noCancel) Err() error                       { return nil }
func (c noCancel) Value(k any) any {
	if k == any(&ctxKey) {
		return nil
	}
	return c.Context.Value(k)
}
func WithoutCancel(parent Context) Context { return noCancel{parent} }

func Cause(c Context) error {
	if x, ok := c.Value(&ctxKey).(*ctx); ok {
		return x.cause
	}
	return c.Err()
}

func AfterFunc(parent Context, f func()) func() bool {
	c := &ctx{parent: parent, done: simrt.MakeChan[struct{}](0), onCancel: f}
	if p, ok := parent.Value(&ctxKey).(*ctx); ok {
		if p.err != nil {
			c.cancel(p.err, p.cause)
		} else {
			p.kids = append(p.kids, c)
		}
	}
	return func() bool {
		was := c.stopped
		c.stopped = true
		return !was
	}
}
