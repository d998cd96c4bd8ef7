package time

import (
	realt "time"

	"MODPATH/verifsim/simrt"
)

func Now() realt.Time { simrt.Y(); return realt.Unix(0, simrt.WallNow()).UTC() }

func Since(t realt.Time) realt.Duration { return Now().Sub(t) }
func Until(t realt.Time) realt.Duration { return t.Sub(Now()) }
func Sleep(d realt.Duration)            { simrt.Sleep(d) }

type Timer struct {
	C    *simrt.Chan[realt.Time]
	f    func()
	gen  int
	live bool
}

func (t *Timer) arm(d realt.Duration) {
	t.gen++
	g := t.gen
	t.live = true
	if d < 0 {
		d = 0
	}
	p := simrt.Cur()
	w := simrt.W
	w.At(w.Now()+simrt.Epoch+int64(d), func() {
		if !t.live || t.gen != g || (p != nil && p.Dead) {
			return
		}
		t.live = false
		if t.f != nil {
			w.SpawnIn(p, t.f)
			return
		}
		t.C.TrySend(realt.Unix(0, p.WallOr()).UTC())
	})
}

func NewTimer(d realt.Duration) *Timer {
	simrt.ExitIfKilled()
	t := &Timer{C: simrt.MakeChan[realt.Time](1)}
	t.arm(d)
	return t
}

func AfterFunc(d realt.Duration, f func()) *Timer {
	simrt.ExitIfKilled()
	t := &Timer{f: f}
	t.arm(d)
	return t
}

func After(d realt.Duration) *simrt.Chan[realt.Time] { return NewTimer(d).C }

func (t *Timer) Stop() bool {
	simrt.ExitIfKilled()
	was := t.live
	t.live = false
	if t.C != nil {
		t.C.Drain()
	}
	return was
}

func (t *Timer) Reset(d realt.Duration) bool {
	was := t.Stop()
	t.arm(d)
	return was
}

type Ticker struct {
	C    *simrt.Chan[realt.Time]
	d    realt.Duration
	gen  int
	live bool
}

func NewTicker(d realt.Duration) *Ticker {
	simrt.ExitIfKilled()
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	t := &Ticker{C: simrt.MakeChan[realt.Time](1), d: d}
	t.arm()
	return t
}

func Tick(d realt.Duration) *simrt.Chan[realt.Time] {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}

func (t *Ticker) arm() {
	t.gen++
	g := t.gen
	t.live = true
	p := simrt.Cur()
	w := simrt.W
	var tick func()
	next := w.Now() + simrt.Epoch
	tick = func() {
		if !t.live || t.gen != g || (p != nil && p.Dead) {
			return
		}
		t.C.TrySend(realt.Unix(0, p.WallOr()).UTC())
		next += int64(t.d)
		w.At(next, tick)
	}
	next += int64(t.d)
	w.At(next, tick)
}

func (t *Ticker) Stop() { t.live = false }
func (t *Ticker) Reset(d realt.Duration) {
	t.d = d
	t.arm()
}
