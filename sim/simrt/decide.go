package simrt

// RNG is splitmix64.
type RNG struct{ s uint64 }

func NewRNG(seed uint64) *RNG { return &RNG{seed} }
func (r *RNG) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}
func (r *RNG) Intn(n uint64) uint64 {
	if n == 0 {
		return 0
	}
	return r.U64() % n
}
func (r *RNG) N(n int) int          { return int(r.Intn(uint64(n))) }
func (r *RNG) Pct(p int) bool       { return r.N(100) < p }
func (r *RNG) Range(lo, hi int) int { return lo + r.N(hi-lo+1) }
func (r *RNG) Float() float64       { return float64(r.U64()>>11) / (1 << 53) }
func (r *RNG) Fill(b []byte) {
	for i := 0; i < len(b); {
		v := r.U64()
		for j := 0; j < 8 && i < len(b); j++ {
			b[i] = byte(v)
			v >>= 8
			i++
		}
	}
}
func (r *RNG) Fork(tag string) *RNG {
	h := r.s ^ 0x1234567
	for i := 0; i < len(tag); i++ {
		h = (h ^ uint64(tag[i])) * 1099511628211
	}
	n := NewRNG(h)
	n.U64()
	return n
}

// Stream is one kind of decision. Decision value 0 is always the benign one.
type Stream struct {
	rng    *RNG
	rec    []uint32
	in     []uint32
	replay bool
	i      int
}

func (s *Stream) choose(gen func(*RNG) uint32) uint32 {
	var v uint32
	if s.replay {
		if s.i < len(s.in) {
			v = s.in[s.i]
		}
	} else {
		v = gen(s.rng)
	}
	s.i++
	s.rec = append(s.rec, v)
	return v
}

// Decider holds the decision streams of a run.
type Decider struct {
	sched, pre, stall, net, fs, sel, maps, misc *Stream
	all                                         map[string]*Stream
}

func newDecider(seed uint64, replay map[string][]uint32) *Decider {
	d := &Decider{all: map[string]*Stream{}}
	root := NewRNG(seed*0x9e3779b97f4a7c15 + 77)
	mk := func(name string) *Stream {
		s := &Stream{rng: root.Fork(name)}
		if replay != nil {
			s.replay = true
			s.in = replay[name]
		}
		d.all[name] = s
		return s
	}
	d.sched, d.pre, d.stall, d.net = mk("sched"), mk("pre"), mk("stall"), mk("net")
	d.fs, d.sel, d.maps, d.misc = mk("fs"), mk("sel"), mk("maps"), mk("misc")
	return d
}

// Record returns the decisions taken so far, trailing zeros removed.
func (d *Decider) Record() map[string][]uint32 {
	m := map[string][]uint32{}
	for k, s := range d.all {
		n := len(s.rec)
		for n > 0 && s.rec[n-1] == 0 {
			n--
		}
		m[k] = append([]uint32{}, s.rec[:n]...)
	}
	return m
}

// Count returns how many decisions were taken.
func (d *Decider) Count() int {
	n := 0
	for _, s := range d.all {
		n += s.i
	}
	return n
}
