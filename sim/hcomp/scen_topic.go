package main

import (
	"fmt"
	"time"

	"github.com/levilutz/basiccoin/pkg/topic"
	"github.com/levilutz/basiccoin/verifsim/hx"
	"github.com/levilutz/basiccoin/verifsim/simrt"
)

// topic: publishers and subscribers of one topic.

func init() {
	hx.Register(&hx.Scenario{Name: "topic", Gen: genTopic, Run: runTopic, Opt: compOptions})
}

type tmsg struct{ pub, seq int }

type pubRec struct {
	from, to int // sequence numbers [from,to)
	t0, t1   int
}

type tsub struct {
	id     int
	s0, s1 int
	got    []tmsg
	closed bool
	kind   int64
}

func genTopic(r *simrt.RNG, p *hx.Plan, thorough bool) {
	drawComp(r, p)
	np := 1 + r.N(4)
	p.Cfg["pubs"] = int64(np)
	span := []int{2000, 60000, 60000, 1000000}[r.N(4)]
	if r.N(10) == 0 {
		span = 40_000_000 // past the clean-up of closed subscriptions
	}
	n := 5 + r.N(40)
	if thorough {
		n = 5 + r.N(150)
	}
	bulk := 0 // much at once, so that a subscriber lags far behind
	if r.N(4) == 0 {
		bulk = []int{40, 300, 3000}[r.N(3)]
	}
	for k := 0; k < n; k++ {
		// publisher, messages in the call, calls
		m, calls := 1+r.N(4), 1+r.N(3)
		if bulk > 0 && r.N(5) == 0 {
			m = 1 + r.N(bulk)
			if calls = 1; m > 1000 {
				bulk = 0
			}
		}
		p.Add(int64(r.N(span)), "pub", int64(r.N(np)), int64(m), int64(calls))
	}
	ns := 1 + r.N(7)
	for k := 0; k < ns; k++ {
		// id, kind, reading gap, life (0: to the end), start of reading
		life := int64(0)
		if r.N(2) == 0 {
			life = int64(r.N(span))
		}
		p.Add(int64(r.N(span/2+1)), "sub", int64(k), int64(r.N(4)), []int64{0, 0, 200, 5000, 60000}[r.N(5)], life, int64(r.N(2)*r.N(span)))
	}
}

func runTopic(x *hx.Run) {
	c := newComp(x, "C15")
	h := x.W.NewHost("h", "10.0.0.1")
	pubs := make([][]pubRec, x.Plan.C("pubs"))
	next := make([]int, len(pubs))
	var subs []*tsub
	pubEnd := false
	live := 0
	main := func() {
		tp := topic.NewTopic[tmsg]()
		byPub := map[int][]hx.Op{}
		for _, op := range x.Plan.Ops {
			if op.K == "pub" {
				k := int(op.Arg(0))
				byPub[k] = append(byPub[k], op)
			}
		}
		for k := range pubs {
			k := k
			live++
			c.task(func() {
				for _, op := range byPub[k] {
					c.until(op.T)
					for j := int64(0); j < op.Arg(2); j++ {
						var l []tmsg
						rec := pubRec{from: next[k]}
						for m := int64(0); m < op.Arg(1); m++ {
							l = append(l, tmsg{k, next[k]})
							next[k]++
						}
						rec.to = next[k]
						at := x.W.Now()
						rec.t0 = c.tick()
						tp.Pub(l...)
						rec.t1 = c.tick()
						pubs[k] = append(pubs[k], rec)
						// the list is the caller's: it may use it again
						for i := range l {
							l[i] = tmsg{99, 99}
						}
						if d := x.W.Now() - at; d > int64(120*time.Second) {
							x.Fail("C15", "publisher-blocked", "publishing took %.0f s", float64(d)/1e9)
						}
					}
				}
				if live--; live == 0 {
					pubEnd = true
				}
			})
		}
		for _, op := range x.Plan.Ops {
			if op.K != "sub" {
				continue
			}
			op := op
			c.task(func() {
				c.until(op.T)
				s := &tsub{id: int(op.Arg(0)), kind: op.Arg(1)}
				subs = append(subs, s)
				if s.kind == 1 {
					c.chanSub(tp, s, op, &pubEnd, pubs)
				} else {
					c.pollSub(tp, s, op, &pubEnd, pubs)
				}
			})
		}
		c.wait(time.Hour)
	}
	p := x.W.Start(h, "topic", nil, nil, main)
	if !p.Wait(90 * time.Minute) {
		x.Fail("C15", "stuck", "%d publishing, reading or closing tasks do not end", c.left)
		return
	}
	if c.left > 0 && p.Reason == "main returned" {
		x.Fail("C15", "stuck", "%d publishing, reading or closing tasks do not end", c.left)
		return
	}
	for _, s := range subs {
		c.judgeSub(s, pubs, 1<<60, !s.closed)
	}
	x.Probe("topic-judged")
}

// due checks that everything published before an instant has arrived.
func (c *comp) judgeSub(s *tsub, pubs [][]pubRec, before int, all bool) {
	x := c.x
	last := make([]int, len(pubs))
	first := make([]int, len(pubs))
	for k := range last {
		last[k], first[k] = -1, -1
	}
	for _, m := range s.got {
		if m.pub < 0 || m.pub >= len(pubs) {
			x.Fail("C15", "wrong-message", "subscription %d received %v which nobody published", s.id, m)
			return
		}
		x.Checked(1)
		switch {
		case first[m.pub] < 0:
			first[m.pub] = m.seq
		case m.seq <= last[m.pub]:
			x.Fail("C15", "repeated-or-reordered", "subscription %d received message %d of publisher %d after message %d", s.id, m.seq, m.pub, last[m.pub])
			return
		case m.seq != last[m.pub]+1:
			x.Fail("C15", "lost-message", "subscription %d received message %d of publisher %d right after message %d", s.id, m.seq, m.pub, last[m.pub])
			return
		}
		last[m.pub] = m.seq
	}
	for k, l := range pubs {
		for _, r := range l {
			if first[k] >= 0 && first[k] < r.to && r.t1 < s.s0 {
				x.Fail("C15", "message-before-subscription", "subscription %d received message %d of publisher %d, published before it subscribed", s.id, first[k], k)
				return
			}
			if r.t0 > s.s1 && r.t1 < before {
				x.Checked(1)
				if all && last[k] < r.to-1 || first[k] >= 0 && first[k] > r.from {
					x.Fail("C15", "lost-message", "subscription %d did not receive message %d of publisher %d (received %d to %d)", s.id, r.from, k, first[k], last[k])
					return
				}
			}
		}
	}
}

func (c *comp) pollSub(tp *topic.Topic[tmsg], s *tsub, op hx.Op, pubEnd *bool, pubs [][]pubRec) {
	x := c.x
	s.s0 = c.tick()
	q := tp.Sub()
	s.s1 = c.tick()
	gap := time.Duration(op.Arg(2)) * time.Microsecond
	end := x.W.Now() + op.Arg(3)*1000
	if op.Arg(3) == 0 {
		end = 1 << 62
	}
	if d := op.Arg(4); d > 0 {
		simrt.Sleep(time.Duration(d) * time.Microsecond)
	}
	k := 0
	var idle int64
	readers := 1
	judged := 0
	read := func(own *tsub) {
		for x.W.Now() < end {
			k++
			var pk tmsg
			var pok bool
			sole := s.kind != 2
			if k%5 == 0 {
				pk, pok = q.Peek()
			}
			n := -1
			if k%7 == 0 {
				n = q.Size()
			}
			ended := *pubEnd
			at := c.tick()
			m, ok := q.Pop()
			if sole && pok && (!ok || m != pk) {
				x.Fail("C15 C22", "peek-differs", "subscription %d: peeked %v, then popped %v %v", s.id, pk, m, ok)
			}
			if sole && n > 0 && !ok {
				x.Fail("C15 C22", "size-differs", "subscription %d: %d items, none to pop", s.id, n)
			}
			if ok {
				own.got = append(own.got, m)
				if gap > 0 {
					simrt.Sleep(gap)
				}
				continue
			}
			if sole && len(s.got) >= judged {
				c.judgeSub(s, pubs, at, true)
				judged = len(s.got) + len(s.got)/20
			}
			if ended {
				if idle++; idle > 3 {
					return
				}
			}
			simrt.Sleep(gap + 500*time.Microsecond)
		}
	}
	if s.kind == 2 {
		// two readers share it
		a, b := &tsub{}, &tsub{}
		readers = 2
		one := func(t *tsub) func() {
			return func() { read(t); readers-- }
		}
		c.task(one(a))
		one(b)()
		for readers > 0 && x.W.Now() < end {
			simrt.Sleep(time.Millisecond)
		}
		for readers > 0 {
			simrt.Sleep(time.Millisecond)
		}
		c.merge(s, a, b)
	} else {
		read(s)
	}
	if end < 1<<62 {
		s.closed = true
		at := x.W.Now()
		q.Close()
		if x.W.Now()-at > int64(120*time.Second) {
			x.Fail("C15", "close-blocked", "closing took %.0f s", float64(x.W.Now()-at)/1e9)
		}
		x.Probe("sub-closed")
		for j := 0; j < 3; j++ {
			if m, ok := q.Pop(); ok {
				x.Fail("C15 C22", "message-after-close", "subscription %d returned %v after it was closed", s.id, m)
			}
			if _, ok := q.Peek(); ok || q.Size() != 0 {
				x.Fail("C15 C22", "message-after-close", "subscription %d is not empty after it was closed", s.id)
			}
			simrt.Sleep(time.Duration(op.Arg(3)) * time.Microsecond)
		}
	}
}

// merge joins what two readers of one subscription took.
func (c *comp) merge(s, a, b *tsub) {
	seen := map[tmsg]bool{}
	max := map[int]int{}
	for _, t := range []*tsub{a, b} {
		lastOf := map[int]int{}
		for _, m := range t.got {
			if seen[m] {
				c.x.Fail("C15 C22", "repeated-or-reordered", "subscription %d gave %v twice", s.id, m)
			}
			seen[m] = true
			if l, ok := lastOf[m.pub]; ok && l >= m.seq {
				c.x.Fail("C15 C22", "repeated-or-reordered", "subscription %d gave message %d of publisher %d after %d", s.id, m.seq, m.pub, l)
			}
			lastOf[m.pub] = m.seq
			if m.seq > max[m.pub] {
				max[m.pub] = m.seq
			}
		}
	}
	for p := 0; p < 8; p++ {
		for q := 0; q <= max[p]; q++ {
			if seen[tmsg{p, q}] {
				s.got = append(s.got, tmsg{p, q})
			}
		}
	}
	for m := range seen {
		if m.pub >= 8 {
			s.got = append(s.got, m)
		}
	}
}

func (c *comp) chanSub(tp *topic.Topic[tmsg], s *tsub, op hx.Op, pubEnd *bool, pubs [][]pubRec) {
	x := c.x
	s.s0 = c.tick()
	q := tp.SubCh()
	s.s1 = c.tick()
	gap := time.Duration(op.Arg(2)) * time.Microsecond
	stop := false
	c.task(func() {
		if d := op.Arg(4); d > 0 {
			simrt.Sleep(time.Duration(d) * time.Microsecond)
		}
		for {
			m, ok := simrt.Recv2(q.C)
			if !ok {
				return
			}
			if !stop {
				s.got = append(s.got, m)
			}
			if gap > 0 {
				simrt.Sleep(gap)
			}
		}
	})
	if op.Arg(3) > 0 {
		simrt.Sleep(time.Duration(op.Arg(3)) * time.Microsecond)
		s.closed = true
	} else {
		for !*pubEnd {
			simrt.Sleep(20 * time.Millisecond)
		}
		// everything published must come out within bounded time
		n := 0
		for _, l := range pubs {
			for _, r := range l {
				n += r.to - r.from
			}
		}
		simrt.Sleep(10*time.Second + time.Duration(op.Arg(4))*time.Microsecond + time.Duration(n)*(gap+100*time.Millisecond))
		c.judgeSub(s, pubs, 1<<60, true)
	}
	// from here on closing may take messages
	stop = true
	at := x.W.Now()
	done := false
	c.task(func() {
		q.Close()
		done = true
	})
	n := 0
	for _, l := range pubs {
		for _, r := range l {
			n += r.to - r.from
		}
	}
	for !done && x.W.Now()-at < int64(300*time.Second)+int64(n)*int64(100*time.Millisecond) {
		simrt.Sleep(time.Millisecond)
	}
	x.Probe("channel-closed")
	if !done {
		x.Fail("C15", "close-blocked", "closing channel subscription %d does not end: %s", s.id, fmt.Sprint(op.A))
	}
	x.Checked(1)
}
