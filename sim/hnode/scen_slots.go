package main

import (
	"fmt"
	"time"

	"github.com/levilutz/basiccoin/verifsim/hx"
	"github.com/levilutz/basiccoin/verifsim/ref"
	"github.com/levilutz/basiccoin/verifsim/simrt"
)

// slots: who is a peer of whom. A few real nodes and many guests (virtual
// peers that come, stay silent, vanish, come twice, or claim to be the node).

func init() {
	hx.Register(&hx.Scenario{Name: "slots", Gen: genSlots, Run: runSlots, Opt: netOptions})
	for k, f := range map[string]func(s *slots, op hx.Op){
		"join": (*slots).join, "leave": (*slots).leave, "mute": (*slots).mute, "unmute": (*slots).unmute,
		"half-open": (*slots).halfOpen, "gossip": (*slots).gossip, "chat": (*slots).chat,
	} {
		f := f
		extraOps[k] = func(nt *Net, op hx.Op) { f(nt.sl, op) }
	}
}

type guest struct {
	*vp
	c      *vconn
	listen bool
	l      *simrt.Listener
	muted  bool
	gid    int
}

type slots struct {
	nt     *Net
	nd     *Node
	guests []*guest
	conns  []*vconn // every connection of a guest with the node
	max    int
	rid    string // the node's identifier
	raw    []*simrt.Endpoint
	calm   bool // no network fault now or lately
	closed map[*simrt.Endpoint]int64
	seen   map[*simrt.Endpoint]bool
	stop   bool
	long   bool // silent guests are about: ends take longer to be noticed
}

func genSlots(r *simrt.RNG, p *hx.Plan, thorough bool) {
	drawSim(r, p)
	drawParams(r, p)
	nr := 1 + r.N(4)
	m := 2 + r.N(9)
	p.Cfg["n"] = int64(nr)
	p.Cfg["guests"] = int64(m)
	p.Cfg["prod"] = int64(r.N(6) / 5)
	if p.Cfg["prod"] == 1 {
		p.Cfg["guests"] = int64(30 + r.N(10))
		m = int(p.Cfg["guests"])
	}
	p.Cfg["shared"] = int64(r.N(3)) // guests that share an identifier
	p.Cfg["hidden"] = int64(r.N(16))
	for i := 0; i < nr; i++ {
		p.Add(int64(i)*1700+int64(r.N(900)), "start", int64(i))
	}
	for k := r.N(3); k > 0; k-- {
		p.Add(int64(r.N(60000)), "accepterr", 0, int64(1+r.N(5)))
	}
	n := 10 + r.N(40)
	if thorough {
		n = 10 + r.N(150)
	}
	t := int64(2500)
	gap := []int{100, 1500, 6000}[r.N(3)]
	for k := 0; k < n; k++ {
		t += int64(r.N(gap))
		g := int64(r.N(m))
		switch r.N(15) {
		case 14:
			p.Add(t, "chat", g, int64(3+r.N(3)))
		case 0, 1, 2, 3, 4:
			p.Add(t, "join", g, int64(r.N(12)))
		case 5: // everybody at once
			for j := 0; j < m; j++ {
				p.Add(t+int64(r.N(30)), "join", int64(j), int64(r.N(8)))
			}
		case 6, 7, 8:
			p.Add(t, "leave", g, int64(r.N(4)))
		case 9:
			p.Add(t, "mute", g)
			if r.N(2) == 0 {
				p.Add(t+int64(r.N(20000)), "unmute", g)
			}
		case 10:
			p.Add(t, "half-open", int64(r.N(5)))
		case 11:
			p.Add(t, "gossip", g, int64(r.N(6)), int64(r.U64()>>1))
		case 12:
			p.Add(t, "chat", g, int64(r.N(6)))
		case 13:
			if nr > 1 {
				i := int64(r.N(nr))
				hold := int64(500 + r.N(60000))
				switch r.N(4) {
				case 0, 1:
					p.Add(t, "kill", i)
					p.Add(t+hold, "restart", i)
				case 2:
					p.Add(t, "isolate", i)
					p.Add(t+hold, "healall")
				case 3:
					p.Add(t, "reset", i, int64(r.N(nr)))
				}
			}
		}
	}
}

func runSlots(x *hx.Run) {
	nt := newNet(x)
	p := x.Plan
	nt.crashProps = "C14 C13"
	s := &slots{nt: nt, max: 5, calm: true, closed: map[*simrt.Endpoint]int64{}, seen: map[*simrt.Endpoint]bool{}}
	nt.sl = s
	for i := 0; i < int(p.C("n")); i++ {
		nd := nt.addNode()
		nd.prod = p.C("prod") == 1
		if i > 0 {
			nd.seeds = []string{nt.nodes[0].addr()}
			nd.listen = p.C("hidden")>>uint(i-1)&1 == 0
		} else {
			nd.newNet = true
		}
	}
	if p.C("prod") == 1 {
		s.max = 32
	}
	s.nd = nt.nodes[0]
	nd := s.nd
	for k := 0; k < int(p.C("guests")); k++ {
		g := &guest{vp: &vp{nt: nt, nd: nd, h: nt.vhost()}, gid: k}
		id := k
		if k > 0 && k <= int(p.C("shared")) {
			id = 0
		}
		g.id = ref.HL(ref.HU(p.Seed), ref.HU(uint64(id))).String()
		g.listen = k%3 == 1
		if g.listen {
			g.l = nt.vlisten(g.h, p2pPort, g.id, func(c *vconn) { s.visited(g, c) })
		}
		g.task = nt.w.Harness("g"+fmt.Sprint(k), g.loop)
		s.guests = append(s.guests, g)
	}
	mon := nt.w.Harness("slot-monitor", s.monitor)
	nt.runOps(p.Ops)
	nt.settle(100 * time.Second)
	s.finish()
	s.stop = true
	nt.w.Join(mon)
	nt.finalChecks()
}

func (g *guest) live() bool { return g.c != nil && g.c.err == nil && !g.c.e.Eof() }

func (g *guest) loop() {
	for !g.stop {
		if len(g.q) > 0 {
			f := g.q[0]
			g.q = g.q[1:]
			g.busy = true
			f()
			g.busy = false
			continue
		}
		if g.live() && !g.muted {
			g.c.poll(100 * time.Millisecond)
			continue
		}
		simrt.Sleep(50 * time.Millisecond)
	}
}

// visited serves a connection the node made to a guest.
func (s *slots) visited(g *guest, c *vconn) {
	if c.err != nil {
		c.e.Close()
		return
	}
	c.inc = s.nd.inc
	if c.e.Peer().Host() == s.nd.h {
		s.conns = append(s.conns, c)
	}
	for c.err == nil && !c.e.Eof() && !g.stop {
		if g.muted {
			simrt.Sleep(200 * time.Millisecond)
			continue
		}
		c.poll(200 * time.Millisecond)
	}
	c.e.Close()
}

// member tells whether the node treats a connection as a peer.
func (c *vconn) member() bool {
	n := 0
	for k, v := range c.cmds {
		if k != "peer-addrs" {
			n += v
		}
	}
	return n > 0 || c.pinged
}

func (c *vconn) alive() bool {
	return c.e != nil && c.e.Open() && c.e.Peer().Open()
}

// held is an upper bound on the peers the node may be counting now.
func (s *slots) held(but *vconn) int {
	n := 0
	now := s.nt.w.Now()
	s.scan()
	for _, g := range s.guests {
		if g.busy && (but == nil || g.c != but) {
			n++
		}
	}
	for e := range s.seen {
		if but != nil && but.e != nil && (e == but.e || e == but.e.Peer()) {
			continue
		}
		if at, ok := s.closed[e]; !ok || now-at < int64(20*time.Second) {
			n++
		}
	}
	// it may be dialing these
	for _, o := range s.nt.nodes {
		if o != s.nd {
			n++
		}
	}
	for _, g := range s.guests {
		if g.listen {
			n++
		}
	}
	return n
}

// monitor follows the node's sockets and checks the bounds.
func (s *slots) monitor() {
	nt := s.nt
	x := nt.x
	for !s.stop {
		simrt.Sleep(100 * time.Millisecond)
		for _, nd := range nt.nodes {
			if nd.up && nd.p != nil {
				s.check(nd)
			}
		}
		nd := s.nd
		s.scan()
		// the connections guests know to be peerings
		n := 0
		ids := map[string]*vconn{}
		for _, c := range s.conns {
			if !c.alive() || !c.member() {
				continue
			}
			n++
			id := c.myId
			if o := ids[id]; o != nil {
				x.Fail("C14", "same-peer-twice", "%s keeps two connections with peer %s", nd.name, id[:8])
			}
			ids[id] = c
			if id == s.rid {
				x.Fail("C14", "peer-with-own-id", "%s is its own peer", nd.name)
			}
		}
		for _, o := range nt.nodes {
			if o != nd && o.up && len(s.steady(nd, o)) > 0 {
				n++
			}
		}
		x.Checked(1)
		if n > s.max {
			x.Fail("C14", "too-many-peers", "%s has %d peers, the maximum is %d", nd.name, n, s.max)
		}
		if n == s.max {
			x.Probe("slots-full")
		}
	}
}

// scan notes the node's sockets.
func (s *slots) scan() {
	nd := s.nd
	if nd.up && nd.p != nil {
		for _, e := range nd.p.Endpoints() {
			if e.LAddr.Port != httpPort && e.RAddr.Port != httpPort {
				s.seen[e] = true
			}
		}
	}
	for e := range s.seen {
		if _, ok := s.closed[e]; !ok && !e.Open() {
			s.closed[e] = s.nt.w.Now()
		}
	}
}

// steady lists connections of two nodes that both treat as established.
func (s *slots) steady(a, b *Node) []*simrt.Endpoint {
	var out []*simrt.Endpoint
	for _, e := range s.nt.w.Conns(a.h, b.h) {
		if e.Open() && e.Peer().Open() && s.nt.w.Now()-e.OpenedAt > int64(40*time.Second) && e.RAddr.Port != httpPort && e.LAddr.Port != httpPort {
			out = append(out, e)
		}
	}
	return out
}

// check looks at the connections between real nodes.
func (s *slots) check(nd *Node) {
	for _, o := range s.nt.nodes {
		if o == nd {
			for _, e := range s.nt.w.Conns(nd.h, nd.h) {
				if e.Open() && e.RAddr.Port != httpPort && e.LAddr.Port != httpPort && s.nt.w.Now()-e.OpenedAt > int64(40*time.Second) {
					s.nt.x.Fail("C14", "peer-with-itself", "%s keeps a connection to itself", nd.name)
				}
			}
			continue
		}
		if !s.nt.faulty && len(s.steady(nd, o)) > 1 {
			s.nt.x.Fail("C14", "same-peer-twice", "%s and %s keep %d connections", nd.name, o.name, len(s.steady(nd, o)))
		}
	}
}

// enter is one attempt of a guest to become a peer. It returns whether the
// node took it and whether it answered at all.
func (s *slots) enter(g *guest, id string) (in, answered bool) {
	nt := s.nt
	nd := s.nd
	inc := nd.inc
	c := nt.dialNode(g.h, nd, id, nil)
	c.addrs = g.addrs
	g.c = c
	if c.e == nil {
		return false, false
	}
	if c.peerId != "" && !nd.prod {
		s.rid = c.peerId
	}
	if c.peerId != "" {
		s.rid = c.peerId
	}
	s.conns = append(s.conns, c)
	if c.err != nil {
		c.e.Close()
		return false, c.peerId != ""
	}
	c.inc = inc
	ok := c.command("ping", func() { c.pinged = true })
	if !ok {
		answered = c.closedBy == "peer"
		c.e.Close()
		return false, answered
	}
	nt.x.Probe("guest-joined")
	return true, true
}

// join: guest, identity.
func (s *slots) join(op hx.Op) {
	g := s.guests[int(op.Arg(0))%len(s.guests)]
	nt := s.nt
	if len(g.q) > 3 {
		return
	}
	g.do(func() {
		nd := s.nd
		if g.live() || !nd.up || nt.w.Now() < nd.readyAt+int64(2*time.Second) {
			return
		}
		if op.Arg(1) == 11 && s.rid != "" {
			// claims to be the node itself
			nt.x.Probe("guest-claims-own-id")
			s.enter(g, s.rid)
			return
		}
		if op.Arg(1) == 10 && len(s.guests) > 1 {
			// takes another guest's name for once
			s.enter(g, s.guests[(g.gid+1)%len(s.guests)].id)
			return
		}
		s.tryJoin(g, "join")
	})
}

// tryJoin joins under the guest's own identity and judges a refusal.
func (s *slots) tryJoin(g *guest, when string) bool {
	nt := s.nt
	nd := s.nd
	inc := nd.inc
	t0 := nt.w.Now()
	free := s.free(g)
	in, ans := s.enter(g, g.id)
	if in || !nd.up || nd.inc != inc || nt.faulty {
		return in
	}
	if !free || !s.free(g) {
		return false
	}
	if !ans {
		nt.x.Fail("C14 C13", "no-answer-to-newcomer", "%s did not answer newcomer %s for %.1f s: %v", nd.name, g.h.Name, float64(nt.w.Now()-t0)/1e9, g.c.err)
	} else {
		nt.x.Fail("C14", "refused-with-free-slots", "%s refused newcomer %s having at most %d peers of %d, none of them it", nd.name, g.h.Name, s.held(g.c), s.max)
	}
	return false
}

// free tells whether the node must have a slot for a guest.
func (s *slots) free(g *guest) bool {
	if s.held(g.c) >= s.max {
		return false
	}
	now := s.nt.w.Now()
	for _, c := range s.conns {
		if c == g.c || c.myId != g.id || c.e == nil {
			continue
		}
		if at, ok := s.closed[c.e.Peer()]; !ok || now-at < int64(20*time.Second) {
			return false
		}
	}
	for _, o := range s.guests {
		if o != g && o.id == g.id && (o.busy || o.listen) {
			return false
		}
	}
	return !g.listen
}

// leave: guest, how.
func (s *slots) leave(op hx.Op) {
	g := s.guests[int(op.Arg(0))%len(s.guests)]
	w := s.nt.w
	g.do(func() {
		if !g.live() {
			return
		}
		switch op.Arg(1) {
		case 0:
			g.c.wStr("cmd:close")
			simrt.Sleep(500 * time.Millisecond)
			g.c.e.Close()
			w.Fault("guest-closes")
		case 1:
			g.c.e.Close()
			w.Fault("guest-hangs-up")
		case 2:
			g.c.e.Abort()
			w.Fault("guest-aborts")
		case 3: // vanishes; nothing it sends or receives passes any more
			w.Fault("guest-vanishes")
			s.long = true
			w.Cut(g.h, s.nd.h)
			simrt.Sleep(180 * time.Second)
			g.c.e.Abort()
			w.Heal(g.h, s.nd.h)
		}
		g.c.fail(errMut)
	})
}

func (s *slots) mute(op hx.Op) {
	g := s.guests[int(op.Arg(0))%len(s.guests)]
	g.muted = true
	s.long = true
	s.nt.w.Fault("guest-silent")
}

func (s *slots) unmute(op hx.Op) {
	s.guests[int(op.Arg(0))%len(s.guests)].muted = false
}

// halfOpen: how. Connections that never complete the handshake.
func (s *slots) halfOpen(op hx.Op) {
	nt := s.nt
	if !s.nd.up || nt.w.Now() < s.nd.readyAt+int64(2*time.Second) {
		return
	}
	nt.task("half-open", func() {
		h := s.guests[0].h
		e, err := nt.w.HDial(h, s.nd.h.IP, p2pPort, 5*time.Second)
		if err != nil {
			return
		}
		nt.w.Fault("handshake-abandoned")
		switch op.Arg(0) {
		case 0: // says nothing
		case 1:
			e.Write([]byte{0, 18, 'l'})
		case 2:
			e.Write([]byte("\x00\x12levilutz/basiccoin"))
		case 3:
			e.Write([]byte("GET / HTTP/1.1\r\n\r\n"))
		case 4:
			e.Abort()
			return
		}
		simrt.Sleep(70 * time.Second)
		e.Close()
	})
}

// gossip: guest, kind, seed: a guest tells the node addresses.
func (s *slots) gossip(op hx.Op) {
	g := s.guests[int(op.Arg(0))%len(s.guests)]
	nt := s.nt
	r := simrt.NewRNG(uint64(op.Arg(2)))
	g.do(func() {
		if !g.live() {
			return
		}
		m := map[string]string{}
		var order []string
		add := func(id, addr string) {
			if m[id] == "" {
				order = append(order, id)
			}
			m[id] = addr
		}
		rid := func() string { return ref.HU(r.U64()).String() }
		switch op.Arg(1) {
		case 0: // real guests
			for _, o := range s.guests {
				if o.listen {
					add(o.id, o.h.IP+":"+fmt.Sprint(p2pPort))
				}
			}
		case 1: // the node itself under another name
			add(rid(), s.nd.addr())
			add(rid(), s.nd.addr())
		case 2: // nothing listens there
			for k := 0; k < 3; k++ {
				add(rid(), s.guests[0].h.IP+":"+fmt.Sprint(1000+k))
			}
		case 3: // no addresses at all
			for _, a := range []string{"", ":", "x", "300.1.1.1:5", "10.0.0.1:99999", "no-such-host:21720"} {
				add(rid(), a)
			}
		case 4: // nobody answers
			for k := 0; k < 1+r.N(6); k++ {
				add(rid(), fmt.Sprintf("10.9.9.%d:21720", k))
			}
			nt.w.Fault("unreachable-addresses")
		case 5: // the same place under many names
			for k := 0; k < 20; k++ {
				add(rid(), s.guests[len(s.guests)-1].h.IP+":"+fmt.Sprint(p2pPort))
			}
		}
		g.c.sendAddrs(m, order)
	})
}

// chat: guest, kind: ordinary commands.
func (s *slots) chat(op hx.Op) {
	g := s.guests[int(op.Arg(0))%len(s.guests)]
	g.do(func() {
		if op.Arg(1) > 2 && !g.live() && s.nd.up && s.nt.w.Now() > s.nd.readyAt+int64(2*time.Second) {
			s.tryJoin(g, "brief")
		}
		if !g.live() {
			return
		}
		switch op.Arg(1) {
		case 0:
			g.c.command("addrs-request", func() {})
		case 1:
			g.c.command("announce-addr", func() { g.c.wStr(g.h.IP + ":" + fmt.Sprint(p2pPort)) })
		case 2:
			g.c.syncNow()
		case 3, 4, 5: // tells its address and is gone
			if op.Arg(1) == 5 { // while the node is busy with another of its name
				s.nt.task("namesake", func() {
					h := s.nt.vhost()
					c := s.nt.dialNode(h, s.nd, g.id, nil)
					if c.e == nil {
						return
					}
					s.conns = append(s.conns, c)
					simrt.Sleep(time.Second)
					c.e.Close()
				})
				simrt.Sleep(time.Duration(100+op.Arg(0)*17) * time.Millisecond)
			}
			if op.Arg(1) == 3 {
				g.c.command("announce-addr", func() { g.c.wStr(g.h.IP + ":" + fmt.Sprint(p2pPort)) })
			} else { // waits for nothing; others do the same
				for n := s.nt.r.N(8); ; n-- {
					var b []byte
					for k := s.nt.r.N(6); k > 0; k-- {
						b = append(b, "\x00\x11cmd:addrs-request"...)
					}
					a := g.h.IP + ":" + fmt.Sprint(p2pPort)
					b = append(b, "\x00\x11cmd:announce-addr\x00"+string(rune(len(a)))+a+"\x00\x09cmd:close"...)
					if s.nt.r.N(2) == 0 && s.nd.up {
						s.nt.w.Hiccup(s.nd.p, s.nt.r, time.Duration(1+s.nt.r.N(100))*time.Millisecond)
					}
					g.c.write(b)
					if n <= 0 {
						break
					}
					g.c.e.Close()
					if in, _ := s.enter(g, ref.HU(s.nt.r.U64()).String()); !in {
						return
					}
				}
			}
			if g.c.err == nil {
				if op.Arg(1) == 3 {
					g.c.wStr("cmd:close")
				}
				g.c.e.Close()
				g.c.fail(errMut)
				s.nt.w.Fault("announces-and-leaves")
			}
		}
	})
}

// finish ends all faults and guests' visits and checks that every slot can be
// used again and that the nodes find each other.
func (s *slots) finish() {
	nt := s.nt
	x := nt.x
	nd := s.nd
	for _, g := range s.guests {
		g.muted = false
		g.drained(400 * time.Second)
		g.stop = true
		nt.w.Join(g.task)
		if g.l != nil {
			g.l.Close()
		}
	}
	for _, c := range s.conns {
		if c.e != nil && c.e.Open() {
			c.e.Close()
		}
	}
	nt.calm()
	nt.settle(200 * time.Second)
	w := nt.w
	// the nodes find each other: everyone who listens is reached by the others
	end := w.Now() + int64(400*time.Second)
	for {
		why := ""
		for i, a := range nt.nodes {
			if a.inc > 0 && !a.up {
				a.restart()
			}
			for _, b := range nt.nodes[:i] {
				if a.inc == 0 || b.inc == 0 || !a.listen && !b.listen {
					continue
				}
				if len(nt.peered(a, b)) == 0 {
					why = fmt.Sprintf("%s (listens %v) and %s (listens %v) are not connected", a.name, a.listen, b.name, b.listen)
				}
			}
		}
		if why == "" {
			break
		}
		if w.Now() > end {
			x.Fail("C14", "nodes-do-not-connect", "400 s after the faults ended: %s", why)
			break
		}
		simrt.Sleep(2 * time.Second)
	}
	x.Probe("nodes-connected")
	if !nd.up {
		return
	}
	simrt.Sleep(25 * time.Second)
	nt.leftovers(nd)
	// every slot not taken by a node can be taken again
	n := s.max - (len(nt.nodes) - 1)
	var in []*guest
	faulty := nt.faulty
	nt.faulty = false
	for k := 0; k < n; k++ {
		g := &guest{vp: &vp{nt: nt, nd: nd, h: nt.vhost()}, gid: 100 + k}
		if k < len(s.guests) && k%2 == 0 && k > int(x.Plan.C("shared")) && !s.guests[k].listen {
			g.id = s.guests[k].id // as before
		} else {
			g.id = ref.HL(ref.HU(x.Plan.Seed), ref.HU(uint64(500+k))).String()
		}
		ok := false
		inc := nd.inc
		for try := 0; try < 8 && !ok && nd.up && nd.inc == inc; try++ {
			var a bool
			if ok, a = s.enter(g, g.id); !ok {
				_ = a
				simrt.Sleep(4 * time.Second)
			}
		}
		if !ok && nd.up && nd.inc == inc {
			for _, e := range nd.p.Endpoints() {
				nt.w.Logf("%s socket %s -> %s, opened %.3f, open at the other end %v", nd.name, e.LAddr, e.RAddr, float64(e.OpenedAt)/1e9, e.Peer().Open())
			}
			x.Fail("C14", "slot-not-reclaimed", "%s at rest with %d of %d peers does not take newcomer %d: %v", nd.name, len(nt.nodes)-1+len(in), s.max, k, g.c.err)
			break
		}
		g.task = w.Harness("late", g.loop)
		in = append(in, g)
	}
	x.Probe("slots-refilled")
	// and not one more
	g := &guest{vp: &vp{nt: nt, nd: nd, h: nt.vhost()}, gid: 200, c: nil}
	g.id = ref.HL(ref.HU(x.Plan.Seed), ref.HU(777)).String()
	s.enter(g, g.id)
	simrt.Sleep(time.Second)
	nt.faulty = faulty
	for _, g := range in {
		g.stop = true
		w.Join(g.task)
		g.c.e.Close()
	}
}
