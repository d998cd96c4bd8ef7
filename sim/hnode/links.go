package main

import (
	"bytes"

	"github.com/levilutz/basiccoin/verifsim/simrt"
)

// linkTag is what one end of a connection wrote so far.
type linkTag struct {
	joined bool // it treats the other as a peer: it served or issued a command
	cmds   int
	closed bool // it announced the close
	wrote  bool
}

func tagOf(e *simrt.Endpoint) *linkTag {
	t, _ := e.Tag.(*linkTag)
	if t == nil {
		t = &linkTag{}
		e.Tag = t
	}
	return t
}

// watchLinks observes the connections between two real nodes: while nothing
// disturbs the network, no node gives up a link on which both have already
// taken the other as a peer.
func (nt *Net) watchLinks() {
	w := nt.w
	nt.lastLink = map[*Node]int64{}
	w.OnNetWrite = func(e *simrt.Endpoint, b []byte) {
		t := tagOf(e)
		if !t.wrote {
			t.wrote = true
			if o := e.Peer(); o != nil && !o.Raw {
				nt.lastLink[nt.nodeOf(e.Proc())] = w.Now()
			}
		}
		switch {
		case bytes.Contains(b, []byte("cmd:close")):
			t.closed = true
		case bytes.Contains(b, []byte("ack:")):
			t.joined = true
		case bytes.Contains(b, []byte("cmd:")):
			// one who has no slot left also starts with an address list
			t.cmds++
			if t.cmds > 1 || !bytes.Contains(b, []byte("cmd:peer-addrs")) {
				t.joined = true
			}
		}
	}
	w.OnNetClose = func(e *simrt.Endpoint) {
		o := e.Peer()
		if o == nil || o.Proc() == nil || o.Proc().Dead || o.Raw || !o.Open() {
			return
		}
		a, b := nt.nodeOf(e.Proc()), nt.nodeOf(o.Proc())
		if a == nil || b == nil || a == b {
			return
		}
		ta, tb := tagOf(e), tagOf(o)
		if !ta.joined || !tb.joined || ta.closed || tb.closed {
			return
		}
		nt.x.Checked(1)
		// links the faults have broken are closed a little later
		if (nt.faulty || nt.rough) && (!nt.quiet || nt.w.Now() < nt.quietAt+10e9) {
			return
		}
		nt.x.Fail("C12", "honest-link-dropped", "%s gave up its link to %s, both correct, without faults", a.name, b.name)
	}
}

// nodeOf is the node a process runs, if any.
func (nt *Net) nodeOf(p *simrt.Proc) *Node {
	for _, nd := range nt.nodes {
		if nd.p != nil && nd.p == p {
			return nd
		}
	}
	return nil
}
