package main

import (
	"github.com/levilutz/basiccoin/verifsim/simrt"
	"strings"
	"time"

	"github.com/levilutz/basiccoin/verifsim/ref"
)

// sweep reads every record in the node's directory and checks that each is
// what its name says, individually valid, and accompanied by all it refers to.
func (nd *Node) sweep() {
	if nd.save == "" {
		return
	}
	nt, x, s, d := nd.nt, nd.nt.x, nd.nt.S, nd.h.Disk
	get := func(dir string, f func(id ref.H, raw []byte)) map[ref.H]bool {
		m := map[ref.H]bool{}
		for _, n := range d.List(nd.save + "/" + dir) {
			id, ok := ref.ParseH(n[strings.LastIndex(n, "/")+1:])
			if !ok {
				continue
			}
			raw, ok := d.Peek(nd.save + "/" + dir + "/" + id.String())
			if !ok {
				continue
			}
			m[id] = true
			f(id, raw)
		}
		return m
	}
	txl, mkl, bll := map[ref.H]*ref.Tx{}, map[ref.H]ref.Mk{}, map[ref.H]*ref.Block{}
	sizes := map[ref.H]uint64{}
	get("txs", func(id ref.H, raw []byte) {
		t, v, ok := ref.ParseTxRec(raw)
		if !ok || t.Hash() != id || v != t.VSize() {
			x.Fail("C10 C23", "bad-tx-record", "%s holds a bad record of transaction %s: %q", nd.name, id.Short(), clip(string(raw), 300))
			return
		}
		s.AddTx(t)
		if !t.Same(s.Txs[id]) {
			x.Fail("C10 C23", "bad-tx-record", "%s holds an altered record of transaction %s: %q", nd.name, id.Short(), clip(string(raw), 300))
		}
		txl[id] = t
	})
	get("merkles", func(id ref.H, raw []byte) {
		m, v, ok := ref.ParseMkRec(raw)
		if !ok || m.Hash() != id {
			x.Fail("C10 C23", "bad-merkle-record", "%s holds a bad record of node %s: %q", nd.name, id.Short(), clip(string(raw), 300))
			return
		}
		s.AddMk(m)
		mkl[id] = m
		sizes[id] = v
	})
	get("blocks", func(id ref.H, raw []byte) {
		if id.Zero() {
			return
		}
		b, _, _, ok := ref.ParseBlockRec(raw)
		if !ok || b.Hash() != id {
			x.Fail("C10 C23", "bad-block-record", "%s holds a bad record of block %s: %q", nd.name, id.Short(), clip(string(raw), 300))
			return
		}
		s.AddBlock(b)
		bll[id] = b
	})
	for _, id := range sortedH(txl) {
		t := txl[id]
		x.Checked(1)
		for _, in := range t.Inputs {
			if txl[in.Utxo.TxId] == nil {
				x.Fail("C23 C10", "origin-missing", "%s knows transaction %s but not %s, whose output it spends", nd.name, id.Short(), in.Utxo.TxId.Short())
			}
		}
		if bad := s.CheckTx(t); bad != "" {
			props := "C13 C02"
			switch bad {
			case "tx-wrong-key", "tx-wrong-value", "tx-bad-signature", "tx-no-origin":
				props = "C13 C03"
			}
			x.Fail(props, "stored-invalid-tx:"+bad, "%s stored transaction %s that breaks %s", nd.name, id.Short(), bad)
		}
	}
	for _, id := range sortedH(mkl) {
		m := mkl[id]
		x.Checked(1)
		for _, ch := range []ref.H{m.L, m.R} {
			_, mk := mkl[ch]
			if !mk && txl[ch] == nil {
				x.Fail("C23 C10", "child-missing", "%s knows node %s but not %s below it", nd.name, id.Short(), ch.Short())
			}
		}
		if want := s.TreeSize(id); want != sizes[id] {
			x.Fail("C10", "bad-merkle-size", "%s recorded size %d for node %s, should be %d", nd.name, sizes[id], id.Short(), want)
		}
	}
	for _, id := range sortedH(bll) {
		b := bll[id]
		x.Checked(1)
		if !b.Prev.Zero() && bll[b.Prev] == nil {
			x.Fail("C23 C10", "parent-missing", "%s knows block %s but not its parent %s", nd.name, id.Short(), b.Prev.Short())
			continue
		}
		if _, ok := mkl[b.Merkle]; !ok {
			x.Fail("C23 C10", "root-missing", "%s knows block %s but not its root %s", nd.name, id.Short(), b.Merkle.Short())
			continue
		}
		i := s.Info(id)
		if i == nil {
			continue
		}
		raw, _ := d.Peek(nd.save + "/blocks/" + id.String())
		if _, h, wk, _ := ref.ParseBlockRec(raw); h != i.Height || wk.Int().Cmp(i.Work) != 0 {
			x.Fail("C10 C05", "bad-block-figures", "%s recorded height %d work %s for block %s, should be %d %s", nd.name, h, wk, id.Short(), i.Height, ref.FromInt(i.Work))
		}
		switch bad := i.Bad; {
		case bad == "" || bad == "min-block" || strings.HasPrefix(bad, "bad-ancestor:"):
		case bad == "tx-repeated" || bad == "tx-spent-input":
		default:
			x.Fail(ruleProps(bad), "stored-invalid-block:"+bad, "%s stored block %s that breaks %s", nd.name, id.Short(), bad)
		}
	}
	nt.x.Probe("records-swept")
}

// live counts what a node's process is running.
func (nd *Node) live() int {
	n := 0
	for _, c := range nd.nt.w.Live(nd.p) {
		n += c
	}
	return n
}

// note measures a fresh incarnation.
func (nd *Node) note() {
	inc := nd.inc
	nd.base = 0
	w := nd.nt.w
	var look func()
	look = func() {
		if !nd.up || nd.inc != inc || !nd.http {
			return
		}
		if w.HTTPUp(nd.h, httpPort) {
			w.After(2e9, func() {
				if nd.up && nd.inc == inc {
					nd.base = nd.live()
				}
			})
			return
		}
		w.After(100e6, look)
	}
	w.After(100e6, look)
}

// leftovers checks that what has come and gone has left nothing in a node:
// it runs what a fresh one runs and a bounded number of tasks for each of its
// connections, and it has no connection to who is no more.
func (nt *Net) leftovers(nd *Node) {
	if !nd.up || nd.base == 0 || nd.h.Slow > 1 {
		return
	}
	inc := nd.inc
	end := nt.w.Now() + int64(200*time.Second)
	for {
		live, conns, gone := nd.live(), 0, 0
		for _, e := range nd.p.Endpoints() {
			conns++
			if o := e.Peer(); o != nil && !o.Open() {
				gone++
			}
		}
		if live <= nd.base+16*(conns-gone)+6 && gone == 0 {
			break
		}
		if nt.w.Now() > end {
			if gone > 0 {
				nt.x.Fail("C26 C14", "connection-left", "%s still has %d connections whose other end closed long ago", nd.name, gone)
			} else {
				nt.x.Fail("C26", "tasks-left", "%s with %d connections runs %d tasks, when it was fresh it ran %d: %v", nd.name, conns, live, nd.base, nt.w.Live(nd.p))
			}
			return
		}
		simrt.Sleep(2 * time.Second)
		if !nd.up || nd.inc != inc {
			return
		}
	}
	nt.x.Probe("nothing-left")
	nt.x.Checked(1)
}
