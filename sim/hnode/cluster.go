package main

import (
	"fmt"
	"syscall"
	"time"

	"github.com/levilutz/basiccoin/pkg/core"
	"github.com/levilutz/basiccoin/verifsim/hx"
	"github.com/levilutz/basiccoin/verifsim/ref"
	"github.com/levilutz/basiccoin/verifsim/simrt"
)

// exec performs one step of a plan. Steps that wait run beside the plan.
func (nt *Net) exec(op hx.Op) {
	a := func(i int) int64 { return op.Arg(i) }
	nd := func(i int) *Node { return nt.nodes[int(a(i))%len(nt.nodes)] }
	w := nt.w
	w.Logf("step %s %v", op.K, op.A)
	switch op.K {
	case "start":
		if nd(0).inc == 0 {
			nd(0).start()
		}
	case "kill":
		nt.faulty = true
		nd(0).kill()
	case "killdisk":
		nt.faulty = true
		if nd(0).up {
			nd(0).p.KillAtDisk = nd(0).p.DiskOps + 1 + a(1)
			nd(0).p.KillDiskFrac = int(a(2))
			nd(0).p.KillPath = ""
			if a(3) > 0 {
				nd(0).p.KillPath = "/head"
			}
		}
	case "killy":
		nt.faulty = true
		if nd(0).up {
			nd(0).p.KillAtY(1 + a(1))
		}
	case "poweroff":
		nt.faulty = true
		if nd(0).up {
			w.PowerOff(nd(0).h)
			nd(0).up = false
		}
	case "restart":
		if nd(0).inc > 0 {
			nd(0).restart()
		}
	case "term":
		n := nd(0)
		if n.up {
			n.exitOK = true
			nt.faulty = true
			nt.task("term", func() {
				h := map[string][]string{"Pw": {"pw"}}
				w.HTTPCall(nt.client, nil, "POST", nt.url(n, "/admin/terminate"), "", h, nil, 20*time.Second, simrt.HTTPFault{})
			})
		}
	case "cut":
		nt.faulty = true
		if nd(0) != nd(1) {
			w.Cut(nd(0).h, nd(1).h)
		}
	case "heal":
		w.Heal(nd(0).h, nd(1).h)
	case "isolate":
		nt.faulty = true
		for _, o := range nt.nodes {
			if o != nd(0) {
				w.Cut(o.h, nd(0).h)
			}
		}
	case "healall":
		w.HealAll()
	case "lat":
		nt.rough = true
		if nd(0) != nd(1) {
			w.SetLatency(nd(0).h, nd(1).h, time.Duration(a(2))*time.Millisecond)
		}
	case "loss":
		nt.rough = true
		if nd(0) != nd(1) {
			w.SetLoss(nd(0).h, nd(1).h, int(a(2)))
		}
	case "reset":
		nt.faulty = true
		if nd(0) != nd(1) {
			w.ResetConns(nd(0).h, nd(1).h)
		}
	case "accepterr":
		nd(0).h.AcceptErrs = int(a(1))
	case "dialerr":
		nt.faulty = true
		nd(0).h.DialErrs = int(a(1))
	case "clock":
		nd(0).setClock(a(1))
	case "drift":
		w.Fault("clock-drift")
		nd(0).h.SetDrift(a(1))
	case "slow":
		nt.rough = true
		w.Fault("slow-node")
		nd(0).h.Slow = int(a(1))
	case "diskslow":
		w.Fault("disk-slow-window")
		nd(0).h.Disk.SlowPM = int(a(1))
	case "diskfail":
		n := nd(0)
		n.dirty, n.fuzzy = true, true
		nt.faulty = true
		n.h.Disk.FailWrite = int(a(1))
		n.h.Disk.FailErr = []syscall.Errno{syscall.EIO, syscall.ENOSPC}[a(2)&1]
	case "diskread":
		n := nd(0)
		n.dirty, n.fuzzy = true, true
		nt.faulty = true
		n.h.Disk.FailRead = int(a(1))
		n.h.Disk.FailErr = syscall.EIO
	case "diskfull":
		n := nd(0)
		n.dirty, n.fuzzy = true, true
		nt.faulty = true
		w.Fault("disk-full")
		n.h.Disk.Free = a(1)
	case "diskok":
		d := nd(0).h.Disk
		d.FailWrite, d.FailRead, d.Free, d.SlowPM = 0, 0, -1, 0
	case "pause":
		nd(0).paused = a(1) != 0
	case "pace":
		nd(0).pace = a(1) * 1e6
	case "hiccup":
		if n := nd(0); n.up && n.p != nil {
			nt.w.Hiccup(n.p, simrt.NewRNG(uint64(a(1))), time.Duration(1+a(2))*time.Millisecond)
		}
	case "query":
		n := nd(0)
		if n.up && nt.w.Now() > n.readyAt {
			nt.task("query", func() { nt.query(n, int(a(1)), uint64(a(2))) })
		}
	case "flood":
		n := nd(0)
		if n.up && n.http && nt.w.Now() > n.readyAt {
			nt.task("flood", func() { nt.flood(n, int(a(1)), uint64(a(2))) })
		}
	case "pay":
		n := nd(0)
		if n.up && n.http && nt.w.Now() > n.readyAt {
			nt.task("pay", func() { nt.pay(n, int(a(1)), uint64(a(2))) })
		}
	default:
		if f := nt.extra(op.K); f != nil {
			f(nt, op)
			return
		}
		panic("unknown step " + op.K)
	}
}

var extraOps = map[string]func(nt *Net, op hx.Op){}

func (nt *Net) extra(k string) func(nt *Net, op hx.Op) { return extraOps[k] }

func (nd *Node) setClock(sec int64) {
	nd.nt.w.Fault("clock-jump")
	nd.h.ClockNs = sec * 1e9
	if nd.h.ClockNs > nd.maxOff {
		nd.maxOff = nd.h.ClockNs
	}
}

// runOps performs the steps in time order.
func (nt *Net) runOps(ops []hx.Op) {
	for _, op := range ops {
		if d := op.T*1e6 - nt.w.Now(); d > 0 {
			simrt.Sleep(time.Duration(d))
		}
		nt.exec(op)
	}
}

// settle waits for the tasks started by the plan.
func (nt *Net) settle(max time.Duration) {
	end := nt.w.Now() + int64(max)
	for _, t := range nt.tasks {
		for !t.Done() && nt.w.Now() < end {
			simrt.Sleep(200 * time.Millisecond)
		}
	}
}

// flood submits many payments, more than a block holds.
func (nt *Net) flood(nd *Node, n int, seed uint64) {
	r := simrt.NewRNG(seed)
	used := map[ref.Utxo]bool{}
	for ; n > 0 && nd.up; n-- {
		st := nt.S.StateAt(nd.head())
		for _, s := range nt.accepted {
			if _, done := st.Incl[s.id]; !done {
				for _, in := range s.t.Inputs {
					used[in.Utxo] = true
				}
			}
		}
		var free []ref.Utxo
		for _, u := range nt.spendable(nd.head()) {
			if !used[u] && u.Value > 8 {
				free = append(free, u)
			}
		}
		if len(free) == 0 {
			simrt.Sleep(time.Second)
			continue
		}
		u := free[r.N(len(free))]
		nOut := 1 + r.N(4)
		if len(free) < 8 {
			nOut = 8 + r.N(8) // more to spend
			if m := int(nt.P.MaxTx/40) - 8; nOut > m && m > 0 {
				nOut = m
			}
		}
		t := nt.payFrom(r, []ref.Utxo{u}, 1+r.Intn(u.Value/4), nOut, 0)
		if t.VSize() > nt.P.MaxTx || nt.S.CheckTx(t) != "" {
			continue
		}
		nt.post(nd, t, simrt.HTTPFault{})
		nt.x.Probe("flood")
	}
}

// pay submits a transaction of the given kind.
func (nt *Net) pay(nd *Node, kind int, seed uint64) {
	r := simrt.NewRNG(seed ^ 0x9a)
	head := nd.head()
	us := nt.spendable(head)
	// outputs of transactions this node accepted and has not confirmed
	st := nt.S.StateAt(head)
	var pend []*sub
	used := map[ref.Utxo]bool{}
	for _, s := range nt.accepted {
		if _, done := st.Incl[s.id]; done {
			continue
		}
		for _, in := range s.t.Inputs {
			used[in.Utxo] = true
		}
		if s.nd == nd && s.inc == nd.inc && s.at >= nt.payFloor {
			pend = append(pend, s)
		}
	}
	var free []ref.Utxo
	for _, u := range us {
		if !used[u] {
			free = append(free, u)
		}
	}
	pick := func(l []ref.Utxo, n int) []ref.Utxo {
		var out []ref.Utxo
		l = append([]ref.Utxo{}, l...)
		for len(out) < n && len(l) > 0 {
			j := r.N(len(l))
			out = append(out, l[j])
			l = append(l[:j], l[j+1:]...)
		}
		return out
	}
	sum := func(l []ref.Utxo) (n uint64) {
		for _, u := range l {
			n += u.Value
		}
		return
	}
	var f simrt.HTTPFault
	minBlock := uint64(0)
	var in []ref.Utxo
	switch kind % 16 {
	default: // plain
		in = pick(free, 1+r.N(3))
	case 3: // spends a pending output
		var l []ref.Utxo
		for _, s := range pend {
			for o, out := range s.t.Outputs {
				u := ref.Utxo{TxId: s.id, Ind: uint64(o), Value: out.Value}
				if !used[u] && nt.owner[out.Pkh] != nil {
					l = append(l, u)
				}
			}
		}
		in = append(pick(l, 1), pick(free, r.N(2))...)
	case 4: // conflicts with a pending one
		if len(pend) > 0 {
			s := pend[r.N(len(pend))]
			for _, i := range s.t.Inputs {
				in = append(in, i.Utxo)
			}
		}
	case 5: // again
		if len(nt.accepted) > 0 {
			s := nt.accepted[r.N(len(nt.accepted))]
			nt.x.Probe("resubmit")
			nt.post(nd, s.t, f)
		}
		return
	case 6:
		f.LoseResponse = true
		in = pick(free, 1)
	case 7:
		f.LoseRequest = true
		in = pick(free, 1)
	case 8:
		in = pick(free, 1)
		minBlock = head.Height + r.Intn(6)
	case 9, 10, 11:
		nt.payBad(nd, r, free, st)
		return
	}
	if len(in) == 0 || sum(in) < 3 {
		return
	}
	for _, u := range in {
		if nt.ownerOf(u) == nil {
			return // a wallet's
		}
	}
	tot := sum(in)
	t := nt.payFrom(r, in, 1+r.Intn(tot/2+1), r.N(4), minBlock)
	nt.post(nd, t, f)
}

// payBad submits transactions that break a rule.
func (nt *Net) payBad(nd *Node, r *simrt.RNG, free []ref.Utxo, st *ref.State) {
	if len(free) == 0 {
		return
	}
	u := free[r.N(len(free))]
	if u.Value < 4 {
		return
	}
	t := nt.badTx(r, u, free, r.N(badTxKinds))
	if t == nil {
		return
	}
	if nt.S.CheckTx(t) == "" {
		return
	}
	nt.x.Probe("invalid-submitted")
	nt.post(nd, t, simrt.HTTPFault{})
}

const badTxKinds = 26

// badTx builds a transaction that breaks one rule.
func (nt *Net) badTx(r *simrt.RNG, u ref.Utxo, free []ref.Utxo, kind int) *ref.Tx {
	own := nt.ownerOf(u)
	if own == nil {
		return nil
	}
	other := nt.keys[r.N(len(nt.keys))]
	t := nt.payFrom(r, []ref.Utxo{u}, 1+r.Intn(u.Value/2), 2, 0)
	switch kind {
	case 0: // outputs equal inputs
		t.Outputs = []ref.TxOut{{Value: u.Value, Pkh: other.Pkh}}
		ref.SignTx(t, []*ref.Key{own})
	case 1: // outputs exceed inputs
		t.Outputs = []ref.TxOut{{Value: u.Value + 5, Pkh: other.Pkh}}
		ref.SignTx(t, []*ref.Key{own})
	case 2: // the outputs' sum wraps around
		t.Outputs = []ref.TxOut{{Value: 1 << 63, Pkh: other.Pkh}, {Value: 1<<63 + u.Value/2, Pkh: other.Pkh}}
		ref.SignTx(t, []*ref.Key{own})
	case 3: // the same input twice
		t = nt.payFrom(r, []ref.Utxo{u, u}, 1+r.Intn(u.Value/2), 2, 0)
	case 4: // somebody else's key
		if other == own {
			return nil
		}
		ref.SignTx(t, []*ref.Key{other})
	case 5: // a key that owns it, signed by another
		if other == own {
			return nil
		}
		t.Inputs[0].Signature = other.Sign(t.SigHash())
	case 6: // another value stated
		t.Inputs[0].Utxo.Value += 7
		ref.SignTx(t, []*ref.Key{own})
	case 7: // changed after signing
		t.Outputs[0].Value++
	case 8: // unknown origin
		t.Inputs[0].Utxo.TxId = ref.HU(r.U64())
		ref.SignTx(t, []*ref.Key{own})
	case 9: // no such output
		t.Inputs[0].Utxo.Ind += 9
		ref.SignTx(t, []*ref.Key{own})
	case 10: // minimum block changed after signing
		t.MinBlock++
	case 11: // garbage signature
		t.Inputs[0].Signature = t.Inputs[0].Signature[:len(t.Inputs[0].Signature)-2]
	case 12: // too big
		for len(t.Outputs)*40 < int(nt.P.MaxTx) {
			t.Outputs = append(t.Outputs, ref.TxOut{Value: 0, Pkh: other.Pkh})
		}
		ref.SignTx(t, []*ref.Key{own})
	case 13: // one of two inputs unsigned
		if len(free) < 2 {
			return nil
		}
		v := free[r.N(len(free))]
		if v == u {
			return nil
		}
		t = nt.payFrom(r, []ref.Utxo{u, v}, 1+r.Intn(u.Value/2), 2, 0)
		t.Inputs[1].Signature = own.Sign(ref.HU(r.U64()))
	case 14: // takes a neighbouring output of another owner along
		var l []ref.Utxo
		for _, v := range free {
			if v.TxId == u.TxId && v.Ind != u.Ind && nt.ownerOf(v) != own {
				l = append(l, v)
			}
		}
		for _, v := range l {
			if v.Value == u.Value {
				l = []ref.Utxo{v}
			}
		}
		if len(l) == 0 {
			return nil
		}
		t = nt.payFrom(r, []ref.Utxo{u, l[r.N(len(l))]}, 1+r.Intn(u.Value/2), 2, 0)
		t.Inputs[1].PublicKey = own.Pub
		ref.SignTx(t, []*ref.Key{own, own})
	case 22, 23, 24: // changed after the program's own code said what to sign
		if u.Value < 8 {
			return nil
		}
		n := 1 + r.N(3)
		t = nt.payFrom(r, []ref.Utxo{u}, 2+r.Intn(u.Value/4), n, 0)
		var outs []core.TxOut
		for _, o := range t.Outputs {
			outs = append(outs, core.TxOut{Value: o.Value, PublicKeyHash: core.NewHashTFromBytes(o.Pkh[:])})
		}
		sig := own.Sign(ref.H(core.TxHashPreSig(t.MinBlock, outs).Data()))
		was := t.SigHash()
		k := r.N(len(t.Outputs))
		switch r.N(7) {
		case 0:
			t.Outputs[k].Value++
		case 1:
			t.Outputs[k].Pkh = ref.HU(r.U64())
		case 2:
			if t.Outputs[k].Value == 0 {
				return nil
			}
			t.Outputs[k].Value--
		case 3:
			t.Outputs = append(t.Outputs, ref.TxOut{Value: r.Intn(2), Pkh: other.Pkh})
		case 4:
			t.Outputs = t.Outputs[:len(t.Outputs)-1]
		case 5:
			j := r.N(len(t.Outputs))
			t.Outputs[k], t.Outputs[j] = t.Outputs[j], t.Outputs[k]
		case 6:
			j := r.N(len(t.Outputs))
			t.Outputs[k].Pkh, t.Outputs[j].Pkh = t.Outputs[j].Pkh, t.Outputs[k].Pkh
		}
		if len(t.Outputs) == 0 || t.SigHash() == was {
			return nil
		}
		t.Inputs[0].Signature = sig
	case 25: // the signature of another transaction of the owner
		var l []*ref.Tx
		for _, id := range sortedH(nt.S.Txs) {
			for _, in := range nt.S.Txs[id].Inputs {
				if string(in.PublicKey) == string(own.Pub) {
					l = append(l, nt.S.Txs[id])
					break
				}
			}
		}
		if len(l) == 0 {
			return nil
		}
		o := l[r.N(len(l))]
		if o.SigHash() == t.SigHash() {
			return nil
		}
		for _, in := range o.Inputs {
			if string(in.PublicKey) == string(own.Pub) {
				t.Inputs[0].Signature = in.Signature
			}
		}
		nt.x.Probe("borrowed-signature")
	case 20: // a key of another kind
		t.Inputs[0].PublicKey = nt.oddKey(r)
		if r.N(2) == 0 {
			t.Inputs[0].Signature = own.Sign(t.SigHash())
		}
	case 21: // an output owned by a key of another kind
		for n := len(nt.nodes); n > 0; n-- {
			st := nt.S.StateAt(nt.nodes[n-1].head())
			for _, v := range sortedU(st.Utxos) {
				if pub := nt.odd[st.Utxos[v]]; pub != nil && v.Value > 1 {
					s := t.Inputs[0].Signature
					if r.N(2) == 0 {
						s = make([]byte, r.N(70))
						r.Fill(s)
					}
					t.Inputs = []ref.TxIn{{Utxo: v, PublicKey: pub, Signature: s}}
					t.Outputs = []ref.TxOut{{Value: v.Value - 1, Pkh: other.Pkh}}
					nt.x.Probe("odd-key-spend")
					return t
				}
			}
		}
		return nil
	case 15, 16, 17, 18, 19: // several inputs, one of them wrong
		in := []ref.Utxo{u}
		for k := 0; k < 1+r.N(4); k++ {
			v := free[r.N(len(free))]
			dup := false
			for _, o := range in {
				dup = dup || o == v
			}
			if !dup {
				in = append(in, v)
			}
		}
		for k := range in {
			j := r.N(len(in))
			in[k], in[j] = in[j], in[k]
		}
		if len(in) < 2 {
			return nil
		}
		var ks []*ref.Key
		for _, v := range in {
			ks = append(ks, nt.ownerOf(v))
		}
		j := r.N(len(in))
		fee := 1 + r.Intn(u.Value/2)
		t = nt.payFrom(r, in, fee, 2, 0)
		switch kind {
		case 15: // one is somebody else's
			if ks[j] == other {
				return nil
			}
			ks[j] = other
			ref.SignTx(t, ks)
		case 16: // one is there again
			t = nt.payFrom(r, append(in, in[j]), fee, 2, 0)
		case 17: // two state other values, with the right sum
			k := (j + 1) % len(in)
			t.Inputs[j].Utxo.Value++
			t.Inputs[k].Utxo.Value--
			ref.SignTx(t, ks)
		case 18: // signatures exchanged
			k := (j + 1) % len(in)
			if ks[j] == ks[k] {
				return nil
			}
			t.Inputs[j].Signature, t.Inputs[k].Signature = t.Inputs[k].Signature, t.Inputs[j].Signature
		case 19: // one names another output of its transaction
			t.Inputs[j].Utxo.Ind++
			ref.SignTx(t, ks)
		}
	}
	return t
}

// calm ends every fault.
func (nt *Net) calm() {
	nt.w.Logf("faults end")
	nt.w.HealAll()
	for _, nd := range nt.nodes {
		d := nd.h.Disk
		d.FailWrite, d.FailRead, d.Free, d.SlowPM = 0, 0, -1, 0
		nd.h.Slow = 0
		if nd.h.DriftPM != 0 {
			nd.h.SetDrift(0)
		}
		nd.h.ClockNs = 0
		if nd.p != nil {
			nd.p.KillAtDisk = 0
			nd.p.KillAtY(1 << 60)
		}
	}
	for _, nd := range nt.nodes {
		if nd.inc > 0 {
			nd.restart()
		}
	}
}

// quietPhase checks that the network recovers: the nodes converge, payments
// are confirmed, and every answer follows from the common chain.
func (nt *Net) quietPhase(mineNode int) {
	x := nt.x
	nt.calm()
	nt.settle(200 * time.Second)
	var miner *Node
	for k := range nt.nodes {
		nd := nt.nodes[(k+mineNode)%len(nt.nodes)]
		if nd.miners > 0 && nd.inc > 0 {
			miner = nd
			break
		}
	}
	for _, nd := range nt.nodes {
		nd.paused = nd != miner
	}
	if miner == nil {
		nt.finalChecks()
		return
	}
	miner.paused = false
	nt.hush()
	limit := nt.w.Now() + int64(nt.recoverTime())
	h0 := uint64(0)
	for _, nd := range nt.nodes {
		if h := nd.head().Height; h > h0 {
			h0 = h
		}
	}
	okSince := int64(0)
	for {
		simrt.Sleep(2 * time.Second)
		for _, nd := range nt.nodes {
			if nd.inc > 0 && !nd.up {
				// a seed may have come back too late
				nd.restart()
			}
		}
		why := nt.agree(h0)
		if why == "" {
			if okSince == 0 {
				okSince = nt.w.Now()
			}
			break
		}
		okSince = 0
		if nt.w.Now() > limit {
			props := "C06"
			cls := "no-convergence"
			if miner.head().Height <= h0 && len(nt.nodes) >= 1 {
				props += " C17"
				cls = "no-growth"
			}
			for _, nd := range nt.nodes {
				if nd.inc > 1 && (nd == miner || cls != "no-growth") {
					props += " C09" // not the participant it was
					break
				}
			}
			x.Fail(props+" C05 C13", cls, "%.0f s after the faults ended: %s", nt.recoverTime().Seconds(), why)
			return
		}
	}
	x.Probe("converged")
	// Payments made now reach everyone and are confirmed.
	nt.quietPay(miner)
	if x.Plan.C("anew") > 0 {
		nt.payAnew(miner)
	}
	// Stop mining; everything must come to rest.
	for _, nd := range nt.nodes {
		nd.paused = true
	}
	simrt.Sleep(20 * time.Second)
	end := nt.w.Now() + int64(120*time.Second)
	for {
		why := nt.agree(0)
		if why == "" {
			break
		}
		if nt.w.Now() > end {
			x.Fail("C06", "no-final-agreement", "at rest: %s", why)
			return
		}
		simrt.Sleep(2 * time.Second)
	}
	nt.finalChecks()
}

// hush notes that there are no faults from here on.
func (nt *Net) hush() {
	nt.quiet, nt.quietAt = true, nt.w.Now()
}

func (nt *Net) recoverTime() time.Duration {
	if v := nt.x.Plan.C("recover"); v > 0 {
		return time.Duration(v) * time.Second
	}
	return 900 * time.Second
}

// agree returns why the nodes do not have one head above height h0.
func (nt *Net) agree(h0 uint64) string {
	var first *Node
	for _, nd := range nt.nodes {
		if nd.inc == 0 || nd.save == "" {
			continue
		}
		if !nd.up {
			return nd.name + " is down"
		}
		if first == nil {
			first = nd
			if nd.head().Height <= h0 && h0 > 0 {
				return fmt.Sprintf("%s is at height %d, not above %d", nd.name, nd.head().Height, h0)
			}
			continue
		}
		if nd.head().Id != first.head().Id {
			return fmt.Sprintf("%s has %s at height %d, %s has %s at height %d", first.name, first.head().Id.Short(), first.head().Height, nd.name, nd.head().Id.Short(), nd.head().Height)
		}
	}
	return ""
}

// connected lists the pairs of nodes with a live connection.
func (nt *Net) reach(from *Node) map[*Node]bool {
	seen := map[*Node]bool{from: true}
	q := []*Node{from}
	for len(q) > 0 {
		a := q[0]
		q = q[1:]
		for _, b := range nt.nodes {
			if !seen[b] && b.up && len(nt.peered(a, b)) > 0 {
				seen[b] = true
				q = append(q, b)
			}
		}
	}
	return seen
}

// peered lists established connections between two nodes.
func (nt *Net) peered(a, b *Node) []*simrt.Endpoint {
	var out []*simrt.Endpoint
	for _, e := range nt.w.Conns(a.h, b.h) {
		if e.Open() && e.Peer().Open() && nt.w.Now()-e.OpenedAt > int64(2*time.Second) && e.RAddr.Port != httpPort && e.LAddr.Port != httpPort {
			out = append(out, e)
		}
	}
	return out
}

// quietPay submits a few payments in the quiet network and follows them.
func (nt *Net) quietPay(miner *Node) {
	x := nt.x
	if !miner.http {
		return
	}
	// give addresses and connections time to settle
	simrt.Sleep(15 * time.Second)
	reach := nt.reach(miner)
	var entry *Node
	for k := range nt.nodes {
		nd := nt.nodes[(k+int(nt.x.Plan.C("entry")))%len(nt.nodes)]
		if reach[nd] && nd.http && nd.save != "" && !nd.dirty {
			entry = nd
			break
		}
	}
	if entry == nil {
		return
	}
	n := 1 + nt.r.N(3)
	var subs []*sub
	before := len(nt.accepted)
	// build only on what is accepted from here on: a restarted node may have
	// forgotten which transactions were pending
	nt.payFloor = nt.w.Now()
	for k := 0; k < n; k++ {
		kind := 0
		switch d := nt.r.N(6); {
		case d == 5:
			kind = 8 // only for a later height
		case k > 0 && d < 3:
			kind = 3
		}
		nt.pay(entry, kind, nt.r.U64())
	}
	for _, s := range nt.accepted[before:] {
		if s.ok {
			subs = append(subs, s)
		}
	}
	if len(subs) == 0 {
		return
	}
	// known everywhere; each peer is told of one at a time, over a slow link maybe
	t0 := nt.w.Now()
	bound := 60 + 5*len(nt.accepted)
	for {
		missing := ""
		for _, nd := range nt.nodes {
			if !reach[nd] || !nd.http || nd.dirty {
				continue
			}
			for _, s := range subs {
				if !nt.knows(nd, s.id) {
					missing = fmt.Sprintf("%s does not know %s", nd.name, s.id.Short())
				}
			}
		}
		if missing == "" {
			break
		}
		if nt.w.Now()-t0 > int64(bound)*int64(time.Second) {
			x.Fail("C18", "payment-not-relayed", "%d s after %s accepted it: %s", bound, entry.name, missing)
			return
		}
		simrt.Sleep(time.Second)
	}
	x.Probe("payments-relayed")
	// confirmed
	h0 := miner.head().Height
	limit := nt.w.Now() + int64(nt.recoverTime())
	// others may pay more; every block has room for one of them at least
	backlog := uint64(0)
	for _, s := range subs {
		if s.t.MinBlock > h0+backlog {
			backlog = s.t.MinBlock - h0
		}
	}
	if nt.P.MaxBlock < 1<<20 {
		st := nt.S.StateAt(miner.head())
		for _, s := range nt.accepted[:before] {
			if _, done := st.Incl[s.id]; s.ok && !done {
				backlog++
			}
		}
	}
	for {
		miss := ""
		st := nt.S.StateAt(miner.head())
		for _, s := range nt.minersOwn(miner, st) {
			miss = s.id.Short() + " (long pending)"
		}
		for _, s := range subs {
			if _, ok := st.Incl[s.id]; !ok && nt.stillSpendable(s, st) {
				miss = s.id.Short()
			}
		}
		if miss == "" {
			break
		}
		if miner.head().Height > h0+6+backlog {
			x.Fail("C18 C17 C19", "payment-not-confirmed", "%d blocks after everybody knew it, payment %s is not confirmed", miner.head().Height-h0, miss)
			return
		}
		if nt.w.Now() > limit {
			if miner.head().Height == h0 {
				x.Fail("C17", "no-growth", "no further blocks within %v", nt.recoverTime())
			}
			return
		}
		simrt.Sleep(time.Second)
	}
	x.Probe("payments-confirmed")
}

// minersOwn lists what the miner accepted since it started, has not confirmed,
// and could confirm.
func (nt *Net) minersOwn(miner *Node, st *ref.State) []*sub {
	var out []*sub
	mine := map[ref.H]bool{}
	for _, s := range nt.accepted {
		if s.nd != miner || s.inc != miner.inc || !s.ok {
			continue
		}
		if _, done := st.Incl[s.id]; done {
			continue
		}
		ok := true
		for _, in := range s.t.Inputs {
			if _, have := st.Utxos[in.Utxo]; !have && !mine[in.Utxo.TxId] {
				ok = false
			}
		}
		if ok {
			mine[s.id] = true
			out = append(out, s)
		}
	}
	return out
}

// payAnew lets every node know a payment, kills them all before it is mined,
// and submits it again to one of them: it is to be confirmed.
func (nt *Net) payAnew(miner *Node) {
	x := nt.x
	var all []*Node
	for _, nd := range nt.nodes {
		if nd.inc == 0 {
			continue
		}
		if nd.save == "" || nd.dirty || !nd.http || !nd.up {
			return
		}
		all = append(all, nd)
	}
	entry := all[int(x.Plan.C("entry"))%len(all)]
	if !nt.reach(miner)[entry] {
		return
	}
	miner.paused = true
	simrt.Sleep(10 * time.Second)
	nt.payFloor = nt.w.Now()
	before := len(nt.accepted)
	for k := 0; k <= nt.r.N(2); k++ {
		nt.pay(entry, 0, nt.r.U64())
	}
	var subs []*sub
	for _, s := range nt.accepted[before:] {
		if s.ok {
			subs = append(subs, s)
		}
	}
	end := nt.w.Now() + int64(60+5*len(nt.accepted))*int64(time.Second)
	for _, nd := range all {
		for _, s := range subs {
			for !nt.knows(nd, s.id) {
				if nt.w.Now() > end {
					miner.paused = false
					return // quietPay judges this
				}
				simrt.Sleep(time.Second)
			}
		}
	}
	nt.quiet, nt.faulty = false, true
	for _, nd := range all {
		nd.kill()
	}
	simrt.Sleep(time.Second)
	for _, nd := range all {
		nd.restart()
	}
	nt.settle(200 * time.Second)
	simrt.Sleep(15 * time.Second)
	end = nt.w.Now() + int64(nt.recoverTime())
	for nt.agree(0) != "" || len(nt.reach(miner)) < len(all) {
		if nt.w.Now() > end {
			miner.paused = false
			return
		}
		for _, nd := range all {
			nd.restart()
		}
		simrt.Sleep(time.Second)
	}
	nt.hush()
	simrt.Sleep(5 * time.Second)
	nt.payFloor = nt.w.Now()
	for _, s := range subs {
		nt.post(entry, s.t, simrt.HTTPFault{})
	}
	simrt.Sleep(40 * time.Second)
	miner.paused = false
	h0 := miner.head().Height
	limit := nt.w.Now() + int64(nt.recoverTime())
	for {
		miss := ""
		st := nt.S.StateAt(miner.head())
		for _, s := range subs {
			if _, ok := st.Incl[s.id]; !ok {
				miss = s.id.Short()
			}
		}
		if miss == "" {
			break
		}
		if miner.head().Height > h0+6 {
			x.Fail("C09 C18 C19", "resubmitted-not-confirmed", "%d blocks after it was submitted to %s again, following a restart of all nodes, payment %s is not confirmed", miner.head().Height-h0, entry.name, miss)
			return
		}
		if nt.w.Now() > limit {
			return
		}
		simrt.Sleep(time.Second)
	}
	x.Probe("resubmitted-confirmed")
}

// stillSpendable tells whether a payment and its pending ancestors have their
// inputs available or pending.
func (nt *Net) stillSpendable(s *sub, st *ref.State) bool {
	for _, in := range s.t.Inputs {
		if _, ok := st.Utxos[in.Utxo]; ok {
			continue
		}
		if _, done := st.Incl[in.Utxo.TxId]; done {
			return false // spent by another
		}
		found := false
		for _, o := range nt.accepted {
			if o.id == in.Utxo.TxId && o.ok {
				found = nt.stillSpendable(o, st)
			}
		}
		if !found {
			return false
		}
	}
	return true
}

func (nt *Net) knows(nd *Node, id ref.H) bool {
	if nd.save != "" {
		_, ok := nd.h.Disk.Peek(nd.save + "/txs/" + id.String())
		return ok
	}
	res := nt.get(nd, "/wallet/tx?txId="+id.String())
	return res.Err == nil && res.Code == 200
}

// finalChecks compares every node's answers with the model at rest.
func (nt *Net) finalChecks() {
	for _, nd := range nt.nodes {
		if !nd.up || !nd.http {
			continue
		}
		if nd.save == "" {
			continue
		}
		fz := nd.fuzzy
		nd.fuzzy = false
		for k := 0; k <= 9; k++ {
			nt.query(nd, k, nt.r.U64())
		}
		nd.fuzzy = fz
	}
	nt.x.Probe("final-checks")
}
