package main

import (
	"math/big"

	"github.com/levilutz/basiccoin/verifsim/ref"
	"github.com/levilutz/basiccoin/verifsim/simrt"
)

// Blocks at the edge of the rules and just beyond them.

// reusable picks up to n known transactions that could be included after
// parent, such as those of other branches and pending ones.
func (nt *Net) reusable(r *simrt.RNG, parent *ref.Info, n int) []*ref.Tx {
	s := nt.S
	st := s.StateAt(parent)
	ids := sortedH(s.Txs)
	used := map[ref.Utxo]bool{}
	var out []*ref.Tx
	for k := 0; k < 4*n && len(out) < n && len(ids) > 0; k++ {
		j := r.N(len(ids))
		t := s.Txs[ids[j]]
		ids = append(ids[:j], ids[j+1:]...)
		if t.IsCoinbase || t.MinBlock > parent.Height+1 {
			continue
		}
		if _, done := st.Incl[t.Hash()]; done {
			continue
		}
		ok := true
		for _, in := range t.Inputs {
			if _, free := st.Utxos[in.Utxo]; !free || used[in.Utxo] {
				ok = false
			}
		}
		if !ok || s.CheckTx(t) != "" {
			continue
		}
		for _, in := range t.Inputs {
			used[in.Utxo] = true
		}
		out = append(out, t)
	}
	return out
}

// edge builds a valid block at some limit of the rules; nil if that limit
// cannot be reached here.
func (nt *Net) edge(r *simrt.RNG, p *ref.Info, kind int) *ref.Info {
	s := nt.S
	sp := blockSpec{r: r, shape: r.N(4), payee: nt.keys[r.N(len(nt.keys))], time: nt.okTime(p, nt.spacing(r))}
	switch kind {
	case 0: // transactions of other branches
		sp.txs = nt.reusable(r, p, 1+r.N(4))
	case 1: // the earliest time
		sp.time = nt.okTime(p, 0)
		sp.txs = nt.randTxs(r, p, r.N(3), true)
	case 2: // nearly an hour ahead
		sp.time = uint64(nt.w.NowUnix()) + 3500 + r.Intn(60)
		if sp.time < nt.okTime(p, 0) {
			return nil
		}
	case 3, 4: // the easiest and hardest allowed targets
		lo, hi := s.TargetRange(p)
		if lo == hi {
			return nil
		}
		if kind == 3 {
			sp.target = &hi
		} else {
			if ref.WorkOf(lo).BitLen() > 14 {
				return nil
			}
			sp.target = &lo
		}
	case 5: // transactions chained on each other
		us := nt.spendable(p)
		if len(us) == 0 {
			return nil
		}
		u := us[r.N(len(us))]
		for k := 0; k < 2+r.N(6) && u.Value > 4; k++ {
			t := nt.payFrom(r, []ref.Utxo{u}, 1+r.Intn(2), 1+r.N(2), 0)
			id := s.AddTx(t)
			sp.txs = append(sp.txs, t)
			i := r.N(len(t.Outputs))
			if nt.owner[t.Outputs[i].Pkh] == nil {
				i = 0
			}
			u = ref.Utxo{TxId: id, Ind: uint64(i), Value: t.Outputs[i].Value}
		}
	case 6: // the same contents as a sibling
		for _, id := range sortedH(s.Blks) {
			b := s.Blks[id]
			if b.Prev == p.Id {
				if i := s.Info(id); i != nil && i.Bad == "" {
					root := b.Merkle
					sp.root = &root
					break
				}
			}
		}
		if sp.root == nil {
			return nil
		}
	case 7: // minimum block met exactly
		us := nt.spendable(p)
		if len(us) == 0 {
			return nil
		}
		u := us[r.N(len(us))]
		if u.Value < 4 {
			return nil
		}
		sp.txs = []*ref.Tx{nt.payFrom(r, []ref.Utxo{u}, 1+r.Intn(u.Value/2), 2, p.Height+1)}
	case 8: // as big as it may be
		if s.P.MaxBlock > 1<<16 {
			return nil
		}
		room := s.P.MaxBlock - nt.coinbase(p.Height+1, 0, sp.payee).VSize()
		for _, t := range nt.randTxs(r, p, 12, false) {
			if v := t.VSize(); v <= room {
				room -= v
				sp.txs = append(sp.txs, t)
			}
		}
		// fill the rest with outputs of one more transaction
		if t := nt.sized(r, p, sp.txs, room); t != nil {
			sp.txs = append(sp.txs, t)
		}
	case 9: // consolidation: everything in one transaction
		us := nt.spendable(p)
		if len(us) < 2 {
			return nil
		}
		if len(us) > 12 {
			us = us[:12]
		}
		t := nt.payFrom(r, us, 1, 1, 0)
		if t.VSize() > s.P.MaxTx || t.VSize() > s.P.MaxBlock/2 {
			return nil
		}
		sp.txs = []*ref.Tx{t}
	case 10: // zero-valued outputs and all value as fee
		us := nt.spendable(p)
		if len(us) == 0 {
			return nil
		}
		u := us[r.N(len(us))]
		t := &ref.Tx{Inputs: []ref.TxIn{{Utxo: u}}}
		for k := 0; k < r.N(3); k++ {
			t.Outputs = append(t.Outputs, ref.TxOut{Value: 0, Pkh: nt.keys[0].Pkh})
		}
		ref.SignTx(t, []*ref.Key{nt.ownerOf(u)})
		if s.CheckTx(t) != "" {
			return nil
		}
		sp.txs = []*ref.Tx{t}
	}
	i := nt.build(p, sp)
	if i == nil || i.Bad != "" {
		return nil
	}
	nt.x.Probe("edge-block")
	return i
}

const edgeKinds = 11

// sized makes a transaction of exactly the given size, if one fits.
func (nt *Net) sized(r *simrt.RNG, p *ref.Info, but []*ref.Tx, room uint64) *ref.Tx {
	used := map[ref.Utxo]bool{}
	for _, t := range but {
		for _, in := range t.Inputs {
			used[in.Utxo] = true
		}
	}
	for _, u := range nt.spendable(p) {
		if used[u] || u.Value < 100 {
			continue
		}
		t := nt.payFrom(r, []ref.Utxo{u}, 1, 1, 0)
		per := ref.TxOut{}
		_ = per
		base := t.VSize()
		two := nt.payFrom(r, []ref.Utxo{u}, 1, 2, 0).VSize()
		if base > room || two <= base {
			return nil
		}
		n := (room - base) / (two - base)
		if n > 200 {
			n = 200
		}
		for k := uint64(0); k < n; k++ {
			t.Outputs = append(t.Outputs, ref.TxOut{Value: 0, Pkh: nt.keys[0].Pkh})
		}
		ref.SignTx(t, []*ref.Key{nt.ownerOf(u)})
		if t.VSize() > room || nt.S.CheckTx(t) != "" {
			return nil
		}
		return t
	}
	return nil
}

const badKinds = 26

// broken builds a block that breaks one rule; nil when that is not possible
// on this parent.
func (nt *Net) broken(r *simrt.RNG, p *ref.Info, kind int) *ref.Info {
	s := nt.S
	sp := blockSpec{r: r, shape: r.N(4), payee: nt.keys[r.N(len(nt.keys))], time: nt.okTime(p, nt.spacing(r))}
	us := nt.spendable(p)
	h := p.Height + 1
	var u ref.Utxo
	if len(us) > 0 {
		u = us[r.N(len(us))]
	}
	one := func(mb uint64) *ref.Tx {
		if u.Value < 4 {
			return nil
		}
		return nt.payFrom(r, []ref.Utxo{u}, 1+r.Intn(u.Value/2), 2, mb)
	}
	tree := func(ids ...ref.H) { root := s.MakeTree(ids, r.N(3), r.N); sp.root = &root }
	switch kind {
	case 0:
		sp.noMine = true
		lo, hi := s.TargetRange(p)
		if ref.WorkOf(hi).Cmp(big.NewInt(2)) < 0 && lo == hi && hi.Int().BitLen() == 256 {
			return nil
		}
	case 1, 2: // targets just outside the range
		lo, hi := s.TargetRange(p)
		t := new(big.Int)
		if kind == 1 {
			t.Sub(lo.Int(), big.NewInt(1+int64(r.N(3))))
			if ref.WorkOf(lo).BitLen() > 14 {
				return nil
			}
		} else {
			t.Add(hi.Int(), big.NewInt(1+int64(r.N(3))))
			if t.BitLen() > 256 {
				return nil
			}
		}
		x := ref.FromInt(t)
		sp.target = &x
	case 3: // not later than the median
		if p.Height == 0 {
			return nil
		}
		sp.time = p.MedianTime() - r.Intn(2)*r.Intn(1000)
	case 4: // more than an hour ahead
		sp.time = uint64(nt.w.NowUnix()) + 3700 + r.Intn(100000)
		if r.N(6) == 0 {
			sp.time = ^uint64(0) - r.Intn(10)
		}
	case 5: // last of the period, not after the first
		if (h+1)%s.P.Period != 0 {
			return nil
		}
		sp.time = s.PeriodFirstTime(p, h)
		if sp.time <= p.MedianTime() {
			return nil
		}
	case 6: // no reward transaction
		t := one(0)
		if t == nil {
			return nil
		}
		tree(s.AddTx(t))
	case 7: // two reward transactions, paid for by fees
		var in []ref.Utxo
		var tot uint64
		for _, v := range us {
			in = append(in, v)
			tot += v.Value
			if tot > s.P.Reward+10 {
				break
			}
		}
		if tot <= s.P.Reward+10 || len(in) > 8 {
			return nil
		}
		t := nt.payFrom(r, in, s.P.Reward, 1, 0)
		c1, c2 := nt.coinbase(h, s.P.Reward, sp.payee), nt.coinbase(h+1, s.P.Reward, nt.keys[0])
		tree(s.AddTx(c1), s.AddTx(t), s.AddTx(c2))
	case 8: // reward transaction for another height
		d := []uint64{h + 1, h - 1, 0, h + 100}[r.N(4)]
		if d == h {
			return nil
		}
		tree(s.AddTx(nt.coinbase(d, s.P.Reward, sp.payee)))
	case 9, 10, 11: // reward plus fees wrong
		sp.fees = []int64{1, -1, int64(s.P.Reward)}[kind-9]
		if t := one(0); t != nil && r.N(2) == 0 {
			sp.txs = []*ref.Tx{t}
		}
	case 12: // a bad transaction inside
		if u.Value < 4 {
			return nil
		}
		t := nt.badTx(r, u, us, r.N(badTxKinds))
		if t == nil || s.CheckTx(t) == "" {
			return nil
		}
		sp.txs = []*ref.Tx{t}
	case 13: // before its minimum block
		t := one(h + 1 + r.Intn(5))
		if t == nil {
			return nil
		}
		sp.txs = []*ref.Tx{t}
	case 14: // the same output spent twice
		a, b := one(0), one(0)
		if a == nil || a.Hash() == b.Hash() {
			return nil
		}
		sp.txs = []*ref.Tx{a, b}
	case 15: // an output spent before
		i := p
		for k := 0; k < 1+r.N(6) && i.Height > 1; k++ {
			i = i.Parent()
		}
		for _, id := range i.Txs {
			for _, in := range s.Txs[id].Inputs {
				if nt.ownerOf(in.Utxo) != nil && in.Utxo.Value > 4 {
					sp.txs = []*ref.Tx{nt.payFrom(r, []ref.Utxo{in.Utxo}, 1+r.Intn(3), 1, 0)}
				}
			}
		}
		if sp.txs == nil {
			return nil
		}
	case 16: // a transaction again
		i := p
		for k := 0; k < 1+r.N(6) && i.Height > 1; k++ {
			i = i.Parent()
		}
		if len(i.Txs) < 2 {
			return nil
		}
		sp.txs = []*ref.Tx{s.Txs[i.Txs[1+r.N(len(i.Txs)-1)]]}
	case 17: // a transaction before the one it depends on
		a := one(0)
		if a == nil || len(a.Outputs) == 0 || a.Outputs[0].Value < 2 {
			return nil
		}
		id := s.AddTx(a)
		b := nt.payFrom(r, []ref.Utxo{{TxId: id, Ind: 0, Value: a.Outputs[0].Value}}, 1, 1, 0)
		sp.txs = []*ref.Tx{b, a}
		sp.shape = 0
	case 18: // an output of another branch
		st := s.StateAt(p)
		for _, id := range sortedH(s.Txs) {
			t := s.Txs[id]
			if _, on := st.Incl[id]; on || len(t.Outputs) == 0 || t.Outputs[0].Value < 3 {
				continue
			}
			v := ref.Utxo{TxId: id, Ind: 0, Value: t.Outputs[0].Value}
			if nt.ownerOf(v) == nil || s.CheckTx(t) != "" {
				continue
			}
			sp.txs = []*ref.Tx{nt.payFrom(r, []ref.Utxo{v}, 1, 1, 0)}
			if r.N(3) == 0 {
				break
			}
		}
		if sp.txs == nil {
			return nil
		}
	case 19: // siblings sharing a transaction
		t := one(0)
		if t == nil {
			return nil
		}
		id := s.AddTx(t)
		fee := uint64(t.Fee())
		cb := s.AddTx(nt.coinbase(h, s.P.Reward+fee, sp.payee))
		a := s.AddMk(ref.Mk{L: cb, R: id})
		var root ref.H
		switch r.N(3) {
		case 0:
			root = s.AddMk(ref.Mk{L: a, R: id})
		case 1:
			root = s.AddMk(ref.Mk{L: a, R: s.AddMk(ref.Mk{L: id, R: id})})
		case 2:
			root = s.AddMk(ref.Mk{L: a, R: cb})
		}
		sp.root = &root
	case 20: // too big
		if s.P.MaxBlock > 1<<16 {
			return nil
		}
		var size uint64
		for _, t := range nt.randTxs(r, p, 40, true) {
			size += t.VSize()
			sp.txs = append(sp.txs, t)
		}
		if size <= s.P.MaxBlock {
			return nil
		}
	case 21: // reward transaction not first
		t := one(0)
		if t == nil {
			return nil
		}
		cb := s.AddTx(nt.coinbase(h, s.P.Reward+uint64(t.Fee()), sp.payee))
		tree(s.AddTx(t), cb)
	case 22: // reward transaction with two outputs
		cb := nt.coinbase(h, s.P.Reward-1, sp.payee)
		cb.Outputs = append(cb.Outputs, ref.TxOut{Value: 1, Pkh: nt.keys[0].Pkh})
		tree(s.AddTx(cb))
	case 23: // reward transaction with an input
		if u.Value < 4 {
			return nil
		}
		cb := nt.coinbase(h, s.P.Reward+u.Value, sp.payee)
		cb.Inputs = []ref.TxIn{{Utxo: u}}
		ref.SignTx(cb, []*ref.Key{nt.ownerOf(u)})
		tree(s.AddTx(cb))
	case 24: // reward below the reward, the rest left to another
		t := one(0)
		if t == nil {
			return nil
		}
		cb := s.AddTx(nt.coinbase(h, s.P.Reward-1, sp.payee))
		t2 := nt.payFrom(r, []ref.Utxo{u}, 1, 1, 0)
		t2.Outputs[0].Value += uint64(1) // exceeds its inputs by what the reward lacks
		t2.Outputs[0].Value += 1
		ref.SignTx(t2, []*ref.Key{nt.ownerOf(u)})
		tree(cb, s.AddTx(t2))
	case 25: // wraps around
		if u.Value < 4 {
			return nil
		}
		t := nt.payFrom(r, []ref.Utxo{u}, 1, 1, 0)
		t.Outputs = []ref.TxOut{{Value: 1<<63 + 5, Pkh: sp.payee.Pkh}, {Value: 1<<63 - 5 + u.Value/2, Pkh: sp.payee.Pkh}}
		ref.SignTx(t, []*ref.Key{nt.ownerOf(u)})
		sp.txs = []*ref.Tx{t}
	}
	i := nt.build(p, sp)
	if i == nil {
		return nil
	}
	if i.Bad == "" && kind != 4 {
		return nil
	}
	nt.x.Probe("bad-block")
	return i
}

// onBad adds plain blocks on top of a bad one.
func (nt *Net) onBad(r *simrt.RNG, p *ref.Info, n int) *ref.Info {
	for k := 0; k < n; k++ {
		p = nt.build(p, blockSpec{r: r, payee: nt.keys[r.N(len(nt.keys))], time: nt.okTime(p, nt.spacing(r))})
	}
	return p
}
