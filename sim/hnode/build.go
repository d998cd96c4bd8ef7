package main

import (
	"crypto/ecdh"
	"crypto/ed25519"
	"crypto/rsa"
	"crypto/x509"
	"math/big"
	"sort"

	"github.com/levilutz/basiccoin/verifsim/ref"
	"github.com/levilutz/basiccoin/verifsim/simrt"
)

// Block building: harness-mined blocks, valid or with one broken rule.

// spendable lists outputs owned by harness keys after a block, in a stable
// order.
func (nt *Net) spendable(i *ref.Info) []ref.Utxo {
	var us []ref.Utxo
	for u, p := range nt.S.StateAt(i).Utxos {
		if nt.owner[p] != nil {
			us = append(us, u)
		}
	}
	sort.Slice(us, func(a, b int) bool {
		if us[a].TxId != us[b].TxId {
			return us[a].TxId.String() < us[b].TxId.String()
		}
		return us[a].Ind < us[b].Ind
	})
	return us
}

// ownerOf finds who can spend an output, from the transaction itself.
func (nt *Net) ownerOf(u ref.Utxo) *ref.Key {
	t := nt.S.Txs[u.TxId]
	if t == nil || u.Ind >= uint64(len(t.Outputs)) {
		return nil
	}
	return nt.owner[t.Outputs[u.Ind].Pkh]
}

// payFrom builds a signed transaction spending the given outputs, leaving fee.
func (nt *Net) payFrom(r *simrt.RNG, us []ref.Utxo, fee uint64, nOut int, minBlock uint64) *ref.Tx {
	t := &ref.Tx{MinBlock: minBlock}
	var total uint64
	var ks []*ref.Key
	for _, u := range us {
		t.Inputs = append(t.Inputs, ref.TxIn{Utxo: u})
		ks = append(ks, nt.ownerOf(u))
		total += u.Value
	}
	if fee < 1 {
		fee = 1
	}
	if fee > total {
		fee = total
	}
	rest := total - fee
	if nOut > 1 && rest >= 3 && r.N(4) == 0 {
		// two outputs of one value, perhaps for different owners
		for k := 0; k < 2; k++ {
			t.Outputs = append(t.Outputs, ref.TxOut{Value: rest / 3, Pkh: nt.keys[r.N(len(nt.keys))].Pkh})
		}
		rest -= rest / 3 * 2
		nOut--
	}
	for k := 0; k < nOut && rest > 0; k++ {
		v := rest
		if k+1 < nOut {
			v = 1 + r.Intn(rest)
			if nOut > 8 {
				v = 1 + r.Intn(2*rest/uint64(nOut-k)+1)
				if v > rest {
					v = rest
				}
			}
		}
		pkh := nt.keys[r.N(len(nt.keys))].Pkh
		if k > 0 && r.N(16) == 0 {
			pkh = ref.DH(nt.oddKey(r)) // nobody can spend this one
		}
		t.Outputs = append(t.Outputs, ref.TxOut{Value: v, Pkh: pkh})
		rest -= v
	}
	ref.SignTx(t, ks)
	return t
}

// oddKey picks bytes that no owner's key can be: keys of other kinds, cut keys
// and the like.
func (nt *Net) oddKey(r *simrt.RNG) []byte {
	if nt.odd == nil {
		nt.odd = map[ref.H][]byte{}
		k := nt.keys[0]
		seed := ref.HU(nt.x.Plan.Seed)
		n := new(big.Int).Lsh(big.NewInt(1), 1023)
		n.Add(n, big.NewInt(15))
		xk, _ := ecdh.X25519().NewPrivateKey(seed[:])
		for _, pub := range []any{ed25519.NewKeyFromSeed(seed[:]).Public(), &rsa.PublicKey{N: n, E: 65537}, xk.Public()} {
			b, err := x509.MarshalPKIXPublicKey(pub)
			if err != nil {
				panic(err)
			}
			nt.odds = append(nt.odds, b)
		}
		nt.odds = append(nt.odds, []byte{}, k.Pub[:len(k.Pub)-1], append(append([]byte{}, k.Pub...), 0), make([]byte, len(k.Pub)))
		bad := append([]byte{}, k.Pub...)
		bad[len(bad)-1] ^= 1 // not on the curve
		nt.odds = append(nt.odds, bad)
		for _, b := range nt.odds {
			nt.odd[ref.DH(b)] = b
		}
	}
	return nt.odds[r.N(len(nt.odds))]
}

// coinbase builds a reward transaction.
func (nt *Net) coinbase(height, value uint64, k *ref.Key) *ref.Tx {
	return &ref.Tx{IsCoinbase: true, MinBlock: height, Inputs: []ref.TxIn{}, Outputs: []ref.TxOut{{Value: value, Pkh: k.Pkh}}}
}

type blockSpec struct {
	txs    []*ref.Tx
	shape  int
	time   uint64
	target *ref.H
	bad    int
	payee  *ref.Key
	fees   int64 // added to the reward on top of the right value (broken rule)
	r      *simrt.RNG
	root   *ref.H
	noMine bool
}

// build makes a block on parent and registers it with the model.
func (nt *Net) build(parent *ref.Info, sp blockSpec) *ref.Info {
	s := nt.S
	h := parent.Height + 1
	fees := new(big.Int)
	for _, t := range sp.txs {
		s.AddTx(t)
		for _, in := range t.Inputs {
			fees.Add(fees, new(big.Int).SetUint64(in.Utxo.Value))
		}
		for _, o := range t.Outputs {
			fees.Sub(fees, new(big.Int).SetUint64(o.Value))
		}
	}
	val := new(big.Int).Add(fees, new(big.Int).SetUint64(s.P.Reward))
	val.Add(val, big.NewInt(sp.fees))
	m64 := new(big.Int).Lsh(big.NewInt(1), 64)
	val.Mod(val, m64)
	cb := nt.coinbase(h, val.Uint64(), sp.payee)
	ids := []ref.H{s.AddTx(cb)}
	for _, t := range sp.txs {
		ids = append(ids, t.Hash())
	}
	root := s.MakeTree(ids, sp.shape, sp.r.N)
	if sp.root != nil {
		root = *sp.root
	}
	b := &ref.Block{Prev: parent.Id, Merkle: root, Time: sp.time}
	if sp.target != nil {
		b.Target = *sp.target
	} else {
		b.Target = s.NextTarget(parent)
	}
	sp.r.Fill(b.Noise[:])
	start := []uint64{0, 0, sp.r.U64(), 1<<63 - sp.r.Intn(4), ^uint64(0) - sp.r.Intn(4), 1 << 32}[sp.r.N(6)]
	for n := uint64(0); ; n++ {
		b.Nonce = start + n
		if b.Hash().Less(b.Target) != sp.noMine {
			break
		}
		if n > 1<<22 {
			panic("cannot mine block")
		}
	}
	id := s.AddBlock(b)
	return s.Info(id)
}

// okTime is a valid time for a child of parent, d seconds above the least.
func (nt *Net) okTime(parent *ref.Info, d uint64) uint64 {
	t := parent.MedianTime() + 1
	if parent.Height == 0 {
		t = uint64(nt.w.NowUnix()) - 20000
	}
	if (parent.Height+2)%nt.P.Period == 0 {
		f := (parent.Height + 1) / nt.P.Period * nt.P.Period
		if f == 0 {
			f = 1
		}
		if fb := parent.Anc(f); fb.B.Time+1 > t {
			t = fb.B.Time + 1
		}
	}
	return t + d
}

// randTxs makes up to n valid transactions for a child of parent, some of
// which spend outputs of the others.
func (nt *Net) randTxs(r *simrt.RNG, parent *ref.Info, n int, dep bool) []*ref.Tx {
	us := nt.spendable(parent)
	var out []*ref.Tx
	var fresh []ref.Utxo
	st := nt.S.StateAt(parent)
	for k := 0; k < n; k++ {
		if t := nt.again(r, parent, st, us, out); t != nil {
			// one that another branch has, or that some node was given
			for _, i := range t.Inputs {
				for j := range us {
					if us[j] == i.Utxo {
						us = append(append([]ref.Utxo{}, us[:j]...), us[j+1:]...)
						break
					}
				}
			}
			nt.x.Probe("built-with-known-tx")
			out = append(out, t)
			continue
		}
		var in []ref.Utxo
		want := 1 + r.N(3)
		wide := r.N(24) == 0 // many inputs or outputs
		if wide && r.N(2) == 0 {
			want = 1 + r.N(24)
		}
		for len(in) < want {
			if dep && len(fresh) > 0 && r.N(2) == 0 {
				j := r.N(len(fresh))
				in = append(in, fresh[j])
				fresh = append(fresh[:j], fresh[j+1:]...)
				continue
			}
			if len(us) == 0 {
				break
			}
			j := r.N(len(us))
			in = append(in, us[j])
			us = append(append([]ref.Utxo{}, us[:j]...), us[j+1:]...)
		}
		if len(in) == 0 {
			break
		}
		var tot uint64
		for _, u := range in {
			tot += u.Value
		}
		if tot < 2 {
			continue
		}
		mb := uint64(0)
		if r.N(3) == 0 {
			mb = r.Intn(parent.Height + 2)
		}
		nOut := 1 + r.N(4)
		if wide {
			nOut = 1 + r.N(1<<(1+r.N(9)))
			if m := int(nt.P.MaxTx/40) - 5*len(in) - 2; nOut > m && m > 0 {
				nOut = m
			}
		}
		t := nt.payFrom(r, in, 1+r.Intn(tot/3+1), nOut, mb)
		if len(t.Outputs) > 16 || len(t.Inputs) > 5 {
			nt.x.Probe("wide-tx")
		}
		if nt.S.Txs[t.Hash()] != nil || t.VSize() > nt.P.MaxTx {
			continue
		}
		id := nt.S.AddTx(t)
		nt.made = append(nt.made, t)
		for o, x := range t.Outputs {
			if nt.owner[x.Pkh] == nil {
				continue
			}
			fresh = append(fresh, ref.Utxo{TxId: id, Ind: uint64(o), Value: x.Value})
		}
		out = append(out, t)
	}
	return out
}

// again finds a transaction made earlier that a block on parent may have.
func (nt *Net) again(r *simrt.RNG, parent *ref.Info, st *ref.State, us []ref.Utxo, have []*ref.Tx) *ref.Tx {
	if r.N(3) > 0 {
		return nil
	}
next:
	for k := 0; k < 4; k++ {
		var t *ref.Tx
		if n := len(nt.accepted) + len(nt.made); n == 0 {
			return nil
		} else if j := r.N(n); j < len(nt.made) {
			t = nt.made[j]
		} else {
			t = nt.accepted[j-len(nt.made)].t
		}
		if _, done := st.Incl[t.Hash()]; done || t.MinBlock > parent.Height+1 || nt.S.CheckTx(t) != "" || len(t.Inputs) == 0 {
			continue
		}
	in:
		for _, i := range t.Inputs {
			for _, u := range us {
				if u == i.Utxo {
					continue in
				}
			}
			continue next
		}
		return t
	}
	return nil
}

// grow builds n valid blocks on parent.
func (nt *Net) grow(r *simrt.RNG, parent *ref.Info, n int, maxTx int, dep bool) *ref.Info {
	i := parent
	for k := 0; k < n; k++ {
		txs := nt.randTxs(r, i, r.N(maxTx+1), dep)
		shape := r.N(4)
		size := uint64(72 + 40)
		for n, t := range txs {
			if size += t.VSize(); size > nt.P.MaxBlock {
				txs = txs[:n]
				break
			}
		}
		sp := blockSpec{txs: txs, shape: shape, r: r, payee: nt.keys[r.N(len(nt.keys))], time: nt.okTime(i, nt.spacing(r))}
		if (i.Height+1)%nt.P.Period == 0 && r.N(2) == 0 {
			lo, hi := nt.S.TargetRange(i)
			sp.target = &hi
			if r.N(3) == 0 {
				// not much harder, to keep building cheap
				t := new(big.Int).Add(lo.Int(), hi.Int())
				t.Rsh(t, 1)
				h := ref.FromInt(t)
				sp.target = &h
			}
		}
		c := nt.build(i, sp)
		if c == nil || c.Bad != "" {
			why := "unknown"
			if c != nil {
				why = c.Bad
			}
			panic("harness built an invalid block: " + why)
		}
		i = c
	}
	return i
}

// spacing is the time between harness blocks: around the target time.
func (nt *Net) spacing(r *simrt.RNG) uint64 {
	switch r.N(8) {
	case 0:
		return 0
	case 1:
		return nt.P.BlockTime * 3
	}
	return nt.P.BlockTime*2/3 + r.Intn(nt.P.BlockTime+1)
}
