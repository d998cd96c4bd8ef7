// Package ref is an independent executable model of the ledger: hashing,
// block and transaction rules, cumulative work and the unspent-output set.
// It shares no code with the code under test.
package ref

import (
	"crypto/ecdsa"
	"crypto/sha256"
	"crypto/x509"
	"encoding/base64"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// H is an identity.
type H [32]byte

func (h H) String() string               { return hex.EncodeToString(h[:]) }
func (h H) Short() string                { return hex.EncodeToString(h[:4]) }
func (h H) Zero() bool                   { return h == H{} }
func (h H) Int() *big.Int                { return new(big.Int).SetBytes(h[:]) }
func (h H) Less(o H) bool                { return h.Int().Cmp(o.Int()) < 0 }
func FromInt(i *big.Int) H               { var h H; i.FillBytes(h[:]); return h }
func (h H) MarshalText() ([]byte, error) { return []byte(h.String()), nil }
func (h *H) UnmarshalText(b []byte) error {
	v, ok := ParseH(string(b))
	if !ok {
		return fmt.Errorf("bad hash %q", b)
	}
	*h = v
	return nil
}

func ParseH(s string) (H, bool) {
	var h H
	if len(s) != 64 {
		return h, false
	}
	b, err := hex.DecodeString(s)
	if err != nil {
		return h, false
	}
	copy(h[:], b)
	return h, true
}

func DH(b []byte) H {
	a := sha256.Sum256(b)
	return sha256.Sum256(a[:])
}
func HU(v uint64) H {
	var b [8]byte
	binary.BigEndian.PutUint64(b[:], v)
	return DH(b[:])
}
func HB(v bool) H {
	if v {
		return DH([]byte{0})
	}
	return DH([]byte{1})
}

// HL hashes a list of hashes; the preimage starts with as many zero bytes.
func HL(hs ...H) H {
	b := make([]byte, 32*len(hs), 64*len(hs))
	for _, h := range hs {
		b = append(b, h[:]...)
	}
	return DH(b)
}

type Utxo struct {
	TxId  H      `json:"txId"`
	Ind   uint64 `json:"ind"`
	Value uint64 `json:"value"`
}
type TxIn struct {
	Utxo      Utxo   `json:"utxo"`
	PublicKey []byte `json:"publicKey"`
	Signature []byte `json:"signature"`
}
type TxOut struct {
	Value uint64 `json:"value"`
	Pkh   H      `json:"publicKeyHash"`
}
type Tx struct {
	IsCoinbase bool    `json:"isCoinbase"`
	MinBlock   uint64  `json:"minBlock"`
	Inputs     []TxIn  `json:"inputs"`
	Outputs    []TxOut `json:"outputs"`
}
type Mk struct {
	L H `json:"lChild"`
	R H `json:"rChild"`
}
type Block struct {
	Prev   H      `json:"prevBlockId"`
	Merkle H      `json:"merkleRoot"`
	Target H      `json:"target"`
	Noise  H      `json:"noise"`
	Nonce  uint64 `json:"nonce"`
	Time   uint64 `json:"minedTime"`
}

func outsHash(o []TxOut) H {
	hs := make([]H, len(o))
	for i, x := range o {
		hs[i] = HL(HU(x.Value), x.Pkh)
	}
	return HL(hs...)
}

func (t *Tx) Hash() H {
	hs := make([]H, len(t.Inputs))
	for i, x := range t.Inputs {
		hs[i] = HL(HL(x.Utxo.TxId, HU(x.Utxo.Ind), HU(x.Utxo.Value)), DH(x.PublicKey), DH(x.Signature))
	}
	return HL(HB(t.IsCoinbase), HU(t.MinBlock), HL(hs...), outsHash(t.Outputs))
}

// SigHash is what an input signature covers.
func (t *Tx) SigHash() H { return HL(HU(t.MinBlock), outsHash(t.Outputs)) }
func (m Mk) Hash() H     { return HL(m.L, m.R) }
func (b *Block) Hash() H { return HL(b.Prev, b.Merkle, b.Target, b.Noise, HU(b.Nonce)) }

func (t *Tx) VSize() uint64 {
	n := uint64(72)
	for _, i := range t.Inputs {
		n += 48 + uint64(len(i.PublicKey)+len(i.Signature))
	}
	return n + 40*uint64(len(t.Outputs))
}

func sumIn(t *Tx) *big.Int {
	s := new(big.Int)
	for _, i := range t.Inputs {
		s.Add(s, new(big.Int).SetUint64(i.Utxo.Value))
	}
	return s
}
func sumOut(t *Tx) *big.Int {
	s := new(big.Int)
	for _, o := range t.Outputs {
		s.Add(s, new(big.Int).SetUint64(o.Value))
	}
	return s
}

// Fee of a valid transaction.
func (t *Tx) Fee() int64 {
	return new(big.Int).Sub(sumIn(t), sumOut(t)).Int64()
}

// Same compares two transactions field by field.
func (t *Tx) Same(o *Tx) bool { return t.canon() == o.canon() }
func (t *Tx) canon() string {
	var b strings.Builder
	fmt.Fprintf(&b, "%v %d|", t.IsCoinbase, t.MinBlock)
	for _, i := range t.Inputs {
		fmt.Fprintf(&b, "%x %d %d %x %x|", i.Utxo.TxId, i.Utxo.Ind, i.Utxo.Value, i.PublicKey, i.Signature)
	}
	b.WriteString("#")
	for _, o := range t.Outputs {
		fmt.Fprintf(&b, "%d %x|", o.Value, o.Pkh)
	}
	return b.String()
}

var all1 = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 256), big.NewInt(1))

// WorkOf is the work a target stands for.
func WorkOf(target H) *big.Int { return new(big.Int).Div(all1, target.Int()) }

// Params of the network.
type Params struct {
	Reward, Period, BlockTime, MaxBlock, MaxTx uint64
	MaxTarget, OrigTarget                      H
}

// Info is what is known of a block on its chain.
type Info struct {
	Id     H
	B      *Block
	Height uint64
	Work   *big.Int
	Txs    []H    // in order
	Bad    string // first rule broken by the block or an ancestor ("" = valid)
	Rule   string
	Depth  int
	VSize  uint64
	st     *State
	parent *Info
}

func (i *Info) Parent() *Info { return i.parent }

// State is the ledger after a block.
type State struct {
	Utxos map[Utxo]H // to address
	Incl  map[H]H    // transaction to block
}

// Store knows every entity that exists in a run.
type Store struct {
	P    Params
	Txs  map[H]*Tx
	Mks  map[H]Mk
	Blks map[H]*Block
	info map[H]*Info
	sigs map[H]bool
	Gen  *Info
}

func NewStore(p Params) *Store {
	s := &Store{P: p, Txs: map[H]*Tx{}, Mks: map[H]Mk{}, Blks: map[H]*Block{}, info: map[H]*Info{}, sigs: map[H]bool{}}
	s.Gen = &Info{Work: new(big.Int), st: &State{map[Utxo]H{}, map[H]H{}}, B: &Block{}}
	s.info[H{}] = s.Gen
	return s
}

func (s *Store) AddTx(t *Tx) H {
	id := t.Hash()
	if s.Txs[id] == nil {
		s.Txs[id] = t
	}
	return id
}
func (s *Store) AddMk(m Mk) H { id := m.Hash(); s.Mks[id] = m; return id }
func (s *Store) AddBlock(b *Block) H {
	id := b.Hash()
	if s.Blks[id] == nil {
		s.Blks[id] = b
	}
	return id
}

// TreeTxs lists the transactions below a root, breadth first, each once per
// distinct sibling; ok is false when something is unknown.
func (s *Store) TreeTxs(root H) (txs []H, ok bool) {
	q := []H{root}
	for len(q) > 0 {
		id := q[0]
		q = q[1:]
		if s.Txs[id] != nil {
			txs = append(txs, id)
		} else if m, k := s.Mks[id]; k {
			q = append(q, m.L)
			if m.R != m.L {
				q = append(q, m.R)
			}
		} else {
			return nil, false
		}
		if len(txs) > 100000 || len(q) > 100000 {
			return nil, false
		}
	}
	return txs, true
}

// TreeMks lists the Merkle nodes below a root, parents first.
func (s *Store) TreeMks(root H) []H {
	var out []H
	seen := map[H]bool{}
	q := []H{root}
	for len(q) > 0 {
		id := q[0]
		q = q[1:]
		m, k := s.Mks[id]
		if !k || seen[id] {
			continue
		}
		seen[id] = true
		out = append(out, id)
		q = append(q, m.L)
		if m.R != m.L {
			q = append(q, m.R)
		}
	}
	return out
}

// checkTree applies the tree rules; distinct siblings share no transaction,
// and every node's size is within the limit.
func (s *Store) checkTree(id H) (set map[H]bool, size uint64, bad string) {
	if t := s.Txs[id]; t != nil {
		return map[H]bool{id: true}, t.VSize(), ""
	}
	m, ok := s.Mks[id]
	if !ok {
		return nil, 0, "tree-incomplete"
	}
	set, size, bad = s.checkTree(m.L)
	if bad != "" {
		return
	}
	if m.R != m.L {
		rs, rz, rb := s.checkTree(m.R)
		if rb != "" {
			return nil, 0, rb
		}
		c := map[H]bool{}
		for k := range set {
			c[k] = true
		}
		for k := range rs {
			if c[k] {
				return nil, 0, "tree-shared-tx"
			}
			c[k] = true
		}
		set, size = c, size+rz
	}
	if size > s.P.MaxBlock {
		return nil, 0, "block-too-big"
	}
	return set, size, ""
}

// VerifySig checks an input signature.
func (s *Store) VerifySig(pub []byte, h H, sig []byte) bool {
	key := HL(DH(pub), h, DH(sig))
	if v, ok := s.sigs[key]; ok {
		return v
	}
	v := false
	if k, err := x509.ParsePKIXPublicKey(pub); err == nil {
		if pk, ok := k.(*ecdsa.PublicKey); ok {
			v = ecdsa.VerifyASN1(pk, h[:], sig)
		}
	}
	s.sigs[key] = v
	return v
}

// CheckTx applies the rules that do not depend on a chain; "" means valid.
// get finds transactions.
func (s *Store) CheckTx(t *Tx) string {
	if t.VSize() > s.P.MaxTx {
		return "tx-too-big"
	}
	if t.IsCoinbase {
		if len(t.Inputs) != 0 {
			return "coinbase-inputs"
		}
		if len(t.Outputs) != 1 {
			return "coinbase-outputs"
		}
		if t.Outputs[0].Value < s.P.Reward {
			return "coinbase-low"
		}
		return ""
	}
	max := new(big.Int).SetUint64(^uint64(0))
	si, so := sumIn(t), sumOut(t)
	if si.Cmp(max) > 0 || so.Cmp(max) > 0 {
		return "tx-overflow"
	}
	if si.Cmp(so) <= 0 {
		return "tx-no-surplus"
	}
	sh := t.SigHash()
	seen := map[Utxo]bool{}
	for _, i := range t.Inputs {
		if seen[i.Utxo] {
			return "tx-double-input"
		}
		seen[i.Utxo] = true
		o := s.Txs[i.Utxo.TxId]
		if o == nil || i.Utxo.Ind >= uint64(len(o.Outputs)) {
			return "tx-no-origin"
		}
		oo := o.Outputs[i.Utxo.Ind]
		if oo.Value != i.Utxo.Value {
			return "tx-wrong-value"
		}
		if DH(i.PublicKey) != oo.Pkh {
			return "tx-wrong-key"
		}
		if !s.VerifySig(i.PublicKey, sh, i.Signature) {
			return "tx-bad-signature"
		}
	}
	return ""
}

// median of block times.
func median(ts []uint64) uint64 {
	sort.Slice(ts, func(i, j int) bool { return ts[i] < ts[j] })
	n := len(ts)
	if n%2 == 0 {
		return (ts[n/2-1] + ts[n/2]) / 2
	}
	return ts[n/2]
}

// MedianTime is the median mined time of the last five blocks ending at i.
func (i *Info) MedianTime() uint64 {
	var ts []uint64
	for k := i; k != nil && k.Height > 0 && len(ts) < 5; k = k.parent {
		ts = append(ts, k.B.Time)
	}
	if len(ts) == 0 {
		return 0
	}
	return median(ts)
}

// Anc is the ancestor at a height.
func (i *Info) Anc(height uint64) *Info {
	k := i
	for k.Height > height {
		k = k.parent
	}
	return k
}

// periodFirst is the first block of the period that the block of this height
// belongs to, looking from its parent.
func (s *Store) periodFirst(parent *Info, height uint64) *Info {
	f := height / s.P.Period * s.P.Period
	if f == 0 {
		f = 1
	}
	return parent.Anc(f)
}

// periodFirstTime is the time of the first block of the period of a height.
func (s *Store) PeriodFirstTime(parent *Info, height uint64) uint64 {
	return s.periodFirst(parent, height).B.Time
}

// TargetRange is what the retarget schedule allows for a child of parent.
func (s *Store) TargetRange(parent *Info) (lo, hi H) {
	if parent.Height == 0 {
		return s.P.OrigTarget, s.P.OrigTarget
	}
	pt := parent.B.Target
	if (parent.Height+1)%s.P.Period != 0 {
		return pt, pt
	}
	lo = FromInt(new(big.Int).Div(pt.Int(), big.NewInt(4)))
	h4 := new(big.Int).Mul(pt.Int(), big.NewInt(4))
	if h4.Cmp(s.P.MaxTarget.Int()) > 0 {
		hi = s.P.MaxTarget
	} else {
		hi = FromInt(h4)
	}
	return
}

// NextTarget is the scheduled target for a child of parent.
func (s *Store) NextTarget(parent *Info) H {
	lo, hi := s.TargetRange(parent)
	if lo == hi {
		return lo
	}
	first := s.periodFirst(parent, parent.Height)
	if parent.B.Time <= first.B.Time {
		return lo
	}
	t := parent.B.Target.Int()
	t.Mul(t, new(big.Int).SetUint64(parent.B.Time-first.B.Time))
	t.Div(t, new(big.Int).SetUint64(s.P.BlockTime*(parent.Height-first.Height)))
	if t.Cmp(hi.Int()) > 0 {
		return hi
	}
	if t.Cmp(lo.Int()) < 0 {
		return lo
	}
	return FromInt(t)
}

// Info evaluates a block and all its ancestors; nil if unknown.
func (s *Store) Info(id H) *Info {
	if i := s.info[id]; i != nil {
		return i
	}
	// walk to a known ancestor, then forward
	var path []H
	for k := id; ; {
		if s.info[k] != nil {
			break
		}
		b := s.Blks[k]
		if b == nil {
			return nil
		}
		path = append(path, k)
		k = b.Prev
	}
	for n := len(path) - 1; n >= 0; n-- {
		i := s.eval(path[n])
		if i == nil {
			return nil
		}
	}
	return s.info[id]
}

// Forget drops the cached evaluation of a block that was evaluated while
// parts of it were unknown.
func (s *Store) Forget(id H) { delete(s.info, id) }

func (s *Store) eval(id H) *Info {
	b := s.Blks[id]
	par := s.info[b.Prev]
	i := &Info{Id: id, B: b, Height: par.Height + 1, parent: par, Work: new(big.Int).Set(par.Work)}
	if !b.Target.Zero() {
		i.Work.Add(i.Work, WorkOf(b.Target))
	}
	if par.Bad != "" {
		i.Bad = "bad-ancestor:" + strings.TrimPrefix(par.Bad, "bad-ancestor:")
		s.info[id] = i
		return i
	}
	i.Bad = s.rules(i, par)
	if i.Bad == "tree-incomplete" {
		return nil
	}
	s.info[id] = i
	return i
}

func (s *Store) rules(i *Info, par *Info) string {
	b := i.B
	if !i.Id.Less(b.Target) {
		return "no-work"
	}
	if _, ok := s.Mks[b.Merkle]; !ok {
		return "tree-incomplete"
	}
	_, size, bad := s.checkTree(b.Merkle)
	if bad != "" {
		return bad
	}
	i.VSize = size
	txs, _ := s.TreeTxs(b.Merkle)
	i.Txs = txs
	ins, outs := new(big.Int), new(big.Int)
	for n, id := range txs {
		t := s.Txs[id]
		if n == 0 {
			if !t.IsCoinbase {
				return "no-coinbase"
			}
			if t.MinBlock != i.Height {
				return "coinbase-height"
			}
		} else if t.IsCoinbase {
			return "second-coinbase"
		}
		if bad := s.CheckTx(t); bad != "" {
			return bad
		}
		if t.MinBlock > i.Height {
			return "min-block"
		}
		ins.Add(ins, sumIn(t))
		outs.Add(outs, sumOut(t))
	}
	ins.Add(ins, new(big.Int).SetUint64(s.P.Reward))
	if ins.Cmp(outs) != 0 {
		return "unbalanced"
	}
	if par.Height > 0 && b.Time <= par.MedianTime() {
		return "time-median"
	}
	if (i.Height+1)%s.P.Period == 0 {
		if b.Time <= s.periodFirst(par, i.Height).B.Time {
			return "time-period"
		}
	}
	lo, hi := s.TargetRange(par)
	if b.Target.Less(lo) || hi.Less(b.Target) {
		return "target"
	}
	// the ledger
	st := s.StateAt(par).copy()
	for _, id := range txs {
		if _, dup := st.Incl[id]; dup {
			return "tx-repeated"
		}
		t := s.Txs[id]
		for _, in := range t.Inputs {
			if _, ok := st.Utxos[in.Utxo]; !ok {
				return "tx-spent-input"
			}
			delete(st.Utxos, in.Utxo)
		}
		for n, o := range t.Outputs {
			st.Utxos[Utxo{id, uint64(n), o.Value}] = o.Pkh
		}
		st.Incl[id] = i.Id
	}
	i.st = st
	return ""
}

func (st *State) copy() *State {
	n := &State{make(map[Utxo]H, len(st.Utxos)+4), make(map[H]H, len(st.Incl)+4)}
	for k, v := range st.Utxos {
		n.Utxos[k] = v
	}
	for k, v := range st.Incl {
		n.Incl[k] = v
	}
	return n
}

// StateAt is the ledger after a valid block.
func (s *Store) StateAt(i *Info) *State { return i.st }

// Balances sums the unspent outputs by address.
func (st *State) Balances() map[H]uint64 {
	m := map[H]uint64{}
	for u, p := range st.Utxos {
		m[p] += u.Value
	}
	return m
}

// Total is the sum of all unspent outputs.
func (st *State) Total() *big.Int {
	t := new(big.Int)
	for u := range st.Utxos {
		t.Add(t, new(big.Int).SetUint64(u.Value))
	}
	return t
}

// IsAncestor reports whether a is b or an ancestor of b.
func IsAncestor(a, b *Info) bool {
	if a.Height > b.Height {
		return false
	}
	return b.Anc(a.Height) == a
}

// MakeTree builds a Merkle tree over transaction ids, layered (shape 0) or
// as a right-leaning comb, with a wrapper on top, or in a random shape; the
// breadth-first order of the leaves is always the order of the list.
func (s *Store) MakeTree(ids []H, shape int, rnd func(int) int) H {
	if len(ids) == 1 {
		return s.AddMk(Mk{ids[0], ids[0]})
	}
	switch shape {
	case 1: // right comb: breadth-first order keeps the list order
		r := ids[len(ids)-1]
		for k := len(ids) - 2; k >= 0; k-- {
			r = s.AddMk(Mk{ids[k], r})
		}
		return r
	case 2: // single-node wrappers above the layered tree
		r := s.MakeTree(ids, 0, rnd)
		return s.AddMk(Mk{r, r})
	case 3:
		return s.randTree(ids, rnd)
	}
	lay := append([]H{}, ids...)
	for len(lay) > 1 {
		var nx []H
		for k := 0; k < len(lay); k += 2 {
			if k+1 < len(lay) {
				nx = append(nx, s.AddMk(Mk{lay[k], lay[k+1]}))
			} else {
				nx = append(nx, s.AddMk(Mk{lay[k], lay[k]}))
			}
		}
		lay = nx
	}
	return lay[0]
}

// --- records on disk ---

func rows(raw []byte) []string { return strings.Split(strings.Trim(string(raw), "\n"), "\n") }

// ParseBlockRec reads a stored block.
func ParseBlockRec(raw []byte) (*Block, uint64, H, bool) {
	r := rows(raw)
	if len(r) != 8 {
		return nil, 0, H{}, false
	}
	b := &Block{}
	var ok [8]bool
	b.Prev, ok[0] = ParseH(r[0])
	b.Merkle, ok[1] = ParseH(r[1])
	b.Target, ok[2] = ParseH(r[2])
	b.Noise, ok[3] = ParseH(r[3])
	var e1, e2, e3 error
	b.Nonce, e1 = strconv.ParseUint(r[4], 10, 64)
	b.Time, e2 = strconv.ParseUint(r[5], 10, 64)
	h, e3 := strconv.ParseUint(r[6], 10, 64)
	w, okw := ParseH(r[7])
	if !ok[0] || !ok[1] || !ok[2] || !ok[3] || !okw || e1 != nil || e2 != nil || e3 != nil {
		return nil, 0, H{}, false
	}
	return b, h, w, true
}

// ParseMkRec reads a stored Merkle node.
func ParseMkRec(raw []byte) (Mk, uint64, bool) {
	r := rows(raw)
	if len(r) != 3 {
		return Mk{}, 0, false
	}
	l, a := ParseH(r[0])
	rr, b := ParseH(r[1])
	v, err := strconv.ParseUint(r[2], 10, 64)
	return Mk{l, rr}, v, a && b && err == nil
}

// ParseTxRec reads a stored transaction.
func ParseTxRec(raw []byte) (*Tx, uint64, bool) {
	r := rows(raw)
	if len(r) < 5 {
		return nil, 0, false
	}
	good := true
	u := func(s string) uint64 {
		v, err := strconv.ParseUint(s, 10, 64)
		if err != nil {
			good = false
		}
		return v
	}
	h := func(s string) H {
		v, ok := ParseH(s)
		if !ok {
			good = false
		}
		return v
	}
	b64 := func(s string) []byte {
		v, err := base64.StdEncoding.DecodeString(s)
		if err != nil {
			good = false
		}
		return v
	}
	vs := u(r[0])
	t := &Tx{IsCoinbase: r[1] == "true", MinBlock: u(r[2])}
	ni, no := u(r[3]), u(r[4])
	if !good || ni > 1000 || no > 1000 || uint64(len(r)) != 5+5*ni+2*no {
		return nil, 0, false
	}
	p := 5
	for k := uint64(0); k < ni; k++ {
		t.Inputs = append(t.Inputs, TxIn{Utxo{h(r[p]), u(r[p+1]), u(r[p+2])}, b64(r[p+3]), b64(r[p+4])})
		p += 5
	}
	for k := uint64(0); k < no; k++ {
		t.Outputs = append(t.Outputs, TxOut{u(r[p]), h(r[p+1])})
		p += 2
	}
	return t, vs, good
}

// BlockRec writes a block as the node stores it.
func BlockRec(i *Info) []byte {
	b := i.B
	return []byte(strings.Join([]string{b.Prev.String(), b.Merkle.String(), b.Target.String(), b.Noise.String(),
		fmt.Sprint(b.Nonce), fmt.Sprint(b.Time), fmt.Sprint(i.Height), FromInt(i.Work).String()}, "\n"))
}

// TreeSize is the total size below a Merkle node or transaction.
func (s *Store) TreeSize(id H) uint64 {
	if t := s.Txs[id]; t != nil {
		return t.VSize()
	}
	m, ok := s.Mks[id]
	if !ok {
		return 0
	}
	n := s.TreeSize(m.L)
	if m.R != m.L {
		n += s.TreeSize(m.R)
	}
	return n
}

type tnode struct {
	l, r *tnode
	id   H
}

// randTree builds a tree of random shape, with some single-child wrappers.
func (s *Store) randTree(ids []H, rnd func(int) int) H {
	root := &tnode{}
	leaves := []*tnode{root}
	for len(leaves) < len(ids) || (len(leaves) == 1 && leaves[0] == root) {
		k := rnd(len(leaves))
		n := leaves[k]
		if len(leaves) >= len(ids) || rnd(6) == 0 {
			n.l = &tnode{}
			leaves[k] = n.l
		} else {
			n.l, n.r = &tnode{}, &tnode{}
			leaves = append(leaves[:k], append([]*tnode{n.l, n.r}, leaves[k+1:]...)...)
		}
	}
	// identities in breadth-first order
	q := []*tnode{root}
	for n := 0; len(q) > 0; {
		t := q[0]
		q = q[1:]
		if t.l == nil {
			t.id = ids[n]
			n++
			continue
		}
		q = append(q, t.l)
		if t.r != nil {
			q = append(q, t.r)
		}
	}
	var up func(t *tnode) H
	up = func(t *tnode) H {
		if t.l == nil {
			return t.id
		}
		l := up(t.l)
		if t.r == nil {
			return s.AddMk(Mk{l, l})
		}
		return s.AddMk(Mk{l, up(t.r)})
	}
	return up(root)
}

// TxRec writes a transaction as the node stores it.
func TxRec(t *Tx) []byte {
	l := []string{fmt.Sprint(t.VSize()), fmt.Sprint(t.IsCoinbase), fmt.Sprint(t.MinBlock), fmt.Sprint(len(t.Inputs)), fmt.Sprint(len(t.Outputs))}
	for _, i := range t.Inputs {
		l = append(l, i.Utxo.TxId.String(), fmt.Sprint(i.Utxo.Ind), fmt.Sprint(i.Utxo.Value),
			base64.StdEncoding.EncodeToString(i.PublicKey), base64.StdEncoding.EncodeToString(i.Signature))
	}
	for _, o := range t.Outputs {
		l = append(l, fmt.Sprint(o.Value), o.Pkh.String())
	}
	return []byte(strings.Join(l, "\n"))
}

// MkRec writes a Merkle node as the node stores it.
func MkRec(m Mk, size uint64) []byte {
	return []byte(strings.Join([]string{m.L.String(), m.R.String(), fmt.Sprint(size)}, "\n"))
}
