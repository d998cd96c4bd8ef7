package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/levilutz/basiccoin/verifsim/ref"
	"github.com/levilutz/basiccoin/verifsim/simrt"
)

// HTTP clients and the judgement of answers.

// sub is a submitted transaction.
type sub struct {
	t     *ref.Tx
	id    ref.H
	nd    *Node
	inc   int
	at    int64
	ok    bool
	valid bool
	quiet bool
}

func (nt *Net) url(nd *Node, path string) string {
	return fmt.Sprintf("http://%s:%d%s", nd.h.IP, httpPort, path)
}

// get performs a query with the usual bound.
func (nt *Net) get(nd *Node, path string) simrt.HTTPResult {
	return nt.w.HTTPCall(nt.client, nil, "GET", nt.url(nd, path), "", nil, nil, 120*time.Second, simrt.HTTPFault{})
}

// alive tells whether a node has been serving without interruption.
func (nd *Node) serving(inc int) bool {
	return nd.up && nd.inc == inc && nd.nt.w.Now() >= nd.readyAt
}

// bounded judges the outcome of a request to a live node.
func (nt *Net) bounded(nd *Node, inc int, start int64, r simrt.HTTPResult, what string) bool {
	if r.Err == nil {
		return true
	}
	if nd.up && nd.inc == inc && !nd.h.Down && start > nd.readyAt+int64(2*time.Second) && nd.h.Slow < 2 && nd.h.Disk.SlowPM == 0 && strings.Contains(r.Err.Error(), "Timeout") {
		nt.x.Fail("C16 C13", "http-unanswered", "%s did not answer %s within 120 s: %v", nd.name, what, r.Err)
	}
	return false
}

// query asks a node one question of the given kind and judges the answer.
func (nt *Net) query(nd *Node, kind int, seed uint64) {
	r := simrt.NewRNG(seed)
	inc := nd.inc
	start := nt.w.Now()
	x := nt.x
	if !nd.http {
		return
	}
	switch kind {
	case 0: // height
		res := nt.get(nd, "/wallet/head/height")
		if !nt.bounded(nd, inc, start, res, "head/height") || !nd.judged(inc) {
			return
		}
		h, err := strconv.ParseUint(strings.TrimSpace(string(res.Body)), 10, 64)
		if err != nil || res.Code != 200 {
			x.Fail("C16 C01", "bad-answer", "%s answered height with %d %q", nd.name, res.Code, clip(string(res.Body), 100))
			return
		}
		nt.judge(nd, inc, start, "height", fmt.Sprint(h), func(i *ref.Info) string { return fmt.Sprint(i.Height) })
	case 1: // balances
		ks := nt.pickKeys(r)
		res := nt.get(nd, "/wallet/balance?"+qs("publicKeyHash", ks))
		if !nt.bounded(nd, inc, start, res, "balance") || !nd.judged(inc) {
			return
		}
		var a struct {
			Balances map[ref.H]uint64 `json:"balances"`
		}
		if !nt.decode(nd, "balance", res, &a) {
			return
		}
		nt.judge(nd, inc, start, "balance", showHU(a.Balances), func(i *ref.Info) string {
			b := nt.S.StateAt(i).Balances()
			m := map[ref.H]uint64{}
			for _, k := range ks {
				m[k] = b[k]
			}
			return showHU(m)
		})
	case 2, 3: // utxos
		ks := nt.pickKeys(r)
		excl := kind == 3
		path := "/wallet/utxos?" + qs("publicKeyHash", ks)
		if excl {
			path += "&excludeMempool=true"
		}
		pend := nd.pendingSince(inc, start)
		res := nt.get(nd, path)
		if !nt.bounded(nd, inc, start, res, "utxos") || !nd.judged(inc) {
			return
		}
		var a struct {
			Utxos []struct {
				Utxo ref.Utxo `json:"utxo"`
				Pkh  ref.H    `json:"pkh"`
			} `json:"utxos"`
		}
		if !nt.decode(nd, "utxos", res, &a) {
			return
		}
		got := map[ref.Utxo]ref.H{}
		for _, u := range a.Utxos {
			if _, dup := got[u.Utxo]; dup {
				x.Fail("C01 C16", "duplicate-utxo", "%s listed output %s[%d] twice", nd.name, u.Utxo.TxId.Short(), u.Utxo.Ind)
			}
			got[u.Utxo] = u.Pkh
		}
		in := map[ref.H]bool{}
		for _, k := range ks {
			in[k] = true
		}
		full := func(i *ref.Info) map[ref.Utxo]ref.H {
			m := map[ref.Utxo]ref.H{}
			for u, p := range nt.S.StateAt(i).Utxos {
				if in[p] {
					m[u] = p
				}
			}
			return m
		}
		if !excl {
			nt.judge(nd, inc, start, "utxos", showU(got), func(i *ref.Info) string { return showU(full(i)) })
			return
		}
		nt.judgeExcl(nd, inc, start, got, full, pend)
	case 4: // rich list
		n := uint64(r.N(8))
		res := nt.get(nd, fmt.Sprintf("/wallet/richlist?maxLen=%d", n))
		if !nt.bounded(nd, inc, start, res, "richlist") || !nd.judged(inc) {
			return
		}
		var a struct {
			RichList map[ref.H]uint64 `json:"richList"`
		}
		if !nt.decode(nd, "richlist", res, &a) {
			return
		}
		nt.judge(nd, inc, start, fmt.Sprintf("richlist(%d)", n), showRich(a.RichList), func(i *ref.Info) string {
			b := nt.S.StateAt(i).Balances()
			// every entry right, and none outside richer than one inside
			min := ^uint64(0)
			for k, v := range a.RichList {
				if b[k] != v {
					return "another balance of " + k.Short()
				}
				if v < min {
					min = v
				}
			}
			want := int(n)
			if len(b) < want {
				want = len(b)
			}
			if len(a.RichList) != want {
				return fmt.Sprintf("%d entries", want)
			}
			if want > 0 {
				for k, v := range b {
					if _, ok := a.RichList[k]; !ok && v > min {
						return "an entry for " + k.Short()
					}
				}
			}
			return showRich(a.RichList)
		})
	case 5, 6: // confirmations, containing blocks
		ids := nt.pickTxs(r, nd)
		if len(ids) == 0 {
			return
		}
		must := map[ref.H]bool{}
		for id, at := range nd.known {
			if at < start {
				must[id] = true
			}
		}
		if kind == 5 {
			res := nt.get(nd, "/wallet/tx/confirms?"+qs("txId", ids))
			if !nt.bounded(nd, inc, start, res, "tx/confirms") || !nd.judged(inc) {
				return
			}
			var a struct {
				Confirms map[ref.H]uint64 `json:"confirms"`
			}
			if !nt.decode(nd, "tx/confirms", res, &a) {
				return
			}
			for _, id := range ids {
				if _, ok := a.Confirms[id]; !ok && must[id] && !nd.dirty {
					x.Fail("C19 C16", "pending-tx-forgotten", "%s accepted %s and now does not know it", nd.name, id.Short())
				}
			}
			nt.judge(nd, inc, start, "confirms", showHU(a.Confirms), func(i *ref.Info) string {
				st := nt.S.StateAt(i)
				m := map[ref.H]uint64{}
				for _, id := range ids {
					if b, ok := st.Incl[id]; ok {
						m[id] = i.Height - nt.S.Info(b).Height + 1
					} else if v, ok := a.Confirms[id]; ok {
						// known and unconfirmed
						m[id] = 0
						_ = v
						if nt.S.Txs[id] == nil {
							delete(m, id)
						}
					}
				}
				return showHU(m)
			}, "C19")
			return
		}
		res := nt.get(nd, "/wallet/tx/block?"+qs("txId", ids))
		if !nt.bounded(nd, inc, start, res, "tx/block") || !nd.judged(inc) {
			return
		}
		var a struct {
			Blocks map[ref.H]ref.H `json:"includedBlocks"`
		}
		if !nt.decode(nd, "tx/block", res, &a) {
			return
		}
		nt.judge(nd, inc, start, "tx/block", showHH(a.Blocks), func(i *ref.Info) string {
			st := nt.S.StateAt(i)
			m := map[ref.H]ref.H{}
			for _, id := range ids {
				if b, ok := st.Incl[id]; ok {
					m[id] = b
				}
			}
			return showHH(m)
		})
	case 7, 8, 9: // entities
		nt.getEntity(nd, kind, r, inc, start)
	}
}

// judged tells whether the node's answers can be judged by its head history.
func (nd *Node) judged(inc int) bool {
	return nd.save != "" && !nd.fuzzy && nd.inc == inc
}

func (nt *Net) decode(nd *Node, what string, res simrt.HTTPResult, v any) bool {
	if res.Code != 200 {
		nt.x.Fail("C16", "bad-answer:"+what, "%s answered %s with %d %q", nd.name, what, res.Code, clip(string(res.Body), 200))
		return false
	}
	if err := json.Unmarshal(res.Body, v); err != nil {
		nt.x.Fail("C16", "bad-answer:"+what, "%s answered %s with %q: %v", nd.name, what, clip(string(res.Body), 200), err)
		return false
	}
	return true
}

// judge accepts an answer that equals the model's at one state the node had
// between request and response.
func (nt *Net) judge(nd *Node, inc int, start int64, what, got string, model func(i *ref.Info) string, extra ...string) {
	if nd.inc != inc {
		return
	}
	nt.x.Checked(1)
	nt.x.Probe("answer-judged")
	ws := nd.window(start, nt.w.Now())
	var wants []string
	for _, i := range ws {
		w := model(i)
		if w == got {
			return
		}
		wants = append(wants, fmt.Sprintf("%s@%d", w, i.Height))
	}
	// Is it an earlier state?
	for _, h := range nd.tl {
		if model(h.i) == got {
			props := "C16 C01"
			if h.inc != nd.inc || h.i.Height < nd.head().Height {
				props += " C08"
			}
			nt.x.Fail(props, "stale-answer:"+what, "%s answered %s as of height %d (%s) after it had moved to %s", nd.name, what, h.i.Height, clip(got, 300), clip(strings.Join(wants, " or "), 300))
			return
		}
	}
	if nd.inc > 1 && len(nd.tl) > 0 && model(nt.S.Gen) == got {
		nt.x.Fail("C08 C01 C16", "empty-after-restart:"+what, "%s answered %s as of an empty chain after a restart, it had height %d", nd.name, what, nd.head().Height)
		return
	}
	nt.x.Fail("C01 C16 "+strings.Join(extra, " "), "wrong-answer:"+what, "%s answered %s with %s, the chain implies %s", nd.name, what, clip(got, 600), clip(strings.Join(wants, " or "), 600))
}

// judgeExcl judges the outputs reported as free of pending spends.
func (nt *Net) judgeExcl(nd *Node, inc int, start int64, got map[ref.Utxo]ref.H, full func(i *ref.Info) map[ref.Utxo]ref.H, pend map[ref.H]bool) {
	if nd.inc != inc {
		return
	}
	nt.x.Checked(1)
	why := ""
	for _, i := range nd.window(start, nt.w.Now()) {
		why = ""
		all := full(i)
		incl := nt.S.StateAt(i).Incl
		for _, u := range sortedU(got) {
			if all[u] != got[u] {
				why = fmt.Sprintf("output %s[%d] is not unspent at height %d", u.TxId.Short(), u.Ind, i.Height)
			}
		}
		if why != "" {
			continue
		}
		// outputs used by transactions that were pending all along
		for _, id := range sortedH(pend) {
			if _, done := incl[id]; done {
				continue
			}
			for _, in := range nt.S.Txs[id].Inputs {
				if _, ok := got[in.Utxo]; ok {
					why = fmt.Sprintf("output %s[%d] is used by pending transaction %s (height %d)", in.Utxo.TxId.Short(), in.Utxo.Ind, id.Short(), i.Height)
				}
			}
		}
		if why != "" {
			continue
		}
		// nothing else may be missing: a missing output must be an input of some
		// transaction that the node can know
		used := nt.inputsOfAll()
		for _, u := range sortedU(all) {
			if _, ok := got[u]; ok {
				continue
			}
			free := true
			for _, id := range used[u] {
				if _, done := incl[id]; !done {
					free = false
				}
			}
			if free {
				why = fmt.Sprintf("output %s[%d] is unspent and not used by any pending transaction (height %d)", u.TxId.Short(), u.Ind, i.Height)
			}
		}
		if why == "" {
			return
		}
	}
	nt.x.Fail("C19 C16 C01", "wrong-free-outputs", "%s answered free outputs %s wrongly: %s", nd.name, clip(showU(got), 300), why)
}

func (nt *Net) inputsOfAll() map[ref.Utxo][]ref.H {
	m := map[ref.Utxo][]ref.H{}
	for _, id := range sortedH(nt.S.Txs) {
		t := nt.S.Txs[id]
		for _, in := range t.Inputs {
			m[in.Utxo] = append(m[in.Utxo], id)
		}
	}
	return m
}

// pendingSince lists transactions the node accepted before an instant in this
// incarnation.
func (nd *Node) pendingSince(inc int, at int64) map[ref.H]bool {
	m := map[ref.H]bool{}
	for id, t := range nd.known {
		if t < at {
			m[id] = true
		}
	}
	return m
}

func (nt *Net) getEntity(nd *Node, kind int, r *simrt.RNG, inc int, start int64) {
	x := nt.x
	head := nd.head()
	if head.Height == 0 {
		return
	}
	i := head.Anc(1 + r.Intn(head.Height))
	switch kind {
	case 7:
		id := i.Txs[r.N(len(i.Txs))]
		res := nt.get(nd, "/wallet/tx?txId="+id.String())
		if !nt.bounded(nd, inc, start, res, "tx") || !nd.judged(inc) {
			return
		}
		var a struct {
			Txs map[ref.H]*ref.Tx `json:"txs"`
		}
		if !nt.entity(nd, "tx", res, &a) {
			return
		}
		if t := a.Txs[id]; t == nil || len(a.Txs) != 1 || !t.Same(nt.S.Txs[id]) {
			x.Fail("C23 C10 C16", "wrong-tx-served", "%s served transaction %s as %s", nd.name, id.Short(), clip(string(res.Body), 300))
		}
	case 8:
		ms := nt.S.TreeMks(i.B.Merkle)
		id := ms[r.N(len(ms))]
		res := nt.get(nd, "/wallet/merkle?merkleId="+id.String())
		if !nt.bounded(nd, inc, start, res, "merkle") || !nd.judged(inc) {
			return
		}
		var a struct {
			M map[ref.H]ref.Mk `json:"merkles"`
		}
		if !nt.entity(nd, "merkle", res, &a) {
			return
		}
		if m, ok := a.M[id]; !ok || len(a.M) != 1 || m != nt.S.Mks[id] {
			x.Fail("C23 C10 C16", "wrong-merkle-served", "%s served node %s as %s", nd.name, id.Short(), clip(string(res.Body), 300))
		}
	case 9:
		res := nt.get(nd, "/wallet/block?blockId="+i.Id.String())
		if !nt.bounded(nd, inc, start, res, "block") || !nd.judged(inc) {
			return
		}
		var a struct {
			B map[ref.H]*ref.Block `json:"blocks"`
		}
		if !nt.entity(nd, "block", res, &a) {
			return
		}
		if nt.poisoned[i.Id] {
			return
		}
		if b := a.B[i.Id]; b == nil || len(a.B) != 1 || *b != *i.B {
			x.Fail("C23 C10 C16", "wrong-block-served", "%s served block %s as %s", nd.name, i.Id.Short(), clip(string(res.Body), 300))
		}
	}
}

func (nt *Net) entity(nd *Node, what string, res simrt.HTTPResult, v any) bool {
	nt.x.Checked(1)
	if res.Code != 200 {
		nt.x.Fail("C23 C16", "entity-unavailable:"+what, "%s could not serve a %s of its own chain: %d %q", nd.name, what, res.Code, clip(string(res.Body), 200))
		return false
	}
	return nt.decode(nd, what, res, v)
}

func qs(name string, hs []ref.H) string {
	var p []string
	for _, h := range hs {
		p = append(p, name+"="+h.String())
	}
	return strings.Join(p, "&")
}

func (nt *Net) pickKeys(r *simrt.RNG) []ref.H {
	var out []ref.H
	n := 1 + r.N(len(nt.keys))
	for _, k := range nt.keys[:n] {
		out = append(out, k.Pkh)
	}
	if r.N(4) == 0 {
		out = append(out, ref.HU(r.U64()))
	}
	return out
}

// pickTxs chooses transaction identities to ask about.
func (nt *Net) pickTxs(r *simrt.RNG, nd *Node) []ref.H {
	var pool []ref.H
	for _, s := range nt.accepted {
		pool = append(pool, s.id)
	}
	if h := nd.head(); h.Height > 0 {
		for k := 0; k < 3; k++ {
			i := h.Anc(1 + r.Intn(h.Height))
			pool = append(pool, i.Txs[r.N(len(i.Txs))])
		}
	}
	for k := 0; k < 3 && len(nt.made) > 0; k++ {
		pool = append(pool, nt.made[r.N(len(nt.made))].Hash())
	}
	for k := 0; k < 4 && len(nt.asked) > 0; k++ {
		pool = append(pool, nt.asked[r.N(len(nt.asked))])
	}
	if len(pool) == 0 {
		return nil
	}
	var out []ref.H
	seen := map[ref.H]bool{}
	for k := 0; k < 5; k++ {
		id := pool[r.N(len(pool))]
		if !seen[id] {
			seen[id] = true
			out = append(out, id)
			nt.asked = append(nt.asked, id)
		}
	}
	if r.N(3) == 0 {
		out = append(out, ref.HU(r.U64()))
	}
	return out
}

func sortedH[V any](m map[ref.H]V) []ref.H {
	var ks []ref.H
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(a, b int) bool { return ks[a].String() < ks[b].String() })
	return ks
}
func sortedU[V any](m map[ref.Utxo]V) []ref.Utxo {
	out := make([]ref.Utxo, 0, len(m))
	for u := range m {
		out = append(out, u)
	}
	sort.Slice(out, func(a, b int) bool {
		if out[a].TxId != out[b].TxId {
			return bytes.Compare(out[a].TxId[:], out[b].TxId[:]) < 0
		}
		if out[a].Ind != out[b].Ind {
			return out[a].Ind < out[b].Ind
		}
		return out[a].Value < out[b].Value
	})
	return out
}

func showHU(m map[ref.H]uint64) string {
	var b strings.Builder
	for _, k := range sortedH(m) {
		fmt.Fprintf(&b, "%s:%d ", k.Short(), m[k])
	}
	return b.String()
}
func showRich(m map[ref.H]uint64) string { return showHU(m) }
func showHH(m map[ref.H]ref.H) string {
	var b strings.Builder
	for _, k := range sortedH(m) {
		fmt.Fprintf(&b, "%s:%s ", k.Short(), m[k].Short())
	}
	return b.String()
}
func showU(m map[ref.Utxo]ref.H) string {
	var l []string
	for u, p := range m {
		l = append(l, fmt.Sprintf("%s[%d]=%d>%s", u.TxId.Short(), u.Ind, u.Value, p.Short()))
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

// post submits a transaction and judges the answer.
func (nt *Net) post(nd *Node, t *ref.Tx, f simrt.HTTPFault) *sub {
	s := &sub{t: t, id: nt.S.AddTx(t), nd: nd, inc: nd.inc, quiet: nt.quiet}
	body, err := json.Marshal(t)
	if err != nil {
		panic(err)
	}
	start := nt.w.Now()
	bad := nt.S.CheckTx(t)
	s.valid = bad == ""
	originsKnown := true
	head := nd.head()
	st := nt.S.StateAt(head)
	for _, in := range t.Inputs {
		_, inc := st.Incl[in.Utxo.TxId]
		at, k := nd.known[in.Utxo.TxId]
		if !inc && !(k && at < start) {
			originsKnown = false
		}
	}
	inc := nd.inc
	res := nt.w.HTTPCall(nt.client, nil, "POST", nt.url(nd, "/wallet/tx"), "application/json", nil, body, 120*time.Second, f)
	if f.LoseRequest || f.LoseResponse {
		return s
	}
	if !nt.bounded(nd, inc, start, res, "a submission") {
		return s
	}
	nt.x.Checked(1)
	s.at = nt.w.Now()
	if res.Code == 200 {
		if got := strings.Trim(strings.TrimSpace(string(res.Body)), "\""); got != s.id.String() {
			nt.x.Fail("C16 C23", "wrong-submission-id", "%s acknowledged %s as %q", nd.name, s.id.Short(), clip(got, 100))
		}
		if bad != "" {
			props := "C16 C02"
			switch bad {
			case "tx-wrong-key", "tx-wrong-value", "tx-bad-signature", "tx-no-origin":
				props = "C16 C03"
			}
			nt.x.Fail(props, "accepted-invalid-tx:"+bad, "%s accepted transaction %s that breaks %s", nd.name, s.id.Short(), bad)
			return s
		}
		if nd.up && nd.inc == inc {
			s.ok = true
			nd.known[s.id] = nt.w.Now()
			nt.accepted = append(nt.accepted, s)
			nt.x.Probe("tx-accepted")
		}
		return s
	}
	nt.x.Probe("tx-refused")
	if bad == "" && originsKnown && nd.up && nd.inc == inc && !nd.dirty && ref.IsAncestor(head, nd.head()) && !nd.fuzzy {
		nt.x.Fail("C16 C18 C04", "refused-valid-tx", "%s refused valid transaction %s: %d %q", nd.name, s.id.Short(), res.Code, clip(string(res.Body), 200))
	}
	return s
}
