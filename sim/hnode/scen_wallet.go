package main

import (
	"bytes"
	"crypto/x509"
	"encoding/json"
	"fmt"
	"math/big"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	main_bcwallet "github.com/levilutz/basiccoin/cmd/bcwallet"
	"github.com/levilutz/basiccoin/verifsim/hx"
	"github.com/levilutz/basiccoin/verifsim/ref"
	"github.com/levilutz/basiccoin/verifsim/simrt"
)

// wallet: users run the wallet program against a real node; commands are
// killed, the disk fails, requests and answers get lost. keys: the same with
// no node about, and more commands that save.

func init() {
	hx.Register(&hx.Scenario{Name: "wallet", Gen: genWallet, Run: runWallet, Opt: netOptions})
	hx.Register(&hx.Scenario{Name: "keys", Gen: genKeys, Run: runWallet, Opt: netOptions})
	extraOps["w"] = func(nt *Net, op hx.Op) { nt.wl.op(op) }
	extraOps["wfund"] = func(nt *Net, op hx.Op) { nt.wl.fund(op) }
}

const walletDir = "/home/user/.config/basiccoin"

// wallets are the users of a run.
type wallets struct {
	nt    *Net
	f     *feed
	users []*user
	runs  map[*simrt.Proc]*wrun
	spent map[ref.H]bool // transactions some wallet may have submitted
}

// user is one machine with the wallet files of both networks.
type user struct {
	ws    *wallets
	idx   int
	h     *simrt.Host
	q     []func()
	busy  bool
	stop  bool
	task  *simrt.Task
	files [2]*wfile // development, production
	cmds  int
}

// wfile is one wallet file and what it must hold.
type wfile struct {
	u     *user
	dev   bool
	path  string
	must  map[ref.H]string // confirmed keys, by what
	last  []byte
	have  map[ref.H]bool // keys in the file
	list  []ref.H
	bad   string
	exist bool
	done  bool // the file was there once
}

// wrun is one command of a wallet.
type wrun struct {
	u        *user
	wf       *wfile
	p        *simrt.Proc
	name     string
	args     []string
	faults   map[int]simrt.HTTPFault
	nodekill map[int]int64
	n        int
	faulty   bool // anything was disturbed
	posts    []*wpost
	answered bool
	yes      bool
	lines    []string
	start    int64
	inc      int
	known0   map[ref.H]bool
	pend0    map[ref.H]bool
	keys0    []ref.H
	moved    bool
	reached  int // requests the node answered
}

type wpost struct {
	t      *ref.Tx
	id     ref.H
	at     int64
	seen   bool
	served bool
	code   int
}

var ansi = regexp.MustCompile("\x1b\\[[0-9;]*m")

func genKeys(r *simrt.RNG, p *hx.Plan, thorough bool) {
	drawSim(r, p)
	drawParams(r, p)
	p.Cfg["nonode"] = 1
	p.Cfg["users"] = int64(1 + r.N(2))
	n := 8 + r.N(20)
	if thorough {
		n = 8 + r.N(100)
	}
	t := int64(100)
	for k := 0; k < n; k++ {
		t += int64(r.N(3000))
		c := []int64{wGenerate, wGenerate, wImport, wImport, wConnect, wOther}[r.N(6)]
		fk := int64(0)
		if r.N(5) > 0 {
			fk = 1 + int64(r.N(6))
		}
		p.Add(t, "w", int64(r.N(2)), c, int64(r.U64()>>1), fk, int64(r.N(2)))
	}
}

func genWallet(r *simrt.RNG, p *hx.Plan, thorough bool) {
	drawSim(r, p)
	drawParams(r, p)
	p.Cfg["reward"] = []int64{1000, 20000, 131072, 1 << 40, 1 << 52}[r.N(5)]
	p.Cfg["users"] = int64(1 + r.N(2))
	p.Cfg["prod"] = int64(r.N(4) / 3)
	p.Cfg["miner"] = int64(r.N(4) / 3)
	if r.N(3) == 0 {
		p.Cfg["maxtx"] = int64(600 + r.N(1800))
	}
	if r.N(5) == 0 {
		p.Cfg["maxblock"] = int64(2500 + r.N(4000))
	}
	n := 10 + r.N(25)
	if thorough {
		n = 10 + r.N(100)
	}
	p.Add(0, "start", 0)
	// most users set up in peace
	for u := int64(0); u < p.Cfg["users"]; u++ {
		if r.N(5) > 0 {
			for k := 0; k < 1+r.N(3); k++ {
				p.Add(1200, "w", u, wGenerate, int64(r.U64()>>1), 0, 0)
			}
			p.Add(3000, "w", u, wConnect, 2, 0, 0)
		}
	}
	t := int64(5000)
	gap := []int{300, 2500, 12000}[r.N(3)]
	fp := []int{0, 40, 80}[r.N(3)]
	p.Add(t, "wfund", int64(r.U64()>>1), 6)
	p.Add(t+500, "wfund", int64(r.U64()>>1), 6)
	for k := 0; k < n; k++ {
		t += int64(r.N(gap))
		switch r.N(14) {
		case 0, 1, 2:
			p.Add(t, "wfund", int64(r.U64()>>1), int64(r.N(8)))
		case 3:
			if r.N(2) == 0 {
				p.Add(t, "grow", int64(r.N(3)), int64(1+r.N(3)), int64(r.U64()>>1), 0, int64(r.N(5)))
				p.Add(t+1, "offer", int64(r.N(8)), 0, int64(r.N(4)))
			} else {
				p.Add(t, "pay", 0, int64(r.N(16)), int64(r.U64()>>1))
			}
		case 4:
			if r.N(3) == 0 {
				p.Add(t, "kill", 0)
				p.Add(t+int64(r.N(6000)), "restart", 0)
			}
		default:
			c := int64([]int{wSend, wSend, wSend, wSend, wConsolidate, wBalance, wUtxos, wConfirms, wBlock, wGet, wRich, wGenerate, wImport, wConnect, wOther}[r.N(15)])
			fk := int64(0)
			if r.N(100) < fp {
				fk = 1 + int64(r.N(12))
				if c != wGenerate && c != wImport && r.N(2) == 0 {
					fk = 7 + int64(r.N(4))
				}
			}
			net := int64(0)
			if r.N(12) == 0 {
				net = 1
			}
			p.Add(t, "w", int64(r.N(2)), c, int64(r.U64()>>1), fk, net)
		}
	}
}

const (
	wGenerate = iota
	wImport
	wConnect
	wSend
	wConsolidate
	wBalance
	wUtxos
	wConfirms
	wBlock
	wGet
	wRich
	wOther
)

func runWallet(x *hx.Run) {
	nt := newNet(x)
	p := x.Plan
	ws := &wallets{nt: nt, runs: map[*simrt.Proc]*wrun{}, spent: map[ref.H]bool{}}
	nt.wl = ws
	nd := nt.addNode()
	nd.newNet = true
	nd.prod = p.C("prod") == 1
	if p.C("miner") > 0 {
		nd.miners, nd.paused = 1, true
	}
	f := &feed{nt: nt, nd: nd}
	nt.fd, ws.f = f, f
	if p.C("nonode") == 0 {
		f.vps = append(f.vps, nt.newVP(nd, true))
	}
	nt.w.Values["httpfault"] = ws.onRequest
	nt.w.Values["httpseen"] = ws.onAnswer
	for i := int64(0); i < p.C("users"); i++ {
		ws.addUser()
	}
	nt.runOps(p.Ops)
	for _, u := range ws.users {
		u.drained(600 * time.Second)
	}
	for _, v := range f.vps {
		v.drained(120 * time.Second)
	}
	nt.settle(200 * time.Second)
	ws.finish()
	if p.C("nonode") == 0 {
		f.finish()
	}
}

func (ws *wallets) addUser() {
	nt := ws.nt
	u := &user{ws: ws, idx: len(ws.users)}
	u.h = nt.w.NewHost(fmt.Sprintf("u%d", u.idx), fmt.Sprintf("10.0.8.%d", u.idx+1))
	for k, n := range []string{"wallet-dev.json", "wallet.json"} {
		u.files[k] = &wfile{u: u, dev: k == 0, path: walletDir + "/" + n, must: map[ref.H]string{}}
	}
	u.h.Disk.OnChange = func(op, path string) {
		for _, f := range u.files {
			f.check(op + " of " + path)
		}
	}
	ws.users = append(ws.users, u)
	u.task = nt.w.Harness(u.h.Name, u.loop)
}

func (u *user) loop() {
	for !u.stop {
		if len(u.q) > 0 {
			fn := u.q[0]
			u.q = u.q[1:]
			u.busy = true
			fn()
			u.busy = false
			continue
		}
		simrt.Sleep(50 * time.Millisecond)
	}
}

func (u *user) drained(max time.Duration) bool {
	end := u.ws.nt.w.Now() + int64(max)
	for (len(u.q) > 0 || u.busy) && u.ws.nt.w.Now() < end {
		simrt.Sleep(100 * time.Millisecond)
	}
	return len(u.q) == 0 && !u.busy
}

// --- the wallet file ---

type fileKey struct {
	Pkh  ref.H  `json:"publicKeyHash"`
	Priv []byte `json:"privateKey"`
}
type fileCfg struct {
	Dev      bool      `json:"dev"`
	NodeAddr string    `json:"nodeAddr"`
	Keys     []fileKey `json:"keys"`
}

// parseWallet loads a wallet file the way its format is documented.
func parseWallet(b []byte) (list []ref.H, bad string) {
	var c fileCfg
	if err := json.Unmarshal(b, &c); err != nil {
		return nil, err.Error()
	}
	for _, k := range c.Keys {
		priv, err := x509.ParseECPrivateKey(k.Priv)
		if err != nil {
			return nil, "private key: " + err.Error()
		}
		pub, err := x509.MarshalPKIXPublicKey(priv.Public())
		if err != nil || ref.DH(pub) != k.Pkh {
			return nil, "the private key of " + k.Pkh.Short() + " is another's"
		}
		list = append(list, k.Pkh)
	}
	return list, ""
}

// load reads the file as it is now.
func (f *wfile) load() {
	b, ok := f.u.h.Disk.Peek(f.path)
	f.exist = ok
	if !ok {
		f.last, f.have, f.list, f.bad = nil, nil, nil, ""
		return
	}
	if f.have != nil && bytes.Equal(b, f.last) {
		return
	}
	f.last = append([]byte{}, b...)
	f.list, f.bad = parseWallet(b)
	f.have = map[ref.H]bool{}
	for _, k := range f.list {
		f.have[k] = true
	}
	f.done = true
}

// check judges the file at one instant.
func (f *wfile) check(when string) {
	x := f.u.ws.nt.x
	f.load()
	if !f.exist && !f.done {
		return
	}
	x.Checked(1)
	if !f.exist {
		x.Fail("C20", "wallet-file-gone", "%s: %s is gone after %s", f.u.h.Name, f.path, when)
		return
	}
	if f.bad != "" {
		x.Fail("C20", "wallet-file-broken", "%s: %s (%d bytes) cannot be loaded after %s: %s", f.u.h.Name, f.path, len(f.last), when, f.bad)
		return
	}
	for _, k := range sortedH(f.must) {
		if !f.have[k] {
			x.Fail("C20", "key-lost", "%s: %s holds %d keys after %s and not %s, which was %s", f.u.h.Name, f.path, len(f.list), when, k.Short(), f.must[k])
			return
		}
	}
}

// confirm records that the wallet told the user it has a key.
func (f *wfile) confirm(k ref.H, how string) {
	f.load()
	if _, ok := f.must[k]; !ok {
		f.must[k] = how
	}
	f.check("the key was " + how)
}

// --- running commands ---

// onRequest decides what happens to a request of a wallet.
func (ws *wallets) onRequest(p *simrt.Proc, method, url string, body []byte) simrt.HTTPFault {
	r := ws.runs[p]
	if r == nil {
		return simrt.HTTPFault{}
	}
	i := r.n
	r.n++
	if n, ok := r.nodekill[i]; ok {
		if nd := ws.f.nd; nd.up {
			ws.nt.w.Fault("node-killed-at-request")
			ws.nt.faulty = true
			nd.p.KillAtY(1 + n)
		}
	}
	if method == "POST" && strings.HasSuffix(url, "/wallet/tx") {
		r.post(body)
	}
	if f, ok := r.faults[-1]; ok && method == "POST" {
		return f
	}
	return r.faults[i]
}

func (ws *wallets) onAnswer(p *simrt.Proc, method, url string, body []byte, res *simrt.HTTPResult) {
	r := ws.runs[p]
	if r == nil {
		return
	}
	if res.Served {
		r.reached++
	}
	if method != "POST" || len(r.posts) == 0 {
		return
	}
	o := r.posts[len(r.posts)-1]
	o.seen, o.served, o.code = true, res.Served, res.SCode
	nd := ws.f.nd
	if res.Served && res.SCode == 200 && nd.up && nd.inc == r.inc && o.t != nil {
		nd.known[o.id] = ws.nt.w.Now()
		ws.nt.accepted = append(ws.nt.accepted, &sub{t: o.t, id: o.id, nd: nd, inc: nd.inc, at: ws.nt.w.Now(), ok: true, valid: true})
		ws.nt.x.Probe("wallet-payment-accepted")
	}
}

// post judges a transaction at the moment the wallet submits it.
func (r *wrun) post(body []byte) {
	ws := r.u.ws
	x := ws.nt.x
	o := &wpost{at: ws.nt.w.Now()}
	r.posts = append(r.posts, o)
	if r.name != "send" && r.name != "consolidate" {
		x.Fail("C21", "unasked-payment", "%s: %v submitted a transaction", r.u.h.Name, r.args)
		return
	}
	if !r.yes {
		x.Fail("C21", "unconfirmed-payment", "%s: %v submitted a transaction without the user's consent", r.u.h.Name, r.args)
	}
	if len(r.posts) > 1 {
		x.Fail("C21", "submitted-twice", "%s: %v submitted %d transactions", r.u.h.Name, r.args, len(r.posts))
	}
	var t ref.Tx
	if err := json.Unmarshal(body, &t); err != nil {
		x.Fail("C21", "bad-submission", "%s: %v submitted %q: %v", r.u.h.Name, r.args, clip(string(body), 200), err)
		return
	}
	o.t, o.id = &t, ws.nt.S.AddTx(&t)
	ws.spent[o.id] = true
	r.judgeTx(o)
}

// dests sums what a send was told to pay.
func (r *wrun) dests() (map[ref.H]*big.Int, *big.Int) {
	m := map[ref.H]*big.Int{}
	tot := new(big.Int)
	for _, a := range r.args[1:] {
		h, v, ok := strings.Cut(a, ":")
		k, ok2 := ref.ParseH(h)
		n, err := strconv.ParseUint(v, 10, 64)
		if !ok || !ok2 || err != nil {
			return nil, nil
		}
		if m[k] == nil {
			m[k] = new(big.Int)
		}
		m[k].Add(m[k], new(big.Int).SetUint64(n))
		tot.Add(tot, new(big.Int).SetUint64(n))
	}
	return m, tot
}

func (r *wrun) judgeTx(o *wpost) {
	nt := r.u.ws.nt
	x := nt.x
	nd := r.u.ws.f.nd
	t := o.t
	who := fmt.Sprintf("%s: %v", r.u.h.Name, clip(fmt.Sprint(r.args), 300))
	x.Checked(1)
	x.Probe("wallet-payment-judged")
	r.wf.load()
	own := r.wf.have
	in, out := new(big.Int), new(big.Int)
	paid := map[ref.H]*big.Int{}
	for _, i := range t.Inputs {
		in.Add(in, new(big.Int).SetUint64(i.Utxo.Value))
	}
	for _, i := range t.Outputs {
		v := new(big.Int).SetUint64(i.Value)
		out.Add(out, v)
		if paid[i.Pkh] == nil {
			paid[i.Pkh] = new(big.Int)
		}
		paid[i.Pkh].Add(paid[i.Pkh], v)
	}
	fee := new(big.Int).Sub(in, out)
	if r.name == "send" {
		want, _ := r.dests()
		if want == nil {
			x.Fail("C21", "paid-nonsense", "%s: submitted a transaction", who)
			return
		}
		for _, k := range sortedH(want) {
			got := paid[k]
			if got == nil {
				got = new(big.Int)
			}
			if c := got.Cmp(want[k]); c < 0 || c > 0 && !own[k] {
				x.Fail("C21", "wrong-amount", "%s: pays %v to %s", who, got, k.Short())
			}
		}
		for _, k := range sortedH(paid) {
			if want[k] == nil && !own[k] {
				x.Fail("C21", "paid-a-stranger", "%s: pays %v to %s", who, paid[k], k.Short())
			}
		}
	} else {
		for _, k := range sortedH(paid) {
			if !own[k] {
				x.Fail("C21", "consolidated-away", "%s: pays %v to %s, which is not the wallet's", who, paid[k], k.Short())
			}
		}
	}
	size := t.VSize()
	lo := new(big.Int).SetUint64(size)
	hi := new(big.Int).SetUint64(size + 8*uint64(len(t.Inputs)) + 2)
	lo.Sub(lo, big.NewInt(2))
	if fee.Cmp(lo) < 0 || fee.Cmp(hi) > 0 {
		x.Fail("C21", "wrong-fee", "%s: leaves %v as fee for %d bytes", who, fee, size)
	}
	// the shown numbers
	for _, l := range r.lines {
		w := strings.Fields(ansi.ReplaceAllString(l, ""))
		if len(w) < 2 {
			continue
		}
		n, ok := new(big.Int).SetString(w[len(w)-1], 10)
		switch {
		case w[0] == "fees:":
			if n, ok = new(big.Int).SetString(w[1], 10); ok && n.Cmp(fee) != 0 {
				x.Fail("C21", "wrong-fee-shown", "%s: shows fee %v and pays %v", who, n, fee)
			}
		case strings.HasPrefix(l, "total debit:") && ok && r.name == "send":
			_, tot := r.dests()
			if n.Cmp(new(big.Int).Add(tot, fee)) != 0 {
				x.Fail("C21", "wrong-debit-shown", "%s: shows debit %v, pays %v and fee %v", who, n, tot, fee)
			}
		case w[0] == "outputs:" && ok && r.name == "send":
			if _, tot := r.dests(); n.Cmp(tot) != 0 {
				x.Fail("C21", "wrong-debit-shown", "%s: shows outputs of %v, was told %v", who, n, tot)
			}
		}
	}
	if !nd.judged(r.inc) {
		return
	}
	if bad := nt.S.CheckTx(t); bad != "" {
		x.Fail("C21", "invalid-payment", "%s: submits a transaction that breaks %s", who, bad)
		return
	}
	why := ""
	ws := nd.window(r.start, nt.w.Now())
	for _, i := range ws {
		why = ""
		st := nt.S.StateAt(i)
		for _, n := range t.Inputs {
			p, ok := st.Utxos[n.Utxo]
			switch {
			case !ok:
				why = fmt.Sprintf("%s[%d] is not unspent", n.Utxo.TxId.Short(), n.Utxo.Ind)
			case !own[p]:
				why = fmt.Sprintf("%s[%d] is not the wallet's", n.Utxo.TxId.Short(), n.Utxo.Ind)
			}
			for _, id := range sortedH(r.pend0) {
				if _, done := st.Incl[id]; done || !live(nt.S.Txs[id], st) {
					continue
				}
				for _, m := range nt.S.Txs[id].Inputs {
					if m.Utxo == n.Utxo {
						why = fmt.Sprintf("%s[%d] is used by pending %s", n.Utxo.TxId.Short(), n.Utxo.Ind, id.Short())
					}
				}
			}
		}
		if t.MinBlock > i.Height+1 {
			why = fmt.Sprintf("it is for height %d and later, the node is at %d", t.MinBlock, i.Height)
		}
		if why == "" {
			return
		}
	}
	x.Fail("C21", "unspendable-payment", "%s: %s", who, why)
}

// live tells whether all of a transaction's inputs are unspent.
func live(t *ref.Tx, st *ref.State) bool {
	for _, in := range t.Inputs {
		if _, ok := st.Utxos[in.Utxo]; !ok {
			return false
		}
	}
	return true
}

// run performs one command. net 1 is the network the node is not on.
func (u *user) run(args []string, net int, r0 *simrt.RNG, fk int, confirm func(r *wrun)) *wrun {
	ws := u.ws
	nt := ws.nt
	w := nt.w
	nd := ws.f.nd
	dev := nd.prod == (net == 1)
	wf := u.files[0]
	full := []string{"bcwallet"}
	if dev {
		full = append(full, "dev")
	} else {
		wf = u.files[1]
	}
	full = append(full, args...)
	wf.load()
	u.cmds++
	r := &wrun{u: u, wf: wf, name: args[0], args: args, start: w.Now(), inc: nd.inc, faulty: fk != 0, faults: map[int]simrt.HTTPFault{}, nodekill: map[int]int64{}, keys0: append([]ref.H{}, wf.list...)}
	r.pend0 = nd.pendingSince(nd.inc, w.Now())
	d := u.h.Disk
	eof := false
	switch fk {
	case 3:
		d.FailWrite, d.FailErr = []int{20, 50, 100}[r0.N(3)], []syscall.Errno{syscall.EIO, syscall.ENOSPC}[r0.N(2)]
	case 4:
		w.Fault("disk-full")
		d.Free = int64(r0.N(1 << (1 + r0.N(12))))
	case 5:
		d.FailRead, d.FailErr = []int{20, 100}[r0.N(2)], syscall.EIO
	case 6:
		if r0.N(2) == 0 {
			d.FailWrite, d.FailRead, d.FailErr = 30, 30, syscall.EIO
		} else {
			w.Fault("slow-disk-window")
			d.SlowPM = 500
		}
	case 7, 8, 9:
		for k := 0; k < 1+r0.N(2); k++ {
			f := simrt.HTTPFault{}
			at := r0.N(5)
			if r0.N(2) == 0 {
				// the last request is the one that matters
				at = -1
				if r.name != "send" && r.name != "consolidate" {
					at = 1
				}
			}
			switch r0.N(7) {
			case 0:
				f.LoseRequest = true
			case 1:
				f.LoseResponse = true
			case 2:
				f.Refuse = true
			case 3, 6:
				f.Code = []int{500, 500, 502, 502, 503, 503, 504, 404, 400, 400, 408, 409, 422, 429, 301, 202, 204, 599}[r0.N(18)]
			case 4:
				f.Code, f.After = []int{500, 502, 504}[r0.N(3)], true
			case 5:
				f.Cut = 1 + r0.N(100)
			}
			r.faults[at] = f
		}
	case 10:
		r.nodekill[r0.N(6)] = int64(r0.N(3000))
	case 11:
		w.Cut(u.h, nd.h)
		heal := time.Duration(1+r0.N(200)) * time.Second
		nt.task("heal", func() { simrt.Sleep(heal); w.Heal(u.h, nd.h) })
	case 12:
		eof = true
	}
	p := w.Start(u.h, fmt.Sprintf("%s.%d", u.h.Name, u.cmds), full, map[string]string{"HOME": "/home/user"}, main_bcwallet.Main__)
	p.KeepOut = 4000
	r.p = p
	ws.runs[p] = r
	p.OnLine = r.onLine
	switch fk {
	case 1:
		p.KillAtDisk = 1 + int64(r0.N(14))
		p.KillDiskFrac = []int{0, 0, 1, 30, 70, 99, 100}[r0.N(7)]
	case 2:
		p.KillAtY(1 + int64(r0.N(1<<(4+r0.N(11)))))
	}
	end := w.Now() + int64(30*time.Minute)
	asked := int64(0)
	for !p.Dead && w.Now() < end {
		if p.In.Waiting() {
			if eof {
				p.In.CloseWrite()
			} else if confirm != nil && !r.answered && !p.Dead {
				asked++
				confirm(r)
			} else if r.answered {
				p.In.CloseWrite()
			} else {
				p.In.CloseWrite()
			}
		}
		p.Wait(100 * time.Millisecond)
	}
	if !p.Dead {
		if nd.h.Slow < 2 && !nt.faulty {
			nt.x.Fail("C21 C20", "wallet-hangs", "%s: %v has not ended after 30 minutes", u.h.Name, args)
		}
		p.Kill()
	}
	d.FailWrite, d.FailRead, d.Free, d.SlowPM = 0, 0, -1, 0
	if s := p.Partial(); s != "" {
		r.onLine(s)
	}
	if asked > 0 {
		nt.x.Probe("wallet-asked")
	}
	if nd.inc != r.inc || !nd.up || nt.w.Now()-r.start > int64(20*time.Minute) {
		r.faulty = true
	}
	wf.check("command " + args[0])
	if p.Code != 0 && p.Code != -9 {
		nt.x.Probe("wallet-crash")
		if !r.faulty && !(r.name == "import" && !r.goodImport()) {
			nt.x.Fail("C20 C21", "wallet-crash:"+site(p.Stack), "%s: %v stopped with %q at %s", u.h.Name, args, p.Reason, p.Stack)
		}
	}
	r.judgeEnd()
	return r
}

func (r *wrun) goodImport() bool {
	if len(r.args) < 2 {
		return false
	}
	b, ok := r.u.h.Disk.Peek(r.args[1])
	if !ok {
		return false
	}
	_, bad := parseWallet(b)
	return bad == ""
}

// onLine follows what the wallet prints.
func (r *wrun) onLine(raw string) {
	nt := r.u.ws.nt
	nt.w.Logf("%s| %s", r.p.Name, clip(raw, 120))
	l := strings.TrimSpace(ansi.ReplaceAllString(raw, ""))
	r.lines = append(r.lines, l)
	id, isHash := ref.ParseH(l)
	isHash = isHash && len(l) == 64
	switch r.name {
	case "generate":
		if isHash {
			nt.x.Probe("address-printed")
			r.wf.confirm(id, "printed by generate")
		}
	case "import":
		if l == "success" && len(r.args) > 1 {
			if b, ok := r.u.h.Disk.Peek(r.args[1]); ok {
				list, bad := parseWallet(b)
				if bad == "" {
					nt.x.Probe("import-confirmed")
					for _, k := range list {
						r.wf.confirm(k, "reported as imported")
					}
				}
			}
		}
	case "send", "consolidate":
		ok := false
		if len(r.posts) > 0 {
			o := r.posts[len(r.posts)-1]
			ok = o.served && o.code == 200 && (!isHash || o.id == id)
		}
		if isHash && !ok {
			nt.x.Fail("C21", "printed-unaccepted", "%s: %v printed %s, which the node did not accept", r.u.h.Name, r.args, l)
		}
		if l == "success" && !ok {
			nt.x.Fail("C21", "success-unaccepted", "%s: %v reported success, the node accepted nothing", r.u.h.Name, r.args)
		}
		if isHash && ok {
			nt.x.Probe("payment-printed")
		}
	}
}

func (r *wrun) said(s string) bool {
	for _, l := range r.lines {
		if strings.Contains(l, s) {
			return true
		}
	}
	return false
}

// judgeEnd judges a command after its end.
func (r *wrun) judgeEnd() {
	nt := r.u.ws.nt
	x := nt.x
	nd := r.u.ws.f.nd
	killed := r.p.Code == -9
	who := fmt.Sprintf("%s: %s", r.u.h.Name, clip(fmt.Sprint(r.args), 300))
	// no command drops keys
	r.wf.load()
	for _, k := range r.keys0 {
		if !r.wf.have[k] && r.wf.bad == "" {
			x.Fail("C20", "key-dropped", "%s: key %s was in the wallet before and is not after", who, k.Short())
		}
	}
	if r.name == "generate" && !r.faulty && !killed && (len(r.args) < 2 || r.args[1] != "help") {
		n := 0
		for _, l := range r.lines {
			if _, ok := ref.ParseH(l); ok && len(l) == 64 {
				n++
			}
		}
		x.Checked(1)
		if n != 1 || !r.said("success") {
			x.Fail("C20", "generate-failed", "%s printed %q", who, r.lines)
		}
	}
	if r.name == "import" && len(r.args) == 2 && !r.faulty && !killed && r.goodImport() && !r.said("success") {
		x.Fail("C20", "import-failed", "%s printed %q", who, r.lines)
	}
	if r.name != "send" && r.name != "consolidate" {
		return
	}
	// every end is reported
	if !killed && r.p.Code == 0 && len(r.lines) == 0 {
		x.Fail("C21", "silent-end", "%s ended without a word", who)
	}
	if len(r.posts) > 0 {
		o := r.posts[len(r.posts)-1]
		if o.seen && o.served && o.code == 200 && !r.faulty && !killed && !r.said("success") {
			x.Fail("C21", "acceptance-unreported", "%s: the node accepted it, the wallet printed %q", who, r.lines)
		}
	}
	if r.faulty || killed || !nd.judged(r.inc) || nd.dirty || r.n == 0 || r.reached != r.n {
		return
	}
	// could it be paid?
	heads := nd.window(r.start-int64(3*time.Second), nt.w.Now())
	if len(heads) != 1 || r.moved || r.start < nd.readyAt+int64(2*time.Second) {
		return
	}
	st := nt.S.StateAt(heads[0])
	used := nt.inputsOfAll()
	var vals []uint64
	for _, u := range sortedU(st.Utxos) {
		if !r.wf.have[st.Utxos[u]] {
			continue
		}
		free := true
		for _, id := range used[u] {
			if len(r.posts) > 0 && r.posts[0].id == id {
				continue
			}
			if _, done := st.Incl[id]; !done {
				free = false
			}
		}
		if free {
			vals = append(vals, u.Value)
		}
	}
	sort.Slice(vals, func(a, b int) bool { return vals[a] > vals[b] })
	can := false
	if r.name == "send" {
		want, tot := r.dests()
		if want == nil || len(want) == 0 || tot.BitLen() > 64 {
			return
		}
		sum := new(big.Int)
		for k, v := range vals {
			sum.Add(sum, new(big.Int).SetUint64(v))
			size := uint64(72 + 40*(len(want)+1) + (k+1)*(48+91+72))
			if size > nt.P.MaxTx {
				break
			}
			need := new(big.Int).Add(tot, new(big.Int).SetUint64(size))
			if sum.Cmp(need) >= 0 {
				can = true
				break
			}
		}
	} else if len(vals) >= 2 {
		size := uint64(72 + 40)
		sum := new(big.Int)
		k := 0
		for _, v := range vals {
			if size+211 > nt.P.MaxTx {
				break
			}
			size += 211
			sum.Add(sum, new(big.Int).SetUint64(v))
			k++
		}
		can = k >= 2 && sum.Cmp(new(big.Int).SetUint64(size)) > 0
	}
	x.Checked(1)
	if can {
		x.Probe("wallet-could-pay")
	}
	if can && !r.answered {
		x.Fail("C21", "payment-refused", "%s: the wallet has %d free outputs and the node answered, it says %q", who, len(vals), r.lines)
	}
	if can && r.yes && !r.said("success") {
		x.Fail("C21", "payment-failed", "%s: confirmed and not done, it says %q", who, r.lines)
	}
}

// op: user, command, seed, fault, net.
func (ws *wallets) op(op hx.Op) {
	u := ws.users[int(op.Arg(0))%len(ws.users)]
	if len(u.q) > 8 {
		return
	}
	u.q = append(u.q, func() { u.command(int(op.Arg(1)), simrt.NewRNG(uint64(op.Arg(2))), int(op.Arg(3)), int(op.Arg(4))) })
}

// mine is the wallet file for the node's network.
func (u *user) mine() *wfile {
	if u.ws.f.nd.prod {
		return u.files[1]
	}
	return u.files[0]
}

// free estimates what the wallet can spend.
func (u *user) free() (vals []uint64, tot uint64) {
	nt := u.ws.nt
	st := nt.S.StateAt(u.ws.f.nd.head())
	f := u.mine()
	f.load()
	used := nt.inputsOfAll()
	for _, o := range sortedU(st.Utxos) {
		if f.have[st.Utxos[o]] && len(used[o]) == 0 {
			vals = append(vals, o.Value)
			tot += o.Value
		}
	}
	return
}

// somePkh picks an address: a stranger's, one's own, another user's.
func (u *user) somePkh(r *simrt.RNG) ref.H {
	ws := u.ws
	f := u.mine()
	switch r.N(6) {
	case 0:
		if len(f.list) > 0 {
			return f.list[r.N(len(f.list))]
		}
	case 1:
		o := ws.users[r.N(len(ws.users))].mine()
		if len(o.list) > 0 {
			return o.list[r.N(len(o.list))]
		}
	case 2:
		return ref.HU(r.U64())
	}
	return ws.nt.keys[r.N(len(ws.nt.keys))].Pkh
}

func (u *user) command(kind int, r *simrt.RNG, fk, net int) {
	nt := u.ws.nt
	nd := u.ws.f.nd
	u.files[0].load()
	u.files[1].load()
	switch kind {
	case wGenerate:
		args := []string{"generate"}
		if r.N(6) == 0 {
			args = append(args, fmt.Sprintf("%x", r.N(16)))
		}
		u.run(args, net, r, fk, nil)
	case wImport:
		u.imports(r, fk, net)
	case wConnect:
		a := nt.url(nd, "")
		switch r.N(8) {
		case 0:
			a = "http://10.9.9.9:8080"
		case 1:
			a += "/"
		case 2:
			a = []string{"nonsense", "http://", ":", "http://u0:8080"}[r.N(4)]
		}
		u.run([]string{"connect", a}, net, r, fk, nil)
	case wSend:
		u.send(r, fk, net)
	case wConsolidate:
		u.run([]string{"consolidate"}, net, r, fk, u.answer(r))
	case wOther:
		args := [][]string{{"version"}, {"get-config-path"}, {"help"}, {"generate", "help"}, {"bogus"}, {"send"}, {"import"}, {"balance"}}[r.N(8)]
		u.run(args, net, r, fk, nil)
	default:
		u.ask(kind, r, fk, net)
	}
}

// answer is how the user reacts to a question.
func (u *user) answer(r *simrt.RNG) func(w *wrun) {
	how := r.N(16)
	wait := int64(0)
	if r.N(4) == 0 {
		wait = int64(r.N(40000))
	}
	other := r.N(4) == 0
	seed := r.U64()
	return func(w *wrun) {
		nt := u.ws.nt
		nt.x.Probe("wallet-prompt")
		if len(w.posts) > 0 {
			return
		}
		if wait > 0 {
			// meanwhile things go on
			if other {
				w.moved = true
				u.ws.fund(hx.Op{A: []int64{int64(seed >> 1), int64(seed % 8)}})
			}
			simrt.Sleep(time.Duration(wait) * time.Millisecond)
			w.moved = true
		}
		w.answered = true
		if w.p.Dead {
			return
		}
		switch how {
		case 0:
			w.p.In.Feed([]byte("n\n"))
		case 1:
			w.p.In.Feed([]byte("\n"))
		case 2:
			w.p.In.Feed([]byte("no\n"))
		case 3:
			w.p.In.CloseWrite()
			w.faulty = true
		case 4:
			w.p.In.Feed([]byte("x\ny\n"))
		case 5:
			w.yes = true
			w.p.In.Feed([]byte("Y\n"))
		default:
			w.yes = true
			w.p.In.Feed([]byte("y\n"))
		}
	}
}

func (u *user) send(r *simrt.RNG, fk, net int) {
	_, tot := u.free()
	args := []string{"send"}
	n := 1 + r.N(3)
	if r.N(8) == 0 {
		n = 1 + r.N(12)
		if r.N(4) == 0 {
			n = 1 + r.N(40)
		}
	}
	var rep []ref.H
	for k := 0; k < n; k++ {
		p := u.somePkh(r)
		if len(rep) > 0 && r.N(4) == 0 {
			p = rep[r.N(len(rep))]
		}
		rep = append(rep, p)
		v := uint64(0)
		switch r.N(12) {
		case 0:
			v = tot
		case 1:
			v = tot - r.Intn(tot/2+1)
		case 2:
			v = tot - 323 - r.Intn(8) + r.Intn(4) // next to the whole balance less a fee
		case 3:
			v = []uint64{0, 1, ^uint64(0), 1 << 63, 1<<63 + 5, ^uint64(0) - 300}[r.N(6)]
		case 4:
			v = tot + r.Intn(1000)
		default:
			v = r.Intn(tot/uint64(n)+2) >> uint(r.N(6))
		}
		pad := ""
		if r.N(10) == 0 {
			pad = "000"[:1+r.N(3)]
		}
		args = append(args, fmt.Sprintf("%s:%s%d", p, pad, v))
	}
	if r.N(30) == 0 {
		args = append(args, []string{"x", "zz:5", rep[0].String(), rep[0].String() + ":-3", rep[0].String() + ":1:2", rep[0].String() + ":99999999999999999999", rep[0].String() + ":0x20", rep[0].String() + ":1_0", rep[0].String() + ":1e2", rep[0].String() + ":5.0"}[r.N(10)])
	}
	u.run(args, net, r, fk, u.answer(r))
}

// imports runs an import of some file.
func (u *user) imports(r *simrt.RNG, fk, net int) {
	nt := u.ws.nt
	d := u.h.Disk
	path := fmt.Sprintf("/home/user/other%d.json", r.N(3))
	other := u.files[r.N(2)]
	key := func(k *ref.Key) fileKey {
		b, err := x509.MarshalECPrivateKey(k.Priv)
		if err != nil {
			panic(err)
		}
		return fileKey{k.Pkh, b}
	}
	c := fileCfg{Dev: r.N(2) == 0, NodeAddr: []string{"", "http://10.9.9.9:1"}[r.N(2)], Keys: []fileKey{}}
	for k := 0; k < r.N(4); k++ {
		c.Keys = append(c.Keys, key(nt.keys[r.N(len(nt.keys))]))
	}
	for k := 0; k < r.N(3); k++ {
		c.Keys = append(c.Keys, key(ref.NewKey(ref.HU(r.U64()))))
	}
	b, _ := json.MarshalIndent(c, "", "    ")
	switch r.N(12) {
	case 0, 1: // somebody's wallet
		o := u.ws.users[r.N(len(u.ws.users))]
		if ob, ok := o.h.Disk.Peek(o.files[r.N(2)].path); ok {
			b = ob
		}
	case 2: // the other network's, in place
		if _, ok := d.Peek(other.path); ok {
			path, b = other.path, nil
		}
	case 3: // keys twice
		c.Keys = append(c.Keys, c.Keys...)
		b, _ = json.Marshal(c)
	case 4:
		b = b[:r.N(len(b))]
	case 5:
		if len(c.Keys) > 0 {
			c.Keys[0].Pkh = ref.HU(r.U64())
			b, _ = json.Marshal(c)
		}
	case 6:
		path, b = "/home/user/missing.json", nil
	case 7:
		if len(c.Keys) > 0 {
			c.Keys[0].Priv = c.Keys[0].Priv[:len(c.Keys[0].Priv)-1]
			b, _ = json.Marshal(c)
		}
	}
	if b != nil {
		d.Put(path, b)
	}
	u.run([]string{"import", path}, net, r, fk, nil)
}

// ask runs a command that reports and judges the report.
func (u *user) ask(kind int, r *simrt.RNG, fk, net int) {
	nt := u.ws.nt
	nd := u.ws.f.nd
	var args []string
	var ids []ref.H
	name := ""
	head := nd.head()
	switch kind {
	case wBalance, wUtxos:
		name = []string{"balance", "utxos"}[kind-wBalance]
		if r.N(3) == 0 {
			n := 1 + r.N(3)
			if r.N(3) == 0 {
				n = 1 + r.N(40)
			}
			for k := 0; k < n; k++ {
				ids = append(ids, u.somePkh(r))
			}
		}
	case wConfirms, wBlock:
		name = []string{"tx-confirms", "tx-block"}[kind-wConfirms]
		ids = nt.pickTxs(r, nd)
		if len(ids) == 0 {
			ids = []ref.H{ref.HU(r.U64())}
		}
	case wGet:
		if head.Height == 0 {
			return
		}
		i := head.Anc(1 + r.Intn(head.Height))
		name = []string{"get-tx", "get-merkle", "get-block"}[r.N(3)]
		for n := 1 + r.N(4); len(ids) < n; {
			switch name {
			case "get-tx":
				ids = append(ids, i.Txs[r.N(len(i.Txs))])
			case "get-merkle":
				ms := nt.S.TreeMks(i.B.Merkle)
				ids = append(ids, ms[r.N(len(ms))])
			default:
				ids = append(ids, i.Id)
			}
			if r.N(3) == 0 {
				ids = append(ids, ref.HU(r.U64()))
			}
			i = head.Anc(1 + r.Intn(head.Height))
		}
		if r.N(12) == 0 {
			ids = []ref.H{ref.HU(r.U64()), ref.HU(r.U64())}
		}
	case wRich:
		name = "rich-list"
		n := 10
		if r.N(2) == 0 {
			n = r.N(12)
			args = []string{fmt.Sprint(n)}
		}
		w := u.run(append([]string{name}, args...), net, r, fk, nil)
		if !w.clean(net) {
			return
		}
		got := map[ref.H]uint64{}
		for _, l := range w.lines {
			w.entry(l, got)
		}
		if len(got) == 0 && w.said("no publicKeyHashes have balance") {
			return
		}
		u.judge(w, showHU(got), func(i *ref.Info) string {
			b := nt.S.StateAt(i).Balances()
			want := n
			if len(b) < want {
				want = len(b)
			}
			min := ^uint64(0)
			for k, v := range got {
				if b[k] != v {
					return "another balance of " + k.Short()
				}
				if v < min {
					min = v
				}
			}
			if len(got) != want {
				return fmt.Sprintf("%d entries", want)
			}
			for k, v := range b {
				if _, ok := got[k]; !ok && v > min && want > 0 {
					return "an entry for " + k.Short()
				}
			}
			return showHU(got)
		})
		return
	}
	args = []string{name}
	for _, k := range ids {
		args = append(args, k.String())
	}
	w := u.run(args, net, r, fk, nil)
	if len(ids) == 0 {
		ids = w.keys0
	}
	if !w.clean(net) {
		return
	}
	switch kind {
	case wBalance:
		if len(ids) == 0 {
			return
		}
		got := map[ref.H]uint64{}
		total, hasTotal := uint64(0), false
		for _, l := range w.lines {
			if f := strings.Fields(l); len(f) == 2 && f[0] == "total" {
				total, _ = strconv.ParseUint(f[1], 10, 64)
				hasTotal = true
			} else {
				w.entry(l, got)
			}
		}
		sum := uint64(0)
		for _, v := range got {
			sum += v
		}
		if !hasTotal || sum != total {
			nt.x.Fail("C24", "wrong-total", "%s: %v reports total %d, its entries add up to %d", u.h.Name, w.args, total, sum)
		}
		u.judge(w, showHU(got), func(i *ref.Info) string {
			b := nt.S.StateAt(i).Balances()
			m := map[ref.H]uint64{}
			for _, k := range ids {
				m[k] = b[k]
			}
			return showHU(m)
		})
	case wUtxos:
		if len(ids) == 0 {
			return
		}
		var got []string
		for _, l := range w.lines {
			if l != "success" && l != "" {
				got = append(got, strings.Join(strings.Fields(l), " "))
			}
		}
		sort.Strings(got)
		u.judge(w, strings.Join(got, ", "), func(i *ref.Info) string {
			in := map[ref.H]bool{}
			for _, k := range ids {
				in[k] = true
			}
			var l []string
			for o, p := range nt.S.StateAt(i).Utxos {
				if in[p] {
					l = append(l, fmt.Sprintf("%s[%d] %d", o.TxId, o.Ind, o.Value))
				}
			}
			sort.Strings(l)
			return strings.Join(l, ", ")
		})
	case wConfirms:
		got := map[ref.H]uint64{}
		not := map[ref.H]bool{}
		for _, l := range w.lines {
			f := strings.Fields(l)
			if len(f) == 3 && f[1] == "not" {
				if h, ok := ref.ParseH(f[0]); ok {
					not[h] = true
				}
				continue
			}
			w.entry(l, got)
		}
		u.judge(w, showHU(got), func(i *ref.Info) string {
			st := nt.S.StateAt(i)
			m := map[ref.H]uint64{}
			for _, id := range ids {
				if b, ok := st.Incl[id]; ok {
					m[id] = i.Height - nt.S.Info(b).Height + 1
				} else if _, ok := got[id]; ok && nt.S.Txs[id] != nil && !not[id] {
					m[id] = 0
				} else if !not[id] {
					return id.Short() + " as known or unknown"
				}
			}
			return showHU(m)
		})
	case wBlock:
		got := map[ref.H]ref.H{}
		not := map[ref.H]bool{}
		var last ref.H
		for _, l := range w.lines {
			f := strings.Fields(l)
			if len(f) == 0 {
				continue
			}
			h, ok := ref.ParseH(f[0])
			switch {
			case ok && len(f) == 3 && f[1] == "not":
				not[h] = true
			case ok && len(f) == 2:
				if b, ok := ref.ParseH(f[1]); ok {
					got[h] = b
				}
			case ok && last.Zero():
				last = h
			case ok:
				got[last] = h
				last = ref.H{}
			}
		}
		u.judge(w, showHH(got), func(i *ref.Info) string {
			st := nt.S.StateAt(i)
			m := map[ref.H]ref.H{}
			for _, id := range ids {
				if b, ok := st.Incl[id]; ok {
					m[id] = b
				} else if !not[id] {
					return id.Short() + " as not included"
				}
			}
			return showHH(m)
		})
	case wGet:
		u.judgeGet(w, name, ids, head)
	}
}

// judgeGet judges a report of stored items against what was made.
func (u *user) judgeGet(w *wrun, name string, ids []ref.H, head *ref.Info) {
	nt := u.ws.nt
	fail := func(f string, a ...any) {
		nt.x.Fail("C24", "wrong-report:"+name, "%s: %v %s: %q", u.h.Name, clip(fmt.Sprint(w.args), 300), fmt.Sprintf(f, a...), clip(strings.Join(w.lines, "|"), 600))
	}
	nt.x.Checked(1)
	got, not := map[ref.H]bool{}, map[ref.H]bool{}
	for n := 0; n < len(w.lines); n++ {
		l := w.lines[n]
		if f := strings.Fields(l); len(f) == 3 && f[1] == "not" {
			if h, ok := ref.ParseH(f[0]); ok {
				if not[h] && count(ids, h) < 2 {
					fail("marks %s twice", h.Short())
				}
				not[h] = true
			}
			continue
		}
		h, ok := ref.ParseH(strings.TrimSuffix(l, ":"))
		if !ok || !strings.HasSuffix(l, ":") {
			continue
		}
		if got[h] {
			fail("lists %s twice", h.Short())
		}
		got[h] = true
		d := json.NewDecoder(strings.NewReader(strings.Join(w.lines[n+1:], "\n")))
		switch name {
		case "get-tx":
			var t ref.Tx
			ok = d.Decode(&t) == nil && nt.S.Txs[h] != nil && t.Same(nt.S.Txs[h])
		case "get-merkle":
			var m ref.Mk
			o, had := nt.S.Mks[h]
			ok = d.Decode(&m) == nil && had && m == o
		default:
			var b ref.Block
			ok = d.Decode(&b) == nil && (nt.poisoned[h] || nt.S.Info(h) != nil && b == *nt.S.Info(h).B)
		}
		if !ok {
			fail("shows another %s", h.Short())
		}
	}
	for h := range got {
		if count(ids, h) == 0 {
			fail("lists %s", h.Short())
		}
	}
	for _, h := range ids {
		// what the node's chain held before is there to stay
		has := false
		switch name {
		case "get-tx":
			_, has = nt.S.StateAt(head).Incl[h]
		case "get-merkle":
			_, has = nt.S.Mks[h]
		default:
			has = nt.S.Info(h) != nil
		}
		switch {
		case got[h] && not[h]:
			fail("has and has not %s", h.Short())
		case has && !got[h]:
			fail("misses %s", h.Short())
		case !has && !got[h] && !not[h]:
			fail("says nothing of %s", h.Short())
		}
	}
}

func count(l []ref.H, h ref.H) (n int) {
	for _, k := range l {
		if k == h {
			n++
		}
	}
	return
}

// clean tells whether a report can be judged.
func (w *wrun) clean(net int) bool {
	nt := w.u.ws.nt
	nd := w.u.ws.f.nd
	if net == 1 || w.p.Code == -9 || w.p.Code != 0 {
		return false
	}
	if !w.said("success") {
		// a failure: nothing may look like an answer
		return false
	}
	if w.start < nd.readyAt || !nd.judged(w.inc) || nd.dirty {
		return false
	}
	nt.x.Probe("wallet-report")
	return true
}

// entry reads a line of an address or identifier and a number.
func (w *wrun) entry(l string, m map[ref.H]uint64) {
	f := strings.Fields(l)
	if len(f) != 2 {
		return
	}
	h, ok := ref.ParseH(f[0])
	n, err := strconv.ParseUint(f[1], 10, 64)
	if !ok || err != nil {
		return
	}
	if _, dup := m[h]; dup {
		w.u.ws.nt.x.Fail("C24", "reported-twice", "%s: %v lists %s twice", w.u.h.Name, w.args, h.Short())
	}
	m[h] = n
}

// judge accepts a report that holds at one state the node had meanwhile.
func (u *user) judge(w *wrun, got string, model func(i *ref.Info) string) {
	nt := u.ws.nt
	nt.x.Checked(1)
	var wants []string
	for _, i := range u.ws.f.nd.window(w.start, nt.w.Now()) {
		m := model(i)
		if m == got {
			return
		}
		wants = append(wants, m)
	}
	nt.x.Fail("C24", "wrong-report:"+w.name, "%s: %v reported %s, the node's chain implies %s", u.h.Name, clip(fmt.Sprint(w.args), 200), clip(got, 500), clip(strings.Join(wants, " or "), 500))
}

// fund: seed, size: a block that pays wallets and takes in their payments.
func (ws *wallets) fund(op hx.Op) {
	nt := ws.nt
	f := ws.f
	if len(f.vps) == 0 {
		return
	}
	r := simrt.NewRNG(uint64(op.Arg(0)))
	base := f.nd.head()
	for _, i := range f.valid {
		if i.Work.Cmp(base.Work) > 0 && f.nd.timely(i) {
			base = i
		}
	}
	if ref.WorkOf(nt.S.NextTarget(base)).BitLen() > 13 {
		return
	}
	st := nt.S.StateAt(base)
	var pkhs []ref.H
	for _, u := range ws.users {
		m := u.mine()
		m.load()
		pkhs = append(pkhs, m.list...)
	}
	used := map[ref.Utxo]bool{}
	var txs []*ref.Tx
	size := uint64(72 + 40)
	add := func(t *ref.Tx) bool {
		if t.VSize() > nt.P.MaxTx || size+t.VSize() > nt.P.MaxBlock {
			return false
		}
		size += t.VSize()
		for _, in := range t.Inputs {
			used[in.Utxo] = true
		}
		txs = append(txs, t)
		return true
	}
	if r.N(3) > 0 {
	pend:
		for _, s := range nt.accepted {
			if _, done := st.Incl[s.id]; done || !live(s.t, st) || s.t.MinBlock > base.Height+1 || nt.S.CheckTx(s.t) != "" {
				continue
			}
			for _, in := range s.t.Inputs {
				if used[in.Utxo] {
					continue pend
				}
			}
			add(s.t)
		}
	}
	for _, o := range nt.spendable(base) {
		if len(pkhs) == 0 || int64(len(txs)) >= op.Arg(1) {
			break
		}
		if used[o] || r.N(3) == 0 || o.Value < 10 {
			continue
		}
		t := nt.payFrom(r, []ref.Utxo{o}, 1+r.Intn(o.Value/8+1), 1+r.N(8), 0)
		for k := range t.Outputs {
			if r.N(4) > 0 {
				t.Outputs[k].Pkh = pkhs[r.N(len(pkhs))]
			}
		}
		ref.SignTx(t, []*ref.Key{nt.ownerOf(o)})
		if nt.S.Txs[t.Hash()] == nil {
			add(t)
		}
	}
	payee := nt.keys[r.N(len(nt.keys))]
	if len(pkhs) > 0 && r.N(2) == 0 {
		payee = &ref.Key{Pkh: pkhs[r.N(len(pkhs))]}
	}
	i := nt.build(base, blockSpec{txs: txs, shape: r.N(4), r: r, payee: payee, time: nt.okTime(base, nt.spacing(r))})
	if i == nil || i.Bad != "" {
		panic("harness built an invalid block")
	}
	f.valid = append(f.valid, i)
	v := f.vps[0]
	if len(v.q) < 8 {
		v.do(func() { v.offer(i, 3) })
	}
}

// finish checks the wallets at rest.
func (ws *wallets) finish() {
	nt := ws.nt
	nd := ws.f.nd
	r := nt.r
	w := nt.w
	w.HealAll()
	for _, u := range ws.users {
		w.Heal(u.h, nd.h)
	}
	if nt.x.Plan.C("nonode") == 0 {
		nd.restart()
		nt.calm()
		simrt.Sleep(5 * time.Second)
	}
	for _, u := range ws.users {
		u := u
		u.q = append(u.q, func() {
			// every confirmed key is of use
			for net := 0; net < 2; net++ {
				wf := u.files[0]
				if nd.prod == (net == 0) {
					wf = u.files[1]
				}
				wf.check("the end")
				if len(wf.must) == 0 {
					continue
				}
				u.run([]string{"generate"}, net, r, 0, nil)
			}
			if nt.x.Plan.C("nonode") == 0 {
				u.run([]string{"connect", nt.url(nd, "")}, 0, r, 0, nil)
				u.ask(wBalance, simrt.NewRNG(7), 0, 0)
				if _, tot := u.free(); tot > 0 {
					u.run([]string{"send", fmt.Sprintf("%s:%d", nt.keys[0].Pkh, tot/2)}, 0, r, 0, func(w *wrun) {
						w.answered, w.yes = true, true
						w.p.In.Feed([]byte("y\n"))
					})
				}
			}
		})
	}
	for _, u := range ws.users {
		u.drained(900 * time.Second)
		u.stop = true
		w.Join(u.task)
	}
	if nt.x.Plan.C("nonode") == 0 {
		ws.fund(hx.Op{A: []int64{int64(r.U64() >> 1), 2}})
	}
	nt.x.Probe("wallets-finished")
}
