package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/levilutz/basiccoin/verifsim/hx"
	"github.com/levilutz/basiccoin/verifsim/ref"
	"github.com/levilutz/basiccoin/verifsim/simrt"
)

// admin: a node with all combinations of HTTP flags, whose operator and
// strangers ask for its termination while others use its wallet endpoints.

func init() {
	hx.Register(&hx.Scenario{Name: "admin", Gen: genAdmin, Run: runAdmin, Opt: netOptions})
	extraOps["aconf"] = func(nt *Net, op hx.Op) { nt.nodes[0].configure(op) }
	extraOps["areq"] = func(nt *Net, op hx.Op) { nt.adminReq(nt.nodes[0], int(op.Arg(0)), uint64(op.Arg(1))) }
}

// admConf are the HTTP flags of a node.
type admConf struct {
	admin, wallet bool
	pw            string
}

// ending is one request for termination.
type ending struct {
	pw         string
	start, end int64 // end is 0 while it lasts
}

func genAdmin(r *simrt.RNG, p *hx.Plan, thorough bool) {
	drawSim(r, p)
	drawParams(r, p)
	p.Cfg["miner"] = int64(r.N(2))
	t := int64(0)
	k := 1 + r.N(4)
	if thorough {
		k = 1 + r.N(12)
	}
	for ; k > 0; k-- {
		p.Add(t, "aconf", int64(r.N(8)), int64(r.U64()>>1))
		life := int64(2000 + r.N(20000))
		for j := r.N(3); j > 0; j-- { // before it listens
			p.Add(t+1+int64(r.N(700)), "areq", int64(r.N(12)), int64(r.U64()>>1))
		}
		if r.N(3) == 0 {
			p.Add(t+1+int64(r.N(520)), "hiccup", 0, int64(r.U64()>>1), []int64{10, 100, 400}[r.N(3)])
		}
		for j := r.N(16); j > 0; j-- {
			p.Add(t+1000+int64(r.N(int(life))), "areq", int64(4+r.N(8)), int64(r.U64()>>1))
		}
		for j := r.N(8); j > 0; j-- {
			p.Add(t+1000+int64(r.N(int(life))), "query", 0, int64(r.N(10)), int64(r.U64()>>1))
		}
		for j := r.N(3); j > 0; j-- {
			p.Add(t+1000+int64(r.N(int(life))), "pay", 0, int64(r.N(16)), int64(r.U64()>>1))
		}
		for j := r.N(3); j > 0; j-- {
			p.Add(t+1+int64(r.N(int(life))), "hiccup", 0, int64(r.U64()>>1), []int64{1, 10, 100, 400}[r.N(4)])
		}
		t += life
		switch r.N(4) {
		case 0:
			p.Add(t, "kill", 0)
		default: // by who may, several at once
			for j := 1 + r.N(3); j > 0; j-- {
				p.Add(t+int64(r.N(60)), "areq", int64(r.N(2)), int64(r.U64()>>1))
			}
		}
		t += int64(r.N(3000))
	}
}

// configure draws the flags of the next incarnation.
func (nd *Node) configure(op hx.Op) {
	r := simrt.NewRNG(uint64(op.Arg(1)))
	k := int(op.Arg(0))
	c := &admConf{admin: k != 0, wallet: k != 1}
	if k > 2 {
		c.pw = []string{"pw", "p", "Pw", "a b", ref.HU(r.U64()).String(), strings.Repeat("x", 300)}[r.N(6)]
	}
	nd.nextConf = c
	nd.start()
}

func runAdmin(x *hx.Run) {
	nt := newNet(x)
	nt.crashProps = "C25 C13"
	nd := nt.addNode()
	nd.newNet = true
	nd.miners = int(x.Plan.C("miner"))
	nt.runOps(x.Plan.Ops)
	simrt.Sleep(3 * time.Second)
	nt.settle(60 * time.Second)
	if !nd.up {
		nd.nextConf = nil
		nd.conf = nil
		nd.http = true
		nd.restart()
		nt.settle(100 * time.Second)
	}
	nt.finalChecks()
}

// mayEnd tells whether a request that was under way in this incarnation
// carried what it takes to end it.
func (nd *Node) mayEnd() bool {
	if nd.conf == nil || !nd.conf.admin {
		return false
	}
	for _, e := range nd.ends {
		if (e.end == 0 || e.end >= nd.startAt) && (nd.conf.pw == "" || e.pw == nd.conf.pw) {
			return true
		}
	}
	return false
}

// adminReq sends a request: 0 1 by the operator (1 until one gets through),
// 2.. by someone else or not to where it belongs.
func (nt *Net) adminReq(nd *Node, kind int, seed uint64) {
	if nd.inc == 0 || nd.conf == nil {
		return
	}
	r := simrt.NewRNG(seed)
	nt.task("admin-request", func() {
		if nd.conf == nil {
			return
		}
		w := nt.w
		inc, conf := nd.inc, *nd.conf
		meth, path, pw, has := "POST", "/admin/terminate", conf.pw, true
		hdr := map[string][]string{}
		wrong := func() {
			l := []string{"", "x", conf.pw + "x", conf.pw + conf.pw, strings.ToUpper(conf.pw), strings.ToLower(conf.pw), strings.Title(conf.pw), ref.HU(r.U64()).String(), "Bearer " + conf.pw, "*", "0", "true", conf.pw + ",x"}
			if n := len(conf.pw); n > 0 {
				l = append(l, conf.pw[:n-1], conf.pw[1:], conf.pw[:r.N(n)])
			}
			for _, e := range nd.ends {
				l = append(l, e.pw) // what was right once
			}
			pw = l[r.N(len(l))]
			if pw == conf.pw {
				pw += "'"
			}
		}
		switch kind {
		case 0, 1:
		case 2, 3, 4, 5: // not the password
			wrong()
			switch r.N(6) {
			case 0:
				has = false
				pw = ""
			case 1:
				has = false
				pw = ""
				hdr[[]string{"Password", "X-Pw", "Authorization", "Cookie"}[r.N(4)]] = []string{conf.pw}
			case 2:
				path += "?pw=" + strings.ReplaceAll(conf.pw, " ", "%20")
			case 3:
				meth = []string{"GET", "PUT", "HEAD", "DELETE", "PATCH"}[r.N(5)]
			}
		case 6: // another method
			meth = []string{"GET", "PUT", "HEAD", "DELETE", "PATCH", "post", "TERMINATE"}[r.N(7)]
		case 7: // another place
			path = []string{"/admin", "/admin/", "/admin/terminate/", "/admin/terminate/now", "/Admin/Terminate", "/wallet/terminate", "/terminate", "/", "/admin/terminat", "/admin/terminates", "/adminterminate", "/wallet/admin/terminate"}[r.N(12)]
		case 8: // the wallet's, without leave to end it
			path = []string{"/wallet/head/height", "/wallet/balance", "/wallet/utxos", "/wallet/tx", "/wallet/tx/confirms", "/wallet/tx/block", "/wallet/merkle", "/wallet/block", "/wallet/richlist?maxLen=3"}[r.N(9)]
			meth = []string{"GET", "GET", "POST"}[r.N(3)]
		case 9:
			path, meth = "/version", []string{"GET", "POST", "HEAD"}[r.N(3)]
			wrong()
		case 10: // with a body
			wrong()
			has = false
			pw = ""
		case 11: // many at once
			for k := 2 + r.N(6); k > 0; k-- {
				nt.adminReq(nd, 2+r.N(8), r.U64())
			}
			return
		}
		if has {
			hdr["Pw"] = []string{pw}
		}
		var body []byte
		if kind == 10 {
			body = []byte(conf.pw)
		}
		end := path == "/admin/terminate" || strings.HasPrefix(path, "/admin/terminate?")
		var e *ending
		if end && meth == "POST" {
			e = &ending{pw: pw, start: w.Now()}
			if !has {
				e.pw = ""
			}
			nd.ends = append(nd.ends, e)
		}
		right := e != nil && conf.admin && (conf.pw == "" || e.pw == conf.pw)
		call := func() simrt.HTTPResult {
			return w.HTTPCall(nt.client, nil, meth, nt.url(nd, path), "", hdr, body, 120*time.Second, simrt.HTTPFault{})
		}
		res := call()
		if kind == 1 && res.Err != nil && strings.Contains(res.Err.Error(), "refused") { // as soon as it listens
			for k := 0; k < 1500 && nd.up && nd.inc == inc && res.Err != nil && strings.Contains(res.Err.Error(), "refused"); k++ {
				simrt.Sleep(time.Duration(1+r.N(3)) * time.Millisecond)
				res = call()
			}
			nt.x.Probe("admin-asked-early")
		}
		if e != nil {
			e.end = w.Now()
		}
		nt.x.Probe("admin-request")
		if nd.inc != inc {
			return
		}
		if res.Err != nil {
			nt.bounded(nd, inc, res.Start, res, meth+" "+path)
			return
		}
		nt.x.Checked(1)
		ok := res.Code >= 200 && res.Code < 300
		switch {
		case right:
			if !ok {
				nt.x.Fail("C25", "operator-refused", "%s answered %d to its operator's %s %s", nd.name, res.Code, meth, path)
				return
			}
			nt.x.Probe("admin-obeyed")
			for k := 0; k < 6 && nd.up && nd.inc == inc; k++ {
				simrt.Sleep(time.Second)
			}
			if nd.up && nd.inc == inc && nd.h.Slow < 2 {
				nt.x.Fail("C25", "operator-ignored", "%s is still up 6 s after it confirmed its termination", nd.name)
			}
		case end && ok:
			nt.x.Fail("C25", "stranger-obeyed", "%s answered %d to %s %s with password %q, its own is %q, administration enabled: %v", nd.name, res.Code, meth, path, clip(e2pw(hdr), 60), clip(conf.pw, 60), conf.admin)
		case strings.HasPrefix(path, "/admin") && !end && ok:
			nt.x.Fail("C25", "stranger-obeyed", "%s answered %d to %s %s", nd.name, res.Code, meth, path)
		case strings.HasPrefix(path, "/wallet/") && !conf.wallet && ok:
			nt.x.Fail("C25", "wallet-not-enabled", "%s answered %d to %s %s, it was started without --http-wallet", nd.name, res.Code, meth, path)
		case path == "/wallet/head/height" && meth == "GET" && conf.wallet && !ok && !nd.mayEnd():
			nt.x.Fail("C25", "wallet-refused", "%s answered %d to %s %s, it was started with --http-wallet", nd.name, res.Code, meth, path)
		case path == "/version" && meth == "GET" && (!ok || string(res.Body) != "v0.0.0-dev"):
			nt.x.Fail("C25", "version-refused", "%s answered %d %q to GET /version", nd.name, res.Code, clip(string(res.Body), 60))
		}
	})
}

func e2pw(h map[string][]string) string { return fmt.Sprint(h["Pw"]) }
