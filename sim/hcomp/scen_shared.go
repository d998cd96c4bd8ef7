package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/levilutz/basiccoin/pkg/disksyncmap"
	"github.com/levilutz/basiccoin/pkg/syncmap"
	"github.com/levilutz/basiccoin/pkg/syncqueue"
	"github.com/levilutz/basiccoin/verifsim/hx"
	"github.com/levilutz/basiccoin/verifsim/simrt"
)

// shared: the concurrent queue and maps, judged for linearizability.

func init() {
	hx.Register(&hx.Scenario{Name: "queue", Gen: genQueue, Run: runQueue, Opt: compOptions})
	hx.Register(&hx.Scenario{Name: "maps", Gen: genMaps, Run: runMaps, Opt: compOptions})
	hx.Register(&hx.Scenario{Name: "dmap", Gen: genDmap, Run: runDmap, Opt: compOptions})
}

func genQueue(r *simrt.RNG, p *hx.Plan, thorough bool) {
	drawComp(r, p)
	p.Cfg["init"] = int64(r.N(3))
	nt := 2 + r.N(3)
	p.Cfg["tasks"] = int64(nt)
	if r.N(5) == 0 {
		p.Cfg["deep"] = 1
		for k := 0; k < 10+r.N(40); k++ {
			// batches by any task; every task also takes some out
			p.Add(int64(r.N(20000)), "batch", int64(r.N(nt)), int64(1+r.N(1<<(1+r.N(10)))))
			p.Add(int64(r.N(20000)), "take", int64(r.N(nt)), int64(r.N(1<<(1+r.N(9)))))
		}
		return
	}
	n := 6 + r.N(20)
	if thorough {
		n = 6 + r.N(40)
	}
	closer := r.N(3) == 0
	for k := 0; k < n; k++ {
		op := []string{"push", "push", "pop", "pop", "peek", "size"}[r.N(6)]
		if closer && r.N(10) == 0 {
			op = []string{"close", "closed"}[r.N(2)]
		}
		p.Add(int64(k), op, int64(r.N(nt)), int64(1+r.N(3)), int64(r.N(3)))
	}
}

// a queue's state: "c" when closed, otherwise its items
func qApply(kind string, items []int) func(st string) (string, string) {
	return func(st string) (string, string) {
		closed := st == "c"
		var l []string
		if !closed && st != "" {
			l = strings.Split(st, ",")
		}
		switch kind {
		case "push":
			if closed {
				return "", st
			}
			for _, i := range items {
				l = append(l, strconv.Itoa(i))
			}
			return "", strings.Join(l, ",")
		case "pop":
			if len(l) == 0 {
				return "none", st
			}
			return l[0], strings.Join(l[1:], ",")
		case "peek":
			if len(l) == 0 {
				return "none", st
			}
			return l[0], st
		case "size":
			return strconv.Itoa(len(l)), st
		case "close":
			return "", "c"
		case "closed":
			return fmt.Sprint(closed), st
		}
		panic(kind)
	}
}

func describe(ops []linOp) string {
	l := append([]linOp{}, ops...)
	sort.SliceStable(l, func(a, b int) bool { return l[a].t0 < l[b].t0 })
	var out []string
	for _, o := range l {
		out = append(out, fmt.Sprintf("t%d[%d-%d] %s=%s", o.task, o.t0, o.t1, o.describe, o.got))
	}
	return strings.Join(out, "; ")
}

// runDeep lets many items pile up: what comes out is what went in.
func runDeep(x *hx.Run, c *comp, h *simrt.Host) {
	nt := int(x.Plan.C("tasks"))
	in := make([]int, nt) // items each task pushed
	outs := make([][][2]int, nt)
	var q *syncqueue.SyncQueue[[2]int]
	left := 0
	pop := func(t int) bool {
		v, ok := q.Pop()
		if ok {
			outs[t] = append(outs[t], v)
		}
		return ok
	}
	main := func() {
		q = syncqueue.NewSyncQueue[[2]int]()
		for t := 0; t < nt; t++ {
			t := t
			c.task(func() {
				for _, op := range x.Plan.Ops {
					if int(op.Arg(0)) != t {
						continue
					}
					c.until(op.T)
					if op.K == "batch" {
						var l [][2]int
						for k := int64(0); k < op.Arg(1); k++ {
							l = append(l, [2]int{t, in[t]})
							in[t]++
						}
						q.Push(l...)
						continue
					}
					for k := int64(0); k < op.Arg(1); k++ {
						pop(t)
					}
				}
			})
		}
		c.wait(20 * time.Minute)
		left = q.Size()
		for pop(0) {
		}
	}
	p := x.W.Start(h, "queue", nil, nil, main)
	if !p.Wait(time.Hour) {
		x.Fail("C22 C15", "stuck", "operations on the queue do not end")
		return
	}
	got := 0
	count := make([]map[int]bool, nt)
	for k := range count {
		count[k] = map[int]bool{}
	}
	for t, l := range outs {
		last := map[int]int{}
		for _, v := range l {
			got++
			if v[0] < 0 || v[0] >= nt || v[1] < 0 || v[1] >= in[v[0]] {
				x.Fail("C22 C15", "queue-wrong-item", "the queue returned %v which nobody pushed", v)
				return
			}
			if count[v[0]][v[1]] {
				x.Fail("C22 C15", "queue-item-twice", "the queue returned item %d of task %d twice", v[1], v[0])
				return
			}
			count[v[0]][v[1]] = true
			if n, ok := last[v[0]]; ok && n > v[1] {
				x.Fail("C22 C15", "queue-reordered", "task %d took item %d of task %d after item %d", t, v[1], v[0], n)
				return
			}
			last[v[0]] = v[1]
		}
	}
	all := 0
	for _, n := range in {
		all += n
	}
	x.Checked(all)
	x.Probe("deep-queue")
	if got != all {
		x.Fail("C22 C15", "queue-lost-items", "%d items went in, %d came out", all, got)
	}
	if left > all {
		x.Fail("C22 C15", "queue-wrong-size", "size %d of %d items", left, all)
	}
}

func runQueue(x *hx.Run) {
	c := newComp(x, "C22 C15")
	h := x.W.NewHost("h", "10.0.0.1")
	if x.Plan.C("deep") > 0 {
		runDeep(x, c, h)
		return
	}
	var hist []linOp
	next := 100
	init := ""
	main := func() {
		var first []int
		var fs []string
		for k := int64(0); k < x.Plan.C("init"); k++ {
			first = append(first, next)
			fs = append(fs, strconv.Itoa(next))
			next++
		}
		init = strings.Join(fs, ",")
		q := syncqueue.NewSyncQueue[int](first...)
		for t := 0; t < int(x.Plan.C("tasks")); t++ {
			t := t
			c.task(func() {
				for _, op := range x.Plan.Ops {
					if int(op.Arg(0)) != t {
						continue
					}
					if op.Arg(2) == 0 {
						simrt.Sleep(time.Duration(op.T) * time.Microsecond)
					}
					o := linOp{task: t, name: op.K, describe: op.K, t0: c.tick(), t1: 1 << 60, pending: true}
					var items []int
					if op.K == "push" {
						for j := int64(0); j < op.Arg(1); j++ {
							items = append(items, next)
							next++
						}
						o.describe = fmt.Sprint("push", items)
					}
					o.apply = qApply(op.K, append([]int{}, items...))
					i := len(hist)
					hist = append(hist, o)
					got := ""
					switch op.K {
					case "push":
						q.Push(items...)
						for j := range items {
							items[j] = -1
						}
					case "pop":
						got = "none"
						if v, ok := q.Pop(); ok {
							got = strconv.Itoa(v)
						}
					case "peek":
						got = "none"
						if v, ok := q.Peek(); ok {
							got = strconv.Itoa(v)
						}
					case "size":
						got = strconv.Itoa(q.Size())
					case "close":
						q.Close()
					case "closed":
						got = fmt.Sprint(q.Closed())
					}
					hist[i].t1 = c.tick()
					hist[i].got = got
					hist[i].pending = false
				}
			})
		}
		c.wait(20 * time.Minute)
	}
	p := x.W.Start(h, "queue", nil, nil, main)
	if !p.Wait(time.Hour) || c.left > 0 && p.Reason == "main returned" {
		x.Fail("C22 C15", "stuck", "operations on the queue do not end: %s", describe(hist))
		return
	}
	ok, sure := linearizable(init, hist)
	if sure {
		x.Probe("history-judged")
		x.Checked(len(hist))
	}
	if !ok {
		x.Fail("C22 C15", "queue-not-linearizable", "from [%s]: %s", init, describe(hist))
	}
}

func genMaps(r *simrt.RNG, p *hx.Plan, thorough bool) {
	drawComp(r, p)
	nt := 2 + r.N(3)
	p.Cfg["tasks"] = int64(nt)
	n := 8 + r.N(24)
	if thorough {
		n = 8 + r.N(45)
	}
	keys := 1 + r.N(4)
	p.Cfg["same"] = int64(r.N(2))
	if r.N(6) == 0 {
		p.Cfg["many"] = int64(r.N(3000))
	}
	for k := 0; k < n; k++ {
		p.Add(int64(k), []string{"store", "store", "has", "get", "get"}[r.N(5)], int64(r.N(nt)), int64(r.N(keys)), int64(r.N(3)))
	}
}

func runMaps(x *hx.Run) {
	c := newComp(x, "C22")
	h := x.W.NewHost("h", "10.0.0.1")
	hist := map[int64][]linOp{}
	main := func() {
		m := syncmap.NewSyncMap[int64, int]()
		if n := x.Plan.C("many"); n > 0 {
			// many other keys beside those that are judged for order
			c.task(func() {
				for k := int64(1000); k < 1000+n; k++ {
					m.Store(k, int(k)*3)
				}
				for k := int64(1000); k < 1000+n; k++ {
					if !m.Has(k) || m.Get(k) != int(k)*3 {
						x.Fail("C22", "map-lost-key", "key %d of %d was stored and is not found", k-1000, n)
						return
					}
				}
				x.Checked(int(n))
				x.Probe("many-keys")
			})
		}
		val := 0
		for t := 0; t < int(x.Plan.C("tasks")); t++ {
			t := t
			c.task(func() {
				for _, op := range x.Plan.Ops {
					if int(op.Arg(0)) != t {
						continue
					}
					if op.Arg(2) == 0 {
						simrt.Sleep(time.Duration(op.T) * time.Microsecond)
					}
					key := op.Arg(1)
					val++
					v := val
					if x.Plan.C("same") == 1 {
						v = int(key) * 11
					}
					kind := op.K
					o := linOp{task: t, t0: c.tick(), t1: 1 << 60, pending: true, describe: kind}
					if kind == "store" {
						o.describe = fmt.Sprint("store ", v)
					}
					o.apply = func(st string) (string, string) {
						switch kind {
						case "store":
							return "", strconv.Itoa(v)
						case "has":
							return fmt.Sprint(st != ""), st
						}
						return st, st
					}
					i := len(hist[key])
					hist[key] = append(hist[key], o)
					got := ""
					switch kind {
					case "store":
						m.Store(key, v)
					case "has":
						got = fmt.Sprint(m.Has(key))
					case "get":
						func() {
							defer func() {
								if r := recover(); r != nil {
									got = ""
								}
							}()
							got = strconv.Itoa(m.Get(key))
						}()
					}
					hist[key][i].t1 = c.tick()
					hist[key][i].got = got
					hist[key][i].pending = false
				}
			})
		}
		c.wait(20 * time.Minute)
	}
	p := x.W.Start(h, "maps", nil, nil, main)
	if !p.Wait(time.Hour) || c.left > 0 && p.Reason == "main returned" {
		x.Fail("C22", "stuck", "operations on the map do not end")
		return
	}
	for k := int64(0); k < 8; k++ {
		if len(hist[k]) == 0 {
			continue
		}
		ok, sure := linearizable("", hist[k])
		if sure {
			x.Probe("history-judged")
			x.Checked(len(hist[k]))
		}
		if !ok {
			x.Fail("C22", "map-not-linearizable", "key %d: %s", k, describe(hist[k]))
		}
	}
}

// dmap: the disk-backed map over crashes and disk errors. A key has one value,
// as in the node, where the key is the hash of the value.

type dkey int64

func (k dkey) String() string { return fmt.Sprintf("key%04d", int64(k)) }

type dval string

func (v dval) String() string { return string(v) }

func valueOf(k dkey) dval {
	r := simrt.NewRNG(uint64(k) + 77)
	b := make([]byte, 20+r.N(400))
	for i := range b {
		b[i] = "0123456789abcdef"[r.N(16)]
	}
	return dval(fmt.Sprintf("%d:%d:%s:%d", int64(k), len(b), b, int64(k)))
}

func parseVal(raw string) (dval, error) {
	f := strings.Split(raw, ":")
	if len(f) != 4 {
		return "", fmt.Errorf("bad value")
	}
	n, err := strconv.Atoi(f[1])
	if err != nil || n != len(f[2]) || f[0] != f[3] {
		return "", fmt.Errorf("bad value")
	}
	return dval(raw), nil
}

func genDmap(r *simrt.RNG, p *hx.Plan, thorough bool) {
	drawComp(r, p)
	nt := 1 + r.N(4)
	p.Cfg["tasks"] = int64(nt)
	keys := 1 + r.N(8)
	n := 10 + r.N(40)
	if thorough {
		n = 10 + r.N(150)
	}
	p.Cfg["slow"] = []int64{0, 0, 300, 900}[r.N(4)]
	for k := 0; k < n; k++ {
		t := int64(k * (10 + r.N(400)))
		switch r.N(24) {
		case 0:
			p.Add(t, "kill", 0)
		case 1:
			p.Add(t, "killdisk", int64(r.N(12)), []int64{0, 20, 50, 80, 100}[r.N(5)])
		case 2:
			p.Add(t, "failwrite", int64(r.N(1000)), int64(r.N(2)))
		case 3:
			p.Add(t, "failread", int64(r.N(1000)))
		case 4:
			p.Add(t, "full", int64(r.N(600)))
		case 5:
			p.Add(t, "ok")
		default:
			p.Add(t, []string{"store", "store", "has", "get"}[r.N(4)], int64(r.N(nt)), int64(r.N(keys)))
		}
	}
}

func runDmap(x *hx.Run) {
	c := newComp(x, "C22 C10")
	h := x.W.NewHost("h", "10.0.0.1")
	h.Disk.SlowPM = int(x.Plan.C("slow"))
	type kst struct {
		seen    int  // stamp after which it is visible in this incarnation
		durable bool // stored completely without disk errors, or seen from disk
		tried   bool // any store was ever begun
	}
	ks := map[int64]*kst{}
	get := func(k int64) *kst {
		if ks[k] == nil {
			ks[k] = &kst{}
		}
		return ks[k]
	}
	errs := 0 // disk errors so far or possible now
	readErr := false
	ops := x.Plan.Ops
	pos := 0
	inc := 0
	var cur *simrt.Proc
	type job struct {
		kind string
		key  int64
	}
	for pos < len(ops) {
		inc++
		for _, s := range ks {
			s.seen = 0
		}
		queues := make([][]job, x.Plan.C("tasks"))
		stop := false
		ready := false
		c.left = 0
		main := func() {
			m := disksyncmap.NewDiskSyncMap[dkey, dval]("/d/m", parseVal)
			ready = true
			for t := range queues {
				t := t
				c.task(func() {
					for !stop || len(queues[t]) > 0 {
						if len(queues[t]) == 0 {
							simrt.Sleep(100 * time.Microsecond)
							continue
						}
						j := queues[t][0]
						queues[t] = queues[t][1:]
						s := get(j.key)
						want := valueOf(dkey(j.key))
						t0 := c.tick()
						e0 := errs
						switch j.kind {
						case "store":
							s.tried = true
							m.Store(dkey(j.key), want)
							t1 := c.tick()
							if s.seen == 0 || t1 < s.seen {
								s.seen = t1
							}
							if e0 == errs && errs%2 == 0 {
								s.durable = true
							}
						case "has", "get":
							must := s.seen > 0 && s.seen < t0 || s.durable && !readErr
							re := readErr
							ok := false
							var v dval
							if j.kind == "has" {
								ok = m.Has(dkey(j.key))
							} else {
								func() {
									defer func() {
										if r := recover(); r != nil {
											ok = false
										}
									}()
									v = m.Get(dkey(j.key))
									ok = true
								}()
							}
							t1 := c.tick()
							x.Checked(1)
							if !ok && must && (s.seen > 0 && s.seen < t0 || !re && !readErr) {
								x.Fail("C22 C10 C08", "stored-key-lost", "run %d: key %d was stored and is not found", inc, j.key)
							}
							if ok && !s.tried {
								x.Fail("C22 C10", "phantom-key", "key %d was never stored and is found", j.key)
							}
							if ok && j.kind == "get" && v != want {
								x.Fail("C10 C22", "record-altered", "key %d reads %q, was stored as %q", j.key, v, want)
							}
							if ok && (s.seen == 0 || t1 < s.seen) {
								s.seen = t1
							}
						}
					}
				})
			}
			c.wait(30 * time.Minute)
		}
		cur = x.W.Start(h, fmt.Sprintf("dmap.%d", inc), nil, nil, main)
		for !ready && !cur.Dead {
			simrt.Sleep(time.Millisecond)
		}
		for pos < len(ops) && !cur.Dead {
			op := ops[pos]
			pos++
			c.until(op.T)
			simrt.Sleep(time.Microsecond)
			switch op.K {
			case "kill":
				x.W.Fault("kill")
				cur.Kill()
			case "killdisk":
				cur.KillAtDisk = cur.DiskOps + 1 + op.Arg(0)
				cur.KillDiskFrac = int(op.Arg(1))
			case "failwrite":
				h.Disk.FailWrite = int(op.Arg(0))
				h.Disk.FailErr = []syscall.Errno{syscall.EIO, syscall.ENOSPC}[op.Arg(1)&1]
				errs |= 1
			case "full":
				x.W.Fault("disk-full")
				h.Disk.Free = op.Arg(0)
				errs |= 1
			case "failread":
				h.Disk.FailRead = int(op.Arg(0))
				h.Disk.FailErr = syscall.EIO
				readErr = true
			case "ok":
				h.Disk.FailWrite, h.Disk.FailRead, h.Disk.Free = 0, 0, -1
				if errs%2 == 1 {
					errs++
				}
				readErr = false
			default:
				t := int(op.Arg(0))
				queues[t] = append(queues[t], job{op.K, op.Arg(1)})
			}
		}
		stop = true
		if !cur.Dead {
			cur.KillAtDisk = 0
			if !cur.Wait(time.Hour) || c.left > 0 && cur.Reason == "main returned" {
				x.Fail("C22", "stuck", "operations on the disk map do not end")
				return
			}
		} else {
			x.Probe("restart")
		}
	}
	// at the end: what was stored is there, complete
	h.Disk.FailWrite, h.Disk.FailRead, h.Disk.Free = 0, 0, -1
	p := x.W.Start(h, "dmap.last", nil, nil, func() {
		m := disksyncmap.NewDiskSyncMap[dkey, dval]("/d/m", parseVal)
		for k := int64(0); k < 8; k++ {
			s := ks[k]
			if s == nil {
				continue
			}
			ok := m.Has(dkey(k))
			x.Checked(1)
			if !ok && s.durable {
				x.Fail("C10 C22 C08", "stored-key-lost", "after a restart key %d, which was stored, is not found", k)
			}
			if ok {
				if v := m.Get(dkey(k)); v != valueOf(dkey(k)) {
					x.Fail("C10 C22", "record-altered", "after a restart key %d reads %q, was stored as %q", k, v, valueOf(dkey(k)))
				}
			} else {
				// absent, so it can be stored again
				m.Store(dkey(k), valueOf(dkey(k)))
				if !m.Has(dkey(k)) || m.Get(dkey(k)) != valueOf(dkey(k)) {
					x.Fail("C10 C22", "stored-key-lost", "key %d cannot be stored again", k)
				}
			}
		}
	})
	if !p.Wait(10 * time.Minute) {
		x.Fail("C22", "stuck", "operations on the disk map do not end")
	}
	x.Probe("dmap-judged")
}
