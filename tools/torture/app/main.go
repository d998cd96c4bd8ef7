package main

import (
	"bufio"
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"maps"
	"os"
	"path/filepath"
	"slices"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"torture/lib"
)

type Event struct {
	N int
	S string
}
type Bus chan Event
type Table map[string]int
type Flag bool
type node struct {
	c     chan int
	m     map[string]int
	flag  bool
	f2    Flag
	mask  uint64
	cnt   int
	any   interface{}
	err   error
	fn    func(int) int
	kids  []*node
	arr   [4]int
	dones chan chan int
	sync.Mutex
}
type Tree struct {
	Bus Bus
	Table
	*node
}
type Speaker interface{ Say(string) string }
type dog struct{ n int }

func (d dog) Say(s string) string   { return fmt.Sprint("dog", d.n, s) }
func (d *dog) Inc(by int, xs ...int) { d.n += by + len(xs) }

var total atomic.Int64
var global = 5
var gmap = map[int]string{}
var once sync.Once
var onceVal = sync.OnceValue(func() int { global++; return global })

func id[T any](x T) T { return x }
func pump[T any](c chan<- T, vs ...T) {
	for _, v := range vs {
		c <- v
	}
	close(c)
}
func two() (chan int, int)        { return make(chan int, 1), 7 }
func takes(c chan int, n int)     { c <- n }
func shift(n uint) uint64         { return 1 << n }
func sendU(c chan uint64, v uint64) { c <- v }
func sendB(c chan Flag, v Flag)   { c <- v }

func basics() {
	n := &node{c: make(chan int, 4), m: map[string]int{}, dones: make(chan chan int, 1)}
	var k uint = 5
	n.mask = 1 << k
	n.mask |= 1<<k + 1
	n.flag = k == 5
	n.f2 = k == 5
	n.f2 = n.f2 && k > 3
	n.any = k == 4
	n.fn = id[int]
	n.err = nil
	n.err = errors.New("e")
	n.any = 1 << 3
	n.any = dog{3}
	n.arr[k-4]++
	n.arr[k-4] += 3
	n.arr[0], n.arr[1] = n.arr[1], n.arr[0]
	n.m["a"]++
	n.m["a"] += 2
	n.m["b"] <<= 1
	n.m["c"] = 1 << k
	n.m["x"], n.m["y"] = n.m["a"], 9
	n.m[fmt.Sprint("k", k)]++
	n.m[fmt.Sprint("k", k)] += 4
	v, ok := n.m["zz"]
	_, ok2 := n.m["a"]
	delete(n.m, "b")
	fmt.Println(n.mask, n.flag, n.f2, n.any, n.fn(4), n.err, n.arr, n.m, v, ok, ok2, len(n.m))
	if v, ok := n.m["a"]; ok && v > 1 {
		fmt.Println("a", v)
	}
	n.c <- 1
	n.c <- n.m["a"] + <-n.c
	fmt.Println(len(n.c), cap(n.c), <-n.c)
	n.dones <- n.c
	(<-n.dones) <- 8
	var got = <-n.c
	var g2, gok = func() (int, bool) { close(n.c); x, o := <-n.c; return x, o }()
	fmt.Println(got, g2, gok)
	x, y := <-n.c, 3
	fmt.Println(x, y)
	mm := map[string]map[string][]int{}
	if mm["a"] == nil {
		mm["a"] = map[string][]int{}
	}
	mm["a"]["b"] = append(mm["a"]["b"], 1, 2)
	mm["a"]["b"][1] = 9
	mm["a"]["b"][0]++
	fmt.Println(mm)
	type pt struct{ x, y int }
	ps := map[pt]*node{{1, 2}: n}
	ps[pt{1, 2}].cnt++
	ps[pt{1, 2}].cnt += 4
	ps[pt{3, 4}] = nil
	fmt.Println(n.cnt, ps[pt{1, 2}] == n, len(ps))
	im := map[string]interface{}{}
	im["a"] = 1
	im["b"] = dog{1}
	im["c"] = nil
	im["d"] = k == 5
	em := map[string]error{}
	em["a"] = errors.New("q")
	em["b"] = nil
	em["c"] = &os.PathError{Op: "o", Path: "p", Err: io.EOF}
	sm := map[string]Speaker{"x": dog{1}}
	sm["y"] = dog{2}
	fm := map[string]func(int) int{}
	fm["a"] = func(i int) int { return i + 1 }
	fm["b"] = id[int]
	um := map[string]uint64{}
	um["a"] = 1 << k
	um["a"] |= 1 << k
	fmt.Println(im, em["a"], em["b"], em["c"], sm["y"].Say("!"), fm["a"](fm["b"](2)), um)
	t := Table{"q": 1}
	t["q"]++
	t["r"] = 5
	fmt.Println(t, len(t), lib.Count(t), lib.Count(n.m))
	tr := Tree{Bus: make(Bus, 2), Table: t, node: n}
	tr.Bus <- Event{1, "one"}
	tr.Table["s"] = 8
	tr.m["tr"]++
	tr.cnt++
	e := <-tr.Bus
	fmt.Println(e, len(tr.Bus), tr.Table["s"], tr.cnt)
	global++
	global += 2
	gmap[global] = "g"
	gmap[global] += "h"
	fmt.Println(global, gmap, onceVal(), onceVal(), global)
	d := &dog{}
	f := d.Inc
	f(2, 1, 2)
	defer d.Inc(1)
	(*dog).Inc(d, 5)
	fmt.Println(d.n)
	var len = func(x []int) int { return 99 }
	fmt.Println(len(nil))
	var close, delete = func(int) {}, func(a, b int) int { return a * b }
	close(1)
	fmt.Println(delete(3, 4))
	var np map[string]int
	fmt.Println(np["a"])
	func() {
		defer func() { fmt.Println("recovered:", recover()) }()
		np["a"] = 1
	}()
	func() {
		defer func() { r := recover(); fmt.Println("recovered:", r) }()
		defer func() { fmt.Println("in defer") }()
		var z []int
		_ = z[k]
	}()
	func() {
		defer func() { fmt.Println("recovered:", recover()) }()
		c := make(chan int)
		defer fmt.Println("deferred order")
		clos(c)
		c <- 1
	}()
	func() {
		defer func() { fmt.Println("recovered:", recover()) }()
		c := make(chan int)
		clos(c)
		clos(c)
	}()
}

func clos(c chan<- int) { close(c) }

func labels() {
	c := make(chan int, 10)
	for i := 0; i < 10; i++ {
		c <- i
	}
	close(c)
	sum := 0
outer:
	for v := range c {
		switch {
		case v == 3:
			continue outer
		case v == 7:
			break outer
		}
		sum += v
	}
	fmt.Println("sum", sum)
	q := make(chan int)
	done := make(chan struct{})
	go func() {
		defer close(done)
		for i := 0; i < 5; i++ {
			q <- i
		}
	}()
	n := 0
loop:
	for {
		select {
		case v, ok := <-q:
			if !ok {
				break loop
			}
			n += v
			if v == 2 {
				break
			}
			n += 100
		case <-done:
			break loop
		}
	}
	fmt.Println("n", n)
	m := map[int]bool{1: true, 2: true, 3: true}
	cnt := 0
mloop:
	for k := range m {
		for k2, v2 := range m {
			if !v2 {
				continue
			}
			if k2 == k {
				continue mloop
			}
			cnt++
			if cnt > 100 {
				break mloop
			}
		}
	}
	fmt.Println(cnt <= 6)
	for k := range m {
		if k == 2 {
			delete(m, k)
		}
	}
	var kk int
	var vv bool
	s := 0
	for kk, vv = range m {
		if vv {
			s += kk
		}
	}
	for kk = range m {
		s += kk
	}
	for _, v := range m {
		if v {
			s++
		}
	}
	fmt.Println(s)
	i := 0
again:
	i++
	if i < 3 {
		goto again
	}
	fmt.Println(i)
	var arr [3]int
	for arr[i-3] = range []int{1, 2} {
		i = 5
	}
	fmt.Println(arr)
	for i := range arr {
		arr[i] = i
	}
	for range arr {
		s++
	}
	str := ""
	for _, r := range "añb" {
		str += string(r) + "."
	}
	fmt.Println(str, s)
	// old loop variable semantics
	var fs []func() int
	for i := 0; i < 3; i++ {
		fs = append(fs, func() int { return i })
	}
	for _, x := range []int{7, 8} {
		fs = append(fs, func() int { return x })
	}
	ch := make(chan int, 3)
	ch <- 4
	ch <- 5
	close(ch)
	for x := range ch {
		fs = append(fs, func() int { return x })
	}
	for k, v := range map[int]int{6: 6} {
		fs = append(fs, func() int { return k + v })
	}
	for _, f := range fs {
		fmt.Print(f(), " ")
	}
	fmt.Println()
	switch v := <-make1(3); v {
	case 1, 2:
		fmt.Println("no")
	case 3:
		fmt.Println("three")
		fallthrough
	case 4:
		fmt.Println("four")
	default:
		fmt.Println("def")
	}
	var a any = make1(1)
	switch v := a.(type) {
	case chan int:
		fmt.Println("chan", <-v)
	}
	if v, ok := <-make1(5); ok && v == 5 {
		fmt.Println("five")
	} else if v := v + 1; v > 2 {
		fmt.Println("other")
	}
}

func make1(n int) chan int { c := make(chan int, 1); c <- n; return c }

func selects() {
	var nilc chan int
	a, b := make(chan int, 1), make(chan string, 1)
	select {
	case a <- 3:
	case <-nilc:
		fmt.Println("never")
	}
	select {
	case b <- "x":
	default:
		fmt.Println("never")
	}
	select {
	case b <- "y":
		fmt.Println("never")
	default:
		fmt.Println("full")
	}
	var arr [2]int
	m := map[string]int{}
	var ok bool
	select {
	case arr[1] = <-a:
	}
	a <- 4
	select {
	case m["k"], ok = <-a:
	}
	var s any
	select {
	case s = <-b:
	case <-time.After(time.Hour):
	}
	fmt.Println(arr, m, ok, s)
	close(a)
	select {
	case _, ok := <-a:
		fmt.Println(ok)
	}
	select {
	case _ = <-a:
		fmt.Println("closed")
	}
	f := func() int {
		select {
		case v := <-a:
			return v
		}
	}
	g := func() int {
		for {
			select {
			case v := <-a:
				return v + 1
			default:
			}
		}
	}
	fmt.Println(f(), g())
	t := time.NewTimer(10 * time.Millisecond)
	tk := time.NewTicker(3 * time.Millisecond)
	n := 0
	for n < 2 {
		select {
		case <-tk.C:
			n++
		case tm := <-t.C:
			_ = tm
			n = 5
		}
	}
	tk.Stop()
	fmt.Println(n, t.Stop(), t.Reset(time.Millisecond))
	<-t.C
	cc := make(chan (<-chan int), 1)
	cc <- make1(9)
	fmt.Println(<-<-cc)
	sc := make(chan struct{}, 1)
	pick := func(c chan<- struct{}) chan<- struct{} { fmt.Println("pick"); return c }
	select {
	case pick(sc) <- struct{}{}:
	case <-func() chan int { fmt.Println("second"); return nil }():
	}
	go func() {
		select {}
	}()
	r := make(chan Event, 1)
	select {
	case r <- Event{N: 3}:
	}
	select {
	case ev := <-r:
		fmt.Println(ev.N)
	}
	x := make(chan interface{}, 1)
	select {
	case x <- 5:
	}
	select {
	case x <- dog{1}:
	default:
	}
	ex := make(chan error, 1)
	ex <- nil
	<-ex
	select {
	case ex <- &os.PathError{Op: "o", Path: "p", Err: io.EOF}:
	}
	ux := make(chan uint64, 1)
	var k uint = 3
	select {
	case ux <- 1 << k:
	}
	fmt.Println(<-x, <-ex, <-ux)
	ex <- io.EOF
	ux <- 1 << k
	bx := make(chan Flag, 1)
	bx <- k == 3
	fmt.Println(<-ex, <-ux, <-bx)
}

func gos() {
	c := make(chan int, 20)
	u := make(chan uint64, 3)
	bf := make(chan Flag, 3)
	var k uint = 3
	go pump(c, 1, 2, 3)
	lib.Drain(c, func(v int) { fmt.Print(v, " ") })
	fmt.Println()
	go sendU(u, 1<<k)
	go sendU(u, shift(2)+1<<k)
	go sendB(bf, k == 3)
	x := <-u + <-u
	fmt.Println(x, <-bf)
	c2, n := two()
	go takes(two())
	go takes(c2, n)
	fmt.Println(<-c2)
	c3 := make(chan int)
	go close(c3)
	<-c3
	c4 := make(chan string)
	go pump[string](c4, []string{"a", "b"}...)
	for s := range c4 {
		fmt.Print(s)
	}
	fmt.Println()
	var sp Speaker = dog{4}
	go sp.Say("x")
	d := &dog{}
	var wg sync.WaitGroup
	wg.Add(1)
	go func(d *dog, by int) { defer wg.Done(); d.Inc(by, []int{1}...) }(d, 3)
	wg.Wait()
	fmt.Println(d.n)
	wg.Add(2)
	for i := 0; i < 2; i++ {
		i := i
		go func() { defer wg.Done(); total.Add(int64(i)) }()
	}
	fs := []func(int){func(i int) { total.Add(int64(i)); wg.Done() }}
	wg.Add(1)
	go fs[0](40)
	wg.Wait()
	fmt.Println(total.Load())
	ms := map[string]func(){"a": wg.Done}
	wg.Add(1)
	go ms["a"]()
	wg.Wait()
	out := lib.Merge(make1c(1), make1c(2), make1c(3))
	s := 0
	for v := range out {
		s += v
	}
	fmt.Println(s)
	func() {
		defer func() { fmt.Println("rec", recover() != nil) }()
		var f func()
		_ = f
		var sp Speaker
		go sp.Say("x")
	}()
	errc := make(chan error, 2)
	go func() { errc <- errors.New("a") }()
	go func() (err error) { defer func() { errc <- err }(); return io.EOF }()
	e1, e2 := <-errc, <-errc
	es := []string{e1.Error(), e2.Error()}
	sort.Strings(es)
	fmt.Println(es)
	b := lib.NewBox[Event](2)
	go b.Put("k", Event{1, "q"})
	fmt.Println(<-b.C)
	b.Mu.RLock()
	fmt.Println(b.M["k"].S)
	b.Mu.RUnlock()
}

func make1c(n int) <-chan int {
	c := make(chan int)
	go func() { defer close(c); c <- n }()
	return c
}

func syncs() {
	var mu sync.Mutex
	cond := sync.NewCond(&mu)
	q := []int{}
	res := make(chan int, 10)
	for i := 0; i < 3; i++ {
		go func() {
			mu.Lock()
			defer mu.Unlock()
			for len(q) == 0 {
				cond.Wait()
			}
			v := q[0]
			q = q[1:]
			res <- v
		}()
	}
	for i := 0; i < 3; i++ {
		mu.Lock()
		q = append(q, i)
		mu.Unlock()
		cond.Signal()
	}
	fmt.Println(<-res + <-res + <-res)
	once.Do(func() { fmt.Println("once") })
	once.Do(func() { fmt.Println("twice") })
	var sm sync.Map
	sm.Store("a", 1)
	v, loaded := sm.LoadOrStore("a", 2)
	sm.Range(func(k, v any) bool { fmt.Println(k, v); return true })
	fmt.Println(v, loaded)
	p := sync.Pool{New: func() any { return new(bytes.Buffer) }}
	buf := p.Get().(*bytes.Buffer)
	buf.WriteString("hi")
	fmt.Println(buf)
	p.Put(buf)
	var rw sync.RWMutex
	rw.RLock()
	fmt.Println(rw.TryLock(), rw.TryRLock())
	rw.RUnlock()
	rw.RUnlock()
	rw.Lock()
	rw.Unlock()
	var flag atomic.Bool
	go func() { time.Sleep(time.Millisecond); flag.Store(true) }()
	for !flag.Load() {
	}
	af := make(chan int)
	tm := time.AfterFunc(time.Millisecond, func() { af <- 1 })
	<-af
	fmt.Println(tm.Stop())
	var wg sync.WaitGroup
	wg.Go(func() { total.Add(1) })
	wg.Wait()
	ctx, cancel := context.WithCancel(context.Background())
	ctx2, cancel2 := context.WithTimeout(context.WithValue(ctx, "k", "v"), time.Hour)
	defer cancel2()
	go func() { time.Sleep(time.Millisecond); cancel() }()
	select {
	case <-ctx2.Done():
		fmt.Println(ctx2.Err(), ctx2.Value("k"), context.Cause(ctx2), errors.Is(ctx.Err(), context.Canceled))
	case <-time.After(time.Minute):
		fmt.Println("timeout")
	}
	ctx3, c3 := context.WithTimeout(context.Background(), 2*time.Millisecond)
	defer c3()
	<-ctx3.Done()
	_, hasd := ctx3.Deadline()
	fmt.Println(ctx3.Err(), errors.Is(ctx3.Err(), context.DeadlineExceeded), hasd)
	ctx4, c4 := context.WithCancelCause(context.Background())
	c4(io.EOF)
	fmt.Println(ctx4.Err(), context.Cause(ctx4))
	stop := context.AfterFunc(ctx4, func() { af <- 2 })
	fmt.Println(<-af, stop())
	pr, pw := io.Pipe()
	go func() { fmt.Fprintf(pw, "line1\nline2\n"); pw.Close() }()
	sc := bufio.NewScanner(pr)
	for sc.Scan() {
		fmt.Println(sc.Text())
	}
}

func mapspkg() {
	m := map[string]int{"b": 2, "a": 1, "c": 3}
	ks := slices.Collect(maps.Keys(m))
	slices.Sort(ks)
	fmt.Println(ks, slices.Sorted(maps.Values(m)), len(maps.Clone(m)), maps.Equal(m, maps.Clone(m)))
	maps.DeleteFunc(m, func(k string, v int) bool { return v > 1 })
	m2 := map[string]int{}
	maps.Copy(m2, m)
	fmt.Println(m, m2, maps.Collect(maps.All(m)))
	xs := []int{3, 1, 2}
	sort.Slice(xs, func(i, j int) bool { return xs[i] < xs[j] })
	fmt.Println(xs, slices.Contains(xs, 2), slices.IndexFunc(xs, func(i int) bool { return i == 3 }))
}

func files() {
	dir, err := os.MkdirTemp("", "tort")
	if err != nil {
		fmt.Println(err)
		return
	}
	defer os.RemoveAll(dir)
	p := filepath.Join(dir, "a.txt")
	fmt.Println(os.WriteFile(p, []byte("hello\n"), 0o600))
	f, err := os.OpenFile(p, os.O_APPEND|os.O_WRONLY, 0)
	w := bufio.NewWriter(f)
	fmt.Fprintf(w, "more %d\n", 1)
	w.Flush()
	fmt.Println(err, f.Sync(), f.Close())
	b, err := os.ReadFile(p)
	fmt.Println(strings.TrimSpace(string(b)), err)
	fmt.Println(os.Rename(p, p+"2"), os.Remove(p) != nil, errors.Is(os.Remove(p), os.ErrNotExist), os.IsNotExist(os.Remove(p)))
	st, err := os.Stat(p + "2")
	fmt.Println(st.Size(), st.Name(), st.IsDir(), st.Mode(), err)
	os.MkdirAll(filepath.Join(dir, "x", "y"), 0o755)
	es, err := os.ReadDir(dir)
	for _, e := range es {
		fmt.Println(e.Name(), e.IsDir())
	}
	g, err := filepath.Glob(filepath.Join(dir, "a*"))
	fmt.Println(len(g), err)
	n := 0
	filepath.WalkDir(dir, func(p string, d os.DirEntry, err error) error { n++; return err })
	fmt.Println(n)
	f, _ = os.Open(p + "2")
	rd := bufio.NewReader(f)
	l, err := rd.ReadString('\n')
	fmt.Printf("%q %v\n", l, err)
	f.Close()
	_, err = f.Read(make([]byte, 1))
	fmt.Println(errors.Is(err, os.ErrClosed))
	fmt.Fprintln(os.Stderr, "to stderr")
	fmt.Fprintln(os.Stdout, "to stdout")
	io.WriteString(os.Stdout, "ws\n")
}

func main() {
	basics()
	labels()
	selects()
	gos()
	syncs()
	mapspkg()
	files()
	fmt.Println(lib.Next(), lib.Next(), lib.Counter, lib.ErrX)
	fmt.Println(lib.Derived())
	fmt.Println(<-lib.Ready, lib.Zero)
	lib.Counter += 5
	lib.A++
	fmt.Println(lib.Counter, lib.A, len(os.Args) > 0)
	global = -1
	func() {
		defer os.Exit(3)
	}()
}
