package main

import "fmt"

// A small linearizability checker: depth-first search over the orders of the
// operations that respect real time, with memory of visited states.

type linOp struct {
	task     int
	name     string
	t0, t1   int // t1 = 1<<60: never returned
	apply    func(st string) (out string, next string)
	got      string
	pending  bool
	describe string
}

func linearizable(init string, ops []linOp) (bool, bool) {
	n := len(ops)
	if n > 62 {
		return true, false
	}
	seen := map[string]bool{}
	steps := 0
	var rec func(done uint64, st string) bool
	var must uint64
	for i, o := range ops {
		if !o.pending {
			must |= 1 << uint(i)
		}
	}
	gaveUp := false
	rec = func(done uint64, st string) bool {
		if done&must == must {
			return true
		}
		steps++
		if steps > 400000 {
			gaveUp = true
			return true
		}
		key := fmt.Sprintf("%x|%s", done, st)
		if seen[key] {
			return false
		}
		seen[key] = true
		// the earliest return among the operations not yet placed
		lim := 1 << 61
		for i, o := range ops {
			if done>>uint(i)&1 == 0 && !o.pending && o.t1 < lim {
				lim = o.t1
			}
		}
		for i, o := range ops {
			if done>>uint(i)&1 == 1 || o.t0 > lim {
				continue
			}
			out, next := o.apply(st)
			if !o.pending && out != o.got {
				continue
			}
			if rec(done|1<<uint(i), next) {
				return true
			}
		}
		return false
	}
	ok := rec(0, init)
	return ok, !gaveUp
}
