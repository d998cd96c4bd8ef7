// Package lib holds state shared by package-level variables.
package lib

import (
	"errors"
	"sync"
)

var ErrX = errors.New("x")

var (
	mu      sync.Mutex
	Counter int
	cache   = map[string][]int{"a": {1}}
	derived = base * 2
	base    = 21
	A, B    = pair()
	hook    func() string
)

var Ready = make(chan int, 3)

type Num int

const Zero Num = 0

func pair() (int, string) { return derived, "pair" }

func init() { hook = func() string { return "hooked" } }
func init() { Counter = 100; Ready <- Counter }

func Next() int {
	mu.Lock()
	defer mu.Unlock()
	Counter++
	cache["a"] = append(cache["a"], Counter)
	return Counter
}

func Derived() (int, int, string, int) { return derived, A, B + hook(), len(cache["a"]) }

type Box[T any] struct {
	C  chan T
	Mu sync.RWMutex
	M  map[string]T
}

func NewBox[T any](n int) *Box[T] { return &Box[T]{C: make(chan T, n), M: map[string]T{}} }

func (b *Box[T]) Put(k string, v T) {
	b.Mu.Lock()
	b.M[k] = v
	b.Mu.Unlock()
	b.C <- v
}

func Drain[T any](c <-chan T, f func(T)) {
	for v := range c {
		f(v)
	}
}

func Merge[T any](cs ...<-chan T) <-chan T {
	out := make(chan T)
	var wg sync.WaitGroup
	for _, c := range cs {
		wg.Add(1)
		go func(c <-chan T) {
			defer wg.Done()
			for v := range c {
				out <- v
			}
		}(c)
	}
	go func() { wg.Wait(); close(out) }()
	return out
}

func Count[M ~map[K]V, K comparable, V any](m M) (n int) {
	for range m {
		n++
	}
	for k := range m {
		_ = k
		n++
	}
	for k, v := range m {
		_, _ = k, v
		n++
	}
	return
}
