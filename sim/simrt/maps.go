package simrt

import (
	"bytes"
	"fmt"
	"reflect"
	"runtime/debug"
	"sort"
	"unsafe"
)

// Map operations. Go maps crash the process when a write overlaps another
// access; MapSet and MapDelete open a small window in which another task may
// be scheduled, and overlapping accesses are reported as the runtime would.

// mapPtr identifies a map. The pointers are kept as such in W.mapW: a map with
// an open window has to stay where it is (one that does not escape would move
// with its goroutine's stack).
func mapPtr[M ~map[K]V, K comparable, V any](m M) unsafe.Pointer {
	return *(*unsafe.Pointer)(unsafe.Pointer(&m))
}

func mapFatal(what string) {
	p := W.cur.proc
	if p == nil {
		return
	}
	p.exit(2, "fatal error: "+what, trimStack(debug.Stack()), W.cur)
	ExitIfKilled()
}

func MapSet[M ~map[K]V, K comparable, V any](m M, k K, v V) {
	if m != nil {
		p := mapPtr[M, K, V](m)
		if W.mapW[p] != nil {
			mapFatal("concurrent map writes")
		}
		if yleft <= 1 { // the window only matters when it can be preempted
			W.mapW[p] = W.cur
			func() {
				defer delete(W.mapW, p)
				Y()
			}()
		} else {
			Y()
		}
	}
	m[k] = v
}

func MapDelete[M ~map[K]V, K comparable, V any](m M, k K) {
	if m != nil {
		p := mapPtr[M, K, V](m)
		if W.mapW[p] != nil {
			mapFatal("concurrent map writes")
		}
		if yleft <= 1 {
			W.mapW[p] = W.cur
			func() {
				defer delete(W.mapW, p)
				Y()
			}()
		} else {
			Y()
		}
	}
	delete(m, k)
}

// MapSetIn and MapDeleteIn take the map first so that key and value are
// converted to its types as in an assignment.
func MapSetIn[M ~map[K]V, K comparable, V any](m M) func(K, V) {
	return func(k K, v V) { MapSet(m, k, v) }
}

func MapDeleteIn[M ~map[K]V, K comparable, V any](m M) func(K) {
	return func(k K) { MapDelete(m, k) }
}

func MapR[M ~map[K]V, K comparable, V any](m M) M {
	if len(W.mapW) > 0 && m != nil && W.mapW[mapPtr[M, K, V](m)] != nil {
		mapFatal("concurrent map read and map write")
	}
	return m
}

// MapIter iterates over a map in an order decided by the simulator.
type MapIter[K comparable, V any] struct {
	m    map[K]V
	keys []K
	i    int
}

func (it *MapIter[K, V]) Next(k *K, v *V) bool {
	if it.m != nil && len(W.mapW) > 0 && W.mapW[mapPtr[map[K]V, K, V](it.m)] != nil {
		mapFatal("concurrent map iteration and map write")
	}
	for it.i < len(it.keys) {
		key := it.keys[it.i]
		it.i++
		val, ok := it.m[key]
		if !ok {
			continue
		}
		if k != nil {
			*k = key
		}
		if v != nil {
			*v = val
		}
		return true
	}
	return false
}

func MapRange[M ~map[K]V, K comparable, V any](m M) *MapIter[K, V] {
	it := &MapIter[K, V]{m: m}
	n := len(m)
	if n == 0 {
		return it
	}
	it.keys = make([]K, 0, n)
	for k := range m {
		it.keys = append(it.keys, k)
	}
	if n > 1 {
		SortKeys(it.keys)
		v := W.D.maps.choose(func(r *RNG) uint32 { return uint32(r.U64() >> 33) })
		if v != 0 {
			r := NewRNG(uint64(v))
			for i := n - 1; i > 0; i-- {
				j := r.N(i + 1)
				it.keys[i], it.keys[j] = it.keys[j], it.keys[i]
			}
		}
	}
	return it
}

func MapRangeK[M ~map[K]V, K comparable, V any](m M) (k K, it *MapIter[K, V]) {
	return k, MapRange[M, K, V](m)
}
func MapRangeV[M ~map[K]V, K comparable, V any](m M) (v V, it *MapIter[K, V]) {
	return v, MapRange[M, K, V](m)
}
func MapRangeKV[M ~map[K]V, K comparable, V any](m M) (k K, v V, it *MapIter[K, V]) {
	return k, v, MapRange[M, K, V](m)
}

var flatCache = map[reflect.Type]int8{}

func flat(t reflect.Type) bool {
	if f, ok := flatCache[t]; ok {
		return f == 1
	}
	f := false
	switch t.Kind() {
	case reflect.Bool, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
		reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		f = true
	case reflect.Array:
		f = flat(t.Elem())
	case reflect.Struct:
		f = true
		var n uintptr
		for i := 0; i < t.NumField(); i++ {
			f = f && flat(t.Field(i).Type)
			n += t.Field(i).Type.Size()
		}
		f = f && n == t.Size()
	}
	flatCache[t] = 0
	if f {
		flatCache[t] = 1
	}
	return f
}

// SortKeys puts map keys into a canonical order.
func SortKeys[K comparable](ks []K) {
	switch s := any(ks).(type) {
	case []string:
		sort.Strings(s)
		return
	}
	t := reflect.TypeOf(ks).Elem()
	if flat(t) {
		sz := t.Size()
		sort.Slice(ks, func(i, j int) bool {
			a := unsafe.Slice((*byte)(unsafe.Pointer(&ks[i])), sz)
			b := unsafe.Slice((*byte)(unsafe.Pointer(&ks[j])), sz)
			return bytes.Compare(a, b) < 0
		})
		return
	}
	strs := make([]string, len(ks))
	idx := make([]int, len(ks))
	for i := range ks {
		strs[i] = fmt.Sprintf("%#v", ks[i])
		idx[i] = i
	}
	sort.SliceStable(idx, func(a, b int) bool { return strs[idx[a]] < strs[idx[b]] })
	out := make([]K, len(ks))
	for i, j := range idx {
		out[i] = ks[j]
	}
	copy(ks, out)
}

// SizeOf is the size of a slice element.
func SizeOf[T any]() uintptr {
	var z T
	return unsafe.Sizeof(z)
}

type integer interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr
}

// MkLen checks an allocation against the simulated memory limit.
func MkLen[N integer](n N, size uintptr) N {
	w := W
	if w == nil || w.cur == nil || w.cur.proc == nil {
		return n
	}
	if n > 0 && size > 0 && uint64(n) > uint64(w.Opt.MemLimit)/uint64(size) {
		if uint64(n) > (1<<47)/uint64(size) {
			panic(plainError("makeslice: len out of range"))
		}
		w.cur.proc.exit(2, fmt.Sprintf("fatal error: out of memory (allocation of %d elements of %d bytes)", n, size), trimStack(debug.Stack()), w.cur)
		ExitIfKilled()
	}
	return n
}

// MkMapLen checks a map size hint.
func MkMapLen[N integer](n N) N { return MkLen(n, 64) }
