package maps

import (
	"iter"
	real "maps"

	"MODPATH/verifsim/simrt"
)

func Keys[M ~map[K]V, K comparable, V any](m M) iter.Seq[K] {
	return func(yield func(K) bool) {
		k, it := simrt.MapRangeK(m)
		for it.Next(&k, nil) {
			if !yield(k) {
				return
			}
		}
	}
}
func Values[M ~map[K]V, K comparable, V any](m M) iter.Seq[V] {
	return func(yield func(V) bool) {
		v, it := simrt.MapRangeV(m)
		for it.Next(nil, &v) {
			if !yield(v) {
				return
			}
		}
	}
}
func All[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		k, v, it := simrt.MapRangeKV(m)
		for it.Next(&k, &v) {
			if !yield(k, v) {
				return
			}
		}
	}
}
func Insert[M ~map[K]V, K comparable, V any](m M, s iter.Seq2[K, V]) { real.Insert(m, s) }
func Collect[K comparable, V any](s iter.Seq2[K, V]) map[K]V         { return real.Collect(s) }
func Equal[M1, M2 ~map[K]V, K, V comparable](a M1, b M2) bool {
	return real.Equal(simrt.MapR(a), simrt.MapR(b))
}
func EqualFunc[M1 ~map[K]V1, M2 ~map[K]V2, K comparable, V1, V2 any](a M1, b M2, f func(V1, V2) bool) bool {
	return real.EqualFunc(a, b, f)
}
func Clone[M ~map[K]V, K comparable, V any](m M) M { return real.Clone(simrt.MapR(m)) }
func Copy[M1 ~map[K]V, M2 ~map[K]V, K comparable, V any](d M1, s M2) {
	k, v, it := simrt.MapRangeKV(s)
	for it.Next(&k, &v) {
		simrt.MapSet(d, k, v)
	}
}
func DeleteFunc[M ~map[K]V, K comparable, V any](m M, del func(K, V) bool) {
	k, v, it := simrt.MapRangeKV(m)
	for it.Next(&k, &v) {
		if del(k, v) {
			simrt.MapDelete(m, k)
		}
	}
}
