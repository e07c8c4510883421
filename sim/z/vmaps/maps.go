// Package vmaps stands in for maps: iteration in a seed-chosen order, accesses
// reported to the happens-before checker.
package vmaps

import (
	"iter"

	"github.com/PatchLens/go-update-lens/zzverif/vsim"
)

func All[Map ~map[K]V, K comparable, V any](m Map) iter.Seq2[K, V] { return vsim.RangeMap(m) }

func Keys[Map ~map[K]V, K comparable, V any](m Map) iter.Seq[K] {
	return func(yield func(K) bool) {
		for k := range vsim.RangeMap(m) {
			if !yield(k) {
				return
			}
		}
	}
}

func Values[Map ~map[K]V, K comparable, V any](m Map) iter.Seq[V] {
	return func(yield func(V) bool) {
		for _, v := range vsim.RangeMap(m) {
			if !yield(v) {
				return
			}
		}
	}
}

func Insert[Map ~map[K]V, K comparable, V any](m Map, seq iter.Seq2[K, V]) {
	for k, v := range seq {
		vsim.Y()
		vsim.MW(m)[k] = v
	}
}

func Collect[K comparable, V any](seq iter.Seq2[K, V]) map[K]V {
	m := map[K]V{}
	Insert(m, seq)
	return m
}

func Copy[M1 ~map[K]V, M2 ~map[K]V, K comparable, V any](dst M1, src M2) {
	for k, v := range vsim.RangeMap(src) {
		vsim.Y()
		vsim.MW(dst)[k] = v
	}
}

func Clone[M ~map[K]V, K comparable, V any](m M) M {
	if m == nil {
		return nil
	}
	r := make(M, len(m))
	Copy(r, m)
	return r
}

func DeleteFunc[M ~map[K]V, K comparable, V any](m M, del func(K, V) bool) {
	for k, v := range vsim.RangeMap(m) {
		if del(k, v) {
			delete(vsim.MW(m), k)
		}
	}
}
