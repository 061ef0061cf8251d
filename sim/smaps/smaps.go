// Package smaps replaces maps in code under simulation, so that iterations over
// maps visit keys in the simulator's order.
package smaps

import (
	"iter"
	"maps"

	"verif.local/sim/simrt"
)

func All[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		for it := simrt.MapIter(m); it.Next(); {
			if !yield(it.K, it.V) {
				return
			}
		}
	}
}

func Keys[M ~map[K]V, K comparable, V any](m M) iter.Seq[K] {
	return func(yield func(K) bool) {
		for it := simrt.MapIter(m); it.Next(); {
			if !yield(it.K) {
				return
			}
		}
	}
}

func Values[M ~map[K]V, K comparable, V any](m M) iter.Seq[V] {
	return func(yield func(V) bool) {
		for it := simrt.MapIter(m); it.Next(); {
			if !yield(it.V) {
				return
			}
		}
	}
}

func Clone[M ~map[K]V, K comparable, V any](m M) M { return maps.Clone(m) }

func Copy[A ~map[K]V, B ~map[K]V, K comparable, V any](dst A, src B) { maps.Copy(dst, src) }

func Equal[A, B ~map[K]V, K, V comparable](a A, b B) bool { return maps.Equal(a, b) }

func EqualFunc[A ~map[K]V1, B ~map[K]V2, K comparable, V1, V2 any](a A, b B, eq func(V1, V2) bool) bool {
	return maps.EqualFunc(a, b, eq)
}

func DeleteFunc[M ~map[K]V, K comparable, V any](m M, del func(K, V) bool) {
	for it := simrt.MapIter(m); it.Next(); {
		if del(it.K, it.V) {
			delete(m, it.K)
		}
	}
}

func Insert[M ~map[K]V, K comparable, V any](m M, seq iter.Seq2[K, V]) { maps.Insert(m, seq) }

func Collect[K comparable, V any](seq iter.Seq2[K, V]) map[K]V { return maps.Collect(seq) }
