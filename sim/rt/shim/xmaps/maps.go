// Package maps is the simulated counterpart of maps: walks are in an order decided by the simulator.
package maps

import (
	"iter"
	"maps"

	"github.com/fredbi/go-typeset/zsim/simrt"
)

func All[Map ~map[K]V, K comparable, V any](m Map) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		for k, v, it := simrt.MapIter(m); it.Next(&k, &v); {
			if !yield(k, v) {
				return
			}
		}
	}
}

func Keys[Map ~map[K]V, K comparable, V any](m Map) iter.Seq[K] {
	return func(yield func(K) bool) {
		for k, v, it := simrt.MapIter(m); it.Next(&k, &v); {
			if !yield(k) {
				return
			}
		}
	}
}

func Values[Map ~map[K]V, K comparable, V any](m Map) iter.Seq[V] {
	return func(yield func(V) bool) {
		for k, v, it := simrt.MapIter(m); it.Next(&k, &v); {
			if !yield(v) {
				return
			}
		}
	}
}

func Insert[Map ~map[K]V, K comparable, V any](m Map, seq iter.Seq2[K, V]) { maps.Insert(m, seq) }

func Collect[K comparable, V any](seq iter.Seq2[K, V]) map[K]V { return maps.Collect(seq) }

func Equal[M1, M2 ~map[K]V, K, V comparable](m1 M1, m2 M2) bool { return maps.Equal(m1, m2) }

func EqualFunc[M1 ~map[K]V1, M2 ~map[K]V2, K comparable, V1, V2 any](m1 M1, m2 M2, eq func(V1, V2) bool) bool {
	if len(m1) != len(m2) {
		return false
	}
	for k, v1, it := simrt.MapIter(m1); it.Next(&k, &v1); {
		if v2, ok := m2[k]; !ok || !eq(v1, v2) {
			return false
		}
	}
	return true
}

func Clone[M ~map[K]V, K comparable, V any](m M) M { return maps.Clone(m) }

func Copy[M1 ~map[K]V, M2 ~map[K]V, K comparable, V any](dst M1, src M2) { maps.Copy(dst, src) }

func DeleteFunc[M ~map[K]V, K comparable, V any](m M, del func(K, V) bool) {
	for k, v, it := simrt.MapIter(m); it.Next(&k, &v); {
		if del(k, v) {
			delete(m, k)
		}
	}
}
