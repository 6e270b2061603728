// Package maps is maps with an iteration order decided by the simulation.
package maps

import (
	"iter"
	std "maps"

	"github.com/iomz/gosstrak/verif/simrt"
)

func All[Map ~map[K]V, K comparable, V any](m Map) iter.Seq2[K, V] { return simrt.RangeMap(m) }

func Keys[Map ~map[K]V, K comparable, V any](m Map) iter.Seq[K] {
	return func(yield func(K) bool) {
		for k := range simrt.RangeMap(m) {
			if !yield(k) {
				return
			}
		}
	}
}

func Values[Map ~map[K]V, K comparable, V any](m Map) iter.Seq[V] {
	return func(yield func(V) bool) {
		for _, v := range simrt.RangeMap(m) {
			if !yield(v) {
				return
			}
		}
	}
}

func Insert[Map ~map[K]V, K comparable, V any](m Map, seq iter.Seq2[K, V]) { std.Insert(m, seq) }
func Collect[K comparable, V any](seq iter.Seq2[K, V]) map[K]V             { return std.Collect(seq) }
func Clone[M ~map[K]V, K comparable, V any](m M) M                         { return std.Clone(m) }
func Copy[M1 ~map[K]V, M2 ~map[K]V, K comparable, V any](dst M1, src M2)   { std.Copy(dst, src) }
func Equal[M1, M2 ~map[K]V, K, V comparable](a M1, b M2) bool              { return std.Equal(a, b) }
func EqualFunc[M1 ~map[K]V1, M2 ~map[K]V2, K comparable, V1, V2 any](a M1, b M2, eq func(V1, V2) bool) bool {
	return std.EqualFunc(a, b, eq)
}
func DeleteFunc[M ~map[K]V, K comparable, V any](m M, del func(K, V) bool) {
	for k, v := range simrt.RangeMap(m) {
		if del(k, v) {
			delete(m, k)
		}
	}
}
