package simrt

import (
	"fmt"
	"iter"
	"sort"
)

// RangeMap iterates over a map in an order decided by the simulation.
func RangeMap[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		for _, k := range OrderedKeys(m) {
			v, ok := m[k]
			if !ok {
				continue
			}
			if !yield(k, v) {
				return
			}
		}
	}
}

// OrderedKeys returns the keys in a simulated-random order.
func OrderedKeys[M ~map[K]V, K comparable, V any](m M) []K {
	ks := make([]K, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	if len(ks) < 2 {
		return ks
	}
	sortKeys(ks)
	if S != nil && !S.cur.killed {
		// rotate and maybe reverse: cheap, and reaches every first element
		n := len(ks)
		if n <= 4 {
			for i := 0; i < n-1; i++ {
				j := i + S.choose(n-i)
				ks[i], ks[j] = ks[j], ks[i]
			}
			return ks
		}
		r := S.choose(2 * n)
		if r >= n {
			for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
				ks[i], ks[j] = ks[j], ks[i]
			}
			r -= n
		}
		ks = append(ks[r:], ks[:r]...)
	}
	return ks
}

func sortKeys[K comparable](ks []K) {
	switch x := any(ks).(type) {
	case []string:
		sort.Strings(x)
	case []int:
		sort.Ints(x)
	default:
		type sk struct {
			s string
			k K
		}
		t := make([]sk, len(ks))
		for i, k := range ks {
			t[i] = sk{keyString(k), k}
		}
		sort.SliceStable(t, func(i, j int) bool { return t[i].s < t[j].s })
		for i := range t {
			ks[i] = t[i].k
			if i > 0 && t[i].s == t[i-1].s {
				panic(fmt.Sprintf("simrt: cannot order map keys of type %T deterministically", ks[i]))
			}
		}
	}
}

func keyString(k any) string {
	switch v := k.(type) {
	case uint32:
		return fmt.Sprintf("%010d", v)
	case uint64:
		return fmt.Sprintf("%020d", v)
	case uint16:
		return fmt.Sprintf("%05d", v)
	}
	s := fmt.Sprintf("%020v", k)
	return s
}

type number interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr | ~float32 | ~float64
}

// Add is *p += d with a preemption point between the read and the write.
func Add[T number](p *T, d T) {
	t := *p
	Y(lastSite)
	*p = t + d
}

// Sub is *p -= d with a preemption point between the read and the write.
func Sub[T number](p *T, d T) {
	t := *p
	Y(lastSite)
	*p = t - d
}

// Zero resets a package variable.
func Zero[T any](p *T) { var z T; *p = z }
