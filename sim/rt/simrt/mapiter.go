package simrt

import (
	"fmt"
	"reflect"
	"sort"
)

// Iter walks a map in an order decided by the simulator.
type Iter[K comparable, V any] struct {
	m    map[K]V
	keys []K
	i    int
}

// MapIter starts an iteration: canonical order, or a permutation drawn by the simulator.
func MapIter[M ~map[K]V, K comparable, V any](m M) (k K, v V, it *Iter[K, V]) {
	it = &Iter[K, V]{m: m}
	for key := range m {
		it.keys = append(it.keys, key)
	}
	SortKeys(it.keys)
	if len(it.keys) > 1 {
		if s := Draw(0); s != 0 {
			r := NewRng(s)
			for i := len(it.keys) - 1; i > 0; i-- {
				j := r.Intn(i + 1)
				it.keys[i], it.keys[j] = it.keys[j], it.keys[i]
			}
		}
	}
	return k, v, it
}

// MapIterOnly is MapIter without the variables.
func MapIterOnly[M ~map[K]V, K comparable, V any](m M) *Iter[K, V] {
	_, _, it := MapIter[M, K, V](m)
	return it
}

// Next moves on. Deleted entries are skipped.
func (it *Iter[K, V]) Next(k *K, v *V) bool {
	for it.i < len(it.keys) {
		key := it.keys[it.i]
		it.i++
		val, ok := it.m[key]
		if !ok && key == key {
			continue
		}
		if k != nil {
			*k = key
		}
		if v != nil {
			*v = val
		}
		return true
	}
	return false
}

// SortKeys in a canonical order.
func SortKeys[K comparable](keys []K) {
	if len(keys) < 2 {
		return
	}
	kind := reflect.TypeOf(&keys[0]).Elem().Kind()
	vals := func(i int) reflect.Value { return reflect.ValueOf(&keys[i]).Elem() }
	var less func(i, j int) bool
	switch kind {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		less = func(i, j int) bool { return vals(i).Int() < vals(j).Int() }
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		less = func(i, j int) bool { return vals(i).Uint() < vals(j).Uint() }
	case reflect.Float32, reflect.Float64:
		less = func(i, j int) bool { return vals(i).Float() < vals(j).Float() }
	case reflect.String:
		less = func(i, j int) bool { return vals(i).String() < vals(j).String() }
	default:
		less = func(i, j int) bool { return fmt.Sprintf("%#v", keys[i]) < fmt.Sprintf("%#v", keys[j]) }
	}
	sort.SliceStable(keys, less)
}
