package vrt

import (
	"fmt"
	"iter"
	"reflect"
	"sort"
)

// Zero resets a variable to its zero value.
func Zero[T any](p *T) {
	var z T
	*p = z
}

// MapRange iterates over a map. Sorted order of the keys is the default; every other order
// is a choice of the explorer.
func MapRange[M ~map[K]V, K comparable, V any](m M) func(func(K, V) bool) {
	return func(yield func(K, V) bool) {
		keys := make([]K, 0, len(m))
		for k := range m {
			keys = append(keys, k)
		}
		sort.SliceStable(keys, func(i, j int) bool { return keyLess(reflect.ValueOf(keys[i]), reflect.ValueOf(keys[j])) })
		for len(keys) > 0 {
			i := Choose("map order", len(keys), 1)
			k := keys[i]
			keys = append(keys[:i:i], keys[i+1:]...)
			v, ok := m[k]
			if !ok && k == k {
				continue // deleted meanwhile
			}
			if !yield(k, v) {
				return
			}
		}
	}
}

// MapKeys, MapValues and MapAll replace the functions of package maps.
func MapKeys[M ~map[K]V, K comparable, V any](m M) iter.Seq[K] {
	return func(yield func(K) bool) {
		MapRange[M, K, V](m)(func(k K, _ V) bool { return yield(k) })
	}
}

func MapValues[M ~map[K]V, K comparable, V any](m M) iter.Seq[V] {
	return func(yield func(V) bool) {
		MapRange[M, K, V](m)(func(_ K, v V) bool { return yield(v) })
	}
}

func MapAll[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] { return MapRange[M, K, V](m) }

// Gosched replaces runtime.Gosched: others run, and time passes.
func Gosched() { Sleep(1e6) }

func keyLess(a, b reflect.Value) bool {
	if !a.IsValid() || !b.IsValid() || a.Kind() != b.Kind() {
		return fmt.Sprint(a) < fmt.Sprint(b)
	}
	switch {
	case a.CanInt():
		return a.Int() < b.Int()
	case a.CanUint():
		return a.Uint() < b.Uint()
	case a.CanFloat():
		return a.Float() < b.Float()
	case a.Kind() == reflect.String:
		return a.String() < b.String()
	case a.Kind() == reflect.Pointer && !a.IsNil() && !b.IsNil():
		return keyLess(a.Elem(), b.Elem())
	}
	return fmt.Sprintf("%+v", a) < fmt.Sprintf("%+v", b)
}
