package simrt

import (
	"encoding/binary"
	"math"
	"os"
	"reflect"
	"slices"
	"strconv"
	"strings"
	"unsafe"
)

// MapRange iterates over a map in an order chosen by the simulator: the sorted
// order of the keys, or a permutation of it. As in Go, an entry removed before
// it is reached is skipped, and one added meanwhile may or may not be visited.
type MapRange[K comparable, V any] struct {
	m     map[K]V
	keys  []K
	nan   []V
	nnan  int
	i     int
	added bool
	K     K
	V     V
}

// MapIter starts an iteration over m.
//
//go:norace
func MapIter[M ~map[K]V, K comparable, V any](m M) *MapRange[K, V] {
	it := &MapRange[K, V]{m: m}
	if len(m) == 0 {
		// Still read the map, as the loop would.
		for range m {
		}
		return it
	}
	it.keys = make([]K, 0, len(m))
	for k, v := range m {
		if k != k {
			it.nan = append(it.nan, v)
			continue
		}
		it.keys = append(it.keys, k)
	}
	sortKeys(it.keys)
	if n := len(it.keys); n > 1 {
		if p := mapPerm(n); p != 0 {
			r := Rand{s: uint64(p)}
			for i := n - 1; i > 0; i-- {
				j := r.Intn(i + 1)
				it.keys[i], it.keys[j] = it.keys[j], it.keys[i]
			}
			it.added = p&1 != 0
		}
	}
	return it
}

// initOrder decides on the order of iterations while packages are loaded. It is
// sorted order unless the environment holds a seed.
var initOrder = func() *Rand {
	if n, _ := strconv.Atoi(os.Getenv("SIM_INIT")); n > 0 {
		return NewRand(uint64(n))
	}
	return nil
}()

// mapPerm decides on the order of an iteration over n keys; 0 is sorted order.
func mapPerm(n int) int {
	s := sim
	if s == nil && initOrder != nil {
		return 1 + initOrder.Intn(1<<20-1)
	}
	if s == nil || s.aborting {
		return 0
	}
	s.stats.Maps++
	return s.decide(1<<20, func() int {
		if !s.cfg.MapOrder {
			return 0
		}
		return 1 + s.rng.Intn(1<<20-1)
	})
}

// Next advances the iteration.
//
//go:norace
func (it *MapRange[K, V]) Next() bool {
	for {
		for it.i < len(it.keys) {
			k := it.keys[it.i]
			it.i++
			if v, ok := it.m[k]; ok {
				it.K, it.V = k, v
				return true
			}
		}
		if !it.added {
			break
		}
		it.added = false
		seen := make(map[K]bool, len(it.keys))
		for _, k := range it.keys {
			seen[k] = true
		}
		n := len(it.keys)
		for k := range it.m {
			if k == k && !seen[k] {
				it.keys = append(it.keys, k)
			}
		}
		sortKeys(it.keys[n:])
	}
	if it.nnan < len(it.nan) {
		it.V = it.nan[it.nnan]
		it.nnan++
		return true
	}
	return false
}

// Zero returns zero values of the key and element types.
//
//go:norace
func (it *MapRange[K, V]) Zero() (k K, v V) { return }

// sortKeys puts keys in a canonical order.
//
//go:norace
func sortKeys[K comparable](keys []K) {
	if len(keys) < 2 {
		return
	}
	p := unsafe.Pointer(&keys)
	switch reflect.TypeOf(keys).Elem().Kind() {
	case reflect.String:
		slices.Sort(*(*[]string)(p))
	case reflect.Int:
		slices.Sort(*(*[]int)(p))
	case reflect.Int64:
		slices.Sort(*(*[]int64)(p))
	case reflect.Int32:
		slices.Sort(*(*[]int32)(p))
	case reflect.Uint8:
		slices.Sort(*(*[]uint8)(p))
	default:
		sortCoded(keys, func(i int) reflect.Value { return reflect.ValueOf(&keys[i]).Elem() })
	}
}

// sortCoded orders keys by a description of their content.
//
//go:norace
func sortCoded[K any](keys []K, at func(int) reflect.Value) {
	type coded struct {
		s string
		k K
	}
	cs := make([]coded, len(keys))
	var b []byte
	for i, k := range keys {
		b = code(b[:0], at(i))
		cs[i] = coded{string(b), k}
	}
	slices.SortStableFunc(cs, func(a, b coded) int { return strings.Compare(a.s, b.s) })
	for i := range cs {
		keys[i] = cs[i].k
	}
}

// code describes a value by its content; pointers, channels and functions are
// all alike, except pointers that offer an order of their own.
func code(b []byte, v reflect.Value) []byte {
	switch v.Kind() {
	case reflect.Pointer:
		if v.CanInterface() && !v.IsNil() {
			if k, ok := v.Interface().(interface{ SimKey() uint64 }); ok {
				b = binary.BigEndian.AppendUint64(b, k.SimKey())
			}
		}
	case reflect.String:
		b = append(b, v.String()...)
		b = append(b, 0)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		b = binary.BigEndian.AppendUint64(b, uint64(v.Int())^1<<63)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		b = binary.BigEndian.AppendUint64(b, v.Uint())
	case reflect.Float32, reflect.Float64:
		b = binary.BigEndian.AppendUint64(b, math.Float64bits(v.Float()+0))
	case reflect.Bool:
		x := byte(0)
		if v.Bool() {
			x = 1
		}
		b = append(b, x)
	case reflect.Complex64, reflect.Complex128:
		c := v.Complex()
		b = binary.BigEndian.AppendUint64(b, math.Float64bits(real(c)+0))
		b = binary.BigEndian.AppendUint64(b, math.Float64bits(imag(c)+0))
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			b = code(b, v.Field(i))
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			b = code(b, v.Index(i))
		}
	case reflect.Interface:
		if v.IsNil() {
			return append(b, 0)
		}
		x := v.Elem()
		b = append(append(b, x.Type().String()...), 0)
		// Well-known pointer types that have a name of their own.
		if s, ok := typeName(x); ok {
			return append(append(b, s...), 0)
		}
		b = code(b, x)
	}
	return b
}

func typeName(v reflect.Value) (string, bool) {
	if v.Type().String() != "*reflect.rtype" || !v.CanInterface() {
		return "", false
	}
	t := v.Interface().(reflect.Type)
	return t.PkgPath() + "." + t.String(), true
}
