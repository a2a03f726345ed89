package simrt

import (
	"fmt"
	"reflect"
	"sort"
)

// MapIt walks a map in an order drawn from the seed.
type MapIt[K comparable, V any] struct {
	m    map[K]V
	keys []K
	i    int
}

var mapIters uint64

// MapIter is the range clause over m of instrumented code. The zero values are
// the loop variables.
func MapIter[M ~map[K]V, K comparable, V any](m M) (it *MapIt[K, V], k K, v V) {
	it = &MapIt[K, V]{m: m}
	for k := range m {
		it.keys = append(it.keys, k)
	}
	ks := it.keys
	if len(ks) < 2 {
		return
	}
	switch reflect.TypeOf(&ks[0]).Elem().Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		sort.Slice(ks, func(i, j int) bool { return reflect.ValueOf(ks[i]).Int() < reflect.ValueOf(ks[j]).Int() })
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		sort.Slice(ks, func(i, j int) bool { return reflect.ValueOf(ks[i]).Uint() < reflect.ValueOf(ks[j]).Uint() })
	case reflect.String:
		sort.Slice(ks, func(i, j int) bool { return reflect.ValueOf(ks[i]).String() < reflect.ValueOf(ks[j]).String() })
	case reflect.Bool, reflect.Array, reflect.Struct, reflect.Float32, reflect.Float64, reflect.Complex64, reflect.Complex128:
		sort.Slice(ks, func(i, j int) bool { return fmt.Sprint(ks[i]) < fmt.Sprint(ks[j]) })
	default:
		return // no order that a later run could repeat
	}
	mapIters++
	for i := len(ks) - 1; i > 0; i-- {
		j := int(Hash(env.Tape, env.Inc, mapIters, uint64(i), 0x6d6170) % uint64(i+1))
		ks[i], ks[j] = ks[j], ks[i]
	}
	return
}

// Next moves to the next key that is still present.
func (it *MapIt[K, V]) Next(k *K, v *V) bool {
	for it.i < len(it.keys) {
		x := it.keys[it.i]
		it.i++
		y, ok := it.m[x]
		if !ok {
			continue
		}
		if k != nil {
			*k = x
		}
		if v != nil {
			*v = y
		}
		return true
	}
	return false
}
