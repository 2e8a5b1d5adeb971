// Package vmap resolves the nondeterminism of ranges over maps, and the clock.
package vmap

import (
	"fmt"
	"reflect"
	"sort"
	"time"
)

// Choose resolves a choice between n alternatives; nil means that all of them are 0.
var Choose func(n int) int

// Base is the order in which keys are visited if all choices are 0.
var Base int

// Clock is what time.Now() returns; every call advances it by Tick.
var (
	Clock = time.Unix(1700000000, 0)
	Tick  = time.Duration(0)
)

// Ranges and Entries count what happened.
var Ranges, Entries int

// Bases is the number of values of Base.
const Bases = 4

// count is not seen by the race detector (iterations may be concurrent).
//
//go:norace
//go:noinline
func count(n int) {
	Ranges++
	Entries += n
}

func Now() time.Time {
	Clock = Clock.Add(Tick)
	return Clock
}

// It iterates over a map.
type It[K comparable, V any] struct {
	K    K
	V    V
	keys []K
	m    map[K]V
}

func less(a, b reflect.Value) bool {
	switch a.Kind() {
	case reflect.String:
		return a.String() < b.String()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return a.Int() < b.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return a.Uint() < b.Uint()
	}
	return fmt.Sprintf("%#v", a.Interface()) < fmt.Sprintf("%#v", b.Interface())
}

// New starts an iteration.
func New[M ~map[K]V, K comparable, V any](m M) (*It[K, V], K, V) {
	it := &It[K, V]{m: m}
	keys := make([]K, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool { return less(reflect.ValueOf(keys[i]), reflect.ValueOf(keys[j])) })
	n := len(keys)
	count(n)
	switch Base {
	case 1: // reversed
		for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
			keys[i], keys[j] = keys[j], keys[i]
		}
	case 2: // rotated by half
		keys = append(keys[n/2:len(keys):len(keys)], keys[:n/2]...)
	case 3: // odd ones first, backwards
		var a, b []K
		for i, k := range keys {
			if i%2 == 0 {
				a = append(a, k)
			} else {
				b = append([]K{k}, b...)
			}
		}
		keys = append(b, a...)
	}
	// at every step, any of the remaining entries may be next
	for i := 0; i < n-1 && Choose != nil; i++ {
		j := i + Choose(n-i)
		k := keys[j]
		copy(keys[i+1:j+1], keys[i:j])
		keys[i] = k
	}
	it.keys = keys
	var k K
	var v V
	return it, k, v
}

// Next goes to the next entry; entries that have been deleted in the meantime are not visited, and neither are
// ones that have been added.
func (it *It[K, V]) Next(k *K, v *V) bool {
	for len(it.keys) > 0 {
		it.K, it.keys = it.keys[0], it.keys[1:]
		var ok bool
		it.V, ok = it.m[it.K]
		if !ok && it.K == it.K {
			continue
		}
		if k != nil {
			*k = it.K
		}
		if v != nil {
			*v = it.V
		}
		return true
	}
	return false
}
