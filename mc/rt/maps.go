package rt

import (
	"fmt"
	"sort"
)

// MapIter is a range loop over a map.
type MapIter[K comparable, V any] struct {
	m    map[K]V
	keys []K
	all  bool
}

// MapFirst starts a range loop over a map: in the order of the keys, or in every order if the program asks for it.
func MapFirst[M ~map[K]V, K comparable, V any](m M) (it *MapIter[K, V], k K, v V, ok bool) {
	it = &MapIter[K, V]{m: m}
	for k := range m {
		it.keys = append(it.keys, k)
	}
	sort.Slice(it.keys, func(i, j int) bool { return less(it.keys[i], it.keys[j]) })
	if s := active(); s != nil {
		it.all = mapOrders(s)
		if mapReverse(s) {
			for i, j := 0, len(it.keys)-1; i < j; i, j = i+1, j-1 {
				it.keys[i], it.keys[j] = it.keys[j], it.keys[i]
			}
		}
	}
	k, v, ok = it.Next()
	return
}

//go:norace
//go:noinline
func mapOrders(s *sched) bool { return s.x.MapOrders }

//go:norace
//go:noinline
func mapReverse(s *sched) bool { return s.mapRev }

// MapReverse makes range loops over maps go backwards, or not any longer.
func MapReverse(on bool) {
	s := active()
	call(&request{name: "map order", now: func() { s.mapRev = on }})
}

//go:norace
//go:noinline
func visited() {
	if s := active(); s != nil {
		s.visits++
	}
}

// Work is how many operations on locks, atomics, channels and the like the execution has made so far, and visits of entries of maps.
//
//go:norace
//go:noinline
func Work() int {
	s := active()
	return s.steps + s.visits
}

var ticks int

// Tick is what functions and loops of containers begin with.
//
//go:norace
//go:noinline
func Tick() { ticks++ }

// Ticks is how many calls of functions and passes of loops there have been in containers.
//
//go:norace
//go:noinline
func Ticks() int { return ticks }

// Next goes on.
func (it *MapIter[K, V]) Next() (k K, v V, ok bool) {
	for len(it.keys) > 0 {
		i := 0
		if it.all {
			i = Choose(len(it.keys))
		}
		k = it.keys[i]
		if i == 0 {
			it.keys = it.keys[1:]
		} else {
			it.keys = append(append([]K(nil), it.keys[:i]...), it.keys[i+1:]...)
		}
		if v, ok = it.m[k]; ok {
			visited()
			return k, v, true
		}
	}
	var zk K
	var zv V
	return zk, zv, false
}

func less(a, b any) bool {
	switch x := a.(type) {
	case string:
		if y, ok := b.(string); ok {
			return x < y
		}
	case int:
		if y, ok := b.(int); ok {
			return x < y
		}
	}
	return fmt.Sprintf("%T %v", a, a) < fmt.Sprintf("%T %v", b, b)
}
