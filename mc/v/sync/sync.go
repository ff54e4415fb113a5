// Package sync has the names of the standard package, under the scheduler.
package sync

import (
	"unsafe"

	"verif/rt"
)

type (
	Mutex     = rt.Mutex
	RWMutex   = rt.RWMutex
	WaitGroup = rt.WaitGroup
	Once      = rt.Once
	Pool      = rt.Pool
	Cond      = rt.Cond
	Locker    = rt.Locker
)

func NewCond(l Locker) *Cond { return rt.NewCond(l) }

func OnceFunc(f func()) func() {
	get := OnceValue(func() struct{} { f(); return struct{}{} })
	return func() { get() }
}

func OnceValue[T any](f func() T) func() T {
	var (
		once  Once
		valid bool
		p     any
		res   T
	)
	return func() T {
		once.Do(func() {
			defer func() {
				if !valid {
					p = recover()
					panic(p)
				}
			}()
			res = f()
			valid = true
		})
		if !valid {
			panic(p)
		}
		return res
	}
}

func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	type both struct {
		t T
		u U
	}
	get := OnceValue(func() both { t, u := f(); return both{t, u} })
	return func() (T, U) { b := get(); return b.t, b.u }
}

// Map is a plain map; each operation on it is one step.
type Map struct {
	m    map[any]any
	keys []any // in the order of their insertion
	addr byte
}

func (m *Map) op(name string, write bool) { rt.Section(unsafe.Pointer(&m.addr), name, write) }

func (m *Map) Load(key any) (any, bool) {
	m.op("Map.Load", false)
	v, ok := m.m[key]
	return v, ok
}

func (m *Map) set(key, value any) {
	if m.m == nil {
		m.m = map[any]any{}
	}
	if _, ok := m.m[key]; !ok {
		m.keys = append(m.keys, key)
	}
	m.m[key] = value
}

func (m *Map) del(key any) {
	delete(m.m, key)
	for i, k := range m.keys {
		if k == key {
			m.keys = append(append([]any(nil), m.keys[:i]...), m.keys[i+1:]...)
			return
		}
	}
}

func (m *Map) Store(key, value any) { m.Swap(key, value) }

func (m *Map) Swap(key, value any) (any, bool) {
	m.op("Map.Swap", true)
	v, ok := m.m[key]
	m.set(key, value)
	return v, ok
}

func (m *Map) LoadOrStore(key, value any) (any, bool) {
	m.op("Map.LoadOrStore", true)
	if v, ok := m.m[key]; ok {
		return v, true
	}
	m.set(key, value)
	return value, false
}

func (m *Map) LoadAndDelete(key any) (any, bool) {
	m.op("Map.LoadAndDelete", true)
	v, ok := m.m[key]
	if ok {
		m.del(key)
	}
	return v, ok
}

func (m *Map) Delete(key any) { m.LoadAndDelete(key) }

func (m *Map) CompareAndSwap(key, old, new any) bool {
	m.op("Map.CompareAndSwap", true)
	if v, ok := m.m[key]; !ok || v != old {
		return false
	}
	m.set(key, new)
	return true
}

func (m *Map) CompareAndDelete(key, old any) bool {
	m.op("Map.CompareAndDelete", true)
	if v, ok := m.m[key]; !ok || v != old {
		return false
	}
	m.del(key)
	return true
}

func (m *Map) Clear() {
	m.op("Map.Clear", true)
	m.m, m.keys = nil, nil
}

func (m *Map) Range(f func(key, value any) bool) {
	m.op("Map.Range", false)
	keys := append([]any(nil), m.keys...)
	for _, k := range keys {
		m.op("Map.Range step", false)
		if v, ok := m.m[k]; ok && !f(k, v) {
			return
		}
	}
}
