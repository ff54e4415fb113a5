# another map altogether: one lock around a Go map
KEY="map"
WHOLE={"gogenerics/gconcurrent/sync/map.go":'''package sync

import "sync"

// Map is like a Go map[K]V but is safe for concurrent use.
type Map[K comparable, V any] struct {
	mu sync.RWMutex
	m  map[K]V
}

func (m *Map[K, V]) update(f func()) {
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.m == nil {
		m.m = map[K]V{}
	}
	f()
}

func (m *Map[K, V]) Load(key K) (value V, ok bool) {
	m.mu.RLock()
	defer m.mu.RUnlock()
	value, ok = m.m[key]
	return
}

func (m *Map[K, V]) Store(key K, value V) {
	m.update(func() { m.m[key] = value })
}

func (m *Map[K, V]) LoadOrStore(key K, value V) (actual V, loaded bool) {
	m.update(func() {
		if actual, loaded = m.m[key]; !loaded {
			actual, m.m[key] = value, value
		}
	})
	return
}

func (m *Map[K, V]) LoadAndDelete(key K) (value V, loaded bool) {
	m.update(func() {
		value, loaded = m.m[key]
		delete(m.m, key)
	})
	return
}

func (m *Map[K, V]) Delete(key K) { m.LoadAndDelete(key) }

func (m *Map[K, V]) Swap(key K, value V) (previous V, loaded bool) {
	m.update(func() {
		previous, loaded = m.m[key]
		m.m[key] = value
	})
	return
}

func (m *Map[K, V]) CompareAndSwap(key K, old, new V) (swapped bool) {
	m.update(func() {
		if v, ok := m.m[key]; ok && any(v) == any(old) {
			m.m[key] = new
			swapped = true
		}
	})
	return
}

func (m *Map[K, V]) CompareAndDelete(key K, old V) (deleted bool) {
	m.update(func() {
		if v, ok := m.m[key]; ok && any(v) == any(old) {
			delete(m.m, key)
			deleted = true
		}
	})
	return
}

func (m *Map[K, V]) Range(f func(key K, value V) bool) {
	m.mu.RLock()
	keys := make([]K, 0, len(m.m))
	for k := range m.m {
		keys = append(keys, k)
	}
	m.mu.RUnlock()
	for _, k := range keys {
		if v, ok := m.Load(k); ok && !f(k, v) {
			return
		}
	}
}
'''}
