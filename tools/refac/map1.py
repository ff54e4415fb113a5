KEY="map"
F="gogenerics/gconcurrent/sync/map.go"
EDITS=[
(F,'''	p := e.p.Load()
	if p == nil || unsafe.Pointer(p) == expunged || any(*p) != any(old) {
		return false
	}

	// Copy the interface after the first load to make this method more amenable
	// to escape analysis: if the comparison fails from the start, we shouldn't
	// bother heap-allocating an interface value to store.
	nc := new
	for {
		if e.p.CompareAndSwap(p, &nc) {
			return true
		}
		p = e.p.Load()
		if p == nil || unsafe.Pointer(p) == expunged || any(*p) != any(old) {
			return false
		}
	}
''','''	nc := new
	for p := e.p.Load(); e.live(p) && any(*p) == any(old); p = e.p.Load() {
		if e.p.CompareAndSwap(p, &nc) {
			return true
		}
	}
	return false
'''),
(F,'''// unexpungeLocked ensures''','''func (*entry[V]) live(p *V) bool {
	return p != nil && unsafe.Pointer(p) != expunged
}

// unexpungeLocked ensures'''),
(F,'''	read := m.loadReadOnly()
	e, ok := read.m[key]
	if !ok && read.amended {
		m.mu.Lock()
		// Avoid reporting a spurious miss if m.dirty got promoted while we were
		// blocked on m.mu. (If further loads of the same key will not miss, it's
		// not worth copying the dirty map for this key.)
		read = m.loadReadOnly()
		e, ok = read.m[key]
		if !ok && read.amended {
			e, ok = m.dirty[key]
			// Regardless of whether the entry was present, record a miss: this key
			// will take the slow path until the dirty map is promoted to the read
			// map.
			m.missLocked()
		}
		m.mu.Unlock()
	}
	if !ok {
		var zero V
		return zero, false
	}
	return e.load()
}
''','''	read := m.loadReadOnly()
	e, found := read.m[key]
	if !found && read.amended {
		e, found = m.slow(key)
	}
	if found {
		return e.load()
	}
	return value, false
}

func (m *Map[K, V]) slow(key K) (*entry[V], bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	read := m.loadReadOnly()
	if e, ok := read.m[key]; ok || !read.amended {
		return e, ok
	}
	defer m.missLocked()
	e, ok := m.dirty[key]
	return e, ok
}
'''),
]
