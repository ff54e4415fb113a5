KEY="skip"
F="gogenerics/gds/gskiplist/skiplist.go"
EDITS=[
(F,'''	x := fastrand.Uint64() & ((1 << uint(maxLevel-1)) - 1)
	zeroes := bits.TrailingZeros64(x)
	if zeroes <= maxLevel {
		level = zeroes
	}
	return level
''','''	mask := uint64(1)<<uint(maxLevel-1) - 1
	if x := fastrand.Uint64() & mask; x != 0 {
		level = bits.TrailingZeros64(x)
	}
	return level
'''),
(F,'''	if elem, ok := t.findExtended(key, false); ok {
		return elem.value, true
	}
	return gconstraints.Empty[V](), false
}
''','''	elem, ok := t.findExtended(key, false)
	if !ok {
		return gconstraints.Empty[V](), false
	}
	return elem.value, true
}
'''),
(F,'''	for i := t.maxLevel; i >= 0; i-- {
		if t.startLevels[i] != nil && t.startLevels[i].key <= key || i <= level {
			return i
		}
	}
	return 0
''','''	i := t.maxLevel
	for i > 0 && i > level {
		if first := t.startLevels[i]; first != nil && first.key <= key {
			break
		}
		i--
	}
	if i < 0 {
		i = 0
	}
	return i
'''),
(F,'''	if e.prev == nil {
		return t.endLevels[0]
	}
	return e.prev
''','''	if p := e.prev; p != nil {
		return p
	}
	return t.GetLargestNode()
'''),
(F,'''	if _, ok := t.findExtended(key, false); ok {
		t.ChangeValue(key, e)
		return
	}

	level := t.generateLevel(t.maxNewLevel)
''','''	if t.ChangeValue(key, e) {
		return
	}

	level := t.generateLevel(t.maxNewLevel)
'''),
]
