KEY="bits"
F="library/bitset/bitset.go"
EDITS=[
(F,'''	if sgi == egi {
		return bits.OnesCount8(b.set[sgi] << sbi >> sbi >> (7 - ebi))
	}
	var n int
	n += bits.OnesCount8(b.set[sgi] << sbi)
	for _, v := range b.set[sgi+1 : egi] {
		n += bits.OnesCount8(v)
	}
	n += bits.OnesCount8(b.set[egi] >> (7 - ebi) << (7 - ebi))
	return n
''','''	n := 0
	for i := sgi; i <= egi; i++ {
		v := b.set[i]
		if i == sgi {
			v &= 0xff >> sbi
		}
		if i == egi {
			v &= 0xff << (7 - ebi)
		}
		n += bits.OnesCount8(v)
	}
	return n
'''),
(F,'''	b.mu.Lock()
	for i := range b.set {
		b.set[i] = 0
	}
	b.mu.Unlock()
''','''	b.mu.Lock()
	defer b.mu.Unlock()
	b.set = make([]byte, len(b.set))
'''),
(F,'''	b.mu.RLock()
	set := make([]byte, len(b.set))
	copy(set, b.set)
	b.mu.RUnlock()
	return set
''','''	b.mu.RLock()
	defer b.mu.RUnlock()
	return append(make([]byte, 0, len(b.set)), b.set...)
'''),
(F,'''	for _, g := range bitSets {
		for i, gb := range g.set {
			switch op {
			case "|":
				rBitSet.set[i] = rBitSet.set[i] | gb
			case "^":
				rBitSet.set[i] = rBitSet.set[i] ^ gb
			case "&^":
				rBitSet.set[i] = rBitSet.set[i] &^ gb
			}
		}
	}
	return rBitSet
''','''	f := ops[op]
	for _, g := range bitSets {
		for i := range g.set {
			rBitSet.set[i] = f(rBitSet.set[i], g.set[i])
		}
	}
	return rBitSet
'''),
(F,'''// snapshot returns a private copy of b.
''','''var ops = map[string]func(a, b byte) byte{
	"|":  func(a, b byte) byte { return a | b },
	"^":  func(a, b byte) byte { return a ^ b },
	"&^": func(a, b byte) byte { return a &^ b },
}

// snapshot returns a private copy of b.
'''),
(F,'''	mu  sync.RWMutex
''','''	mu  sync.Mutex2
''' if False else '''	mu  rw
'''),
(F,'''// New creates a bit set object.
''','''type rw struct{ sync.Mutex }

func (m *rw) RLock()   { m.Lock() }
func (m *rw) RUnlock() { m.Unlock() }

// New creates a bit set object.
'''),
]
