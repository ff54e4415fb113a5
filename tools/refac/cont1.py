KEY="heap list ring queue set slice num"
EDITS=[
("gogenerics/gcontainers/gheap/heap.go",'''	x := &h.data
	(*x) = append((*x), v)
	siftUp(*x, len(*x)-1, h.less)
	h.data = (*x)
''','''	h.data = append(h.data, v)
	siftUp(h.data, len(h.data)-1, h.less)
'''),
("gogenerics/gcontainers/gheap/heap.go",'''	x := &h.data
	ret := (*x)[0]
	(*x)[0], *x = (*x)[len(*x)-1], (*x)[:len(*x)-1]
	if len(*x) > 0 {
		siftDown((*x), 0, h.less)
	}
	h.data = (*x)
	return ret
''','''	last := len(h.data) - 1
	ret := h.data[0]
	h.data[0] = h.data[last]
	h.data = h.data[:last]
	siftDown(h.data, 0, h.less)
	return ret
'''),
("gogenerics/gcontainers/gheap/heap.go",'''		if less(x[index], x[c]) {
			break
		}
		x[c], x[index] = x[index], x[c]
''','''		if !less(x[c], x[index]) {
			break
		}
		x[c], x[index] = x[index], x[c]
'''),
("gogenerics/gcontainers/gring/ring.go",'''	switch {
	case n < 0:
		for ; n < 0; n++ {
			r = r.prev
		}
	case n > 0:
		for ; n > 0; n-- {
			r = r.next
		}
	}
	return r
''','''	for n < 0 {
		r = r.prev
		n++
	}
	for ; n > 0; n-- {
		r = r.next
	}
	return r
'''),
("gogenerics/gcontainers/gqueue/fifo.go",'''	ch := make(chan T, q.length)
	defer close(ch)
	for {
		val, err := q.Pop()
		if err != nil {
			break
		}
		ch <- val
	}
	return ch
''','''	ch := make(chan T, q.Len())
	for !IsEmpty(q) {
		val, _ := q.Pop()
		ch <- val
	}
	close(ch)
	return ch
'''),
("gogenerics/gcontainers/gqueue/fifo.go",'''	res := make([]T, q.length)
	var idx int
	q.list.Range(func(e *glist.Element[T]) {
		res[idx] = e.Value
		idx++
	})
	return res
''','''	res := make([]T, 0, q.length)
	for e := q.list.Front(); e != nil; e = e.Next() {
		res = append(res, e.Value)
	}
	return res
'''),
("gogenerics/gcontainers/gmap/map.go",'''	for k, v1 := range m1 {
		v2, ok := m2[k]
		if !ok || v2 != v1 {
			return false
		}
	}
	return true
''','''	return EqualWithFunc(m1, m2, func(a, b V) bool { return a == b })
'''),
("gogenerics/gcontainers/gslice/slice.go",'''	idx := 0
	seem := make(map[T]struct{}, len(s)) // comparable instead of any
	uniqS := make([]T, len(s))
	for _, v := range s {
		if _, ok := seem[v]; ok {
			continue
		}
		uniqS[idx] = v
		idx++
		seem[v] = struct{}{}
	}
	return uniqS[:idx], idx
''','''	return UniqueWithFunc(s, func(v T) T { return v })
'''),
("gogenerics/gcontainers/gslice/slice.go",'''	for i := len(x) - 1; i > 0; i-- {
		if x[i] < x[i-1] {
			return false
		}
	}
	return true
''','''	for i := 1; i < len(x); i++ {
		if x[i] < x[i-1] {
			return false
		}
	}
	return true
'''),
("gogenerics/gnumerics/math.go",'''	minC = collection[0]
	for i := 1; i < l; i++ {
		c := collection[i]
		if c < minC {
			minC = c
		}
	}
	return minC
''','''	return MinBy(collection, func(a, b T) bool { return a < b })
'''),
]
