# sifting with a hole, one body for the equal functions, the wrappers of slices over each other
KEY="heap queue set slice list ring"
H="gogenerics/gcontainers/gheap/heap.go"; S="gogenerics/gcontainers/gslice/slice.go"; Q="gogenerics/gcontainers/gqueue/fifo.go"; SE="gogenerics/gcontainers/gset/set.go"
EDITS=[
(H,'''	for {
		left := (index * 2) + 1
		right := left + 1
		if left >= len(x) {
			break
		}
		c := left
		if len(x) > right && less(x[right], x[left]) {
			c = right
		}
		if less(x[index], x[c]) {
			break
		}
		x[c], x[index] = x[index], x[c]
		index = c
	}
''','''	v := x[index]
	for c := index*2 + 1; c < len(x); c = index*2 + 1 {
		if c+1 < len(x) && less(x[c+1], x[c]) {
			c++
		}
		if !less(x[c], v) {
			break
		}
		x[index] = x[c]
		index = c
	}
	x[index] = v
'''),
(H,'''	for index > 0 {
		p := (index - 1) / 2
		if less(x[p], x[index]) {
			break
		}
		x[p], x[index] = x[index], x[p]
		index = p
	}
''','''	v := x[index]
	for index > 0 {
		p := (index - 1) / 2
		if !less(v, x[p]) {
			break
		}
		x[index] = x[p]
		index = p
	}
	x[index] = v
'''),
(H,'''	x := &h.data
	ret := (*x)[0]
	(*x)[0], *x = (*x)[len(*x)-1], (*x)[:len(*x)-1]
	if len(*x) > 0 {
		siftDown((*x), 0, h.less)
	}
	h.data = (*x)
	return ret
''','''	ret := h.data[0]
	n := len(h.data) - 1
	h.data[0] = h.data[n]
	var zero T
	h.data[n] = zero
	h.data = h.data[:n]
	if n > 1 {
		siftDown(h.data, 0, h.less)
	}
	return ret
'''),
(S,'''	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
''','''	return EqualWithFunc(a, b, func(x, y T) bool { return x == y })
'''),
(S,'''	for i := range s {
		if s[i] == target {
			return i
		}
	}
	return -1
''','''	return IndexWithFunc(s, func(v T) bool { return v == target })
'''),
(S,'''	l := Len(s)
	if l == 0 {
		return make([]T, 0), 0
	}

	idx := 0
	seem := make(map[T]struct{}, len(s)) // comparable instead of any
	uniqS := make([]T, len(s))
	for _, v := range s {
		if _, ok := seem[v]; ok {
			continue
		}
		uniqS[idx] = v
		idx++
		seem[v] = struct{}{}
	}
	return uniqS[:idx], idx
''','''	return UniqueWithFunc(s, func(v T) T { return v })
'''),
(S,'''	for i := len(x) - 1; i > 0; i-- {
		if x[i] < x[i-1] {
			return false
		}
	}
	return true
''','''	return IsSortedFunc(x, func(a, b T) bool { return a < b })
'''),
(S,'''	if s1 == nil && s2 == nil {
		return []T{}
	}
	if s1 == nil {
		return Copy(s2)
	}
	if s2 == nil {
		return Copy(s1)
	}
	return append(Copy(s1), s2...)
''','''	res := make([]T, 0, len(s1)+len(s2))
	res = append(res, s1...)
	return append(res, s2...)
'''),
(S,'''	if s == nil {
		return nil
	}
	return append([]T{}, s...)
''','''	if s == nil {
		return nil
	}
	c := make([]T, len(s))
	copy(c, s)
	return c
'''),
(S,'''	l := len(s)
	mid := l >> 1

	for i := 0; i < mid; i++ {
		s[i], s[l-1-i] = s[l-1-i], s[i]
	}
	return s
''','''	for i, j := 0, len(s)-1; i < j; i, j = i+1, j-1 {
		s[i], s[j] = s[j], s[i]
	}
	return s
'''),
(Q,'''	val := q.list.Front().Value
	q.list.Remove(q.list.Front())
	q.length--
	return val, nil
''','''	head := q.list.Front()
	q.length--
	q.list.Remove(head)
	return head.Value, nil
'''),
(SE,'''	for k := range s {
		delete(s, k)
	}
''','''	for _, k := range Items(s) {
		Remove(s, k)
	}
''') if 0 else (SE,'''	_, ok := s[e]
	return ok
''','''	if _, ok := s[e]; ok {
		return true
	}
	return false
'''),
]
