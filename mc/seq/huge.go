package main

import (
	"cmp"
	"container/list"
	"container/ring"
	"fmt"
	"maps"
	"math/bits"
	"slices"
	"strings"

	"github.com/miniLCT/gosb/gogenerics/gconcurrent/sync"
	"github.com/miniLCT/gosb/gogenerics/gconstraints"
	"github.com/miniLCT/gosb/gogenerics/gcontainers/gheap"
	"github.com/miniLCT/gosb/gogenerics/gcontainers/glist"
	"github.com/miniLCT/gosb/gogenerics/gcontainers/gmap"
	"github.com/miniLCT/gosb/gogenerics/gcontainers/gqueue"
	"github.com/miniLCT/gosb/gogenerics/gcontainers/gring"
	"github.com/miniLCT/gosb/gogenerics/gcontainers/gset"
	"github.com/miniLCT/gosb/gogenerics/gcontainers/gslice"
	rbt "github.com/miniLCT/gosb/gogenerics/gds/grbt"
	"github.com/miniLCT/gosb/gogenerics/gds/gskiplist"
	"github.com/miniLCT/gosb/gogenerics/gnumerics"
	"github.com/miniLCT/gosb/library/bitset"

	"verif/core"
)

// Very large inputs: the sizes around the powers of two and ten up to 100 000, and a million when thorough. They reach what
// depends on size alone: buffers, chunks, counters and growth.

func hugeSizes(c *core.Ctx) []int {
	var s []int
	for p := 1 << 9; p <= core.Pick(c, 1<<16, 1<<20); p <<= 1 {
		s = append(s, p-1, p, p+1)
	}
	for p := 1000; p <= core.Pick(c, 100_000, 1_000_000); p *= 10 {
		s = append(s, p, p+1, 3*p)
	}
	return s
}

// huge runs a check for every size and variant.
func huge(c *core.Ctx, what string, variants int, f func(w *core.W, n, v int)) {
	sizes := hugeSizes(c)
	huge1(c, what, sizes, variants, f)
}

// hugeUpTo leaves out the largest sizes.
func hugeUpTo(c *core.Ctx, limit int, what string, variants int, f func(w *core.W, n, v int)) {
	huge1(c, what, slices.DeleteFunc(hugeSizes(c), func(n int) bool { return n > limit }), variants, f)
}

func huge1(c *core.Ctx, what string, sizes []int, variants int, f func(w *core.W, n, v int)) {
	slices.SortFunc(sizes, func(a, b int) int { return cmp.Compare(b, a) }) // the longest first
	c.Enum("very large: "+what, len(sizes)*variants, func(i int) string {
		return fmt.Sprintf("%d, variant %d", sizes[i/variants], i%variants)
	}, func(w *core.W, i int) bool {
		f(w, sizes[i/variants], i%variants)
		return true
	})
}

// spread is a sequence of different numbers without order.
func spread(n int) []int {
	s := make([]int, n)
	for i := range s {
		s[i] = int(uint32(i*0x9E3779B1) >> 1)
	}
	return s
}

// differ returns the first place where two slices differ.
func differ[T comparable](a, b []T) string {
	for i := range min(len(a), len(b)) {
		if a[i] != b[i] {
			return fmt.Sprintf("%d and %d elements, number %d is %v, should be %v", len(a), len(b), i, a[i], b[i])
		}
	}
	return fmt.Sprintf("%d elements, should be %d", len(a), len(b))
}

func same[T comparable](w *core.W, what string, got, want []T) {
	if !slices.Equal(got, want) {
		w.Fail("%s: %s", what, differ(got, want))
	}
}

func hugeQueue(c *core.Ctx) {
	huge(c, "queue", 3, func(w *core.W, n, v int) {
		s := spread(n)
		q := gqueue.Gen(s)
		if v > 0 { // not from the start
			for i := 0; i < n/2; i++ {
				if x, err := q.Pop(); x != s[i] || err != nil {
					w.Fail("Pop %d gives %d, %v", i, x, err)
				}
				_ = q.Push(i)
				s = append(s, i)
			}
			s = s[n/2:]
		}
		same(w, "PeekAll", gqueue.PeekAll(q), s)
		if v < 2 {
			var got []int
			for x := range gqueue.Iterator(q) {
				got = append(got, x)
			}
			same(w, "Iterator", got, s)
		} else {
			for i, want := range s {
				if q.Len() != len(s)-i {
					w.Fail("Len %d with %d elements", q.Len(), len(s)-i)
				}
				if x, err := q.Pop(); x != want || err != nil {
					w.Fail("Pop %d gives %d, %v", i, x, err)
				}
			}
		}
		if _, err := q.Pop(); q.Len() != 0 || err == nil || !gqueue.IsEmpty(q) {
			w.Fail("not empty after all: %d", q.Len())
		}
	})
}

func hugeList(c *core.Ctx) {
	huge(c, "list", 2, func(w *core.W, n, v int) {
		s := spread(n)
		g, l := glist.New[int](), list.New()
		var es []*glist.Element[int]
		var ls []*list.Element
		for i, x := range s {
			switch {
			case i%3 == 0 || i < 4:
				es, ls = append(es, g.PushBack(x)), append(ls, l.PushBack(x))
			case i%3 == 1:
				es, ls = append(es, g.PushFront(x)), append(ls, l.PushFront(x))
			default:
				es, ls = append(es, g.InsertAfter(x, es[i*7%i])), append(ls, l.InsertAfter(x, ls[i*7%i]))
			}
		}
		check := func(what string) {
			var got, want, back []int
			for e := g.Front(); e != nil; e = e.Next() {
				got = append(got, e.Value)
			}
			for e := g.Back(); e != nil; e = e.Prev() {
				back = append(back, e.Value)
			}
			for e := l.Front(); e != nil; e = e.Next() {
				want = append(want, e.Value.(int))
			}
			same(w, what, got, want)
			slices.Reverse(back)
			same(w, what+", backwards", back, want)
			if g.Len() != l.Len() {
				w.Fail("%s: Len %d, not %d", what, g.Len(), l.Len())
			}
			got = nil
			g.Range(func(e *glist.Element[int]) { got = append(got, e.Value) })
			same(w, what+": Range", got, want)
		}
		check("filled")
		if v == 1 {
			h, m := glist.New[int](), list.New()
			h.PushBackList(g)
			m.PushBackList(l)
			h.PushFrontList(g)
			m.PushFrontList(l)
			h.PushBackList(h)
			m.PushBackList(m)
			g, l = h, m
			check("joined")
			return
		}
		for i := range es {
			switch i % 4 {
			case 0:
				g.Remove(es[i])
				l.Remove(ls[i])
			case 1:
				g.MoveToFront(es[i])
				l.MoveToFront(ls[i])
			case 2:
				g.MoveToBack(es[i])
				l.MoveToBack(ls[i])
			}
		}
		check("moved")
	})
}

func hugeRing(c *core.Ctx) {
	huge(c, "ring", 4, func(w *core.W, n, v int) {
		g, s := gring.New[int](n), ring.New(n)
		for j := 0; j < n; j++ {
			g.Value, s.Value = j, j
			g, s = g.Next(), s.Next()
		}
		check := func(what string, g *gring.Ring[int], s *ring.Ring) {
			var got, want []any
			g.Do(func(x any) { got = append(got, x) })
			s.Do(func(x any) { want = append(want, x) })
			same(w, what, got, want)
			if g.Len() != s.Len() {
				w.Fail("%s: Len %d, not %d", what, g.Len(), s.Len())
			}
		}
		check("New", g, s)
		k := []int{n / 3, n - 1, n + 5, 2*n + 1}[v]
		g, s = g.Move(k), s.Move(k)
		check("Move", g, s)
		g, s = g.Move(-k/2), s.Move(-k/2)
		check("Move back", g, s)
		a, b := g.Unlink(k), s.Unlink(k)
		check("Unlink, left", g, s)
		check("Unlink, removed", a, b)
		if g != a && s != b && a != nil {
			g.Link(a)
			s.Link(b)
			check("Link", g, s)
		}
	})
}

func hugeHeap(c *core.Ctx) {
	less := func(a, b int) bool { return a < b }
	huge(c, "heap", 2*len(core.LongOrders)+2, func(w *core.W, n, v int) {
		var s []int
		if v/2 < len(core.LongOrders) {
			s = core.LongPerm(v/2, n)
		} else {
			s = spread(n)
		}
		var h *gheap.Heap[int]
		if v%2 == 0 {
			h = gheap.NewWithData(slices.Clone(s), less)
		} else {
			h = gheap.New(less)
			for _, x := range s {
				gheap.Push(h, x)
			}
		}
		slices.Sort(s)
		for i, want := range s {
			if got := gheap.Pop(h); got != want {
				w.Fail("Pop %d gives %d, want %d", i, got, want)
			}
			if i%97 == 0 { // back in and out
				gheap.Push(h, want)
				if got := gheap.Pop(h); got != want {
					w.Fail("Pop after a Push at %d gives %d, want %d", i, got, want)
				}
			}
		}
	})
}

func hugeMaps(c *core.Ctx) {
	huge(c, "maps and sets", 1, func(w *core.W, n, v int) {
		s := spread(n)
		m := map[int]int{}
		set := gset.NewSet[int]()
		sized := gset.NewSetWithSize[int](n)
		for i, k := range s {
			m[k] = i
			gset.Add(set, k)
			gset.Add(sized, k)
		}
		n = len(m)
		keys, vals, items := gmap.Keys(m), gmap.Values(m), gset.Items(set)
		entries := gmap.Map2Entries(m)
		if len(entries) != n {
			w.Fail("%d entries of %d", len(entries), n)
		}
		for _, e := range entries {
			if x, ok := m[e.Key]; !ok || x != e.Value {
				w.Fail("entry %v", e)
			}
		}
		want := slices.Sorted(maps.Keys(m))
		slices.Sort(keys)
		slices.Sort(items)
		slices.Sort(vals)
		same(w, "Keys", keys, want)
		same(w, "Items", items, want)
		same(w, "Values", vals, slices.Sorted(maps.Values(m)))
		if back := gmap.Entries2Map(entries); !maps.Equal(back, m) {
			w.Fail("Entries2Map(Map2Entries) differs")
		}
		// repeated keys: the last entry counts
		for rep := 1; rep <= 3; rep++ {
			var es []gconstraints.Entry[int, int]
			last := map[int]int{}
			for i, k := range s {
				if rep == 2 {
					k = s[i/2]
				} else if rep == 3 {
					k %= n/2 + 1
				}
				es = append(es, gconstraints.Entry[int, int]{Key: k, Value: i})
				last[k] = i
			}
			if rep == 1 {
				for i := n - 1; i >= 0; i -= 2 {
					es = append(es, gconstraints.Entry[int, int]{Key: s[i], Value: -i})
					last[s[i]] = -i
				}
			}
			if got := gmap.Entries2Map(es); !maps.Equal(got, last) {
				w.Fail("Entries2Map of entries with repeated keys (%d) differs", rep)
			}
		}
		o := gmap.Copy(m)
		if !maps.Equal(o, m) || !gmap.Equal(o, m) || gmap.Len(m) != n || gset.Len(set) != n || gset.Len(sized) != n {
			w.Fail("Copy, Equal or Len")
		}
		o[want[n/2]]++
		if gmap.Equal(o, m) || gmap.EqualWithFunc(o, m, func(a, b int) bool { return a == b }) {
			w.Fail("Equal misses a different value")
		}
		for _, k := range want {
			if !gset.Contains(sized, k) || !gmap.Contains(m, k) {
				w.Fail("%d is missing", k)
			}
			gset.Remove(sized, k)
		}
		gset.Clear(set)
		gmap.Clear(m)
		if len(m) != 0 || len(set) != 0 || len(sized) != 0 {
			w.Fail("not empty: %d, %d, %d", len(m), len(set), len(sized))
		}
	})
}

func hugeSlices(c *core.Ctx) {
	huge(c, "slices", 3, func(w *core.W, n, v int) {
		s := spread(n)
		if v == 1 { // with repetitions
			for i := range s {
				s[i] %= n/3 + 1
			}
		}
		o := slices.Clone(s)
		seen := map[int]bool{}
		var uniq []int
		for _, x := range o {
			if !seen[x] {
				seen[x] = true
				uniq = append(uniq, x)
			}
		}
		r := slices.Clone(o)
		slices.Reverse(r)
		u, k := gslice.Unique(s)
		same(w, "Unique", u, uniq)
		u, k2 := gslice.UniqueWithFunc(s, func(x int) int { return x })
		same(w, "UniqueWithFunc", u, uniq)
		if k != len(uniq) || k2 != k {
			w.Fail("Unique counts %d and %d", k, k2)
		}
		same(w, "Merge", gslice.Merge(s, r), append(slices.Clone(o), r...))
		same(w, "Copy", gslice.Copy(s), o)
		same(w, "Reverse", gslice.Reverse(gslice.Copy(s)), r)
		same(w, "the input afterwards", s, o)
		for _, at := range []int{0, 1, n / 2, n - 2, n - 1} {
			t := slices.Clone(o)
			t[at] = -1
			if gslice.Equal(s, t) || gslice.EqualWithFunc(s, t, func(a, b int) bool { return a == b }) {
				w.Fail("Equal misses a difference at %d", at)
			}
			if gslice.Index(t, -1) != at || gslice.IndexWithFunc(t, func(x int) bool { return x == -1 }) != at || !gslice.Contains(t, -1) {
				w.Fail("Index misses %d", at)
			}
			t[n-1], t[n/2+n/4] = -1, -1
			if want := min(at, n/2+n/4); gslice.Index(t, -1) != want || gslice.IndexWithFunc(t, func(x int) bool { return x < 0 }) != want {
				w.Fail("Index does not find the first of three, %d", want)
			}
			inc := make([]int, n)
			for i := range inc {
				inc[i] = i / (v + 1)
			}
			if !gslice.IsSorted(inc) || !gslice.IsSortedFunc(inc, func(a, b int) bool { return a < b }) {
				w.Fail("IsSorted is false for a sorted slice")
			}
			if at > 0 {
				inc[at] = inc[at-1] - 1
				if gslice.IsSorted(inc) || gslice.IsSortedFunc(inc, func(a, b int) bool { return a < b }) {
					w.Fail("IsSorted misses the inversion at %d", at)
				}
			}
		}
		if !gslice.Equal(s, o) || gslice.Contains(s, -1) || gslice.Index(s, -1) != -1 {
			w.Fail("Equal or Contains")
		}
	})
}

func hugeExtremes(c *core.Ctx) {
	huge(c, "collections", 7, func(w *core.W, n, v int) {
		at := []int{0, 1, n / 3, n / 2, n - 65, n - 2, n - 1}[v]
		s := spread(n)
		s[at] = 1 << 40
		if got := gnumerics.MaxCollection(s); got != 1<<40 {
			w.Fail("the maximum at %d is missed", at)
		}
		if got := gnumerics.MaxBy(s, func(a, b int) bool { return a > b }); got != 1<<40 {
			w.Fail("MaxBy misses the maximum at %d", at)
		}
		s[at] = -1
		if got := gnumerics.MinCollection(s); got != -1 {
			w.Fail("the minimum at %d is missed", at)
		}
		if got := gnumerics.MinBy(s, func(a, b int) bool { return a < b }); got != -1 {
			w.Fail("MinBy misses the minimum at %d", at)
		}
	})
}

func hugeBytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(uint32(i*0x9E3779B1) >> 13)
	}
	return b
}

func hugeBits(c *core.Ctx) {
	huge(c, "growth", 2, func(w *core.W, n, v int) {
		b := bitset.New()
		if v == 1 {
			b = bitset.New(hugeBytes(n / 16)...)
		}
		mod := bitsOf(b.Bytes())
		for _, o := range []int{n - 1, n / 2, n, n + 9, -1, 3} {
			x := &bitInst{b, mod}
			x.set(w, o, o%2 != 0 || o == n)
			mod = x.mod
		}
		same(w, "Bytes", b.Bytes(), bytesOf(mod))
		if b.Size() != len(mod) {
			w.Fail("Size %d, want %d", b.Size(), len(mod))
		}
		for i, want := range mod {
			if b.Get(i) != want || b.Get(i-len(mod)) != want {
				w.Fail("Get(%d)", i)
			}
		}
		next := 0
		b.Range(func(o int, v bool) bool {
			if o != next || v != mod[o] {
				w.Fail("Range calls f(%d, %v), want offset %d", o, v, next)
			}
			next++
			return true
		})
		if next != len(mod) {
			w.Fail("Range made %d calls of %d", next, len(mod))
		}
		if got, want := b.String(), fmt.Sprintf("%x", bytesOf(mod)); got != want {
			w.Fail("String of %d bytes: %s", len(want)/2, differ([]byte(got), []byte(want)))
		}
		again, err := bitset.NewFromHex(b.String())
		if err != nil {
			w.Fail("NewFromHex: %v", err)
		}
		same(w, "NewFromHex(String())", again.Bytes(), bytesOf(mod))
		var bin []string
		for _, x := range bytesOf(mod) {
			bin = append(bin, fmt.Sprintf("%08b", x))
		}
		if got, want := b.Binary("-"), strings.Join(bin, "-"); got != want {
			w.Fail("Binary of %d bytes: %s", len(bin), differ([]byte(got), []byte(want)))
		}
	})
}

func hugeRanges(c *core.Ctx) {
	huge(c, "ranges", 12, func(w *core.W, n, v int) {
		init := hugeBytes(n/8 + 2)
		from := []int{0, 1, 7, n/2 + 3}[v%4]
		to := []int{n - 1, n, len(init)*8 - 1}[v/4]
		checkRange(w, bitset.New(slices.Clone(init)...), bitsOf(init), from, to)
	})
}

func hugeLogic(c *core.Ctx) {
	huge(c, "operands", 4*3, func(w *core.W, n, v int) {
		sizes := [][]int{{n, n}, {n, n / 2, n + 1}, {5, n}}[v/4]
		var ops []*bitset.BitSet
		var cont [][]byte
		for i, k := range sizes {
			b := hugeBytes(k + i)[i:]
			cont = append(cont, b)
			ops = append(ops, bitset.New(slices.Clone(b)...))
		}
		want := make([]byte, slices.Max(sizes))
		copy(want, cont[0])
		for _, o := range cont[1:] {
			for k := range want {
				x := byte(0)
				if k < len(o) {
					x = o[k]
				}
				switch v % 4 {
				case 0:
					want[k] &= x
				case 1:
					want[k] |= x
				case 2:
					want[k] ^= x
				case 3:
					want[k] &^= x
				}
			}
		}
		f := []func(...*bitset.BitSet) *bitset.BitSet{ops[0].And, ops[0].Or, ops[0].Xor, ops[0].AndNot}[v%4]
		same(w, "the result", f(ops[1:]...).Bytes(), want)
		for i := range ops {
			same(w, "an operand afterwards", ops[i].Bytes(), cont[i])
		}
		r := ops[0].Not().Bytes()
		for k := range r {
			r[k] = ^r[k]
		}
		same(w, "Not", r, cont[0])
	})
}

func hugeSkip(c *core.Ctx) {
	hugeUpTo(c, core.Pick(c, 100_001, 1<<18+1), "skip list", len(core.LongOrders), func(w *core.W, n, v int) {
		l := gskiplist.New[int, int]()
		vals := map[int]int{}
		a, b := core.LongPerm(v, n), core.LongPerm((v+2)%len(core.LongOrders), n)
		insert := func(j, k, v int) {
			withWords([]uint64{1 << bits.LeadingZeros32(uint32((j+1)*0x9E3779B1)^uint32(j)*0x85EBCA6B>>3)}, func() { l.Insert(2*k, v) })
			vals[k] = v
		}
		for j, k := range a {
			insert(j, k, k)
		}
		walk := func(what string, has func(k int) bool) {
			var got, back, want []int
			for k := 0; k < n; k++ {
				if has(k) {
					want = append(want, vals[k])
				}
				x, ok := l.Find(2 * k)
				if ok != has(k) || ok && x != vals[k] {
					w.Fail("%s: Find(%d) = %d, %v", what, 2*k, x, ok)
				}
				if _, ok := l.Find(2*k + 1); ok {
					w.Fail("%s: Find(%d) finds something", what, 2*k+1)
				}
			}
			if l.GetNodeCount() != len(want) || l.IsEmpty() != (len(want) == 0) {
				w.Fail("%s: GetNodeCount() = %d, want %d", what, l.GetNodeCount(), len(want))
			}
			if len(want) == 0 {
				return
			}
			for e, i := l.GetSmallestNode(), 0; i < len(want); e, i = l.Next(e), i+1 {
				got = append(got, e.GetValue())
			}
			same(w, what+": forwards", got, want)
			for e, i := l.GetLargestNode(), 0; i < len(want); e, i = l.Prev(e), i+1 {
				back = append(back, e.GetValue())
			}
			slices.Reverse(back)
			same(w, what+": backwards", back, want)
		}
		walk("filled", func(int) bool { return true })
		for j, k := range b {
			switch j % 3 {
			case 0:
				insert(j, k, -k)
			case 1:
				if !l.ChangeValue(2*k, n+k) || l.ChangeValue(2*k+1, 5) {
					w.Fail("ChangeValue of %d or %d", 2*k, 2*k+1)
				}
				vals[k] = n + k
			}
		}
		walk("overwritten", func(int) bool { return true })
		gone := map[int]bool{}
		for _, k := range b[:n/2] {
			l.Delete(2 * k)
			gone[k] = true
		}
		walk("half deleted", func(k int) bool { return !gone[k] })
		want := n
		for i := n - 1; i >= 0; i-- {
			if !gone[i] {
				want = i
			}
			e, ok := l.FindGreaterOrEqual(2*i - 1)
			if ok != (want < n) || ok && e.GetValue() != vals[want] {
				w.Fail("FindGreaterOrEqual(%d) = %v, want %d", 2*i-1, ok, want)
			}
		}
		for j, k := range b[:n/2] {
			if j%2 == 0 {
				insert(j+5, k, 3*k)
				delete(gone, k)
			}
		}
		walk("filled again", func(k int) bool { return !gone[k] })
		for _, k := range b {
			l.Delete(2 * k)
			gone[k] = true
		}
		walk("all deleted", func(int) bool { return false })
	})
}

func hugeTree(c *core.Ctx, what string) {
	limit := core.Pick(c, 100_001, 1<<18+1)
	if what != "map" {
		limit = core.Pick(c, 1<<14+1, 100_001)
	}
	hugeUpTo(c, limit, "red-black tree", len(core.LongOrders)*2, func(w *core.W, n, v int) {
		s := newRb(v%2 == 1)
		a, b := core.LongPerm(v/2, n), core.LongPerm((v/2+2)%len(core.LongOrders), n)
		for _, k := range a {
			if got := s.tree.Insert(2*k, k+1); got != 0 {
				w.Fail("Insert(%d) returned %d", 2*k, got)
			}
			s.mod[2*k] = k + 1
		}
		check := func(when string) {
			keys := s.keys()
			if s.tree.Len() != len(keys) || s.tree.Empty() != (len(keys) == 0) {
				w.Fail("%s: Len %d, want %d", when, s.tree.Len(), len(keys))
			}
			switch what {
			case "map":
				same(w, when+": Keys", s.tree.Keys(), keys)
				same(w, when+": Values", s.tree.Values(), s.values())
				for k := 0; k < n; k++ {
					if _, ok := s.mod[2*k]; s.tree.Search(2*k) != ok || s.tree.Search(2*k+1) || s.tree.Get(2*k) != s.mod[2*k] {
						w.Fail("%s: Search or Get of %d", when, 2*k)
					}
				}
			case "balance":
				rbHeight(w, s)
				if s.tree.Len() == 0 {
					break
				}
				// views of everything, one half of each deleted
				for i, t := range []*rbt.RbTree[int, int]{s.tree.SubTree(keys[0], true, keys[len(keys)-1], true),
					s.tree.LeftSubTree(keys[len(keys)-1], true), s.tree.RightSubTree(keys[0], true)} {
					v := &rbInst{t, maps.Clone(s.mod), s.calls, s.desc}
					rbHeight(w, v)
					half := keys[len(keys)/2:]
					if i == 1 {
						half = keys[:len(keys)/2]
					}
					for _, k := range half {
						t.Delete(k)
						delete(v.mod, k)
					}
					rbHeight(w, v)
				}
			case "views":
				for _, p := range [][2]int{{n / 2, n}, {n/2 - 1, 2*n + 1}, {-1, n + 1}, {2, 2*n - 4}} {
					lo, hi := p[0], p[1]
					if s.desc {
						lo, hi = hi, lo
					}
					in := func(f func(k int) bool) []int {
						var r []int
						for _, k := range keys {
							if f(k) {
								r = append(r, k)
							}
						}
						return r
					}
					rbTreeIs(w, when+": SubTree", s.tree.SubTree(lo, true, hi, false), in(func(k int) bool { return !s.less(k, lo) && s.less(k, hi) }), s.mod)
					rbTreeIs(w, when+": LeftSubTree", s.tree.LeftSubTree(lo, false), in(func(k int) bool { return s.less(k, lo) }), s.mod)
					rbTreeIs(w, when+": RightSubTree", s.tree.RightSubTree(lo, true), in(func(k int) bool { return !s.less(k, lo) }), s.mod)
				}
				var want []int
				for _, k := range keys {
					if k%6 == 0 {
						want = append(want, s.mod[k])
					}
				}
				same(w, when+": GetIf", s.tree.GetIf(func(k int) bool { return k%6 == 0 }), want)
			}
		}
		check("filled")
		for j, k := range b {
			old := s.mod[2*k]
			switch j % 3 {
			case 0:
				if got := s.tree.Insert(2*k, k+3); got != old {
					w.Fail("Insert(%d) of a key that is there returned %d, want %d", 2*k, got, old)
				}
				s.mod[2*k] = k + 3
			case 1:
				if got, ok := s.tree.Update(2*k, k+5); !ok || got != old {
					w.Fail("Update(%d) returned %d, %v, want %d", 2*k, got, ok, old)
				}
				s.mod[2*k] = k + 5
			}
		}
		check("overwritten")
		for _, k := range b[:n*2/3] {
			if got := s.tree.Delete(2 * k); got != s.mod[2*k] {
				w.Fail("Delete(%d) returned %d", 2*k, got)
			}
			delete(s.mod, 2*k)
		}
		check("mostly deleted")
		for _, k := range b[:n/3] {
			s.tree.Insert(2*k, k+7)
			s.mod[2*k] = k + 7
		}
		check("filled again")
	})
}

func hugeMap(c *core.Ctx) {
	huge(c, "concurrent map", 3, func(w *core.W, n, v int) {
		var m sync.Map[int, int]
		s := spread(n)
		mod := map[int]int{}
		for i, k := range s {
			if v == 2 && i%2 == 0 {
				m.LoadOrStore(k, i)
			} else {
				m.Store(k, i)
			}
			mod[k] = i
			if v >= 1 && i%3 == 0 {
				if x, ok := m.Load(s[i/2]); !ok || x != mod[s[i/2]] {
					w.Fail("Load(%d) = %d, %v", s[i/2], x, ok)
				}
			}
		}
		check := func(when string) {
			got := map[int]int{}
			m.Range(func(k, x int) bool {
				if _, ok := got[k]; ok {
					w.Fail("%s: Range shows %d twice", when, k)
				}
				got[k] = x
				return true
			})
			if !maps.Equal(got, mod) {
				w.Fail("%s: Range shows %d entries, %d are in the map", when, len(got), len(mod))
			}
			for _, k := range s {
				x, ok := m.Load(k)
				if want, wok := mod[k]; x != want || ok != wok {
					w.Fail("%s: Load(%d) = %d, %v; want %d, %v", when, k, x, ok, want, wok)
				}
			}
		}
		check("filled")
		for i, k := range s {
			old := mod[k]
			switch i % 5 {
			case 0:
				m.Store(k, i+n)
				mod[k] = i + n
			case 1:
				if x, ok := m.Swap(k, i+1); !ok || x != old {
					w.Fail("Swap(%d) = %d, %v, want %d", k, x, ok, old)
				}
				mod[k] = i + 1
			case 2:
				if m.CompareAndSwap(k, old+1, 7) || !m.CompareAndSwap(k, old, -old) {
					w.Fail("CompareAndSwap(%d)", k)
				}
				mod[k] = -old
			case 3:
				if x, ok := m.LoadOrStore(k, -7); !ok || x != old {
					w.Fail("LoadOrStore(%d) = %d, %v, want %d", k, x, ok, old)
				}
			case 4:
				if m.CompareAndDelete(k, old+1) {
					w.Fail("CompareAndDelete(%d) of another value", k)
				}
				if i%10 == 4 {
					if !m.CompareAndDelete(k, old) {
						w.Fail("CompareAndDelete(%d)", k)
					}
					if x, ok := m.LoadOrStore(k, old+2); ok || x != old+2 {
						w.Fail("LoadOrStore(%d) after a deletion = %d, %v", k, x, ok)
					}
					mod[k] = old + 2
				}
			}
		}
		check("overwritten")
		for i, k := range s {
			if i%3 != 0 {
				if x, ok := m.LoadAndDelete(k); !ok || x != mod[k] {
					w.Fail("LoadAndDelete(%d) = %d, %v", k, x, ok)
				}
				delete(mod, k)
			}
			if v > 0 && i%7 == 0 {
				m.Store(-1-i, i)
				mod[-1-i] = i
			}
		}
		check("mostly deleted")
		for i, k := range s {
			if i%6 == 1 {
				m.Store(k, -i)
				mod[k] = -i
			}
		}
		check("filled again")
	})
}
