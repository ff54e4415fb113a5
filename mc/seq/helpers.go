package main

import (
	"fmt"
	"maps"
	"math"
	"reflect"
	"slices"
	"sort"
	"unsafe"

	"github.com/miniLCT/gosb/gogenerics/gconstraints"
	"github.com/miniLCT/gosb/gogenerics/gcontainers/gmap"
	"github.com/miniLCT/gosb/gogenerics/gcontainers/gset"
	"github.com/miniLCT/gosb/gogenerics/gcontainers/gslice"
	"github.com/miniLCT/gosb/gogenerics/gnumerics"
	"github.com/miniLCT/gosb/hack/unsafex"
	"verif/core"
)

// sameElems reports whether got lists exactly the elements of want, in any order.
func sameElems[T any](got, want []T) bool {
	if len(got) != len(want) {
		return false
	}
	a, b := make([]string, len(got)), make([]string, len(want))
	for i := range got {
		a[i], b[i] = fmt.Sprintf("%#v", got[i]), fmt.Sprintf("%#v", want[i])
	}
	sort.Strings(a)
	sort.Strings(b)
	return slices.Equal(a, b)
}

// ---------------------------------------------------------------- U01

type tagged struct{ k, tag int }

// mapOf decodes a map: per key absent or one of nv values; the last two codes are nil and empty.
func mapOf[K comparable, V any](i int, keys []K, vals []V) map[K]V {
	n := 1
	for range keys {
		n *= len(vals) + 1
	}
	if i == n {
		return nil
	}
	m := map[K]V{}
	for _, k := range keys {
		if d := i % (len(vals) + 1); d > 0 {
			m[k] = vals[d-1]
		}
		i /= len(vals) + 1
	}
	return m
}

func mapHelpers[K, V comparable](c *core.Ctx, name string, keys []K, vals []V, extra K) {
	n := 1
	for range keys {
		n *= len(vals) + 1
	}
	n++ // nil
	c.Enum(name+": one map", n, func(i int) string { return fmt.Sprintf("%#v", mapOf(i, keys, vals)) }, func(w *core.W, i int) bool {
		m, orig := mapOf(i, keys, vals), mapOf(i, keys, vals)
		var ks []K
		var vs []V
		var es []gconstraints.Entry[K, V]
		for k, v := range orig {
			ks, vs, es = append(ks, k), append(vs, v), append(es, gconstraints.Entry[K, V]{Key: k, Value: v})
		}
		if got := gmap.Keys(m); !sameElems(got, ks) {
			w.Fail("Keys = %v", got)
		}
		if got := gmap.Values(m); !sameElems(got, vs) {
			w.Fail("Values = %v", got)
		}
		entries := gmap.Map2Entries(m)
		if !sameElems(entries, es) {
			w.Fail("Map2Entries = %v", entries)
		}
		if got := gmap.Entries2Map(entries); !maps.Equal(got, orig) || got == nil {
			w.Fail("Entries2Map(Map2Entries) = %v", got)
		}
		if gmap.Len(m) != len(orig) {
			w.Fail("Len = %d", gmap.Len(m))
		}
		for _, k := range append(slices.Clone(keys), extra) {
			_, want := orig[k]
			if gmap.Contains(m, k) != want {
				w.Fail("Contains(%v) = %v", k, !want)
			}
		}
		cp := gmap.Copy(m)
		if !maps.Equal(cp, orig) || cp == nil {
			w.Fail("Copy = %#v", cp)
		}
		cp[extra] = vals[0]
		for _, k := range keys {
			delete(cp, k)
		}
		if !maps.Equal(m, orig) || (m == nil) != (orig == nil) {
			w.Fail("changing the copy changes the map, or a helper changed it")
		}
		cp = gmap.Copy(m)
		gmap.Clear(m)
		if len(m) != 0 {
			w.Fail("Clear leaves %v", m)
		}
		if !maps.Equal(cp, orig) {
			w.Fail("clearing the map clears its copy")
		}
		return len(orig) > 1
	})
	c.Enum(name+": two maps", n*n, func(i int) string {
		return fmt.Sprintf("%#v %#v", mapOf(i%n, keys, vals), mapOf(i/n, keys, vals))
	}, func(w *core.W, i int) bool {
		a, b := mapOf(i%n, keys, vals), mapOf(i/n, keys, vals)
		if got, want := gmap.Equal(a, b), maps.Equal(a, b); got != want {
			w.Fail("Equal = %v", got)
		}
		for name, eq := range map[string]func(x, y V) bool{
			"==": func(x, y V) bool { return x == y }, "!=": func(x, y V) bool { return x != y },
			"true": func(x, y V) bool { return true }, "false": func(x, y V) bool { return false },
			"first": func(x, y V) bool { return x == vals[0] },
		} {
			want := len(a) == len(b)
			for k, x := range a {
				y, ok := b[k]
				want = want && ok && eq(x, y)
			}
			if got := gmap.EqualWithFunc(a, b, eq); got != want {
				w.Fail("EqualWithFunc(%s) = %v", name, got)
			}
		}
		return len(a) > 0 && len(a) == len(b)
	})
	sp := core.Words{Base: len(keys) * len(vals), Lo: 0, Hi: 4}
	c.Enum(name+": Entries2Map with duplicates", sp.N(), func(i int) string { return fmt.Sprint(sp.At(i)) }, func(w *core.W, i int) bool {
		want := map[K]V{}
		var es []gconstraints.Entry[K, V]
		for _, x := range sp.At(i) {
			e := gconstraints.Entry[K, V]{Key: keys[x%len(keys)], Value: vals[x/len(keys)]}
			es = append(es, e)
			want[e.Key] = e.Value
		}
		if got := gmap.Entries2Map(es); !maps.Equal(got, want) {
			w.Fail("Entries2Map(%v) = %v", es, got)
		}
		return len(want) < len(es)
	})
}

type setInst[T comparable] struct {
	s   gset.Set[T]
	mod map[T]bool
}

func setHistories[T comparable](c *core.Ctx, name string, elems []T) {
	ops := []string{"Clear"}
	for _, e := range elems {
		ops = append(ops, fmt.Sprintf("Add(%v)", e), fmt.Sprintf("Remove(%v)", e))
	}
	for size := -1; size <= 4; size += 5 {
		m := &core.Machine{Name: fmt.Sprintf("%s (size %d)", name, size), Ops: ops,
			New: func() any {
				s := &setInst[T]{gset.NewSet[T](), map[T]bool{}}
				if size >= 0 {
					s.s = gset.NewSetWithSize[T](size)
				}
				return s
			},
			Step: func(w *core.W, in any, op int) bool {
				x := in.(*setInst[T])
				switch {
				case op == 0:
					gset.Clear(x.s)
					clear(x.mod)
				case op%2 == 1:
					if !gset.Add(x.s, elems[op/2]) {
						w.Fail("Add returned false")
					}
					x.mod[elems[op/2]] = true
				default:
					if !gset.Remove(x.s, elems[op/2-1]) {
						w.Fail("Remove returned false")
					}
					delete(x.mod, elems[op/2-1])
				}
				return true
			},
			Check: func(w *core.W, in any) {
				x := in.(*setInst[T])
				if gset.Len(x.s) != len(x.mod) {
					w.Fail("Len = %d, want %d", gset.Len(x.s), len(x.mod))
				}
				var want []T
				for _, e := range elems {
					if x.mod[e] {
						want = append(want, e)
					}
					if gset.Contains(x.s, e) != x.mod[e] {
						w.Fail("Contains(%v) = %v", e, !x.mod[e])
					}
				}
				if got := gset.Items(x.s); !sameElems(got, want) {
					w.Fail("Items = %v, want %v", got, want)
				}
			}}
		c.BFS(m)
		c.Cycles(m, 4, 40, 5)
	}
}

// ---------------------------------------------------------------- U02

// slicesOf builds the slice of code i with the given spare capacity; the spare part holds canaries.
type sliceGen struct {
	words core.Words
}

func (g sliceGen) n() int { return 2*g.words.N() + 1 }

// at returns a slice (and the array behind it, to look for stray writes).
func (g sliceGen) at(i int) (s []int, backing []int) {
	if i == 2*g.words.N() {
		return nil, nil
	}
	v := g.words.At(i / 2)
	spare := i % 2 * 3
	backing = make([]int, len(v)+spare)
	copy(backing, v)
	for k := len(v); k < len(backing); k++ {
		backing[k] = -77
	}
	return backing[:len(v)], backing
}

func (g sliceGen) name(i int) string {
	s, b := g.at(i)
	return fmt.Sprintf("%#v cap %d", s, len(b))
}

// intact fails if s or the memory behind it differs from what generator code i makes.
func (g sliceGen) intact(w *core.W, i int, backing []int, what string) {
	_, want := g.at(i)
	if !slices.Equal(backing, want) {
		w.Fail("%s changes its input or the memory behind it: %v, was %v", what, backing, want)
	}
}

// independent checks that writing and appending to r and to the inputs' memory do not show in each other.
func independent(w *core.W, what string, r []int, backings ...[]int) {
	var before [][]int
	for _, b := range backings {
		before = append(before, slices.Clone(b))
	}
	want := slices.Clone(r)
	full := r[:cap(r)]
	saved := slices.Clone(full)
	for k := range full {
		full[k] = 1000 + k
	}
	for k, b := range backings {
		if !slices.Equal(b, before[k]) {
			w.Fail("%s: writing or appending to the result changes the input", what)
		}
	}
	copy(full, saved)
	for _, b := range backings {
		for k := range b {
			b[k] += 5000
		}
	}
	if !slices.Equal(r, want) {
		w.Fail("%s: writing to the input changes the result", what)
	}
	for k, b := range backings {
		copy(b, before[k])
	}
}

// longLen numbers the lengths up to 70 and some beyond.
func longLen(i int) int {
	if i < 70 {
		return i
	}
	return []int{99, 127, 128, 129, 200, 255, 256, 257, 513, 1000}[i-70]
}

func sliceHelpers(c *core.Ctx) {
	g1 := sliceGen{core.Words{Base: 3, Lo: 0, Hi: core.Pick(c, 7, 9)}}
	c.Enum("one slice", g1.n(), g1.name, func(w *core.W, i int) bool {
		s, back := g1.at(i)
		orig := slices.Clone(s)
		same := func(what string) { g1.intact(w, i, back, what) }

		if gslice.Len(s) != len(orig) {
			w.Fail("Len = %d", gslice.Len(s))
		}
		cp := gslice.Copy(s)
		if !slices.Equal(cp, orig) || (cp == nil) != (s == nil) {
			w.Fail("Copy = %#v", cp)
		}
		same("Copy")
		independent(w, "Copy", cp, back)

		var uniq []int
		for _, v := range orig {
			if !slices.Contains(uniq, v) {
				uniq = append(uniq, v)
			}
		}
		u, n := gslice.Unique(s)
		if !slices.Equal(u, uniq) || n != len(uniq) {
			w.Fail("Unique = %v, %d, want %v", u, n, uniq)
		}
		same("Unique")
		independent(w, "Unique", u, back)

		type it struct{ v, pos int }
		items := make([]it, len(orig))
		var uf []it
		for k, v := range orig {
			items[k] = it{v, k}
			if !slices.ContainsFunc(uf, func(x it) bool { return x.v/2 == v/2 }) {
				uf = append(uf, it{v, k})
			}
		}
		gu, n := gslice.UniqueWithFunc(items, func(x it) string { return fmt.Sprint(x.v / 2) })
		if !slices.Equal(gu, uf) || n != len(uf) {
			w.Fail("UniqueWithFunc = %v, %d, want %v", gu, n, uf)
		}
		for k := range gu {
			gu[k] = it{}
		}
		for k, v := range orig {
			if items[k] != (it{v, k}) {
				w.Fail("UniqueWithFunc shares memory with its input")
			}
		}

		for t := -1; t <= 3; t++ {
			want := slices.Index(orig, t)
			if got := gslice.Index(s, t); got != want {
				w.Fail("Index(%d) = %d, want %d", t, got, want)
			}
			if got := gslice.Contains(s, t); got != (want >= 0) {
				w.Fail("Contains(%d) = %v", t, got)
			}
			want = slices.IndexFunc(orig, func(v int) bool { return v > t })
			if got := gslice.IndexWithFunc(s, func(v int) bool { return v > t }); got != want {
				w.Fail("IndexWithFunc(>%d) = %d, want %d", t, got, want)
			}
			if got := gslice.ContainsWithFunc(s, func(v int) bool { return v > t }); got != (want >= 0) {
				w.Fail("ContainsWithFunc(>%d) = %v", t, got)
			}
		}
		if got, want := gslice.IsSorted(s), slices.IsSorted(orig); got != want {
			w.Fail("IsSorted = %v", got)
		}
		str := make([]string, len(orig))
		for k, v := range orig {
			str[k] = fmt.Sprint(v)
		}
		if got, want := gslice.IsSorted(str), slices.IsSorted(str); got != want {
			w.Fail("IsSorted of strings = %v", got)
		}
		down := true
		halves := true
		for k := 1; k < len(orig); k++ {
			down = down && orig[k] <= orig[k-1]
			halves = halves && orig[k]/2 >= orig[k-1]/2
		}
		if got := gslice.IsSortedFunc(s, func(a, b int) bool { return a > b }); got != down {
			w.Fail("IsSortedFunc(>) = %v", got)
		}
		if got := gslice.IsSortedFunc(s, func(a, b int) bool { return a/2 < b/2 }); got != halves {
			w.Fail("IsSortedFunc(halves) = %v", got)
		}
		same("a query")

		rev := slices.Clone(orig)
		slices.Reverse(rev)
		r := gslice.Reverse(s)
		if !slices.Equal(r, rev) || !slices.Equal(s, rev) {
			w.Fail("Reverse returns %v and leaves %v, want %v", r, s, rev)
		}
		if len(back) > len(s) {
			for _, v := range back[len(s):] {
				if v != -77 {
					w.Fail("Reverse writes behind the slice")
				}
			}
		}
		return len(orig) > 1
	})
	g2 := sliceGen{core.Words{Base: 3, Lo: 0, Hi: core.Pick(c, 3, 5)}}
	n := g2.n()
	c.Enum("two slices", n*n, func(i int) string { return g2.name(i%n) + " and " + g2.name(i/n) }, func(w *core.W, i int) bool {
		a, ab := g2.at(i % n)
		b, bb := g2.at(i / n)
		if got, want := gslice.Equal(a, b), slices.Equal(a, b); got != want {
			w.Fail("Equal = %v", got)
		}
		eq := func(x int, y string) bool { return x/2 == len(y)/2 }
		sb := make([]string, len(b))
		for k, v := range b {
			sb[k] = "xxx"[:v]
		}
		if got, want := gslice.EqualWithFunc(a, sb, eq), slices.EqualFunc(a, sb, eq); got != want {
			w.Fail("EqualWithFunc = %v", got)
		}
		m := gslice.Merge(a, b)
		want := append(slices.Clone(a), b...)
		if !slices.Equal(m, want) || m == nil {
			w.Fail("Merge = %#v, want %v", m, want)
		}
		g2.intact(w, i%n, ab, "Merge")
		g2.intact(w, i/n, bb, "Merge")
		independent(w, "Merge", m, ab, bb)
		// merging twice from the same slice
		m1, m2 := gslice.Merge(a, []int{8}), gslice.Merge(a, []int{9})
		if m1[len(m1)-1] != 8 || m2[len(m2)-1] != 9 {
			w.Fail("two Merges of the same slice share memory")
		}
		return len(a) > 0 && len(b) > 0
	})
	c.Enum("overlapping slices of one array", 5*5*5*5, func(i int) string { return fmt.Sprint(core.Mixed(i, 5, 5, 5, 5)) }, func(w *core.W, i int) bool {
		v := core.Mixed(i, 5, 5, 5, 5)
		back := []int{1, 2, 3, 4}
		if v[0] > v[1] || v[2] > v[3] {
			return false
		}
		a, b := back[v[0]:v[1]], back[v[2]:v[3]]
		want := append(slices.Clone(a), b...)
		m := gslice.Merge(a, b)
		if !slices.Equal(m, want) {
			w.Fail("Merge = %v, want %v", m, want)
		}
		if !slices.Equal(back, []int{1, 2, 3, 4}) {
			w.Fail("Merge changes its inputs")
		}
		independent(w, "Merge", m, back)
		return len(a) > 0 && len(b) > 0
	})
	c.Enum("longer slices", 80, func(i int) string { return fmt.Sprint(longLen(i)) }, func(w *core.W, i int) bool {
		i = longLen(i)
		s := make([]int, i)
		for k := range s {
			s[k] = k * 7 % 31
		}
		o := slices.Clone(s)
		var uniq []int
		for _, v := range o {
			if !slices.Contains(uniq, v) {
				uniq = append(uniq, v)
			}
		}
		u, n := gslice.Unique(s)
		if !slices.Equal(u, uniq) || n != len(uniq) {
			w.Fail("Unique = %v", u)
		}
		r := slices.Clone(o)
		slices.Reverse(r)
		if m := gslice.Merge(s, r); !slices.Equal(m, append(slices.Clone(o), r...)) {
			w.Fail("Merge = %v", m)
		}
		if got := gslice.Reverse(gslice.Copy(s)); !slices.Equal(got, r) || !slices.Equal(s, o) {
			w.Fail("Reverse(Copy) = %v", got)
		}
		for k, v := range o {
			if gslice.Index(s, v) != slices.Index(o, v) {
				w.Fail("Index(%d)", v)
			}
			t := slices.Clone(o)
			t[k]++
			if gslice.Equal(s, t) || !gslice.Equal(s, o) {
				w.Fail("Equal misses a difference at %d", k)
			}
			inc := make([]int, i)
			for j := range inc {
				inc[j] = j
			}
			if !gslice.IsSorted(inc) {
				w.Fail("IsSorted(0..%d) = false", i-1)
			}
			if k > 0 {
				inc[k] = inc[k-1] - 1
				if gslice.IsSorted(inc) {
					w.Fail("IsSorted misses the inversion at %d", k)
				}
			}
		}
		return i > 1
	})
	hugeSlices(c)
	nan := math.NaN()
	c.Serial(func(w *core.W) {
		w.Case(func() string { return "NaN" }, func() {
			if gslice.Equal([]float64{nan}, []float64{nan}) || gslice.Index([]float64{nan}, nan) != -1 {
				w.Fail("NaN is taken to be equal to itself")
			}
		})
	})
}

// ---------------------------------------------------------------- U03

func extremes[T gconstraints.Ordered](c *core.Ctx, name string, vals []T, maxLen int) {
	sp := core.Words{Base: len(vals), Lo: 0, Hi: maxLen}
	c.Enum(name, sp.N(), func(i int) string { return fmt.Sprint(sp.At(i)) }, func(w *core.W, i int) bool {
		var s []T
		type it struct {
			v   T
			pos int
		}
		var items []it
		for k, x := range sp.At(i) {
			s = append(s, vals[x])
			items = append(items, it{vals[x], k})
		}
		orig := slices.Clone(s)
		var mx, mn T
		var fmx, fmn it // first extreme elements
		for k, v := range s {
			if k == 0 || v > mx {
				mx, fmx = v, items[k]
			}
			if k == 0 || v < mn {
				mn, fmn = v, items[k]
			}
		}
		if got := gnumerics.MaxCollection(s); got != mx {
			w.Fail("MaxCollection(%v) = %v", s, got)
		}
		if got := gnumerics.MinCollection(s); got != mn {
			w.Fail("MinCollection(%v) = %v", s, got)
		}
		if got := gnumerics.MaxBy(items, func(a, b it) bool { return a.v > b.v }); got != fmx {
			w.Fail("MaxBy(%v) = %v, want %v", items, got, fmx)
		}
		if got := gnumerics.MinBy(items, func(a, b it) bool { return a.v < b.v }); got != fmn {
			w.Fail("MinBy(%v) = %v, want %v", items, got, fmn)
		}
		if len(s) == 2 {
			if got := gnumerics.Max(s[0], s[1]); got != mx {
				w.Fail("Max(%v,%v) = %v", s[0], s[1], got)
			}
			if got := gnumerics.Min(s[0], s[1]); got != mn {
				w.Fail("Min(%v,%v) = %v", s[0], s[1], got)
			}
		}
		for k := range s {
			if s[k] != orig[k] || items[k] != (it{orig[k], k}) {
				w.Fail("an input changed")
			}
		}
		return len(s) > 1
	})
	sizes := []int{33, 68, 69, 70, 129, 257, 1025}
	c.Enum(name+", longer", len(sizes)*1025, func(i int) string { return fmt.Sprint(core.Mixed(i, len(sizes), 1025)) }, func(w *core.W, i int) bool {
		v := core.Mixed(i, len(sizes), 1025)
		// the extreme value stands at position v[1] of equal ones
		lo, hi := slices.Min(vals), slices.Max(vals)
		n := sizes[v[0]]
		if v[1] >= n {
			return false
		}
		s := slices.Repeat([]T{lo}, n)
		t := slices.Repeat([]T{hi}, n)
		s[v[1]], t[v[1]] = hi, lo
		if gnumerics.MaxCollection(s) != hi || gnumerics.MinCollection(t) != lo {
			w.Fail("the extreme at %d is missed", v[1])
		}
		if gnumerics.MaxBy(s, func(a, b T) bool { return a > b }) != hi || gnumerics.MinBy(t, func(a, b T) bool { return a < b }) != lo {
			w.Fail("the extreme at %d is missed", v[1])
		}
		return true
	})
}

// ---------------------------------------------------------------- V01

func typeHelpers[T comparable](c *core.Ctx, name string, vals []T) {
	c.Enum(name, len(vals)*len(vals), func(i int) string { return fmt.Sprintf("%#v", vals[i/len(vals)]) }, func(w *core.W, i int) bool {
		v, u := vals[i/len(vals)], vals[i%len(vals)]
		var zero T
		if got := gconstraints.Empty[T](); got != zero {
			w.Fail("Empty = %v", got)
		}
		if got := gconstraints.IsEmpty(v); got != (v == zero) {
			w.Fail("IsEmpty(%#v) = %v", v, got)
		}
		if got := gconstraints.IsNotEmpty(v); got != (v != zero) {
			w.Fail("IsNotEmpty(%#v) = %v", v, got)
		}
		x := v
		p, q := gconstraints.ToPtr(x), gconstraints.ToPtr(x)
		if p == nil || *p != v || unsafe.Sizeof(x) > 0 && p == q {
			w.Fail("ToPtr(%#v): not a pointer to a copy of its own", v)
		}
		*p = u
		if x != v || *q != v {
			w.Fail("writing through the result of ToPtr changes something else")
		}
		if got := gconstraints.ToValue(p); got != u {
			w.Fail("ToValue = %#v, want %#v", got, u)
		}
		if got := gconstraints.ToValue[T](nil); got != zero {
			w.Fail("ToValue(nil) = %#v", got)
		}
		a, b := gconstraints.Pack(v, u).Unpack()
		if a != v || b != u {
			w.Fail("Pack(%#v,%#v).Unpack() = %#v, %#v", v, u, a, b)
		}
		k, s := gconstraints.Pack(v, "s").Unpack()
		if k != v || s != "s" {
			w.Fail("Pack of different types")
		}
		if e := (gconstraints.Entry[T, T]{Key: v, Value: u}); e.Key != v || e.Value != u {
			w.Fail("Entry")
		}
		return v != zero
	})
}

type emptyError struct{}

func (*emptyError) Error() string { return "" }

// oddValue is typeHelpers for one value that needs a test of its own in place of ==.
func oddValue[T comparable](c *core.Ctx, name string, v T, empty bool, is func(T) bool) {
	c.Enum(name, 1, func(int) string { return fmt.Sprintf("%#v", v) }, func(w *core.W, i int) bool {
		if got := gconstraints.IsEmpty(v); got != empty {
			w.Fail("IsEmpty(%#v) = %v", v, got)
		}
		if got := gconstraints.IsNotEmpty(v); got == empty {
			w.Fail("IsNotEmpty(%#v) = %v", v, got)
		}
		if p := gconstraints.ToPtr(v); p == nil || !is(*p) || !is(gconstraints.ToValue(p)) {
			w.Fail("ToPtr and ToValue do not keep %#v", v)
		}
		if a, b := gconstraints.Pack(v, v).Unpack(); !is(a) || !is(b) {
			w.Fail("Pack(%#v) unpacks to %v, %v", v, a, b)
		}
		return true
	})
}

// ---------------------------------------------------------------- X05

func unsafeChecks(c *core.Ctx) {
	text := make([]byte, 64)
	for i := range text {
		text[i] = byte(i*37 + 5)
	}
	whole := string(text)
	c.Enum("substrings and subslices", 65*65, func(i int) string { return fmt.Sprint(core.Mixed(i, 65, 65)) }, func(w *core.W, i int) bool {
		v := core.Mixed(i, 65, 65)
		if v[0] > v[1] {
			return false
		}
		s := whole[v[0]:v[1]]
		b := unsafex.StringToSlice(s)
		if len(b) != len(s) || cap(b) != len(s) || string(b) != s {
			w.Fail("StringToSlice(%q): len %d cap %d", s, len(b), cap(b))
		}
		if len(s) > 0 && unsafe.SliceData(b) != unsafe.StringData(s) {
			w.Fail("StringToSlice copies")
		}
		buf := slices.Clone(text)
		sub := buf[v[0]:v[1]] // spare capacity behind it
		t := unsafex.SliceToString(sub)
		if t != s || len(t) != len(s) {
			w.Fail("SliceToString = %q, want %q", t, s)
		}
		if len(s) > 0 && unsafe.StringData(t) != unsafe.SliceData(sub) {
			w.Fail("SliceToString copies")
		}
		if string(unsafex.StringToSlice(unsafex.SliceToString(sub))) != s || unsafex.SliceToString(unsafex.StringToSlice(s)) != s {
			w.Fail("the conversions do not invert each other")
		}
		if !slices.Equal(buf, text) {
			w.Fail("the bytes changed")
		}
		return len(s) > 0
	})
	c.Serial(func(w *core.W) {
		w.Case(func() string { return "empty and nil" }, func() {
			if unsafex.SliceToString(nil) != "" || unsafex.SliceToString([]byte{}) != "" || len(unsafex.StringToSlice("")) != 0 {
				w.Fail("empty conversions")
			}
			for _, n := range hugeSizes(c) {
				b := hugeBytes(n)
				s := string(b)
				t, u := unsafex.SliceToString(b), unsafex.StringToSlice(s)
				if t != s || len(u) != n || cap(u) != n || string(u) != s || unsafe.StringData(t) != &b[0] || &u[0] != unsafe.StringData(s) {
					w.Fail("conversion of %d bytes", n)
				}
			}
			if cap(unsafex.StringToSlice("")) != 0 {
				w.Fail("capacity of an empty conversion")
			}
		})
	})
}

func init() {
	core.Register("U01", "exploration", "each case is one or two maps (or one set history) compared with the built-in operations; non-trivial: more than one element, or maps of equal size, or duplicates", func(c *core.Ctx) {
		mapHelpers(c, "map[int]int", []int{0, 1, 2}, []int{0, 1, 2}, 9)
		mapHelpers(c, "map[string]string", []string{"", "a"}, []string{"", "a", "b"}, "zz")
		mapHelpers(c, "map[struct]any", []tagged{{0, 1}, {0, 2}, {}}, []any{nil, 1, "1"}, tagged{5, 5})
		setHistories(c, "set[int]", []int{0, 1, 2, 3})
		setHistories(c, "set[string]", []string{"", "a", "b"})
		setHistories(c, "set[any]", []any{nil, 1, "1", int8(1)})
		hugeMaps(c)
		c.Enum("large maps and sets", 300, func(i int) string { return fmt.Sprint(i) }, func(w *core.W, i int) bool {
			m, b := map[int]int{}, map[int]int{}
			s := gset.NewSet[int]()
			for k := 0; k < i; k++ {
				m[k], b[k] = k*k, k*k
				gset.Add(s, k*3)
			}
			if len(gmap.Keys(m)) != i || len(gmap.Values(m)) != i || len(gmap.Map2Entries(m)) != i || gset.Len(s) != i || len(gset.Items(s)) != i || !gmap.Equal(m, b) || !reflect.DeepEqual(gmap.Copy(m), m) {
				w.Fail("wrong size")
			}
			if i > 0 {
				b[i-1]++
				if gmap.Equal(m, b) || gmap.Equal(b, m) {
					w.Fail("Equal misses a different value")
				}
				delete(b, i-1)
				if gmap.Equal(m, b) || gmap.Equal(b, m) {
					w.Fail("Equal misses a missing key")
				}
				b[i] = 0
				if gmap.Equal(m, b) || gmap.Equal(b, m) {
					w.Fail("Equal misses a different key")
				}
			}
			gset.Clear(s)
			gmap.Clear(m)
			if gset.Len(s) != 0 || len(m) != 0 {
				w.Fail("Clear")
			}
			return i > 1
		})
	})
	core.Register("U02", "exploration", "each case is one or two slices (with and without spare capacity, nil) compared with direct computation; non-trivial: more than one element or both slices non-empty", sliceHelpers)
	core.Register("U03", "exploration", "each case is one collection compared with a scan; non-trivial: at least two elements", func(c *core.Ctx) {
		extremes(c, "int", []int{0, -1, 1, math.MinInt, math.MaxInt}, core.Pick(c, 6, 7))
		extremes(c, "uint8", []uint8{0, 1, 127, 128, 255}, core.Pick(c, 6, 7))
		extremes(c, "int8", []int8{0, -1, 1, -128, 127}, 5)
		extremes(c, "uint64", []uint64{0, 1, 1 << 63, math.MaxUint64}, 5)
		extremes(c, "float64", []float64{0, -0.5, 1e-300, math.Inf(1), math.Inf(-1)}, 5)
		extremes(c, "string", []string{"", "a", "b", "ab", "B"}, 5)
		hugeExtremes(c)
	})
	core.Register("V01", "exploration", "each case is a pair of values of one type; non-trivial: the first is not the zero value", func(c *core.Ctx) {
		typeHelpers(c, "int", []int{0, 1, -1, math.MinInt})
		typeHelpers(c, "bool", []bool{false, true})
		typeHelpers(c, "string", []string{"", " ", "a", "\x00"})
		typeHelpers(c, "float64", []float64{0, 1, -1, math.Inf(1)})
		typeHelpers(c, "struct", []tagged{{}, {1, 0}, {0, 1}})
		typeHelpers(c, "array", [][2]int{{}, {0, 1}})
		typeHelpers(c, "any", []any{nil, 0, "", 1, tagged{}})
		typeHelpers(c, "error", []error{nil, fmt.Errorf("x")})
		x := 0
		typeHelpers(c, "pointer", []*int{nil, &x})
		typeHelpers(c, "chan", []chan int{nil, make(chan int)})
		typeHelpers(c, "empty struct", []struct{}{{}})
		typeHelpers(c, "complex", []complex128{0, 1, -1i})
		// values that are not equal to themselves, and zeroes of either sign
		nan := math.NaN()
		oddValue(c, "NaN", nan, false, func(v float64) bool { return v != v })
		oddValue(c, "NaN of 32 bits", float32(nan), false, func(v float32) bool { return v != v })
		oddValue(c, "complex with NaN", complex(0, nan), false, func(v complex128) bool { return real(v) == 0 && imag(v) != imag(v) })
		oddValue(c, "struct with NaN", struct{ F float64 }{nan}, false, func(v struct{ F float64 }) bool { return v.F != v.F })
		oddValue(c, "array with NaN", [2]float64{0, nan}, false, func(v [2]float64) bool { return v[0] == 0 && v[1] != v[1] })
		oddValue(c, "interface with NaN", any(nan), false, func(v any) bool { f, ok := v.(float64); return ok && f != f })
		oddValue(c, "minus zero", math.Copysign(0, -1), true, func(v float64) bool { return v == 0 && math.Signbit(v) })
		oddValue(c, "interface with zero", any(0.0), false, func(v any) bool { return v == any(0.0) })
		oddValue(c, "interface with nil pointer", any((*int)(nil)), false, func(v any) bool { return v == any((*int)(nil)) })
		oddValue(c, "error with nil pointer", error((*emptyError)(nil)), false, func(v error) bool { return v == error((*emptyError)(nil)) })
	})
	core.Register("X05", "exploration", "each case is one substring and the same part of a slice; non-trivial: not empty", unsafeChecks)
}
