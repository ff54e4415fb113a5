package main

import (
	"fmt"
	"math"
	"sort"
	"strings"

	rbt "github.com/miniLCT/gosb/gogenerics/gds/grbt"
	"verif/core"
)

type rbInst struct {
	tree  *rbt.RbTree[int, int]
	mod   map[int]int
	calls *int
	desc  bool // descending order
}

func newRb(desc bool) *rbInst {
	calls := new(int)
	return &rbInst{rbt.New[int, int](func(a, b int) bool {
		*calls++
		if desc {
			return a > b
		}
		return a < b
	}), map[int]int{}, calls, desc}
}

func (s *rbInst) less(a, b int) bool {
	if s.desc {
		return a > b
	}
	return a < b
}

func (s *rbInst) keys() []int {
	ks := []int{}
	for k := range s.mod {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return s.less(ks[i], ks[j]) })
	return ks
}

func (s *rbInst) values() []int {
	vs := []int{}
	for _, k := range s.keys() {
		vs = append(vs, s.mod[k])
	}
	return vs
}

func eqInts(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// rbCanon leaves the comparison counter out.
func rbCanon(inst any) []byte {
	s := inst.(*rbInst)
	*s.calls = 0
	return core.Canon(noTime, s)
}

func rbMap(w *core.W, s *rbInst, probes []int) {
	t := s.tree
	if t.Len() != len(s.mod) || t.Empty() != (len(s.mod) == 0) {
		w.Fail("Len() = %d, Empty() = %v with %d entries", t.Len(), t.Empty(), len(s.mod))
	}
	for _, k := range probes {
		v, ok := s.mod[k]
		if got := t.Search(k); got != ok {
			w.Fail("Search(%d) = %v, want %v", k, got, ok)
		}
		if got := t.Get(k); got != v {
			w.Fail("Get(%d) = %d, want %d", k, got, v)
		}
	}
	if got := t.Keys(); !eqInts(got, s.keys()) {
		w.Fail("Keys() = %v, want %v", got, s.keys())
	}
	if got := t.Values(); !eqInts(got, s.values()) {
		w.Fail("Values() = %v, want %v", got, s.values())
	}
	ns := t.Nodes()
	if len(ns) != len(s.mod) {
		w.Fail("Nodes() has %d entries, want %d", len(ns), len(s.mod))
	}
	gks, gvs := t.Keys(), t.Values()
	for i := range gks {
		gks[i], gvs[i] = -99, -99
	}
	_, _ = append(gks, 5), append(gvs, 5)
	if !eqInts(t.Keys(), s.keys()) || !eqInts(t.Values(), s.values()) {
		w.Fail("writing to the results of Keys and Values changes the tree")
	}
	for i, k := range s.keys() {
		if gk, gv := ns[i].Unpack(); gk != k || gv != s.mod[k] {
			w.Fail("Nodes()[%d] = %d,%d, want %d,%d", i, gk, gv, k, s.mod[k])
		}
	}
}

// rbBalance measures the length of the search path to every gap between keys by counting
// comparisons, rebuilds the shape from them, and checks that from every node the longest
// path to a gap is at most twice the shortest: exactly the shapes a red-black tree may have.
func rbBalance(w *core.W, s *rbInst, gaps []int) {
	n := len(s.mod)
	if n == 0 {
		return
	}
	// comparisons per level, measured on a one-element tree
	cal := newRb(s.desc)
	cal.tree.Insert(0, 0)
	*cal.calls = 0
	cal.tree.Search(-1)
	c1 := *cal.calls
	*cal.calls = 0
	cal.tree.Search(1)
	c2 := *cal.calls
	per := max(c1, c2, 1)
	limit := 2 * math.Log2(float64(n+1))
	var depths []int
	exact := c1 == c2 && c1 > 0
	ks := s.keys()
	for i := 0; i <= n; i++ {
		// a probe strictly between neighbours i-1 and i
		var probe int
		found := false
		for _, g := range gaps {
			if (i == 0 || s.less(ks[i-1], g)) && (i == n || s.less(g, ks[i])) {
				probe, found = g, true
			}
		}
		if !found {
			panic("machinery: no probe for a gap")
		}
		*s.calls = 0
		s.tree.Search(probe)
		d := *s.calls
		if float64(d)/float64(per) > limit+1e-9 {
			w.Fail("searching %d takes %d levels in a tree of %d keys, at most %.1f are allowed", probe, d/per, n, limit)
		}
		if d%per != 0 {
			exact = false
		}
		depths = append(depths, d/per)
	}
	if !exact {
		return
	}
	// rebuild: the leftmost deepest pair of neighbouring gaps are siblings
	type sub struct{ depth, lo, hi int } // lo, hi: shortest and longest path to a gap below
	var subs []sub
	for _, d := range depths {
		subs = append(subs, sub{d, 0, 0})
	}
	for len(subs) > 1 {
		best := -1
		for i := 0; i+1 < len(subs); i++ {
			if subs[i].depth == subs[i+1].depth && (best < 0 || subs[i].depth > subs[best].depth) {
				best = i
			}
		}
		if best < 0 {
			return // not the paths of a binary search tree: some other search strategy
		}
		a, b := subs[best], subs[best+1]
		p := sub{a.depth - 1, 1 + min(a.lo, b.lo), 1 + max(a.hi, b.hi)}
		if p.hi > 2*p.lo {
			w.Fail("a subtree has a path of length %d and one of length %d (path lengths to the gaps: %v)", p.hi, p.lo, depths)
		}
		subs = append(subs[:best], subs[best+1:]...)
		subs[best] = p
	}
}

func rbTreeIs(w *core.W, what string, t *rbt.RbTree[int, int], keys []int, mod map[int]int) {
	if t == nil {
		w.Fail("%s is nil", what)
	}
	if got := t.Keys(); !eqInts(got, keys) {
		w.Fail("%s has keys %v, want %v", what, got, keys)
	}
	if t.Len() != len(keys) || t.Empty() != (len(keys) == 0) {
		w.Fail("%s has Len %d, want %d", what, t.Len(), len(keys))
	}
	for _, k := range keys {
		if t.Get(k) != mod[k] || !t.Search(k) {
			w.Fail("%s: Get(%d) = %d, want %d", what, k, t.Get(k), mod[k])
		}
	}
}

func rbViews(w *core.W, s *rbInst, probes []int) {
	t := s.tree
	ks := s.keys()
	filter := func(f func(k int) bool) []int {
		r := []int{}
		for _, k := range ks {
			if f(k) {
				r = append(r, k)
			}
		}
		return r
	}
	for _, a := range probes {
		for _, inc := range []bool{false, true} {
			in := func(k int) bool { return inc && k == a }
			rbTreeIs(w, fmt.Sprintf("LeftSubTree(%d,%v)", a, inc), t.LeftSubTree(a, inc), filter(func(k int) bool { return s.less(k, a) || in(k) }), s.mod)
			rbTreeIs(w, fmt.Sprintf("RightSubTree(%d,%v)", a, inc), t.RightSubTree(a, inc), filter(func(k int) bool { return s.less(a, k) || in(k) }), s.mod)
		}
		for _, b := range probes {
			if s.less(b, a) {
				if _, panicked := core.Catch(func() { t.SubTree(a, true, b, true) }); !panicked {
					w.Fail("SubTree(%d,%d) with the bounds reversed does not panic", a, b)
				}
				continue
			}
			for i := 0; i < 4; i++ {
				ai, bi := i&1 != 0, i&2 != 0
				if a == b && ai != bi {
					continue // whether k is in a range (k,k] is not defined
				}
				want := filter(func(k int) bool {
					return (s.less(a, k) || ai && k == a) && (s.less(k, b) || bi && k == b)
				})
				rbTreeIs(w, fmt.Sprintf("SubTree(%d,%v,%d,%v)", a, ai, b, bi), t.SubTree(a, ai, b, bi), want, s.mod)
			}
		}
	}
	sets := 1 << min(len(ks), 10)
	if len(ks) > 10 {
		sets = 12 // regular selections
	}
	for set := 0; set < sets; set++ {
		sel := map[int]bool{}
		want := []int{}
		for i, k := range ks {
			if len(ks) <= 10 && set>>i&1 == 1 || len(ks) > 10 && (i%(set/2+1) == 0) == (set%2 == 0) {
				sel[k] = true
				want = append(want, s.mod[k])
			}
		}
		if got := t.GetIf(func(k int) bool { return sel[k] }); !eqInts(got, want) {
			w.Fail("GetIf(%v) = %v, want %v", sel, got, want)
		}
	}
	// a view is a tree of its own, in both directions
	if len(ks) > 0 {
		first, last := ks[0], ks[len(ks)-1]
		before, after := first-1, last+1
		if s.desc {
			before, after = first+1, last-1
		}
		all := func() []*rbt.RbTree[int, int] {
			return []*rbt.RbTree[int, int]{t.SubTree(first, true, last, true), t.LeftSubTree(last, true), t.RightSubTree(first, true),
				t.SubTree(before, false, after, false), t.SubTree(before, true, after, true),
				t.LeftSubTree(after, false), t.LeftSubTree(after, true), t.RightSubTree(before, false), t.RightSubTree(before, true)}
		}
		vals := s.values()
		kept := all()
		for _, v := range all() {
			for _, k := range ks {
				v.Insert(k, -5)
				v.Delete(k)
			}
			v.Insert(99, 1)
			v.Update(99, 2)
			v.Clear()
		}
		for _, k := range ks {
			t.Update(k, -7)
			t.Delete(k)
			t.Insert(k, -8)
		}
		t.Insert(99, 1)
		for i, v := range kept {
			if !eqInts(v.Keys(), ks) || !eqInts(v.Values(), vals) {
				w.Fail("view %d holds %v, %v after the tree it was taken from has changed, expected %v, %v", i, v.Keys(), v.Values(), ks, vals)
			}
		}
		t.Delete(99)
		for _, k := range ks {
			t.Update(k, s.mod[k])
		}
	}
	rbMap(w, s, probes)
	str := t.String()
	pos := 0
	for _, k := range ks { // in order, each entry with its key and value
		e := fmt.Sprintf("(%d, %d, ", k, s.mod[k])
		i := strings.Index(str[pos:], e)
		if i < 0 {
			w.Fail("String() = %q does not show key %d with its value in order", str, k)
		}
		pos += i + len(e)
	}
	if strings.Count(str, "(") != len(ks) {
		w.Fail("String() = %q shows the wrong number of entries", str)
	}
}

func rbMachine(name string, keys []int, desc, values, viewsToo bool, depth int, check func(w *core.W, s *rbInst)) *core.Machine {
	m := &core.Machine{Name: name, New: func() any { return newRb(desc) }, Depth: depth, Canon: rbCanon}
	var fns []func(w *core.W, s *rbInst)
	op := func(n string, f func(w *core.W, s *rbInst)) { m.Ops = append(m.Ops, n); fns = append(fns, f) }
	insert := func(k, v int) {
		op(fmt.Sprintf("Insert(%d,%d)", k, v), func(w *core.W, s *rbInst) {
			if got, want := s.tree.Insert(k, v), s.mod[k]; got != want {
				w.Fail("Insert(%d,%d) returned %d, want %d", k, v, got, want)
			}
			s.mod[k] = v
		})
	}
	for _, k := range keys {
		insert(k, 10+k)
	}
	for _, k := range keys {
		op(fmt.Sprintf("Delete(%d)", k), func(w *core.W, s *rbInst) {
			if got, want := s.tree.Delete(k), s.mod[k]; got != want {
				w.Fail("Delete(%d) returned %d, want %d", k, got, want)
			}
			delete(s.mod, k)
		})
	}
	if values {
		for _, k := range keys {
			insert(k, 30+k)
			op(fmt.Sprintf("Update(%d,%d)", k, 30+k), func(w *core.W, s *rbInst) {
				want, wok := s.mod[k]
				if got, ok := s.tree.Update(k, 30+k); got != want || ok != wok {
					w.Fail("Update(%d,%d) returned %d,%v, want %d,%v", k, 30+k, got, ok, want, wok)
				}
				if wok {
					s.mod[k] = 30 + k
				}
			})
		}
		op("Clear()", func(w *core.W, s *rbInst) {
			s.tree.Clear()
			s.mod = map[int]int{}
		})
	}
	m.Step = func(w *core.W, inst any, op int) bool { fns[op](w, inst.(*rbInst)); return true }
	if viewsToo {
		// go on with a view in place of the tree
		all, mid := keys, keys[len(keys)/2]
		lo, hi := all[0], all[len(all)-1]
		if desc {
			lo, hi = hi, lo
		}
		keep := func(s *rbInst, t *rbt.RbTree[int, int], in func(k int) bool) {
			s.tree = t
			for k := range s.mod {
				if !in(k) {
					delete(s.mod, k)
				}
			}
		}
		op("go on with SubTree of everything", func(w *core.W, s *rbInst) {
			keep(s, s.tree.SubTree(lo, true, hi, true), func(k int) bool { return true })
		})
		op(fmt.Sprintf("go on with LeftSubTree(%d, false)", mid), func(w *core.W, s *rbInst) {
			keep(s, s.tree.LeftSubTree(mid, false), func(k int) bool { return s.less(k, mid) })
		})
		op(fmt.Sprintf("go on with LeftSubTree(%d, true)", hi), func(w *core.W, s *rbInst) {
			keep(s, s.tree.LeftSubTree(hi, true), func(k int) bool { return true })
		})
		op(fmt.Sprintf("go on with RightSubTree(%d, true)", mid), func(w *core.W, s *rbInst) {
			keep(s, s.tree.RightSubTree(mid, true), func(k int) bool { return !s.less(k, mid) })
		})
		op(fmt.Sprintf("go on with RightSubTree(%d, true)", lo), func(w *core.W, s *rbInst) {
			keep(s, s.tree.RightSubTree(lo, true), func(k int) bool { return true })
		})
	}
	m.Check = func(w *core.W, inst any) { check(w, inst.(*rbInst)) }
	return m
}

var farKeys = []int{math.MinInt, -1, 0, math.MaxInt}
var farProbes = []int{math.MinInt, math.MinInt + 1, -2, -1, 0, 1, math.MaxInt - 1, math.MaxInt}

func init() {
	dom := func(n int) (keys, probes, gaps []int) {
		gaps = []int{-1}
		for i := 0; i < n; i++ {
			keys = append(keys, 2*i)
			gaps = append(gaps, 2*i+1)
		}
		probes = append(append(probes, keys...), gaps...)
		return
	}
	core.Register("T01", "model_checking", "a Go map and its sorted keys: every query agrees after every operation, every operation returns what the map held", func(c *core.Ctx) {
		hugeTree(c, "map")
		k1, p1, _ := dom(core.Pick(c, 5, 6))
		c.BFS(rbMachine("rbt with values", k1, false, true, false, core.Pick(c, 0, 11), func(w *core.W, s *rbInst) { rbMap(w, s, p1) }))
		c.BFS(rbMachine("rbt with the ends of the integers", farKeys, false, true, false, 0, func(w *core.W, s *rbInst) { rbMap(w, s, farProbes) }))
		k2, p2, _ := dom(core.Pick(c, 7, 9))
		c.BFS(rbMachine(fmt.Sprintf("rbt %d keys", len(k2)), k2, false, false, false, 0, func(w *core.W, s *rbInst) { rbMap(w, s, p2) }))
		k3, p3, _ := dom(core.Pick(c, 6, 8))
		c.BFS(rbMachine(fmt.Sprintf("rbt descending %d keys", len(k3)), k3, true, false, false, 0, func(w *core.W, s *rbInst) { rbMap(w, s, p3) }))
		for _, desc := range []bool{false, true} {
			rbLong(c, core.Pick(c, []int{17, 40, 130}, []int{17, 40, 130, 600}), core.Pick(c, 60, 200), desc, func(w *core.W, s *rbInst, n int) {
				var probes []int
				for k := -1; k < 2*n; k++ {
					probes = append(probes, k)
				}
				rbMap(w, s, probes)
			})
		}
	})
	core.Register("T02", "model_checking", "shape read off by counting comparisons: every subtree's longest path is at most twice its shortest, every search within 2*log2(n+1) levels", func(c *core.Ctx) {
		hugeTree(c, "balance")
		k, _, g := dom(core.Pick(c, 9, 11))
		c.BFS(rbMachine(fmt.Sprintf("rbt %d keys", len(k)), k, false, false, false, 0, func(w *core.W, s *rbInst) { rbBalance(w, s, g) }))
		k2, _, g2 := dom(core.Pick(c, 7, 9))
		c.BFS(rbMachine(fmt.Sprintf("rbt %d keys, trees and views", len(k2)), k2, false, false, true, 0, func(w *core.W, s *rbInst) { rbBalance(w, s, g2) }))
		// longer regular histories
		rbLong(c, core.Pick(c, []int{33, 300}, []int{33, 300, 1500}), 16, false, func(w *core.W, s *rbInst, n int) { rbHeight(w, s) })
	})
	core.Register("T03", "model_checking", "filtering the sorted entries of a Go map by the range or predicate; the view is a separate tree", func(c *core.Ctx) {
		hugeTree(c, "views")
		views := func(m *core.Machine) { // there are at most 4000 trees, and many views of each
			m.States = core.Pick(c, 40_000, 0)
			c.BFS(m)
		}
		views(rbMachine("rbt near the ends of the integers", []int{math.MinInt + 1, -1, 0, math.MaxInt - 1}, false, false, false, 0, func(w *core.W, s *rbInst) { rbViews(w, s, farProbes) }))
		k, p, _ := dom(core.Pick(c, 6, 7))
		views(rbMachine(fmt.Sprintf("rbt %d keys", len(k)), k, false, false, false, 0, func(w *core.W, s *rbInst) { rbViews(w, s, p) }))
		for _, desc := range []bool{false, true} {
			k, p, _ := dom(core.Pick(c, 6, 8))
			views(rbMachine(fmt.Sprintf("rbt %d keys, trees and views, descending %v", len(k), desc), k, desc, false, true, 0, func(w *core.W, s *rbInst) { rbMap(w, s, p) }))
		}
		k2, p2, _ := dom(core.Pick(c, 4, 6))
		views(rbMachine(fmt.Sprintf("rbt descending %d keys", len(k2)), k2, true, false, false, 0, func(w *core.W, s *rbInst) { rbViews(w, s, p2) }))
		for _, desc := range []bool{false, true} {
			rbLong(c, core.Pick(c, []int{17, 40, 130}, []int{17, 40, 130, 600}), core.Pick(c, 6, 20), desc, func(w *core.W, s *rbInst, n int) {
				rbViews(w, s, []int{-1, 0, 1, n/2 - 1, n / 2, n, n + 1, 2*n - 4, 2*n - 2, 2*n - 1})
			})
		}
	})
}

// rbLong drives larger trees through the long regular histories; check sees the tree after every so many operations.
func rbLong(c *core.Ctx, sizes []int, steps int, desc bool, check func(w *core.W, s *rbInst, n int)) {
	per := []int{len(sizes), len(core.LongOrders), len(core.LongOrders), core.LongMixes}
	c.Enum(fmt.Sprintf("long histories, descending %v", desc), core.Prod(per...), func(i int) string {
		d := core.Mixed(i, per...)
		return core.LongName(sizes[d[0]], d[1], d[2], d[3])
	}, func(w *core.W, i int) bool {
		d := core.Mixed(i, per...)
		n := sizes[d[0]]
		s := newRb(desc)
		h := core.LongHistory(n, d[1], d[2], d[3])
		every := max(1, len(h)/steps)
		for j, o := range h {
			k := 2 * o.Rank
			want, had := s.mod[k]
			switch {
			case o.Del:
				if got := s.tree.Delete(k); got != want {
					w.Fail("operation %d: Delete(%d) returned %d, want %d", j, k, got, want)
				}
				delete(s.mod, k)
			case had && j%2 == 0:
				if got, ok := s.tree.Update(k, j+1); got != want || !ok {
					w.Fail("operation %d: Update(%d) returned %d,%v, want %d", j, k, got, ok, want)
				}
				s.mod[k] = j + 1
			default:
				if got := s.tree.Insert(k, j+1); got != want {
					w.Fail("operation %d: Insert(%d) returned %d, want %d", j, k, got, want)
				}
				s.mod[k] = j + 1
			}
			if j%every == every-1 || j == len(h)-1 {
				check(w, s, n)
			}
		}
		return true
	})
}

func rbHeight(w *core.W, s *rbInst) {
	n := len(s.mod)
	if n == 0 {
		return
	}
	cal := newRb(s.desc)
	cal.tree.Insert(0, 0)
	*cal.calls = 0
	cal.tree.Search(-1)
	c1 := *cal.calls
	*cal.calls = 0
	cal.tree.Search(1)
	per := max(c1, *cal.calls, 1)
	limit := 2 * math.Log2(float64(n+1))
	for _, k := range s.keys() {
		for _, g := range []int{k - 1, k + 1} {
			*s.calls = 0
			s.tree.Search(g)
			if float64(*s.calls)/float64(per) > limit+1e-9 {
				w.Fail("searching %d takes %d levels in a tree of %d keys, at most %.1f are allowed", g, *s.calls/per, n, limit)
			}
		}
	}
}
