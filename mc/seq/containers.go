package main

import (
	"container/list"
	"container/ring"
	"errors"
	"fmt"
	"slices"
	"sort"

	"github.com/miniLCT/gosb/gogenerics/gcontainers/gheap"
	"github.com/miniLCT/gosb/gogenerics/gcontainers/glist"
	"github.com/miniLCT/gosb/gogenerics/gcontainers/gqueue"
	"github.com/miniLCT/gosb/gogenerics/gcontainers/gring"
	"verif/core"
)

// ---------------------------------------------------------------- heap

type heapItem struct{ prio, tag int }

type heapInst[T any] struct {
	h    *gheap.Heap[T]
	mod  []T
	less func(a, b T) bool
}

// pop checks that the element popped is in the model and minimal there.
func (s *heapInst[T]) pop(w *core.W, eq func(a, b T) bool) {
	got := gheap.Pop(s.h)
	i := slices.IndexFunc(s.mod, func(x T) bool { return eq(x, got) })
	if i < 0 {
		w.Fail("Pop returned %v, the heap holds %v", got, s.mod)
	}
	for _, x := range s.mod {
		if s.less(x, got) {
			w.Fail("Pop returned %v, but %v is less", got, x)
		}
	}
	s.mod = slices.Delete(slices.Clone(s.mod), i, i+1)
}

func heapChecks(c *core.Ctx) {
	orders := []struct {
		name string
		less func(a, b int) bool
	}{{"<", func(a, b int) bool { return a < b }}, {">", func(a, b int) bool { return a > b }}, {"halves <", func(a, b int) bool { return a/2 < b/2 }}}
	eq := func(a, b int) bool { return a == b }
	for _, o := range orders {
		capacity := core.Pick(c, 7, 9)
		if o.name != "<" {
			capacity -= 2
		}
		np := 4
		ops := []string{"Pop"}
		for p := 0; p < np; p++ {
			ops = append(ops, fmt.Sprintf("Push(%d)", p))
		}
		m := &core.Machine{
			Name: "heap ordered by " + o.name, Ops: ops,
			New: func() any { return &heapInst[int]{gheap.New(o.less), nil, o.less} },
			Step: func(w *core.W, in any, op int) bool {
				s := in.(*heapInst[int])
				if op == 0 {
					if len(s.mod) == 0 {
						return false
					}
					s.pop(w, eq)
					sort.Ints(s.mod)
					return true
				}
				if len(s.mod) >= capacity {
					return false
				}
				gheap.Push(s.h, op-1)
				s.mod = append(s.mod, op-1)
				sort.Ints(s.mod)
				return true
			},
			Check: func(w *core.W, in any) {
				s := in.(*heapInst[int])
				for len(s.mod) > 0 {
					s.pop(w, eq)
				}
				gheap.Push(s.h, 1) // an emptied heap is usable
				s.mod = append(s.mod, 1)
				s.pop(w, eq)
			},
		}
		c.BFS(m)
		capacity = 1000
		m.Check = nil // it empties the heap
		c.Cycles(m, core.Pick(c, 5, 7), 60, 1000)
	}
	ieq := func(a, b heapItem) bool { return a == b }
	// every initial slice, distinguishable elements; then a push at every moment of popping
	sp := core.Words{Base: 4, Lo: 0, Hi: core.Pick(c, 7, 9)}
	for k, less := range []func(a, b heapItem) bool{func(a, b heapItem) bool { return a.prio < b.prio }, func(a, b heapItem) bool { return a.prio > b.prio }} {
		c.Enum(fmt.Sprintf("heap built from a slice, order %d", k), sp.N(), func(i int) string { return fmt.Sprint(sp.At(i)) }, func(w *core.W, i int) bool {
			ps := sp.At(i)
			for at := 0; at <= len(ps); at += 1 + len(ps)/3 {
				for push := -1; push < 5; push += 2 {
					s := &heapInst[heapItem]{less: less}
					data := make([]heapItem, len(ps))
					for j, p := range ps {
						data[j] = heapItem{p, j}
					}
					s.mod = slices.Clone(data)
					s.h = gheap.NewWithData(data, less)
					for j := 0; j < at; j++ {
						s.pop(w, ieq)
					}
					if push >= 0 {
						gheap.Push(s.h, heapItem{push, 99})
						s.mod = append(s.mod, heapItem{push, 99})
					}
					for len(s.mod) > 0 {
						s.pop(w, ieq)
					}
				}
			}
			return len(ps) > 2
		})
	}
	// every operation sequence with distinguishable elements
	hp := core.Words{Base: 4, Lo: 1, Hi: core.Pick(c, 9, 11)}
	less := func(a, b heapItem) bool { return a.prio < b.prio }
	c.Enum("heap histories (0: Pop, p: Push(p)) with distinguishable elements", hp.N(), func(i int) string { return fmt.Sprint(hp.At(i)) }, func(w *core.W, i int) bool {
		s := &heapInst[heapItem]{gheap.New(less), nil, less}
		for k, op := range hp.At(i) {
			if op == 0 {
				if len(s.mod) == 0 {
					return false // pop of an empty heap is outside the property
				}
				s.pop(w, ieq)
				continue
			}
			gheap.Push(s.h, heapItem{op, k})
			s.mod = append(s.mod, heapItem{op, k})
		}
		for len(s.mod) > 0 {
			s.pop(w, ieq)
		}
		return true
	})
	hugeHeap(c)
	// larger regular and pseudo-irregular data
	priority := func(kind, n, j int) int {
		return []int{j, n - j, j % 5, 0, j * 37 % 64, min(j, n-j), j * 37 % (n + 1)}[kind]
	}
	sizes := 80
	c.Enum("larger heaps", sizes*7, func(i int) string { v := core.Mixed(i, sizes, 7); return fmt.Sprint(longLen(v[0]), v[1]) }, func(w *core.W, i int) bool {
		v := core.Mixed(i, sizes, 7)
		n := longLen(v[0])
		data := make([]heapItem, n)
		for j := range data {
			data[j] = heapItem{priority(v[1], n, j), j}
		}
		s := &heapInst[heapItem]{gheap.NewWithData(slices.Clone(data), less), data, less}
		t := &heapInst[heapItem]{gheap.New(less), data, less}
		for _, d := range data {
			gheap.Push(t.h, d)
		}
		for len(s.mod) > 0 {
			s.pop(w, ieq)
			t.pop(w, ieq)
		}
		return true
	})
	// a number of pushes and a number of pops, again and again, from heaps of several sizes
	per := []int{9, 9, 7, 4, 2}
	c.Enum("pushes and pops in turn", core.Prod(per...), func(i int) string {
		d := core.Mixed(i, per...)
		return fmt.Sprintf("from %d elements: %d pushes, then %d pops, and so on; priorities of kind %d, built from a slice: %v", []int{0, 15, 64, 257}[d[3]], d[0]+1, d[1]+1, d[2], d[4] == 1)
	}, func(w *core.W, i int) bool {
		d := core.Mixed(i, per...)
		n := []int{0, 15, 64, 257}[d[3]]
		var data []heapItem
		for j := 0; j < n; j++ {
			data = append(data, heapItem{priority(d[2], n, j), j})
		}
		s := &heapInst[heapItem]{gheap.New(less), slices.Clone(data), less}
		if d[4] == 1 {
			s.h = gheap.NewWithData(slices.Clone(data), less)
		} else {
			for _, x := range data {
				gheap.Push(s.h, x)
			}
		}
		at := n
		for round := 0; round < 30; round++ {
			for k := 0; k <= d[0]; k++ {
				x := heapItem{priority(d[2], 300, at), at}
				gheap.Push(s.h, x)
				s.mod = append(s.mod, x)
				at++
			}
			for k := 0; k <= d[1] && len(s.mod) > 0; k++ {
				s.pop(w, ieq)
			}
		}
		for len(s.mod) > 0 {
			s.pop(w, ieq)
		}
		return true
	})
}

// ---------------------------------------------------------------- list

type listSlot struct {
	g *glist.Element[int]
	s *list.Element
}

type listInst struct {
	g     [2]*glist.List[int]
	s     [2]*list.List
	slots []listSlot
	total int
}

func (x *listInst) observe(w *core.W) {
	for l := range x.g {
		g, s := x.g[l], x.s[l]
		if g.Len() != s.Len() {
			w.Fail("list %d: Len() = %d, want %d", l, g.Len(), s.Len())
		}
		pair := func(where string, ge *glist.Element[int], se *list.Element) {
			if (ge == nil) != (se == nil) {
				w.Fail("list %d: %s: element %v, want %v", l, where, ge != nil, se != nil)
			}
			if ge == nil {
				return
			}
			if ge.Value != se.Value.(int) {
				w.Fail("list %d: %s: value %d, want %d", l, where, ge.Value, se.Value)
			}
			for i, sl := range x.slots {
				if (sl.g == ge) != (sl.s == se) {
					w.Fail("list %d: %s: handle %d refers to another element", l, where, i)
				}
			}
		}
		ge, se := g.Front(), s.Front()
		for i := 0; ; i++ {
			pair(fmt.Sprintf("forward %d", i), ge, se)
			if ge == nil {
				break
			}
			ge, se = ge.Next(), se.Next()
		}
		ge, se = g.Back(), s.Back()
		for i := 0; ; i++ {
			pair(fmt.Sprintf("backward %d", i), ge, se)
			if ge == nil {
				break
			}
			ge, se = ge.Prev(), se.Prev()
		}
		se = s.Front()
		g.Range(func(e *glist.Element[int]) {
			pair("Range", e, se)
			if se != nil {
				se = se.Next()
			}
		})
		if se != nil {
			w.Fail("list %d: Range ends early", l)
		}
	}
	for i, sl := range x.slots {
		gn, sn := sl.g.Next(), sl.s.Next()
		gp, sp := sl.g.Prev(), sl.s.Prev()
		if (gn == nil) != (sn == nil) || (gp == nil) != (sp == nil) {
			w.Fail("handle %d: neighbours %v %v, want %v %v", i, gn != nil, gp != nil, sn != nil, sp != nil)
		}
		if gn != nil && gn.Value != sn.Value.(int) || gp != nil && gp.Value != sp.Value.(int) {
			w.Fail("handle %d: wrong neighbours", i)
		}
		if sl.g.Value != sl.s.Value.(int) {
			w.Fail("handle %d: value %d, want %d", i, sl.g.Value, sl.s.Value)
		}
	}
}

func listMachine(name string, zero bool, nslots, maxTotal, depth int) *core.Machine {
	type op struct {
		name string
		f    func(w *core.W, x *listInst) bool
	}
	var ops []op
	add := func(name string, f func(w *core.W, x *listInst) bool) { ops = append(ops, op{name, f}) }
	insert := func(name string, f func(x *listInst, v int) (*glist.Element[int], *list.Element)) {
		add(name, func(w *core.W, x *listInst) bool {
			if len(x.slots) >= nslots || x.total >= maxTotal {
				return false
			}
			v := 1
			for slices.ContainsFunc(x.slots, func(s listSlot) bool { return s.g.Value == v }) {
				v++
			}
			g, s := f(x, v)
			if (g == nil) != (s == nil) {
				w.Fail("%s returned an element: %v, want %v", name, g != nil, s != nil)
			}
			if g == nil {
				return true
			}
			if g.Value != v {
				w.Fail("%s returned an element with value %d, want %d", name, g.Value, v)
			}
			x.slots = append(x.slots, listSlot{g, s})
			x.total++
			return true
		})
	}
	for l := 0; l < 2; l++ {
		insert(fmt.Sprintf("l%d.PushFront", l), func(x *listInst, v int) (*glist.Element[int], *list.Element) {
			return x.g[l].PushFront(v), x.s[l].PushFront(v)
		})
		insert(fmt.Sprintf("l%d.PushBack", l), func(x *listInst, v int) (*glist.Element[int], *list.Element) {
			return x.g[l].PushBack(v), x.s[l].PushBack(v)
		})
		for i := 0; i < nslots; i++ {
			has := func(x *listInst) bool { return i < len(x.slots) }
			ins := func(name string, f func(x *listInst, v int) (*glist.Element[int], *list.Element)) {
				insert(name, f)
				g := ops[len(ops)-1].f
				ops[len(ops)-1].f = func(w *core.W, x *listInst) bool { return has(x) && g(w, x) }
			}
			ins(fmt.Sprintf("l%d.InsertBefore(e%d)", l, i), func(x *listInst, v int) (*glist.Element[int], *list.Element) {
				return x.g[l].InsertBefore(v, x.slots[i].g), x.s[l].InsertBefore(v, x.slots[i].s)
			})
			ins(fmt.Sprintf("l%d.InsertAfter(e%d)", l, i), func(x *listInst, v int) (*glist.Element[int], *list.Element) {
				return x.g[l].InsertAfter(v, x.slots[i].g), x.s[l].InsertAfter(v, x.slots[i].s)
			})
			add(fmt.Sprintf("l%d.Remove(e%d)", l, i), func(w *core.W, x *listInst) bool {
				if !has(x) {
					return false
				}
				g, s := x.g[l].Remove(x.slots[i].g), x.s[l].Remove(x.slots[i].s)
				if g != s {
					w.Fail("Remove returned %v, want %v", g, s)
				}
				return true
			})
			add(fmt.Sprintf("l%d.MoveToFront(e%d)", l, i), func(w *core.W, x *listInst) bool {
				if !has(x) {
					return false
				}
				x.g[l].MoveToFront(x.slots[i].g)
				x.s[l].MoveToFront(x.slots[i].s)
				return true
			})
			add(fmt.Sprintf("l%d.MoveToBack(e%d)", l, i), func(w *core.W, x *listInst) bool {
				if !has(x) {
					return false
				}
				x.g[l].MoveToBack(x.slots[i].g)
				x.s[l].MoveToBack(x.slots[i].s)
				return true
			})
			for j := 0; j < nslots; j++ {
				add(fmt.Sprintf("l%d.MoveBefore(e%d,e%d)", l, i, j), func(w *core.W, x *listInst) bool {
					if !has(x) || j >= len(x.slots) {
						return false
					}
					x.g[l].MoveBefore(x.slots[i].g, x.slots[j].g)
					x.s[l].MoveBefore(x.slots[i].s, x.slots[j].s)
					return true
				})
				add(fmt.Sprintf("l%d.MoveAfter(e%d,e%d)", l, i, j), func(w *core.W, x *listInst) bool {
					if !has(x) || j >= len(x.slots) {
						return false
					}
					x.g[l].MoveAfter(x.slots[i].g, x.slots[j].g)
					x.s[l].MoveAfter(x.slots[i].s, x.slots[j].s)
					return true
				})
			}
		}
		for o := 0; o < 2; o++ {
			add(fmt.Sprintf("l%d.PushBackList(l%d)", l, o), func(w *core.W, x *listInst) bool {
				n := x.s[o].Len()
				if x.total+n > maxTotal {
					return false
				}
				x.g[l].PushBackList(x.g[o])
				x.s[l].PushBackList(x.s[o])
				x.total += n
				return true
			})
			add(fmt.Sprintf("l%d.PushFrontList(l%d)", l, o), func(w *core.W, x *listInst) bool {
				n := x.s[o].Len()
				if x.total+n > maxTotal {
					return false
				}
				x.g[l].PushFrontList(x.g[o])
				x.s[l].PushFrontList(x.s[o])
				x.total += n
				return true
			})
		}
		add(fmt.Sprintf("l%d.Init (all handles dropped)", l), func(w *core.W, x *listInst) bool {
			if r := x.g[l].Init(); r != x.g[l] {
				w.Fail("Init does not return the list")
			}
			x.s[l].Init()
			x.slots = nil
			x.total = x.s[1-l].Len()
			return true
		})
		add(fmt.Sprintf("l%d.Remove(Front)", l), func(w *core.W, x *listInst) bool {
			if x.s[l].Len() == 0 {
				return false
			}
			g, s := x.g[l].Remove(x.g[l].Front()), x.s[l].Remove(x.s[l].Front())
			if g != s {
				w.Fail("Remove(Front()) returned %v, want %v", g, s)
			}
			return true
		})
	}
	add("forget e0", func(w *core.W, x *listInst) bool {
		if len(x.slots) == 0 {
			return false
		}
		x.slots = x.slots[1:]
		x.total = x.s[0].Len() + x.s[1].Len()
		return true
	})
	names := make([]string, len(ops))
	for i, o := range ops {
		names[i] = o.name
	}
	return &core.Machine{
		Name: name, Ops: names, Depth: depth,
		New: func() any {
			if zero {
				return &listInst{g: [2]*glist.List[int]{new(glist.List[int]), new(glist.List[int])}, s: [2]*list.List{new(list.List), new(list.List)}}
			}
			return &listInst{g: [2]*glist.List[int]{glist.New[int](), glist.New[int]()}, s: [2]*list.List{list.New(), list.New()}}
		},
		Step:  func(w *core.W, in any, op int) bool { return ops[op].f(w, in.(*listInst)) },
		Check: func(w *core.W, in any) { in.(*listInst).observe(w) },
	}
}

// ---------------------------------------------------------------- ring

type ringInst struct {
	g []*gring.Ring[int]
	s []*ring.Ring
}

func (x *ringInst) index(w *core.W, g *gring.Ring[int], s *ring.Ring, what string) int {
	gi, si := -1, -1
	for i := range x.g {
		if x.g[i] == g {
			gi = i
		}
		if x.s[i] == s {
			si = i
		}
	}
	if (g == nil) != (s == nil) || gi != si {
		w.Fail("%s gives element %d, want %d", what, gi, si)
	}
	return gi
}

func (x *ringInst) observe(w *core.W) {
	for i := range x.g {
		var got, want []any
		x.g[i].Do(func(v any) { got = append(got, v) })
		x.s[i].Do(func(v any) { want = append(want, v) })
		if !slices.Equal(got, want) {
			w.Fail("Do from %d visits %v, want %v", i, got, want)
		}
		if x.g[i].Len() != x.s[i].Len() {
			w.Fail("Len of %d = %d, want %d", i, x.g[i].Len(), x.s[i].Len())
		}
		x.index(w, x.g[i].Next(), x.s[i].Next(), fmt.Sprintf("Next of %d", i))
		x.index(w, x.g[i].Prev(), x.s[i].Prev(), fmt.Sprintf("Prev of %d", i))
		for n := -7; n <= 7; n++ {
			x.index(w, x.g[i].Move(n), x.s[i].Move(n), fmt.Sprintf("Move(%d) of %d", n, i))
		}
	}
}

func ringMachine(sizes []int, depth int) *core.Machine {
	type op struct {
		name string
		f    func(w *core.W, x *ringInst)
	}
	n := 0
	for _, k := range sizes {
		n += max(k, 1)
	}
	var ops []op
	for i := 0; i < n; i++ {
		for j := -1; j < n; j++ {
			ops = append(ops, op{fmt.Sprintf("r%d.Link(r%d)", i, j), func(w *core.W, x *ringInst) {
				if j < 0 {
					x.index(w, x.g[i].Link(nil), x.s[i].Link(nil), "Link(nil)")
					return
				}
				x.index(w, x.g[i].Link(x.g[j]), x.s[i].Link(x.s[j]), "Link")
			}})
		}
		for k := -1; k <= n+1; k++ {
			ops = append(ops, op{fmt.Sprintf("r%d.Unlink(%d)", i, k), func(w *core.W, x *ringInst) {
				x.index(w, x.g[i].Unlink(k), x.s[i].Unlink(k), "Unlink")
			}})
		}
		for _, k := range []int{-2, 0, 1} {
			ops = append(ops, op{fmt.Sprintf("r%d.Move(%d)", i, k), func(w *core.W, x *ringInst) {
				x.index(w, x.g[i].Move(k), x.s[i].Move(k), "Move")
			}})
		}
		ops = append(ops, op{fmt.Sprintf("r%d.Prev()", i), func(w *core.W, x *ringInst) {
			x.index(w, x.g[i].Prev(), x.s[i].Prev(), "Prev")
		}})
	}
	names := make([]string, len(ops))
	for i, o := range ops {
		names[i] = o.name
	}
	return &core.Machine{
		Name: fmt.Sprintf("rings of sizes %v (0: zero value)", sizes), Ops: names, Depth: depth,
		New: func() any {
			x := &ringInst{}
			for _, k := range sizes {
				if k == 0 {
					x.g, x.s = append(x.g, &gring.Ring[int]{Value: len(x.g)}), append(x.s, &ring.Ring{Value: len(x.s)})
					continue
				}
				g, s := gring.New[int](k), ring.New(k)
				for ; k > 0; k-- {
					g.Value, s.Value = len(x.g), len(x.s)
					x.g, x.s = append(x.g, g), append(x.s, s)
					g, s = g.Next(), s.Next()
				}
			}
			return x
		},
		Step:  func(w *core.W, in any, op int) bool { ops[op].f(w, in.(*ringInst)); return true },
		Check: func(w *core.W, in any) { in.(*ringInst).observe(w) },
	}
}

// ---------------------------------------------------------------- queue

type queueInst[T comparable] struct {
	q   *gqueue.Queue[T]
	mod []T
}

func (x *queueInst[T]) observe(w *core.W) {
	var zero T
	if x.q.Len() != len(x.mod) || gqueue.IsEmpty(x.q) != (len(x.mod) == 0) {
		w.Fail("Len() = %d, IsEmpty = %v, want %d", x.q.Len(), gqueue.IsEmpty(x.q), len(x.mod))
	}
	all := gqueue.PeekAll(x.q)
	if !slices.Equal(all, x.mod) {
		w.Fail("PeekAll = %v, want %v", all, x.mod)
	}
	for i := range all {
		all[i] = zero
	}
	_ = append(all, zero)
	if !slices.Equal(gqueue.PeekAll(x.q), x.mod) {
		w.Fail("writing to the result of PeekAll changes the queue")
	}
	v, err := gqueue.Peek(x.q)
	if len(x.mod) == 0 {
		if v != zero || !errors.Is(err, gqueue.ErrorEmptyQueue) {
			w.Fail("Peek of an empty queue = %v, %v", v, err)
		}
	} else if err != nil || v != x.mod[0] {
		w.Fail("Peek = %v, %v, want %v", v, err, x.mod[0])
	}
}

func queueMachine[T comparable](c *core.Ctx, name string, vals []T, capacity int) {
	ops := []string{"Pop", "Iterator", "Clear"}
	for _, v := range vals {
		ops = append(ops, fmt.Sprintf("Push(%v)", v))
	}
	var zero T
	limit := capacity
	m := &core.Machine{
		Name: name, Ops: ops, New: func() any { return &queueInst[T]{q: gqueue.New[T]()} },
		Step: func(w *core.W, in any, op int) bool {
			x := in.(*queueInst[T])
			switch op {
			case 0:
				v, err := x.q.Pop()
				if len(x.mod) == 0 {
					if v != zero || !errors.Is(err, gqueue.ErrorEmptyQueue) {
						w.Fail("Pop of an empty queue = %v, %v", v, err)
					}
					return true
				}
				if err != nil || v != x.mod[0] {
					w.Fail("Pop = %v, %v, want %v", v, err, x.mod[0])
				}
				x.mod = x.mod[1:]
			case 1:
				var got []T
				for v := range gqueue.Iterator(x.q) {
					got = append(got, v)
				}
				if !slices.Equal(got, x.mod) {
					w.Fail("Iterator delivers %v, want %v", got, x.mod)
				}
				x.mod = nil
			case 2:
				gqueue.Clear(x.q)
				x.mod = nil
			default:
				if len(x.mod) >= limit {
					return false
				}
				if err := x.q.Push(vals[op-3]); err != nil {
					w.Fail("Push: %v", err)
				}
				x.mod = append(x.mod[:len(x.mod):len(x.mod)], vals[op-3])
			}
			return true
		},
		Check: func(w *core.W, in any) { in.(*queueInst[T]).observe(w) },
	}
	c.BFS(m)
	limit = 1000
	c.Cycles(m, core.Pick(c, 4, 5), 200, 67)
	c.Enum(name+" generated from a longer slice", 80, func(i int) string { return fmt.Sprint(longLen(i)) }, func(w *core.W, i int) bool {
		var s []T
		for k := 0; k < longLen(i); k++ {
			s = append(s, vals[(k+k/3)%len(vals)])
		}
		for k := 0; k < 3; k++ { // the last time through the iterator
			x := &queueInst[T]{gqueue.Gen(slices.Clone(s)), slices.Clone(s)}
			x.observe(w)
			for j := 0; j < 2*len(s)+3; j++ {
				if k == 1 || j%3 == 0 {
					_ = x.q.Push(vals[j%len(vals)])
					x.mod = append(x.mod, vals[j%len(vals)])
				}
				if len(x.mod) > 0 && k < 2 {
					if v, err := x.q.Pop(); err != nil || v != x.mod[0] {
						w.Fail("Pop %d = %v, %v, want %v", j, v, err, x.mod[0])
					}
					x.mod = x.mod[1:]
				}
			}
			x.observe(w)
			var got []T
			for v := range gqueue.Iterator(x.q) {
				got = append(got, v)
			}
			if !slices.Equal(got, x.mod) {
				w.Fail("Iterator delivers %v, want %v", got, x.mod)
			}
		}
		return i > 1
	})
	sp := core.Words{Base: len(vals), Lo: 0, Hi: capacity}
	c.Enum(name+" generated from a slice", sp.N(), func(i int) string { return fmt.Sprint(sp.At(i)) }, func(w *core.W, i int) bool {
		var s []T
		for _, k := range sp.At(i) {
			s = append(s, vals[k])
		}
		x := &queueInst[T]{gqueue.Gen(s), slices.Clone(s)}
		x.observe(w)
		_ = x.q.Push(vals[0])
		x.mod = append(x.mod, vals[0])
		x.observe(w)
		if len(s) > 0 {
			s[0] = vals[len(vals)-1]
			x.observe(w)
		}
		return len(s) > 1
	})
}

func init() {
	core.Register("H01", "model_checking", "a multiset: every Pop returns a minimal element of it", heapChecks)
	core.Register("G01", "model_checking", "container/list driven in step: order, handles, lengths and results agree after every operation", func(c *core.Ctx) {
		c.BFS(listMachine("two lists", false, core.Pick(c, 3, 4), core.Pick(c, 4, 5), core.Pick(c, 6, 7)))
		c.BFS(listMachine("two zero-valued lists", true, 3, 4, core.Pick(c, 5, 6)))
		c.BFS(listMachine("two lists, two handles", false, 2, core.Pick(c, 5, 6), core.Pick(c, 8, 10)))
		c.Cycles(listMachine("two lists, up to 40 elements", false, 2, 40, 0), 2, 40, 7)
		c.Cycles(listMachine("two lists, up to 200 elements", false, 1, 200, 0), core.Pick(c, 2, 3), core.Pick(c, 120, 60), 50)
		hugeList(c)
	})
	core.Register("G02", "model_checking", "container/ring driven in step: every link and result agrees after every operation", func(c *core.Ctx) {
		c.BFS(ringMachine([]int{3, 2}, 0))
		c.BFS(ringMachine([]int{1, 1, 2}, 0))
		c.BFS(ringMachine([]int{0, 2}, 0))
		c.BFS(ringMachine([]int{0, 0, 1}, 0))
		if c.Thorough {
			c.BFS(ringMachine([]int{4, 2}, 0))
			c.BFS(ringMachine([]int{0, 3, 1}, 0))
		}
		// two operations on larger rings
		per := []int{core.Pick(c, 14, 24), 3, 24, 26, 3, 4}
		c.Enum("larger rings", core.Prod(per...), func(i int) string {
			return fmt.Sprintf("[size-5, operation, element, argument, operation, argument] = %v", core.Mixed(i, per...))
		}, func(w *core.W, i int) bool {
			d := core.Mixed(i, per...)
			n := 5 + d[0]
			if d[2] >= n || d[1] < 2 && d[3] > n+1 || d[1] == 2 && d[3] > 3 {
				return false
			}
			x := &ringInst{}
			g, s := gring.New[int](n), ring.New(n)
			for k := 0; k < n; k++ {
				g.Value, s.Value = k, k
				x.g, x.s = append(x.g, g), append(x.s, s)
				g, s = g.Next(), s.Next()
			}
			do := func(op, e, a int) {
				switch op {
				case 0:
					x.index(w, x.g[e].Unlink(a), x.s[e].Unlink(a), fmt.Sprintf("Unlink(%d) of %d", a, e))
				case 1:
					x.index(w, x.g[e].Link(x.g[a%n]), x.s[e].Link(x.s[a%n]), fmt.Sprintf("Link of %d and %d", e, a%n))
				case 2: // another ring
					k := []int{1, 2, 7, 16}[a]
					h, t := gring.New[int](k), ring.New(k)
					for ; k > 0; k-- {
						h.Value, t.Value = len(x.g), len(x.s)
						x.g, x.s = append(x.g, h), append(x.s, t)
						h, t = h.Next(), t.Next()
					}
					x.index(w, x.g[e].Link(h), x.s[e].Link(t), fmt.Sprintf("Link of %d and a ring", e))
				}
				x.observe(w)
			}
			do(d[1], d[2], d[3])
			do(d[4], (d[2]+n/2)%n, []int{0, 3, 1, 2}[d[5]])
			return true
		})
		c.Enum("moves round larger rings", 80*400, func(i int) string { v := core.Mixed(i, 80, 400); return fmt.Sprint(longLen(v[0])+1, v[1]-200) }, func(w *core.W, i int) bool {
			v := core.Mixed(i, 80, 400)
			n, k := longLen(v[0])+1, v[1]-200
			g, s := gring.New[int](n), ring.New(n)
			for j := 0; j < n; j++ {
				g.Value, s.Value = j, j
				g, s = g.Next(), s.Next()
			}
			if g.Len() != n {
				w.Fail("Len() = %d", g.Len())
			}
			if got, want := g.Move(k).Value, s.Move(k).Value; got != want.(int) {
				w.Fail("Move(%d) in a ring of %d gives element %d, want %d", k, n, got, want)
			}
			if k < 0 {
				return true
			}
			r, t := g.Unlink(k), s.Unlink(k)
			if (r == nil) != (t == nil) || g.Len() != s.Len() || r != nil && (r.Len() != t.Len() || r.Value != t.Value.(int)) {
				w.Fail("Unlink(%d) from a ring of %d leaves %d", k, n, g.Len())
			}
			return true
		})
		hugeRing(c)
		c.Enum("New", 12, func(i int) string { return fmt.Sprint(i - 3) }, func(w *core.W, i int) bool {
			g, s := gring.New[int](i-3), ring.New(i-3)
			if (g == nil) != (s == nil) || g.Len() != s.Len() {
				w.Fail("New(%d) has %d elements, want %d", i-3, g.Len(), s.Len())
			}
			calls := 0
			g.Do(func(any) { calls++ })
			if calls != s.Len() {
				w.Fail("Do makes %d calls, want %d", calls, s.Len())
			}
			return s != nil
		})
	})
	core.Register("Q01", "model_checking", "a slice used as a queue: results, length and contents agree after every operation", func(c *core.Ctx) {
		queueMachine(c, "queue[int]", []int{1, 2}, core.Pick(c, 6, 9))
		queueMachine(c, "queue[string]", []string{"", "a", "b"}, core.Pick(c, 4, 6))
		p, q := 1, 2
		queueMachine(c, "queue[*int]", []*int{nil, &p, &q}, core.Pick(c, 3, 5))
		hugeQueue(c)
	})
}
