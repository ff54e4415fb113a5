package main

import (
	"fmt"
	"math/bits"
	"slices"

	"github.com/miniLCT/gosb/gogenerics/gcontainers/gheap"
	rbt "github.com/miniLCT/gosb/gogenerics/gds/grbt"

	"verif/core"
)

// What operations may cost, in calls of the function that orders the elements. The bounds leave room for other ways of
// writing the same algorithms (both children compared, a search that compares twice on each level), none for another order of growth.

type costHeap struct {
	h     *gheap.Heap[int]
	n     int
	calls int
}

func newCostHeap(desc bool) *costHeap {
	x := &costHeap{}
	x.h = gheap.New(func(a, b int) bool {
		x.calls++
		if desc {
			return a > b
		}
		return a < b
	})
	return x
}

func (x *costHeap) within(w *core.W, op string, bound int) {
	if x.calls > bound {
		w.Fail("%s, with %d elements before, calls less %d times, which is more than %d", op, x.n, x.calls, bound)
	}
	x.calls = 0
}

func (x *costHeap) push(w *core.W, v int) {
	gheap.Push(x.h, v)
	x.within(w, "Push", 2*bits.Len(uint(x.n))+2)
	x.n++
}

func (x *costHeap) pop(w *core.W) int {
	v := gheap.Pop(x.h)
	x.within(w, "Pop", 4*bits.Len(uint(x.n))+2)
	x.n--
	return v
}

type costTree struct {
	t     *rbt.RbTree[int, int]
	calls int
	mod   map[int]bool
}

func newCostTree(desc bool) *costTree {
	x := &costTree{mod: map[int]bool{}}
	x.t = rbt.New[int, int](func(a, b int) bool {
		x.calls++
		if desc {
			return a > b
		}
		return a < b
	})
	return x
}

var costOps = []string{"Insert", "Delete", "Update", "Get", "Search"}

func (x *costTree) do(w *core.W, op, k int) {
	n := len(x.mod)
	switch op {
	case 0:
		x.t.Insert(k, k)
		x.mod[k] = true
	case 1:
		x.t.Delete(k)
		delete(x.mod, k)
	case 2:
		x.t.Update(k, k)
	case 3:
		x.t.Get(k)
	case 4:
		x.t.Search(k)
	}
	if bound := 4*bits.Len(uint(n)) + 4; x.calls > bound {
		w.Fail("%s(%d), with %d keys before, calls less %d times, which is more than %d", costOps[op], k, n, x.calls, bound)
	}
	x.calls = 0
}

func costChecks(c *core.Ctx) {
	for _, desc := range []bool{false, true} {
		capacity := core.Pick(c, 9, 11)
		const np = 4
		ops := []string{"Pop"}
		for p := range np {
			ops = append(ops, fmt.Sprintf("Push(%d)", p))
		}
		m := &core.Machine{
			Name: fmt.Sprintf("comparisons of a heap, descending %v", desc), Ops: ops,
			New: func() any { return newCostHeap(desc) },
			Step: func(w *core.W, in any, op int) bool {
				x := in.(*costHeap)
				if op == 0 {
					if x.n == 0 {
						return false
					}
					x.pop(w)
					return true
				}
				if x.n >= capacity {
					return false
				}
				x.push(w, op-1)
				return true
			},
		}
		c.BFS(m)
		capacity = 1000
		c.Cycles(m, core.Pick(c, 5, 6), 400, 1000)

		sp := core.Words{Base: 4, Lo: 0, Hi: core.Pick(c, 7, 8)}
		c.Enum(fmt.Sprintf("comparisons when built from a slice, descending %v", desc), sp.N(), func(i int) string { return fmt.Sprint(sp.At(i)) },
			func(w *core.W, i int) bool { costBuilt(w, desc, sp.At(i)); return true })

		keys := core.Pick(c, 7, 9)
		var tops []string
		for _, o := range costOps {
			for k := range keys {
				tops = append(tops, fmt.Sprintf("%s(%d)", o, k))
			}
		}
		c.BFS(&core.Machine{
			Name: fmt.Sprintf("comparisons of a tree, descending %v", desc), Ops: tops,
			New:  func() any { return newCostTree(desc) },
			Step: func(w *core.W, in any, op int) bool { in.(*costTree).do(w, op/keys, op%keys); return true },
		})
	}

	sizes := core.Pick(c, []int{17, 64, 300, 1025}, []int{17, 64, 65, 300, 1025, 2500, 5000})
	per := []int{len(sizes), len(core.LongOrders), len(core.LongOrders), core.LongMixes, 2}
	c.Enum("comparisons in long histories", core.Prod(per...), func(i int) string {
		d := core.Mixed(i, per...)
		return core.LongName(sizes[d[0]], d[1], d[2], d[3])
	}, func(w *core.W, i int) bool {
		d := core.Mixed(i, per...)
		n := sizes[d[0]]
		t, h := newCostTree(d[4] == 1), newCostHeap(d[4] == 1)
		for j, o := range core.LongHistory(n, d[1], d[2], d[3]) {
			if o.Del {
				t.do(w, 1, 2*o.Rank)
				if h.n > 0 {
					h.pop(w)
				}
			} else {
				t.do(w, 0, 2*o.Rank)
				h.push(w, o.Rank)
			}
			// keys that are there and keys that are not, nearby and elsewhere
			t.do(w, 2+j%3, 2*o.Rank+j%2)
			t.do(w, 2+(j+1)%3, 2*((o.Rank*7+j)%n))
		}
		for h.n > 0 {
			h.pop(w)
		}
		return true
	})

	hugeUpTo(c, core.Pick(c, 100_001, 300_000), "comparisons", len(core.LongOrders)*2, func(w *core.W, n, v int) {
		desc := v%2 == 1
		a := core.LongPerm(v/2, n)
		if v%2 == 1 && n%2 == 1 { // duplicates
			for i := range a {
				a[i] %= 7
			}
		}
		costBuilt(w, desc, slices.Clone(a))
		h, t := newCostHeap(desc), newCostTree(desc)
		for _, k := range a {
			h.push(w, k)
			t.do(w, 0, k)
		}
		for i, k := range a {
			h.pop(w)
			t.do(w, 2+i%3, k)
			if i%2 == 0 {
				t.do(w, 1, a[(i*3)%n])
			}
		}
	})
}

// costBuilt builds a heap from a slice and empties it.
func costBuilt(w *core.W, desc bool, data []int) {
	calls, n := 0, len(data)
	h := gheap.NewWithData(data, func(a, b int) bool {
		calls++
		if desc {
			return a > b
		}
		return a < b
	})
	if bound := 2*n*bits.Len(uint(n)) + 4; calls > bound {
		w.Fail("NewWithData with %d elements calls less %d times, which is more than %d", n, calls, bound)
	}
	for ; n > 0; n-- {
		calls = 0
		gheap.Pop(h)
		if bound := 4*bits.Len(uint(n)) + 2; calls > bound {
			w.Fail("Pop, with %d elements before, calls less %d times, which is more than %d", n, calls, bound)
		}
	}
}

func init() {
	core.Register("D01", "model_checking", "calls of the ordering function are counted in every operation and compared with a small multiple of the logarithm of the size", costChecks)
}
