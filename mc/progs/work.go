package progs

import (
	"fmt"
	"slices"
	"strings"

	gsync "github.com/miniLCT/gosb/gogenerics/gconcurrent/sync"

	"verif/core"
	"verif/rt"
)

// workMap drives a concurrent map and adds up what its calls may cost.
type workMap struct {
	m       gsync.Map[int, int]
	present []int // the keys, oldest first
	next    int   // the key that comes next
	turn    int
	allowed int
}

const (
	perCall  = 40 // steps on average; the present ones need less than half of it
	perEntry = 10 // of a Range, which comes by deleted entries as well, and of the copying that it may lead to
)

func (x *workMap) fresh() int {
	k := x.next
	x.next++
	x.present = append(x.present, k)
	return k
}

// some is a key in the map, another one each time.
func (x *workMap) some() int {
	if len(x.present) == 0 {
		return -1
	}
	x.turn++
	return x.present[x.turn%len(x.present)]
}

func (x *workMap) take(i int) int {
	if len(x.present) == 0 {
		return -1
	}
	if i < 0 {
		i += len(x.present)
	}
	k := x.present[i]
	x.present = slices.Delete(x.present, i, i+1)
	return k
}

func (x *workMap) newest() int {
	if len(x.present) == 0 {
		return -1
	}
	return x.present[len(x.present)-1]
}

var workOps = []struct {
	name string
	do   func(x *workMap)
}{
	{"Store(new)", func(x *workMap) { k := x.fresh(); x.m.Store(k, k) }},
	{"LoadOrStore(new)", func(x *workMap) { k := x.fresh(); x.m.LoadOrStore(k, k) }},
	{"Store(present)", func(x *workMap) { k := x.some(); x.allow(k); x.m.Store(max(k, 0), k) }},
	{"Load(newest)", func(x *workMap) { x.m.Load(x.newest()) }},
	{"Load(present)", func(x *workMap) { x.m.Load(x.some()) }},
	{"Load(absent)", func(x *workMap) { x.m.Load(-1) }},
	{"Delete(oldest)", func(x *workMap) { x.m.Delete(x.take(0)) }},
	{"LoadAndDelete(newest)", func(x *workMap) { x.m.LoadAndDelete(x.take(-1)) }},
	{"Delete(absent)", func(x *workMap) { x.m.Delete(-1) }},
	{"CompareAndDelete(newest)", func(x *workMap) { k := x.take(-1); x.m.CompareAndDelete(k, k) }},
	{"CompareAndDelete(absent)", func(x *workMap) { x.m.CompareAndDelete(-1, 0) }},
	{"CompareAndSwap(newest)", func(x *workMap) { k := x.newest(); x.m.CompareAndSwap(k, k, k) }},
	{"Swap(newest)", func(x *workMap) { k := x.newest(); x.allow(k); x.m.Swap(max(k, 0), k) }},
	{"Range", func(x *workMap) {
		x.allowed += perEntry * (len(x.present) + x.next)
		x.m.Range(func(int, int) bool { return true })
	}},
	{"Range, stopped", func(x *workMap) {
		x.allowed += perEntry * (len(x.present) + x.next)
		x.m.Range(func(int, int) bool { return false })
	}},
}

// allow enters key 0 if there is none.
func (x *workMap) allow(k int) {
	if k < 0 {
		x.present = append(x.present, 0)
	}
}

func (x *workMap) do(w *core.W, op int, calls int) {
	x.allowed += perCall
	workOps[op].do(x)
	if n := rt.Work(); n > x.allowed+200 {
		w.Fail("%d calls have made %d steps together, which is more than a constant number for each", calls, n)
	}
}

// workPasts are the ways in which the map came about before.
var workPasts = []string{"stored", "stored and ranged over", "stored and loaded", "stored, ranged over and deleted", "stored, ranged over and half deleted"}

func (x *workMap) past(w *core.W, kind, n int) int {
	calls := 0
	do := func(name string, times int) {
		for op := range workOps {
			if workOps[op].name == name {
				for range times {
					calls++
					x.do(w, op, calls)
				}
			}
		}
	}
	do("Store(new)", n)
	switch kind {
	case 1, 3, 4:
		do("Range", 1)
	case 2:
		do("Load(newest)", 2*n)
	}
	switch kind {
	case 3:
		do("Delete(oldest)", n)
	case 4:
		do("Delete(oldest)", n/2)
	}
	return calls
}

// workPrograms measures the work of long histories of a concurrent map.
func workPrograms(thorough bool) []rt.Prog {
	period, length := 3, 400
	if thorough {
		period, length = 4, 900
	}
	var ps []rt.Prog
	for kind, past := range workPasts {
		for _, n := range []int{0, 30, 200} {
			if n == 0 && kind > 0 || n == 30 && !thorough {
				continue
			}
			name := fmt.Sprintf("work of a concurrent map, %d keys %s before", n, past)
			ps = append(ps, rt.Prog{Name: name, Machine: func(c *core.Ctx, exec func(func())) {
				sp := core.Words{Base: len(workOps), Lo: 1, Hi: period}
				c.Enum(name, sp.N(), func(i int) string {
					var s []string
					for _, op := range sp.At(i) {
						s = append(s, workOps[op].name)
					}
					return fmt.Sprintf("(%s)* for %d calls", strings.Join(s, " ; "), length)
				}, func(w *core.W, i int) bool {
					word := sp.At(i)
					exec(func() {
						x := &workMap{}
						calls := x.past(w, kind, n)
						for t := range length {
							calls++
							x.do(w, word[t%len(word)], calls)
						}
						c.AddTransitions(int64(calls))
					})
					return true
				})
			}})
		}
	}
	return ps
}
