package main

import (
	"fmt"
	"maps"

	gsync "github.com/miniLCT/gosb/gogenerics/gconcurrent/sync"
	"verif/core"
)

func init() {
	core.Register("M02", "model_checking",
		"a plain Go map: every result of every operation must be the one the map gives, and in every state every key must load as the map has it and Range must list exactly the map's entries", cmapChecks)
}

type cmapInst[K, V comparable] struct {
	M   gsync.Map[K, V]
	mod map[K]V
}

// cmapMachine is a concurrent map and a plain map driven by the same operations.
func cmapMachine[K, V comparable](name string, keys []K, vals []V) *core.Machine {
	type op struct {
		name string
		do   func(w *core.W, s *cmapInst[K, V])
	}
	var ops []op
	eq := func(w *core.W, what string, v V, ok bool, wv V, wok bool) {
		if v != wv || ok != wok {
			w.Fail("%s returned (%v, %v), a plain map gives (%v, %v)", what, v, ok, wv, wok)
		}
	}
	for _, k := range keys {
		ops = append(ops,
			op{fmt.Sprintf("Load(%v)", k), func(w *core.W, s *cmapInst[K, V]) {
				v, ok := s.M.Load(k)
				wv, wok := s.mod[k]
				eq(w, "Load", v, ok, wv, wok)
			}},
			op{fmt.Sprintf("LoadAndDelete(%v)", k), func(w *core.W, s *cmapInst[K, V]) {
				v, ok := s.M.LoadAndDelete(k)
				wv, wok := s.mod[k]
				delete(s.mod, k)
				eq(w, "LoadAndDelete", v, ok, wv, wok)
			}},
			op{fmt.Sprintf("Delete(%v)", k), func(w *core.W, s *cmapInst[K, V]) {
				s.M.Delete(k)
				delete(s.mod, k)
			}})
		for i, v := range vals {
			ops = append(ops,
				op{fmt.Sprintf("Store(%v,%v)", k, v), func(w *core.W, s *cmapInst[K, V]) {
					s.M.Store(k, v)
					s.mod[k] = v
				}},
				op{fmt.Sprintf("Swap(%v,%v)", k, v), func(w *core.W, s *cmapInst[K, V]) {
					got, ok := s.M.Swap(k, v)
					wv, wok := s.mod[k]
					s.mod[k] = v
					eq(w, "Swap", got, ok, wv, wok)
				}},
				op{fmt.Sprintf("LoadOrStore(%v,%v)", k, v), func(w *core.W, s *cmapInst[K, V]) {
					got, ok := s.M.LoadOrStore(k, v)
					wv, wok := s.mod[k]
					if !wok {
						s.mod[k], wv = v, v
					}
					eq(w, "LoadOrStore", got, ok, wv, wok)
				}},
				op{fmt.Sprintf("CompareAndDelete(%v,%v)", k, v), func(w *core.W, s *cmapInst[K, V]) {
					ok := s.M.CompareAndDelete(k, v)
					wv, has := s.mod[k]
					wok := has && wv == v
					if wok {
						delete(s.mod, k)
					}
					if ok != wok {
						w.Fail("CompareAndDelete returned %v, a plain map gives %v", ok, wok)
					}
				}})
			for j, n := range vals {
				if i == j && len(vals) > 1 {
					continue
				}
				ops = append(ops, op{fmt.Sprintf("CompareAndSwap(%v,%v,%v)", k, v, n), func(w *core.W, s *cmapInst[K, V]) {
					ok := s.M.CompareAndSwap(k, v, n)
					wv, has := s.mod[k]
					wok := has && wv == v
					if wok {
						s.mod[k] = n
					}
					if ok != wok {
						w.Fail("CompareAndSwap returned %v, a plain map gives %v", ok, wok)
					}
				}})
			}
		}
	}
	list := func(w *core.W, s *cmapInst[K, V]) {
		got := map[K]V{}
		s.M.Range(func(k K, v V) bool {
			if _, ok := got[k]; ok {
				w.Fail("Range visited %v twice", k)
			}
			got[k] = v
			return true
		})
		if !maps.Equal(got, s.mod) {
			w.Fail("Range listed %v, a plain map holds %v", got, s.mod)
		}
	}
	ops = append(ops, op{"Range", list})
	ops = append(ops, op{"Range stopped at once", func(w *core.W, s *cmapInst[K, V]) {
		n := 0
		s.M.Range(func(k K, v V) bool {
			n++
			if wv, ok := s.mod[k]; !ok || wv != v {
				w.Fail("Range visited %v=%v, a plain map holds %v", k, v, s.mod)
			}
			return false
		})
		if n > 1 || n == 0 && len(s.mod) > 0 {
			w.Fail("Range called its function %d times after it returned false; the map holds %v", n, s.mod)
		}
	}})
	names := make([]string, len(ops))
	for i, o := range ops {
		names[i] = o.name
	}
	return &core.Machine{
		Name: name, Ops: names,
		New: func() any { return &cmapInst[K, V]{mod: map[K]V{}} },
		Step: func(w *core.W, in any, op int) bool {
			ops[op].do(w, in.(*cmapInst[K, V]))
			return true
		},
		Check: func(w *core.W, in any) {
			s := in.(*cmapInst[K, V])
			for _, k := range keys {
				v, ok := s.M.Load(k)
				wv, wok := s.mod[k]
				eq(w, fmt.Sprintf("afterwards Load(%v)", k), v, ok, wv, wok)
			}
			list(w, s)
		},
	}
}

func cmapChecks(c *core.Ctx) {
	c.BFS(cmapMachine("map[int]int", []int{1, 2, 3}, []int{1, 2}))
	a, b := new(int), new(int)
	c.BFS(cmapMachine("map[string]any", []string{"a", "b"}, []any{nil, 1, "1"}))
	c.BFS(cmapMachine("map[any]pointer", []any{1, nil}, []*int{a, b}))
	c.BFS(cmapMachine("map[any]struct{}", []any{1, "1", nil}, []struct{}{{}}))
	c.BFS(cmapMachine("map[float64]string", []float64{0, 1}, []string{"", "x"}))
	if c.Thorough {
		c.BFS(cmapMachine("map of 4 keys and 1 value", []int{1, 2, 3, 4}, []int{7}))
		c.BFS(cmapMachine("map of 3 keys and 3 values", []int{1, 2, 3}, []int{0, 1, 2}))
		m := cmapMachine("map of 5 keys and 1 value", []int{1, 2, 3, 4, 5}, []int{7})
		m.States = 1500000
		c.BFS(m)
	}
	// longer histories: the promotions move with the number of misses
	m := cmapMachine("map of 2 keys and 1 value", []int{1, 2}, []int{7})
	c.Cycles(m, core.Pick(c, 4, 5), 60, 7)
	hugeMap(c)
	// calls that panic, or whose function does, leave the map as usable as it was
	inner := []string{"CompareAndSwap of a value that cannot be compared", "CompareAndDelete of a value that cannot be compared", "Range with a function that panics"}
	mixed := cmapMachine("map[string]any", []string{"a", "b"}, []any{1})
	hist := core.Prod(len(mixed.Ops), len(mixed.Ops), len(mixed.Ops), len(inner), 2)
	c.Enum("calls that panic, after every history of three calls", hist, func(i int) string {
		d := core.Mixed(i, len(mixed.Ops), len(mixed.Ops), len(mixed.Ops), len(inner), 2)
		return fmt.Sprintf("%s, %s, %s, then %s, key %d", mixed.Ops[d[0]], mixed.Ops[d[1]], mixed.Ops[d[2]], inner[d[3]], d[4])
	}, func(w *core.W, i int) bool {
		d := core.Mixed(i, len(mixed.Ops), len(mixed.Ops), len(mixed.Ops), len(inner), 2)
		in := mixed.New()
		s := in.(*cmapInst[string, any])
		for _, o := range d[:3] {
			mixed.Step(w, in, o)
		}
		k := []string{"a", "b"}[d[4]]
		held, had := s.mod[k]
		func() {
			defer func() { recover() }()
			odd := []int{1}
			if d[3] < 2 {
				s.M.Store(k, odd)
				s.M.Load("c")
			}
			switch d[3] {
			case 0:
				s.M.CompareAndSwap(k, odd, 2)
			case 1:
				s.M.CompareAndDelete(k, odd)
			case 2:
				s.M.Range(func(string, any) bool { panic("no") })
			}
		}()
		if d[3] < 2 {
			if had {
				s.M.Store(k, held)
			} else {
				s.M.Delete(k)
			}
		}
		s.M.Store("d", 4)
		if v, ok := s.M.LoadAndDelete("d"); v != 4 || !ok {
			w.Fail("after a panic a value stored under another key is read as (%v, %v)", v, ok)
		}
		mixed.Check(w, in)
		return true
	})
	// many keys: long regular histories, with reads in between that make it promote
	sizes := core.Pick(c, []int{9, 33, 100}, []int{9, 17, 33, 65, 100, 300})
	per := []int{len(sizes), len(core.LongOrders), len(core.LongOrders), core.LongMixes, 4}
	c.Enum("long histories over many keys", core.Prod(per...), func(i int) string {
		d := core.Mixed(i, per...)
		return fmt.Sprintf("%s, reads of kind %d", core.LongName(sizes[d[0]], d[1], d[2], d[3]), d[4])
	}, func(w *core.W, i int) bool {
		d := core.Mixed(i, per...)
		n := sizes[d[0]]
		m := cmapMachine("", []int{0}, []int{0})
		in := m.New()
		s := in.(*cmapInst[int, int])
		eq := func(what string, k, v int, ok bool) {
			if wv, wok := s.mod[k]; v != wv || ok != wok {
				w.Fail("%s(%d) returned (%v, %v), a plain map gives (%v, %v)", what, k, v, ok, wv, wok)
			}
		}
		for j, o := range core.LongHistory(n, d[1], d[2], d[3]) {
			k := o.Rank
			old, had := s.mod[k]
			switch {
			case o.Del && j%3 == 0:
				v, ok := s.M.LoadAndDelete(k)
				eq("LoadAndDelete", k, v, ok)
				delete(s.mod, k)
			case o.Del && j%3 == 1:
				s.M.Delete(k)
				delete(s.mod, k)
			case o.Del:
				if ok := s.M.CompareAndDelete(k, old); ok != had {
					w.Fail("CompareAndDelete(%d, %d) = %v", k, old, ok)
				}
				delete(s.mod, k)
			case j%5 == 0:
				v, ok := s.M.Swap(k, j)
				eq("Swap", k, v, ok)
				s.mod[k] = j
			case j%5 == 1:
				v, ok := s.M.LoadOrStore(k, j)
				if !had {
					s.mod[k], old = j, j
				}
				if ok != had || v != old {
					w.Fail("LoadOrStore(%d, %d) = (%d, %v)", k, j, v, ok)
				}
			case j%5 == 2 && had:
				if !s.M.CompareAndSwap(k, old, j) || s.M.CompareAndSwap(k, old, j+1) {
					w.Fail("CompareAndSwap(%d, %d, %d)", k, old, j)
				}
				s.mod[k] = j
			default:
				s.M.Store(k, j)
				s.mod[k] = j
			}
			switch d[4] {
			case 1:
				v, ok := s.M.Load(k)
				eq("Load", k, v, ok)
			case 2:
				q := core.LongOrder(d[2], n, j*5%n)
				v, ok := s.M.Load(q)
				eq("Load", q, v, ok)
			case 3:
				if j%11 == 0 {
					m.Check(w, in)
				}
			}
			if j%29 == 0 && d[4] > 0 {
				m.Check(w, in)
			}
		}
		m.Check(w, in)
		for k := -1; k <= n; k++ {
			v, ok := s.M.Load(k)
			eq("afterwards Load", k, v, ok)
		}
		return true
	})
}
