package progs

import (
	"fmt"

	gsync "github.com/miniLCT/gosb/gogenerics/gconcurrent/sync"

	"verif/rt"
	"verif/spec"
)

type mapOp struct{ op, key, old, val int }

func (o mapOp) String() string {
	switch o.op {
	case spec.Load, spec.LoadAndDelete, spec.Delete:
		return fmt.Sprintf("%s(%d)", spec.MapNames[o.op], o.key)
	case spec.CompareAndSwap:
		return fmt.Sprintf("%s(%d,%d,%d)", spec.MapNames[o.op], o.key, o.old, o.val)
	case spec.CompareAndDelete:
		return fmt.Sprintf("%s(%d,%d)", spec.MapNames[o.op], o.key, o.old)
	}
	return fmt.Sprintf("%s(%d,%d)", spec.MapNames[o.op], o.key, o.val)
}

type cmap = gsync.Map[int, int]

// mapDo calls an operation and records it.
func mapDo(m *cmap, o mapOp) spec.MapRes {
	var r spec.MapRes
	rec := rt.Begin(o.op, o.String(), o.key, o.old, o.val)
	switch o.op {
	case spec.Load:
		r.V, r.OK = m.Load(o.key)
	case spec.Store:
		m.Store(o.key, o.val)
	case spec.LoadOrStore:
		r.V, r.OK = m.LoadOrStore(o.key, o.val)
	case spec.LoadAndDelete:
		r.V, r.OK = m.LoadAndDelete(o.key)
	case spec.Delete:
		m.Delete(o.key)
	case spec.Swap:
		r.V, r.OK = m.Swap(o.key, o.val)
	case spec.CompareAndSwap:
		r.OK = m.CompareAndSwap(o.key, o.old, o.val)
	case spec.CompareAndDelete:
		r.OK = m.CompareAndDelete(o.key, o.old)
	}
	rec.End(r)
	return r
}

// mapStarts bring a map into its different internal states, as seen from key 1.
func mapStarts() [][]mapOp {
	load := func(k int) mapOp { return mapOp{op: spec.Load, key: k} }
	store := func(k, v int) mapOp { return mapOp{op: spec.Store, key: k, val: v} }
	del := mapOp{op: spec.Delete, key: 1}
	promoted := []mapOp{store(1, 1), load(3)}
	return [][]mapOp{
		{},
		{store(1, 1)},
		promoted,
		append(promoted[:2:2], store(2, 2)),
		append(promoted[:2:2], store(2, 2), load(3)),
		append(promoted[:2:2], del),
		append(promoted[:2:2], del, store(2, 2)),
	}
}

// mapAlphabet are the operations of thread t, the i-th in its program.
func mapAlphabet(t, i int) []mapOp {
	v := 10*(t+1) + i
	other := 10*((t+1)%2+1) + 0
	return []mapOp{
		{spec.Load, 1, 0, 0}, {spec.Store, 1, 0, v}, {spec.LoadOrStore, 1, 0, v}, {spec.LoadAndDelete, 1, 0, 0}, {spec.Delete, 1, 0, 0}, {spec.Swap, 1, 0, v},
		{spec.CompareAndSwap, 1, 1, v}, {spec.CompareAndSwap, 1, other, v}, {spec.CompareAndDelete, 1, 1, 0},
		{spec.Store, 2, 0, v}, {spec.LoadAndDelete, 2, 0, 0}, {spec.Load, 2, 0, 0}, {spec.Load, 3, 0, 0},
	}
}

func mapProg(start []mapOp, threads [][]mapOp) rt.Prog {
	return crowdProg(0, 0, start, threads)
}

// crowdProg is mapProg in a map of n other keys, which are in the read map (0), of which half are deleted (1), or in the dirty map (2).
// In kind 3 the read map has the keys and that of the first call of the start.
func crowdProg(n, where int, start []mapOp, threads [][]mapOp) rt.Prog {
	name := fmt.Sprintf("map %v then %v", start, threads)
	if n > 0 {
		name = fmt.Sprintf("map of %d keys of kind %d, %v then %v", n, where, start, threads)
	}
	maxSteps := 0
	if n > 0 {
		maxSteps = 100_000
	}
	return rt.Prog{Name: name, MaxSteps: maxSteps, Run: func() {
		m := &cmap{}
		for k := 0; k < n; k++ {
			m.Store(1000+k, k)
		}
		if where < 2 && n > 0 {
			m.Range(func(int, int) bool { return false })
		}
		for k := 0; k < n && where == 1; k += 2 {
			m.Delete(1000 + k)
		}
		for i, o := range start {
			mapDo(m, o)
			if where == 3 && i == 0 {
				m.Range(func(int, int) bool { return false })
			}
		}
		res := make([][]spec.MapRes, len(threads))
		fs := make([]func(), len(threads))
		for t := range threads {
			t := t
			fs[t] = func() {
				for _, o := range threads[t] {
					res[t] = append(res[t], mapDo(m, o))
				}
			}
		}
		rt.Par(fs...)
		var last []spec.MapRes
		for k := 1; k <= 3; k++ {
			last = append(last, mapDo(m, mapOp{op: spec.Load, key: k}))
		}
		for k := 0; k < n; k++ {
			if v, ok := m.Load(1000 + k); ok != (where != 1 || k%2 == 1) || ok && v != k {
				rt.Fail("other keys", "key %d, which no call uses, has %d, %v", 1000+k, v, ok)
			}
		}
		rt.Check("not linearizable", spec.CheckMap)
		rt.Outcome("%v %v", res, last)
	}}
}

// mapSeqs are all programs of n operations of thread t.
func mapSeqs(t, n int) [][]mapOp {
	if n == 0 {
		return [][]mapOp{nil}
	}
	var out [][]mapOp
	for _, p := range mapSeqs(t, n-1) {
		for _, o := range mapAlphabet(t, n-1) {
			out = append(out, append(p[:len(p):len(p)], o))
		}
	}
	return out
}

func mapPrograms(thorough bool) []rt.Prog {
	var ps []rt.Prog
	starts := mapStarts()
	one, two, three := mapSeqs(0, 1), mapSeqs(1, 1), mapSeqs(2, 1)
	for _, st := range starts {
		for i := range one {
			for j := i; j < len(two); j++ {
				ps = append(ps, mapProg(st, [][]mapOp{one[i], two[j]}))
				for k := j; k < len(three); k++ {
					ps = append(ps, mapProg(st, [][]mapOp{one[i], two[j], three[k]}))
				}
			}
		}
		for _, a := range mapSeqs(0, 2) {
			for _, b := range two {
				ps = append(ps, mapProg(st, [][]mapOp{a, b}))
			}
		}
	}
	// maps of many keys
	sizes := []int{40, 300}
	if thorough {
		sizes = []int{20, 40, 130, 300, 1100}
	}
	for _, n := range sizes {
		for where := 0; where < 4; where++ {
			from := starts[:3]
			if where == 3 {
				store, del := mapOp{op: spec.Store, key: 1, val: 1}, mapOp{op: spec.Delete, key: 1}
				second := mapOp{op: spec.Store, key: 2, val: 2}
				from = [][]mapOp{{store}, {store, del}, {store, second}, {store, del, second}}
			}
			for _, st := range from {
				for i := range one {
					for j := i; j < len(two); j++ {
						ps = append(ps, crowdProg(n, where, st, [][]mapOp{one[i], two[j]}))
					}
				}
			}
		}
	}
	// more goroutines, calls and keys, in regular patterns
	mod := 9
	if thorough {
		mod = 27
	}
	for _, st := range starts {
		for n := 0; n < mod*mod*mod; n++ {
			n := n
			if !thorough && n%4 != len(st)%4 {
				continue
			}
			ps = large(false, ps, func() rt.Prog {
				var ts [][]mapOp
				for t := 0; t < 4; t++ {
					var ops []mapOp
					for i := 0; i < 3; i++ {
						x := n/mod/mod + n/mod%mod*i + n%mod*t
						v, k := 10*(t+1)+i, 1+(x/9+i+t*(n%2))%3
						other := 10*((t+1)%4+1) + i
						ops = append(ops, []mapOp{
							{spec.Load, k, 0, 0}, {spec.Store, k, 0, v}, {spec.LoadOrStore, k, 0, v}, {spec.LoadAndDelete, k, 0, 0}, {spec.Delete, k, 0, 0}, {spec.Swap, k, 0, v},
							{spec.CompareAndSwap, k, 1, v}, {spec.CompareAndSwap, k, other, v}, {spec.CompareAndDelete, k, 1, 0},
						}[x%9])
					}
					ts = append(ts, ops)
				}
				return mapProg(st, ts)
			})
		}
	}
	// values that are stored again: an exchange that finds the same value may find it in another place
	same := []mapOp{
		{spec.Load, 1, 0, 0}, {spec.Store, 1, 0, 1}, {spec.LoadOrStore, 1, 0, 1}, {spec.Delete, 1, 0, 0}, {spec.Swap, 1, 0, 1},
		{spec.CompareAndSwap, 1, 1, 1}, {spec.CompareAndSwap, 1, 1, 9}, {spec.CompareAndSwap, 1, 9, 1}, {spec.CompareAndDelete, 1, 1, 0},
	}
	writes := func(ops ...mapOp) bool {
		for _, o := range ops {
			if o.op == spec.Store || o.op == spec.Swap || o.op == spec.CompareAndSwap && o.old == o.val {
				return true
			}
		}
		return false
	}
	for _, st := range starts {
		for i, a := range same {
			for j := i; j < len(same); j++ {
				b := same[j]
				if !writes(a, b) && !thorough {
					continue
				}
				ps = append(ps, mapProg(st, [][]mapOp{{a}, {b}}))
				for _, c := range same[j:] {
					ps = append(ps, mapProg(st, [][]mapOp{{a}, {b}, {c}}))
				}
			}
			for _, b := range same {
				for _, c := range same {
					if writes(b, c) || thorough {
						ps = append(ps, mapProg(st, [][]mapOp{{a}, {b, c}}))
					}
				}
			}
		}
	}
	return ps
}

// mapRange is a call of Range whose function does something.
type mapRange struct {
	stop int     // the function returns false in this call, from 1; 0: never
	then []mapOp // done in the first call; key 0 stands for the key shown
	nest bool    // the first call ranges over the map itself
}

func (r mapRange) String() string {
	s := "Range"
	if r.stop > 0 {
		s += fmt.Sprintf(" stopped at %d", r.stop)
	}
	if len(r.then) > 0 {
		s += fmt.Sprintf(" doing %v", r.then)
	}
	if r.nest {
		s += " with Range inside"
	}
	return s
}

type rangeLog struct {
	recs []*rt.OpRec
	seen [][]int
	full []bool
}

func (r mapRange) do(m *cmap, l *rangeLog) {
	n, i := 0, len(l.recs)
	rec := rt.Begin(spec.RangeOp, r.String())
	l.recs, l.seen, l.full = append(l.recs, rec), append(l.seen, nil), append(l.full, true)
	m.Range(func(k, v int) bool {
		rec.During(spec.Visit, fmt.Sprintf("shows %d:%d", k, v), v, k)
		if !l.full[i] {
			rt.Fail("goes on", "Range goes on after its function has returned false")
		}
		l.seen[i] = append(l.seen[i], k)
		n++
		if n == 1 {
			for _, o := range r.then {
				if o.key == 0 {
					o.key = k
				}
				mapDo(m, o)
			}
			if r.nest {
				mapRange{}.do(m, l)
			}
		}
		if n == r.stop {
			l.full[i] = false
			return false
		}
		return true
	})
	rec.End(l.seen[i])
}

// rangeProg runs Ranges, one per goroutine, and others beside them.
func rangeProg(start []mapOp, rs []mapRange, threads [][]mapOp) rt.Prog {
	return rt.Prog{Name: fmt.Sprintf("map %v then %v beside %v", start, rs, threads), MapOrders: true, MaxStates: 300_000, Run: func() {
		m := &cmap{}
		for _, o := range start {
			mapDo(m, o)
		}
		logs := make([]rangeLog, len(rs))
		var fs []func()
		for i := range rs {
			i := i
			fs = append(fs, func() { rs[i].do(m, &logs[i]) })
		}
		for t := range threads {
			t := t
			fs = append(fs, func() {
				for _, o := range threads[t] {
					mapDo(m, o)
				}
			})
		}
		rt.Par(fs...)
		var all rangeLog
		for _, l := range logs {
			all.recs, all.seen, all.full = append(all.recs, l.recs...), append(all.seen, l.seen...), append(all.full, l.full...)
		}
		for k := 1; k <= 3; k++ {
			mapDo(m, mapOp{op: spec.Load, key: k})
		}
		rt.Check("Range", func() error { return spec.CheckRange(all.recs, all.seen, all.full) })
		rt.Outcome("%v", all.seen)
	}}
}

func rangePrograms(thorough bool) []rt.Prog {
	var ps []rt.Prog
	starts := append(mapStarts(), []mapOp{{op: spec.Store, key: 1, val: 1}, {op: spec.Store, key: 2, val: 2}})
	var vs []mapRange
	vs = append(vs, mapRange{}, mapRange{stop: 1}, mapRange{nest: true})
	for _, o := range []mapOp{{op: spec.Delete}, {op: spec.Store, val: 50}, {op: spec.LoadOrStore, key: 3, val: 51}, {op: spec.Delete, key: 2}, {op: spec.Swap, key: 1, val: 52}, {op: spec.Load, key: 3}} {
		vs = append(vs, mapRange{then: []mapOp{o}})
	}
	vs = append(vs, mapRange{then: []mapOp{{op: spec.Store, key: 3, val: 53}}, nest: true}, mapRange{stop: 1, then: []mapOp{{op: spec.Delete}}})
	one, two := mapSeqs(1, 1), mapSeqs(1, 2)
	for _, st := range starts {
		for _, v := range vs {
			ps = append(ps, rangeProg(st, []mapRange{v}, nil))
			for _, o := range one {
				ps = append(ps, rangeProg(st, []mapRange{v}, [][]mapOp{o}))
			}
		}
		for _, o := range two {
			ps = append(ps, rangeProg(st, vs[:1], [][]mapOp{o}))
		}
		for i, v := range vs {
			for _, w := range vs[i:] {
				if thorough || !v.nest && !w.nest {
					ps = append(ps, rangeProg(st, []mapRange{v, w}, nil))
				}
			}
		}
		for i, a := range one {
			for _, b := range mapSeqs(2, 1)[i:] {
				ps = append(ps, rangeProg(st, vs[:1], [][]mapOp{a, b}))
			}
			if thorough {
				for i, v := range vs {
					for _, w := range vs[i:] {
						if !v.nest && !w.nest {
							ps = append(ps, rangeProg(st, []mapRange{v, w}, [][]mapOp{a}))
						}
					}
				}
			}
		}
		if thorough {
			for _, v := range vs[1:] {
				for _, o := range two {
					ps = append(ps, rangeProg(st, []mapRange{v}, [][]mapOp{o}))
				}
			}
		}
	}
	// more goroutines and calls
	step := 128
	if thorough {
		step = 4
	}
	for si, st := range starts {
		patterns(13, step, si*3, func(number func(t, i int) int) {
			var ts [][]mapOp
			for t := 0; t < 2; t++ {
				var p []mapOp
				for i := 0; i < 3; i++ {
					p = append(p, mapAlphabet(t, i)[number(t, i)])
				}
				ts = append(ts, p)
			}
			ps = large(false, ps, func() rt.Prog {
				return rangeProg(st, []mapRange{vs[number(3, 1)%len(vs)], vs[number(4, 1)%len(vs)]}, ts)
			})
		})
	}
	return ps
}
