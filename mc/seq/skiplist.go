package main

import (
	"fmt"
	"math"
	"math/bits"
	"sort"
	"sync"

	"github.com/miniLCT/gosb/gogenerics/gds/gskiplist"
	"github.com/miniLCT/gosb/hack/fastrand"
	"verif/core"
)

// The skip list takes the height of a new tower from fastrand.Uint64, which is a package
// variable: the checks choose the word, so every tower height becomes part of the alphabet.
var wordMu sync.Mutex

// withWords runs f while fastrand delivers exactly the given 64-bit words, the last one for ever.
func withWords(words []uint64, f func()) {
	wordMu.Lock()
	defer wordMu.Unlock()
	old64, old32, oldU := fastrand.Uint64, fastrand.Uint32, fastrand.Uint
	defer func() { fastrand.Uint64, fastrand.Uint32, fastrand.Uint = old64, old32, oldU }()
	i := 0
	next := func() uint64 {
		w := words[min(i, len(words)-1)]
		i++
		return w
	}
	fastrand.Uint64 = next
	fastrand.Uint32 = func() uint32 { return uint32(next()) }
	fastrand.Uint = func() uint { return uint(next()) }
	f()
}

type slKey interface{ ~int | ~string | ~float64 }

type slInst[K slKey] struct {
	list *gskiplist.SkipList[K, int]
	mod  map[K]int
}

func (s *slInst[K]) keys() []K {
	ks := make([]K, 0, len(s.mod))
	for k := range s.mod {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
	return ks
}

// slObserve compares everything the map view offers with the model.
func slObserve[K slKey](w *core.W, s *slInst[K], probes []K) {
	if got, want := s.list.GetNodeCount(), len(s.mod); got != want {
		w.Fail("GetNodeCount() = %d, want %d", got, want)
	}
	if got, want := s.list.IsEmpty(), len(s.mod) == 0; got != want {
		w.Fail("IsEmpty() = %v, want %v", got, want)
	}
	for _, k := range probes {
		v, ok := s.list.Find(k)
		mv, mok := s.mod[k]
		if ok != mok || v != mv {
			w.Fail("Find(%v) = %d,%v, want %d,%v", k, v, ok, mv, mok)
		}
	}
}

// slNavigate compares order and navigation with the model. Element keys are not exported,
// so every value must be unique: values identify elements.
func slNavigate[K slKey](w *core.W, s *slInst[K], probes []K) {
	ks := s.keys()
	n := len(ks)
	if n == 0 {
		if s.list.GetSmallestNode() != nil || s.list.GetLargestNode() != nil {
			w.Fail("an empty list has a smallest or largest node")
		}
		for _, k := range probes {
			if e, ok := s.list.FindGreaterOrEqual(k); ok || e != nil {
				w.Fail("FindGreaterOrEqual(%v) finds something in an empty list", k)
			}
		}
		return
	}
	e := s.list.GetSmallestNode()
	for i := 0; i < 2*n; i++ { // twice round
		if e == nil {
			w.Fail("forward traversal ends after %d steps", i)
		}
		if got, want := e.GetValue(), s.mod[ks[i%n]]; got != want {
			w.Fail("forward traversal: element %d has value %d, want %d", i, got, want)
		}
		nx := s.list.Next(e)
		if nx == nil {
			w.Fail("Next(element %d) = nil", i%n)
		}
		if p := s.list.Prev(nx); p != e {
			w.Fail("Prev(Next(e)) is not e at element %d", i%n)
		}
		e = nx
	}
	if e != s.list.GetSmallestNode() {
		w.Fail("Next does not come back to the smallest node after %d steps", n)
	}
	e = s.list.GetLargestNode()
	for i := n - 1; i >= -n; i-- {
		if e == nil {
			w.Fail("backward traversal ends")
		}
		if got, want := e.GetValue(), s.mod[ks[(i+n)%n]]; got != want {
			w.Fail("backward traversal: element %d has value %d, want %d", (i+n)%n, got, want)
		}
		e = s.list.Prev(e)
	}
	for _, k := range probes {
		i := sort.Search(n, func(i int) bool { return ks[i] >= k })
		e, ok := s.list.FindGreaterOrEqual(k)
		if ok != (i < n) || (e != nil) != ok {
			w.Fail("FindGreaterOrEqual(%v) found %v (element %v), want %v", k, ok, e != nil, i < n)
		}
		if ok && e.GetValue() != s.mod[ks[i]] {
			w.Fail("FindGreaterOrEqual(%v) has value %d, want %d (key %v)", k, e.GetValue(), s.mod[ks[i]], ks[i])
		}
	}
}

func slMachine[K slKey](name string, keys, probes []K, words []uint64, value func(i int, second bool) int, depth int,
	observe func(w *core.W, s *slInst[K], probes []K), withChange bool) *core.Machine {
	m := &core.Machine{
		Name:  name,
		New:   func() any { return &slInst[K]{gskiplist.New[K, int](), map[K]int{}} },
		Depth: depth,
	}
	type opf func(w *core.W, s *slInst[K])
	var fns []opf
	op := func(n string, f opf) { m.Ops = append(m.Ops, n); fns = append(fns, f) }
	for i, k := range keys {
		for _, word := range words {
			op(fmt.Sprintf("Insert(%v,%d) tower %d", k, value(i, false), bits.TrailingZeros64(word)), func(w *core.W, s *slInst[K]) {
				withWords([]uint64{word}, func() { s.list.Insert(k, value(i, false)) })
				s.mod[k] = value(i, false)
			})
		}
	}
	for i, k := range keys {
		op(fmt.Sprintf("Delete(%v)", k), func(w *core.W, s *slInst[K]) {
			s.list.Delete(k)
			delete(s.mod, k)
		})
		if withChange {
			op(fmt.Sprintf("ChangeValue(%v,%d)", k, value(i, true)), func(w *core.W, s *slInst[K]) {
				got := s.list.ChangeValue(k, value(i, true))
				_, want := s.mod[k]
				if got != want {
					w.Fail("ChangeValue(%v) = %v, want %v", k, got, want)
				}
				if want {
					s.mod[k] = value(i, true)
				}
			})
			op(fmt.Sprintf("Insert(%v,%d) again", k, value(i, true)), func(w *core.W, s *slInst[K]) {
				withWords([]uint64{words[0]}, func() { s.list.Insert(k, value(i, true)) })
				s.mod[k] = value(i, true)
			})
		}
	}
	m.Step = func(w *core.W, inst any, op int) bool {
		fns[op](w, inst.(*slInst[K]))
		return true
	}
	m.Check = func(w *core.W, inst any) { observe(w, inst.(*slInst[K]), probes) }
	return m
}

func init() {
	// a word whose lowest set bit is bit h gives a tower of height h
	heights := func(hs ...int) []uint64 {
		var ws []uint64
		for _, h := range hs {
			ws = append(ws, uint64(1)<<h)
		}
		return ws
	}
	unique := func(i int, second bool) int {
		if second {
			return 100 + i
		}
		return 10 + i
	}
	core.Register("S01", "model_checking", "a Go map: every lookup, count and emptiness query agrees after every operation", func(c *core.Ctx) {
		n := core.Pick(c, 4, 5)
		keys, probes := []int{}, []int{-1}
		for i := 0; i < n; i++ {
			keys = append(keys, 2*i)
			probes = append(probes, 2*i, 2*i+1)
		}
		// same value for every key in one machine: replacing must go by key, not by value
		c.BFS(slMachine(fmt.Sprintf("skiplist[int] %d keys, towers 0..3", n), keys, probes, heights(0, 1, 2, 3), func(_ int, second bool) int {
			if second {
				return 2
			}
			return 1
		}, 0, slObserve[int], true))
		c.BFS(slMachine("skiplist[string]", []string{"", "a", "ab"}, []string{"", "\x00", "a", "aa", "ab", "b"}, heights(0, 1, 24, 30), unique, core.Pick(c, 9, 0), slObserve[string], true))
		c.BFS(slMachine("skiplist[int] with the ends of the integers", farKeys, farProbes, heights(0, 2), unique, 0, slObserve[int], true))
		inf := math.Inf(1)
		c.BFS(slMachine("skiplist[float64] with infinities", []float64{-inf, 0, inf}, []float64{-inf, -math.MaxFloat64, -1, math.Copysign(0, -1), 0, math.SmallestNonzeroFloat64, math.MaxFloat64, inf}, heights(0, 1), unique, 0, slObserve[float64], true))
		c.BFS(slMachine("skiplist[float64]", []float64{-1.5, 0, 2}, []float64{-2, -1.5, -1, 0, 1, 2, 3}, append(heights(0, 2), 0, 1<<63), unique, core.Pick(c, 9, 0), slObserve[float64], true))
		slLong(c, core.Pick(c, []int{17, 40, 130}, []int{17, 40, 130, 600}), core.Pick(c, 60, 200), slObserve[int])
		hugeSkip(c)
	})
	core.Register("S02", "model_checking", "the sorted key sequence of a Go map: traversal from both ends, wrap-around and successor search agree after every operation", func(c *core.Ctx) {
		n := core.Pick(c, 5, 6)
		keys, probes := []int{}, []int{-1}
		for i := 0; i < n; i++ {
			keys = append(keys, 2*i)
			probes = append(probes, 2*i, 2*i+1)
		}
		c.BFS(slMachine(fmt.Sprintf("skiplist[int] %d keys, towers 0..3", n), keys, probes, heights(0, 1, 2, 3), unique, core.Pick(c, 0, 9), slNavigate[int], false))
		c.BFS(slMachine("skiplist[string]", []string{"", "a", "ab"}, []string{"", "\x00", "a", "aa", "ab", "b"}, heights(0, 1, 24, 30), unique, core.Pick(c, 10, 0), slNavigate[string], true))
		c.BFS(slMachine("skiplist[int] with the ends of the integers", farKeys, farProbes, heights(0, 2), unique, 0, slNavigate[int], true))
		// all permutations of more keys, inserted then deleted in two orders
		slPermutations(c, core.Pick(c, 6, 7))
		slLong(c, core.Pick(c, []int{17, 40, 130}, []int{17, 40, 130, 600}), core.Pick(c, 20, 60), slNavigate[int])
		hugeSkip(c)
	})
}

// slPermutations inserts n keys in every order with a spread of towers, and checks the navigation
// after every insertion and after every deletion.
func slPermutations(c *core.Ctx, n int) {
	perms := permutations(n)
	words := []uint64{1, 2, 4, 8, 1, 16, 2, 1 << 24, 32, 1}
	probes := []int{-1}
	for i := 0; i < n; i++ {
		probes = append(probes, 2*i, 2*i+1)
	}
	c.Parallel(len(perms), func(w *core.W, i int) {
		p := perms[i]
		for rot := 0; rot < 4; rot++ {
			w.Case(func() string {
				return fmt.Sprintf("insert keys 2*%v with towers rotated by %d, then delete in the order of insertion and in reverse", p, rot)
			}, func() {
				for _, reverse := range []bool{false, true} {
					s := &slInst[int]{gskiplist.New[int, int](), map[int]int{}}
					for j, k := range p {
						withWords([]uint64{words[(j+rot*3)%len(words)]}, func() { s.list.Insert(2*k, 10+k) })
						s.mod[2*k] = 10 + k
						slNavigate(w, s, probes)
						slObserve(w, s, probes)
					}
					for j := range p {
						k := p[j]
						if reverse {
							k = p[n-1-j]
						}
						s.list.Delete(2 * k)
						delete(s.mod, 2*k)
						slNavigate(w, s, probes)
						slObserve(w, s, probes)
					}
				}
			})
			c.AddEvals(1, 1)
		}
	})
	c.Bound(true, "all %d orders of inserting %d keys, 4 tower assignments, 2 deletion orders", len(perms), n)
}

// slLong drives longer lists through the long regular histories with several ways to choose the towers.
func slLong(c *core.Ctx, sizes []int, steps int, check func(w *core.W, s *slInst[int], probes []int)) {
	towers := []func(j int) int{
		func(j int) int { return bits.TrailingZeros(uint(j + 1)) }, // a perfect list
		func(j int) int { return 0 },
		func(j int) int { return 3 - j%4 },
		func(j int) int { return 23 + j%3 },
		func(j int) int { return j % 32 },
	}
	per := []int{len(sizes), len(core.LongOrders), len(core.LongOrders), core.LongMixes, len(towers)}
	c.Enum("long histories", core.Prod(per...), func(i int) string {
		d := core.Mixed(i, per...)
		return fmt.Sprintf("%s, towers of kind %d", core.LongName(sizes[d[0]], d[1], d[2], d[3]), d[4])
	}, func(w *core.W, i int) bool {
		d := core.Mixed(i, per...)
		n := sizes[d[0]]
		s := &slInst[int]{gskiplist.New[int, int](), map[int]int{}}
		var probes []int
		for k := -1; k < 2*n; k++ {
			probes = append(probes, k)
		}
		h := core.LongHistory(n, d[1], d[2], d[3])
		every := max(1, len(h)/steps)
		for j, o := range h {
			k := 2 * o.Rank
			_, had := s.mod[k]
			switch {
			case o.Del:
				s.list.Delete(k)
				delete(s.mod, k)
			case had && j%2 == 0:
				if !s.list.ChangeValue(k, j+1) {
					w.Fail("operation %d: ChangeValue(%d) = false", j, k)
				}
				s.mod[k] = j + 1
			default:
				withWords([]uint64{1 << towers[d[4]](j)}, func() { s.list.Insert(k, j+1) })
				s.mod[k] = j + 1
			}
			if j%every == every-1 || j == len(h)-1 {
				check(w, s, probes)
			}
		}
		return true
	})
}

func permutations(n int) [][]int {
	var res [][]int
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	var rec func(k int)
	rec = func(k int) {
		if k == n {
			res = append(res, append([]int(nil), p...))
			return
		}
		for i := k; i < n; i++ {
			p[k], p[i] = p[i], p[k]
			rec(k + 1)
			p[k], p[i] = p[i], p[k]
		}
	}
	rec(0)
	return res
}
