package main

import (
	"context"
	"fmt"
	"slices"

	"github.com/miniLCT/gosb/gogenerics/gcontainers/glist"
	"github.com/miniLCT/gosb/gogenerics/gcontainers/gmap"
	"github.com/miniLCT/gosb/gogenerics/gcontainers/gslice"
	"github.com/miniLCT/gosb/gogenerics/gnumerics"
	"github.com/miniLCT/gosb/library/bitset"
	"github.com/miniLCT/gosb/library/cachex"

	"verif/core"
)

// How functions given to the helpers are called: on which elements, in which order, how often, and when no more.

// item is an element with its place, so that calls tell equal elements apart.
type item struct{ val, pos int }

func items(vals []int, from int) []item {
	s := make([]item, len(vals))
	for i, v := range vals {
		s[i] = item{v, from + i}
	}
	return s
}

// calls records the calls made, and answers them from a list; the last answer stays.
type calls[T comparable] struct {
	got []T
	ans []bool
}

func (x *calls[T]) answer(t T) bool {
	n := len(x.got)
	x.got = append(x.got, t)
	if n < len(x.ans) {
		return x.ans[n]
	}
	return false
}

func (x *calls[T]) check(w *core.W, what string, want []T) {
	if !slices.Equal(x.got, want) {
		w.Fail("%s calls the function on %v, should on %v (its answers: %v)", what, x.got, want, x.ans)
	}
}

// until is the prefix of s up to and including the first call answered with stop.
func until[T any](s []T, ans []bool, stop bool) []T {
	for i := range s {
		if i < len(ans) && ans[i] == stop || i >= len(ans) && !stop {
			return s[:i+1]
		}
	}
	return s
}

// answered is a cache that hits for some of the keys asked for, by their places.
type answered struct{ hits []bool }

func (a answered) MGet(_ context.Context, keys ...int) ([]string, []bool, error) {
	vals := make([]string, len(keys))
	for i := range keys {
		if a.hits[i] {
			vals[i] = fmt.Sprint("v", i)
		}
	}
	return vals, slices.Clone(a.hits), nil
}

func bools(i, n int) []bool {
	b := make([]bool, n)
	for k := range b {
		b[k] = i>>k&1 == 1
	}
	return b
}

// useSlice checks the helpers for one slice whose length is the number of answers the function gives.
func useSlice(w *core.W, ans []bool) {
	n := len(ans)
	s := items(make([]int, n), 100)
	for _, f := range []func(x *calls[item]){
		func(x *calls[item]) {
			got := gslice.IndexWithFunc(s, x.answer)
			x.check(w, "IndexWithFunc", until(s, ans, true))
			if want := slices.Index(ans, true); got != want {
				w.Fail("IndexWithFunc = %d, should be %d", got, want)
			}
		},
		func(x *calls[item]) {
			got := gslice.ContainsWithFunc(s, x.answer)
			x.check(w, "ContainsWithFunc", until(s, ans, true))
			if want := slices.Contains(ans, true); got != want {
				w.Fail("ContainsWithFunc = %v, should be %v", got, want)
			}
		},
	} {
		f(&calls[item]{ans: ans})
	}
	// pairs
	t := items(make([]int, n), 200)
	pairs := make([][2]item, n)
	for k := range pairs {
		pairs[k] = [2]item{s[k], t[k]}
	}
	x := &calls[[2]item]{ans: ans}
	eq := gslice.EqualWithFunc(s, t, func(a, b item) bool { return x.answer([2]item{a, b}) })
	x.check(w, "EqualWithFunc", until(pairs, ans, false))
	if want := !slices.Contains(ans, false); eq != want {
		w.Fail("EqualWithFunc = %v, should be %v", eq, want)
	}
	x = &calls[[2]item]{}
	if gslice.EqualWithFunc(s, append(slices.Clone(t), item{}), func(a, b item) bool { return !x.answer([2]item{a, b}) }) {
		w.Fail("EqualWithFunc is true for %d and %d elements", n, n+1)
	}
	x.check(w, "EqualWithFunc of slices of different lengths", nil)

	// neighbours, each at most once, none after the first that is out of order, all when none is
	x = &calls[[2]item]{ans: ans}
	sorted := gslice.IsSortedFunc(s, func(a, b item) bool { return x.answer([2]item{a, b}) })
	seen := map[int]bool{}
	for k, p := range x.got {
		if p[0].pos != p[1].pos+1 || seen[p[0].pos] {
			w.Fail("IsSortedFunc compares %v, in %v", p, x.got)
		}
		seen[p[0].pos] = true
		if k > 0 && ans[k-1] {
			w.Fail("IsSortedFunc goes on after an element out of order: %v, answers %v", x.got, ans)
		}
	}
	want := !slices.Contains(ans[:max(0, n-1)], true)
	if sorted != want || want && len(x.got) != max(0, n-1) {
		w.Fail("IsSortedFunc = %v after %v, answers %v", sorted, x.got, ans)
	}

	// the extreme so far and the next
	for _, f := range []struct {
		name string
		f    func([]item, func(a, b item) bool) item
	}{{"MaxBy", gnumerics.MaxBy[item]}, {"MinBy", gnumerics.MinBy[item]}} {
		x := &calls[[2]item]{ans: ans}
		got := f.f(s, func(a, b item) bool { return x.answer([2]item{a, b}) })
		var best item
		var want [][2]item
		for k, e := range s {
			if k == 0 {
				best = e
				continue
			}
			want = append(want, [2]item{e, best})
			if ans[k-1] {
				best = e
			}
		}
		x.check(w, f.name, want)
		if got != best {
			w.Fail("%s = %v, should be %v", f.name, got, best)
		}
	}

	// list, tree, bit set
	l := glist.New[item]()
	for _, e := range s {
		l.PushBack(e)
	}
	var visited []item
	l.Range(func(e *glist.Element[item]) { visited = append(visited, e.Value) })
	if !slices.Equal(visited, s) {
		w.Fail("List.Range calls the function on %v, should on %v", visited, s)
	}
	for _, desc := range []bool{false, true} {
		r := newRb(desc)
		var keys, vals []int
		for _, k := range core.LongPerm(2, n) {
			r.tree.Insert(k, k+50)
			keys = append(keys, k)
		}
		slices.Sort(keys)
		if desc {
			slices.Reverse(keys)
		}
		for k, key := range keys {
			if ans[k] {
				vals = append(vals, key+50)
			}
		}
		x := &calls[int]{ans: ans}
		got := r.tree.GetIf(x.answer)
		x.check(w, "GetIf", keys)
		if !slices.Equal(got, vals) {
			w.Fail("GetIf = %v, should be %v", got, vals)
		}
	}
}

func useChecks(c *core.Ctx) {
	// the answers of the function do not depend on the elements: every sequence of answers is tried
	lens := core.Pick(c, 8, 11)
	per := []int{lens + 1, 1 << lens}
	c.Enum("one slice and every sequence of answers", core.Prod(per...), func(i int) string {
		d := core.Mixed(i, per...)
		return fmt.Sprintf("%d elements, answers %v", d[0], bools(d[1], d[0]))
	}, func(w *core.W, i int) bool {
		d := core.Mixed(i, per...)
		n, word := d[0], d[1]
		if word >= 1<<n {
			return false
		}
		useSlice(w, bools(word, n))
		return n > 1
	})

	long := core.Pick(c, []int{16, 17, 33, 65, 130, 257}, []int{16, 17, 33, 65, 130, 257, 1025})
	c.Enum("longer slices, one answer unlike the others", len(long)*1025*2, func(i int) string {
		d := core.Mixed(i, 2, len(long), 1025)
		return fmt.Sprintf("%d elements, answer %d is %v", long[d[1]], d[2], d[0] == 1)
	}, func(w *core.W, i int) bool {
		d := core.Mixed(i, 2, len(long), 1025)
		if d[2] >= long[d[1]] {
			return false
		}
		ans := slices.Repeat([]bool{d[0] == 0}, long[d[1]])
		ans[d[2]] = d[0] == 1
		useSlice(w, ans)
		return true
	})

	c.Enum("bit sets and every place to stop", 4*256*40, func(i int) string {
		d := core.Mixed(i, 4, 256, 40)
		return fmt.Sprintf("%d bytes %x, the function answers false at call %d", d[0], d[1], d[2])
	}, func(w *core.W, i int) bool {
		d := core.Mixed(i, 4, 256, 40)
		data := make([]byte, d[0])
		for k := range data {
			data[k] = byte(d[1] + k*37)
		}
		b := bitset.New(data...)
		type bit struct {
			at int
			on bool
		}
		var want []bit
		for k := range 8 * len(data) {
			want = append(want, bit{k, b.Get(k)})
		}
		x := &calls[bit]{ans: slices.Repeat([]bool{true}, d[2])}
		b.Range(func(at int, on bool) bool { return x.answer(bit{at, on}) })
		x.check(w, "BitSet.Range", until(want, x.ans, false))
		return len(data) > 0
	})

	// maps: the order is open
	ml := core.Pick(c, 5, 7)
	per2 := []int{ml + 1, ml + 1, 3, ml + 2}
	c.Enum("two maps", core.Prod(per2...), func(i int) string {
		d := core.Mixed(i, per2...)
		return fmt.Sprintf("%d and %d keys, %d of the second others, answer %d is false", d[0], d[1], d[2], d[3])
	}, func(w *core.W, i int) bool {
		d := core.Mixed(i, per2...)
		a, b := map[int]item{}, map[int]string{}
		for k := range d[0] {
			a[k] = item{k, 0}
		}
		for k := range d[1] {
			b[k+d[2]] = fmt.Sprint(k + d[2])
		}
		seen := map[int]bool{}
		over := false
		got := gmap.EqualWithFunc(a, b, func(x item, y string) bool {
			if y2, both := b[x.val]; over || seen[x.val] || a[x.val] != x || !both || y2 != y {
				w.Fail("EqualWithFunc of maps calls the function on %v and %q; called before for the keys %v, one answer was false: %v", x, y, seen, over)
			}
			seen[x.val] = true
			over = len(seen) == d[3]+1
			return !over
		})
		if len(a) != len(b) && len(seen) > 0 {
			w.Fail("EqualWithFunc of maps with %d and %d keys calls the function", len(a), len(b))
		}
		if want := len(a) == len(b) && (d[2] == 0 || len(a) == 0) && d[3] >= len(a); got != want {
			w.Fail("EqualWithFunc of maps = %v, should be %v", got, want)
		}
		return len(a) == len(b)
	})

	sp := core.Words{Base: 3, Lo: 0, Hi: core.Pick(c, 6, 8)}
	c.Enum("groups of equal elements", sp.N(), func(i int) string { return fmt.Sprint(sp.At(i)) }, func(w *core.W, i int) bool {
		s := items(sp.At(i), 100)
		x := &calls[item]{}
		gslice.UniqueWithFunc(s, func(e item) int { x.answer(e); return e.val })
		x.check(w, "UniqueWithFunc", s)
		return len(s) > 1
	})

	// batch results: hits are bits, every place to stop
	hl := core.Pick(c, 7, 10)
	per3 := []int{hl + 1, 1 << hl, hl + 1}
	c.Enum("batch results and every place to stop", core.Prod(per3...), func(i int) string {
		d := core.Mixed(i, per3...)
		return fmt.Sprintf("%d keys, hits %v, the function answers false at call %d", d[0], bools(d[1], d[0]), d[2])
	}, func(w *core.W, i int) bool {
		d := core.Mixed(i, per3...)
		if d[1] >= 1<<d[0] || d[2] > d[0] {
			return false
		}
		type res struct {
			key int
			hit bool
			val string
		}
		hits := bools(d[1], d[0])
		src := answered{hits}
		var keys []int
		var all, hit, miss []res
		for k, h := range hits {
			key := k*7%10 + 1
			keys = append(keys, key)
			r := res{key, h, ""}
			if h {
				r.val = fmt.Sprint("v", k)
				hit = append(hit, r)
			} else {
				miss = append(miss, res{key: key})
			}
			all = append(all, r)
		}
		m, err := cachex.MGet[int, string](context.Background(), src, keys...)
		if err != nil {
			w.Fail("MGet: %v", err)
		}
		ans := slices.Repeat([]bool{true}, d[2])
		x := &calls[res]{ans: ans}
		m.Range(func(k int, h bool, v string) bool { return x.answer(res{k, h, v}) })
		x.check(w, "MGetResult.Range", until(all, ans, false))
		x = &calls[res]{ans: ans}
		m.RangeHit(func(k int, v string) bool { return x.answer(res{k, true, v}) })
		x.check(w, "MGetResult.RangeHit", until(hit, ans, false))
		x = &calls[res]{ans: ans}
		m.RangeMiss(func(k int) bool { return x.answer(res{key: k}) })
		x.check(w, "MGetResult.RangeMiss", until(miss, ans, false))
		return d[0] > 1
	})
}

func init() {
	core.Register("U04", "exploration", "the calls made are recorded and compared with the stated ones, for every sequence of answers", useChecks)
}
