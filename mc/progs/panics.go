package progs

import (
	"context"
	"fmt"
	"sort"
	"strconv"
	"time"

	gsync "github.com/miniLCT/gosb/gogenerics/gconcurrent/sync"
	"github.com/miniLCT/gosb/gogenerics/gcontainers/glist"
	"github.com/miniLCT/gosb/gogenerics/gcontainers/gmap"
	"github.com/miniLCT/gosb/gogenerics/gcontainers/gpool"
	"github.com/miniLCT/gosb/gogenerics/gcontainers/gset"
	grbt "github.com/miniLCT/gosb/gogenerics/gds/grbt"
	"github.com/miniLCT/gosb/library/bitset"
	"github.com/miniLCT/gosb/library/cachex"

	"verif/rt"
	"verif/v/memfs"
)

// Calls that panic because of what the caller gave: a function, a key without hash, a value that cannot be compared or written.

// bang is what callers' functions panic with.
type bang struct{}

// fuse panics at its n-th use. It never does if n is 0.
type fuse struct{ n int }

func (f *fuse) use() {
	if f.n--; f.n == 0 {
		panic(bang{})
	}
}

// faultCall is a call on an object, and what it does to a model of it.
type faultCall struct {
	name  string
	fault bool // may panic
	do    func() string
	model func() string
}

// faultObject is an object with its calls and what reading and writing it shows.
type faultObject struct {
	calls []faultCall
	show  func() string // of the object
	want  func() string // of the model
}

// attempt reports whether f panicked.
func attempt(f func() string) (res string, panicked bool) {
	defer func() {
		if recover() != nil {
			panicked = true
		}
	}()
	return f(), false
}

// faultProg runs every sequence of length calls: one that panics has no effect and leaves nothing locked.
func faultProg(name string, length int, mk func() faultObject) rt.Prog {
	return rt.Prog{Name: fmt.Sprintf("%s, every sequence of %d calls", name, length), Run: func() {
		memfs.Reset()
		o := mk()
		hist := ""
		for i := 0; i < length; i++ {
			c := o.calls[rt.Choose(len(o.calls))]
			hist += c.name + "; "
			got, panicked := attempt(c.do)
			if panicked {
				if !c.fault {
					rt.Fail("panic", "%s: %spanics", name, hist)
				}
				hist += "(panics) "
				continue
			}
			if want := c.model(); got != want {
				rt.Fail("answer after a panic", "%s: %sanswers %s, want %s", name, hist, got, want)
			}
		}
		if got, want := o.show(), o.want(); got != want {
			rt.Fail("state after a panic", "%s: %sthen shows %s, want %s", name, hist, got, want)
		}
		rt.Outcome("%s", hist)
	}}
}

func faultMap() faultObject {
	var m gsync.Map[any, any]
	ref := map[any]any{}
	bad := any([]int{1})
	slice := any([]int{2})
	res := func(a ...any) string { return fmt.Sprint(a...) }
	same := func(a, b any) bool { // comparison, without panic
		defer func() { _ = recover() }()
		return a == b
	}
	nothing := func() string { return "" }
	var o faultObject
	add := func(name string, fault bool, do, model func() string) {
		o.calls = append(o.calls, faultCall{name, fault, do, model})
	}
	for _, k := range []any{1, "a"} {
		k := k
		for _, v := range []any{5, slice} {
			v := v
			add(res("Store ", k, v), false, func() string { m.Store(k, v); return "" }, func() string { ref[k] = v; return "" })
			add(res("CompareAndSwap ", k, v), true, func() string { return res(m.CompareAndSwap(k, v, 6)) }, func() string {
				if old, ok := ref[k]; ok && same(old, v) {
					ref[k] = 6
					return "true"
				}
				return "false"
			})
			add(res("CompareAndDelete ", k, v), true, func() string { return res(m.CompareAndDelete(k, v)) }, func() string {
				if old, ok := ref[k]; ok && same(old, v) {
					delete(ref, k)
					return "true"
				}
				return "false"
			})
		}
		add(res("Load ", k), false, func() string { return res(m.Load(k)) }, func() string { v, ok := ref[k]; return res(v, ok) })
		add(res("Delete ", k), false, func() string { m.Delete(k); return "" }, func() string { delete(ref, k); return "" })
	}
	add("Range", true, func() string {
		f := fuse{rt.Choose(3)}
		m.Range(func(k, v any) bool { f.use(); return true })
		return ""
	}, nothing)
	for i, f := range []func(){
		func() { m.Load(bad) }, func() { m.Store(bad, 1) }, func() { m.LoadOrStore(bad, 1) }, func() { m.LoadAndDelete(bad) }, func() { m.Delete(bad) },
		func() { m.Swap(bad, 1) }, func() { m.CompareAndSwap(bad, 1, 2) }, func() { m.CompareAndDelete(bad, 1) },
	} {
		f := f
		add(fmt.Sprint("key without hash ", i), true, func() string { f(); return "" }, nothing)
	}
	o.show = func() string {
		m.Store("last", 1)
		m.Delete("last")
		m.Load("none")
		return res(m.Load(1)) + res(m.Load("a")) + res(m.Swap(3, 3))
	}
	o.want = func() string {
		v, ok := ref[1]
		w, ok2 := ref["a"]
		return res(v, ok) + res(w, ok2) + res(nil, false)
	}
	return o
}

func faultBits() faultObject {
	b := bitset.New(0x50)
	ref := map[int]bool{1: true, 3: true}
	var o faultObject
	for _, i := range []int{0, 3, 9} {
		i := i
		o.calls = append(o.calls,
			faultCall{fmt.Sprint("Set ", i), false, func() string { return fmt.Sprint(b.Set(i, true)) }, func() string {
				was := ref[i]
				ref[i] = true
				return fmt.Sprint(was, nil)
			}},
			faultCall{fmt.Sprint("Get ", i), false, func() string { return fmt.Sprint(b.Get(i)) }, func() string { return fmt.Sprint(ref[i]) }})
	}
	for _, n := range []int{0, 1, 2, 8, 9} {
		n := n
		o.calls = append(o.calls, faultCall{fmt.Sprint("Range, panic at ", n), true, func() string {
			f := fuse{n}
			b.Range(func(int, bool) bool { f.use(); return true })
			return ""
		}, func() string { return "" }})
	}
	o.show = func() string {
		b.Set(2, true)
		n := b.Not()
		return fmt.Sprint(b.Get(0), b.Get(1), b.Get(2), b.Get(3), b.Get(9), b.Count(0, -1), n.Get(3))
	}
	o.want = func() string {
		ref[2] = true
		n := 0
		for i := 0; i < 16; i++ {
			if ref[i] {
				n++
			}
		}
		return fmt.Sprint(ref[0], ref[1], ref[2], ref[3], ref[9], n, !ref[3])
	}
	return o
}

func faultTree() faultObject {
	var f fuse
	t := grbt.New[int, string](func(a, b int) bool { f.use(); return a < b })
	ref := map[int]string{}
	keys := func() []int {
		var ks []int
		for k := 0; k < 20; k++ {
			if _, ok := ref[k]; ok {
				ks = append(ks, k)
			}
		}
		return ks
	}
	for k := 10; k < 16; k++ {
		t.Insert(k, strconv.Itoa(k))
		ref[k] = strconv.Itoa(k)
	}
	var o faultObject
	add := func(name string, do, model func() string) {
		for _, n := range []int{0, 1, 2, 3, 5} {
			n := n
			o.calls = append(o.calls, faultCall{fmt.Sprint(name, ", panic at ", n), n > 0, func() string {
				f.n = n
				defer func() { f.n = 0 }()
				return do()
			}, model})
		}
	}
	for _, k := range []int{1, 17} {
		k := k
		add(fmt.Sprint("Insert ", k), func() string { return t.Insert(k, "new") }, func() string {
			old := ref[k]
			ref[k] = "new"
			return old
		})
	}
	for _, k := range []int{1, 12} {
		k := k
		add(fmt.Sprint("Delete ", k), func() string { return t.Delete(k) }, func() string {
			old := ref[k]
			delete(ref, k)
			return old
		})
	}
	add("Update 14", func() string { return fmt.Sprint(t.Update(14, "up")) }, func() string {
		old, ok := ref[14]
		ref[14] = "up"
		return fmt.Sprint(old, ok)
	})
	add("SubTree", func() string { return fmt.Sprint(t.SubTree(11, true, 14, true).Keys()) }, func() string {
		out := []int{}
		for _, k := range keys() {
			if k >= 11 && k <= 14 {
				out = append(out, k)
			}
		}
		return fmt.Sprint(out)
	})
	add("GetIf", func() string { return fmt.Sprint(t.GetIf(func(k int) bool { f.use(); return k == 13 })) }, func() string { return fmt.Sprint([]string{ref[13]}) })
	o.show = func() string {
		s := fmt.Sprint(t.Len(), t.Keys(), t.Values())
		for k := 0; k < 20; k++ {
			s += fmt.Sprint(t.Search(k), t.Get(k))
		}
		t.Insert(2, "x")
		return s + fmt.Sprint(t.Keys())
	}
	o.want = func() string {
		ks := keys()
		vs := []string{}
		for _, k := range ks {
			vs = append(vs, ref[k])
		}
		s := fmt.Sprint(len(ks), ks, vs)
		for k := 0; k < 20; k++ {
			v, ok := ref[k]
			s += fmt.Sprint(ok, v)
		}
		ref[2] = "x"
		return s + fmt.Sprint(keys())
	}
	return o
}

// fragile cannot be written if it is 1, and not read if it is 2.
type fragile int

func (f fragile) MarshalJSON() ([]byte, error) {
	if f == 1 {
		panic(bang{})
	}
	return []byte(strconv.Itoa(int(f))), nil
}

func (f *fragile) UnmarshalJSON(b []byte) error {
	n, err := strconv.Atoi(string(b))
	if n == 2 {
		panic(bang{})
	}
	*f = fragile(n)
	return err
}

func faultFile() faultObject {
	ctx := context.Background()
	c := &cachex.FileStore[string, fragile]{Dir: "/tmp/s", GCCycle: time.Minute}
	ref := map[string]fragile{}
	var o faultObject
	add := func(name string, fault bool, do, model func() string) {
		o.calls = append(o.calls, faultCall{name, fault, do, model})
	}
	res := func(a ...any) string { return fmt.Sprint(a...) }
	for _, k := range []string{"x", "y"} {
		k := k
		for v := fragile(1); v <= 3; v++ {
			v := v
			if k == "x" || v == 3 {
				add(res("Set ", k, int(v)), v == 1, func() string { return res(c.Set(ctx, k, v, time.Hour)) }, func() string { ref[k] = v; return res(nil) })
			}
		}
		add("Get "+k, true, func() string { v, ok, err := c.Get(ctx, k); return res(int(v), ok, err) }, func() string {
			v, ok := ref[k]
			return res(int(v), ok, nil)
		})
		add("Delete "+k, false, func() string { return res(c.Delete(ctx, k)) }, func() string { delete(ref, k); return res(nil) })
	}
	add("MSet", true, func() string { return res(c.MSet(ctx, map[string]fragile{"x": 1}, time.Hour)) }, func() string { ref["x"] = 1; return res(nil) })
	add("MGet", true, func() string { _, oks, err := c.MGet(ctx, "x", "y"); return res(oks, err) }, func() string {
		_, a := ref["x"]
		_, b := ref["y"]
		return res([]bool{a, b}, nil)
	})
	add("a cleaning", false, func() string {
		rt.Advance(2 * time.Minute)
		e := c.Delete(ctx, "none")
		rt.Settle()
		return res(e)
	}, func() string { return res(nil) })
	o.show = func() string {
		c.Set(ctx, "z", 7, time.Hour)
		s := ""
		for _, k := range []string{"x", "y", "z"} {
			r, bad := attempt(func() string { v, ok, err := c.Get(ctx, k); return res(int(v), ok, err) })
			if bad {
				r = "panics"
			}
			s += r + "; "
		}
		rt.Advance(2 * time.Hour)
		c.Delete(ctx, "none")
		rt.Settle()
		return s + res(c.Purge()) + res(c.Get(ctx, "z"))
	}
	o.want = func() string {
		ref["z"] = 7
		s := ""
		for _, k := range []string{"x", "y", "z"} {
			v, ok := ref[k]
			if v == 2 {
				s += "panics; "
			} else {
				s += res(int(v), ok, nil) + "; "
			}
		}
		return s + res(nil) + res(fragile(0), false, nil)
	}
	return o
}

func faultPool() faultObject {
	rt.KeepPool()
	f := fuse{}
	made := 0
	p := gpool.New(func() int { f.use(); made++; return made })
	q := gpool.NewArrayPool[int](2)
	in, want := 0, 0
	var o faultObject
	for n := 0; n < 2; n++ {
		n := n
		o.calls = append(o.calls, faultCall{fmt.Sprint("Get, panic at ", n), n > 0, func() string {
			f.n = n
			defer func() { f.n = 0 }()
			return fmt.Sprint(p.Get() > 0)
		}, func() string {
			if in > 0 {
				in--
			} else {
				want++
			}
			return "true"
		}})
	}
	o.calls = append(o.calls, faultCall{"Put", false, func() string { p.Put(100); return "" }, func() string { in++; return "" }},
		faultCall{"array", false, func() string { q.Put(q.Get()); return "" }, func() string { return "" }})
	o.show = func() string { return fmt.Sprint(made) }
	o.want = func() string { return fmt.Sprint(want) }
	return o
}

func faultSet() faultObject {
	s := gset.NewSet[any]()
	ref := map[any]bool{}
	bad := any(func() {})
	var o faultObject
	for _, k := range []any{1, "a"} {
		k := k
		o.calls = append(o.calls,
			faultCall{fmt.Sprint("Add ", k), false, func() string { return fmt.Sprint(gset.Add(s, k)) }, func() string {
				ref[k] = true
				return "true" // as documented
			}},
			faultCall{fmt.Sprint("Remove ", k), false, func() string { return fmt.Sprint(gset.Remove(s, k)) }, func() string {
				delete(ref, k)
				return "true"
			}})
	}
	m := map[any]int{1: 1}
	for i, f := range []func(){func() { gset.Add(s, bad) }, func() { gset.Remove(s, bad) }, func() { gset.Contains(s, bad) }, func() { gmap.Contains(m, bad) }} {
		f := f
		o.calls = append(o.calls, faultCall{fmt.Sprint("element without hash ", i), true, func() string { f(); return "" }, func() string { return "" }})
	}
	text := func(xs []any) string {
		var out []string
		for _, x := range xs {
			out = append(out, fmt.Sprint(x))
		}
		sort.Strings(out)
		return fmt.Sprint(out)
	}
	o.show = func() string { return text(gset.Items(s)) + fmt.Sprint(gset.Len(s), len(m)) }
	o.want = func() string {
		var xs []any
		for k := range ref {
			xs = append(xs, k)
		}
		return text(xs) + fmt.Sprint(len(ref), 1)
	}
	return o
}

func faultList() faultObject {
	l := glist.New[int]()
	var ref []int
	n := 0
	var o faultObject
	add := func(name string, fault bool, do, model func()) {
		o.calls = append(o.calls, faultCall{name, fault, func() string { do(); return "" }, func() string { model(); return "" }})
	}
	add("PushBack", false, func() { n++; l.PushBack(n) }, func() { ref = append(ref, n) })
	add("PushFront", false, func() { n++; l.PushFront(n) }, func() { ref = append([]int{n}, ref...) })
	add("Remove", false, func() {
		if e := l.Front(); e != nil {
			l.Remove(e)
		}
	}, func() { ref = ref[min(1, len(ref)):] })
	for i := 0; i < 4; i++ {
		i := i
		add(fmt.Sprint("Range, panic at ", i), true, func() { f := fuse{i}; l.Range(func(*glist.Element[int]) { f.use() }) }, func() {})
	}
	o.show = func() string {
		s := fmt.Sprint(l.Len())
		l.Range(func(e *glist.Element[int]) { s += fmt.Sprint(" ", e.Value) })
		return s
	}
	o.want = func() string {
		s := fmt.Sprint(len(ref))
		for _, v := range ref {
			s += fmt.Sprint(" ", v)
		}
		return s
	}
	return o
}

func panicPrograms(thorough bool) []rt.Prog {
	var ps []rt.Prog
	more := 0
	if thorough {
		more = 1
	}
	for _, x := range []struct {
		name string
		n    int
		mk   func() faultObject
	}{{"concurrent map", 3, faultMap}, {"bit set", 4, faultBits}, {"tree", 2, faultTree}, {"file cache", 3, faultFile}, {"pools", 5, faultPool}, {"set", 4, faultSet}, {"list", 5, faultList}} {
		for n := 1; n <= x.n+more; n++ {
			ps = append(ps, faultProg(x.name, n, x.mk))
		}
	}
	return ps
}
