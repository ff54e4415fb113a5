package progs

import (
	"context"
	"fmt"
	"slices"
	"strings"
	"time"

	"github.com/miniLCT/gosb/library/cachex"

	"verif/core"
	"verif/rt"
	"verif/spec"
)

const (
	long = int64(time.Hour)
	past = -int64(time.Hour)
)

// kept is the answer of the last MGet: it belongs to the caller and must stay as it is.
type kept struct {
	vs, wantVs   []int
	oks, wantOks []bool
}

func (k *kept) check() error {
	if !slices.Equal(k.vs, k.wantVs) || !slices.Equal(k.oks, k.wantOks) {
		return fmt.Errorf("the answer %v %v of an earlier MGet has become %v %v", k.wantVs, k.wantOks, k.vs, k.oks)
	}
	return nil
}

// cacheDo makes a call on a cache and returns its answer.
func cacheDo(c cachex.Cache[int, int], o spec.LRUCall, k *kept) (string, error) {
	ctx := context.Background()
	keys := slices.Clone(o.Keys)
	if k != nil {
		defer func() {
			for i := range keys { // the keys belong to the caller as well
				keys[i] = -7
			}
		}()
	}
	var sb strings.Builder
	var err error
	switch o.Op {
	case spec.LRUGet:
		var v int
		var ok bool
		v, ok, err = c.Get(ctx, o.Keys[0])
		sb.WriteString(spec.Answer(v, ok))
	case spec.LRUMGet:
		var vs []int
		var oks []bool
		vs, oks, err = c.MGet(ctx, keys...)
		if err == nil && (len(vs) != len(o.Keys) || len(oks) != len(o.Keys)) {
			return "", fmt.Errorf("%v answers %v %v", o, vs, oks)
		}
		if k != nil {
			if err := k.check(); err != nil {
				return "", err
			}
			for i := range k.vs { // writing to it must not matter either
				k.vs[i], k.oks[i] = -9, !k.oks[i]
			}
			*k = kept{vs, slices.Clone(vs), oks, slices.Clone(oks)}
		}
		for i := range vs {
			sb.WriteString(spec.Answer(vs[i], oks[i]))
		}
	case spec.LRUSet:
		err = c.Set(ctx, o.Keys[0], o.Vals[0], time.Duration(o.TTL))
	case spec.LRUMSet:
		kvs := map[int]int{}
		for i, k := range o.Keys {
			kvs[k] = o.Vals[i]
		}
		err = c.MSet(ctx, kvs, time.Duration(o.TTL))
		if len(kvs) != len(o.Keys) {
			return "", fmt.Errorf("%v changes the caller's map to %v", o, kvs)
		}
		for i, k := range o.Keys {
			if kvs[k] != o.Vals[i] {
				return "", fmt.Errorf("%v changes the caller's map to %v", o, kvs)
			}
			kvs[k] = -8
		}
	case spec.LRUDelete:
		err = c.Delete(ctx, keys...)
	case spec.LRUWait:
		rt.Advance(time.Duration(o.TTL))
	}
	if !slices.Equal(keys, o.Keys) {
		return "", fmt.Errorf("%v changes the caller's keys to %v", o, keys)
	}
	if k != nil && err == nil {
		err = k.check()
	}
	return sb.String(), err
}

func lruDo(c *cachex.LRUCacheV2[int, int], o spec.LRUCall) string {
	rec := rt.Begin(o.Op, o.String(), o)
	a, err := cacheDo(c, o, nil)
	if err != nil {
		rt.Fail("error", "%v returns an error: %v", o, err)
	}
	rec.End(a)
	return a
}

func get(k int) spec.LRUCall     { return spec.LRUCall{Op: spec.LRUGet, Keys: []int{k}} }
func mget(k ...int) spec.LRUCall { return spec.LRUCall{Op: spec.LRUMGet, Keys: k} }
func del(k ...int) spec.LRUCall  { return spec.LRUCall{Op: spec.LRUDelete, Keys: k} }
func wait(d int64) spec.LRUCall  { return spec.LRUCall{Op: spec.LRUWait, TTL: d} }
func set(k, v int, ttl int64) spec.LRUCall {
	return spec.LRUCall{Op: spec.LRUSet, Keys: []int{k}, Vals: []int{v}, TTL: ttl}
}
func mset(ttl int64, kv ...int) spec.LRUCall {
	c := spec.LRUCall{Op: spec.LRUMSet, TTL: ttl}
	for i := 0; i < len(kv); i += 2 {
		c.Keys, c.Vals = append(c.Keys, kv[i]), append(c.Vals, kv[i+1])
	}
	return c
}

func lruProg(capacity, maxUsed int, start []spec.LRUCall, threads [][]spec.LRUCall) rt.Prog {
	return rt.Prog{Name: fmt.Sprintf("LRU cache of %d, usage limit %d, %v then %v", capacity, maxUsed, start, threads), MapOrders: true, Run: func() {
		c := cachex.NewLRUCacheV2[int, int](capacity, maxUsed)
		for _, o := range start {
			lruDo(c, o)
		}
		res := make([][]string, len(threads))
		var fs []func()
		for i, ops := range threads {
			i, ops := i, ops
			fs = append(fs, func() {
				for _, o := range ops {
					res[i] = append(res[i], lruDo(c, o))
				}
			})
		}
		rt.Par(fs...)
		last := lruDo(c, mget(1, 2, 3))
		rt.Check("not linearizable", func() error { return spec.CheckLRU(capacity, maxUsed) })
		rt.Outcome("%q %s", res, last)
	}}
}

// lruBatches runs batches of many keys beside one another: each of them finds all the values of one batch.
func lruBatches(n int, calls []string) rt.Prog {
	return rt.Prog{Name: fmt.Sprintf("LRU cache of %d, all keys set, then %v at once", n, calls), Run: func() {
		ctx := context.Background()
		c := cachex.NewLRUCacheV2[int, int](n, 0)
		keys := make([]int, n)
		for i := range keys {
			keys[i] = i
		}
		fill := func(v int) {
			kvs := make(map[int]int, n)
			for _, k := range keys {
				kvs[k] = v
			}
			if err := c.MSet(ctx, kvs, time.Duration(long)); err != nil {
				rt.Fail("error", "MSet returns an error: %v", err)
			}
		}
		fill(1)
		read := func() {
			vs, oks, err := c.MGet(ctx, keys...)
			if err != nil || len(vs) != n || len(oks) != n {
				rt.Fail("error", "MGet of %d keys returns %d values, %d hits and %v", n, len(vs), len(oks), err)
			}
			for i := range vs {
				if vs[i] != vs[0] || oks[i] != oks[0] || oks[i] != (vs[i] != 0) {
					rt.Fail("not atomic", "MGet of %d keys finds %s for key 0 and %s for key %d; every batch writes or removes all of them", n, spec.Answer(vs[0], oks[0]), spec.Answer(vs[i], oks[i]), i)
				}
			}
		}
		var fs []func()
		for i, call := range calls {
			fs = append(fs, func() {
				switch call {
				case "MSet":
					fill(i + 2)
				case "MGet":
					read()
				case "Delete":
					if err := c.Delete(ctx, keys...); err != nil {
						rt.Fail("error", "Delete returns an error: %v", err)
					}
				}
			})
		}
		rt.Par(fs...)
		read()
	}}
}

func lruPrograms(thorough bool) []rt.Prog {
	var ps []rt.Prog
	for _, n := range []int{20, 70, 300, 1100, 5000} {
		for _, calls := range [][]string{{"MSet", "MGet"}, {"MSet", "MSet"}, {"MSet", "Delete"}, {"Delete", "MGet"}, {"MSet", "MSet", "MGet"}, {"MSet", "Delete", "MGet"}} {
			ps = append(ps, lruBatches(n, calls))
		}
	}
	alpha := func(t int) []spec.LRUCall {
		v := 10 * (t + 1)
		return []spec.LRUCall{
			get(1), get(2), mget(1, 2), mget(2, 1), mget(1, 1), set(1, v, long), set(2, v+1, long), set(3, v+2, long), set(1, v, past),
			mset(long, 1, v+3, 2, v+4), mset(long, 2, v+4, 3, v+5), del(1), del(1, 2),
		}
	}
	type conf struct{ cap, max int }
	starts := [][]spec.LRUCall{nil, {set(1, 1, long)}, {set(1, 1, long), set(2, 2, long)}, {set(1, 1, past), set(2, 2, long)}}
	seq := func(t, n int) [][]spec.LRUCall {
		out := [][]spec.LRUCall{nil}
		for i := 0; i < n; i++ {
			var next [][]spec.LRUCall
			for _, p := range out {
				for _, o := range alpha(t) {
					next = append(next, append(p[:len(p):len(p)], o))
				}
			}
			out = next
		}
		return out
	}
	one, two := seq(0, 1), seq(1, 1)
	for _, c := range []conf{{1, 0}, {2, 0}, {2, 1}, {2, 2}} {
		for _, st := range starts {
			for i, a := range one {
				for j, b := range two[i:] {
					ps = append(ps, lruProg(c.cap, c.max, st, [][]spec.LRUCall{a, b}))
					for _, d := range seq(2, 1)[i+j:] {
						ps = append(ps, lruProg(c.cap, c.max, st, [][]spec.LRUCall{a, b, d}))
					}
				}
			}
			for _, a := range seq(0, 2) {
				for _, b := range two {
					if thorough || c.cap == 2 && c.max < 2 {
						ps = append(ps, lruProg(c.cap, c.max, st, [][]spec.LRUCall{a, b}))
					}
				}
			}
			if thorough && c.cap == 2 {
				for i, a := range seq(0, 2) {
					for _, b := range seq(1, 2)[i:] {
						ps = append(ps, lruProg(c.cap, c.max, st, [][]spec.LRUCall{a, b}))
					}
				}
			}
		}
	}
	// more goroutines and calls
	step := 64
	if thorough {
		step = 4
	}
	for i, c := range []conf{{2, 0}, {3, 0}, {2, 1}, {3, 2}} {
		patterns(len(alpha(0)), step, i*5, func(number func(t, i int) int) {
			var ts [][]spec.LRUCall
			for t := 0; t < 4; t++ {
				var p []spec.LRUCall
				for i := 0; i < 3; i++ {
					p = append(p, alpha(3*t + i)[number(t, i)])
				}
				ts = append(ts, p)
			}
			ps = large(false, ps, func() rt.Prog { return lruProg(c.cap, c.max, starts[number(1, 1)%4], ts) })
		})
	}
	return ps
}

// ---------------------------------------------------------------- one goroutine, every history

type lruInst struct {
	c   *cachex.LRUCacheV2[int, int]
	may []spec.LRU // the model's states that agree with all answers
	kept
}

func (in *lruInst) do(w *core.W, o spec.LRUCall) {
	a, err := cacheDo(in.c, o, &in.kept)
	if err != nil {
		w.Fail("%v returns an error: %v", o, err)
	}
	var next []spec.LRU
	for _, l := range in.may {
		for _, n := range l.Steps(o, a) {
			dup := false
			for _, x := range next {
				dup = dup || x == n
			}
			if !dup {
				next = append(next, n)
			}
		}
	}
	if next == nil {
		w.Fail("%v answers %q; the model, most recently used first: %+v", o, a, in.may)
	}
	in.may = next
}

// lruMachine has every history of a cache as its paths. Entries live for half a second or two and a
// half, and time goes by in seconds.
func lruMachine(capacity, maxUsed, vals, states int) rt.Prog {
	return lruMachineFor(capacity, maxUsed, vals, states, int64(time.Second/2), int64(5*time.Second/2))
}

func lruMachineFor(capacity, maxUsed, vals, states int, short, mid int64) rt.Prog {
	type op struct {
		spec.LRUCall
		rev bool
	}
	var ops []op
	var names []string
	add := func(c spec.LRUCall) {
		ops = append(ops, op{c, false})
		names = append(names, c.String())
		if c.Op == spec.LRUMSet {
			ops = append(ops, op{c, true})
			names = append(names, c.String()+" backwards")
		}
	}
	for k := 1; k <= 3; k++ {
		add(get(k))
		add(del(k))
		for v := 1; v <= vals; v++ {
			add(set(k, 10*k+v, mid))
		}
		add(set(k, 10*k+1, short))
	}
	add(mget(1, 2))
	add(mget(2, 1, 2))
	add(mget(3, 3, 1))
	add(mset(mid, 1, 11, 2, 21))
	add(mset(short, 2, 21, 3, 31))
	add(mset(mid, 1, 11, 2, 21, 3, 31))
	add(del(1, 2))
	add(del(3, 3))
	add(wait(int64(time.Second)))
	name := fmt.Sprintf("LRU cache of %d, usage limit %d, %d values, lifetimes %v and %v", capacity, maxUsed, vals, time.Duration(short), time.Duration(mid))
	return rt.Prog{Name: name, Machine: &core.Machine{
		Name: name, Ops: names, States: states,
		New: func() any {
			return &lruInst{c: cachex.NewLRUCacheV2[int, int](capacity, maxUsed), may: []spec.LRU{{Cap: capacity, MaxUsed: maxUsed}}}
		},
		Step: func(w *core.W, inst any, i int) bool {
			rt.MapReverse(ops[i].rev)
			inst.(*lruInst).do(w, ops[i].LRUCall)
			return true
		},
		Canon: func(inst any) []byte {
			in := inst.(*lruInst)
			now := rt.Now()
			may := append([]spec.LRU(nil), in.may...)
			for i := range may {
				for j := 0; j < may[i].N; j++ {
					e := &may[i].E[j]
					if e.Exp < may[i].Now {
						e.Exp = -1
					} else if e.Exp < 1<<62 {
						e.Exp -= may[i].Now
					}
				}
				may[i].Now = 0
			}
			at := now.UnixNano() // points in time that are kept as numbers
			rel := func(x int64) int64 {
				for _, unit := range []int64{1, 1e3, 1e6, 1e9} {
					if d := x - at/unit; d > -int64(24*time.Hour)/unit && d < int64(24*time.Hour)/unit {
						return max(d*unit, -1)
					}
				}
				return x
			}
			return core.CanonRel(now, rel, in.c, may)
		},
		Check: func(w *core.W, inst any) {
			in := inst.(*lruInst)
			in.do(w, mget(1, 2, 3))
			in.do(w, set(4, 4, mid))
			in.do(w, mget(3, 1, 2, 4))
		},
	}}
}

func lruMachines(thorough bool) []rt.Prog {
	var ps []rt.Prog
	ps = append(ps, rt.Prog{Name: "LRU caches without room", Run: func() {
		for _, n := range []int{0, -1, -1 << 40} {
			func() {
				defer func() {
					if recover() == nil {
						rt.Fail("constructor", "NewLRUCacheV2(%d, 0) does not panic", n)
					}
				}()
				cachex.NewLRUCacheV2[int, int](n, 0)
			}()
		}
	}})
	states := 100_000
	if thorough {
		states = 400_000
	}
	for _, capacity := range []int{1, 5, 8, 20, 65, 130, 500, 1025} {
		ps = append(ps, lruLong(capacity, thorough))
	}
	for _, limit := range []int{0, 3, 62, 63, 64, 126, 127, 128, 254, 255, 256, 257, 1000, 32766, 32767, 32768, 65534, 65535, 65536, 65537, 70001, 1 << 31, 1 << 32, 1<<63 - 1} {
		ps = append(ps, lruUses(limit))
	}
	ps = append(ps, lruMachineFor(2, 0, 1, 3000, int64(time.Second/2), 1<<63-1), lruMachineFor(2, 1, 1, 3000, -1<<63, 1<<63-1),
		lruMachineFor(2, 0, 1, 3000, 1, 1<<62+1<<61))
	for _, capacity := range []int{1, 2, 3} {
		for maxUsed := 0; maxUsed <= 2; maxUsed++ {
			ps = append(ps, lruMachine(capacity, maxUsed, 1, states))
			if thorough {
				ps = append(ps, lruMachine(capacity, maxUsed, 2, states))
			}
		}
	}
	return ps
}

// bigLRU is the model of a larger cache: the most recently used entries come first.
type bigLRU struct {
	capacity, maxUsed int
	now               int64
	es                []spec.LRUEntry
}

func (l *bigLRU) take(k int) (spec.LRUEntry, bool) {
	for i, e := range l.es {
		if e.Key == k {
			l.es = append(l.es[:i], l.es[i+1:]...)
			return e, true
		}
	}
	return spec.LRUEntry{}, false
}

func (l *bigLRU) front(e spec.LRUEntry) {
	l.es = append(l.es, e)
	copy(l.es[1:], l.es)
	l.es[0] = e
	if len(l.es) > l.capacity {
		l.es = l.es[:l.capacity]
	}
}

// do makes the call on the model and gives its answer.
func (l *bigLRU) do(o spec.LRUCall) string {
	var sb strings.Builder
	for i, k := range o.Keys {
		e, ok := l.take(k)
		switch o.Op {
		case spec.LRUGet, spec.LRUMGet:
			if ok = ok && e.Exp >= l.now && (l.maxUsed == 0 || e.Used < l.maxUsed); ok {
				e.Used++
				l.front(e)
			} else {
				e.Val = 0
			}
			sb.WriteString(spec.Answer(e.Val, ok))
		case spec.LRUSet, spec.LRUMSet:
			l.front(spec.LRUEntry{Key: k, Val: o.Vals[i], Exp: spec.After(l.now, o.TTL)})
		}
	}
	if o.Op == spec.LRUWait {
		l.now += o.TTL
	}
	return sb.String()
}

// lruUses reads entries as often as a usage limit allows, and then once more.
func lruUses(limit int) rt.Prog {
	name := fmt.Sprintf("LRU cache, usage limit %d", limit)
	kinds := []string{"Get", "MGet", "MGet of the key twice", "Get of two keys in turn", "Get, one write half way"}
	return rt.Prog{Name: name, Machine: func(c *core.Ctx, exec func(func())) {
		c.Enum(name, len(kinds), func(i int) string { return kinds[i] }, func(w *core.W, i int) bool {
			exec(func() {
				ctx := context.Background()
				cache := cachex.NewLRUCacheV2[int, int](3, limit)
				left := map[int]int{}
				write := func(k int) {
					left[k] = limit
					if err := cache.Set(ctx, k, 10+k, time.Hour); err != nil {
						w.Fail("Set returns an error: %v", err)
					}
				}
				write(1)
				write(2)
				n := 0
				read := func(keys ...int) {
					var vs []int
					var oks []bool
					if len(keys) == 1 && kinds[i] != "MGet" {
						v, ok, err := cache.Get(ctx, keys[0])
						if vs, oks = []int{v}, []bool{ok}; err != nil {
							w.Fail("Get returns an error: %v", err)
						}
					} else {
						var err error
						if vs, oks, err = cache.MGet(ctx, keys...); err != nil {
							w.Fail("MGet returns an error: %v", err)
						}
					}
					for j, k := range keys {
						want := limit == 0 || left[k] > 0
						if left[k]--; oks[j] != want || want && vs[j] != 10+k {
							w.Fail("read %d answers %d, %v, the entry had %d of %d reads left", n, vs[j], oks[j], left[k]+1, limit)
						}
						n++
					}
				}
				reads := limit
				if reads == 0 || reads > 70_001 {
					reads = 70_001
				}
				for r := 0; r < reads+3; r++ {
					switch i {
					case 0, 1:
						read(1)
					case 2:
						read(1, 1)
					case 3:
						read(1 + r%2)
						read(1 + r%2)
					case 4:
						read(1)
						if r == reads/2 {
							write(1)
						}
					}
				}
			})
			return true
		})
	}}
}

// lruLong runs long regular histories on a larger cache.
func lruLong(capacity int, thorough bool) rt.Prog {
	name := fmt.Sprintf("LRU cache of %d, long histories", capacity)
	return rt.Prog{Name: name, Machine: func(c *core.Ctx, exec func(func())) {
		keys := []int{max(1, capacity*3/4), capacity, capacity + 1, capacity * 2}
		gets, dels, waits, limits := []int{0, 1, 2, 3}, []int{0, 5, 3}, []int{0, 4, 13}, []int{0, 1, 3}
		orders := len(core.LongOrders)
		if !thorough && capacity > 20 {
			orders = 3
		}
		if capacity > 200 {
			gets, dels, waits, limits = gets[:2], dels[:2], waits[:1], limits[:1]
		}
		per := []int{len(keys), orders, orders, len(gets), len(dels), len(waits), len(limits)}
		c.Enum(name, core.Prod(per...), func(i int) string {
			d := core.Mixed(i, per...)
			return fmt.Sprintf("%d keys, usage limit %d, written %s, read %s, per write %d reads, a deletion every %d and a pause every %d rounds (0: none)",
				keys[d[0]], limits[d[6]], core.LongOrders[d[1]], core.LongOrders[d[2]], gets[d[3]], dels[d[4]], waits[d[5]])
		}, func(w *core.W, i int) bool {
			d := core.Mixed(i, per...)
			n := keys[d[0]]
			hits := 0
			exec(func() {
				cache := cachex.NewLRUCacheV2[int, int](capacity, limits[d[6]])
				l := &bigLRU{capacity: capacity, maxUsed: limits[d[6]]}
				var k0 kept
				do := func(o spec.LRUCall) {
					a, err := cacheDo(cache, o, &k0)
					if err != nil {
						w.Fail("%v returns an error: %v", o, err)
					}
					if want := l.do(o); a != want {
						w.Fail("%v answers %q, not %q; the model, most recently used first: %+v", o, a, want, l.es)
					} else if strings.ContainsAny(a, "0123456789") {
						hits++
					}
				}
				at := 0
				for r := 0; r < 2*n+5; r++ {
					k := core.LongOrder(d[1], n, r%n)
					ttl := int64(time.Second)*int64(1+k%4*7) + int64(time.Second/2)
					if r%3 == 2 {
						do(mset(ttl, k, r))
					} else {
						do(set(k, r, ttl))
					}
					for g := 0; g < gets[d[3]]; g++ {
						q := core.LongOrder(d[2], n, at%n)
						at++
						if r%4 == 3 {
							do(mget(q, k, core.LongOrder(d[2], n, at%n)))
						} else {
							do(get(q))
						}
					}
					if m := dels[d[4]]; m > 0 && r%m == m-1 {
						do(del(core.LongOrder(d[2], n, r%n), k))
					}
					if m := waits[d[5]]; m > 0 && r%m == m-1 {
						do(wait(int64(time.Second)))
					}
				}
				var all []int
				for k := 0; k < n; k++ {
					all = append(all, core.LongOrder(d[2], n, k))
				}
				do(mget(all...))
				do(set(n, 7, long))
				do(mget(all...))
			})
			return hits > 0
		})
	}}
}
