package progs

import (
	"context"
	"fmt"
	"strings"
	"time"

	"github.com/miniLCT/gosb/library/cachex"

	"verif/core"
	"verif/rt"
	"verif/spec"
	"verif/v/memfs"
)

type fcStore = *cachex.FileStore[int, int]

func fcDo(c fcStore, o spec.FileCall) []int {
	ctx := context.Background()
	rec := rt.Begin(o.Op, o.String(), o)
	var res []int
	var err error
	one := func(v int, ok bool) {
		if !ok {
			if v != 0 {
				rt.Fail("value of a miss", "%v is a miss and answers %d", o, v)
			}
		} else if v == 0 {
			v = -1
		}
		res = append(res, v)
	}
	switch o.Op {
	case spec.FileGet:
		var v int
		var ok bool
		v, ok, err = c.Get(ctx, o.Keys[0])
		one(v, ok)
	case spec.FileMGet:
		var vs []int
		var oks []bool
		vs, oks, err = c.MGet(ctx, o.Keys...)
		if err == nil && len(vs) == len(o.Keys) && len(oks) == len(o.Keys) {
			for i := range vs {
				one(vs[i], oks[i])
			}
		} else if err == nil {
			rt.Fail("length of an answer", "%v answers %v %v", o, vs, oks)
		}
	case spec.FileSet:
		err = c.Set(ctx, o.Keys[0], o.Vals[0], time.Duration(o.TTL))
	case spec.FileMSet:
		kvs := map[int]int{}
		for i, k := range o.Keys {
			kvs[k] = o.Vals[i]
		}
		err = c.MSet(ctx, kvs, time.Duration(o.TTL))
	case spec.FileDelete:
		err = c.Delete(ctx, o.Keys...)
	case spec.FilePurge:
		err = c.Purge()
	case spec.FileWait:
		rt.Advance(time.Duration(o.TTL))
	}
	if err != nil {
		rt.Fail("error", "%v returns an error: %v", o, err)
	}
	rec.End(res)
	return res
}

func fget(k ...int) spec.FileCall {
	if len(k) == 1 {
		return spec.FileCall{Op: spec.FileGet, Keys: k}
	}
	return spec.FileCall{Op: spec.FileMGet, Keys: k}
}
func fset(ttl int64, kv ...int) spec.FileCall {
	c := spec.FileCall{Op: spec.FileMSet, TTL: ttl}
	for i := 0; i < len(kv); i += 2 {
		c.Keys, c.Vals = append(c.Keys, kv[i]), append(c.Vals, kv[i+1])
	}
	if len(kv) == 2 {
		c.Op = spec.FileSet
	}
	return c
}
func fdel(k ...int) spec.FileCall   { return spec.FileCall{Op: spec.FileDelete, Keys: k} }
func fwait(ttl int64) spec.FileCall { return spec.FileCall{Op: spec.FileWait, TTL: ttl} }

const fcShort = int64(time.Second / 2)

// fileProg: after the start, a cleaning is due if due is set: the next call starts it.
func fileProg(start []spec.FileCall, due, clockMoves bool, threads [][]spec.FileCall, maxStates int64) rt.Prog {
	name := fmt.Sprintf("file cache, %v", start)
	if due {
		name += ", cleaning due"
	}
	return rt.Prog{Name: fmt.Sprintf("%s, then %v", name, threads), MapOrders: true, ClockMoves: clockMoves, MaxStates: maxStates, Run: func() {
		x := memfs.Reset()
		x.Watch = true
		c := &cachex.FileStore[int, int]{Dir: "/tmp/s", GCCycle: 2 * time.Second}
		for _, o := range start {
			fcDo(c, o)
		}
		if due {
			if start == nil {
				fcDo(c, fget(0))
			}
			fcDo(c, fwait(3*int64(time.Second)))
		}
		res := make([][][]int, len(threads))
		var fs []func()
		for i, ops := range threads {
			i, ops := i, ops
			fs = append(fs, func() {
				for _, o := range ops {
					res[i] = append(res[i], fcDo(c, o))
				}
			})
		}
		rt.Par(fs...)
		mid := fcDo(c, fget(0))
		rt.Settle()
		if n := rt.Live(); n > 0 {
			rt.Fail("goroutine does not end", "%d background goroutines do not end", n)
		}
		last := fcDo(c, fget(0, 1))
		rt.Settle()
		rt.Check("not linearizable", spec.CheckFiles)
		rt.Check("two cleanings at once", x.Overlap)
		rt.Outcome("%v %v %v", res, mid, last)
		rt.Check("two cleanings in a cycle", func() error {
			if n := len(x.Span); n > 1 && !clockMoves {
				return fmt.Errorf("%d cleanings have been made without time going by", n)
			}
			return nil
		})
		if !due {
			return
		}
		// The next cleaning comes and leaves no expired entry.
		fcDo(c, fset(past, 2, 9))
		rt.Settle()
		fcDo(c, fwait(4*int64(time.Second)))
		end := fcDo(c, fget(0, 1))
		rt.Settle()
		live := 0
		for _, v := range end {
			if v != 0 {
				live++
			}
		}
		rt.Check("no cleaning", func() error {
			fs := x.Names("/tmp/s/")
			if len(fs) > live {
				return fmt.Errorf("after two cycles and a call there are %d files of %d entries: %v", len(fs), live, fs)
			}
			return nil
		})
	}}
}

// fileBig has long values written, read and removed at once.
func fileBig(size int, old string, calls []string) rt.Prog {
	return rt.Prog{Name: fmt.Sprintf("file cache, values of %d bytes, %s, then %v at once", size, old, calls), Run: func() {
		memfs.Reset()
		ctx := context.Background()
		c := &cachex.FileStore[int, string]{Dir: "/tmp/s", GCCycle: 2 * time.Second}
		text := func(i int) string { return strings.Repeat(string(rune('a'+i)), size-i) }
		may := map[string]bool{}
		set := func(i int, ttl time.Duration) {
			if err := c.Set(ctx, 0, text(i), ttl); err != nil {
				rt.Fail("error", "Set returns an error: %v", err)
			}
		}
		get := func(miss bool) {
			v, ok, err := c.Get(ctx, 0)
			if err != nil {
				rt.Fail("error", "Get returns an error: %v", err)
			} else if ok && !may[v] || !ok && (v != "" || !miss) {
				rt.Fail("not a value", "Get answers %v and a value of %d bytes: %.30q", ok, len(v), v)
			}
		}
		sets, removed := 0, old != "set"
		switch old {
		case "set":
			may[text(9)] = true
			set(9, time.Duration(long))
		case "expired":
			set(9, time.Second)
			rt.Advance(5 * time.Second)
		}
		for i, call := range calls {
			if call == "Set" {
				may[text(i)] = true
				sets++
			}
			removed = removed || call == "Delete"
		}
		var fs []func()
		for i, call := range calls {
			fs = append(fs, func() {
				switch call {
				case "Set":
					set(i, time.Duration(long))
				case "Get":
					get(removed)
				case "Delete":
					if err := c.Delete(ctx, 0); err != nil {
						rt.Fail("error", "Delete returns an error: %v", err)
					}
				}
			})
		}
		rt.Par(fs...)
		if sets > 0 {
			delete(may, text(9))
			removed = false
			for _, call := range calls {
				removed = removed || call == "Delete"
			}
		}
		get(removed)
		rt.Settle()
		get(removed)
		rt.Settle()
	}}
}

func filePrograms(thorough bool) []rt.Prog {
	var ps []rt.Prog
	for _, size := range []int{600, 5000, 70_000} {
		for _, old := range []string{"set", "expired", "none"} {
			if size > 5000 && old != "set" && !thorough {
				break
			}
			for _, calls := range [][]string{{"Set", "Get"}, {"Set", "Set"}, {"Get", "Get"}, {"Delete", "Get"}, {"Set", "Delete"}, {"Set", "Set", "Get"}, {"Set", "Delete", "Get"}, {"Set", "Get", "Get"}} {
				p := fileBig(size, old, calls)
				if p.MaxStates = 1_000; thorough {
					p.MaxStates = 100_000
				}
				ps = append(ps, p)
			}
		}
	}
	max := int64(6_000)
	if thorough {
		max = 300_000
	}
	dirs := []spec.FileCall{fset(long, 0, 5, 1, 5), fdel(0, 1)} // all directories are there
	with := func(more ...spec.FileCall) []spec.FileCall { return append(dirs[:2:2], more...) }
	starts := [][]spec.FileCall{dirs, with(fset(long, 0, 1)), with(fset(fcShort, 0, 1), fwait(int64(time.Second))), with(fset(fcShort, 0, 1), fset(long, 1, 2), fwait(int64(time.Second))), nil}
	alpha := func(t int) []spec.FileCall {
		v := 10 * (t + 1)
		return []spec.FileCall{
			fget(0), fset(long, 0, v), fdel(0), fget(0, 1), fset(past, 0, v+1), fset(long, 1, v+2), fget(1),
			fset(long, 0, v+3, 1, v+4), fdel(0, 1), {Op: spec.FilePurge},
		}
	}
	for _, due := range []bool{false, true} {
		for si, st := range starts {
			if st == nil && due || !thorough && due && (si == 0 || si == 1) {
				continue
			}
			add := func(ts ...[]spec.FileCall) { ps = append(ps, fileProg(st, due, false, ts, max)) }
			for i, a := range alpha(0) {
				for _, b := range alpha(1)[i:] {
					add([]spec.FileCall{a}, []spec.FileCall{b})
				}
			}
			// one goroutine with two calls
			n := 3
			if thorough {
				n = len(alpha(0))
			}
			for _, a := range alpha(0)[:n] {
				for _, a2 := range alpha(2)[:n] {
					for _, b := range alpha(1)[:fmax(n, 5)] {
						if !thorough && due && si != 3 {
							continue
						}
						add([]spec.FileCall{a, a2}, []spec.FileCall{b})
					}
				}
			}
			// three goroutines
			n = 3
			if thorough {
				n = 5
			}
			for i, a := range alpha(0)[:n] {
				for j, b := range alpha(1)[i:n] {
					for _, d := range alpha(2)[i+j : n] {
						add([]spec.FileCall{a}, []spec.FileCall{b}, []spec.FileCall{d})
					}
				}
			}
			if si != 0 && si != 2 && !due || due && si < 2 {
				continue
			}
			// time goes by meanwhile: the entry runs out, and a cleaning comes due
			st := with(fset(fcShort, 0, 1))
			if si == 2 {
				st = append(st, fwait(int64(time.Second)))
			}
			for _, a := range alpha(0)[:5] {
				for _, a2 := range alpha(2)[:3] {
					for _, w := range []int64{int64(time.Second), 4 * int64(time.Second)} {
						ps = append(ps, fileProg(st, due, true, [][]spec.FileCall{{a, a2}, {fwait(w)}}, max))
						ps = append(ps, fileProg(st, due, true, [][]spec.FileCall{{a}, {fwait(w), a2}}, max))
					}
				}
			}
		}
	}
	// more calls
	step := 100
	if thorough {
		step = 4
	}
	for si, st := range starts[:4] {
		patterns(len(alpha(0)), step, 7*si, func(number func(t, i int) int) {
			var ts [][]spec.FileCall
			for t := 0; t < 3; t++ {
				var p []spec.FileCall
				for i := 0; i < 2; i++ {
					p = append(p, alpha(3*t + i)[number(t, i)])
				}
				ts = append(ts, p)
			}
			ps = large(false, ps, func() rt.Prog { return fileProg(st, si >= 2, false, ts, max) })
		})
	}
	return append(ps, fileCadences(thorough)...)
}

// fileCadence runs every short history of calls and waits and looks at when cleanings are made.
func fileCadence(cycle time.Duration, length int) rt.Prog {
	name := fmt.Sprintf("file cache, cleaning every %v", cycle)
	every := cycle
	if cycle <= 0 {
		every = time.Minute
	}
	waits := []time.Duration{every / 4, every - 1, every, every + time.Second - 1}
	if every > 1<<62 {
		waits = []time.Duration{time.Nanosecond, time.Hour, 100 * 365 * 24 * time.Hour, time.Second}
	}
	calls := []spec.FileCall{fget(0), fset(long, 0, 1), fget(0, 1), fset(past, 0, 1, 1, 2), fdel(0)}
	for _, d := range waits {
		calls = append(calls, fwait(int64(d)))
	}
	return rt.Prog{Name: name, Machine: func(c *core.Ctx, exec func(func())) {
		sp := core.Words{Base: len(calls), Lo: 1, Hi: length}
		text := func(i int) string {
			var l []spec.FileCall
			for _, k := range sp.At(i) {
				l = append(l, calls[k])
			}
			return fmt.Sprint(l)
		}
		c.Enum(name, sp.N(), text, func(w *core.W, i int) bool {
			made := 0
			exec(func() {
				x := memfs.Reset()
				x.Watch = true
				st := &cachex.FileStore[int, int]{Dir: "/tmp/s", GCCycle: cycle}
				first := true
				var now, last int64
				for _, k := range sp.At(i) {
					o := calls[k]
					before := len(x.Span)
					fcDo(st, o)
					rt.Settle()
					if n := rt.Live(); n > 0 {
						w.Fail("%d background goroutines do not end", n)
					}
					n := len(x.Span) - before
					if o.Op == spec.FileWait {
						now += o.TTL
						if n > 0 {
							w.Fail("a cleaning without a call")
						}
						continue
					}
					ago := now - last
					if first {
						first = false
					} else if n > 1 || n == 1 && ago < int64(every) {
						w.Fail("%d cleanings begin %v after the one before, or the first call", n, time.Duration(ago))
					} else if n == 0 {
						if ago-int64(time.Second) >= int64(every) {
							w.Fail("no cleaning is made %v after the one before, or the first call", time.Duration(ago))
						}
						continue
					}
					last = now
					made += n
				}
			})
			return made > 0
		})
	}}
}

func fileCadences(thorough bool) []rt.Prog {
	var ps []rt.Prog
	n := 4
	if thorough {
		n = 6
	}
	for _, d := range []time.Duration{0, -time.Second, 1, 300 * time.Millisecond, time.Second - 1, time.Second, 3 * time.Second / 2, 2 * time.Second, time.Hour, 1<<63 - 1} {
		ps = append(ps, fileCadence(d, n))
	}
	return ps
}

func fmax(a, b int) int {
	if a > b {
		return a
	}
	return b
}
