package progs

import (
	"context"
	"errors"
	"fmt"
	"strings"
	"time"

	"github.com/miniLCT/gosb/gogenerics/gconcurrent/mr"

	"verif/rt"
	"verif/spec"
)

// mrCase is a call of the package with callbacks that follow scripts.
//
// Mapper scripts, one letter per step: w write, c cancel with an error, n cancel with nil,
// p panic. Reducer scripts: r receive one value, R receive all, w write, c, n, p.
type mrCase struct {
	kind      string   // MapReduce, MapReduceChan, MapReduceVoid, ForEach
	workers   int      // 0: not configured
	genPanic  int      // the generator panics instead of sending this item; -1: never
	mappers   []string // also e, of a function of Finish: return an error
	reducer   string
	ctx       string // "", ended, cancel, deadline
	panicKind string // the kind of the values of panics: one of knownPanics, or mrPanic
	errs      string // the kind of the errors: one of knownErrs, or their own
}

func (c mrCase) String() string {
	s := fmt.Sprintf("%s mappers %q", c.kind, c.mappers)
	if n := len(c.mappers); n > 4 {
		s = fmt.Sprintf("%s of %d, mappers", c.kind, n)
		for i, m := range c.mappers {
			if i > 0 && m == c.mappers[i-1] {
				continue
			}
			s += fmt.Sprintf(" %q from %d", m, i)
		}
	}
	if c.workers != 0 {
		s += fmt.Sprintf(" workers %d", c.workers)
	}
	if strings.HasPrefix(c.kind, "Map") {
		s += fmt.Sprintf(" reducer %q", c.reducer)
	}
	if c.genPanic >= 0 {
		s += fmt.Sprintf(" generator panics at %d", c.genPanic)
	}
	if c.ctx != "" {
		s += " context " + c.ctx
	}
	if c.panicKind != "" {
		s += " panics: " + c.panicKind
	}
	if c.errs != "" {
		s += " errors: " + c.errs
	}
	return s
}

func (c mrCase) cancels() bool {
	for _, m := range append([]string{c.reducer}, c.mappers...) {
		for _, a := range m {
			if a == 'c' || a == 'n' {
				return true
			}
		}
	}
	return c.ctx != ""
}

func (c mrCase) panics() bool {
	for _, m := range append([]string{c.reducer}, c.mappers...) {
		for _, a := range m {
			if a == 'p' {
				return true
			}
		}
	}
	return c.genPanic >= 0
}

type mrRun struct {
	c      mrCase
	s      spec.MR
	record bool // the history is needed
	calls  []rt.Var
	ends   []rt.Var
	sent   rt.Var
	pipe   []int
}

func (r *mrRun) begin(op int, name string, args ...any) *rt.OpRec {
	if !r.record {
		return nil
	}
	return rt.Begin(op, name, args...)
}

func (r *mrRun) end(rec *rt.OpRec) {
	if rec != nil {
		rec.End(nil)
	}
}

func (r *mrRun) cancel(cancel func(error), err error) {
	rec := r.begin(spec.MRCancel, fmt.Sprintf("cancel(%v)", err), err)
	cancel(err)
	r.end(rec)
}

func (r *mrRun) mapper(item int, write func(int), cancel func(error)) {
	r.calls[item].Add(1)
	for j, a := range r.c.mappers[item] {
		switch a {
		case 'w':
			write(item*10 + j)
		case 'c':
			r.cancel(cancel, r.c.err(item))
		case 'n':
			r.cancel(cancel, nil)
		case 'p':
			r.c.panic("mapper", item)
		}
	}
	r.ends[item].Add(1)
}

// An itemErr is the error of an item.
type itemErr int

func (e itemErr) Error() string { return fmt.Sprintf("error %d", int(e)) }

var mrErr = errors.New("reducer's error")

// listErr is an error that cannot be compared, and pointerErr may be a nil pointer.
type listErr []string

func (e listErr) Error() string { return fmt.Sprint("errors ", []string(e)) }

type pointerErr struct{}

func (*pointerErr) Error() string { return "pointer" }

// knownErrs are errors that a callback may report and that may mean something to the call, too.
var knownErrs = []string{"no output", "wrapped no output", "cancelled with nil", "deadline", "canceled", "list", "nil pointer"}

// knownPanics are other kinds of values that a callback may panic with.
var knownPanics = []string{"string", "error", "list", "index", "nil"}

// A mrPanic is the value that a callback panics with.
type mrPanic struct {
	who  string
	item int
}

func (c mrCase) panic(who string, item int) {
	switch c.panicKind {
	case "string":
		panic(fmt.Sprint(who, item))
	case "error":
		panic(listErr{who, fmt.Sprint(item)})
	case "list":
		panic([]any{who, item})
	case "index":
		var a []string
		_ = a[item+len(who)]
	case "nil":
		panic(nil)
	}
	panic(mrPanic{who, item})
}

func (c mrCase) panicValue(who string, item int) (v any) {
	defer func() { v = recover() }()
	c.panic(who, item)
	return nil
}

// err is the error of an item, of the reducer if it is -1.
func (c mrCase) err(item int) error {
	switch c.errs {
	case "no output":
		return mr.ErrReduceNoOutput
	case "wrapped no output":
		return fmt.Errorf("item %d: %w", item, mr.ErrReduceNoOutput)
	case "cancelled with nil":
		return mr.ErrCancelWithNil
	case "deadline":
		return context.DeadlineExceeded
	case "canceled":
		return context.Canceled
	case "list":
		return listErr{fmt.Sprint(item)}
	case "nil pointer":
		return (*pointerErr)(nil)
	}
	if item < 0 {
		return mrErr
	}
	return itemErr(item)
}

func (r *mrRun) reducer(pipe <-chan int, write func(string), cancel func(error)) {
	for _, a := range r.c.reducer {
		switch a {
		case 'r':
			v, ok := <-pipe
			if ok {
				r.s.Pipe = append(r.s.Pipe, v)
			} else {
				r.s.PipeEnd = true
			}
		case 'R':
			for v := range pipe {
				r.s.Pipe = append(r.s.Pipe, v)
			}
			r.s.PipeEnd = true
		case 'w':
			v := spec.MRValue(r.s.Pipe) + fmt.Sprint(" #", len(r.s.Written))
			r.s.Written = append(r.s.Written, v)
			rec := r.begin(spec.MRWrite, "write")
			write(v)
			r.end(rec)
		case 'c':
			r.cancel(cancel, r.c.err(-1))
		case 'n':
			r.cancel(cancel, nil)
		case 'p':
			r.c.panic("reducer", -1)
		}
	}
	r.end(r.begin(spec.MRReduce, "the reducer ends"))
}

func (r *mrRun) generate(source chan<- int) {
	for i := range r.c.mappers {
		if i == r.c.genPanic {
			r.c.panic("generator", -1)
		}
		source <- i
		r.sent.Add(1)
	}
	if r.c.genPanic == len(r.c.mappers) {
		r.c.panic("generator", -1)
	}
}

// run makes the call and waits until nothing goes on any more.
func (r *mrRun) run() {
	c := r.c
	n := len(c.mappers)
	r.calls, r.ends = make([]rt.Var, n), make([]rt.Var, n)
	r.s.NilErr, r.s.NoOutput = mr.ErrCancelWithNil, mr.ErrReduceNoOutput
	for i, m := range c.mappers {
		for j, a := range m {
			switch a {
			case 'w':
				r.s.Values = append(r.s.Values, i*10+j)
			case 'p':
				r.s.Panics = append(r.s.Panics, c.panicValue("mapper", i))
			}
		}
	}
	if c.genPanic >= 0 {
		r.s.Panics = append(r.s.Panics, c.panicValue("generator", -1))
	}
	r.s.Panics = append(r.s.Panics, c.panicValue("reducer", -1)) // only if its script says so
	var opts []mr.Option
	if c.workers != 0 {
		opts = append(opts, mr.WithWorkers(c.workers))
	}
	switch c.ctx {
	case "ended":
		ctx, cancel := context.WithCancel(context.Background())
		rec := r.begin(spec.MREnd, "the context ends")
		cancel()
		r.end(rec)
		opts = append(opts, mr.WithContext(ctx))
	case "cancel":
		ctx, cancel := context.WithCancel(context.Background())
		go func() {
			rec := r.begin(spec.MREnd, "the context ends")
			cancel()
			r.end(rec)
		}()
		opts = append(opts, mr.WithContext(ctx))
	case "deadline":
		r.begin(spec.MREnd, "the context ends")
		ctx, cancel := context.WithTimeout(context.Background(), time.Second)
		defer cancel()
		opts = append(opts, mr.WithContext(ctx))
	}
	rec := r.begin(spec.MRCall, c.kind)
	func() {
		defer func() { r.s.Panic = recover() }()
		r.call(opts)
	}()
	r.end(rec)
	for i := range r.calls {
		r.s.Begun = append(r.s.Begun, r.calls[i].Get())
		r.s.Ends = append(r.s.Ends, r.ends[i].Get())
	}
	rt.Settle()
	for i := range r.calls {
		r.s.Calls = append(r.s.Calls, r.calls[i].Get())
	}
	r.s.Sent = r.sent.Get()
	rt.Outcome("%q %v %v; pipe %v calls %v sent %d", r.s.Val, r.s.Err, r.s.Panic, r.s.Pipe, r.s.Calls, r.s.Sent)
}

func (r *mrRun) call(opts []mr.Option) {
	mapper := func(item int, w mr.Writer[int], cancel func(error)) { r.mapper(item, w.Write, cancel) }
	reducer := func(pipe <-chan int, w mr.Writer[string], cancel func(error)) { r.reducer(pipe, w.Write, cancel) }
	switch r.c.kind {
	case "MapReduce":
		r.s.Val, r.s.Err = mr.MapReduce(r.generate, mapper, reducer, opts...)
	case "MapReduceChan":
		source := make(chan int)
		go func() {
			r.generate(source)
			close(source)
		}()
		r.s.Val, r.s.Err = mr.MapReduceChan(source, mapper, reducer, opts...)
	case "MapReduceVoid":
		r.s.Void = true
		r.s.Err = mr.MapReduceVoid(r.generate, mapper, func(pipe <-chan int, cancel func(error)) { r.reducer(pipe, nil, cancel) }, opts...)
	case "ForEach":
		r.s.Void = true
		mr.ForEach(r.generate, func(item int) { r.mapper(item, nil, nil) }, opts...)
	case "FinishVoid":
		r.s.Void = true
		var fs []func()
		for i := range r.c.mappers {
			fs = append(fs, func() { r.mapper(i, nil, nil) })
		}
		mr.FinishVoid(fs...)
	case "Finish":
		r.s.Void = true
		var fs []func() error
		for i, m := range r.c.mappers {
			e := error(nil)
			if strings.Contains(m, "e") {
				e = r.c.err(i)
			}
			r.s.Errs = append(r.s.Errs, e)
			fs = append(fs, func() error {
				r.mapper(i, nil, nil)
				return e
			})
		}
		r.s.Err = mr.Finish(fs...)
	}
}

// mrLimit is the number of states from which on a program is explored with bounded preemptions.
func mrLimit(thorough bool) int64 {
	if thorough {
		return 300_000
	}
	return 30_000
}

func mrProg(thorough bool, c mrCase, record, leaks bool, key string, oracle func(s *spec.MR) error) rt.Prog {
	return rt.Prog{Name: c.String(), MaxStates: mrLimit(thorough), LeakOK: !leaks, Run: func() {
		r := &mrRun{c: c, record: record}
		r.run()
		rt.Check(key, func() error { return oracle(&r.s) })
	}}
}

// large makes programs of many items: under three deterministic schedulers and everything that deviates a little from them.
func large(more bool, ps []rt.Prog, mk func() rt.Prog) []rt.Prog {
	for base := 1; base <= 3; base++ {
		p := mk()
		p.Base, p.Preempt, p.MaxStates, p.MaxSteps = base, 2, 0, 100_000
		if more {
			p.Preempt++
		}
		p.Name = fmt.Sprintf("%s, scheduler %d", p.Name, base)
		ps = append(ps, p)
	}
	return ps
}

// veryLarge makes programs of hundreds of items, under the three deterministic schedulers only.
func veryLarge(ps []rt.Prog, mk func() rt.Prog) []rt.Prog {
	for base := 1; base <= 3; base++ {
		p := mk()
		p.Base, p.Preempt, p.MaxStates, p.MaxSteps = base, 1, 0, 1_000_000
		p.Name = fmt.Sprintf("%s, scheduler %d", p.Name, base)
		ps = append(ps, p)
	}
	return ps
}

// hundreds are the sizes of very large calls.
var hundreds = []int{65, 128, 257, 600, 1025}

// veryLargeCalls makes very large calls of the kinds, which are plain calls with one of the changes.
// Unless all are wanted, the largest have sixteen workers, the others not, and only those of the first kind one or many.
func veryLargeCalls(all bool, mk func(c mrCase) rt.Prog, kinds []string, changes ...func(c *mrCase, n int)) []rt.Prog {
	var ps []rt.Prog
	for _, kind := range kinds {
		for _, n := range hundreds {
			for _, w := range []int{1, 3, 0, 64} {
				if !all && (n == 128 || n == 600 || (n > 257) != (w == 0) || kind != kinds[0] && w != 3) {
					continue
				}
				for _, change := range changes {
					c := mrCase{kind: kind, workers: w, mappers: many("w", n), reducer: "Rw", genPanic: -1}
					change(&c, n)
					if kind == "MapReduceVoid" || kind == "ForEach" {
						c.reducer = strings.Trim(c.reducer, "w")
					}
					switch kind {
					case "MapReduceChan":
						if c.genPanic >= 0 {
							continue
						}
					case "ForEach":
						for i := range c.mappers {
							c.mappers[i] = strings.Trim(c.mappers[i], "w")
						}
						c.reducer = ""
					}
					ps = veryLarge(ps, func() rt.Prog { return mk(c) })
				}
			}
		}
	}
	return ps
}

// many repeats a script.
func many(script string, n int) []string {
	s := make([]string, n)
	for i := range s {
		s[i] = script
	}
	return s
}

// with puts another script at one place.
func with(s []string, at int, script string) []string {
	s = append([]string(nil), s...)
	s[at] = script
	return s
}

// tuples are all sequences of n of the given strings; if sym, up to their order.
func tuples(of []string, n int, sym bool) [][]string {
	if n == 0 {
		return [][]string{{}}
	}
	var out [][]string
	for i, x := range of {
		rest := of
		if sym {
			rest = of[i:]
		}
		for _, t := range tuples(rest, n-1, sym) {
			out = append(out, append([]string{x}, t...))
		}
	}
	return out
}

// mrR01 are calls that nothing ends early.
func mrR01(thorough bool) []rt.Prog {
	var ps []rt.Prog
	add := func(c mrCase) {
		c.genPanic = -1
		ps = append(ps, mrProg(thorough, c, false, false, "items or values", func(s *spec.MR) error { return s.R01() }))
	}
	n := 2
	if thorough {
		n = 3
	}
	for _, kind := range []string{"MapReduce", "MapReduceChan", "MapReduceVoid"} {
		reducers := []string{"Rw", "rw", "wR", "w", "R"}
		if kind == "MapReduceVoid" {
			reducers = []string{"R", "r", ""}
		}
		for _, red := range reducers {
			for i := 0; i <= n; i++ {
				for w := 1; w <= 2; w++ {
					scripts := []string{"", "w", "ww"}
					if i == 3 {
						scripts = []string{"w"}
					}
					for _, m := range tuples(scripts, i, false) {
						add(mrCase{kind: kind, workers: w, mappers: m, reducer: red})
					}
				}
			}
			add(mrCase{kind: kind, mappers: []string{"w", "w"}, reducer: red})
			add(mrCase{kind: kind, workers: 1, mappers: []string{"www", "w"}, reducer: red})
			if !thorough {
				add(mrCase{kind: kind, workers: 2, mappers: []string{"w", "w", "w"}, reducer: red})
			}
		}
		red := "Rw"
		if kind == "MapReduceVoid" {
			red = "R"
		}
		for _, n := range []int{5, 9, 17, 40} {
			for _, w := range []int{1, 3, 0, 40} {
				if w == 40 && (n < 40 || kind != "MapReduce") || n == 40 && w == 0 && !thorough {
					continue
				}
				for _, m := range []string{"w", "www"} {
					if n > 9 && m != "w" {
						continue
					}
					c := mrCase{kind: kind, workers: w, mappers: many(m, n), reducer: red, genPanic: -1}
					ps = large(thorough && n < 17, ps, func() rt.Prog {
						return mrProg(thorough, c, false, false, "items or values", func(s *spec.MR) error { return s.R01() })
					})
				}
			}
		}
	}
	return append(ps, veryLargeCalls(true, func(c mrCase) rt.Prog {
		return mrProg(thorough, c, false, false, "items or values", func(s *spec.MR) error { return s.R01() })
	}, []string{"MapReduce", "MapReduceChan", "MapReduceVoid"},
		func(c *mrCase, n int) {},
		func(c *mrCase, n int) { c.mappers = with(many("", n), n/2, "w") },
		func(c *mrCase, n int) { c.reducer = "wR" })...)
}

// mrR02 are calls that are cancelled, whose context ends, or that have no output.
func mrR02(thorough bool) []rt.Prog {
	var ps []rt.Prog
	add := func(c mrCase) {
		c.genPanic = -1
		if thorough || c.ctx == "" || len(c.mappers) < 2 {
			ps = append(ps, mrProg(thorough, c, true, false, "error", func(s *spec.MR) error { return s.R02() }))
		}
	}
	for _, kind := range []string{"MapReduce", "MapReduceChan", "MapReduceVoid"} {
		for n := 0; n <= 2; n++ {
			for w := 1; w <= min(2, max(1, n)); w++ {
				scripts := []string{"w", "c", "n", "wc", "cw", "cn"}
				if n == 2 && !thorough {
					scripts = []string{"w", "c", "nw"}
				}
				for _, m := range tuples(scripts, n, false) {
					for _, red := range []string{"Rw", "R", "rw", "cw", "Rc", "rnw", "w", ""} {
						if kind == "MapReduceVoid" && strings.Contains(red, "w") {
							continue
						}
						if kind != "MapReduce" && (n == 2 || len(m) > 0 && len(m[0]) > 1) && !thorough {
							continue
						}
						c := mrCase{kind: kind, workers: w, mappers: m, reducer: red}
						if c.cancels() || !strings.Contains(red, "w") {
							add(c)
						}
						if n == 2 && !strings.Contains(strings.Join(m, ""), "w") {
							continue
						}
						for _, ctx := range []string{"ended", "cancel", "deadline"} {
							if kind == "MapReduce" || thorough || !c.cancels() {
								d := c
								d.ctx = ctx
								add(d)
							}
						}
					}
				}
			}
		}
	}
	for _, errs := range knownErrs {
		for _, kind := range []string{"MapReduce", "MapReduceChan", "MapReduceVoid"} {
			for _, c := range []mrCase{
				{mappers: []string{"c"}, reducer: "Rw"}, {mappers: []string{"c"}, reducer: "R"}, {mappers: []string{"w", "wc"}, reducer: "Rw"},
				{mappers: []string{"w"}, reducer: "Rc"}, {reducer: "c"}, {mappers: []string{"c", "n"}, reducer: "R"}, {mappers: []string{"w"}, reducer: "rc", ctx: "cancel"},
			} {
				if c.kind, c.errs, c.workers = kind, errs, 1; kind == "MapReduceVoid" {
					c.reducer = strings.ReplaceAll(c.reducer, "w", "")
				}
				add(c)
			}
		}
	}
	for _, kind := range []string{"MapReduce", "MapReduceChan", "MapReduceVoid"} {
		red := "Rw"
		if kind == "MapReduceVoid" {
			red = "R"
		}
		for _, n := range []int{9, 20} {
			for _, w := range []int{1, 3, 0} {
				if n == 20 && w != 3 && kind != "MapReduce" && !thorough {
					continue
				}
				for _, c := range []mrCase{
					{mappers: with(many("w", n), n/2, "wc"), reducer: red},
					{mappers: with(many("w", n), 1, "n"), reducer: red},
					{mappers: with(many("w", n), n-1, "c"), reducer: red},
					{mappers: many("c", 3), reducer: red},
					{mappers: many("w", n), reducer: "rrc"},
					{mappers: many("w", n), reducer: "rn"},
					{mappers: many("w", n), reducer: red, ctx: "cancel"},
					{mappers: many("w", n), reducer: red, ctx: "deadline"},
					{mappers: many("w", n), reducer: red, ctx: "ended"},
				} {
					c.kind, c.workers, c.genPanic = kind, w, -1
					ps = large(thorough && n < 20, ps, func() rt.Prog {
						return mrProg(thorough, c, true, false, "error", func(s *spec.MR) error { return s.R02() })
					})
				}
			}
		}
	}
	return append(ps, veryLargeCalls(thorough, func(c mrCase) rt.Prog {
		return mrProg(thorough, c, true, false, "error", func(s *spec.MR) error { return s.R02() })
	}, []string{"MapReduce", "MapReduceChan", "MapReduceVoid"},
		func(c *mrCase, n int) { c.mappers[n/2] = "wc" },
		func(c *mrCase, n int) { c.mappers[n-1] = "cw" },
		func(c *mrCase, n int) { c.mappers[0] = "nw" },
		func(c *mrCase, n int) { c.reducer = strings.Repeat("r", n/2) + "c" },
		func(c *mrCase, n int) { c.reducer = "Rn" },
		func(c *mrCase, n int) { c.ctx = "cancel" },
		func(c *mrCase, n int) { c.ctx = "deadline" },
		func(c *mrCase, n int) { c.ctx = "ended" })...)
}

// mrR03 are calls with callbacks that panic.
func mrR03(thorough bool) []rt.Prog {
	var ps []rt.Prog
	add := func(c mrCase) {
		if !c.panics() && c.reducer != "ww" && c.reducer != "Rww" || !thorough && c.ctx != "" && len(c.mappers) > 1 {
			return
		}
		ps = append(ps, mrProg(thorough, c, false, false, "panic", func(s *spec.MR) error { return s.R03(c.cancels()) }))
	}
	for _, kind := range []string{"MapReduce", "MapReduceChan", "MapReduceVoid", "ForEach"} {
		reducers := []string{"Rw", "w", "p", "Rp", "rp", "wp", "Rwp", "ww", "Rww"}
		switch kind {
		case "MapReduceVoid":
			reducers = []string{"R", "", "p", "Rp", "rp"}
		case "ForEach":
			reducers = []string{""}
		}
		for n := 0; n <= 2; n++ {
			scripts := []string{"w", "p", "wp", "cp"}
			if n == 2 {
				scripts = []string{"w", "p"}
			}
			if kind == "ForEach" {
				scripts = []string{"", "p"}
			}
			for w := 1; w <= min(2, max(1, n)); w++ {
				for _, m := range tuples(scripts, n, false) {
					for _, red := range reducers {
						for g := -1; g <= n; g++ {
							if kind == "MapReduceChan" && g >= 0 {
								continue
							}
							if n == 2 && !thorough && (g == 0 || g == 1 && red != "Rw" && red != "w" || len(red) == 3) {
								continue
							}
							if kind != "MapReduce" && kind != "ForEach" && n == 2 && !thorough {
								continue
							}
							c := mrCase{kind: kind, workers: w, mappers: m, reducer: red, genPanic: g}
							add(c)
							if kind == "MapReduce" && (n < 2 || thorough) && len(red) < 3 {
								for _, ctx := range []string{"ended", "cancel", "deadline"} {
									d := c
									d.ctx = ctx
									add(d)
								}
							}
						}
					}
				}
			}
		}
	}
	for _, k := range knownPanics {
		for _, kind := range []string{"MapReduce", "MapReduceChan", "MapReduceVoid", "ForEach", "Finish", "FinishVoid"} {
			for _, c := range []mrCase{
				{mappers: []string{"p"}, reducer: "R", genPanic: -1}, {mappers: []string{"", "p"}, reducer: "R", genPanic: -1},
				{reducer: "p", genPanic: -1}, {mappers: []string{"w"}, reducer: "rp", genPanic: -1}, {mappers: []string{"w"}, reducer: "wp", genPanic: -1},
				{reducer: "R", genPanic: 0}, {mappers: []string{"w"}, reducer: "R", genPanic: 1},
			} {
				if c.kind, c.panicKind, c.workers = kind, k, 1; kind == "MapReduceChan" && c.genPanic >= 0 || kind == "MapReduceVoid" && strings.Contains(c.reducer, "w") {
					continue
				}
				if !strings.HasPrefix(kind, "MapReduce") {
					if c.reducer != "R" || c.genPanic >= 0 && kind != "ForEach" {
						continue
					}
					c.reducer = ""
					for i := range c.mappers {
						c.mappers[i] = strings.Trim(c.mappers[i], "w")
					}
				}
				add(c)
			}
		}
	}
	for _, kind := range []string{"Finish", "FinishVoid"} {
		for _, m := range [][]string{{"p"}, {"", "p"}, {"p", ""}, {"p", "p"}} {
			add(mrCase{kind: kind, mappers: m, genPanic: -1})
		}
	}
	for _, kind := range []string{"MapReduce", "MapReduceChan", "MapReduceVoid", "ForEach"} {
		red := "Rw"
		if kind == "MapReduceVoid" {
			red = "R"
		}
		for _, n := range []int{9, 20} {
			for _, w := range []int{1, 3, 0} {
				for _, c := range []mrCase{
					{mappers: with(many("w", n), n/2, "wp"), reducer: red, genPanic: -1},
					{mappers: with(many("w", n), 0, "p"), reducer: red, genPanic: -1},
					{mappers: with(many("w", n), n-1, "p"), reducer: red, genPanic: -1},
					{mappers: many("w", n), reducer: "rrp", genPanic: -1},
					{mappers: many("w", n), reducer: red, genPanic: n / 2},
				} {
					c.kind, c.workers = kind, w
					if kind == "ForEach" {
						for i := range c.mappers {
							c.mappers[i] = strings.Trim(c.mappers[i], "w")
						}
						c.reducer = ""
					}
					if !c.panics() || kind == "MapReduceChan" && c.genPanic >= 0 {
						continue
					}
					ps = large(thorough && n < 20, ps, func() rt.Prog {
						return mrProg(thorough, c, false, false, "panic", func(s *spec.MR) error { return s.R03(c.cancels()) })
					})
				}
			}
		}
	}
	return append(ps, veryLargeCalls(thorough, func(c mrCase) rt.Prog {
		return mrProg(thorough, c, false, false, "panic", func(s *spec.MR) error { return s.R03(c.cancels()) })
	}, []string{"MapReduce", "MapReduceChan", "MapReduceVoid", "ForEach"},
		func(c *mrCase, n int) { c.mappers[n/2] = "wp" },
		func(c *mrCase, n int) { c.mappers[n-1] = "p" },
		func(c *mrCase, n int) { c.mappers[0] = "p" },
		func(c *mrCase, n int) { c.genPanic = n / 2 })...)
}

// mrR04 are mixtures of all that can end a call.
func mrR04(thorough bool) []rt.Prog {
	var ps []rt.Prog
	add := func(c mrCase) {
		ps = append(ps, mrProg(thorough, c, false, true, "return", func(s *spec.MR) error { return nil }))
	}
	for _, kind := range []string{"MapReduce", "MapReduceChan", "MapReduceVoid", "ForEach", "Finish", "FinishVoid"} {
		reducers := []string{"", "r", "Rw", "w", "rw", "c", "rc", "p", "wp", "ww"}
		scripts := []string{"", "w", "ww", "cw", "p"}
		gens := []int{-1, 0, 1}
		ctxs := []string{"", "ended", "cancel", "deadline"}
		switch kind {
		case "MapReduceVoid":
			reducers = []string{"", "r", "R", "c", "p"}
		case "MapReduceChan":
			gens = gens[:1]
		case "ForEach":
			reducers, scripts = []string{""}, []string{"", "p"}
		case "Finish":
			reducers, scripts, gens, ctxs = []string{""}, []string{"", "e", "p"}, gens[:1], ctxs[:1]
		case "FinishVoid":
			reducers, scripts, gens, ctxs = []string{""}, []string{"", "p"}, gens[:1], ctxs[:1]
		}
		small := kind == "Finish" || kind == "FinishVoid" || kind == "ForEach"
		for n := 0; n <= 3; n++ {
			if n == 3 && !small && !thorough {
				break
			}
			if n >= 2 && !small {
				scripts = []string{"w", "cw", "p"}
			}
			sym := n == 3
			if n == 3 && !small {
				scripts, reducers = []string{"w", "c"}, []string{"", "rw", "c", "p"}
			}
			for w := 1; w <= min(2, max(1, n)); w++ {
				if w == 2 && (kind == "Finish" || kind == "FinishVoid") {
					continue
				}
				for _, m := range tuples(scripts, n, sym) {
					for _, red := range reducers {
						for _, g := range gens {
							for _, ctx := range ctxs {
								c := mrCase{kind: kind, workers: w, mappers: m, reducer: red, genPanic: g, ctx: ctx}
								if g > n {
									continue
								}
								if !thorough && !small {
									// all pairs of two things that end a call, but not all of them at once
									k := 0
									for _, b := range []bool{g >= 0, ctx != "", strings.ContainsAny(red, "cp"), strings.ContainsAny(strings.Join(m, ""), "cp")} {
										if b {
											k++
										}
									}
									if k > 2 || n == 2 && (k > 1 || kind != "MapReduce" && k > 0) || n == 2 && ctx != "" && len(red) > 1 {
										continue
									}
								}
								add(c)
							}
						}
					}
				}
			}
		}
	}
	for _, kind := range []string{"MapReduce", "MapReduceChan", "MapReduceVoid", "ForEach"} {
		for _, n := range []int{9, 20} {
			for _, w := range []int{1, 3, 0} {
				if n == 20 && w != 3 && kind != "MapReduce" && !thorough {
					continue
				}
				for _, c := range []mrCase{
					{mappers: many("ww", n), reducer: "rw"},
					{mappers: many("ww", n), reducer: ""},
					{mappers: with(many("w", n), n/2, "cw"), reducer: "rrw"},
					{mappers: with(many("w", n), n/2, "wp"), reducer: "rrw"},
					{mappers: many("w", n), reducer: "rc"},
					{mappers: many("w", n), reducer: "rrp"},
					{mappers: many("w", n), reducer: "rw", ctx: "cancel"},
					{mappers: with(with(many("w", n), n/2, "wp"), n/3, "cw"), reducer: "rw"},
				} {
					c.kind, c.workers, c.genPanic = kind, w, -1
					if kind == "MapReduceVoid" {
						c.reducer = strings.Trim(c.reducer, "w")
					}
					if kind == "ForEach" {
						if c.cancels() && c.ctx == "" || len(c.reducer) > 2 && !c.panics() {
							continue
						}
						c.mappers = append([]string(nil), c.mappers...)
						for i := range c.mappers {
							c.mappers[i] = strings.Trim(c.mappers[i], "w")
						}
						c.reducer = ""
					}
					ps = large(thorough && n < 20, ps, func() rt.Prog {
						return mrProg(thorough, c, false, true, "return", func(s *spec.MR) error { return nil })
					})
				}
			}
		}
	}
	return append(ps, veryLargeCalls(thorough, func(c mrCase) rt.Prog {
		return mrProg(thorough, c, false, true, "return", func(s *spec.MR) error { return nil })
	}, []string{"MapReduce", "MapReduceChan", "MapReduceVoid", "ForEach"},
		func(c *mrCase, n int) {},
		func(c *mrCase, n int) { c.reducer = "rw" },
		func(c *mrCase, n int) { c.mappers[n/2] = "cw" },
		func(c *mrCase, n int) { c.mappers[n/2] = "wp" },
		func(c *mrCase, n int) { c.reducer = strings.Repeat("r", n/2) + "c" },
		func(c *mrCase, n int) { c.reducer = strings.Repeat("r", n/2) + "p" },
		func(c *mrCase, n int) { c.mappers[n/2], c.mappers[n/3] = "wp", "cw" },
		func(c *mrCase, n int) { c.genPanic = n / 2 },
		func(c *mrCase, n int) { c.ctx = "cancel" },
		func(c *mrCase, n int) { c.ctx, c.reducer = "deadline", "w" })...)
}

// mrR05 are calls whose mappers all wait until nothing else goes on.
func mrR05(thorough bool) []rt.Prog {
	var ps []rt.Prog
	for _, kind := range []string{"MapReduce", "MapReduceChan", "MapReduceVoid", "ForEach", "Finish", "FinishVoid"} {
		finish := strings.HasPrefix(kind, "Finish")
		for _, w := range []int{-1, 0, 1, 2, 3, 16, 17, 99} { // 99: not configured
			for n := 1; n <= 18; n++ {
				want := max(1, w)
				if w == 99 {
					want = 16
				}
				if finish {
					want = n
				}
				if finish && (w != 99 || n > 4 && n != 17) || !finish && (n < want || n > want+1) {
					continue
				}
				p := atOnce(kind, w, n, want)
				p.MaxStates = mrLimit(thorough) / 4
				ps = append(ps, p)
			}
		}
		// many more of them
		for _, w := range []int{99, 1, 3, 33, 64, 65, 128, 257} {
			n, want := 2*w+1, w
			if w == 99 {
				n, want = 40, 16
			}
			if finish {
				n, want = w, w
			}
			ps = veryLarge(ps, func() rt.Prog { return atOnce(kind, w, n, want) })
		}
		// how many are running at any moment
		for _, w := range []int{-1, 0, 1, 2, 3} {
			n := max(1, w) + 1
			if finish || w == 3 && kind != "ForEach" && !thorough {
				continue
			}
			kind, w := kind, w
			ps = append(ps, rt.Prog{Name: fmt.Sprintf("%s of %d, workers %d, counting", kind, n, w), LeakOK: true, MaxStates: mrLimit(thorough), Run: func() {
				var in rt.Var
				mrHold(kind, w, n, func() {
					if k := in.Add(1); k > max(1, w) {
						rt.Fail("workers", "%d mappers run at once", k)
					}
					rt.Yield()
					in.Add(-1)
				})
			}})
		}
	}
	// functions that wait for one another
	for n := 2; n <= 3; n++ {
		for _, void := range []bool{false, true} {
			n, void := n, void
			ps = append(ps, rt.Prog{Name: fmt.Sprintf("Finish of %d functions that wait for one another, without error %v", n, void), LeakOK: true, MaxStates: mrLimit(thorough), Run: func() {
				met := make(chan struct{})
				var in rt.Var
				f := func() {
					if in.Add(1) == n {
						close(met)
					}
					<-met
				}
				if void {
					fs := make([]func(), n)
					for i := range fs {
						fs[i] = f
					}
					mr.FinishVoid(fs...)
					return
				}
				fs := make([]func() error, n)
				for i := range fs {
					fs[i] = func() error { f(); return nil }
				}
				if err := mr.Finish(fs...); err != nil {
					rt.Fail("workers", "Finish returned %v", err)
				}
			}})
		}
	}
	return ps
}

// atOnce is a call of n items whose mappers all wait until nothing else goes on; want of them run at once then.
func atOnce(kind string, w, n, want int) rt.Prog {
	return rt.Prog{Name: fmt.Sprintf("%s of %d, workers %d, all mappers at once", kind, n, w), LeakOK: true, Run: func() {
		release := make(chan struct{})
		var in rt.Var
		rt.Go(func() {
			for done := 0; done < n; {
				rt.Settle()
				if k := in.Get(); k-done != min(want, n-done) {
					rt.Fail("workers", "%d mappers run at once when all are waiting, %d of %d items are done", k-done, done, n)
				}
				done++
				release <- struct{}{}
			}
		})
		mrHold(kind, w, n, func() {
			in.Add(1)
			<-release
		})
	}}
}

// mrHold makes a call of n items with mappers that run f.
func mrHold(kind string, w, n int, f func()) {
	var opts []mr.Option
	if w != 99 {
		opts = append(opts, mr.WithWorkers(w))
	}
	generate := func(source chan<- int) {
		for i := 0; i < n; i++ {
			source <- i
		}
	}
	mapper := func(_ int, _ mr.Writer[int], _ func(error)) { f() }
	reducer := func(pipe <-chan int, w mr.Writer[string], _ func(error)) {
		for range pipe {
		}
		w.Write("")
	}
	switch kind {
	case "MapReduce":
		mr.MapReduce(generate, mapper, reducer, opts...)
	case "MapReduceChan":
		source := make(chan int)
		go func() {
			generate(source)
			close(source)
		}()
		mr.MapReduceChan(source, mapper, reducer, opts...)
	case "MapReduceVoid":
		mr.MapReduceVoid(generate, mapper, func(pipe <-chan int, _ func(error)) {
			for range pipe {
			}
		}, opts...)
	case "ForEach":
		mr.ForEach(generate, func(int) { f() }, opts...)
	case "FinishVoid":
		fs := make([]func(), n)
		for i := range fs {
			fs[i] = f
		}
		mr.FinishVoid(fs...)
	case "Finish":
		fs := make([]func() error, n)
		for i := range fs {
			fs[i] = func() error { f(); return nil }
		}
		mr.Finish(fs...)
	}
}

// mrR06 are calls of ForEach, Finish and FinishVoid.
func mrR06(thorough bool) []rt.Prog {
	var ps []rt.Prog
	add := func(c mrCase) {
		c.genPanic = -1
		fails := strings.Contains(strings.Join(c.mappers, ""), "e")
		ps = append(ps, mrProg(thorough, c, false, false, "functions", func(s *spec.MR) error { return s.R06(!fails) }))
	}
	for n := 0; n <= 3; n++ {
		for w := 0; w <= min(3, n); w++ {
			add(mrCase{kind: "ForEach", workers: w, mappers: make([]string, n)})
		}
		add(mrCase{kind: "FinishVoid", mappers: make([]string, n)})
		for _, m := range tuples([]string{"", "e"}, n, n == 3 && !thorough) {
			add(mrCase{kind: "Finish", mappers: m})
		}
	}
	for _, errs := range knownErrs {
		for _, m := range [][]string{{"e"}, {"", "e"}, {"e", ""}, {"e", "e"}, {"", "e", ""}} {
			add(mrCase{kind: "Finish", mappers: m, errs: errs})
		}
	}
	add(mrCase{kind: "ForEach", workers: 1, mappers: make([]string, 4)})
	for _, n := range []int{5, 9, 17, 20, 33} {
		for _, w := range []int{0, 1, 3} {
			c := mrCase{kind: "ForEach", workers: w, mappers: make([]string, n), genPanic: -1}
			ps = large(thorough && n < 17, ps, func() rt.Prog {
				return mrProg(thorough, c, false, false, "functions", func(s *spec.MR) error { return s.R06(true) })
			})
		}
		for _, c := range []mrCase{{kind: "FinishVoid", mappers: make([]string, n)}, {kind: "Finish", mappers: make([]string, n)},
			{kind: "Finish", mappers: with(make([]string, n), n-1, "e")}, {kind: "Finish", mappers: with(make([]string, n), 0, "e")}, {kind: "Finish", mappers: with(make([]string, n), n/2, "e")}} {
			c.genPanic = -1
			ps = large(thorough && n < 17, ps, func() rt.Prog {
				return mrProg(thorough, c, false, false, "functions", func(s *spec.MR) error { return s.R06(!strings.Contains(strings.Join(c.mappers, ""), "e")) })
			})
		}
	}
	functions := func(c mrCase) rt.Prog {
		return mrProg(thorough, c, false, false, "functions", func(s *spec.MR) error { return s.R06(!strings.Contains(strings.Join(c.mappers, ""), "e")) })
	}
	ps = append(ps, veryLargeCalls(true, functions, []string{"ForEach"}, func(c *mrCase, n int) {})...)
	for _, n := range hundreds {
		for _, c := range []mrCase{{kind: "FinishVoid", mappers: make([]string, n)}, {kind: "Finish", mappers: make([]string, n)}, {kind: "Finish", mappers: many("e", n)},
			{kind: "Finish", mappers: with(make([]string, n), n-1, "e")}, {kind: "Finish", mappers: with(make([]string, n), 0, "e")}, {kind: "Finish", mappers: with(make([]string, n), n/2, "e")}} {
			c.genPanic = -1
			ps = veryLarge(ps, func() rt.Prog { return functions(c) })
		}
	}
	return ps
}
