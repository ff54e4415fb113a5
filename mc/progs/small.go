package progs

import (
	"errors"
	"fmt"

	"github.com/miniLCT/gosb/gogenerics/gconstraints"
	"github.com/miniLCT/gosb/gogenerics/gcontainers/gpool"

	"verif/rt"
	"verif/spec"
)

// ---------------------------------------------------------------- the error holder

type listError []int

func (listError) Error() string { return "list" }

type ptrError struct{ n int }

func (*ptrError) Error() string { return "pointer" }

type valueError struct{ n int }

func (valueError) Error() string { return "value" }

var errSamples = []error{nil, errors.New("one"), errors.New("one"), valueError{1}, valueError{2}, listError{1}, (*ptrError)(nil), &ptrError{1}}

// errNumber tells which of the errors e is, or -1.
func errNumber(e error) int {
	if e == nil {
		return 0
	}
	if l, ok := e.(listError); ok {
		if len(l) == 1 && l[0] == 1 {
			return 5
		}
		return -1
	}
	for i, x := range errSamples {
		if i != 5 && x == e {
			return i
		}
	}
	return -1
}

func errDo(a *gconstraints.AtomicError, o int) {
	if o < 0 {
		rec := rt.Begin(spec.ErrLoad, "Load")
		e := errNumber(a.Load())
		if e < 0 {
			rt.Fail("another error", "Load returned an error that was never set")
		}
		rec.End(e)
		return
	}
	rec := rt.Begin(spec.ErrSet, fmt.Sprintf("Set(error %d)", o), o)
	a.Set(errSamples[o])
	rec.End(nil)
}

func errProg(start []int, threads [][]int) rt.Prog {
	return rt.Prog{Name: fmt.Sprintf("error holder %v then %v", start, threads), Run: func() {
		var a gconstraints.AtomicError
		for _, o := range start {
			errDo(&a, o)
		}
		var fs []func()
		for _, ops := range threads {
			ops := ops
			fs = append(fs, func() {
				for _, o := range ops {
					errDo(&a, o)
				}
			})
		}
		rt.Par(fs...)
		errDo(&a, -1)
		errDo(&a, -1)
		rt.Check("not a register", spec.CheckErr)
		rt.Outcome("%d", errNumber(a.Load()))
	}}
}

func errPrograms(thorough bool) []rt.Prog {
	var ps []rt.Prog
	n := len(errSamples)
	var one []int
	for o := -1; o < n; o++ {
		one = append(one, o)
	}
	for _, start := range [][]int{nil, {0}, {1}, {3}, {5, 6}} {
		for _, a := range one {
			for _, b := range one {
				ps = append(ps, errProg(start, [][]int{{a, b}}))
				if a <= b {
					ps = append(ps, errProg(start, [][]int{{a}, {b}}))
				}
				for _, c := range one {
					ps = append(ps, errProg(start, [][]int{{a, b}, {c}}))
					if a <= b && b <= c {
						ps = append(ps, errProg(start, [][]int{{a}, {b}, {c}}))
					}
					if a > 0 && (thorough || a <= 3) {
						ps = append(ps, errProg(start, [][]int{{a, -1}, {b, c}}))
						ps = append(ps, errProg(start, [][]int{{a, b}, {c}, {-1, -1}}))
					}
				}
			}
		}
	}
	// more goroutines and calls
	patterns(len(one), 1, 0, func(number func(t, i int) int) {
		var ts [][]int
		for t := 0; t < 4; t++ {
			var p []int
			for i := 0; i < 3; i++ {
				p = append(p, one[number(t, i)])
			}
			ts = append(ts, p)
		}
		ps = large(false, ps, func() rt.Prog { return errProg(nil, ts) })
	})
	return ps
}

// ---------------------------------------------------------------- pools

type poolObj struct {
	made int
	held bool
	used bool
}

// poolRun follows who holds what.
type poolRun struct {
	p    gpool.Pool[*poolObj]
	made rt.Var
	all  []*poolObj
}

// get takes an object and returns it.
func (r *poolRun) get() *poolObj {
	o := r.p.Get()
	rt.Check("pool", func() error {
		if o == nil {
			return errors.New("Get returned nil")
		}
		for _, q := range r.all {
			if q == o {
				if o.held {
					return fmt.Errorf("object %d is handed out while another holds it", o.made)
				}
				o.held = true
				return nil
			}
		}
		return errors.New("Get returned an object that was neither made nor put")
	})
	return o
}

func (r *poolRun) put(o *poolObj) {
	rt.Check("pool", func() error { o.held = false; return nil })
	r.p.Put(o)
}

// poolProg runs scripts: g takes an object, p gives back the last one taken, n gives a new one.
func poolProg(threads []string) rt.Prog {
	return rt.Prog{Name: fmt.Sprintf("pool %q", threads), Run: func() {
		r := &poolRun{}
		r.p = gpool.New(func() *poolObj {
			o := &poolObj{made: r.made.Add(1)}
			rt.Check("pool", func() error { r.all = append(r.all, o); return nil })
			return o
		})
		outs := make([]string, len(threads))
		var fs []func()
		for i, script := range threads {
			i, script := i, script
			fs = append(fs, func() {
				var held []*poolObj
				for _, a := range script {
					switch a {
					case 'g':
						o := r.get()
						held = append(held, o)
						outs[i] += fmt.Sprint(o.made, " ")
					case 'p':
						if len(held) > 0 {
							r.put(held[len(held)-1])
							held = held[:len(held)-1]
						}
					case 'n':
						o := &poolObj{made: -r.made.Add(1)}
						rt.Check("pool", func() error { r.all = append(r.all, o); return nil })
						r.put(o)
					}
				}
			})
		}
		rt.Par(fs...)
		rt.Outcome("%q", outs)
	}}
}

// arrayProg runs the same scripts on an array pool.
func arrayProg(size uint, threads []string) rt.Prog {
	return rt.Prog{Name: fmt.Sprintf("array pool of %d %q", size, threads), Run: func() {
		p := gpool.NewArrayPool[int](size)
		type arr struct {
			first *int
			s     []int
			held  bool
		}
		var put []*arr // slices that were put
		outs := make([]string, len(threads))
		var fs []func()
		for i, script := range threads {
			i, script := i, script
			fs = append(fs, func() {
				var held [][]int
				for n, a := range script {
					switch a {
					case 'g':
						s := p.Get()
						rt.Check("array pool", func() error {
							if len(s) == 0 && cap(s) == int(size) {
								if cap(s) == 0 {
									return nil
								}
								for _, a := range put {
									if a.first == &s[:1][0] && len(a.s) == 0 {
										if a.held {
											return errors.New("a slice is handed out while another holds it")
										}
										a.held = true
										return nil
									}
									if a.first == &s[:1][0] {
										return fmt.Errorf("a slice of length %d comes back empty", len(a.s))
									}
								}
								put = append(put, &arr{&s[:1][0], s, true})
								return nil
							}
							for _, a := range put {
								if cap(s) > 0 && a.first == &s[:1][0] {
									if a.held {
										return errors.New("a slice is handed out while another holds it")
									}
									if len(a.s) != len(s) || cap(a.s) != cap(s) {
										return fmt.Errorf("a slice of length %d and capacity %d comes back with length %d and capacity %d", len(a.s), cap(a.s), len(s), cap(s))
									}
									a.held = true
									return nil
								}
							}
							return fmt.Errorf("Get returned a new slice of length %d and capacity %d, want 0 and %d", len(s), cap(s), size)
						})
						held = append(held, s)
						outs[i] += fmt.Sprint(len(s), " ")
					case 'p', 'n': // n: with one more element
						var s []int
						if len(held) > 0 {
							s = held[len(held)-1]
							held = held[:len(held)-1]
						}
						if a == 'n' {
							s = append(s, 100*i+n)
						}
						if cap(s) == 0 {
							continue
						}
						rt.Check("array pool", func() error {
							for _, a := range put {
								if a.first == &s[:1][0] {
									a.s, a.held = s, false
									return nil
								}
							}
							put = append(put, &arr{&s[:1][0], s, false})
							return nil
						})
						p.Put(s)
					}
				}
			})
		}
		rt.Par(fs...)
		rt.Outcome("%q", outs)
	}}
}

// keepProg runs a script on pools from which the runtime drops nothing: what was put is handed out again.
func keepProg(script string) rt.Prog {
	return rt.Prog{Name: fmt.Sprintf("pools that drop nothing %q", script), Run: func() {
		rt.KeepPool()
		made := 0
		p := gpool.New(func() *int { made++; return new(int) })
		q := gpool.NewArrayPool[int](2)
		var free, held []*int
		var freeA, heldA [][]int
		for n, a := range script {
			switch a {
			case 'g':
				m := made
				o, s := p.Get(), q.Get()
				switch k := len(free); {
				case k == 0 && made != m+1:
					rt.Fail("pool that drops nothing", "Get of an empty pool made %d objects", made-m)
				case k > 0 && made != m:
					rt.Fail("pool that drops nothing", "%d objects were put and are unused, and Get makes a new one", k)
				case k > 0:
					i, j := k-1, k-1
					for i >= 0 && o != free[i] {
						i--
					}
					for j >= 0 && &s[:1][0] != &freeA[j][:1][0] {
						j--
					}
					if i < 0 || j < 0 || len(s) != len(freeA[j]) {
						rt.Fail("pool that drops nothing", "Get returned something else than was put")
					}
					free, freeA = append(free[:i:i], free[i+1:]...), append(freeA[:j:j], freeA[j+1:]...)
				}
				held, heldA = append(held, o), append(heldA, s)
			case 'p':
				if k := len(held); k > 0 {
					free, freeA = append(free, held[k-1]), append(freeA, heldA[k-1])
					p.Put(held[k-1])
					q.Put(heldA[k-1])
					held, heldA = held[:k-1], heldA[:k-1]
				}
			case 'n':
				o, s := new(int), []int{n}
				free, freeA = append(free, o), append(freeA, s)
				p.Put(o)
				q.Put(s)
			}
		}
		rt.Outcome("%d", made)
	}}
}

// valueProg runs every script of takes and puts on pools of one type: what is taken was put and not taken
// since, or is what the pool's function makes. The first value is the type's zero value.
func valueProg[T comparable](kind string, keep bool, length int, made T, vals ...T) rt.Prog {
	return rt.Prog{Name: fmt.Sprintf("pools of %s that drop nothing: %v, every script of %d calls", kind, keep, length), Run: func() {
		if keep {
			rt.KeepPool()
		}
		p := gpool.New(func() T { return made })
		var in []T
		script := ""
		for i := 0; i < length; i++ {
			a := rt.Choose(len(vals) + 1)
			script += fmt.Sprint(a)
			if a < len(vals) {
				p.Put(vals[a])
				in = append(in, vals[a])
				continue
			}
			got, ok, sure := p.Get(), false, false
			for j, v := range in {
				sure = sure || any(v) != nil
				if v == got {
					in, ok = append(in[:j:j], in[j+1:]...), true
					break
				}
			}
			if !ok && (got != made || keep && sure) {
				rt.Fail("pool of "+kind, "Get answers %v, pooled are %v, new ones are %v, script %s", got, in, made, script)
			}
		}
		rt.Outcome("%s", script)
	}}
}

func valueProgs(length int) []rt.Prog {
	var ps []rt.Prog
	e1, e2 := errors.New("a"), errors.New("b")
	type pair struct {
		a int
		b string
	}
	for _, keep := range []bool{true, false} {
		ps = append(ps,
			valueProg[error]("errors", keep, length, nil, nil, e1, e2),
			valueProg[error]("errors", keep, length, e2, nil, e1),
			valueProg[any]("anything", keep, length, nil, nil, 0, "x"),
			valueProg[*int]("pointers", keep, length, nil, nil, new(int)),
			valueProg("numbers", keep, length, 7, 0, 1),
			valueProg("texts", keep, length, "new", "", "x"),
			valueProg("structs", keep, length, pair{1, "new"}, pair{}, pair{2, "x"}),
			valueProg("nothing", keep, length, struct{}{}, struct{}{}),
			valueProg[chan int]("channels", keep, length, nil, nil, make(chan int)))
	}
	return ps
}

func poolPrograms(thorough bool) []rt.Prog {
	var ps []rt.Prog
	words := func(n int) []string {
		out := []string{""}
		var last = out
		for i := 0; i < n; i++ {
			var next []string
			for _, w := range last {
				for _, c := range "gpn" {
					next = append(next, w+string(c))
				}
			}
			out = append(out, next...)
			last = next
		}
		return out[1:]
	}
	n := 3
	if thorough {
		n = 4
	}
	for _, w := range words(n + 2) {
		ps = append(ps, poolProg([]string{w}), keepProg(w))
		for _, size := range []uint{0, 1, 3} {
			ps = append(ps, arrayProg(size, []string{w}))
		}
	}
	for _, size := range []uint{63, 64, 65, 1023, 1024, 1025, 65535, 65536, 65537} {
		ps = append(ps, arrayProg(size, []string{"gpg"}), arrayProg(size, []string{"ggppg"}))
	}
	ps = append(ps, valueProgs(n+1)...)
	two := words(n)
	for i, a := range two {
		for _, b := range two[i:] {
			ps = append(ps, poolProg([]string{a, b}), arrayProg(2, []string{a, b}))
		}
	}
	three := words(2)
	for i, a := range three {
		for j, b := range three[i:] {
			for _, c := range three[i+j:] {
				ps = append(ps, poolProg([]string{a, b, c}))
			}
		}
	}
	return ps
}
