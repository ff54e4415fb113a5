package rt

import (
	"fmt"
	"hash/fnv"
	"unsafe"
)

// Choose returns a number below n; every one is explored.
func Choose(n int) int {
	if n <= 1 {
		return 0
	}
	s := active()
	r := &request{name: "choose"}
	r.now = func() { r.idx = s.choose(n) }
	call(r)
	_, _, i := r.result()
	return i
}

// choose is part of the current event.
func (s *sched) choose(n int) int {
	if n <= 1 {
		return 0
	}
	Beat.Add(1)
	i := s.x.choose(s, n)
	s.ev.choices = s.ev.choices*31 + uint64(i) + 1
	if s.verbose {
		s.trace = append(s.trace, fmt.Sprintf("choice %d of %d", i+1, n))
	}
	return i
}

// Fail reports that the execution breaks the property.
func Fail(key, format string, args ...any) {
	s := active()
	msg := fmt.Sprintf(format, args...)
	r := &request{name: "fail"}
	r.now = func() { s.failf(key, "%s", msg) }
	call(r)
	// the execution is over: the thread is ended at its next request
	call(&request{name: "failed"})
}

// Outcome notes what an observer of this execution saw; distinct outcomes are counted.
func Outcome(format string, args ...any) {
	s := active()
	msg := fmt.Sprintf(format, args...)
	call(&request{name: "outcome", now: func() { s.outcome += msg }})
}

// Note adds a line to the trace of a failing execution.
func Note(format string, args ...any) {
	s := active()
	if !verbose(s) {
		return
	}
	msg := fmt.Sprintf(format, args...)
	call(&request{name: "note", now: func() { s.trace = append(s.trace, s.cur.name+": "+msg) }})
}

//go:norace
//go:noinline
func verbose(s *sched) bool { return s.verbose }

// Par runs the functions at once and returns when all have ended.
func Par(fs ...func()) {
	var ts []*thread
	for i, f := range fs[1:] {
		ts = append(ts, spawn(fmt.Sprintf("p%d", i+1), false, f))
	}
	fs[0]()
	Join(ts...)
}

// Join waits for the end of threads.
func Join(ts ...*thread) {
	s := active()
	r := &request{name: "join"}
	r.enabled = func() bool {
		for _, t := range ts {
			if !t.ended {
				return false
			}
		}
		return true
	}
	r.exec = func() {
		for _, t := range ts {
			s.accessAs(s.end(t), kR, -1)
			r.acts = append(r.acts, act{0, unsafe.Pointer(&t.endAddr)})
		}
	}
	call(r)
}

// Settle waits until no other thread can go on.
func Settle() {
	s := active()
	r := &request{name: "settle", slow: true}
	me := curThread(s)
	r.enabled = func() bool {
		return !s.othersGoOn(me)
	}
	r.exec = func() {
		s.ev.all = true
		r.acts = append(r.acts, act{0, unsafe.Pointer(&s.toDriver)})
	}
	call(r)
}

// Yield is an operation on nothing: a point where other threads may run.
func Yield() { call(&request{name: "yield"}) }

//go:norace
//go:noinline
func curThread(s *sched) *thread { return s.cur }

// Live is the number of goroutines that have not ended, besides the caller's.
func Live() int {
	s := active()
	r := &request{name: "live"}
	r.now = func() {
		for _, t := range s.threads {
			if !t.ended && !t.daemon && t != s.cur {
				r.idx++
			}
		}
	}
	call(r)
	_, _, i := r.result()
	return i
}

// Var is a counter the harness shares between threads without synchronizing them: its accesses
// are invisible to the race detector and each is part of the operation before it, but their
// order counts.
type Var struct {
	o object
	n int
}

// Add adds to the counter and returns the new value.
func (v *Var) Add(d int) int {
	s := active()
	r := &request{name: "var"}
	r.now = func() {
		if v.o.id == 0 {
			s.initObj(&v.o, "var")
		}
		s.access(&v.o, kW)
		v.n += d
		r.idx = v.n
	}
	call(r)
	_, _, i := r.result()
	return i
}

// Get returns the counter.
func (v *Var) Get() int { return v.Add(0) }

// Touch is an access to an object that has a name.
type Touch struct {
	Key   string
	Write bool
}

// Step is a visible operation whose effect the driver performs; f reports what it accessed. What
// the driver returns must be read in functions the race detector does not see.
func Step(name string, f func() (any, []Touch)) any {
	s := active()
	r := &request{name: name}
	r.exec = func() {
		v, ts := f()
		r.val = v
		if s == nil || s.x.free {
			return
		}
		for _, t := range ts {
			k := kR
			if t.Write {
				k = kW
			}
			s.access(s.named(t.Key), k)
		}
	}
	call(r)
	v, _, _ := r.result()
	return v
}

// named is the object with a name.
func (s *sched) named(key string) *object {
	o := s.names[key]
	if o == nil {
		o = &object{}
		s.initObj(o, key)
		h := fnv.New64a()
		h.Write([]byte(key))
		o.canon = mix(h.Sum64())
		if s.names == nil {
			s.names = map[string]*object{}
		}
		s.names[key] = o
	}
	return o
}

// Check lets the driver run a test of the execution so far; an error ends the execution as a
// violation.
func Check(key string, f func() error) {
	s := active()
	r := &request{name: "check"}
	r.now = func() {
		if err := f(); err != nil {
			s.failf(key, "%v", err)
		}
	}
	call(r)
}

// VirtualNow is the clock, for use by functions the driver runs.
func VirtualNow() int64 {
	if s0 == nil {
		return Epoch
	}
	return s0.now
}

// Zero sets a variable to its zero value.
func Zero[T any](p *T) {
	var z T
	*p = z
}

// Running is the number of the thread whose operation the driver performs, and whether the program
// under test started it.
func Running() (id int, own bool) {
	if s0 == nil || s0.cur == nil {
		return 0, false
	}
	return s0.cur.id, s0.cur.own
}
