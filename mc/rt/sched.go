// Package rt runs a program of several goroutines under a scheduler that decides every
// interleaving of their synchronization operations, and explores all of them.
//
// Every goroutine of the program is a thread. One thread runs at a time. Before each visible
// operation (lock, channel operation, atomic access, file operation, ...) a thread hands its
// request to the driver, a goroutine of its own that owns all state of this package, and goes
// on when the driver has scheduled the operation. The hand-overs back to the threads are
// invisible to the race detector; the synchronization a program's operations stand for is
// told to it by annotations, so that it sees each explored execution as a real one.
package rt

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"strings"
	"sync/atomic"
	"unsafe"
)

//go:linkname semacquire sync.runtime_Semacquire
func semacquire(s *uint32)

//go:linkname semrelease sync.runtime_Semrelease
func semrelease(s *uint32, handoff bool, skipframes int)

// Kinds of access. Accesses of one kind commute, except writes; different kinds do not.
type kind uint8

const (
	kR kind = iota
	kW
	kA // additions whose order does not matter
)

func conflicts(a, b kind) bool { return a != b || a == kW }

// object is something operations access.
type object struct {
	id    int
	canon uint64 // identifies the object in every execution, if not 0
	fixed bool   // accesses can take place in one order only
	what  string
	lastW int32   // last write, index of the event, or -1
	rd    []int32 // last read of each thread since, -1 for none
	ad    []int32 // last addition of each thread since
}

func (s *sched) initObj(o *object, what string) {
	s.nobj++
	*o = object{id: s.nobj, what: what, lastW: -1}
}

func (o *object) String() string { return fmt.Sprintf("%s#%d", o.what, o.id) }

type access struct {
	o *object
	k kind
	// An access with role -r is only possible after the last one with role r.
	role int8
}

// act is a note to the race detector that a thread makes when it goes on.
type act struct {
	kind uint8 // 0 acquire, 1 release, 2 release and merge
	p    unsafe.Pointer
}

// request is a visible operation of a thread.
type request struct {
	name       string
	enabled    func() bool // nil: always
	chans      bool        // an operation on channels, with these cases
	cases      []*selCase
	hasDefault bool
	exec       func() // run by the driver when the operation is scheduled
	now        func() // not an operation: run at once, without scheduling
	panics     string // the operation ends in this panic
	fatal      bool
	timer      bool // a timer that runs out
	slow       bool // not to be done inline
	acts       []act
	atomicO    *object // an atomic operation done by the thread itself
	atomicK    kind
	val        any
	ok         bool
	idx        int
}

type thread struct {
	id      int
	uid     uint64
	kids    uint64
	name    string
	sem     uint32
	req     *request
	inv     []*OpRec // calls whose first operation is still to come
	self    object
	since   int32 // index of the event after which it has been waiting
	ended   bool
	abort   bool
	daemon  bool
	own     bool    // started by the program under test
	clock   []int32 // what happened before the thread's next event
	count   int32   // events so far
	stack   string
	panicV  any
	hasPan  bool
	endAddr byte
	doneReq *request // the operation of its last event
}

// event is an executed operation.
type event struct {
	i       int32 // its index
	node    int   // of the exploration, -1 for none
	key     uint64
	req     *request
	ureq    *request
	prev    int32 // index of the event after which t waited for this one
	uprev   int32
	ubefore []int32
	t       *thread
	u       *thread // takes part as the receiver of a hand-over
	uidx    int32
	idx     int32
	vc      []int32
	before  []int32 // the thread's clock before it
	acc     []access
	wakes   []*thread
	all     bool // ordered after everything
	choices uint64
}

// sched is one execution.
type sched struct {
	keepPool   bool // see KeepPool
	x          *Explorer
	threads    []*thread
	local      []*thread
	cur        *thread // in local code or executing
	driver     uint32
	toDriver   byte // address for annotations
	fromDriver byte
	events     []*event
	ev         *event
	objs       map[unsafe.Pointer]*object
	names      map[string]*object
	state      map[unsafe.Pointer]any
	nobj       int
	aborting   bool
	fail       *Failure
	steps      int
	visits     int // of entries in range loops over maps
	hist       object
	ops        []*OpRec
	clockO     object
	now        int64
	mapRev     bool
	timers     []*Timer
	sig        uint64
	trace      []string
	verbose    bool
	Env        map[string]any
	outcome    string
	last       alt
	buf        []alt
	preempt    int
	pruned     bool
	fs         any
}

// Failure is a broken property in one execution.
type Failure struct {
	Key    string
	Detail string
}

// s0 is the running execution. Threads read it in functions the race detector does not see.
var s0 *sched

// Beat counts operations, for a watcher.
var Beat atomic.Int64

//go:norace
func active() *sched { return s0 }

// call hands a request to the driver and returns when the thread goes on.
func call(r *request) {
	s := active()
	if s == nil {
		direct(r)
		return
	}
	if !inline(s, r) {
		t := enter(s, r)
		if t == nil || !leave(t) {
			runtime.Goexit()
		}
		fromDriver(s)
		annotate(r)
	}
	if p := panicOf(r); p != "" {
		panic(runtimeError(p))
	}
}

// inline runs an operation at once if the schedule is fixed: it is always the first thread that
// can go on.
//
//go:norace
//go:noinline
func inline(s *sched, r *request) bool {
	if !s.x.free || s.aborting || s.fail != nil || r.chans || s.cur != s.threads[0] {
		return false
	}
	t := s.cur
	if r.now != nil {
		t.req = r
		r.now()
		return s.fail == nil
	}
	if r.slow || r.enabled != nil && !r.enabled() {
		return false
	}
	t.req = r
	s.finishEvent()
	s.steps++
	s.begin(t)
	if r.exec != nil {
		r.exec()
	}
	if r.fatal {
		s.failf("fatal error: "+r.panics, "fatal error: %s", r.panics)
	}
	return s.fail == nil
}

// direct runs an operation outside of an execution, as package initialization does.
func direct(r *request) {
	s := &sched{x: &Explorer{}, objs: directObjs, state: directState}
	t := s.newThread(nil, "init")
	s.cur, t.req = t, r
	s.begin(t)
	if r.now != nil {
		r.now()
	} else {
		if r.enabled != nil && !r.enabled() {
			panic("rt: an operation outside of an execution would block: " + r.name)
		}
		if r.exec != nil {
			r.exec()
		}
	}
	if r.panics != "" {
		panic(runtimeError(r.panics))
	}
}

var (
	directObjs  = map[unsafe.Pointer]*object{}
	directState = map[unsafe.Pointer]any{}
)

//go:norace
//go:noinline
func enter(s *sched, r *request) *thread {
	if s.aborting {
		return nil
	}
	t := s.cur
	t.req = r
	if s.verbose {
		t.stack = where()
	}
	raceReleaseMerge(unsafe.Pointer(&s.toDriver))
	semrelease(&s.driver, false, 0)
	semacquire(&t.sem)
	return t
}

// fromDriver orders what the thread does after what the driver has done, if threads do some of
// that themselves.
//
//go:norace
//go:noinline
func fromDriver(s *sched) {
	if s.x.free {
		raceAcquire(unsafe.Pointer(&s.fromDriver))
	}
}

//go:norace
//go:noinline
func leave(t *thread) bool { return !t.abort }

//go:norace
//go:noinline
func annotate(r *request) {
	for i := 0; i < len(r.acts); i++ {
		switch a := r.acts[i]; a.kind {
		case 0:
			raceAcquire(a.p)
		case 1:
			raceRelease(a.p)
		case 2:
			raceReleaseMerge(a.p)
		}
	}
}

//go:norace
//go:noinline
func panicOf(r *request) string { return r.panics }

//go:norace
//go:noinline
func (r *request) result() (any, bool, int) { return r.val, r.ok, r.idx }

type runtimeError string

func (e runtimeError) Error() string { return string(e) }
func (e runtimeError) RuntimeError() {}

func where() string {
	var pcs [32]uintptr
	n := runtime.Callers(3, pcs[:])
	fr := runtime.CallersFrames(pcs[:n])
	for {
		f, more := fr.Next()
		if !strings.HasPrefix(f.Function, "verif/rt") && !strings.HasPrefix(f.Function, "verif/v/") {
			file := f.File
			if i := strings.LastIndex(file, "/"); i >= 0 {
				file = file[i+1:]
			}
			return fmt.Sprintf("%s:%d", file, f.Line)
		}
		if !more {
			return "?"
		}
	}
}

// ---------------------------------------------------------------- driver side

// run runs the threads of an execution until nothing can happen any more.
func (s *sched) run(main func()) {
	s.initObj(&s.hist, "history")
	s.initObj(&s.clockO, "clock")
	s.hist.canon, s.clockO.canon = 1, 2
	t := s.newThread(nil, "main")
	t.req = &request{name: "start"}
	s.begin(t)
	go s.body(t, main)
	s.local = append(s.local, t)
	for {
		for len(s.local) > 0 && s.fail == nil {
			t := s.local[0]
			s.local = s.local[1:]
			s.resume(t)
		}
		s.finishEvent()
		if s.fail != nil || s.x.atNode(s) {
			return
		}
		s.buf = s.alts(s.buf[:0])
		if len(s.buf) == 0 {
			s.x.end(s)
			s.quiescent()
			return
		}
		s.steps++
		if s.steps > s.x.MaxSteps {
			s.failf("no end", "the program has not ended after %d steps; %s", s.steps, s.waiting())
			return
		}
		a, ok := s.x.pick(s, s.buf)
		if !ok {
			s.pruned = true
			return
		}
		Beat.Add(1)
		s.last = a
		t, r := a.t, a.t.req
		s.begin(t)
		s.ev.node, s.ev.key = s.x.pos-1, a.key
		if a.u != nil {
			s.join(a.u)
		}
		if r.chans {
			s.chanExec(a)
		} else if r.exec != nil {
			r.exec()
		}
		if s.verbose {
			s.trace = append(s.trace, fmt.Sprintf("%s: %s (%s)%s", t.name, a.describe(), t.stack, s.accessNames()))
		}
		if r.fatal {
			s.failf("fatal error: "+r.panics, "fatal error: %s", r.panics)
			return
		}
		s.local = append(s.local, t)
		if a.u != nil {
			s.local = append(s.local, a.u)
		}
	}
}

// othersGoOn tells whether a thread besides t can go on.
func (s *sched) othersGoOn(t *thread) bool {
	for _, o := range s.threads {
		if o != t && !o.ended && !o.daemon && o.req.chans {
			if len(s.altsOf(o, nil)) > 0 {
				return true
			}
		} else if o != t && !o.ended && !o.daemon && (o.req.enabled == nil || o.req.enabled()) {
			return true
		}
	}
	return false
}

func (s *sched) accessNames() string {
	var sb strings.Builder
	for i, a := range s.ev.acc[1:] {
		if i == 0 {
			sb.WriteString(" on ")
		} else {
			sb.WriteString(", ")
		}
		sb.WriteString(a.o.String())
	}
	return sb.String()
}

func (s *sched) failf(key, format string, args ...any) {
	if s.fail == nil {
		s.fail = &Failure{key, fmt.Sprintf(format, args...)}
	}
}

// quiescent is called when no thread can go on.
func (s *sched) quiescent() {
	if main := s.threads[0]; !main.ended {
		s.failf("deadlock", "deadlock: the program never ends; waiting: %s", s.waiting())
		return
	}
	for _, t := range s.threads {
		if !t.ended && !t.daemon && !s.x.LeakOK {
			s.failf("leak", "goroutines left behind that can never go on: %s", s.waiting())
			return
		}
	}
}

func (s *sched) waiting() string {
	var w []string
	for _, t := range s.threads {
		if !t.ended && !t.daemon {
			n := "?"
			if t.req != nil {
				n = t.req.name
			}
			w = append(w, fmt.Sprintf("%s in %s (%s)", t.name, n, t.stack))
		}
	}
	return strings.Join(w, "; ")
}

// newThread is part of the current event.
func (s *sched) newThread(parent *thread, name string) *thread {
	t := &thread{id: len(s.threads), name: name}
	if parent == nil {
		t.uid = 0x9e3779b97f4a7c15
	} else {
		parent.kids++
		t.uid = mix(parent.uid*31 + parent.kids)
		if name == "" {
			t.own = true
			t.name = fmt.Sprintf("%s.%d", parent.name, parent.kids)
		}
		s.ev.wakes = append(s.ev.wakes, t)
		s.local = append(s.local, t)
	}
	s.threads = append(s.threads, t)
	return t
}

func mix(x uint64) uint64 {
	x ^= x >> 30
	x *= 0xbf58476d1ce4e5b9
	x ^= x >> 27
	x *= 0x94d049bb133111eb
	return x ^ x>>31
}

// Go starts a goroutine of the program.
func Go(f func()) { spawn("", false, f) }

func spawn(name string, daemon bool, f func()) *thread {
	s := active()
	if s == nil {
		panic("rt: a goroutine is started outside of an execution")
	}
	r := &request{name: "go"}
	r.now = func() {
		t := s.newThread(s.cur, name)
		t.daemon = daemon
		r.val = t
	}
	call(r)
	v, _, _ := r.result()
	t := v.(*thread)
	go s.body(t, f) // by the thread itself, as the race detector must see it
	return t
}

func (s *sched) body(t *thread, f func()) {
	waitStart(t)
	normal := false
	defer func() {
		if !normal {
			if r := recover(); r != nil {
				setPanic(t, r, string(debug.Stack()))
			}
		}
		finish(s, t)
	}()
	if leave(t) {
		fromDriver(s)
		f()
	}
	normal = true
}

//go:norace
//go:noinline
func waitStart(t *thread) { semacquire(&t.sem) }

//go:norace
//go:noinline
func setPanic(t *thread, r any, stack string) {
	t.hasPan, t.panicV, t.stack = true, r, stack
}

//go:norace
//go:noinline
func finish(s *sched, t *thread) {
	t.ended = true
	raceReleaseMerge(unsafe.Pointer(&t.endAddr))
	raceReleaseMerge(unsafe.Pointer(&s.toDriver))
	semrelease(&s.driver, false, 0)
}

// resume lets a thread run its local code up to its next operation.
func (s *sched) resume(t *thread) {
	for {
		t.req = nil
		s.cur = t
		if s.x.free {
			raceRelease(unsafe.Pointer(&s.fromDriver))
		}
		semrelease(&t.sem, false, 0)
		semacquire(&s.driver)
		raceAcquire(unsafe.Pointer(&s.toDriver))
		if t.ended {
			if t.hasPan {
				s.failf(fmt.Sprintf("panic: %v", t.panicV), "goroutine %s of the program panicked: %v\n%s", t.name, t.panicV, t.stack)
			}
			s.accessAs(s.end(t), kW, 1) // waiting for the end of a thread is waiting for its last event
			return
		}
		r := t.req
		if r.now == nil {
			return
		}
		r.now()
		if r.fatal {
			s.failf("fatal error: "+r.panics, "fatal error: %s", r.panics)
		}
		if s.fail != nil {
			return
		}
	}
}

func (s *sched) end(t *thread) *object {
	o := s.obj(unsafe.Pointer(&t.endAddr), "end")
	o.canon = mix(t.uid + 1)
	return o
}

// obj is the object at an address.
func (s *sched) obj(p unsafe.Pointer, what string) *object {
	o := s.objs[p]
	if o == nil {
		o = &object{}
		s.initObj(o, what)
		s.objs[p] = o
	}
	return o
}

// kill ends all threads that are left.
func (s *sched) kill() {
	s.setAborting()
	for _, t := range s.threads {
		if t.ended {
			continue
		}
		t.abort = true
		s.cur = t
		semrelease(&t.sem, false, 0)
		semacquire(&s.driver)
		raceAcquire(unsafe.Pointer(&s.toDriver))
	}
}

//go:norace
//go:noinline
func (s *sched) setAborting() { s.aborting = true }

// ---------------------------------------------------------------- events and their order

func grow(v []int32, n int, fill int32) []int32 {
	for len(v) < n {
		v = append(v, fill)
	}
	return v
}

func join(a, b []int32) []int32 {
	a = grow(a, len(b), 0)
	for i, x := range b {
		if x > a[i] {
			a[i] = x
		}
	}
	return a
}

// begin starts the event of a thread's pending operation.
func (s *sched) begin(t *thread) {
	t.count++
	s.ev = &event{i: int32(len(s.events)), node: -1, req: t.req, prev: t.since, t: t, idx: t.count, before: t.clock}
	s.cur = t
	t.doneReq = t.req
	s.access(s.selfObj(t), kW)
	s.invoke(t)
}

// join makes a thread take part in the current event.
func (s *sched) join(u *thread) {
	u.count++
	e := s.ev
	e.u, e.uidx, e.ureq, e.uprev, e.ubefore = u, u.count, u.req, u.since, u.clock
	u.doneReq = u.req
	s.access(s.selfObj(u), kW)
	s.invoke(u)
}

func (s *sched) selfObj(t *thread) *object {
	if t.self.id == 0 {
		s.initObj(&t.self, "thread")
		t.self.canon = mix(t.uid + 3)
	}
	return &t.self
}

// access notes that the current event accesses an object.
func (s *sched) access(o *object, k kind) { s.accessAs(o, k, 0) }

func (s *sched) accessAs(o *object, k kind, role int8) {
	e := s.ev
	for i, a := range e.acc {
		if a.o == o {
			if a.k != k {
				e.acc[i].k = kW
			}
			if a.role != role {
				e.acc[i].role = 0
			}
			return
		}
	}
	e.acc = append(e.acc, access{o, k, role})
}

// earlier calls f for every earlier event that conflicts with an access.
func (s *sched) earlier(a access, f func(i int32)) {
	o := a.o
	if o.lastW >= 0 {
		f(o.lastW)
	}
	if a.k != kR {
		for _, i := range o.rd {
			if i >= 0 {
				f(i)
			}
		}
	}
	if a.k != kA {
		for _, i := range o.ad {
			if i >= 0 {
				f(i)
			}
		}
	}
}

// finishEvent orders the current event after those it depends on.
func (s *sched) finishEvent() {
	e := s.ev
	if e == nil {
		return
	}
	s.ev = nil
	t := e.t
	me := int32(len(s.events))
	s.events = append(s.events, e)
	if r := t.doneReq; r.atomicO != nil {
		s.ev = e
		s.access(r.atomicO, r.atomicK)
		s.ev = nil
	}
	vc := append(make([]int32, 0, len(s.threads)), e.before...)
	if e.u != nil {
		vc = join(vc, e.u.clock)
	}
	for _, a := range e.acc {
		s.earlier(a, func(i int32) { vc = join(vc, s.events[i].vc) })
	}
	if e.all {
		for _, q := range s.threads {
			vc = join(vc, q.clock)
		}
	}
	vc = grow(vc, t.id+1, 0)
	vc[t.id] = e.idx
	if e.u != nil {
		vc = grow(vc, e.u.id+1, 0)
		vc[e.u.id] = e.uidx
		e.u.clock = append([]int32(nil), vc...)
	}
	e.vc = vc
	for _, a := range e.acc {
		o := a.o
		switch a.k {
		case kW:
			o.lastW, o.rd, o.ad = me, o.rd[:0], o.ad[:0]
		case kR:
			o.rd = grow(o.rd, t.id+1, -1)
			o.rd[t.id] = me
		case kA:
			o.ad = grow(o.ad, t.id+1, -1)
			o.ad[t.id] = me
		}
	}
	t.clock = vc
	t.since = me
	if e.u != nil {
		e.u.since = me
	}
	for _, w := range e.wakes {
		w.clock = join(append([]int32(nil), w.clock...), vc)
		w.since = me
	}
	h := mix(t.uid + uint64(e.idx)*0x9e3779b97f4a7c15 + e.choices)
	var sum uint64
	for q, c := range vc {
		if c > 0 {
			sum += mix(s.threads[q].uid ^ uint64(c)<<32)
		}
	}
	s.sig += mix(h ^ sum)
	s.x.races(s, e)
}
