package rt

import (
	"unsafe"
)

// The state of a lock lives with the scheduler, under the address of the lock. The lock itself
// only holds a mark that tells whether it has been overwritten since (and so is a new lock).

//go:norace
//go:noinline
func getMark(p **byte) *byte { return *p }

//go:norace
//go:noinline
func setMark(p **byte, b *byte) { *p = b }

type stateRec[S any] struct {
	mark *byte
	o    *object
	st   S
}

func stateOf[S any](s *sched, p unsafe.Pointer, mark **byte, what string) *stateRec[S] {
	m := getMark(mark)
	if r, ok := s.state[p].(*stateRec[S]); ok && m == r.mark {
		return r
	}
	r := &stateRec[S]{mark: new(byte), o: &object{}}
	s.initObj(r.o, what)
	s.state[p] = r
	setMark(mark, r.mark)
	return r
}

// orDirect is the running execution, or a stand-in outside of one.
func orDirect() *sched {
	if s := active(); s != nil {
		return s
	}
	return &sched{x: &Explorer{}, objs: directObjs, state: directState}
}

// Mutex stands for sync.Mutex.
type Mutex struct{ mark *byte }

type mutexState struct{ locked bool }

func (m *Mutex) state(s *sched) *stateRec[mutexState] {
	return stateOf[mutexState](s, unsafe.Pointer(m), &m.mark, "Mutex")
}

// Lock locks.
func (m *Mutex) Lock() {
	getMark(&m.mark)
	s := orDirect()
	r := &request{name: "Lock"}
	r.enabled = func() bool { return !m.state(s).st.locked }
	r.exec = func() {
		st := m.state(s)
		s.use(st.o, kW, -1)
		st.st.locked = true
		r.acts = append(r.acts, act{0, unsafe.Pointer(m)})
	}
	call(r)
}

// use is access, but not outside of an execution.
func (s *sched) use(o *object, k kind, role int8) {
	if s.ev != nil {
		s.accessAs(o, k, role)
	}
}

// TryLock locks if nobody else has.
func (m *Mutex) TryLock() bool {
	s := orDirect()
	r := &request{name: "TryLock"}
	r.exec = func() {
		st := m.state(s)
		if st.st.locked {
			s.use(st.o, kR, 0)
			return
		}
		s.use(st.o, kW, 0)
		st.st.locked, r.ok = true, true
		r.acts = append(r.acts, act{0, unsafe.Pointer(m)})
	}
	call(r)
	_, ok, _ := r.result()
	return ok
}

// Unlock unlocks.
func (m *Mutex) Unlock() {
	s := orDirect()
	r := &request{name: "Unlock"}
	r.exec = func() {
		st := m.state(s)
		s.use(st.o, kW, 1)
		if !st.st.locked {
			r.fatal, r.panics = true, "sync: unlock of unlocked mutex"
			return
		}
		st.st.locked = false
		r.acts = append(r.acts, act{1, unsafe.Pointer(m)})
	}
	call(r)
}

// RWMutex stands for sync.RWMutex.
type RWMutex struct {
	mark   *byte
	rd, wr byte // addresses for annotations
}

type rwState struct {
	readers int
	writer  bool // a writer has locked or waits for the readers to leave
}

func (m *RWMutex) state(s *sched) *stateRec[rwState] {
	return stateOf[rwState](s, unsafe.Pointer(m), &m.mark, "RWMutex")
}

// RLock locks for reading.
func (m *RWMutex) RLock() {
	getMark(&m.mark)
	s := orDirect()
	r := &request{name: "RLock"}
	r.enabled = func() bool { return !m.state(s).st.writer }
	r.exec = func() {
		st := m.state(s)
		s.use(st.o, kA, -1)
		st.st.readers++
		r.acts = append(r.acts, act{0, unsafe.Pointer(&m.rd)})
	}
	call(r)
}

// TryRLock locks for reading if no writer is there.
func (m *RWMutex) TryRLock() bool {
	s := orDirect()
	r := &request{name: "TryRLock"}
	r.exec = func() {
		st := m.state(s)
		if st.st.writer {
			s.use(st.o, kR, 0)
			return
		}
		s.use(st.o, kA, 0)
		st.st.readers++
		r.ok = true
		r.acts = append(r.acts, act{0, unsafe.Pointer(&m.rd)})
	}
	call(r)
	_, ok, _ := r.result()
	return ok
}

// RUnlock undoes RLock.
func (m *RWMutex) RUnlock() {
	s := orDirect()
	r := &request{name: "RUnlock"}
	r.exec = func() {
		st := m.state(s)
		s.use(st.o, kA, 2)
		if st.st.readers == 0 {
			r.fatal, r.panics = true, "sync: RUnlock of unlocked RWMutex"
			return
		}
		st.st.readers--
		r.acts = append(r.acts, act{2, unsafe.Pointer(&m.wr)})
	}
	call(r)
}

// Lock locks for writing: it keeps new readers out, and then waits for the others to leave.
func (m *RWMutex) Lock() {
	getMark(&m.mark)
	s := orDirect()
	acquired := func(r *request) {
		r.ok = true
		r.acts = append(r.acts, act{0, unsafe.Pointer(&m.rd)}, act{0, unsafe.Pointer(&m.wr)})
	}
	r := &request{name: "Lock"}
	r.enabled = func() bool { return !m.state(s).st.writer }
	r.exec = func() {
		st := m.state(s)
		s.use(st.o, kW, -1)
		st.st.writer = true
		if st.st.readers == 0 {
			acquired(r)
		}
	}
	call(r)
	if _, ok, _ := r.result(); ok {
		return
	}
	w := &request{name: "Lock (waiting for readers)"}
	w.enabled = func() bool { return m.state(s).st.readers == 0 }
	w.exec = func() {
		s.use(m.state(s).o, kW, -2)
		acquired(w)
	}
	call(w)
}

// TryLock locks for writing if nobody is there.
func (m *RWMutex) TryLock() bool {
	s := orDirect()
	r := &request{name: "TryLock"}
	r.exec = func() {
		st := m.state(s)
		if st.st.writer || st.st.readers > 0 {
			s.use(st.o, kR, 0)
			return
		}
		s.use(st.o, kW, 0)
		st.st.writer, r.ok = true, true
		r.acts = append(r.acts, act{0, unsafe.Pointer(&m.rd)}, act{0, unsafe.Pointer(&m.wr)})
	}
	call(r)
	_, ok, _ := r.result()
	return ok
}

// Unlock undoes Lock.
func (m *RWMutex) Unlock() {
	s := orDirect()
	r := &request{name: "Unlock"}
	r.exec = func() {
		st := m.state(s)
		s.use(st.o, kW, 1)
		if !st.st.writer {
			r.fatal, r.panics = true, "sync: Unlock of unlocked RWMutex"
			return
		}
		st.st.writer = false
		r.acts = append(r.acts, act{1, unsafe.Pointer(&m.rd)})
	}
	call(r)
}

// Locker stands for sync.Locker.
type Locker interface {
	Lock()
	Unlock()
}

type rlocker struct{ m *RWMutex }

func (l rlocker) Lock()   { l.m.RLock() }
func (l rlocker) Unlock() { l.m.RUnlock() }

// RLocker returns a Locker of the read lock.
func (m *RWMutex) RLocker() Locker { return rlocker{m} }

// WaitGroup stands for sync.WaitGroup.
type WaitGroup struct{ mark *byte }

type wgState struct{ n int }

func (g *WaitGroup) state(s *sched) *stateRec[wgState] {
	return stateOf[wgState](s, unsafe.Pointer(g), &g.mark, "WaitGroup")
}

// Add adds to the counter.
func (g *WaitGroup) Add(d int) {
	getMark(&g.mark)
	s := orDirect()
	r := &request{name: "Add"}
	if d < 0 {
		r.name = "Done"
	}
	r.exec = func() {
		st := g.state(s)
		role := int8(0)
		if d < 0 {
			role = 1
		}
		if st.st.n+d < 0 {
			s.use(st.o, kW, 0)
		} else { // additions commute
			s.use(st.o, kA, role)
		}
		st.st.n += d
		if st.st.n < 0 {
			r.panics = "sync: negative WaitGroup counter"
			return
		}
		if d < 0 {
			r.acts = append(r.acts, act{2, unsafe.Pointer(g)})
		}
	}
	call(r)
}

// Done subtracts one.
func (g *WaitGroup) Done() { g.Add(-1) }

// Wait waits until the counter is zero.
func (g *WaitGroup) Wait() {
	s := orDirect()
	r := &request{name: "Wait"}
	r.enabled = func() bool { return g.state(s).st.n == 0 }
	r.exec = func() {
		s.use(g.state(s).o, kR, -1)
		r.acts = append(r.acts, act{0, unsafe.Pointer(g)})
	}
	call(r)
}

// Go runs f in a goroutine of the group.
func (g *WaitGroup) Go(f func()) {
	g.Add(1)
	Go(func() {
		defer g.Done()
		f()
	})
}

// Once stands for sync.Once.
type Once struct{ mark *byte }

type onceState struct{ done, running bool }

func (o *Once) state(s *sched) *stateRec[onceState] {
	return stateOf[onceState](s, unsafe.Pointer(o), &o.mark, "Once")
}

// Do calls f unless that has been done; it waits for a call that is going on.
func (o *Once) Do(f func()) {
	getMark(&o.mark)
	s := orDirect()
	r := &request{name: "Once.Do"}
	r.enabled = func() bool { return !o.state(s).st.running }
	r.exec = func() {
		st := o.state(s)
		if st.st.done {
			s.use(st.o, kR, -1)
			r.acts = append(r.acts, act{0, unsafe.Pointer(o)})
			return
		}
		s.use(st.o, kW, 0)
		st.st.running = true
		r.ok = true
	}
	call(r)
	if _, first, _ := r.result(); !first {
		return
	}
	defer func() {
		s := orDirect()
		e := &request{name: "Once.Do ends"}
		e.exec = func() {
			st := o.state(s)
			s.use(st.o, kW, 1)
			st.st.running, st.st.done = false, true
			e.acts = append(e.acts, act{1, unsafe.Pointer(o)})
		}
		call(e)
	}()
	f()
}

// Pool stands for sync.Pool. Get may return any stored object, or act as if there was none.
type Pool struct {
	mark *byte
	New  func() any
}

type poolItem struct {
	v    any
	addr byte
}

type poolState struct{ items []*poolItem }

func (p *Pool) state(s *sched) *stateRec[poolState] {
	return stateOf[poolState](s, unsafe.Pointer(p), &p.mark, "Pool")
}

// KeepPool makes the pools of this execution drop nothing and return what was put last.
func KeepPool() {
	s := orDirect()
	r := &request{name: "KeepPool"}
	r.exec = func() { s.keepPool = true }
	call(r)
}

// Put stores an object.
func (p *Pool) Put(v any) {
	if v == nil {
		return
	}
	s := orDirect()
	r := &request{name: "Pool.Put"}
	it := &poolItem{v: v}
	r.exec = func() {
		st := p.state(s)
		s.use(st.o, kW, 0)
		st.st.items = append(st.st.items, it)
		r.acts = append(r.acts, act{1, unsafe.Pointer(&it.addr)})
	}
	call(r)
}

// Get returns an object.
func (p *Pool) Get() any {
	s := orDirect()
	r := &request{name: "Pool.Get"}
	r.exec = func() {
		st := p.state(s)
		n := len(st.st.items)
		if n == 0 {
			s.use(st.o, kR, 0)
			return
		}
		s.use(st.o, kW, 0)
		i := 0
		if s.keepPool {
			i = n - 1
		} else if s.ev != nil {
			i = s.choose(n + 1)
		}
		if i == n {
			return
		}
		it := st.st.items[i]
		st.st.items = append(append([]*poolItem(nil), st.st.items[:i]...), st.st.items[i+1:]...)
		r.val, r.ok = it.v, true
		r.acts = append(r.acts, act{0, unsafe.Pointer(&it.addr)})
	}
	call(r)
	if v, ok, _ := r.result(); ok {
		return v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

// Cond stands for sync.Cond.
type Cond struct {
	mark *byte
	L    Locker
}

type condState struct{ list []*bool }

func (c *Cond) state(s *sched) *stateRec[condState] {
	return stateOf[condState](s, unsafe.Pointer(c), &c.mark, "Cond")
}

// NewCond makes a Cond.
func NewCond(l Locker) *Cond { return &Cond{L: l} }

// Wait waits to be woken.
func (c *Cond) Wait() {
	s := orDirect()
	woken := new(bool)
	r := &request{name: "Cond.Wait"}
	r.exec = func() {
		st := c.state(s)
		s.use(st.o, kW, 0)
		st.st.list = append(st.st.list, woken)
	}
	call(r)
	c.L.Unlock()
	w := &request{name: "Cond.Wait (waiting)"}
	w.enabled = func() bool { return *woken }
	w.exec = func() { s.use(c.state(s).o, kR, 0) }
	call(w)
	c.L.Lock()
}

// Signal wakes one thread.
func (c *Cond) Signal() { c.wake(1) }

// Broadcast wakes all threads.
func (c *Cond) Broadcast() { c.wake(1 << 30) }

func (c *Cond) wake(n int) {
	s := orDirect()
	r := &request{name: "Cond.Signal"}
	r.exec = func() {
		st := c.state(s)
		s.use(st.o, kW, 0)
		for ; n > 0 && len(st.st.list) > 0; n-- {
			*st.st.list[0] = true
			st.st.list = st.st.list[1:]
		}
	}
	call(r)
}

// Atomic is an atomic operation that the thread itself performs when it has been scheduled.
type Atomic struct{ r *request }

// AtomicOp schedules an atomic operation on the variable at p.
func AtomicOp(p unsafe.Pointer, name string) Atomic {
	r := &request{name: name}
	s := active()
	if s == nil {
		return Atomic{r}
	}
	r.exec = func() {
		r.atomicO, r.atomicK = s.obj(p, "atomic"), kW
		if s.verbose {
			r.name += " " + r.atomicO.String()
		}
	}
	call(r)
	return Atomic{r}
}

// Read tells that the operation did not change the variable.
//
//go:norace
//go:noinline
func (a Atomic) Read() { a.r.atomicK = kR }

// Section is an operation on the object at p that the thread itself performs; the operations on one object are
// ordered for the race detector.
func Section(p unsafe.Pointer, name string, write bool) {
	s := active()
	if s == nil {
		return
	}
	r := &request{name: name}
	r.exec = func() {
		k := kR
		if write {
			k = kW
		}
		s.access(s.obj(p, name), k)
		r.acts = append(r.acts, act{0, p}, act{2, p})
	}
	call(r)
}
