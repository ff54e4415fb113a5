package rt

import (
	"time"
	"unsafe"
)

// Epoch is the time at which every execution starts, in nanoseconds.
const Epoch = int64(1_700_000_000_000_000_000)

// Now reads the clock.
func Now() time.Time {
	s := active()
	if s == nil {
		return time.Unix(0, Epoch)
	}
	r := &request{name: "now"}
	r.now = func() {
		s.access(&s.clockO, kR)
		r.val = s.now
	}
	if clockMoves(s) { // otherwise reading it is no operation of its own
		r.exec, r.now = r.now, nil
	}
	call(r)
	v, _, _ := r.result()
	return time.Unix(0, v.(int64))
}

//go:norace
//go:noinline
func clockMoves(s *sched) bool { return s.x.ClockMoves }

// Advance moves the clock.
func Advance(d time.Duration) {
	s := active()
	r := &request{name: "advance"}
	f := func() {
		s.access(&s.clockO, kW)
		s.now += int64(d)
	}
	if clockMoves(s) {
		r.exec = f
	} else {
		r.now = f
	}
	call(r)
}

// Timer is a pending event. It takes place at any moment, but timers keep their order.
type Timer struct {
	when   int64
	active bool
	addr   byte
	fired  bool
	gen    int
}

// fire is the part of a timer's event that the driver does.
type fire func(s *sched, r *request)

// StartTimer runs f after d: on is run by the driver as part of the event, then f, if not nil, by a thread of its own.
func startTimer(d time.Duration, on fire, f func()) *Timer {
	s := active()
	tm := &Timer{}
	r := &request{name: "start timer"}
	r.exec = func() {
		s.access(&s.clockO, kW)
		tm.when, tm.active = s.now+int64(d), true
		s.timers = append(s.timers, tm)
	}
	call(r)
	tm.run(s, on, f)
	return tm
}

func (tm *Timer) run(s *sched, on fire, f func()) {
	gen := tm.gen
	spawn("timer", true, func() {
		r := &request{name: "timer", timer: true}
		r.enabled = func() bool {
			if !tm.active || tm.gen != gen {
				return false
			}
			for _, o := range s.timers {
				if o.active && o.when < tm.when {
					return false
				}
			}
			return true
		}
		r.exec = func() {
			s.access(&s.clockO, kW)
			tm.active, tm.fired = false, true
			s.now = max(s.now, tm.when)
			if f != nil {
				s.cur.daemon = false
			}
			if on != nil {
				on(s, r)
			}
		}
		call(r)
		if f != nil {
			f()
		}
	})
}

// Stop stops the timer and reports whether it was pending.
func (tm *Timer) Stop() bool {
	s := active()
	r := &request{name: "stop timer"}
	r.exec = func() {
		s.access(&s.clockO, kW)
		r.ok = tm.active
		tm.active = false
	}
	call(r)
	_, ok, _ := r.result()
	return ok
}

// Sleep waits.
func Sleep(d time.Duration) {
	if d <= 0 {
		Yield()
		return
	}
	c := MakeChan[struct{}](0)
	startTimer(d, func(s *sched, r *request) { s.closeExec(r, &c.c) }, nil)
	Recv(c)
}

// TimeTimer stands for time.Timer.
type TimeTimer struct {
	C *Chan[time.Time]
	t *Timer
	f func()
}

func sendNow(c *Chan[time.Time]) fire {
	return func(s *sched, r *request) {
		if k := &c.c; len(k.buf) < k.cap {
			s.push(r, k, time.Unix(0, s.now))
		} else {
			s.access(k.recvs(s), kR)
		}
	}
}

// NewTimer stands for time.NewTimer.
func NewTimer(d time.Duration) *TimeTimer {
	c := MakeChan[time.Time](1)
	return &TimeTimer{C: c, t: startTimer(d, sendNow(c), nil)}
}

// AfterFunc stands for time.AfterFunc.
func AfterFunc(d time.Duration, f func()) *TimeTimer {
	return &TimeTimer{t: startTimer(d, nil, f), f: f}
}

// Stop stops the timer.
func (t *TimeTimer) Stop() bool { return t.t.Stop() }

// Reset starts the timer again.
func (t *TimeTimer) Reset(d time.Duration) bool {
	was := t.t.Stop()
	if t.f != nil {
		t.t = startTimer(d, nil, t.f)
	} else {
		t.t = startTimer(d, sendNow(t.C), nil)
	}
	return was
}

// ---------------------------------------------------------------- contexts

// Ctx is the part of a cancellable context that the scheduler looks after.
type Ctx struct {
	Done     *Chan[struct{}]
	o        object
	id       uint64
	err      error
	cause    error
	children []*Ctx
	addr     byte
	Timer    *Timer
}

// NewCtx makes one.
func NewCtx() *Ctx {
	s := active()
	if s == nil {
		panic("rt: a context is made outside of an execution")
	}
	return &Ctx{Done: MakeChan[struct{}](0), id: chanID(s)}
}

func (c *Ctx) obj(s *sched) *object {
	if c.o.id == 0 {
		s.initObj(&c.o, "context")
		c.o.canon = c.id
	}
	return &c.o
}

// Adopt makes child end with c.
func (c *Ctx) Adopt(child *Ctx) {
	s := active()
	r := &request{name: "new context"}
	r.exec = func() {
		if c.err != nil {
			s.access(c.obj(s), kR)
			child.cancel(s, r, c.err, c.cause)
			return
		}
		s.access(c.obj(s), kA)
		c.children = append(c.children, child)
	}
	call(r)
}

// Cancel ends the context.
func (c *Ctx) Cancel(err, cause error) {
	s := active()
	r := &request{name: "cancel"}
	raceReleaseMerge(unsafe.Pointer(&c.addr))
	r.exec = func() { c.cancel(s, r, err, cause) }
	call(r)
}

func (c *Ctx) cancel(s *sched, r *request, err, cause error) {
	if c.err != nil {
		s.access(c.obj(s), kR)
		return
	}
	s.access(c.obj(s), kW)
	c.err, c.cause = err, cause
	if c.cause == nil {
		c.cause = err
	}
	if c.Timer != nil {
		s.access(&s.clockO, kW)
		c.Timer.active = false
	}
	r.acts = append(r.acts, act{2, unsafe.Pointer(&c.addr)}, act{2, unsafe.Pointer(&c.Done.c.closeAddr)})
	s.closeExec(r, &c.Done.c)
	for _, ch := range c.children {
		ch.cancel(s, r, err, c.cause)
	}
	c.children = nil
}

// CancelAfter ends the context after d.
func (c *Ctx) CancelAfter(d time.Duration, err, cause error) {
	tm := startTimer(d, func(s *sched, r *request) { c.cancel(s, r, err, cause) }, nil)
	setTimer(c, tm)
}

//go:norace
//go:noinline
func setTimer(c *Ctx, tm *Timer) { c.Timer = tm }

// Err reads the error.
func (c *Ctx) Err() (err, cause error) {
	s := active()
	r := &request{name: "Err"}
	r.exec = func() {
		s.access(c.obj(s), kR)
		r.acts = append(r.acts, act{0, unsafe.Pointer(&c.addr)})
		r.val = [2]error{c.err, c.cause}
	}
	call(r)
	v, _, _ := r.result()
	e := v.([2]error)
	return e[0], e[1]
}
