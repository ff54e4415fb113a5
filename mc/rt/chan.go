package rt

import (
	"fmt"
	"unsafe"
)

// Channels follow the language: an operation on a channel either takes place or cannot take
// place yet. A hand-over on an unbuffered channel is one event of both goroutines; each case
// of a select that is ready is a transition of its own. Which of several waiting goroutines is
// served is open, as no program can tell which came first.

// Chan stands for a channel of T.
type Chan[T any] struct{ c chanCore }

type chanCore struct {
	id         uint64
	cap        int
	buf        []any
	sent, rcvd int    // buffered operations so far
	slots      []byte // addresses for annotations
	closeAddr  byte
	closed     bool
	st         object // open or closed
	tail, head object // number of sends and receives
	slotO      []object
}

// MakeChan is make(chan T, n).
func MakeChan[T any](n int) *Chan[T] {
	if n < 0 {
		panic(runtimeError("makechan: size out of range"))
	}
	if n > 1<<20 {
		panic("rt: a huge channel is made")
	}
	ch := &Chan[T]{c: chanCore{cap: n, slots: make([]byte, n)}}
	if s := active(); s != nil {
		ch.c.id = chanID(s)
	}
	return ch
}

// MakeLike is make of a channel type; the first argument only gives the type.
func MakeLike[T any](_ *Chan[T], n int) *Chan[T] { return MakeChan[T](n) }

//go:norace
//go:noinline
func chanID(s *sched) uint64 {
	t := s.cur
	if s.aborting || t == nil {
		return 0
	}
	t.kids++
	return mix(t.uid*31+t.kids) | 1
}

func core[T any](c *Chan[T]) *chanCore {
	if c == nil {
		return nil
	}
	return &c.c
}

func (s *sched) chanObj(c *chanCore, o *object, what string, n uint64) *object {
	if o.id == 0 {
		s.initObj(o, what)
		if c.id != 0 {
			o.canon = mix(c.id + n)
		}
	}
	return o
}

func (c *chanCore) status(s *sched) *object { return s.chanObj(c, &c.st, "chan", 0) }
func (c *chanCore) sends(s *sched) *object  { return s.chanObj(c, &c.tail, "tail", 1) }
func (c *chanCore) recvs(s *sched) *object  { return s.chanObj(c, &c.head, "head", 2) }
func (c *chanCore) slot(s *sched, n int) *object {
	if c.slotO == nil {
		c.slotO = make([]object, c.cap)
	}
	n %= c.cap
	o := s.chanObj(c, &c.slotO[n], "slot", 3+uint64(n))
	o.fixed = true
	return o
}

// Case is a case of a select.
type Case interface{ get() *selCase }

type selCase struct {
	c    *chanCore
	send bool
	v    any
	x    byte // address for annotations
}

func (c *selCase) get() *selCase { return c }

// RecvC is a receiving case with its result.
type RecvC[T any] struct {
	selCase
	V  T
	OK bool
}

// RecvCase makes a receiving case.
func RecvCase[T any](c *Chan[T]) *RecvC[T] { return &RecvC[T]{selCase: selCase{c: core(c)}} }

// SendCase makes a sending case.
func SendCase[T any](c *Chan[T]) func(T) *selCase {
	return func(v T) *selCase { return &selCase{c: core(c), send: true, v: v} }
}

func (c *RecvC[T]) set(v any, ok bool) {
	c.V, _ = v.(T)
	c.OK = ok
}

type setter interface{ set(v any, ok bool) }

// Select is a select statement; it returns the index of the case, or -1 for the default.
func Select(hasDefault bool, cases ...Case) int {
	cs := make([]*selCase, len(cases))
	for i, c := range cases {
		cs[i] = c.get()
	}
	v, ok, i := selectOp("select", hasDefault, cs)
	if i >= 0 {
		if r, is := cases[i].(setter); is {
			r.set(v, ok)
		}
	}
	return i
}

// SendTo is a send statement.
func SendTo[T any](c *Chan[T]) func(T) {
	return func(v T) {
		selectOp("send", false, []*selCase{{c: core(c), send: true, v: v}})
	}
}

// Recv is a receive expression.
func Recv[T any](c *Chan[T]) T {
	x, _, _ := selectOp("receive", false, []*selCase{{c: core(c)}})
	v, _ := x.(T)
	return v
}

// Recv2 is a receive expression with its second result.
func Recv2[T any](c *Chan[T]) (T, bool) {
	x, ok, _ := selectOp("receive", false, []*selCase{{c: core(c)}})
	v, _ := x.(T)
	return v, ok
}

// RangeFirst starts a range loop over a channel.
func RangeFirst[T any](c *Chan[T]) (*Chan[T], T, bool) {
	v, ok := Recv2(c)
	return c, v, ok
}

func selectOp(name string, hasDefault bool, cs []*selCase) (any, bool, int) {
	s := active()
	r := &request{name: name, chans: true, hasDefault: hasDefault, cases: cs}
	if s == nil {
		panic("rt: a channel is used outside of an execution")
	}
	for _, c := range cs { // what happened so far is passed on to the partner
		raceRelease(unsafe.Pointer(&c.x))
	}
	call(r)
	return r.result()
}

// alt is a transition: a thread's operation, or one of its cases, with the partner's.
type alt struct {
	t   *thread
	i   int // case, -1 for the default
	u   *thread
	j   int
	key uint64
}

func (s *sched) newAlt(t *thread, i int, u *thread, j int) alt {
	k := t.uid + uint64(i+2)*0x9e3779b97f4a7c15
	if u != nil {
		k = mix(k)*31 + u.uid + uint64(j+2)*0xbf58476d1ce4e5b9
	}
	return alt{t, i, u, j, mix(k)}
}

// alts lists the transitions of a state, by thread in the order of their creation.
func (s *sched) alts(out []alt) []alt {
	for _, t := range s.threads {
		if !t.ended {
			out = s.altsOf(t, out)
		}
	}
	return out
}

func (s *sched) altsOf(t *thread, out []alt) []alt {
	r := t.req
	if !r.chans {
		if r.enabled == nil || r.enabled() {
			out = append(out, s.newAlt(t, 0, nil, 0))
		}
		return out
	}
	ready := false
	for i, c := range r.cases {
		k := c.c
		if k == nil {
			continue
		}
		if k.closed || c.send && len(k.buf) < k.cap || !c.send && len(k.buf) > 0 {
			ready = true
			out = append(out, s.newAlt(t, i, nil, 0))
			continue
		}
		if !c.send || k.cap > 0 {
			continue
		}
		for _, u := range s.threads {
			if u == t || u.ended || !u.req.chans {
				continue
			}
			for j, d := range u.req.cases {
				if d.c == k && !d.send {
					out = append(out, s.newAlt(t, i, u, j))
				}
			}
		}
	}
	// a partner on an unbuffered channel may not have come yet
	if r.hasDefault && !ready {
		out = append(out, s.newAlt(t, -1, nil, 0))
	}
	return out
}

// chanExec performs a transition of an operation on channels.
func (s *sched) chanExec(a alt) {
	r := a.t.req
	r.idx = a.i
	if len(r.cases) > 1 || r.hasDefault {
		s.ev.choices = s.ev.choices*31 + uint64(a.i) + 2
	}
	if a.i < 0 {
		for _, c := range r.cases {
			if k := c.c; k != nil {
				s.access(k.status(s), kR)
				if k.cap > 0 {
					s.access(k.sends(s), kR)
					s.access(k.recvs(s), kR)
				}
			}
		}
		return
	}
	c := r.cases[a.i]
	k := c.c
	switch {
	case a.u != nil:
		d := a.u.req.cases[a.j]
		s.access(k.status(s), kR)
		s.ev.choices = (s.ev.choices*31+uint64(a.j)+2)*31 + a.u.uid
		a.u.req.idx, a.u.req.val, a.u.req.ok = a.j, c.v, true
		r.acts = append(r.acts, act{0, unsafe.Pointer(&d.x)})
		a.u.req.acts = append(a.u.req.acts, act{0, unsafe.Pointer(&c.x)})
	case c.send && k.closed:
		s.access(k.status(s), kR)
		r.panics = "send on closed channel"
	case c.send:
		s.access(k.status(s), kR)
		s.push(r, k, c.v)
	case len(k.buf) > 0:
		s.access(k.recvs(s), kW)
		s.access(k.slot(s, k.rcvd), kW)
		p := unsafe.Pointer(&k.slots[k.rcvd%k.cap])
		r.acts = append(r.acts, act{0, p}, act{1, p})
		r.val, r.ok = k.buf[0], true
		k.buf = append([]any(nil), k.buf[1:]...)
		k.rcvd++
	default: // closed and empty
		role := int8(-1)
		if len(r.cases) > 1 || r.hasDefault {
			role = 0
		}
		s.accessAs(k.status(s), kR, role)
		s.access(k.recvs(s), kR)
		r.acts = append(r.acts, act{0, unsafe.Pointer(&k.closeAddr)})
	}
}

// push puts a value into a buffer.
func (s *sched) push(r *request, k *chanCore, v any) {
	s.access(k.sends(s), kW)
	s.access(k.slot(s, k.sent), kW)
	p := unsafe.Pointer(&k.slots[k.sent%k.cap])
	r.acts = append(r.acts, act{0, p}, act{1, p})
	k.buf = append(k.buf, v)
	k.sent++
}

// Close is close of a channel.
func Close[T any](c *Chan[T]) { closeOp(core(c)) }

func closeOp(c *chanCore) {
	s := active()
	r := &request{name: "close"}
	if c != nil {
		raceRelease(unsafe.Pointer(&c.closeAddr))
	}
	r.exec = func() { s.closeExec(r, c) }
	call(r)
}

// closeExec is a close as part of the current event.
func (s *sched) closeExec(r *request, c *chanCore) {
	if c == nil {
		r.panics = "close of nil channel"
		return
	}
	if c.closed {
		s.access(c.status(s), kR)
		r.panics = "close of closed channel"
		return
	}
	s.accessAs(c.status(s), kW, 1)
	c.closed = true
}

// Len is len of a channel.
func Len[T any](c *Chan[T]) int {
	if c == nil {
		return 0
	}
	s := active()
	r := &request{name: "len"}
	r.exec = func() {
		s.access(c.c.sends(s), kR)
		s.access(c.c.recvs(s), kR)
		r.idx = len(c.c.buf)
	}
	call(r)
	_, _, n := r.result()
	return n
}

// Cap is cap of a channel.
func Cap[T any](c *Chan[T]) int {
	if c == nil {
		return 0
	}
	return c.c.cap
}

// describe writes a transition out.
func (a alt) describe() string {
	r := a.t.req
	if !r.chans {
		return r.name
	}
	if a.i < 0 {
		return r.name + " default"
	}
	n := r.name
	if len(r.cases) > 1 {
		n = fmt.Sprintf("%s case %d", n, a.i+1)
	}
	if a.u != nil {
		n += fmt.Sprintf(" to %s (%s)", a.u.name, a.u.stack)
	}
	return n
}

// RangeFirst0 and RecvOK are for range loops that do not use the values.
func RangeFirst0[T any](c *Chan[T]) (*Chan[T], bool) {
	_, ok := Recv2(c)
	return c, ok
}

// RecvOK receives and drops a value.
func RecvOK[T any](c *Chan[T]) bool {
	_, ok := Recv2(c)
	return ok
}
