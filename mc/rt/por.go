package rt

import "slices"

// Dynamic partial-order reduction. An execution stands for all that have the same partial order
// of events. In each state one transition is taken at first. Whenever an event turns out to
// conflict with an earlier one and could have come before it, a transition that leads there is
// added to those to be taken before the earlier one. Beyond the conflicts of what was done,
// these are considered:
//
//   - the other transitions of the goroutines that take part in a transition, for they exclude
//     each other;
//   - the other cases of a select: an event that would have made one of them possible, had it
//     come earlier;
//   - hand-overs that did not take place: a goroutine that reaches an operation whose partner
//     has done something else by then.

// choice is a transition of a node.
type choice struct {
	key  uint64
	t, u int
}

func (n *node) add(key uint64) {
	if slices.Contains(n.todo, key) {
		return
	}
	n.todo = append(n.todo, key)
	var c choice
	for _, a := range n.en {
		if a.key == key {
			c = a
		}
	}
	for _, a := range n.en { // they exclude it
		if (a.has(c.t) || c.u >= 0 && a.has(c.u)) && n.sleep[a.key] == nil {
			n.add(a.key)
		}
	}
}

func (c choice) has(t int) bool { return c.t == t || c.u == t }

func known(clock []int32, e *event) bool {
	return e.t.id < len(clock) && clock[e.t.id] >= e.idx
}

func (x *Explorer) reduces() bool { return !x.free && !x.Cached && x.Bound < 0 && x.stack != nil }

// races looks for what the last event could have come before.
func (x *Explorer) races(s *sched, j *event) {
	if !x.reduces() || x.pos < x.begun || j.node < 0 {
		return
	}
	for k := int(j.i) - 1; k >= 0; k-- {
		i := s.events[k]
		if i.node < 0 || known(j.before, i) || known(j.ubefore, i) {
			continue
		}
		if i.conflicts(j) || i.missed(i.req, j) || i.missed(i.ureq, j) {
			x.reverse(s, i, j, nil)
		}
	}
	x.arrives(s, j.t)
	if j.u != nil {
		x.arrives(s, j.u)
	}
	for _, w := range j.wakes {
		x.arrives(s, w)
	}
}

// conflicts tells whether event j could come before i instead of after it.
func (i *event) conflicts(j *event) bool {
	if j.all || i.all {
		// settling comes after all that is possible, but timers
		return (j.all && i.t.daemon) || i.all
	}
	for _, a := range i.acc {
		for _, b := range j.acc {
			if a.o == b.o && conflicts(a.k, b.k) && !a.o.fixed && (a.role <= 0 || a.role != -b.role) {
				return true
			}
		}
	}
	return false
}

// missed tells whether event j affects a case that event i did not take.
func (i *event) missed(r *request, j *event) bool {
	if r == nil || !r.chans || len(r.cases) < 2 {
		return false
	}
	for _, c := range r.cases {
		k := c.c
		if k == nil {
			continue
		}
		for _, a := range j.acc {
			if a.k == kW && (a.o == &k.st || c.send && a.o == &k.head || !c.send && a.o == &k.tail) {
				return true
			}
		}
	}
	return false
}

// arrives looks for events whose goroutines could have handed something over to or from t
// instead.
func (x *Explorer) arrives(s *sched, t *thread) {
	if t.ended || t.req == nil || !t.req.chans {
		return
	}
	for k := len(s.events) - 1; k >= 0; k-- {
		i := s.events[k]
		if i.node < 0 || known(t.clock, i) {
			continue
		}
		if i.offers(i.req, t.req) || i.offers(i.ureq, t.req) {
			x.reverse(s, i, nil, t)
		}
	}
}

func (i *event) offers(r, q *request) bool {
	if r == nil || !r.chans {
		return false
	}
	for _, c := range r.cases {
		for _, d := range q.cases {
			if c.c != nil && c.c == d.c && c.c.cap == 0 && c.send != d.send {
				return true
			}
		}
	}
	return false
}

// end looks at the goroutines that wait for ever and at timers that were stopped.
func (x *Explorer) end(s *sched) {
	if !x.reduces() {
		return
	}
	for _, t := range s.threads {
		if t.ended {
			continue
		}
		if t.req.timer {
			for n := len(s.events) - 1; n >= 0; n-- {
				i := s.events[n]
				if i.node < 0 || known(t.clock, i) {
					continue
				}
				for _, a := range i.acc {
					if a.k == kW && a.o == &s.clockO {
						x.reverse(s, i, nil, t)
					}
				}
			}
		}
		for _, c := range t.req.cases {
			k := c.c
			if k == nil {
				continue
			}
			o := &k.head
			if c.send {
				o = &k.tail
			}
			for n := len(s.events) - 1; n >= 0; n-- {
				i := s.events[n]
				if i.node < 0 || known(t.clock, i) {
					continue
				}
				for _, a := range i.acc {
					if a.k == kW && (a.o == o || a.o == &k.st) {
						x.reverse(s, i, nil, t)
					}
				}
			}
		}
	}
}

// reverse makes the exploration try what leads to event j, or to the next operation of t, before
// i. It takes the events since i that do not come after it in the order of events, and after
// them j: one of those that can come first is added.
func (x *Explorer) reverse(s *sched, i, j *event, t *thread) {
	n := x.stack[i.node]
	last := int32(len(s.events))
	since := int32(-1)
	var before []int32
	u := (*thread)(nil)
	if j != nil {
		last = j.i
		t, u = j.t, j.u
		before, since = j.vc, max(j.prev, j.uprev)
	} else {
		before, since = t.clock, t.since
	}
	var first uint64
	direct := since < i.i // nothing has to come before j
	for k := i.i + 1; k < last; k++ {
		e := s.events[k]
		if known(e.vc, i) {
			continue
		}
		initial := true
		for m := i.i + 1; m < k && initial; m++ {
			initial = !known(e.vc, s.events[m])
		}
		if !initial {
			continue
		}
		if known(before, e) {
			direct = false
		}
		if n.sleep[e.key] != nil || slices.Contains(n.todo, e.key) {
			return
		}
		if first == 0 || known(before, e) {
			first = e.key
		}
	}
	if direct {
		found := false
		for _, a := range n.en {
			if a.has(t.id) || u != nil && a.has(u.id) {
				found = true
				if n.sleep[a.key] == nil {
					n.add(a.key)
				}
			}
		}
		if found {
			return
		}
	}
	if first != 0 {
		n.add(first)
		return
	}
	for _, a := range n.en {
		if n.sleep[a.key] == nil {
			n.add(a.key)
		}
	}
}
