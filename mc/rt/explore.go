package rt

import (
	"fmt"
	"slices"
	"strings"
	"time"
	"unsafe"
)

// Explorer runs a program under every schedule, depth first, one execution per path. Two
// schedules that differ only in the order of operations that commute count as one: see por.go
// for how the transitions to be taken in each state are found. Sleep sets leave out transitions
// that have been explored before. With Cached set, all transitions of every state are taken
// instead, and an execution is stopped where it reaches a state that has been explored (a state
// is an execution's partial order of events); this is used to validate the reduction.
type Explorer struct {
	MaxSteps   int
	ClockMoves bool  // reading the clock is an operation of its own
	MapOrders  bool  // every order of a map is explored
	Bound      int   // bound on preemptions, or -1
	Base       int   // 0, or a deterministic scheduler from which at most Bound deviations are made
	MaxStates  int64 // 0: none
	Deadline   time.Time
	LeakOK     bool // goroutines left behind are not reported
	Cached     bool // explore state by state instead of with partial-order reduction

	Execs, States, Transitions int64
	Steps                      int // longest execution
	Outcomes                   map[string]int64
	Complete                   bool
	Fail                       *Failure
	Trace                      []string
	Path                       []uint64

	stack []*node
	pos   int
	seen  map[uint64][]uint64 // by signature: the threads asleep
	pre   map[uint64]int      // by signature and last thread: fewest preemptions
	begun int                 // nodes when the execution began
	Ends  map[uint64]bool     // the complete executions, if not nil
	free  bool                // no exploration: always the first possibility
}

type footprint struct {
	canon uint64
	id    int
	k     kind
}

// asleep is a transition that need not be taken: what it accesses, and how many objects were
// known when that was recorded. Objects get their numbers in the order of their first use, so
// later numbers can mean other objects in other executions.
type asleep struct {
	base int
	acc  []footprint
}

func (q *asleep) clash(last []access) bool {
	for _, x := range q.acc {
		for _, y := range last {
			if !conflicts(x.k, y.k) {
				continue
			}
			if x.canon != 0 || y.o.canon != 0 {
				if x.canon == y.o.canon {
					return true
				}
			} else if x.id == y.o.id || x.id > q.base && y.o.id > q.base {
				return true
			}
		}
	}
	return false
}

type node struct {
	choose bool
	n, cur int
	// scheduling nodes
	sig   uint64
	todo  []uint64 // keys of transitions, in the order to be explored
	cost  []bool   // taking it is a preemption
	en    []choice // with partial-order reduction: what was possible
	nobj  int
	sleep map[uint64]*asleep // by key
	union []footprint        // accesses of the current transition, over its choices
}

// Run explores a program.
func (x *Explorer) Run(reset func(), main func()) {
	if x.MaxSteps == 0 {
		x.MaxSteps = 3000
	}
	x.seen = map[uint64][]uint64{}
	x.pre = map[uint64]int{}
	x.Outcomes = map[string]int64{}
	x.Complete = true
	for {
		s := x.execute(reset, main, false)
		if s.fail != nil {
			x.Fail = s.fail
			for _, n := range x.stack {
				if n.choose {
					x.Path = append(x.Path, uint64(n.cur))
				} else {
					x.Path = append(x.Path, n.todo[n.cur])
				}
			}
			if !strings.HasPrefix(s.fail.Key, "data race") {
				s = x.execute(reset, main, true)
				if s.fail == nil {
					x.Trace = []string{"(another result when run again: the program depends on something outside of the schedule)"}
				} else {
					x.Fail = s.fail
					x.Trace = s.trace
				}
			} else {
				s = x.execute(reset, main, true)
				x.Trace = s.trace
			}
			return
		}
		if x.MaxStates > 0 && x.States >= x.MaxStates || !x.Deadline.IsZero() && time.Now().After(x.Deadline) {
			x.Complete = false
			return
		}
		if !x.backtrack() {
			return
		}
	}
}

// Single runs a program under one schedule: threads in the order of their creation, first choices.
// A panic of main is passed on.
func Single(main func()) *Failure {
	x := &Explorer{LeakOK: true, Bound: -1, Outcomes: map[string]int64{}}
	var p any
	ended := false
	f := x.once(func() {
		defer func() {
			if !ended {
				p = recover()
			}
		}()
		main()
		ended = true
	})
	if p != nil {
		panic(p)
	}
	return f
}

func (x *Explorer) once(main func()) *Failure {
	if x.MaxSteps == 0 {
		x.MaxSteps = 1000000
	}
	x.free = true
	return x.execute(nil, main, false).fail
}

func (x *Explorer) execute(reset func(), main func(), verbose bool) *sched {
	s := &sched{x: x, objs: map[unsafe.Pointer]*object{}, state: map[unsafe.Pointer]any{}, Env: map[string]any{}, verbose: verbose}
	s.now = Epoch
	Beat.Add(1)
	x.pos = 0
	x.begun = len(x.stack)
	races := raceErrors()
	setActive(s)
	s.run(func() {
		if reset != nil {
			reset()
		}
		main()
	})
	if s.fail == nil && !x.free && raceErrors() != races {
		s.failf("data race", "the race detector reports a data race in this execution (its report is above)")
	}
	if s.fail == nil && !s.pruned {
		x.Outcomes[s.outcome]++
		if x.Ends != nil {
			x.Ends[s.sig] = true
		}
	}
	x.Execs++
	if len(s.events) > x.Steps {
		x.Steps = len(s.events)
	}
	s.kill()
	setActive(nil)
	return s
}

//go:norace
//go:noinline
func setActive(s *sched) { s0 = s }

// atNode is called in every state. It reports whether the execution need not go on.
func (x *Explorer) atNode(s *sched) bool {
	if x.free {
		return false
	}
	if x.pos == len(x.stack) {
		if n := x.parent(); n != nil {
			x.note(s, n)
		}
	}
	if x.pos < len(x.stack) {
		n := x.stack[x.pos]
		if n.choose || n.sig != s.sig {
			panic(fmt.Sprintf("machinery: the program behaves differently when the same schedule is run again (step %d)", x.pos))
		}
		return false
	}
	return false
}

// note adds the accesses of the last event to the transition of node n.
func (x *Explorer) note(s *sched, n *node) {
	e := s.events[len(s.events)-1]
next:
	for _, a := range e.acc {
		for i, b := range n.union {
			if b.id == a.o.id {
				if b.k != a.k {
					n.union[i].k = kW
				}
				continue next
			}
		}
		n.union = append(n.union, footprint{a.o.canon, a.o.id, a.k})
	}
}

func (x *Explorer) pick(s *sched, en []alt) (alt, bool) {
	if x.free {
		return en[0], true
	}
	byKey := func(k uint64) (alt, bool) {
		for _, a := range en {
			if a.key == k {
				return a, true
			}
		}
		panic("machinery: a transition is not possible when the same schedule is run again")
	}
	if x.pos < len(x.stack) {
		n := x.stack[x.pos]
		x.pos++
		if n.cost != nil && n.cost[n.cur] {
			s.preempt++
		}
		return byKey(n.todo[n.cur])
	}
	n := &node{sig: s.sig, nobj: s.nobj}
	if x.Base > 0 {
		// one transition is free, every other one is a deviation
		a0, key := 0, s.sig
		if l := s.last; l.t != nil {
			key = mix(key ^ l.t.uid)
			if l.u != nil {
				key = mix(key ^ l.u.uid)
			}
			switch x.Base {
			case 1, 2: // go on with the last thread, or else with the oldest or youngest
				if x.Base == 2 {
					a0 = len(en) - 1
				}
				for i, a := range en {
					if a.t == l.t || a.u == l.t || l.u != nil && (a.t == l.u || a.u == l.u) {
						a0 = i
						break
					}
				}
			case 3: // in turn
				for i, a := range en {
					if a.t.id > l.t.id {
						a0 = i
						break
					}
				}
			}
		}
		n.todo, n.cost = []uint64{en[a0].key}, []bool{false}
		for i, a := range en {
			if i != a0 && s.preempt < x.Bound {
				n.todo = append(n.todo, a.key)
				n.cost = append(n.cost, true)
			}
		}
		old, ok := x.pre[key]
		if ok && old <= s.preempt {
			return alt{}, false
		}
		x.pre[key] = s.preempt
		if !ok {
			x.States++
		}
	} else if x.Bound >= 0 {
		// going on with a thread of the last event is no preemption
		goesOn := func(a alt) bool {
			l := s.last
			return l.t != nil && (a.t == l.t || a.u == l.t || l.u != nil && (a.t == l.u || a.u == l.u))
		}
		could := false
		for _, a := range en {
			if goesOn(a) {
				could = true
				n.todo = append(n.todo, a.key)
				n.cost = append(n.cost, false)
			}
		}
		for _, a := range en {
			if !goesOn(a) && (!could || s.preempt < x.Bound) {
				n.todo = append(n.todo, a.key)
				n.cost = append(n.cost, could)
			}
		}
		key := s.sig
		if could {
			key = mix(key ^ s.last.t.uid)
			if s.last.u != nil {
				key = mix(key ^ s.last.u.uid)
			}
		}
		old, ok := x.pre[key]
		if ok && old <= s.preempt {
			return alt{}, false
		}
		x.pre[key] = s.preempt
		if !ok {
			x.States++
		}
	} else {
		// the transitions asleep here: those asleep or done at the node before that commute with the last one
		n.sleep = map[uint64]*asleep{}
		if p := x.parent(); p != nil {
			if last := s.events[len(s.events)-1]; !last.all {
				for k, q := range p.sleep {
					if !q.clash(last.acc) {
						n.sleep[k] = q
					}
				}
			}
		}
		old, ok := x.seen[s.sig]
		if !x.Cached {
			if !ok {
				x.States++
				x.seen[s.sig] = nil
			}
			n.en = make([]choice, len(en))
			for i, a := range en {
				n.en[i] = choice{a.key, a.t.id, -1}
				if a.u != nil {
					n.en[i].u = a.u.id
				}
			}
			for _, a := range en {
				if n.sleep[a.key] == nil {
					n.add(a.key)
					break
				}
			}
		} else if ok {
			var keep []uint64
			for _, k := range old {
				if _, asleep := n.sleep[k]; asleep {
					keep = append(keep, k)
				} else {
					n.todo = append(n.todo, k)
				}
			}
			if len(n.todo) == 0 {
				return alt{}, false
			}
			for k := range n.sleep {
				if !slices.Contains(old, k) {
					delete(n.sleep, k)
				}
			}
			x.seen[s.sig] = keep
		} else {
			x.States++
			var z []uint64
			for _, a := range en {
				if _, asleep := n.sleep[a.key]; asleep {
					z = append(z, a.key)
				} else {
					n.todo = append(n.todo, a.key)
				}
			}
			x.seen[s.sig] = z
		}
	}
	if len(n.todo) == 0 {
		return alt{}, false
	}
	x.stack = append(x.stack, n)
	x.pos++
	x.Transitions++
	if n.cost != nil && n.cost[0] {
		s.preempt++
	}
	return byKey(n.todo[0])
}

// parent is the node of the transition that led to the current state.
func (x *Explorer) parent() *node {
	for p := len(x.stack) - 1; p >= 0; p-- {
		if !x.stack[p].choose {
			return x.stack[p]
		}
	}
	return nil
}

func (x *Explorer) choose(s *sched, n int) int {
	if x.free {
		return 0
	}
	if x.pos < len(x.stack) {
		c := x.stack[x.pos]
		if !c.choose || c.n != n {
			panic("machinery: the program makes other choices when the same schedule is run again")
		}
		x.pos++
		return c.cur
	}
	x.stack = append(x.stack, &node{choose: true, n: n})
	x.pos++
	x.Transitions++
	return 0
}

// backtrack moves to the next path.
func (x *Explorer) backtrack() bool {
	for len(x.stack) > 0 {
		n := x.stack[len(x.stack)-1]
		if n.choose {
			if n.cur+1 < n.n {
				n.cur++
				x.Transitions++
				return true
			}
		} else {
			if n.sleep != nil {
				n.sleep[n.todo[n.cur]] = &asleep{n.nobj, n.union}
			}
			n.union = nil
			if n.cur+1 < len(n.todo) {
				n.cur++
				x.Transitions++
				return true
			}
		}
		x.stack = x.stack[:len(x.stack)-1]
	}
	return false
}

// Prog is a program to explore.
type Prog struct {
	Name       string
	Run        func()
	Preempt    int   // bound on preemptions plus 1; 0: none
	Base       int   // see Explorer; Preempt-1 is the bound on deviations
	MaxStates  int64 // 0: none
	MaxSteps   int
	ClockMoves bool
	MapOrders  bool
	LeakOK     bool // goroutines left behind are not reported
	Cached     bool
	Machine    any    // a *core.Machine to be explored instead of Run, each path of it in one thread
	Broken     string // for tests of the machinery: the violation that must be found
}

// Explorer makes an explorer for the program.
func (p *Prog) Explorer() *Explorer {
	return &Explorer{Bound: p.Preempt - 1, Base: p.Base, MaxStates: p.MaxStates, MaxSteps: p.MaxSteps, ClockMoves: p.ClockMoves, MapOrders: p.MapOrders, LeakOK: p.LeakOK, Cached: p.Cached}
}
