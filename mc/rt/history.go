package rt

import "fmt"

// OpRec is a call the program records. Inv and Ret are numbers of events: the call began with
// the event Inv and had returned when the event Ret was over.
type OpRec struct {
	Thread   int
	Op       int
	Args     []any
	Res      any
	Panicked any
	Name     string
	Inv, Ret int
	begun    bool
}

// Begin records the start of a call. It takes place with the thread's next operation.
func Begin(op int, name string, args ...any) *OpRec {
	r := &request{name: "begin"}
	rec := &OpRec{Op: op, Name: name, Args: args, Inv: -1, Ret: -1}
	s := active()
	r.now = func() {
		rec.Thread = s.cur.id
		s.ops = append(s.ops, rec)
		s.cur.inv = append(s.cur.inv, rec)
	}
	call(r)
	return rec
}

// invoke is part of the start of an event of t.
func (s *sched) invoke(t *thread) {
	for _, rec := range t.inv {
		rec.Inv = len(s.events)
		s.access(&s.hist, kR)
	}
	t.inv = nil
}

// End records the return of a call. It has taken place with the thread's last operation.
func (rec *OpRec) End(res any) {
	s := active()
	r := &request{name: "end"}
	r.now = func() {
		rec.Res = res
		rec.Ret = len(s.events)
		rec.begins(s)
		s.access(&s.hist, kA)
	}
	call(r)
}

// During records what a call that has not returned has shown so far, as a call of its own that
// began with it and returns now.
func (rec *OpRec) During(op int, name string, res any, args ...any) {
	s := active()
	call(&request{name: "during", now: func() {
		rec.begins(s)
		s.access(&s.hist, kA)
		s.ops = append(s.ops, &OpRec{Thread: -1 - len(s.ops), Op: op, Name: name, Args: args, Res: res, Inv: rec.Inv, Ret: len(s.events)})
	}})
}

func (rec *OpRec) begins(s *sched) {
	if rec.Inv < 0 { // no operation at all
		rec.Inv = len(s.events)
		s.access(&s.hist, kR)
		for i, r := range s.cur.inv {
			if r == rec {
				s.cur.inv = append(s.cur.inv[:i:i], s.cur.inv[i+1:]...)
				break
			}
		}
	}
}

func (rec *OpRec) String() string {
	return fmt.Sprintf("thread %d: %s = %v [%d,%d]", rec.Thread, rec.Name, rec.Res, rec.Inv, rec.Ret)
}

// History returns the recorded calls.
func History() []*OpRec { return active().history() }

//go:norace
//go:noinline
func (s *sched) history() []*OpRec { return s.ops }

// Model is a sequential object. States must be comparable.
type Model struct {
	Init  any
	Apply func(state any, rec *OpRec) (next any, ok bool) // ok: the result is the one recorded
	Steps func(state any, rec *OpRec) []any               // instead of Apply: all states that can follow
}

// Linearizable searches an order of the calls that is consistent with real time and explains
// every result.
func (m *Model) Linearizable(ops []*OpRec) bool {
	n := len(ops)
	type key struct {
		done uint64
		st   any
	}
	seen := map[key]bool{}
	// must[i]: the calls that have to come before call i
	must := make([]uint64, n)
	for i, a := range ops {
		for j, b := range ops {
			if i != j && (b.Thread == a.Thread && j < i || b.Ret >= 0 && b.Ret < a.Inv) {
				must[i] |= 1 << j
			}
		}
	}
	var rec func(done uint64, st any) bool
	rec = func(done uint64, st any) bool {
		if done == 1<<n-1 {
			return true
		}
		k := key{done, st}
		if seen[k] {
			return false
		}
		seen[k] = true
		for i := range ops {
			if done&(1<<i) == 0 && must[i]&^done == 0 {
				if m.Steps != nil {
					for _, next := range m.Steps(st, ops[i]) {
						if rec(done|1<<i, next) {
							return true
						}
					}
				} else if next, ok := m.Apply(st, ops[i]); ok && rec(done|1<<i, next) {
					return true
				}
			}
		}
		return false
	}
	return rec(0, m.Init)
}

// Show writes a history out.
func Show(ops []*OpRec) string {
	s := ""
	for _, o := range ops {
		s += o.String() + "\n"
	}
	return s
}
