package core

import (
	"crypto/sha256"
	"fmt"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Machine is a system explored state by state. An instance couples a real object with
// its reference model. States are rebuilt by replaying their shortest operation path on
// a fresh instance, so every transition runs on the real code.
type Machine struct {
	Name   string
	New    func() any
	Ops    []string
	Step   func(w *W, inst any, op int) bool // false: the operation does not apply in this state
	Check  func(w *W, inst any)              // optional: observations made in every new state
	Canon  func(inst any) []byte             // default: everything reachable from the instance
	Depth  int                               // 0: until no new state is found
	States int                               // cap on states, 0: none
	// Exec, when set, runs a whole path (instead of calling body directly).
	Exec func(body func())
}

type node struct {
	parent int32
	op     uint16
	depth  uint16
}

type canonKey [16]byte

// BFSStats is what a search covered.
type BFSStats struct {
	States, Transitions int
	Depth               int
	Complete            bool // no state was left unexpanded
	Capped              bool
}

// BFS explores the machine breadth first.
func (c *Ctx) BFS(m *Machine) BFSStats {
	var (
		mu    sync.Mutex
		nodes = []node{{parent: -1}}
		seen  [64]struct {
			sync.Mutex
			m map[canonKey]struct{}
		}
	)
	for i := range seen {
		seen[i].m = map[canonKey]struct{}{}
	}
	key := func(inst any) canonKey {
		var b []byte
		if m.Canon != nil {
			b = m.Canon(inst)
		} else {
			b = Canon(time.Time{}, inst)
		}
		h := sha256.Sum256(b)
		return canonKey(h[:16])
	}
	add := func(k canonKey) bool {
		s := &seen[k[0]%64]
		s.Lock()
		defer s.Unlock()
		if _, ok := s.m[k]; ok {
			return false
		}
		s.m[k] = struct{}{}
		return true
	}
	path := func(n int32) []uint16 {
		mu.Lock()
		defer mu.Unlock()
		p := make([]uint16, nodes[n].depth)
		for i := len(p) - 1; i >= 0; i-- {
			p[i] = nodes[n].op
			n = nodes[n].parent
		}
		return p
	}
	names := func(p []uint16) string {
		var sb strings.Builder
		for i, op := range p {
			if i > 0 {
				sb.WriteString(" ; ")
			}
			sb.WriteString(m.Ops[op])
		}
		return sb.String()
	}
	exec := m.Exec
	if exec == nil {
		exec = func(body func()) { body() }
	}
	// run replays p and reports whether its last operation applied, and the key of the state reached.
	run := func(w *W, p []uint16, quiet bool) (applied bool, k canonKey, ok bool) {
		w.replay = map[string]any{"machine": m.Name, "path": p}
		atomic.AddInt64(&c.Traces, 1)
		ok = w.Case(func() string { return m.Name + ": " + names(p) }, func() {
			exec(func() {
				inst := m.New()
				applied = true
				for i, op := range p {
					if !m.Step(w, inst, int(op)) {
						if i != len(p)-1 {
							panic(fmt.Sprintf("machinery: replay diverged in %s at %d of %s", m.Name, i, names(p)))
						}
						applied = false
						return
					}
				}
				k = key(inst)
				if m.Check != nil && !quiet {
					m.Check(w, inst)
				}
			})
		})
		return
	}
	_, k0, ok := run(c.workers[0], nil, false)
	if !ok {
		return BFSStats{}
	}
	add(k0)
	var st BFSStats
	st.Complete = true
	var transitions atomic.Int64
	share := Share()
	// More states than expected mean that something in the object that does not matter tells states
	// apart (say, removed nodes that are still reachable): go on with the next exploration then.
	limit := int64(m.States)
	if limit == 0 {
		limit = int64(Pick(c, 500_000, 30_000_000))
	}
	var count atomic.Int64
	full := func() bool { return count.Load() >= limit }
	frontier := []int32{0}
	depth := 0
	for len(frontier) > 0 && !c.Stopped() {
		if m.Depth > 0 && depth >= m.Depth {
			st.Complete = false
			break
		}
		found := make([][]int32, c.Workers)
		var next atomic.Int64
		c.Parallel(c.Workers, func(w *W, i int) {
			for !c.Stopped() && !c.timeUp(share) && !full() {
				j := int(next.Add(1)) - 1
				if j >= len(frontier) {
					return
				}
				n := frontier[j]
				base := path(n)
				for op := range m.Ops {
					p := append(append(make([]uint16, 0, len(base)+1), base...), uint16(op))
					applied, k, ok := run(w, p, false)
					if c.Stopped() {
						return
					}
					if !applied && ok {
						continue
					}
					transitions.Add(1)
					if !ok || !add(k) { // a known finding: do not go on from there
						continue
					}
					count.Add(1)
					mu.Lock()
					nodes = append(nodes, node{n, uint16(op), uint16(depth + 1)})
					found[w.id] = append(found[w.id], int32(len(nodes)-1))
					mu.Unlock()
				}
			}
		})
		frontier = frontier[:0]
		for _, f := range found {
			frontier = append(frontier, f...)
		}
		if c.Stopped() || c.timeUp(share) || full() { // this depth was not completed
			st.Complete, st.Capped = false, true
			break
		}
		depth++
	}
	st.States = len(nodes)
	st.Transitions = int(transitions.Load())
	st.Depth = depth
	if st.Complete {
		st.Depth = depth - 1
	}
	atomic.AddInt64(&c.States, int64(st.States))
	atomic.AddInt64(&c.Transitions, int64(st.Transitions))
	what := "every reachable state"
	if !st.Complete {
		what = fmt.Sprintf("every operation sequence up to %d operations", st.Depth)
	}
	c.Bound(!st.Capped, "%s: %s: %d states, %d transitions, depth %d", m.Name, what, st.States, st.Transitions, st.Depth)
	if len(nodes) > 1 {
		c.Sample(m.Name + ": " + names(path(int32(len(nodes)-1))))
		c.Sample(m.Name + ": " + names(path(int32(len(nodes)/2))))
	}
	return st
}
