package core

import (
	"fmt"
	"sync/atomic"
)

// Enum runs f on every i in [0, n), spread over the workers. f reports whether the case is
// non-trivial; the cases of one enumeration are distinct by construction.
func (c *Ctx) Enum(name string, n int, desc func(i int) string, f func(w *W, i int) bool) {
	counts := make([][16]int64, c.Workers) // spread out to keep workers off each other's cache lines
	c.Parallel(n, func(w *W, i int) {
		w.replay = i
		nt := false
		if w.Case(func() string { return name + ": " + desc(i) }, func() { nt = f(w, i) }) {
			counts[w.id][0]++
			if nt {
				counts[w.id][1]++
			}
		}
	})
	var e, d int64
	for i := range counts {
		e += counts[i][0]
		d += counts[i][1]
	}
	c.AddEvals(e, d)
	c.Bound(e == int64(n) || c.knownSeen(), "%s: all %d cases", name, n)
	if n > 0 {
		c.Sample(name + ": " + desc(n/2))
		if n > 2 {
			c.Sample(name + ": " + desc(n-1))
		}
	}
}

func (c *Ctx) knownSeen() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return len(c.known) > 0
}

// Words numbers all vectors over [0, Base) with lengths from Lo to Hi.
type Words struct{ Base, Lo, Hi int }

// N is the number of vectors.
func (s Words) N() int {
	n, p := 0, 1
	for l := 0; l <= s.Hi; l++ {
		if l >= s.Lo {
			n += p
		}
		p *= s.Base
	}
	return n
}

// At returns vector i.
func (s Words) At(i int) []int {
	p := 1
	for l := 0; l <= s.Hi; l++ {
		if l >= s.Lo {
			if i < p {
				v := make([]int, l)
				for k := range v {
					v[k] = i % s.Base
					i /= s.Base
				}
				return v
			}
			i -= p
		}
		p *= s.Base
	}
	panic(fmt.Sprintf("machinery: no vector %d in %v", i, s))
}

// Mixed decodes i in a mixed radix system.
func Mixed(i int, radix ...int) []int {
	v := make([]int, len(radix))
	for k, r := range radix {
		v[k] = i % r
		i /= r
	}
	return v
}

// Prod multiplies.
func Prod(radix ...int) int {
	n := 1
	for _, r := range radix {
		n *= r
	}
	return n
}

// CountRuns counts executions made outside of Enum.
func (c *Ctx) CountRuns(n int64) { atomic.AddInt64(&c.Evals, n) }
