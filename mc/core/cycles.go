package core

import (
	"fmt"
	"strings"
)

// Cycles runs every periodic history of the machine: every word of at most period operations,
// repeated until steps operations were made. Operations that do not apply are left out. It
// reaches sizes and ages that the breadth-first search does not.
func (c *Ctx) Cycles(m *Machine, period, steps, every int) {
	sp := Words{Base: len(m.Ops), Lo: 1, Hi: period}
	name := func(i int) string {
		var s []string
		for _, op := range sp.At(i) {
			s = append(s, m.Ops[op])
		}
		return fmt.Sprintf("(%s)* for %d operations", strings.Join(s, " ; "), steps)
	}
	exec := m.Exec
	if exec == nil {
		exec = func(body func()) { body() }
	}
	c.Enum(m.Name+", periodic histories", sp.N(), name, func(w *W, i int) bool {
		word := sp.At(i)
		moved := false
		exec(func() {
			inst := m.New()
			idle := 0
			for n := 0; n < steps; n++ {
				if !m.Step(w, inst, word[n%len(word)]) {
					if idle++; idle >= len(word) {
						break // none applies any more
					}
					continue
				}
				idle, moved = 0, true
				if m.Check != nil && (n+1)%every == 0 {
					m.Check(w, inst)
				}
			}
			if m.Check != nil {
				m.Check(w, inst)
			}
		})
		return moved
	})
}
