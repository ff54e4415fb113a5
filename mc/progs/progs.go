// Package progs holds the programs that exercise the code under test. They are rewritten
// together with it.
package progs

import "verif/rt"

// Check is the exploration that decides a property.
type Check struct {
	ID, Level, Rule string
	Bounds          func(thorough bool) string
	Progs           func(thorough bool) []rt.Prog
}

// patterns lists calls of several goroutines in regular patterns: goroutine t's i-th call has the number
// (a+b*i+c*t) mod n of an alphabet of n. Of all a, b, c every step-th one is taken, from off on.
func patterns(n, step, off int, f func(number func(t, i int) int)) {
	for x := off % step; x < n*n*n; x += step {
		a, b, c := x/n/n, x/n%n, x%n
		f(func(t, i int) int { return (a + b*i + c*t) % n })
	}
}
