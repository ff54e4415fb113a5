// Package resets sets the package variables of the code under test to their initial values.
// The rewriter replaces it.
package resets

// All resets everything.
func All() {}
