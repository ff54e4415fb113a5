package spec

import (
	"fmt"

	"verif/rt"
)

// Operations of the error holder. Errors are numbers; 0 is nil.
const (
	ErrSet = iota
	ErrLoad
)

var errModel = rt.Model{Init: 0, Apply: func(state any, rec *rt.OpRec) (any, bool) {
	if rec.Op == ErrLoad {
		return state, rec.Res.(int) == state.(int)
	}
	if e := rec.Args[0].(int); e != 0 {
		state = e
	}
	return state, true
}}

// CheckErr decides whether the recorded history is that of a register of errors.
func CheckErr() error {
	if ops := rt.History(); !errModel.Linearizable(ops) {
		return fmt.Errorf("no order of the calls explains their results:\n%s", rt.Show(ops))
	}
	return nil
}
