// Package runtime has the names of the standard package that the scheduler has to know about.
package runtime

import "verif/rt"

func Gosched() { rt.Yield() }
