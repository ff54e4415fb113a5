//go:build !race

package rt

import "unsafe"

// RaceBuild tells whether the race detector is built in.
const RaceBuild = false

func raceAcquire(p unsafe.Pointer)      {}
func raceRelease(p unsafe.Pointer)      {}
func raceReleaseMerge(p unsafe.Pointer) {}
func raceErrors() int                   { return 0 }
