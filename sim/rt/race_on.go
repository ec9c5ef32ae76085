//go:build race

package rt

import (
	"runtime"
	"unsafe"
)

// RaceBuild tells whether the race detector is compiled in.
const RaceBuild = true

// RaceErrors is the number of data races reported so far.
func RaceErrors() int { return runtime.RaceErrors() }

//go:norace
func raceDisable() { runtime.RaceDisable() }

//go:norace
func raceEnable() { runtime.RaceEnable() }

//go:norace
func RaceAcquire(p unsafe.Pointer) { runtime.RaceAcquire(p) }

//go:norace
func RaceRelease(p unsafe.Pointer) { runtime.RaceRelease(p) }

//go:norace
func RaceReleaseMerge(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }
