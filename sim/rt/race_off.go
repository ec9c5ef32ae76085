//go:build !race

package rt

import "unsafe"

// RaceBuild tells whether the race detector is compiled in.
const RaceBuild = false

// RaceErrors is the number of data races reported so far.
func RaceErrors() int { return 0 }

func raceDisable() {}
func raceEnable()  {}

func RaceAcquire(p unsafe.Pointer)      {}
func RaceRelease(p unsafe.Pointer)      {}
func RaceReleaseMerge(p unsafe.Pointer) {}
