//go:build !race

package vsync

import "unsafe"

func raceDisable()                      {}
func raceEnable()                       {}
func raceAcquire(p unsafe.Pointer)      {}
func raceRelease(p unsafe.Pointer)      {}
func raceReleaseMerge(p unsafe.Pointer) {}

// RaceErrors is the number of data races reported so far.
func RaceErrors() int { return 0 }

// RaceOn tells whether the race detector is built in.
const RaceOn = false
