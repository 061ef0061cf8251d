//go:build !race

package simrt

import "unsafe"

// RaceBuild reports whether this binary carries the race detector.
const RaceBuild = false

func raceDisable()                 {}
func raceEnable()                  {}
func RaceAcquire(p unsafe.Pointer) {}
func RaceRelease(p unsafe.Pointer) {}
func raceErrors() int              { return 0 }

func poolTask(run uint64, t *Task) {}
