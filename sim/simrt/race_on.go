//go:build race

package simrt

import (
	"runtime"
	"sync"
	"unsafe"
)

// RaceBuild reports whether this binary carries the race detector.
const RaceBuild = true

func raceDisable()                 { runtime.RaceDisable() }
func raceEnable()                  { runtime.RaceEnable() }
func RaceAcquire(p unsafe.Pointer) { runtime.RaceAcquire(p) }
func RaceRelease(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }
func raceErrors() int              { return runtime.RaceErrors() }

// poolTask tells the simulator's sync.Pool which task is running.
func poolTask(run uint64, t *Task) {
	if t == nil {
		sync.SimTask = 0
		return
	}
	sync.SimTask = run<<24 | uint64(t.id) + 1
}
