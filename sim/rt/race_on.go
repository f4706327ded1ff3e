//go:build race

package rt

import (
	"runtime"
	"unsafe"
)

const RaceEnabled = true

func raceOff()                     { runtime.RaceDisable() }
func raceOn()                      { runtime.RaceEnable() }
func RaceErrors() int              { return runtime.RaceErrors() }
func RaceRelease(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }
func RaceAcquire(p unsafe.Pointer) { runtime.RaceAcquire(p) }
