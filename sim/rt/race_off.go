//go:build !race

package rt

import "unsafe"

const RaceEnabled = false

func raceOff()                     {}
func raceOn()                      {}
func RaceErrors() int              { return 0 }
func RaceRelease(p unsafe.Pointer) {}
func RaceAcquire(p unsafe.Pointer) {}
