//go:build race
// +build race

package sched

import (
	"runtime"
	"unsafe"
)

// The scheduler's own hand-overs don't order the accesses of the code under
// test; what does are its locks, which are reported here by vsync.

// Racing tells whether data races are looked for.
const Racing = true

func raceOff() { runtime.RaceDisable() }
func raceOn()  { runtime.RaceEnable() }

// Acquire, Release and ReleaseMerge order accesses like those of sync.
func Acquire(p unsafe.Pointer)      { runtime.RaceAcquire(p) }
func Release(p unsafe.Pointer)      { runtime.RaceRelease(p) }
func ReleaseMerge(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }
