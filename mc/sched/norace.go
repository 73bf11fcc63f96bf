//go:build !race
// +build !race

package sched

import "unsafe"

// Racing tells whether data races are looked for.
const Racing = false

func raceOff() {}
func raceOn()  {}

// Acquire, Release and ReleaseMerge order accesses like those of sync.
func Acquire(p unsafe.Pointer)      {}
func Release(p unsafe.Pointer)      {}
func ReleaseMerge(p unsafe.Pointer) {}
