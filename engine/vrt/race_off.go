//go:build !race

package vrt

import "unsafe"

const RaceEnabled = false

func raceDisable()                      {}
func raceEnable()                       {}
func raceErrors() int                   { return 0 }
func raceAcquire(p unsafe.Pointer)      {}
func raceRelease(p unsafe.Pointer)      {}
func raceReleaseMerge(p unsafe.Pointer) {}

func RaceWrite(p []byte) {}
func RaceRead(p []byte)  {}
