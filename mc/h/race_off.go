//go:build !race && go1.22

package main

import "unsafe"

const raceOn = false

func raceErrors() int                   { return 0 }
func raceAcquire(p unsafe.Pointer)      {}
func raceReleaseMerge(p unsafe.Pointer) {}
func raceReadRange(b []byte)            {}
func raceWriteRange(b []byte)           {}
