//go:build !race

package vsync

import "unsafe"

func raceErrors() int              { return 0 }
func raceAcquire(p unsafe.Pointer) {}
func raceRelease(p unsafe.Pointer) {}
func raceText() string             { return "" }
