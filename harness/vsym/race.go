//go:build race

package vsym

import (
	"runtime"
	"unsafe"
)

var ioSync byte

// RaceOff and RaceOn enclose synchronisation that is not the program's.
func RaceOff() { runtime.RaceDisable() }
func RaceOn()  { runtime.RaceEnable() }

// Sent and Received order writing to and reading from the network.
func Sent()     { runtime.RaceReleaseMerge(unsafe.Pointer(&ioSync)) }
func Received() { runtime.RaceAcquire(unsafe.Pointer(&ioSync)) }
