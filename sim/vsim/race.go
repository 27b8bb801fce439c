//go:build race

package vsim

import (
	"runtime"
	"unsafe"
)

// RaceBuild tells whether the race detector is compiled in.
const RaceBuild = true

//go:norace
func RaceOff() { runtime.RaceDisable() }

//go:norace
func RaceOn() { runtime.RaceEnable() }

// RaceErrors is the number of data races reported so far.
func RaceErrors() int { return runtime.RaceErrors() }

var hbCell int64

//go:norace
func releaseAll() { runtime.RaceReleaseMerge(unsafe.Pointer(&hbCell)) }

//go:norace
func acquireAll() { runtime.RaceAcquire(unsafe.Pointer(&hbCell)) }

// raceAcq and raceRel tell the race detector about an edge of the memory model
// that a simulated operation stands for.
//
//go:norace
func raceAcq(p *byte) { runtime.RaceAcquire(unsafe.Pointer(p)) }

//go:norace
func raceRel(p *byte) { runtime.RaceReleaseMerge(unsafe.Pointer(p)) }

// heapFull is not asked of under the race detector, which would see the runtime
// do it; texts are short there.
func heapFull() bool { return false }

func watchChan(unsafe.Pointer, *chanState) {}

func forgetChans() {}
