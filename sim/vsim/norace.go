//go:build !race

package vsim

import (
	"runtime"
	"runtime/metrics"
	"sync"
	"unsafe"
)

// RaceBuild tells whether the race detector is compiled in.
const RaceBuild = false

func RaceOff() {}
func RaceOn()  {}

// RaceErrors is the number of data races reported so far.
func RaceErrors() int { return 0 }

func releaseAll() {}
func acquireAll() {}

func raceAcq(*byte) {}
func raceRel(*byte) {}

const heapLimit = 5 << 29

// heapFull says that the process holds more than a run may take. It is asked
// every two million steps of a task.
func heapFull() bool {
	m := [1]metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	metrics.Read(m[:])
	if m[0].Value.Uint64() < heapLimit {
		return false
	}
	runtime.GC() // some of it may be garbage
	metrics.Read(m[:])
	return m[0].Value.Uint64() >= heapLimit
}

// channels that were collected
var gone struct {
	sync.Mutex
	l []*chanState
}

func watchChan(p unsafe.Pointer, c *chanState) {
	runtime.AddCleanup((*byte)(p), func(c *chanState) {
		gone.Lock()
		gone.l = append(gone.l, c)
		gone.Unlock()
	}, c)
}

func forgetChans() {
	gone.Lock()
	for _, c := range gone.l {
		unregister(c)
	}
	gone.l = nil
	gone.Unlock()
}
