package vsim

import (
	"runtime"
	"runtime/metrics"
	"time"
)

// Held is the size of the live objects on the heap.
func Held() int64 {
	for i := 0; i < 3; i++ { // pools and finalizers take more than one round
		runtime.GC()
		time.Sleep(time.Millisecond) // of real time, for the cleanups
		forgetChans()
	}
	m := [1]metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	metrics.Read(m[:])
	return int64(m[0].Value.Uint64())
}
