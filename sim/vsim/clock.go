//go:build go1.22

package vsim

import "time"

// One tick of simulated time counts as one microsecond.

// TimeNow stands for time.Now.
func TimeNow() time.Time {
	Y(0)
	return time.Unix(1700000000, 0).Add(time.Duration(Now()) * time.Microsecond)
}

// TimeSince stands for time.Since.
func TimeSince(t time.Time) time.Duration { return TimeNow().Sub(t) }

// TimeUntil stands for time.Until.
func TimeUntil(t time.Time) time.Duration { return t.Sub(TimeNow()) }

// TimeSleep stands for time.Sleep.
func TimeSleep(d time.Duration) {
	Y(0)
	if d > 0 {
		Sleep(uint64(d/time.Microsecond) + 1)
	}
}
