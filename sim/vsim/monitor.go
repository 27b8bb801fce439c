//go:build go1.22

package vsim

// Last resort: code that blocks outside the simulator (inside the standard
// library, on a primitive without a stand-in). A monitor sees that the running
// task makes no steps and, by its goroutine's wait reason, that it is blocked;
// another task is then scheduled. A task that gets unblocked parks at its next
// yield. The unmodified repository never gets here.

import (
	"bytes"
	"runtime"
	"sync/atomic"
	"time"
)

//go:norace
func goid() uint64 {
	var buf [64]byte
	n := runtime.Stack(buf[:], false)
	return parseGoid(buf[:n])
}

//go:norace
func parseGoid(b []byte) uint64 {
	const p = "goroutine "
	if len(b) < len(p) {
		return 0
	}
	b = b[len(p):]
	var v uint64
	for _, c := range b {
		if c < '0' || c > '9' {
			break
		}
		v = v*10 + uint64(c-'0')
	}
	return v
}

// Adopt declares that the current goroutine now speaks for the running task
// and returns the goroutine that did before.
//
//go:norace
func Adopt(id uint64) uint64 {
	t := s.cur
	if t == nil {
		return 0
	}
	old := t.goid
	if id == 0 {
		id = goid()
	}
	t.goid = id
	return old
}

// stacks returns the wait reason of every goroutine.
//
//go:norace
func stacks() map[uint64]string {
	buf := make([]byte, 1<<16)
	for {
		n := runtime.Stack(buf, true)
		if n < len(buf) {
			buf = buf[:n]
			break
		}
		buf = make([]byte, 2*len(buf))
	}
	res := map[uint64]string{}
	for _, g := range bytes.Split(buf, []byte("\n\n")) {
		id := parseGoid(g)
		i, j := bytes.IndexByte(g, '['), bytes.IndexByte(g, ']')
		if i > 0 && j > i {
			res[id] = string(g[i+1 : j])
		}
	}
	return res
}

//go:norace
func reallyBlocked(reason string) bool {
	for _, p := range []string{"chan ", "select", "sync.", "semacquire"} {
		if bytes.HasPrefix([]byte(reason), []byte(p)) {
			return true
		}
	}
	return false
}

// MonitorTick is the interval at which the monitor looks.
const MonitorTick = 25 * time.Millisecond

// monitorLooks is how often in a row it must see the same before it acts.
const monitorLooks = 5

// stuck says that the goroutine waits for something that can only come from
// another task: it is blocked, and not by the runtime itself (a collection, or
// the very dump that is taken here), and no other goroutine is about to run.
//
//go:norace
func stuck(id uint64) bool {
	self := goid()
	buf := make([]byte, 1<<16)
	for {
		n := runtime.Stack(buf, true)
		if n < len(buf) {
			buf = buf[:n]
			break
		}
		buf = make([]byte, 2*len(buf))
	}
	found := false
	for _, g := range bytes.Split(buf, []byte("\n\n")) {
		i, j := bytes.IndexByte(g, '['), bytes.IndexByte(g, ']')
		if i < 0 || j < i {
			continue
		}
		r, x := string(g[i+1:j]), parseGoid(g)
		switch {
		case x == self:
		case bytes.HasPrefix([]byte(r), []byte("run")): // running, runnable
			return false
		case x == id:
			if !reallyBlocked(r) {
				return false
			}
			if k := bytes.IndexByte(g, '\n'); k < 0 || bytes.HasPrefix([]byte(r), []byte("semacquire")) &&
				!bytes.HasPrefix(g[k+1:], []byte("sync.")) && !bytes.HasPrefix(g[k+1:], []byte("internal/")) {
				return false
			}
			found = true
		}
	}
	return found
}

//go:norace
func monitor(sc *Sched, stop chan struct{}) {
	RaceOff()
	defer RaceOn()
	tick := time.NewTicker(MonitorTick)
	defer tick.Stop()
	var cur *task
	var total uint64
	same, looks := 0, 0
	for {
		select {
		case <-stop:
			return
		case <-tick.C:
		}
		if sc.cur != cur || sc.progress != total || sc.handing {
			cur, total, same, looks = sc.cur, sc.progress, 0, 0
			continue
		}
		if same++; same < 2 || cur == nil || cur.done || cur.blocked {
			continue
		}
		if !stuck(cur.goid) || sc.cur != cur || sc.progress != total || sc.handing {
			looks = 0
			continue
		}
		if looks++; looks < monitorLooks {
			continue
		}
		looks = 0
		cur.blocked = true
		sc.nBlocked++
		next := sc.pickForced(cur)
		if next == nil {
			close(sc.allDone)
			return
		}
		sc.record(cur, cur.forced, next.id, true)
		sc.handing = true
		sc.cur = next
		next.ch <- struct{}{}
	}
}

var parkFlag [1024]atomic.Bool

// slowIdentify finds out which task the calling goroutine is. If it is not the
// running one it was blocked and has just been unblocked: it parks.
//
//go:norace
func slowIdentify(cur *task) *task {
	if s.nBlocked == 0 {
		return cur
	}
	id := goid()
	if id == cur.goid {
		settle(cur)
		return cur
	}
	for _, u := range s.tasks {
		if u.goid == id && !u.done {
			RaceOff()
			parkFlag[u.id%1024].Store(true)
			<-u.ch
			s.handing = false
			RaceOn()
			return u
		}
	}
	return cur
}

// settle waits until every task that was blocked either still is or has parked.
//
//go:norace
func settle(cur *task) {
	if s.nBlocked == 0 {
		return
	}
	RaceOff()
	defer RaceOn()
	for {
		var st map[uint64]string
		open := false
		for _, u := range s.tasks {
			if !u.blocked || u == cur {
				continue
			}
			if parkFlag[u.id%1024].Load() {
				parkFlag[u.id%1024].Store(false)
				u.blocked = false
				s.nBlocked--
				s.progress++
				continue
			}
			if st == nil {
				st = stacks()
			}
			if parkFlag[u.id%1024].Load() {
				open = true
				continue
			}
			if r, ok := st[u.goid]; ok && !reallyBlocked(r) {
				open = true
			}
		}
		if !open {
			return
		}
		runtime.Gosched()
	}
}

// settleOr waits a little for a really blocked task to come back.
//
//go:norace
func settleOr(cur *task) {
	for i := 0; i < 40 && s.nBlocked > 0; i++ {
		n := s.nBlocked
		settle(cur)
		if s.nBlocked < n {
			return
		}
		RaceOff()
		time.Sleep(time.Millisecond)
		RaceOn()
	}
}
