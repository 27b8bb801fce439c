//go:build go1.22

package vsim

// Channels of the code under test. A channel made by instrumented code is
// registered; its real channel is its identity (and its capacity), while the
// values travel through the state kept here, so that every send, receive and
// select is a decision of the scheduler. The edges of the Go memory model are
// told to the race detector. Channels made elsewhere (by the standard library)
// are polled.

import (
	"time"
	"unsafe"
)

type chanState struct {
	p      uintptr
	keep   unsafe.Pointer // the channel, so that no other one has its address
	next   *chanState     // in the hash bucket
	buf    []any
	slots  []byte // addresses for the race detector, one per place in buf
	head   int
	n      int
	closed bool
	hb     byte
	q      *waiter // waiting receivers and senders, in order
}

type waiter struct {
	sel  *selState
	c    *chanState
	idx  int
	send bool
	val  any
	next *waiter
	hb   byte // released by the waiter when it began to wait
	hb2  byte // released by the one that completed the operation
	slot *byte
}

type selState struct {
	fired int
	by    *waiter
	val   any
	ok    bool
	close bool
}

const nBuckets = 1 << 10

var buckets [nBuckets]*chanState

//go:norace
func bucket(p uintptr) **chanState {
	return &buckets[(p>>5^p>>15)%nBuckets]
}

//go:norace
func lookup(p unsafe.Pointer) *chanState {
	for c := *bucket(uintptr(p)); c != nil; c = c.next {
		if c.p == uintptr(p) {
			return c
		}
	}
	return nil
}

//go:norace
func register(p unsafe.Pointer, n int) {
	b := bucket(uintptr(p))
	c := &chanState{p: uintptr(p), next: *b, buf: make([]any, n), slots: make([]byte, n)}
	*b = c
	if s != nil && s.noLog && !RaceBuild {
		watchChan(p, c)
	} else {
		c.keep = p
	}
}

// unregister removes the state of a channel that is no more.
//
//go:norace
func unregister(c *chanState) {
	for b := bucket(c.p); *b != nil; b = &(*b).next {
		if *b == c {
			*b = c.next
			return
		}
	}
}

//go:norace
func ptrOf[C any](ch C) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }

// MakeChan registers a channel.
func MakeChan[C ~chan T, T any](ch C) C {
	register(ptrOf(ch), cap(ch))
	return ch
}

// a case of a select

type Case interface{ base() *caseBase }

type caseBase struct {
	c    *chanState
	null bool
	send bool
	val  any
	poll func() bool // channel that is not registered
	die  func()      // raises the panic of a send on a closed channel
}

type RCase[T any] struct {
	caseBase
	Val T
	OK  bool
}

func (c *RCase[T]) base() *caseBase   { return &c.caseBase }
func (c *RCase[T]) set(v any, k bool) { c.Val, _ = v.(T); c.OK = k }

type setter interface{ set(any, bool) }

type SCase struct{ caseBase }

func (c *SCase) base() *caseBase { return &c.caseBase }

func RecvCase[T any](ch <-chan T) *RCase[T] {
	k := &RCase[T]{}
	k.null = ch == nil
	if !k.null {
		k.c = lookup(ptrOf(ch))
		if k.c == nil {
			k.poll = func() bool {
				select {
				case k.Val, k.OK = <-ch:
					return true
				default:
					return false
				}
			}
		}
	}
	return k
}

func SendCase[T any](ch chan<- T) func(T) *SCase {
	return func(v T) *SCase {
		k := &SCase{}
		k.send = true
		k.null = ch == nil
		if !k.null {
			k.c = lookup(ptrOf(ch))
			k.val = v
			k.die = func() { ch <- v }
			if k.c == nil {
				k.poll = func() bool {
					select {
					case ch <- v:
						return true
					default:
						return false
					}
				}
			}
		}
		return k
	}
}

func SendTo[T any](ch chan<- T) func(T) {
	return func(v T) { Select(false, SendCase(ch)(v)) }
}

func Recv[T any](ch <-chan T) T {
	k := RecvCase(ch)
	Select(false, k)
	return k.Val
}

func Recv2[T any](ch <-chan T) (T, bool) {
	k := RecvCase(ch)
	Select(false, k)
	return k.Val, k.OK
}

func Close[T any](ch chan<- T) {
	Y(12)
	close(ch) // raises the panics of close
	if ch != nil {
		if c := lookup(ptrOf(ch)); c != nil {
			c.shut()
		}
	}
}

func ChanLen[T any](ch <-chan T) int {
	if ch != nil {
		if c := lookup(ptrOf(ch)); c != nil {
			return c.length()
		}
	}
	return len(ch)
}

//go:norace
func (c *chanState) length() int { return c.n }

//go:norace
func (c *chanState) shut() {
	c.closed = true
	raceRel(&c.hb)
	s.progress++
	for w := c.q; w != nil; w = w.next {
		if w.sel.fired < 0 {
			w.sel.fired, w.sel.by, w.sel.close = w.idx, w, true
			w.sel.val, w.sel.ok = nil, false
		}
	}
	c.q = nil
}

// waiting returns the first live waiter of the given kind that is not me.
//
//go:norace
func (c *chanState) waiting(send bool, me *selState) *waiter {
	for w := c.q; w != nil; w = w.next {
		if w.send == send && w.sel.fired < 0 && w.sel != me {
			return w
		}
	}
	return nil
}

//go:norace
func (c *chanState) drop(sel *selState) {
	for pp := &c.q; *pp != nil; {
		if (*pp).sel == sel {
			*pp = (*pp).next
		} else {
			pp = &(*pp).next
		}
	}
}

//go:norace
func (k *caseBase) ready() bool {
	c := k.c
	if k.null || c == nil {
		return false
	}
	if k.send {
		return c.closed || c.n < len(c.buf) || c.waiting(false, nil) != nil
	}
	return c.closed || c.n > 0 || c.waiting(true, nil) != nil
}

// complete carries out an operation that is ready.
//
//go:norace
func (k *caseBase) complete() (v any, ok, dead bool) {
	c := k.c
	s.progress++
	if k.send {
		if c.closed {
			raceAcq(&c.hb)
			return nil, false, true
		}
		if w := c.waiting(false, nil); w != nil {
			w.sel.fired, w.sel.by, w.sel.val, w.sel.ok = w.idx, w, k.val, true
			if len(c.buf) == 0 {
				raceAcq(&w.hb)
				raceRel(&w.hb2)
			} else {
				w.slot = &c.slots[c.head]
				raceAcq(w.slot)
				raceRel(w.slot)
				c.head = (c.head + 1) % len(c.buf)
			}
			c.drop(w.sel)
			return nil, true, false
		}
		i := (c.head + c.n) % len(c.buf)
		raceAcq(&c.slots[i])
		raceRel(&c.slots[i])
		c.buf[i] = k.val
		c.n++
		return nil, true, false
	}
	if c.n > 0 {
		i := c.head
		v = c.buf[i]
		c.buf[i] = nil
		raceAcq(&c.slots[i])
		raceRel(&c.slots[i])
		c.head = (c.head + 1) % len(c.buf)
		c.n--
		if w := c.waiting(true, nil); w != nil {
			j := (c.head + c.n) % len(c.buf)
			raceAcq(&w.hb)
			raceRel(&c.slots[j])
			w.slot = &c.slots[j]
			c.buf[j] = w.val
			c.n++
			w.sel.fired, w.sel.by, w.sel.ok = w.idx, w, true
			c.drop(w.sel)
		}
		return v, true, false
	}
	if w := c.waiting(true, nil); w != nil { // no buffer
		raceAcq(&w.hb)
		raceRel(&w.hb2)
		w.sel.fired, w.sel.by, w.sel.ok = w.idx, w, true
		c.drop(w.sel)
		return w.val, true, false
	}
	raceAcq(&c.hb)
	return nil, false, false
}

// enqueue makes the case wait.
//
//go:norace
func (k *caseBase) enqueue(sel *selState, idx int) {
	w := &waiter{sel: sel, c: k.c, idx: idx, send: k.send, val: k.val}
	raceRel(&w.hb)
	pp := &k.c.q
	for *pp != nil {
		pp = &(*pp).next
	}
	*pp = w
}

//go:norace
func (sel *selState) result() (idx int, closed bool) {
	if sel.fired < 0 {
		return -1, false
	}
	w := sel.by
	if sel.close {
		raceAcq(&w.c.hb)
		return sel.fired, true
	}
	if w.slot != nil {
		raceAcq(w.slot)
		raceRel(w.slot)
	} else {
		raceAcq(&w.hb2)
	}
	return sel.fired, false
}

//go:norace
func newSel() *selState { return &selState{fired: -1} }

//go:norace
func (sel *selState) value() (any, bool) { return sel.val, sel.ok }

// Select carries out one of the operations and returns its number, or -1 if
// none is possible and def is set.
func Select(def bool, cases ...Case) int {
	Y(12)
	external := false
	for _, k := range cases {
		if b := k.base(); !b.null && b.c == nil {
			external = true
		}
	}
	var ready []int
	for {
		ready = ready[:0]
		for i, k := range cases {
			if k.base().ready() {
				ready = append(ready, i)
			}
		}
		if len(ready) > 0 {
			i := ready[Choose(len(ready))]
			b := cases[i].base()
			v, ok, dead := b.complete()
			if dead {
				b.die()
			}
			if r, is := cases[i].(setter); is {
				r.set(v, ok)
			}
			Y(12)
			return i
		}
		if external {
			for i, k := range cases {
				if b := k.base(); b.poll != nil && b.poll() {
					return i
				}
			}
		}
		if def {
			return -1
		}
		sel := newSel()
		for i, k := range cases {
			if b := k.base(); b.c != nil {
				b.enqueue(sel, i)
			}
		}
		wait(sel, cases, external)
		if i, closed := sel.result(); i >= 0 {
			if closed && cases[i].base().send {
				cases[i].base().die()
			}
			if r, is := cases[i].(setter); is {
				r.set(sel.value())
			}
			Y(12)
			return i
		}
	}
}

func wait(sel *selState, cases []Case, external bool) {
	defer dropAll(sel, cases)
	if external {
		if !TryBlock() {
			time.Sleep(time.Millisecond) // only the outside world can help
			if waited(time.Millisecond) {
				Block()
			}
		}
		return
	}
	for {
		Block()
		if i, _ := peek(sel); i >= 0 {
			return
		}
	}
}

//go:norace
func peek(sel *selState) (int, bool) { return sel.fired, sel.ok }

//go:norace
func dropAll(sel *selState, cases []Case) {
	for _, k := range cases {
		if c := k.base().c; c != nil {
			c.drop(sel)
		}
	}
}

var realWait time.Duration

// waited adds up real time spent waiting in a run; more than two seconds are a
// deadlock.
//
//go:norace
func waited(d time.Duration) bool {
	realWait += d
	return realWait > 2*time.Second
}

// ------------------------------------------------------------------- timers

// Timer stands for time.Timer.
type Timer struct {
	C   <-chan time.Time
	c   chan time.Time
	f   func()
	gen *int
}

//go:norace
func (t *Timer) cancel() (active bool) {
	active = t.gen != nil && *t.gen == 0
	if t.gen != nil {
		*t.gen = 1
	}
	return
}

func (t *Timer) start(d time.Duration) {
	gen := new(int)
	t.gen = gen
	Daemon(uint64(max(0, d/time.Microsecond))+1, gen, func() {
		if t.f != nil {
			Go(t.f)
			return
		}
		Select(true, SendCase((chan<- time.Time)(t.c))(TimeNow()))
	})
}

func (t *Timer) Stop() bool { Y(0); return t.cancel() }

func (t *Timer) Reset(d time.Duration) bool {
	Y(0)
	a := t.cancel()
	t.start(d)
	return a
}

func NewTimer(d time.Duration) *Timer {
	Y(0)
	c := MakeChan(make(chan time.Time, 1))
	t := &Timer{C: c, c: c}
	t.start(d)
	return t
}

func AfterFunc(d time.Duration, f func()) *Timer {
	Y(0)
	t := &Timer{f: f}
	t.start(d)
	return t
}

func TimeAfter(d time.Duration) <-chan time.Time { return NewTimer(d).C }

// Ticker stands for time.Ticker. It gives up after many ticks, so that a run
// with a forgotten ticker ends.
type Ticker struct {
	C <-chan time.Time
	t *Timer
	n int
}

func NewTicker(d time.Duration) *Ticker {
	Y(0)
	c := MakeChan(make(chan time.Time, 1))
	k := &Ticker{C: c, t: &Timer{}}
	k.t.f = func() {
		Select(true, SendCase((chan<- time.Time)(c))(TimeNow()))
		if k.n++; k.n < 200 {
			k.t.start(d)
		}
	}
	k.t.start(d)
	return k
}

func (k *Ticker) Stop() { Y(0); k.t.cancel() }

func Tick(d time.Duration) <-chan time.Time { return NewTicker(d).C }
