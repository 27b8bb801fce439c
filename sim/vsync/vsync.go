//go:build go1.22

// Package vsync has the types of package sync, blocking through the simulated
// scheduler instead of the runtime. Every operation is still carried out on a
// real primitive, so the race detector sees the real happens-before edges.
package vsync

import (
	"sync"
	"sync/atomic"

	"github.com/TooManySugar/ll1parser/vsim"
)

type Locker = sync.Locker

type Mutex struct{ mu sync.Mutex }

func (m *Mutex) Lock() {
	vsim.Y(1)
	for !m.mu.TryLock() {
		vsim.Block()
	}
	vsim.Y(1)
}
func (m *Mutex) TryLock() bool { vsim.Y(1); return m.mu.TryLock() }
func (m *Mutex) Unlock()       { m.mu.Unlock(); vsim.Y(1) }

// RWMutex lets, as the real one does, nobody else read once a writer waits.
type RWMutex struct {
	mu   sync.RWMutex
	wait waiting
}

// waiting counts writers; it is not meant to order anything.
type waiting struct{ n int }

//go:norace
func (w *waiting) add(d int) { w.n += d }

//go:norace
func (w *waiting) any() bool { return w.n > 0 }

func (m *RWMutex) Lock() {
	vsim.Y(2)
	if !m.mu.TryLock() {
		m.await()
	}
	vsim.Y(2)
}

func (m *RWMutex) await() {
	m.wait.add(1)
	defer m.wait.add(-1)
	for {
		vsim.Block()
		if m.mu.TryLock() {
			return
		}
	}
}

func (m *RWMutex) RLock() {
	vsim.Y(2)
	for m.wait.any() || !m.mu.TryRLock() {
		vsim.Block()
	}
	vsim.Y(2)
}
func (m *RWMutex) TryLock() bool  { vsim.Y(2); return m.mu.TryLock() }
func (m *RWMutex) TryRLock() bool { vsim.Y(2); return !m.wait.any() && m.mu.TryRLock() }
func (m *RWMutex) Unlock()        { m.mu.Unlock(); vsim.Y(2) }
func (m *RWMutex) RUnlock()       { m.mu.RUnlock(); vsim.Y(2) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() sync.Locker { return (*rlocker)(m) }

type Once struct {
	m    Mutex
	done atomic.Bool
}

func (o *Once) Do(f func()) {
	vsim.Y(3)
	if o.done.Load() {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done.Load() {
		defer o.done.Store(true)
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var v1 T1
	var v2 T2
	return func() (T1, T2) { o.Do(func() { v1, v2 = f() }); return v1, v2 }
}

type WaitGroup struct {
	wg sync.WaitGroup
	n  atomic.Int64
}

func (w *WaitGroup) Add(d int) { vsim.Y(4); w.wg.Add(d); w.n.Add(int64(d)) }
func (w *WaitGroup) Done()     { vsim.Y(4); w.wg.Done(); w.n.Add(-1) }
func (w *WaitGroup) Wait() {
	vsim.Y(4)
	for w.n.Load() > 0 {
		vsim.Block()
	}
	w.wg.Wait()
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	vsim.Go(func() {
		defer w.Done()
		f()
	})
}

// Pool is deterministic: which pooled object (or a new one) Get returns is the
// simulator's decision.
type Pool struct {
	New   func() any
	mu    sync.Mutex
	items []any
	gen   int
}

// collected empties the pool if the garbage was collected meanwhile.
func (p *Pool) collected() {
	if g := vsim.Collections(); p.gen != g {
		p.gen, p.items = g, nil
	}
}

func (p *Pool) Get() any {
	vsim.Y(5)
	p.mu.Lock()
	p.collected()
	if n := len(p.items); n > 0 {
		if k := vsim.Choose(n*4 + 1); k < n*4 {
			i := n - 1 - (k/4)%n
			x := p.items[i]
			p.items = append(p.items[:i], p.items[i+1:]...)
			p.mu.Unlock()
			vsim.Y(5)
			return x
		}
	}
	p.mu.Unlock()
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x any) {
	vsim.Y(5)
	if x == nil {
		return
	}
	p.mu.Lock()
	p.collected()
	if len(p.items) < 64 {
		p.items = append(p.items, x)
	}
	p.mu.Unlock()
	vsim.Y(5)
}

type Map struct {
	m sync.Map
}

func (m *Map) Load(k any) (any, bool)           { vsim.Y(6); return m.m.Load(k) }
func (m *Map) Store(k, v any)                   { vsim.Y(6); m.m.Store(k, v) }
func (m *Map) LoadOrStore(k, v any) (any, bool) { vsim.Y(6); return m.m.LoadOrStore(k, v) }
func (m *Map) LoadAndDelete(k any) (any, bool)  { vsim.Y(6); return m.m.LoadAndDelete(k) }
func (m *Map) Delete(k any)                     { vsim.Y(6); m.m.Delete(k) }
func (m *Map) Swap(k, v any) (any, bool)        { vsim.Y(6); return m.m.Swap(k, v) }
func (m *Map) CompareAndSwap(k, o, n any) bool  { vsim.Y(6); return m.m.CompareAndSwap(k, o, n) }
func (m *Map) CompareAndDelete(k, o any) bool   { vsim.Y(6); return m.m.CompareAndDelete(k, o) }
func (m *Map) Range(f func(k, v any) bool)      { vsim.Y(6); m.m.Range(f) }
func (m *Map) Clear()                           { vsim.Y(6); m.m.Clear() }

type Cond struct {
	L   sync.Locker
	mu  sync.Mutex
	seq uint64
	rel uint64
}

func NewCond(l sync.Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	vsim.Y(7)
	c.mu.Lock()
	c.seq++
	me := c.seq
	c.mu.Unlock()
	c.L.Unlock()
	for {
		c.mu.Lock()
		ok := c.rel >= me
		c.mu.Unlock()
		if ok {
			break
		}
		vsim.Block()
	}
	c.L.Lock()
}
func (c *Cond) Signal() {
	vsim.Y(7)
	c.mu.Lock()
	if c.rel < c.seq {
		c.rel++
	}
	c.mu.Unlock()
}
func (c *Cond) Broadcast() {
	vsim.Y(7)
	c.mu.Lock()
	c.rel = c.seq
	c.mu.Unlock()
}
