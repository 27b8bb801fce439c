//go:build go1.22

// Package vsim is the scheduler of the simulation. Instrumented code calls Y
// before every statement. Exactly one task runs at any time; which one is
// decided here, by a policy that is a pure function of a seed (or by an
// explicit list of switches when a run is replayed).
//
// Everything in this file is go:norace and every hand-off between tasks is
// wrapped in RaceOff/RaceOn, so the race detector sees neither the scheduler's
// own data nor a happens-before edge from a hand-off: with -race it reports
// exactly the accesses that the program under test leaves unordered.
package vsim

import (
	"fmt"
	"math"
	"os"
	"sort"
)

// ---------------------------------------------------------------- randomness

// Rand is splitmix64.
type Rand struct{ S uint64 }

//go:norace
func (r *Rand) U64() uint64 {
	r.S += 0x9E3779B97F4A7C15
	z := r.S
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

//go:norace
func (r *Rand) N(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

//go:norace
func (r *Rand) F() float64 { return float64(r.U64()>>11) / (1 << 53) }

//go:norace
func Mix(a, b uint64) uint64 {
	r := Rand{a ^ (b+0x632BE59BD9B4E019)*0x9E3779B97F4A7C15}
	return r.U64()
}

// -------------------------------------------------------------------- policy

// Policy decides the interleaving of one run.
type Policy struct {
	Kind string // "seq", "random", "pct", "site", "rr", "replay"
	Seed uint64
	P    float64 // random: probability of a switch at a step
	D    int     // pct: number of priority changes
	Len  int     // pct: assumed length of the run
	Q    int     // rr: quantum
	// replay: explicit switches
	Switches []Switch `json:",omitempty"`
}

// Switch is one scheduling decision: at step Step of task Task (0 = when the
// task ended or blocked for the At-th time) control went to task To.
type Switch struct {
	Task, Step, To int
	Forced         bool `json:",omitempty"` // the task ended, slept or blocked
}

// --------------------------------------------------------------------- tasks

type task struct {
	id      int
	ch      chan struct{}
	steps   int
	forced  int
	limit   int
	noYield int
	done    bool
	waiting bool
	waitAt  uint64
	wakeAt  uint64
	prio    int
	mapSeq  uint64
	child   bool // started by a go statement of the code under test
	parent  int  // the task whose child this one is counted as
	owner   int
	opKids  int
	goid    uint64
	blocked bool // really blocked, seen by the monitor
	soft    bool // waiting, but can go on at any time
	doomed  bool // part of a deadlock
}

// StepLimit is the panic raised in a task that exceeded its step budget.
type StepLimit struct{ Steps int }

func (s StepLimit) Error() string { return fmt.Sprintf("vsim: step budget of %d exhausted", s.Steps) }

// Deadlock is the panic raised in a task that can never run again.
type Deadlock struct{}

func (Deadlock) Error() string { return "vsim: deadlock" }

type Sched struct {
	tasks    []*task
	cur      *task
	now      uint64 // simulated time: one tick per step, jumps over sleeps
	progress uint64
	total    uint64
	pol      Policy
	rng      Rand
	mapSeed  uint64
	changes  map[uint64]int
	replay   map[int]map[swKey]int
	site     uint32
	siteK    int
	siteHit  int
	allDone  chan struct{}
	log      []Switch
	noLog    bool // the schedule is not recorded: the policy repeats it
	hash     uint64
	slept    uint64
	Crashes  []string
	nBlocked int
	handing  bool // the next task has not come to run yet
	switches int
	streak   int // steps since the last switch
}

type swKey struct {
	step   int
	forced bool
}

var s = &Sched{}

// NSites is the number of instrumented sites, set by generated code.
var NSites uint32

var (
	siteHits  []uint32
	pairBits  [1 << 14]uint64 // hashed set of (site, from, to) preemptions
	pairCount int
)

// Stats of the run that ended last.
type Stats struct {
	Steps    uint64
	Time     uint64
	Slept    uint64
	Switches int
	Hash     uint64
	Log      []Switch
	Crashes  []string
	LogFull  bool
	Leaked   int
}

const maxLog = 200000

// DefaultLimit is the step budget of a task unless SetLimit says otherwise.
const DefaultLimit = 3000000

// Run executes the bodies as tasks under the policy and returns when all of
// them, and all tasks they started, have ended.
//
//go:norace
func Run(pol Policy, mapSeed uint64, bodies []func()) Stats {
	s = &Sched{pol: pol, rng: Rand{pol.Seed}, mapSeed: mapSeed, allDone: make(chan struct{})}
	if siteHits == nil {
		siteHits = make([]uint32, NSites+64)
	}
	realWait = 0
	n := len(bodies)
	for i := 0; i < n; i++ {
		s.tasks = append(s.tasks, &task{id: i, ch: make(chan struct{}, 1), limit: DefaultLimit, parent: -1, owner: i})
	}
	s.preparePolicy()
	for i := 0; i < n; i++ {
		spawn(s.tasks[i], bodies[i])
	}
	if n > 0 {
		first := s.pickFirst()
		s.handing = true
		s.cur = first
		stop := make(chan struct{})
		go monitor(s, stop)
		RaceOff()
		first.ch <- struct{}{}
		<-s.allDone
		close(stop)
		RaceOn()
		acquireAll() // everything the tasks did happened before this point
	}
	st := Stats{Steps: s.total, Time: s.now, Slept: s.slept, Switches: s.switches, Hash: s.hash,
		Log: s.log, Crashes: s.Crashes, LogFull: len(s.log) >= maxLog || s.noLog}
	for _, t := range s.tasks {
		if !t.done {
			st.Leaked++
		}
	}
	s.cur = nil
	return st
}

// spawn starts the goroutine of a task; it waits until it is scheduled.
//
//go:norace
func spawn(t *task, body func()) {
	go taskMain(t, body)
}

//go:norace
func taskMain(t *task, body func()) {
	RaceOff()
	<-t.ch
	s.handing = false
	RaceOn()
	t.goid = goid()
	defer finish(t)
	body()
}

// finish runs deferred, so that a task which calls runtime.Goexit or panics
// hands over control as well.
//
//go:norace
func finish(t *task) {
	if r := recover(); r != nil {
		if _, ok := r.(Deadlock); !ok || !t.child {
			s.Crashes = append(s.Crashes, fmt.Sprintf("task %d (child=%v) panicked: %v", t.id, t.child, r))
		}
	}
	if s.nBlocked > 0 {
		slowIdentify(t)
		settle(t)
	}
	releaseAll()
	t.done = true
	if t.parent >= 0 {
		s.tasks[t.parent].opKids--
	}
	s.progress++
	next := s.pickForced(t)
	if next == nil {
		RaceOff()
		close(s.allDone)
		RaceOn()
		return
	}
	s.record(t, t.forced, next.id, true)
	s.handing = true
	s.cur = next
	RaceOff()
	next.ch <- struct{}{}
	RaceOn()
}

// ------------------------------------------------------------------ the yield

// Y is called before every statement of the instrumented code.
//
//go:norace
func Y(site uint32) {
	t := s.cur
	if t == nil {
		return
	}
	if s.nBlocked > 0 {
		t = slowIdentify(t)
	}
	if t.noYield > 0 {
		return
	}
	t.steps++
	s.total++
	s.now++
	s.progress++
	if int(site) < len(siteHits) {
		siteHits[site]++
	}
	if t.steps > t.limit {
		t.limit = t.limit + DefaultLimit // let deferred code run
		panic(StepLimit{t.steps})
	}
	if t.steps&(1<<21-1) == 0 && heapFull() {
		// endless growth would take the machine down before the budget ends it
		t.limit = t.steps + DefaultLimit
		panic(StepLimit{t.steps})
	}
	if len(s.tasks) == 1 {
		return
	}
	s.streak++
	next := s.decide(t, site)
	if next == nil || next == t {
		if s.streak > maxStreak {
			s.rotate(t)
		}
		return
	}
	s.record(t, t.steps, next.id, false)
	notePair(site, t, next)
	s.switchTo(t, next)
}

//go:norace
func notePair(site uint32, t, next *task) {
	h := Mix(uint64(site), uint64(next.id)<<8|uint64(t.id)) & (1<<20 - 1)
	if pairBits[h>>6]&(1<<(h&63)) == 0 {
		pairBits[h>>6] |= 1 << (h & 63)
		pairCount++
	}
}

// maxStreak is the number of steps after which another runnable task gets a
// turn whatever the policy says: schedulers are fair in the end, and code may
// rely on that (spinning on an atomic, for example).
const maxStreak = 20000

// rotate hands over to the next runnable task in order of number. It depends
// on the state only, so a replay does the same without being told.
//
//go:norace
func (s *Sched) rotate(t *task) {
	s.streak = 0
	for i := 1; i < len(s.tasks); i++ {
		u := s.tasks[(t.id+i)%len(s.tasks)]
		if s.runnable(u) {
			s.switches++
			s.hash = Mix(s.hash, uint64(t.id)<<40^uint64(t.steps)<<8^uint64(u.id)<<1^uint64(1)<<60)
			s.switchTo(t, u)
			return
		}
	}
}

//go:norace
func (s *Sched) switchTo(t, next *task) {
	s.handing = true
	s.cur = next
	s.streak = 0
	RaceOff()
	next.ch <- struct{}{}
	<-t.ch
	s.handing = false
	RaceOn()
}

//go:norace
func (s *Sched) record(t *task, step, to int, forced bool) {
	s.switches++
	if len(s.log) < maxLog && !s.noLog {
		s.log = append(s.log, Switch{t.id, step, to, forced})
	}
	s.hash = Mix(s.hash, uint64(t.id)<<40^uint64(step)<<8^uint64(to)<<1^uint64(b2i(forced)))
}

//go:norace
func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

//go:norace
func (s *Sched) runnable(t *task) bool {
	if t.done || t.blocked {
		return false
	}
	if t.wakeAt > s.now {
		return false
	}
	if t.waiting && t.waitAt == s.progress {
		return false
	}
	return true
}

//go:norace
func (s *Sched) preparePolicy() {
	switch s.pol.Kind {
	case "pct":
		perm := s.perm(len(s.tasks))
		for i, t := range s.tasks {
			t.prio = 1000 + perm[i]
		}
		s.changes = map[uint64]int{}
		for i := 0; i < s.pol.D; i++ {
			s.changes[1+s.rng.U64()%uint64(max(1, s.pol.Len))] = i + 1
		}
	case "site":
		if NSites > 0 {
			s.site = uint32(s.rng.N(int(NSites)))
		}
		s.siteK = 1 + s.rng.N(6)
	case "replay":
		s.replay = map[int]map[swKey]int{}
		for _, sw := range s.pol.Switches {
			m := s.replay[sw.Task]
			if m == nil {
				m = map[swKey]int{}
				s.replay[sw.Task] = m
			}
			m[swKey{sw.Step, sw.Forced}] = sw.To
		}
	}
}

//go:norace
func (s *Sched) perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := s.rng.N(i + 1)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

//go:norace
func (s *Sched) pickFirst() *task {
	switch s.pol.Kind {
	case "replay":
		if m := s.replay[-1]; m != nil {
			if to, ok := m[swKey{0, true}]; ok && to < len(s.tasks) {
				s.log = append(s.log, Switch{-1, 0, to, true})
				return s.tasks[to]
			}
		}
		return s.tasks[0]
	case "pct":
		t := s.highest(nil)
		s.log = append(s.log, Switch{-1, 0, t.id, true})
		return t
	case "seq":
		return s.tasks[0]
	}
	t := s.tasks[s.rng.N(len(s.tasks))]
	s.log = append(s.log, Switch{-1, 0, t.id, true})
	return t
}

//go:norace
func (s *Sched) highest(not *task) *task {
	var best *task
	for _, t := range s.tasks {
		if t == not || !s.runnable(t) {
			continue
		}
		if best == nil || t.prio > best.prio {
			best = t
		}
	}
	return best
}

//go:norace
func (s *Sched) randomOther(t *task) *task {
	n := 0
	for _, u := range s.tasks {
		if u != t && s.runnable(u) {
			n++
		}
	}
	if n == 0 {
		return nil
	}
	k := s.rng.N(n)
	for _, u := range s.tasks {
		if u != t && s.runnable(u) {
			if k == 0 {
				return u
			}
			k--
		}
	}
	return nil
}

// decide returns the task that shall run after this step (nil or t: go on).
//
//go:norace
func (s *Sched) decide(t *task, site uint32) *task {
	switch s.pol.Kind {
	case "random":
		if s.rng.F() >= s.pol.P {
			return nil
		}
		return s.randomOther(t)
	case "pct":
		if d, ok := s.changes[s.total]; ok {
			t.prio = 100 - d
			return s.highest(nil)
		}
		return nil
	case "rr":
		if t.steps%max(1, s.pol.Q) != 0 {
			return nil
		}
		for i := 1; i < len(s.tasks); i++ {
			u := s.tasks[(t.id+i)%len(s.tasks)]
			if s.runnable(u) {
				return u
			}
		}
		return nil
	case "site":
		if site != s.site {
			if s.rng.U64()%1024 == 0 {
				return s.randomOther(t)
			}
			return nil
		}
		s.siteHit++
		if s.siteHit%s.siteK != 0 {
			return nil
		}
		return s.randomOther(t)
	case "replay":
		m := s.replay[t.id]
		if m == nil {
			return nil
		}
		to, ok := m[swKey{t.steps, false}]
		if !ok || to >= len(s.tasks) || !s.runnable(s.tasks[to]) {
			return nil
		}
		return s.tasks[to]
	}
	return nil
}

// pickForced chooses a successor for a task that cannot go on. Simulated time
// jumps when only sleepers remain.
//
//go:norace
func (s *Sched) pickForced(t *task) *task {
	t.forced++
	for {
		if s.pol.Kind == "replay" {
			if to, ok := s.replay[t.id][swKey{t.forced, true}]; ok && to < len(s.tasks) && s.tasks[to] != t && s.runnable(s.tasks[to]) {
				return s.tasks[to]
			}
		}
		var next *task
		switch s.pol.Kind {
		case "pct":
			next = s.highest(t)
		case "seq", "replay", "rr":
			for _, u := range s.tasks {
				if u != t && s.runnable(u) {
					next = u
					break
				}
			}
		default:
			next = s.randomOther(t)
		}
		if next != nil {
			return next
		}
		wake := uint64(math.MaxUint64)
		for _, u := range s.tasks {
			if !u.done && !u.blocked && u.wakeAt > s.now && u.wakeAt < wake {
				wake = u.wakeAt
			}
		}
		if wake == math.MaxUint64 {
			for _, u := range s.tasks {
				if u != t && !u.done && !u.blocked && u.waiting && u.soft {
					return u
				}
			}
			if t.soft && t.waiting {
				return nil
			}
			// A waiter that nobody can help: let it find out.
			for _, u := range s.tasks {
				if u != t && !u.done && !u.blocked && u.waiting {
					return u
				}
			}
			return nil
		}
		s.now = wake
		if !t.done && t.wakeAt != 0 && t.wakeAt <= s.now {
			return t
		}
	}
}

// Block is called by a task that found a condition unsatisfied. It returns
// when something else has made progress, and panics with Deadlock when nothing
// ever will.
//
//go:norace
func Block() {
	t := s.cur
	if t == nil {
		panic(Deadlock{})
	}
	t.waiting = true
	t.waitAt = s.progress
	helped := false
	for _, u := range s.tasks {
		if u != t && !u.done && !u.blocked && (!u.waiting || u.soft || u.waitAt != s.progress) {
			helped = true
		}
	}
	var next *task
	if helped {
		next = s.pickForced(t)
	}
	if next == nil && s.nBlocked > 0 {
		// a task that is blocked outside the simulator may yet help
		settleOr(t)
		next = s.pickForced(t)
	}
	if next == nil {
		// everybody who waits is part of the deadlock
		for _, u := range s.tasks {
			if u != t && !u.done && u.waiting {
				u.doomed = true
			}
		}
		t.waiting = false
		panic(Deadlock{})
	}
	if next != t {
		s.record(t, t.forced, next.id, true)
		s.switchTo(t, next)
	}
	t.waiting = false
	if t.doomed {
		t.doomed = false
		panic(Deadlock{})
	}
}

// TryBlock lets others run. It returns false if nobody but the caller could
// make progress.
//
//go:norace
func TryBlock() bool {
	t := s.cur
	if t == nil {
		return false
	}
	t.waiting, t.soft = true, true
	t.waitAt = s.progress
	p := s.progress
	next := s.pickForced(t)
	if next != nil && next != t {
		s.record(t, t.forced, next.id, true)
		s.switchTo(t, next)
	}
	t.waiting, t.soft, t.doomed = false, false, false
	return s.progress != p
}

// WaitKids lets others run until the current task has no more than base
// unfinished tasks of its own, or they are stuck, or steps have passed.
//
//go:norace
func WaitKids(base int, steps uint64) int {
	t := s.cur
	if t == nil {
		return 0
	}
	end := s.total + steps
	for s.tasks[t.owner].opKids > base && s.total < end {
		if !TryBlock() {
			break
		}
	}
	return s.tasks[t.owner].opKids - base
}

// Sleep suspends the task for d ticks of simulated time.
//
//go:norace
func Sleep(d uint64) {
	t := s.cur
	if t == nil || d == 0 {
		return
	}
	t.wakeAt = s.now + d
	s.slept += d
	next := s.pickForced(t)
	if next == nil || next == t {
		if s.now < t.wakeAt {
			s.now = t.wakeAt
		}
		t.wakeAt = 0
		return
	}
	s.record(t, t.forced, next.id, true)
	s.switchTo(t, next)
	t.wakeAt = 0
}

// Go starts a task for a go statement of the code under test.
//
//go:norace
func Go(f func()) {
	cur := s.cur
	if cur == nil {
		go f()
		return
	}
	t := &task{id: len(s.tasks), ch: make(chan struct{}, 1), limit: DefaultLimit, child: true, parent: cur.owner, owner: cur.owner}
	t.prio = 500 + t.id
	s.tasks = append(s.tasks, t)
	s.tasks[cur.owner].opKids++
	s.progress++
	spawn(t, f)
	Y(0)
}

// Daemon starts a task that runs f after d ticks unless *gen has become
// nonzero: a timer. It does not count as a goroutine of the code under test.
//
//go:norace
func Daemon(d uint64, gen *int, f func()) {
	cur := s.cur
	if cur == nil {
		return
	}
	t := &task{id: len(s.tasks), ch: make(chan struct{}, 1), limit: DefaultLimit, child: true, parent: -1, owner: cur.owner}
	t.prio = 2000 + t.id
	t.wakeAt = s.now + d
	s.tasks = append(s.tasks, t)
	s.progress++
	spawn(t, func() {
		t.wakeAt = 0
		if *gen == 0 {
			*gen = 1
			f()
		}
	})
}

// ------------------------------------------------- services for the harness

// Forget lets go of what the simulator knows about tasks that have ended and
// about the schedule so far, of which no log is kept then.
//
//go:norace
func Forget() {
	s.noLog, s.log = true, nil
	forgetChans()
	n := len(s.tasks)
	for n > 0 && s.tasks[n-1].done && s.tasks[n-1] != s.cur {
		n--
	}
	if n < len(s.tasks) {
		s.tasks = append([]*task(nil), s.tasks[:n]...)
	}
}

// collections counts the times that pools are to be emptied.
var collections int

//go:norace
func Collections() int { return collections }

// Collect lets pools be emptied, as the garbage collector does.
//
//go:norace
func Collect() { collections++ }

// LiveChildren is the number of unfinished tasks the current task started.
//
//go:norace
func LiveChildren() int {
	if s.cur == nil {
		return 0
	}
	return s.tasks[s.cur.owner].opKids
}

// Now is the simulated time.
//
//go:norace
func Now() uint64 { return s.now }

// Seq is the global event sequence number.
//
//go:norace
func Seq() uint64 { return s.progress }

// Cur is the id of the running task.
//
//go:norace
func Cur() int {
	if s.cur == nil {
		return -1
	}
	return s.cur.id
}

// SetBudget gives the current task d further steps and returns the steps it
// has made so far.
//
//go:norace
func SetBudget(d int) int {
	t := s.cur
	if t == nil {
		return 0
	}
	t.limit = t.steps + d
	return t.steps
}

// Budget is the number of steps the current task may still make.
//
//go:norace
func Budget() int {
	if s.cur == nil {
		return 0
	}
	return s.cur.limit - s.cur.steps
}

// Steps made by the current task.
//
//go:norace
func Steps() int {
	if s.cur == nil {
		return 0
	}
	return s.cur.steps
}

// Atomic runs f without yields.
//
//go:norace
func Atomic(f func()) {
	t := s.cur
	if t == nil {
		f()
		return
	}
	t.noYield++
	defer atomicEnd(t)
	f()
}

//go:norace
func atomicEnd(t *task) { t.noYield-- }

// SitesHit is the number of distinct instrumented sites executed so far.
//
//go:norace
func SitesHit() (hit, all int) {
	for _, c := range siteHits {
		if c > 0 {
			hit++
		}
	}
	return hit, int(NSites)
}

// SwitchSites is the number of distinct (site, from, to) preemptions so far.
//
//go:norace
func SwitchSites() int { return pairCount }

// choice draws a number that is a pure function of the run's map seed, the
// task and how many choices the task has made.
//
//go:norace
func choice() uint64 {
	t := s.cur
	if t == nil {
		return 0
	}
	t.mapSeq++
	return Mix(s.mapSeed^uint64(t.id+1)<<32, t.mapSeq)
}

// Choose returns a simulator decision in [0,n).
//
//go:norace
func Choose(n int) int {
	if n <= 1 {
		return 0
	}
	return int(choice() % uint64(n))
}

// ------------------------------------------------------------ map iteration

// Keys returns the keys of m in an order chosen by the simulator.
func Keys[M ~map[K]V, K comparable, V any](m M) []K {
	if len(m) == 0 {
		return nil
	}
	keys := make([]K, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	var k0 any = keys[0]
	switch k0.(type) {
	case int:
		sort.Slice(keys, func(i, j int) bool { return any(keys[i]).(int) < any(keys[j]).(int) })
	case string:
		sort.Slice(keys, func(i, j int) bool { return any(keys[i]).(string) < any(keys[j]).(string) })
	case byte:
		sort.Slice(keys, func(i, j int) bool { return any(keys[i]).(byte) < any(keys[j]).(byte) })
	default:
		names := map[K]string{}
		for _, k := range keys {
			names[k] = fmt.Sprintf("%#v", k)
		}
		sort.Slice(keys, func(i, j int) bool { return names[keys[i]] < names[keys[j]] })
	}
	c := choice()
	switch c % 4 {
	case 0: // sorted
	case 1: // reversed
		for i, j := 0, len(keys)-1; i < j; i, j = i+1, j-1 {
			keys[i], keys[j] = keys[j], keys[i]
		}
	default:
		r := Rand{c}
		for i := len(keys) - 1; i > 0; i-- {
			j := r.N(i + 1)
			keys[i], keys[j] = keys[j], keys[i]
		}
	}
	return keys
}

// Zero returns zero values of a map's key and element types.
func Zero[M ~map[K]V, K comparable, V any](m M) (k K, v V) { return }

// ZeroK returns the zero value of a map's key type.
func ZeroK[M ~map[K]V, K comparable, V any](m M) (k K) { return }

// Fatal ends the process as an error of the simulation itself.
func Fatal(a ...any) {
	fmt.Fprintln(os.Stderr, append([]any{"SIMULATOR ERROR:"}, a...)...)
	os.Exit(3)
}

// Gosched stands for runtime.Gosched.
//
//go:norace
func Gosched() {
	Y(0)
	if t := s.cur; t != nil && t.noYield == 0 && len(s.tasks) > 1 {
		s.rotate(t)
	}
}

// PairList lists the distinct (site, from, to) preemptions so far, hashed.
func PairList() []int {
	var l []int
	for i, w := range pairBits {
		for b := 0; b < 64; b++ {
			if w&(1<<b) != 0 {
				l = append(l, i*64+b)
			}
		}
	}
	return l
}

// SiteList lists the instrumented sites executed so far.
func SiteList() []int {
	var l []int
	for i, c := range siteHits {
		if c > 0 && i >= 16 && i < int(NSites) {
			l = append(l, i)
		}
	}
	return l
}
