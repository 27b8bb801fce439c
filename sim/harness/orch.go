//go:build go1.22

package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/TooManySugar/ll1parser/vsim"
	"github.com/TooManySugar/ll1parser/vsites"
)

// plan of a tier: batches and wall-clock limits
type tierPlan struct {
	batches int
	limit   time.Duration
}

var plans = map[string]map[string]tierPlan{
	"quick": {
		"C01": {480, 110 * time.Second},
		"C02": {600, 110 * time.Second},
		"C03": {750, 110 * time.Second},
		"C04": {600, 110 * time.Second},
		"C05": {150, 110 * time.Second},
		"C06": {75, 110 * time.Second},
		"C07": {450, 110 * time.Second},
		"C08": {195, 110 * time.Second},
		"C09": {180, 110 * time.Second},
		"C10": {450, 110 * time.Second},
		"C11": {330, 110 * time.Second},
		"C12": {540, 110 * time.Second},
		"C13": {600, 110 * time.Second},
		"C14": {450, 110 * time.Second},
		"C15": {450, 110 * time.Second},
		"C16": {450, 110 * time.Second},
		"C17": {400, 110 * time.Second},
		"C18": {260, 110 * time.Second},
		"C19": {120, 110 * time.Second},
	},
}

const thoroughTime = 11 * time.Minute

type orch struct {
	prop    *property
	tier    string
	seed    uint64
	norace  string
	race    string
	verif   string
	scratch string
	start   time.Time
	workers int
}

// spawn runs a child process. What a child does is determined by what it is
// given, so one that died without the Go runtime giving a reason - the race
// detector's runtime can crash when the machine is short of something - is
// simply started again; one with a cause inside of it dies again.
func (o *orch) spawn(race bool, timeout time.Duration, in []byte, res any, args ...string) error {
	for try := 0; ; try++ {
		err := o.spawn1(race, timeout, in, res, args...)
		if d, ok := err.(*died); !ok || d.fatal != "" || try == 2 {
			return err
		}
	}
}

func (o *orch) spawn1(race bool, timeout time.Duration, in []byte, res any, args ...string) error {
	bin := o.norace
	if race {
		bin = o.race
	}
	dir, err := os.MkdirTemp(o.scratch, "w")
	if err != nil {
		return err
	}
	defer os.RemoveAll(dir)
	pr, pw, err := os.Pipe()
	if err != nil {
		return err
	}
	c := exec.Command(bin, append(args, "-norace", o.norace)...)
	c.Dir = dir
	c.Stdin = bytes.NewReader(in)
	so, _ := os.Create(filepath.Join(dir, "out"))
	se, _ := os.Create(filepath.Join(dir, "err"))
	defer so.Close()
	defer se.Close()
	c.Stdout, c.Stderr = so, se
	c.ExtraFiles = []*os.File{pw}
	c.Env = append(os.Environ(), "GORACE=log_path="+filepath.Join(dir, "race")+" exitcode=0 halt_on_error=0 suppress_equal_stacks=0 suppress_equal_addresses=0", "GOMAXPROCS=2", "GOTRACEBACK=all")
	if err := c.Start(); err != nil {
		return err
	}
	pw.Close()
	killed := false
	timer := time.AfterFunc(timeout, func() { killed = true; c.Process.Kill() })
	b, _ := io.ReadAll(pr)
	pr.Close()
	err = c.Wait()
	timer.Stop()
	if err != nil {
		eb, _ := os.ReadFile(filepath.Join(dir, "err"))
		d := &died{run: -1}
		if pb, err := os.ReadFile(filepath.Join(dir, "progress")); err == nil {
			fmt.Sscan(string(pb), &d.run)
		}
		for _, l := range strings.Split(string(eb), "\n") {
			if strings.HasPrefix(l, "fatal error: ") && !strings.Contains(l, "out of memory") && !strings.Contains(l, "goroutines are asleep") && d.fatal == "" {
				d.fatal = l
			}
		}
		if len(eb) > 6000 {
			eb = append(eb[:3000:3000], eb[len(eb)-3000:]...)
		}
		d.text = fmt.Sprintf("%v: %v\n%s", args, err, eb)
		if killed {
			d.fatal = "it does not end"
			d.text = fmt.Sprintf("%v: killed after %v\n%s", args, timeout, eb)
		}
		return d
	}
	if err := json.Unmarshal(b, res); err != nil {
		return fmt.Errorf("%v: %v", args, err)
	}
	if race {
		if m, _ := filepath.Glob(filepath.Join(dir, "race*")); len(m) > 0 {
			rb, _ := os.ReadFile(m[0])
			lastRace.Store(string(rb))
		}
	}
	return nil
}

// died says how a child process ended that should not have.
type died struct {
	run   int    // the run it was in
	fatal string // what the Go runtime, not the harness, gave as the reason
	text  string
}

func (d *died) Error() string { return d.text }

// dead turns the death of a worker into the violation it is evidence of: the
// Go runtime gave up on the process during a certain run.
func (o *orch) dead(no int, d *died) *BatchResult {
	if d.fatal == "" || d.run < 0 {
		return nil
	}
	bs := batchSeed(o.prop.id, o.seed, no)
	b := &batch{prop: o.prop, g: gen{&Rand{S: bs}}}
	r := &BatchResult{Batch: no, Race: o.isRace(no), LogFull: true, V: &Violation{o.prop.id, "died", "the process died in the run: " + d.fatal}}
	for i := 0; i <= d.run; i++ {
		sc := b.makeRun(bs, i)
		sc.Race = r.Race
		if i < d.run {
			r.Prelude = append(r.Prelude, sc)
		} else {
			r.Sc = &sc
		}
	}
	return r
}

var lastRace atomicString

type atomicString struct {
	mu sync.Mutex
	s  string
}

func (a *atomicString) Store(s string) { a.mu.Lock(); a.s = s; a.mu.Unlock() }
func (a *atomicString) Load() string   { a.mu.Lock(); defer a.mu.Unlock(); return a.s }

func (o *orch) batch(no int) (*BatchResult, error) {
	race := o.isRace(no)
	runs := o.prop.runs
	if race {
		runs = max(20, runs/3)
	}
	var r BatchResult
	err := o.spawn(race, 5*time.Minute, nil, &r, "worker", "-prop", o.prop.id, "-seed", fmt.Sprint(o.seed), "-batch", fmt.Sprint(no), "-runs", fmt.Sprint(runs))
	return &r, err
}

// isRace spreads the race batches evenly.
func (o *orch) isRace(no int) bool {
	p := o.prop.race
	return (no+1)*p/100 > no*p/100
}

func (o *orch) one(r *Replay) (*OneResult, error) {
	b, err := json.Marshal(r)
	if err != nil {
		return nil, err
	}
	var res OneResult
	limit := 5 * time.Minute
	if r.Violation.Class == "died" {
		limit = time.Minute
	}
	err = o.spawn(r.Race, limit, b, &res, "one")
	if d, ok := err.(*died); ok && d.fatal != "" {
		return &OneResult{V: &Violation{o.prop.id, "died", "the process died in the run: " + d.fatal}, Hash: "died", Full: true}, nil
	}
	return &res, err
}

type totals struct {
	BatchResult
	batches  int
	scen     map[uint64]bool
	inter    map[uint64]bool
	pairs    map[int]bool
	sites    map[int]bool
	digests  map[int]string
	raceRuns int
	// batches whose first execution was disturbed from outside, and repeated
	disturbed int
}

func (t *totals) add(r *BatchResult) {
	t.batches++
	t.Runs += r.Runs
	if r.Race {
		t.raceRuns += r.Runs
	}
	t.Nontrivial += r.Nontrivial
	t.Attempts += r.Attempts
	t.Multi += r.Multi
	t.Steps += r.Steps
	t.Time += r.Time
	t.Slept += r.Slept
	t.Switches += r.Switches
	t.Solo += r.Solo
	if r.MaxSteps > t.MaxSteps {
		t.MaxSteps = r.MaxSteps
	}
	for _, m := range []struct{ d, s map[string]int }{{t.Fired, r.Fired}, {t.Outcomes, r.Outcomes}, {t.Policies, r.Policies}, {t.Probes, r.Probes}} {
		for k, n := range m.s {
			m.d[k] += n
		}
	}
	for _, x := range r.Scen {
		t.scen[x] = true
	}
	for _, x := range r.Inter {
		t.inter[x] = true
	}
	for _, x := range r.Pairs {
		t.pairs[x] = true
	}
	for _, x := range r.Sites {
		t.sites[x] = true
	}
	if len(t.Samples) < 3 {
		t.Samples = append(t.Samples, r.Samples...)
	}
	t.digests[r.Batch] = r.Digest
}

func (o *orch) check() int {
	o.start = time.Now()
	o.workers = runtime.NumCPU()
	if o.workers > 8 {
		o.workers = 8
	}
	plan, ok := plans[o.tier][o.prop.id]
	if !ok {
		plan = tierPlan{1 << 30, thoroughTime}
	}
	if s := os.Getenv("VERIF_SIM_SECONDS"); s != "" {
		var n int
		fmt.Sscan(s, &n)
		plan = tierPlan{1 << 30, time.Duration(n) * time.Second}
	}
	fmt.Printf("%s: VERIF_SEED=%d tier=%s workers=%d\n", o.prop.id, o.seed, o.tier, o.workers)
	t := &totals{scen: map[uint64]bool{}, inter: map[uint64]bool{}, pairs: map[int]bool{}, sites: map[int]bool{}, digests: map[int]string{}}
	t.Fired, t.Outcomes, t.Policies, t.Probes = map[string]int{}, map[string]int{}, map[string]int{}, map[string]int{}
	var mu sync.Mutex
	next := 0
	stop := false
	var failed []*BatchResult
	var broken error
	known := loadKnown(filepath.Join(o.verif, "known-findings.txt"), o.prop.id)
	code := 0
	nviol := 0
	for {
		var wg sync.WaitGroup
		for k := 0; k < o.workers; k++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for {
					mu.Lock()
					if stop || next >= plan.batches || time.Since(o.start) > plan.limit && next >= o.workers {
						mu.Unlock()
						return
					}
					no := next
					next++
					mu.Unlock()
					r, err := o.batch(no)
					mu.Lock()
					if d, ok := err.(*died); ok {
						if x := o.dead(no, d); x != nil {
							r, err = x, nil
						}
					}
					if err != nil {
						if broken == nil {
							broken = err
						}
						stop = true
					} else {
						t.add(r)
						if r.V != nil {
							failed = append(failed, r)
							stop = true
						}
					}
					mu.Unlock()
				}
			}()
		}
		wg.Wait()
		// the batch with the lowest number decides, whatever finished first
		sort.Slice(failed, func(i, j int) bool { return failed[i].Batch < failed[j].Batch })
		for _, f := range failed {
			rep, err := o.confirm(f)
			if err != nil {
				// what a batch does is determined by its seed: something outside of
				// the simulation has interfered, or else it does the same again
				if r, err2 := o.batch(f.Batch); err2 == nil && r.V == nil {
					fmt.Printf("batch %d repeated: %v\n", f.Batch, err)
					t.add(r)
					t.disturbed++
					if t.disturbed >= 8 && broken == nil {
						broken = err
					}
					stop = broken != nil
					continue
				}
				fmt.Fprintln(os.Stderr, "ERROR:", err)
				code = 2
				continue
			}
			rep = o.minimise(rep)
			if k := known.match(rep); k != "" {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", o.prop.id, k)
				continue
			}
			nviol++
			stop = true
			path := filepath.Join(o.verif, "replays", fmt.Sprintf("%s-%s-%s.json", o.prop.id, strings.NewReplacer(":", "_", " ", "_").Replace(rep.Violation.Class), rep.EventHash))
			os.MkdirAll(filepath.Dir(path), 0o755)
			b, _ := json.MarshalIndent(rep, "", " ")
			if err := os.WriteFile(path, b, 0o644); err != nil {
				fmt.Fprintln(os.Stderr, "ERROR:", err)
				return 2
			}
			fmt.Printf("%s\n", printable(rep.Violation.Msg))
			for _, l := range rep.Trace {
				fmt.Println("   ", printable(l))
			}
			fmt.Printf("VIOLATION property=%s replay=%s\n", o.prop.id, path)
			code = 1
			break
		}
		failed = nil
		if stop || code != 0 || next >= plan.batches || time.Since(o.start) > plan.limit {
			break
		}
	}
	if broken != nil && code != 1 {
		fmt.Fprintln(os.Stderr, "ERROR:", broken)
		code = 2
	}
	for _, l := range known.lines() {
		fmt.Println(l)
	}
	// the same batches again, for determinism
	again, same := 0, 0
	if code == 0 {
		type pr struct{ ok bool }
		ch := make(chan pr, 4)
		for k := 0; k < 4; k++ {
			no := k
			go func() {
				r, err := o.batch(no)
				mu.Lock()
				defer mu.Unlock()
				ch <- pr{err == nil && r.Digest == t.digests[no]}
			}()
		}
		for k := 0; k < 4; k++ {
			again++
			if (<-ch).ok {
				same++
			}
		}
	}
	if err := o.evidence(t, nviol, again, same); err != nil {
		fmt.Fprintln(os.Stderr, "ERROR:", err)
		if code == 0 {
			code = 2
		}
	}
	fmt.Printf("%s: %d runs in %d batches, %d judged calls, %d distinct non-trivial scenarios, %d distinct interleavings, %.0f s, exit %d\n",
		o.prop.id, t.Runs, t.batches, t.Attempts, len(t.scen), len(t.inter), time.Since(o.start).Seconds(), code)
	return code
}

// confirm replays a violation in a fresh process, first on its own, then with
// the runs that preceded it in its batch.
func (o *orch) confirm(f *BatchResult) (*Replay, error) {
	base := Replay{Property: o.prop.id, VerifSeed: o.seed, Race: f.Race, Run: *f.Sc, Violation: *f.V}
	explicit := clone(base)
	explicit.Run.Pol = vsim.Policy{Kind: "replay", Switches: f.Log}
	var cands []*Replay
	if !f.LogFull {
		cands = append(cands, &explicit)
	}
	orig := clone(base)
	cands = append(cands, &orig)
	pre := clone(base)
	pre.Prelude = f.Prelude
	cands = append(cands, &pre)
	var last error
	tries := 2
	if f.Race {
		tries = 6 // what the race detector remembers of an access is limited
	}
	for try := 0; try < tries; try++ {
		for _, c := range cands {
			r, err := o.one(c)
			if err != nil {
				last = err
				continue
			}
			if r.V != nil && r.V.Class == f.V.Class {
				c.Violation, c.EventHash = *r.V, r.Hash
				if !r.Full {
					c.Run.Pol = vsim.Policy{Kind: "replay", Switches: r.Log}
				}
				return c, nil
			}
		}
	}
	return nil, fmt.Errorf("violation found in batch %d does not reproduce in a fresh process (%v): %s: %s\n%s", f.Batch, last, f.V.Class, f.V.Msg, toJSON(f.Sc))
}

func count(m map[string]int) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func (o *orch) evidence(t *totals, nviol, again, same int) error {
	wall := time.Since(o.start).Seconds()
	total := len(strings.Split(strings.TrimSpace(vsites.Names), "\n"))
	names := map[int]string{}
	for _, l := range strings.Split(vsites.Names, "\n") {
		var n int
		var at string
		if k, _ := fmt.Sscan(l, &n, &at); k == 2 {
			names[n] = at
		}
	}
	perFile := map[string]string{}
	hit, all := map[string]int{}, map[string]int{}
	for n, at := range names {
		f, _, _ := strings.Cut(at, ":")
		all[f]++
		if t.sites[n] {
			hit[f]++
		}
		perFile[f] = fmt.Sprintf("%d of %d", hit[f], all[f])
	}
	var samples []any
	for _, s := range t.Samples {
		var x any
		json.Unmarshal([]byte(s), &x)
		samples = append(samples, x)
	}
	perHour := 0.0
	if wall > 0 {
		perHour = float64(t.Runs) / wall * 3600
	}
	cov := map[string]any{
		"evaluations":                        t.Runs,
		"distinct_nontrivial":                len(t.scen),
		"rule":                               o.prop.rule + "; distinct: by the scenario's full content (objects, operations, faults, policy) without its seed",
		"samples":                            samples,
		"seeds":                              t.Runs,
		"runs_per_hour":                      int(perHour),
		"judged_calls":                       t.Attempts,
		"batches_fresh_processes":            t.batches,
		"runs_under_race_detector":           t.raceRuns,
		"runs_with_several_tasks":            t.Multi,
		"fresh_process_reference_calls":      t.Solo,
		"simulated_steps":                    t.Steps,
		"simulated_time_ticks":               t.Time,
		"simulated_time_asleep_ticks":        t.Slept,
		"simulated_time_unit":                "one tick per executed statement of instrumented code (counted as 1 us) plus the jumps over stalls",
		"context_switches":                   t.Switches,
		"distinct_interleavings":             len(t.inter),
		"distinct_interleavings_measure":     "hash of the sequence (task, step, next task) of all scheduling decisions of a run with several tasks",
		"distinct_preemption_points":         len(t.pairs),
		"distinct_preemption_points_measure": "hashed triples (source statement, preempted task, next task), 2^20 buckets",
		"faults_injected":                    t.Fired,
		"outcomes":                           t.Outcomes,
		"policies":                           t.Policies,
		"probes":                             t.Probes,
		"longest_call_steps":                 t.MaxSteps,
		"instrumented_statements_reached":    len(t.sites),
		"instrumented_statements":            total,
		"statements_reached_by_file":         perFile,
		"determinism_batches_repeated":       again,
		"batches_disturbed_and_repeated":     t.disturbed,
		"determinism_batches_identical":      same,
		"real_components":                    o.prop.real(),
		"simulated_components":               o.prop.stub(),
	}
	ev := map[string]any{
		"property": o.prop.id, "tier": o.tier, "seed": int64(o.seed), "level": "exploration", "coverage": cov, "wall_s": wall, "violations": nviol,
		"assumptions": []string{
			"the instrumented copy behaves like the sources it is made from: the instrumenter only inserts scheduling points and redirects map ranges, go statements, sync, os, fmt printing, clocks",
			"preemption happens between statements, not inside them; accesses within one statement are covered by the race detector in the race batches",
			"sampling: a clean run is evidence, not proof",
		},
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		return err
	}
	dir := filepath.Join(o.verif, "evidence")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(dir, o.prop.id+".json"), append(b, '\n'), 0o644)
}

func (p *property) real() []string {
	l := []string{"pkg/parser", "pkg/cst", "pkg/bnf", "pkg/bnf/tablegen", "pkg/bnf/tablegen/byteset", "pkg/bnf/fromcst: the repository's own sources, instrumented at build time from the working tree", "Go standard library (io, bytes, bufio, strings, sort, errors)"}
	if p.id == "C13" {
		l = append(l, "examples/json (main renamed, run in-process)")
	}
	return l
}

func (p *property) stub() []string {
	l := []string{"goroutine scheduler (vsim)", "map iteration order", "readers handed to Parse (delivery, faults, stalls)", "clock"}
	if p.id == "C13" {
		l = append(l, "file system, standard streams and os.Exit (vos)")
	}
	if p.id == "C11" {
		l = append(l, "visitors")
	}
	return l
}

// ------------------------------------------------------------ known findings

type knownSet struct {
	items []knownItem
	seen  map[int]bool
}

type knownItem struct {
	Property string
	Class    string // violation class
	Grammar  string // canonical dump of the first grammar of the minimised run
	Text     string // text of its first op, quoted
	What     string
	Fixed    string // set: repaired, suppresses nothing
}

func loadKnown(path, prop string) *knownSet {
	k := &knownSet{seen: map[int]bool{}}
	b, err := os.ReadFile(path)
	if err != nil {
		return k
	}
	for _, l := range strings.Split(string(b), "\n") {
		var it knownItem
		if strings.TrimSpace(l) == "" || json.Unmarshal([]byte(l), &it) != nil {
			continue
		}
		if it.Property == prop && it.Fixed == "" {
			k.items = append(k.items, it)
		}
	}
	return k
}

func (k *knownSet) match(r *Replay) string {
	for i, it := range k.items {
		if it.Class != r.Violation.Class {
			continue
		}
		g := ""
		if len(r.Run.Grammars) > 0 {
			g = anaOf(r.Run.Grammars[0]).g.Dump()
		}
		if it.Grammar != "" && it.Grammar != g {
			continue
		}
		k.seen[i] = true
		return it.What
	}
	return ""
}

func (k *knownSet) lines() []string {
	var l []string
	for i, it := range k.items {
		if !k.seen[i] {
			l = append(l, fmt.Sprintf("KNOWN-FINDING: property=%s %s", it.Property, it.What))
		}
	}
	return l
}

// printable escapes everything but printable ASCII and line feeds, so that
// the check's output stays a text whatever bytes the run handled.
func printable(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c == '\n' || c == '\t' || c >= ' ' && c < 0x7f {
			b.WriteByte(c)
		} else {
			fmt.Fprintf(&b, "\\x%02x", c)
		}
	}
	return b.String()
}
