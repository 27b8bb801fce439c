//go:build go1.22

package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"os/exec"
	"time"

	"github.com/TooManySugar/ll1parser/vsim"
	"github.com/TooManySugar/ll1parser/vsites"
)

var _ = vsites.Names

// norace is the path of the binary that computes solo outcomes.
var norace string

type soloOut struct{ Key, Brief string }

var soloCache = map[string][]soloOut{}
var soloRuns int

// soloKeys executes a reduced scenario in a fresh process.
func soloKeys(r *Scenario) []soloOut {
	in := toJSON(r)
	if k, ok := soloCache[in]; ok {
		return k
	}
	soloRuns++
	var res []soloOut
	child("solo", []byte(in), &res)
	if len(soloCache) > 20000 {
		soloCache = map[string][]soloOut{}
	}
	soloCache[in] = res
	return res
}

func child(cmd string, in []byte, res any) {
	pr, pw, err := os.Pipe()
	if err != nil {
		vsim.Fatal(err)
	}
	c := exec.Command(norace, cmd, "-norace", norace)
	c.Stdin = bytes.NewReader(in)
	var buf bytes.Buffer
	c.Stderr = &buf
	c.ExtraFiles = []*os.File{pw}
	if err := c.Start(); err != nil {
		vsim.Fatal(err)
	}
	pw.Close()
	timer := time.AfterFunc(120*time.Second, func() { c.Process.Kill() })
	b, _ := io.ReadAll(pr)
	pr.Close()
	err = c.Wait()
	timer.Stop()
	if err != nil {
		vsim.Fatal("child", cmd, err, buf.String())
	}
	if err := json.Unmarshal(b, res); err != nil {
		vsim.Fatal("child", cmd, err, string(b))
	}
}

// reply writes a result to file descriptor 3.
func reply(x any) {
	f := os.NewFile(3, "reply")
	b, err := json.Marshal(x)
	if err != nil {
		vsim.Fatal(err)
	}
	if _, err := f.Write(b); err != nil {
		vsim.Fatal(err)
	}
	f.Close()
}

func readIn(x any) {
	b, err := io.ReadAll(os.Stdin)
	if err != nil {
		vsim.Fatal(err)
	}
	if err := json.Unmarshal(b, x); err != nil {
		vsim.Fatal(err)
	}
}

func cmdSolo() {
	var sc Scenario
	readIn(&sc)
	w := newWorld(&sc)
	w.setup()
	w.run()
	res := []soloOut{}
	for _, o := range w.tasks[0].outs {
		for _, a := range o.Att {
			res = append(res, soloOut{a.Key(), a.brief()})
		}
	}
	reply(res)
}

// stdioSize is the number of bytes the process has written to its standard
// streams, which a worker's parent points at regular files; -1: unknown.
func stdioSize() int64 {
	var n int64
	for _, f := range []*os.File{os.Stdout, os.Stderr} {
		fi, err := f.Stat()
		if err != nil || !fi.Mode().IsRegular() {
			return -1
		}
		n += fi.Size()
	}
	return n
}

// BatchResult is what a worker process reports.
type BatchResult struct {
	Batch      int
	Race       bool
	Runs       int
	Nontrivial int
	Attempts   int
	Multi      int // runs with more than one task
	Steps      uint64
	Time       uint64
	Slept      uint64
	Switches   int
	Solo       int
	Fired      map[string]int
	Outcomes   map[string]int
	Policies   map[string]int
	Probes     map[string]int
	Scen       []uint64 // hashes of distinct non-trivial scenarios
	Inter      []uint64 // hashes of distinct interleavings
	Pairs      []int    // distinct (site, from, to) preemptions
	Sites      []int
	Digest     string
	Samples    []string
	MaxSteps   int
	V          *Violation
	Sc         *Scenario
	Prelude    []Scenario
	Log        []vsim.Switch
	LogFull    bool
}

func batchSeed(prop string, seed uint64, batch int) uint64 {
	h := fnv.New64a()
	io.WriteString(h, prop)
	return vsim.Mix(vsim.Mix(seed, h.Sum64()), uint64(batch))
}

// makeRun generates run i of a batch.
func (b *batch) makeRun(bs uint64, i int) Scenario {
	seed := vsim.Mix(bs, uint64(i)+1)
	g := gen{&Rand{S: seed}}
	sc := b.prop.gen(b, g)
	sc.Prop = b.prop.id
	sc.Seed = seed
	sc.Race = vsim.RaceBuild
	sc.Pol = g.policy(len(sc.Tasks))
	return sc
}

func cmdWorker(prop string, seed uint64, batchNo, runs int) {
	p := props[prop]
	bs := batchSeed(prop, seed, batchNo)
	b := &batch{prop: p, g: gen{&Rand{S: bs}}}
	res := &BatchResult{Batch: batchNo, Race: vsim.RaceBuild, Fired: map[string]int{}, Outcomes: map[string]int{}, Policies: map[string]int{}, Probes: map[string]int{}}
	seenS, seenI := map[uint64]bool{}, map[uint64]bool{}
	dig := fnv.New64a()
	var done []Scenario
	progress, _ := os.Create("progress")
	for i := 0; i < runs; i++ {
		sc := b.makeRun(bs, i)
		if progress != nil {
			progress.WriteAt([]byte(fmt.Sprintf("%9d\n", i)), 0)
		}
		w, st, v := execute(&sc)
		res.Runs++
		res.Steps += st.Steps
		res.Time += st.Time
		res.Slept += st.Slept
		res.Switches += st.Switches
		res.Policies[sc.Pol.Kind]++
		if len(sc.Tasks) > 1 {
			res.Multi++
			if st.Switches > 0 && !seenI[st.Hash] {
				seenI[st.Hash] = true
				res.Inter = append(res.Inter, st.Hash)
			}
		}
		fmt.Fprintln(dig, eventHash(w, st))
		nt := w.collect(res)
		if nt {
			res.Nontrivial++
			c := sc
			c.Seed = 0
			h := fnv.New64a()
			io.WriteString(h, toJSON(c))
			if x := h.Sum64(); !seenS[x] {
				seenS[x] = true
				res.Scen = append(res.Scen, x)
			}
			if len(res.Samples) < 1 && i >= 2 {
				s := toJSON(sc)
				if len(s) < 2500 {
					res.Samples = append(res.Samples, s)
				}
			}
		}
		if v != nil {
			res.V, res.Sc, res.Prelude = v, &sc, done
			res.Log, res.LogFull = st.Log, st.LogFull
			break
		}
		done = append(done, sc)
		if st.Leaked > 0 {
			break // goroutines blocked outside the simulator stay behind
		}
	}
	res.Solo = soloRuns
	res.Digest = fmt.Sprintf("%016x", dig.Sum64())
	res.Pairs = vsim.PairList()
	res.Sites = vsim.SiteList()
	reply(res)
}

// collect adds up what happened in a run and decides whether it counts as
// non-trivial for its property.
func (w *world) collect(res *BatchResult) bool {
	faults := 0
	for _, t := range w.tasks {
		for k, n := range t.fired {
			res.Fired[k] += n
			faults += n
		}
	}
	atts, aborted, ok, delivered, results, walked := 0, 0, 0, 0, 0, 0
	after := false
	w.each(func(o *OpOut, i int, a *AttOut) *Violation {
		atts++
		key := o.Op.K + ":" + a.Kind
		res.Outcomes[key]++
		if aborted > 0 {
			after = true
		}
		if a.Raised || a.Injected != "" {
			aborted++
		}
		if a.Kind == "ok" {
			ok++
			if a.Tree != nil || a.Gram != "" {
				results++
			}
			if a.Tree != nil && len(a.Delivered) >= 512 {
				res.Probes["accepted_512_bytes_or_more"]++
			}
			if a.Tree != nil && a.Delivered == "" {
				res.Probes["accepted_empty_text"]++
			}
			if a.Tree != nil && len(o.Op.Dmg) > 0 {
				res.Probes["accepted_after_damage"]++
			}
		}
		if a.Kind == "err" && a.Injected != "" && len(a.Delivered) == len(damaged(o.Op.Text, o.Op.Dmg)) {
			res.Probes["source_failed_after_last_byte"]++
		}
		if a.Steps > res.MaxSteps {
			res.MaxSteps = a.Steps
		}
		if len(a.Delivered) > 0 {
			delivered++
		}
		if len(a.Visits) >= 3 {
			walked++
		}
		return nil
	})
	for i, m := range w.tabErr {
		if m != "" && w.sc.Tables[i].Hand == nil {
			res.Outcomes["table:refused"]++
		} else if m == "" && w.sc.Tables[i].Hand == nil {
			res.Outcomes["table:ok"]++
		}
	}
	res.Attempts += atts
	pre := w.stats.Switches > len(w.sc.Tasks)
	switch w.sc.Prop {
	case "C01":
		return delivered > 0 && (faults > 0 || pre)
	case "C02":
		return aborted > 0
	case "C03":
		return delivered > 0
	case "C04":
		return ok > 0
	case "C05":
		return pre || faults > 0 && atts > 1
	case "C07":
		return after
	case "C08", "C09":
		return atts > 1
	case "C17":
		return atts > 0
	case "C10", "C18":
		return delivered > 0 && faults > 0
	case "C11":
		return walked > 0 && (faults > 0 || pre)
	case "C12":
		return ok > 0 || atts > 0 && delivered > 0
	case "C13":
		return faults > 0 || strings_count(w) > 0
	case "C14":
		for _, t := range w.tasks {
			for _, o := range t.outs {
				if w.anas[o.Op.G].Conflict {
					return true
				}
			}
		}
		return false
	case "C15":
		return walked > 0
	case "C16":
		for _, t := range w.tasks {
			for _, o := range t.outs {
				if malformed(w.models[o.Op.G]) != "" {
					return true
				}
			}
		}
		return false
	case "C06":
		return results > 1
	}
	return true
}

func strings_count(w *world) int {
	n := 0
	for _, t := range w.tasks {
		for _, o := range t.outs {
			for _, a := range o.Att {
				if l, ok := jsonKeys(a.Delivered); ok {
					n += len(l)
				}
			}
		}
	}
	return n
}

// OneResult is the result of replaying a scenario.
type OneResult struct {
	V    *Violation
	Hash string
	Log  []vsim.Switch
	Full bool
	Bad  string // the prelude violated already
}

// cmdOne executes a replay in this fresh process.
func cmdOne() {
	var r Replay
	readIn(&r)
	reply(runReplay(&r))
}

func runReplay(r *Replay) *OneResult {
	for i := range r.Prelude {
		if _, _, v := execute(&r.Prelude[i]); v != nil {
			return &OneResult{Bad: v.Class}
		}
	}
	w, st, v := execute(&r.Run)
	return &OneResult{V: v, Hash: eventHash(w, st), Log: st.Log, Full: st.LogFull}
}
