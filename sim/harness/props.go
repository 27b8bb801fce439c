//go:build go1.22

package main

// The properties: how scenarios for each are made and what is checked.

import (
	"fmt"
	"hash/fnv"
	"slices"
	"sort"
	"strings"

	"github.com/TooManySugar/ll1parser/pkg/bnf"
	"github.com/TooManySugar/ll1parser/pkg/cst"
	"github.com/TooManySugar/ll1parser/pkg/parser"
	"github.com/TooManySugar/ll1parser/vos"
	"github.com/TooManySugar/ll1parser/vsim"
)

type property struct {
	id    string
	race  int // share of batches run under the race detector, in percent
	runs  int // runs per batch
	gen   func(b *batch, g gen) Scenario
	check func(w *world) *Violation
	// setup of checks made while the run proceeds
	watch func(w *world)
	rule  string
}

// batch holds what the runs of one worker process share.
type batch struct {
	prop *property
	g    gen
	pool []*scene
}

// scene is a set of objects with operations on them; runs of a batch pick from
// it, so that the outcome "alone in a fresh process" is computed once per op.
type scene struct {
	sc  Scenario // without tasks
	ops []Op

	next map[int]int // a call that is best made right after another
}

var props = map[string]*property{}

func reg(p *property) { props[p.id] = p }

func viol(w *world, class, format string, a ...any) *Violation {
	return &Violation{w.sc.Prop, class, fmt.Sprintf(format, a...)}
}

func short(s string) string {
	if len(s) > 400 {
		return s[:200] + " ... " + s[len(s)-150:]
	}
	return s
}

// diff is the part of a that differs from b.
func diff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	k := 0
	for k < len(a)-i && k < len(b)-i && a[len(a)-1-k] == b[len(b)-1-k] {
		k++
	}
	return short("..." + a[max(0, i-30):min(len(a), len(a)-k+30)] + "...")
}

func (a *AttOut) brief() string {
	s := a.Kind
	if a.Err != "" {
		s += " (" + a.Err + ")"
	}
	if a.Tree != nil {
		s += " tree " + short(a.Tree.String())
	}
	if a.Names != "" {
		s += " names " + short(a.Names)
	}
	if a.Gram != "" {
		s += " " + short(a.Gram)
	}
	if len(a.Visits) > 0 {
		s += " visits " + short(strings.Join(a.Visits, " "))
	}
	return s
}

// each calls f for every attempt of the run, nested ones included.
func (w *world) each(f func(o *OpOut, i int, a *AttOut) *Violation) *Violation {
	var visit func(o *OpOut) *Violation
	visit = func(o *OpOut) *Violation {
		for i, a := range o.Att {
			if v := f(o, i, a); v != nil {
				return v
			}
			for _, n := range a.Nested {
				if v := visit(n); v != nil {
					return v
				}
			}
		}
		return nil
	}
	for _, t := range w.tasks {
		for _, o := range t.outs {
			if v := visit(o); v != nil {
				return v
			}
		}
	}
	return nil
}

// execute performs one simulated run and judges it.
func execute(sc *Scenario) (*world, vsim.Stats, *Violation) {
	p := props[sc.Prop]
	vos.W = vos.NewWorld()
	io0 := stdioSize()
	races := vsim.RaceErrors()
	w := newWorld(sc)
	w.setup()
	if p.watch != nil {
		p.watch(w)
	}
	st := w.run()
	w.stats = st
	for _, c := range st.Crashes {
		if strings.Contains(c, "(child=true)") {
			return w, st, viol(w, "crash", "a goroutine started by the library died: %s", c)
		}
		vsim.Fatal("harness task died:", c)
	}
	if n := vsim.RaceErrors() - races; n > 0 {
		return w, st, viol(w, "race", "%d data race(s) between calls that the caller did not synchronise and need not synchronise", n)
	}
	for _, t := range w.tasks {
		for _, o := range t.outs {
			if o.Drift != "" {
				return w, st, viol(w, "drift", "%s: %s", o.Op.describe(), o.Drift)
			}
		}
	}
	if v := p.check(w); v != nil {
		return w, st, v
	}
	if sc.Prop == "C06" {
		if len(vos.W.OutBuf) > 0 || len(vos.W.ErrBuf) > 0 {
			return w, st, viol(w, "stdio", "library calls wrote %q to standard output, %q to standard error", short(string(vos.W.OutBuf)), short(string(vos.W.ErrBuf)))
		}
		if io1 := stdioSize(); io0 >= 0 && io1 != io0 {
			return w, st, viol(w, "stdio", "library calls wrote %d bytes to the process's standard output or error", io1-io0)
		}
	}
	return w, st, nil
}

// eventHash covers everything that happened in a run.
func eventHash(w *world, st vsim.Stats) string {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d %d %d %d %x\n", st.Steps, st.Time, st.Slept, st.Switches, st.Hash)
	for _, m := range w.tabErr {
		fmt.Fprintln(h, m)
	}
	w.each(func(o *OpOut, i int, a *AttOut) *Violation {
		fmt.Fprintln(h, o.Op.K, i, a.Key(), a.Begin, a.End, a.Steps, a.Out, a.ErrO, a.Exit)
		return nil
	})
	for _, t := range w.tasks {
		var ks []string
		for k, n := range t.fired {
			ks = append(ks, fmt.Sprint(k, n))
		}
		sort.Strings(ks)
		fmt.Fprintln(h, ks)
	}
	return fmt.Sprintf("%016x", h.Sum64())
}

// ------------------------------------------------------------ shared pieces

// scenario with k LL(1) grammars, one table each, parsers on them.
func (g gen) parsers(k int, f func() GSpec) Scenario {
	var sc Scenario
	for i := 0; i < k; i++ {
		sc.Grammars = append(sc.Grammars, f())
		t := TabSpec{G: i}
		if g.p(0.08) {
			t.Names = g.moreNames()
		}
		sc.Tables = append(sc.Tables, t)
		sc.Parsers = append(sc.Parsers, PSpec{i})
	}
	return sc
}

func (g gen) withHand(sc *Scenario, share float64) {
	for i := range sc.Tables {
		if g.p(share) {
			sc.Tables[i].Hand = g.hand()
			sc.Tables[i].NilNames = g.p(0.1)
		}
	}
}

// textFor parser p of the scenario.
func (g gen) textFor(sc *Scenario, p int) Text {
	t := sc.Tables[sc.Parsers[p].Tab]
	if t.Hand != nil {
		if g.p(0.1) {
			return Text(g.word("ab\n\x00", 6))
		}
		return Text(g.handText(t.Hand))
	}
	return g.text(anaOf(sc.Grammars[t.G]))
}

func (g gen) dmgFor(sc *Scenario, p int, s Text) []Dmg {
	t := sc.Tables[sc.Parsers[p].Tab]
	if t.Hand != nil {
		return g.damage(handAna, string(s))
	}
	return g.damage(anaOf(sc.Grammars[t.G]), string(s))
}

var handAna = analyse(&Grammar{Rules: []Rule{{"s", [][]Sym{{{'t', "abcxy\n\r"}}}}}})

func anaOf(g GSpec) *Analysis {
	_, a := (&world{}).model(g)
	return a
}

func (g gen) parseOp(sc *Scenario, dmg float64) Op {
	op := Op{K: "parse", P: g.N(len(sc.Parsers))}
	op.Text = g.textFor(sc, op.P)
	if g.p(dmg) {
		op.Dmg = g.dmgFor(sc, op.P, op.Text)
	}
	return op
}

func (o *Op) bytes() int { return len(damaged(o.Text, o.Dmg)) }

// --------------------------------------------------- outcome alone, afresh

// reduce keeps of a scenario only what one attempt of an op needs.
func reduce(sc *Scenario, op *Op, att int) Scenario {
	r := Scenario{Prop: sc.Prop, Seed: 1, Pol: vsim.Policy{Kind: "seq"}}
	o := clone(*op)
	o.Rep, o.Ed, o.Own = 0, 0, false
	if len(o.Att) > 0 {
		o.Att = o.Att[att : att+1]
		for i := range o.Att[0].Steps {
			o.Att[0].Steps[i].Nested = nil
		}
		o.Att[0].Reuse = false
	}
	keepG := func(g int) int {
		r.Grammars = append(r.Grammars, sc.Grammars[g])
		return len(r.Grammars) - 1
	}
	keepP := func(p int) int {
		t := sc.Tables[sc.Parsers[p].Tab]
		if t.Hand == nil {
			t.G = keepG(t.G)
		} else {
			t.G = 0
		}
		r.Tables = append(r.Tables, t)
		r.Parsers = append(r.Parsers, PSpec{len(r.Tables) - 1})
		return len(r.Parsers) - 1
	}
	switch o.K {
	case "parse":
		o.P = keepP(o.P)
	case "gen":
		o.G = keepG(o.G)
	case "ast":
		t := sc.Trees[o.T]
		if t.Build == nil {
			t.P = keepP(t.P)
		}
		r.Trees = append(r.Trees, t)
		r.Binds = append(r.Binds, sc.Binds[o.B])
		o.T, o.B = 0, 0
	}
	r.Tasks = [][]Op{{o}}
	return r
}

// compareSolo compares every attempt with the outcome of the same call made
// alone in a fresh process.
func compareSolo(w *world) *Violation {
	for _, t := range w.tasks {
		for _, o := range t.outs {
			if len(o.Att) == 0 && o.Op.K == "parse" && len(o.Op.Att) > 0 {
				r := reduce(w.sc, o.Op, 0)
				if want := soloKeys(&r); len(want) > 0 {
					return viol(w, "notable", "%s has no table (%s), but alone in a fresh process it gives %s", o.Op.describe(), w.tabErr[w.sc.Parsers[o.Op.P].Tab], want[0].Brief)
				}
			}
		}
	}
	return w.each(func(o *OpOut, i int, a *AttOut) *Violation {
		if a.Kind == "skip" {
			return nil
		}
		att := i
		if o.Op.K == "gen" {
			att = max(0, i-1)
			if i == 0 && len(o.Op.Att) > 0 {
				att = 0
			}
		}
		r := reduce(w.sc, o.Op, att)
		want := soloKeys(&r)
		k := 0
		if o.Op.K == "gen" && i > 0 {
			k = 1
		}
		if k >= len(want) {
			return viol(w, "differs:"+o.Op.K+":"+a.Kind, "%s gave %s, but alone in a fresh process there is no table to do it with", o.Op.describe(), a.brief())
		}
		if a.Key() != want[k].Key {
			return viol(w, "differs:"+o.Op.K+":"+a.Kind, "%s gave %s, but alone in a fresh process it gives %s", o.Op.describe(), a.brief(), want[k].Brief)
		}
		return nil
	})
}

func (o *Op) describe() string {
	switch o.K {
	case "parse":
		return fmt.Sprintf("Parse(parser %d, %q)", o.P, short(damaged(o.Text, o.Dmg)))
	case "gen":
		return fmt.Sprintf("FromGrammar(grammar %d)", o.G)
	case "ast":
		return fmt.Sprintf("ToAST(tree %d, bindings %d)", o.T, o.B)
	case "walk":
		return fmt.Sprintf("Walk(tree %d)", o.T)
	case "self":
		return "bnf.SelfGrammar()"
	case "binds":
		return "fromcst.SelfCSTtoASTBindings()"
	case "own":
		return "the parseownsyntax example"
	case "reload":
		return fmt.Sprintf("reload(grammar %d)", o.G)
	}
	return o.K
}

// baseline is what a newly built parser makes of a string.
func (w *world) baseline(p int, data string) *AttOut {
	op := Op{K: "parse", P: p, Text: Text(data), Att: []Src{{Kind: "string"}}}
	key := fmt.Sprint(w.sc.Parsers[p].Tab, "|", data)
	if b, ok := w.base[key]; ok {
		return b
	}
	r := reduce(w.sc, &op, 0)
	x := newWorld(&r)
	x.setup()
	x.run()
	b := &AttOut{Kind: "missing"}
	if len(x.tasks) > 0 && len(x.tasks[0].outs) > 0 {
		b = x.tasks[0].outs[0].last()
	}
	if w.base == nil {
		w.base = map[string]*AttOut{}
	}
	w.base[key] = b
	return b
}

// tasksFrom spreads ops over tasks.
func (g gen) split(ops []Op, tasks int) [][]Op {
	res := make([][]Op, tasks)
	for i, o := range ops {
		k := i % tasks
		if i >= tasks {
			k = g.N(tasks)
		}
		res[k] = append(res[k], o)
	}
	var out [][]Op
	for _, r := range res {
		if len(r) > 0 {
			out = append(out, r)
		}
	}
	return out
}

func init() {
	// ------------------------------------------------------------------ C01
	reg(&property{id: "C01", runs: 400,
		rule: "a run: 1-2 random/known LL(1) grammars or hand-written tables, one or more texts (sentences, damaged, junk), each handed over in several ways (string, []byte, Buffer, readers with random delivery plans) by 1-3 tasks; non-trivial: a reader delivered at least one byte in more than one piece or irregularly",
		gen: func(b *batch, g gen) Scenario {
			sc := g.parsers(1+g.N(2), g.ll1)
			g.withHand(&sc, 0.15)
			var ops []Op
			for k := 1 + g.N(2); k > 0; k-- {
				op := g.parseOp(&sc, 0.3)
				if g.p(0.06) { // around buffer sizes
					op.Text = g.stretch(&sc, op.P, edges[g.N(len(edges))]-2+g.N(5))
				}
				if g.p(0.004) {
					op.Text = g.stretch(&sc, op.P, 60000+g.N(12000))
				}
				for m := 2 + g.N(3); m > 0; m-- {
					o := clone(op)
					o.Att = []Src{g.src(o.bytes(), srcOpt{reader: g.p(0.6)})}
					ops = append(ops, o)
				}
			}
			if g.p(0.001) {
				op := g.vast(&sc)
				op.Att = []Src{g.src(len(op.Text), srcOpt{reader: true})}
				ops = []Op{op}
			}
			sc.Tasks = g.split(ops, 1+g.N(3))
			return sc
		},
		check: func(w *world) *Violation {
			return w.each(func(o *OpOut, i int, a *AttOut) *Violation {
				data := damaged(o.Op.Text, o.Op.Dmg)
				base := w.baseline(o.Op.P, data)
				if base.Key() != a.Key() {
					return viol(w, "delivery", "%q as %s gives %s, but as a string %s", short(data), o.Op.Att[i].Kind, a.brief(), base.brief())
				}
				return nil
			})
		}})

	// ------------------------------------------------------------------ C02
	reg(&property{id: "C02", runs: 400,
		rule: "a run: parsers as in C01; each op is a sequence of attempts whose source fails (random error kind, position, with or without data, biased to positions where everything delivered is a sentence) or is unsupported, usually followed by a healthy retry; non-trivial: at least one injected failure was delivered to Parse",
		gen: func(b *batch, g gen) Scenario {
			sc := g.parsers(1+g.N(2), g.ll1)
			g.withHand(&sc, 0.15)
			var ops []Op
			for k := 1 + g.N(4); k > 0; k-- {
				op := g.parseOp(&sc, 0.15)
				if g.p(0.03) {
					op.Text = g.stretch(&sc, op.P, edges[g.N(len(edges))]-2+g.N(5))
				}
				for m := 1 + g.N(3); m > 0; m-- {
					if g.p(0.12) {
						op.Att = append(op.Att, g.badSrc())
					} else {
						op.Att = append(op.Att, g.src(op.bytes(), srcOpt{fault: "err"}))
					}
				}
				if g.p(0.7) {
					op.Att = append(op.Att, g.src(op.bytes(), srcOpt{}))
				}
				ops = append(ops, op)
			}
			if g.p(0.001) {
				op := g.vast(&sc)
				op.Att = []Src{g.src(len(op.Text), srcOpt{fault: "err"}), g.src(len(op.Text), srcOpt{})}
				ops = []Op{op}
			}
			sc.Tasks = g.split(ops, 1+g.N(3))
			return sc
		},
		check: func(w *world) *Violation {
			return w.each(func(o *OpOut, i int, a *AttOut) *Violation {
				s := o.Op.Att[i]
				data := damaged(o.Op.Text, o.Op.Dmg)
				switch {
				case unsupported(s.Kind):
					if a.Kind != "err" || !a.NilRes {
						return viol(w, "unsupported", "unsupported source (%s) gives %s", s.Kind, a.brief())
					}
				case a.Injected != "":
					if a.Kind != "err" {
						return viol(w, "unreported", "source failed with %q after %d of %d bytes (%q), but Parse gives %s", a.Injected, len(a.Delivered), len(data), short(a.Delivered), a.brief())
					}
					if !a.NilRes {
						return viol(w, "result", "source failed with %q, Parse returned a result along with the error", a.Injected)
					}
					if !a.IsInj {
						return viol(w, "wrongerror", "source failed with %q, Parse reports %q, in which errors.Is does not find the source's error", a.Injected, a.Err)
					}
				default:
					base := w.baseline(o.Op.P, data)
					if base.Key() != a.Key() {
						return viol(w, "retry", "attempt %d with a healthy source on %q gives %s, expected %s", i+1, short(data), a.brief(), base.brief())
					}
				}
				return nil
			})
		}})

	// ------------------------------------------------------------------ C03
	reg(&property{id: "C03", runs: 400,
		rule: "a run: 1-2 LL(1) grammars (random by rejection against an independent LL(1) analysis, 17 parametrised shapes, the self and JSON grammars), texts derived from them, damaged in 55% of ops (truncation, zeroed or zero-extended tails, NUL insertion, flips, overwrites, drops, duplications, swaps), delivered by 1-2 tasks in random ways; non-trivial: a text of at least one byte was judged",
		gen: func(b *batch, g gen) Scenario {
			sc := g.parsers(1+g.N(2), g.ll1)
			var ops []Op
			for k := 2 + g.N(6); k > 0; k-- {
				op := g.parseOp(&sc, 0.55)
				g.far(&sc, &op)
				op.Att = []Src{g.src(op.bytes(), srcOpt{})}
				ops = append(ops, op)
			}
			sc.Tasks = g.split(ops, 1+g.N(2))
			return sc
		},
		check: func(w *world) *Violation {
			for i, m := range w.tabErr {
				if m != "" {
					return viol(w, "nograme", "LL(1) grammar refused by table generation (%s):\n%s", m, short(w.models[w.sc.Tables[i].G].Dump()))
				}
			}
			return w.each(func(o *OpOut, i int, a *AttOut) *Violation {
				gi := w.sc.Tables[w.sc.Parsers[o.Op.P].Tab].G
				m, ana := w.models[gi], w.anas[gi]
				want := accepts(ana, a.Delivered)
				switch a.Kind {
				case "ok":
					if !want {
						return viol(w, "accepts", "%q is not a sentence of the grammar, but Parse accepts it:\n%s", short(a.Delivered), short(m.Dump()))
					}
					if a.Tree == nil {
						return viol(w, "derivation", "%q accepted without a tree", short(a.Delivered))
					}
					if msg := checkDerivation(ana, a.Tree, a.Delivered); msg != "" {
						return viol(w, "derivation", "tree of %q is no derivation: %s; tree %s; grammar\n%s", short(a.Delivered), msg, short(a.Tree.String()), short(m.Dump()))
					}
					if a.names == nil {
						return viol(w, "names", "no names map returned")
					}
					for k, r := range m.Rules {
						if s, ok := (*a.names)[k]; !ok || s != r.Head {
							return viol(w, "names", "names map calls rule %d %q instead of %q", k, s, r.Head)
						}
					}
				case "err":
					if want {
						return viol(w, "refuses", "%q is a sentence of the grammar, but Parse refuses it (%s):\n%s", short(a.Delivered), a.Err, short(m.Dump()))
					}
				default:
					return viol(w, a.Kind, "Parse of %q does not decide: %s; grammar\n%s", short(a.Delivered), a.brief(), short(m.Dump()))
				}
				return nil
			})
		}})

	// ------------------------------------------------------------------ C04
	reg(&property{id: "C04", runs: 500,
		rule: "a run: generated tables and hand-written tables (60%, including tables with the built-in end-of-line rule, empty literals and NUL bytes), texts derived from the table, damaged in half of the ops, delivered in random ways; non-trivial: at least one parse succeeded and its spans were checked",
		gen: func(b *batch, g gen) Scenario {
			sc := g.parsers(1+g.N(3), g.ll1)
			g.withHand(&sc, 0.6)
			var ops []Op
			for k := 3 + g.N(8); k > 0; k-- {
				op := g.parseOp(&sc, 0.5)
				g.far(&sc, &op)
				op.Att = []Src{g.src(op.bytes(), srcOpt{})}
				ops = append(ops, op)
			}
			if g.p(0.001) {
				op := g.vast(&sc)
				if g.p(0.5) {
					op.Dmg = g.damage(handAna, string(op.Text))
				}
				op.Att = []Src{g.src(op.bytes(), srcOpt{})}
				ops = []Op{op}
			}
			sc.Tasks = g.split(ops, 1+g.N(2))
			return sc
		},
		check: func(w *world) *Violation {
			return w.each(func(o *OpOut, i int, a *AttOut) *Violation {
				if a.Kind != "ok" {
					return nil
				}
				if a.Tree == nil {
					return viol(w, "notree", "Parse of %q returned neither tree nor error", short(a.Delivered))
				}
				if msg := checkTiling(a.Tree, len(a.Delivered)); msg != "" {
					return viol(w, "tiling", "tree of %q: %s; tree %s", short(a.Delivered), msg, short(a.Tree.String()))
				}
				return nil
			})
		}})

	// ------------------------------------------------------------------ C05
	reg(&property{id: "C05", runs: 500, race: 50,
		rule: "a run: 2-4 tasks with 1-3 Parse calls each on shared parsers and parsers sharing a table and names map, sources healthy, failing, stalling, panicking or calling Parse from Read; seeded schedule (random, PCT, site-biased, round-robin); every outcome compared with the same call alone in a fresh process; half of the batches under the race detector; among the sources: memory, buffers and readers a task uses again for other bytes, parsers of easily confused grammars, calls repeated hundreds of times; non-trivial: at least one preemption inside the library or a re-entrant call",
		gen: func(b *batch, g gen) Scenario {
			if b.pool == nil {
				for k := 0; k < 4; k++ {
					b.pool = append(b.pool, b.g.parseScene(0.25, 9))
				}
			}
			s := b.pool[g.N(len(b.pool))]
			sc := clone(s.sc)
			nt, calls := 2+g.N(3), 3
			if g.p(0.04) { // a crowd
				nt, calls = 6+g.N(14), 2
			}
			same := g.p(0.2)
			first := g.N(len(s.ops))
			for i := 0; i < nt; i++ {
				var ops []Op
				for k := 1 + g.N(calls); k > 0; k-- {
					j := g.N(len(s.ops))
					if same {
						j = first
					}
					op := clone(s.ops[j])
					if g.p(0.015) { // nested many levels deep
						op = g.nest(s, 2+g.N(12))
					}
					ops = append(ops, op)
					if m, ok := s.next[j]; ok && len(op.Att) > 0 && op.Att[0].Reuse && g.p(0.5) {
						ops = append(ops, clone(s.ops[m]))
						k--
					}
				}
				sc.Tasks = append(sc.Tasks, ops)
			}
			g.again(sc.Tasks, 0.008)
			return sc
		},
		check: func(w *world) *Violation {
			if v := compareSolo(w); v != nil {
				return v
			}
			return checkRaised(w)
		}})

	// ------------------------------------------------------------------ C07
	reg(&property{id: "C07", runs: 400,
		rule: "a run: 1-2 tasks making 3-9 calls on shared parsers; more than half of the calls are aborted (source error, panic, Goexit in the middle of a read, abandoned nested call) or fail on a syntax error; every outcome compared with the same call alone in a fresh process; some calls are repeated up to hundreds of times, every repetition having to come out alike; non-trivial: a call was made after an aborted one",
		gen: func(b *batch, g gen) Scenario {
			if b.pool == nil {
				for k := 0; k < 4; k++ {
					b.pool = append(b.pool, b.g.parseScene(0.55, 10))
				}
			}
			s := b.pool[g.N(len(b.pool))]
			sc := clone(s.sc)
			nt := 1
			if g.p(0.3) {
				nt = 2
			}
			long := g.p(0.04)
			for i := 0; i < nt; i++ {
				var ops []Op
				k := 3 + g.N(7)/nt
				use := s.ops
				if long { // a long life, mostly of a few calls again and again
					k = (20 + g.N(120)) / nt
					if g.p(0.7) {
						use = nil
						for m := 1 + g.N(3); m > 0; m-- {
							use = append(use, s.ops[g.N(len(s.ops))])
						}
					}
				}
				for ; k > 0; k-- {
					j := g.N(len(use))
					ops = append(ops, clone(use[j]))
					if m, ok := s.next[j]; ok && len(use) == len(s.ops) && g.p(0.4) {
						ops = append(ops, clone(s.ops[m]))
					}
				}
				if long {
					for m := 3; m > 0; m-- {
						ops = append(ops, clone(s.ops[g.N(len(s.ops))]))
					}
				}
				sc.Tasks = append(sc.Tasks, ops)
			}
			g.again(sc.Tasks, 0.03)
			return sc
		},
		check: func(w *world) *Violation {
			if v := compareSolo(w); v != nil {
				return v
			}
			return checkRaised(w)
		}})

	// ------------------------------------------------------------------ C08
	reg(&property{id: "C08", runs: 300, race: 50,
		rule: "a run: 1-4 tasks generating tables from shared and separate grammar values (LL(1), conflicting, left-recursive, referring to undefined rules), optionally parsing with the result; map iteration order chosen by the simulator; tables, names and errors compared with the same generation alone in a fresh process; among the grammars: pairs that print alike or differ in little, and grammar values edited in place between two generations; non-trivial: more than one generation in the run",
		gen: func(b *batch, g gen) Scenario {
			if b.pool == nil {
				for k := 0; k < 4; k++ {
					s := &scene{}
					for i := 0; i < 4; i++ {
						f := b.g.any
						if b.g.p(0.2) {
							f = b.g.mal
						}
						gs := f()
						for len(s.sc.Grammars) > 0 && gs.Kind != "rules" && s.sc.Grammars[0].Kind != "rules" {
							gs = f()
						}
						if i > 0 && b.g.p(0.35) && s.sc.Grammars[0].Kind == "rules" {
							gs = b.g.twin(s.sc.Grammars[b.g.N(i)])
						}
						s.sc.Grammars = append(s.sc.Grammars, gs)
						op := Op{K: "gen", G: i}
						s.ops = append(s.ops, op)
						a := anaOf(gs)
						if a.OK && a.LL1 {
							op.N = 1
							op.Text = b.g.text(a)
							if b.g.p(0.4) {
								op.Dmg = b.g.damage(a, string(op.Text))
							}
							op.Att = []Src{{Kind: "string"}}
							s.ops = append(s.ops, op)
						}
					}
					b.pool = append(b.pool, s)
				}
			}
			s := b.pool[g.N(len(b.pool))]
			sc := clone(s.sc)
			nt := 1 + g.N(4)
			for i := 0; i < nt; i++ {
				var ops []Op
				for k := 1 + g.N(3); k > 0; k-- {
					op := clone(s.ops[g.N(len(s.ops))])
					if g.p(0.15) {
						op.Ed = 1 + g.N(len(sc.Grammars))
					}
					ops = append(ops, op)
				}
				sc.Tasks = append(sc.Tasks, ops)
			}
			if o := &sc.Tasks[0][0]; len(sc.Grammars[o.G].Rules) < 9 && sc.Grammars[o.G].Kind == "rules" && g.p(0.02) {
				o.Rep = g.pickN(130, 260, 260, 300)
			}
			return sc
		},
		check: compareSolo})

	// ------------------------------------------------------------------ C09
	reg(&property{id: "C09", runs: 300, race: 50,
		rule: "a run: 1-4 tasks converting trees of several grammar texts with shared bindings values (ignore lists in every order, some with missing escapes or wrong node types so that conversions fail part-way); outcomes compared with the same conversion alone in a fresh process and, for sound bindings, with an independent reader of the BNF text; trees and texts reused at the same place with other contents, calls repeated hundreds of times; non-trivial: more than one conversion in the run",
		gen: func(b *batch, g gen) Scenario {
			if b.pool == nil {
				for k := 0; k < 3; k++ {
					b.pool = append(b.pool, b.g.astScene())
				}
			}
			s := b.pool[g.N(len(b.pool))]
			sc := clone(s.sc)
			nt := 1 + g.N(4)
			bind := g.N(len(sc.Binds))
			for i := 0; i < nt; i++ {
				var ops []Op
				for k := 1 + g.N(3); k > 0; k-- {
					op := Op{K: "ast", T: g.N(len(sc.Trees)), B: bind}
					if g.p(0.3) {
						op.B = g.N(len(sc.Binds))
					}
					if g.p(0.2) { // the tree fits this text as well
						op.N = 1
					}
					if g.p(0.1) {
						op.Ed = 1 + g.N(len(sc.Binds))
					}
					op.Own = g.p(0.1)
					ops = append(ops, op)
				}
				sc.Tasks = append(sc.Tasks, ops)
			}
			if o := &sc.Tasks[0][0]; len(sc.Trees[o.T].Text) < 150 && g.p(0.02) {
				o.Rep = g.pickN(130, 260, 300)
			}
			return sc
		},
		check: func(w *world) *Violation {
			for i, n := range w.trees {
				if n == nil {
					return viol(w, "notree", "the self grammar's parser gives no tree for %q", short(w.treeText[i]))
				}
			}
			if v := compareSolo(w); v != nil {
				return v
			}
			return w.each(func(o *OpOut, i int, a *AttOut) *Violation {
				b := w.sc.Binds[o.Op.B]
				if !b.sound() {
					return nil
				}
				want, ok := readBound(w.astText(o.Op), b)
				if !ok {
					if a.Kind == "ok" {
						return viol(w, "unknown", "text %q has what the bindings lack, but ToAST gives %s", short(w.astText(o.Op)), a.brief())
					}
					return nil
				}
				if a.Kind != "ok" || a.Gram != want.Dump() {
					return viol(w, "wrongast", "ToAST of %q gives %s, expected\n%s", short(w.astText(o.Op)), a.brief(), short(want.Dump()))
				}
				return nil
			})
		}})

	// ------------------------------------------------------------------ C10
	reg(&property{id: "C10", runs: 150, race: 20,
		rule: "a run: 1-3 tasks reloading random expressible grammars (or texts in free layout) through random deliveries, source failures with retries, and damage in half of the ops; non-trivial: a text was delivered irregularly or damaged",
		gen: func(b *batch, g gen) Scenario {
			sc := Scenario{Grammars: []GSpec{{Kind: "self"}}, Tables: []TabSpec{{G: 0}}, Parsers: []PSpec{{0}}, Binds: []BSpec{{}}}
			var ops []Op
			for k := 1 + g.N(3); k > 0; k-- {
				op := g.reload(&sc, false)
				ops = append(ops, op)
			}
			if g.p(0.03) {
				ops = append(ops, Op{K: "own"})
			}
			sc.Tasks = g.split(ops, 1+g.N(3))
			return sc
		},
		check: checkReload})

	// ------------------------------------------------------------------ C11
	reg(&property{id: "C11", runs: 500, race: 40,
		rule: "a run: 1-4 tasks walking shared hand-built and parsed trees with visitors that prune, switch visitors, panic, call Goexit or walk again from inside Visit at random visit numbers; visit sequences compared with an independent model; visitors of incomparable, empty and nil-able types; non-trivial: a tree of at least 3 nodes and a pruning, abort, nesting or preemption",
		gen: func(b *batch, g gen) Scenario {
			sc := g.parsers(1, g.ll1)
			for k := 1 + g.N(2); k > 0; k-- {
				if g.p(0.03) {
					sc.Trees = append(sc.Trees, TreeSpec{Build: g.deepTree()})
				} else if g.p(0.6) {
					sc.Trees = append(sc.Trees, TreeSpec{Build: g.tree(1 + g.N(5))})
				} else {
					sc.Trees = append(sc.Trees, TreeSpec{P: 0, Text: g.sentence(anaOf(sc.Grammars[0]), g.N(40))})
				}
			}
			nt := 1 + g.N(4)
			for i := 0; i < nt; i++ {
				var ops []Op
				for k := 1 + g.N(3); k > 0; k-- {
					op := Op{K: "walk", T: g.N(len(sc.Trees)), V: &VPlan{}}
					size := 30
					if b := sc.Trees[op.T].Build; b != nil {
						size = b.count()
					}
					v := op.V
					pos := func() int {
						if size > 100 && g.p(0.4) { // the first nodes, and the last
							if g.p(0.7) {
								return 1 + g.N(4)
							}
							return size - g.N(4)
						}
						return 1 + g.N(size)
					}
					for g.p(0.4) {
						v.Prune = append(v.Prune, pos())
					}
					for g.p(0.4) {
						v.Fresh = append(v.Fresh, pos())
					}
					switch g.N(6) {
					case 0:
						v.Panic = pos()
					case 1:
						v.Goexit = pos()
					case 2:
						v.Nested = pos()
					}
					v.Spin = g.N(3)
					if g.p(0.2) {
						v.Typ = g.pick("slice", "func", "map")
						if nt == 1 && g.p(0.5) {
							v.Typ, v.Fresh, v.Nested = g.pick("nil", "empty"), nil, 0
						}
					}
					if size < 20 && g.p(0.01) {
						op.Rep = g.pickN(130, 260, 300, 1030)
					}
					ops = append(ops, op)
				}
				sc.Tasks = append(sc.Tasks, ops)
			}
			return sc
		},
		check: func(w *world) *Violation {
			for i, n := range w.trees {
				if n != nil {
					if d := dumpTree(n); d.String() != w.treeNDs[i].String() {
						return viol(w, "tree", "tree changed by walking from %s to %s", short(w.treeNDs[i].String()), short(d.String()))
					}
				}
			}
			for _, t := range w.tasks {
				for _, o := range t.outs {
					a := o.last()
					if a.Kind == "skip" || a.Kind == "missing" {
						continue
					}
					want, raised := modelWalk(w.treeNDs[o.Op.T], o.Op.V)
					if strings.Join(a.Visits, " ") != strings.Join(want, " ") {
						return viol(w, "sequence", "walk with plan %s of %s visits %s, expected %s", toJSON(o.Op.V), short(w.treeNDs[o.Op.T].String()), short(strings.Join(a.Visits, " ")), short(strings.Join(want, " ")))
					}
					kind := "ok"
					if raised {
						kind = "panic"
						if o.Op.V.Goexit > 0 {
							kind = "goexit"
						}
					}
					if a.Kind != kind || kind == "panic" && !a.PanicSame {
						return viol(w, "abort", "walk ended with %s (%s), expected %s", a.Kind, a.Err, kind)
					}
					sub, _ := modelWalk(w.treeNDs[o.Op.T], &VPlan{})
					for _, n := range a.Nested {
						if strings.Join(n.last().Visits, " ") != strings.Join(sub, " ") {
							return viol(w, "nested", "nested walk of %s visits %s, expected %s", short(w.treeNDs[o.Op.T].String()), short(strings.Join(n.last().Visits, " ")), short(strings.Join(sub, " ")))
						}
					}
				}
			}
			return nil
		}})

	// ------------------------------------------------------------------ C12
	reg(&property{id: "C12", runs: 400, race: 20,
		rule: "a run: grammars of every kind (LL(1), conflicting, directly, indirectly and nullably left-recursive); whatever table generation returns is used to parse sentences, truncations, damage and junk from stalling sources under a step budget linear in text and grammar size; reads are observed for lateness and overlap, goroutines counted; non-trivial: a parse of a table ran to completion",
		gen: func(b *batch, g gen) Scenario {
			sc := g.parsers(1+g.N(2), func() GSpec {
				if g.p(0.35) {
					return g.ll1()
				}
				return g.any()
			})
			var ops []Op
			for k := 2 + g.N(4); k > 0; k-- {
				op := g.parseOp(&sc, 0.4)
				f := ""
				if g.p(0.15) {
					f = "err"
				} else if g.p(0.08) {
					f = "panic"
				}
				op.Att = []Src{g.src(op.bytes(), srcOpt{fault: f, reader: g.p(0.7)})}
				if f == "" && g.p(0.2) {
					for j := range op.Att[0].Steps {
						op.Att[0].Steps[j].Stall = 1 + g.N(2000)
					}
				}
				if f == "" && g.p(0.06) && len(op.Att[0].Steps) > 0 { // and for long
					for m := 1 + g.N(3); m > 0; m-- {
						op.Att[0].Steps[g.N(len(op.Att[0].Steps))].Stall = g.pickN(1, 10, 60, 1000, 5000) * 1000003 * (1 + g.N(9))
					}
				}
				ops = append(ops, op)
			}
			sc.Tasks = g.split(ops, 1+g.N(3))
			return sc
		},
		check: func(w *world) *Violation {
			return w.each(func(o *OpOut, i int, a *AttOut) *Violation {
				gi := w.sc.Tables[w.sc.Parsers[o.Op.P].Tab].G
				switch {
				case a.Kind == "steplimit":
					return viol(w, "steps", "Parse of %q does not finish within %d steps; table of grammar\n%s", short(damaged(o.Op.Text, o.Op.Dmg)), w.budget(o.Op.P, len(damaged(o.Op.Text, o.Op.Dmg))), short(w.models[gi].Dump()))
				case a.Kind == "deadlock":
					return viol(w, "deadlock", "Parse of %q deadlocks", short(a.Delivered))
				case a.LateRead:
					return viol(w, "lateread", "source was read after Parse had returned")
				case a.TwoReads:
					return viol(w, "tworeads", "source was read from two goroutines at once")
				case a.Children > 0:
					return viol(w, "goroutines", "Parse left %d goroutine(s) behind", a.Children)
				}
				return nil
			})
		}})

	// ------------------------------------------------------------------ C13
	reg(&property{id: "C13", runs: 60,
		rule: "a run: the JSON example's main on a simulated disk holding its grammar file and a random document; documents intact, truncated, zero-filled or corrupted (60%), files missing, unopenable or failing part-way through reading (20%), delivered in chunks or with stalls; non-trivial: a document with at least one key, or a fault",
		gen: func(b *batch, g gen) Scenario {
			m := &MSpec{Doc: Text(g.jsonDoc())}
			ana := anaOf(GSpec{Kind: "json"})
			if g.p(0.55) {
				m.DocDmg = g.damage(ana, string(m.Doc))
			}
			if g.p(0.2) {
				file := g.pick(bnfFile, docFile)
				switch g.N(3) {
				case 0:
					m.Missing = file
				case 1:
					m.OpenErr = file + ":" + g.pick("EACCES", "EMFILE", "EISDIR", "ENOMEM", "EIO")
				case 2:
					ln := len(m.Doc)
					if file == bnfFile {
						ln = len(jsonBNF)
					}
					m.ReadErr = fmt.Sprintf("%s:%s:%d", file, g.pick("EIO", "EISDIR"), []int{0, ln, g.N(ln + 1)}[g.N(3)])
				}
			}
			if g.p(0.15) {
				m.BnfDmg = g.damageBNF(len(jsonBNF))
			}
			if g.p(0.4) {
				m.Chunk = 1 + g.N(200)
			}
			if g.p(0.2) {
				m.Stall = 1 + g.N(1000)
			}
			return Scenario{Tasks: [][]Op{{{K: "main", M: m}}}}
		},
		check: func(w *world) *Violation {
			return w.each(func(o *OpOut, i int, a *AttOut) *Violation {
				m := o.Op.M
				lines, ok := jsonKeys(a.Delivered)
				fault := a.Unread // a disk error that did reach the program
				const head = "JSON key structure:\n"
				broken := false // the grammar file is not one of a grammar that can be used
				if gtext := damaged(Text(jsonBNF), m.BnfDmg); gtext != jsonBNF && !fault {
					was, _ := readBNF(jsonBNF)
					gr, valid := readBNF(gtext)
					if broken = !valid || malformed(gr) != ""; !broken && gr.Dump() != was.Dump() {
						if an := analyse(gr); !an.OK || !an.Conflict {
							return nil // another language
						}
						broken = true
					}
				}
				if fault || !ok || broken {
					what := "document is not of the grammar's language"
					if fault {
						what = "a file cannot be read"
					} else if broken {
						what = "the grammar file holds no LL(1) grammar"
					}
					switch {
					case a.Kind != "exit" || a.Exit == 0:
						return viol(w, "noerror", "%s (%s): program ended with %s %d %s, output %q; document %q", what, toJSON(m), a.Kind, a.Exit, a.Err, short(a.Out), short(a.Delivered))
					case strings.TrimSpace(a.ErrO) == "":
						return viol(w, "silent", "%s: exit %d without a message on standard error", what, a.Exit)
					case strings.Contains(a.Out, head):
						return viol(w, "output", "%s: key structure printed: %q", what, short(a.Out))
					}
					return nil
				}
				if a.Kind != "ok" && !(a.Kind == "exit" && a.Exit == 0) {
					return viol(w, "refused", "document %q: program ended with %s %d %s, standard error %q", short(a.Delivered), a.Kind, a.Exit, a.Err, short(a.ErrO))
				}
				at := strings.Index(a.Out, head)
				if at < 0 {
					return viol(w, "nokeys", "document %q: no key structure in %q", short(a.Delivered), short(a.Out))
				}
				want := ""
				for _, l := range lines {
					want += l + "\n"
				}
				if got := a.Out[at+len(head):]; got != want {
					return viol(w, "keys", "document %q: keys printed as %q, expected %q", short(a.Delivered), short(got), short(want))
				}
				return nil
			})
		}})

	// ------------------------------------------------------------------ C14
	reg(&property{id: "C14", runs: 400, race: 20,
		rule: "a run: 1-3 tasks generating tables from grammars with competing alternatives (random, or small mutations of LL(1) grammars), from permutations of their rules and alternatives, and from LL(1) grammars in between; map iteration order and schedule chosen by the simulator; judged by an independent LL(1) analysis; non-trivial: a grammar with a conflict was judged",
		gen: func(b *batch, g gen) Scenario {
			var sc Scenario
			for k := 1 + g.N(3); k > 0; k-- {
				s := g.clash()
				sc.Grammars = append(sc.Grammars, s)
				for m := g.N(3); m > 0; m-- {
					gr := anaOf(clone(s)).g
					c := &Grammar{}
					for _, r := range gr.Rules {
						c.Rules = append(c.Rules, Rule{r.Head, append([][]Sym(nil), r.Alts...)})
					}
					g.permute(c)
					sc.Grammars = append(sc.Grammars, specOf(c))
				}
			}
			if g.p(0.3) {
				if s := g.ll1(); s.Kind == "rules" {
					sc.Grammars = append(sc.Grammars, s)
				}
			}
			var ops []Op
			for i := range sc.Grammars {
				for k := 1 + g.N(2); k > 0; k-- {
					ops = append(ops, Op{K: "gen", G: i})
				}
			}
			for i := len(ops) - 1; i > 0; i-- {
				j := g.N(i + 1)
				ops[i], ops[j] = ops[j], ops[i]
			}
			sc.Tasks = g.split(ops, 1+g.N(3))
			return sc
		},
		check: func(w *world) *Violation {
			return w.each(func(o *OpOut, i int, a *AttOut) *Violation {
				ana := w.anas[o.Op.G]
				if !ana.OK || !ana.Conflict {
					return nil
				}
				if a.Kind != "err" {
					return viol(w, "accepted", "alternatives compete in this grammar, but table generation gives %s:\n%s", a.brief(), short(ana.g.Dump()))
				}
				if !a.NilRes {
					return viol(w, "result", "table generation refuses the grammar, but returns a table or names along with the error %q:\n%s", a.Err, short(ana.g.Dump()))
				}
				return nil
			})
		}})

	// ------------------------------------------------------------------ C15
	reg(&property{id: "C15", runs: 500, race: 30,
		rule: "a run: 1-4 tasks, each performing 5-60 random operations on byte sets of its own and on shared ones (read only), every answer compared with a reference model; non-trivial: at least three answers were compared",
		gen: func(b *batch, g gen) Scenario {
			var sc Scenario
			for k := g.N(3); k > 0; k-- {
				sc.Sets = append(sc.Sets, g.byteList(g.pickN(3, 30, 300)))
			}
			for k := 1 + g.N(4); k > 0; k-- {
				sc.Tasks = append(sc.Tasks, []Op{{K: "set", Set: g.setOps(5+g.N(56), len(sc.Sets))}})
			}
			return sc
		},
		check: func(w *world) *Violation {
			for i, v := range w.sc.Sets {
				for b := 0; b < 256; b++ {
					if w.sets[i].Contains(byte(b)) != strings.Contains(string(v), string([]byte{byte(b)})) {
						return viol(w, "shared", "set made of % x, which was only read, is now %s", string(v), w.sets[i].String())
					}
				}
			}
			return w.each(func(o *OpOut, i int, a *AttOut) *Violation {
				want := modelSet(w.sc.Sets, o.Op.Set)
				if a.Kind != "ok" {
					return viol(w, a.Kind, "operation %d of %s ended with %s %s", len(a.Visits), short(toJSON(o.Op.Set)), a.Kind, a.Err)
				}
				for k := range want {
					if a.Visits[k] != want[k] {
						return viol(w, "answer:"+o.Op.Set[k].K, "operation %d of %s gives %s, expected %s", k, short(toJSON(o.Op.Set)), a.Visits[k], want[k])
					}
				}
				return nil
			})
		}})

	// ------------------------------------------------------------------ C16
	reg(&property{id: "C16", runs: 400, race: 20,
		rule: "a run: 1-3 tasks generating tables from malformed grammar values (no rules, alternatives without symbols, empty terminals, empty-string symbols among others, undefined rules, unknown kinds of symbol, anywhere in random grammars, alone or together) and from well-formed ones in between; map iteration order and schedule chosen by the simulator; non-trivial: a malformed grammar was judged",
		gen: func(b *batch, g gen) Scenario {
			var sc Scenario
			for k := 1 + g.N(4); k > 0; k-- {
				sc.Grammars = append(sc.Grammars, g.mal())
			}
			if g.p(0.4) {
				if s := g.any(); s.Kind == "rules" {
					sc.Grammars = append(sc.Grammars, s)
				}
			}
			var ops []Op
			for i := range sc.Grammars {
				for k := 1 + g.N(2); k > 0; k-- {
					ops = append(ops, Op{K: "gen", G: i})
				}
			}
			for i := len(ops) - 1; i > 0; i-- {
				j := g.N(i + 1)
				ops[i], ops[j] = ops[j], ops[i]
			}
			sc.Tasks = g.split(ops, 1+g.N(3))
			return sc
		},
		check: func(w *world) *Violation {
			return w.each(func(o *OpOut, i int, a *AttOut) *Violation {
				m := w.models[o.Op.G]
				why := malformed(m)
				if why == "" {
					if a.Kind != "ok" && a.Kind != "err" {
						return viol(w, a.Kind, "table generation from a well-formed grammar ended with %s %s:\n%s", a.Kind, a.Err, short(m.Dump()))
					}
					return nil
				}
				if a.Kind != "err" {
					return viol(w, "accepted:"+a.Kind, "malformed grammar (%s), but table generation gives %s:\n%s", why, a.brief(), short(m.Dump()))
				}
				if !a.NilRes {
					return viol(w, "result", "malformed grammar (%s) refused, but a table or names came along with the error %q:\n%s", why, a.Err, short(m.Dump()))
				}
				return nil
			})
		}})

	// ------------------------------------------------------------------ C17
	reg(&property{id: "C17", runs: 500, race: 20,
		rule: "a run: 1-3 hand-written tables (empty ones, ones without the start row, with references to missing rows and unknown built-ins, with empty cells, literals and names among them) and sometimes a generated one; texts derived from the table, damaged in half of the calls, delivered in random ways, sometimes from failing sources, by 1-3 tasks; compared with a reference machine; non-trivial: a call on a hand-written table ended and was compared",
		gen: func(b *batch, g gen) Scenario {
			sc := g.parsers(1+g.N(3), g.ll1)
			g.withHand(&sc, 0.9)
			for i := range sc.Tables {
				if h := sc.Tables[i].Hand; h != nil {
					g.spoil(h)
				}
				if g.p(0.25) {
					sc.Tables[i].Names = g.moreNames()
				}
			}
			var ops []Op
			for k := 3 + g.N(8); k > 0; k-- {
				op := g.parseOp(&sc, 0.5)
				if h := sc.Tables[sc.Parsers[op.P].Tab].Hand; h != nil {
					if len(op.Text) > 300 && !h.long() {
						op.Text = op.Text[:300]
					}
					if _, ended := runTable(h, damaged(op.Text, op.Dmg)); !ended {
						continue
					}
				}
				f := ""
				if g.p(0.08) {
					f = g.pick("err", "err", "panic")
				}
				op.Att = []Src{g.src(op.bytes(), srcOpt{fault: f})}
				if g.p(0.03) {
					op.Att[0] = g.badSrc()
				}
				if g.p(0.1) {
					op.Ed = 1 + g.N(len(sc.Parsers))
				}
				ops = append(ops, op)
			}
			if len(ops) == 0 {
				op := Op{K: "parse", Att: []Src{{Kind: "string"}}}
				if h := sc.Tables[0].Hand; h != nil {
					if _, ended := runTable(h, ""); !ended {
						sc.Tables[0].Hand = &HTab{}
					}
				}
				ops = append(ops, op)
			}
			sc.Tasks = g.split(ops, 1+g.N(3))
			return sc
		},
		check: func(w *world) *Violation {
			return w.each(func(o *OpOut, i int, a *AttOut) *Violation {
				data := damaged(o.Op.Text, o.Op.Dmg)
				ti := w.sc.Parsers[o.Op.P].Tab
				h := w.sc.Tables[ti].Hand
				switch {
				case a.Raised:
					return nil
				case a.Kind == "err":
					if !a.NilRes {
						return viol(w, "result", "Parse of %q returned a result along with the error %q", short(data), a.Err)
					}
				case a.Kind == "ok":
					if a.tree == nil || a.names == nil {
						return viol(w, "noresult", "Parse of %q returned neither a result nor an error", short(data))
					}
				default:
					return viol(w, a.Kind, "Parse of %q ended with %s; table %s", short(data), a.brief(), toJSON(h))
				}
				if h == nil || a.Injected != "" || unsupported(o.Op.Att[i].Kind) {
					return nil
				}
				tree, ended := runTable(h, data)
				if !ended {
					vsim.Fatal("C17: endless table")
				}
				if tree == nil {
					if a.Kind == "ok" {
						return viol(w, "accepts", "the table does not lead through %q, but Parse gives %s; table %s", short(data), a.brief(), toJSON(h))
					}
					return nil
				}
				if a.Kind == "err" {
					return viol(w, "refuses", "the table leads through %q, but Parse refuses it (%s); table %s", short(data), a.Err, toJSON(h))
				}
				if x, y := a.Tree.String(), tree.String(); x != y {
					return viol(w, "tree", "Parse of %q gives the tree %s, but the table says %s; table %s", short(data), short(x), short(y), toJSON(h))
				}
				want := map[int]string{}
				for k, v := range w.names[ti] {
					want[k] = v
				}
				// the built-in node types, whatever the caller calls them
				want[-1], want[-2] = "_literal", "_nothing"
				if x := dumpNames(want); x != a.Names {
					return viol(w, "names", "the names map is %s, but should be %s", a.Names, x)
				}
				return nil
			})
		}})

	// ------------------------------------------------------------------ C18
	reg(&property{id: "C18", runs: 150, race: 20,
		rule: "a run: 1-3 copies of the library's own grammar with rules numbered, and sometimes named, differently, each with bindings that say so (and sometimes give escapes another meaning); 1-3 tasks reload random grammars and free-layout texts through them, with deliveries, failures and damage as in C10, also converting one grammar's tree between conversions of others; non-trivial: a text was delivered irregularly or damaged",
		gen: func(b *batch, g gen) Scenario {
			sc := Scenario{}
			np := 1 + g.N(3)
			for i := 0; i < np; i++ {
				s, bind := GSpec{Kind: "self"}, BSpec{}
				if i > 0 && g.p(0.8) || i == 0 && g.p(0.95) {
					s, bind.Num, bind.Off = g.renumbered()
				}
				if g.p(0.3) {
					bind.Esc = map[string]Text{}
					for k := 1 + g.N(3); k > 0; k-- {
						bind.Esc[g.pick("t", "n", "r", "\"", "\\")] = Text(g.pick("\t\t", "TAB", "x", "\\", "\x00", "\"", "\xe2\x86\x92", ""))
					}
				}
				if g.p(0.1) {
					bind.Drop = []string{g.pick("t", "n", "r", `"`, `\`)}
				}
				if g.p(0.06) {
					bind.Bad = g.bad()
				}
				bind.NoEsc = (bind.Num == nil || bind.Num[16] == 16) && g.p(0.4)
				if g.p(0.4) {
					var out []int
					for m := 4; m > 0; m-- {
						x := g.pickN(99, -3, -9, 1000, 500)
						if g.p(0.5) { // looks like one of the grammar's if some bits are lost
							x = g.pickN(64, 128, 256, 1<<10, 1<<16, 1<<32) + g.N(len(s.Rules)+1)
						}
						if x < 0 || x >= max(26, len(s.Rules)) {
							out = append(out, x)
						}
					}
					bind.Ignore = g.ignores(append(out, 99999))
				}
				if g.p(0.3) {
					bind.Terms = []int{0, 1}
					for m := g.N(3); m > 0; m-- {
						bind.Terms = append(bind.Terms, g.pickN(0, 1, 999, 1<<20, -7))
					}
					for i := len(bind.Terms) - 1; i > 0; i-- {
						j := g.N(i + 1)
						bind.Terms[i], bind.Terms[j] = bind.Terms[j], bind.Terms[i]
					}
				}
				sc.Grammars = append(sc.Grammars, s)
				sc.Tables = append(sc.Tables, TabSpec{G: i})
				sc.Parsers = append(sc.Parsers, PSpec{i})
				sc.Binds = append(sc.Binds, bind)
			}
			var ops []Op
			for k := 1 + g.N(4); k > 0; k-- {
				p := g.N(np)
				op := g.reload(&sc, sc.Binds[p].Off != nil)
				op.P, op.B = p, p
				if g.p(0.15) {
					op.Ed = 1 + g.N(np)
				}
				op.Own = g.p(0.1)
				ops = append(ops, op)
			}
			sc.Tasks = g.split(ops, 1+g.N(3))
			return sc
		},
		check: checkReload})

	// ------------------------------------------------------------------ C06
	reg(&property{id: "C06", runs: 300, race: 40,
		rule: "a run: 1-3 tasks making 2-6 calls each of every kind (Parse with every source kind, FromGrammar, ToAST, Walk, also failing and aborted) on shared objects, callers modifying their own results afterwards; all inputs and all earlier results are deep-compared after every call (in race batches: at the end of the run); non-trivial: at least two results were returned",
		gen: func(b *batch, g gen) Scenario {
			sc := g.parsers(1+g.N(2), func() GSpec {
				for {
					if s := g.ll1(); s.Kind == "rules" {
						return s
					}
				}
			})
			g.withHand(&sc, 0.2)
			if g.p(0.5) { // two parsers on one table
				sc.Parsers = append(sc.Parsers, PSpec{0})
			}
			if g.p(0.5) {
				sc.Grammars = append(sc.Grammars, g.any())
			}
			ast := g.p(0.5)
			if ast {
				g.addAST(&sc)
			}
			np := len(sc.Parsers)
			sc.Trees = append(sc.Trees, TreeSpec{Build: g.tree(3)})
			nt := 1 + g.N(3)
			for i := 0; i < nt; i++ {
				var ops []Op
				for k := 2 + g.N(5); k > 0; k-- {
					var op Op
					switch c := g.N(10); {
					case c < 5:
						op = Op{K: "parse", P: g.N(np)}
						if ast && op.P == np-1 && g.p(0.8) {
							op.P = 0
						}
						op.Text = g.textFor(&sc, op.P)
						if len(op.Text) > 200 && op.P == np-1 {
							op.Text = op.Text[:200]
						}
						if g.p(0.25) {
							op.Dmg = g.dmgFor(&sc, op.P, op.Text)
						}
						f := ""
						if g.p(0.15) {
							f = g.pick("err", "panic", "goexit")
						}
						op.Att = []Src{g.src(op.bytes(), srcOpt{fault: f})}
					case c < 7:
						op = Op{K: "gen", G: g.N(len(sc.Grammars))}
					case g.p(0.1):
						op = Op{K: g.pick("self", "binds")}
					case c < 9 && ast:
						op = Op{K: "ast", T: g.N(len(sc.Trees) - 1), B: g.N(len(sc.Binds))}
					default:
						op = Op{K: "walk", T: g.N(len(sc.Trees)), V: &VPlan{}}
						if g.p(0.3) {
							op.V.Panic = 1 + g.N(5)
						}
					}
					if g.p(0.6) {
						op.Scr = 1 + g.N(3)
					}
					ops = append(ops, op)
				}
				sc.Tasks = append(sc.Tasks, ops)
			}
			return sc
		},
		watch: watchAll,
		check: func(w *world) *Violation {
			if w.found != nil {
				return w.found
			}
			if vsim.RaceBuild {
				w.compareWatched("at the end of the run")
				if w.found != nil {
					return w.found
				}
			}
			return w.each(func(o *OpOut, i int, a *AttOut) *Violation {
				if want, ok := pristine[o.Op.K]; ok && a.Gram != want {
					return viol(w, "own", "%s gives %s, but at the start of the process it gave %s", o.Op.describe(), diff(a.Gram, want), diff(want, a.Gram))
				}
				if a.SrcChg {
					return viol(w, "source", "Parse modified the bytes of its source %q", short(damaged(o.Op.Text, o.Op.Dmg)))
				}
				return nil
			})
		}})
}

// checkRaised: a panic of the source reaches the caller unchanged.
func checkRaised(w *world) *Violation {
	return w.each(func(o *OpOut, i int, a *AttOut) *Violation {
		if !a.Raised {
			return nil
		}
		if a.src.panicVal != nil && (a.Kind != "panic" || !a.PanicSame) {
			return viol(w, "swallowed", "the source panicked, but Parse ended with %s", a.brief())
		}
		if a.src.panicVal == nil && a.Kind != "goexit" {
			return viol(w, "swallowed", "the source ended its goroutine, but Parse ended with %s", a.brief())
		}
		return nil
	})
}

func (b BSpec) sound() bool {
	for _, x := range b.Ignore {
		if x >= -2 && x <= 25 && !slices.Contains(aside, x) {
			return false
		}
	}
	return true
}

// aside are the rules of the self grammar in which nothing lies that
// conversions look for: insides of names, characters, ends of lines, blanks.
var aside = []int{19, 20, 21, 22, 23, 24, 25}

// ignores makes an ignore list of rules in which there is nothing and others
// out of what is given.
func (g gen) ignores(out []int) []int {
	l := []int{}
	if g.p(0.85) {
		l = append(l, 25)
	}
	if g.p(0.5) {
		for m := g.N(5); m > 0; m-- {
			l = append(l, aside[g.N(len(aside))])
		}
	}
	for m := g.N(5); m > 0; m-- {
		l = append(l, out[g.N(len(out))])
	}
	for i := len(l) - 1; i > 0; i-- {
		j := g.N(i + 1)
		l[i], l[j] = l[j], l[i]
	}
	return l
}

// stretch makes a text of about n bytes.
func (g gen) stretch(sc *Scenario, p int, n int) Text {
	t := sc.Tables[sc.Parsers[p].Tab]
	if t.Hand != nil {
		return g.textFor(sc, p)
	}
	a := anaOf(sc.Grammars[t.G])
	best := Text("")
	for k := 0; k < 8; k++ {
		x, ok := a.sentence(g.Rand, n, k < 6)
		if !ok {
			return best
		}
		s := Text(x)
		if d, e := len(s)-n, len(best)-n; d*d < e*e || best == "" {
			best = s
		}
	}
	return best
}

// far makes the text of a call long, rarely.
func (g gen) far(sc *Scenario, op *Op) {
	if g.p(0.0015) {
		op.Text = g.stretch(sc, op.P, 60000+g.N(12000))
		if len(op.Dmg) > 0 {
			op.Dmg = g.dmgFor(sc, op.P, op.Text)
		}
	}
}

// vast makes the scenario one parser on a table of long literals, and returns a
// text of up to some megabytes for it.
func (g gen) vast(sc *Scenario) Op {
	n := g.pickN(1000, 1024, 4096, 30000, 65536)
	h := &HTab{Rows: []HRow{{Name: "s", Cells: []HCell{
		{'x', []SSpec{{K: "t", V: "x", Rep: n}, {K: "n", V: "0"}}},
		{'y', []SSpec{{K: "t", V: "y"}, {K: "n", V: "0"}}},
		{0, nil},
	}}}}
	sc.Grammars, sc.Tables, sc.Parsers = nil, []TabSpec{{Hand: h}}, []PSpec{{0}}
	k := g.pickN(1<<18, 1<<20, 1<<20, 1<<20, 1<<21)/n + g.N(3)
	op := Op{K: "parse"}
	op.Text = Text(strings.Repeat("x", n*k) + strings.Repeat("y", 1+g.N(2000)))
	return op
}

// parseScene makes parsers and a pool of calls on them.
func (g gen) parseScene(aborts float64, nops int) *scene {
	s := &scene{sc: g.parsers(1+g.N(2), func() GSpec {
		for {
			x := g.ll1()
			if x.Kind == "rules" || g.p(0.25) {
				return x
			}
		}
	})}
	g.withHand(&s.sc, 0.2)
	for k := g.N(3); k > 0; k-- {
		s.sc.Parsers = append(s.sc.Parsers, PSpec{g.N(len(s.sc.Tables))})
	}
	var mk func(depth int) Op
	mk = func(depth int) Op {
		op := g.parseOp(&s.sc, 0.3)
		if len(op.Text) > 400 && g.p(0.8) {
			op.Text = op.Text[:g.N(100)]
		}
		if g.p(aborts) {
			f := g.pick("err", "panic", "panic", "goexit")
			op.Att = append(op.Att, g.src(op.bytes(), srcOpt{fault: f}))
			if g.p(0.5) {
				op.Att = append(op.Att, g.src(op.bytes(), srcOpt{}))
			}
		} else {
			op.Att = append(op.Att, g.src(op.bytes(), srcOpt{reader: g.p(0.5)}))
		}
		if depth > 0 && g.p(0.3) {
			a := &op.Att[0]
			if len(a.Steps) == 0 {
				*a = g.src(op.bytes(), srcOpt{reader: true})
				if len(a.Steps) == 0 {
					a.Steps = []RStep{{}}
				}
			}
			sub := mk(depth - 1)
			if g.p(0.4) { // the same parser again
				sub = g.parseOp(&s.sc, 0.3)
				sub.P = op.P
				sub.Text = g.textFor(&s.sc, sub.P)
				sub.Dmg = nil
				if len(sub.Text) > 400 {
					sub.Text = sub.Text[:100]
				}
				sub.Att = []Src{{Kind: g.pick("string", "bytes", "reader")}}
			}
			a.Steps[g.N(len(a.Steps))].Nested = &sub
		}
		return op
	}
	for k := 0; k < nops; k++ {
		o := mk(2)
		if k > 0 && g.p(0.3) { // like an earlier one: on another parser, or nearly that text
			ei := g.N(len(s.ops))
			e := &s.ops[ei]
			o.Text, o.Dmg = Text(damaged(e.Text, e.Dmg)), nil
			switch {
			case g.p(0.4):
				o.P = e.P
				t := s.sc.Tables[s.sc.Parsers[o.P].Tab]
				al := "abcxy\n\r"
				if t.Hand == nil {
					al = alphabet(anaOf(s.sc.Grammars[t.G]))
				}
				o.Text = Text(g.near(al, string(o.Text)))
			case g.p(0.6):
				o.P = g.N(len(s.sc.Parsers))
			default:
				o.P = e.P
			}
			o.Att = []Src{g.src(o.bytes(), srcOpt{})}
			if kind := g.pick("bytes", "bytes", "buffer", "strings", "bytesr"); g.p(0.4) {
				// the next record in the same memory
				was := damaged(e.Text, e.Dmg)
				al := was + "abcxy\n\r"
				if t := s.sc.Tables[s.sc.Parsers[e.P].Tab]; t.Hand == nil {
					al = alphabet(anaOf(s.sc.Grammars[t.G]))
				}
				o.Text = Text(g.near(al, was))
				for try := 0; try < 9 && (len(o.Text) != len(was) || string(o.Text) == was); try++ {
					o.Text = Text(g.near(al, was))
				}
				o.P = e.P
				e.Att = []Src{{Kind: kind, Reuse: true}}
				o.Att = []Src{{Kind: kind, Reuse: true}}
				if s.next == nil {
					s.next = map[int]int{}
				}
				s.next[ei] = k
			}
		} else if g.p(0.03) {
			o.Text, o.Dmg = g.stretch(&s.sc, o.P, edges[g.N(len(edges))]-2+g.N(5)), nil
			o.Att = []Src{g.src(o.bytes(), srcOpt{})}
		}
		s.ops = append(s.ops, o)
	}
	return s
}

// plain: the call neither aborts nor nests.
func (o *Op) plain() bool {
	for _, a := range o.Att {
		for _, x := range a.Steps {
			if x.Nested != nil || x.Err != "" || x.Panic || x.Goexit {
				return false
			}
		}
	}
	return true
}

// again lets one of the calls be made very often.
func (g gen) again(tasks [][]Op, p float64) {
	if !g.p(p) {
		return
	}
	t := tasks[g.N(len(tasks))]
	o := &t[g.N(len(t))]
	if len(o.Text) > 40 || !o.plain() && g.p(0.5) || o.Rep > 0 {
		return
	}
	o.Rep = g.storm()
	if o.Rep > 2000 && (len(o.Text) > 6 || len(tasks) > 1 || vsim.RaceBuild) {
		o.Rep = 300
	}
}

// nest makes a call whose source calls Parse, whose source calls Parse, ...
func (g gen) nest(s *scene, depth int) Op {
	var pick []Op // calls that neither abort nor nest
	for _, o := range s.ops {
		if o.plain() {
			pick = append(pick, o)
		}
	}
	if len(pick) == 0 {
		return clone(s.ops[g.N(len(s.ops))])
	}
	one := g.p(0.6)
	base := pick[g.N(len(pick))]
	op := clone(base)
	for ; depth > 0; depth-- {
		if !one {
			base = pick[g.N(len(pick))]
		}
		sub := op
		op = clone(base)
		op.Att = op.Att[:1]
		a := &op.Att[0]
		if a.Kind != "reader" || len(a.Steps) == 0 {
			*a = Src{Kind: "reader", Steps: []RStep{{N: 1}, {N: op.bytes()}}}
		}
		a.Steps[g.N(len(a.Steps))].Nested = &sub
	}
	return op
}

// addAST adds the self grammar, its parser, bindings and trees of BNF texts.
func (g gen) addAST(sc *Scenario) {
	gi := len(sc.Grammars)
	sc.Grammars = append(sc.Grammars, GSpec{Kind: "self"})
	sc.Tables = append(sc.Tables, TabSpec{G: gi})
	sc.Parsers = append(sc.Parsers, PSpec{len(sc.Tables) - 1})
	p := len(sc.Parsers) - 1
	for k := 1 + g.N(3); k > 0; k-- {
		var gs GSpec
		for {
			gs = g.written()
			if gs.Kind == "rules" || g.p(0.03) {
				break
			}
		}
		m := anaOf(gs).g
		text := g.layout(m, false)
		if g.p(0.3) {
			text = g.plain(m)
		}
		sc.Trees = append(sc.Trees, TreeSpec{P: p, Text: Text(text)})
	}
	out := []int{26, 27, 30, 40, 99, -3, -9, 1000}
	for k := 1 + g.N(3); k > 0; k-- {
		b := BSpec{}
		if g.p(0.7) {
			b.Ignore = g.ignores(out)
			if g.p(0.2) {
				b.Ignore = append(b.Ignore, g.N(26))
			}
		}
		if g.p(0.15) {
			b.Drop = []string{g.pick("t", "n", "r", `"`, `\`)}
		}
		if g.p(0.07) {
			b.Bad = g.bad()
		}
		b.NoEsc = g.p(0.2)
		sc.Binds = append(sc.Binds, b)
	}
}

func (g gen) bad() string { return g.pick("head", "tail", "sym", "esc", "trm") }

// letters and digits for others, none of which an escape is written with
var alike = strings.NewReplacer("a", "b", "b", "a", "x", "y", "y", "x", "0", "1", "1", "0", "q", "p", "p", "q")

func (g gen) astScene() *scene {
	s := &scene{}
	g.addAST(&s.sc)
	return s
}

// plain is a BNF text in the layout of String, made independently of it.
func (g gen) plain(m *Grammar) string {
	return bnfText(m, func(string) string { return " " }, func() byte { return '"' })
}

// layout is a BNF text with free spacing, quoting and line ends.
func (g gen) layout(m *Grammar, off bool) string {
	// what is to be left out (see asides) and is sometimes put in
	share := []float64{0, 0.05, 0.3}[g.N(3)]
	if !off {
		share = 0
	}
	ws := func() string { return g.pick("", " ", "  ") }
	angle := func() string { return g.pick("<a>", "<off-1>", "<x>", "<rule0>") }
	term := func() string {
		if g.p(0.4) {
			return angle()
		}
		return g.pick(`"x"`, `'y'`, `""`, `''`, `"\t"`, `'\n'`, `"\r"`, `"\""`, `"\\"`, `"'"`, `'"'`, `" # ! @ "`)
	}
	terms := func() (s string) {
		s = term()
		for k := g.N(3); k > 0; k-- {
			s += ws() + g.pick("", "", "#") + term()
		}
		return s
	}
	mark := func() string {
		if g.p(share) {
			return "@" + angle() + ws()
		}
		return ""
	}
	aside := func() (s string) { // after a term, before the next one
		for g.p(share) {
			s += ws() + "#" + ws() + term()
		}
		return s + ws()
	}
	ending := func() (s string) { // after an alternative
		s = aside()
		for g.p(share) {
			s += ws() + "!" + ws() + terms()
		}
		return s + ws()
	}
	line := func() (s string) { // after a line, in front of its end
		if share == 0 {
			return ""
		}
		s = ending()
		for g.p(2 * share) {
			s += g.pick("\n", "\r\n", "\n\n") + "#" + ws()
			if g.p(0.8) {
				s += mark() + angle() + ws() + "::=" + ws() + terms() + g.pick("", "|"+terms(), ending())
			}
		}
		return s
	}
	s := bnfText(m, func(where string) string {
		if share > 0 {
			switch where {
			case "line":
				return ws() + " " + mark()
			case "eol":
				return line() + g.pick("\n", "\r\n", "\n \n")
			case "alt":
				return ending() + "|" + ws() + " "
			case "term":
				return aside()
			}
		}
		switch where {
		case "line":
			return g.pick("", "", "", "  ")
		case "eol":
			return g.pick("\n", "\n", "\r\n", "\n\n", "\n  \n", "\r\n\r\n")
		case "alt":
			return g.pick(" | ", " | ", "|", "| ", "  |")
		}
		return g.pick(" ", " ", "", "  ")
	}, func() byte {
		return "\"'"[g.N(2)]
	})
	s += line()
	if g.p(0.3) {
		s += g.pick("\n", "\r\n", "\n\n", "\n ")
	}
	return s
}

func bnfText(m *Grammar, sp func(string) string, quote func() byte) string {
	var sb strings.Builder
	for i, r := range m.Rules {
		if i > 0 {
			e := sp("eol")
			if e == " " {
				e = "\n"
			}
			sb.WriteString(e)
		}
		l := sp("line")
		if l != " " {
			sb.WriteString(l)
		}
		sb.WriteString("<" + r.Head + ">" + sp("") + "::=" + sp(""))
		for k, a := range r.Alts {
			if k > 0 {
				s := sp("alt")
				if s == " " {
					s = " | "
				}
				sb.WriteString(s)
			}
			for j, y := range a {
				if j > 0 {
					sb.WriteString(sp("term"))
				}
				if y.K == 'n' {
					sb.WriteString("<" + y.V + ">")
					continue
				}
				q := quote()
				if strings.Contains(y.V, "'") {
					q = '"'
				}
				sb.WriteByte(q)
				for b := 0; b < len(y.V); b++ {
					switch c := y.V[b]; c {
					case '\t':
						sb.WriteString(`\t`)
					case '\n':
						sb.WriteString(`\n`)
					case '\r':
						sb.WriteString(`\r`)
					case '\\':
						sb.WriteString(`\\`)
					case '"':
						if q == '"' {
							sb.WriteString(`\"`)
						} else {
							sb.WriteByte(c)
						}
					case '\'':
						sb.WriteByte(c)
					default:
						sb.WriteByte(c)
					}
				}
				sb.WriteByte(q)
			}
		}
	}
	return sb.String()
}

func (g gen) damageBNF(n int) []Dmg {
	ds := g.damage(bnfAna, strings.Repeat("x", n))
	return ds
}

var bnfAna = analyse(&Grammar{Rules: []Rule{{"s", [][]Sym{{{'t', "<>::=|\"'\\ \n\rab-tn"}}}}}})

// --------------------------------------------------------- C06: the watchers

type watched struct {
	what string
	get  func() string
	want string
}

// watchAll remembers what every input looks like.
func watchAll(w *world) {
	add := func(what string, get func() string) {
		w.watched = append(w.watched, &watched{what, get, get()})
	}
	for i := range w.grammars {
		g := &w.grammars[i]
		add(fmt.Sprintf("grammar %d given to FromGrammar", i), func() string { return deep(*g) })
	}
	for i := range w.tables {
		if w.tables[i] != nil {
			t, n := w.tables[i], w.names[i]
			add(fmt.Sprintf("table %d given to the parser", i), func() string { return deep(*t) })
			add(fmt.Sprintf("names map %d given to the parser", i), func() string { return deep(n) })
		}
	}
	for i := range w.trees {
		if w.trees[i] != nil {
			t := w.trees[i]
			add(fmt.Sprintf("tree %d", i), func() string { return deep(t) })
		}
	}
	for i := range w.binds {
		b := &w.binds[i]
		full := b.IgnoreNodeTypes[:cap(b.IgnoreNodeTypes)]
		add(fmt.Sprintf("ignore list of bindings %d", i), func() string { return deep(full) })
		add(fmt.Sprintf("bindings %d", i), func() string { return deep(*b) })
	}
	w.onOp = func(t *tctx, o *OpOut) {
		var mine []*watched
		for k, a := range o.Att {
			if a.Kind != "ok" {
				continue
			}
			what := fmt.Sprintf("result of task %d call %d attempt %d, %s,", t.id, len(t.outs), k, o.Op.describe())
			add := func(part string, get func() string) {
				mine = append(mine, &watched{part + " " + what, get, get()})
			}
			if a.tree != nil {
				x := a.tree
				add("tree in", func() string { return deep(x) })
			}
			if a.names != nil {
				x := a.names
				add("names in", func() string { return deep(x) })
			}
			if a.table != nil {
				x := a.table
				add("table in", func() string { return deep(x) })
			}
			if a.ast != nil {
				x := a.ast
				add("grammar in", func() string { return deep(x) })
			}
			if a.binds != nil {
				x := a.binds
				add("bindings in", func() string { return deep(x) })
			}
		}
		if !vsim.RaceBuild {
			w.compareWatched("after " + o.Op.describe())
		}
		if o.Op.Scr > 0 {
			for _, a := range o.Att {
				if a.Kind == "ok" {
					scribble(a, o.Op.Scr)
					t.fired["caller_modifies_result"]++
				}
			}
			for _, m := range mine {
				m.want = m.get()
			}
			if !vsim.RaceBuild {
				w.compareWatched("after the caller modified its own result of " + o.Op.describe())
			}
		}
		if vsim.RaceBuild {
			t.watched = append(t.watched, mine...)
		} else {
			w.watched = append(w.watched, mine...)
		}
	}
}

func (w *world) compareWatched(when string) {
	if w.found != nil {
		return
	}
	all := w.watched
	for _, t := range w.tasks {
		all = append(all, t.watched...)
	}
	for _, x := range all {
		if got := x.get(); got != x.want {
			class := "input"
			if strings.Contains(x.what, "result of") {
				class = "result"
			}
			w.found = viol(w, class, "%s changed %s: was %s, is %s", x.what, when, short(x.want), short(got))
			return
		}
	}
}

// scribble modifies a result as its owner may.
func scribble(a *AttOut, how int) {
	if a.names != nil && *a.names != nil {
		m := *a.names
		m[0] = "scribbled"
		m[-1] = "scribbled"
		m[777] = "scribbled"
		if how == 2 {
			for k := range m {
				delete(m, k)
			}
		}
	}
	if a.tree != nil {
		var walk func(n cst.Node, depth int)
		walk = func(n cst.Node, depth int) {
			c := n.Childs()
			for _, x := range c {
				if x != nil && depth < 50 {
					walk(x, depth+1)
				}
			}
			_ = append(c, cst.NewNode(-7, 1, 2, nil))
			for i := range c {
				c[i] = cst.NewNode(99, -5, 5, nil)
			}
		}
		walk(a.tree, 0)
	}
	if a.table != nil {
		t := *a.table
		for _, row := range t {
			for b, ops := range row {
				for i := range ops {
					ops[i] = parser.OpTerminal("scribbled")
				}
				_ = append(ops, parser.OpTerminal("scribbled"))
				if how == 3 {
					delete(row, b)
				}
			}
			row[7] = nil
		}
		if how == 2 {
			delete(t, 0)
		}
	}
	if b := a.binds; b != nil {
		b.EscapeMapping["t"] = "scribbled"
		b.EscapeMapping["scribbled"] = "x"
		if how == 2 {
			for k := range b.EscapeMapping {
				delete(b.EscapeMapping, k)
			}
		}
		for _, l := range [][]int{b.IgnoreNodeTypes, b.SymbolTerminalTypes} {
			_ = append(l, 99)
			for i := range l {
				l[i] = 98
			}
		}
		b.RuleType = 97
	}
	if a.ast != nil {
		for i := range a.ast.Rules {
			r := &a.ast.Rules[i]
			r.Head.Name = "scribbled"
			for _, s := range r.Tail.Sequences {
				for k := range s.Symbols {
					s.Symbols[k] = bnf.SymbolTerminal{Name: "scribbled"}
				}
				_ = append(s.Symbols, bnf.SymbolNothing{})
			}
			_ = append(r.Tail.Sequences, bnf.Sequence{})
		}
		if how > 1 && len(a.ast.Rules) > 0 {
			a.ast.Rules = append(a.ast.Rules[:0], a.ast.Rules[1:]...)
		}
	}
}

// checkReload: a text comes back as the grammar it denotes, or is refused.
func checkReload(w *world) *Violation {
	for i, m := range w.tabErr {
		if m != "" {
			return viol(w, "self", "the library's own grammar, %s, gets no table: %s", toJSON(w.sc.Binds[i].Num), m)
		}
	}
	return w.each(func(o *OpOut, i int, a *AttOut) *Violation {
		if o.Op.K == "own" {
			if a.Kind != "ok" && (a.Kind != "exit" || a.Exit != 0) || a.ErrO != "" {
				return viol(w, "example", "the example that reloads the library's own grammar ends with %s %d %s, standard error %q", a.Kind, a.Exit, a.Err, short(a.ErrO))
			}
			return nil
		}
		if a.Kind == "panic" || a.Kind == "steplimit" || a.Kind == "deadlock" || a.Kind == "goexit" {
			return viol(w, a.Kind, "reloading %q: %s", short(a.Delivered), a.brief())
		}
		if a.Injected != "" {
			if a.Kind == "ok" {
				return viol(w, "partial", "source failed (%s) after %q, yet a grammar was built: %s", a.Injected, short(a.Delivered), a.brief())
			}
			return nil
		}
		bind := w.sc.Binds[o.Op.B]
		want, ok := readBound(a.Delivered, bind)
		intact := len(o.Op.Dmg) == 0
		if intact && o.Op.Text == "" && bind.Esc == nil && bind.Drop == nil && bind.Bad == "" {
			if a.Kind != "ok" || a.Gram != w.models[o.Op.G].Dump() {
				return viol(w, "notequal", "grammar\n%s printed as %q comes back as %s", short(w.models[o.Op.G].Dump()), short(a.Delivered), a.brief())
			}
			return nil
		}
		if intact && (a.Kind != "ok" || !ok || a.Gram != want.Dump()) {
			if !ok && bind.Drop == nil && bind.Bad == "" {
				vsim.Fatal("C10: layout is not readable BNF:", a.Delivered)
			}
			if !ok && a.Kind == "ok" {
				return viol(w, "unknown", "text %q has what the bindings lack, but was turned into %s", short(a.Delivered), a.brief())
			}
			if !ok {
				return nil
			}
			return viol(w, "notequal", "text %q comes back as %s, expected\n%s", short(a.Delivered), a.brief(), short(want.Dump()))
		}
		if a.Kind == "ok" && !ok {
			return viol(w, "invented", "damaged text %q is no BNF, but was turned into %s", short(a.Delivered), a.brief())
		}
		if a.Kind == "ok" && a.Gram != want.Dump() {
			return viol(w, "wrong", "damaged text %q denotes\n%s but was turned into\n%s", short(a.Delivered), short(want.Dump()), a.brief())
		}
		return nil
	})
}

// reload makes a call that reads a grammar from text.
func (g gen) reload(scp *Scenario, off bool) Op {
	sc := *scp
	gs := g.written()
	sc.Grammars = append(sc.Grammars, gs)
	a := anaOf(gs)
	op := Op{K: "reload", G: len(sc.Grammars) - 1}
	m := a.g
	if g.p(0.4) || off && g.p(0.8) {
		op.Text = Text(g.layout(m, off))
	}
	ln := len(op.Text)
	if ln == 0 {
		ln = len(g.plain(m))
	}
	if g.p(0.5) {
		op.Dmg = g.damageBNF(ln)
	}
	if g.p(0.25) {
		op.Att = append(op.Att, g.src(ln, srcOpt{fault: "err"}))
	}
	op.Att = append(op.Att, g.src(ln, srcOpt{}))
	*scp = sc
	return op
}
