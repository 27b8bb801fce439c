//go:build go1.22

package main

// Minimisation of a violating run: fewer runs before it, fewer tasks, calls,
// faults, bytes, grammar rules and context switches, as long as the same class
// of violation is reproduced in a fresh process.

import (
	"fmt"
	"strings"
	"sync"
	"time"

	"github.com/TooManySugar/ll1parser/vsim"
)

const shrinkTime = 75 * time.Second

type shrinker struct {
	o        *orch
	cur      *Replay
	end      time.Time
	tried    int
	improved bool
}

// variants: the scenario under the policies worth trying.
func (s *shrinker) variants(c *Replay) []*Replay {
	if len(c.Run.Tasks) <= 1 || c.Run.Pol.Kind == "seq" {
		x := *c
		x.Run.Pol = vsim.Policy{Kind: "seq"}
		return []*Replay{&x}
	}
	x, y := *c, *c
	x.Run.Pol = vsim.Policy{Kind: "seq"}
	l := []*Replay{&x, &y}
	for k := uint64(0); k < 2; k++ {
		z := *c
		z.Run.Pol = vsim.Policy{Kind: "random", Seed: vsim.Mix(c.Run.Seed, k), P: 0.1}
		l = append(l, &z)
	}
	return l
}

// accept runs candidates side by side and keeps the first that reproduces.
func (s *shrinker) accept(cands []*Replay) int {
	for at := 0; at < len(cands); at += s.o.workers {
		if time.Now().After(s.end) {
			return -1
		}
		part := cands[at:min(len(cands), at+s.o.workers)]
		hits := make([]*Replay, len(part))
		var wg sync.WaitGroup
		for i, c := range part {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for _, v := range s.variants(c) {
					if time.Now().After(s.end) {
						return
					}
					if r, err := s.o.one(v); err == nil && r.V != nil && r.V.Class == s.cur.Violation.Class {
						v.Violation, v.EventHash = *r.V, r.Hash
						if v.Run.Pol.Kind != "seq" && !r.Full {
							v.Run.Pol = vsim.Policy{Kind: "replay", Switches: r.Log}
						}
						hits[i] = v
						return
					}
				}
			}()
		}
		wg.Wait()
		s.tried += len(part)
		for i, h := range hits {
			if h != nil {
				s.cur = h
				s.improved = true
				return at + i
			}
		}
	}
	return -1
}

// edit makes one candidate; f reports whether it changed anything.
func (s *shrinker) edit(f func(r *Replay) bool) *Replay {
	c := clone(*s.cur)
	if !f(&c) || !valid(s.cur, &c) {
		return nil
	}
	return &c
}

// list removes chunks of something with n() elements.
func (s *shrinker) list(n func(r *Replay) int, cut func(r *Replay, a, b int)) {
	size := n(s.cur)
	for chunk := max(1, size); chunk >= 1 && size > 0; chunk /= 2 {
		at := 0
		for at < n(s.cur) {
			var cands []*Replay
			var ats []int
			for a := at; a < n(s.cur); a += chunk {
				if c := s.edit(func(r *Replay) bool { cut(r, a, min(n(r), a+chunk)); return true }); c != nil {
					cands = append(cands, c)
					ats = append(ats, a)
				}
			}
			k := s.accept(cands)
			if k < 0 {
				break
			}
			at = ats[k]
		}
		if time.Now().After(s.end) {
			return
		}
	}
}

// valid: a smaller grammar must belong to the same class as the original, for
// the property may speak about that class only.
func valid(old, c *Replay) bool {
	for i, x := range c.Run.Trees {
		if len(old.Run.Trees) == len(c.Run.Trees) && x.Build == nil {
			_, a := readBNF(string(old.Run.Trees[i].Text))
			_, b := readBNF(string(x.Text))
			if a && !b {
				return false
			}
		}
	}
	for i := range c.Run.Grammars {
		if len(old.Run.Grammars) != len(c.Run.Grammars) {
			break // objects nobody uses were dropped
		}
		if i >= len(old.Run.Grammars) || c.Run.Grammars[i].Kind != "rules" {
			continue
		}
		a, b := anaOf(old.Run.Grammars[i]), anaOf(c.Run.Grammars[i])
		if old.Property == "C16" || malformed(a.g) != "" {
			if (malformed(a.g) == "") != (malformed(b.g) == "") {
				return false
			}
			continue
		}
		if a.Conflict != b.Conflict {
			return false
		}
		if a.OK != b.OK || a.LL1 != b.LL1 || expressible(a.g) && !expressible(b.g) || len(b.g.Rules) == 0 {
			return false
		}
		for _, r := range b.g.Rules {
			if len(r.Alts) == 0 {
				return false
			}
			for _, x := range r.Alts {
				if len(x) == 0 {
					return false
				}
			}
		}
	}
	return len(c.Run.Tasks) > 0
}

func cut[T any](l []T, a, b int) []T { return append(append([]T(nil), l[:a]...), l[b:]...) }

func (o *orch) minimise(rep *Replay) *Replay {
	s := &shrinker{o: o, cur: rep, end: time.Now().Add(shrinkTime)}
	// what ran before
	s.list(func(r *Replay) int { return len(r.Prelude) }, func(r *Replay, a, b int) { r.Prelude = cut(r.Prelude, a, b) })
	for round := 0; round < 4 && time.Now().Before(s.end); round++ {
		s.improved = false
		s.round()
		if !s.improved {
			break
		}
	}
	// context switches last: they refer to the steps of the final scenario
	if s.cur.Run.Pol.Kind == "replay" {
		s.switches()
	}
	s.cur.Trace = s.cur.trace()
	if s.cur.Violation.Class == "race" {
		lastRace.Store("")
		o.one(s.cur)
		for i, l := range strings.Split(lastRace.Load(), "\n") {
			if i < 45 {
				s.cur.Trace = append(s.cur.Trace, "| "+l)
			}
		}
	}
	s.cur.Trace = append(s.cur.Trace, fmt.Sprintf("(minimised with %d candidate runs)", s.tried))
	return s.cur
}

// switches removes context switches; the result keeps the exact list given.
func (s *shrinker) switches() {
	keep := s.cur.Run.Pol.Switches
	for chunk := len(keep); chunk >= 1; chunk /= 2 {
		for at := 0; at < len(keep); {
			if time.Now().After(s.end) {
				return
			}
			var cands [][]vsim.Switch
			var ats []int
			for a := at; a < len(keep) && len(cands) < s.o.workers; a += chunk {
				cands = append(cands, cut(keep, a, min(len(keep), a+chunk)))
				ats = append(ats, a)
			}
			hits := make([]*Replay, len(cands))
			var wg sync.WaitGroup
			for i, l := range cands {
				wg.Add(1)
				go func() {
					defer wg.Done()
					c := clone(*s.cur)
					c.Run.Pol = vsim.Policy{Kind: "replay", Switches: l}
					if r, err := s.o.one(&c); err == nil && r.V != nil && r.V.Class == s.cur.Violation.Class {
						c.Violation, c.EventHash = *r.V, r.Hash
						hits[i] = &c
					}
				}()
			}
			wg.Wait()
			s.tried += len(cands)
			found := -1
			for i, h := range hits {
				if h != nil {
					found = i
					s.cur = h
					keep = h.Run.Pol.Switches
					break
				}
			}
			if found >= 0 {
				at = ats[found]
			} else {
				at = ats[len(ats)-1] + chunk
			}
		}
	}
}

func (s *shrinker) round() {
	run := func(r *Replay) *Scenario { return &r.Run }
	s.list(func(r *Replay) int { return len(run(r).Tasks) }, func(r *Replay, a, b int) { r.Run.Tasks = cut(r.Run.Tasks, a, b) })
	for t := 0; t < len(s.cur.Run.Tasks); t++ {
		s.list(func(r *Replay) int { return len(r.Run.Tasks[t]) }, func(r *Replay, a, b int) {
			r.Run.Tasks[t] = cut(r.Run.Tasks[t], a, b)
		})
	}
	s.accept(nonNil(s.edit(func(r *Replay) bool {
		var l [][]Op
		for _, t := range r.Run.Tasks {
			if len(t) > 0 {
				l = append(l, t)
			}
		}
		ch := len(l) != len(r.Run.Tasks)
		r.Run.Tasks = l
		return ch && len(l) > 0
	})))
	s.accept(nonNil(s.edit(func(r *Replay) bool { return compact(&r.Run) })))
	for t := 0; t < len(s.cur.Run.Tasks); t++ {
		for k := 0; k < len(s.cur.Run.Tasks[t]); k++ {
			if time.Now().After(s.end) {
				return
			}
			s.op(func(r *Replay) *Op {
				if t < len(r.Run.Tasks) && k < len(r.Run.Tasks[t]) {
					return &r.Run.Tasks[t][k]
				}
				return nil
			}, 0)
		}
	}
	for i := range s.cur.Run.Trees {
		s.list(func(r *Replay) int { return len(r.Run.Trees[i].Text) }, func(r *Replay, a, b int) {
			x := &r.Run.Trees[i]
			x.Text = x.Text[:a] + x.Text[b:]
		})
	}
	for i := range s.cur.Run.Trees {
		for _, f := range []func(b *TNode) bool{
			func(b *TNode) bool { ch := b.Deep > 0; b.Deep = 0; return ch },
			func(b *TNode) bool { ch := b.Wide > 0; b.Wide = 0; return ch },
			func(b *TNode) bool { ch := b.Side > 0; b.Side = 0; return ch },
			func(b *TNode) bool { ch := len(b.C) > 0; b.C = nil; return ch },
		} {
			s.accept(nonNil(s.edit(func(r *Replay) bool { b := r.Run.Trees[i].Build; return b != nil && f(b) })))
		}
		for k := 0; k < 3; k++ {
			s.list(func(r *Replay) int {
				if b := r.Run.Trees[i].Build; b != nil {
					return []int{b.Deep, b.Wide, len(b.C)}[k]
				}
				return 0
			}, func(r *Replay, x, y int) {
				b := r.Run.Trees[i].Build
				switch k {
				case 0:
					b.Deep -= y - x
				case 1:
					b.Wide -= y - x
				case 2:
					b.C = cut(b.C, x, y)
				}
			})
		}
	}
	for i := range s.cur.Run.Binds {
		for _, f := range []func(b *BSpec) bool{
			func(b *BSpec) bool { ch := b.Bad != ""; b.Bad = ""; return ch },
			func(b *BSpec) bool { ch := len(b.Drop) > 0; b.Drop = nil; return ch },
			func(b *BSpec) bool { ch := b.NoEsc; b.NoEsc = false; return ch },
			func(b *BSpec) bool { ch := b.Esc != nil; b.Esc = nil; return ch },
			func(b *BSpec) bool { ch := b.Terms != nil; b.Terms = nil; return ch },
		} {
			s.accept(nonNil(s.edit(func(r *Replay) bool { return f(&r.Run.Binds[i]) })))
		}
		s.list(func(r *Replay) int { return len(r.Run.Binds[i].Ignore) }, func(r *Replay, a, b int) {
			x := &r.Run.Binds[i]
			x.Ignore = append([]int{}, cut(x.Ignore, a, b)...)
		})
	}
	for i := range s.cur.Run.Grammars {
		if s.cur.Run.Grammars[i].Kind == "rules" {
			s.grammar(i)
		}
	}
}

func nonNil(c ...*Replay) []*Replay {
	var l []*Replay
	for _, x := range c {
		if x != nil {
			l = append(l, x)
		}
	}
	return l
}

func (s *shrinker) op(at func(r *Replay) *Op, depth int) {
	one := func(f func(o *Op) bool) {
		s.accept(nonNil(s.edit(func(r *Replay) bool {
			o := at(r)
			return o != nil && f(o)
		})))
	}
	if at(s.cur) == nil {
		return
	}
	s.list(func(r *Replay) int { return len(at(r).Att) - 1 }, func(r *Replay, a, b int) { at(r).Att = cut(at(r).Att, a, b) })
	one(func(o *Op) bool { ch := o.Scr != 0; o.Scr = 0; return ch })
	one(func(o *Op) bool { ch := o.Rep != 0; o.Rep = 0; return ch })
	one(func(o *Op) bool { ch := o.Ed != 0; o.Ed = 0; return ch })
	one(func(o *Op) bool { ch := o.Own; o.Own = false; return ch })
	one(func(o *Op) bool { ch := o.K == "ast" && o.N != 0; o.N = 0; return ch })
	s.list(func(r *Replay) int { return at(r).Rep }, func(r *Replay, a, b int) { at(r).Rep -= b - a })
	one(func(o *Op) bool {
		if len(o.Dmg) == 0 || o.K == "reload" && o.Text == "" {
			return false
		}
		o.Text = Text(damaged(o.Text, o.Dmg))
		o.Dmg = nil
		return true
	})
	s.list(func(r *Replay) int { return len(at(r).Dmg) }, func(r *Replay, a, b int) { at(r).Dmg = cut(at(r).Dmg, a, b) })
	for i := 0; i < len(at(s.cur).Att); i++ {
		src := func(r *Replay) *Src { return &at(r).Att[i] }
		one(func(o *Op) bool {
			x := &o.Att[i]
			if x.Kind == "string" {
				return false
			}
			*x = Src{Kind: "string"}
			return true
		})
		one(func(o *Op) bool {
			x := &o.Att[i]
			ch := x.Kind != "reader" && (len(x.Steps) > 0 || x.Tail > 0)
			x.Kind = "reader"
			return ch
		})
		one(func(o *Op) bool { x := &o.Att[i]; ch := x.Tail != 0; x.Tail = 0; return ch })
		one(func(o *Op) bool { x := &o.Att[i]; ch := x.Reuse; x.Reuse = false; return ch })
		s.list(func(r *Replay) int { return len(src(r).Steps) }, func(r *Replay, a, b int) { src(r).Steps = cut(src(r).Steps, a, b) })
		one(func(o *Op) bool { // join reads
			ch := false
			x := &o.Att[i]
			for k := range x.Steps {
				y := &x.Steps[k]
				if y.Spins != 0 || y.Stall != 0 || y.Scribble {
					y.Spins, y.Stall, y.Scribble = 0, 0, false
					ch = true
				}
			}
			return ch
		})
		for k := 0; k < len(src(s.cur).Steps); k++ {
			step := func(o *Op) *RStep { return &o.Att[i].Steps[k] }
			one(func(o *Op) bool { y := step(o); ch := y.Spins != 0; y.Spins = 0; return ch })
			one(func(o *Op) bool { y := step(o); ch := y.Stall != 0; y.Stall = 0; return ch })
			one(func(o *Op) bool { y := step(o); ch := y.Scribble; y.Scribble = false; return ch })
			one(func(o *Op) bool { y := step(o); ch := y.Nested != nil; y.Nested = nil; return ch })
			one(func(o *Op) bool { y := step(o); ch := y.Err != "" && y.Err != "custom"; y.Err = "custom"; return ch })
			if depth < 2 && src(s.cur).Steps[k].Nested != nil {
				s.op(func(r *Replay) *Op {
					o := at(r)
					if o == nil || i >= len(o.Att) || k >= len(o.Att[i].Steps) {
						return nil
					}
					return o.Att[i].Steps[k].Nested
				}, depth+1)
			}
			if at(s.cur) == nil || i >= len(at(s.cur).Att) {
				return
			}
		}
	}
	if len(at(s.cur).Dmg) == 0 {
		s.list(func(r *Replay) int { return len(at(r).Text) }, func(r *Replay, a, b int) {
			o := at(r)
			o.Text = o.Text[:a] + o.Text[b:]
			for i := range o.Att { // the reads keep their place in the text
				at := 0
				for k := range o.Att[i].Steps {
					y := &o.Att[i].Steps[k]
					lo, hi := max(at, a), min(at+y.N, b)
					at += y.N
					if hi > lo {
						y.N -= hi - lo
					}
				}
			}
		})
	}
	if at(s.cur).V != nil {
		s.list(func(r *Replay) int { return len(at(r).V.Prune) }, func(r *Replay, a, b int) { at(r).V.Prune = cut(at(r).V.Prune, a, b) })
		s.list(func(r *Replay) int { return len(at(r).V.Fresh) }, func(r *Replay, a, b int) { at(r).V.Fresh = cut(at(r).V.Fresh, a, b) })
		one(func(o *Op) bool { ch := o.V.Typ != ""; o.V.Typ = ""; return ch })
		one(func(o *Op) bool { ch := o.V.Spin != 0; o.V.Spin = 0; return ch })
		one(func(o *Op) bool { ch := o.V.Panic != 0; o.V.Panic = 0; return ch })
		one(func(o *Op) bool { ch := o.V.Goexit != 0; o.V.Goexit = 0; return ch })
		one(func(o *Op) bool { ch := o.V.Nested != 0; o.V.Nested = 0; return ch })
	}
	if at(s.cur).Set != nil {
		s.list(func(r *Replay) int { return len(at(r).Set) }, func(r *Replay, a, b int) { at(r).Set = cut(at(r).Set, a, b) })
	}
	if at(s.cur).M != nil {
		one(func(o *Op) bool { ch := o.M.Chunk != 0; o.M.Chunk = 0; return ch })
		one(func(o *Op) bool { ch := o.M.Stall != 0; o.M.Stall = 0; return ch })
		one(func(o *Op) bool { ch := o.M.ReadErr != ""; o.M.ReadErr = ""; return ch })
		one(func(o *Op) bool { ch := o.M.OpenErr != ""; o.M.OpenErr = ""; return ch })
		one(func(o *Op) bool { ch := o.M.Missing != ""; o.M.Missing = ""; return ch })
		one(func(o *Op) bool { ch := o.M.BnfDmg != nil; o.M.BnfDmg = nil; return ch })
		s.list(func(r *Replay) int { return len(at(r).M.BnfDmg) }, func(r *Replay, a, b int) { at(r).M.BnfDmg = cut(at(r).M.BnfDmg, a, b) })
		one(func(o *Op) bool {
			ch := len(o.M.DocDmg) > 0
			o.M.Doc = Text(damaged(o.M.Doc, o.M.DocDmg))
			o.M.DocDmg = nil
			return ch
		})
		if len(at(s.cur).M.DocDmg) == 0 {
			s.list(func(r *Replay) int { return len(at(r).M.Doc) }, func(r *Replay, a, b int) {
				m := at(r).M
				m.Doc = m.Doc[:a] + m.Doc[b:]
			})
		}
	}
}

func (s *shrinker) grammar(i int) {
	g := func(r *Replay) *GSpec { return &r.Run.Grammars[i] }
	s.list(func(r *Replay) int { return len(g(r).Rules) }, func(r *Replay, a, b int) { g(r).Rules = cut(g(r).Rules, a, b) })
	for k := 0; k < len(g(s.cur).Rules); k++ {
		rule := func(r *Replay) *RSpec { return &g(r).Rules[k] }
		s.list(func(r *Replay) int { return len(rule(r).Alts) }, func(r *Replay, a, b int) { rule(r).Alts = cut(rule(r).Alts, a, b) })
		for j := 0; j < len(rule(s.cur).Alts); j++ {
			s.list(func(r *Replay) int { return len(rule(r).Alts[j]) }, func(r *Replay, a, b int) { rule(r).Alts[j] = cut(rule(r).Alts[j], a, b) })
		}
		if time.Now().After(s.end) {
			return
		}
	}
}

// compact drops objects no call refers to.
func compact(sc *Scenario) bool {
	var useB, useT, useP, useTab, useG = map[int]bool{}, map[int]bool{}, map[int]bool{}, map[int]bool{}, map[int]bool{}
	var ops func(o *Op, f func(o *Op))
	ops = func(o *Op, f func(o *Op)) {
		f(o)
		for i := range o.Att {
			for k := range o.Att[i].Steps {
				if n := o.Att[i].Steps[k].Nested; n != nil {
					ops(n, f)
				}
			}
		}
	}
	each := func(f func(o *Op)) {
		for t := range sc.Tasks {
			for k := range sc.Tasks[t] {
				ops(&sc.Tasks[t][k], f)
			}
		}
	}
	each(func(o *Op) {
		switch o.K {
		case "parse":
			useP[o.P] = true
			if o.Ed > 0 {
				useP[o.Ed-1] = true
			}
		case "gen":
			useG[o.G] = true
			if o.Ed > 0 {
				useG[o.Ed-1] = true
			}
		case "reload":
			useP[o.P], useG[o.G], useB[o.B] = true, true, true
			if o.Ed > 0 {
				useB[o.Ed-1] = true
			}
		case "ast":
			useT[o.T], useB[o.B] = true, true
			if o.Ed > 0 {
				useB[o.Ed-1] = true
			}
		case "walk":
			useT[o.T] = true
		}
	})
	for t := range useT {
		if sc.Trees[t].Build == nil {
			useP[sc.Trees[t].P] = true
		}
	}
	for p := range useP {
		useTab[sc.Parsers[p].Tab] = true
	}
	for t := range useTab {
		if sc.Tables[t].Hand == nil {
			useG[sc.Tables[t].G] = true
		}
	}
	remap := func(n int, use map[int]bool) (m []int, k int) {
		for i := 0; i < n; i++ {
			m = append(m, k)
			if use[i] {
				k++
			}
		}
		return
	}
	mG, nG := remap(len(sc.Grammars), useG)
	mTab, nTab := remap(len(sc.Tables), useTab)
	mP, nP := remap(len(sc.Parsers), useP)
	mT, nT := remap(len(sc.Trees), useT)
	mB, nB := remap(len(sc.Binds), useB)
	if nG == len(sc.Grammars) && nTab == len(sc.Tables) && nP == len(sc.Parsers) && nT == len(sc.Trees) && nB == len(sc.Binds) {
		return false
	}
	get := func(m []int, i int) int {
		if i < len(m) {
			return m[i]
		}
		return 0
	}
	each(func(o *Op) {
		switch o.K {
		case "parse":
			o.P = get(mP, o.P)
			if o.Ed > 0 {
				o.Ed = 1 + get(mP, o.Ed-1)
			}
		case "gen":
			o.G = get(mG, o.G)
			if o.Ed > 0 {
				o.Ed = 1 + get(mG, o.Ed-1)
			}
		case "reload":
			o.P, o.G, o.B = get(mP, o.P), get(mG, o.G), get(mB, o.B)
			if o.Ed > 0 {
				o.Ed = 1 + get(mB, o.Ed-1)
			}
		case "ast":
			o.T, o.B = get(mT, o.T), get(mB, o.B)
			if o.Ed > 0 {
				o.Ed = 1 + get(mB, o.Ed-1)
			}
		case "walk":
			o.T = get(mT, o.T)
		}
	})
	n := *sc
	n.Grammars, n.Tables, n.Parsers, n.Trees, n.Binds = nil, nil, nil, nil, nil
	for i, x := range sc.Grammars {
		if useG[i] {
			n.Grammars = append(n.Grammars, x)
		}
	}
	for i, x := range sc.Tables {
		if useTab[i] {
			x.G = get(mG, x.G)
			n.Tables = append(n.Tables, x)
		}
	}
	for i, x := range sc.Parsers {
		if useP[i] {
			n.Parsers = append(n.Parsers, PSpec{get(mTab, x.Tab)})
		}
	}
	for i, x := range sc.Trees {
		if useT[i] {
			x.P = get(mP, x.P)
			n.Trees = append(n.Trees, x)
		}
	}
	for i, x := range sc.Binds {
		if useB[i] {
			n.Binds = append(n.Binds, x)
		}
	}
	*sc = n
	return true
}

// trace describes the run for a reader.
func (r *Replay) trace() []string {
	var l []string
	add := func(f string, a ...any) { l = append(l, fmt.Sprintf(f, a...)) }
	if len(r.Prelude) > 0 {
		add("after %d earlier runs in the same process", len(r.Prelude))
	}
	for i, g := range r.Run.Grammars {
		if g.Kind == "rules" {
			add("grammar %d: %s", i, short(anaOf(g).g.Dump()))
		} else {
			add("grammar %d: the %s grammar", i, g.Kind)
		}
	}
	for i, t := range r.Run.Tables {
		if t.Hand != nil {
			add("table %d: by hand: %s", i, short(toJSON(t.Hand)))
		} else {
			add("table %d: of grammar %d", i, t.G)
		}
	}
	for i, p := range r.Run.Parsers {
		add("parser %d: on table %d", i, p.Tab)
	}
	for i, t := range r.Run.Trees {
		if t.Build == nil {
			add("tree %d: parser %d on %q", i, t.P, short(string(t.Text)))
		} else {
			add("tree %d: %s", i, short(toJSON(t.Build)))
		}
	}
	for i, b := range r.Run.Binds {
		add("bindings %d: %s", i, toJSON(b))
	}
	for i, ops := range r.Run.Tasks {
		for k := range ops {
			o := &ops[k]
			add("task %d call %d: %s", i, k, o.describe())
			for j, a := range o.Att {
				s := a
				s.Steps = nil
				add("    attempt %d: source %s", j, short(toJSON(s)))
				for n, st := range a.Steps {
					add("        read %d: %s", n, short(toJSON(st)))
				}
			}
			if o.V != nil {
				add("    visitor %s", toJSON(o.V))
			}
			if o.Set != nil {
				add("    operations %s", short(toJSON(o.Set)))
			}
			if o.M != nil {
				add("    files %s", short(toJSON(o.M)))
			}
		}
	}
	if len(r.Run.Tasks) > 1 {
		if r.Run.Pol.Kind == "replay" {
			for _, s := range r.Run.Pol.Switches {
				how := fmt.Sprintf("at its step %d", s.Step)
				if s.Forced {
					how = fmt.Sprintf("on ending or blocking for the %d. time", s.Step)
				}
				if s.Task < 0 {
					how = "start"
				}
				add("switch: task %d %s -> task %d", s.Task, how, s.To)
			}
		} else {
			add("schedule: %s", toJSON(r.Run.Pol))
		}
	}
	if len(l) > 120 {
		l = append(l[:120], fmt.Sprintf("... %d more lines", len(l)-120))
	}
	return l
}
