//go:build go1.22

package main

import (
	"fmt"
	"strings"

	"github.com/TooManySugar/ll1parser/pkg/bnf"
	"github.com/TooManySugar/ll1parser/pkg/bnf/fromcst"
	"github.com/TooManySugar/ll1parser/pkg/bnf/tablegen"
	"github.com/TooManySugar/ll1parser/pkg/bnf/tablegen/byteset"
	"github.com/TooManySugar/ll1parser/pkg/cst"
	"github.com/TooManySugar/ll1parser/pkg/parser"
	"github.com/TooManySugar/ll1parser/vsim"
)

// Stream is a kind of calls that a client makes again and again, dropping the
// results. No two of them have the same input.
type Stream struct {
	K      string // parse, new, gen, ast, walk, set, self
	P      int    `json:",omitempty"` // parser
	Fault  string `json:",omitempty"` // of the source: err, panic, goexit; gen: bad; ast: esc; walk: panic
	Reader bool   `json:",omitempty"`
	Wrong  bool   `json:",omitempty"` // the text ends in something that is no part of it
	Nested bool   `json:",omitempty"` // the source makes such a call itself
}

// doHold makes the calls of the op's streams in turn: N, then as many again,
// twice as many, and so on. Memory that the library holds after all results
// were dropped may grow for a while, as a cache fills, but not with every
// doubling of the history.
func (w *world) doHold(t *tctx, op *Op) *OpOut {
	o := &OpOut{Op: op}
	a := &AttOut{Kind: "ok"}
	o.Att = append(o.Att, a)
	var self parser.LL1Parser
	kind, pv := guard(false, func() {
		vsim.SetBudget(10 * vsim.DefaultLimit)
		tab, names, err := tablegen.FromGrammar(bnf.SelfGrammar())
		if err != nil {
			panic(err)
		}
		self = parser.NewLL1Parser(*tab, *names)
	})
	if kind != "ok" {
		a.Kind, a.Err = kind, panicText(pv)
		return o
	}
	a.Begin = vsim.Seq()
	if a.held = w.holdRound(t, op, self, 0); leaks(a.held, op.N) {
		// once more, on other inputs and parsers
		for pi, p := range w.sc.Parsers {
			if w.tables[p.Tab] == nil {
				continue
			}
			tab, names := copyTable(*w.tables[p.Tab]), copyNames(w.names[p.Tab])
			guard(false, func() { w.parsers[pi] = parser.NewLL1Parser(tab, names) })
		}
		again := w.holdRound(t, op, self, 1<<20)
		a.leak = len(again) > 6 && again[4] < again[5] && again[5] < again[6] &&
			2*(again[6]-again[2]) > a.held[6]-a.held[2]
	}
	a.End = vsim.Seq()
	a.Children = vsim.LiveChildren()
	return o
}

// holdRound returns how much memory was held when.
func (w *world) holdRound(t *tctx, op *Op, self parser.LL1Parser, base int) (held []int64) {
	call, stuck := 0, 0
	vsim.Forget()
	for k := 0; k < holdSteps || k < holdSteps+2 && (base > 0 || grows(held, op.N)); k++ { // be sure
		for ; call < op.N<<k; call++ {
			g := gen{&Rand{S: vsim.Mix(uint64(op.Scr), uint64(base+call))}}
			s := &op.Str[call%len(op.Str)]
			if kind := w.drop(t, s, g, base+call, self); kind == "steplimit" || kind == "deadlock" {
				if stuck++; stuck > 20 { // which is for others to judge
					return nil
				}
			}
			t.fired["dropped_"+s.K+s.Fault]++
			vsim.Forget()
			if call%32 == 31 {
				vsim.Collect()
			}
		}
		vsim.Atomic(func() { held = append(held, vsim.Held()) })
	}
	return held
}

const holdSteps = 5

// grows: the memory held became more in each of the last doublings; the
// first may have filled a cache.
func grows(held []int64, n int) bool {
	for k := 2; k < len(held); k++ {
		calls := int64(n << (k - 1))
		if held[k]-held[k-1] < calls*holdBytes {
			return false
		}
	}
	return true
}

// leaks: what came with the last two doublings is, as it would be in a leak, a
// multiple (of four) of what came with the two before. What is kept for reuse
// grows as well, now and then, but less and less.
func leaks(held []int64, n int) bool {
	if len(held) < holdSteps+2 || !grows(held, n) {
		return false
	}
	return held[6]-held[4] > 3*(held[4]-held[2])
}

// holdBytes per call and more are called growth.
const holdBytes = 4

// drop makes one call.
func (w *world) drop(t *tctx, s *Stream, g gen, call int, self parser.LL1Parser) (kind string) {
	mark := fmt.Sprintf("%dx", call)
	switch s.K {
	case "parse", "new":
		pi := s.P
		var op Op
		vsim.Atomic(func() {
			op = Op{K: "parse", P: pi}
			gi := w.sc.Tables[w.sc.Parsers[pi].Tab].G
			if w.sc.Grammars[gi].Kind == "rules" && w.sc.Grammars[gi].Rules[0].Head == holdHead {
				op.Text = Text(mark + g.word("0123456789x", 6))
			} else {
				op.Text = g.sentence(w.anas[gi], 1+g.N(12))
			}
			if s.Wrong {
				op.Text += Text("\x01" + mark)
			}
			x := Src{Kind: g.pick("string", "bytes", "buffer", "strings")}
			if s.Reader || s.Fault != "" {
				x = g.src(len(op.Text), srcOpt{fault: s.Fault, reader: true})
			}
			x.Reuse = false
			for i := range x.Steps {
				x.Steps[i].Nested = nil
				x.Steps[i].Stall = 0
			}
			if s.Nested && len(x.Steps) > 0 {
				in := Op{K: "parse", P: pi, Text: Text("y" + mark), Att: []Src{{Kind: "string"}}}
				x.Steps[g.N(len(x.Steps))].Nested = &in
			}
			op.Att = []Src{x}
		})
		p := w.parsers[pi]
		if s.K == "new" {
			ti := w.sc.Parsers[pi].Tab
			tab, names := copyTable(*w.tables[ti]), copyNames(w.names[ti])
			guard(false, func() { p = parser.NewLL1Parser(tab, names) })
		}
		kind = w.parseAttempt(t, p, vsim.DefaultLimit, &op, &op.Att[0], string(op.Text)).Kind
	case "gen":
		var gr bnf.Grammar
		vsim.Atomic(func() {
			m := holdGrammar(mark, g)
			if s.Fault == "bad" {
				r := &m.Rules[g.N(len(m.Rules))]
				r.Alts = append(r.Alts, []Sym{{'n', "nowhere" + mark}})
			}
			gr = m.toBNF()
		})
		vsim.SetBudget(10 * vsim.DefaultLimit)
		kind, _ = guard(false, func() { tablegen.FromGrammar(gr) })
	case "ast":
		var gr bnf.Grammar
		vsim.Atomic(func() { gr = holdGrammar(mark, g).toBNF() })
		vsim.SetBudget(20 * vsim.DefaultLimit)
		kind, _ = guard(false, func() {
			text := gr.String()
			if s.Fault == "esc" {
				text += " | \"\\t" + mark + "\\n\""
			}
			tree, _, err := self.Parse(text)
			if err != nil {
				return
			}
			b := fromcst.SelfCSTtoASTBindings()
			if s.Fault == "esc" {
				delete(b.EscapeMapping, "n")
			}
			b.ToAST(tree, text)
		})
	case "walk":
		var tree cst.Node
		v := &holdVisitor{stop: -1}
		vsim.Atomic(func() {
			tree = holdTree(call, 0)
			if s.Fault == "panic" {
				v.stop = g.N(7)
			}
		})
		vsim.SetBudget(vsim.DefaultLimit)
		kind, _ = guard(false, func() { cst.Walk(v, tree) })
	case "set":
		vsim.SetBudget(vsim.DefaultLimit)
		kind, _ = guard(false, func() {
			x := byteset.New(byte(call), byte(call>>8), byte(call>>3))
			y := byteset.New([]byte(mark)...)
			z := x.Union(y)
			z.Remove(byte(call))
			z.Add(byte(call >> 4))
			_ = fmt.Sprint(z.Len(), z.Bytes(), z.String(), z.Equal(x), z.IsSuperSet(y))
		})
	case "self":
		vsim.SetBudget(vsim.DefaultLimit)
		kind, _ = guard(false, func() {
			x, b := bnf.SelfGrammar(), fromcst.SelfCSTtoASTBindings()
			x.Rules[call%len(x.Rules)].Head.Name += mark
			b.EscapeMapping[mark] = mark
			l := parser.NewParserOpList(parser.OpTerminal(mark), parser.OpNonTerminal(call))
			parser.NewLL1Parser(map[int]map[byte][]parser.ParserOp{0: {mark[0]: l}}, nil).Parse(mark)
			_ = x.Rules[call%len(x.Rules)].String()
		})
	default:
		vsim.Fatal("unknown stream", s.K)
	}
	return
}

const holdHead = "numbers"

// holdSpec is a grammar of which every string of digits and x is a sentence.
func holdSpec() GSpec {
	r := RSpec{Head: holdHead}
	for _, c := range "0123456789x" {
		r.Alts = append(r.Alts, []SSpec{{K: "t", V: Text(string(c))}, {K: "n", V: holdHead}})
	}
	r.Alts = append(r.Alts, []SSpec{{K: "e"}})
	return GSpec{Kind: "rules", Rules: []RSpec{r}}
}

// holdGrammar is a small grammar unlike all others.
func holdGrammar(mark string, g gen) *Grammar {
	m := &Grammar{}
	n := 1 + g.N(4)
	for i := 0; i < n; i++ {
		r := Rule{Head: fmt.Sprint("r", i, mark)}
		r.Alts = append(r.Alts, []Sym{{'t', "a" + mark}}, []Sym{{'t', "b" + g.word("uvw", 5)}})
		if i+1 < n {
			r.Alts = append(r.Alts, []Sym{{'t', "(" + mark}, {'n', fmt.Sprint("r", i+1, mark)}, {'t', ")"}})
		}
		m.Rules = append(m.Rules, r)
	}
	return m
}

func holdTree(call, depth int) cst.Node {
	var kids []cst.Node
	if depth < 2 {
		kids = []cst.Node{holdTree(call, depth+1), holdTree(call, depth+1)}
	}
	return cst.NewNode(call+depth, call, call+7, kids)
}

type holdVisitor struct{ n, stop int }

func (v *holdVisitor) Visit(cst.Node) cst.Visitor {
	if v.n == v.stop {
		panic("enough")
	}
	v.n++
	return v
}

func init() {
	reg(&property{id: "C19", runs: 8,
		rule: "a run: one client making 4800 calls of one to three kinds (Parse on a parser or on a new one, source intact, wrong, failing, panicking or ending the goroutine; table generation; conversion; walks; sets; the library's own grammar, tables written by hand), all with different inputs, dropping the results; the live heap after garbage collection is taken after 300, 600, 1200, 2400 and 4800 calls and must not have grown in each of the last three doublings (then 9600 and 19200 calls are made to be sure: a leak has to go on growing, by more than three times what it grew before, as leaks grow fourfold, and the whole history is repeated with other inputs and parsers, which has to leak as much again); non-trivial: all",
		gen: func(b *batch, g gen) Scenario {
			sc := g.parsers(1, g.ll1)
			sc.Grammars = append(sc.Grammars, holdSpec())
			sc.Tables = append(sc.Tables, TabSpec{G: 1})
			sc.Parsers = append(sc.Parsers, PSpec{1})
			op := Op{K: "hold", N: 300, Scr: 1 + g.N(1<<30)}
			for k := 1 + g.N(3); k > 0; k-- {
				s := Stream{K: g.pick("parse", "parse", "parse", "parse", "new", "gen", "gen", "ast", "ast", "walk", "set", "self")}
				switch s.K {
				case "parse", "new":
					if g.p(0.7) {
						s.P = 1
					}
					switch g.N(4) {
					case 0:
						s.Wrong = true
						s.Reader = g.p(0.5)
					case 1:
						s.Fault = g.pick("err", "err", "panic", "goexit")
					default:
						s.Reader = g.p(0.5)
					}
					s.Nested = (s.Reader || s.Fault != "") && g.p(0.25)
				case "gen":
					if g.p(0.4) {
						s.Fault = "bad"
					}
				case "ast":
					if g.p(0.4) {
						s.Fault = "esc"
					}
				case "walk":
					if g.p(0.4) {
						s.Fault = "panic"
					}
				}
				op.Str = append(op.Str, s)
			}
			sc.Tasks = [][]Op{{op}}
			return sc
		},
		check: func(w *world) *Violation {
			return w.each(func(o *OpOut, i int, a *AttOut) *Violation {
				if !a.leak {
					return nil
				}
				var ks []string
				for _, s := range o.Op.Str {
					ks = append(ks, s.K)
				}
				return viol(w, "retained", "the memory held grew with every doubling of the number of calls (%s), whose results had been dropped", strings.Join(ks, ", "))
			})
		}})
}
