//go:build go1.22

package main

// Reference models. They share no code with the library: grammar analysis,
// membership, derivation checking, BNF text and the JSON subset are all
// written here from the documented meaning.

import (
	"fmt"
	"strconv"
	"strings"

	"github.com/TooManySugar/ll1parser/pkg/bnf"
)

// Sym is a grammar symbol: K is 't' (literal), 'n' (rule), 'e' (nothing).
type Sym struct {
	K byte
	V string
}

type Rule struct {
	Head string
	Alts [][]Sym
}

// Grammar is the model of a grammar.
type Grammar struct{ Rules []Rule }

func (g *Grammar) index() map[string]int {
	m := map[string]int{}
	for i, r := range g.Rules {
		m[r.Head] = i
	}
	return m
}

// Dump is the canonical rendering used to compare grammars.
func (g *Grammar) Dump() string {
	var sb strings.Builder
	for _, r := range g.Rules {
		fmt.Fprintf(&sb, "%q=", r.Head)
		for i, a := range r.Alts {
			if i > 0 {
				sb.WriteString("|")
			}
			for _, s := range a {
				fmt.Fprintf(&sb, " %c%s", s.K, strconv.Quote(s.V))
			}
		}
		sb.WriteString("\n")
	}
	return sb.String()
}

func (g *Grammar) toBNF() bnf.Grammar {
	var res bnf.Grammar
	for _, r := range g.Rules {
		rule := bnf.Rule{Head: bnf.SymbolNonTerminal{Name: r.Head}}
		for _, a := range r.Alts {
			var seq bnf.Sequence
			for _, s := range a {
				switch s.K {
				case 't':
					seq.Symbols = append(seq.Symbols, bnf.SymbolTerminal{Name: s.V})
				case 'n':
					seq.Symbols = append(seq.Symbols, bnf.SymbolNonTerminal{Name: s.V})
				case 'e':
					seq.Symbols = append(seq.Symbols, bnf.SymbolNothing{})
				case '?':
					switch s.V {
					case "ptr":
						seq.Symbols = append(seq.Symbols, &bnf.SymbolTerminal{Name: "x"})
					case "ptre":
						seq.Symbols = append(seq.Symbols, &bnf.SymbolNothing{})
					case "ptrn":
						seq.Symbols = append(seq.Symbols, &bnf.SymbolNonTerminal{Name: g.Rules[0].Head})
					case "ptrnil":
						seq.Symbols = append(seq.Symbols, (*bnf.SymbolTerminal)(nil))
					case "own":
						seq.Symbols = append(seq.Symbols, ownSymbol{17})
					case "own0", "own1", "own2": // claims to be one of the library's
						seq.Symbols = append(seq.Symbols, ownSymbol{int(s.V[3] - '0')})
					case "emb0":
						seq.Symbols = append(seq.Symbols, struct{ bnf.SymbolNonTerminal }{bnf.SymbolNonTerminal{Name: g.Rules[0].Head}})
					case "emb1":
						seq.Symbols = append(seq.Symbols, struct{ bnf.SymbolTerminal }{bnf.SymbolTerminal{Name: "x"}})
					case "emb2":
						seq.Symbols = append(seq.Symbols, struct{ bnf.SymbolNothing }{})
					default:
						seq.Symbols = append(seq.Symbols, nil)
					}
				}
			}
			rule.Tail.Sequences = append(rule.Tail.Sequences, seq)
		}
		res.Rules = append(res.Rules, rule)
	}
	return res
}

// ownSymbol is a symbol that the library does not know.
type ownSymbol struct{ t int }

func (s ownSymbol) Type() int    { return s.t }
func (ownSymbol) String() string { return "own" }

func fromBNF(b *bnf.Grammar) *Grammar {
	g := &Grammar{}
	for _, r := range b.Rules {
		rule := Rule{Head: r.Head.Name}
		for _, q := range r.Tail.Sequences {
			alt := []Sym{}
			for _, s := range q.Symbols {
				switch v := s.(type) {
				case bnf.SymbolTerminal:
					alt = append(alt, Sym{'t', v.Name})
				case bnf.SymbolNonTerminal:
					alt = append(alt, Sym{'n', v.Name})
				case bnf.SymbolNothing:
					alt = append(alt, Sym{'e', ""})
				default:
					alt = append(alt, Sym{'?', fmt.Sprintf("%T", s)})
				}
			}
			rule.Alts = append(rule.Alts, alt)
		}
		g.Rules = append(g.Rules, rule)
	}
	return g
}

// ------------------------------------------------------------ LL(1) analysis

const eos = 256

type set [257]bool

func (s *set) addAll(o *set) bool {
	ch := false
	for i, b := range o {
		if b && !s[i] {
			s[i] = true
			ch = true
		}
	}
	return ch
}

// Analysis is the textbook LL(1) analysis of a grammar.
type Analysis struct {
	grow     []bool // see grows
	g        *Grammar
	idx      map[string]int
	Nullable []bool
	First    []set
	Follow   []set
	Height   []int // least derivation height, -1: derives no sentence
	OK       bool  // well formed: known names, non-empty literals without NUL, distinct heads
	LL1      bool
	Conflict bool // two alternatives of a rule compete for a byte or for the end
}

// malformed says what makes a grammar value malformed, if anything does.
func malformed(g *Grammar) string {
	if len(g.Rules) == 0 {
		return "no rules"
	}
	idx := g.index()
	for _, r := range g.Rules {
		for _, alt := range r.Alts {
			if len(alt) == 0 {
				return "alternative without symbols"
			}
			for _, s := range alt {
				switch s.K {
				case 't':
					if s.V == "" {
						return "empty terminal"
					}
				case 'n':
					if _, ok := idx[s.V]; !ok {
						return "undefined rule"
					}
				case 'e':
					if len(alt) != 1 {
						return "empty-string symbol among others"
					}
				default:
					return "symbol of unknown kind"
				}
			}
		}
	}
	return ""
}

func analyse(g *Grammar) *Analysis {
	a := &Analysis{g: g, idx: g.index()}
	n := len(g.Rules)
	a.OK = n > 0 && len(a.idx) == n
	for _, r := range g.Rules {
		if len(r.Alts) == 0 {
			a.OK = false
		}
		for _, alt := range r.Alts {
			if len(alt) == 0 {
				a.OK = false
			}
			for _, s := range alt {
				switch s.K {
				case 't':
					if s.V == "" || strings.IndexByte(s.V, 0) >= 0 {
						a.OK = false
					}
				case 'n':
					if _, ok := a.idx[s.V]; !ok {
						a.OK = false
					}
				case 'e':
					if len(alt) != 1 {
						a.OK = false
					}
				default:
					a.OK = false
				}
			}
		}
	}
	if !a.OK {
		return a
	}
	a.Nullable = make([]bool, n)
	a.First = make([]set, n)
	a.Follow = make([]set, n)
	a.Height = make([]int, n)
	for i := range a.Height {
		a.Height[i] = -1
	}
	for ch := true; ch; {
		ch = false
		for i, r := range g.Rules {
			for _, alt := range r.Alts {
				null := true
				h := 0
				for _, s := range alt {
					switch s.K {
					case 't':
						if null && !a.First[i][s.V[0]] {
							a.First[i][s.V[0]] = true
							ch = true
						}
						null = false
					case 'n':
						j := a.idx[s.V]
						if null && a.First[i].addAll(&a.First[j]) {
							ch = true
						}
						if !a.Nullable[j] {
							null = false
						}
						if a.Height[j] < 0 || h < 0 {
							h = -1
						} else if a.Height[j]+1 > h {
							h = a.Height[j] + 1
						}
					}
				}
				if null && !a.Nullable[i] {
					a.Nullable[i] = true
					ch = true
				}
				if h >= 0 && (a.Height[i] < 0 || h < a.Height[i]) {
					a.Height[i] = h
					ch = true
				}
			}
		}
	}
	a.Follow[0][eos] = true
	for ch := true; ch; {
		ch = false
		for i, r := range g.Rules {
			for _, alt := range r.Alts {
				for k, s := range alt {
					if s.K != 'n' {
						continue
					}
					f, null := a.seqFirst(alt[k+1:])
					j := a.idx[s.V]
					if a.Follow[j].addAll(&f) {
						ch = true
					}
					if null && a.Follow[j].addAll(&a.Follow[i]) {
						ch = true
					}
				}
			}
		}
	}
	a.LL1 = true
	for i, r := range g.Rules {
		var seen set
		nulls := 0
		for _, alt := range r.Alts {
			p, null := a.seqFirst(alt)
			if null {
				nulls++
				p.addAll(&a.Follow[i])
			}
			for b := range p {
				if p[b] && seen[b] {
					a.LL1 = false
					a.Conflict = true
				}
			}
			seen.addAll(&p)
		}
		if nulls > 1 {
			a.LL1 = false
		}
	}
	return a
}

func (a *Analysis) seqFirst(seq []Sym) (f set, null bool) {
	null = true
	for _, s := range seq {
		if !null {
			break
		}
		switch s.K {
		case 't':
			f[s.V[0]] = true
			null = false
		case 'n':
			j := a.idx[s.V]
			f.addAll(&a.First[j])
			if !a.Nullable[j] {
				null = false
			}
		}
	}
	return
}

// ---------------------------------------------------------------- membership

type member struct {
	g    *Grammar
	a    *Analysis
	idx  map[string]int
	text string
	memo map[[2]int][]int
	busy map[[2]int]bool
}

// accepts decides membership by computing, for every rule and start position
// reached, the set of positions at which a derivation of the rule can end.
// Alternatives that use a rule deriving no text at all are left out first:
// they add nothing to the language, and what remains of an LL(1) grammar is
// never left-recursive, so the recursion below meets no cycle.
func accepts(a *Analysis, text string) bool {
	g := a.g
	m := &member{g: g, a: a, idx: g.index(), text: text, memo: map[[2]int][]int{}, busy: map[[2]int]bool{}}
	for _, e := range m.ends(0, 0) {
		if e == len(text) {
			return true
		}
	}
	return false
}

func (m *member) ends(rule, at int) []int {
	key := [2]int{rule, at}
	if r, ok := m.memo[key]; ok {
		return r
	}
	if m.busy[key] {
		panic("membership asked of a left-recursive grammar")
	}
	m.busy[key] = true
	found := map[int]bool{}
	var res []int
alts:
	for _, alt := range m.g.Rules[rule].Alts {
		for _, s := range alt {
			if s.K == 'n' && m.a.Height[m.idx[s.V]] < 0 {
				continue alts
			}
		}
		cur := []int{at}
		for _, s := range alt {
			var next []int
			seen := map[int]bool{}
			for _, p := range cur {
				switch s.K {
				case 'e':
					if !seen[p] {
						seen[p] = true
						next = append(next, p)
					}
				case 't':
					if strings.HasPrefix(m.text[p:], s.V) && !seen[p+len(s.V)] {
						seen[p+len(s.V)] = true
						next = append(next, p+len(s.V))
					}
				case 'n':
					for _, e := range m.ends(m.idx[s.V], p) {
						if !seen[e] {
							seen[e] = true
							next = append(next, e)
						}
					}
				}
			}
			cur = next
			if len(cur) == 0 {
				break
			}
		}
		for _, e := range cur {
			if !found[e] {
				found[e] = true
				res = append(res, e)
			}
		}
	}
	delete(m.busy, key)
	m.memo[key] = res
	return res
}

// ---------------------------------------------------------- derivation check

// checkDerivation says what is wrong with a tree as a derivation of text.
func checkDerivation(a *Analysis, n *ND, text string) string {
	if n.T != 0 {
		return fmt.Sprintf("root has type %d, not the first rule", n.T)
	}
	if n.P != 0 || n.E != len(text) {
		return fmt.Sprintf("root spans [%d,%d) of %d bytes", n.P, n.E, len(text))
	}
	return a.checkNode(n, text)
}

func (a *Analysis) checkNode(n *ND, text string) string {
	if n.T < 0 || n.T >= len(a.g.Rules) {
		return fmt.Sprintf("node of unknown type %d", n.T)
	}
	if n.P < 0 || n.E > len(text) || n.P > n.E {
		return fmt.Sprintf("node of type %d spans [%d,%d) of %d bytes", n.T, n.P, n.E, len(text))
	}
	pos := n.P
	for _, c := range n.C {
		if c.P != pos || c.E < c.P {
			return fmt.Sprintf("child [%d,%d) of node %d [%d,%d) does not start at %d", c.P, c.E, n.T, n.P, n.E, pos)
		}
		pos = c.E
	}
	if pos != n.E {
		return fmt.Sprintf("children of node %d [%d,%d) end at %d", n.T, n.P, n.E, pos)
	}
	ok := false
	if len(n.C) == 1 && n.C[0].T == -2 && len(n.C[0].C) == 0 && n.P == n.E {
		ok = a.Nullable[n.T]
	} else {
		for _, alt := range a.g.Rules[n.T].Alts {
			if a.altMatches(alt, n, text) {
				ok = true
				break
			}
		}
	}
	if !ok {
		return fmt.Sprintf("children of <%s> [%d,%d) match none of its alternatives", a.g.Rules[n.T].Head, n.P, n.E)
	}
	for _, c := range n.C {
		if c.T >= 0 {
			if s := a.checkNode(c, text); s != "" {
				return s
			}
		}
	}
	return ""
}

func (a *Analysis) altMatches(alt []Sym, n *ND, text string) bool {
	if len(alt) != len(n.C) {
		return false
	}
	for i, s := range alt {
		c := n.C[i]
		switch s.K {
		case 't':
			if c.T != -1 || len(c.C) != 0 || c.P < 0 || c.E > len(text) || c.P > c.E || text[c.P:c.E] != s.V {
				return false
			}
		case 'n':
			if c.T != a.idx[s.V] {
				return false
			}
		case 'e':
			return false // handled by the caller
		}
	}
	return true
}

// checkTiling says what is wrong with the spans of a tree over n bytes.
func checkTiling(root *ND, n int) string {
	if root.P != 0 || root.E != n {
		return fmt.Sprintf("root spans [%d,%d) of %d delivered bytes", root.P, root.E, n)
	}
	var walk func(x *ND) string
	walk = func(x *ND) string {
		if x.P < 0 || x.E > n || x.P > x.E {
			return fmt.Sprintf("node of type %d spans [%d,%d) of %d bytes", x.T, x.P, x.E, n)
		}
		if len(x.C) == 0 {
			if x.T != -1 && x.P != x.E {
				return fmt.Sprintf("leaf of type %d is no literal but spans [%d,%d)", x.T, x.P, x.E)
			}
			return ""
		}
		pos := x.P
		for _, c := range x.C {
			if c.P != pos {
				return fmt.Sprintf("child [%d,%d) of node %d [%d,%d) should start at %d", c.P, c.E, x.T, x.P, x.E, pos)
			}
			pos = c.E
		}
		if pos != x.E {
			return fmt.Sprintf("children of node %d [%d,%d) end at %d", x.T, x.P, x.E, pos)
		}
		for _, c := range x.C {
			if s := walk(c); s != "" {
				return s
			}
		}
		return ""
	}
	return walk(root)
}

// --------------------------------------------------------------- sentences

// grows tells which rules derive sentences of any length.
func (a *Analysis) grows() []bool {
	if a.grow != nil {
		return a.grow
	}
	n := len(a.g.Rules)
	reach := make([][]bool, n)
	for i := range reach {
		reach[i] = make([]bool, n)
		seen := reach[i]
		var visit func(k int)
		visit = func(k int) {
			for _, alt := range a.g.Rules[k].Alts {
				for _, s := range alt {
					if s.K == 'n' {
						if j := a.idx[s.V]; a.Height[j] >= 0 && !seen[j] {
							seen[j] = true
							visit(j)
						}
					}
				}
			}
		}
		visit(i)
	}
	a.grow = make([]bool, n)
	for i := range a.grow {
		a.grow[i] = reach[i][i]
		for j := range reach[i] {
			a.grow[i] = a.grow[i] || reach[i][j] && reach[j][j]
		}
	}
	return a.grow
}

// sentence derives a random sentence of about the given size; ok is false if
// the grammar derives none.
func (a *Analysis) sentence(r *Rand, size int, grow bool) (string, bool) {
	if a.Height[0] < 0 {
		return "", false
	}
	var sb strings.Builder
	budget := size
	var expand func(rule, depth int)
	expand = func(rule, depth int) {
		alts := a.g.Rules[rule].Alts
		var cand []int
		best, bestH := -1, 1<<30
		for i, alt := range alts {
			h := 0
			for _, s := range alt {
				if s.K == 'n' {
					j := a.idx[s.V]
					if a.Height[j] < 0 {
						h = -1
						break
					}
					if a.Height[j]+1 > h {
						h = a.Height[j] + 1
					}
				}
			}
			if h < 0 {
				continue
			}
			cand = append(cand, i)
			if h < bestH {
				best, bestH = i, h
			}
		}
		pick := best
		if budget > 0 && depth < 60+size && len(cand) > 0 {
			pick = cand[r.N(len(cand))]
			if len(alts[pick]) == 1 && alts[pick][0].K == 'e' && r.N(3) > 0 {
				pick = cand[r.N(len(cand))]
			}
			if grow && r.N(50) > 0 { // one that can go on
				var on []int
				for _, i := range cand {
					for _, s := range alts[i] {
						if s.K == 'n' && a.grows()[a.idx[s.V]] {
							on = append(on, i)
							break
						}
					}
				}
				if len(on) > 0 {
					pick = on[r.N(len(on))]
				}
			}
		}
		for _, s := range alts[pick] {
			switch s.K {
			case 't':
				sb.WriteString(s.V)
				budget -= len(s.V)
			case 'n':
				budget--
				expand(a.idx[s.V], depth+1)
			}
		}
	}
	expand(0, 0)
	return sb.String(), true
}

// ---------------------------------------------------------------- BNF text

const bnfSymbols = "| !#$%&()*+,-./:;>=<?@[]^_`{}~"

func isLetter(c byte) bool { return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' }
func isDigit(c byte) bool  { return c >= '0' && c <= '9' }

type bnfReader struct {
	s   string
	i   int
	esc map[string]Text // what escapes stand for, if not the usual

	asides bool   // there may be things to be left out, see asides
	drop   string // escapes that stand for nothing
	off    int    // what is read is left out, if not 0
	bad    string // what the bindings name no type of
	lacks  bool   // an escape that stands for nothing was used, or what is bad
}

func (b *bnfReader) peek() int {
	if b.i < len(b.s) {
		return int(b.s[b.i])
	}
	return -1
}
func (b *bnfReader) eat(lit string) bool {
	if strings.HasPrefix(b.s[b.i:], lit) {
		b.i += len(lit)
		return true
	}
	return false
}
func (b *bnfReader) ws() {
	for b.peek() == ' ' {
		b.i++
	}
}
func (b *bnfReader) name() (string, bool) {
	at := b.i
	if c := b.peek(); c < 0 || !isLetter(byte(c)) {
		return "", false
	}
	for c := b.peek(); c >= 0 && (isLetter(byte(c)) || isDigit(byte(c)) || c == '-'); c = b.peek() {
		b.i++
	}
	return b.s[at:b.i], true
}
func (b *bnfReader) angle() (string, bool) {
	if !b.eat("<") {
		return "", false
	}
	n, ok := b.name()
	if !ok || !b.eat(">") {
		return "", false
	}
	return n, true
}
func (b *bnfReader) term() (Sym, bool) {
	use := func(what string) { b.lacks = b.lacks || b.off == 0 && b.bad == what }
	q := b.peek()
	if q == '<' {
		use("sym")
		n, ok := b.angle()
		return Sym{'n', n}, ok
	}
	if q != '"' && q != '\'' {
		return Sym{}, false
	}
	use("trm")
	b.i++
	var sb strings.Builder
	for {
		c := b.peek()
		switch {
		case c < 0:
			return Sym{}, false
		case c == q:
			b.i++
			if sb.Len() == 0 {
				return Sym{'e', ""}, true
			}
			return Sym{'t', sb.String()}, true
		case c == '\\':
			b.i++
			use("esc")
			if c := b.peek(); c >= 0 && strings.IndexByte(b.drop, byte(c)) >= 0 {
				b.lacks = b.lacks || b.off == 0
			}
			if c := b.peek(); c >= 0 {
				if v, ok := b.esc[string([]byte{byte(c)})]; ok {
					sb.WriteString(string(v))
					b.i++
					continue
				}
			}
			switch b.peek() {
			case 't':
				sb.WriteByte('\t')
			case 'n':
				sb.WriteByte('\n')
			case 'r':
				sb.WriteByte('\r')
			case '"':
				sb.WriteByte('"')
			case '\\':
				sb.WriteByte('\\')
			default:
				return Sym{}, false
			}
			b.i++
		case c == '"' || c == '\'': // the other quote
			sb.WriteByte(byte(c))
			b.i++
		case isLetter(byte(c)) || isDigit(byte(c)) || strings.IndexByte(bnfSymbols, byte(c)) >= 0:
			sb.WriteByte(byte(c))
			b.i++
		default:
			return Sym{}, false
		}
	}
}

// readBNF reads BNF text as documented in the comment on bnf.SelfGrammar.
func readBNF(text string) (*Grammar, bool) { return readBound(text, BSpec{}) }

// readBound reads it as bindings say, which may lack some of the escapes or
// name types that no node has: a text in which there is such a thing (that is
// not left out) does not come back as a grammar.
func readBound(text string, bind BSpec) (*Grammar, bool) {
	b := &bnfReader{s: text, esc: bind.Esc, asides: bind.Off != nil, drop: strings.Join(bind.Drop, ""), bad: bind.Bad}
	g, ok := b.syntax()
	if !ok || b.lacks {
		return nil, false
	}
	return g, true
}

func (b *bnfReader) syntax() (*Grammar, bool) {
	g := &Grammar{}
	list := func() ([]Sym, bool) {
		alt := []Sym{}
		for {
			s, ok := b.term()
			if !ok {
				return nil, false
			}
			alt = append(alt, s)
			b.ws()
			for b.asides && b.eat("#") {
				b.off++
				b.ws()
				if _, ok := b.term(); !ok {
					return nil, false
				}
				b.ws()
				b.off--
			}
			if c := b.peek(); c != '<' && c != '"' && c != '\'' {
				return alt, true
			}
		}
	}
	content := func() bool {
		if b.asides && b.eat("@") {
			if _, ok := b.angle(); !ok {
				return false
			}
			b.ws()
		}
		head, ok := b.angle()
		if !ok {
			return false
		}
		b.ws()
		if !b.eat("::=") {
			return false
		}
		b.ws()
		r := Rule{Head: head}
		for {
			alt, ok := list()
			if !ok {
				return false
			}
			r.Alts = append(r.Alts, alt)
			for b.asides && b.eat("!") {
				b.off++
				b.ws()
				if _, ok := list(); !ok {
					return false
				}
				b.off--
			}
			if !b.eat("|") {
				break
			}
			b.ws()
		}
		g.Rules = append(g.Rules, r)
		return true
	}
	b.ws()
	b.lacks = b.lacks || b.bad == "head" || b.bad == "tail"
	if !content() {
		return nil, false
	}
	for b.peek() >= 0 {
		if !b.eat("\n") && !b.eat("\r\n") {
			return nil, false
		}
		off := b.asides && b.eat("#")
		if off {
			b.off++
		}
		n := len(g.Rules)
		b.ws()
		if c := b.peek(); (c == '<' || c == '@' && b.asides) && !content() {
			return nil, false
		}
		if off {
			b.off--
			g.Rules = g.Rules[:n]
		}
	}
	return g, true
}

// expressible tells whether a grammar can be written in the BNF syntax.
func expressible(g *Grammar) bool {
	okName := func(n string) bool {
		b := &bnfReader{s: n}
		v, ok := b.name()
		return ok && v == n
	}
	for _, r := range g.Rules {
		if !okName(r.Head) || len(r.Alts) == 0 {
			return false
		}
		for _, a := range r.Alts {
			if len(a) == 0 {
				return false
			}
			for _, s := range a {
				switch s.K {
				case 'n':
					if !okName(s.V) {
						return false
					}
				case 't':
					if s.V == "" {
						return false
					}
					for i := 0; i < len(s.V); i++ {
						c := s.V[i]
						if !isLetter(c) && !isDigit(c) && strings.IndexByte(bnfSymbols, c) < 0 && strings.IndexByte("\t\n\r\"'\\", c) < 0 {
							return false
						}
					}
				}
			}
		}
	}
	return len(g.Rules) > 0
}

// ---------------------------------------------------------------- JSON subset

type jsonRef struct {
	s    string
	i    int
	bad  bool
	keys []string
}

const jsonSymbols = "| !#$%&()*+,-./:;>=<?@[]^_`{}~'"

// jsonKeys is the key structure of a document of examples/json/json.bnf, one
// line per key; ok is false if the text is not a document of that grammar.
func jsonKeys(text string) (lines []string, ok bool) {
	j := &jsonRef{s: text}
	j.ws()
	j.value(0)
	j.ws()
	if j.bad || j.i != len(text) {
		return nil, false
	}
	return j.keys, true
}

func (j *jsonRef) peek() int {
	if j.i < len(j.s) {
		return int(j.s[j.i])
	}
	return -1
}
func (j *jsonRef) want(l string) {
	if j.bad || !strings.HasPrefix(j.s[j.i:], l) {
		j.bad = true
		return
	}
	j.i += len(l)
}
func (j *jsonRef) ws() {
	for !j.bad {
		switch {
		case j.peek() == ' ' || j.peek() == '\n':
			j.i++
		case strings.HasPrefix(j.s[j.i:], "\r\n"):
			j.i += 2
		default:
			return
		}
	}
}
func (j *jsonRef) digits(min int) {
	n := 0
	for j.peek() >= 0 && isDigit(byte(j.peek())) {
		j.i++
		n++
	}
	if n < min {
		j.bad = true
	}
}
func (j *jsonRef) str() string {
	j.want(`"`)
	at := j.i
	for !j.bad {
		c := j.peek()
		switch {
		case c < 0:
			j.bad = true
		case c == '"':
			j.i++
			return j.s[at : j.i-1]
		case c == '\\':
			j.i++
			e := j.peek()
			if e < 0 || strings.IndexByte(`"\/bfnrtu`, byte(e)) < 0 {
				j.bad = true
				return ""
			}
			j.i++
			if e == 'u' {
				for k := 0; k < 3; k++ {
					h := j.peek()
					if h < 0 || !(isDigit(byte(h)) || h >= 'a' && h <= 'f' || h >= 'A' && h <= 'F') {
						j.bad = true
						return ""
					}
					j.i++
				}
			}
		case isLetter(byte(c)) || isDigit(byte(c)) || strings.IndexByte(jsonSymbols, byte(c)) >= 0:
			j.i++
		default:
			j.bad = true
		}
	}
	return ""
}
func (j *jsonRef) kv(level int) {
	k := j.str()
	j.keys = append(j.keys, strings.Repeat("  ", level)+k)
	j.ws()
	j.want(":")
	j.ws()
	j.value(level)
}
func (j *jsonRef) value(level int) {
	if j.bad {
		return
	}
	switch c := j.peek(); {
	case c == '{':
		j.i++
		j.ws()
		if j.peek() == '"' {
			j.kv(level + 1)
			j.ws()
			for !j.bad && j.peek() == ',' {
				j.i++
				j.ws()
				j.kv(level + 1)
				j.ws()
			}
		}
		j.want("}")
	case c == '[':
		j.i++
		if j.peek() != ']' {
			j.ws()
			j.value(level + 1)
			j.ws()
			for !j.bad && j.peek() == ',' {
				j.i++
				j.ws()
				j.value(level + 1)
				j.ws()
			}
		}
		j.want("]")
	case c == '"':
		j.str()
	case c == 't':
		j.want("true")
	case c == 'f':
		j.want("false")
	case c == 'n':
		j.want("null")
	case c == '-' || c >= '0' && c <= '9':
		if c == '-' {
			j.i++
		}
		if j.peek() == '0' {
			j.i++
		} else if d := j.peek(); d >= '1' && d <= '9' {
			j.digits(1)
		} else {
			j.bad = true
		}
		if j.peek() == '.' {
			j.i++
			j.digits(1)
		}
		if j.peek() == 'e' || j.peek() == 'E' {
			j.i++
			if j.peek() == '+' || j.peek() == '-' {
				j.i++
			}
			j.digits(1)
		}
	default:
		j.bad = true
	}
}

// --------------------------------------------- tables: a reference machine

// tableRun follows a table through a text. ended is false if it does not come
// to an end within the limit.
type tableRun struct {
	h     *HTab
	rows  map[int]map[int][]SSpec
	s     string
	i     int
	steps int
}

func runTable(h *HTab, text string) (tree *ND, ended bool) {
	m := &tableRun{h: h, rows: map[int]map[int][]SSpec{}, s: text, steps: 6000 + 60*len(text)}
	for i, r := range h.Rows {
		row := map[int][]SSpec{}
		for _, c := range r.Cells {
			row[c.B] = c.Ops
		}
		m.rows[h.at(i)] = row
	}
	n := m.nonterm(0, 0)
	if m.steps < 0 {
		return nil, false
	}
	if n == nil || m.i != len(text) {
		return nil, true
	}
	return n, true
}

func (m *tableRun) nonterm(row, depth int) *ND {
	if m.steps--; m.steps < 0 || depth > 20000 {
		m.steps = -1
		return nil
	}
	at := m.i
	next := 0 // what stands for the end of the text
	if at < len(m.s) {
		next = int(m.s[at])
	}
	if row < 0 { // built in
		if row != -2 || next != '\n' && next != '\r' {
			return nil
		}
		ops := []SSpec{{K: "t", V: "\n"}}
		if next == '\r' {
			ops = []SSpec{{K: "t", V: "\r"}, {K: "t", V: "\n"}}
		}
		return m.all(row, at, ops, depth)
	}
	ops, ok := m.rows[row][next]
	if !ok {
		return nil
	}
	return m.all(row, at, ops, depth)
}

func (m *tableRun) all(row, at int, ops []SSpec, depth int) *ND {
	n := &ND{T: row, P: at}
	for _, o := range ops {
		var c *ND
		if o.K == "n" {
			c = m.nonterm(m.h.ref(o.V), depth+1)
		} else if v := o.lit(); strings.HasPrefix(m.s[m.i:], v) {
			m.steps--
			c = &ND{T: -1, P: m.i, E: m.i + len(v)}
			if v == "" {
				c.C = []*ND{{T: -2, P: m.i, E: m.i}}
			}
			m.i += len(v)
		}
		if c == nil {
			return nil
		}
		n.C = append(n.C, c)
	}
	n.E = m.i
	if len(ops) == 0 {
		n.C = []*ND{{T: -2, P: at, E: at}}
	}
	return n
}
