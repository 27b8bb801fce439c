//go:build go1.22

package main

// Scenario generators. Everything is drawn from one Rand.

import (
	"fmt"
	"strings"

	"github.com/TooManySugar/ll1parser/vsim"
)

type gen struct{ *Rand }

func (g gen) p(x float64) bool         { return g.F() < x }
func (g gen) pick(xs ...string) string { return xs[g.N(len(xs))] }
func (g gen) rng(a, b int) int         { return a + g.N(b-a+1) }

// ------------------------------------------------------------------- policy

func (g gen) policy(tasks int) vsim.Policy {
	pol := vsim.Policy{Seed: g.U64()}
	if tasks < 2 {
		pol.Kind = "seq"
		return pol
	}
	switch k := g.N(20); {
	case k < 1:
		pol.Kind = "seq"
	case k < 9:
		pol.Kind = "random"
		pol.P = []float64{0.5, 0.25, 0.1, 0.03, 0.01, 0.003}[g.N(6)]
	case k < 14:
		pol.Kind = "pct"
		pol.D = 1 + g.N(5)
		pol.Len = []int{60, 200, 600, 2000, 8000, 30000}[g.N(6)]
	case k < 18:
		pol.Kind = "site"
	default:
		pol.Kind = "rr"
		pol.Q = 1 + g.N(7)
	}
	return pol
}

// ------------------------------------------------------------------ grammars

func t(s string) Sym { return Sym{'t', s} }
func n(s string) Sym { return Sym{'n', s} }

var nothing = []Sym{{'e', ""}}

func alts(a ...[]Sym) [][]Sym { return a }
func seq(s ...Sym) []Sym      { return s }

var alphabets = []string{
	"ab", "abc", "xyz01", "a,()[]", "\x01\x3f\x40\x7f\x80\xbf\xc0\xff", "\n\r\t \"'\\", "ab\xfe\xff", "aA0-<>|=:", "\xef\xbb\xbfa", "a \n\x1a\xff\xfe",
}

func (g gen) word(al string, max int) string {
	k := 1
	if g.p(0.3) {
		k = 1 + g.N(max)
	}
	b := make([]byte, k)
	for i := range b {
		b[i] = al[g.N(len(al))]
	}
	return string(b)
}

// lengthen makes some literals longer; their first bytes, all that LL(1)-ness
// depends on, stay as they are.
func (g gen) lengthen(gr *Grammar) {
	al := alphabets[g.N(len(alphabets))]
	top := []int{3, 8, 20, 70, 300}[g.N(5)]
	share := []float64{0.2, 0.6, 1}[g.N(3)]
	if g.p(0.01) {
		top, share = 70000, 0.1
	}
	for _, r := range gr.Rules {
		for _, a := range r.Alts {
			for k := range a {
				if a[k].K != 't' || !g.p(share) {
					continue
				}
				ln := g.N(top + 1)
				switch g.N(3) {
				case 0:
					a[k].V += strings.Repeat(a[k].V, ln/len(a[k].V))
				default:
					b := make([]byte, ln)
					for i := range b {
						b[i] = al[g.N(len(al))]
					}
					a[k].V += string(b)
				}
			}
		}
	}
}

// raw makes a small random grammar that may or may not be LL(1).
func (g gen) raw() *Grammar {
	nr := 1 + g.N(5)
	if g.p(0.1) {
		nr = 1 + g.N(9)
	}
	al := alphabets[g.N(len(alphabets))]
	names := make([]string, nr)
	for i := range names {
		names[i] = fmt.Sprintf("r%d", i)
	}
	pTerm := []float64{0.4, 0.55, 0.7}[g.N(3)]
	pNull := []float64{0.15, 0.35, 0.5}[g.N(3)]
	gr := &Grammar{}
	for i := 0; i < nr; i++ {
		r := Rule{Head: names[i]}
		na := 1 + g.N(3)
		if len(al) > 4 && g.p(0.2) {
			na = 1 + g.N(5)
		}
		first := g.N(len(al))
		for a := 0; a < na; a++ {
			ln := 1 + g.N(3)
			if g.p(0.1) {
				ln = 1 + g.N(6)
			}
			var s []Sym
			for k := 0; k < ln; k++ {
				if g.p(pTerm) {
					w := g.word(al, 3)
					if k == 0 && g.p(0.8) {
						w = string(al[(first+a)%len(al)]) + w[1:]
					}
					s = append(s, t(w))
				} else {
					s = append(s, n(names[g.N(nr)]))
				}
			}
			r.Alts = append(r.Alts, s)
		}
		if g.p(pNull) {
			k := g.N(len(r.Alts) + 1)
			r.Alts = append(r.Alts[:k], append([][]Sym{nothing}, r.Alts[k:]...)...)
		}
		gr.Rules = append(gr.Rules, r)
	}
	return gr
}

// template makes a grammar of a known shape.
func (g gen) template() *Grammar {
	gr := &Grammar{}
	add := func(h string, a ...[]Sym) { gr.Rules = append(gr.Rules, Rule{h, a}) }
	letters := "abcdefghijklmnopqrstuvw"
	k := g.N(18)
	if g.p(0.01) {
		k = 18
	}
	switch k {
	case 0: // chain of nullable rules, one level or two
		k := 2 + g.N(7)
		if g.p(0.2) {
			k = 9 + g.N(14)
		}
		var s []Sym
		for i := 0; i < k; i++ {
			s = append(s, n(fmt.Sprintf("n%d", i)))
		}
		if g.p(0.6) {
			s = append(s, t("z"))
		}
		if g.p(0.3) {
			s = append([]Sym{t("y")}, s...)
		}
		if g.p(0.4) {
			h := 1 + g.N(len(s)-1)
			add("s", seq(n("p"), n("q")))
			add("p", s[:h])
			add("q", s[h:])
		} else {
			add("s", s)
		}
		for i := 0; i < k; i++ {
			c := string(letters[i])
			a := [][]Sym{seq(t(c)), nothing}
			if g.p(0.4) {
				a[0] = seq(t(c), n(fmt.Sprintf("n%d", i)))
			}
			if g.p(0.2) {
				a[0] = seq(t(c+g.word(letters, 3)), t("!"))
			}
			if g.p(0.5) {
				a[0], a[1] = a[1], a[0]
			}
			add(fmt.Sprintf("n%d", i), a...)
		}
	case 1:
		add("s", seq(t("("), n("s"), t(")"), n("s")), nothing)
	case 2:
		add("s", seq(t("["), n("l"), t("]")))
		add("l", seq(n("i"), n("m")), nothing)
		add("m", seq(t(","), n("i"), n("m")), nothing)
		add("i", seq(t("a")), seq(n("s")))
	case 3:
		add("e", seq(n("t"), n("f")))
		add("f", seq(t("+"), n("t"), n("f")), nothing)
		add("t", seq(n("x"), n("u")))
		add("u", nothing, seq(t("*"), n("x"), n("u")))
		add("x", seq(t("(")), seq(t("id")))
		gr.Rules[4].Alts[0] = seq(t("("), n("e"), t(")"))
	case 4: // many bytes as literals
		all := g.p(0.2)
		if all { // what may be followed by any of them, and by the end
			add("t", seq(t("!"), n("e"), n("s")))
			add("e", nothing)
			if g.p(0.5) {
				gr.Rules[1] = Rule{"e", alts(seq(n("d")))}
				add("d", nothing)
			}
		}
		add("s", seq(n("c"), n("s")), nothing)
		var a [][]Sym
		for b := 1; b < 256; b++ {
			edge := b%64 == 63 || b%64 == 0 || b%64 == 1 || b == 255
			if all || edge && g.p(0.9) || !edge && g.p(0.3) {
				a = append(a, seq(t(string([]byte{byte(b)}))))
			}
		}
		if len(a) == 0 {
			a = alts(seq(t("\xff")))
		}
		add("c", a...)
	case 5: // many rules
		k := 3 + g.N(60)
		if g.p(0.12) {
			k = g.pickN(120, 126, 250, 254, 300) + g.N(12)
		}
		if g.p(0.15) { // each beginning with the next
			for i := 0; i < k-1; i++ {
				a := alts(seq(n(fmt.Sprintf("r%d", i+1))))
				if g.p(0.1) {
					a[0] = append(a[0], t(";"))
				}
				add(fmt.Sprintf("r%d", i), a...)
			}
			add(fmt.Sprintf("r%d", k-1), seq(t("a"), n("o")), seq(t("b")), seq(t("\xff")))
			add("o", seq(t("o")), nothing)
			break
		}
		for i := 0; i < k; i++ {
			nx := fmt.Sprintf("r%d", (i+1)%k)
			c := string(letters[i%len(letters)])
			switch {
			case i == k-1:
				add(fmt.Sprintf("r%d", i), seq(t(c)), nothing)
			case g.p(0.3):
				add(fmt.Sprintf("r%d", i), seq(n(nx)))
			case g.p(0.3):
				add(fmt.Sprintf("r%d", i), seq(t(c), n(nx)), seq(t("#")))
			default:
				add(fmt.Sprintf("r%d", i), seq(t(c), n(nx), t(";")))
			}
		}
	case 6: // long literals
		k := []int{2, 7, 16, 64, 255, 256, 300}[g.N(7)]
		add("s", seq(t(strings.Repeat("x", k)), n("s")), seq(t("end")))
	case 7: // nullable at the end of the start rule
		add("s", seq(t("x"), n("a"), n("b")))
		add("a", seq(t("a")), nothing)
		add("b", nothing, seq(t("b"), n("a")))
		if g.p(0.5) {
			add("c", seq(t("c")))
			gr.Rules[2].Alts[1] = seq(t("b"), n("c"))
		}
	case 8:
		add("s", seq(n("a"), t("!")))
		add("a", seq(t("a"), n("b"), n("c")))
		add("b", seq(t("b")), nothing)
		add("c", seq(t("c"), n("a")), nothing)
	case 9: // one rule several times in one alternative
		add("s", seq(n("a"), t(","), n("a"), t(";"), n("a")))
		add("a", seq(t("a")), nothing)
		if g.p(0.5) {
			gr.Rules[1].Alts = alts(seq(t("a"), n("a")), nothing)
		}
	case 10:
		add("s", seq(t("a"), n("s")), seq(t("b")))
	case 11: // start rule used inside
		add("s", seq(t("{"), n("k"), t("}")), seq(t("v")))
		add("k", seq(n("s"), n("m")), nothing)
		add("m", nothing, seq(t(","), n("s"), n("m")))
	case 12: // literals that share prefixes deeper in
		add("s", seq(t("ab"), n("x")), seq(t("cab"), n("x")))
		add("x", seq(t("aab")), seq(t("bb")), nothing)
	case 13: // wide choice through several levels
		k := 2 + g.N(5)
		var a [][]Sym
		for i := 0; i < k; i++ {
			a = append(a, seq(n(fmt.Sprintf("k%d", i)), n("s")))
		}
		a = append(a, nothing)
		add("s", a...)
		for i := 0; i < k; i++ {
			c := string(letters[i])
			if g.p(0.5) {
				add(fmt.Sprintf("k%d", i), seq(t(c), n("o")), seq(t(strings.ToUpper(c))))
			} else {
				add(fmt.Sprintf("k%d", i), seq(t(c)), seq(t(strings.ToUpper(c)), t("=")))
			}
		}
		add("o", seq(t("?")), nothing)
	case 14: // FOLLOW through the ends of several rules
		k := 2 + g.N(5)
		add("s", seq(n("e0"), t(".")))
		for i := 0; i < k; i++ {
			add(fmt.Sprintf("e%d", i), seq(t(string(letters[i])), n(fmt.Sprintf("e%d", i+1))))
		}
		add(fmt.Sprintf("e%d", k), seq(t("-"), n("e0")), nothing)
	case 15: // only the empty sentence, or one literal
		if g.p(0.5) {
			add("s", nothing)
		} else {
			add("s", seq(t(g.word("ab", 4))))
		}
	case 16: // nothing reachable only deep down
		k := 1 + g.N(6)
		for i := 0; i < k; i++ {
			add(fmt.Sprintf("d%d", i), seq(n(fmt.Sprintf("d%d", i+1)), n("o")))
		}
		add(fmt.Sprintf("d%d", k), seq(t("d")))
		add("o", nothing, seq(t("o")))
		// o follows itself: make it LL(1) only for k==1
		if k > 1 {
			for i := 1; i < k; i++ {
				gr.Rules[i].Alts[0] = seq(n(fmt.Sprintf("d%d", i+1)), t(string(letters[i])))
			}
		}
	}
	if k == 17 {
		g.layers(gr)
	}
	if k == 18 { // alternatives of very many symbols
		var s []Sym
		for k := g.pickN(126, 127, 250, 254, 255, 256, 500) + g.N(4); len(s) < k; {
			if g.p(0.3) {
				s = append(s, n("o"))
				s = append(s, t(","))
			} else {
				s = append(s, t(string(letters[g.N(10)])))
			}
		}
		add("s", s, seq(t("z")))
		add("o", seq(t("o")), nothing, seq(t("("), n("s"), t(")")))
		if g.p(0.3) {
			gr.Rules[0].Alts = append(gr.Rules[0].Alts, seq(t("Z"), n("s")))
		}
	}
	return gr
}

// layers adds rules that use one another in a chain, each followed and
// preceded by others that may match nothing: what begins and what follows the
// last of them is known only after a walk through all.
func (g gen) layers(gr *Grammar) {
	used := 0
	lit := func() Sym {
		used++
		c := "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"[used%62 : used%62+1]
		if g.p(0.1) {
			c += g.word("ab", 3)
		}
		return t(c)
	}
	var rules []Rule
	opts := 0
	depth := g.rng(2, 9)
	p := func(i int) string { return fmt.Sprintf("p%d", i) }
	var maybe func(level int) Sym
	maybe = func(level int) Sym {
		h := fmt.Sprintf("o%d", opts)
		opts++
		a := alts(seq(lit()), nothing)
		switch {
		case g.p(0.1):
			a[0] = append(a[0], n(p(g.N(depth+1))))
		case g.p(0.1):
			a[0] = append(a[0], n(h))
		case g.p(0.2) && level < 3:
			a = alts(seq(maybe(level + 1)))
		case g.p(0.1) && level < 2:
			a = alts(seq(maybe(level+1), maybe(level+1)))
		}
		if len(a) > 1 && g.p(0.5) {
			a[0], a[1] = a[1], a[0]
		}
		rules = append(rules, Rule{h, a})
		return n(h)
	}
	begin, rest := g.F(), g.F()
	for i := 0; i < depth; i++ {
		var main []Sym
		for g.p(0.2) {
			main = append(main, maybe(0))
		}
		if g.p(begin) {
			main = append(main, lit())
		}
		main = append(main, n(p(i+1)))
		for g.p(rest) && len(main) < 7 {
			main = append(main, maybe(0))
		}
		if g.p(0.15) {
			main = append(main, lit())
		}
		a := alts(main)
		if g.p(0.2) {
			a = append(a, nothing)
		}
		if g.p(0.2) {
			a = append(a, seq(lit()))
		}
		rules = append(rules, Rule{p(i), a})
	}
	last := alts(seq(lit()))
	if g.p(0.8) {
		last = append(last, nothing)
	}
	if g.p(0.1) {
		last[0] = append(last[0], n(p(g.N(depth+1))), lit())
	}
	rules = append(rules, Rule{p(depth), last})
	// the start comes first, the others as they come or turned around
	if g.p(0.5) {
		for i, j := 0, len(rules)-1; i < j; i, j = i+1, j-1 {
			rules[i], rules[j] = rules[j], rules[i]
		}
	}
	for i := range rules {
		if rules[i].Head == "p0" {
			rules = append(append(append([]Rule(nil), rules[i]), rules[:i]...), rules[i+1:]...)
			break
		}
	}
	gr.Rules = append(gr.Rules, rules...)
}

// permute changes the order of rules (other than the start rule) and of
// alternatives, which must not matter.
func (g gen) permute(gr *Grammar) {
	for i := len(gr.Rules) - 1; i > 1; i-- {
		j := 1 + g.N(i)
		gr.Rules[i], gr.Rules[j] = gr.Rules[j], gr.Rules[i]
	}
	for _, r := range gr.Rules {
		for i := len(r.Alts) - 1; i > 0; i-- {
			j := g.N(i + 1)
			r.Alts[i], r.Alts[j] = r.Alts[j], r.Alts[i]
		}
	}
}

// ll1 makes an LL(1) grammar that derives at least one sentence.
func (g gen) ll1() GSpec {
	k := g.N(40)
	if k == 0 {
		return GSpec{Kind: "self"}
	}
	if k == 1 {
		return GSpec{Kind: "json"}
	}
	for try := 0; ; try++ {
		var gr *Grammar
		if k < 24 && try < 400 {
			gr = g.raw()
			if len(gr.Rules) > 2 && g.p(0.3) {
				g.merge(gr)
			}
			if g.p(0.15) {
				g.lengthen(gr)
			}
		} else {
			gr = g.template()
			if g.p(0.5) && (len(gr.Rules) < 80 || g.p(0.1)) {
				g.permute(gr)
			}
			if g.p(0.15) {
				g.lengthen(gr)
			}
		}
		if g.p(0.03) {
			g.rename(gr)
		}
		a := analyse(gr)
		if !a.OK || !a.LL1 || a.Height[0] < 0 {
			continue
		}
		if k < 24 && trivial(a) && try < 100 {
			continue
		}
		return specOf(gr)
	}
}

// merge glues a template grammar under a random one.
func (g gen) merge(gr *Grammar) {
	tm := g.template()
	for i := range tm.Rules {
		tm.Rules[i].Head = "m-" + tm.Rules[i].Head
		for _, a := range tm.Rules[i].Alts {
			for k := range a {
				if a[k].K == 'n' {
					a[k].V = "m-" + a[k].V
				}
			}
		}
	}
	r := &gr.Rules[g.N(len(gr.Rules))]
	a := r.Alts[g.N(len(r.Alts))]
	if a[0].K != 'e' {
		a[g.N(len(a))] = n(tm.Rules[0].Head)
	}
	gr.Rules = append(gr.Rules, tm.Rules...)
}

// rename gives the rules other names: long, alike, with odd characters.
func (g gen) rename(gr *Grammar) {
	m := map[string]string{}
	style := g.N(4)
	for i, r := range gr.Rules {
		switch style {
		case 0:
			m[r.Head] = strings.Repeat("n", 1+i*3) + "-x"
		case 1:
			m[r.Head] = fmt.Sprintf("Rule %d <%%s> \xc3\xa9", i)
		case 2:
			m[r.Head] = strings.Repeat("long", 20) + fmt.Sprint(i)
		case 3: // one name is the empty string
			m[r.Head] = strings.Repeat("a", i)
		}
	}
	for i, r := range gr.Rules {
		gr.Rules[i].Head = m[r.Head]
		for _, a := range r.Alts {
			for k := range a {
				if a[k].K == 'n' {
					a[k].V = m[a[k].V]
				}
			}
		}
	}
}

// trivial grammars derive hardly anything.
func trivial(a *Analysis) bool {
	live := 0
	for i := range a.g.Rules {
		if a.Height[i] >= 0 {
			live++
		}
	}
	alts := 0
	for _, r := range a.g.Rules {
		alts += len(r.Alts)
	}
	return live*2 < len(a.g.Rules) || alts < 3
}

// any makes a grammar that is well formed but often not LL(1).
func (g gen) any() GSpec {
	switch g.N(10) {
	case 0, 1, 2:
		return g.ll1()
	case 3, 4: // left recursion
		gr := &Grammar{}
		switch g.N(6) {
		case 0:
			gr.Rules = []Rule{{"s", alts(seq(n("s"), t("a")), seq(t("b")))}}
		case 1:
			gr.Rules = []Rule{{"s", alts(seq(t("b")), seq(n("s"), t("a")))}}
		case 2:
			gr.Rules = []Rule{{"s", alts(seq(n("x"), t("a")), seq(t("b")))}, {"x", alts(seq(n("s"), t("c")), seq(t("d")))}}
		case 3: // hidden by a nullable rule
			gr.Rules = []Rule{{"s", alts(seq(n("o"), n("s"), t("a")), seq(t("b")))}, {"o", alts(seq(t("o")), nothing)}}
		case 4:
			gr.Rules = []Rule{{"s", alts(seq(n("s"), n("s")), seq(t("a")), nothing)}}
		case 5:
			gr.Rules = []Rule{{"s", alts(seq(n("s")), seq(t("a")))}, {"o", alts(nothing, seq(n("o"), t("o")))}}
		}
		if g.p(0.5) {
			g.permute(gr)
		}
		return specOf(gr)
	case 5: // conflicts: a template with one alternative repeated or shifted
		gr := g.template()
		r := &gr.Rules[g.N(len(gr.Rules))]
		o := gr.Rules[g.N(len(gr.Rules))]
		r.Alts = append(r.Alts, o.Alts[g.N(len(o.Alts))])
		if g.p(0.5) {
			g.permute(gr)
		}
		return specOf(gr)
	}
	for try := 0; try < 50; try++ {
		gr := g.raw()
		if analyse(gr).OK {
			return specOf(gr)
		}
	}
	return g.ll1()
}

// clash makes a grammar in which two alternatives compete, often by a small
// change to one in which none do.
func (g gen) clash() GSpec {
	for try := 0; try < 3000; try++ {
		var gr *Grammar
		switch g.N(4) {
		case 0:
			gr = g.raw()
		case 1:
			gr = anaOf(g.any()).g
		default:
			s := g.ll1()
			if s.Kind != "rules" {
				continue
			}
			gr = anaOf(clone(s)).g
			for k := 1 + g.N(2); k > 0; k-- {
				g.mutate(gr)
			}
		}
		if a := analyse(gr); a.OK && a.Conflict {
			return specOf(gr)
		}
	}
	return specOf(&Grammar{Rules: []Rule{{"s", alts(seq(t("a")), seq(t("a"), t("b")))}}})
}

// mutate makes one small change to a grammar.
func (g gen) mutate(gr *Grammar) {
	r := &gr.Rules[g.N(len(gr.Rules))]
	al := alphabet(&Analysis{g: gr})
	at := g.N(len(r.Alts))
	a := append([]Sym(nil), r.Alts[at]...)
	if a[0].K == 'e' {
		a = a[:0]
	}
	sym := func() Sym {
		if g.p(0.5) {
			return n(gr.Rules[g.N(len(gr.Rules))].Head)
		}
		return t(g.word(al, 2))
	}
	null := false
	for _, x := range r.Alts {
		null = null || x[0].K == 'e'
	}
	k := 0
	if len(a) > 0 {
		k = g.N(len(a))
	}
	switch c := g.N(6); {
	case c == 0 && !null: // the rule may match nothing
		r.Alts = append(r.Alts, nothing)
		return
	case c == 1: // another alternative
		r.Alts = append(r.Alts, seq(sym(), sym()))
		return
	case c == 2 && len(a) > 1: // one symbol less
		a = append(a[:k:k], a[k+1:]...)
	case c == 3 && len(a) > 0: // another symbol
		a[k] = sym()
	case c == 4 && len(a) > 0 && a[k].K == 't': // another first byte
		a[k].V = string([]byte{al[g.N(len(al))]}) + a[k].V[1:]
	default:
		a = append(a[:k:k], append([]Sym{sym()}, a[k:]...)...)
	}
	r.Alts[at] = a
}

// twin makes a grammar that is easily taken for s: it differs in little, or
// prints the same.
func (g gen) twin(s GSpec) GSpec {
	if s.Kind != "rules" || len(s.Rules) == 0 {
		return s
	}
	for try := 0; try < 20; try++ {
		gr := anaOf(clone(s)).g
		c := &Grammar{}
		for _, r := range gr.Rules {
			x := Rule{Head: r.Head}
			for _, a := range r.Alts {
				x.Alts = append(x.Alts, append([]Sym(nil), a...))
			}
			c.Rules = append(c.Rules, x)
		}
		if g.confuse(c) {
			return specOf(c)
		}
	}
	return s
}

func (g gen) confuse(c *Grammar) bool {
	r := &c.Rules[g.N(len(c.Rules))]
	if len(r.Alts) == 0 {
		return false
	}
	at := g.N(len(r.Alts))
	a := r.Alts[at]
	k := 0
	if len(a) > 1 {
		k = g.N(len(a) - 1)
	}
	two := len(a) > k+1
	printed := func(y Sym) string {
		switch y.K {
		case 'n':
			return "<" + y.V + ">"
		case 't':
			return "\"" + y.V + "\""
		}
		return "\"\""
	}
	switch g.N(11) {
	case 0:
		for _, r := range c.Rules { // mutate needs a grammar to speak of
			for _, a := range r.Alts {
				for _, x := range a {
					if x.K == 't' && x.V == "" {
						return false
					}
				}
				if len(a) == 0 {
					return false
				}
			}
			if len(r.Alts) == 0 {
				return false
			}
		}
		if len(alphabet(&Analysis{g: c})) == 0 {
			return false
		}
		g.mutate(c)
		return true
	case 1: // the same symbols in another order
		g.permute(c)
		return true
	case 2: // a byte moves from one literal to the next
		if !two || a[k].K != 't' || a[k+1].K != 't' || len(a[k].V) < 2 {
			return false
		}
		n := len(a[k].V) - 1
		a[k+1].V = a[k].V[n:] + a[k+1].V
		a[k].V = a[k].V[:n]
		return true
	case 3: // a literal that is called like a rule, or the other way round
		if len(a) == 0 || a[k].K == 'e' {
			return false
		}
		a[k].K = a[k].K ^ 't' ^ 'n'
		return true
	case 4: // two symbols printed like one
		if !two || a[k].K != 'n' || a[k+1].K != 'n' {
			return false
		}
		a[k].V += "> <" + a[k+1].V
		r.Alts[at] = append(a[:k+1:k+1], a[k+2:]...)
		return true
	case 5: // two literals printed like one
		if !two || a[k].K != 't' || a[k+1].K != 't' {
			return false
		}
		a[k].V += "\" \"" + a[k+1].V
		r.Alts[at] = append(a[:k+1:k+1], a[k+2:]...)
		return true
	case 6: // nothing and the empty literal
		for i, x := range r.Alts {
			if len(x) == 1 && x[0].K == 'e' {
				r.Alts[i] = seq(t(""))
				return true
			}
		}
		return false
	case 7: // two rules printed like one
		if len(c.Rules) < 2 {
			return false
		}
		i := g.N(len(c.Rules) - 1)
		head := c.Rules[i].Head + "> ::="
		for k, x := range c.Rules[i].Alts {
			if k > 0 {
				head += " |"
			}
			for _, y := range x {
				head += " " + printed(y)
			}
		}
		c.Rules[i+1].Head = head + "\n<" + c.Rules[i+1].Head
		c.Rules = append(c.Rules[:i:i], c.Rules[i+1:]...)
		return true
	case 8: // two alternatives printed like one, or one like two
		if len(r.Alts) < 2 || at+1 >= len(r.Alts) || len(a) == 0 || len(r.Alts[at+1]) == 0 {
			return false
		}
		b := r.Alts[at+1]
		if a[len(a)-1].K != 'n' || b[0].K != 'n' {
			return false
		}
		x := append([]Sym(nil), a...)
		x[len(x)-1].V += "> | <" + b[0].V
		r.Alts[at] = append(x, b[1:]...)
		r.Alts = append(r.Alts[:at+1:at+1], r.Alts[at+2:]...)
		return true
	case 9: // two literals change places
		if !two || a[k].K != 't' || a[k+1].K != 't' || a[k].V == a[k+1].V {
			return false
		}
		a[k], a[k+1] = a[k+1], a[k]
		return true
	}
	// an alternative moves to another rule
	if len(c.Rules) < 2 || len(r.Alts) < 2 {
		return false
	}
	o := &c.Rules[g.N(len(c.Rules))]
	if o == r {
		return false
	}
	r.Alts = append(r.Alts[:at:at], r.Alts[at+1:]...)
	o.Alts = append(o.Alts, a)
	return true
}

// near makes a text that is easily taken for s.
func (g gen) near(al, s string) string {
	b := []byte(s)
	if len(b) == 0 {
		return s
	}
	i, j := g.N(len(b)), g.N(len(b))
	switch g.N(5) {
	case 0: // in the middle
		b[len(b)/2] = al[g.N(len(al))]
	case 1:
		b[i] = al[g.N(len(al))]
	case 2: // the same bytes in another order
		b[i], b[j] = b[j], b[i]
	case 3: // a longer one of which it is the beginning
		b = append(b, al[g.N(len(al))])
	case 4:
		b = b[:i]
	}
	return string(b)
}

// storm is a number of repetitions: enough for small counters to run over.
func (g gen) storm() int {
	if g.p(0.02) {
		return 65600
	}
	return g.pickN(40, 130, 140, 260, 260, 300, 520, 1030)
}

// renumbered is the self grammar with its rules in another order, and the new
// number of each.
func (g gen) renumbered() (s GSpec, numbers, off []int) {
	gr := anaOf(GSpec{Kind: "self"}).g
	own := len(gr.Rules)
	ext := g.p(0.4)
	if ext {
		gr = asides(gr)
	}
	n := len(gr.Rules)
	order := make([]int, n)
	for i := range order {
		order[i] = i
	}
	if g.p(0.3) { // two change places
		i, j := 1+g.N(n-1), 1+g.N(n-1)
		order[i], order[j] = order[j], order[i]
	} else {
		for i := n - 1; i > 1; i-- {
			j := 1 + g.N(i)
			order[i], order[j] = order[j], order[i]
		}
	}
	c := &Grammar{}
	num := make([]int, n)
	bulk, bulkAt := 0, 0
	if g.p(0.2) { // many of them
		bulk, bulkAt = 30+g.N(50), 1+g.N(n-1)
		if g.p(0.1) {
			bulk = 225 + g.N(40)
		}
	}
	for k, i := range order {
		for g.p(0.03) { // a rule of the caller's that is not used
			c.Rules = append(c.Rules, Rule{fmt.Sprintf("unused%d", len(c.Rules)), alts(seq(t("u")))})
			if k == 0 {
				c.Rules = nil
				break
			}
		}
		for k == bulkAt && bulk > 0 {
			c.Rules = append(c.Rules, Rule{fmt.Sprintf("unused%d", len(c.Rules)), alts(seq(t("u")))})
			bulk--
		}
		num[i] = len(c.Rules)
		c.Rules = append(c.Rules, gr.Rules[i])
	}
	if g.p(0.3) { // neither does it what lies in between
		c = g.wrapped(c)
	}
	if g.p(0.3) { // the names of the rules do not matter
		c = anaOf(clone(specOf(c))).g
		d := &Grammar{}
		for _, r := range c.Rules {
			x := Rule{Head: "x" + r.Head}
			for _, a := range r.Alts {
				y := append([]Sym(nil), a...)
				for k := range y {
					if y[k].K == 'n' {
						y[k].V = "x" + y[k].V
					}
				}
				x.Alts = append(x.Alts, y)
			}
			d.Rules = append(d.Rules, x)
		}
		c = d
	}
	if ext {
		off = num[own : own+4]
	}
	return specOf(c), num[:own], off
}

// asides adds to the self grammar what can be written but is to be left out:
// lines after "#", terms after "#", alternatives after "!", and in front of a
// rule's name another one after "@".
func asides(gr *Grammar) *Grammar {
	ws, nothing := n("opt-whitespace"), Sym{K: 'e'}
	c := &Grammar{}
	for _, r := range gr.Rules {
		r = Rule{r.Head, append([][]Sym(nil), r.Alts...)}
		switch r.Head {
		case "line":
			r.Alts = append(r.Alts, seq(t("#"), n("off-line")))
		case "expression-tail":
			r.Alts = append(r.Alts, seq(t("!"), n("off-list"), n("expression-tail")))
		case "list-tail":
			r.Alts = append(r.Alts, seq(t("#"), n("off-term"), ws, n("list-tail")))
		case "content":
			r.Alts = alts(append(seq(n("mark")), r.Alts[0]...))
		}
		c.Rules = append(c.Rules, r)
	}
	c.Rules = append(c.Rules,
		Rule{"off-line", alts(seq(ws, n("opt-content")))},
		Rule{"off-list", alts(seq(ws, n("list")))},
		Rule{"off-term", alts(seq(ws, n("term")))},
		Rule{"alias", alts(seq(t("<"), n("rule-name"), t(">"), ws))},
		Rule{"mark", alts(seq(nothing), seq(t("@"), n("alias")))})
	return c
}

// wrapped puts rules of only one symbol around some of the references, but
// those to the texts of literals: a rule that matches nothing shows as a node
// with nothing in it, and the bindings could not find the text inside.
func (g gen) wrapped(c *Grammar) *Grammar {
	d := &Grammar{}
	share := []float64{0.05, 0.2, 1}[g.N(3)]
	var more []Rule
	for _, r := range c.Rules {
		x := Rule{Head: r.Head}
		for _, a := range r.Alts {
			y := append([]Sym(nil), a...)
			for k := range y {
				for y[k].K == 'n' && y[k].V != "text1" && y[k].V != "text2" && len(more) < 80 && g.p(share) {
					w := fmt.Sprintf("w%d", len(more))
					more = append(more, Rule{w, alts(seq(y[k]))})
					y[k].V = w
					if g.p(0.7) {
						break
					}
				}
			}
			x.Alts = append(x.Alts, y)
		}
		d.Rules = append(d.Rules, x)
	}
	d.Rules = append(d.Rules, more...)
	return d
}

// mal makes a malformed grammar value: one that table generation refuses.
func (g gen) mal() GSpec {
	if g.p(0.03) {
		return GSpec{Kind: "rules"}
	}
	var gr *Grammar
	if g.p(0.5) {
		gr = g.raw()
	} else {
		gr = g.template()
	}
	for k := 1 + g.N(3); k > 0; k-- {
		r := &gr.Rules[g.N(len(gr.Rules))]
		at := g.N(len(r.Alts))
		a := append([]Sym(nil), r.Alts[at]...)
		if len(a) > 0 && a[0].K == 'e' {
			a = a[:0]
		}
		ins := func(y Sym) {
			k := g.N(len(a) + 1)
			a = append(a[:k:k], append([]Sym{y}, a[k:]...)...)
		}
		switch g.N(8) {
		case 0:
			a = []Sym{}
		case 1:
			ins(t(""))
		case 2:
			if len(a) == 0 {
				a = seq(t("q"))
			}
			ins(nothing[0])
		case 4:
			if g.p(0.7) {
				ins(n("nowhere"))
			} else {
				if g.p(0.3) { // alone
					a = a[:0]
				}
				ins(Sym{'?', g.pick("nil", "ptr", "own", "ptre", "ptrn", "ptrnil", "own0", "own1", "own2", "emb0", "emb1", "emb2")})
			}
		case 3: // reached only after a literal
			a = append(a, t("?"), n("undefined-rule"))
		default:
			ins(n(g.pick("nox", "noy", "noz", "undefined", "R0", "s ", "")))
		}
		if g.p(0.3) {
			r.Alts = append(r.Alts, a)
		} else {
			r.Alts[at] = a
		}
	}
	if malformed(gr) == "" {
		return g.mal()
	}
	return specOf(gr)
}

// written makes a grammar that the BNF syntax can express.
func (g gen) written() GSpec {
	if g.p(0.05) {
		return GSpec{Kind: "self"}
	}
	if g.p(0.03) {
		return GSpec{Kind: "json"}
	}
	const chars = bnfSymbols + "abcxyzABZ0189\t\n\r\"'\\"
	special := "\"'\\\n\r\t|<> "
	lit := func() string {
		k := 1 + g.N(4)
		if g.p(0.04) {
			k = 1 + g.N(60)
		}
		if g.p(0.002) {
			k = g.pickN(100, 300, 1000, 3000) + g.N(40)
		}
		b := make([]byte, k)
		for i := range b {
			if g.p(0.35) {
				b[i] = special[g.N(len(special))]
			} else {
				b[i] = chars[g.N(len(chars))]
			}
		}
		return string(b)
	}
	name := func(i int) string {
		base := []string{"a", "B", "rule", "x-y", "opt-list", "Z9", "q-", "t1", "n"}[g.N(9)]
		if g.p(0.03) {
			base = strings.Repeat("long-", 1+g.N(20))
		}
		if g.p(0.003) {
			base = strings.Repeat("z", g.pickN(128, 256, 1000, 3000))
		}
		return fmt.Sprintf("%s%d", base, i)
	}
	nr := 1 + g.N(4)
	if g.p(0.05) {
		nr = 1 + g.N(20)
	}
	wide, long := 3, 3 // so many alternatives and symbols in each
	switch {
	case g.p(0.05):
		wide, long = 20, 20
	case g.p(0.015): // many of one thing
		switch k := g.pickN(70, 140, 300); g.N(3) {
		case 0:
			nr = k
		case 1:
			nr, wide = 1, k
		case 2:
			nr, long = 1, k
		}
	}
	names := make([]string, nr)
	for i := range names {
		names[i] = name(i)
	}
	if nr > 1 && g.p(0.03) { // one name twice
		names[nr-1] = names[0]
	}
	gr := &Grammar{}
	for i := range names {
		r := Rule{Head: names[i]}
		for a := g.N(wide); a >= 0; a-- {
			if g.p(0.15) {
				r.Alts = append(r.Alts, nothing)
				continue
			}
			var s []Sym
			for k := g.N(long); k >= 0; k-- {
				if g.p(0.6) {
					s = append(s, t(lit()))
				} else {
					s = append(s, n(names[g.N(nr)]))
				}
			}
			r.Alts = append(r.Alts, s)
		}
		gr.Rules = append(gr.Rules, r)
	}
	return specOf(gr)
}

// --------------------------------------------------------------------- texts

func (g gen) size() int {
	switch k := g.N(40); {
	case k < 12:
		return g.N(8)
	case k < 30:
		return g.N(60)
	case k < 37:
		return g.N(300)
	case k < 39:
		return 450 + g.N(700)
	}
	return g.N(6000)
}

// sentence of the grammar, or something close to one.
func (g gen) sentence(a *Analysis, size int) Text {
	if a.OK && a.Height[0] >= 0 {
		s, ok := a.sentence(g.Rand, size, g.p(0.2))
		if ok {
			return Text(s)
		}
	}
	return Text(g.junk(a, g.N(20)))
}

// alphabet is the set of bytes of the grammar's literals.
func alphabet(a *Analysis) string {
	var seen [256]bool
	var b []byte
	for _, r := range a.g.Rules {
		for _, al := range r.Alts {
			for _, s := range al {
				if s.K == 't' {
					for i := 0; i < len(s.V); i++ {
						if !seen[s.V[i]] {
							seen[s.V[i]] = true
							b = append(b, s.V[i])
						}
					}
				}
			}
		}
	}
	if len(b) == 0 {
		return "a"
	}
	return string(b)
}

func (g gen) junk(a *Analysis, k int) string {
	al := alphabet(a)
	b := make([]byte, k)
	for i := range b {
		b[i] = al[g.N(len(al))]
		if g.p(0.03) {
			b[i] = byte(g.N(256))
		}
	}
	return string(b)
}

func (g gen) text(a *Analysis) Text {
	if g.p(0.08) {
		return Text(g.junk(a, g.N(12)))
	}
	return g.sentence(a, g.size())
}

// marks are byte sequences that software likes to treat specially.
var marks = []string{"\xef\xbb\xbf", "\xff\xfe", "\xfe\xff", "\n", "\r\n", "\r", " ", "\t", "\n\n", "\x1a", "\x04", "\x00", "\x7f", "\xc2\xa0",
	"\xe2\x80\xa8", "\x1b[0m", "#", "//", "\\\n", "\v", "\f", "\xff", "\x85"}

// damage is what storage or transport does to n bytes.
func (g gen) damage(a *Analysis, s string) []Dmg {
	var ds []Dmg
	k := 1
	if g.p(0.2) {
		k = 2 + g.N(2)
	}
	n := len(s)
	al := alphabet(a)
	pos := func() int {
		switch g.N(6) {
		case 0:
			return 0
		case 1:
			return n
		case 2:
			return n - 1 - g.N(10)
		}
		return g.N(n + 1)
	}
	for i := 0; i < k; i++ {
		d := Dmg{A: max(pos(), 0)}
		switch g.N(14) {
		case 13: // what editors, terminals and other systems add or change
			switch g.N(10) {
			case 0:
				d.K = g.pick("crlf", "lf", "trim")
			case 1, 2, 3:
				d.K, d.A, d.V = "ins", 0, Text(marks[g.N(len(marks))])
			case 4:
				d.K, d.V = "ins", Text(marks[g.N(len(marks))])
			default:
				d.K, d.A, d.V = "ins", n, Text(marks[g.N(len(marks))])
			}
		case 0, 1:
			d.K = "trunc"
		case 2: // the tail of a page that never reached the disk
			d.K, d.B = "zero", n
		case 3:
			d.K, d.B = "zero", 1+g.N(4)
		case 4: // a file extended with zeros
			d.K, d.A, d.V = "ins", n, Text(strings.Repeat("\x00", 1+g.N(9)))
		case 5:
			d.K, d.A, d.V = "ins", n, Text("\x00"+g.junk(a, 1+g.N(5)))
		case 6:
			d.K, d.B = "flip", g.N(8)
		case 7, 8:
			d.K, d.V = "set", Text(string([]byte{al[g.N(len(al))]}))
			if g.p(0.2) {
				d.V = Text([]byte{byte(g.N(256))})
			}
		case 9:
			d.K, d.B = "drop", 1+g.N(4)
		case 10:
			d.K, d.B = "dup", 1+g.N(5)
		case 11:
			d.K, d.B = "swap", 1+g.N(4)
		case 12:
			d.K, d.V = "ins", Text(g.junk(a, 1+g.N(3)))
		}
		ds = append(ds, d)
	}
	return ds
}

// ------------------------------------------------------------------- sources

// interesting sizes of internal buffers
var edges = []int{15, 16, 17, 511, 512, 513, 1023, 1024, 4095, 4096, 4097}

type srcOpt struct {
	fault  string // "", "err", "panic", "goexit"
	reader bool
}

func (g gen) src(n int, o srcOpt) Src {
	s := Src{}
	if o.fault == "" && !o.reader {
		switch g.N(20) {
		case 0, 1:
			s.Kind = "string"
		case 2, 3:
			s.Kind = "bytes"
		case 4:
			s.Kind = "buffer"
		case 5:
			s.Kind = "bufferpart"
		case 6:
			s.Kind = "strings"
		case 7:
			s.Kind = "bytesr"
		case 8:
			s.Kind = g.pick("stringspart", "bytesrpart", "bufiopeek", "section", "limitcut", "chain", "embed", "file", "file", "seek", "seek")
		}
		s.Reuse = g.p(0.4)
		if s.Kind != "" {
			return s
		}
	}
	s.Kind = "reader"
	s.Reuse = g.p(0.3)
	switch g.N(12) {
	case 0:
		s.Kind = "bufio"
	case 1:
		s.Kind = "limit"
	case 2:
		s.Kind = "multi"
	case 3:
		s.Kind = "tee"
	case 4:
		s.Kind = "rich"
	case 5:
		s.Kind = "pipe"
	case 6:
		s.Kind = "seekrd"
	}
	end := n
	if o.fault != "" {
		switch g.N(8) {
		case 0, 1: // everything arrived, then it breaks
			end = n
		case 2:
			end = 0
		case 3:
			end = max(0, n-1-g.N(3))
		default:
			end = g.N(n + 1)
		}
	}
	// sizes of the pieces
	mode := g.N(7)
	one := 1 + g.N(20)
	at := 0
	empties := 0
	for at < end && len(s.Steps) < 400 {
		st := RStep{}
		switch mode {
		case 0:
			st.N = 1
		case 1:
			st.N = 1 + g.N(5)
		case 2:
			st.N = end
		case 3:
			st.N = one
		case 4:
			st.N = edges[g.N(len(edges))]
		case 5:
			st.N = 1 + g.N(end)
		case 6:
			st.N = max(1, end/2)
		}
		if st.N > end-at {
			st.N = end - at
		}
		if g.p(0.08) && empties < 60 {
			st.N = 0
			empties++
		}
		if g.p(0.04) {
			st.Stall = 1 + g.N(500)
			if g.p(0.1) { // seconds, minutes, hours
				st.Stall = g.pickN(1, 10, 60, 1000) * 1000003 * (1 + g.N(9))
			}
		}
		if g.p(0.05) {
			st.Spins = 1 + g.N(20)
		}
		if g.p(0.1) {
			st.Scribble = true
		}
		at += st.N
		if at >= 512 && mode != 4 && st.N < 64 {
			mode = 4
		}
		s.Steps = append(s.Steps, st)
	}
	if at < end {
		s.Steps = append(s.Steps, RStep{N: end - at})
	}
	last := &RStep{}
	if len(s.Steps) > 0 {
		last = &s.Steps[len(s.Steps)-1]
	}
	switch o.fault {
	case "":
		s.Tail = []int{0, 0, 1, 3, 100}[g.N(5)]
		if len(s.Steps) > 0 && g.p(0.35) {
			last.EOF = true
		} else if g.p(0.2) {
			for k := 0; k < 1+g.N(3); k++ {
				s.Steps = append(s.Steps, RStep{Scribble: g.p(0.3)})
			}
		}
	case "err":
		kind := errKinds[g.N(len(errKinds))]
		if len(s.Steps) > 0 && last.N > 0 && g.p(0.4) {
			last.Err = kind
		} else {
			s.Steps = append(s.Steps, RStep{Err: kind, Scribble: g.p(0.2)})
		}
	case "panic":
		s.Steps = append(s.Steps, RStep{Panic: true})
	case "goexit":
		s.Steps = append(s.Steps, RStep{Goexit: true})
	}
	return s
}

func (g gen) badSrc() Src {
	return Src{Kind: g.pick("nil", "nilbuf", "bad", "badptr", "badrunes")}
}

// ---------------------------------------------------------------- hand tables

func (g gen) hand() *HTab {
	al := []string{"ab", "abc", "a\n\r", "a\x00b", "xy\xff"}[g.N(5)]
	nr := 1 + g.N(4)
	h := &HTab{}
	for i := 0; i < nr; i++ {
		row := HRow{Name: Text(fmt.Sprintf("h%d", i))}
		used := map[int]bool{}
		for c := 0; c < 1+g.N(4); c++ {
			b := int(al[g.N(len(al))])
			if g.p(0.25) {
				b = 0
			}
			if used[b] {
				continue
			}
			used[b] = true
			var ops []SSpec
			ln := g.N(4)
			for k := 0; k < ln; k++ {
				switch {
				case k == 0 && b != 0 && g.p(0.75) || g.p(0.5):
					w := string([]byte{byte(b)})
					if k > 0 || g.p(0.2) {
						w = g.word(al, 3)
					}
					if k == 0 && b == 0 {
						w = g.word(al, 2)
					}
					if g.p(0.04) {
						w = ""
					}
					ops = append(ops, SSpec{K: "t", V: Text(w)})
				case g.p(0.12):
					ops = append(ops, SSpec{K: "n", V: "."})
				default:
					// mostly forward references, so that most tables terminate
					j := g.N(nr)
					if k == 0 && g.p(0.9) {
						j = i + 1 + g.N(2)
						if j >= nr {
							ops = append(ops, SSpec{K: "t", V: Text(g.word(al, 2))})
							continue
						}
					}
					ops = append(ops, SSpec{K: "n", V: Text(string(rune('0' + j)))})
				}
			}
			row.Cells = append(row.Cells, HCell{b, ops})
		}
		h.Rows = append(h.Rows, row)
	}
	if g.p(0.25) { // rows have numbers of the caller's own
		h.Nums = []int{0}
		far := g.p(0.5)
		for i := 1; i < nr; i++ {
			n := 1 + g.N(20)
			if far {
				n = g.pickN(63, 64, 127, 128, 255, 256, 257, 1000, 32768, 65535, 65536, 1<<20, 1<<31-1, 1<<31, 1<<32-1, 1<<32, 1<<32+1, 1<<40, 1<<62, 1<<63-1)
			}
			for k := 0; k < len(h.Nums); k++ {
				if h.Nums[k] == n {
					n, k = n%1000+1, -1
				}
			}
			h.Nums = append(h.Nums, n)
		}
	}
	if g.p(0.08) { // literals longer than usual
		n := g.pickN(2, 63, 64, 127, 128, 255, 256, 257, 300, 1000)
		if g.p(0.02) {
			n = g.pickN(32768, 65535, 65536, 70000, 300000, 1000000)
		}
		for k := 1 + g.N(3); k > 0; k-- {
			r := h.Rows[g.N(nr)]
			if c := r.Cells[g.N(len(r.Cells))]; len(c.Ops) > 0 {
				if o := &c.Ops[g.N(len(c.Ops))]; o.K == "t" && o.V != "" {
					o.Rep = n + g.N(3)
				}
			}
		}
	}
	return h
}

// moreNames are names a caller may have in his map besides those of the rows.
func (g gen) moreNames() map[int]Text {
	if g.p(0.5) { // say, the map that came with an earlier tree
		return map[int]Text{-1: "_literal", -2: "_nothing"}
	}
	m := map[int]Text{}
	for k := 1 + g.N(4); k > 0; k-- {
		m[g.pickN(-1, -2, -3, -100, 77, 1000, 1<<40)] = Text(g.pick("_literal", "_nothing", "", "more", "x y"))
	}
	return m
}

// spoil makes a table one that cannot be used, or not everywhere.
func (g gen) spoil(h *HTab) {
	for i := range h.Rows {
		h.Rows[i].Anon = g.p(0.05)
		for k := range h.Rows[i].Cells {
			c := &h.Rows[i].Cells[k]
			if g.p(0.03) {
				c.Ops = append(c.Ops, SSpec{K: "n", V: Text(g.pick("9", "8", "-", "/", ",", "."))})
			}
		}
	}
	if g.p(0.03) {
		h.Rows = nil
	}
	if g.p(0.03) {
		h.Off = 1 + g.N(3)
	}
}

// handText derives a text by running the table forwards.
func (g gen) handText(h *HTab) string {
	var sb strings.Builder
	left := 60
	var expand func(row int, depth int, force int)
	expand = func(row, depth, force int) {
		if left <= 0 || sb.Len() > 1500000 || depth > 30 || row < 0 || row >= len(h.Rows) || len(h.Rows[row].Cells) == 0 {
			return
		}
		c := h.Rows[row].Cells[g.N(len(h.Rows[row].Cells))]
		for _, o := range c.Ops {
			left--
			if o.K == "t" {
				sb.WriteString(o.lit())
			} else if o.V == "." {
				sb.WriteString(g.pick("\n", "\r\n"))
			} else {
				expand(int(o.V[0])-'0', depth+1, -1)
			}
		}
	}
	expand(0, 0, -1)
	return sb.String()
}

// --------------------------------------------------------------------- trees

func (g gen) tree(depth int) *TNode {
	x := g.tnode(depth)
	x.Pos = g.pickN(0, 0, 0, 1, 2, 3)
	x.Own = g.p(0.15)
	if g.p(0.3) { // few types
		k := 1 + g.N(3)
		var few func(y *TNode)
		few = func(y *TNode) {
			y.T = y.T&7%k + 2
			for _, c := range y.C {
				few(c)
			}
		}
		few(x)
	}
	return x
}

func (g gen) tnode(depth int) *TNode {
	x := &TNode{T: g.rng(-2, 12)}
	if g.p(0.03) {
		x.Same = 1 + g.N(6)
		return x
	}
	if depth > 0 && g.p(0.8) {
		for k := g.N(4); k > 0; k-- {
			x.C = append(x.C, g.tnode(depth-1))
		}
	}
	return x
}

// deepTree is a tree with a long path or many siblings.
func (g gen) deepTree() *TNode {
	x := g.tnode(3)
	k := []int{70, 260, 1030, 2200, 2200, 5000}[g.N(6)] + g.N(40)
	if g.p(0.4) { // any length, the short ones as often as the long ones
		k = 4 << g.N(10)
		k += g.N(k)
	}
	if g.p(0.1) {
		k = g.pickN(10010, 10010, 17000, 33000)
		if g.p(0.2) {
			k = g.pickN(65536, 70000, 140000) + g.N(40)
		}
	}
	if g.p(0.6) {
		x.Deep = k
		if g.p(0.6) {
			x.Side = 1 + g.N(3)
		}
	} else {
		x.Wide = k
	}
	if g.p(0.3) {
		x = &TNode{T: 3, C: []*TNode{g.tnode(2), x, g.tnode(2)}}
	}
	return x
}

func (x *TNode) count() int {
	n := 1 + x.Deep*(1+x.Side&1+x.Side>>1) + x.Wide
	for _, c := range x.C {
		n += c.count()
	}
	return n
}

func (d *ND) count() int {
	n := 1
	for _, c := range d.C {
		n += c.count()
	}
	return n
}

// ---------------------------------------------------------------------- JSON

func (g gen) jsonDoc() string {
	if g.p(0.01) {
		return g.jsonLong()
	}
	var sb strings.Builder
	ws := func() {
		for g.p(0.15) {
			sb.WriteString(g.pick(" ", "\n", "\r\n", "  "))
		}
	}
	str := func() {
		sb.WriteByte('"')
		for k := g.N(6); k > 0; k-- {
			switch g.N(9) {
			case 0:
				sb.WriteString(g.pick(`\"`, `\\`, `\/`, `\b`, `\f`, `\n`, `\r`, `\t`, `\u0aF`, `\u123`))
			case 1, 2:
				sb.WriteByte(jsonSymbols[g.N(len(jsonSymbols))])
			case 3:
				sb.WriteByte(byte('0' + g.N(10)))
			default:
				sb.WriteByte("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"[g.N(52)])
			}
		}
		sb.WriteByte('"')
	}
	left := 3 + g.N(40)
	var val func(depth int)
	val = func(depth int) {
		left--
		k := g.N(9)
		if left <= 0 || depth > 8 {
			k = 4 + g.N(5)
		}
		if depth == 0 && g.p(0.8) {
			k = g.N(4)
		}
		switch k {
		case 0, 1, 2:
			sb.WriteByte('{')
			ws()
			m := g.N(4)
			for i := 0; i < m; i++ {
				if i > 0 {
					sb.WriteByte(',')
					ws()
				}
				str()
				ws()
				sb.WriteByte(':')
				ws()
				val(depth + 1)
				ws()
			}
			sb.WriteByte('}')
		case 3:
			sb.WriteByte('[')
			m := g.N(4)
			for i := 0; i < m; i++ {
				if i > 0 {
					sb.WriteByte(',')
				}
				ws()
				val(depth + 1)
				ws()
			}
			sb.WriteByte(']')
		case 4, 5:
			str()
		case 6:
			sb.WriteString(g.pick("0", "-0", "7", "12", "-345", "10.5", "0.25e3", "1E+9", "-2e-7", "6e0"))
		default:
			sb.WriteString(g.pick("true", "false", "null"))
		}
	}
	ws()
	val(0)
	ws()
	return sb.String()
}

// jsonLong is a document with many members or deep nesting.
func (g gen) jsonLong() string {
	k := []int{40, 130, 300, 450}[g.N(4)] + g.N(30)
	var l []string
	switch g.N(4) {
	case 0:
		for i := 0; i < k; i++ {
			l = append(l, "1")
		}
		return "[" + strings.Join(l, ",") + ",{\"last\":[]}]"
	case 1:
		for i := 0; i < k; i++ {
			l = append(l, fmt.Sprintf("\"k%d\":%d", i, i%10))
		}
		return "{" + strings.Join(l, ",") + "}"
	case 2:
		return strings.Repeat("{\"d\":", k) + "null" + strings.Repeat("}", k)
	}
	return strings.Repeat("[", k) + "{\"in\":\"" + strings.Repeat("x", k) + "\"}" + strings.Repeat("]", k)
}

// ------------------------------------------------------------------ byte sets

func (g gen) byte() int {
	if g.p(0.5) {
		return []int{0, 1, 62, 63, 64, 65, 127, 128, 191, 192, 254, 255}[g.N(12)]
	}
	return g.N(256)
}

func (g gen) byteList(max int) Text {
	if g.p(0.12) { // all of a range, or all but a range
		from, n := g.pickN(0, 0, 1, 63, 64, 128, 192, g.N(256)), g.pickN(256, 256, 255, 254, 192, 128, 65, 64, 63, 1+g.N(256))
		var b []byte
		for i := 0; i < 256; i++ {
			if (i-from+256)%256 < n {
				b = append(b, byte(i))
			}
		}
		switch g.N(3) {
		case 0:
			for i := len(b) - 1; i > 0; i-- {
				j := g.N(i + 1)
				b[i], b[j] = b[j], b[i]
			}
		case 1:
			b = append(b, b[:g.N(len(b)+1)]...)
		}
		return Text(b)
	}
	b := make([]byte, g.N(max+1))
	for i := range b {
		b[i] = byte(g.byte())
	}
	return Text(b)
}

// setOps are operations of one task on private sets (numbers from 0) and
// shared ones (numbers below 0), which it only reads.
func (g gen) setOps(k, shared int) []SetOp {
	var l []SetOp
	own := 0
	any := func() int {
		if own == 0 || shared > 0 && g.p(0.35) {
			return -1 - g.N(shared)
		}
		return g.N(own)
	}
	for ; k > 0; k-- {
		if own == 0 {
			l = append(l, SetOp{K: "new", S: 0, V: g.byteList(6)})
			own++
			continue
		}
		o := SetOp{S: any(), O: any(), B: g.byte()}
		mine := g.N(own)
		switch g.N(14) {
		case 0:
			if own < 6 {
				own++
				mine = own - 1
			}
			o = SetOp{K: "new", S: mine, V: g.byteList(g.pickN(3, 30, 300))}
		case 1, 2, 3:
			o.K, o.S = "add", mine
		case 4, 5:
			o.K, o.S = "rm", mine
		case 6:
			o.K = "has"
		case 7:
			if own < 6 && g.p(0.5) {
				own++
				mine = own - 1
			}
			o.K, o.D = "union", mine
		case 8:
			o.K, o.D = "copy", mine
		case 9:
			o.K = "eq"
		case 10:
			o.K = g.pick("sub", "super")
		case 11:
			o.K = "len"
		case 12:
			o.K = "bytes"
		case 13:
			o.K = "str"
		}
		l = append(l, o)
	}
	return l
}

func (g gen) pickN(x ...int) int { return x[g.N(len(x))] }
