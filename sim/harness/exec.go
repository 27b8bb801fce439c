//go:build go1.22

package main

import (
	"bufio"
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"reflect"
	"runtime"
	"slices"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"unicode/utf8"

	"github.com/TooManySugar/ll1parser/pkg/bnf"
	"github.com/TooManySugar/ll1parser/pkg/bnf/fromcst"
	"github.com/TooManySugar/ll1parser/pkg/bnf/tablegen"
	"github.com/TooManySugar/ll1parser/pkg/bnf/tablegen/byteset"
	"github.com/TooManySugar/ll1parser/pkg/cst"
	"github.com/TooManySugar/ll1parser/pkg/parser"
	jsonexample "github.com/TooManySugar/ll1parser/vexamples/examples/json"
	ownexample "github.com/TooManySugar/ll1parser/vexamples/examples/parseownsyntax"
	"github.com/TooManySugar/ll1parser/vos"
	"github.com/TooManySugar/ll1parser/vsim"
)

const siteReader, siteVisitor, siteClient = 9, 10, 11

// ND is a tree as seen through the public interface.
type ND struct {
	T, P, E int
	C       []*ND
}

func (n *ND) String() string {
	var sb strings.Builder
	n.write(&sb)
	return sb.String()
}

func (n *ND) write(sb *strings.Builder) {
	fmt.Fprintf(sb, "(%d %d %d", n.T, n.P, n.E)
	for _, c := range n.C {
		sb.WriteByte(' ')
		c.write(sb)
	}
	sb.WriteByte(')')
}

func dumpTree(n cst.Node) *ND {
	d := &ND{T: n.Type(), P: n.Pos(), E: n.End()}
	for _, c := range n.Childs() {
		if c == nil {
			d.C = append(d.C, &ND{T: -999})
			continue
		}
		d.C = append(d.C, dumpTree(c))
	}
	return d
}

func dumpNames(m map[int]string) string {
	keys := make([]int, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	sort.Ints(keys)
	var sb strings.Builder
	for _, k := range keys {
		fmt.Fprintf(&sb, "%d:%q ", k, m[k])
	}
	return sb.String()
}

// deep renders any value, following pointers, without addresses.
func deep(v any) string {
	var sb strings.Builder
	deepV(&sb, reflect.ValueOf(v), 0)
	return sb.String()
}

func deepV(sb *strings.Builder, v reflect.Value, depth int) {
	if depth > 200 {
		sb.WriteString("<deep>")
		return
	}
	if !v.IsValid() {
		sb.WriteString("nil")
		return
	}
	switch v.Kind() {
	case reflect.Bool:
		fmt.Fprint(sb, v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprint(sb, v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		fmt.Fprint(sb, v.Uint())
	case reflect.String:
		fmt.Fprintf(sb, "%q", v.String())
	case reflect.Slice, reflect.Array:
		sb.WriteByte('[')
		for i := 0; i < v.Len(); i++ {
			if i > 0 {
				sb.WriteByte(' ')
			}
			deepV(sb, v.Index(i), depth+1)
		}
		sb.WriteByte(']')
	case reflect.Map:
		var items []string
		it := v.MapRange()
		for it.Next() {
			var s strings.Builder
			deepV(&s, it.Key(), depth+1)
			s.WriteByte(':')
			deepV(&s, it.Value(), depth+1)
			items = append(items, s.String())
		}
		sort.Strings(items)
		sb.WriteString("map[" + strings.Join(items, " ") + "]")
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			sb.WriteString("nil")
			return
		}
		if v.Kind() == reflect.Interface {
			sb.WriteString(v.Elem().Type().String())
		}
		deepV(sb, v.Elem(), depth+1)
	case reflect.Struct:
		sb.WriteByte('{')
		for i := 0; i < v.NumField(); i++ {
			if i > 0 {
				sb.WriteByte(' ')
			}
			deepV(sb, v.Field(i), depth+1)
		}
		sb.WriteByte('}')
	case reflect.Float32, reflect.Float64:
		fmt.Fprint(sb, v.Float())
	default:
		sb.WriteString(v.Kind().String())
	}
}

// -------------------------------------------------------------------- errors

type custErr struct{ id int }

func (e *custErr) Error() string { return fmt.Sprintf("custom source error %d", e.id) }

type tmoErr struct{ id int }

func (e *tmoErr) Error() string   { return "i/o timeout" }
func (e *tmoErr) Timeout() bool   { return true }
func (e *tmoErr) Temporary() bool { return true }

type slcErr struct{ s []string }

func (e slcErr) Error() string { return strings.Join(e.s, "") }

// eofLike has the text of io.EOF but is another error.
type eofLike struct{}

func (*eofLike) Error() string { return "EOF" }

// nilErr works on nil.
type nilErr struct{}

func (*nilErr) Error() string { return "gone" }

// isErr says it is everything it is compared with.
type isErr struct{}

func (*isErr) Error() string   { return "lost" }
func (*isErr) Is(error) bool   { return true }
func (*isErr) Timeout() bool   { return true }
func (*isErr) Temporary() bool { return true }

var errKinds = []string{"ueof", "wrapeof", "joineof", "timeout", "eintr", "eagain", "eio", "enospc", "closed", "deadline",
	"canceled", "custom", "noprogress", "pipe", "shortbuf", "uncomparable", "eoflike", "wrapcustom", "typednil", "is"}

func makeErr(kind string, id int) error {
	switch kind {
	case "ueof":
		return io.ErrUnexpectedEOF
	case "wrapeof":
		return fmt.Errorf("connection %d lost: %w", id, io.EOF)
	case "joineof":
		return errors.Join(io.EOF, &custErr{id})
	case "timeout":
		return &tmoErr{id}
	case "eintr":
		return syscall.EINTR
	case "eagain":
		return syscall.EAGAIN
	case "eio":
		return syscall.EIO
	case "enospc":
		return &os.PathError{Op: "read", Path: "x", Err: syscall.ENOSPC}
	case "closed":
		return os.ErrClosed
	case "deadline":
		return os.ErrDeadlineExceeded
	case "canceled":
		return context.Canceled
	case "noprogress":
		return io.ErrNoProgress
	case "pipe":
		return io.ErrClosedPipe
	case "shortbuf":
		return io.ErrShortBuffer
	case "uncomparable":
		return slcErr{[]string{"slice", "error"}}
	case "eoflike":
		return &eofLike{}
	case "is":
		return &isErr{}
	case "typednil":
		return (*nilErr)(nil)
	case "wrapcustom":
		return fmt.Errorf("layer: %w", &custErr{id})
	}
	return &custErr{id}
}

func isSame(err, injected error) bool {
	if _, ok := injected.(slcErr); ok {
		var s slcErr
		return errors.As(err, &s)
	}
	return errors.Is(err, injected)
}

// ------------------------------------------------------------------ outcomes

// AttOut is the outcome of one attempt of an op.
type AttOut struct {
	Kind      string // ok, err, panic, goexit, steplimit, deadlock
	held      []int64
	leak      bool
	Err       string
	Tree      *ND
	Names     string
	Gram      string // ast, reload, gen: canonical result
	Delivered string
	NilRes    bool   // both results nil
	Injected  string // error kind the source failed with
	IsInj     bool   // errors.Is(err, injected)
	PanicSame bool   // the panic value is the one the source raised
	Raised    bool   // the source raised a panic / Goexit
	LateRead  bool   // Read after Parse had returned
	TwoReads  bool   // Read while another Read was in progress
	Children  int    // goroutines left behind
	Steps     int
	SrcChg    bool // the source bytes were modified
	Begin     uint64
	End       uint64
	Visits    []string
	Out, ErrO string
	Exit      int
	Unread    bool // main: a disk error reached the program
	Nested    []*OpOut
	src       *simReader
	tree      cst.Node
	names     *map[int]string
	table     *map[int]map[byte][]parser.ParserOp
	ast       *bnf.Grammar
	binds     *fromcst.BNFCSTtoASTBindings
}

// Key is what "the same outcome" compares.
func (a *AttOut) Key() string {
	var sb strings.Builder
	sb.WriteString(a.Kind)
	sb.WriteByte('|')
	sb.WriteString(a.Err)
	sb.WriteByte('|')
	if a.Tree != nil {
		sb.WriteString(a.Tree.String())
	}
	sb.WriteByte('|')
	sb.WriteString(a.Names)
	sb.WriteByte('|')
	sb.WriteString(a.Gram)
	sb.WriteByte('|')
	sb.WriteString(strings.Join(a.Visits, " "))
	if k := sb.String(); !utf8.ValidString(k) {
		return strconv.Quote(k) // it has to survive JSON
	}
	return sb.String()
}

type OpOut struct {
	Op    *Op
	Att   []*AttOut
	Drift string // a repetition of the call that came out differently
}

func (o *OpOut) last() *AttOut {
	if len(o.Att) == 0 {
		return &AttOut{Kind: "missing"}
	}
	return o.Att[len(o.Att)-1]
}

// tctx belongs to one task.
type tctx struct {
	id    int
	outs  []*OpOut
	fired map[string]int
	reads int
	ops   int

	watched []*watched // race builds: results of this task

	// what the task uses for its sources again and again
	arena []byte
	buf   *bytes.Buffer
	strs  *strings.Reader
	byts  *bytes.Reader
	bufi  *bufio.Reader
	inUse bool
}

// world is the set of objects of one run.
type world struct {
	sc       *Scenario
	grammars []bnf.Grammar
	models   []*Grammar
	anas     []*Analysis
	tables   []*map[int]map[byte][]parser.ParserOp
	names    []map[int]string
	tabErr   []string
	parsers  []parser.LL1Parser
	trees    []cst.Node
	treeNDs  []*ND
	treeText []string
	binds    []fromcst.BNFCSTtoASTBindings
	sets     []*byteset.ByteSet
	tasks    []*tctx
	onOp     func(t *tctx, o *OpOut) // called by the task after each op
	base     map[string]*AttOut
	watched  []*watched
	found    *Violation
	stats    vsim.Stats
}

var modelCache = map[string]*Analysis{}

func (w *world) model(g GSpec) (*Grammar, *Analysis) {
	key := toJSON(g)
	if a, ok := modelCache[key]; ok {
		return a.g, a
	}
	var m *Grammar
	switch g.Kind {
	case "self":
		sg := bnf.SelfGrammar()
		m = fromBNF(&sg)
	case "json":
		var ok bool
		m, ok = readBNF(jsonBNF)
		if !ok {
			vsim.Fatal("examples/json/json.bnf is not readable BNF")
		}
	default:
		m = &Grammar{}
		for _, r := range g.Rules {
			rule := Rule{Head: string(r.Head)}
			for _, a := range r.Alts {
				alt := []Sym{}
				for _, s := range a {
					alt = append(alt, Sym{s.K[0], string(s.V)})
				}
				rule.Alts = append(rule.Alts, alt)
			}
			m.Rules = append(m.Rules, rule)
		}
	}
	a := analyse(m)
	if len(modelCache) > 5000 {
		modelCache = map[string]*Analysis{}
	}
	modelCache[key] = a
	return m, a
}

func (h *HTab) build() (map[int]map[byte][]parser.ParserOp, map[int]string) {
	t := map[int]map[byte][]parser.ParserOp{}
	n := map[int]string{}
	for i, r := range h.Rows {
		row := map[byte][]parser.ParserOp{}
		for _, c := range r.Cells {
			ops := []parser.ParserOp{}
			for _, o := range c.Ops {
				if o.K == "t" {
					ops = append(ops, parser.OpTerminal(o.lit()))
				} else {
					ops = append(ops, parser.OpNonTerminal(h.ref(o.V)))
				}
			}
			if (i+c.B)%2 == 0 { // a list of his own; the caller goes on with his
				list := parser.NewParserOpList(ops...)
				for k := range ops {
					ops[k] = parser.OpTerminal("not this one")
				}
				ops = list
			}
			row[byte(c.B)] = ops
		}
		t[h.at(i)] = row
		if !r.Anon {
			n[h.at(i)] = string(r.Name)
		}
	}
	return t, n
}

// guard runs f and classifies how it ended.
func guard(goexit bool, f func()) (kind string, pv any) {
	kind = "goexit"
	body := func() {
		defer func() {
			if kind == "ok" {
				return
			}
			r := recover()
			switch v := r.(type) {
			case nil:
			case vsim.StepLimit:
				kind = "steplimit"
			case vsim.Deadlock:
				kind = "deadlock"
			default:
				kind, pv = "panic", v
			}
		}()
		f()
		kind = "ok"
	}
	if !goexit {
		body()
		return
	}
	done := make(chan struct{})
	old := vsim.Adopt(^uint64(0)) // no goroutine: the one below registers itself
	go func() {
		defer close(done)
		vsim.Adopt(0)
		body()
	}()
	<-done
	vsim.Adopt(old)
	return
}

func panicText(pv any) string {
	if pv == nil {
		return ""
	}
	if e, ok := pv.(runtime.Error); ok {
		return "runtime: " + e.Error()
	}
	return fmt.Sprint(pv)
}

func newWorld(sc *Scenario) *world {
	w := &world{sc: sc}
	for _, g := range sc.Grammars {
		m, a := w.model(g)
		w.models = append(w.models, m)
		w.anas = append(w.anas, a)
	}
	return w
}

// setup builds the shared objects in a simulated run of one task.
func (w *world) setup() {
	sc := w.sc
	vsim.Run(vsim.Policy{Kind: "seq"}, vsim.Mix(sc.Seed, 77), []func(){func() {
		for i, g := range sc.Grammars {
			if g.Kind == "self" {
				w.grammars = append(w.grammars, bnf.SelfGrammar())
			} else {
				w.grammars = append(w.grammars, w.models[i].toBNF())
			}
		}
		for _, t := range sc.Tables {
			var tab *map[int]map[byte][]parser.ParserOp
			var names map[int]string
			msg := ""
			if t.Hand != nil {
				ht, hn := t.Hand.build()
				tab, names = &ht, hn
				if t.NilNames {
					names = nil
				}
			} else {
				vsim.SetBudget(w.genBudget(t.G))
				kind, pv := guard(false, func() {
					tb, nm, err := tablegen.FromGrammar(w.grammars[t.G])
					if err != nil {
						msg = "error: " + err.Error()
						return
					}
					if tb == nil || nm == nil {
						msg = "nil result without error"
						return
					}
					tab, names = tb, *nm
				})
				if kind != "ok" {
					msg = kind + ": " + panicText(pv)
				}
			}
			if tab == nil && msg == "" {
				msg = "no table"
			}
			if len(t.Names) > 0 && tab != nil {
				all := map[int]string{}
				for k, v := range names {
					all[k] = v
				}
				for k, v := range t.Names {
					if _, ok := all[k]; !ok {
						all[k] = string(v)
					}
				}
				names = all
			}
			w.tables = append(w.tables, tab)
			w.names = append(w.names, names)
			w.tabErr = append(w.tabErr, msg)
		}
		for _, p := range sc.Parsers {
			if w.tables[p.Tab] == nil {
				w.parsers = append(w.parsers, nil)
				continue
			}
			w.parsers = append(w.parsers, parser.NewLL1Parser(*w.tables[p.Tab], w.names[p.Tab]))
		}
		for _, t := range sc.Trees {
			var n cst.Node
			if t.Build != nil {
				vsim.SetBudget(vsim.DefaultLimit + 100*t.Build.count())
				n = t.Build.node()
			} else if w.parsers[t.P] != nil {
				vsim.SetBudget(w.budget(t.P, len(t.Text)))
				guard(false, func() {
					x, _, err := w.parsers[t.P].Parse(string(t.Text))
					if err == nil {
						n = x
					}
				})
			}
			w.trees = append(w.trees, n)
			if n != nil {
				vsim.Atomic(func() { w.treeNDs = append(w.treeNDs, dumpTree(n)) })
			} else {
				w.treeNDs = append(w.treeNDs, nil)
			}
			w.treeText = append(w.treeText, string(t.Text))
		}
		for _, v := range sc.Sets {
			x := byteset.New([]byte(v)...)
			w.sets = append(w.sets, &x)
		}
		for _, b := range sc.Binds {
			w.binds = append(w.binds, b.build())
		}
	}})
}

func (b BSpec) build() fromcst.BNFCSTtoASTBindings {
	x := fromcst.SelfCSTtoASTBindings()
	if b.Ignore != nil {
		// room behind the list, in which nobody else may write
		x.IgnoreNodeTypes = append(make([]int, 0, len(b.Ignore)+3), b.Ignore...)
	}
	if b.Num != nil {
		at := func(i *int) { *i = b.Num[*i] }
		at(&x.RuleType)
		at(&x.RuleHeadType)
		at(&x.RuleTailType)
		at(&x.ExpressionSequencesType)
		at(&x.SequencesSymbolType)
		at(&x.SymbolNonTerminalType)
		at(&x.EscapeSequenceType)
		at(&x.EscapeCharacterType)
		for i := range x.SymbolTerminalTypes {
			at(&x.SymbolTerminalTypes[i])
		}
		for i := range x.IgnoreNodeTypes {
			if y := x.IgnoreNodeTypes[i]; y >= 0 && y < len(b.Num) {
				at(&x.IgnoreNodeTypes[i])
			}
		}
	}
	if b.Off != nil {
		x.IgnoreNodeTypes = slices.Insert(x.IgnoreNodeTypes, len(x.IgnoreNodeTypes)/2, b.Off...)
	}
	if b.Terms != nil {
		var l []int
		for _, y := range b.Terms {
			if y == 0 || y == 1 {
				y = x.SymbolTerminalTypes[y]
			}
			l = append(l, y)
		}
		x.SymbolTerminalTypes = l
	}
	for k, v := range b.Esc {
		x.EscapeMapping[k] = string(v)
	}
	for _, d := range b.Drop {
		delete(x.EscapeMapping, d)
	}
	if b.NoEsc {
		x.EscapeSequenceType = 0
	}
	const nowhere = 77777
	switch b.Bad {
	case "head":
		x.RuleHeadType = nowhere
	case "tail":
		x.RuleTailType = nowhere
	case "sym":
		x.SymbolNonTerminalType = nowhere
	case "esc":
		x.EscapeCharacterType = nowhere
	case "trm":
		x.SymbolTerminalTypes = []int{nowhere, -nowhere}[:len(x.SymbolTerminalTypes)%3]
	}
	return x
}

// ownNode is a node type of the caller's.
type ownNode struct {
	t, p, e int
	kids    []cst.Node
}

func (n *ownNode) Type() int { return n.t }
func (n *ownNode) Pos() int  { return n.p }
func (n *ownNode) End() int  { return n.e }
func (n *ownNode) Childs() []cst.Node {
	vsim.Y(siteVisitor)
	return append([]cst.Node(nil), n.kids...)
}

// node builds the tree; unless Pos says otherwise every node has a position
// of its own.
func (t *TNode) node() cst.Node {
	id := 0
	root := t
	var made []cst.Node
	mk := func(t, id int, kids []cst.Node) cst.Node {
		p, e := id, id+1
		switch root.Pos {
		case 1:
			p, e = 0, 1
		case 2:
			p, e = 0, id/3
		case 3:
			p, e = id%3, id%3
		}
		var n cst.Node
		if root.Own {
			n = &ownNode{t, p, e, kids}
		} else {
			n = cst.NewNode(t, p, e, kids)
		}
		made = append(made, n)
		return n
	}
	var build func(t *TNode) cst.Node
	build = func(t *TNode) cst.Node {
		if t.Same > 0 && len(made) > 0 {
			return made[(t.Same-1)%len(made)]
		}
		id++
		me := id
		var kids []cst.Node
		for _, c := range t.C {
			kids = append(kids, build(c))
		}
		for k := 0; k < t.Wide; k++ {
			id++
			kids = append(kids, mk(k%11-2, id, nil))
		}
		x := mk(t.T, me, kids)
		for k := 0; k < t.Deep; k++ {
			id++
			me, kids := id, []cst.Node{x}
			if t.Side&1 != 0 {
				id++
				kids = append(kids, mk(k%7, id, nil))
			}
			if t.Side&2 != 0 {
				id++
				kids = append([]cst.Node{mk(k%5, id, nil)}, kids...)
			}
			x = mk(k%13-2, me, kids)
		}
		return x
	}
	return build(t)
}

// run executes the tasks under the scenario's policy.
func (w *world) run() vsim.Stats {
	var bodies []func()
	for i, ops := range w.sc.Tasks {
		t := &tctx{id: i, fired: map[string]int{}}
		w.tasks = append(w.tasks, t)
		ops := ops
		bodies = append(bodies, func() {
			for k := range ops {
				vsim.Y(siteClient)
				o := w.do(t, &ops[k])
				t.outs = append(t.outs, o)
				t.ops++
				if w.onOp != nil {
					vsim.Atomic(func() { w.onOp(t, o) })
				}
			}
		})
	}
	st := vsim.Run(w.sc.Pol, vsim.Mix(w.sc.Seed, 78), bodies)
	for i, t := range w.tasks { // blocked outside the simulator
		if k := len(t.outs); k < len(w.sc.Tasks[i]) && st.Leaked > 0 {
			t.outs = append(t.outs, &OpOut{Op: &w.sc.Tasks[i][k], Att: []*AttOut{{Kind: "deadlock"}}})
		}
	}
	return st
}

func hasGoexit(op *Op) bool {
	for _, a := range op.Att {
		for _, s := range a.Steps {
			if s.Goexit {
				return true
			}
		}
	}
	return op.V != nil && op.V.Goexit > 0
}

func (w *world) do(t *tctx, op *Op) *OpOut {
	o := w.once(t, op)
	if op.Rep == 0 {
		return o
	}
	t.fired["storm"]++
	keys := make([]string, len(o.Att))
	for i, a := range o.Att {
		keys[i] = a.Key()
	}
	for k := 1; k <= op.Rep; k++ {
		x := w.once(t, op)
		if len(x.Att) != len(o.Att) {
			o.Drift = fmt.Sprintf("the call made %d attempts, repeated for the %d. time it made %d", len(o.Att), k, len(x.Att))
			return o
		}
		for i, a := range x.Att {
			if a.Key() != keys[i] {
				o.Drift = fmt.Sprintf("the call gave %s, repeated for the %d. time it gave %s", o.Att[i].brief(), k, a.brief())
				return o
			}
		}
	}
	return o
}

// once performs an operation. Afterwards one that it is part of has as many
// steps left as before.
func (w *world) once(t *tctx, op *Op) *OpOut {
	rest := vsim.Budget()
	o := w.perform(t, op)
	vsim.SetBudget(max(rest, vsim.DefaultLimit))
	return o
}

func (w *world) perform(t *tctx, op *Op) *OpOut {
	switch op.K {
	case "parse":
		return w.doParse(t, op)
	case "gen":
		return w.doGen(t, op)
	case "ast":
		return w.doAST(t, op)
	case "reload":
		return w.doReload(t, op)
	case "walk":
		return w.doWalk(t, op)
	case "main":
		return w.doMain(t, op)
	case "set":
		return w.doSet(t, op)
	case "self", "binds":
		return w.doSelf(t, op)
	case "own":
		return w.doOwn(t, op)
	case "hold":
		return w.doHold(t, op)
	}
	vsim.Fatal("unknown op", op.K)
	return nil
}

// budget is the number of steps Parse may take: generous, but a function of
// the amount of text and the size of the grammar only.
func (w *world) budget(p int, n int) int {
	size, lits := 20, 0
	ts := w.sc.Tables[w.sc.Parsers[p].Tab]
	if ts.Hand == nil {
		size = 0
		for _, r := range w.models[ts.G].Rules {
			size += 1
			long := 0
			for _, a := range r.Alts {
				if len(a) > long {
					long = len(a)
				}
				for _, y := range a {
					lits += len(y.V)
				}
			}
			size += long
		}
	} else {
		for _, r := range ts.Hand.Rows {
			for _, c := range r.Cells {
				for _, o := range c.Ops {
					lits += o.Rep * len(o.V)
				}
			}
		}
	}
	return 50000 + 300*(n+2)*(size+2) + 100*lits
}

// budgetFor is budget, or less for a hand-written table that is endless on the
// text, and would take memory all along.
func (w *world) budgetFor(p int, data string) int {
	b := w.budget(p, len(data))
	if few := 3_000_000 + 60*len(data); b > few {
		if h := w.sc.Tables[w.sc.Parsers[p].Tab].Hand; h != nil {
			if _, ended := runTable(h, data); !ended {
				return few
			}
		}
	}
	return b
}

// genBudget is the number of steps table generation may take.
func (w *world) genBudget(gi int) int {
	r := len(w.models[gi].Rules)
	return vsim.DefaultLimit + 200*r*r + 20*r*r*r
}

// astBudget is the number of steps a conversion may take.
func astBudget(n int) int { return vsim.DefaultLimit + 3000*n }

// ---------------------------------------------------------------- the source

type simReader struct {
	w         *world
	t         *tctx
	data      string
	off       int
	steps     []RStep
	i         int
	tail      int
	inRead    bool
	closed    bool
	late      bool
	two       bool
	injected  error
	injKind   string
	raised    bool
	panicVal  *srcPanic
	delivered int
	nested    []*OpOut
	eof       bool
	readsEOF  int
	begun     int
}

type srcPanic struct{ id int }

func (p *srcPanic) String() string { return "source panicked" }

func (r *simReader) Read(p []byte) (n int, err error) {
	vsim.Y(siteReader)
	if r.closed {
		r.late = true
		return 0, io.EOF
	}
	if r.inRead {
		r.two = true
	}
	r.inRead = true
	defer func() { r.inRead = false }()
	r.begun++
	r.t.reads++
	var st RStep
	if r.i < len(r.steps) {
		st = r.steps[r.i]
		r.i++
	} else {
		st.N = len(p)
		if r.tail > 0 {
			st.N = r.tail
		}
	}
	for k := 0; k < st.Spins; k++ {
		vsim.Y(siteReader)
	}
	if st.Stall > 0 {
		r.t.fired["stall"]++
		vsim.Sleep(uint64(st.Stall))
	}
	if st.Nested != nil {
		r.t.fired["reentrant_call"]++
		r.inRead = false
		o := r.w.do(r.t, st.Nested)
		r.inRead = true
		r.nested = append(r.nested, o)
	}
	if st.Panic {
		r.t.fired["source_panic"]++
		r.raised = true
		r.panicVal = &srcPanic{r.i}
		panic(r.panicVal)
	}
	if st.Goexit {
		r.t.fired["source_goexit"]++
		r.raised = true
		runtime.Goexit()
	}
	rest := len(r.data) - r.off
	n = st.N
	if n > len(p) {
		n = len(p)
	}
	if n > rest {
		n = rest
	}
	copy(p, r.data[r.off:r.off+n])
	if n < rest && n < len(p) && st.Err == "" {
		if n == 0 {
			r.t.fired["empty_read"]++
		} else {
			r.t.fired["short_read"]++
		}
	}
	r.off += n
	r.delivered = r.off
	if st.Scribble && n < len(p) {
		for k := n; k < len(p); k++ {
			p[k] = "\x00}\"><Za "[k%8]
		}
		r.t.fired["scratch_use"]++
	}
	if st.Err != "" {
		r.injKind = st.Err
		r.injected = makeErr(st.Err, r.i)
		if n > 0 {
			r.t.fired["read_error_with_data"]++
		} else {
			r.t.fired["read_error"]++
		}
		if r.off == len(r.data) {
			r.t.fired["read_error_after_last_byte"]++
		}
		return n, r.injected
	}
	if r.off == len(r.data) && (n == 0 && (st.N > 0 || r.i >= len(r.steps)) || st.EOF) {
		if n > 0 {
			r.t.fired["eof_with_data"]++
		}
		r.eof = true
		return n, io.EOF
	}
	return n, nil
}

// richReader is a reader that can do more than Read, as files, connections
// and buffers can.
type richReader struct {
	r     *simReader
	pend  error // came along with the byte ReadByte returned
	other bool  // closed, which is the caller's business
}

func (x *richReader) Read(p []byte) (int, error) {
	if e := x.pend; e != nil {
		x.pend = nil
		return 0, e
	}
	return x.r.Read(p)
}

// Len is the number of bytes that are there without waiting.
func (x *richReader) Len() int {
	n := 0
	for _, s := range x.r.steps[x.r.i:] {
		if n = s.N; n > 0 {
			break
		}
	}
	return min(n, len(x.r.data)-x.r.off)
}

func (x *richReader) Buffered() int { return x.Len() }

func (x *richReader) ReadByte() (byte, error) {
	var b [1]byte
	for k := 0; k < 1000; k++ {
		n, err := x.Read(b[:])
		if n == 1 {
			x.pend = err
			return b[0], nil
		}
		if err != nil {
			return 0, err
		}
	}
	return 0, io.ErrNoProgress
}

func (x *richReader) WriteTo(w io.Writer) (int64, error) {
	var sum int64
	b := make([]byte, 700)
	for {
		n, err := x.Read(b)
		if n > 0 {
			m, werr := w.Write(b[:n])
			sum += int64(m)
			if werr != nil {
				return sum, werr
			}
		}
		if err == io.EOF {
			return sum, nil
		}
		if err != nil {
			return sum, err
		}
	}
}

func (x *richReader) Seek(int64, int) (int64, error) { return 0, syscall.ESPIPE }

func (x *richReader) Close() error {
	x.other = true
	return nil
}

func (x *richReader) String() string { return "<a stream>" }

// seekSrc is a source that can be positioned, written to and closed.
type seekSrc struct {
	*strings.Reader
	left    int // after the last read
	touched bool
}

func (x *seekSrc) Read(p []byte) (int, error) {
	n, err := x.Reader.Read(p)
	x.left = x.Len()
	return n, err
}

func (x *seekSrc) Write(p []byte) (int, error) {
	x.touched = true
	return len(p), nil
}

func (x *seekSrc) Truncate(int64) error {
	x.touched = true
	return nil
}

func (x *seekSrc) Close() error {
	x.touched = true
	return nil
}

// seekReader is one whose deliveries and failures are the simulator's.
type seekReader struct {
	r       *simReader
	pos     int64 // where the next read would begin
	touched bool
}

func (x *seekReader) Read(p []byte) (int, error) {
	if x.pos != int64(x.r.off) {
		x.touched = true
	}
	n, err := x.r.Read(p)
	x.pos = int64(x.r.off)
	return n, err
}

func (x *seekReader) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case io.SeekCurrent:
		off += x.pos
	case io.SeekEnd:
		off += int64(len(x.r.data))
	}
	if off < 0 {
		return 0, syscall.EINVAL
	}
	x.pos = off
	return off, nil
}

func (x *seekReader) Write(p []byte) (int, error) {
	x.touched = true
	return len(p), nil
}

func (x *seekReader) Close() error {
	x.touched = true
	return nil
}

// makeSource builds the value handed to Parse. check tells afterwards whether
// the caller's bytes were modified.
func (w *world) makeSource(t *tctx, s *Src, data string) (src any, rd *simReader, check func() bool) {
	check = func() bool { return false }
	mk := func() *simReader {
		return &simReader{w: w, t: t, data: data, steps: s.Steps, tail: s.Tail}
	}
	if s.Reuse && !t.inUse {
		t.inUse = true
		switch s.Kind {
		case "bytes":
			if cap(t.arena) < len(data)+16 {
				t.arena = make([]byte, 2*len(data)+256)
			}
			full := t.arena[:len(data)+16]
			copy(full, data)
			for i := len(data); i < len(full); i++ {
				full[i] = 0xA5
			}
			want := string(full)
			return full[:len(data)], nil, func() bool { return string(full) != want }
		case "buffer":
			if t.buf == nil {
				t.buf = &bytes.Buffer{}
			}
			b := t.buf
			b.Reset()
			b.WriteString(data)
			return b, nil, func() bool { return b.String() != data }
		case "strings":
			if t.strs == nil {
				t.strs = strings.NewReader("")
			}
			t.strs.Reset(data)
			return t.strs, nil, check
		case "bytesr":
			if t.byts == nil {
				t.byts = bytes.NewReader(nil)
			}
			if cap(t.arena) < len(data) {
				t.arena = make([]byte, 2*len(data)+256)
			}
			b := t.arena[:len(data)]
			copy(b, data)
			t.byts.Reset(b)
			return t.byts, nil, check
		case "bufio":
			if t.bufi == nil {
				t.bufi = bufio.NewReaderSize(strings.NewReader(""), 16)
			}
			rd = mk()
			t.bufi.Reset(rd)
			return t.bufi, rd, check
		}
	}
	switch s.Kind {
	case "string":
		src = data
	case "bytes":
		b := make([]byte, len(data), len(data)+16)
		copy(b, data)
		full := b[:cap(b)]
		for i := len(data); i < len(full); i++ {
			full[i] = 0xA5
		}
		want := string(full)
		src = b
		check = func() bool { return string(full) != want }
	case "buffer":
		b := bytes.NewBufferString(data)
		src = b
		check = func() bool { return b.String() != data }
	case "bufferpart":
		b := bytes.NewBufferString("consumed" + data)
		b.Next(len("consumed"))
		src = b
		check = func() bool { return b.String() != data }
	case "reader":
		rd = mk()
		src = rd
	case "rich":
		rd = mk()
		x := &richReader{r: rd}
		src = x
		check = func() bool { return x.other }
	case "seekrd":
		rd = mk()
		x := &seekReader{r: rd}
		src = x
		check = func() bool { return x.touched || x.pos != int64(rd.off) }
	case "bufio":
		rd = mk()
		src = bufio.NewReaderSize(rd, 16)
	case "limit":
		rd = mk()
		src = io.LimitReader(rd, 1<<40)
	case "multi":
		rd = mk()
		src = io.MultiReader(strings.NewReader(""), rd)
	case "tee":
		rd = mk()
		src = io.TeeReader(rd, io.Discard)
	case "strings":
		src = strings.NewReader(data)
	case "bytesr":
		src = bytes.NewReader([]byte(data))
	case "stringspart": // something was read from it before
		x := strings.NewReader("consumed" + data)
		x.Seek(8, io.SeekStart)
		src = x
	case "bytesrpart":
		x := bytes.NewReader([]byte("consumed" + data))
		io.CopyN(io.Discard, x, 8)
		src = x
	case "bufiopeek": // and part of it lies in the buffer
		x := bufio.NewReaderSize(strings.NewReader("#"+data), 64)
		x.Peek(5)
		x.Discard(1)
		src = x
	case "section": // of something longer
		src = io.NewSectionReader(strings.NewReader("before"+data+"after"), 6, int64(len(data)))
	case "limitcut":
		src = io.LimitReader(strings.NewReader(data+data+"after"), int64(len(data)))
	case "chain":
		k := len(data) / 3
		src = io.MultiReader(strings.NewReader(data[:k]), bytes.NewReader(nil), bytes.NewBufferString(data[k:2*k]), strings.NewReader(data[2*k:]))
	case "seek":
		x := &seekSrc{Reader: strings.NewReader("consumed" + data)}
		x.Reader.Seek(8, io.SeekStart)
		src = x
		x.left = x.Len()
		check = func() bool { return x.touched || x.Len() > x.left }
	case "file": // open and partly read; meanwhile another one may have its name
		src = vos.NewFile("dir/text", &vos.FileState{Data: []byte("consumed" + data)}, 8)
	case "pipe":
		rd = mk()
		src = vos.NewPipe("/dev/stdin", rd)
	case "embed":
		src = struct{ *bytes.Buffer }{bytes.NewBufferString(data)}
	case "nil":
		src = nil
	case "nilbuf":
		src = (*bytes.Buffer)(nil)
	case "bad":
		src = 42
	case "badptr":
		src = &data
	case "badrunes":
		src = []rune(data)
	default:
		vsim.Fatal("unknown source kind", s.Kind)
	}
	return
}

func unsupported(kind string) bool {
	switch kind {
	case "nil", "nilbuf", "bad", "badptr", "badrunes":
		return true
	}
	return false
}

// parseAttempt makes one call of Parse.
func (w *world) parseAttempt(t *tctx, p parser.LL1Parser, budget int, op *Op, s *Src, data string) *AttOut {
	a := &AttOut{}
	busy := t.inUse
	src, rd, changed := w.makeSource(t, s, data)
	mine := s.Reuse && t.inUse && !busy
	saved := vsim.SetBudget(budget)
	kids := vsim.LiveChildren()
	a.Begin = vsim.Seq()
	kind, pv := guard(hasGoexit(op), func() {
		tree, names, err := p.Parse(src)
		a.tree, a.names = tree, names
		a.NilRes = tree == nil && names == nil
		if err != nil {
			a.Kind = "err"
			a.Err = err.Error()
			if rd != nil && rd.injected != nil {
				a.IsInj = isSame(err, rd.injected)
			}
		}
	})
	if rd != nil {
		rd.closed = true
	}
	a.End = vsim.Seq()
	a.Steps = vsim.Steps() - saved
	vsim.SetBudget(vsim.DefaultLimit)
	// whatever still runs may end, or touch the source, which is reported
	a.Children = vsim.WaitKids(kids, 200000)
	if kind != "ok" {
		a.Kind = kind
		a.Err = panicText(pv)
		a.tree, a.names = nil, nil
	} else if a.Kind == "" {
		a.Kind = "ok"
	}
	if rd != nil {
		a.src = rd
		a.Delivered = rd.data[:rd.delivered]
		a.Injected = rd.injKind
		a.Raised = rd.raised
		a.LateRead = rd.late
		a.TwoReads = rd.two
		a.Nested = rd.nested
		if rd.panicVal != nil {
			a.PanicSame = pv == any(rd.panicVal)
		}
	} else if !unsupported(s.Kind) {
		a.Delivered = data
	}
	if kind == "ok" && a.Kind == "ok" {
		vsim.Atomic(func() {
			if a.tree != nil {
				a.Tree = dumpTree(a.tree)
			}
			if a.names != nil {
				a.Names = dumpNames(*a.names)
			} else {
				a.Names = "nil"
			}
		})
	}
	a.SrcChg = changed()
	if mine {
		t.inUse = false
		t.fired["source_memory_reused"]++
	}
	return a
}

// edited is a parser on the parser's table, which stands where that of another
// parser stood before.
func (w *world) edited(op *Op, data string) parser.LL1Parser {
	i, j := w.sc.Parsers[op.P].Tab, w.sc.Parsers[op.Ed-1].Tab
	tab, names := copyTable(*w.tables[j]), copyNames(w.names[j])
	vsim.SetBudget(vsim.DefaultLimit)
	guard(false, func() { parser.NewLL1Parser(tab, names).Parse(data) })
	vsim.SetBudget(vsim.DefaultLimit)
	now, called := copyTable(*w.tables[i]), copyNames(w.names[i])
	for k, row := range tab {
		if _, ok := now[k]; !ok {
			delete(tab, k)
			continue
		}
		for b, ops := range row {
			if x, ok := now[k][b]; ok {
				row[b] = append(ops[:0], x...)
			} else {
				delete(row, b)
			}
		}
		for b, x := range now[k] {
			if _, ok := row[b]; !ok {
				row[b] = x
			}
		}
		delete(now, k)
	}
	for k, row := range now {
		tab[k] = row
	}
	if names == nil || called == nil {
		names = called
	} else {
		for k := range names {
			delete(names, k)
		}
		for k, v := range called {
			names[k] = v
		}
	}
	return parser.NewLL1Parser(tab, names)
}

func copyTable(t map[int]map[byte][]parser.ParserOp) map[int]map[byte][]parser.ParserOp {
	c := map[int]map[byte][]parser.ParserOp{}
	for k, row := range t {
		r := map[byte][]parser.ParserOp{}
		for b, ops := range row {
			r[b] = append([]parser.ParserOp{}, ops...)
		}
		c[k] = r
	}
	return c
}

func copyNames(n map[int]string) map[int]string {
	if n == nil {
		return nil
	}
	c := map[int]string{}
	for k, v := range n {
		c[k] = v
	}
	return c
}

// own copies a tree into nodes of the caller's own type.
func own(n cst.Node) cst.Node {
	if n == nil {
		return nil
	}
	x := &ownNode{t: n.Type(), p: n.Pos(), e: n.End()}
	for _, c := range n.Childs() {
		x.kids = append(x.kids, own(c))
	}
	return x
}

func (w *world) doParse(t *tctx, op *Op) *OpOut {
	o := &OpOut{Op: op}
	data := damaged(op.Text, op.Dmg)
	if len(op.Dmg) > 0 && data != string(op.Text) {
		for _, d := range op.Dmg {
			t.fired["damage_"+d.K]++
		}
	}
	p := w.parsers[op.P]
	if p == nil {
		return o
	}
	if op.Ed > 0 && w.parsers[op.Ed-1] != nil {
		p = w.edited(op, data)
		t.fired["value_edited_in_place"]++
	}
	for i := range op.Att {
		a := w.parseAttempt(t, p, w.budgetFor(op.P, data), op, &op.Att[i], data)
		o.Att = append(o.Att, a)
		if a.Injected == "" && !a.Raised && !unsupported(op.Att[i].Kind) {
			break
		}
		if i+1 < len(op.Att) {
			t.fired["retry"]++
		}
	}
	return o
}

func dumpTable(tab *map[int]map[byte][]parser.ParserOp, names *map[int]string) string {
	if tab == nil || names == nil {
		return "nil"
	}
	return deep(*tab) + " / " + dumpNames(*names)
}

func (w *world) doGen(t *tctx, op *Op) *OpOut {
	o := &OpOut{Op: op}
	a := &AttOut{}
	o.Att = append(o.Att, a)
	vsim.SetBudget(w.genBudget(op.G))
	kids := vsim.LiveChildren()
	a.Begin = vsim.Seq()
	gr := w.grammars[op.G]
	if op.Ed > 0 {
		x := w.models[op.Ed-1].toBNF()
		guard(false, func() { tablegen.FromGrammar(x) })
		overlay(&x, gr)
		gr = x
		t.fired["value_edited_in_place"]++
		vsim.SetBudget(w.genBudget(op.G))
	}
	kind, pv := guard(false, func() {
		tab, names, err := tablegen.FromGrammar(gr)
		if err != nil {
			a.Kind, a.Err = "err", err.Error()
			a.NilRes = tab == nil && names == nil
			return
		}
		a.table, a.names = tab, names
		a.Kind = "ok"
		vsim.Atomic(func() { a.Gram = dumpTable(tab, names) })
	})
	if kind != "ok" {
		a.Kind, a.Err = kind, panicText(pv)
	}
	a.End = vsim.Seq()
	a.Children = vsim.LiveChildren() - kids
	if a.Kind == "ok" && op.N > 0 && a.table != nil && a.names != nil {
		p := parser.NewLL1Parser(*a.table, *a.names)
		for i := range op.Att {
			data := damaged(op.Text, op.Dmg)
			b := w.parseAttempt(t, p, vsim.DefaultLimit, op, &op.Att[i], data)
			o.Att = append(o.Att, b)
		}
	}
	return o
}

// overlay makes the caller's grammar value g one like h, in g's memory as far
// as there is room.
func overlay(g *bnf.Grammar, h bnf.Grammar) {
	g.Rules = g.Rules[:min(len(h.Rules), cap(g.Rules))]
	for len(g.Rules) < len(h.Rules) {
		g.Rules = append(g.Rules, bnf.Rule{})
	}
	for i, r := range h.Rules {
		x := &g.Rules[i]
		x.Head = r.Head
		seqs := x.Tail.Sequences[:min(len(r.Tail.Sequences), cap(x.Tail.Sequences))]
		for len(seqs) < len(r.Tail.Sequences) {
			seqs = append(seqs, bnf.Sequence{})
		}
		for k, s := range r.Tail.Sequences {
			seqs[k].Symbols = append(seqs[k].Symbols[:0], s.Symbols...)
		}
		x.Tail.Sequences = seqs
	}
}

// rebind makes the bindings b those of c, in b's memory.
func rebind(b, c fromcst.BNFCSTtoASTBindings) fromcst.BNFCSTtoASTBindings {
	m := b.EscapeMapping
	for k := range m {
		delete(m, k)
	}
	for k, v := range c.EscapeMapping {
		m[k] = v
	}
	ign := append(b.IgnoreNodeTypes[:0], c.IgnoreNodeTypes...)
	sym := append(b.SymbolTerminalTypes[:0], c.SymbolTerminalTypes...)
	b = c
	b.EscapeMapping, b.IgnoreNodeTypes, b.SymbolTerminalTypes = m, ign, sym
	return b
}

// astText is the text a conversion is given along with the tree.
func (w *world) astText(op *Op) string {
	if op.N == 1 { // another one that the tree fits as well
		return alike.Replace(w.treeText[op.T])
	}
	return w.treeText[op.T]
}

func (w *world) doAST(t *tctx, op *Op) *OpOut {
	o := &OpOut{Op: op}
	a := &AttOut{}
	o.Att = append(o.Att, a)
	if w.trees[op.T] == nil {
		a.Kind = "skip"
		return o
	}
	text := w.astText(op)
	b := w.binds[op.B]
	if op.Ed > 0 {
		x := w.sc.Binds[op.Ed-1].build()
		vsim.SetBudget(astBudget(len(text)))
		guard(false, func() { x.ToAST(w.trees[op.T], text) })
		b = rebind(x, w.sc.Binds[op.B].build())
		t.fired["value_edited_in_place"]++
	}
	tree := w.trees[op.T]
	if op.Own {
		vsim.Atomic(func() { tree = own(tree) })
		t.fired["tree_of_other_nodes"]++
	}
	vsim.SetBudget(astBudget(len(text)))
	kids := vsim.LiveChildren()
	a.Begin = vsim.Seq()
	kind, pv := guard(false, func() {
		g, err := b.ToAST(tree, text)
		if err != nil {
			a.Kind, a.Err = "err", err.Error()
			a.NilRes = g == nil
			return
		}
		a.Kind = "ok"
		a.ast = g
		vsim.Atomic(func() { a.Gram = dumpAST(g) })
	})
	if kind != "ok" {
		a.Kind, a.Err = kind, panicText(pv)
	}
	a.End = vsim.Seq()
	a.Children = vsim.LiveChildren() - kids
	return o
}

func dumpAST(g *bnf.Grammar) string {
	if g == nil {
		return "nil"
	}
	return fromBNF(g).Dump()
}

// doReload prints grammar G, sends the text through the source and rebuilds
// the grammar with parser P and bindings B.
func (w *world) doReload(t *tctx, op *Op) *OpOut {
	o := &OpOut{Op: op}
	var text string
	vsim.SetBudget(10 * vsim.DefaultLimit)
	kind, pv := guard(false, func() { text = w.grammars[op.G].String() })
	if kind != "ok" {
		o.Att = append(o.Att, &AttOut{Kind: kind, Err: "String: " + panicText(pv)})
		return o
	}
	if op.Text != "" {
		text = string(op.Text) // a text written by hand instead
	}
	data := damaged(Text(text), op.Dmg)
	if data != text {
		for _, d := range op.Dmg {
			t.fired["damage_"+d.K]++
		}
	}
	for i := range op.Att {
		a := w.parseAttempt(t, w.parsers[op.P], w.budgetFor(op.P, data), op, &op.Att[i], data)
		o.Att = append(o.Att, a)
		if a.Kind == "ok" && a.tree != nil {
			b, tree := w.binds[op.B], a.tree
			if op.Ed > 0 {
				x := w.sc.Binds[op.Ed-1].build()
				vsim.SetBudget(astBudget(len(a.Delivered)))
				guard(false, func() { x.ToAST(tree, a.Delivered) })
				b = rebind(x, w.sc.Binds[op.B].build())
				t.fired["value_edited_in_place"]++
			}
			if op.Own {
				vsim.Atomic(func() { tree = own(tree) })
				t.fired["tree_of_other_nodes"]++
			}
			vsim.SetBudget(astBudget(len(a.Delivered)))
			kind, pv := guard(false, func() {
				g, err := b.ToAST(tree, a.Delivered)
				if err != nil {
					a.Kind, a.Err = "err", err.Error()
					return
				}
				a.ast = g
				vsim.Atomic(func() { a.Gram = dumpAST(g) })
			})
			if kind != "ok" {
				a.Kind, a.Err = kind, "ToAST: "+panicText(pv)
			}
		}
		if a.Injected == "" && !a.Raised && !unsupported(op.Att[i].Kind) {
			break
		}
		if i+1 < len(op.Att) {
			t.fired["retry"]++
		}
	}
	return o
}

// ------------------------------------------------------------------- walking

type simVisitor struct {
	c  *walkCtx
	id int
}

// Visitors of other types than pointers: some cannot be compared, one is a
// nil pointer that is a visitor nevertheless.
type sliceVisitor struct {
	v   *simVisitor
	pad []int
}

func (v sliceVisitor) Visit(n cst.Node) cst.Visitor { return v.v.Visit(n) }

type funcVisitor func(cst.Node) cst.Visitor

func (f funcVisitor) Visit(n cst.Node) cst.Visitor { return f(n) }

type mapVisitor map[string]*simVisitor

func (m mapVisitor) Visit(n cst.Node) cst.Visitor { return m["v"].Visit(n) }

type emptyVisitor struct{}

var current *simVisitor // single-task runs only

func (emptyVisitor) Visit(n cst.Node) cst.Visitor { return current.Visit(n) }

type nilVisitor struct{ _ int }

func (*nilVisitor) Visit(n cst.Node) cst.Visitor { return current.Visit(n) }

func (v *simVisitor) as(typ string) cst.Visitor {
	switch typ {
	case "slice":
		return sliceVisitor{v, []int{1}}
	case "func":
		return funcVisitor(v.Visit)
	case "map":
		return mapVisitor{"v": v}
	case "empty":
		current = v
		return emptyVisitor{}
	case "nil":
		current = v
		return (*nilVisitor)(nil)
	}
	return v
}

type walkCtx struct {
	w      *world
	t      *tctx
	plan   *VPlan
	tree   cst.Node
	n      int
	nextID int
	log    []string
	after  int // visits after the panic
	raised bool
	pv     *srcPanic
	nested []*AttOut
	depth  int
}

func in(x int, l []int) bool {
	for _, y := range l {
		if x == y {
			return true
		}
	}
	return false
}

func (v *simVisitor) Visit(n cst.Node) cst.Visitor {
	c := v.c
	vsim.Y(siteVisitor)
	c.n++
	k := c.n
	if n == nil {
		c.log = append(c.log, fmt.Sprintf("v%d:nil", v.id))
		return nil
	}
	c.log = append(c.log, fmt.Sprintf("v%d:%d@%d-%d", v.id, n.Type(), n.Pos(), n.End()))
	if c.raised {
		c.after++
	}
	for i := 0; i < c.plan.Spin; i++ {
		vsim.Y(siteVisitor)
	}
	if k == c.plan.Panic {
		c.raised = true
		c.pv = &srcPanic{k}
		c.t.fired["visitor_panic"]++
		panic(c.pv)
	}
	if k == c.plan.Goexit {
		c.raised = true
		c.t.fired["visitor_goexit"]++
		runtime.Goexit()
	}
	if k == c.plan.Nested && c.depth == 0 {
		c.t.fired["nested_walk"]++
		sub := &walkCtx{w: c.w, t: c.t, plan: &VPlan{}, tree: c.tree, depth: 1}
		cst.Walk(&simVisitor{c: sub}, c.tree)
		c.nested = append(c.nested, &AttOut{Kind: "ok", Visits: sub.log})
	}
	if in(k, c.plan.Prune) {
		c.t.fired["prune"]++
		return nil
	}
	if in(k, c.plan.Fresh) {
		c.nextID++
		return (&simVisitor{c: c, id: c.nextID}).as(c.plan.Typ)
	}
	return v.as(c.plan.Typ)
}

func (w *world) doWalk(t *tctx, op *Op) *OpOut {
	o := &OpOut{Op: op}
	a := &AttOut{}
	o.Att = append(o.Att, a)
	if w.trees[op.T] == nil {
		a.Kind = "skip"
		return o
	}
	c := &walkCtx{w: w, t: t, plan: op.V, tree: w.trees[op.T]}
	limit := vsim.DefaultLimit
	if nd := w.treeNDs[op.T]; nd != nil {
		limit += 200 * nd.count()
	}
	vsim.SetBudget(limit)
	kids := vsim.LiveChildren()
	a.Begin = vsim.Seq()
	kind, pv := guard(op.V.Goexit > 0, func() { cst.Walk((&simVisitor{c: c}).as(op.V.Typ), w.trees[op.T]) })
	a.End = vsim.Seq()
	a.Kind, a.Err = kind, panicText(pv)
	a.Visits = c.log
	a.Raised = c.raised
	a.PanicSame = c.pv != nil && pv == any(c.pv)
	a.Children = vsim.LiveChildren() - kids
	for _, n := range c.nested {
		a.Nested = append(a.Nested, &OpOut{Op: op, Att: []*AttOut{n}})
	}
	return o
}

// modelWalk is the visit sequence a walk must produce.
func modelWalk(root *ND, plan *VPlan) (log []string, raised bool) {
	n, nextID := 0, 0
	var walk func(v int, x *ND) bool
	walk = func(v int, x *ND) bool {
		n++
		k := n
		log = append(log, fmt.Sprintf("v%d:%d@%d-%d", v, x.T, x.P, x.E))
		if k == plan.Panic || k == plan.Goexit {
			raised = true
			return false
		}
		if in(k, plan.Prune) {
			return true
		}
		if in(k, plan.Fresh) {
			nextID++
			v = nextID
		}
		for _, c := range x.C {
			if !walk(v, c) {
				return false
			}
		}
		return true
	}
	walk(0, root)
	return
}

// ------------------------------------------------------------ the JSON example

func errno(s string) error {
	switch s {
	case "EACCES":
		return syscall.EACCES
	case "EMFILE":
		return syscall.EMFILE
	case "EISDIR":
		return syscall.EISDIR
	case "ENOMEM":
		return syscall.ENOMEM
	case "EINTR":
		return syscall.EINTR
	}
	return syscall.EIO
}

const bnfFile, docFile = "json.bnf", "test.json"

func (w *world) doMain(t *tctx, op *Op) *OpOut {
	m := op.M
	o := &OpOut{Op: op}
	a := &AttOut{}
	o.Att = append(o.Att, a)
	os := vos.NewWorld()
	gtext := damaged(Text(jsonBNF), m.BnfDmg)
	if gtext != jsonBNF {
		for _, d := range m.BnfDmg {
			t.fired["disk_grammar_"+d.K]++
		}
	}
	doc := damaged(m.Doc, m.DocDmg)
	if doc != string(m.Doc) {
		for _, d := range m.DocDmg {
			t.fired["disk_"+d.K]++
		}
	}
	os.Files[bnfFile] = &vos.FileState{Data: []byte(gtext), Chunk: m.Chunk, Stall: m.Stall}
	os.Files[docFile] = &vos.FileState{Data: []byte(doc), Chunk: m.Chunk, Stall: m.Stall}
	if m.Missing != "" {
		delete(os.Files, m.Missing)
	}
	if f := strings.Split(m.OpenErr, ":"); len(f) == 2 && os.Files[f[0]] != nil {
		os.Files[f[0]].OpenErr = errno(f[1])
	}
	if f := strings.Split(m.ReadErr, ":"); len(f) == 3 && os.Files[f[0]] != nil {
		os.Files[f[0]].ReadErr = errno(f[1])
		fmt.Sscan(f[2], &os.Files[f[0]].ReadOK)
	}
	vos.W = os
	vsim.SetBudget(20 * vsim.DefaultLimit)
	kind, pv := guard(false, jsonexample.Main)
	vsim.SetBudget(vsim.DefaultLimit)
	a.Kind = kind
	if code, ok := pv.(vos.ExitCode); ok {
		a.Kind = "exit"
		a.Exit = int(code)
	} else {
		a.Err = panicText(pv)
	}
	a.Out, a.ErrO = string(os.OutBuf), string(os.ErrBuf)
	a.Delivered = doc
	for k, n := range os.Fired {
		t.fired[k] += n
	}
	a.Unread = os.Fired["disk_missing_file"]+os.Fired["disk_open_error"]+os.Fired["disk_read_error"] > 0
	vos.W = vos.NewWorld()
	return o
}

// ------------------------------------------- what the library says of itself

// doSelf asks for the library's own grammar or bindings.
func (w *world) doSelf(t *tctx, op *Op) *OpOut {
	o := &OpOut{Op: op}
	a := &AttOut{}
	o.Att = append(o.Att, a)
	vsim.SetBudget(vsim.DefaultLimit)
	a.Begin = vsim.Seq()
	kind, pv := guard(false, func() {
		if op.K == "self" {
			g := bnf.SelfGrammar()
			a.ast = &g
			vsim.Atomic(func() { a.Gram = deep(g) })
		} else {
			b := fromcst.SelfCSTtoASTBindings()
			a.binds = &b
			vsim.Atomic(func() { a.Gram = deep(b) })
		}
	})
	a.Kind = kind
	a.Err = panicText(pv)
	a.End = vsim.Seq()
	return o
}

// as they are in a process in which nothing happened yet
var pristine = map[string]string{"self": deep(bnf.SelfGrammar()), "binds": deep(fromcst.SelfCSTtoASTBindings())}

// doOwn runs the example that reloads the library's own grammar.
func (w *world) doOwn(t *tctx, op *Op) *OpOut {
	o := &OpOut{Op: op}
	a := &AttOut{}
	o.Att = append(o.Att, a)
	os := vos.NewWorld()
	vos.W = os
	vsim.SetBudget(20 * vsim.DefaultLimit)
	kind, pv := guard(false, ownexample.Main)
	vsim.SetBudget(vsim.DefaultLimit)
	a.Kind = kind
	if code, ok := pv.(vos.ExitCode); ok {
		a.Kind = "exit"
		a.Exit = int(code)
	} else {
		a.Err = panicText(pv)
	}
	a.Out, a.ErrO = string(os.OutBuf), string(os.ErrBuf)
	vos.W = vos.NewWorld()
	return o
}

// ------------------------------------------------------------------ byte sets

// doSet performs operations on byte sets and records every answer.
func (w *world) doSet(t *tctx, op *Op) *OpOut {
	o := &OpOut{Op: op}
	a := &AttOut{}
	o.Att = append(o.Att, a)
	own := make([]byteset.ByteSet, 8)
	at := func(i int) *byteset.ByteSet {
		if i < 0 {
			return w.sets[-1-i]
		}
		return &own[i]
	}
	vsim.SetBudget(vsim.DefaultLimit)
	kids := vsim.LiveChildren()
	a.Begin = vsim.Seq()
	kind, pv := guard(false, func() {
		for _, x := range op.Set {
			vsim.Y(siteClient)
			res := ""
			switch x.K {
			case "new":
				v := []byte(x.V)
				own[x.S] = byteset.New(v...)
				if string(v) != string(x.V) {
					res = "arguments modified"
				}
				for i := range v {
					v[i] = ^v[i]
				}
			case "add":
				own[x.S].Add(byte(x.B))
			case "rm":
				own[x.S].Remove(byte(x.B))
			case "has":
				res = fmt.Sprint(at(x.S).Contains(byte(x.B)))
			case "union":
				own[x.D] = at(x.S).Union(*at(x.O))
			case "copy":
				own[x.D] = *at(x.S)
			case "eq":
				res = fmt.Sprint(at(x.S).Equal(*at(x.O)))
			case "sub":
				res = fmt.Sprint(at(x.S).IsSubSet(*at(x.O)))
			case "super":
				res = fmt.Sprint(at(x.S).IsSuperSet(*at(x.O)))
			case "len":
				res = fmt.Sprint(at(x.S).Len())
			case "bytes":
				b := at(x.S).Bytes()
				res = fmt.Sprintf("%x", b)
				for i := range b { // the caller owns it
					b[i] = ^b[i]
				}
				t.fired["caller_modifies_result"]++
			case "str":
				res = at(x.S).String()
			}
			a.Visits = append(a.Visits, x.K+"="+res)
		}
	})
	if kind != "ok" {
		a.Err = panicText(pv)
	}
	a.Kind = kind
	a.End = vsim.Seq()
	a.Children = vsim.LiveChildren() - kids
	return o
}

// modelSet is what the answers must be.
func modelSet(shared []Text, ops []SetOp) []string {
	var log []string
	own := make([][256]bool, 8)
	at := func(i int) [256]bool {
		if i >= 0 {
			return own[i]
		}
		var s [256]bool
		for _, b := range []byte(shared[-1-i]) {
			s[b] = true
		}
		return s
	}
	sub := func(a, b [256]bool) bool {
		for i := range a {
			if a[i] && !b[i] {
				return false
			}
		}
		return true
	}
	list := func(a [256]bool) []byte {
		l := []byte{}
		for i := range a {
			if a[i] {
				l = append(l, byte(i))
			}
		}
		return l
	}
	for _, x := range ops {
		res := ""
		switch x.K {
		case "new":
			own[x.S] = [256]bool{}
			for _, b := range []byte(x.V) {
				own[x.S][b] = true
			}
		case "add":
			own[x.S][x.B] = true
		case "rm":
			own[x.S][x.B] = false
		case "has":
			res = fmt.Sprint(at(x.S)[x.B])
		case "union":
			a, b := at(x.S), at(x.O)
			for i := range a {
				a[i] = a[i] || b[i]
			}
			own[x.D] = a
		case "copy":
			own[x.D] = at(x.S)
		case "eq":
			res = fmt.Sprint(at(x.S) == at(x.O))
		case "sub":
			res = fmt.Sprint(sub(at(x.S), at(x.O)))
		case "super":
			res = fmt.Sprint(sub(at(x.O), at(x.S)))
		case "len":
			res = fmt.Sprint(len(list(at(x.S))))
		case "bytes":
			res = fmt.Sprintf("%x", list(at(x.S)))
		case "str":
			var l []string
			for _, b := range list(at(x.S)) {
				l = append(l, fmt.Sprintf("%02X", b))
			}
			res = "[" + strings.Join(l, " ") + "]"
		}
		log = append(log, x.K+"="+res)
	}
	return log
}
