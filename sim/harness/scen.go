//go:build go1.22

package main

import (
	"encoding/json"
	"strconv"
	"strings"

	"github.com/TooManySugar/ll1parser/vsim"
)

type Rand = vsim.Rand

// Text is a byte string that survives JSON unchanged.
type Text string

func (t Text) MarshalJSON() ([]byte, error) { return json.Marshal(strconv.QuoteToASCII(string(t))) }

func (t *Text) UnmarshalJSON(b []byte) error {
	var q string
	if err := json.Unmarshal(b, &q); err != nil {
		return err
	}
	s, err := strconv.Unquote(q)
	*t = Text(s)
	return err
}

// GSpec names or spells out a grammar.
type GSpec struct {
	Kind  string  // "self", "json", "rules"
	Rules []RSpec `json:",omitempty"`
}

type RSpec struct {
	Head Text
	Alts [][]SSpec
}

type SSpec struct {
	K string // t, n, e
	V Text   `json:",omitempty"`
	// in a hand-written table: that many times over
	Rep int `json:",omitempty"`
}

func (s SSpec) lit() string { return strings.Repeat(string(s.V), max(1, s.Rep)) }

// HTab is a hand-written parsing table: row -> byte -> ops.
type HTab struct {
	Rows []HRow
	Off  int `json:",omitempty"` // number of the first row
	// numbers of the rows, if they are not counted up; references to rows of
	// the table follow
	Nums []int `json:",omitempty"`
}

// at is the number of the i-th row.
func (h *HTab) at(i int) int {
	if i < len(h.Nums) {
		return h.Nums[i]
	}
	return i + h.Off
}

// long: the table has literals that are longer than usual.
func (h *HTab) long() bool {
	for _, r := range h.Rows {
		for _, c := range r.Cells {
			for _, o := range c.Ops {
				if o.Rep > 0 {
					return true
				}
			}
		}
	}
	return false
}

// ref is the row number a symbol stands for.
func (h *HTab) ref(v Text) int {
	i := int(v[0]) - '0'
	if i >= 0 && i < len(h.Nums) {
		return h.Nums[i]
	}
	return i
}

type HRow struct {
	Name  Text
	Anon  bool `json:",omitempty"` // the names map does not have it
	Cells []HCell
}
type HCell struct {
	B   int
	Ops []SSpec // K: t literal V, n rule N
}

// TabSpec is a table with its names map; built once and shared.
type TabSpec struct {
	G    int   // index into Grammars, -1: Hand
	Hand *HTab `json:",omitempty"`
	// NilNames: the caller supplies a nil names map
	NilNames bool `json:",omitempty"`
	// more names the caller gives
	Names map[int]Text `json:",omitempty"`
}

type PSpec struct{ Tab int }

type TreeSpec struct {
	P     int // parser that makes it (-1: Build)
	Text  Text
	Build *TNode `json:",omitempty"`
}

// TNode is a hand-built tree; equal Share ids are one node value.
type TNode struct {
	T int
	C []*TNode `json:",omitempty"`
	// the node hangs below a chain of that many nodes
	Deep int `json:",omitempty"`
	// nodes of that chain have a sibling (1: to the right, 2: to the left)
	Side int `json:",omitempty"`
	// that many leaves follow its children
	Wide int `json:",omitempty"`
	// it is not a new node but that one of those made before it
	Same int `json:",omitempty"`
	// of the root: how positions are given out (0: all different)
	Pos int `json:",omitempty"`
	// of the root: nodes are of a type of the caller's own
	Own bool `json:",omitempty"`
}

type BSpec struct {
	Ignore []int
	Drop   []string `json:",omitempty"` // escapes removed from the mapping
	Bad    string   `json:",omitempty"` // "head", "tail", "sym", "esc", "trm": it names a type that no node has
	// the type of escape sequences is left to be the one of the self grammar
	NoEsc bool `json:",omitempty"`
	// number in this caller's grammar of the rules of the self grammar
	Num []int `json:",omitempty"`
	// numbers in it of the rules whose text is to be left out (see asides)
	Off []int `json:",omitempty"`
	// types of terminals: 0 and 1 those of the self grammar, others as they are
	Terms []int `json:",omitempty"`
	// what the caller has escapes stand for, instead of the usual
	Esc map[string]Text `json:",omitempty"`
}

// Dmg is one act of damage to stored or transported bytes.
type Dmg struct {
	K    string // trunc, zero, flip, set, drop, dup, swap, ins
	A, B int    `json:",omitempty"`
	V    Text   `json:",omitempty"`
}

func (d Dmg) apply(s string) string {
	b := []byte(s)
	clamp := func(x int) int {
		if x < 0 {
			return 0
		}
		if x > len(b) {
			return len(b)
		}
		return x
	}
	a := clamp(d.A)
	e := clamp(d.A + d.B)
	switch d.K {
	case "trunc":
		return string(b[:a])
	case "zero":
		for i := a; i < e; i++ {
			b[i] = 0
		}
	case "flip":
		if a < len(b) {
			b[a] ^= 1 << (uint(d.B) % 8)
		}
	case "set":
		if a < len(b) && d.V != "" {
			b[a] = d.V[0]
		}
	case "drop":
		return string(b[:a]) + string(b[e:])
	case "dup":
		return string(b[:e]) + string(b[a:e]) + string(b[e:])
	case "swap": // [A,A+B) changes place with the B bytes after it
		e2 := clamp(d.A + 2*d.B)
		return string(b[:a]) + string(b[e:e2]) + string(b[a:e]) + string(b[e2:])
	case "ins":
		return string(b[:a]) + string(d.V) + string(b[a:])
	case "crlf": // line ends as another system writes them
		return strings.ReplaceAll(strings.ReplaceAll(s, "\r\n", "\n"), "\n", "\r\n")
	case "lf":
		return strings.ReplaceAll(s, "\r\n", "\n")
	case "trim":
		return strings.TrimSpace(s)
	}
	return string(b)
}

func damaged(t Text, ds []Dmg) string {
	s := string(t)
	for _, d := range ds {
		s = d.apply(s)
	}
	return s
}

// RStep is what the simulated reader does in one Read call.
type RStep struct {
	N        int    `json:",omitempty"` // deliver at most N bytes (0: none)
	EOF      bool   `json:",omitempty"` // report io.EOF together with the last bytes
	Err      string `json:",omitempty"` // fail with this error (after N bytes)
	Panic    bool   `json:",omitempty"`
	Goexit   bool   `json:",omitempty"`
	Stall    int    `json:",omitempty"` // simulated ticks before anything happens
	Spins    int    `json:",omitempty"` // scheduling points inside the Read
	Scribble bool   `json:",omitempty"` // use the rest of p as scratch space
	Nested   *Op    `json:",omitempty"` // call into the library from inside Read
}

// Src is one way of handing a text to Parse.
type Src struct {
	Kind  string  // see makeSource; string, bytes, buffer, bufferpart, reader, strings, bytesr, bufio, nil, nilbuf, bad
	Steps []RStep `json:",omitempty"`
	Tail  int     `json:",omitempty"` // bytes per Read once the steps are used up (0: all)
	// the bytes lie where those of the task's earlier calls lay, the source is
	// the object it used before
	Reuse bool `json:",omitempty"`
}

// VStep is the reaction of a visitor at its i-th visit.
type VPlan struct {
	Prune  []int `json:",omitempty"` // visit numbers answered with nil
	Fresh  []int `json:",omitempty"` // visit numbers answered with a new visitor
	Panic  int   // visit number that panics, 0: none
	Goexit int
	Nested int // visit number that walks the same tree again
	Spin   int
	Typ    string `json:",omitempty"` // type of the visitors
}

// Op is one call (with its retries) of a client.
type Op struct {
	K    string  // parse, gen, ast, reload, walk, main
	P    int     `json:",omitempty"` // parser
	G    int     `json:",omitempty"` // grammar
	B    int     `json:",omitempty"` // bindings
	T    int     `json:",omitempty"` // tree
	Text Text    `json:",omitempty"`
	Dmg  []Dmg   `json:",omitempty"`
	Att  []Src   `json:",omitempty"`
	Scr  int     `json:",omitempty"` // afterwards the client modifies its own result
	V    *VPlan  `json:",omitempty"`
	M    *MSpec  `json:",omitempty"`
	N    int     `json:",omitempty"`
	Set  []SetOp `json:",omitempty"`
	Rep  int     `json:",omitempty"` // the call is repeated that many times
	// gen, ast: the client's grammar or bindings value held that grammar or
	// those bindings before (1 + index), with which it made the same call
	// parse: the parser is a new one, on a table value that held that parser's
	// table before, and was used; reload: as ast
	Ed int `json:",omitempty"`
	// ast, reload: the tree is a copy made of nodes of the caller's own type
	Own bool     `json:",omitempty"`
	Str []Stream `json:",omitempty"` // hold: the kinds of calls
}

// SetOp is one operation on byte sets; S and O name its operands, D the set
// that receives the result.
type SetOp struct {
	K string // new, add, rm, has, union, copy, eq, sub, super, len, bytes, str
	S int
	O int  `json:",omitempty"`
	D int  `json:",omitempty"`
	B int  `json:",omitempty"`
	V Text `json:",omitempty"`
}

// MSpec is one execution of the JSON example.
type MSpec struct {
	Doc     Text
	DocDmg  []Dmg  `json:",omitempty"`
	Missing string `json:",omitempty"` // file that does not exist
	OpenErr string `json:",omitempty"` // "file:errno"
	ReadErr string `json:",omitempty"` // "file:errno:bytes"
	BnfDmg  []Dmg  `json:",omitempty"` // what happened to the grammar file
	Chunk   int    `json:",omitempty"`
	Stall   int    `json:",omitempty"`
}

// Scenario is everything one simulated run depends on.
type Scenario struct {
	Prop     string
	Seed     uint64
	Race     bool `json:",omitempty"`
	Grammars []GSpec
	Tables   []TabSpec  `json:",omitempty"`
	Parsers  []PSpec    `json:",omitempty"`
	Trees    []TreeSpec `json:",omitempty"`
	Binds    []BSpec    `json:",omitempty"`
	Sets     []Text     `json:",omitempty"` // contents of the shared byte sets
	Tasks    [][]Op
	Pol      vsim.Policy
}

// Violation of a property in one run.
type Violation struct {
	Prop  string
	Class string
	Msg   string
}

// Replay is the content of a replay file: runs executed in one fresh process,
// the last of which violates the property.
type Replay struct {
	Property  string
	VerifSeed uint64
	Race      bool
	Prelude   []Scenario `json:",omitempty"`
	Run       Scenario
	Violation Violation
	EventHash string
	Trace     []string
}

func specOf(g *Grammar) GSpec {
	s := GSpec{Kind: "rules"}
	for _, r := range g.Rules {
		rs := RSpec{Head: Text(r.Head)}
		for _, a := range r.Alts {
			as := []SSpec{}
			for _, y := range a {
				as = append(as, SSpec{K: string(y.K), V: Text(y.V)})
			}
			rs.Alts = append(rs.Alts, as)
		}
		s.Rules = append(s.Rules, rs)
	}
	return s
}

func clone[T any](x T) T {
	b, err := json.Marshal(x)
	if err != nil {
		vsim.Fatal(err)
	}
	var y T
	if err := json.Unmarshal(b, &y); err != nil {
		vsim.Fatal(err)
	}
	return y
}

func toJSON(x any) string {
	b, err := json.Marshal(x)
	if err != nil {
		vsim.Fatal(err)
	}
	return string(b)
}
