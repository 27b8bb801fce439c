// Command instrument writes an instrumented copy of the repository's packages
// to a scratch module. It only inserts text, so line numbers stay the same.
//
//   - before every statement: a call of vsim.Y (a scheduling point)
//   - range over a map: keys come from vsim.Keys (order chosen by the simulator)
//   - go statements: vsim.Go
//   - package sync, printing, files, exit, clock: vsync, vos, vsim
//   - channel operations: carried out by vsim (MakeChan, SendTo, Recv, Select...)
package main

import (
	"flag"
	"fmt"
	"go/ast"
	"go/build"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

const (
	modPath = "github.com/TooManySugar/ll1parser"
	vsimPkg = modPath + "/vsim"
)

// override: package -> selector -> replacement
var override = map[string]map[string]string{
	"sync": {
		"Mutex": "vsync.Mutex", "RWMutex": "vsync.RWMutex", "Once": "vsync.Once", "OnceFunc": "vsync.OnceFunc",
		"OnceValue": "vsync.OnceValue", "OnceValues": "vsync.OnceValues", "WaitGroup": "vsync.WaitGroup",
		"Pool": "vsync.Pool", "Map": "vsync.Map", "Cond": "vsync.Cond", "NewCond": "vsync.NewCond", "Locker": "vsync.Locker",
	},
	"os": {
		"Stdin": "vos.Stdin", "Stdout": "vos.Stdout", "Stderr": "vos.Stderr", "Exit": "vos.Exit", "File": "vos.File",
		"Open": "vos.Open", "OpenFile": "vos.OpenFile", "ReadFile": "vos.ReadFile", "WriteFile": "vos.WriteFile", "Create": "vos.Create",
		"Stat": "vos.Stat", "Lstat": "vos.Stat",
	},
	"io/ioutil": {"ReadFile": "vos.ReadFile", "WriteFile": "vos.WriteFile"},
	"fmt":       {"Print": "vos.Print", "Println": "vos.Println", "Printf": "vos.Printf"},
	"log": {"Fatal": "vos.Fatal", "Fatalf": "vos.Fatalf", "Fatalln": "vos.Fatalln", "Print": "vos.Log", "Printf": "vos.Logf", "Println": "vos.Logln",
		"Panic": "vos.Panic", "Panicf": "vos.Panicf", "Panicln": "vos.Panicln"},
	"runtime": {"Gosched": "vsim.Gosched"},
	"time": {"Now": "vsim.TimeNow", "Since": "vsim.TimeSince", "Until": "vsim.TimeUntil", "Sleep": "vsim.TimeSleep",
		"After": "vsim.TimeAfter", "NewTimer": "vsim.NewTimer", "Timer": "vsim.Timer", "AfterFunc": "vsim.AfterFunc",
		"Tick": "vsim.Tick", "NewTicker": "vsim.NewTicker", "Ticker": "vsim.Ticker"},
	"io": {"Pipe": "vos.Pipe", "PipeReader": "vos.PipeReader", "PipeWriter": "vos.PipeWriter"},
}

// keep: something of the package to mention so that its import stays used
var keep = map[string]string{
	"sync": "var _ %s.Locker", "os": "var _ = %s.ErrNotExist", "io/ioutil": "var _ = %s.ReadAll", "fmt": "var _ = %s.Sprint",
	"log": "var _ = %s.Prefix", "runtime": "var _ = %s.NumCPU", "time": "var _ %s.Duration", "io": "var _ %s.Reader",
}

var (
	fset     = token.NewFileSet()
	repo     string
	out      string
	std      types.Importer
	checked  = map[string]*pkg{}
	nsites   = 16 // sites below are those of vsim, vsync, vos and the harness
	siteList []string
)

type pkg struct {
	path  string
	dir   string
	files []*ast.File
	names []string
	srcs  [][]byte
	tp    *types.Package
	info  *types.Info
}

func die(a ...any) {
	fmt.Fprintln(os.Stderr, append([]any{"instrument:"}, a...)...)
	os.Exit(2)
}

type imp struct{}

func (imp) Import(path string) (*types.Package, error) {
	if path == modPath || strings.HasPrefix(path, modPath+"/") {
		p := load(path)
		if p == nil {
			return nil, fmt.Errorf("no package %s", path)
		}
		return p.tp, nil
	}
	return std.Import(path)
}

func load(path string) *pkg {
	if p, ok := checked[path]; ok {
		return p
	}
	checked[path] = nil
	dir := filepath.Join(repo, strings.TrimPrefix(strings.TrimPrefix(path, modPath), "/"))
	ents, err := os.ReadDir(dir)
	if err != nil {
		die(err)
	}
	p := &pkg{path: path, dir: dir}
	for _, e := range ents {
		n := e.Name()
		if e.IsDir() || !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
			continue
		}
		if ok, err := build.Default.MatchFile(dir, n); err != nil || !ok {
			if err != nil {
				die(err)
			}
			continue
		}
		src, err := os.ReadFile(filepath.Join(dir, n))
		if err != nil {
			die(err)
		}
		f, err := parser.ParseFile(fset, filepath.Join(dir, n), src, parser.SkipObjectResolution|parser.ParseComments)
		if err != nil {
			die(err)
		}
		p.files = append(p.files, f)
		p.names = append(p.names, n)
		p.srcs = append(p.srcs, src)
	}
	if len(p.files) == 0 {
		return nil
	}
	p.info = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}}
	conf := types.Config{Importer: imp{}, GoVersion: "go1.19"}
	if v := goVersion(); v != "" {
		conf.GoVersion = v
	}
	p.tp, err = conf.Check(path, fset, p.files, p.info)
	if err != nil {
		die("type check:", err)
	}
	checked[path] = p
	return p
}

func goVersion() string {
	b, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		die(err)
	}
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) == 2 && f[0] == "go" {
			return "go" + f[1]
		}
	}
	return ""
}

// edit replaces [off,end), or inserts if off==end. A replacement owns all
// edits with a higher number inside its range: its text renders them or not.
type edit struct {
	off, end int
	seq      int
	after    bool // an insertion that belongs to the text in front of it
	text     func() string
}

type rewriter struct {
	p     *pkg
	f     *ast.File
	name  string
	src   []byte
	edits []edit
	uniq  int
	kept  map[string]string
	label map[ast.Stmt]*ast.LabeledStmt
	needs map[string]bool
	done  map[ast.Node]bool // channel operations of select statements

	commaOK map[*ast.UnaryExpr]bool
}

func (r *rewriter) off(p token.Pos) int { return fset.Position(p).Offset }

func (r *rewriter) add(a, b int, after bool, text func() string) {
	r.edits = append(r.edits, edit{a, b, len(r.edits), after, text})
}

func str(s string) func() string { return func() string { return s } }

func (r *rewriter) insert(p token.Pos, text string) { r.add(r.off(p), r.off(p), false, str(text)) }

func (r *rewriter) insertAfter(p token.Pos, text string) { r.add(r.off(p), r.off(p), true, str(text)) }

func (r *rewriter) replace(a, b token.Pos, text string) { r.add(r.off(a), r.off(b), false, str(text)) }

func (r *rewriter) replaceF(a, b token.Pos, text func() string) {
	r.add(r.off(a), r.off(b), false, text)
}

// render returns the text of [a,b) with the edits applied that belong to it and
// have a number above min.
func (r *rewriter) render(a, b, min int) string {
	var own []edit
	for _, e := range r.edits {
		if e.seq <= min || e.off < a || e.end > b {
			continue
		}
		if e.off == e.end && (e.off == a && e.after || e.off == b && !e.after) && min >= 0 {
			continue
		}
		own = append(own, e)
	}
	sort.SliceStable(own, func(i, j int) bool {
		x, y := own[i], own[j]
		if x.off != y.off {
			return x.off < y.off
		}
		xa, ya := x.after, y.after
		if xa != ya {
			return xa
		}
		if xa {
			return x.seq > y.seq
		}
		return x.seq < y.seq
	})
	var sb strings.Builder
	pos := a
	owner := -1
	for _, e := range own {
		if e.off < pos {
			if e.seq < owner {
				die("overlapping edits in", r.name, "at offset", e.off)
			}
			continue // belongs to the replacement before it
		}
		sb.Write(r.src[pos:e.off])
		sb.WriteString(e.text())
		pos = e.end
		if e.end > e.off {
			owner = e.seq
		}
	}
	sb.Write(r.src[pos:b])
	return sb.String()
}

// sub renders a node inside the replacement with number seq.
func (r *rewriter) sub(n ast.Node, seq int) string {
	return r.render(r.off(n.Pos()), r.off(n.End()), seq)
}

func (r *rewriter) site(p token.Pos) int {
	nsites++
	siteList = append(siteList, fmt.Sprintf("%d %s:%d", nsites-1, strings.TrimPrefix(r.p.path, modPath+"/")+"/"+r.name, fset.Position(p).Line))
	return nsites - 1
}

func (r *rewriter) yield(p token.Pos) { r.insert(p, fmt.Sprintf("vsim.Y(%d); ", r.site(p))) }

func isChan(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Chan)
	return ok
}

func (r *rewriter) stmtList(list []ast.Stmt) {
	for _, st := range list {
		switch st.(type) {
		case *ast.CaseClause, *ast.CommClause:
			continue
		}
		r.yield(st.Pos())
	}
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func recvOf(e ast.Expr) *ast.UnaryExpr {
	if u, ok := unparen(e).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
		return u
	}
	return nil
}

func (r *rewriter) builtin(e ast.Expr) string {
	if id, ok := unparen(e).(*ast.Ident); ok {
		if b, ok := r.p.info.Uses[id].(*types.Builtin); ok {
			return b.Name()
		}
	}
	return ""
}

func (r *rewriter) typeOf(e ast.Expr) types.Type { return r.p.info.Types[e].Type }

func (r *rewriter) recv(v *ast.UnaryExpr) {
	if v.Op != token.ARROW || r.done[v] {
		return
	}
	f := "vsim.Recv("
	if r.commaOK[v] {
		f = "vsim.Recv2("
	}
	r.replace(v.Pos(), v.X.Pos(), f)
	r.insertAfter(v.X.End(), ")")
}

func (r *rewriter) send(v *ast.SendStmt) {
	if r.done[v] {
		return
	}
	r.insert(v.Chan.Pos(), "vsim.SendTo(")
	r.replace(v.Chan.End(), v.Value.Pos(), ")(")
	r.insertAfter(v.Value.End(), ")")
}

func (r *rewriter) call(v *ast.CallExpr) {
	switch b := r.builtin(v.Fun); {
	case b == "make" && isChan(r.typeOf(v)):
		r.insert(v.Pos(), "vsim.MakeChan(")
		r.insertAfter(v.End(), ")")
	case b == "close":
		r.replace(v.Fun.Pos(), v.Fun.End(), "vsim.Close")
	case b == "len" && len(v.Args) == 1 && isChan(r.typeOf(v.Args[0])):
		r.replace(v.Fun.Pos(), v.Fun.End(), "vsim.ChanLen")
	case b == "print" || b == "println":
		r.needs["vos"] = true
		r.replace(v.Fun.Pos(), v.Fun.End(), "vos.Builtin"+b)
	}
}

// selectStmt: select { case v := <-c: A; case d <- x: B } becomes
// { k0 := vsim.RecvCase(c); k1 := vsim.SendCase(d)(x); switch vsim.Select(false, k0, k1) { case 0: v := k0.Val; A; case 1: B; default: panic("unreachable") } }
func (r *rewriter) selectStmt(v *ast.SelectStmt) {
	r.uniq++
	u := r.uniq
	lab := ""
	if l := r.label[v]; l != nil {
		lab = l.Label.Name + ": "
		r.replace(l.Pos(), l.Colon+1, "")
	}
	seq := len(r.edits)
	var pres []func() string
	names := ""
	def := false
	for i, st := range v.Body.List {
		cc := st.(*ast.CommClause)
		k := fmt.Sprintf("vsimK%d_%d", u, i)
		from := cc.Pos()
		body := ""
		var post func(seq int) string
		switch c := cc.Comm.(type) {
		case nil:
			def = true
			r.replace(from, cc.Colon+1, "default: ")
			continue
		case *ast.SendStmt:
			r.done[c] = true
			pres = append(pres, func() string {
				return fmt.Sprintf("%s := vsim.SendCase(%s)(%s); ", k, r.sub(c.Chan, seq), r.sub(c.Value, seq))
			})
		case *ast.ExprStmt:
			x := recvOf(c.X)
			r.done[x] = true
			pres = append(pres, func() string { return fmt.Sprintf("%s := vsim.RecvCase(%s); ", k, r.sub(x.X, seq)) })
		case *ast.AssignStmt:
			x := recvOf(c.Rhs[0])
			r.done[x] = true
			pres = append(pres, func() string { return fmt.Sprintf("%s := vsim.RecvCase(%s); ", k, r.sub(x.X, seq)) })
			post = func(seq int) string {
				t := r.sub(c.Lhs[0], seq)
				vals := k + ".Val"
				if len(c.Lhs) == 2 {
					t += ", " + r.sub(c.Lhs[1], seq)
					vals += ", " + k + ".OK"
				}
				return t + " " + c.Tok.String() + " " + vals + "; "
			}
		}
		names += ", " + k
		body = fmt.Sprintf("case %d: ", strings.Count(names, ",")-1)
		pseq := len(r.edits)
		r.replaceF(from, cc.Colon+1, func() string {
			if post != nil {
				return body + post(pseq)
			}
			return body
		})
	}
	r.replaceF(v.Pos(), v.Body.Lbrace+1, func() string {
		t := "{ "
		for _, p := range pres {
			t += p()
		}
		return t + fmt.Sprintf("%sswitch vsim.Select(%v%s) {", lab, def, names)
	})
	if !def {
		r.insert(v.Body.Rbrace, "default: panic(\"unreachable\") ")
	}
	r.insertAfter(v.End(), " }")
}

func (r *rewriter) text(n ast.Node) string { return string(r.src[r.off(n.Pos()):r.off(n.End())]) }

func (r *rewriter) rewrite() []byte {
	r.kept = map[string]string{}
	r.label = map[ast.Stmt]*ast.LabeledStmt{}
	r.needs = map[string]bool{}
	r.done = map[ast.Node]bool{}
	r.commaOK = map[*ast.UnaryExpr]bool{}
	ast.Inspect(r.f, func(n ast.Node) bool {
		switch v := n.(type) {
		case *ast.LabeledStmt:
			r.label[v.Stmt] = v
		case *ast.BlockStmt:
			r.stmtList(v.List)
		case *ast.CaseClause:
			r.stmtList(v.Body)
		case *ast.CommClause:
			r.stmtList(v.Body)
		case *ast.ForStmt:
			if len(v.Body.List) == 0 {
				r.yield(v.Body.Rbrace)
			}
		case *ast.RangeStmt:
			r.rangeStmt(v)
		case *ast.GoStmt:
			r.goStmt(v)
		case *ast.SelectorExpr:
			r.selector(v)
		case *ast.AssignStmt:
			if len(v.Lhs) == 2 && len(v.Rhs) == 1 {
				if u := recvOf(v.Rhs[0]); u != nil {
					r.commaOK[u] = true
				}
			}
		case *ast.ValueSpec:
			if len(v.Names) == 2 && len(v.Values) == 1 {
				if u := recvOf(v.Values[0]); u != nil {
					r.commaOK[u] = true
				}
			}
		case *ast.UnaryExpr:
			r.recv(v)
		case *ast.SendStmt:
			r.send(v)
		case *ast.CallExpr:
			r.call(v)
		case *ast.SelectStmt:
			r.selectStmt(v)
		}
		return true
	})
	// package clause
	imports := "; import vsim \"" + vsimPkg + "\""
	if r.needs["vsync"] {
		imports += "; import vsync \"" + modPath + "/vsync\""
	}
	if r.needs["vos"] {
		imports += "; import vos \"" + modPath + "/vos\""
	}
	r.insert(r.f.Name.End(), imports)
	if r.p.tp.Name() == "main" {
		r.replace(r.f.Name.Pos(), r.f.Name.End(), "vexample")
	}
	tail := "\nvar _ = vsim.Y\n"
	var paths []string
	for p := range r.kept {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	for _, p := range paths {
		tail += fmt.Sprintf(keep[p], r.kept[p]) + "\n"
	}
	return []byte(r.render(0, len(r.src), -1) + tail)
}

func (r *rewriter) selector(v *ast.SelectorExpr) {
	id, ok := v.X.(*ast.Ident)
	if !ok {
		return
	}
	pn, ok := r.p.info.Uses[id].(*types.PkgName)
	if !ok {
		return
	}
	path := pn.Imported().Path()
	to, ok := override[path][v.Sel.Name]
	if !ok {
		return
	}
	r.kept[path] = id.Name
	r.needs[strings.SplitN(to, ".", 2)[0]] = true
	r.replace(v.Pos(), v.End(), to)
}

func (r *rewriter) goStmt(v *ast.GoStmt) {
	r.uniq++
	u := r.uniq
	call := v.Call
	if lit, ok := call.Fun.(*ast.FuncLit); ok && len(call.Args) == 0 {
		r.replace(v.Pos(), lit.Pos(), "vsim.Go(")
		r.replace(lit.End(), call.End(), ")")
		return
	}
	if r.builtin(call.Fun) != "" {
		r.replace(v.Pos(), call.Pos(), "vsim.Go(func() { ")
		r.insertAfter(call.End(), " })")
		return
	}
	// { f := FUN; a := ARG; ...; vsim.Go(func() { f(a, ...) }) }
	r.replace(v.Pos(), call.Fun.Pos(), fmt.Sprintf("{ vsimF%d := ", u))
	args := ""
	prev := call.Fun.End()
	for i, a := range call.Args {
		tv := r.p.info.Types[a]
		if tv.IsNil() || tv.Value != nil {
			r.replace(prev, a.End(), "")
			args += r.text(a)
		} else {
			r.replace(prev, a.Pos(), fmt.Sprintf("; vsimA%d_%d := ", u, i))
			args += fmt.Sprintf("vsimA%d_%d", u, i)
		}
		if i < len(call.Args)-1 {
			args += ", "
		}
		prev = a.End()
	}
	if call.Ellipsis.IsValid() {
		args += "..."
	}
	r.replace(prev, call.End(), fmt.Sprintf("; vsim.Go(func() { vsimF%d(%s) }) }", u, args))
}

func (r *rewriter) rangeStmt(v *ast.RangeStmt) {
	tv, ok := r.p.info.Types[v.X]
	if !ok {
		return
	}
	if len(v.Body.List) == 0 {
		r.yield(v.Body.Rbrace)
	}
	t := tv.Type.Underlying()
	if isChan(t) {
		r.uniq++
		u := r.uniq
		val := "_"
		op := ":="
		if v.Key != nil {
			val = r.text(v.Key)
			if v.Tok == token.ASSIGN {
				op = "="
			}
		}
		r.replace(v.Pos(), v.X.Pos(), fmt.Sprintf("for vsimC%d := (", u))
		r.insertAfter(v.X.End(), ");;")
		recv := fmt.Sprintf(" %s, vsimOK%d := vsim.Recv2(vsimC%d); if !vsimOK%d { break }; ", val, u, u, u)
		if op == "=" {
			recv = fmt.Sprintf(" vsimV%d, vsimOK%d := vsim.Recv2(vsimC%d); if !vsimOK%d { break }; %s = vsimV%d; ", u, u, u, u, val, u)
		}
		r.insertAfter(v.Body.Lbrace+1, recv)
		return
	}
	m, ok := t.(*types.Map)
	if !ok {
		return
	}
	_ = m
	r.uniq++
	u := r.uniq
	lab := ""
	start := v.Pos()
	if l := r.label[v]; l != nil {
		lab = l.Label.Name + ": "
		r.replace(l.Pos(), l.Colon+1, "")
	}
	blank := func(e ast.Expr) bool {
		if e == nil {
			return true
		}
		id, ok := e.(*ast.Ident)
		return ok && id.Name == "_"
	}
	pre := fmt.Sprintf("{ vsimM%d := (", u)
	r.replace(start, v.X.Pos(), pre)
	mid := ") ; "
	body := ""
	kv := fmt.Sprintf("vsimK%d", u)
	if v.Tok == token.DEFINE {
		kn, vn := "_", "_"
		if !blank(v.Key) {
			kn = r.text(v.Key)
		}
		if !blank(v.Value) {
			vn = r.text(v.Value)
		}
		if kn != "_" || vn != "_" {
			mid += fmt.Sprintf("%s, %s := vsim.Zero(vsimM%d); ", kn, vn, u)
		}
		if kn != "_" {
			body += fmt.Sprintf("%s = %s; _ = %s; ", kn, kv, kn)
		}
		if vn != "_" {
			body += fmt.Sprintf("%s = vsimM%d[%s]; _ = %s; ", vn, u, kv, vn)
		}
	} else {
		if !blank(v.Key) {
			body += fmt.Sprintf("%s = %s; ", r.text(v.Key), kv)
		}
		if !blank(v.Value) {
			body += fmt.Sprintf("%s = vsimM%d[%s]; ", r.text(v.Value), u, kv)
		}
	}
	mid += fmt.Sprintf("%sfor _, %s := range vsim.Keys(vsimM%d) ", lab, kv, u)
	r.insertAfter(v.X.End(), mid)
	r.insertAfter(v.Body.Lbrace+1, fmt.Sprintf(" if _, vsimOK%d := vsimM%d[%s]; !vsimOK%d { continue }; %s", u, u, kv, u, body))
	r.insertAfter(v.Body.End(), " }")
}

func main() {
	flag.StringVar(&repo, "repo", "/repo", "")
	flag.StringVar(&out, "out", "", "")
	flag.Parse()
	build.Default.CgoEnabled = false
	std = importer.ForCompiler(fset, "source", nil)

	var dirs []string
	err := filepath.Walk(repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(repo, p)
		if fi.IsDir() {
			base := filepath.Base(p)
			if rel != "." && (strings.HasPrefix(base, ".") || strings.HasPrefix(base, "_") || base == "testdata" || base == "vendor" || rel == "test") {
				return filepath.SkipDir
			}
			dirs = append(dirs, rel)
		}
		return nil
	})
	if err != nil {
		die(err)
	}
	var example []string
	for _, d := range dirs {
		ents, _ := os.ReadDir(filepath.Join(repo, d))
		hasGo := false
		for _, e := range ents {
			if strings.HasSuffix(e.Name(), ".go") && !strings.HasSuffix(e.Name(), "_test.go") && !e.IsDir() {
				hasGo = true
			}
		}
		if !hasGo {
			continue
		}
		path := modPath
		if d != "." {
			path += "/" + filepath.ToSlash(d)
		}
		p := load(path)
		if p == nil {
			continue
		}
		dst := filepath.Join(out, d)
		if p.tp.Name() == "main" {
			dst = filepath.Join(out, "vexamples", d)
			example = append(example, d)
		}
		if err := os.MkdirAll(dst, 0o755); err != nil {
			die(err)
		}
		for i, f := range p.files {
			r := &rewriter{p: p, f: f, name: p.names[i], src: p.srcs[i]}
			if err := os.WriteFile(filepath.Join(dst, p.names[i]), r.rewrite(), 0o644); err != nil {
				die(err)
			}
		}
		if p.tp.Name() == "main" {
			if err := os.WriteFile(filepath.Join(dst, "zz_vsim_main.go"), []byte("package vexample\n\nfunc Main() { main() }\n"), 0o644); err != nil {
				die(err)
			}
		}
	}
	gomod, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		die(err)
	}
	write(filepath.Join(out, "go.mod"), string(gomod))
	os.MkdirAll(filepath.Join(out, "vsites"), 0o755)
	write(filepath.Join(out, "vsites", "sites.go"), fmt.Sprintf("package vsites\n\nimport \"%s\"\n\nfunc init() { vsim.NSites = %d }\n\n// Names lists the instrumented sites.\nvar Names = `%s`\n", vsimPkg, nsites, strings.Join(siteList, "\n")))
}

func write(p, s string) {
	if err := os.WriteFile(p, []byte(s), 0o644); err != nil {
		die(err)
	}
}
