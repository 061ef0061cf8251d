// Command instr rewrites Go packages so that every source of nondeterminism in
// them goes through the simulator (verif.local/sim/simrt).
//
//	instr -level stmt|func -sim MODDIR [-race] PKG...
//
// It runs in the directory of the module MODDIR (which requires and replaces the
// packages to rewrite), type-checks each package against the export data that
// 'go list -export' reports, and overwrites its files in place. The files must
// therefore be a private copy. Rewriting keeps line numbers.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
)

const rt = "simrt"
const modPath = "verif.local/sim/"

var importMap = map[string]string{
	"sync":         "ssync",
	"sync/atomic":  "satomic",
	"time":         "stime",
	"context":      "scontext",
	"maps":         "smaps",
	"math/rand":    "srand",
	"math/rand/v2": "srand",
	"hash/maphash": "shash",
}

// runtimeFuncs are what the simulator answers in place of the runtime.
var runtimeFuncs = map[string]bool{
	"runtime.Gosched": true, "runtime.NumCPU": true, "runtime.GOMAXPROCS": true, "runtime.NumGoroutine": true,
}

var importName = map[string]string{
	"sync": "sync", "sync/atomic": "atomic", "time": "time", "context": "context",
	"maps": "maps", "math/rand": "rand", "math/rand/v2": "rand",
	"hash/maphash": "maphash",
}

type listPkg struct {
	ImportPath string
	Name       string
	Dir        string
	Export     string
	GoFiles    []string
	CgoFiles   []string
	ImportMap  map[string]string
	Module     *struct{ Path, GoVersion string }
	Error      *struct{ Err string }
}

func die(format string, a ...any) {
	fmt.Fprintf(os.Stderr, "instr: "+format+"\n", a...)
	os.Exit(2)
}

func main() {
	race := flag.Bool("race", false, "use race-enabled export data")
	simDir := flag.String("sim", ".", "module directory to resolve packages in")
	stmtMod := flag.String("stmt", "", "comma-separated module paths rewritten at statement level")
	funcMod := flag.String("func", "", "comma-separated module paths rewritten at function level")
	report := flag.String("report", "", "write a JSON summary here")
	flag.Parse()

	args := []string{"list", "-export", "-deps", "-json=ImportPath,Name,Dir,Export,GoFiles,CgoFiles,ImportMap,Module,Error", "-trimpath"}
	if *race {
		args = append(args, "-race")
	}
	args = append(args, flag.Args()...)
	cmd := exec.Command("go", args...)
	cmd.Dir = *simDir
	var errb bytes.Buffer
	cmd.Stderr = &errb
	out, err := cmd.Output()
	if err != nil {
		die("go list: %v\n%s", err, errb.String())
	}
	pkgs := map[string]*listPkg{}
	var order []*listPkg
	dec := json.NewDecoder(bytes.NewReader(out))
	for {
		p := new(listPkg)
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			die("go list output: %v", err)
		}
		if p.Error != nil {
			die("%s: %s", p.ImportPath, p.Error.Err)
		}
		pkgs[p.ImportPath] = p
		order = append(order, p)
	}
	level := map[string]string{}
	for _, m := range strings.Split(*stmtMod, ",") {
		level[m] = "stmt"
	}
	for _, m := range strings.Split(*funcMod, ",") {
		level[m] = "func"
	}
	var (
		wg  sync.WaitGroup
		mu  sync.Mutex
		sum = map[string]map[string]int{}
	)
	for _, p := range order {
		if p.Module == nil || level[p.Module.Path] == "" {
			continue
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			st := rewritePackage(p, pkgs, level[p.Module.Path] == "stmt")
			mu.Lock()
			sum[p.ImportPath] = st
			mu.Unlock()
		}()
	}
	wg.Wait()
	if *report != "" {
		b, _ := json.MarshalIndent(sum, "", " ")
		if err := os.WriteFile(*report, append(b, '\n'), 0o644); err != nil {
			die("%v", err)
		}
	}
}

func rewritePackage(p *listPkg, pkgs map[string]*listPkg, stmt bool) map[string]int {
	if len(p.CgoFiles) > 0 {
		die("%s uses cgo", p.ImportPath)
	}
	fset := token.NewFileSet()
	var files []*ast.File
	var srcs [][]byte
	for _, name := range p.GoFiles {
		path := filepath.Join(p.Dir, name)
		src, err := os.ReadFile(path)
		if err != nil {
			die("%v", err)
		}
		f, err := parser.ParseFile(fset, path, src, parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			die("%v", err)
		}
		files = append(files, f)
		srcs = append(srcs, src)
	}
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		if m := p.ImportMap[path]; m != "" {
			path = m
		}
		q := pkgs[path]
		if q == nil || q.Export == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(q.Export)
	})
	gover := ""
	if p.Module.GoVersion != "" {
		gover = "go" + p.Module.GoVersion
	}
	info := &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{},
		Uses:  map[*ast.Ident]types.Object{},
		Defs:  map[*ast.Ident]types.Object{},
	}
	conf := types.Config{Importer: imp, GoVersion: gover, Sizes: types.SizesFor("gc", "amd64")}
	if _, err := conf.Check(p.ImportPath, fset, files, info); err != nil {
		die("type-checking %s: %v", p.ImportPath, err)
	}
	st := map[string]int{}
	for i, f := range files {
		r := &rewriter{fset: fset, tf: fset.File(f.FileStart), file: f, src: srcs[i], info: info, stmt: stmt, st: st, perIter: perIter(gover)}
		out := r.run()
		path := filepath.Join(p.Dir, p.GoFiles[i])
		if _, err := parser.ParseFile(token.NewFileSet(), path, out, 0); err != nil {
			_ = os.WriteFile(path+".bad", out, 0o644)
			die("rewritten %s does not parse: %v", path, err)
		}
		if err := os.WriteFile(path, out, 0o644); err != nil {
			die("%v", err)
		}
	}
	return st
}

func perIter(gover string) bool {
	v := strings.TrimPrefix(gover, "go1.")
	if i := strings.IndexByte(v, '.'); i >= 0 {
		v = v[:i]
	}
	n, err := strconv.Atoi(v)
	return err == nil && n >= 22
}

// ---------------------------------------------------------------- rewriting

// An edit replaces src[start:end] by render(); its number orders edits from the
// outside in.
type edit struct {
	start, end, id int
	render         func() string
}

type rewriter struct {
	fset    *token.FileSet
	tf      *token.File
	file    *ast.File
	src     []byte
	info    *types.Info
	stmt    bool
	perIter bool
	edits   []*edit
	n       int
	st      map[string]int
	tail    []string
	recv2   map[*ast.UnaryExpr]bool
	sio     bool
	skip    map[ast.Node]bool // handled by an enclosing edit
}

func (r *rewriter) off(p token.Pos) int { return r.tf.Offset(p) }

func (r *rewriter) replace(from, to token.Pos, render func(id int) string) {
	e := &edit{start: r.off(from), end: r.off(to), id: len(r.edits) + 1}
	e.render = func() string { return render(e.id) }
	r.edits = append(r.edits, e)
}

func (r *rewriter) insert(at token.Pos, text string) {
	r.replace(at, at, func(int) string { return text })
}

// emit renders src[a:b] with all edits inside it whose number exceeds min.
func (r *rewriter) emit(a, b, min int) string {
	var sb strings.Builder
	for a <= b {
		var best *edit
		for _, e := range r.edits {
			if e.id <= min || e.start < a || e.end > b || (e.start == e.end && e.start >= b) {
				continue
			}
			if best == nil || before(e, best) {
				best = e
			}
		}
		if best == nil {
			break
		}
		sb.Write(r.src[a:best.start])
		sb.WriteString(best.render())
		if best.end > best.start {
			a = best.end
		} else {
			// Render what else starts here, but not this insertion again.
			rest := r.emitAfter(best, b, min)
			sb.WriteString(rest)
			return sb.String()
		}
	}
	if a < b {
		sb.Write(r.src[a:b])
	}
	return sb.String()
}

func (r *rewriter) emitAfter(ins *edit, b, min int) string {
	// Insertions at one position come in order of number.
	save := ins.id
	ins.id = -1
	s := r.emit(ins.start, b, min)
	ins.id = save
	return s
}

func before(x, y *edit) bool {
	if x.start != y.start {
		return x.start < y.start
	}
	xi, yi := x.start == x.end, y.start == y.end
	if xi != yi {
		return xi
	}
	if x.end != y.end && !xi {
		return x.end > y.end
	}
	return x.id < y.id
}

func (r *rewriter) text(n ast.Node, id int) string { return r.emit(r.off(n.Pos()), r.off(n.End()), id) }

func (r *rewriter) name(base string) string {
	r.n++
	return rt + base + strconv.Itoa(r.n)
}

func (r *rewriter) run() []byte {
	r.recv2 = map[*ast.UnaryExpr]bool{}
	r.skip = map[ast.Node]bool{}
	r.insert(r.file.Name.End(), "; import "+rt+" \""+modPath+"simrt\"")
	for _, d := range r.file.Decls {
		r.walk(d)
	}
	sort.SliceStable(r.edits, func(i, j int) bool { return r.edits[i].start < r.edits[j].start })
	out := r.emit(0, len(r.src), 0)
	if !strings.HasSuffix(out, "\n") {
		out += "\n"
	}
	out += "var _ = " + rt + ".Y\n"
	for _, t := range r.tail {
		out += t + "\n"
	}
	return []byte(out)
}

const yield = rt + ".Y(); "

func (r *rewriter) stmts(list []ast.Stmt) {
	for _, s := range list {
		if !r.stmt {
			continue
		}
		switch x := s.(type) {
		case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
			continue
		case *ast.LabeledStmt:
			switch x.Stmt.(type) {
			case *ast.ForStmt, *ast.RangeStmt, *ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.SelectStmt, *ast.EmptyStmt:
				r.insert(s.Pos(), yield)
			default:
				r.insert(x.Stmt.Pos(), yield)
			}
			r.st["yields"]++
			continue
		}
		r.insert(s.Pos(), yield)
		r.st["yields"]++
	}
}

func (r *rewriter) bodyStart(b *ast.BlockStmt) {
	r.insert(b.Lbrace+1, " "+yield)
	r.st["yields"]++
}

// walk visits n in source order, registering edits outside in.
func (r *rewriter) walk(n ast.Node) {
	ast.Inspect(n, func(n ast.Node) bool {
		if n == nil {
			return false
		}
		if r.skip[n] {
			return true
		}
		switch x := n.(type) {
		case *ast.ImportSpec:
			r.importSpec(x)
		case *ast.FuncDecl:
			if x.Body != nil && (!r.stmt || len(x.Body.List) == 0) {
				r.bodyStart(x.Body)
			}
		case *ast.FuncLit:
			if !r.stmt || len(x.Body.List) == 0 {
				r.bodyStart(x.Body)
			}
		case *ast.BlockStmt:
			r.stmts(x.List)
		case *ast.CaseClause:
			r.stmts(x.Body)
		case *ast.CommClause:
			r.stmts(x.Body)
		case *ast.ForStmt:
			if !r.stmt || len(x.Body.List) == 0 {
				r.bodyStart(x.Body)
			}
		case *ast.LabeledStmt:
			switch s := x.Stmt.(type) {
			case *ast.RangeStmt:
				if r.rangeStmt(s, x) {
					r.skip[s] = true
				}
			case *ast.SelectStmt:
				r.selectStmt(s, x)
				r.skip[s] = true
			}
		case *ast.RangeStmt:
			if !r.rangeStmt(x, nil) && (!r.stmt || len(x.Body.List) == 0) {
				r.bodyStart(x.Body)
			}
		case *ast.SelectStmt:
			r.selectStmt(x, nil)
		case *ast.GoStmt:
			r.goStmt(x)
		case *ast.SendStmt:
			r.st["sends"]++
			r.replace(x.Pos(), x.End(), func(id int) string {
				return rt + ".S(" + r.text(x.Chan, id) + ").Send(" + r.text(x.Value, id) + ")"
			})
		case *ast.AssignStmt:
			if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
				r.markRecv2(x.Rhs[0])
			}
		case *ast.ValueSpec:
			if len(x.Names) == 2 && len(x.Values) == 1 {
				r.markRecv2(x.Values[0])
			}
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				m := ".Recv()"
				if r.recv2[x] {
					m = ".Recv2()"
				}
				r.st["receives"]++
				r.replace(x.Pos(), x.End(), func(id int) string {
					return rt + ".R(" + r.text(x.X, id) + ")" + m
				})
			}
		case *ast.CallExpr:
			r.call(x)
		case *ast.SelectorExpr:
			if o, ok := r.info.Uses[x.Sel].(*types.Func); ok && runtimeFuncs[o.FullName()] {
				if id, ok := x.X.(*ast.Ident); ok {
					r.replace(x.Pos(), x.End(), func(int) string { return rt + "." + x.Sel.Name })
					r.tail = append(r.tail, "var _ = "+id.Name+".Stack")
				}
			}
			if o := r.info.Uses[x.Sel]; o != nil && o.Pkg() != nil && o.Pkg().Path() == "io" && strings.HasPrefix(x.Sel.Name, "Pipe") {
				if id, ok := x.X.(*ast.Ident); ok {
					if !r.sio {
						r.sio = true
						r.insert(r.file.Name.End(), "; import simsio \""+modPath+"sio\"")
					}
					r.st["pipes"]++
					r.replace(x.Pos(), x.End(), func(int) string { return "simsio." + x.Sel.Name })
					r.tail = append(r.tail, "var _ = "+id.Name+".EOF")
				}
			}
		}
		return true
	})
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func (r *rewriter) markRecv2(e ast.Expr) {
	if u, ok := unparen(e).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
		r.recv2[u] = true
	}
}

func (r *rewriter) importSpec(x *ast.ImportSpec) {
	path, _ := strconv.Unquote(x.Path.Value)
	to := importMap[path]
	if to == "" {
		return
	}
	r.st["import "+path]++
	if x.Name == nil {
		r.replace(x.Path.Pos(), x.Path.End(), func(int) string {
			return importName[path] + " \"" + modPath + to + "\""
		})
		return
	}
	r.replace(x.Path.Pos(), x.Path.End(), func(int) string { return "\"" + modPath + to + "\"" })
}

// core returns the core type of an expression's type.
func (r *rewriter) core(e ast.Expr) types.Type {
	tv, ok := r.info.Types[e]
	if !ok || tv.Type == nil {
		return nil
	}
	return coreType(tv.Type)
}

func coreType(t types.Type) types.Type {
	tp, ok := types.Unalias(t).(*types.TypeParam)
	if !ok {
		return t.Underlying()
	}
	iface, ok := tp.Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var u types.Type
	for i := 0; i < iface.NumEmbeddeds(); i++ {
		var terms []types.Type
		switch e := iface.EmbeddedType(i).(type) {
		case *types.Union:
			for j := 0; j < e.Len(); j++ {
				terms = append(terms, e.Term(j).Type())
			}
		default:
			terms = append(terms, e)
		}
		for _, t := range terms {
			c := coreType(t)
			if c == nil {
				continue
			}
			if _, isI := c.(*types.Interface); isI {
				if n, ok := t.(*types.Named); ok {
					_ = n
				}
				continue
			}
			if u == nil {
				u = c
			}
		}
	}
	return u
}

func (r *rewriter) call(x *ast.CallExpr) {
	id, ok := unparen(x.Fun).(*ast.Ident)
	if !ok || len(x.Args) != 1 {
		return
	}
	b, ok := r.info.Uses[id].(*types.Builtin)
	if !ok {
		return
	}
	if _, ok := r.core(x.Args[0]).(*types.Chan); !ok {
		return
	}
	switch b.Name() {
	case "close":
		r.st["closes"]++
		r.replace(x.Pos(), x.End(), func(id int) string {
			return rt + ".S(" + r.text(x.Args[0], id) + ").Close()"
		})
	case "len":
		r.replace(x.Pos(), x.End(), func(id int) string {
			return rt + ".R(" + r.text(x.Args[0], id) + ").Len()"
		})
	}
}

func isBlank(e ast.Expr) bool {
	if e == nil {
		return true
	}
	id, ok := e.(*ast.Ident)
	return ok && id.Name == "_"
}

// rangeStmt rewrites loops over maps and channels.
func (r *rewriter) rangeStmt(x *ast.RangeStmt, label *ast.LabeledStmt) bool {
	var isMap bool
	switch r.core(x.X).(type) {
	case *types.Map:
		isMap = true
		r.st["map ranges"]++
	case *types.Chan:
		r.st["chan ranges"]++
	default:
		return false
	}
	start := x.Pos()
	lab := ""
	if label != nil {
		start = label.Pos()
		lab = label.Label.Name + ": "
	}
	it := r.name("It")
	r.replace(start, x.End(), func(id int) string {
		var sb strings.Builder
		sb.WriteString("{ ")
		var lhs []string
		blank := true
		for _, e := range []ast.Expr{x.Key, x.Value} {
			if e != nil {
				lhs = append(lhs, r.text(e, id))
				blank = blank && isBlank(e)
			}
		}
		define := x.Tok == token.DEFINE && !blank
		var uses []string
		for _, l := range lhs {
			if l != "_" {
				uses = append(uses, l)
			}
		}
		use := strings.Repeat("_, ", len(uses))
		use = strings.TrimSuffix(use, ", ") + " = " + strings.Join(uses, ", ") + "; "
		xs := r.text(x.X, id)
		body := r.text(x.Body, id)
		y := ""
		if len(x.Body.List) == 0 || !r.stmt {
			y = yield
		}
		if isMap {
			for len(lhs) > 0 && len(lhs) < 2 {
				lhs = append(lhs, "_")
			}
			ls := strings.Join(lhs, ", ")
			fmt.Fprintf(&sb, "%s := %s.MapIter(%s); ", it, rt, xs)
			if define && !r.perIter {
				fmt.Fprintf(&sb, "%s := %s.Zero(); %s", ls, it, use)
			}
			fmt.Fprintf(&sb, "%sfor %s.Next() { %s", lab, it, y)
			switch {
			case blank:
			case define && r.perIter:
				fmt.Fprintf(&sb, "%s := %s.K, %s.V; %s", ls, it, it, use)
			default:
				fmt.Fprintf(&sb, "%s = %s.K, %s.V; ", ls, it, it)
			}
			sb.WriteString(body + " } }")
			return sb.String()
		}
		fmt.Fprintf(&sb, "%s := %s.R(%s); ", it, rt, xs)
		if define && !r.perIter {
			fmt.Fprintf(&sb, "%s := %s.Zero(); %s", lhs[0], it, use)
		}
		v, ok := r.name("V"), r.name("Ok")
		fmt.Fprintf(&sb, "%sfor { %s%s, %s := %s.Recv2(); if !%s { break }; _ = %s; ", lab, y, v, ok, it, ok, v)
		switch {
		case blank:
		case define && r.perIter:
			fmt.Fprintf(&sb, "%s := %s; %s", lhs[0], v, use)
		default:
			fmt.Fprintf(&sb, "%s = %s; ", lhs[0], v)
		}
		sb.WriteString(body + " } }")
		return sb.String()
	})
	return true
}

func (r *rewriter) selectStmt(x *ast.SelectStmt, label *ast.LabeledStmt) {
	r.st["selects"]++
	start := x.Pos()
	lab := ""
	if label != nil {
		start = label.Pos()
		lab = label.Label.Name + ": "
	}
	type sc struct {
		cl   *ast.CommClause
		send *ast.SendStmt
		recv *ast.UnaryExpr
		asg  *ast.AssignStmt
		name string
	}
	if len(x.Body.List) == 0 {
		r.replace(x.Pos(), x.End(), func(int) string {
			return "{ " + rt + ".Select(false); panic(\"unreachable\") }"
		})
		return
	}
	var cases []*sc
	hasDefault := false
	for _, s := range x.Body.List {
		cl := s.(*ast.CommClause)
		if cl.Comm == nil {
			hasDefault = true
			continue
		}
		c := &sc{cl: cl, name: r.name("C")}
		switch m := cl.Comm.(type) {
		case *ast.SendStmt:
			c.send = m
			r.skip[m] = true
		case *ast.ExprStmt:
			c.recv = unparen(m.X).(*ast.UnaryExpr)
		case *ast.AssignStmt:
			c.asg = m
			r.skip[m] = true
			c.recv = unparen(m.Rhs[0]).(*ast.UnaryExpr)
		}
		if c.recv != nil {
			r.skip[c.recv] = true
		}
		cases = append(cases, c)
	}
	// Everything up to the opening brace.
	r.replace(start, x.Body.Lbrace+1, func(id int) string {
		var sb strings.Builder
		sb.WriteString("{ ")
		var names []string
		for _, c := range cases {
			if c.send != nil {
				fmt.Fprintf(&sb, "%s := %s.S(%s).SendCase(%s); ", c.name, rt, r.text(c.send.Chan, id), r.text(c.send.Value, id))
			} else {
				fmt.Fprintf(&sb, "%s := %s.R(%s).RecvCase(); ", c.name, rt, r.text(c.recv.X, id))
			}
			names = append(names, c.name)
		}
		args := append([]string{strconv.FormatBool(hasDefault)}, names...)
		fmt.Fprintf(&sb, "%sswitch %s.Select(%s) {", lab, rt, strings.Join(args, ", "))
		return sb.String()
	})
	for i, c := range cases {
		r.replace(c.cl.Pos(), c.cl.Colon+1, func(id int) string {
			var sb strings.Builder
			fmt.Fprintf(&sb, "case %d: ", i)
			if c.asg != nil {
				var lhs []string
				blank := true
				for _, e := range c.asg.Lhs {
					lhs = append(lhs, r.text(e, id))
					blank = blank && isBlank(e)
				}
				tok := c.asg.Tok.String()
				if blank {
					tok = "="
				}
				m := "Val()"
				if len(lhs) == 2 {
					m = "Val2()"
				}
				fmt.Fprintf(&sb, "%s %s %s.%s; ", strings.Join(lhs, ", "), tok, c.name, m)
			}
			return sb.String()
		})
	}
	end := " }"
	if !hasDefault {
		end = "; default: panic(\"unreachable\") } "
		r.replace(x.Body.Rbrace, x.Body.Rbrace+1, func(int) string { return end + "}" })
		return
	}
	r.replace(x.Body.Rbrace, x.Body.Rbrace+1, func(int) string { return "}" + end })
}

func (r *rewriter) goStmt(x *ast.GoStmt) {
	r.st["go statements"]++
	c := x.Call
	r.skip[c] = false
	fun := unparen(c.Fun)
	if lit, ok := fun.(*ast.FuncLit); ok && len(c.Args) == 0 && lit.Type.Results == nil {
		r.replace(x.Pos(), x.End(), func(id int) string {
			return rt + ".Go(" + r.text(lit, id) + ")"
		})
		return
	}
	direct := false
	base := fun
	if ix, ok := base.(*ast.IndexExpr); ok {
		base = ix.X
	} else if ix, ok := base.(*ast.IndexListExpr); ok {
		base = ix.X
	}
	var obj types.Object
	switch f := base.(type) {
	case *ast.Ident:
		obj = r.info.Uses[f]
	case *ast.SelectorExpr:
		obj = r.info.Uses[f.Sel]
	}
	builtin := ""
	switch o := obj.(type) {
	case *types.Builtin:
		direct = true
		builtin = o.Name()
	case *types.Func:
		if s, ok := o.Type().(*types.Signature); ok && s.Recv() == nil {
			direct = true
		}
	}
	if builtin != "" {
		r.skip[c] = true // its channel argument is rewritten here
	}
	fn := r.name("F")
	r.replace(x.Pos(), x.End(), func(id int) string {
		var pre strings.Builder
		call := fn
		if direct {
			call = r.text(c.Fun, id)
		} else {
			fmt.Fprintf(&pre, "%s := %s; ", fn, r.text(c.Fun, id))
		}
		var args []string
		for _, a := range c.Args {
			tv := r.info.Types[a]
			if tup, ok := tv.Type.(*types.Tuple); ok {
				for i := 0; i < tup.Len(); i++ {
					args = append(args, r.name("A"))
				}
				fmt.Fprintf(&pre, "%s := %s; ", strings.Join(args, ", "), r.text(a, id))
				continue
			}
			if tv.Value != nil || tv.IsNil() || tv.IsType() {
				args = append(args, r.text(a, id))
				continue
			}
			n := r.name("A")
			fmt.Fprintf(&pre, "%s := %s; ", n, r.text(a, id))
			args = append(args, n)
		}
		list := strings.Join(args, ", ")
		if c.Ellipsis.IsValid() {
			list += "..."
		}
		body := call + "(" + list + ")"
		if builtin == "close" {
			body = rt + ".S(" + list + ").Close()"
		} else if builtin == "recover" || builtin == "print" || builtin == "println" || builtin == "panic" || builtin == "delete" || builtin == "copy" || builtin == "clear" {
			body = builtin + "(" + list + ")"
		}
		return "{ " + pre.String() + rt + ".Go(func() { " + body + " }) }"
	})
}
