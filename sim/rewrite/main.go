// rewrite reads a Go module and writes a copy of it in which every source of
// nondeterminism goes through the simulator runtime (simrt) and the shims.
// It judges nothing and knows nothing of the module's logic: it is a purely
// syntactic/type-directed transformation of Go constructs.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type listPkg struct {
	ImportPath string
	Name       string
	Dir        string
	Export     string
	GoFiles    []string
	Standard   bool
	Module     *struct{ Path, Dir string }
	Imports    []string
}

// Import paths that are redirected to shims.
var shimmed = map[string]bool{
	"time": true, "sync": true, "os": true, "os/user": true, "io/ioutil": true,
	"net": true, "net/http": true, "flag": true, "math/rand": true, "math/rand/v2": true,
	"crypto/rand": true, "crypto/ecdsa": true, "context": true, "runtime": true,
	"runtime/debug": true, "fmt": true, "log": true, "os/signal": true,
	"io": true, "maps": true, "path/filepath": true,
}

// Functions whose result the harness may inspect or replace.
var tapped = map[string][]string{
	"pkg/core": {"DevNetParams", "ProdNetParams"},
}

var (
	modPath string
	fset    = token.NewFileSet()
)

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "rewrite: "+f+"\n", a...)
	os.Exit(2)
}

func main() {
	src := flag.String("src", "/repo", "module to read")
	out := flag.String("out", "", "directory to write")
	shims := flag.String("shims", "", "directory of hand-written shims")
	tags := flag.String("tags", "verif", "build tags")
	flag.Parse()
	pkgs := goList(*src, *tags)
	exports := map[string]string{}
	for _, p := range pkgs {
		exports[p.ImportPath] = p.Export
	}
	// Also need export data of every shimmed package.
	var extra []string
	for s := range shimmed {
		if exports[s] == "" {
			extra = append(extra, s)
		}
	}
	sort.Strings(extra)
	if len(extra) > 0 {
		for _, p := range goList(*src, *tags, extra...) {
			if exports[p.ImportPath] == "" {
				exports[p.ImportPath] = p.Export
			}
		}
	}
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		f := exports[path]
		if f == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(f)
	})
	for _, p := range pkgs {
		if p.Module == nil || p.Standard {
			continue
		}
		if modPath == "" {
			modPath = p.Module.Path
		}
		if p.Module.Path != modPath {
			die("unexpected dependency module %s", p.Module.Path)
		}
	}
	var mods []*modPkg
	for _, p := range pkgs {
		if p.Module == nil || p.Standard {
			continue
		}
		m := loadPkg(p, imp, *src)
		m.findMutated()
		mods = append(mods, m)
	}
	for _, m := range mods {
		m.rewrite(*out)
	}
	for s := range shimmed {
		genShim(s, imp, *shims, *out)
	}
}

func goList(dir, tags string, args ...string) []listPkg {
	if len(args) == 0 {
		args = []string{"./..."}
	}
	cmd := exec.Command("go", append([]string{"list", "-deps", "-export", "-json=ImportPath,Name,Dir,Export,GoFiles,Standard,Module,Imports", "-tags", tags}, args...)...)
	cmd.Dir = dir
	var eb bytes.Buffer
	cmd.Stderr = &eb
	b, err := cmd.Output()
	if err != nil {
		die("go list: %v\n%s", err, eb.String())
	}
	dec := json.NewDecoder(bytes.NewReader(b))
	var out []listPkg
	for {
		var p listPkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			die("go list json: %v", err)
		}
		out = append(out, p)
	}
	return out
}

// modPkg is one package of the module.
type modPkg struct {
	listPkg
	rel   string
	files []*ast.File
	texts [][]byte
	info  *types.Info
	tp    *types.Package
}

// mutated holds the package-level variables ("path.name") that some code of the
// module assigns to or takes the address of.
var mutated = map[string]bool{}

func loadPkg(p listPkg, imp types.Importer, src string) *modPkg {
	m := &modPkg{listPkg: p}
	for _, f := range p.GoFiles {
		b, err := os.ReadFile(filepath.Join(p.Dir, f))
		if err != nil {
			die("%v", err)
		}
		af, err := parser.ParseFile(fset, filepath.Join(p.Dir, f), b, parser.SkipObjectResolution)
		if err != nil {
			die("%v", err)
		}
		m.files = append(m.files, af)
		m.texts = append(m.texts, b)
	}
	m.info = &types.Info{
		Types:     map[ast.Expr]types.TypeAndValue{},
		Uses:      map[*ast.Ident]types.Object{},
		Defs:      map[*ast.Ident]types.Object{},
		Instances: map[*ast.Ident]types.Instance{},
	}
	conf := types.Config{Importer: imp, Sizes: types.SizesFor("gc", "amd64"), GoVersion: "go1.27"}
	var err error
	if m.tp, err = conf.Check(p.ImportPath, fset, m.files, m.info); err != nil {
		die("type check %s: %v", p.ImportPath, err)
	}
	if m.rel, err = filepath.Rel(src, p.Dir); err != nil {
		die("%v", err)
	}
	return m
}

// pkgVar returns the package-level variable of this module that e denotes.
func (m *modPkg) pkgVar(e ast.Expr) *types.Var {
	var id *ast.Ident
	switch e := ast.Unparen(e).(type) {
	case *ast.Ident:
		id = e
	case *ast.SelectorExpr:
		id = e.Sel
	default:
		return nil
	}
	v, ok := m.info.Uses[id].(*types.Var)
	if !ok || v.Pkg() == nil || v.Parent() != v.Pkg().Scope() {
		return nil
	}
	return v
}

func (m *modPkg) findMutated() {
	mark := func(e ast.Expr) {
		if v := m.pkgVar(e); v != nil {
			mutated[v.Pkg().Path()+"."+v.Name()] = true
		}
	}
	for _, f := range m.files {
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.AssignStmt:
				for _, e := range n.Lhs {
					mark(e)
				}
			case *ast.IncDecStmt:
				mark(n.X)
			case *ast.RangeStmt:
				if n.Key != nil {
					mark(n.Key)
				}
				if n.Value != nil {
					mark(n.Value)
				}
			case *ast.UnaryExpr:
				if n.Op == token.AND {
					mark(n.X)
				}
			}
			return true
		})
	}
}

// fixed reports whether a package-level variable can never differ between two
// processes: of a type without state of its own, and never assigned to.
func (m *modPkg) fixed(v *types.Var, val ast.Expr) bool {
	if mutated[m.tp.Path()+"."+v.Name()] {
		return false
	}
	switch t := v.Type().(type) {
	case *types.Basic:
		return true
	case *types.Signature:
		_, lit := ast.Unparen(val).(*ast.FuncLit)
		return lit
	case *types.Named:
		return t.Obj().Pkg() == nil && t.Obj().Name() == "error"
	}
	return false
}

// rewrite writes the package. Its package-level variables become state of the
// simulated process: they are initialised anew when a process starts, and
// exchanged when another process's task runs.
func (m *modPkg) rewrite(out string) {
	od := filepath.Join(out, m.rel)
	if err := os.MkdirAll(od, 0o755); err != nil {
		die("%v", err)
	}
	var vars, steps []string
	isVar := map[string]bool{}
	inits := map[*ast.Ident]string{}
	var initNames []string
	for _, af := range m.files {
		for _, d := range af.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Recv == nil && d.Name.Name == "init" {
					nm := fmt.Sprintf("init__%d", len(initNames))
					inits[d.Name] = nm
					initNames = append(initNames, nm)
				}
			case *ast.GenDecl:
				if d.Tok != token.VAR {
					continue
				}
				for _, s := range d.Specs {
					vs := s.(*ast.ValueSpec)
					for i, id := range vs.Names {
						v, _ := m.info.Defs[id].(*types.Var)
						var val ast.Expr
						if len(vs.Values) == len(vs.Names) {
							val = vs.Values[i]
						}
						if id.Name == "_" || v == nil || m.fixed(v, val) {
							continue
						}
						isVar[id.Name] = true
						vars = append(vars, id.Name)
					}
				}
			}
		}
	}
	fileOf := func(p token.Pos) int {
		for i, af := range m.files {
			if af.FileStart <= p && p <= af.FileEnd {
				return i
			}
		}
		return -1
	}
	type initStep struct {
		name string
		lhs  []string
		rhs  ast.Expr
	}
	byFile := map[int][]initStep{}
	for i, in := range m.info.InitOrder {
		var lhs []string
		need := false
		for _, v := range in.Lhs {
			if isVar[v.Name()] {
				need = true
				lhs = append(lhs, v.Name())
			} else {
				lhs = append(lhs, "_")
			}
		}
		if !need {
			continue
		}
		nm := fmt.Sprintf("initvar__%d", i)
		k := fileOf(in.Rhs.Pos())
		byFile[k] = append(byFile[k], initStep{nm, lhs, in.Rhs})
		steps = append(steps, nm)
	}
	for i, af := range m.files {
		r := &rw{src: m.texts[i], file: af, info: m.info, pkg: m.tp, rel: m.rel, tf: fset.File(af.Pos()), inits: inits}
		txt := r.run()
		for _, st := range byFile[i] {
			txt += fmt.Sprintf("\nfunc %s() { %s = %s }\n", st.name, strings.Join(st.lhs, ", "), r.renderNode(st.rhs))
		}
		if err := os.WriteFile(filepath.Join(od, m.GoFiles[i]), []byte(txt), 0o644); err != nil {
			die("%v", err)
		}
	}
	if len(vars)+len(initNames) == 0 {
		return
	}
	name := m.files[0].Name.Name
	if name == "main" {
		name = mainName(m.rel)
	}
	var b strings.Builder
	fmt.Fprintf(&b, "package %s\n\nimport %s %q\n\nfunc init() {\n\t%s.RegPkg(func() {\n", name, rt, modPath+"/verifsim/simrt", rt)
	for _, v := range vars {
		fmt.Fprintf(&b, "\t\t%s.Zero(&%s)\n", rt, v)
	}
	for _, st := range append(steps, initNames...) {
		fmt.Fprintf(&b, "\t\t%s()\n", st)
	}
	b.WriteString("\t},\n")
	for _, v := range vars {
		fmt.Fprintf(&b, "\t\t%s.Global(&%s),\n", rt, v)
	}
	b.WriteString("\t)\n}\n")
	if err := os.WriteFile(filepath.Join(od, "zz_globals__.go"), []byte(b.String()), 0o644); err != nil {
		die("%v", err)
	}
}

func mainName(rel string) string { return "main_" + strings.ReplaceAll(filepath.Base(rel), "-", "_") }

type edit struct {
	s, e int
	suf  bool
	seq  int
	gen  func() string
}

type rw struct {
	src       []byte
	file      *ast.File
	tf        *token.File
	info      *types.Info
	pkg       *types.Package
	rel       string
	edits     []edit
	n         int
	skipIndex map[ast.Expr]bool // index expressions not to wrap
	seq, min  int
	inits     map[*ast.Ident]string // new names of init functions
}

const rt = "simrt__"

func (r *rw) off(p token.Pos) int { return r.tf.Offset(p) }

func (r *rw) add(s, e int, suf bool, gen func() string) {
	r.edits = append(r.edits, edit{s, e, suf, r.reserve(), gen})
}
func (r *rw) reserve() int { r.seq++; return r.seq }
func (r *rw) pre(p token.Pos, t string) {
	o := r.off(p)
	r.add(o, o, false, func() string { return t })
}
func (r *rw) suf(p token.Pos, t string) { o := r.off(p); r.add(o, o, true, func() string { return t }) }
func (r *rw) repl(s, e token.Pos, t string) {
	r.add(r.off(s), r.off(e), false, func() string { return t })
}
func (r *rw) replGen(s, e token.Pos, g func() string) { r.add(r.off(s), r.off(e), false, g) }

func (r *rw) fresh(p string) string { r.n++; return fmt.Sprintf("_%s%d__", p, r.n) }

// render returns the source between two offsets with the edits inside applied.
func (r *rw) render(lo, hi int) string {
	// edits are sorted; pick those inside [lo,hi] that are outermost.
	var b strings.Builder
	pos := lo
	for _, e := range r.edits {
		if e.s < lo || e.e > hi || e.s < pos || e.seq <= r.min {
			continue
		}
		if e.s == e.e {
			// An insertion at the boundary belongs to the inside only in the right sense.
			if e.s == lo && e.suf {
				continue
			}
			if e.s == hi && !e.suf {
				continue
			}
		}
		b.Write(r.src[pos:e.s])
		b.WriteString(e.gen())
		pos = e.e
	}
	b.Write(r.src[pos:hi])
	return b.String()
}

// renderNode renders a node; edits that replace the node exactly are applied too.
func (r *rw) renderNode(n ast.Node) string { return r.render(r.off(n.Pos()), r.off(n.End())) }

func (r *rw) sortEdits() {
	sort.SliceStable(r.edits, func(i, j int) bool {
		a, b := r.edits[i], r.edits[j]
		if a.s != b.s {
			return a.s < b.s
		}
		ai, bi := a.s == a.e, b.s == b.e
		// suffix insertions, then prefix insertions and replacements in visiting order
		ra, rb := 1, 1
		if ai && a.suf {
			ra = 0
		}
		if bi && b.suf {
			rb = 0
		}
		if ra != rb {
			return ra < rb
		}
		if ra == 0 {
			return a.seq < b.seq // inner suffixes are added first
		}
		return a.seq < b.seq
	})
}

func (r *rw) typ(e ast.Expr) types.Type {
	if tv, ok := r.info.Types[e]; ok {
		return tv.Type
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := r.info.Uses[id]; o != nil {
			return o.Type()
		}
		if o := r.info.Defs[id]; o != nil {
			return o.Type()
		}
	}
	return nil
}

func under(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if tp, ok := t.(*types.TypeParam); ok {
		if c := coreType(tp); c != nil {
			return c
		}
		return t
	}
	return t.Underlying()
}

func coreType(tp *types.TypeParam) types.Type {
	iface, ok := tp.Constraint().Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var core types.Type
	for i := 0; i < iface.NumEmbeddeds(); i++ {
		t := iface.EmbeddedType(i)
		if u, ok := t.(*types.Union); ok {
			if u.Len() != 1 {
				return nil
			}
			t = u.Term(0).Type()
		}
		core = t.Underlying()
	}
	return core
}

func (r *rw) isChan(e ast.Expr) bool { _, ok := under(r.typ(e)).(*types.Chan); return ok }
func (r *rw) isMap(e ast.Expr) bool  { _, ok := under(r.typ(e)).(*types.Map); return ok }

func (r *rw) isBuiltin(e ast.Expr, name string) bool {
	id, ok := ast.Unparen(e).(*ast.Ident)
	if !ok || id.Name != name {
		return false
	}
	_, ok = r.info.Uses[id].(*types.Builtin)
	return ok
}

func (r *rw) isConst(e ast.Expr) bool {
	tv, ok := r.info.Types[e]
	return ok && (tv.Value != nil || tv.IsNil())
}

func (r *rw) run() string {
	r.skipIndex = map[ast.Expr]bool{}
	f := r.file
	// Package clause: main packages become importable.
	name := f.Name.Name
	if name == "main" {
		name = mainName(r.rel)
		r.repl(f.Name.Pos(), f.Name.End(), name)
	}
	r.suf(f.Name.End(), "; import "+rt+" \""+modPath+"/verifsim/simrt\"")
	for _, im := range f.Imports {
		path, _ := strconv.Unquote(im.Path.Value)
		if shimmed[path] {
			nm := ""
			if im.Name == nil {
				nm = filepath.Base(path) + " "
				if path == "math/rand/v2" {
					nm = "rand "
				}
			}
			r.repl(im.Path.Pos(), im.Path.End(), nm+strconv.Quote(modPath+"/verifsim/shim/"+path))
		}
	}
	taps := map[string]bool{}
	for _, t := range tapped[r.rel] {
		taps[t] = true
	}
	tail := "\nvar _ = " + rt + ".Y\n"
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			if d.Recv == nil && d.Name.Name == "main" && f.Name.Name == "main" {
				r.repl(d.Name.Pos(), d.Name.End(), "Main__")
			}
			if nm := r.inits[d.Name]; nm != "" {
				r.repl(d.Name.Pos(), d.Name.End(), nm)
			}
			if d.Recv == nil && taps[d.Name.Name] && d.Type.TypeParams == nil && d.Type.Results != nil &&
				d.Type.Results.NumFields() == 1 && d.Type.Params.NumFields() == 0 {
				nm := d.Name.Name
				r.repl(d.Name.Pos(), d.Name.End(), nm+"__orig")
				res := d.Type.Results
				tail += "\nfunc " + nm + "() " + string(r.src[r.off(res.Pos()):r.off(res.End())]) +
					" { return " + rt + ".Tap(" + strconv.Quote(r.rel+"."+nm) + ", " + nm + "__orig()) }\n"
			}
			if d.Recv != nil {
				r.expr0(d.Recv)
			}
			r.expr0(d.Type)
			if d.Body != nil {
				r.block(d.Body)
			}
		default:
			r.expr0(d)
		}
	}
	r.sortEdits()
	return r.render(0, len(r.src)) + tail
}

func (r *rw) block(b *ast.BlockStmt) {
	if b != nil {
		r.stmts(b.List)
	}
}

func (r *rw) stmts(l []ast.Stmt) {
	for _, s := range l {
		if _, ok := s.(*ast.EmptyStmt); ok {
			continue
		}
		if _, ok := s.(*ast.LabeledStmt); !ok {
			r.pre(s.Pos(), rt+".Y();")
		}
		r.stmt(s, true)
	}
}

// pureLHS: an addressable expression evaluated without calls or receives.
func pureExpr(e ast.Expr) bool {
	ok := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.CallExpr, *ast.FuncLit:
			ok = false
		case *ast.UnaryExpr:
			if n.Op == token.ARROW {
				ok = false
			}
		}
		return ok
	})
	return ok
}

func (r *rw) stmt(s ast.Stmt, inList bool) {
	switch s := s.(type) {
	case nil:
	case *ast.BlockStmt:
		r.block(s)
	case *ast.LabeledStmt:
		r.stmt(s.Stmt, false)
	case *ast.ExprStmt:
		r.expr(s.X)
	case *ast.SendStmt:
		r.pre(s.Pos(), rt+".SendTo(")
		r.expr(s.Chan)
		r.repl(s.Arrow, s.Arrow+2, ")(")
		r.expr(s.Value)
		r.suf(s.End(), ")")
	case *ast.IncDecStmt:
		r.incDec(s, inList)
	case *ast.AssignStmt:
		r.assign(s, inList)
	case *ast.GoStmt:
		r.goStmt(s)
	case *ast.DeferStmt:
		r.expr(s.Call)
	case *ast.ReturnStmt:
		for _, e := range s.Results {
			r.expr(e)
		}
	case *ast.BranchStmt, *ast.EmptyStmt:
	case *ast.IfStmt:
		r.stmt(s.Init, false)
		r.expr(s.Cond)
		r.block(s.Body)
		r.stmt(s.Else, false)
	case *ast.SwitchStmt:
		r.stmt(s.Init, false)
		if s.Tag != nil {
			r.expr(s.Tag)
		}
		for _, c := range s.Body.List {
			cc := c.(*ast.CaseClause)
			for _, e := range cc.List {
				r.expr(e)
			}
			r.stmts(cc.Body)
		}
	case *ast.TypeSwitchStmt:
		r.stmt(s.Init, false)
		r.stmt(s.Assign, false)
		for _, c := range s.Body.List {
			cc := c.(*ast.CaseClause)
			for _, e := range cc.List {
				r.expr(e)
			}
			r.stmts(cc.Body)
		}
	case *ast.SelectStmt:
		r.selectStmt(s)
	case *ast.ForStmt:
		r.stmt(s.Init, false)
		if s.Cond != nil {
			r.expr(s.Cond)
		}
		r.stmt(s.Post, false)
		r.block(s.Body)
		r.pre(s.Body.Lbrace+1, rt+".Y();")
	case *ast.RangeStmt:
		r.rangeStmt(s)
	case *ast.DeclStmt:
		r.expr0(s.Decl)
	default:
		die("unknown statement %T", s)
	}
}

// nonLocal reports whether a location may be shared between tasks.
func (r *rw) nonLocal(e ast.Expr) bool {
	switch e := ast.Unparen(e).(type) {
	case *ast.SelectorExpr, *ast.StarExpr, *ast.IndexExpr:
		return true
	case *ast.Ident:
		o := r.info.Uses[e]
		v, ok := o.(*types.Var)
		return ok && v.Parent() == r.pkg.Scope()
	}
	return false
}

func (r *rw) mapIndex(e ast.Expr) *ast.IndexExpr {
	ix, ok := ast.Unparen(e).(*ast.IndexExpr)
	if ok && r.isMap(ix.X) {
		return ix
	}
	return nil
}

func (r *rw) incDec(s *ast.IncDecStmt, inList bool) {
	q := r.reserve()
	op := "+"
	if s.Tok == token.DEC {
		op = "-"
	}
	if ix := r.mapIndex(s.X); ix != nil && pureExpr(s.X) {
		r.skipIndex[ix] = true
		r.expr(s.X)
		r.replGen(s.X.End(), s.End(), func() string { return "" })
		lhs := func() string { return r.renderNode(ix) }
		_ = lhs
		r.wrapWhole(q, s.Pos(), s.X.End(), func() string {
			m, k := r.renderNode(ix.X), r.renderNode(ix.Index)
			return fmt.Sprintf("%s.MapSetIn(%s)(%s, %s.MapR(%s)[%s] %s 1)", rt, m, k, rt, m, k, op)
		})
		return
	}
	if inList && r.nonLocal(s.X) && pureExpr(s.X) {
		t := r.fresh("t")
		r.skipIndex[ast.Unparen(s.X)] = true
		r.expr(s.X)
		r.wrapWhole(q, s.Pos(), s.End(), func() string {
			x := r.renderNode(s.X)
			return fmt.Sprintf("{ %s := %s %s 1; %s.Y(); %s = %s }", t, x, op, rt, x, t)
		})
		return
	}
	r.expr(s.X)
}

// wrapWhole replaces a whole range by generated text (which may render inner
// nodes). q was reserved before the inner nodes were visited.
func (r *rw) wrapWhole(q int, s, e token.Pos, g func() string) {
	r.edits = append(r.edits, edit{r.off(s), r.off(e), false, q, func() string {
		old := r.min
		r.min = q
		defer func() { r.min = old }()
		return g()
	}})
}

func (r *rw) assign(s *ast.AssignStmt, inList bool) {
	q := r.reserve()
	if s.Tok == token.DEFINE {
		for _, e := range s.Rhs {
			r.expr(e)
		}
		// v, ok := <-c
		r.commaOk(s)
		return
	}
	if len(s.Lhs) == 1 && len(s.Rhs) == 1 {
		lhs, rhs := s.Lhs[0], s.Rhs[0]
		if ix := r.mapIndex(lhs); ix != nil {
			if s.Tok == token.ASSIGN {
				r.skipIndex[ix] = true
				r.expr(ix.X)
				r.expr(ix.Index)
				r.expr(rhs)
				r.wrapWhole(q, s.Pos(), s.End(), func() string {
					return fmt.Sprintf("%s.MapSetIn(%s)(%s, %s)", rt, r.renderNode(ix.X), r.renderNode(ix.Index), r.renderNode(rhs))
				})
				return
			}
			if pureExpr(lhs) {
				r.skipIndex[ix] = true
				r.expr(ix.X)
				r.expr(ix.Index)
				r.expr(rhs)
				op := strings.TrimSuffix(s.Tok.String(), "=")
				r.wrapWhole(q, s.Pos(), s.End(), func() string {
					m, k := r.renderNode(ix.X), r.renderNode(ix.Index)
					return fmt.Sprintf("%s.MapSetIn(%s)(%s, %s.MapR(%s)[%s] %s (%s))", rt, m, k, rt, m, k, op, r.renderNode(rhs))
				})
				return
			}
		}
		if inList && r.nonLocal(lhs) && pureExpr(lhs) && !r.isConst(rhs) {
			lt, rtp := r.typ(lhs), r.typ(rhs)
			if _, isLit := ast.Unparen(rhs).(*ast.FuncLit); !isLit && lt != nil && rtp != nil {
				rtp = types.Default(rtp)
				if r.loose(rhs) && r.typeName(rtp) == "" || r.isFunc(rhs) {
					goto plain
				}
				r.skipIndex[ast.Unparen(lhs)] = true
				if s.Tok == token.ASSIGN {
					if types.AssignableTo(rtp, lt) {
						t := r.fresh("t")
						r.expr(lhs)
						r.expr(rhs)
						r.wrapWhole(q, s.Pos(), s.End(), func() string {
							return fmt.Sprintf("{ %s := %s; %s.Y(); %s = %s }", t, r.typed(rhs), rt, r.renderNode(lhs), t)
						})
						return
					}
				} else {
					t := r.fresh("t")
					r.expr(lhs)
					r.expr(rhs)
					op := strings.TrimSuffix(s.Tok.String(), "=")
					r.wrapWhole(q, s.Pos(), s.End(), func() string {
						x := r.renderNode(lhs)
						return fmt.Sprintf("{ %s := %s %s (%s); %s.Y(); %s = %s }", t, x, op, r.renderNode(rhs), rt, x, t)
					})
					return
				}
			}
		}
	}
plain:
	for _, e := range s.Lhs {
		r.skipIndex[ast.Unparen(e)] = true
		r.expr(e)
	}
	for _, e := range s.Rhs {
		r.expr(e)
	}
	r.commaOk(s)
}

// commaOk turns Recv into Recv2 for two-value receives (the receive itself has
// been rewritten by expr, which looks at the type recorded for it).
func (r *rw) commaOk(s *ast.AssignStmt) {}

func (r *rw) goStmt(s *ast.GoStmt) {
	q := r.reserve()
	c := s.Call
	if fl, ok := ast.Unparen(c.Fun).(*ast.FuncLit); ok && len(c.Args) == 0 && fl.Type.Results == nil {
		r.repl(s.Go, s.Go+2, rt+".Go(")
		r.expr(c.Fun)
		_ = fl
		r.repl(c.Lparen, c.Rparen+1, ")")
		return
	}
	for _, a := range c.Args {
		r.expr(a)
	}
	if id, ok := ast.Unparen(c.Fun).(*ast.Ident); ok {
		if _, isB := r.info.Uses[id].(*types.Builtin); isB {
			r.callFix(c)
			r.repl(s.Go, s.Go+2, rt+".Go(func() {")
			r.suf(s.End(), "})")
			return
		}
	}
	direct := r.isFunc(c.Fun) // a function of a package: no value to save
	r.expr(c.Fun)
	f := r.fresh("gf")
	r.wrapWhole(q, s.Pos(), s.End(), func() string {
		var b strings.Builder
		fn := f
		b.WriteString("{ ")
		if direct {
			fn = r.renderNode(c.Fun)
		} else {
			fmt.Fprintf(&b, "%s := %s; ", f, r.renderNode(c.Fun))
		}
		var args []string
		for i, a := range c.Args {
			if r.isConst(a) || r.isFunc(a) {
				args = append(args, r.renderNode(a))
				continue
			}
			if tup, ok := r.typ(a).(*types.Tuple); ok && len(c.Args) == 1 {
				for k := 0; k < tup.Len(); k++ {
					args = append(args, fmt.Sprintf("%s_%d", f, k))
				}
				fmt.Fprintf(&b, "%s := %s; ", strings.Join(args, ", "), r.renderNode(a))
				break
			}
			n := fmt.Sprintf("%s_%d", f, i)
			fmt.Fprintf(&b, "%s := %s; ", n, r.typed(a))
			if c.Ellipsis.IsValid() && i == len(c.Args)-1 {
				n += "..."
			}
			args = append(args, n)
		}
		fmt.Fprintf(&b, "%s.Go(func() { %s(%s) }) }", rt, fn, strings.Join(args, ", "))
		return b.String()
	})
}

// isFunc reports whether e names a function declared in a package.
func (r *rw) isFunc(e ast.Expr) bool {
	switch x := ast.Unparen(e).(type) {
	case *ast.IndexExpr:
		return r.isFunc(x.X)
	case *ast.IndexListExpr:
		return r.isFunc(x.X)
	case *ast.Ident:
		f, ok := r.info.Uses[x].(*types.Func)
		return ok && f.Type().(*types.Signature).Recv() == nil
	case *ast.SelectorExpr:
		f, ok := r.info.Uses[x.Sel].(*types.Func)
		return ok && f.Type().(*types.Signature).Recv() == nil
	}
	return false
}

// loose reports whether an expression may be untyped (and not constant): its
// type then comes from the context, which a temporary variable would lose.
func (r *rw) loose(e ast.Expr) bool {
	switch x := ast.Unparen(e).(type) {
	case *ast.BinaryExpr:
		switch x.Op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			return true
		case token.SHL, token.SHR:
			return r.isConst(x.X) || r.loose(x.X)
		}
		return r.loose(x.X) || r.loose(x.Y)
	case *ast.UnaryExpr:
		return x.Op != token.ARROW && x.Op != token.AND && r.loose(x.X)
	}
	return false
}

// typed renders an expression so that it has its type out of context too.
func (r *rw) typed(e ast.Expr) string {
	t := r.renderNode(e)
	if r.loose(e) {
		if n := r.typeName(r.typ(e)); n != "" {
			return n + "(" + t + ")"
		}
	}
	return t
}

// typeName spells a simple type in this file, or returns "".
func (r *rw) typeName(t types.Type) string {
	switch t := t.(type) {
	case *types.Basic:
		if t.Info()&types.IsUntyped == 0 {
			return t.Name()
		}
	case *types.Named:
		o := t.Obj()
		if t.TypeArgs().Len() > 0 || o.Pkg() == nil {
			return ""
		}
		if o.Pkg() == r.pkg {
			if o.Parent() == r.pkg.Scope() {
				return o.Name()
			}
			return ""
		}
		for _, im := range r.file.Imports {
			if p, _ := strconv.Unquote(im.Path.Value); p == o.Pkg().Path() {
				if im.Name == nil {
					return o.Pkg().Name() + "." + o.Name()
				}
				return im.Name.Name + "." + o.Name()
			}
		}
	}
	return ""
}

func (r *rw) selectStmt(s *ast.SelectStmt) {
	type cs struct {
		name string
		gen  func() string
	}
	var cases []cs
	hasDef := false
	idx := 0
	for _, c := range s.Body.List {
		cc := c.(*ast.CommClause)
		if cc.Comm == nil {
			hasDef = true
			r.stmts(cc.Body)
			continue
		}
		name := r.fresh("c")
		i := idx
		idx++
		var inject string
		switch cm := cc.Comm.(type) {
		case *ast.SendStmt:
			r.expr(cm.Chan)
			r.expr(cm.Value)
			cases = append(cases, cs{name, func() string {
				return fmt.Sprintf("%s.SendCaseTo(%s)(%s)", rt, r.renderNode(cm.Chan), r.renderNode(cm.Value))
			}})
		case *ast.ExprStmt:
			u := ast.Unparen(cm.X).(*ast.UnaryExpr)
			r.expr(u.X)
			cases = append(cases, cs{name, func() string { return fmt.Sprintf("%s.RecvCase(%s)", rt, r.renderNode(u.X)) }})
		case *ast.AssignStmt:
			u := ast.Unparen(cm.Rhs[0]).(*ast.UnaryExpr)
			r.expr(u.X)
			cases = append(cases, cs{name, func() string { return fmt.Sprintf("%s.RecvCase(%s)", rt, r.renderNode(u.X)) }})
			l := string(r.src[r.off(cm.Lhs[0].Pos()):r.off(cm.Lhs[0].End())])
			if len(cm.Lhs) == 1 && l == "_" {
				inject = ""
			} else if len(cm.Lhs) == 1 {
				inject = fmt.Sprintf(" %s %s %s.V;", l, cm.Tok, name)
			} else {
				l2 := string(r.src[r.off(cm.Lhs[1].Pos()):r.off(cm.Lhs[1].End())])
				inject = fmt.Sprintf(" %s, %s %s %s.V, %s.Ok;", l, l2, cm.Tok, name, name)
			}
		}
		// "case <comm>:" -> "case i: inject"
		r.replGen(cc.Case, cc.Colon+1, func() string { return fmt.Sprintf("case %d:%s", i, inject) })
		r.stmts(cc.Body)
	}
	r.replGen(s.Select, s.Body.Lbrace, func() string {
		var names, gens []string
		for _, c := range cases {
			names = append(names, c.name)
			gens = append(gens, c.gen())
		}
		if len(names) == 0 {
			return fmt.Sprintf("switch %s.Select(%v) ", rt, hasDef)
		}
		return fmt.Sprintf("switch %s := %s; %s.Select(%v, %s) ", strings.Join(names, ", "), strings.Join(gens, ", "), rt, hasDef, strings.Join(names, ", "))
	})
	if !hasDef {
		r.pre(s.Body.Rbrace, "default: panic(\"simrt: unreachable select\");")
	}
}

func (r *rw) rangeStmt(s *ast.RangeStmt) {
	txt := func(e ast.Expr) string {
		if e == nil {
			return "_"
		}
		return r.renderNode(e)
	}
	blank := func(e ast.Expr) bool {
		if e == nil {
			return true
		}
		id, ok := e.(*ast.Ident)
		return ok && id.Name == "_"
	}
	r.expr(s.X)
	switch {
	case r.isChan(s.X):
		c, ok := r.fresh("rc"), r.fresh("ro")
		v := r.fresh("rv")
		r.replGen(s.For, s.Body.Lbrace+1, func() string {
			asg := "_ = " + v + ";"
			if !blank(s.Key) {
				asg = fmt.Sprintf("%s = %s;", txt(s.Key), v)
				if s.Tok == token.DEFINE {
					return fmt.Sprintf("for %s, %s := %s.ChanRange(%s); ; { %s, %s := %s.Recv2(%s); if !%s { break }; %s",
						txt(s.Key), c, rt, r.renderNode(s.X), v, ok, rt, c, ok, asg)
				}
			}
			return fmt.Sprintf("for %s := %s; ; { %s, %s := %s.Recv2(%s); if !%s { break }; %s", c, r.renderNode(s.X), v, ok, rt, c, ok, asg)
		})
	case r.isMap(s.X):
		it := r.fresh("it")
		r.replGen(s.For, s.Body.Lbrace+1, func() string {
			kb, vb := blank(s.Key), blank(s.Value)
			m := r.renderNode(s.X)
			ka, va := "nil", "nil"
			if s.Tok == token.DEFINE {
				var names, init string
				switch {
				case !kb && !vb:
					names, init = txt(s.Key)+", "+txt(s.Value)+", "+it, "MapRangeKV"
				case !kb:
					names, init = txt(s.Key)+", "+it, "MapRangeK"
				case !vb:
					names, init = txt(s.Value)+", "+it, "MapRangeV"
				default:
					names, init = it, "MapRange"
				}
				if !kb {
					ka = "&" + txt(s.Key)
				}
				if !vb {
					va = "&" + txt(s.Value)
				}
				return fmt.Sprintf("for %s := %s.%s(%s); %s.Next(%s, %s); { %s.Y();", names, rt, init, m, it, ka, va, rt)
			}
			if !kb {
				ka = "&" + txt(s.Key)
			}
			if !vb {
				va = "&" + txt(s.Value)
			}
			return fmt.Sprintf("for %s := %s.MapRange(%s); %s.Next(%s, %s); { %s.Y();", it, rt, m, it, ka, va, rt)
		})
	default:
		if s.Key != nil && s.Tok == token.ASSIGN {
			r.skipIndex[s.Key] = true
			r.expr(s.Key)
			if s.Value != nil {
				r.skipIndex[s.Value] = true
				r.expr(s.Value)
			}
		}
		r.pre(s.Body.Lbrace+1, rt+".Y();")
	}
	r.block(s.Body)
}

// expr0 walks any node (declarations, types, expressions).
func (r *rw) expr0(n ast.Node) { r.walk(n) }
func (r *rw) expr(e ast.Expr) {
	if e != nil {
		r.walk(e)
	}
}

func (r *rw) callFix(c *ast.CallExpr) {
	switch {
	case r.isBuiltin(c.Fun, "close"):
		r.repl(c.Fun.Pos(), c.Fun.End(), rt+".Close")
	case r.isBuiltin(c.Fun, "delete"):
		r.repl(c.Fun.Pos(), c.Fun.End(), rt+".MapDeleteIn")
		r.repl(c.Args[0].End(), c.Args[1].Pos(), ")(")
	case r.isBuiltin(c.Fun, "len") && len(c.Args) == 1 && r.isChan(c.Args[0]):
		r.repl(c.Fun.Pos(), c.Fun.End(), rt+".ChanLen")
	case r.isBuiltin(c.Fun, "cap") && len(c.Args) == 1 && r.isChan(c.Args[0]):
		r.repl(c.Fun.Pos(), c.Fun.End(), rt+".ChanCap")
	}
}

func (r *rw) walk(n ast.Node) {
	ast.Inspect(n, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncLit:
			r.walk(n.Type)
			r.block(n.Body)
			return false
		case *ast.ChanType:
			r.repl(n.Begin, n.Value.Pos(), "*"+rt+".Chan[")
			r.walk(n.Value)
			r.suf(n.Value.End(), "]")
			return false
		case *ast.SelectorExpr:
			if v, ok := r.info.Uses[n.Sel].(*types.Var); ok && v.Pkg() != nil && v.Pkg().Path() == "os" && v.Name() == "Args" && v.Parent() == v.Pkg().Scope() {
				r.repl(n.Sel.Pos(), n.Sel.End(), "Args__()")
				return false
			}
		case *ast.UnaryExpr:
			if n.Op == token.ARROW {
				fn := "Recv"
				if tv, ok := r.info.Types[n]; ok {
					if tup, ok := tv.Type.(*types.Tuple); ok && tup.Len() == 2 {
						fn = "Recv2"
					}
				}
				r.repl(n.OpPos, n.OpPos+2, rt+"."+fn+"(")
				r.walk(n.X)
				r.suf(n.X.End(), ")")
				return false
			}
		case *ast.IndexExpr:
			if !r.skipIndex[n] && r.isMap(n.X) {
				if tv, ok := r.info.Types[n]; ok && tv.IsValue() {
					r.pre(n.X.Pos(), rt+".MapR(")
					r.walk(n.X)
					r.suf(n.X.End(), ")")
					r.walk(n.Index)
					return false
				}
			}
		case *ast.CallExpr:
			if r.isBuiltin(n.Fun, "make") && len(n.Args) >= 1 {
				r.makeCall(n)
				return false
			}
			r.callFix(n)
		}
		return true
	})
}

func (r *rw) makeCall(n *ast.CallExpr) {
	q := r.reserve()
	t := n.Args[0]
	switch u := under(r.typ(t)).(type) {
	case *types.Chan:
		_ = u
		if ct, ok := ast.Unparen(t).(*ast.ChanType); ok {
			r.walk(ct.Value)
			for _, a := range n.Args[1:] {
				r.walk(a)
			}
			r.wrapWhole(q, n.Pos(), n.End(), func() string {
				sz := "0"
				if len(n.Args) > 1 {
					sz = r.renderNode(n.Args[1])
				}
				return fmt.Sprintf("%s.MakeChan[%s](int(%s))", rt, r.renderNode(ct.Value), sz)
			})
			return
		}
		// named channel type
		r.walk(t)
		for _, a := range n.Args[1:] {
			r.walk(a)
		}
		r.wrapWhole(q, n.Pos(), n.End(), func() string {
			sz := "0"
			if len(n.Args) > 1 {
				sz = r.renderNode(n.Args[1])
			}
			return fmt.Sprintf("%s.MakeNamedChan[%s](int(%s))", rt, r.renderNode(t), sz)
		})
	case *types.Slice:
		r.walk(t)
		for i, a := range n.Args[1:] {
			r.walk(a)
			if r.isConst(a) {
				continue
			}
			if at, ok := ast.Unparen(t).(*ast.ArrayType); ok && (i == 1 || len(n.Args) == 2) {
				el := at.Elt
				r.pre(a.Pos(), rt+".MkLen(")
				o := r.off(a.End())
				r.add(o, o, true, func() string { return ", " + rt + ".SizeOf[" + r.renderNode(el) + "]())" })
			}
		}
	case *types.Map:
		r.walk(t)
		for _, a := range n.Args[1:] {
			r.walk(a)
			if !r.isConst(a) {
				r.pre(a.Pos(), rt+".MkMapLen(")
				r.suf(a.End(), ")")
			}
		}
	default:
		for _, a := range n.Args {
			r.walk(a)
		}
	}
}
