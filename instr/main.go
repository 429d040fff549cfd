// Command instr rewrites the Go sources of a module so that every source of nondeterminism goes through
// the controlled runtime zzv/vs, and writes a build overlay.  It works on whatever the sources currently
// are: the rewriting rules are syntactic/type based and know nothing about particular functions.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type listPkg struct {
	ImportPath string
	Dir        string
	Name       string
	GoFiles    []string
	Export     string
	Standard   bool
	Module     *struct{ Path string }
	ImportMap  map[string]string
}

var (
	repo    = flag.String("repo", "/repo", "repository")
	out     = flag.String("out", "", "output directory")
	harness = flag.String("harness", "", "directory with the zzv tree to overlay")
	nolvl   = flag.Bool("noleveldb", false, "do not shim leveldb")
)

const vsName = "zzvs"

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "instr: "+f+"\n", a...)
	os.Exit(2)
}

func main() {
	flag.Parse()
	cmd := exec.Command("go", "list", "-export", "-deps",
		"-json=ImportPath,Dir,Name,GoFiles,Export,Standard,Module,ImportMap", "./...")
	cmd.Dir = *repo
	cmd.Stderr = os.Stderr
	o, err := cmd.Output()
	if err != nil {
		die("go list: %v", err)
	}
	dec := json.NewDecoder(bytes.NewReader(o))
	exports := map[string]string{}
	var mine []listPkg
	modPath := ""
	mp, err := exec.Command("sh", "-c", "cd '"+*repo+"' && go list -m").Output()
	if err != nil {
		die("go list -m: %v", err)
	}
	modPath = strings.TrimSpace(string(mp))
	for {
		var p listPkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			die("decode: %v", err)
		}
		exports[p.ImportPath] = p.Export
		if p.Module != nil && p.Module.Path == modPath && !strings.Contains(p.ImportPath, "/mocks/") {
			mine = append(mine, p)
		}
	}
	overlay := map[string]string{}
	shim := map[string]string{
		"sync":                                modPath + "/zzv/sync",
		"golang.org/x/sync/errgroup":          modPath + "/zzv/errgroup",
		"github.com/rhansen/go-kairos/kairos": modPath + "/zzv/kairos",
		"math/rand/v2":                        modPath + "/zzv/rand2",
		"math/rand":                           modPath + "/zzv/rand1",
	}
	if !*nolvl {
		shim["github.com/syndtr/goleveldb/leveldb"] = modPath + "/zzv/leveldb"
	}
	for _, p := range mine {
		if len(p.GoFiles) == 0 {
			continue
		}
		fset := token.NewFileSet()
		var files []*ast.File
		var srcs [][]byte
		for _, f := range p.GoFiles {
			src, err := os.ReadFile(filepath.Join(p.Dir, f))
			if err != nil {
				die("%v", err)
			}
			af, err := parser.ParseFile(fset, filepath.Join(p.Dir, f), src, parser.ParseComments)
			if err != nil {
				die("%v", err)
			}
			files = append(files, af)
			srcs = append(srcs, src)
		}
		imap := p.ImportMap
		imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
			if m, ok := imap[path]; ok {
				path = m
			}
			e := exports[path]
			if e == "" {
				return nil, fmt.Errorf("no export data for %s", path)
			}
			return os.Open(e)
		})
		info := &types.Info{
			Types:      map[ast.Expr]types.TypeAndValue{},
			Uses:       map[*ast.Ident]types.Object{},
			Defs:       map[*ast.Ident]types.Object{},
			Selections: map[*ast.SelectorExpr]*types.Selection{},
		}
		conf := types.Config{Importer: imp, Error: func(error) {}}
		if _, err := conf.Check(p.ImportPath, fset, files, info); err != nil {
			die("type check %s: %v", p.ImportPath, err)
		}
		rel, _ := filepath.Rel(*repo, p.Dir)
		for i, af := range files {
			r := &rw{base: p.GoFiles[i], fset: fset, src: srcs[i], info: info, file: af, shim: shim, modPath: modPath, swBody: map[*ast.BlockStmt]bool{}}
			txt := r.render()
			dst := filepath.Join(*out, "src", rel, p.GoFiles[i])
			if err := os.MkdirAll(filepath.Dir(dst), 0o755); err != nil {
				die("%v", err)
			}
			if err := os.WriteFile(dst, []byte(txt), 0o644); err != nil {
				die("%v", err)
			}
			overlay[filepath.Join(p.Dir, p.GoFiles[i])] = dst
		}
		if p.Name == "main" && rel == "." {
			dst := filepath.Join(*out, "src", "zz_export.go")
			if err := os.WriteFile(dst, []byte("package forkdetector\n\n// ZZMain runs the service's main function.\nfunc ZZMain() { main() }\n"), 0o644); err != nil {
				die("%v", err)
			}
			overlay[filepath.Join(p.Dir, "zz_export.go")] = dst
		}
	}
	// Harness tree.
	err = filepath.Walk(*harness, func(path string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(path, ".go") {
			return err
		}
		rel, _ := filepath.Rel(*harness, path)
		overlay[filepath.Join(*repo, "zzv", rel)] = path
		return nil
	})
	if err != nil {
		die("%v", err)
	}
	b, _ := json.MarshalIndent(map[string]any{"Replace": overlay}, "", " ")
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), b, 0o644); err != nil {
		die("%v", err)
	}
}

type rw struct {
	fset    *token.FileSet
	src     []byte
	info    *types.Info
	file    *ast.File
	shim    map[string]string
	modPath string
	usedPk  map[string]bool // local import names whose selectors were replaced
	n       int
	base    string // name of the file
	norace  bool
	vars    map[*types.Var]bool // variables of the package, and local ones that are captured and assigned
	swBody  map[*ast.BlockStmt]bool
}

func (r *rw) off(p token.Pos) int { return r.fset.Position(p).Offset }

func (r *rw) raw(a, b token.Pos) string { return string(r.src[r.off(a):r.off(b)]) }

type edit struct {
	a, b int
	s    string
}

func (r *rw) render() string {
	r.usedPk = map[string]bool{}
	r.findVars()
	var eds []edit
	if r.file.Name.Name == "main" {
		eds = append(eds, edit{r.off(r.file.Name.Pos()), r.off(r.file.Name.End()), "forkdetector"})
	}
	// The runtime import goes right after the package clause, on the same line.
	e := r.off(r.file.Name.End())
	eds = append(eds, edit{e, e, "; import " + vsName + " \"" + r.modPath + "/zzv/vs\""})
	for _, d := range r.file.Decls {
		if gd, ok := d.(*ast.GenDecl); ok && gd.Tok == token.IMPORT {
			for _, s := range gd.Specs {
				is := s.(*ast.ImportSpec)
				p, _ := strconv.Unquote(is.Path.Value)
				if p == "sync/atomic" || strings.HasPrefix(p, "golang.org/x/sync/") && !strings.HasSuffix(p, "/errgroup") {
					r.norace = true // Synchronization that isn't tracked.
				}
				if np, ok := r.shim[p]; ok {
					eds = append(eds, edit{r.off(is.Path.Pos()), r.off(is.Path.End()), strconv.Quote(np)})
				}
			}
			continue
		}
		a, b := d.Pos(), d.End()
		eds = append(eds, edit{r.off(a), r.off(b), r.node(d)})
	}
	txt := apply(string(r.src), 0, eds)
	txt += "\n\nvar _ = " + vsName + ".P\n"
	if r.norace {
		txt += "\nfunc init() { " + vsName + ".NoRaces = true }\n"
	}
	// Keep imports used.
	var ks []string
	for k := range r.usedPk {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	keep := map[string]string{"time": "Nanosecond", "os": "ErrExist", "net/http": "StatusOK", "net": "IPv4len",
		"os/signal": "Notify", "context": "Canceled",
		"github.com/wavesplatform/gowaves/pkg/logging":      "SetupLogger",
		"github.com/wavesplatform/gowaves/pkg/p2p/outgoing": "EstablishConnection",
		"github.com/wavesplatform/gowaves/pkg/p2p/incoming": "RunIncomingPeer",
		"github.com/wavesplatform/gowaves/pkg/p2p/peer":     "Handle"}
	for _, k := range ks {
		parts := strings.SplitN(k, "|", 2)
		txt += "var _ = " + parts[0] + "." + keep[parts[1]] + "\n"
	}
	return txt
}

func apply(src string, base int, eds []edit) string {
	sort.SliceStable(eds, func(i, j int) bool {
		if eds[i].a != eds[j].a {
			return eds[i].a < eds[j].a
		}
		return eds[i].b < eds[j].b
	})
	var sb strings.Builder
	pos := base
	for _, e := range eds {
		if e.a < pos {
			die("overlapping edits at %d", e.a)
		}
		sb.WriteString(src[pos-base : e.a-base])
		sb.WriteString(e.s)
		pos = e.b
	}
	sb.WriteString(src[pos-base:])
	return sb.String()
}

// node renders a node with all rewritable descendants (and itself) replaced.
func (r *rw) node(n ast.Node) string {
	if s, ok := r.rewrite(n); ok {
		return s
	}
	return r.inside(n)
}

// inside renders a node by rendering its topmost rewritable descendants.
func (r *rw) inside(n ast.Node) string {
	var eds []edit
	ast.Inspect(n, func(c ast.Node) bool {
		if c == nil || c == n {
			return true
		}
		if s, ok := r.rewrite(c); ok {
			eds = append(eds, edit{r.off(c.Pos()), r.off(c.End()), s})
			return false
		}
		return true
	})
	return apply(r.raw(n.Pos(), n.End()), r.off(n.Pos()), eds)
}

func (r *rw) pkgOf(id *ast.Ident) string {
	if pn, ok := r.info.Uses[id].(*types.PkgName); ok {
		return pn.Imported().Path()
	}
	return ""
}

var pkgFuncs = map[string]map[string]string{
	"time": {"Now": "TimeNow", "Since": "TimeSince", "Until": "TimeUntil", "Sleep": "Sleep", "After": "TimeAfter",
		"AfterFunc": "TimeAfterFunc", "NewTimer": "NewTimer", "NewTicker": "NewTicker", "Tick": "TimeTick",
		"Timer": "Timer", "Ticker": "Ticker"},
	"context": {"WithTimeout": "CtxWithTimeout", "WithDeadline": "CtxWithDeadline", "AfterFunc": "CtxAfterFunc",
		"WithTimeoutCause": "CtxWithTimeoutCause", "WithDeadlineCause": "CtxWithDeadlineCause"},
	"os":        {"Exit": "OSExit"},
	"os/signal": {"NotifyContext": "NotifyContext", "Notify": "SignalNotify"},
	"net/http":  {"ListenAndServe": "HTTPListenAndServePkg"},
	"net":       {"Listen": "NetListen0"},
	"github.com/wavesplatform/gowaves/pkg/logging":      {"SetupLogger": "SetupLogger"},
	"github.com/wavesplatform/gowaves/pkg/p2p/outgoing": {"EstablishConnection": "EstablishConnection"},
	"github.com/wavesplatform/gowaves/pkg/p2p/incoming": {"RunIncomingPeer": "RunIncomingPeer"},
}

var methods = map[string]map[string]string{
	"*net/http.Server":  {"ListenAndServe": "HTTPListenAndServe", "Shutdown": "HTTPShutdown"},
	"net/http.Server":   {"ListenAndServe": "HTTPListenAndServe", "Shutdown": "HTTPShutdown"},
	"*net.ListenConfig": {"Listen": "NetListen"},
	"net.ListenConfig":  {"Listen": "NetListen"},
}

func isChan(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Chan)
	return ok
}

func isMap(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Map)
	return ok
}

func isRecv(e ast.Expr) (*ast.UnaryExpr, bool) {
	for {
		if p, ok := e.(*ast.ParenExpr); ok {
			e = p.X
			continue
		}
		break
	}
	u, ok := e.(*ast.UnaryExpr)
	return u, ok && u.Op == token.ARROW
}

func (r *rw) rewrite(n ast.Node) (string, bool) {
	switch x := n.(type) {
	case *ast.BlockStmt:
		return r.block(x.Lbrace, x.List, x.Rbrace, r.swBody[x]), true
	case *ast.SwitchStmt:
		r.swBody[x.Body] = true
	case *ast.TypeSwitchStmt:
		r.swBody[x.Body] = true
	case *ast.CaseClause:
		return r.clause(x.Colon, x.Body, x), true
	case *ast.SelectorExpr:
		if id, ok := x.X.(*ast.Ident); ok {
			if p := r.pkgOf(id); p != "" {
				if f, ok := pkgFuncs[p][x.Sel.Name]; ok {
					r.usedPk[id.Name+"|"+p] = true
					return vsName + "." + f, true
				}
				if p == "sync" && (x.Sel.Name == "Map" || x.Sel.Name == "Pool") {
					r.norace = true
				}
				return "", false
			}
		}
		if r.shared(x) {
			return "(*" + vsName + ".Rd(&" + r.plain(x) + ", " + r.site(x) + "))", true
		}
	case *ast.Ident:
		if r.sharedVar(x) {
			return "(*" + vsName + ".Rd(&" + x.Name + ", " + r.site(x) + "))", true
		}
	case *ast.IndexExpr:
		if isMap(r.info.Types[x.X].Type) {
			return vsName + ".MRd(" + r.node(x.X) + ", " + r.site(x.X) + ")[" + r.node(x.Index) + "]", true
		}
	case *ast.CallExpr:
		if o, ok := r.call(x); ok {
			return o, true
		}
		return r.onField(x)
	case *ast.SendStmt:
		return vsName + ".SendC(" + r.node(x.Chan) + ")(" + r.node(x.Value) + ")", true
	case *ast.UnaryExpr:
		if x.Op == token.ARROW {
			return vsName + ".Recv(" + r.node(x.X) + ")", true
		}
		if se, ok := x.X.(*ast.SelectorExpr); ok && x.Op == token.AND && r.shared(se) {
			return "&" + r.plain(se), true
		}
		if id, ok := x.X.(*ast.Ident); ok && x.Op == token.AND {
			return "&" + id.Name, true
		}
	case *ast.IncDecStmt:
		return r.target(x.X) + x.Tok.String(), true
	case *ast.AssignStmt:
		if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
			if u, ok := isRecv(x.Rhs[0]); ok {
				return r.node(x.Lhs[0]) + ", " + r.node(x.Lhs[1]) + " " + x.Tok.String() + " " + vsName + ".Recv2(" + r.node(u.X) + ")", true
			}
		}
		{
			var eds []edit
			for _, e := range x.Lhs {
				if x.Tok != token.DEFINE {
					eds = append(eds, edit{r.off(e.Pos()), r.off(e.End()), r.target(e)})
				}
			}
			for _, e := range x.Rhs {
				eds = append(eds, edit{r.off(e.Pos()), r.off(e.End()), r.node(e)})
			}
			return apply(r.raw(x.Pos(), x.End()), r.off(x.Pos()), eds), true
		}
	case *ast.ValueSpec:
		if len(x.Names) == 2 && len(x.Values) == 1 {
			if u, ok := isRecv(x.Values[0]); ok && x.Type == nil {
				return x.Names[0].Name + ", " + x.Names[1].Name + " = " + vsName + ".Recv2(" + r.node(u.X) + ")", true
			}
		}
	case *ast.GoStmt:
		return r.goStmt(x), true
	case *ast.SelectStmt:
		return r.sel(x), true
	case *ast.RangeStmt:
		return r.rng(x)
	}
	return "", false
}

func (r *rw) block(lb token.Pos, list []ast.Stmt, rb token.Pos, sw bool) string {
	var sb strings.Builder
	sb.WriteString("{")
	pos := lb + 1
	for _, s := range list {
		sb.WriteString(r.raw(pos, s.Pos()))
		switch s.(type) {
		case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
		default:
			sb.WriteString(vsName + ".P(); ")
		}
		sb.WriteString(r.node(s))
		sb.WriteString(r.writes(s))
		pos = s.End()
	}
	if len(list) == 0 && !sw {
		sb.WriteString(" " + vsName + ".P() ")
	}
	sb.WriteString(r.raw(pos, rb) + "}")
	return sb.String()
}

func (r *rw) clause(colon token.Pos, list []ast.Stmt, x *ast.CaseClause) string {
	var sb strings.Builder
	// head
	var eds []edit
	for _, e := range x.List {
		eds = append(eds, edit{r.off(e.Pos()), r.off(e.End()), r.node(e)})
	}
	sb.WriteString(apply(r.raw(x.Pos(), colon+1), r.off(x.Pos()), eds))
	sb.WriteString(r.body(colon+1, list))
	return sb.String()
}

func (r *rw) body(pos token.Pos, list []ast.Stmt) string {
	var sb strings.Builder
	for _, s := range list {
		sb.WriteString(r.raw(pos, s.Pos()))
		if _, ok := s.(*ast.EmptyStmt); !ok {
			sb.WriteString(" " + vsName + ".P(); ")
		}
		sb.WriteString(r.node(s))
		sb.WriteString(r.writes(s))
		pos = s.End()
	}
	return sb.String()
}

// findVars finds the variables that several goroutines may use.
func (r *rw) findVars() {
	r.vars = map[*types.Var]bool{}
	captured, assigned := map[*types.Var]bool{}, map[*types.Var]bool{}
	local := func(id *ast.Ident) *types.Var {
		v, ok := r.info.Uses[id].(*types.Var)
		if !ok || v.IsField() || v.Pkg() == nil {
			return nil
		}
		if p := v.Pkg().Path() + "/"; v.Parent() == v.Pkg().Scope() && !strings.HasPrefix(p, r.modPath+"/") {
			return nil
		}
		t := v.Type()
		switch t.Underlying().(type) {
		case *types.Struct, *types.Array, *types.TypeParam:
			return nil
		}
		return v
	}
	mark := func(e ast.Expr) {
		if id, ok := e.(*ast.Ident); ok {
			if v := local(id); v != nil {
				assigned[v] = true
			}
		}
	}
	var lits []*ast.FuncLit
	var visit func(n ast.Node) bool
	visit = func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncLit:
			lits = append(lits, x)
			ast.Inspect(x.Type, visit)
			ast.Inspect(x.Body, visit)
			lits = lits[:len(lits)-1]
			return false
		case *ast.SelectorExpr:
			ast.Inspect(x.X, visit)
			return false
		case *ast.AssignStmt:
			for _, e := range x.Lhs {
				mark(e)
			}
		case *ast.IncDecStmt:
			mark(x.X)
		case *ast.Ident:
			v := local(x)
			if v == nil {
				break
			}
			if v.Parent() == v.Pkg().Scope() {
				r.vars[v] = true
				break
			}
			for _, l := range lits {
				if v.Pos() < l.Pos() || v.Pos() > l.End() {
					captured[v] = true
				}
			}
		}
		return true
	}
	ast.Inspect(r.file, visit)
	for v := range captured {
		if assigned[v] {
			r.vars[v] = true
		}
	}
}

func (r *rw) sharedVar(id *ast.Ident) bool {
	v, ok := r.info.Uses[id].(*types.Var)
	return ok && r.vars[v]
}

func (r *rw) site(e ast.Expr) string {
	return strconv.Quote(fmt.Sprintf("%s:%d %s", r.base, r.fset.Position(e.Pos()).Line, oneLine(r.raw(e.Pos(), e.End()))))
}

func oneLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

// shared reports whether the expression is a field of a structure of the program behind a pointer.
func (r *rw) shared(x *ast.SelectorExpr) bool {
	sel := r.info.Selections[x]
	if sel == nil || sel.Kind() != types.FieldVal {
		return false
	}
	if n, ok := sel.Type().(*types.Named); ok && n.Obj().Pkg() != nil {
		if p := n.Obj().Pkg().Path(); p == "sync" || p == "sync/atomic" {
			return false
		}
	}
	t := r.info.Types[x.X].Type
	if t == nil {
		return false
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		n, ok := p.Elem().(*types.Named)
		return ok && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path()+"/", r.modPath+"/")
	}
	if se, ok := x.X.(*ast.SelectorExpr); ok {
		return r.shared(se)
	}
	return false
}

// plain renders a shared field without recording the access to it.
func (r *rw) plain(x *ast.SelectorExpr) string {
	if se, ok := x.X.(*ast.SelectorExpr); ok && r.shared(se) {
		if _, ptr := r.info.Types[x.X].Type.Underlying().(*types.Pointer); !ptr {
			return r.plain(se) + "." + x.Sel.Name
		}
	}
	return r.node(x.X) + "." + x.Sel.Name
}

// target renders the left side of an assignment.
func (r *rw) target(e ast.Expr) string {
	switch x := e.(type) {
	case *ast.Ident:
		return x.Name
	case *ast.SelectorExpr:
		if r.shared(x) {
			return r.plain(x)
		}
	case *ast.IndexExpr:
		if isMap(r.info.Types[x.X].Type) {
			return r.node(x.X) + "[" + r.node(x.Index) + "]"
		}
	}
	return r.node(e)
}

func pure(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.Ident:
		return true
	case *ast.SelectorExpr:
		return pure(x.X)
	case *ast.ParenExpr:
		return pure(x.X)
	case *ast.StarExpr:
		return pure(x.X)
	}
	return false
}

// writes records the writes of an assignment after it.
func (r *rw) writes(s ast.Stmt) string {
	var lhs []ast.Expr
	switch x := s.(type) {
	case *ast.AssignStmt:
		if x.Tok != token.DEFINE {
			lhs = x.Lhs
		}
	case *ast.IncDecStmt:
		lhs = []ast.Expr{x.X}
	}
	o := ""
	for _, e := range lhs {
		switch x := e.(type) {
		case *ast.Ident:
			if r.sharedVar(x) {
				o += "; " + vsName + ".Wr(&" + x.Name + ", " + r.site(x) + ")"
			}
		case *ast.SelectorExpr:
			if r.shared(x) && pure(x) {
				o += "; " + vsName + ".Wr(&" + r.plain(x) + ", " + r.site(x) + ")"
			}
		case *ast.IndexExpr:
			if isMap(r.info.Types[x.X].Type) && pure(x.X) {
				o += "; " + vsName + ".MWr(" + r.node(x.X) + ", " + r.site(x.X) + ")"
			}
		}
	}
	return o
}

func (r *rw) call(x *ast.CallExpr) (string, bool) {
	// close(ch)
	if id, ok := x.Fun.(*ast.Ident); ok {
		if _, ok := r.info.Uses[id].(*types.Builtin); ok && id.Name == "close" && len(x.Args) == 1 {
			return vsName + ".Close(" + r.node(x.Args[0]) + ")", true
		}
		if _, ok := r.info.Uses[id].(*types.Builtin); ok && len(x.Args) > 0 && isMap(r.info.Types[x.Args[0]].Type) {
			f := ""
			switch id.Name {
			case "len":
				f = ".MRd("
			case "delete", "clear":
				f = ".MWr("
			}
			if f != "" {
				o := id.Name + "(" + vsName + f + r.node(x.Args[0]) + ", " + r.site(x.Args[0]) + ")"
				for _, a := range x.Args[1:] {
					o += ", " + r.node(a)
				}
				return o + ")", true
			}
		}
	}
	if se, ok := x.Fun.(*ast.SelectorExpr); ok {
		if sel := r.info.Selections[se]; sel != nil && sel.Kind() == types.MethodVal {
			if fn, ok := sel.Obj().(*types.Func); ok && fn.Pkg() != nil {
				recv := fn.Type().(*types.Signature).Recv().Type().String()
				if f, ok := methods[recv][se.Sel.Name]; ok {
					args := []string{"nil"}
					if strings.Contains(recv, "http.Server") {
						args[0] = r.node(se.X)
						if _, isPtr := r.info.Types[se.X].Type.(*types.Pointer); !isPtr {
							args[0] = "&" + args[0]
						}
					} else {
						args = nil
						// keep the receiver used
						args = append(args, vsName+".Use("+r.node(se.X)+")")
					}
					for _, a := range x.Args {
						args = append(args, r.node(a))
					}
					return vsName + "." + f + "(" + strings.Join(args, ", ") + ")", true
				}
			}
		}
	}
	return "", false
}

// onField renders the call of a method on the address of a shared field: the field itself isn't read.
func (r *rw) onField(x *ast.CallExpr) (string, bool) {
	se, ok := x.Fun.(*ast.SelectorExpr)
	if !ok {
		return "", false
	}
	bx, ok := se.X.(*ast.SelectorExpr)
	sel := r.info.Selections[se]
	if !ok || sel == nil || sel.Kind() != types.MethodVal || !r.shared(bx) {
		return "", false
	}
	if _, ok := r.info.Types[se.X].Type.Underlying().(*types.Pointer); ok {
		return "", false
	}
	fn, ok := sel.Obj().(*types.Func)
	if !ok {
		return "", false
	}
	if _, ok := fn.Type().(*types.Signature).Recv().Type().(*types.Pointer); !ok {
		return "", false
	}
	eds := []edit{{r.off(se.X.Pos()), r.off(se.X.End()), r.plain(bx)}}
	for _, a := range x.Args {
		eds = append(eds, edit{r.off(a.Pos()), r.off(a.End()), r.node(a)})
	}
	return apply(r.raw(x.Pos(), x.End()), r.off(x.Pos()), eds), true
}

func (r *rw) goStmt(g *ast.GoStmt) string {
	c := g.Call
	r.n++
	pre := fmt.Sprintf("zzg%d_", r.n)
	var names, vals, args []string
	inlineFun := false
	switch f := c.Fun.(type) {
	case *ast.FuncLit:
		inlineFun = true
	case *ast.Ident:
		if _, ok := r.info.Uses[f].(*types.Var); !ok {
			inlineFun = true
		}
	case *ast.SelectorExpr:
		if id, ok := f.X.(*ast.Ident); ok && r.pkgOf(id) != "" {
			inlineFun = true
		}
	case *ast.IndexExpr, *ast.IndexListExpr:
		inlineFun = true
	}
	// calls that are replaced as a whole (hooks, close) are wrapped unevaluated
	if s, ok := r.call(c); ok {
		return vsName + ".Go(func() { " + s + " })"
	}
	fun := ""
	if inlineFun {
		fun = r.node(c.Fun)
	} else {
		names = append(names, pre+"f")
		vals = append(vals, r.node(c.Fun))
		fun = pre + "f"
	}
	for i, a := range c.Args {
		tv := r.info.Types[a]
		if tv.Value != nil || tv.IsNil() {
			args = append(args, r.node(a))
			continue
		}
		nm := fmt.Sprintf("%s%d", pre, i)
		names = append(names, nm)
		vals = append(vals, r.node(a))
		args = append(args, nm)
	}
	ell := ""
	if c.Ellipsis.IsValid() {
		ell = "..."
	}
	call := fun + "(" + strings.Join(args, ", ") + ell + ")"
	if len(names) == 0 {
		return vsName + ".Go(func() { " + call + " })"
	}
	return vsName + ".Go(func() func() { " + strings.Join(names, ", ") + " := " + strings.Join(vals, ", ") +
		"; return func() { " + call + " } }())"
}

func (r *rw) sel(x *ast.SelectStmt) string {
	if len(x.Body.List) == 0 {
		return vsName + ".Block()"
	}
	r.n++
	var names, vals []string
	var bodies strings.Builder
	hasDef := false
	i := 0
	for _, c := range x.Body.List {
		cc := c.(*ast.CommClause)
		if cc.Comm == nil {
			hasDef = true
			bodies.WriteString("default: ")
			bodies.WriteString(r.body(cc.Colon+1, cc.Body))
			bodies.WriteString("\n")
			continue
		}
		nm := fmt.Sprintf("zzc%d_%d", r.n, i)
		names = append(names, nm)
		bodies.WriteString(fmt.Sprintf("case %d: ", i))
		i++
		switch s := cc.Comm.(type) {
		case *ast.SendStmt:
			vals = append(vals, vsName+".CaseSend("+r.node(s.Chan)+")("+r.node(s.Value)+")")
		case *ast.ExprStmt:
			u, _ := isRecv(s.X)
			vals = append(vals, vsName+".CaseRecv("+r.node(u.X)+")")
		case *ast.AssignStmt:
			u, _ := isRecv(s.Rhs[0])
			vals = append(vals, vsName+".CaseRecv("+r.node(u.X)+")")
			if len(s.Lhs) == 2 {
				bodies.WriteString(r.node(s.Lhs[0]) + ", " + r.node(s.Lhs[1]) + " " + s.Tok.String() + " " + nm + ".Val2(); ")
			} else {
				bodies.WriteString(r.node(s.Lhs[0]) + " " + s.Tok.String() + " " + nm + ".Val(); ")
			}
		default:
			die("unknown comm clause")
		}
		bodies.WriteString(r.body(cc.Colon+1, cc.Body))
		bodies.WriteString("\n")
	}
	if !hasDef {
		bodies.WriteString("default: panic(\"unreachable select\")\n")
	}
	init := ""
	if len(names) > 0 {
		init = strings.Join(names, ", ") + " := " + strings.Join(vals, ", ") + "; "
	}
	return fmt.Sprintf("switch %s%s.Select(%v%s) {\n%s}", init, vsName, hasDef, prefixed(names), bodies.String())
}

func prefixed(n []string) string {
	s := ""
	for _, x := range n {
		s += ", " + x
	}
	return s
}

func (r *rw) rng(x *ast.RangeStmt) (string, bool) {
	t := r.info.Types[x.X].Type
	name := func(e ast.Expr) string {
		if e == nil {
			return "_"
		}
		return r.node(e)
	}
	switch {
	case isChan(t):
		r.n++
		ok := fmt.Sprintf("zzok%d", r.n)
		ch := fmt.Sprintf("zzch%d", r.n)
		v := fmt.Sprintf("zzv%d", r.n)
		asg := ""
		if x.Key != nil && name(x.Key) != "_" {
			asg = name(x.Key) + " " + x.Tok.String() + " " + v + "; "
		} else {
			asg = "_ = " + v + "; "
		}
		return fmt.Sprintf("for %s := %s; ; { %s, %s := %s.Recv2(%s); if !%s { break }; %s%s }", ch, r.node(x.X), v, ok, vsName, ch, ok, asg, r.node(x.Body)), true
	case isMap(t):
		if x.Key == nil {
			return "", false
		}
		r.n++
		e := fmt.Sprintf("zze%d", r.n)
		k, v := name(x.Key), name(x.Value)
		asg := ""
		if k != "_" || v != "_" {
			asg = k + ", " + v + " " + x.Tok.String() + " " + e + ".K, " + e + ".V(); "
		}
		return fmt.Sprintf("for _, %s := range %s.MapEntries(%s.MRd(%s, %s)) { if !%s.Live() { continue }; %s%s }", e, vsName, vsName, r.node(x.X), r.site(x.X), e, asg, r.node(x.Body)), true
	}
	return "", false
}
