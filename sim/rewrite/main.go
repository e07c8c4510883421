// Command rewrite turns the packages of the repository into a form that runs
// under the simulator. It reads the sources from the repository working tree,
// never changes them, and writes rewritten copies plus an overlay file for the
// go command. What it does to the code:
//
//   - every reference to a name that a shim package defines (sync.Mutex,
//     os.WriteFile, time.Now, exec.Command, ...) is redirected to the shim;
//   - go statements, channel operations, selects, ranges over channels and maps
//     become calls into the simulator;
//   - a scheduling point is put before every statement, and read-modify-write
//     assignments to shared places are split by one;
//   - map accesses are reported to the happens-before checker.
//
// Everything else is the repository's own code, unchanged.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
)

type edit struct {
	off, end int
	text     string
	seq      int
	closes   int // start offset + 1 of the node this insertion closes, or 0
}

type rw struct {
	fset  *token.FileSet
	info  *types.Info
	src   []byte
	base  int
	edits []edit
	file  *ast.File
	// shims: package path -> exported names
	shims    map[string]shim
	used     map[string]bool // shim import paths used
	uses     map[string]int  // original import path -> remaining uses
	repl     map[string]int  // original import path -> replaced uses
	funcs    []ast.Node      // enclosing functions
	splitRMW bool
}

type shim struct {
	path  string // import path of the shim
	alias string
	names map[string]bool
}

func (r *rw) off(p token.Pos) int { return int(p) - r.base }

func (r *rw) add(from, to token.Pos, text string) {
	r.edits = append(r.edits, edit{off: r.off(from), end: r.off(to), text: text, seq: len(r.edits)})
}
func (r *rw) ins(at token.Pos, text string) { r.add(at, at, text) }

// insEnd inserts text at the end of n: inner nodes close before outer ones,
// and before anything that opens at the same place.
func (r *rw) insEnd(n ast.Node, text string) {
	r.edits = append(r.edits, edit{off: r.off(n.End()), end: r.off(n.End()), text: text, seq: len(r.edits), closes: r.off(n.Pos()) + 1})
}

func (r *rw) text(n ast.Node) string { return string(r.src[r.off(n.Pos()):r.off(n.End())]) }

func (r *rw) apply() []byte {
	sort.SliceStable(r.edits, func(i, j int) bool {
		a, b := r.edits[i], r.edits[j]
		if a.off != b.off {
			return a.off < b.off
		}
		// closers, inner first; then openers in order; then replacements
		k := func(e edit) int {
			switch {
			case e.closes > 0:
				return 0
			case e.end == e.off:
				return 1
			}
			return 2
		}
		if k(a) != k(b) {
			return k(a) < k(b)
		}
		if a.closes != b.closes {
			return a.closes > b.closes
		}
		return a.seq < b.seq
	})
	var out bytes.Buffer
	pos := 0
	for _, e := range r.edits {
		if e.off < pos {
			fatal("overlapping edits in %s at offset %d (%q)", r.fset.Position(r.file.Pos()).Filename, e.off, e.text)
		}
		out.Write(r.src[pos:e.off])
		out.WriteString(e.text)
		pos = e.end
	}
	out.Write(r.src[pos:])
	return out.Bytes()
}

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "rewrite: "+f+"\n", a...)
	os.Exit(3)
}

func (r *rw) isMap(e ast.Expr) bool {
	t := r.info.TypeOf(e)
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Map)
	return ok
}

func (r *rw) isChan(e ast.Expr) bool {
	t := r.info.TypeOf(e)
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Chan)
	return ok
}

func (r *rw) isBuiltin(e ast.Expr, name string) bool {
	id, ok := ast.Unparen(e).(*ast.Ident)
	if !ok || id.Name != name {
		return false
	}
	_, ok = r.info.Uses[id].(*types.Builtin)
	return ok
}

// hasEdits tells whether rewriting would change anything inside n, in which
// case its text must not be copied verbatim.
func (r *rw) plain(n ast.Node) bool {
	ok := true
	ast.Inspect(n, func(x ast.Node) bool {
		switch x.(type) {
		case *ast.CallExpr, *ast.FuncLit, *ast.CompositeLit, *ast.TypeAssertExpr:
			ok = false
		case *ast.UnaryExpr:
			if x.(*ast.UnaryExpr).Op == token.ARROW {
				ok = false
			}
		}
		return ok
	})
	return ok
}

func (r *rw) stmts(list []ast.Stmt) {
	for _, s := range list {
		if _, ok := s.(*ast.EmptyStmt); ok {
			continue
		}
		switch s.(type) {
		case *ast.CaseClause, *ast.CommClause:
			continue
		}
		r.ins(s.Pos(), "vsim.Y();")
		if r.splitRMW {
			r.rmw(s)
		}
	}
}

func (r *rw) outer(id *ast.Ident) bool {
	obj := r.info.Uses[id]
	if obj == nil {
		return false
	}
	if len(r.funcs) == 0 {
		return false
	}
	fn := r.funcs[len(r.funcs)-1]
	return obj.Pos() < fn.Pos() || obj.Pos() > fn.End()
}

func (r *rw) shared(e ast.Expr) bool {
	switch x := ast.Unparen(e).(type) {
	case *ast.Ident:
		return x.Name != "_" && r.outer(x)
	case *ast.SelectorExpr, *ast.IndexExpr, *ast.StarExpr:
		return true
	}
	return false
}

// rmw splits a read-modify-write statement so that another task can run
// between the read and the write.
func (r *rw) rmw(s ast.Stmt) {
	switch x := s.(type) {
	case *ast.AssignStmt:
		if len(x.Lhs) != 1 || len(x.Rhs) != 1 {
			return
		}
		l := x.Lhs[0]
		if !r.shared(l) || !r.plain(l) {
			return
		}
		lt := r.lhsText(l)
		switch x.Tok {
		case token.ASSIGN:
			call, ok := x.Rhs[0].(*ast.CallExpr)
			if !ok || !r.isBuiltin(call.Fun, "append") || len(call.Args) == 0 || r.text(call.Args[0]) != r.text(l) {
				return
			}
			r.dropped(l)
			r.add(x.Lhs[0].Pos(), x.Rhs[0].Pos(), "{ vsimTmp := ")
			r.insEnd(x, "; vsim.Y(); "+lt+" = vsimTmp }")
		case token.ADD_ASSIGN, token.SUB_ASSIGN, token.OR_ASSIGN, token.MUL_ASSIGN:
			op := strings.TrimSuffix(x.Tok.String(), "=")
			r.dropped(l)
			r.add(x.Lhs[0].Pos(), x.Rhs[0].Pos(), "{ vsimTmp := "+r.rdText(l)+" "+op+" (")
			r.insEnd(x, "); vsim.Y(); "+lt+" = vsimTmp }")
		}
	case *ast.IncDecStmt:
		if !r.shared(x.X) || !r.plain(x.X) {
			return
		}
		op := "+"
		if x.Tok == token.DEC {
			op = "-"
		}
		r.dropped(x.X)
		r.add(x.Pos(), x.End(), "{ vsimTmp := "+r.rdText(x.X)+" "+op+" 1; vsim.Y(); "+r.lhsText(x.X)+" = vsimTmp }")
	}
}

// dropped marks the identifiers below n as rewritten by hand.
func (r *rw) dropped(n ast.Node) {
	ast.Inspect(n, func(x ast.Node) bool {
		if x != nil {
			skip[x] = true
		}
		return true
	})
}

var skip = map[ast.Node]bool{}

func (r *rw) lhsText(e ast.Expr) string {
	if ix, ok := ast.Unparen(e).(*ast.IndexExpr); ok && r.isMap(ix.X) {
		return "vsim.MW(" + r.text(ix.X) + ")[" + r.text(ix.Index) + "]"
	}
	return r.text(e)
}
func (r *rw) rdText(e ast.Expr) string {
	if ix, ok := ast.Unparen(e).(*ast.IndexExpr); ok && r.isMap(ix.X) {
		return "vsim.MR(" + r.text(ix.X) + ")[" + r.text(ix.Index) + "]"
	}
	return r.text(e)
}

func (r *rw) walk(n ast.Node) {
	if n == nil || skip[n] {
		return
	}
	switch x := n.(type) {
	case *ast.File:
		for _, d := range x.Decls {
			r.walk(d)
		}
		return
	case *ast.GenDecl:
		if x.Tok == token.IMPORT {
			return
		}
	case *ast.FuncDecl:
		r.funcs = append(r.funcs, x)
		r.children(x)
		r.funcs = r.funcs[:len(r.funcs)-1]
		return
	case *ast.FuncLit:
		r.funcs = append(r.funcs, x)
		r.children(x)
		r.funcs = r.funcs[:len(r.funcs)-1]
		return
	case *ast.BlockStmt:
		r.stmts(x.List)
	case *ast.CaseClause:
		r.stmts(x.Body)
	case *ast.CommClause:
		r.stmts(x.Body)
	case *ast.SelectorExpr:
		if id, ok := x.X.(*ast.Ident); ok {
			if pn, ok := r.info.Uses[id].(*types.PkgName); ok {
				r.qualified(x, id, pn)
				return
			}
		}
	case *ast.GoStmt:
		r.goStmt(x)
		return
	case *ast.SendStmt:
		r.ins(x.Pos(), "vsim.Send(")
		r.add(x.Arrow, x.Arrow+2, ",")
		r.insEnd(x, ")")
	case *ast.UnaryExpr:
		if x.Op == token.ARROW {
			r.add(x.OpPos, x.OpPos+2, "vsim.Recv(")
			r.insEnd(x.X, ")")
		}
	case *ast.AssignStmt:
		if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
			if u, ok := ast.Unparen(x.Rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
				for _, l := range x.Lhs {
					r.walkLHS(l)
				}
				r.add(u.OpPos, u.OpPos+2, "vsim.Recv2(")
				r.walk(u.X)
				r.insEnd(u.X, ")")
				return
			}
		}
		for _, l := range x.Lhs {
			r.walkLHS(l)
		}
		for _, e := range x.Rhs {
			r.walk(e)
		}
		return
	case *ast.IncDecStmt:
		r.walkLHS(x.X)
		return
	case *ast.RangeStmt:
		if r.isMap(x.X) {
			r.ins(x.X.Pos(), "vsim.RangeMap(")
			r.insEnd(x.X, ")")
		} else if r.isChan(x.X) {
			r.ins(x.X.Pos(), "vsim.RangeChan(")
			r.insEnd(x.X, ")")
		}
	case *ast.IndexExpr:
		if r.isMap(x.X) {
			r.ins(x.X.Pos(), "vsim.MR(")
			r.walk(x.X)
			r.insEnd(x.X, ")")
			r.walk(x.Index)
			return
		}
	case *ast.CallExpr:
		if r.isBuiltin(x.Fun, "close") {
			r.add(x.Fun.Pos(), x.Fun.End(), "vsim.Close")
			for _, a := range x.Args {
				r.walk(a)
			}
			return
		}
		if (r.isBuiltin(x.Fun, "delete") || r.isBuiltin(x.Fun, "clear")) && len(x.Args) > 0 && r.isMap(x.Args[0]) {
			r.ins(x.Args[0].Pos(), "vsim.MW(")
			r.walk(x.Args[0])
			r.insEnd(x.Args[0], ")")
			for _, a := range x.Args[1:] {
				r.walk(a)
			}
			return
		}
		if sel, ok := x.Fun.(*ast.SelectorExpr); ok && sel.Sel.Name == "MapKeys" && len(x.Args) == 0 {
			if t := r.info.TypeOf(sel.X); t != nil && t.String() == "reflect.Value" {
				r.ins(sel.X.Pos(), "vsim.ReflectMapKeys(")
				r.walk(sel.X)
				r.add(sel.X.End(), x.End(), ")")
				return
			}
		}
		if sel, ok := x.Fun.(*ast.SelectorExpr); ok && sel.Sel.Name == "MapRange" && len(x.Args) == 0 {
			if t := r.info.TypeOf(sel.X); t != nil && t.String() == "reflect.Value" {
				r.ins(sel.X.Pos(), "vsim.ReflectMapRange(")
				r.walk(sel.X)
				r.add(sel.X.End(), x.End(), ")")
				return
			}
		}
	case *ast.SelectStmt:
		r.selectStmt(x)
		return
	case *ast.DeferStmt:
		// a deferred channel operation is evaluated when it runs; calls only
	}
	r.children(n)
}

func (r *rw) walkLHS(e ast.Expr) {
	if skip[e] {
		return
	}
	if ix, ok := ast.Unparen(e).(*ast.IndexExpr); ok && r.isMap(ix.X) {
		r.ins(ix.X.Pos(), "vsim.MW(")
		r.walk(ix.X)
		r.insEnd(ix.X, ")")
		r.walk(ix.Index)
		return
	}
	r.walk(e)
}

func (r *rw) children(n ast.Node) {
	first := true
	ast.Inspect(n, func(c ast.Node) bool {
		if first {
			first = false
			return true
		}
		if c != nil {
			r.walk(c)
		}
		return false
	})
}

func (r *rw) qualified(x *ast.SelectorExpr, id *ast.Ident, pn *types.PkgName) {
	path := pn.Imported().Path()
	if s, ok := r.shims[path]; ok && s.names[x.Sel.Name] {
		r.add(id.Pos(), id.End(), s.alias)
		r.used[path] = true
		r.repl[path]++
		return
	}
	r.uses[path]++
}

func (r *rw) goStmt(x *ast.GoStmt) {
	call := x.Call
	if fl, ok := call.Fun.(*ast.FuncLit); ok && len(call.Args) == 0 {
		r.add(x.Go, fl.Pos(), "vsim.Go(")
		r.walk(fl)
		r.add(call.Lparen, call.Rparen+1, ")")
		return
	}
	// general form: evaluate the function and its arguments now, call later
	var names []string
	r.add(x.Go, call.Fun.Pos(), "{ vsimF := ")
	r.walk(call.Fun)
	r.add(call.Lparen, call.Lparen+1, "; ")
	for i, a := range call.Args {
		tv := r.info.Types[a]
		n := fmt.Sprintf("vsimA%d", i)
		if tv.Value != nil || tv.IsNil() {
			names = append(names, r.text(a))
			r.add(a.Pos(), a.End(), "")
		} else {
			names = append(names, n)
			r.ins(a.Pos(), n+" := ")
			r.walk(a)
		}
		if i+1 < len(call.Args) {
			// the comma
			c := r.off(a.End())
			for r.src[c] != ',' {
				c++
			}
			r.add(token.Pos(c+r.base), token.Pos(c+1+r.base), ";")
		}
	}
	dots := ""
	if call.Ellipsis.IsValid() {
		r.add(call.Ellipsis, call.Ellipsis+3, "")
		dots = "..."
	}
	r.add(call.Rparen, call.Rparen+1, "; vsim.Go(func() { vsimF("+strings.Join(names, ", ")+dots+") }) }")
}

func (r *rw) selectStmt(x *ast.SelectStmt) {
	var vars, exprs []string
	hasDef := "false"
	type c struct {
		cc  *ast.CommClause
		idx int
	}
	idx := 0
	var head bytes.Buffer
	for _, s := range x.Body.List {
		cc := s.(*ast.CommClause)
		if cc.Comm == nil {
			hasDef = "true"
			r.stmts(cc.Body)
			for _, b := range cc.Body {
				r.walk(b)
			}
			continue
		}
		v := fmt.Sprintf("vsimC%d", idx)
		vars = append(vars, v)
		pre := ""
		switch cm := cc.Comm.(type) {
		case *ast.SendStmt:
			exprs = append(exprs, "vsim.SendCase("+r.sub(cm.Chan)+", "+r.sub(cm.Value)+")")
		case *ast.ExprStmt:
			u := ast.Unparen(cm.X).(*ast.UnaryExpr)
			exprs = append(exprs, "vsim.RecvCase("+r.sub(u.X)+")")
		case *ast.AssignStmt:
			u := ast.Unparen(cm.Rhs[0]).(*ast.UnaryExpr)
			exprs = append(exprs, "vsim.RecvCase("+r.sub(u.X)+")")
			var l []string
			for _, e := range cm.Lhs {
				l = append(l, r.text(e))
			}
			m := ".Val()"
			if len(cm.Lhs) == 2 {
				m = ".Val2()"
			}
			pre = " " + strings.Join(l, ", ") + " " + cm.Tok.String() + " " + v + m + ";"
		}
		// replace "case COMM:" keeping the body
		r.add(cc.Case, cc.Colon+1, fmt.Sprintf("case %d:%s", idx, pre))
		r.stmts(cc.Body)
		for _, b := range cc.Body {
			r.walk(b)
		}
		idx++
	}
	head.WriteString("switch ")
	if len(vars) > 0 {
		head.WriteString(strings.Join(vars, ", ") + " := " + strings.Join(exprs, ", ") + "; ")
	}
	head.WriteString("vsim.Select(" + hasDef)
	for _, v := range vars {
		head.WriteString(", " + v)
	}
	head.WriteString(") {")
	r.add(x.Select, x.Body.Lbrace+1, head.String())
}

// sub rewrites an expression separately and returns its text.
func (r *rw) sub(e ast.Expr) string {
	saved := r.edits
	r.edits = nil
	r.walk(e)
	eds := r.edits
	r.edits = saved
	src := r.src
	tmp := &rw{fset: r.fset, src: src[:r.off(e.End())], edits: eds, file: r.file}
	out := tmp.apply()
	// apply() copies from offset 0; cut the untouched prefix
	return string(out[r.off(e.Pos()):])
}

func (r *rw) imports(extra []string) {
	// imports whose every use was redirected become blank
	for _, is := range r.file.Imports {
		path, _ := strconv.Unquote(is.Path.Value)
		if is.Name != nil && (is.Name.Name == "_" || is.Name.Name == ".") {
			continue
		}
		if r.repl[path] > 0 && r.uses[path] == 0 {
			if is.Name != nil {
				r.add(is.Name.Pos(), is.Name.End(), "_")
			} else {
				r.ins(is.Path.Pos(), "_ ")
			}
		}
	}
	var b strings.Builder
	b.WriteString("; import vsim \"" + zroot + "/vsim\"")
	var ps []string
	for p := range r.used {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	for _, p := range ps {
		b.WriteString("; import " + r.shims[p].alias + " \"" + r.shims[p].path + "\"")
	}
	b.WriteString("; var _ = vsim.Y")
	// after the package clause, but the var must follow all imports: put it last
	txt := b.String()
	cut := strings.LastIndex(txt, "; var _")
	r.ins(r.file.Name.End(), txt[:cut])
	r.edits = append(r.edits, edit{off: len(r.src), end: len(r.src), text: "\n" + txt[cut+2:] + "\n", seq: len(r.edits)})
}

var zroot string

func loadShims(dir string) map[string]shim {
	// shim directories carry a file SHIM naming the package they stand in for
	out := map[string]shim{}
	ents, err := os.ReadDir(dir)
	if err != nil {
		fatal("%v", err)
	}
	for _, e := range ents {
		b, err := os.ReadFile(filepath.Join(dir, e.Name(), "SHIM"))
		if err != nil {
			continue
		}
		target := strings.TrimSpace(string(b))
		s := shim{path: zroot + "/" + e.Name(), alias: "z" + e.Name(), names: map[string]bool{}}
		fset := token.NewFileSet()
		files, _ := filepath.Glob(filepath.Join(dir, e.Name(), "*.go"))
		for _, f := range files {
			af, err := parser.ParseFile(fset, f, nil, parser.SkipObjectResolution)
			if err != nil {
				fatal("%v", err)
			}
			for _, d := range af.Decls {
				switch d := d.(type) {
				case *ast.FuncDecl:
					if d.Recv == nil && d.Name.IsExported() {
						s.names[d.Name.Name] = true
					}
				case *ast.GenDecl:
					for _, sp := range d.Specs {
						switch sp := sp.(type) {
						case *ast.TypeSpec:
							if sp.Name.IsExported() {
								s.names[sp.Name.Name] = true
							}
						case *ast.ValueSpec:
							for _, n := range sp.Names {
								if n.IsExported() {
									s.names[n.Name] = true
								}
							}
						}
					}
				}
			}
		}
		for n := range s.names {
			if strings.HasPrefix(n, "Sim") { // harness-side API, not a stand-in
				delete(s.names, n)
			}
		}
		out[target] = s
	}
	return out
}

func main() {
	repo := flag.String("repo", "/repo", "repository")
	zdir := flag.String("z", "", "directory with the simulator packages")
	out := flag.String("out", "", "output directory")
	bridge := flag.String("bridge", "", "in-package bridge files (dir)")
	noRMW := flag.Bool("normw", false, "do not split read-modify-write")
	flag.Parse()

	mod := modulePath(*repo)
	zroot = mod + "/zzverif"
	shims := loadShims(*zdir)
	overlay := map[string]string{}

	// simulator packages
	filepath.Walk(*zdir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			fatal("%v", err)
		}
		if fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(*zdir, p)
		overlay[filepath.Join(*repo, "zzverif", rel)] = p
		return nil
	})
	gen := filepath.Join(*out, "gen")
	os.MkdirAll(gen, 0o755)

	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedSyntax | packages.NeedTypes |
			packages.NeedTypesInfo | packages.NeedImports | packages.NeedDeps*0,
		Dir:  *repo,
		Fset: token.NewFileSet(),
		ParseFile: func(fset *token.FileSet, filename string, src []byte) (*ast.File, error) {
			return parser.ParseFile(fset, filename, src, parser.ParseComments|parser.SkipObjectResolution)
		},
	}
	pkgs, err := packages.Load(cfg, "./lens")
	if err != nil {
		fatal("load: %v", err)
	}
	if packages.PrintErrors(pkgs) > 0 {
		fatal("the repository does not type-check")
	}
	stats := map[string]int{}
	for _, pkg := range pkgs {
		for _, f := range pkg.Syntax {
			name := pkg.Fset.Position(f.Package).Filename
			base := filepath.Base(name)
			src, err := os.ReadFile(name)
			if err != nil {
				fatal("%v", err)
			}
			mk := func(rmw bool) *rw {
				return &rw{fset: pkg.Fset, info: pkg.TypesInfo, src: src, base: pkg.Fset.File(f.Package).Base(), file: f,
					shims: shims, used: map[string]bool{}, uses: map[string]int{}, repl: map[string]int{}, splitRMW: rmw}
			}
			r := mk(!*noRMW)
			r.walk(f)
			r.imports(nil)
			// embedded templates are read from the repository instead
			for _, cg := range f.Comments {
				for _, c := range cg.List {
					if strings.HasPrefix(c.Text, "//go:embed") {
						r.add(c.Pos(), c.Pos()+2, "// -")
					}
				}
			}
			stats["files"]++
			stats["edits"] += len(r.edits)
			dst := filepath.Join(gen, "lens_"+base)
			if err := os.WriteFile(dst, r.apply(), 0o644); err != nil {
				fatal("%v", err)
			}
			overlay[name] = dst
			if base == "astclient.go" || base == "astapi.go" {
				genClient(mk(false), base, filepath.Join(gen, "vclient_"+base), stats)
				overlay[filepath.Join(*repo, "zzverif", "vclient", base)] = filepath.Join(gen, "vclient_"+base)
			}
		}
	}
	// constants the shims need
	dst := filepath.Join(gen, "vembed_dir.go")
	os.WriteFile(dst, []byte(fmt.Sprintf("package vembed\n\nconst lensDir = %q\n", filepath.Join(*repo, "lens"))), 0o644)
	overlay[filepath.Join(*repo, "zzverif", "vembed", "dir.go")] = dst

	if *bridge != "" {
		bs, _ := filepath.Glob(filepath.Join(*bridge, "*.go"))
		for _, b := range bs {
			overlay[filepath.Join(*repo, "lens", "zz_verif_"+filepath.Base(b))] = b
		}
	}
	j, _ := json.MarshalIndent(map[string]any{"Replace": overlay}, "", " ")
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), j, 0o644); err != nil {
		fatal("%v", err)
	}
	fmt.Printf("rewrote %d files, %d edits\n", stats["files"], stats["edits"])
}

// genClient derives the package that simulated test processes run: the client
// that the tool injects, with its package variables made per-process.
func genClient(r *rw, base, dst string, stats map[string]int) {
	skip = map[ast.Node]bool{}
	r.walk(r.file)
	r.imports(nil)
	r.add(r.file.Name.Pos(), r.file.Name.End(), "vclient")
	var vars []string
	var inits []string
	for _, d := range r.file.Decls {
		switch d := d.(type) {
		case *ast.GenDecl:
			if d.Tok == token.VAR {
				for _, s := range d.Specs {
					vs := s.(*ast.ValueSpec)
					for i, n := range vs.Names {
						if n.Name == "_" {
							continue
						}
						vars = append(vars, n.Name)
						if len(vs.Values) == len(vs.Names) {
							inits = append(inits, n.Name+" = "+r.sub(vs.Values[i]))
						}
					}
				}
			}
			if d.Tok == token.CONST {
				// the values the injector fills in become per-process variables
				for _, s := range d.Specs {
					vs := s.(*ast.ValueSpec)
					for i, n := range vs.Names {
						if injected[n.Name] && len(vs.Values) == len(vs.Names) {
							r.add(n.Pos(), n.End(), "vsimDefault_"+n.Name)
							vars = append(vars, n.Name)
							decls = append(decls, fmt.Sprintf("var %s = int(vsimDefault_%s)", n.Name, n.Name))
							consts = append(consts, n.Name)
							_ = i
						}
					}
				}
			}
		case *ast.FuncDecl:
			if d.Name.Name == "init" && d.Recv == nil {
				nm := fmt.Sprintf("vsimInit%d", len(initFns))
				initFns = append(initFns, nm)
				r.add(d.Name.Pos(), d.Name.End(), nm)
			}
		}
	}
	allVars = append(allVars, vars...)
	allInits = append(allInits, inits...)
	text := r.apply()
	if base == "astclient.go" { // astapi.go sorts first
		var b strings.Builder
		b.WriteString("\n")
		for _, d := range decls {
			b.WriteString(d + "\n")
		}
		b.WriteString("func init() { vsim.RegisterProcState(vsimSave, vsimRestore, vsimBoot) }\n")
		b.WriteString("func vsimSave() []any { return []any{")
		for _, v := range allVars {
			b.WriteString(v + ", ")
		}
		b.WriteString("} }\nfunc vsimRestore(s []any) {\n")
		for i, v := range allVars {
			fmt.Fprintf(&b, "\tvsim.Assign(&%s, s[%d])\n", v, i)
		}
		b.WriteString("}\nfunc vsimBoot(k map[string]int) {\n")
		for _, c := range consts {
			fmt.Fprintf(&b, "\tif v, ok := k[%q]; ok { %s = v }\n", c, c)
		}
		for _, i := range allInits {
			b.WriteString("\t" + i + "\n")
		}
		for _, i := range initFns {
			b.WriteString("\t" + i + "()\n")
		}
		b.WriteString("}\n")
		b.WriteString(clientAPI)
		text = append(text, b.String()...)
	}
	if err := os.WriteFile(dst, text, 0o644); err != nil {
		fatal("%v", err)
	}
}

var injected = map[string]bool{"lensMonitorServerPort": true, "lensMonitorFieldMaxRecurse": true, "lensMonitorFieldMaxLen": true}
var decls, consts, initFns, allVars, allInits []string

const clientAPI = `
// SendPoint, SendState and SendPanic are what an instrumented function does.
func SendPoint(id uint32) { sendLensPointMessage(id) }

func SendState(id uint32, names []string, vals []any) {
	snaps := make([]lensMonitorFieldSnapshot, len(names))
	for i := range names {
		snaps[i] = lensMonitorFieldSnapshot{Name: names[i], Val: vals[i]}
	}
	sendLensPointStateMessage(id, snaps...)
}

func SendPanic(id uint32, r any) { sendLensPointRecoveryMessage(id, r) }
`

func modulePath(repo string) string {
	b, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		fatal("%v", err)
	}
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "module ") {
			return strings.TrimSpace(strings.TrimPrefix(l, "module "))
		}
	}
	fatal("no module path")
	return ""
}
