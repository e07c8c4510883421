package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"github.com/PatchLens/go-update-lens/zzverif/vclient"
	"github.com/PatchLens/go-update-lens/zzverif/vimporter"
	"github.com/PatchLens/go-update-lens/zzverif/vsim"
)

// This file plays the Go toolchain for simulated projects: it reads the package
// sources that are on disk at that moment (instrumented or not) and executes
// them in a simulated process, calling the real monitor client wherever the
// source does. It covers the subset of Go that gen.go writes plus whatever the
// instrumentation adds around it; anything else is reported as an internal
// error of the harness, never as a violation.

// Rec is the struct type simulated programs use (declared identically in them).
type Rec struct {
	Name string
	N    int
	Tags []string
	M    map[string]int
	Next *Rec
	hid  int
}

// Tool is the receiver type of generated methods.
type Tool struct{ Base int }

// Part is a struct whose fields may share an array.
type Part struct{ Head, All []int }

type unsupported string

func (u unsupported) Error() string { return string(u) }

type ifunc struct {
	decl *ast.FuncDecl
	file string
	pkg  *ipkg
	qual string // name in stacks
	imps map[string]string
}

type ipkg struct {
	path, dir, name string
	funcs           map[string]*ifunc
	fset            *token.FileSet
	hasClient       bool
	consts          map[string]int
	types           *types.Package
	srcs            []loadedSrc
}

type loadedSrc struct {
	path string
	src  []byte
}

type compileError struct{ msg string }

func (c compileError) Error() string { return c.msg }

type importFunc func(string) (*types.Package, error)

func (f importFunc) Import(path string) (*types.Package, error) { return f(path) }

// prog is a loaded program: the packages reachable from one package.
type iprog struct {
	resolve func(importPath string) (dir string, ok bool)
	pkgs    map[string]*ipkg
	onSend  func(s *sent)
	run     *testRun
	consts  map[string]int
	check   bool // sources must type-check
}

var constRe = regexp.MustCompile(`(?m)^\s*(lensMonitorServerPort|lensMonitorFieldMaxRecurse|lensMonitorFieldMaxLen)\s*=\s*(\d+)`)

func (p *iprog) load(path string, tests bool) (*ipkg, error) {
	if q, ok := p.pkgs[path]; ok {
		return q, nil
	}
	dir, ok := p.resolve(path)
	if !ok {
		return nil, compileError{"cannot find package " + path}
	}
	ents, err := os.ReadDir(dir)
	if err != nil {
		return nil, compileError{err.Error()}
	}
	q := &ipkg{path: path, dir: dir, funcs: map[string]*ifunc{}, fset: token.NewFileSet(), consts: map[string]int{}}
	p.pkgs[path] = q
	usesClient := false
	haveClient, haveAPI := false, false
	var files []*ast.File
	checked := func(full string, src []byte) error {
		if !p.check {
			return nil
		}
		f, err := parser.ParseFile(q.fset, full, src, parser.SkipObjectResolution)
		if err != nil {
			return compileError{err.Error()}
		}
		files = append(files, f)
		return nil
	}
	for _, e := range ents {
		n := e.Name()
		if !strings.HasSuffix(n, ".go") || (strings.HasSuffix(n, "_test.go") && !tests) {
			continue
		}
		full := filepath.Join(dir, n)
		src, err := os.ReadFile(full)
		if err != nil {
			return nil, compileError{err.Error()}
		}
		q.srcs = append(q.srcs, loadedSrc{full, src})
		if strings.Contains(string(src), "func sendLensPointMessage(") || strings.Contains(string(src), "lensTypeTagSlice ") {
			f, err := parser.ParseFile(token.NewFileSet(), full, src, parser.PackageClauseOnly)
			if err != nil {
				return nil, compileError{err.Error()}
			}
			if q.name == "" {
				q.name = f.Name.Name
			} else if q.name != f.Name.Name {
				return nil, compileError{"found packages " + q.name + " and " + f.Name.Name + " in " + dir}
			}
			if strings.Contains(string(src), "func sendLensPointMessage(") {
				if !strings.Contains(string(src), "func lensCompareReflectValue(") {
					return nil, compileError{full + ": incomplete client"}
				}
				if haveClient {
					return nil, compileError{full + ": client declared twice"}
				}
				haveClient = true
				for _, m := range constRe.FindAllStringSubmatch(string(src), -1) {
					v, _ := strconv.Atoi(m[2])
					q.consts[m[1]] = v
				}
			}
			if strings.Contains(string(src), "lensTypeTagSlice ") {
				haveAPI = true
			}
			if err := checked(full, src); err != nil {
				return nil, err
			}
			continue
		}
		f, err := parser.ParseFile(q.fset, full, src, parser.ParseComments)
		if err != nil {
			return nil, compileError{err.Error()}
		}
		if q.name == "" {
			q.name = f.Name.Name
		} else if q.name != f.Name.Name {
			return nil, compileError{"found packages " + q.name + " and " + f.Name.Name + " in " + dir}
		}
		if err := checked(full, src); err != nil {
			return nil, err
		}
		imps := map[string]string{}
		for _, im := range f.Imports {
			ip, _ := strconv.Unquote(im.Path.Value)
			name := ip[strings.LastIndex(ip, "/")+1:]
			if im.Name != nil {
				name = im.Name.Name
			}
			imps[name] = ip
		}
		if strings.Contains(string(src), "sendLensPoint") || strings.Contains(string(src), "lensMonitorFieldSnapshot") {
			usesClient = true
		}
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok {
				continue
			}
			key, qual := fd.Name.Name, path+"."+fd.Name.Name
			if fd.Recv != nil && len(fd.Recv.List) > 0 {
				switch t := fd.Recv.List[0].Type.(type) {
				case *ast.StarExpr:
					tn := t.X.(*ast.Ident).Name
					key, qual = tn+"."+key, fmt.Sprintf("%s.(*%s).%s", path, tn, fd.Name.Name)
				case *ast.Ident:
					key, qual = t.Name+"."+key, fmt.Sprintf("%s.%s.%s", path, t.Name, fd.Name.Name)
				}
			}
			if _, dup := q.funcs[key]; dup {
				return nil, compileError{full + ": " + key + " redeclared"}
			}
			q.funcs[key] = &ifunc{decl: fd, file: full, pkg: q, qual: qual, imps: imps}
		}
	}
	if q.name == "" {
		return nil, compileError{"no Go files in " + dir}
	}
	q.hasClient = haveClient && haveAPI
	if usesClient && !q.hasClient {
		return nil, compileError{dir + ": undefined: sendLensPointStateMessage"}
	}
	for k, v := range q.consts {
		p.consts[k] = v
	}
	names := make([]string, 0, len(q.funcs))
	for n := range q.funcs {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		for _, ip := range q.funcs[n].imps {
			if strings.Contains(ip, ".") {
				if _, err := p.load(ip, false); err != nil {
					return nil, err
				}
			}
		}
	}
	if p.check {
		conf := types.Config{GoVersion: "go1.21", Importer: importFunc(func(ip string) (*types.Package, error) {
			if d := p.pkgs[ip]; d != nil && d.types != nil {
				return d.types, nil
			}
			return vimporter.Default().Import(ip)
		})}
		t, err := conf.Check(path, q.fset, files, nil)
		if err != nil {
			return nil, compileError{err.Error()}
		}
		q.types = t
	}
	return q, nil
}

// typeError type-checks all that was loaded: what the interpreter cannot execute is not accepted by the compiler either.
func (p *iprog) typeError() error {
	done := map[string]*types.Package{}
	var check func(path string) (*types.Package, error)
	check = func(path string) (*types.Package, error) {
		if t := done[path]; t != nil {
			return t, nil
		}
		q := p.pkgs[path]
		if q == nil {
			return vimporter.Default().Import(path)
		}
		fset := token.NewFileSet()
		var files []*ast.File
		for _, s := range q.srcs {
			f, err := parser.ParseFile(fset, s.path, s.src, parser.SkipObjectResolution)
			if err != nil {
				return nil, err
			}
			files = append(files, f)
		}
		conf := types.Config{GoVersion: "go1.21", Importer: importFunc(check)}
		t, err := conf.Check(path, fset, files, nil)
		if err != nil {
			return nil, err
		}
		done[path] = t
		return t, nil
	}
	paths := make([]string, 0, len(p.pkgs))
	for path := range p.pkgs {
		paths = append(paths, path)
	}
	sort.Strings(paths)
	for _, path := range paths {
		if _, err := check(path); err != nil {
			return err
		}
	}
	return nil
}

// ---- execution ----

type ipanic struct{ val any }

type scope struct {
	vars map[string]*any
	up   *scope
}

func (s *scope) find(n string) *any {
	for ; s != nil; s = s.up {
		if v, ok := s.vars[n]; ok {
			return v
		}
	}
	return nil
}
func (s *scope) def(n string, v any) {
	if n == "_" {
		return
	}
	s.vars[n] = &v
}
func sub(s *scope) *scope { return &scope{vars: map[string]*any{}, up: s} }

type frame struct {
	fn      *ifunc
	defers  []func()
	deferOf *frame
	panicv  *ipanic
	ret     []any
	label   string // of the break or continue under way
	results *ast.FieldList
	fsc     *scope
	it      *iprog
	inv     *invoc
}

// invoc is one execution of a declared function.
type invoc struct {
	fn       *ifunc
	sents    []*sent
	returned bool // the body ended by itself
	panicked bool // the caller got a panic
	ended    bool // and the deferred functions have run
	results  []any
	args     string
	outcome  string
}

// deep shows a value without addresses.
func deep(v any) string {
	switch x := v.(type) {
	case error:
		return "error " + x.Error()
	case *closure, *boundMethod, *ifunc:
		return "func"
	case chan int:
		return "chan"
	case tval, *waitGroup:
		return "test"
	case []any:
		var l []string
		for _, e := range x {
			l = append(l, deep(e))
		}
		return "(" + strings.Join(l, ", ") + ")"
	}
	b, err := json.Marshal(v)
	if err != nil {
		bad("value %T", v)
	}
	return string(b)
}

type ctl int

const (
	cNone ctl = iota
	cRet
	cBrk
	cCont
)

type closure struct {
	lit *ast.FuncLit
	sc  *scope
	fn  *ifunc
}
type boundMethod struct {
	fn   *ifunc
	recv any
}
type tval struct{ failed *bool } // *testing.T
type waitGroup struct {
	n   int
	clk vsim.Clock
}

// rawFatal ends a test through t.Fatal.
type rawFatal struct{ msg string }

func bad(f string, a ...any) { panic(unsupported(fmt.Sprintf(f, a...))) }

func (p *iprog) line(f *frame, n ast.Node) {
	t := vsim.Cur()
	if len(t.Stack) > 0 {
		t.Stack[0].Line = f.fn.pkg.fset.Position(n.Pos()).Line
	}
	vsim.Y()
}

func (p *iprog) invoke(fn *ifunc, typ *ast.FuncType, body *ast.BlockStmt, sc *scope, qual string, deferOf *frame, args []any) (results []any) {
	t := vsim.Cur()
	if len(t.Stack) > 60 {
		bad("simulated stack too deep")
	}
	t.Stack = append([]vsim.Frame{{File: fn.file, Function: qual, Line: fn.pkg.fset.Position(body.Pos()).Line}}, t.Stack...)
	f := &frame{fn: fn, deferOf: deferOf, results: typ.Results, fsc: sc, it: p}
	if fn.decl.Body == body {
		f.inv = &invoc{fn: fn, args: deep(args)}
		switch {
		case !p.run.async[t]:
			p.run.invs = append(p.run.invs, f.inv)
		case len(t.Stack) == 2: // how far it gets is a matter of timing
			p.run.spawned = append(p.run.spawned, fn.qual+f.inv.args)
		}
	} else if deferOf != nil {
		f.inv = deferOf.inv
	}
	inv := f.inv
	if fn.decl.Body != body {
		inv = &invoc{}
	}
	i := 0
	for _, fl := range typ.Params.List {
		names := fl.Names
		if len(names) == 0 {
			i++
			continue
		}
		for _, n := range names {
			sc.def(n.Name, args[i])
			i++
		}
	}
	nres := 0
	if typ.Results != nil {
		for _, fl := range typ.Results.List {
			if len(fl.Names) == 0 {
				nres++
			}
			for _, n := range fl.Names {
				sc.def(n.Name, zeroOf(fl.Type))
				nres++
			}
		}
	}
	guard := func(g func()) {
		defer func() {
			if r := recover(); r != nil {
				if ip, ok := r.(*ipanic); ok {
					f.panicv = ip
					return
				}
				panic(r)
			}
		}()
		g()
	}
	depth := len(t.Stack)
	guard(func() {
		p.block(f, body, sub(sc))
		inv.returned = true
	})
	t.Stack = t.Stack[len(t.Stack)-depth:]
	for len(f.defers) > 0 {
		d := f.defers[len(f.defers)-1]
		f.defers = f.defers[:len(f.defers)-1]
		guard(d)
		t.Stack = t.Stack[len(t.Stack)-depth:]
	}
	t.Stack = t.Stack[1:]
	inv.ended = true
	defer func() {
		if f.panicv == nil {
			inv.outcome = "returned " + deep(results)
		}
	}()
	if f.panicv != nil {
		inv.panicked = true
		inv.outcome = "panic " + deep(f.panicv.val)
		panic(f.panicv)
	}
	if nres == 0 {
		return nil
	}
	inv.results = f.ret
	if named := namedResults(typ.Results); named != nil {
		out := make([]any, nres)
		for i, n := range named {
			if n == "_" {
				if i < len(f.ret) {
					out[i] = f.ret[i]
				}
				continue
			}
			out[i] = *sc.vars[n]
		}
		return out
	}
	if f.ret == nil {
		// recovered without results: zero values
		var out []any
		for _, fl := range typ.Results.List {
			out = append(out, zeroOf(fl.Type))
		}
		return out
	}
	return f.ret
}

func namedResults(r *ast.FieldList) []string {
	if r == nil {
		return nil
	}
	var out []string
	for _, fl := range r.List {
		for _, n := range fl.Names {
			out = append(out, n.Name)
		}
	}
	return out
}

func (p *iprog) callFunc(fn *ifunc, recv any, deferOf *frame, args []any) []any {
	sc := sub(nil)
	if fn.decl.Recv != nil && len(fn.decl.Recv.List[0].Names) > 0 {
		sc.def(fn.decl.Recv.List[0].Names[0].Name, recv)
	}
	return p.invoke(fn, fn.decl.Type, fn.decl.Body, sc, fn.qual, deferOf, args)
}

func (p *iprog) callValue(v any, deferOf *frame, args []any) []any {
	switch c := v.(type) {
	case *ifunc:
		return p.callFunc(c, nil, deferOf, args)
	case *closure:
		return p.invoke(c.fn, c.lit.Type, c.lit.Body, sub(c.sc), c.fn.qual+".func1", deferOf, args)
	case *boundMethod:
		return p.callFunc(c.fn, c.recv, deferOf, args)
	}
	bad("call of %T", v)
	return nil
}

func zeroOf(t ast.Expr) any {
	switch x := t.(type) {
	case *ast.Ident:
		switch x.Name {
		case "int":
			return 0
		case "string":
			return ""
		case "bool":
			return false
		case "Rec":
			return Rec{}
		case "Tool":
			return Tool{}
		case "Part":
			return Part{}
		}
		return nil
	case *ast.StarExpr:
		if id, ok := x.X.(*ast.Ident); ok && id.Name == "Rec" {
			return (*Rec)(nil)
		}
	case *ast.ArrayType:
		return reflect.Zero(typeOf(t)).Interface()
	case *ast.MapType:
		return reflect.Zero(typeOf(t)).Interface()
	case *ast.SelectorExpr:
		if x.Sel.Name == "WaitGroup" {
			return &waitGroup{}
		}
	}
	return nil
}

func typeOf(t ast.Expr) reflect.Type {
	switch x := t.(type) {
	case *ast.Ident:
		switch x.Name {
		case "int":
			return reflect.TypeOf(0)
		case "string":
			return reflect.TypeOf("")
		case "bool":
			return reflect.TypeOf(false)
		case "Rec":
			return reflect.TypeOf(Rec{})
		case "Tool":
			return reflect.TypeOf(Tool{})
		case "Part":
			return reflect.TypeOf(Part{})
		case "any", "error":
			return reflect.TypeOf((*any)(nil)).Elem()
		}
	case *ast.InterfaceType:
		return reflect.TypeOf((*any)(nil)).Elem()
	case *ast.StarExpr:
		return reflect.PointerTo(typeOf(x.X))
	case *ast.ArrayType:
		return reflect.SliceOf(typeOf(x.Elt))
	case *ast.MapType:
		return reflect.MapOf(typeOf(x.Key), typeOf(x.Value))
	}
	bad("type %T", t)
	return nil
}

// conv stores v as type t would: only nil needs it.
func convTo(v any, t reflect.Type) reflect.Value {
	if v == nil {
		return reflect.Zero(t)
	}
	return reflect.ValueOf(v)
}

func (p *iprog) block(f *frame, b *ast.BlockStmt, sc *scope) ctl {
	for _, s := range b.List {
		if c := p.stmt(f, s, sc); c != cNone {
			return c
		}
	}
	return cNone
}

func (p *iprog) setResults(f *frame, vals []any) {
	if named := namedResults(f.results); named != nil {
		for i, n := range named {
			if n != "_" {
				*f.fsc.vars[n] = vals[i]
			}
		}
	}
	f.ret = vals
}

// loopCtl says what the end of one round means for a loop: done with it or not,
// and what the statements around it are told.
func (p *iprog) loopCtl(f *frame, c ctl, label string) (ctl, bool) {
	switch {
	case c == cRet:
		return c, true
	case (c == cBrk || c == cCont) && f.label != "" && f.label != label:
		return c, true
	case c == cBrk:
		f.label = ""
		return cNone, true
	}
	f.label = ""
	return cNone, false
}

func (p *iprog) stmt(f *frame, s ast.Stmt, sc *scope) ctl { return p.lstmt(f, s, sc, "") }

func (p *iprog) lstmt(f *frame, s ast.Stmt, sc *scope, label string) ctl {
	p.line(f, s)
	switch x := s.(type) {
	case *ast.ExprStmt:
		p.eval(f, x.X, sc)
	case *ast.AssignStmt:
		p.assign(f, x, sc)
	case *ast.DeclStmt:
		g := x.Decl.(*ast.GenDecl)
		for _, sp := range g.Specs {
			vs, ok := sp.(*ast.ValueSpec)
			if !ok {
				continue
			}
			if len(vs.Values) == 0 {
				for _, n := range vs.Names {
					sc.def(n.Name, zeroOf(vs.Type))
				}
				continue
			}
			var vals []any
			if len(vs.Values) == 1 && len(vs.Names) > 1 {
				vals = p.multi(f, vs.Values[0], sc)
			} else {
				for _, v := range vs.Values {
					vals = append(vals, p.one(f, v, sc))
				}
			}
			for i, n := range vs.Names {
				sc.def(n.Name, vals[i])
			}
		}
	case *ast.BlockStmt:
		return p.block(f, x, sub(sc))
	case *ast.IfStmt:
		in := sub(sc)
		if x.Init != nil {
			p.stmt(f, x.Init, in)
		}
		if p.one(f, x.Cond, in).(bool) {
			return p.block(f, x.Body, sub(in))
		} else if x.Else != nil {
			return p.stmt(f, x.Else, in)
		}
	case *ast.ForStmt:
		in := sub(sc)
		if x.Init != nil {
			p.stmt(f, x.Init, in)
		}
		for n := 0; x.Cond == nil || p.one(f, x.Cond, in).(bool); n++ {
			if n > 1000 {
				bad("endless loop")
			}
			c := p.block(f, x.Body, sub(in))
			if out, done := p.loopCtl(f, c, label); done {
				if out != cNone {
					return out
				}
				break
			}
			if x.Post != nil {
				p.stmt(f, x.Post, in)
			}
		}
	case *ast.RangeStmt:
		v := reflect.ValueOf(p.one(f, x.X, sc))
		if v.Kind() != reflect.Slice {
			bad("range over %s", v.Kind())
		}
		for i := 0; i < v.Len(); i++ {
			in := sub(sc)
			if id, ok := x.Key.(*ast.Ident); ok {
				in.def(id.Name, i)
			}
			if id, ok := x.Value.(*ast.Ident); ok {
				in.def(id.Name, v.Index(i).Interface())
			}
			c := p.block(f, x.Body, sub(in))
			if out, done := p.loopCtl(f, c, label); done {
				if out != cNone {
					return out
				}
				break
			}
		}
	case *ast.SwitchStmt:
		in := sub(sc)
		if x.Init != nil {
			p.stmt(f, x.Init, in)
		}
		var tag any = true
		if x.Tag != nil {
			tag = p.one(f, x.Tag, in)
		}
		var def *ast.CaseClause
		for _, c := range x.Body.List {
			cc := c.(*ast.CaseClause)
			if cc.List == nil {
				def = cc
				continue
			}
			for _, e := range cc.List {
				if p.one(f, e, in) == tag {
					return p.caseBody(f, cc.Body, in)
				}
			}
		}
		if def != nil {
			return p.caseBody(f, def.Body, in)
		}
	case *ast.TypeSwitchStmt:
		in := sub(sc)
		if x.Init != nil {
			p.stmt(f, x.Init, in)
		}
		var e ast.Expr
		name := ""
		switch a := x.Assign.(type) {
		case *ast.ExprStmt:
			e = a.X
		case *ast.AssignStmt:
			e, name = a.Rhs[0], a.Lhs[0].(*ast.Ident).Name
		}
		v := p.one(f, e.(*ast.TypeAssertExpr).X, in)
		var hit *ast.CaseClause
		for _, c := range x.Body.List {
			cc := c.(*ast.CaseClause)
			if cc.List == nil && hit == nil {
				hit = cc
			}
			for _, t := range cc.List {
				if v != nil && reflect.TypeOf(v) == typeOf(t) {
					hit = cc
				}
			}
			if hit == cc && cc.List != nil {
				break
			}
		}
		if hit != nil {
			if name != "" {
				in = sub(in)
				in.def(name, v)
			}
			return p.caseBody(f, hit.Body, in)
		}
	case *ast.ReturnStmt:
		if len(x.Results) == 0 {
			if namedResults(f.results) != nil {
				return cRet
			}
			f.ret = []any{}
			return cRet
		}
		var vals []any
		if len(x.Results) == 1 {
			vals = p.multi(f, x.Results[0], sc)
		} else {
			for _, r := range x.Results {
				vals = append(vals, p.one(f, r, sc))
			}
		}
		p.setResults(f, vals)
		return cRet
	case *ast.IncDecStmt:
		id := x.X.(*ast.Ident)
		v := sc.find(id.Name)
		d := 1
		if x.Tok == token.DEC {
			d = -1
		}
		*v = (*v).(int) + d
	case *ast.DeferStmt:
		call := x.Call
		if fl, ok := call.Fun.(*ast.FuncLit); ok {
			var args []any
			for _, a := range call.Args {
				args = append(args, p.one(f, a, sc))
			}
			c := &closure{lit: fl, sc: sc, fn: f.fn}
			f.defers = append(f.defers, func() { p.callValue(c, f, args) })
		} else {
			var args []ast.Expr
			in := sub(sc)
			for i, a := range call.Args {
				n := fmt.Sprintf(" d%d", i)
				in.def(n, p.one(f, a, sc))
				args = append(args, ast.NewIdent(n))
			}
			cp := *call
			cp.Args = args
			f.defers = append(f.defers, func() { p.evalCall(f, &cp, in, f) })
		}
	case *ast.GoStmt:
		call := x.Call
		var fv any
		fl, isLit := call.Fun.(*ast.FuncLit)
		if isLit {
			fv = &closure{lit: fl, sc: sc, fn: f.fn}
		} else {
			fv = p.one(f, call.Fun, sc)
		}
		var args []any
		for _, a := range call.Args {
			args = append(args, p.one(f, a, sc))
		}
		p.spawn(fv, args, !isLit)
	case *ast.BranchStmt:
		f.label = ""
		if x.Label != nil {
			f.label = x.Label.Name
		}
		switch x.Tok {
		case token.BREAK:
			return cBrk
		case token.CONTINUE:
			return cCont
		}
		bad("branch %s", x.Tok)
	case *ast.LabeledStmt:
		c := p.lstmt(f, x.Stmt, sc, x.Label.Name)
		if c == cBrk && f.label == x.Label.Name {
			f.label = ""
			return cNone
		}
		return c
	case *ast.SendStmt:
		ch := p.one(f, x.Chan, sc).(chan int)
		v := p.one(f, x.Value, sc).(int)
		vsim.Block("sim chan send", func() bool { return len(ch) < cap(ch) })
		ch <- v
	case *ast.SelectStmt:
		return p.selectStmt(f, x, sc)
	case *ast.EmptyStmt:
	default:
		bad("statement %T", s)
	}
	return cNone
}

// selectStmt knows receive clauses and default.
func (p *iprog) selectStmt(f *frame, x *ast.SelectStmt, sc *scope) ctl {
	type clause struct {
		cc   *ast.CommClause
		ch   chan int
		name string
	}
	var cs []clause
	var def *ast.CommClause
	for _, st := range x.Body.List {
		cc := st.(*ast.CommClause)
		var e ast.Expr
		name := ""
		switch c := cc.Comm.(type) {
		case nil:
			def = cc
			continue
		case *ast.ExprStmt:
			e = c.X
		case *ast.AssignStmt:
			e = c.Rhs[0]
			name = c.Lhs[0].(*ast.Ident).Name
		default:
			bad("select case %T", cc.Comm)
		}
		u, ok := e.(*ast.UnaryExpr)
		if !ok || u.Op != token.ARROW {
			bad("select case %T", e)
		}
		cs = append(cs, clause{cc, p.one(f, u.X, sc).(chan int), name})
	}
	ready := func() int {
		for i, c := range cs {
			if len(c.ch) > 0 {
				return i
			}
		}
		return -1
	}
	if def == nil {
		vsim.Block("sim select", func() bool { return ready() >= 0 })
	}
	i := ready()
	if i < 0 {
		return p.caseBody(f, def.Body, sc)
	}
	in := sub(sc)
	v := <-cs[i].ch
	if cs[i].name != "" {
		in.def(cs[i].name, v)
	}
	return p.caseBody(f, cs[i].cc.Body, in)
}

func (p *iprog) caseBody(f *frame, body []ast.Stmt, sc *scope) ctl {
	in := sub(sc)
	for _, s := range body {
		c := p.stmt(f, s, in)
		if c == cBrk && f.label == "" {
			return cNone
		}
		if c != cNone {
			return c
		}
	}
	return cNone
}

func (p *iprog) spawn(fv any, args []any, async bool) {
	run := p.run
	vsim.GoIn(vsim.CurProc(), "sim-goroutine", func() {
		defer p.top(run)
		if async {
			if run.async == nil {
				run.async = map[*vsim.Task]bool{}
			}
			run.async[vsim.Cur()] = true
		}
		vsim.Cur().Stack = []vsim.Frame{goexitFrame}
		p.callValue(fv, nil, args)
	})
}

// top ends a goroutine: an unrecovered panic ends the process.
func (p *iprog) top(run *testRun) {
	if r := recover(); r != nil {
		switch v := r.(type) {
		case *ipanic:
			run.crash(fmt.Sprint(v.val))
		case rawFatal:
			run.failed = true
		case unsupported:
			if err := p.typeError(); err != nil {
				run.invalid = err.Error()
				run.crash("build: " + run.invalid)
				return
			}
			vsim.Fail("internal", "interpreter: %v", v)
		default:
			panic(r)
		}
	}
}

var goexitFrame = vsim.Frame{File: "/usr/local/go/src/runtime/asm_amd64.s", Function: "runtime.goexit", Line: 1700}
var trunnerFrame = vsim.Frame{File: "/usr/local/go/src/testing/testing.go", Function: "testing.tRunner", Line: 1934}

var assignOps = map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL}

func (p *iprog) assign(f *frame, x *ast.AssignStmt, sc *scope) {
	var vals []any
	if len(x.Rhs) == 1 && len(x.Lhs) > 1 {
		vals = p.multi(f, x.Rhs[0], sc)
	} else {
		for _, r := range x.Rhs {
			vals = append(vals, p.one(f, r, sc))
		}
	}
	if len(vals) != len(x.Lhs) {
		bad("assignment of %d values to %d places", len(vals), len(x.Lhs))
	}
	for i, l := range x.Lhs {
		id, ok := l.(*ast.Ident)
		if !ok {
			if se, ok := l.(*ast.SelectorExpr); ok {
				pv := reflect.ValueOf(p.one(f, se.X, sc))
				if pv.Kind() != reflect.Pointer {
					bad("assignment to a field of %s", pv.Kind())
				}
				fv := pv.Elem().FieldByName(se.Sel.Name)
				nv := vals[i]
				if op, ok := assignOps[x.Tok]; ok {
					nv = binary(op, fv.Interface(), nv)
				}
				fv.Set(convTo(nv, fv.Type()))
				continue
			}
			ix, ok := l.(*ast.IndexExpr)
			if !ok || x.Tok != token.ASSIGN {
				bad("assignment to %T", l)
			}
			c := reflect.ValueOf(p.one(f, ix.X, sc))
			k := p.one(f, ix.Index, sc)
			if c.Kind() == reflect.Map {
				c.SetMapIndex(reflect.ValueOf(k), convTo(vals[i], c.Type().Elem()))
			} else {
				c.Index(k.(int)).Set(convTo(vals[i], c.Type().Elem()))
			}
			continue
		}
		switch x.Tok {
		case token.DEFINE:
			if v, ok := sc.vars[id.Name]; ok && id.Name != "_" {
				*v = vals[i]
			} else {
				sc.def(id.Name, vals[i])
			}
		case token.ASSIGN:
			if id.Name == "_" {
				continue
			}
			v := sc.find(id.Name)
			if v == nil {
				bad("undefined %s", id.Name)
			}
			*v = vals[i]
		default:
			v := sc.find(id.Name)
			*v = binary(assignOps[x.Tok], *v, vals[i])
		}
	}
}

func (p *iprog) one(f *frame, e ast.Expr, sc *scope) any {
	v := p.multi(f, e, sc)
	if len(v) != 1 {
		bad("%d values where one is needed", len(v))
	}
	return v[0]
}

func (p *iprog) eval(f *frame, e ast.Expr, sc *scope) { p.multi(f, e, sc) }

func binary(op token.Token, a, b any) any {
	switch x := a.(type) {
	case int:
		y, ok := b.(int)
		if !ok {
			break
		}
		switch op {
		case token.ADD:
			return x + y
		case token.SUB:
			return x - y
		case token.MUL:
			return x * y
		case token.REM:
			return x % y
		case token.LSS:
			return x < y
		case token.GTR:
			return x > y
		case token.LEQ:
			return x <= y
		case token.GEQ:
			return x >= y
		case token.EQL:
			return x == y
		case token.NEQ:
			return x != y
		}
	case string:
		y, ok := b.(string)
		if !ok {
			break
		}
		switch op {
		case token.ADD:
			return x + y
		case token.EQL:
			return x == y
		case token.NEQ:
			return x != y
		}
	case bool:
		y, ok := b.(bool)
		if !ok {
			break
		}
		switch op {
		case token.EQL:
			return x == y
		case token.NEQ:
			return x != y
		}
	}
	isNil := func(v any) bool {
		if v == nil {
			return true
		}
		r := reflect.ValueOf(v)
		switch r.Kind() {
		case reflect.Pointer, reflect.Map, reflect.Slice:
			return r.IsNil()
		}
		return false
	}
	if op == token.EQL || op == token.NEQ {
		var eq bool
		if a == nil || b == nil {
			eq = isNil(a) && isNil(b)
		} else {
			eq = reflect.DeepEqual(a, b)
		}
		return eq == (op == token.EQL)
	}
	bad("operator %s on %T and %T", op, a, b)
	return nil
}

func (p *iprog) multi(f *frame, e ast.Expr, sc *scope) []any {
	one := func(v any) []any { return []any{v} }
	switch x := e.(type) {
	case *ast.ParenExpr:
		return p.multi(f, x.X, sc)
	case *ast.BasicLit:
		switch x.Kind {
		case token.INT:
			v, err := strconv.Atoi(x.Value)
			if err != nil {
				bad("literal %s", x.Value)
			}
			return one(v)
		case token.STRING:
			v, _ := strconv.Unquote(x.Value)
			return one(v)
		}
		bad("literal %s", x.Value)
	case *ast.Ident:
		if v := sc.find(x.Name); v != nil {
			return one(*v)
		}
		switch x.Name {
		case "nil":
			return one(nil)
		case "true":
			return one(true)
		case "false":
			return one(false)
		}
		if fn := f.fn.pkg.funcs[x.Name]; fn != nil {
			return one(fn)
		}
		bad("undefined %s in %s", x.Name, f.fn.qual)
	case *ast.BinaryExpr:
		l := p.one(f, x.X, sc)
		if x.Op == token.LAND {
			return one(l.(bool) && p.one(f, x.Y, sc).(bool))
		}
		if x.Op == token.LOR {
			return one(l.(bool) || p.one(f, x.Y, sc).(bool))
		}
		return one(binary(x.Op, l, p.one(f, x.Y, sc)))
	case *ast.UnaryExpr:
		if x.Op == token.AND {
			v := p.one(f, x.X, sc)
			pv := reflect.New(reflect.TypeOf(v))
			pv.Elem().Set(reflect.ValueOf(v))
			return one(pv.Interface())
		}
		v := p.one(f, x.X, sc)
		switch x.Op {
		case token.ARROW:
			ch := v.(chan int)
			vsim.Block("sim chan receive", func() bool { return len(ch) > 0 })
			return one(<-ch)
		case token.NOT:
			return one(!v.(bool))
		case token.SUB:
			return one(-v.(int))
		}
		bad("operator %s", x.Op)
	case *ast.StarExpr:
		return one(reflect.ValueOf(p.one(f, x.X, sc)).Elem().Interface())
	case *ast.CompositeLit:
		return one(p.composite(f, x, sc))
	case *ast.FuncLit:
		return one(&closure{lit: x, sc: sc, fn: f.fn})
	case *ast.IndexExpr:
		c := reflect.ValueOf(p.one(f, x.X, sc))
		k := p.one(f, x.Index, sc)
		if c.Kind() == reflect.Map {
			v := c.MapIndex(reflect.ValueOf(k))
			if !v.IsValid() {
				return one(reflect.Zero(c.Type().Elem()).Interface())
			}
			return one(v.Interface())
		}
		if i := k.(int); i < 0 || i >= c.Len() {
			panic(&ipanic{fmt.Errorf("runtime error: index out of range [%d] with length %d", i, c.Len())})
		}
		return one(c.Index(k.(int)).Interface())
	case *ast.SliceExpr:
		c := reflect.ValueOf(p.one(f, x.X, sc))
		lo, hi := 0, c.Len()
		if x.Low != nil {
			lo = p.one(f, x.Low, sc).(int)
		}
		if x.High != nil {
			hi = p.one(f, x.High, sc).(int)
		}
		return one(c.Slice(lo, hi).Interface())
	case *ast.SelectorExpr:
		if id, ok := x.X.(*ast.Ident); ok && sc.find(id.Name) == nil {
			if ip, ok := f.fn.imps[id.Name]; ok {
				if q := p.pkgs[ip]; q != nil {
					if fn := q.funcs[x.Sel.Name]; fn != nil {
						return one(fn)
					}
					bad("undefined %s.%s", ip, x.Sel.Name)
				}
			}
		}
		base := p.one(f, x.X, sc)
		v := reflect.ValueOf(base)
		for v.Kind() == reflect.Pointer {
			if v.IsNil() {
				panic(&ipanic{errors.New("runtime error: invalid memory address or nil pointer dereference")})
			}
			v = v.Elem()
		}
		if v.Kind() == reflect.Struct {
			if fv := v.FieldByName(x.Sel.Name); fv.IsValid() && fv.CanInterface() {
				return one(fv.Interface())
			}
			if fn := f.fn.pkg.funcs[v.Type().Name()+"."+x.Sel.Name]; fn != nil {
				return one(&boundMethod{fn: fn, recv: base})
			}
		}
		bad("selector %s on %T", x.Sel.Name, base)
	case *ast.CallExpr:
		return p.evalCall(f, x, sc, nil)
	default:
		bad("expression %T", e)
	}
	return nil
}

func (p *iprog) composite(f *frame, x *ast.CompositeLit, sc *scope) any {
	switch t := x.Type.(type) {
	case *ast.Ident:
		if t.Name == "lensMonitorFieldSnapshot" {
			var s snapVal
			for _, el := range x.Elts {
				kv := el.(*ast.KeyValueExpr)
				v := p.one(f, kv.Value, sc)
				if kv.Key.(*ast.Ident).Name == "Name" {
					s.name = v.(string)
				} else {
					s.val = v
				}
			}
			return s
		}
		rt := typeOf(t)
		v := reflect.New(rt).Elem()
		for _, el := range x.Elts {
			kv := el.(*ast.KeyValueExpr)
			fv := v.FieldByName(kv.Key.(*ast.Ident).Name)
			fv.Set(convTo(p.one(f, kv.Value, sc), fv.Type()))
		}
		return v.Interface()
	case *ast.ArrayType:
		rt := typeOf(t)
		v := reflect.MakeSlice(rt, 0, len(x.Elts))
		for _, el := range x.Elts {
			v = reflect.Append(v, convTo(p.one(f, el, sc), rt.Elem()))
		}
		return v.Interface()
	case *ast.MapType:
		rt := typeOf(t)
		v := reflect.MakeMap(rt)
		for _, el := range x.Elts {
			kv := el.(*ast.KeyValueExpr)
			v.SetMapIndex(reflect.ValueOf(p.one(f, kv.Key, sc)), convTo(p.one(f, kv.Value, sc), rt.Elem()))
		}
		return v.Interface()
	}
	bad("composite literal of %T", x.Type)
	return nil
}

type snapVal struct {
	name string
	val  any
}

func (p *iprog) evalCall(f *frame, x *ast.CallExpr, sc *scope, deferOf *frame) []any {
	args := func() []any {
		var out []any
		if len(x.Args) == 1 {
			if c, ok := x.Args[0].(*ast.CallExpr); ok {
				return p.multi(f, c, sc)
			}
		}
		for _, a := range x.Args {
			out = append(out, p.one(f, a, sc))
		}
		return out
	}
	if id, ok := x.Fun.(*ast.Ident); ok && sc.find(id.Name) == nil {
		switch id.Name {
		case "make":
			if _, ok := x.Args[0].(*ast.ChanType); ok && len(x.Args) == 2 {
				return []any{make(chan int, p.one(f, x.Args[1], sc).(int))}
			}
			bad("make")
		case "len":
			return []any{reflect.ValueOf(args()[0]).Len()}
		case "append":
			a := args()
			v := reflect.ValueOf(a[0])
			// a fresh array, as a full slice would get
			n := reflect.MakeSlice(v.Type(), 0, v.Len()+len(a))
			n = reflect.AppendSlice(n, v)
			for _, e := range a[1:] {
				n = reflect.Append(n, convTo(e, v.Type().Elem()))
			}
			return []any{n.Interface()}
		case "panic":
			panic(&ipanic{args()[0]})
		case "recover":
			if f.deferOf == nil || f.deferOf.panicv == nil {
				return []any{nil}
			}
			v := f.deferOf.panicv.val
			f.deferOf.panicv = nil
			return []any{v}
		case "string", "int", "bool", "any", "error":
			return args()
		case "sendLensPointMessage", "sendLensPointStateMessage", "sendLensPointRecoveryMessage":
			p.send(f, id.Name, args(), sc)
			return nil
		}
	}
	if fl, ok := x.Fun.(*ast.FuncLit); ok {
		return p.callValue(&closure{lit: fl, sc: sc, fn: f.fn}, deferOf, args())
	}
	if sel, ok := x.Fun.(*ast.SelectorExpr); ok {
		if id, ok := sel.X.(*ast.Ident); ok && sc.find(id.Name) == nil {
			switch f.fn.imps[id.Name] + "." + sel.Sel.Name {
			case "errors.New":
				return []any{errors.New(args()[0].(string))}
			case "strconv.Itoa":
				return []any{strconv.Itoa(args()[0].(int))}
			case "math/rand.Int":
				// a value that no two calls share
				p.run.e.rnd++
				return []any{p.run.e.rnd*1000 + vsim.Choose("rand", 1000)}
			}
		}
		if id, ok := sel.X.(*ast.Ident); ok {
			if v := sc.find(id.Name); v != nil {
				switch r := (*v).(type) {
				case tval:
					switch sel.Sel.Name {
					case "Fatal", "Error":
						args()
						*r.failed = true
						if sel.Sel.Name == "Fatal" {
							panic(rawFatal{})
						}
					case "Log", "Parallel", "Helper":
					default:
						bad("t.%s", sel.Sel.Name)
					}
					return nil
				case *waitGroup:
					switch sel.Sel.Name {
					case "Add":
						r.n += args()[0].(int)
					case "Done":
						r.n--
						vsim.Release(&r.clk)
					case "Wait":
						vsim.Block("sim WaitGroup", func() bool { return r.n <= 0 })
						vsim.Acquire(&r.clk)
					}
					return nil
				}
			}
		}
	}
	fv := p.one(f, x.Fun, sc)
	return p.callValue(fv, deferOf, args())
}

// visible names the variables of the program under test that are in scope.
func visible(f *frame, sc *scope) []string {
	recv := ""
	if r := f.fn.decl.Recv; r != nil && len(r.List[0].Names) > 0 {
		recv = r.List[0].Names[0].Name
	}
	set := map[string]bool{}
	for ; sc != nil; sc = sc.up {
		for n, v := range sc.vars {
			switch (*v).(type) {
			case *waitGroup, tval:
				continue
			}
			if n != recv && !strings.HasPrefix(n, "lenSynthetic") && !strings.HasPrefix(n, " ") {
				set[n] = true
			}
		}
	}
	return keysOf(set)
}

// send calls the real client of the process and records what was handed to it.
func (p *iprog) send(f *frame, kind string, args []any, sc *scope) {
	id, ok := args[0].(int)
	if !ok {
		bad("point id %T", args[0])
	}
	s := &sent{run: p.run, id: uint32(id), task: vsim.Cur().ID, fn: f.fn, at: vsim.Now()}
	for _, fr := range vsim.Cur().Stack {
		s.stack = append(s.stack, fr)
	}
	switch kind {
	case "sendLensPointMessage":
		s.kind = "point"
	case "sendLensPointRecoveryMessage":
		s.kind = "panic"
		s.msg = fmt.Sprint(args[1])
	default:
		s.kind = "state"
		for _, a := range args[1:] {
			sv := a.(snapVal)
			s.names = append(s.names, sv.name)
			switch sv.val.(type) {
			case *closure, *boundMethod, *ifunc:
				sv.val = func() {}
			}
			s.vals = append(s.vals, sv.val)
		}
		s.fields = refFields(p.consts, s.names, s.vals)
		s.visible = visible(f, sc)
	}
	if f.inv != nil {
		f.inv.sents = append(f.inv.sents, s)
	}
	if p.onSend != nil {
		p.onSend(s)
	}
	p.run.e.order++
	s.seq = p.run.e.order
	p.run.sents = append(p.run.sents, s)
	t := vsim.Cur()
	old := t.Data
	t.Data = s
	switch s.kind {
	case "point":
		vclient.SendPoint(s.id)
	case "panic":
		vclient.SendPanic(s.id, args[1])
	default:
		vclient.SendState(s.id, s.names, s.vals)
	}
	t.Data = old
	s.returned = true
	s.took = vsim.Now() - s.at
	s.acked = s.wire != nil && s.wire.Done && s.wire.Err == nil && s.wire.Status == 200
}
