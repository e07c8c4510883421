// Package vpackages stands in for go/packages: the real one runs the go
// command. This one reads the same module files and sources, parses and type
// checks them with the real go/parser and go/types, and makes the same packages
// and test variants. A few standard packages are short sources of its own.
package vpackages

import (
	"fmt"
	"go/ast"
	"go/build"
	"go/parser"
	"go/token"
	"go/types"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/mod/modfile"
	"golang.org/x/mod/module"
	"golang.org/x/tools/go/packages"

	"github.com/PatchLens/go-update-lens/zzverif/vimporter"
	"github.com/PatchLens/go-update-lens/zzverif/vsim"
)

// SimHook is called when a load begins: it may take its time, or fail.
var SimHook func(dir string, tests bool) error

var index = map[*types.Package]int{}

// SimIndex numbers type-checked packages in the order they were made.
func SimIndex(p *types.Package) int { return index[p] }

// ctxt is the build context as the go command would see it: the simulator may
// make reads by way of build.Default fail.
var ctxt = build.Default

// SimReset forgets earlier runs.
func SimReset() { SimHook = nil; index = map[*types.Package]int{} }

var std = map[string]string{
	"testing": `package testing
type common struct{ failed bool }
func (c *common) Fail() { c.failed = true }
func (c *common) Helper() {}
func (c *common) Log(args ...any) {}
func (c *common) Logf(f string, args ...any) {}
func (c *common) Error(args ...any) { c.Fail() }
func (c *common) Errorf(f string, args ...any) { c.Fail() }
func (c *common) Fatal(args ...any) { c.Fail() }
func (c *common) Fatalf(f string, args ...any) { c.Fail() }
type T struct{ common }
func (t *T) Parallel() {}
func (t *T) Run(name string, f func(t *T)) bool { go tRunner(t, f); return !t.failed }
func tRunner(t *T, fn func(t *T)) { fn(t) }
type B struct{ common; N int }
type M struct{ n int }
func (m *M) Run() int { return m.n }
`,
	"sync": `package sync
type Mutex struct{ s int }
func (m *Mutex) Lock() {}
func (m *Mutex) Unlock() {}
type Once struct{ done bool }
func (o *Once) Do(f func()) { if !o.done { f() } }
type WaitGroup struct{ n int }
func (w *WaitGroup) Add(n int) { w.n += n }
func (w *WaitGroup) Done() { w.n-- }
func (w *WaitGroup) Wait() {}
`,
}

type loader struct {
	fset     *token.FileSet
	env      map[string]string
	tests    bool
	deps     bool
	mods     []mod             // main modules
	versions map[string]string // requirements of the main modules
	parsed   map[string]*ast.File
	perr     map[string]error
	pkgs     map[string]*packages.Package // by id
	loading  map[string]bool
}

type mod struct{ path, dir string }

// Load loads the packages that match the patterns.
func Load(cfg *packages.Config, patterns ...string) ([]*packages.Package, error) {
	if vsim.W == nil {
		return packages.Load(cfg, patterns...)
	}
	vsim.Op("packages.Load")
	if SimHook != nil {
		if err := SimHook(cfg.Dir, cfg.Tests); err != nil {
			return nil, err
		}
	}
	l := &loader{fset: cfg.Fset, env: map[string]string{}, tests: cfg.Tests, deps: cfg.Mode&packages.NeedDeps != 0,
		versions: map[string]string{}, parsed: map[string]*ast.File{}, perr: map[string]error{},
		pkgs: map[string]*packages.Package{}, loading: map[string]bool{}}
	if l.fset == nil {
		l.fset = token.NewFileSet()
	}
	for _, e := range cfg.Env {
		k, v, _ := strings.Cut(e, "=")
		l.env[k] = v
	}
	dir, err := filepath.Abs(cfg.Dir)
	if err != nil {
		return nil, err
	}
	if err := l.modules(dir); err != nil {
		return nil, err
	}
	dirs := map[string]bool{}
	for _, p := range patterns {
		if err := l.match(dir, p, dirs); err != nil {
			return nil, err
		}
	}
	var list []string
	for d := range dirs {
		list = append(list, d)
	}
	sort.Strings(list)
	var roots []*packages.Package
	for _, d := range list {
		path := l.pathOf(d)
		files, in, ext := l.files(d)
		if len(files)+len(in)+len(ext) == 0 {
			continue
		}
		if len(files) > 0 || !l.tests {
			roots = append(roots, l.load(path, path, d, files, nil))
		}
		if !l.tests {
			continue
		}
		variant := ""
		if len(in) > 0 {
			variant = path
			id := path + " [" + path + ".test]"
			roots = append(roots, l.load(id, path, d, append(append([]string(nil), files...), in...), &variant))
		}
		if len(ext) > 0 {
			id := path + "_test [" + path + ".test]"
			roots = append(roots, l.load(id, path+"_test", d, ext, &variant))
		}
	}
	if !l.deps { // dependencies are known by their exported types only
		isRoot := map[*packages.Package]bool{}
		for _, p := range roots {
			isRoot[p] = true
		}
		for _, p := range l.pkgs {
			if !isRoot[p] {
				p.Syntax, p.TypesInfo, p.GoFiles = nil, nil, nil
			}
		}
	}
	return roots, nil
}

// modules finds the main modules and the versions they require.
func (l *loader) modules(dir string) error {
	add := func(d string) error {
		f := filepath.Join(d, "go.mod")
		b, err := os.ReadFile(f)
		if err != nil {
			return fmt.Errorf("err: exit status 1: stderr: go: %w", err)
		}
		m, err := modfile.Parse(f, b, nil)
		if err != nil {
			return fmt.Errorf("err: exit status 1: stderr: go: errors parsing %s: %w", f, err)
		}
		if m.Module == nil {
			return fmt.Errorf("err: exit status 1: stderr: go: no module declaration in %s", f)
		}
		l.mods = append(l.mods, mod{m.Module.Mod.Path, d})
		for _, r := range m.Require {
			if v, ok := l.versions[r.Mod.Path]; !ok || newer(r.Mod.Version, v) {
				l.versions[r.Mod.Path] = r.Mod.Version
			}
		}
		return nil
	}
	for d := dir; ; d = filepath.Dir(d) {
		if b, err := os.ReadFile(filepath.Join(d, "go.work")); err == nil {
			w, err := modfile.ParseWork("go.work", b, nil)
			if err != nil {
				return err
			}
			for _, u := range w.Use {
				p := u.Path
				if !filepath.IsAbs(p) {
					p = filepath.Join(d, p)
				}
				if err := add(p); err != nil {
					return err
				}
			}
			return nil
		}
		if filepath.Dir(d) == d {
			break
		}
	}
	for d := dir; ; d = filepath.Dir(d) {
		if _, err := os.Stat(filepath.Join(d, "go.mod")); err == nil {
			return add(d)
		}
		if filepath.Dir(d) == d {
			return fmt.Errorf("err: exit status 1: stderr: go: cannot find main module in %s", dir)
		}
	}
}

func newer(a, b string) bool { // versions of the same length in generated projects
	if len(a) != len(b) {
		return len(a) > len(b)
	}
	return a > b
}

func (l *loader) match(dir, pattern string, out map[string]bool) error {
	p := pattern
	if !filepath.IsAbs(p) {
		p = filepath.Join(dir, p)
	}
	base, all := strings.CutSuffix(p, "/...")
	if !all {
		out[p] = true
		return nil
	}
	return filepath.WalkDir(base, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return nil
		}
		if !d.IsDir() {
			return nil
		}
		n := d.Name()
		if p != base && (strings.HasPrefix(n, ".") || strings.HasPrefix(n, "_") || n == "testdata" || n == "vendor") {
			return filepath.SkipDir
		}
		if p != base {
			if _, err := os.Stat(filepath.Join(p, "go.mod")); err == nil {
				return filepath.SkipDir
			}
		}
		if g, _ := filepath.Glob(filepath.Join(p, "*.go")); len(g) > 0 {
			out[p] = true
		}
		return nil
	})
}

func (l *loader) pathOf(dir string) string {
	best := mod{}
	for _, m := range l.mods {
		if (dir == m.dir || strings.HasPrefix(dir, m.dir+"/")) && len(m.dir) > len(best.dir) {
			best = m
		}
	}
	r, err := filepath.Rel(best.dir, dir)
	if err != nil || r == "." {
		return best.path
	}
	return best.path + "/" + filepath.ToSlash(r)
}

// find gives the directory of an import path.
func (l *loader) find(path string) (string, error) {
	has := func(m string) bool { return path == m || strings.HasPrefix(path, m+"/") }
	best, dir := "", ""
	for _, m := range l.mods {
		if has(m.path) && len(m.path) > len(best) {
			best, dir = m.path, m.dir
		}
	}
	for m, v := range l.versions {
		if has(m) && len(m) > len(best) {
			esc, err := module.EscapePath(m)
			if err != nil {
				return "", err
			}
			best, dir = m, filepath.Join(l.env["GOMODCACHE"], esc+"@"+v)
		}
	}
	if best == "" {
		return "", fmt.Errorf("no required module provides package %s", path)
	}
	return filepath.Join(dir, strings.TrimPrefix(path, best)), nil
}

func (l *loader) parse(name string) (*ast.File, error) {
	if f, ok := l.parsed[name]; ok {
		return f, l.perr[name]
	}
	f, err := parser.ParseFile(l.fset, name, nil, parser.AllErrors|parser.ParseComments)
	l.parsed[name], l.perr[name] = f, err
	return f, err
}

// files sorts the Go files of a directory into package, internal and external tests.
func (l *loader) files(dir string) (files, in, ext []string) {
	ents, err := os.ReadDir(dir)
	if err != nil {
		return
	}
	for _, e := range ents {
		n := e.Name()
		if e.IsDir() || !strings.HasSuffix(n, ".go") {
			continue
		}
		if ok, err := ctxt.MatchFile(dir, n); err != nil || !ok {
			continue
		}
		p := filepath.Join(dir, n)
		f, _ := l.parse(p)
		switch {
		case !strings.HasSuffix(n, "_test.go"):
			files = append(files, p)
		case f != nil && f.Name != nil && strings.HasSuffix(f.Name.Name, "_test"):
			ext = append(ext, p)
		default:
			in = append(in, p)
		}
	}
	return
}

// load makes one package. For test variants under is the path of the package
// whose internal tests take part.
func (l *loader) load(id, path, dir string, names []string, under *string) *packages.Package {
	if p, ok := l.pkgs[id]; ok {
		return p
	}
	p := &packages.Package{ID: id, PkgPath: path, Fset: l.fset, Imports: map[string]*packages.Package{}, GoFiles: names, CompiledGoFiles: names}
	l.pkgs[id] = p
	l.loading[id] = true
	defer delete(l.loading, id)
	for _, n := range names {
		f, err := l.parse(n)
		if err != nil {
			p.Errors = append(p.Errors, packages.Error{Pos: n, Msg: err.Error(), Kind: packages.ParseError})
		}
		if f != nil {
			p.Syntax = append(p.Syntax, f)
			if p.Name == "" && f.Name != nil {
				p.Name = f.Name.Name
			}
		}
	}
	l.check(p, func(ip string) (*packages.Package, error) { return l.imported(ip, id, under) })
	return p
}

func (l *loader) imported(path, from string, under *string) (*packages.Package, error) {
	if src, ok := std[path]; ok {
		if p, ok := l.pkgs[path]; ok {
			return p, nil
		}
		name := "/std/" + path + ".go"
		f, err := parser.ParseFile(l.fset, name, src, 0)
		if err != nil {
			panic(err)
		}
		p := &packages.Package{ID: path, PkgPath: path, Name: f.Name.Name, Fset: l.fset, Imports: map[string]*packages.Package{}, Syntax: []*ast.File{f}}
		l.pkgs[path] = p
		l.check(p, func(string) (*packages.Package, error) { return nil, fmt.Errorf("no imports") })
		return p, nil
	}
	if !strings.Contains(strings.Split(path, "/")[0], ".") {
		if p, ok := l.pkgs[path]; ok {
			return p, nil
		}
		t, err := vimporter.Default().Import(path)
		if err != nil {
			return nil, err
		}
		p := &packages.Package{ID: path, PkgPath: path, Name: t.Name(), Fset: l.fset, Types: t, TypesInfo: &types.Info{}, Imports: map[string]*packages.Package{}}
		l.pkgs[path] = p
		return p, nil
	}
	dir, err := l.find(path)
	if err != nil {
		return nil, err
	}
	files, in, _ := l.files(dir)
	if len(files) == 0 {
		return nil, fmt.Errorf("no Go files in %s", dir)
	}
	id := path
	if under != nil && *under != "" && l.reaches(path, *under, map[string]bool{}) {
		id = path + " [" + *under + ".test]"
		if path == *under {
			files = append(append([]string(nil), files...), in...)
		}
	} else {
		under = nil
	}
	if l.loading[id] {
		return nil, fmt.Errorf("import cycle not allowed: %s", id)
	}
	return l.load(id, path, dir, files, under), nil
}

// reaches tells whether path is to or imports it.
func (l *loader) reaches(path, to string, seen map[string]bool) bool {
	if path == to {
		return true
	}
	if seen[path] {
		return false
	}
	seen[path] = true
	dir, err := l.find(path)
	if err != nil {
		return false
	}
	files, _, _ := l.files(dir)
	for _, n := range files {
		f, _ := l.parse(n)
		if f == nil {
			continue
		}
		for _, is := range f.Imports {
			if l.reaches(strings.Trim(is.Path.Value, `"`), to, seen) {
				return true
			}
		}
	}
	return false
}

type importFunc func(path string) (*types.Package, error)

func (f importFunc) Import(path string) (*types.Package, error) { return f(path) }

func (l *loader) check(p *packages.Package, imp func(string) (*packages.Package, error)) {
	p.TypesInfo = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{},
		Uses: map[*ast.Ident]types.Object{}, Implicits: map[ast.Node]types.Object{}, Instances: map[*ast.Ident]types.Instance{},
		Scopes: map[ast.Node]*types.Scope{}, Selections: map[*ast.SelectorExpr]*types.Selection{}, FileVersions: map[*ast.File]string{}}
	conf := types.Config{
		Importer: importFunc(func(path string) (*types.Package, error) {
			if path == "unsafe" {
				return types.Unsafe, nil
			}
			q, err := imp(path)
			if err != nil {
				return nil, err
			}
			p.Imports[path] = q
			return q.Types, nil
		}),
		Error: func(err error) {
			p.Errors = append(p.Errors, packages.Error{Msg: err.Error(), Kind: packages.TypeError})
			p.IllTyped = true
		},
	}
	p.Types, _ = conf.Check(p.PkgPath, l.fset, p.Syntax, p.TypesInfo)
	index[p.Types] = len(index) + 1
}
