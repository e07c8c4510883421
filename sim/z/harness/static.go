package main

import (
	"errors"
	"fmt"
	"go/build"
	"io"
	"os"
	"path/filepath"
	"regexp"
	"slices"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"

	"github.com/PatchLens/go-update-lens/lens"
	"github.com/PatchLens/go-update-lens/zzverif/vpackages"
	"github.com/PatchLens/go-update-lens/zzverif/vsim"
)

var errUnreadable = errors.New("input/output error (simulated)")

func init() {
	components["C17"] = component{
		real: []string{"CallerStaticAnalysis, TestStaticAnalysis, LoadProjectCallGraph and extractCallGraphEdges with their concurrent traversals (lens/static.go), the default caller and test providers (lens/engine.go)",
			"go/parser, go/types, go/ssa and the class hierarchy analysis of x/tools"},
		stub: []string{"packages.Load, which runs the go command: reads the same module files and sources, and may be slow or fail",
			"the standard library: short sources of testing and sync", "errgroup, sync, os, map order: the simulator"},
		assume: []string{"programs drawn from the generator: up to 8 packages in up to 3 modules, calls of functions, methods, interfaces, function values, closures, generics, promoted methods, method values and expressions, goroutines and deferred calls, package variables, sub tests"},
	}
	register(&Scenario{Name: "static", Props: []string{"C17"}, Quick: 8000, Steps: 20_000_000, Preempt: []int{2, 6, 30, 200, 1500, 0}, Run: staticScenario})
}

// cfn is a function of the model.
type cfn struct {
	ident   string // as the tool names it; empty when it cannot be named
	name    string
	pkg     *cpkg
	file    string
	project bool
	gen     bool // in a generated file
	root    bool // main or init
	test    bool
	calls   []*cfn
	how     []string // text of each call
	dyn     []string // dynamic calls: any function of this kind
	sig     string   // kind of dynamic call that may reach it
	form    int
	head    string
	recv    string
	call    func(from *cpkg, v int) (text string, imp bool)
	line    int
	rets    []int
	testOf  *cpkg
	parent  *cfn // of a closure
}

type cpkg struct {
	path, name, dir string
	ord             int
	project         bool
	main            bool
	fns             []*cfn
	decls           []string
	apply           string // unique name of the package's function type
	applyFn         *cfn
	iface           string
	imports         map[*cpkg]bool
	files           map[string][]*cfn
	tests           bool
}

type cprog struct {
	x       *X
	pkgs    []*cpkg
	fns     []*cfn // everything, closures included
	tests   []*cfn
	changed []*cfn
	run     *cfn // testing.T.Run
	root    string
	cache   string
	seq     int
}

func (g *cprog) add(f *cfn) *cfn { g.fns = append(g.fns, f); return f }

func title(s string) string { return strings.ToUpper(s[:1]) + s[1:] }

func genStatic(x *X) *cprog {
	g := &cprog{x: x, root: x.Dir("proj"), cache: x.Dir("cache")}
	work := x.Pct(25)
	type pd struct {
		path, dir     string
		project, main bool
	}
	defs := []pd{{"example.com/mod/sub", filepath.Join(g.cache, "example.com/mod@v1.0.0/sub"), false, false},
		{"example.com/mod", filepath.Join(g.cache, "example.com/mod@v1.0.0"), false, false}}
	dep := x.Pct(50)
	if dep {
		defs = append(defs, pd{"example.com/!dep", filepath.Join(g.cache, "example.com/!dep@v1.2.0"), false, false})
		defs[len(defs)-1].path = "example.com/Dep"
	}
	np := 1 + x.N(3)
	for i := 0; i < np; i++ {
		n := string(rune('a' + i))
		defs = append(defs, pd{"example.com/proj/" + n, filepath.Join(g.root, n), true, false})
	}
	other := work && x.Pct(70)
	if other {
		defs = append(defs, pd{"example.com/other", filepath.Join(g.root, "other"), true, false})
	}
	if x.Pct(50) {
		defs = append(defs, pd{"example.com/proj/cmd", filepath.Join(g.root, "cmd"), true, true})
	}
	for i, d := range defs {
		p := &cpkg{path: d.path, name: strings.ToLower(filepath.Base(d.path)), dir: d.dir, ord: i, project: d.project, main: d.main, imports: map[*cpkg]bool{}, files: map[string][]*cfn{}}
		if d.main {
			p.name = "main"
		}
		g.pkgs = append(g.pkgs, p)
	}
	g.run = g.add(&cfn{name: "T.Run", dyn: []string{"T"}})
	for _, p := range g.pkgs {
		g.functions(p)
	}
	for _, p := range g.pkgs {
		for _, f := range slices.Clone(p.fns) {
			g.body(f, p)
		}
	}
	for _, p := range g.pkgs {
		if p.project {
			g.genTests(p)
		}
	}
	// which module functions changed
	for _, f := range g.fns {
		if f.pkg != nil && !f.pkg.project && f.ident != "" && x.Pct(30) {
			g.changed = append(g.changed, f)
		}
	}
	// module files
	req := "require example.com/mod v1.0.0\n"
	if dep {
		req += "require example.com/Dep v1.2.0\n"
	}
	write(filepath.Join(g.cache, "example.com/mod@v1.0.0/go.mod"), "module example.com/mod\n\ngo 1.22\n")
	if dep {
		write(filepath.Join(g.cache, "example.com/!dep@v1.2.0/go.mod"), "module example.com/Dep\n\ngo 1.22\n\nrequire example.com/mod v1.0.0\n")
	}
	use := ""
	if !work || x.Pct(70) || !other {
		write(filepath.Join(g.root, "go.mod"), "module example.com/proj\n\ngo 1.22\n\n"+req)
		use += "\t.\n"
	} else { // the workspace holds the project below its root
		for _, p := range g.pkgs {
			if strings.HasPrefix(p.path, "example.com/proj/") {
				p.dir = filepath.Join(g.root, "main", strings.TrimSuffix(filepath.Base(p.path), "_test"))
			}
		}
		write(filepath.Join(g.root, "main/go.mod"), "module example.com/proj\n\ngo 1.22\n\n"+req)
		use += "\t./main\n"
	}
	if other {
		write(filepath.Join(g.root, "other/go.mod"), "module example.com/other\n\ngo 1.22\n\n"+req)
		use += "\t./other\n"
	}
	if work {
		write(filepath.Join(g.root, "go.work"), "go 1.22\n\nuse (\n"+use+")\n")
	}
	g.write()
	return g
}

func write(name, text string) {
	must(os.MkdirAll(filepath.Dir(name), 0o755))
	must(os.WriteFile(name, []byte(text), 0o644))
}

// functions declares what a package offers.
func (g *cprog) functions(p *cpkg) {
	x := g.x
	n := 2 + x.N(5)
	pre := title(p.name)
	p.apply = pre + "Sig"
	p.decls = append(p.decls, fmt.Sprintf("type %s int\n", p.apply))
	qual := func(from *cpkg) string {
		if from == p {
			return ""
		}
		return p.name + "."
	}
	file := func() (string, bool) {
		switch {
		case x.Pct(10):
			return "x_gen.go", true
		case x.Pct(40):
			return "more.go", false
		}
		return p.name + ".go", false
	}
	mk := func(form int) {
		i := len(p.fns)
		f := &cfn{pkg: p, project: p.project, form: form}
		f.file, f.gen = file()
		nm := fmt.Sprintf("%sF%d", pre, i)
		if p.main || x.Pct(15) && form == 0 {
			nm = strings.ToLower(nm[:1]) + nm[1:]
		}
		f.name = nm
		switch form {
		case 0, 1: // plain function
			f.head = fmt.Sprintf("func %s(n int) int", nm)
			f.sig = "int"
			f.call = func(from *cpkg, v int) (string, bool) {
				switch v % 6 {
				case 1:
					return fmt.Sprintf("defer %s%s(n)", qual(from), nm), true
				case 2:
					return fmt.Sprintf("go %s%s(n)", qual(from), nm), true
				case 3:
					return fmt.Sprintf("for i := 0; i < n; i++ {\n\t\tn += %s%s(i)\n\t}", qual(from), nm), true
				case 4:
					return fmt.Sprintf("func() { n += %s%s(n) }()", qual(from), nm), true
				case 5:
					return fmt.Sprintf("if h := %s%s(n); h > 0 {\n\t\tn += h\n\t}", qual(from), nm), true
				}
				return fmt.Sprintf("n += %s%s(n)", qual(from), nm), true
			}
		case 2, 3: // method of a value or of a pointer
			t := fmt.Sprintf("%sT%d", pre, i)
			f.recv = t
			star := ""
			if form == 3 {
				star, f.recv = "*", "*"+t
			}
			p.decls = append(p.decls, fmt.Sprintf("type %s struct{ k int }\n\ntype %sE struct{ %s }\n", t, t, t))
			f.head = fmt.Sprintf("func (t %s%s) %s(n int) int", star, t, nm)
			f.call = func(from *cpkg, v int) (string, bool) {
				q := qual(from)
				g.seq++
				w := fmt.Sprintf("v%d", g.seq)
				switch v % 4 {
				case 1: // method value
					return fmt.Sprintf("%s := new(%s%s).%s\n\tn += %s(n)", w, q, t, nm, w), true
				case 2: // method expression
					if star == "" {
						return fmt.Sprintf("n += %s%s.%s(%s%s{}, n)", q, t, nm, q, t), true
					}
					return fmt.Sprintf("n += (*%s%s).%s(new(%s%s), n)", q, t, nm, q, t), true
				case 3: // promoted
					return fmt.Sprintf("%s := new(%s%sE)\n\tn += %s.%s(n)", w, q, t, w, nm), true
				}
				return fmt.Sprintf("%s := new(%s%s)\n\tn += %s.%s(n)", w, q, t, w, nm), true
			}
		case 4: // generic function
			f.head = fmt.Sprintf("func %s[T any](n int, t T) int", nm)
			f.call = func(from *cpkg, v int) (string, bool) {
				a := []string{"n", `"s"`, "[]int{n}", "struct{}{}"}[v%4]
				return fmt.Sprintf("n += %s%s(n, %s)", qual(from), nm, a), true
			}
		case 5: // method of a generic type
			t := fmt.Sprintf("%sG%d", pre, i)
			f.recv = t + "[T]"
			p.decls = append(p.decls, fmt.Sprintf("type %s[T any] struct{ k T }\n", t))
			f.head = fmt.Sprintf("func (t %s[T]) %s(n int) int", t, nm)
			f.call = func(from *cpkg, v int) (string, bool) {
				return fmt.Sprintf("n += %s%s[%s]{}.%s(n)", qual(from), t, []string{"int", "string", "bool"}[v%3], nm), true
			}
		}
		f.ident = p.path + ":" + f.name
		if f.recv != "" {
			f.ident = p.path + ":" + f.recv + "." + f.name
		}
		g.add(f)
		p.fns = append(p.fns, f)
	}
	for i := 0; i < n; i++ {
		mk([]int{0, 0, 1, 2, 3, 4, 5, 0}[x.N(8)])
	}
	// a function that calls what it is given
	ap := &cfn{pkg: p, project: p.project, name: pre + "Apply", file: p.name + ".go", ident: p.path + ":" + pre + "Apply", dyn: []string{p.apply}, form: 9}
	ap.head = fmt.Sprintf("func %sApply(n int, f func(%s) int) int", pre, p.apply)
	ap.how = []string{fmt.Sprintf("n += f(%s(n))", p.apply)}
	p.applyFn = g.add(ap)
	p.fns = append(p.fns, ap)
	// an interface, implemented in this package and perhaps in later ones
	p.iface = pre + "I"
	p.decls = append(p.decls, fmt.Sprintf("type %s interface{ Do%s(n int) int }\n", p.iface, p.iface))
	for k := 0; k <= p.ord; k++ {
		q := g.pkgs[k]
		if q.main || !(q == p || x.Pct(25)) {
			continue
		}
		m := "Do" + q.iface
		t := fmt.Sprintf("%sImpl%s", pre, q.iface)
		p.decls = append(p.decls, fmt.Sprintf("type %s struct{}\n", t))
		f := &cfn{pkg: p, project: p.project, name: m, recv: t, form: 8, sig: "iface " + q.iface}
		f.file, f.gen = file()
		f.ident = p.path + ":" + t + "." + m
		f.head = fmt.Sprintf("func (%s) %s(n int) int", t, m)
		f.call = func(from *cpkg, v int) (string, bool) {
			return fmt.Sprintf("n += %s%s{}.%s(n)", qual(from), t, m), true
		}
		g.add(f)
		p.fns = append(p.fns, f)
	}
	if p.main {
		f := g.add(&cfn{pkg: p, project: true, name: "main", file: "main.go", ident: p.path + ":main", root: true, head: "func main()", form: 7})
		p.fns = append(p.fns, f)
	}
	if x.Pct(25) {
		f := g.add(&cfn{pkg: p, project: p.project, name: "init", file: p.name + ".go", ident: p.path + ":init", root: true, head: "func init()", form: 7})
		p.fns = append(p.fns, f)
	}
}

// target draws a function that code in from may call.
func (g *cprog) target(from *cpkg, ext bool) *cfn {
	x := g.x
	k := from.ord
	if x.Pct(60) && k > 0 {
		k = x.N(from.ord)
	}
	q := g.pkgs[k]
	if q.main && q != from {
		return nil
	}
	f := q.fns[x.N(len(q.fns))]
	if f.call == nil {
		return nil
	}
	if (q != from || ext) && (q.main || f.name[0] >= 'a') {
		return nil
	}
	return f
}

// body draws the calls a function makes.
func (g *cprog) body(f *cfn, p *cpkg) {
	x := g.x
	if f.form == 9 {
		return
	}
	for i, n := 0, x.N(4); i < n; i++ {
		g.oneCall(f, p, p, false)
	}
}

// oneCall adds a call to f, whose code is in package p (from a test of it: as
// another package when ext).
func (g *cprog) oneCall(f *cfn, p, self *cpkg, test bool) {
	x := g.x
	as := p
	if self == nil {
		as = &cpkg{} // every name is qualified
	}
	q := func(t *cpkg) string {
		if t == as {
			return ""
		}
		return t.name + "."
	}
	switch k := x.N(10); {
	case k < 7:
		t := g.target(p, self == nil)
		if t == nil {
			return
		}
		text, _ := t.call(as, x.N(24))
		f.calls = append(f.calls, t)
		f.how = append(f.how, text)
		f.uses(t.pkg, as, self)
	case k < 8: // through an interface
		t := g.pkgs[x.N(p.ord+1)]
		if t.main && (t != p || self == nil) {
			return
		}
		g.seq++
		f.dyn = append(f.dyn, "iface "+t.iface)
		f.how = append(f.how, fmt.Sprintf("var i%d %s%s\n\tif i%d != nil {\n\t\tn += i%d.Do%s(n)\n\t}", g.seq, q(t), t.iface, g.seq, g.seq, t.iface))
		f.uses(t, as, self)
	case test:
		return
	default: // a closure handed to the package's own Apply
		t := g.target(p, false)
		if t == nil || f.form == 5 { // the method may be in the graph for one variant of its package only
			return
		}
		text, _ := t.call(as, 0)
		g.add(&cfn{name: "closure in " + f.name, parent: f, project: f.project, sig: p.apply, calls: []*cfn{t}})
		f.calls = append(f.calls, p.applyFn)
		f.how = append(f.how, fmt.Sprintf("n += %s(n, func(s %s) int {\n\t\t%s\n\t\treturn n\n\t})", p.applyFn.name, p.apply, text))
		f.uses(t.pkg, as, self)
	}
}

func (f *cfn) uses(t, as, self *cpkg) {
	if t != as {
		if f.testOf != nil {
			f.testOf.imports[t] = true
		} else if f.pkg != nil {
			f.pkg.imports[t] = true
		}
	}
}

// genTests gives a package tests: inside it, or outside.
func (g *cprog) genTests(p *cpkg) {
	x := g.x
	for _, ext := range []bool{false, true} {
		if p.main && ext || x.Pct(40) {
			continue
		}
		self := p
		path, name, file := p.path, p.name, p.name+"_test.go"
		if ext {
			self, path, name, file = nil, p.path+"_test", p.name+"_test", p.name+"x_test.go"
		}
		// the test files' own package, for imports and writing
		tp := &cpkg{path: path, name: name, dir: p.dir, ord: p.ord, project: true, tests: true, imports: map[*cpkg]bool{}, files: map[string][]*cfn{}}
		pre := title(p.name)
		if ext {
			pre += "X"
		}
		var helpers []*cfn
		for i, n := 0, 1+x.N(4); i < n; i++ {
			f := &cfn{project: true, test: true, sig: "T", file: file, testOf: tp}
			f.name = fmt.Sprintf("Test%s%d", pre, i)
			f.ident = path + ":" + f.name
			f.head = fmt.Sprintf("func %s(t *testing.T)", f.name)
			switch x.N(8) {
			case 0: // not a test: a helper
				f.test = false
				f.name = fmt.Sprintf("help%s%d", pre, i)
				f.ident = path + ":" + f.name
				f.head = fmt.Sprintf("func %s(t *testing.T)", f.name)
				helpers = append(helpers, f)
			case 1: // looks like a test
				f.test, f.sig = false, ""
				f.head = fmt.Sprintf("func %s(t *testing.T, m int)", f.name)
			case 2:
				f.test, f.sig = false, ""
				f.head = fmt.Sprintf("func %s(t *testing.B)", f.name)
			}
			f.how = append(f.how, "n := 1")
			for j, m := 0, 1+x.N(3); j < m; j++ {
				switch k := x.N(6); {
				case k == 0 && len(helpers) > 0 && f.sig == "T" && helpers[0] != f:
					h := helpers[x.N(len(helpers))]
					if h == f {
						continue
					}
					f.calls = append(f.calls, h)
					f.how = append(f.how, h.name+"(t)")
				case k < 3 && f.sig == "T": // a sub test
					c := g.add(&cfn{name: "sub test", project: true, sig: "T", testOf: tp})
					g.oneCall(c, p, self, true)
					f.calls = append(f.calls, g.run)
					f.how = append(f.how, "t.Run(\"sub\", func(t *testing.T) {\n\t\tn := n\n\t\t"+strings.Join(c.how, "\n\t\t")+"\n\t\t_ = n\n\t})")
				default:
					g.oneCall(f, p, self, true)
				}
			}
			f.how = append(f.how, "_ = n")
			g.add(f)
			tp.fns = append(tp.fns, f)
			if f.test {
				g.tests = append(g.tests, f)
			}
		}
		p.files[file] = nil
		g.pkgs = append(g.pkgs, tp)
	}
}

// write writes the sources.
func (g *cprog) write() {
	for _, p := range g.pkgs {
		byFile := map[string][]*cfn{}
		for _, f := range p.fns {
			byFile[f.file] = append(byFile[f.file], f)
		}
		first := p.name + ".go"
		if p.main {
			first = "main.go"
		}
		if len(p.decls) > 0 && byFile[first] == nil {
			byFile[first] = nil
		}
		for name, fns := range byFile {
			full := filepath.Join(p.dir, name)
			var b strings.Builder
			text := ""
			test := strings.HasSuffix(name, "_test.go")
			for _, f := range fns {
				text += "\n" + f.head + " {\n"
				if f.root && len(f.how) > 0 {
					text += "\tn := 1\n"
				}
				for _, h := range f.how {
					text += "\t" + h + "\n"
				}
				if f.root && len(f.how) > 0 {
					text += "\t_ = n\n"
				}
				if !f.root && !test {
					text += "\treturn n\n"
				}
				text += "}\n"
			}
			if name == first {
				text = "\n" + strings.Join(p.decls, "\n") + text
			}
			b.WriteString("package " + p.name + "\n\nimport (\n")
			var im []string
			for q := range p.imports {
				if regexp.MustCompile(`\b` + q.name + `\.`).MatchString(text) {
					im = append(im, fmt.Sprintf("\t%s %q\n", q.name, q.path))
				}
			}
			if test {
				im = append(im, "\t\"testing\"\n")
			}
			sort.Strings(im)
			b.WriteString(strings.Join(im, "") + ")\n" + text)
			for _, f := range fns {
				f.file = full
				f.line = 1 + strings.Count(b.String()[:strings.Index(b.String(), "\n"+f.head+" {")+1], "\n")
			}
			write(full, b.String())
		}
	}
}

// edges gives what a function may call.
func (g *cprog) edges(tests bool) map[*cfn][]*cfn {
	// methods of generic types are in the call graph where something calls them
	loaded := map[*cpkg]bool{}
	var load func(p *cpkg)
	load = func(p *cpkg) {
		if !loaded[p] {
			loaded[p] = true
			for q := range p.imports {
				load(q)
			}
		}
	}
	for _, p := range g.pkgs {
		if p.project && (tests || !p.tests) {
			load(p)
		}
	}
	in := map[*cfn]bool{}
	for grown := true; grown; {
		grown = false
		for _, f := range g.fns {
			if f.testOf != nil && !tests || in[f] || f.pkg != nil && !loaded[f.pkg] {
				continue
			}
			switch {
			case f.parent != nil:
				if !in[f.parent] {
					continue
				}
			case f.form == 5:
				called := false
				for _, c := range g.fns {
					called = called || in[c] && slices.Contains(c.calls, f)
				}
				if !called {
					continue
				}
			}
			in[f], grown = true, true
		}
	}
	out := map[*cfn][]*cfn{}
	for _, f := range g.fns {
		if !in[f] {
			continue
		}
		out[f] = append(out[f], f.calls...)
		for _, d := range f.dyn {
			for _, t := range g.fns {
				if t.sig == d && in[t] {
					out[f] = append(out[f], t)
				}
			}
		}
	}
	return out
}

// callersOf gives everything from which to can be reached, not looking beyond roots.
func callersOf(edges map[*cfn][]*cfn, to *cfn, isRoot func(*cfn) bool) map[*cfn]bool {
	in := map[*cfn][]*cfn{}
	for f, ts := range edges {
		for _, t := range ts {
			in[t] = append(in[t], f)
		}
	}
	if _, ok := edges[to]; !ok {
		return nil
	}
	seen := map[*cfn]bool{to: true}
	todo := []*cfn{to}
	for len(todo) > 0 {
		f := todo[0]
		todo = todo[1:]
		if isRoot(f) {
			continue
		}
		for _, c := range in[f] {
			if !seen[c] {
				seen[c] = true
				todo = append(todo, c)
			}
		}
	}
	return seen
}

var errLoad = errors.New("simulated load failure")

func staticScenario(x *X) {
	vpackages.SimReset()
	g := genStatic(x)
	if d := os.Getenv("VERIF_DUMP"); d != "" {
		must(os.CopyFS(d, os.DirFS(x.root)))
	}
	cfg := lens.Config{AbsProjDir: g.root, Gopath: x.Dir("gopath"), Gomodcache: g.cache}

	var changes []*lens.ModuleFunction
	for _, f := range g.changed {
		changes = append(changes, &lens.ModuleFunction{Function: lens.Function{FunctionIdent: f.ident, FunctionName: f.name, PackageName: f.pkg.path, FilePath: f.file}})
	}
	if x.Pct(20) {
		changes = append(changes, &lens.ModuleFunction{Function: lens.Function{FunctionIdent: "example.com/mod:NotThere", FunctionName: "NotThere"}})
	}
	vsim.Shuffle("plan", len(changes), func(i, j int) { changes[i], changes[j] = changes[j], changes[i] })
	// one package, or the tests of one, may not type-check
	badCode, badTests := false, false
	if x.Pct(6) {
		p := g.pkgs[x.N(len(g.pkgs))]
		if ents, err := os.ReadDir(p.dir); p.project && err == nil {
			var names []string
			for _, e := range ents {
				if strings.HasSuffix(e.Name(), ".go") {
					names = append(names, e.Name())
				}
			}
			if len(names) > 0 {
				n := names[x.N(len(names))]
				b, err := os.ReadFile(filepath.Join(p.dir, n))
				must(err)
				bad := []string{"\nvar broken int = \"x\"\n", "\nfunc broken() int { return undefinedName }\n", "\nfunc broken( {\n"}[x.N(3)]
				write(filepath.Join(p.dir, n), string(b)+bad)
				badTests = true
				badCode = !strings.HasSuffix(n, "_test.go")
				vsim.CountFault("broken_source")
			}
		}
	}
	// sources may become unreadable once they were loaded
	unread := 0
	if x.Pct(6) {
		rate := 20 + x.N(400)
		build.Default.OpenFile = func(name string) (io.ReadCloser, error) {
			if vsim.Choose("fault", 1000) < rate {
				vsim.CountFault("disk_open_error")
				unread++
				return nil, &os.PathError{Op: "open", Path: name, Err: errUnreadable}
			}
			return os.Open(name)
		}
	}
	before := snap(x.root)
	failCaller, failTest := x.Pct(5), x.Pct(5)
	slow := x.Pct(30)
	vpackages.SimHook = func(dir string, tests bool) error {
		if slow {
			vsim.Sleep(time.Duration(1+vsim.Choose("sim", 5000)) * time.Millisecond)
		}
		if !tests && failCaller || tests && failTest {
			vsim.CountFault("load_failure")
			return errLoad
		}
		return nil
	}
	hookErr := x.Pct(5)
	var hooked bool
	var edges map[string][]string
	prov := &lens.DefaultCallerAnalysisProvider{}
	if x.Pct(50) {
		prov.PostCallerAnalysis = func(_, _ []*packages.Package, e map[string][]string, _ []*lens.CallerFunction, _ lens.ReachableModuleChange) error {
			hooked, edges = true, e
			if hookErr {
				return errExt
			}
			return nil
		}
	}
	callers, reach, err := prov.PerformCallerStaticAnalysis(cfg, changes)
	x.Say("%d packages, %d functions, %d changed; callers %d, error %v", len(g.pkgs), len(g.fns), len(changes), len(callers), err)
	if !failCaller && badCode {
		x.Check("C17", err != nil, "error lost", "caller analysis returned %d callers and no error for a project that does not type-check", len(callers))
		return
	}
	if unread > 0 && !failCaller {
		x.Check("C17", errors.Is(err, errUnreadable) || hooked && hookErr, "error lost", "caller analysis returned %d callers and error %v after a source could not be read", len(callers), strip(x, err))
		return
	}
	if failCaller || hooked && hookErr {
		want := errLoad
		if !failCaller {
			want = errExt
		}
		x.Check("C17", errors.Is(err, want), "error lost", "caller analysis returned %v after %v", err, want)
		return
	}
	x.Check("C17", err == nil, "spurious error", "caller analysis of a valid project failed: %v", strip(x, err))
	if err != nil {
		return
	}
	model := g.edges(false)
	wantCallers := map[string][]string{}
	wantReach := map[string]bool{}
	byIdent := map[string]*cfn{}
	for _, f := range g.fns {
		if f.ident != "" {
			byIdent[f.ident] = f
		}
	}
	for _, ch := range g.changed {
		for f := range callersOf(model, ch, func(f *cfn) bool { return f.root }) {
			if f.project && f.ident != "" && !f.gen && !f.root && f.testOf == nil {
				wantCallers[f.ident] = append(wantCallers[f.ident], ch.ident)
				wantReach[ch.ident] = true
			}
		}
	}
	got := map[string][]string{}
	for _, c := range callers {
		if _, dup := got[c.FunctionIdent]; dup {
			x.Check("C17", false, "duplicate", "caller %s listed twice", c.FunctionIdent)
		}
		got[c.FunctionIdent] = []string{}
		for _, m := range c.ChangeFunctions {
			got[c.FunctionIdent] = append(got[c.FunctionIdent], m.FunctionIdent)
		}
		f := byIdent[c.FunctionIdent]
		if f == nil {
			continue
		}
		x.Check("C17", c.FilePath == f.file && c.FunctionName == f.name && c.PackageName == f.pkg.path && int(c.EntryLineNumber) == f.line, "wrong place",
			"caller %s is described as %s of %s at %s:%d, it is %s of %s at %s:%d", c.FunctionIdent, c.FunctionName, c.PackageName, filepath.Base(c.FilePath), c.EntryLineNumber, f.name, f.pkg.path, filepath.Base(f.file), f.line)
	}
	sameSets(x, "caller", "change", wantCallers, got)
	for id := range reach {
		x.Check("C17", wantReach[id], "reachable", "change %s is said to be reachable", id)
		x.Check("C17", reach[id] != nil && reach[id].FunctionIdent == id, "reachable", "change %s is described by another function", id)
	}
	for id := range wantReach {
		x.Check("C17", reach[id] != nil, "reachable", "change %s is not said to be reachable", id)
	}
	if hooked {
		vsim.Probe("static.edges")
		for _, f := range g.fns {
			if _, ok := model[f]; !ok || f.ident == "" || f.pkg == nil || f.form == 7 {
				continue
			}
			e, ok := edges[f.ident]
			x.Check("C17", ok, "edges", "the edges handed to the extension lack %s", f.ident)
			has := map[string]bool{}
			for _, t := range e {
				x.Check("C17", !has[t], "edges", "%s calls %s twice in the edges handed to the extension", f.ident, t)
				has[t] = true
			}
			may := map[string]bool{}
			for _, t := range model[f] {
				may[t.ident] = true
			}
			for t := range has {
				if byIdent[t] != nil {
					x.Check("C17", may[t], "edges", "%s does not call %s, the edges handed to the extension say so", f.ident, t)
				}
			}
			for i, t := range f.calls {
				if t.form <= 3 && strings.HasPrefix(f.how[min(i, len(f.how)-1)], "n += "+strings.TrimPrefix(t.name, t.pkg.name)) {
					x.Check("C17", has[t.ident], "edges", "%s calls %s, the edges handed to the extension do not say so", f.ident, t.ident)
				}
			}
		}
	}

	if len(callers) > 1 && x.Pct(30) { // also with fewer callers than were found
		callers = callers[:1+x.N(len(callers)-1)]
	}
	tests, err := (&lens.DefaultTestProvider{}).ProvideTests(cfg, callers)
	if failTest {
		x.Check("C17", errors.Is(err, errLoad), "error lost", "test discovery returned %v after %v", err, errLoad)
		return
	}
	if badTests {
		x.Check("C17", err != nil, "error lost", "test discovery returned %d tests and no error for a project that does not type-check", len(tests))
		return
	}
	if unread > 0 {
		x.Check("C17", errors.Is(err, errUnreadable), "error lost", "test discovery returned %d tests and error %v after a source could not be read", len(tests), strip(x, err))
		return
	}
	x.Check("C17", err == nil, "spurious error", "test discovery of a valid project failed: %v", strip(x, err))
	model = g.edges(true)
	wantTests := map[string][]string{}
	isRoot := func(f *cfn) bool { return f.root || f.test }
	for _, c := range callers {
		f := byIdent[c.FunctionIdent]
		if f == nil {
			continue
		}
		for t := range callersOf(model, f, isRoot) {
			if t.test {
				wantTests[t.ident] = append(wantTests[t.ident], c.FunctionIdent)
			}
		}
	}
	got = map[string][]string{}
	for _, t := range tests {
		_, dup := got[t.FunctionIdent]
		x.Check("C17", !dup, "duplicate", "test %s listed twice", t.FunctionIdent)
		got[t.FunctionIdent] = []string{}
		for _, m := range t.Targets {
			got[t.FunctionIdent] = append(got[t.FunctionIdent], m.FunctionIdent)
		}
		if f := byIdent[t.FunctionIdent]; f != nil {
			x.Check("C17", t.FilePath == f.file && t.FunctionName == f.name && t.PackageName == f.testOf.path && int(t.EntryLineNumber) == f.line, "wrong place",
				"test %s is described as %s of %s at %s:%d", t.FunctionIdent, t.FunctionName, t.PackageName, filepath.Base(t.FilePath), t.EntryLineNumber)
		}
	}
	sameSets(x, "test", "caller", wantTests, got)
	if len(tests) > 0 {
		vsim.Probe("static.tests")
	}
	x.Check("C17", before.diff(snap(x.root)) == "", "sources", "static analysis changed files: %s", before.diff(snap(x.root)))
}

func strip(x *X, err error) string {
	if err == nil {
		return "no error"
	}
	return strings.ReplaceAll(err.Error(), x.root, "")
}

func sameSets(x *X, what, of string, want, got map[string][]string) {
	for _, id := range keysOf(want) {
		g, ok := got[id]
		x.Check("C17", ok, "missing "+what, "%s %s is not listed; it reaches %v", what, id, sortedCopy(want[id]))
		if !ok {
			continue
		}
		a, b := sortedCopy(want[id]), sortedCopy(g)
		x.Check("C17", slices.Equal(a, b), "wrong "+of+"s", "%s %s reaches %v, listed are %v", what, id, a, b)
	}
	for _, id := range keysOf(got) {
		_, ok := want[id]
		x.Check("C17", ok, "extra "+what, "%s %s is listed with %v; it reaches none", what, id, sortedCopy(got[id]))
	}
}

func sortedCopy(s []string) []string {
	s = slices.Clone(s)
	sort.Strings(s)
	return s
}
