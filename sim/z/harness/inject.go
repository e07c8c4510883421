package main

import (
	"errors"
	"fmt"
	"go/ast"
	"go/parser"
	"go/scanner"
	"go/token"
	"io/fs"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/PatchLens/go-update-lens/lens"
	"github.com/PatchLens/go-update-lens/zzverif/vexec"
	"github.com/PatchLens/go-update-lens/zzverif/vsim"
)

func init() {
	register(&Scenario{Name: "modifier", Props: []string{"C05", "C07"}, Quick: 2500, Steps: 20_000_000, Preempt: []int{6, 30, 200, 1500, 0}, Run: modifierScenario})
	register(&Scenario{Name: "inject", Props: []string{"C07"}, Quick: 1200, Steps: 40_000_000, Preempt: []int{6, 30, 200, 1500, 8000}, Run: injectScenario})
	components["C05"] = component{
		real:   []string{"ASTModifier: every inject method, Commit, CommitFile, InsertFuncLines, InjectASTClient and Restore (lens/asttweak.go), CopyFile and replaceFile (lens/file.go)"},
		stub:   []string{"os, go/parser file reading, sync and errgroup: simulator-owned stand-ins over real files in a scratch directory", "the go command (cache cleaning) is a simulated process"},
		assume: []string{"a crash may lose what was not synced, and any part of a file whose write, sync or close failed; renames are atomic"},
	}
	components["C07"] = component{
		real:   []string{"RunModuleUpdateAnalysis and everything below it, ASTModifier used directly", "go/parser, go/types, go/format"},
		stub:   []string{"the go command and test processes are simulated; imports of standard packages come from export data made by the real toolchain, other imports fail as they do in the real default importer"},
		assume: []string{"generated projects: up to 3 packages of up to 4 files, 12 kinds of functions"},
	}
}

// iproj is a project made for instrumenting only.
type iproj struct {
	root, mod string
	dirs      []string // package directories
	files     []string
	fns       []*lens.Function
	isMod     map[string]bool // file -> in the module
}

const itypes = `package %s

import "errors"

type Rec struct {
	Name string
	N    int
	Next *Rec
}

type Kind int

type Word = string

const (
	KindA Kind = iota + 1
	KindB
)

const limit = 4

type Tool struct{ Base int }

func (t Tool) String() string { return "tool" }

var ErrA = errors.New("a")
`

func genInject(x *X, root string, nested bool) *iproj {
	p := &iproj{root: filepath.Join(root, "proj"), isMod: map[string]bool{}}
	p.mod = filepath.Join(root, "gopath", "pkg", "mod", modName+"@"+modOld)
	pkg := func(dir, name, path string, nfiles int, viaMod bool, module bool) {
		must(os.MkdirAll(dir, 0o755))
		must(os.WriteFile(filepath.Join(dir, "types.go"), []byte(fmt.Sprintf(itypes, name)), 0o644))
		n := 0
		var prev []string
		for fi := 0; fi < nfiles; fi++ {
			var b strings.Builder
			imps := map[string]bool{}
			var names []string
			for k := 1 + x.N(3); k > 0; k-- {
				f := fmt.Sprintf("F%d", n)
				n++
				names = append(names, f)
				if viaMod && fi == 0 && k == 1 {
					imps[modName] = true
					fmt.Fprintf(&b, "func %s(n int) int {\n\tv := mod.F0(n)\n\treturn v\n}\n\n", f)
					continue
				}
				switch x.N(12) {
				case 0:
					fmt.Fprintf(&b, "func %s(n int) error {\n\tif n > 0 {\n\t\treturn ErrA\n\t}\n\treturn nil\n}\n\n", f)
				case 1:
					fmt.Fprintf(&b, "func %s(n int) interface{} {\n\tw := n + 1\n\treturn w\n}\n\n", f)
				case 2:
					fmt.Fprintf(&b, "func %s(n int) (out Rec, err error) {\n\tout.N = n\n\terr = ErrA\n\treturn out, err\n}\n\n", f)
				case 3:
					fmt.Fprintf(&b, "func %s(n int) Kind {\n\tconst c = 3\n\tif n > limit {\n\t\treturn limit\n\t}\n\treturn c\n}\n\n", f)
				case 4:
					fmt.Fprintf(&b, "func %s(v Kind) Kind {\n\tswitch v {\n\tcase 1:\n\t\treturn KindA\n\tcase 2:\n\t\treturn KindB\n\t}\n\treturn v\n}\n\n", f)
				case 5:
					imps["strconv"] = true
					fmt.Fprintf(&b, "// %s parses.\nfunc %s(s string) (string, error) {\n\tv, err := strconv.Atoi(s)\n\tif err != nil {\n\t\treturn \"\", err\n\t} else if v > 3 {\n\t\treturn \"big\", nil\n\t}\n\treturn strconv.Itoa(v), nil\n}\n\n", f, f)
				case 6:
					fmt.Fprintf(&b, "func %s(n int) {\n\ts := n\n\tfor i := 0; i < 2; i++ {\n\t\ts += i // add\n\t}\n}\n\n", f)
				case 7:
					if len(prev) == 0 {
						fmt.Fprintf(&b, "func %s() Word {\n\tvar w Word = \"w\"\n\treturn w\n}\n\n", f)
					} else {
						g := prev[x.N(len(prev))]
						fmt.Fprintf(&b, "func %s() interface{} {\n\th := %s\n\treturn h\n}\n\n", f, g)
					}
				case 8:
					fmt.Fprintf(&b, "func (t *Tool) %s(n int) (a, b int) {\n\ta, b = t.Base, n\n\treturn\n}\n\n", f)
				case 9:
					imps["fmt"] = true
					fmt.Fprintf(&b, "func %s(n int) fmt.Stringer {\n\tt := Tool{Base: n}\n\treturn t\n}\n\n", f)
				case 10:
					fmt.Fprintf(&b, "func %s(n int) int {\n\tf := func(k int) int {\n\t\treturn k + 1\n\t}\n\treturn f(n) + len(Tool{}.String())\n}\n\n", f)
				default:
					fmt.Fprintf(&b, "func %s(n int) (Kind, error) {\n\tif n > 2 {\n\t\tpanic(\"no\")\n\t}\n\te := ErrA\n\treturn Kind(n), e\n}\n\n", f)
				}
			}
			prev = append(prev, names...)
			for _, m := range names { // method names are not values
				if strings.Contains(b.String(), ") "+m+"(") {
					prev = remove(prev, m)
				}
			}
			file := filepath.Join(dir, fmt.Sprintf("a%d.go", fi))
			must(os.WriteFile(file, []byte(srcFile(name, imps, b.String())), 0o644))
			p.files = append(p.files, file)
			p.isMod[file] = module
			for _, m := range names {
				f := describe(file, path, m)
				p.fns = append(p.fns, &f)
			}
		}
		p.dirs = append(p.dirs, dir)
	}
	np := 1 + x.N(2)
	for i := 0; i < np; i++ {
		dir := filepath.Join(p.root, fmt.Sprintf("p%d", i))
		if nested && i > 0 {
			dir = filepath.Join(p.root, "p0", fmt.Sprintf("p%d", i))
		}
		rel, _ := filepath.Rel(p.root, dir)
		pkg(dir, fmt.Sprintf("p%d", i), appPath+"/"+rel, 1+x.N(4), x.Pct(20), false)
	}
	pkg(p.mod, "mod", modName, 1+x.N(3), false, true)
	must(os.WriteFile(filepath.Join(p.root, "go.mod"), []byte("module "+appPath+"\n\ngo 1.21\n\nrequire "+modName+" "+modOld+"\n"), 0o644))
	must(os.WriteFile(filepath.Join(p.root, "go.sum"), []byte(modName+" "+modOld+" h1:old=\n"), 0o644))
	return p
}

func remove(l []string, s string) []string {
	var out []string
	for _, e := range l {
		if e != s {
			out = append(out, e)
		}
	}
	return out
}

type place struct{ file, fn string }

// points lists where every id occurs, by parsing the sources.
func points(dirs []string) (map[uint64][]place, string) {
	out := map[uint64][]place{}
	for _, d := range dirs {
		es, err := os.ReadDir(d)
		must(err)
		for _, e := range es {
			if e.IsDir() || !strings.HasSuffix(e.Name(), ".go") || strings.HasPrefix(e.Name(), "xx_lens_") {
				continue
			}
			path := filepath.Join(d, e.Name())
			f, err := parser.ParseFile(token.NewFileSet(), path, nil, 0)
			if err != nil {
				return nil, fmt.Sprintf("instrumented file %s does not parse: %v", e.Name(), err)
			}
			for _, decl := range f.Decls {
				name := ""
				if fd, ok := decl.(*ast.FuncDecl); ok {
					name = fd.Name.Name
				}
				ast.Inspect(decl, func(n ast.Node) bool {
					c, ok := n.(*ast.CallExpr)
					if !ok || len(c.Args) == 0 {
						return true
					}
					id, ok := c.Fun.(*ast.Ident)
					if !ok || !strings.HasPrefix(id.Name, "sendLensPoint") {
						return true
					}
					if l, ok := c.Args[0].(*ast.BasicLit); ok {
						v, _ := strconv.ParseUint(l.Value, 10, 64)
						out[v] = append(out[v], place{path, name})
					}
					return true
				})
			}
		}
	}
	return out, ""
}

// unnumbered gives the sources as tokens, without layout and comments, with ids
// renumbered by where they stand.
func unnumbered(dirs []string, root string) map[string]string {
	out := map[string]string{}
	for _, d := range dirs {
		es, _ := os.ReadDir(d)
		for _, e := range es {
			if e.IsDir() || !strings.HasSuffix(e.Name(), ".go") {
				continue
			}
			b, err := os.ReadFile(filepath.Join(d, e.Name()))
			must(err)
			rel, _ := filepath.Rel(root, filepath.Join(d, e.Name()))
			out[rel] = tokens(b)
		}
	}
	return out
}

var synthRe = regexp.MustCompile(`^lenSynthetic(Recv|Arg)\d+`)

func tokens(src []byte) string {
	var s scanner.Scanner
	fset := token.NewFileSet()
	s.Init(fset.AddFile("", fset.Base(), len(src)), src, nil, 0)
	ids := map[string]int{}
	var out []string
	for {
		_, t, lit := s.Scan()
		if t == token.EOF {
			break
		}
		n := len(out)
		switch {
		case t == token.SEMICOLON:
			if n > 0 && out[n-1] == "\n" {
				continue
			}
			out = append(out, "\n")
			continue
		case t == token.RPAREN || t == token.RBRACE || t == token.RBRACK:
			if n > 0 && out[n-1] == "," { // only there because of the layout
				out = out[:n-1]
				n--
			}
			if n > 0 && out[n-1] == "\n" && t != token.RBRACE {
				out = out[:n-1]
			}
		case t == token.INT && n > 1 && out[n-1] == "(" && strings.HasPrefix(out[n-2], "sendLensPoint"):
			k, ok := ids[lit]
			if !ok {
				k = len(ids) + 1
				ids[lit] = k
			}
			lit = "#" + strconv.Itoa(k)
		}
		if lit == "" {
			lit = t.String()
		}
		if t == token.IDENT && strings.HasPrefix(lit, "lenSynthetic") {
			lit = synthRe.ReplaceAllStringFunc(lit, func(m string) string { // these names hold the id
				i := strings.IndexAny(m, "0123456789")
				k, ok := ids[m[i:]]
				if !ok {
					k = len(ids) + 1
					ids[m[i:]] = k
				}
				return m[:i] + "#" + strconv.Itoa(k)
			})
		}
		out = append(out, lit)
	}
	return strings.Join(out, " ")
}

func diffSources(want, got map[string]string) string {
	for _, k := range keysOf(want) {
		g, ok := got[k]
		if !ok {
			return k + " is missing"
		}
		if g != want[k] {
			wl, gl := strings.Split(want[k], "\n"), strings.Split(g, "\n")
			for i := range wl {
				if i >= len(gl) || wl[i] != gl[i] {
					o := ""
					if i < len(gl) {
						o = gl[i]
					}
					return fmt.Sprintf("%s line %d is %q in this schedule and %q when done one after the other", k, i+1, strings.TrimSpace(o), strings.TrimSpace(wl[i]))
				}
			}
			return k + " differs"
		}
	}
	for _, k := range keysOf(got) {
		if _, ok := want[k]; !ok {
			return k + " is extra"
		}
	}
	return ""
}

// ---- the modifier used directly ----

type iop struct {
	kind string
	fn   *lens.Function
	dir  string
	file string
	arg  int
}

type idOwner struct {
	id uint32
	fn *lens.Function
}

func (o iop) do(m *lens.ASTModifier, ids *[]idOwner) error {
	add := func(id uint32, err error) error {
		if err == nil {
			*ids = append(*ids, idOwner{id, o.fn})
		}
		return err
	}
	switch o.kind {
	case "client":
		return m.InjectASTClient(o.dir, 0, 10, 100)
	case "states":
		l, err := m.InjectFuncPointReturnStates(o.fn)
		for _, id := range l {
			*ids = append(*ids, idOwner{id, o.fn})
		}
		return err
	case "panic":
		return add(m.InjectFuncPointPanic(o.fn))
	case "entry":
		return add(m.InjectFuncPointEntry(o.fn))
	case "finish":
		return add(m.InjectFuncPointFinish(o.fn))
	case "before":
		n := 0
		r, err := m.InjectFuncPointBeforeCall(o.fn, func(c *ast.CallExpr) (any, bool) {
			if id, ok := c.Fun.(*ast.Ident); ok && (strings.HasPrefix(id.Name, "sendLens") || id.Name == "recover" || id.Name == "panic") {
				return nil, false
			}
			n++
			return "meta", n%2 == o.arg%2
		})
		l := make([]int, 0, len(r))
		for id := range r {
			l = append(l, int(id))
		}
		sort.Ints(l)
		for _, id := range l {
			*ids = append(*ids, idOwner{uint32(id), o.fn})
		}
		return err
	case "lines":
		return m.InsertFuncLines(o.fn, func(i int, line string) (string, bool) {
			if i%2 == o.arg%2 {
				return "// note", i < 6
			}
			return "", i < 6
		})
	case "commit":
		return m.CommitFile(o.file)
	case "commitall":
		return m.Commit()
	}
	panic(o.kind)
}

func (o iop) String() string {
	switch {
	case o.fn != nil:
		return o.kind + " " + o.fn.FunctionName + " in " + filepath.Base(filepath.Dir(o.fn.FilePath)) + "/" + filepath.Base(o.fn.FilePath)
	case o.dir != "":
		return o.kind + " " + filepath.Base(o.dir)
	}
	return o.kind + " " + filepath.Base(o.file)
}

// moved is the operation on a copy of the project.
func (o iop) moved(from, to string) iop {
	mv := func(s string) string {
		if s == "" {
			return s
		}
		return to + strings.TrimPrefix(s, from)
	}
	o.dir, o.file = mv(o.dir), mv(o.file)
	if o.fn != nil {
		f := *o.fn
		f.FilePath = mv(f.FilePath)
		o.fn = &f
	}
	return o
}

func copyTree(from, to string) {
	must(filepath.Walk(from, func(p string, fi os.FileInfo, err error) error {
		must(err)
		r, _ := filepath.Rel(from, p)
		d := filepath.Join(to, r)
		switch {
		case fi.IsDir():
			return os.MkdirAll(d, 0o755)
		case fi.Mode()&os.ModeSymlink != 0:
			l, _ := os.Readlink(p)
			return os.Symlink(l, d)
		}
		b, err := os.ReadFile(p)
		must(err)
		return os.WriteFile(d, b, 0o644)
	}))
}

func modifierScenario(x *X) {
	work := x.Path("work")
	p := genInject(x, work, x.Pct(30))
	cleanFails := false
	vexec.SimSetHook(func(c *vexec.Cmd) (vexec.SimProg, error) {
		if x.On("C05") && vsim.Chance("cmd", "go clean fails", 50) {
			cleanFails = true
			vsim.CountFault("cmd_failed")
			return nil, errStart
		}
		return func(*vexec.SimProc) int { return 0 }, nil
	})
	if x.On("C05") {
		// what people leave lying around
		for _, f := range p.files {
			if x.Pct(8) {
				b, _ := os.ReadFile(f)
				if x.Pct(50) {
					b = []byte("package old\n")
				}
				must(os.WriteFile(f+".bkp", b, 0o644))
			}
			if x.Pct(8) {
				real := filepath.Join(work, "shared", strings.ReplaceAll(strings.TrimPrefix(f, work), "/", "_"))
				must(os.MkdirAll(filepath.Dir(real), 0o755))
				must(os.Rename(f, real))
				must(os.Symlink(real, f))
			}
		}
	}
	sessions := 1
	if x.On("C05") && x.Pct(30) {
		sessions = 2
	}
	before := snap(work)
	m := &lens.ASTModifier{}
	for s := 0; s < sessions; s++ {
		if s > 0 && x.Pct(50) {
			m = &lens.ASTModifier{}
		}
		if !p.session(x, m, work, before, &cleanFails) {
			return
		}
	}
}

// session injects, commits and restores once; it tells whether all is as before.
func (p *iproj) session(x *X, m *lens.ASTModifier, work string, before tree, cleanFails *bool) bool {
	exclusive := x.Pct(50)
	clientsFirst := exclusive || x.Pct(70)
	var clients []iop
	for _, d := range p.dirs {
		clients = append(clients, iop{kind: "client", dir: d})
		if !exclusive && x.Pct(30) {
			clients = append(clients, iop{kind: "client", dir: d})
		}
	}
	perFile := map[string][]iop{}
	for _, f := range p.fns {
		if x.Pct(15) {
			continue
		}
		add := func(k string) {
			perFile[f.FilePath] = append(perFile[f.FilePath], iop{kind: k, fn: f, arg: x.N(2)})
		}
		switch x.N(6) {
		case 0, 1:
			add("states")
			add("panic")
		case 2:
			add("entry")
			add("panic")
		case 3:
			add("states")
			add("finish")
			add("entry")
		case 4:
			add("before")
			if x.Pct(50) {
				add("panic")
			}
		case 5:
			if x.On("C07") { // only moves comments about
				add("entry")
				break
			}
			add("lines")
			if x.Pct(30) {
				add("states")
			}
		}
		if x.Pct(20) {
			perFile[f.FilePath] = append(perFile[f.FilePath], iop{kind: "commit", file: f.FilePath})
		}
	}
	var files []string
	for _, f := range p.files {
		if len(perFile[f]) > 0 {
			files = append(files, f)
			if x.Pct(70) {
				perFile[f] = append(perFile[f], iop{kind: "commit", file: f})
			}
		}
	}
	n := 2 + x.N(4)
	callers := make([][]iop, n)
	for i, f := range files {
		if exclusive {
			callers[i%n] = append(callers[i%n], perFile[f]...)
		} else {
			for _, o := range perFile[f] {
				c := x.N(n)
				callers[c] = append(callers[c], o)
			}
		}
	}
	commitAll := x.Pct(80)
	midCommit := x.On("C05") && !exclusive && x.Pct(20)
	if midCommit {
		c := x.N(n)
		callers[c] = append(callers[c], iop{kind: "commitall"})
	}

	// the same, one after the other
	var ref map[string]string
	refErr := map[string]bool{}
	if x.On("C07") && exclusive {
		to := x.Path("ref_")
		copyTree(work, to)
		vsim.W.Quiet = true
		var ids []idOwner
		rm := &lens.ASTModifier{}
		for _, o := range clients {
			x.Check("C07", o.moved(work, to).do(rm, &ids) == nil, "error", "%s failed", o)
		}
		for _, f := range files {
			for _, o := range perFile[f] {
				if err := o.moved(work, to).do(rm, &ids); err != nil {
					refErr[o.String()] = true
				}
			}
		}
		must(rm.Commit())
		vsim.W.Quiet = false
		var dirs []string
		for _, d := range p.dirs {
			dirs = append(dirs, iop{dir: d}.moved(work, to).dir)
		}
		ref = unnumbered(dirs, to)
	}

	faulty := x.On("C05") && x.Pct(70)
	injectFaults := 0
	if faulty {
		x.fsFaults([]int{15, 60, 200}[x.N(3)], 1+x.N(3), func(op, path string) bool { return true })
	}
	// at every instant each original is complete on disk somewhere beside it
	originals := map[string]string{}
	for k, v := range before {
		if strings.HasPrefix(v, "file:") {
			originals[filepath.Join(work, k)] = v[5:]
		}
	}
	vsim.W.FSHook = func(op, path string) {
		if !x.On("C05") {
			return
		}
		p.crashCheck(x, op, path, originals)
	}
	var ids []idOwner
	var errs []string
	run := func(l []iop) {
		for _, o := range l {
			var own []idOwner
			err := o.do(m, &own)
			ids = append(ids, own...)
			if err != nil && !errors.Is(err, fs.ErrInvalid) {
				errs = append(errs, o.String()+": "+err.Error())
				if vsim.FSFaults() == 0 && exclusive && !refErr[o.String()] {
					x.Check("C07", false, "error", "%s failed without a fault: %v", o, err)
				}
			}
			x.Say("%s -> %v", o, err)
		}
	}
	if clientsFirst {
		var fs []func()
		for _, c := range clients {
			fs = append(fs, func() { run([]iop{c}) })
		}
		parallel(fs...)
	} else {
		for _, c := range clients {
			i := x.N(n)
			callers[i] = append([]iop{c}, callers[i]...)
		}
	}
	var fsn []func()
	for _, c := range callers {
		fsn = append(fsn, func() { run(c) })
	}
	parallel(fsn...)
	if commitAll {
		run([]iop{{kind: "commitall"}})
	}
	injectFaults = vsim.FSFaults()

	if x.On("C07") {
		if !commitAll {
			must(m.Commit())
		}
		pts, msg := points(p.dirs)
		x.Check("C07", msg == "", "parse", "%s", msg)
		given := map[uint32]*lens.Function{}
		for _, o := range ids {
			x.Check("C07", o.id != 0, "zero", "%s was given point id 0", o.fn.FunctionName)
			g := given[o.id]
			x.Check("C07", g == nil, "twice", "point id %d was given to %s and again to %s", o.id, name(g), o.fn.FunctionName)
			given[o.id] = o.fn
			pl := pts[uint64(o.id)]
			x.Check("C07", len(pl) == 1, "places", "point id %d of %s occurs at %d places: %v", o.id, o.fn.FunctionName, len(pl), pl)
			if len(pl) == 1 {
				x.Check("C07", pl[0].file == o.fn.FilePath && pl[0].fn == o.fn.FunctionName, "owner", "point id %d was given to %s of %s and stands in %s of %s", o.id, o.fn.FunctionName, o.fn.FilePath, pl[0].fn, pl[0].file)
			}
		}
		for id, pl := range pts {
			x.Check("C07", given[uint32(id)] != nil, "unknown", "point id %d in %s of %s was given to nobody", id, pl[0].fn, pl[0].file)
			x.Check("C07", len(pl) == 1, "places", "point id %d occurs at %d places", id, len(pl))
			x.Check("C07", int(id) <= m.MaxPointId(), "max", "point id %d is beyond the highest tracked one, %d", id, m.MaxPointId())
		}
		if ref != nil && len(refErr) == 0 {
			d := diffSources(ref, unnumbered(p.dirs, work))
			x.Check("C07", d == "", "differs", "instrumented sources depend on the schedule: %s", d)
			vsim.Probe("inject.compared")
		}
	}

	restoreFaults := faulty && x.Pct(40)
	if restoreFaults {
		x.fsFaults([]int{30, 150, 400}[x.N(3)], vsim.FSFaults()+1+x.N(2), nil)
	} else {
		x.noFaults()
	}
	*cleanFails = false
	rerrs := m.Restore(nil)
	x.noFaults()
	restoreFaults = vsim.FSFaults() > injectFaults
	d := before.diff(snap(work))
	if !restoreFaults {
		x.Check("C05", d == "", "tree", "sources differ after restoring (errors while injecting: %d): %s", len(errs), d)
		x.Check("C05", len(rerrs) == 0 || *cleanFails, "restore error", "restore failed without a fault: %v", rerrs)
		if len(errs) > 0 {
			vsim.Probe("restored.after.failure")
		}
	} else {
		x.Check("C05", d == "" || len(rerrs) > 0, "silent", "a disk error prevented restoring and no error was returned: %s", d)
		other := before.spared(snap(work), func(k string) string { return "/work/" + k })
		x.Check("C05", other == "", "others", "files that no disk error concerns differ after restoring (errors: %v on %v): %s", vsim.W.FSFaulted, vsim.W.FSPaths, other)
		vsim.Probe("restore.faulted")
	}
	settle(time.Minute)
	return d == ""
}

func name(f *lens.Function) string {
	if f == nil {
		return "nobody"
	}
	return f.FunctionName
}

// crashCheck: nothing is lost if everything stopped now.
func (p *iproj) crashCheck(x *X, op, path string, originals map[string]string) {
	dir := filepath.Dir(path)
	for f, want := range originals {
		if filepath.Dir(f) != dir && !strings.HasPrefix(f, filepath.Join(dir, "x")[:len(dir)+1]) && !strings.Contains(f, "/shared/") {
			continue
		}
		if onDisk(f, want) {
			continue
		}
		found := false
		es, _ := os.ReadDir(filepath.Dir(f))
		for _, e := range es {
			if strings.HasPrefix(e.Name(), filepath.Base(f)) && onDisk(filepath.Join(filepath.Dir(f), e.Name()), want) {
				found = true
				break
			}
		}
		if !found { // a linked file: beside the link
			for g := range originals {
				if found || !strings.Contains(f, "/shared/") {
					break
				}
				es, _ := os.ReadDir(filepath.Dir(g))
				for _, e := range es {
					if onDisk(filepath.Join(filepath.Dir(g), e.Name()), want) {
						found = true
						break
					}
				}
			}
		}
		x.Check("C05", found, "lost", "after %s of %s the original content of %s is nowhere on disk", op, filepath.Base(path), filepath.Base(f))
	}
}

// onDisk tells whether a file holds exactly want and would after a power failure.
func onDisk(path, want string) bool {
	if vsim.W.Unsynced(path) {
		return false
	}
	b, err := os.ReadFile(path)
	return err == nil && string(b) == want
}

// ---- the tool's own injection ----

func injectScenario(x *X) {
	p := genInject(x, x.Path("work"), x.Pct(30))
	gopath := filepath.Join(x.Path("work"), "gopath")
	modcache := filepath.Join(gopath, "pkg", "mod")
	tests := filepath.Join(p.dirs[0], "x_test.go")
	must(os.WriteFile(tests, []byte("package p0\n\nimport \"testing\"\n\nfunc TestA(t *testing.T) {}\n"), 0o644))
	tf := &lens.TestFunction{Function: describe(tests, appPath+"/p0", "TestA")}
	change := &lens.ModuleChange{Name: modName, PriorVersion: modOld, NewVersion: modNew, GoVersion: "1.21"}
	mods := lens.ReachableModuleChange{}
	var callers []*lens.CallerFunction
	for _, f := range p.fns {
		if x.Pct(20) {
			continue
		}
		if p.isMod[f.FilePath] {
			mods[f.FunctionIdent] = &lens.ModuleFunction{Function: *f, Module: change}
		} else {
			callers = append(callers, &lens.CallerFunction{Function: *f})
		}
	}
	if len(callers) == 0 {
		callers = append(callers, &lens.CallerFunction{Function: *p.fns[0]})
	}
	vsim.Shuffle("plan", len(callers), func(i, j int) { callers[i], callers[j] = callers[j], callers[i] })
	runOnce := func(quiet bool) (shots []map[string]string, err error) {
		ran := 0
		vexec.SimSetHook(func(c *vexec.Cmd) (vexec.SimProg, error) {
			return func(*vexec.SimProc) int {
				if c.Args[1] == "test" {
					ran++
					if ran == 1 || ran == 3 {
						pts, msg := points(p.dirs)
						x.Check("C07", msg == "", "parse", "%s", msg)
						for id, pl := range pts {
							x.Check("C07", id != 0 && len(pl) == 1, "places", "point id %d occurs at %d places: %v", id, len(pl), pl)
						}
						shots = append(shots, unnumbered(p.dirs, x.Path("work")))
					}
				}
				return 0
			}, nil
		})
		vsim.W.Quiet = quiet
		cs := append([]*lens.CallerFunction(nil), callers...)
		_, _, _, _, _, err = lens.RunModuleUpdateAnalysis(gopath, modcache, p.root, portBase, newStore(), 10, 100,
			[]*lens.ModuleChange{change}, mods, cs, []*lens.TestFunction{tf}, nil, nil)
		vsim.W.Quiet = false
		settle(time.Minute)
		return
	}
	want, err := runOnce(true)
	if err != nil || len(want) != 2 {
		x.Check("C07", false, "error", "instrumenting one file after the other failed: %v (%d runs seen)", err, len(want))
		return
	}
	got, err := runOnce(false)
	x.Check("C07", err == nil, "error", "instrumenting a valid project failed under this schedule: %v", err)
	if err != nil {
		return
	}
	x.Check("C07", len(got) == 2, "runs", "%d phases of tests ran", len(got))
	for i := range got {
		d := diffSources(want[i], got[i])
		x.Check("C07", d == "", "differs", "instrumented sources depend on the schedule: %s", d)
	}
	vsim.Probe("inject.compared")
}
