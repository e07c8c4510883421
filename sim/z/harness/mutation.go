package main

import (
	"bytes"
	"errors"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"time"

	"github.com/PatchLens/go-update-lens/lens"
	"github.com/PatchLens/go-update-lens/zzverif/vexec"
	"github.com/PatchLens/go-update-lens/zzverif/vsim"
)

// Mutation testing: the mutation tool is a stand-in which looks at the sources the way the real tool does
// and, now and then, runs the script it was given.

func init() {
	components["C11"] = component{
		real:   []string{"RunMutationTesting and the scripts it writes (lens/mutation.go), InsertFuncLines and Restore (lens/asttweak.go)", "bash, for a sample of the runs: the generated script is executed in the scratch directory"},
		stub:   []string{"go-mutesting: a stand-in that checks what it is given and prints a summary", "the go command inside the script: a stand-in with a drawn exit code", "os, errgroup, exec: simulator-owned stand-ins"},
		assume: []string{"the tool calls a mutant passed when the script exits 0 (tests failed) and failed when it exits 1, as its documentation and the script say"},
	}
	register(&Scenario{Name: "mutation", Props: []string{"C11"}, Quick: 16000, Steps: 20_000_000, Preempt: []int{6, 30, 200, 1500, 8000}, Run: mutationScenario})
}

type mutFn struct {
	fn      *lens.ModuleFunction
	file    string
	name    string
	lines   []string // of the body with the declaration, as in the file
	marks   []string // markers in it
	changed map[string]bool
	listed  bool
}

var marker = regexp.MustCompile(`\b1[0-9]{3}\b`)

// genMutFunc writes one function; every statement carries a marker.
func genMutFunc(x *X, name string, next *int) string {
	mk := func() string { *next++; return fmt.Sprint(1000 + *next) }
	recv := ""
	if x.Pct(25) {
		recv = "(t *T) "
	}
	switch x.N(12) {
	case 0:
		return fmt.Sprintf("func %s%s(n int) int { return n + %s }\n", recv, name, mk())
	case 1:
		if recv == "" {
			return fmt.Sprintf("func %s(n int) int\n", name)
		}
	}
	var b strings.Builder
	if x.Pct(40) {
		fmt.Fprintf(&b, "// %s does it.\n//\n// And more.\n", name)
	}
	if x.Pct(15) {
		fmt.Fprintf(&b, "func %s%s(\n\tn int,\n) int {\n\tx := n\n", recv, name)
	} else {
		fmt.Fprintf(&b, "func %s%s(n int) int {\n\tx := n\n", recv, name)
	}
	for k := 1 + x.N(6); k > 0; k-- {
		switch x.N(14) {
		case 0:
			fmt.Fprintf(&b, "\t// first\n\t// second\n\t// third\n\tx += %s\n", mk())
		case 1:
			fmt.Fprintf(&b, "\t/* a\n\t   b */\n\tx += %s\n", mk())
		case 2:
			fmt.Fprintf(&b, "\n\n\n\tx += %s\n", mk())
		case 3:
			fmt.Fprintf(&b, "\tif x > %s {\n\t\tx -= %s\n\t} else {\n\t\t// keep\n\t\tx *= %s\n\t}\n", mk(), mk(), mk())
		case 4:
			fmt.Fprintf(&b, "\tif x > %s { x -= %s }\n", mk(), mk())
		case 5:
			fmt.Fprintf(&b, "\tx += len(`a\nb`) + %s\n", mk())
		case 6:
			fmt.Fprintf(&b, "\tx += %s // note\n", mk())
		case 7:
			fmt.Fprintf(&b, "\tx += max(\n\t\t%s,\n\t\t%s,\n\t)\n", mk(), mk())
		case 8:
			fmt.Fprintf(&b, "\tx += %s; x -= %s\n", mk(), mk())
		case 9:
			fmt.Fprintf(&b, "\tx+=%s\n", mk())
		case 10:
			fmt.Fprintf(&b, "\tswitch x {\n\tcase %s:\n\t\t// nothing\n\n\tcase %s: x += %s\n\t}\n", mk(), mk(), mk())
		case 11:
			fmt.Fprintf(&b, "\tx += len(`\n\ty := 1\n\tz // no\n`)\n\tx -= %s\n", mk())
		case 12:
			fmt.Fprintf(&b, "\tfunc() {\n\t\tx += %s\n\t}()\n", mk())
		default:
			fmt.Fprintf(&b, "\tx += %s\n", mk())
		}
	}
	fmt.Fprintf(&b, "\treturn x\n}\n")
	return b.String()
}

// definition prints a function the way the analysis of modules does: without comments.
func definition(file, ident, pkg string) string {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, file, nil, 0)
	must(err)
	f.Comments = nil
	for _, d := range f.Decls {
		if fd, ok := d.(*ast.FuncDecl); ok && lens.MakeFunctionIdent(pkg, fd) == ident {
			fd.Doc = nil
			var b bytes.Buffer
			must((&printer.Config{Mode: printer.TabIndent, Tabwidth: 2}).Fprint(&b, fset, fd))
			return b.String()
		}
	}
	panic("harness: no " + ident)
}

const directive = "// mutator-disable-next-line *"

func mutationScenario(x *X) {
	root := x.Path()
	proj, gopath := x.Dir("proj"), x.Dir("gopath")
	modcache := filepath.Join(gopath, "pkg", "mod")
	modDir := filepath.Join(modcache, modName+"@"+modOld)
	if x.Pct(10) {
		modDir = filepath.Join(modcache, "two words", modName+"@"+modOld)
	}
	must(os.MkdirAll(filepath.Join(modDir, "sub"), 0o755))
	must(os.MkdirAll(x.Path("tmp"), 0o755))
	pats := []string{"./..."}
	must(os.WriteFile(filepath.Join(proj, "go.mod"), []byte("module "+appPath+"\n\ngo 1.21\n"), 0o644))
	if x.Pct(20) {
		must(os.MkdirAll(filepath.Join(proj, "in"), 0o755))
		must(os.WriteFile(filepath.Join(proj, "in", "go.mod"), []byte("module "+appPath+"/in\n\ngo 1.21\n"), 0o644))
		must(os.WriteFile(filepath.Join(proj, "go.work"), []byte("go 1.21\n\nuse (\n\t.\n\t./in\n)\n"), 0o644))
		pats = append(pats, "./in/...")
	}

	// the module
	var fns []*mutFn
	var files []string
	next := 0
	for i, n := 0, 1+x.N(3); i < n; i++ {
		dir, pkg := modDir, modName
		if x.Pct(30) {
			dir, pkg = filepath.Join(modDir, "sub"), modName+"/sub"
		}
		file := filepath.Join(dir, fmt.Sprintf("f%d.go", i))
		var b strings.Builder
		fmt.Fprintf(&b, "package %s\n\n", filepath.Base(pkg))
		var names []string
		for k, n := 0, 1+x.N(4); k < n; k++ {
			name := fmt.Sprintf("F%d", len(fns)+k)
			if k > 0 && x.Pct(30) {
				name = names[0] + "More" + fmt.Sprint(k)
			}
			names = append(names, name)
			b.WriteString(genMutFunc(x, name, &next) + "\n")
		}
		must(os.WriteFile(file, []byte(b.String()), 0o644))
		files = append(files, file)
		for _, name := range names {
			fns = append(fns, &mutFn{file: file, name: name, fn: &lens.ModuleFunction{Function: describe(file, pkg, name)}, changed: map[string]bool{}})
		}
	}
	scoped, targeted, fast := x.Pct(70), x.Pct(50), x.Pct(50)
	var changes []*lens.ModuleFunction
	bad := -1 // a change without its lines
	for i, f := range fns {
		def := definition(f.file, f.fn.FunctionIdent, f.fn.PackageName)
		f.marks = marker.FindAllString(def, -1)
		if x.Pct(25) {
			continue // not changed
		}
		f.listed = true
		f.fn.Definition = def
		lines := strings.Split(def, "\n")
		f.fn.LineChangeBitmap = make([]bool, len(lines))
		if !x.Pct(15) {
			for k, l := range lines {
				if m := marker.FindAllString(l, -1); len(m) > 0 && x.Pct(40) {
					f.fn.LineChangeBitmap[k] = true
					for _, s := range m {
						f.changed[s] = true
					}
				} else if k == 0 && x.Pct(10) {
					f.fn.LineChangeBitmap[k] = true
				}
			}
		}
		changes = append(changes, f.fn)
		if scoped && bad < 0 && x.Pct(3) {
			bad = i
			f.fn.LineChangeBitmap = nil
		}
	}
	for i := len(changes) - 1; i > 0; i-- {
		j := x.N(i + 1)
		changes[i], changes[j] = changes[j], changes[i]
	}
	// what takes part
	wantFiles, wantNames := map[string]bool{}, map[string]bool{}
	for _, f := range fns {
		if !f.listed {
			continue
		}
		any := false
		for _, c := range f.fn.LineChangeBitmap {
			any = any || c
		}
		if !scoped || any {
			wantFiles[f.file] = true
			wantNames[f.name] = true
		}
	}
	// the tests
	var tests []*lens.TestFunction
	covers := map[string]map[string]bool{}
	for i, n := 0, x.N(4); i < n; i++ {
		t := &lens.TestFunction{Function: lens.Function{FunctionName: fmt.Sprintf("Test%d", x.N(4))}}
		for k := x.N(3); k > 0; k-- {
			c := &lens.CallerFunction{}
			for _, f := range fns {
				if f.listed && x.Pct(40) {
					c.ChangeFunctions = append(c.ChangeFunctions, f.fn)
					if covers[f.file] == nil {
						covers[f.file] = map[string]bool{}
					}
					covers[f.file][t.FunctionName] = true
				}
			}
			t.Targets = append(t.Targets, c)
		}
		tests = append(tests, t)
	}

	e := newWorld(x, nil)
	passed, failed, dup, skipped := x.N(40), x.N(40), x.N(3), x.N(5)
	total := passed + failed + skipped
	summary := fmt.Sprintf("The mutation score is %f (%d passed, %d failed, %d duplicated, %d skipped, total is %d)\n", float64(passed)/float64(max(total, 1)), passed, failed, dup, skipped, total)
	if total == 0 {
		summary = fmt.Sprintf("The mutation score is NaN (%d passed, %d failed, %d duplicated, %d skipped, total is %d)\n", passed, failed, dup, skipped, total)
	}
	mode := "ok"
	if x.Pct(40) {
		mode = []string{"missing", "fails", "silent", "killed", "cut"}[x.N(5)]
	}
	runScript := x.Pct(8)
	if x.Pct(40) {
		x.fsFaults([]int{10, 60}[x.N(2)], 1+x.N(2), func(op, path string) bool { return true })
	}
	before := snap(root)
	ran, toolRan := "", 0
	var seen, why string
	e.tool = func(c *vexec.Cmd) (vexec.SimProg, error) {
		if filepath.Base(c.Args[0]) != "go-mutesting" {
			return nil, nil
		}
		toolRan++
		if mode == "missing" {
			vsim.CountFault("tool_missing")
			return nil, &exec.Error{Name: "go-mutesting", Err: exec.ErrNotFound}
		}
		return func(sp *vexec.SimProc) int {
			vsim.Sleep(time.Duration(x.N(100)) * time.Millisecond)
			seen, why = e.toolLooks(c, proj, gopath, modcache, scoped, fast, fns, wantFiles, wantNames, before)
			if seen == "" && runScript {
				seen = runMutScript(x, c, pats, targeted, covers, files)
				ran = "script"
				vsim.Probe("mutation.script")
			}
			must(os.WriteFile(filepath.Join(c.Dir, "report.json"), []byte("{}"), 0o644))
			if mode == "fails" {
				vsim.CountFault("tool_failed")
				fmt.Fprintln(sp.Stderr, "panic: no")
				if x.Pct(50) {
					fmt.Fprint(sp.Stdout, summary)
				}
				return 1 + x.N(3)
			}
			if mode == "killed" {
				vsim.CountFault("tool_killed")
				sp.SimKill()
				return 137
			}
			for k := x.N(4); k > 0; k-- {
				fmt.Fprintf(sp.Stdout, "PASS \"/tmp/x/f.go.%d\" with checksum %d\n", k, k)
				if x.Pct(30) {
					fmt.Fprintf(sp.Stderr, "--- Original (%d passed)\n+++ New total is 3\n", k)
				}
			}
			switch mode {
			case "silent":
				vsim.CountFault("tool_silent")
			case "cut":
				vsim.CountFault("tool_cut")
				fmt.Fprint(sp.Stdout, summary[:len(summary)-3])
			default:
				for i := 0; i < len(summary); {
					j := min(len(summary), i+1+x.N(60))
					fmt.Fprint(sp.Stdout, summary[i:j])
					i = j
				}
				fmt.Fprint(sp.Stdout, []string{"", "\n", "Save report into report.json\n"}[x.N(3)])
			}
			return 0
		}, nil
	}
	if x.Pct(10) {
		e.cf = cmdFaults{rate: 500, max: 1} // cleaning the build cache fails
	}
	x.Say("%d functions in %d files, %d changed, scoped %v, targeted %v, tool %s", len(fns), len(files), len(changes), scoped, targeted, mode)
	res, err := lens.RunMutationTesting(gopath, modcache, proj, fast, scoped, targeted, changes, tests)
	at := snap(root)
	faults, ops := vsim.FSFaults(), fmt.Sprint(vsim.W.FSFaulted)
	x.noFaults()
	x.Say("result %v, error %v, faults %s", res, err, ops)
	settle(time.Minute)
	after := snap(root)

	x.Check("C11", seen == "", why, "%s", seen)
	d := at.diff(after)
	x.Check("C11", d == "", "late", "files change after mutation testing returned: %s", d)
	d = before.diff(after)
	if faults == 0 {
		x.Check("C11", d == "", "left", "after mutation testing (error %v) files are not as before: %s", err, d)
	}
	src := map[string]bool{}
	for _, f := range files {
		rel, _ := filepath.Rel(root, f)
		src[rel] = true
	}
	if sd := before.only(src).diff(after.only(src)); sd != "" {
		x.Check("C11", err != nil, "sources", "mutation testing returned success and the sources are changed: %s (faults %s)", sd, ops)
		vsim.Probe("mutation.unrestorable")
	} else if !strings.Contains(ops, "remove") {
		x.Check("C11", d == "", "left", "after mutation testing (error %v, faults %s) files are left behind: %s", err, ops, d)
	}
	if err != nil {
		x.Check("C11", res == lens.MutationResult{}, "counts", "an error and counts are returned: %v, %v", err, res)
		x.Check("C11", faults > 0 || bad >= 0 || len(e.broken) > 0 || mode != "ok" && toolRan > 0, "error", "nothing went wrong and mutation testing failed: %v", err)
		vsim.Probe("mutation.error")
		return
	}
	x.Check("C11", bad < 0, "bad", "a change without its lines is accepted")
	if len(wantFiles) == 0 {
		x.Check("C11", toolRan == 0 && res == lens.MutationResult{}, "counts", "nothing to mutate, and the tool ran %d times: %v", toolRan, res)
		vsim.Probe("mutation.none")
		return
	}
	x.Check("C11", toolRan == 1, "tool", "the tool ran %d times", toolRan)
	x.Check("C11", mode == "ok", "tool", "the tool was %s and mutation testing succeeded: %v", mode, res)
	x.Check("C11", faults == 0 || benign(ops), "fault", "a file operation failed (%s) and mutation testing succeeded", ops)
	x.Check("C11", res.MutationCount == total && res.SquashedCount == passed, "counts", "the tool printed %q and %v was returned", strings.TrimSpace(summary), res)
	vsim.Probe("mutation.ok" + ran)
}

// benign: a failed look at what is there, or a failed removal of a scratch file, does no harm.
func benign(ops string) bool {
	for _, o := range strings.Fields(strings.Trim(ops, "[]")) {
		if !strings.Contains(o, "remove") && !strings.Contains(o, "stat") {
			return false
		}
	}
	return true
}

// only keeps the named entries.
func (t tree) only(names map[string]bool) tree {
	out := tree{}
	for k, v := range t {
		if names[k] {
			out[k] = v
		}
	}
	return out
}

// toolLooks is what the mutation tool sees when it starts.
func (e *world) toolLooks(c *vexec.Cmd, proj, gopath, modcache string, scoped, fast bool, fns []*mutFn, wantFiles, wantNames map[string]bool, before tree) (string, string) {
	if c.Dir != proj || envGet(c.Env, "GOPATH") != gopath || envGet(c.Env, "GOMODCACHE") != modcache {
		return fmt.Sprintf("the tool runs in %s with GOPATH %s and GOMODCACHE %s", c.Dir, envGet(c.Env, "GOPATH"), envGet(c.Env, "GOMODCACHE")), "env"
	}
	opts := map[string][]string{}
	got := map[string]bool{}
	for i := 1; i < len(c.Args); i++ {
		a := c.Args[i]
		if k, v, ok := strings.Cut(a, "="); ok && strings.HasPrefix(a, "--") {
			opts[k] = append(opts[k], v)
		} else if a == "--verbose" || a == "--debug" {
		} else if strings.HasPrefix(a, "--") && i+1 < len(c.Args) {
			opts[a] = append(opts[a], c.Args[i+1])
			i++
		} else {
			if got[a] {
				return "the tool is given " + filepath.Base(a) + " twice", "files"
			}
			got[a] = true
		}
	}
	if w, g := keysOf(wantFiles), keysOf(got); strings.Join(w, " ") != strings.Join(g, " ") {
		return fmt.Sprintf("the tool is given files %v, those with changed functions are %v", g, w), "files"
	}
	if len(opts["--match"]) != 1 || len(opts["--exec"]) != 1 {
		return fmt.Sprintf("the tool is given %v", opts), "args"
	}
	re, err := regexp.Compile(opts["--match"][0])
	if err != nil {
		return "bad pattern " + opts["--match"][0], "match"
	}
	for _, f := range fns {
		if wantFiles[f.file] && re.MatchString(f.name) != wantNames[f.name] {
			return fmt.Sprintf("function %s is matched by %s: %v, want %v", f.name, re, !wantNames[f.name], wantNames[f.name]), "match"
		}
	}
	if (len(opts["--disable"]) > 0) != fast {
		return fmt.Sprintf("with fast mutations %v, %d kinds are disabled", fast, len(opts["--disable"])), "fast"
	}
	if s, err := os.Stat(opts["--exec"][0]); err != nil || s.Mode().Perm()&0o100 == 0 {
		return "the script is not there or cannot be run", "script"
	}
	// the sources
	seen := map[string]bool{}
	for _, f := range fns {
		if seen[f.file] {
			continue
		}
		seen[f.file] = true
		now, err := os.ReadFile(f.file)
		must(err)
		rel, _ := filepath.Rel(e.x.Path(), f.file)
		var kept []string
		off := map[string]bool{} // markers on lines excluded
		all := strings.Split(string(now), "\n")
		for i, l := range all {
			if strings.TrimSpace(l) == directive {
				if i+1 < len(all) {
					for _, m := range marker.FindAllString(all[i+1], -1) {
						off[m] = true
					}
				}
				continue
			}
			kept = append(kept, l)
		}
		orig := strings.TrimPrefix(before[rel], "file:")
		if strings.Join(kept, "\n") != orig {
			return fmt.Sprintf("%s is not what it was, apart from excluded lines:\n%s", filepath.Base(f.file), now), "content"
		}
		if tokens([]byte(orig)) != tokens(now) {
			return fmt.Sprintf("%s is another program with lines excluded:\n%s", filepath.Base(f.file), now), "content"
		}
		if !scoped && len(off) > 0 {
			return "lines are excluded although whole functions were asked for", "excluded"
		}
		for _, g := range fns {
			if !scoped || g.file != f.file || !g.listed || !wantNames[g.name] || len(g.changed) == 0 {
				continue
			}
			for _, l := range strings.Split(orig, "\n") {
				hit, mine, all := false, false, marker.FindAllString(l, -1)
				for _, m := range all {
					hit = hit || g.changed[m]
					mine = mine || contains(g.marks, m)
				}
				if !mine || len(all) == 0 {
					continue
				}
				if hit && off[all[0]] {
					return fmt.Sprintf("line %q of %s changed with the update and is excluded from mutation", strings.TrimSpace(l), g.name), "excluded"
				}
				if !hit && !off[all[0]] && !strings.Contains(l, "b`") && !strings.HasPrefix(l, "func ") {
					return fmt.Sprintf("line %q of %s did not change and is not excluded from mutation", strings.TrimSpace(l), g.name), "excluded"
				}
			}
		}
	}
	return "", ""
}

func contains(l []string, s string) bool {
	for _, e := range l {
		if e == s {
			return true
		}
	}
	return false
}

// runMutScript runs the script for one mutant of every file, as the tool does, with a go command that does as told.
func runMutScript(x *X, c *vexec.Cmd, pats []string, targeted bool, covers map[string]map[string]bool, files []string) string {
	script := ""
	given := map[string]bool{}
	for i, a := range c.Args {
		if a == "--exec" {
			script = c.Args[i+1]
		}
		given[a] = true
	}
	bin := x.Dir("bin")
	for _, t := range []string{"bash", "env", "mv", "cp", "diff", "tr"} {
		p, err := exec.LookPath(t)
		must(err)
		switch t { // may fail, cp half-way
		case "cp":
			must(os.WriteFile(filepath.Join(bin, t), []byte("#!"+filepath.Join(bin, "bash")+"\nif [ \"$DISK\" = full ]; then printf 'package' > \"$2\"; exit 1; fi\nexec "+p+" \"$@\"\n"), 0o755))
			continue
		case "mv":
			must(os.WriteFile(filepath.Join(bin, t), []byte("#!"+filepath.Join(bin, "bash")+"\nif [ \"$DISK\" = locked ]; then exit 1; fi\nexec "+p+" \"$@\"\n"), 0o755))
			continue
		}
		if err := os.Symlink(p, filepath.Join(bin, t)); err != nil && !errors.Is(err, os.ErrExist) {
			must(err)
		}
	}
	log, body := filepath.Join(bin, "log"), filepath.Join(bin, "body")
	must(os.WriteFile(filepath.Join(bin, "go"), []byte("#!"+filepath.Join(bin, "bash")+"\nprintf '%s\\n' \"$@\" > "+log+"\nDISK= cp \"$MUTATE_ORIGINAL\" "+body+"\nexit $GO_RC\n"), 0o755))
	defer os.RemoveAll(bin)
	for _, f := range files {
		if !given[f] {
			continue
		}
		orig, err := os.ReadFile(f)
		must(err)
		mutant := filepath.Join(bin, "mutant.go")
		changed := append([]byte("// mutant\n"), orig...)
		must(os.WriteFile(mutant, changed, 0o644))
		os.Remove(log)
		os.Remove(body)
		rc := []int{0, 1, 2, 3, 137}[x.N(5)]
		disk := []string{"", "", "", "", "full", "locked"}[x.N(6)]
		cmd := exec.Command(script)
		cmd.Dir = c.Dir
		cmd.Env = []string{"PATH=" + bin, "MUTATE_ORIGINAL=" + f, "MUTATE_CHANGED=" + mutant, "MUTATE_PACKAGE=m", "MUTATE_DEBUG=false", "MUTATE_VERBOSE=false", fmt.Sprint("GO_RC=", rc), "DISK=" + disk}
		if x.Pct(30) {
			cmd.Env = append(cmd.Env, "MUTATE_TIMEOUT=7")
		}
		out, err := cmd.CombinedOutput()
		got := 0
		if err != nil {
			var ee *exec.ExitError
			if !errors.As(err, &ee) {
				return "the script cannot be run: " + err.Error()
			}
			got = ee.ExitCode()
		}
		if now, err := os.ReadFile(f); err != nil || !bytes.Equal(now, orig) {
			return fmt.Sprintf("after the script %s is not what it was", filepath.Base(f))
		}
		if _, err := os.Lstat(f + ".mbkp"); err == nil {
			return "the script leaves a backup behind"
		}
		b, err := os.ReadFile(log)
		if targeted && len(covers[f]) == 0 {
			if got != 2 || err == nil {
				return fmt.Sprintf("no test covers %s and the script exits with %d", filepath.Base(f), got)
			}
			continue
		}
		if disk != "" {
			vsim.CountFault("script_disk_" + disk)
			if err == nil || got != 2 {
				return fmt.Sprintf("the mutant cannot be put in place (disk is %s); tests run: %v, the script exits with %d", disk, err == nil, got)
			}
			continue
		}
		if err != nil {
			return fmt.Sprintf("the script did not run the tests for %s: exit %d, %s", filepath.Base(f), got, strings.ReplaceAll(string(out), x.Path(), ""))
		}
		if now, err := os.ReadFile(body); err != nil || !bytes.Equal(now, changed) {
			return "the tests did not see the mutant"
		}
		want := rc // the tool skips the mutant
		if rc < 2 {
			want = 1 - rc
		}
		if got != want {
			return fmt.Sprintf("the tests exit with %d and the script with %d", rc, got)
		}
		args := strings.Split(strings.TrimSpace(string(b)), "\n")
		pattern, pk := "", []string{}
		for i := 1; i < len(args); i++ {
			if args[i] == "-run" && i+1 < len(args) {
				pattern = args[i+1]
				i++
			} else if !strings.HasPrefix(args[i], "-") {
				pk = append(pk, args[i])
			}
		}
		sort.Strings(pk)
		if args[0] != "test" || strings.Join(pk, " ") != strings.Join(pats, " ") {
			return fmt.Sprintf("the script runs go %v, want packages %v", args, pats)
		}
		if targeted {
			re, err := regexp.Compile(pattern)
			if err != nil || pattern == "" {
				return "bad test pattern " + pattern
			}
			for i := 0; i < 12; i++ {
				if n := fmt.Sprintf("Test%d", i); re.MatchString(n) != covers[f][n] {
					return fmt.Sprintf("%s covers %s: %v, and the pattern is %s", n, filepath.Base(f), covers[f][n], pattern)
				}
			}
		} else if pattern != "" {
			return "all tests were asked for and the script runs " + pattern
		}
	}
	return ""
}
