package main

import (
	"context"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"time"

	"github.com/PatchLens/go-update-lens/lens"
	"github.com/PatchLens/go-update-lens/zzverif/vctx"
	"github.com/PatchLens/go-update-lens/zzverif/vsim"
)

func init() {
	register(&Scenario{Name: "copydir", Props: []string{"C09"}, Quick: 40000, Run: copyDirScenario})
	register(&Scenario{Name: "chmodwalk", Props: []string{"C09"}, Quick: 20000, Run: chmodScenario})
	components["C09"] = component{
		real:   []string{"CopyDir, CopyFile, WriteChmod and the concurrent walk (lens/file.go)"},
		stub:   []string{"errgroup, context, filepath walking and os: simulator-owned stand-ins over real files in a scratch directory"},
		assume: []string{"a failed write, sync or close may lose any part of what was written"},
	}
}

// genTree makes a random tree of regular files, directories and links.
func genTree(x *X, root string, readonly bool) (files int) {
	made := []string{}
	dots := ""
	if x.Pct(25) {
		dots = ".." // names that look like the parent directory
	}
	var mk func(dir string, depth int)
	mk = func(dir string, depth int) {
		n := 1 + x.N(4)
		for i := 0; i < n; i++ {
			pre := ""
			if dots != "" && x.Pct(40) {
				pre = dots
			}
			name := fmt.Sprintf("%sf%d.go", pre, i)
			switch k := x.N(8); {
			case k < 4 || depth >= 3:
				size := []int{10, 0, 1, 700, 40000}[x.N(5)]
				b := make([]byte, size)
				for j := range b {
					b[j] = byte('a' + (j*7+i+depth*3)%26)
				}
				must(os.WriteFile(filepath.Join(dir, name), b, 0o644))
				files++
				made = append(made, filepath.Join(dir, name))
				if readonly && x.Pct(70) {
					must(os.Chmod(filepath.Join(dir, name), []os.FileMode{0o444, 0o400, 0o644}[x.N(3)]))
				}
			case k < 6:
				sub := filepath.Join(dir, fmt.Sprintf("%sd%d", pre, i))
				must(os.Mkdir(sub, 0o755))
				made = append(made, sub)
				if x.Pct(80) {
					mk(sub, depth+1)
				}
				if readonly && x.Pct(70) {
					must(os.Chmod(sub, []os.FileMode{0o555, 0o700, 0o500, 0o755}[x.N(4)]))
				}
			case k < 7:
				must(os.Symlink("nowhere", filepath.Join(dir, fmt.Sprintf("l%d", i))))
			default:
				// links into the tree and out of it, to files, directories and nothing
				ext := filepath.Join(filepath.Dir(root), "ext")
				rel := func(p string) string {
					r, err := filepath.Rel(dir, p)
					must(err)
					return r
				}
				to := ""
				k := x.N(12)
				if len(made) == 0 {
					k %= 9
				}
				switch k {
				case 9, 10:
					to = made[x.N(len(made))]
				case 11:
					to = rel(made[x.N(len(made))])
				case 0:
					to = "."
				case 1:
					to = filepath.Join(root, "f0.go")
				case 2:
					to = rel(filepath.Join(root, "f0.go"))
				case 3:
					to = filepath.Join(ext, "file")
				case 4:
					to = rel(filepath.Join(ext, "file"))
				case 5:
					to = filepath.Join(ext, "dir")
				case 6:
					to = filepath.Join(ext, "back") // leads back into the tree
				case 7:
					to = filepath.Join(dir, fmt.Sprintf("l%d", i)) // itself
				case 8:
					to = rel(ext)
				}
				must(os.Symlink(to, filepath.Join(dir, fmt.Sprintf("l%d", i))))
			}
		}
	}
	must(os.MkdirAll(root, 0o755))
	ext := filepath.Join(filepath.Dir(root), "ext")
	must(os.MkdirAll(filepath.Join(ext, "dir"), 0o755))
	must(os.WriteFile(filepath.Join(ext, "file"), []byte("outside\n"), 0o644))
	must(os.Symlink(filepath.Join(root, "f0.go"), filepath.Join(ext, "back")))
	mk(root, 0)
	return
}

// fsFaults sets up disk faults for paths below one of dirs; the ops are those
// the scenario regards as able to fail.
func (x *X) fsFaults(rate, most int, filter func(op, path string) bool) {
	vsim.W.FSRate = rate
	vsim.W.FSMax = most
	vsim.W.FSFault = filter
}

func (x *X) noFaults() { vsim.W.FSRate = 0 }

// copyOf is what a copy of a tree has to be: links that stay inside are the
// same links, links that would lead from the copy back to the source lead to the
// same place in the copy, and links to files elsewhere are those files.
func copyOf(src, dst string, t tree) tree {
	out := tree{}
	in := func(p string) bool { return p == src || strings.HasPrefix(p, src+"/") }
	for k, v := range t {
		out[k] = v
		l, ok := strings.CutPrefix(v, "link:")
		if !ok {
			continue
		}
		p := filepath.Join(src, k)
		if !filepath.IsAbs(l) && in(filepath.Join(filepath.Dir(p), l)) {
			continue
		}
		r, err := filepath.EvalSymlinks(p)
		if err != nil {
			continue
		}
		if in(r) {
			out[k] = "link:" + dst + strings.TrimPrefix(r, src)
		} else if fi, err := os.Stat(r); err == nil && fi.Mode().IsRegular() {
			b, err := os.ReadFile(r)
			must(err)
			out[k] = "file:" + string(b)
		}
	}
	return out
}

func copyDirScenario(x *X) {
	src, dst := x.Path("src"), x.Path("dst")
	genTree(x, src, false)
	before := snap(src)
	rate := []int{0, 10, 40}[x.N(3)]
	cancelAt := -1
	if x.Pct(15) {
		cancelAt = x.N(60)
	}
	if rate > 0 {
		x.fsFaults(rate, 1+x.N(2), nil)
	}
	returned := false
	late := ""
	touched := ""
	vsim.W.FSHook = func(op, path string) {
		if returned && late == "" {
			late = op + " " + path
		}
		if path == src || strings.HasPrefix(path, src+"/") || strings.HasPrefix(path, x.Path("ext")+"/") {
			touched = op + " " + path
		}
		if cancelAt > 0 {
			cancelAt--
		}
	}
	ctx, cancel := vctx.WithCancel(context.Background())
	if cancelAt >= 0 {
		vsim.GoNamed("canceller", func() {
			for i := 0; i < 200 && cancelAt > 0; i++ {
				vsim.Y()
			}
			vsim.CountFault("cancel")
			cancel()
		})
	}
	x.Say("%d entries, fault rate %d/1000, cancel %v", len(before), rate, cancelAt >= 0)
	from := src
	if x.Pct(20) {
		from = x.Path("srclink")
		must(os.Symlink(src, from))
	}
	err := lens.CopyDir(ctx, from, dst, nil)
	returned = true
	cancelled := ctx.Err() != nil
	x.noFaults()
	state := snap(dst)
	if err == nil {
		d := copyOf(src, dst, before).diff(state)
		x.Check("C09", d == "", "incomplete", "copy reported success but the destination differs: %s (faults injected: %d)", d, vsim.FSFaults())
		if vsim.FSFaults() > 0 {
			vsim.Probe("copy.success_despite_fault")
		}
	} else {
		x.Check("C09", vsim.FSFaults() > 0 || cancelled, "error", "copy failed although nothing went wrong: %v", err)
		vsim.Probe("copy.failed")
	}
	settle(time.Minute)
	x.Check("C09", late == "", "late", "the copy still touched the disk after it had returned (%v): %s", err, late)
	x.Check("C09", touched == "", "source", "the source was modified: %s", touched)
	d := before.diff(snap(src))
	x.Check("C09", d == "", "source", "the source was modified: %s", d)
	cancel()
}

func chmodScenario(x *X) {
	root := x.Path("cache")
	genTree(x, root, true)
	before := snap(root)
	rate := []int{0, 10, 40}[x.N(3)]
	if rate > 0 {
		x.fsFaults(rate, 1+x.N(2), nil)
	}
	returned := false
	late := ""
	vsim.W.FSHook = func(op, path string) {
		if returned && late == "" {
			late = op + " " + path
		}
	}
	ctx, cancel := vctx.WithCancel(context.Background())
	if x.Pct(10) {
		vsim.GoNamed("canceller", func() {
			vsim.CountFault("cancel")
			cancel()
		})
	}
	x.Say("%d entries, fault rate %d/1000", len(before), rate)
	err := lens.WriteChmod(ctx, root)
	returned = true
	x.noFaults()
	bad := ""
	_ = filepath.Walk(root, func(p string, fi os.FileInfo, e error) error {
		if e != nil || fi.Mode()&os.ModeSymlink != 0 {
			return nil
		}
		if fi.Mode().Perm()&0o222 != 0o222 || (fi.IsDir() && fi.Mode().Perm()&0o111 != 0o111) {
			bad = fmt.Sprintf("%s has mode %v", p, fi.Mode())
		}
		return nil
	})
	if err == nil {
		x.Check("C09", bad == "", "incomplete", "the permission walk reported success but %s (faults injected: %d)", bad, vsim.FSFaults())
	} else {
		x.Check("C09", vsim.FSFaults() > 0 || ctx.Err() != nil, "error", "the permission walk failed although nothing went wrong: %v", err)
	}
	settle(time.Minute)
	x.Check("C09", late == "", "late", "the permission walk still touched the disk after it had returned (%v): %s", err, late)
	d := before.diff(snap(root))
	x.Check("C09", d == "", "source", "the permission walk changed content: %s", d)
	cancel()
}
