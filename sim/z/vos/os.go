// Package vos stands in for os under the simulator. Files are real files below
// the run's scratch directory; nothing outside of it is ever changed. Every
// operation is a scheduling point and may be made to fail.
package vos

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/PatchLens/go-update-lens/zzverif/vsim"
)

var faultErrs = []error{syscall.EIO, syscall.ENOSPC, syscall.EACCES}

// fail decides whether op fails and with what.
func fail(op, path string) error {
	k := vsim.FSFaultNow(op, rel(path), len(faultErrs))
	if k == 0 {
		return nil
	}
	vsim.CountFault("disk_" + op + "_error")
	return &fs.PathError{Op: op, Path: path, Err: faultErrs[k-1]}
}

func rel(p string) string {
	if w := vsim.W; w != nil && w.Root() != "" {
		return strings.TrimPrefix(p, w.Root())
	}
	return p
}

// guard refuses to change anything outside of the scratch directory.
func guard(op, path string) error {
	w := vsim.W
	if w == nil {
		return nil
	}
	abs, err := filepath.Abs(path)
	if err != nil {
		return err
	}
	root := w.Root()
	if root == "" {
		vsim.Fail("internal", "file operation %s %s in a run without a scratch directory", op, path)
	}
	// resolve links in the parent so that nothing escapes through them
	dir := filepath.Dir(abs)
	for d := dir; ; d = filepath.Dir(d) {
		if r, err := filepath.EvalSymlinks(d); err == nil {
			dir = r + strings.TrimPrefix(dir, d)
			break
		}
		if d == filepath.Dir(d) {
			break
		}
	}
	abs = filepath.Join(dir, filepath.Base(abs))
	switch op {
	case "create", "chmod", "chtimes", "truncate": // these follow a final link
		if r, err := filepath.EvalSymlinks(abs); err == nil {
			abs = r
		} else if l, err := os.Readlink(abs); err == nil {
			if !filepath.IsAbs(l) {
				l = filepath.Join(dir, l)
			}
			abs = filepath.Clean(l)
		}
	}
	if abs != root && !strings.HasPrefix(abs, root+"/") {
		vsim.Fail("escape", "%s of %s, which is outside of the project, module cache and temporary directories", op, path)
	}
	return nil
}

func changed(op, path string) {
	if w := vsim.W; w != nil {
		vsim.Logf("%s %s", op, rel(path))
		switch op {
		case "write", "create", "truncate", "lose":
			w.MarkSync(path, true)
		case "remove", "symlink", "link":
			w.MarkSync(path, false)
		}
		if w.FSHook != nil {
			vsim.Atomic(func() { w.FSHook(op, path) })
		}
	}
}

func pt(op string) { vsim.Op("fs." + op) }

// ---- files ----

type File struct {
	f      *os.File
	name   string
	write  bool
	sink   io.Writer
	closed bool
	dirty  int64 // bytes written since open
	fd     uintptr
}

var (
	Stdin  = &File{f: os.Stdin, name: "/dev/stdin"}
	Stdout = &File{sink: io.Discard, name: "/dev/stdout", fd: 1}
	Stderr = &File{sink: io.Discard, name: "/dev/stderr", fd: 2}
)

func (f *File) Name() string { return f.name }
func (f *File) Fd() uintptr {
	if f.sink != nil {
		return f.fd
	}
	return f.f.Fd()
}

func (f *File) Read(b []byte) (int, error) {
	pt("read")
	if err := fail("read", f.name); err != nil {
		return 0, err
	}
	if len(b) > 64 && vsim.Chance("shortread", "short read of "+rel(f.name), 60) {
		vsim.CountFault("disk_short_read")
		b = b[:1+len(b)/3]
	}
	return f.f.Read(b)
}

func (f *File) ReadAt(b []byte, off int64) (int, error) {
	pt("read")
	if err := fail("read", f.name); err != nil {
		return 0, err
	}
	return f.f.ReadAt(b, off)
}

// Write may fail after a part of the data reached the file.
func (f *File) Write(b []byte) (int, error) {
	pt("write")
	if f.sink != nil {
		if k := vsim.FSFaultNow("write", f.name, 1); k != 0 {
			vsim.CountFault("sink_write_error")
			return 0, &fs.PathError{Op: "write", Path: f.name, Err: syscall.EPIPE}
		}
		return f.sink.Write(b)
	}
	if err := fail("write", f.name); err != nil {
		n := 0
		if len(b) > 0 {
			n = vsim.Choose("torn", len(b)+1)
			if n > 0 {
				vsim.CountFault("disk_torn_write")
				n, _ = f.f.Write(b[:n])
				changed("write", f.name)
			}
		}
		return n, err
	}
	// a large write is not one instant
	done := 0
	if len(b) > 1 && vsim.Chance("splitwrite", "write in two steps to "+rel(f.name), 300) {
		h := len(b) / 2
		n, err := f.f.Write(b[:h])
		done += n
		if err != nil {
			return done, err
		}
		changed("write", f.name)
		pt("write")
	}
	n, err := f.f.Write(b[done:])
	done += n
	f.dirty += int64(done)
	if n > 0 {
		changed("write", f.name)
	}
	return done, err
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *File) WriteAt(b []byte, off int64) (int, error) {
	pt("write")
	if err := fail("write", f.name); err != nil {
		return 0, err
	}
	n, err := f.f.WriteAt(b, off)
	f.dirty += int64(n)
	changed("write", f.name)
	return n, err
}

func (f *File) Seek(off int64, wh int) (int64, error) { return f.f.Seek(off, wh) }
func (f *File) Stat() (os.FileInfo, error) {
	pt("stat")
	if err := fail("stat", f.name); err != nil {
		return nil, err
	}
	return f.f.Stat()
}

// lose drops the tail of what was written: a failed sync or close means the
// data did not all reach the disk.
func (f *File) lose() {
	if f.write && f.dirty > 0 {
		if st, err := f.f.Stat(); err == nil && st.Size() > 0 {
			vsim.CountFault("disk_lost_write")
			_ = f.f.Truncate(int64(vsim.Choose("lost", int(st.Size()))))
			changed("lose", f.name)
		}
	}
}

func (f *File) Sync() error {
	pt("sync")
	if f.sink != nil {
		return nil
	}
	if err := fail("sync", f.name); err != nil {
		f.lose()
		return err
	}
	if vsim.W != nil {
		vsim.W.MarkSync(f.name, false)
	}
	return nil
}

func (f *File) Close() error {
	pt("close")
	if f.sink != nil {
		return nil
	}
	if f.closed {
		return &fs.PathError{Op: "close", Path: f.name, Err: fs.ErrClosed}
	}
	if f.write {
		if err := fail("close", f.name); err != nil {
			f.lose()
			f.closed = true
			_ = f.f.Close()
			return err
		}
	}
	f.closed = true
	return f.f.Close()
}

func (f *File) Truncate(n int64) error {
	pt("truncate")
	if err := fail("truncate", f.name); err != nil {
		return err
	}
	err := f.f.Truncate(n)
	changed("truncate", f.name)
	return err
}

func (f *File) Chmod(m os.FileMode) error {
	pt("chmod")
	if err := fail("chmod", f.name); err != nil {
		return err
	}
	err := f.f.Chmod(m)
	changed("chmod", f.name)
	return err
}

func (f *File) ReadDir(n int) ([]os.DirEntry, error) {
	pt("readdir")
	if err := fail("readdir", f.name); err != nil {
		return nil, err
	}
	es, err := f.f.ReadDir(n)
	sort.Slice(es, func(i, j int) bool { return es[i].Name() < es[j].Name() })
	vsim.Shuffle("dirorder", len(es), func(i, j int) { es[i], es[j] = es[j], es[i] })
	return wrapEntries(f.name, es), err
}

func (f *File) Readdir(n int) ([]os.FileInfo, error) {
	es, err := f.ReadDir(n)
	var out []os.FileInfo
	for _, e := range es {
		if i, ierr := e.Info(); ierr == nil {
			out = append(out, i)
		}
	}
	return out, err
}

func (f *File) Readdirnames(n int) ([]string, error) {
	es, err := f.ReadDir(n)
	var out []string
	for _, e := range es {
		out = append(out, e.Name())
	}
	return out, err
}

func (f *File) SetDeadline(time.Time) error      { return nil }
func (f *File) SetReadDeadline(time.Time) error  { return nil }
func (f *File) SetWriteDeadline(time.Time) error { return nil }

func (f *File) ReadFrom(r io.Reader) (int64, error) {
	return io.Copy(struct{ io.Writer }{f}, r)
}

// ---- opening ----

func Open(name string) (*File, error) { return OpenFile(name, os.O_RDONLY, 0) }
func Create(name string) (*File, error) {
	return OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o666)
}

func OpenFile(name string, flag int, perm os.FileMode) (*File, error) {
	pt("open")
	mut := flag&(os.O_WRONLY|os.O_RDWR|os.O_CREATE|os.O_TRUNC|os.O_APPEND) != 0
	op := "open"
	if mut {
		op = "create"
		if name == os.DevNull {
			return &File{sink: io.Discard, name: name, write: true}, nil
		}
		if err := guard(op, name); err != nil {
			return nil, err
		}
		if err := perms(name); err != nil {
			return nil, err
		}
	}
	if err := fail(op, name); err != nil {
		return nil, err
	}
	f, err := os.OpenFile(name, flag, perm)
	if err != nil {
		return nil, err
	}
	if flag&(os.O_CREATE|os.O_TRUNC) != 0 {
		changed("create", name)
	}
	return &File{f: f, name: name, write: flag&(os.O_WRONLY|os.O_RDWR) != 0}, nil
}

// perms applies the permission rules of an ordinary user when the run asks
// for it (the simulation itself may run as root).
func perms(name string) error {
	w := vsim.W
	if w == nil || w.Vals["modes"] == nil {
		return nil
	}
	if st, err := os.Stat(name); err == nil {
		if st.Mode().Perm()&0o200 == 0 {
			return &fs.PathError{Op: "open", Path: name, Err: syscall.EACCES}
		}
		return nil
	}
	return dirPerms("open", name)
}

// locked says whether something below dir cannot be removed.
func locked(dir string) error {
	if w := vsim.W; w == nil || w.Vals["modes"] == nil {
		return nil
	}
	return filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
		if err == nil && p != dir {
			err = dirPerms("unlinkat", p)
		}
		return err
	})
}

func dirPerms(op, name string) error {
	w := vsim.W
	if w == nil || w.Vals["modes"] == nil {
		return nil
	}
	if st, err := os.Stat(filepath.Dir(name)); err == nil && st.Mode().Perm()&0o200 == 0 {
		return &fs.PathError{Op: op, Path: name, Err: syscall.EACCES}
	}
	return nil
}

func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return io.ReadAll(f)
}

func WriteFile(name string, data []byte, perm os.FileMode) error {
	f, err := OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if err1 := f.Close(); err1 != nil && err == nil {
		err = err1
	}
	return err
}

func tempName(dir, pattern string) string {
	if dir == "" {
		dir = TempDir()
	}
	pre, suf := pattern, ""
	if i := strings.LastIndexByte(pattern, '*'); i >= 0 {
		pre, suf = pattern[:i], pattern[i+1:]
	}
	return filepath.Join(dir, fmt.Sprintf("%s%d%s", pre, 1000+vsim.W.NextFile(), suf))
}

func CreateTemp(dir, pattern string) (*File, error) {
	return OpenFile(tempName(dir, pattern), os.O_RDWR|os.O_CREATE|os.O_EXCL, 0o600)
}

func MkdirTemp(dir, pattern string) (string, error) {
	n := tempName(dir, pattern)
	return n, Mkdir(n, 0o700)
}

func TempDir() string {
	if vsim.W == nil {
		return os.TempDir()
	}
	return filepath.Join(vsim.W.Root(), "tmp")
}

func UserHomeDir() (string, error)  { return filepath.Join(vsim.W.Root(), "home"), nil }
func UserCacheDir() (string, error) { return filepath.Join(vsim.W.Root(), "home", ".cache"), nil }

// ---- directory operations ----

func mutate(op, name string, do func() error) error {
	pt(op)
	if err := guard(op, name); err != nil {
		return err
	}
	if err := dirPerms(op, name); err != nil {
		return err
	}
	if err := fail(op, name); err != nil {
		return err
	}
	if err := do(); err != nil {
		return err
	}
	changed(op, name)
	return nil
}

func Mkdir(name string, perm os.FileMode) error {
	return mutate("mkdir", name, func() error { return os.Mkdir(name, perm) })
}

func MkdirAll(name string, perm os.FileMode) error {
	if st, err := os.Stat(name); err == nil && st.IsDir() {
		pt("mkdir")
		return nil
	}
	return mutate("mkdir", name, func() error { return os.MkdirAll(name, perm) })
}

func Remove(name string) error {
	return mutate("remove", name, func() error { return os.Remove(name) })
}

// RemoveAll removes piece by piece, so that a failure leaves a part behind.
func RemoveAll(name string) error {
	pt("removeall")
	if err := guard("removeall", name); err != nil {
		return err
	}
	st, err := os.Lstat(name)
	if err != nil {
		if errors.Is(err, fs.ErrNotExist) {
			return nil
		}
		return err
	}
	if err := fail("removeall", name); err != nil {
		return err
	}
	if st.IsDir() {
		es, err := os.ReadDir(name)
		if err != nil {
			return err
		}
		for _, e := range es {
			p := filepath.Join(name, e.Name())
			vsim.Y()
			if err := dirPerms("unlinkat", p); err != nil {
				return err
			}
			if e.IsDir() {
				if err := locked(p); err != nil {
					return err
				}
				if err := os.RemoveAll(p); err != nil {
					return err
				}
			} else if err := os.Remove(p); err != nil && !errors.Is(err, fs.ErrNotExist) {
				return err
			}
			changed("remove", p)
		}
	}
	if err := os.RemoveAll(name); err != nil {
		return err
	}
	changed("remove", name)
	return nil
}

func Rename(from, to string) error {
	pt("rename")
	if err := guard("rename", from); err != nil {
		return err
	}
	if err := guard("rename", to); err != nil {
		return err
	}
	if err := dirPerms("rename", to); err != nil {
		return err
	}
	if err := fail("rename", to); err != nil {
		return &os.LinkError{Op: "rename", Old: from, New: to, Err: errors.Unwrap(err)}
	}
	if err := os.Rename(from, to); err != nil {
		return err
	}
	vsim.Logf("rename from %s", rel(from))
	if w := vsim.W; w != nil {
		w.MarkSync(to, w.Unsynced(from))
		w.MarkSync(from, false)
	}
	changed("rename", to)
	return nil
}

func Symlink(old, new string) error {
	return mutate("symlink", new, func() error { return os.Symlink(old, new) })
}

func Link(old, new string) error {
	return mutate("link", new, func() error { return os.Link(old, new) })
}

func Readlink(name string) (string, error) {
	pt("readlink")
	if err := fail("readlink", name); err != nil {
		return "", err
	}
	return os.Readlink(name)
}

func Chmod(name string, m os.FileMode) error {
	return mutate1("chmod", name, func() error { return os.Chmod(name, m) })
}

func mutate1(op, name string, do func() error) error {
	pt(op)
	if err := guard(op, name); err != nil {
		return err
	}
	if err := fail(op, name); err != nil {
		return err
	}
	if err := do(); err != nil {
		return err
	}
	changed(op, name)
	return nil
}

func Chtimes(name string, a, m time.Time) error {
	return mutate1("chtimes", name, func() error { return os.Chtimes(name, a, m) })
}

func Truncate(name string, n int64) error {
	return mutate1("truncate", name, func() error { return os.Truncate(name, n) })
}

func Stat(name string) (os.FileInfo, error) {
	pt("stat")
	if err := fail("stat", name); err != nil {
		return nil, err
	}
	return os.Stat(name)
}

func Lstat(name string) (os.FileInfo, error) {
	pt("stat")
	if err := fail("stat", name); err != nil {
		return nil, err
	}
	return os.Lstat(name)
}

type entry struct {
	os.DirEntry
	path string
}

// Info reads the file's state when asked, as the original does.
func (e entry) Info() (os.FileInfo, error) {
	pt("stat")
	if err := fail("stat", e.path); err != nil {
		return nil, err
	}
	return os.Lstat(e.path)
}

func wrapEntries(dir string, es []os.DirEntry) []os.DirEntry {
	for i, e := range es {
		es[i] = entry{e, filepath.Join(dir, e.Name())}
	}
	return es
}

func ReadDir(name string) ([]os.DirEntry, error) {
	pt("readdir")
	if err := fail("readdir", name); err != nil {
		return nil, err
	}
	es, err := os.ReadDir(name)
	return wrapEntries(name, es), err
}

// ---- environment ----

func env() []string {
	p := vsim.CurProc()
	if p == nil || p.Env == nil {
		e := []string{"PATH=/usr/bin:/bin", "LANG=C", "LD_PRELOAD=x.so", "LD_LIBRARY_PATH=/x", "LD_AUDIT=y.so", "LD_DEBUG=all", "LD_BIND_NOW=1", "LD_ORIGIN_PATH=/x"}
		if w := vsim.W; w != nil {
			e = append(e, "HOME="+filepath.Join(w.Root(), "home"))
			if x, ok := w.Vals["env"].([]string); ok {
				e = append(e, x...)
			}
		}
		return e
	}
	return p.Env
}

func Environ() []string { return append([]string(nil), env()...) }

func LookupEnv(k string) (string, bool) {
	v, ok := "", false
	for _, kv := range env() {
		if strings.HasPrefix(kv, k+"=") { // the last one wins, as in exec
			v, ok = kv[len(k)+1:], true
		}
	}
	return v, ok
}

func Getenv(k string) string { v, _ := LookupEnv(k); return v }

func Getpid() int {
	if p := vsim.CurProc(); p != nil {
		return 4000 + p.ID
	}
	return 4000
}

func Exit(code int) {
	vsim.Fail("exit", "os.Exit(%d) called", code)
}
