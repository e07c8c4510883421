// Package vfilepath stands in for the parts of path/filepath that read the disk.
package vfilepath

import (
	"io/fs"
	"os"
	"path/filepath"
	"strings"

	"github.com/PatchLens/go-update-lens/zzverif/vos"
	"github.com/PatchLens/go-update-lens/zzverif/vsim"
)

func readDirNames(dir string) ([]string, error) {
	es, err := vos.ReadDir(dir)
	if err != nil {
		return nil, err
	}
	var ns []string
	for _, e := range es {
		ns = append(ns, e.Name())
	}
	return ns, nil
}

func walk(path string, info fs.FileInfo, fn filepath.WalkFunc) error {
	if !info.IsDir() {
		return fn(path, info, nil)
	}
	names, err := readDirNames(path)
	err1 := fn(path, info, err)
	if err != nil || err1 != nil {
		return err1
	}
	for _, name := range names {
		p := filepath.Join(path, name)
		fi, err := vos.Lstat(p)
		if err != nil {
			if err := fn(p, fi, err); err != nil && err != filepath.SkipDir {
				return err
			}
			continue
		}
		if err := walk(p, fi, fn); err != nil {
			if !fi.IsDir() || err != filepath.SkipDir {
				return err
			}
		}
	}
	return nil
}

func Walk(root string, fn filepath.WalkFunc) error {
	info, err := vos.Lstat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walk(root, info, fn)
	}
	if err == filepath.SkipDir || err == filepath.SkipAll {
		return nil
	}
	return err
}

func walkDir(path string, d fs.DirEntry, fn fs.WalkDirFunc) error {
	if err := fn(path, d, nil); err != nil || !d.IsDir() {
		if err == filepath.SkipDir && d.IsDir() {
			err = nil
		}
		return err
	}
	es, err := vos.ReadDir(path)
	if err != nil {
		err = fn(path, d, err)
		if err != nil {
			if err == filepath.SkipDir && d.IsDir() {
				err = nil
			}
			return err
		}
	}
	for _, e := range es {
		if err := walkDir(filepath.Join(path, e.Name()), e, fn); err != nil {
			if err == filepath.SkipDir {
				break
			}
			return err
		}
	}
	return nil
}

func WalkDir(root string, fn fs.WalkDirFunc) error {
	info, err := vos.Lstat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walkDir(root, fs.FileInfoToDirEntry(info), fn)
	}
	if err == filepath.SkipDir || err == filepath.SkipAll {
		return nil
	}
	return err
}

// Glob ignores read errors, as the original does; only the last element of
// the pattern may hold metacharacters beyond what the original handles too.
func Glob(pattern string) ([]string, error) {
	if _, err := filepath.Match(pattern, ""); err != nil {
		return nil, err
	}
	if !strings.ContainsAny(pattern, `*?[\`) {
		if _, err := vos.Lstat(pattern); err != nil {
			return nil, nil
		}
		return []string{pattern}, nil
	}
	dir, file := filepath.Split(pattern)
	if dir != "" && dir != "/" {
		dir = strings.TrimSuffix(dir, "/")
	}
	var dirs []string
	if strings.ContainsAny(dir, `*?[\`) && dir != pattern {
		var err error
		if dirs, err = Glob(dir); err != nil {
			return nil, err
		}
	} else {
		dirs = []string{dir}
	}
	var out []string
	for _, d := range dirs {
		rd := d
		if rd == "" {
			rd = "."
		}
		if fi, err := vos.Stat(rd); err != nil || !fi.IsDir() {
			continue
		}
		es, err := vos.ReadDir(rd)
		if err != nil {
			continue
		}
		for _, e := range es {
			if ok, err := filepath.Match(file, e.Name()); err != nil {
				return out, err
			} else if ok {
				out = append(out, filepath.Join(d, e.Name()))
			}
		}
	}
	return out, nil
}

func EvalSymlinks(p string) (string, error) {
	vsim.Op("fs.stat")
	if _, err := vos.Lstat(p); err != nil {
		return "", err
	}
	return filepath.EvalSymlinks(p)
}

var _ = os.Stat
