// Package vimporter stands in for go/importer: the real one runs the go command
// to find export data. Standard packages are imported from a table made when
// the harness was built; anything else cannot be imported, as with the real
// default importer, which knows no modules.
package vimporter

import (
	"fmt"
	"go/importer"
	"go/token"
	"go/types"
	"io"
	"os"
	"path/filepath"
	"strings"
)

var (
	table map[string]string
	std   types.Importer
)

func load() {
	table = map[string]string{}
	exe, err := os.Executable()
	if err != nil {
		panic(err)
	}
	b, err := os.ReadFile(filepath.Join(filepath.Dir(exe), "std.txt"))
	if err != nil {
		panic(err)
	}
	for _, l := range strings.Split(string(b), "\n") {
		if p, f, ok := strings.Cut(l, " "); ok && f != "" {
			table[p] = f
		}
	}
	std = importer.ForCompiler(token.NewFileSet(), "gc", func(path string) (io.ReadCloser, error) {
		f, ok := table[path]
		if !ok {
			return nil, fmt.Errorf("can't find import: %q", path)
		}
		return os.Open(f)
	})
}

type imp struct{}

func (imp) Import(path string) (*types.Package, error) {
	if std == nil {
		load()
	}
	return std.Import(path)
}

func Default() types.Importer                                            { return imp{} }
func For(string, importer.Lookup) types.Importer                         { return imp{} }
func ForCompiler(*token.FileSet, string, importer.Lookup) types.Importer { return imp{} }
