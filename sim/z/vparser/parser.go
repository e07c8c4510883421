// Package vparser stands in for go/parser where it reads files.
package vparser

import (
	"go/ast"
	"go/parser"
	"go/token"
	"io/fs"
	"path/filepath"
	"strings"

	"github.com/PatchLens/go-update-lens/zzverif/vos"
)

func ParseFile(fset *token.FileSet, filename string, src any, mode parser.Mode) (*ast.File, error) {
	if src == nil {
		b, err := vos.ReadFile(filename)
		if err != nil {
			return nil, err
		}
		src = b
	}
	return parser.ParseFile(fset, filename, src, mode)
}

func ParseDir(fset *token.FileSet, path string, filter func(fs.FileInfo) bool, mode parser.Mode) (map[string]*ast.Package, error) {
	list, err := vos.ReadDir(path)
	if err != nil {
		return nil, err
	}
	pkgs := make(map[string]*ast.Package)
	var first error
	for _, d := range list {
		if d.IsDir() || !strings.HasSuffix(d.Name(), ".go") {
			continue
		}
		if filter != nil {
			info, err := d.Info()
			if err != nil {
				return nil, err
			}
			if !filter(info) {
				continue
			}
		}
		name := filepath.Join(path, d.Name())
		if src, err := ParseFile(fset, name, nil, mode); err == nil {
			n := src.Name.Name
			pkg, ok := pkgs[n]
			if !ok {
				pkg = &ast.Package{Name: n, Files: map[string]*ast.File{}}
				pkgs[n] = pkg
			}
			pkg.Files[name] = src
		} else if first == nil {
			first = err
		}
	}
	return pkgs, first
}
