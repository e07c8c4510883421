// Package vembed stands in for embed: files are read from the repository.
package vembed

import (
	"embed"
	"io/fs"
	"os"
	"path/filepath"
)

type FS struct{ _ embed.FS }

func (f FS) ReadFile(name string) ([]byte, error) { return os.ReadFile(filepath.Join(lensDir, name)) }
func (f FS) Open(name string) (fs.File, error)    { return os.Open(filepath.Join(lensDir, name)) }
func (f FS) ReadDir(name string) ([]fs.DirEntry, error) {
	return os.ReadDir(filepath.Join(lensDir, name))
}
