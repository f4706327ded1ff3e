// Package ioutil is what instrumented code gets for "io/ioutil".
package ioutil

import (
	"io/fs"

	"vsim/shim/os"
)

func ReadFile(n string) ([]byte, error)                 { return os.ReadFile(n) }
func WriteFile(n string, d []byte, p fs.FileMode) error { return os.WriteFile(n, d, p) }
func TempFile(dir, pattern string) (*os.File, error)    { return os.CreateTemp(dir, pattern) }
func TempDir(dir, pattern string) (string, error)       { return os.MkdirTemp(dir, pattern) }
func ReadDir(n string) ([]fs.FileInfo, error) {
	l, err := os.ReadDir(n)
	var r []fs.FileInfo
	for _, e := range l {
		i, _ := e.Info()
		r = append(r, i)
	}
	return r, err
}
