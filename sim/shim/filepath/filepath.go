// Package filepath is what instrumented code gets for "path/filepath".
package filepath

import (
	"io/fs"
	real "path/filepath"

	"vsim/shim/os"
	"vsim/vos"
)

func Abs(p string) (string, error) {
	if real.IsAbs(p) {
		return real.Clean(p), nil
	}
	return real.Join(vos.Cur().Cwd, p), nil
}

func EvalSymlinks(p string) (string, error) { return vos.EvalSymlinks(p) }

func Glob(pattern string) ([]string, error) {
	var r []string
	l, err := os.ReadDir(real.Dir(pattern))
	if err != nil {
		return nil, nil
	}
	for _, e := range l {
		n := real.Join(real.Dir(pattern), e.Name())
		if ok, err := real.Match(pattern, n); err != nil {
			return nil, err
		} else if ok {
			r = append(r, n)
		}
	}
	return r, nil
}

func WalkDir(root string, fn fs.WalkDirFunc) error { panic("vsim: filepath.WalkDir") }
func Walk(root string, fn real.WalkFunc) error     { panic("vsim: filepath.Walk") }
