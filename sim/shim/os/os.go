// Package os is what instrumented code gets for "os".
package os

import (
	"errors"
	"io"
	"io/fs"
	real "os"
	"path"
	"sort"
	"strconv"
	"strings"
	"syscall"

	"vsim/rt"
	"vsim/vos"
)

type File = vos.File

var (
	Args   []string
	Stdin  = vos.Stdin
	Stdout = vos.Stdout
	Stderr = vos.Stderr
)

func init() {
	vos.OnEnter = append(vos.OnEnter, func(p *vos.Proc) { Args = p.Args })
	rt.RegGlobal("vsim/shim/os", &Stdin)
	rt.RegGlobal("vsim/shim/os", &Stdout)
	rt.RegGlobal("vsim/shim/os", &Stderr)
	rt.RegInit("vsim/shim/os", func() { Stdin, Stdout, Stderr = vos.Stdin, vos.Stdout, vos.Stderr })
}

func Exit(code int) { vos.Cur().Exit(code) }
func OpenFile(name string, flag int, perm FileMode) (*File, error) {
	return vos.OpenFile(name, flag, perm)
}
func Open(name string) (*File, error) { return vos.OpenFile(name, syscall.O_RDONLY, 0) }
func Create(name string) (*File, error) {
	return vos.OpenFile(name, syscall.O_RDWR|syscall.O_CREAT|syscall.O_TRUNC, 0666)
}
func NewFile(fd uintptr, name string) *File {
	switch fd {
	case 0:
		return vos.Stdin
	case 1:
		return vos.Stdout
	case 2:
		return vos.Stderr
	}
	return nil
}
func Stat(name string) (fs.FileInfo, error)     { return vos.Stat(name) }
func Lstat(name string) (fs.FileInfo, error)    { return vos.Lstat(name) }
func SameFile(a, b fs.FileInfo) bool            { return vos.SameFile(a, b) }
func Remove(name string) error                  { return vos.Remove(name) }
func RemoveAll(name string) error               { return vos.RemoveAll(name) }
func Rename(o, n string) error                  { return vos.Rename(o, n) }
func Mkdir(name string, perm FileMode) error    { return vos.Mkdir(name, perm) }
func MkdirAll(name string, perm FileMode) error { return vos.MkdirAll(name, perm) }
func Symlink(o, n string) error                 { return vos.Symlink(o, n) }
func Link(o, n string) error                    { return vos.Link(o, n) }
func Readlink(n string) (string, error)         { return vos.Readlink(n) }
func Chmod(n string, m FileMode) error          { return vos.Chmod(n, m) }
func Chown(n string, u, g int) error            { return nil }
func Lchown(n string, u, g int) error           { return nil }
func Chdir(d string) error                      { return vos.Chdir(d) }
func Getwd() (string, error)                    { return vos.Cur().Cwd, nil }
func TempDir() string                           { return "/tmp" }
func UserHomeDir() (string, error)              { return "/w", nil }
func Executable() (string, error)               { return vos.Cur().Args[0], nil }
func Getpid() int                               { return vos.Cur().Pid() }
func Hostname() (string, error)                 { return "sim", nil }
func Pipe() (*File, *File, error)               { return nil, nil, errors.New("vsim: no pipes") }
func Getenv(k string) string                    { return vos.Cur().Env[k] }
func LookupEnv(k string) (string, bool)         { v, ok := vos.Cur().Env[k]; return v, ok }
func Setenv(k, v string) error                  { vos.Cur().Env[k] = v; return nil }
func Unsetenv(k string) error                   { delete(vos.Cur().Env, k); return nil }
func ExpandEnv(s string) string                 { return real.Expand(s, Getenv) }
func Environ() []string {
	var r []string
	for k, v := range vos.Cur().Env {
		r = append(r, k+"="+v)
	}
	sort.Strings(r)
	return r
}

func Truncate(name string, size int64) error {
	f, err := vos.OpenFile(name, syscall.O_WRONLY, 0)
	if err != nil {
		return err
	}
	err = f.Truncate(size)
	if e := f.Close(); err == nil {
		err = e
	}
	return err
}

func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	b, err := io.ReadAll(f)
	if b == nil {
		b = []byte{}
	}
	return b, err
}

func WriteFile(name string, data []byte, perm FileMode) error {
	f, err := OpenFile(name, syscall.O_WRONLY|syscall.O_CREAT|syscall.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if e := f.Close(); e != nil && err == nil {
		err = e
	}
	return err
}

func ReadDir(name string) ([]fs.DirEntry, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return f.ReadDir(-1)
}

func CreateTemp(dir, pattern string) (*File, error) {
	if dir == "" {
		dir = TempDir()
	}
	pre, suf := pattern, ""
	if i := strings.LastIndexByte(pattern, '*'); i >= 0 {
		pre, suf = pattern[:i], pattern[i+1:]
	}
	for try := 0; ; try++ {
		n := path.Join(dir, pre+strconv.Itoa(int(rt.Random()>>33))+suf)
		f, err := OpenFile(n, syscall.O_RDWR|syscall.O_CREAT|syscall.O_EXCL, 0600)
		if err != nil && errors.Is(err, fs.ErrExist) && try < 10000 {
			continue
		}
		return f, err
	}
}

func MkdirTemp(dir, pattern string) (string, error) {
	if dir == "" {
		dir = TempDir()
	}
	n := path.Join(dir, strings.Replace(pattern, "*", "", -1)+strconv.Itoa(int(rt.Random()>>33)))
	return n, Mkdir(n, 0700)
}
