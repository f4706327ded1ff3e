// Package unix is what instrumented code gets for "golang.org/x/sys/unix".
package unix

import (
	"syscall"

	"vsim/vos"
)

func Mmap(fd int, off int64, n int, prot int, flags int) ([]byte, error) {
	return vos.Mmap(fd, off, n, prot, flags)
}
func Munmap(b []byte) error                              { return vos.Munmap(b) }
func Madvise(b []byte, a int) error                      { return nil }
func Mlock(b []byte) error                               { return nil }
func Fsync(fd int) error                                 { return vos.Fsync(fd) }
func Fdatasync(fd int) error                             { return vos.Fsync(fd) }
func Close(fd int) error                                 { return vos.CloseFD(fd) }
func Flock(fd int, how int) error                        { return nil }
func Exit(code int)                                      { vos.Cur().Exit(code) }
func Getpid() int                                        { return vos.Cur().Pid() }
func Rename(o, n string) error                           { return vos.Rename(o, n) }
func Unlink(n string) error                              { return vos.Remove(n) }
func Fallocate(fd int, m uint32, o int64, l int64) error { return syscall.EOPNOTSUPP }
