package vos

import (
	"errors"
	"io"
	"io/fs"
	"os"
	"path"
	"sort"
	"syscall"
	"time"

	"vsim/rt"
)

type openFile struct {
	ino   *Inode
	path  string
	pos   int64
	flags int
	chunk chunker
	std   int // 0 none, 1 stdin, 2 stdout, 3 stderr
	rdpos int
}

// File is the simulated *os.File.
type File struct {
	p    *Proc // nil: a standard stream of whatever process runs
	fd   int
	name string
	dead bool
}

var (
	Stdin  = &File{fd: 0, name: "/dev/stdin"}
	Stdout = &File{fd: 1, name: "/dev/stdout"}
	Stderr = &File{fd: 2, name: "/dev/stderr"}
)

const (
	oAccess = syscall.O_RDONLY | syscall.O_WRONLY | syscall.O_RDWR
)

func (f *File) proc() *Proc {
	if f.p == nil {
		return Cur()
	}
	return f.p
}

func (f *File) get(op string) (*Proc, *openFile, error) {
	if f == nil {
		return nil, nil, fs.ErrInvalid
	}
	p := f.proc()
	if f.dead {
		return p, nil, pathErr(op, f.name, fs.ErrClosed)
	}
	if f.p == nil {
		return p, &openFile{std: f.fd + 1, path: f.name}, nil
	}
	of := p.fd(f.fd)
	if of == nil {
		return p, nil, pathErr(op, f.name, syscall.EBADF)
	}
	return p, of, nil
}

var errGone = errors.New("vsim: process is gone")

// OpenFile opens a file of the running process.
func OpenFile(name string, flag int, perm fs.FileMode) (*File, error) {
	p := Cur()
	full := p.abs(name)
	a, ok := p.opOn("open", full, flag&oAccess != syscall.O_RDONLY)
	if !ok {
		return nil, pathErr("open", name, errGone)
	}
	if a.err != nil {
		return nil, pathErr("open", name, a.err)
	}
	if full == "" {
		return nil, pathErr("open", name, syscall.ENOENT)
	}
	m := p.M
	m.mu.Lock()
	switch full {
	case "/dev/stdout", "/dev/stderr", "/dev/stdin":
		std := map[string]int{"/dev/stdin": 1, "/dev/stdout": 2, "/dev/stderr": 3}[full]
		fd := p.newFD(&openFile{std: std, path: full, flags: flag})
		m.mu.Unlock()
		return &File{p: p, fd: fd, name: name}, nil
	}
	real, ino := m.Disk.resolve(full)
	var err error
	created := false
	switch {
	case ino == nil && flag&syscall.O_CREAT == 0:
		err = syscall.ENOENT
	case ino == nil:
		par := m.Disk.names[path.Dir(real)]
		if par == nil {
			err = syscall.ENOENT
		} else if !par.Dir {
			err = syscall.ENOTDIR
		} else if m.Disk.Capacity > 0 && m.Disk.used() >= m.Disk.Capacity+4096 {
			err = syscall.ENOSPC
		} else {
			ino = m.Disk.newInode(false)
			ino.Mode = perm & 0777
			ino.Mtime = m.Clock
			m.Disk.link(real, ino)
			created = true
		}
	case flag&syscall.O_CREAT != 0 && flag&syscall.O_EXCL != 0:
		err = syscall.EEXIST
	case ino.Dir && flag&oAccess != syscall.O_RDONLY:
		err = syscall.EISDIR
	case flag&oAccess != syscall.O_RDONLY && ino.Mode&0222 == 0 || flag&oAccess != syscall.O_WRONLY && ino.Mode&0444 == 0 && !ino.Dir:
		err = syscall.EACCES
	}
	if err != nil {
		m.mu.Unlock()
		return nil, pathErr("open", name, err)
	}
	if flag&syscall.O_TRUNC != 0 && !created && !ino.Dir {
		m.Disk.truncate(ino, 0)
	}
	p.GotEOF[full] = false
	fd := p.newFD(&openFile{ino: ino, path: full, flags: flag, chunk: chunker{c: p.chunksOf(full)}})
	m.mu.Unlock()
	if a.after != nil {
		a.after()
	}
	return &File{p: p, fd: fd, name: name}, nil
}

func (f *File) Name() string {
	return f.name
}

func (f *File) Fd() uintptr {
	if f == nil || f.dead {
		return ^uintptr(0)
	}
	return uintptr(f.fd)
}

func (f *File) Read(b []byte) (int, error) {
	p, of, err := f.get("read")
	if err != nil {
		return 0, err
	}
	if len(b) == 0 {
		return 0, nil
	}
	a, ok := p.op("read", of.path)
	if !ok {
		return 0, pathErr("read", f.name, errGone)
	}
	if a.err != nil {
		return 0, pathErr("read", f.name, a.err)
	}
	m := p.M
	come := len(p.Stdin)
	if of.std == 1 && p.Gate != nil && len(b) > 0 {
		rt.Block("waiting for input", func() bool {
			come = p.Gate(p.inPos)
			return come > p.inPos
		})
		come = min(come, len(p.Stdin))
	}
	m.mu.Lock()
	defer m.mu.Unlock()
	var n int
	switch {
	case of.std == 1:
		if p.inPos >= len(p.Stdin) {
			p.GotEOF[of.path] = true
			return 0, io.EOF
		}
		if p.inChunk.c.Kind == "" {
			p.inChunk.c = p.chunksOf("/dev/stdin")
		}
		want := min(len(b), come-p.inPos)
		n = copy(b[:p.inChunk.next(want)], p.Stdin[p.inPos:])
		p.inPos += n
	case of.std != 0:
		return 0, pathErr("read", f.name, syscall.EBADF)
	case of.ino.Dir:
		return 0, pathErr("read", f.name, syscall.EISDIR)
	case of.flags&oAccess == syscall.O_WRONLY:
		return 0, pathErr("read", f.name, syscall.EBADF)
	default:
		if of.pos >= int64(len(of.ino.Data)) {
			p.GotEOF[of.path] = true
			return 0, io.EOF
		}
		want := min(len(b), len(of.ino.Data)-int(of.pos))
		n = copy(b[:of.chunk.next(want)], of.ino.Data[of.pos:])
		of.pos += int64(n)
	}
	p.Got[of.path] += n
	return n, nil
}

func (f *File) ReadAt(b []byte, off int64) (int, error) {
	p, of, err := f.get("read")
	if err != nil {
		return 0, err
	}
	a, ok := p.op("read", of.path)
	if !ok || a.err != nil || of.ino == nil || of.ino.Dir {
		if a.err == nil {
			a.err = syscall.EINVAL
		}
		return 0, pathErr("read", f.name, a.err)
	}
	p.M.mu.Lock()
	defer p.M.mu.Unlock()
	if off < 0 {
		return 0, pathErr("readat", f.name, errors.New("negative offset"))
	}
	if off >= int64(len(of.ino.Data)) {
		return 0, io.EOF
	}
	n := copy(b, of.ino.Data[off:])
	if n < len(b) {
		return n, io.EOF
	}
	return n, nil
}

func (f *File) Write(b []byte) (int, error) {
	p, of, err := f.get("write")
	if err != nil {
		return 0, err
	}
	return f.write(p, of, b, -1)
}

func (f *File) write(p *Proc, of *openFile, b []byte, at int64) (int, error) {
	kind := "write"
	if of.std == 3 {
		kind = "stderr"
	}
	a, ok := p.opOn(kind, of.path, true)
	if !ok {
		return 0, pathErr("write", f.name, errGone)
	}
	m := p.M
	m.mu.Lock()
	n := len(b)
	if a.err != nil {
		n = min(n, max(0, a.partial))
	}
	err := a.err
	switch {
	case of.std == 2:
		p.Stdout = append(p.Stdout, b[:n]...)
		p.OutMarks = append(p.OutMarks, len(p.Stdout))
	case of.std == 3:
		p.Stderr = append(p.Stderr, b[:n]...)
	case of.std == 1 || of.flags&oAccess == syscall.O_RDONLY:
		n, err = 0, syscall.EBADF
	default:
		off := of.pos
		if at >= 0 {
			off = at
		}
		if of.flags&syscall.O_APPEND != 0 {
			off = int64(len(of.ino.Data))
		}
		if c := m.Disk.Capacity; c > 0 {
			grow := off + int64(n) - int64(len(of.ino.Data))
			if free := c - m.Disk.used(); grow > 0 && grow > free {
				n -= int(min(grow-max(free, 0), int64(n)))
				err = syscall.ENOSPC
				m.Fired["write/full disk"]++
			}
		}
		if n > 0 {
			m.Disk.writeAt(of.ino, off, b[:n])
			of.ino.Mtime = m.Clock
		}
		if at < 0 {
			of.pos = off + int64(n)
		}
	}
	m.mu.Unlock()
	if a.after != nil {
		a.after()
	}
	if err == syscall.EPIPE && of.std == 2 {
		p.Kill() // SIGPIPE
		p.Code = 141
		rt.Exit()
	}
	if err != nil {
		return n, pathErr("write", f.name, err)
	}
	return n, nil
}

func (f *File) WriteAt(b []byte, off int64) (int, error) {
	p, of, err := f.get("write")
	if err != nil {
		return 0, err
	}
	if of.std != 0 {
		return 0, pathErr("write", f.name, syscall.ESPIPE)
	}
	return f.write(p, of, b, off)
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *File) Seek(offset int64, whence int) (int64, error) {
	p, of, err := f.get("seek")
	if err != nil {
		return 0, err
	}
	a, ok := p.opOn("seek", of.path, of.writable())
	if !ok {
		return 0, pathErr("seek", f.name, errGone)
	}
	if a.err == nil && of.std != 0 {
		a.err = syscall.ESPIPE
	}
	if a.err != nil {
		return 0, pathErr("seek", f.name, a.err)
	}
	p.M.mu.Lock()
	defer p.M.mu.Unlock()
	n := offset
	switch whence {
	case io.SeekCurrent:
		n += of.pos
	case io.SeekEnd:
		n += int64(len(of.ino.Data))
	}
	if n < 0 {
		return 0, pathErr("seek", f.name, syscall.EINVAL)
	}
	of.pos = n
	return n, nil
}

func (f *File) Sync() error {
	p, of, err := f.get("sync")
	if err != nil {
		return err
	}
	a, ok := p.opOn("sync", of.path, of.writable())
	if !ok {
		return pathErr("sync", f.name, errGone)
	}
	if a.err == nil && of.std != 0 {
		a.err = syscall.EINVAL
	}
	if a.err != nil {
		return pathErr("sync", f.name, a.err)
	}
	p.M.mu.Lock()
	if of.ino.Dir {
		p.M.Disk.commitDirs(len(p.M.Disk.journal))
	} else {
		p.M.Disk.syncInode(of.ino)
	}
	p.M.mu.Unlock()
	if a.after != nil {
		a.after()
	}
	return nil
}

func (f *File) Close() error {
	p, of, err := f.get("close")
	if err != nil {
		return err
	}
	a, ok := p.opOn("close", of.path, of.writable())
	if !ok {
		return pathErr("close", f.name, errGone)
	}
	if f.p != nil {
		p.M.mu.Lock()
		p.fds[f.fd-3] = nil
		p.M.mu.Unlock()
		f.dead = true
	}
	if a.after != nil {
		a.after()
	}
	if a.err != nil {
		return pathErr("close", f.name, a.err)
	}
	return nil
}

func (f *File) Truncate(size int64) error {
	p, of, err := f.get("truncate")
	if err != nil {
		return err
	}
	a, ok := p.opOn("truncate", of.path, of.writable())
	if !ok {
		return pathErr("truncate", f.name, errGone)
	}
	if a.err == nil && (of.std != 0 || of.flags&oAccess == syscall.O_RDONLY || size < 0) {
		a.err = syscall.EINVAL
	}
	if a.err != nil {
		return pathErr("truncate", f.name, a.err)
	}
	p.M.mu.Lock()
	p.M.Disk.truncate(of.ino, size)
	p.M.mu.Unlock()
	if a.after != nil {
		a.after()
	}
	return nil
}

type fileInfo struct {
	name  string
	size  int64
	mode  fs.FileMode
	mtime int64
	ino   *Inode
}

func (i *fileInfo) Name() string       { return i.name }
func (i *fileInfo) Size() int64        { return i.size }
func (i *fileInfo) Mode() fs.FileMode  { return i.mode }
func (i *fileInfo) ModTime() time.Time { return time.Unix(0, i.mtime) }
func (i *fileInfo) IsDir() bool        { return i.mode.IsDir() }
func (i *fileInfo) Sys() interface{}   { return nil }

func info(name string, ino *Inode) *fileInfo {
	return &fileInfo{path.Base(name), int64(len(ino.Data)), ino.Mode, ino.Mtime, ino}
}

// SameFile is os.SameFile.
func SameFile(a, b fs.FileInfo) bool {
	x, ok1 := a.(*fileInfo)
	y, ok2 := b.(*fileInfo)
	return ok1 && ok2 && x.ino == y.ino && x.ino != nil
}

func (f *File) Stat() (fs.FileInfo, error) {
	p, of, err := f.get("stat")
	if err != nil {
		return nil, err
	}
	a, ok := p.op("stat", of.path)
	if !ok {
		return nil, pathErr("stat", f.name, errGone)
	}
	if a.err != nil {
		return nil, pathErr("stat", f.name, a.err)
	}
	p.M.mu.Lock()
	defer p.M.mu.Unlock()
	if of.std != 0 {
		return &fileInfo{name: f.name, mode: fs.ModeNamedPipe | 0600}, nil
	}
	return info(f.name, of.ino), nil
}

func stat(name string, follow bool) (fs.FileInfo, error) {
	p := Cur()
	full := p.abs(name)
	op := "stat"
	if !follow {
		op = "lstat"
	}
	a, ok := p.op("stat", full)
	if !ok {
		return nil, pathErr(op, name, errGone)
	}
	if a.err != nil {
		return nil, pathErr(op, name, a.err)
	}
	p.M.mu.Lock()
	defer p.M.mu.Unlock()
	switch full {
	case "/dev/stdin", "/dev/stdout", "/dev/stderr":
		return &fileInfo{name: path.Base(full), mode: fs.ModeNamedPipe | 0600}, nil
	}
	ino := p.M.Disk.names[full]
	if follow {
		_, ino = p.M.Disk.resolve(full)
	}
	if ino == nil {
		return nil, pathErr(op, name, syscall.ENOENT)
	}
	return info(full, ino), nil
}

func Stat(name string) (fs.FileInfo, error)  { return stat(name, true) }
func Lstat(name string) (fs.FileInfo, error) { return stat(name, false) }

func Remove(name string) error {
	p := Cur()
	full := p.abs(name)
	a, ok := p.op("remove", full)
	if !ok {
		return pathErr("remove", name, errGone)
	}
	if a.err != nil {
		return pathErr("remove", name, a.err)
	}
	p.M.mu.Lock()
	ino := p.M.Disk.names[full]
	var err error
	if ino == nil {
		err = pathErr("remove", name, syscall.ENOENT)
	} else if ino.Dir && len(p.M.Disk.children(full)) > 0 {
		err = pathErr("remove", name, syscall.ENOTEMPTY)
	} else {
		p.M.Disk.unlink(full)
	}
	p.M.mu.Unlock()
	if a.after != nil {
		a.after()
	}
	return err
}

func (d *Disk) children(dir string) []string {
	var r []string
	for p := range d.names {
		if p != "/" && path.Dir(p) == dir {
			r = append(r, p)
		}
	}
	sort.Strings(r)
	return r
}

func RemoveAll(name string) error {
	p := Cur()
	full := p.abs(name)
	p.M.mu.Lock()
	var l []string
	if p.M.Disk.names[full] != nil {
		l = append(l, p.M.Disk.children(full)...)
	}
	_, exists := p.M.Disk.names[full]
	p.M.mu.Unlock()
	for _, c := range l {
		if err := RemoveAll(c); err != nil {
			return err
		}
	}
	if !exists {
		return nil
	}
	return Remove(full)
}

func Rename(o, n string) error {
	p := Cur()
	fo, fn := p.abs(o), p.abs(n)
	a, ok := p.op("rename", fn)
	if !ok {
		return &os.LinkError{Op: "rename", Old: o, New: n, Err: errGone}
	}
	if a.err != nil {
		return &os.LinkError{Op: "rename", Old: o, New: n, Err: a.err}
	}
	p.M.mu.Lock()
	d := p.M.Disk
	var err error
	ino := d.names[fo]
	switch {
	case ino == nil || d.names[path.Dir(fn)] == nil:
		err = &os.LinkError{Op: "rename", Old: o, New: n, Err: syscall.ENOENT}
	case d.names[fn] != nil && d.names[fn].Dir && !ino.Dir:
		err = &os.LinkError{Op: "rename", Old: o, New: n, Err: syscall.EISDIR}
	case d.names[fn] == ino:
	default:
		d.rename(fo, fn)
	}
	p.M.mu.Unlock()
	if a.after != nil {
		a.after()
	}
	return err
}

func Mkdir(name string, perm fs.FileMode) error {
	p := Cur()
	full := p.abs(name)
	a, ok := p.op("mkdir", full)
	if !ok || a.err != nil {
		return pathErr("mkdir", name, syscall.EIO)
	}
	p.M.mu.Lock()
	defer p.M.mu.Unlock()
	if p.M.Disk.names[full] != nil {
		return pathErr("mkdir", name, syscall.EEXIST)
	}
	if p.M.Disk.names[path.Dir(full)] == nil {
		return pathErr("mkdir", name, syscall.ENOENT)
	}
	p.M.Disk.link(full, p.M.Disk.newInode(true))
	return nil
}

func MkdirAll(name string, perm fs.FileMode) error {
	p := Cur()
	full := p.abs(name)
	p.M.mu.Lock()
	n := p.M.Disk.names[full]
	p.M.mu.Unlock()
	if n != nil {
		if !n.Dir {
			return pathErr("mkdir", name, syscall.ENOTDIR)
		}
		return nil
	}
	if err := MkdirAll(path.Dir(full), perm); err != nil {
		return err
	}
	return Mkdir(full, perm)
}

func Symlink(o, n string) error {
	p := Cur()
	full := p.abs(n)
	if a, ok := p.op("symlink", full); !ok || a.err != nil {
		return &os.LinkError{Op: "symlink", Old: o, New: n, Err: syscall.EIO}
	}
	p.M.mu.Lock()
	defer p.M.mu.Unlock()
	if p.M.Disk.names[full] != nil {
		return &os.LinkError{Op: "symlink", Old: o, New: n, Err: syscall.EEXIST}
	}
	ino := p.M.Disk.newInode(false)
	ino.Link = o
	ino.Mode = fs.ModeSymlink | 0777
	p.M.Disk.link(full, ino)
	return nil
}

func Link(o, n string) error {
	p := Cur()
	fo, fn := p.abs(o), p.abs(n)
	if a, ok := p.op("link", fn); !ok || a.err != nil {
		return &os.LinkError{Op: "link", Old: o, New: n, Err: syscall.EIO}
	}
	p.M.mu.Lock()
	defer p.M.mu.Unlock()
	ino := p.M.Disk.names[fo]
	if ino == nil {
		return &os.LinkError{Op: "link", Old: o, New: n, Err: syscall.ENOENT}
	}
	if p.M.Disk.names[fn] != nil {
		return &os.LinkError{Op: "link", Old: o, New: n, Err: syscall.EEXIST}
	}
	p.M.Disk.link(fn, ino)
	return nil
}

func Readlink(name string) (string, error) {
	p := Cur()
	full := p.abs(name)
	if a, ok := p.op("readlink", full); !ok || a.err != nil {
		return "", pathErr("readlink", name, syscall.EIO)
	}
	p.M.mu.Lock()
	defer p.M.mu.Unlock()
	ino := p.M.Disk.names[full]
	if ino == nil {
		return "", pathErr("readlink", name, syscall.ENOENT)
	}
	if ino.Link == "" {
		return "", pathErr("readlink", name, syscall.EINVAL)
	}
	return ino.Link, nil
}

// EvalSymlinks is filepath.EvalSymlinks.
func EvalSymlinks(name string) (string, error) {
	p := Cur()
	full := p.abs(name)
	if a, ok := p.op("readlink", full); !ok || a.err != nil {
		return "", pathErr("lstat", name, syscall.EIO)
	}
	p.M.mu.Lock()
	defer p.M.mu.Unlock()
	r, ino := p.M.Disk.resolve(full)
	if ino == nil {
		return "", pathErr("lstat", name, syscall.ENOENT)
	}
	if r == full {
		return path.Clean(name), nil
	}
	return r, nil
}

func Chmod(name string, mode fs.FileMode) error {
	p := Cur()
	full := p.abs(name)
	a, ok := p.op("chmod", full)
	if !ok || a.err != nil {
		return pathErr("chmod", name, syscall.EIO)
	}
	p.M.mu.Lock()
	defer p.M.mu.Unlock()
	_, ino := p.M.Disk.resolve(full)
	if ino == nil {
		return pathErr("chmod", name, syscall.ENOENT)
	}
	ino.Mode = ino.Mode&^0777 | mode&0777
	return nil
}

func (f *File) Chmod(mode fs.FileMode) error {
	p, of, err := f.get("chmod")
	if err != nil {
		return err
	}
	a, ok := p.op("chmod", of.path)
	if !ok || a.err != nil {
		return pathErr("chmod", f.name, syscall.EIO)
	}
	if of.ino != nil {
		p.M.mu.Lock()
		of.ino.Mode = of.ino.Mode&^0777 | mode&0777
		p.M.mu.Unlock()
	}
	return nil
}

func (f *File) Chown(uid, gid int) error           { return nil }
func (f *File) Chdir() error                       { return Chdir(f.name) }
func (f *File) SetDeadline(t time.Time) error      { return nil }
func (f *File) SetReadDeadline(t time.Time) error  { return nil }
func (f *File) SetWriteDeadline(t time.Time) error { return nil }

func (f *File) names() ([]string, error) {
	p, of, err := f.get("readdir")
	if err != nil {
		return nil, err
	}
	a, ok := p.op("readdir", of.path)
	if !ok || a.err != nil {
		return nil, pathErr("readdir", f.name, syscall.EIO)
	}
	if of.ino == nil || !of.ino.Dir {
		return nil, pathErr("readdir", f.name, syscall.ENOTDIR)
	}
	p.M.mu.Lock()
	defer p.M.mu.Unlock()
	return p.M.Disk.children(of.path), nil
}

func (f *File) Readdir(n int) ([]fs.FileInfo, error) {
	l, err := f.names()
	var r []fs.FileInfo
	for _, c := range l {
		if ino := f.proc().M.Disk.names[c]; ino != nil {
			r = append(r, info(c, ino))
		}
	}
	return r, err
}

func (f *File) Readdirnames(n int) ([]string, error) {
	l, err := f.names()
	for i := range l {
		l[i] = path.Base(l[i])
	}
	return l, err
}

func (f *File) ReadDir(n int) ([]fs.DirEntry, error) {
	l, err := f.Readdir(n)
	var r []fs.DirEntry
	for _, i := range l {
		r = append(r, fs.FileInfoToDirEntry(i))
	}
	return r, err
}

func Chdir(dir string) error {
	p := Cur()
	full := p.abs(dir)
	p.M.mu.Lock()
	n := p.M.Disk.names[full]
	p.M.mu.Unlock()
	if n == nil || !n.Dir {
		return pathErr("chdir", dir, syscall.ENOENT)
	}
	p.Cwd = full
	return nil
}

// Mmap and Munmap are those of golang.org/x/sys/unix.
func Mmap(fd int, offset int64, length int, prot int, flags int) ([]byte, error) {
	p := Cur()
	of := p.fd(fd)
	pth := ""
	if of != nil {
		pth = of.path
	}
	if length <= 0 {
		return nil, syscall.EINVAL
	}
	a, ok := p.op("mmap", pth)
	if !ok {
		return nil, syscall.EBADF
	}
	if a.err != nil {
		return nil, a.err
	}
	if flags&syscall.MAP_ANON != 0 {
		return make([]byte, length), nil
	}
	if of == nil || of.std != 0 {
		return nil, syscall.EBADF
	}
	if of.ino.Dir {
		return nil, syscall.ENODEV
	}
	if offset%page != 0 {
		return nil, syscall.EINVAL
	}
	p.M.mu.Lock()
	m, err := newMapping(p, of.ino, offset, length, prot&syscall.PROT_WRITE != 0, of.path)
	if err == nil {
		p.maps = append(p.maps, m)
		p.M.maps = append(p.M.maps, m)
	}
	p.M.mu.Unlock()
	if err != nil {
		return nil, err
	}
	if a.after != nil {
		a.after()
	}
	return m.mem[:length:length], nil
}

func Munmap(b []byte) error {
	p := Cur()
	a, ok := p.op("munmap", "")
	if !ok {
		return nil
	}
	p.M.mu.Lock()
	defer p.M.mu.Unlock()
	for i, m := range p.maps {
		if m.is(b) {
			m.unmap()
			p.maps = append(p.maps[:i:i], p.maps[i+1:]...)
			if a.err != nil {
				return a.err
			}
			return nil
		}
	}
	return syscall.EINVAL
}

// Fsync and CloseFD are the calls on bare descriptors.
func Fsync(fd int) error {
	p := Cur()
	if p.fd(fd) == nil {
		return syscall.EBADF
	}
	return (&File{p: p, fd: fd, name: p.fd(fd).path}).Sync()
}

func CloseFD(fd int) error {
	p := Cur()
	if p.fd(fd) == nil {
		return syscall.EBADF
	}
	return (&File{p: p, fd: fd, name: p.fd(fd).path}).Close()
}

// writable reports whether the descriptor is open for writing.
func (of *openFile) writable() bool {
	return of.std == 2 || of.std == 0 && of.flags&oAccess != syscall.O_RDONLY
}

type plainWriter struct{ f *File }

func (w plainWriter) Write(b []byte) (int, error) { return w.f.Write(b) }

type plainReader struct{ f *File }

func (r plainReader) Read(b []byte) (int, error) { return r.f.Read(b) }

// ReadFrom copies what r gives into the file.
func (f *File) ReadFrom(r io.Reader) (int64, error) {
	return io.Copy(plainWriter{f}, struct{ io.Reader }{r})
}

// WriteTo copies the rest of the file to w.
func (f *File) WriteTo(w io.Writer) (int64, error) {
	return io.Copy(struct{ io.Writer }{w}, plainReader{f})
}

// SyscallConn is not simulated.
func (f *File) SyscallConn() (syscall.RawConn, error) { return nil, syscall.EINVAL }
