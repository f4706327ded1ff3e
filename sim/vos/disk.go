// Package vos is the simulated machine: a disk that survives crashes, processes
// with descriptors, mappings, arguments, streams and exit status, a clock, and
// the list of faults to inject.
package vos

import (
	"fmt"
	"io/fs"
	"path"
	"sort"
	"syscall"

	"vsim/rt"
)

// Pending is one write, or a change of length, not yet made durable.
type pending struct {
	trunc bool
	off   int64
	data  []byte
}

type Inode struct {
	ID      int
	Dir     bool
	Data    []byte // what running processes see
	durable []byte // what the platter holds
	pend    []pending
	onDisk  bool // an inode whose creation was committed
	Mtime   int64
	Mode    fs.FileMode
	maps    []*Mapping
	Link    string // symbolic link target
}

type dirOp struct {
	name string
	ino  *Inode // nil: removed
	old  string // rename: the name it had
}

type Disk struct {
	names    map[string]*Inode
	durNames map[string]*Inode
	journal  []dirOp
	nextID   int
	Capacity int64 // 0: unlimited
	TornUnit int
}

func NewDisk() *Disk {
	d := &Disk{names: map[string]*Inode{}, durNames: map[string]*Inode{}}
	root := d.newInode(true)
	d.names["/"] = root
	d.durNames["/"] = root
	d.MkdirAll("/w")
	d.MkdirAll("/tmp")
	d.MkdirAll("/bin")
	d.Sync()
	return d
}

func (d *Disk) newInode(dir bool) *Inode {
	d.nextID++
	m := fs.FileMode(0644)
	if dir {
		m = fs.ModeDir | 0755
	}
	return &Inode{ID: d.nextID, Dir: dir, Mode: m}
}

func (d *Disk) MkdirAll(p string) {
	p = path.Clean(p)
	if p == "/" || d.names[p] != nil {
		return
	}
	d.MkdirAll(path.Dir(p))
	d.link(p, d.newInode(true))
}

func (d *Disk) link(p string, n *Inode) {
	d.names[p] = n
	d.journal = append(d.journal, dirOp{name: p, ino: n})
}

func (d *Disk) unlink(p string) {
	delete(d.names, p)
	d.journal = append(d.journal, dirOp{name: p})
}

func (d *Disk) rename(o, n string) {
	ino := d.names[o]
	delete(d.names, o)
	d.names[n] = ino
	d.journal = append(d.journal, dirOp{name: n, ino: ino, old: o})
}

// resolve follows symbolic links of the last component.
func (d *Disk) resolve(p string) (string, *Inode) {
	p = path.Clean(p)
	for i := 0; i < 16; i++ {
		n := d.names[p]
		if n == nil || n.Link == "" {
			return p, n
		}
		if path.IsAbs(n.Link) {
			p = path.Clean(n.Link)
		} else {
			p = path.Join(path.Dir(p), n.Link)
		}
	}
	return p, nil
}

// Used is the space taken.
func (d *Disk) Used() int64 { return d.used() }

func (d *Disk) used() int64 {
	seen := map[*Inode]bool{}
	var n int64
	for _, i := range d.names {
		if !seen[i] {
			seen[i] = true
			n += int64(len(i.Data))
		}
	}
	return n
}

// Put stores a file durably, without a process.
func (d *Disk) Put(p string, b []byte) {
	p = path.Clean(p)
	d.MkdirAll(path.Dir(p))
	n := d.newInode(false)
	n.Data = append([]byte(nil), b...)
	d.link(p, n)
	d.syncInode(n)
}

// Symlink stores a symbolic link durably.
func (d *Disk) Symlink(p, target string) {
	n := d.newInode(false)
	n.Link = target
	n.Mode = fs.ModeSymlink | 0777
	d.link(path.Clean(p), n)
	d.Sync()
}

// Get returns a copy of a file's content.
func (d *Disk) Get(p string) ([]byte, bool) {
	_, n := d.resolve(p)
	if n == nil || n.Dir {
		return nil, false
	}
	return append([]byte{}, n.Data...), true
}

// Remove removes a file durably.
func (d *Disk) Remove(p string) {
	if d.names[path.Clean(p)] != nil {
		d.unlink(path.Clean(p))
		d.Sync()
	}
}

// List returns the sorted names of all files.
func (d *Disk) List() []string {
	var r []string
	for p, n := range d.names {
		if !n.Dir {
			r = append(r, p)
		}
	}
	sort.Strings(r)
	return r
}

func (d *Disk) syncInode(n *Inode) {
	n.durable = append(n.durable[:0:0], n.Data...)
	n.pend = nil
	d.commitDirs(len(d.journal))
}

func (d *Disk) commitDirs(k int) {
	for _, op := range d.journal[:k] {
		if op.old != "" {
			delete(d.durNames, op.old)
		}
		if op.ino == nil {
			delete(d.durNames, op.name)
		} else {
			d.durNames[op.name] = op.ino
			op.ino.onDisk = true
		}
	}
	d.journal = append([]dirOp(nil), d.journal[k:]...)
}

// Sync makes everything durable.
func (d *Disk) Sync() {
	d.commitDirs(len(d.journal))
	for _, n := range d.names {
		n.durable = append(n.durable[:0:0], n.Data...)
		n.pend = nil
	}
}

func setRange(b []byte, off int64, data []byte) []byte {
	end := off + int64(len(data))
	if int64(len(b)) < end {
		b = append(b, make([]byte, end-int64(len(b)))...)
	}
	copy(b[off:], data)
	return b
}

func setLen(b []byte, n int64) []byte {
	if int64(len(b)) > n {
		return append([]byte(nil), b[:n]...)
	}
	return append(b, make([]byte, n-int64(len(b)))...)
}

func (d *Disk) writeAt(n *Inode, off int64, data []byte) {
	n.Data = setRange(n.Data, off, data)
	n.pend = append(n.pend, pending{off: off, data: append([]byte(nil), data...)})
	for _, m := range n.maps {
		m.refresh()
	}
}

func (d *Disk) truncate(n *Inode, l int64) {
	if l == int64(len(n.Data)) {
		return
	}
	n.Data = setLen(n.Data, l)
	n.pend = append(n.pend, pending{trunc: true, off: l})
	for _, m := range n.maps {
		m.refresh()
	}
}

// PowerLoss throws away what was not durable: a seeded prefix of the
// directory operations since the last commit survives, and of every file a
// seeded subset of its unsynchronised writes, some of them torn. Mode "none"
// keeps nothing, "all" everything, "seed" a seeded choice, "data" all of the
// directory operations and none of the data, "meta" the converse.
func (d *Disk) PowerLoss(mode string, r *rt.Rand) {
	d.commitDirs(d.kept(mode, r))
	d.journal = nil
	names := map[string]*Inode{}
	var ps []string
	for p, n := range d.durNames {
		names[p] = n
		ps = append(ps, p)
	}
	sort.Strings(ps)
	seen := map[*Inode]bool{}
	for _, p := range ps {
		n := names[p]
		if seen[n] {
			continue
		}
		seen[n] = true
		b := n.survive(mode, r)
		n.Data = b
		n.durable = append([]byte(nil), b...)
		n.pend = nil
		n.maps = nil
	}
	d.names = names
}

// survive is what a power failure leaves of a file's content.
func (n *Inode) survive(mode string, r *rt.Rand) []byte {
	b := append([]byte(nil), n.durable...)
	for _, w := range n.pend {
		keep := false
		switch mode {
		case "all", "meta":
			keep = true
		case "seed":
			keep = r.Bool()
		}
		if !keep {
			continue
		}
		if w.trunc {
			b = setLen(b, w.off)
			continue
		}
		data := w.data
		if mode == "seed" && r.Chance(1, 4) && len(data) > 1 {
			cut := r.Intn(len(data))
			if r.Bool() {
				data = data[:cut]
			} else {
				b = setRange(b, w.off+int64(cut), data[cut:])
				continue
			}
		}
		b = setRange(b, w.off, data)
	}
	return b
}

func (d *Disk) kept(mode string, r *rt.Rand) int {
	switch mode {
	case "all", "data":
		return len(d.journal)
	case "seed":
		k := r.Intn(len(d.journal) + 1)
		if r.Chance(1, 3) {
			k = len(d.journal)
		}
		return k
	}
	return 0
}

// WhatIf tells what a path would hold after a power failure now.
func (d *Disk) WhatIf(p, mode string, r *rt.Rand) ([]byte, bool) {
	names := map[string]*Inode{}
	for k, n := range d.durNames {
		names[k] = n
	}
	for _, op := range d.journal[:d.kept(mode, r)] {
		if op.old != "" {
			delete(names, op.old)
		}
		if op.ino == nil {
			delete(names, op.name)
		} else {
			names[op.name] = op.ino
		}
	}
	e := &Disk{names: names}
	_, n := e.resolve(p)
	if n == nil || n.Dir {
		return nil, false
	}
	return n.survive(mode, r), true
}

func errno(name string) syscall.Errno {
	if e, ok := errnos[name]; ok {
		return e
	}
	return syscall.EIO
}

var errnos = map[string]syscall.Errno{
	"EIO": syscall.EIO, "ENOSPC": syscall.ENOSPC, "EACCES": syscall.EACCES, "EMFILE": syscall.EMFILE,
	"ENOMEM": syscall.ENOMEM, "EPIPE": syscall.EPIPE, "EINVAL": syscall.EINVAL, "ENOENT": syscall.ENOENT,
	"EDQUOT": syscall.EDQUOT, "ENODEV": syscall.ENODEV, "EAGAIN": syscall.EAGAIN, "EBADF": syscall.EBADF, "EISDIR": syscall.EISDIR,
	"EINTR": syscall.EINTR, "EXDEV": syscall.EXDEV, "EROFS": syscall.EROFS, "ETXTBSY": syscall.ETXTBSY,
}

var _ = fmt.Sprint
