package vos

import (
	"syscall"
	"unsafe"
)

const page = 4096

// Mapping is a shared mapping of a file, backed by anonymous memory that is
// readable exactly where a real mapping would be: pages past the end of the
// file, and everything after munmap, fault.
type Mapping struct {
	Proc  *Proc
	ino   *Inode
	off   int64
	mem   []byte // whole pages
	n     int    // length asked for
	write bool
	gone  bool
	Path  string
}

func newMapping(p *Proc, ino *Inode, off int64, n int, write bool, path string) (*Mapping, error) {
	full := (n + page - 1) / page * page
	var mem []byte
	if p.M.Reuse {
		for _, o := range p.M.maps {
			if o.gone && o.Proc == p && len(o.mem) == full {
				mem, o.mem = o.mem, nil
				break
			}
		}
	}
	if mem == nil {
		var err error
		mem, err = syscall.Mmap(-1, 0, full, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
		if err != nil {
			panic("vsim: mmap: " + err.Error())
		}
	}
	m := &Mapping{Proc: p, ino: ino, off: off, mem: mem, n: n, write: write, Path: path}
	ino.maps = append(ino.maps, m)
	m.refresh()
	return m, nil
}

func (m *Mapping) refresh() {
	if m.gone {
		return
	}
	must(syscall.Mprotect(m.mem, syscall.PROT_READ|syscall.PROT_WRITE))
	var src []byte
	if m.off < int64(len(m.ino.Data)) {
		src = m.ino.Data[m.off:]
	}
	k := copyNR(m.mem, src)
	for i := k; i < len(m.mem); i++ {
		setNR(m.mem, i, 0)
	}
	valid := (k + page - 1) / page * page
	prot := syscall.PROT_READ
	if m.write {
		prot |= syscall.PROT_WRITE
	}
	if valid > 0 {
		must(syscall.Mprotect(m.mem[:valid], prot))
	}
	if valid < len(m.mem) {
		must(syscall.Mprotect(m.mem[valid:], syscall.PROT_NONE))
	}
}

//go:norace
func copyNR(dst, src []byte) int {
	n := len(src)
	if n > len(dst) {
		n = len(dst)
	}
	for i := 0; i < n; i++ {
		dst[i] = src[i]
	}
	return n
}

//go:norace
func setNR(b []byte, i int, v byte) { b[i] = v }

func must(err error) {
	if err != nil {
		panic("vsim: mprotect: " + err.Error())
	}
}

// unmap makes the memory inaccessible; the address range stays reserved until
// the run is over, so that a stale reference faults, or, if the machine reuses
// addresses, serves the process's next mapping of that size.
func (m *Mapping) unmap() {
	if m.gone {
		return
	}
	m.gone = true
	must(syscall.Mprotect(m.mem, syscall.PROT_NONE))
	x := m.ino.maps[:0]
	for _, o := range m.ino.maps {
		if o != m {
			x = append(x, o)
		}
	}
	m.ino.maps = x
}

func (m *Mapping) free() {
	m.unmap()
	if m.mem != nil {
		_ = syscall.Munmap(m.mem)
		m.mem = nil
	}
}

func (m *Mapping) is(b []byte) bool {
	return !m.gone && len(b) == m.n && len(b) > 0 && unsafe.Pointer(&b[0]) == unsafe.Pointer(&m.mem[0])
}
