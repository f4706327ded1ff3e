package vos

import (
	"flag"
	"fmt"
	"io/fs"
	"path"
	"strings"
	"sync"

	"vsim/rt"
)

// Fault is one injected event. It fires at the Nth operation of kind Op
// (and, if Path is given, on that path) made by the process Proc.
type Fault struct {
	Proc    string `json:"proc,omitempty"` // "" any
	Op      string `json:"op"`             // open read write seek stat sync close mmap munmap rename remove truncate mkdir, or "any"
	Path    string `json:"path,omitempty"`
	Nth     int    `json:"nth"`
	Err     string `json:"err,omitempty"`     // errno name
	Partial int    `json:"partial,omitempty"` // read, write: bytes transferred first
	Sticky  bool   `json:"sticky,omitempty"`  // every later matching operation fails too
	Act     string `json:"act,omitempty"`     // "" error; "kill" the process, "power" loss, "hold" until the processes Until names have ended; done before the operation
	After   bool   `json:"after,omitempty"`   // kill/power after the operation instead
	Until   string `json:"until,omitempty"`   // how the names of the awaited processes begin
	Wr      bool   `json:"wr,omitempty"`      // only on descriptors open for writing

	count int
	fired int
	live  int    // fired before the end of the file had been told
	Hit   string // the path it fired on last
}

// Live reports whether the fault struck a read before the file's end was told,
// or something else than a read.
func (f *Fault) Live() bool { return f.live > 0 }

// Chunk says how large the individual reads of a file or stream are.
type Chunk struct {
	Kind string `json:"kind,omitempty"` // "" full, "one", "rand", "list"
	Seed uint64 `json:"seed,omitempty"`
	Max  int    `json:"max,omitempty"`
	List []int  `json:"list,omitempty"`
}

type chunker struct {
	c Chunk
	r *rt.Rand
	i int
}

func (c *chunker) next(want int) int {
	n := want
	switch c.c.Kind {
	case "one":
		n = 1
	case "rand":
		if c.r == nil {
			c.r = rt.NewRand(c.c.Seed)
		}
		n = 1 + c.r.Intn(max(1, c.c.Max))
	case "list":
		if c.i < len(c.c.List) {
			n = c.c.List[c.i]
		}
		c.i++
	}
	if n < 1 {
		n = 1
	}
	if n > want {
		n = want
	}
	return n
}

// Epoch is where the clock of a machine starts.
const Epoch = int64(1600000000e9)

// LogAll makes every machine keep a log of operations.
var LogAll bool

type Machine struct {
	Hash    uint64 // of the sequence of operations
	Latency int64  // every operation takes this long
	Disk    *Disk
	Procs   []*Proc
	Clock   int64  // nanoseconds
	OnOp    func() // called before every operation
	Ran     int64  // simulated time passed, jumps aside
	Tick    int64  // advance at every reading of the clock
	Faults  []*Fault
	Log     []string
	LogOn   bool
	Fired   map[string]int
	Ops     map[string]int
	power   bool
	OnPower func()
	OpCount int
	maps    []*Mapping
	mu      sync.Mutex

	Reuse    bool // a mapping is placed where a former one of that size was
	NoTimers bool // timers do not make time pass
}

func NewMachine() *Machine {
	return &Machine{Disk: NewDisk(), Clock: Epoch, Tick: 1000, Latency: 100000, LogOn: LogAll, Fired: map[string]int{}, Ops: map[string]int{}}
}

// Cleanup releases the real memory of the mappings.
func (m *Machine) Cleanup() {
	for _, x := range m.maps {
		x.free()
	}
	m.maps = nil
}

type Proc struct {
	M        *Machine
	Name     string
	Cmd      string // the command it runs, "" for a library user
	Args     []string
	Cwd      string
	Stdin    []byte
	Gate     func(read int) int // how much of Stdin has come, more than all of it at the end; it comes at once if nil
	inPos    int
	finals   int // finalizers set
	collects int // collections that ran some
	inChunk  chunker
	Chunks   Chunk
	ChunksOf map[string]Chunk // by path, instead of Chunks
	Stdout   []byte
	Stderr   []byte
	OutMarks []int       // number of bytes of Stdout after each write
	fds      []*openFile // from descriptor 3 on; nil: closed
	maps     []*Mapping
	Flags    *flag.FlagSet
	Env      map[string]string
	dead     bool
	Exited   bool
	Code     int
	Killed   bool
	PanicMsg string
	PanicStk string
	globals  *rt.Globals
	OpCount  map[string]int
	OpLog    []string
	Skew     int64
	Got      map[string]int  // bytes read, by path
	GotEOF   map[string]bool // whether a read told the end, by path
}

func (m *Machine) NewProc(name, cmd string, args ...string) *Proc {
	p := &Proc{M: m, Name: name, Cmd: cmd, Cwd: "/w", OpCount: map[string]int{}, Got: map[string]int{}, GotEOF: map[string]bool{}, Env: map[string]string{}}
	p.Args = append([]string{"/bin/" + cmd}, args...)
	p.Flags = flag.NewFlagSet(p.Args[0], flag.ContinueOnError)
	p.Flags.SetOutput(stderrOf{p})
	m.Procs = append(m.Procs, p)
	return p
}

type stderrOf struct{ p *Proc }

func (s stderrOf) Write(b []byte) (int, error) {
	s.p.Stderr = append(s.p.Stderr, b...)
	return len(b), nil
}

// cur is the process whose globals are current.
var cur *Proc

// OnEnter is called when a process becomes current.
var OnEnter []func(*Proc)

var host *Proc

// Cur returns the running process; code running outside a simulation belongs
// to a host process with an empty disk.
func Cur() *Proc {
	if cur != nil {
		return cur
	}
	if host == nil {
		host = NewMachine().NewProc("host", "host")
	}
	return host
}

// Simulated reports whether a simulated process is running.
func Simulated() bool { return cur != nil }

func (p *Proc) Dead() bool { return p.dead }

func (p *Proc) Enter() {
	cur = p
	if p.globals == nil {
		rt.InitGlobals(func(path string) bool {
			if !strings.HasPrefix(path, "cmd:") {
				return true
			}
			return path == "cmd:"+p.Cmd
		})
	} else {
		p.globals.Load()
	}
	for _, f := range OnEnter {
		f(p)
	}
}

func (p *Proc) Leave() {
	p.globals = rt.SaveGlobals()
	cur = nil
}

func (p *Proc) TaskPanic(t *rt.Task) {
	if p.dead {
		return
	}
	p.PanicMsg = fmt.Sprint(t.PanicVal)
	p.PanicStk = t.PanicStk
	p.Stderr = append(p.Stderr, "panic: "+p.PanicMsg+"\n"...)
	p.die(2)
	p.Exited = true
}

func (p *Proc) die(code int) {
	if p.dead {
		return
	}
	p.dead = true
	p.Code = code
	p.fds = nil
	for _, m := range p.maps {
		m.unmap()
	}
	p.maps = nil
}

// Kill ends the process at once, as SIGKILL does.
func (p *Proc) Kill() {
	if !p.dead {
		p.Killed = true
		p.die(137)
	}
}

// Exit is os.Exit.
func (p *Proc) Exit(code int) {
	if cur != p || rt.Cur() == nil {
		panic(fmt.Sprintf("vsim: exit %d outside a process", code))
	}
	if !p.dead {
		p.die(code)
		p.Exited = true
	}
	rt.Exit()
}

// Finish marks the process as ended normally.
func (p *Proc) Finish() {
	if !p.dead {
		p.die(0)
		p.Exited = true
	}
}

// Start spawns the process's first task.
func (p *Proc) Start(s *rt.Sim, main func()) *rt.Task {
	return s.Spawn(p.Name, p, func() {
		main()
		p.Finish()
	})
}

// OpenFDs lists the descriptors a process has open.
func (p *Proc) OpenFDs() []string {
	var r []string
	for i, of := range p.fds {
		if of != nil {
			r = append(r, fmt.Sprintf("fd %d: %s", i+3, of.path))
		}
	}
	return r
}

func (p *Proc) fd(n int) *openFile {
	if n < 3 || n-3 >= len(p.fds) {
		return nil
	}
	return p.fds[n-3]
}

func (p *Proc) chunksOf(path string) Chunk {
	if c, ok := p.ChunksOf[path]; ok {
		return c
	}
	return p.Chunks
}

func (p *Proc) newFD(of *openFile) int {
	p.fds = append(p.fds, of)
	return len(p.fds) + 2
}

// Now reads the process's clock.
func (p *Proc) Now() int64 {
	p.M.mu.Lock()
	defer p.M.mu.Unlock()
	p.M.Clock += p.M.Tick
	p.M.Ran += p.M.Tick
	return p.M.Clock + p.Skew
}

// Advance moves the machine's clock.
func (m *Machine) Advance(d int64) {
	m.mu.Lock()
	m.Clock += d
	m.mu.Unlock()
}

// Mapped lists the mappings a process has.
func (p *Proc) Mapped() []string {
	var r []string
	for _, m := range p.maps {
		r = append(r, fmt.Sprintf("mapping of %s (%d bytes)", m.Path, m.n))
	}
	return r
}

func (p *Proc) abs(name string) string {
	if name == "" {
		return ""
	}
	if !path.IsAbs(name) {
		name = path.Join(p.Cwd, name)
	}
	return path.Clean(name)
}

type action struct {
	err     error
	partial int
	after   func()
}

// PowerFail stops the whole machine.
func (m *Machine) PowerFail() {
	m.power = true
	for _, p := range m.Procs {
		p.Kill()
	}
	if m.OnPower != nil {
		m.OnPower()
	}
}

// Powered reports whether the machine is still on.
func (m *Machine) Powered() bool { return !m.power }

// op accounts for one operation and returns what is to happen to it. The
// machine is not locked.
func (p *Proc) op(kind, pth string) (action, bool) { return p.opOn(kind, pth, false) }

func (p *Proc) opOn(kind, pth string, wr bool) (action, bool) {
	rt.Point()
	if rt.Unwinding() || p.dead {
		return action{}, false
	}
	m := p.M
	if m.OnOp != nil {
		m.OnOp()
	}
	m.mu.Lock()
	p.OpCount[kind]++
	m.Ops[kind]++
	m.OpCount++
	m.Clock += m.Latency
	m.Ran += m.Latency
	h := m.Hash
	for _, s := range [...]string{p.Name, kind, pth} {
		for i := 0; i < len(s); i++ {
			h = (h ^ uint64(s[i])) * 0x100000001b3
		}
		h = (h ^ 0xff) * 0x100000001b3
	}
	m.Hash = h
	if m.LogOn && len(m.Log) < 4000 {
		m.Log = append(m.Log, fmt.Sprintf("%d %s %s %s", rt.Steps(), p.Name, kind, pth))
	}
	p.OpLog = append(p.OpLog, kind)
	var a action
	var act *Fault
	for _, f := range m.Faults {
		if (f.Proc != "" && f.Proc != p.Name) || (f.Op != "any" && f.Op != kind) || (f.Path != "" && f.Path != pth) || (f.Wr && !wr) {
			continue
		}
		f.count++
		if f.count == f.Nth || (f.Sticky && f.count > f.Nth) {
			f.fired++
			f.Hit = pth
			if kind != "read" || !p.GotEOF[pth] {
				f.live++
			}
			if f.Act != "" {
				m.Fired[f.Act+"@"+kind]++
				if m.LogOn {
					m.Log = append(m.Log, fmt.Sprintf("  %s at %s %s", f.Act, kind, pth))
				}
				if f.After {
					f := f
					a.after = func() { p.doAct(f) }
				} else if act == nil || act.Act == "hold" {
					act = f
				}
				continue
			}
			m.Fired[kind+"/"+f.Err]++
			m.Hash = (m.Hash ^ 0x5a5a) * 0x100000001b3
			if m.LogOn {
				m.Log = append(m.Log, fmt.Sprintf("  fault %s on %s %s", f.Err, kind, pth))
			}
			a.err = errno(f.Err)
			a.partial = f.Partial
		}
	}
	m.mu.Unlock()
	if act != nil {
		p.doAct(act)
	}
	return a, true
}

func (p *Proc) doAct(f *Fault) {
	switch f.Act {
	case "hold":
		rt.Block("others to end", func() bool {
			for _, o := range p.M.Procs {
				if o != p && f.Until != "" && strings.HasPrefix(o.Name, f.Until) && !o.dead {
					return false
				}
			}
			return true
		})
		return
	case "power":
		p.M.PowerFail()
	default:
		p.Kill()
	}
	rt.Exit()
}

// Fired reports whether the fault took effect.
func (f *Fault) DidFire() bool { return f.fired > 0 }

// FaultsFired counts the faults that took effect.
func (m *Machine) FaultsFired() int {
	n := 0
	for _, f := range m.Faults {
		if f.Act != "hold" {
			n += f.fired
		}
	}
	return n
}

func pathErr(op, p string, err error) error { return &fs.PathError{Op: op, Path: p, Err: err} }

// Pid is the number of the process.
func (p *Proc) Pid() int {
	for i, x := range p.M.Procs {
		if x == p {
			return 4242 + i
		}
	}
	return 4241
}

// Restart turns the machine on again.
func (m *Machine) Restart() {
	m.power = false
	m.OnPower = nil
}
