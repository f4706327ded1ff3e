package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"time"

	"vsim/checks"
)

func binary(race bool) string {
	me, err := os.Executable()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	d := filepath.Dir(me)
	if race {
		return filepath.Join(d, "simdrv-race")
	}
	return filepath.Join(d, "simdrv")
}

func command(race bool, args ...string) *exec.Cmd {
	c := exec.Command(binary(race), args...)
	c.Env = append(os.Environ(), "GORACE=halt_on_error=0 exitcode=0 atexit_sleep_ms=0 suppress_equal_stacks=0 suppress_equal_addresses=0", "GOTRACEBACK=single", "GODEBUG=")
	return c
}

// tail keeps the end of what is written to it.
type tail struct {
	mu sync.Mutex
	b  []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.b = append(t.b, p...)
	if len(t.b) > 1<<16 {
		t.b = append([]byte(nil), t.b[len(t.b)-1<<15:]...)
	}
	return len(p), nil
}

func (t *tail) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	return string(t.b)
}

// find is a violation some worker reported.
type find struct {
	i    uint64
	plan string
	res  *checks.Result
	race bool
	// the plans the same worker executed before: first, stride
	first, stride uint64
}

type search struct {
	k     *checks.Check
	tier  string
	seed  string
	mu    sync.Mutex
	finds []find
	aggs  []*Agg
	lost  []string // workers that failed to answer
	known map[string]int
}

const stall = 150 * time.Second

// worker runs one worker process to its end; if it dies it is started again
// after the plan that killed it.
func (s *search) worker(race bool, first, stride, count uint64, budget time.Duration) {
	end := time.Now().Add(budget)
	for count > 0 {
		left := time.Until(end)
		if left < time.Second {
			return
		}
		c := command(race, "work", s.k.ID, "tier="+s.tier, "seed="+s.seed, fmt.Sprint("first=", first), fmt.Sprint("stride=", stride), fmt.Sprint("count=", count), fmt.Sprint("budget=", int(left.Seconds())))
		errs := &tail{}
		c.Stderr = errs
		out, err := c.StdoutPipe()
		if err == nil {
			err = c.Start()
		}
		if err != nil {
			s.mu.Lock()
			s.lost = append(s.lost, err.Error())
			s.mu.Unlock()
			return
		}
		watch := time.AfterFunc(stall, func() { c.Process.Kill() })
		var at uint64
		started, finished := false, false
		rd := bufio.NewReaderSize(out, 1<<20)
		for {
			b, err := rd.ReadBytes('\n')
			watch.Reset(stall)
			var m msg
			if len(b) > 0 && json.Unmarshal(b, &m) == nil {
				switch {
				case m.S != nil:
					at, started = *m.S, true
				case m.Res != nil:
					if m.Res.V.Class == "race" {
						m.Res.V.Msg += "\n" + raceReport(errs.String())
					}
					s.mu.Lock()
					s.finds = append(s.finds, find{m.I, m.Plan, m.Res, race, first, stride})
					s.mu.Unlock()
				case m.Agg != nil:
					finished = true
					s.mu.Lock()
					s.aggs = append(s.aggs, m.Agg)
					s.mu.Unlock()
				}
			}
			if err != nil {
				break
			}
		}
		stalled := !watch.Stop()
		werr := c.Wait()
		if finished {
			return
		}
		if !started {
			s.mu.Lock()
			s.lost = append(s.lost, fmt.Sprintf("%v: %s", werr, errs))
			s.mu.Unlock()
			return
		}
		// the worker died or stalled in plan at: judge that alone
		plan := s.plan(at)
		class, text := "", ""
		if plan != "" {
			class, text = s.alone(race, plan)
		}
		s.mu.Lock()
		if class != "" {
			s.finds = append(s.finds, find{at, plan, &checks.Result{V: &checks.Violation{Class: class, Msg: text}}, race, first, stride})
		} else {
			s.lost = append(s.lost, fmt.Sprintf("a worker died at plan %d (stalled: %v, %v) but the plan alone ends: %s", at, stalled, werr, last(errs.String(), 2000)))
		}
		n := len(s.finds)
		s.mu.Unlock()
		if n > 20 {
			return
		}
		done := (at-first)/stride + 1
		if done >= count {
			return
		}
		first, count = first+done*stride, count-done
	}
}

// plan asks for a plan in a process of its own.
func (s *search) plan(i uint64) string {
	ps := s.plans([]uint64{i})
	if len(ps) == 0 {
		return ""
	}
	return ps[0]
}

func (s *search) plans(is []uint64) []string {
	a := []string{"plan", s.k.ID, "tier=" + s.tier, "seed=" + s.seed}
	for _, i := range is {
		a = append(a, fmt.Sprint("i=", i))
	}
	c := command(false, a...)
	t := time.AfterFunc(stall, func() { c.Process.Kill() })
	defer t.Stop()
	b, err := c.Output()
	ps := strings.Split(strings.TrimSpace(string(b)), "\n")
	if err != nil || len(ps) != len(is) {
		return nil
	}
	return ps
}

func last(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

func raceReport(s string) string {
	i := strings.LastIndex(s, "WARNING: DATA RACE")
	if i < 0 {
		return ""
	}
	s = s[i:]
	if len(s) > 3500 {
		s = s[:3500]
	}
	return s
}

// ownRaces tells whether all of the races reported are between accesses without
// a frame of code under test: the simulator's and the harness's own packages
// leave no frames, only the runtime functions they call do.
func ownRaces(s string) bool {
	rs := strings.Split(s, "WARNING: DATA RACE")[1:]
	for _, r := range rs {
		bare := false
		for _, st := range strings.Split(r, "\n\n") {
			st = strings.TrimLeft(st, "\n")
			h := st
			if i := strings.Index(st, "\n"); i >= 0 {
				h = st[:i]
			}
			if !strings.Contains(h, " at 0x") {
				continue
			}
			code, frames := false, 0
			for _, l := range strings.Split(st, "\n")[1:] {
				if strings.HasPrefix(l, "      ") || !strings.HasPrefix(l, "  ") {
					continue
				}
				frames++
				l = strings.TrimSpace(l)
				if !strings.HasPrefix(l, "runtime.") && !strings.HasPrefix(l, "internal/") && !strings.HasPrefix(l, "vsim/") {
					code = true
				}
			}
			if frames > 0 && !code {
				bare = true
			}
		}
		if !bare {
			return false
		}
	}
	return len(rs) > 0
}

// alone executes a plan in a process of its own; class is "" if it ends
// without a violation.
func (s *search) alone(race bool, plan string) (class, text string) {
	r, how, errs := runPlans(s.k, s.tier, race, []string{plan}, stall, false)
	if r != nil {
		if r.V != nil {
			return r.V.Class, r.V.Msg
		}
		return "", ""
	}
	return how, errs
}

// runPlans executes plans in one fresh process and returns the result of the
// last, or how the process ended ("fatal" or "stall") and its messages.
func runPlans(k *checks.Check, tier string, race bool, plans []string, limit time.Duration, log bool) (*checks.Result, string, string) {
	l := "0"
	if log {
		l = "1"
	}
	c := command(race, "exec", k.ID, "tier="+tier, "log="+l)
	c.Stdin = strings.NewReader(strings.Join(plans, "\n") + "\n")
	var out bytes.Buffer
	errs := &tail{}
	c.Stdout, c.Stderr = &out, errs
	if err := c.Start(); err != nil {
		return nil, "", err.Error()
	}
	stalled := false
	t := time.AfterFunc(limit, func() { stalled = true; c.Process.Kill() })
	c.Wait()
	t.Stop()
	lines := bytes.Split(bytes.TrimSpace(out.Bytes()), []byte("\n"))
	if len(lines) == len(plans) {
		r := &checks.Result{}
		if json.Unmarshal(lines[len(lines)-1], r) == nil {
			if r.V != nil && r.V.Class == "race" {
				if ownRaces(errs.String()) {
					fmt.Println("note: a data race of the simulator itself is ignored")
					r.V = nil
					return r, "", ""
				}
				r.V.Msg += "\n" + raceReport(errs.String())
			}
			return r, "", ""
		}
	}
	if stalled {
		return nil, "stall", "the process made no progress"
	}
	e := errs.String()
	if i := strings.Index(e, "fatal error"); i >= 0 {
		e = e[i:]
	}
	if len(e) > 3000 {
		e = e[:3000]
	}
	return nil, "fatal", "the process was ended: " + e
}

func check(k *checks.Check, arg map[string]string) int {
	t0 := time.Now()
	s := &search{k: k, tier: arg["tier"], seed: arg["seed"]}
	n, nr := uint64(k.N), uint64(k.Race)
	budget := 170 * time.Second
	if s.tier == "thorough" {
		n, nr = n*100, nr*100
		budget = 1800 * time.Second
	}
	if arg["budget"] != "" {
		budget = time.Duration(num(arg["budget"])) * time.Second
	}
	if arg["scale"] != "" {
		n, nr = n*num(arg["scale"])/100, nr*num(arg["scale"])/100
	}
	const workers = 8
	var wg sync.WaitGroup
	start := func(race bool, base, total uint64) {
		for w := uint64(0); w < workers; w++ {
			cnt := total / workers
			if w < total%workers {
				cnt++
			}
			if cnt == 0 {
				continue
			}
			wg.Add(1)
			go func(w, cnt uint64) {
				defer wg.Done()
				s.worker(race, base+w, workers, cnt, budget)
			}(w, cnt)
		}
	}
	start(false, 0, n)
	if nr > 0 {
		start(true, n, nr)
	}
	wg.Wait()

	// determinism: the first runs again, each in a fresh process
	same, differ := 0, 0
	if arg["nodet"] == "" {
		var is []uint64
		want := map[uint64]uint64{}
		for _, a := range s.aggs {
			for i, h := range a.First {
				if i < n {
					is = append(is, i)
					want[i] = h
				}
			}
		}
		sort.Slice(is, func(a, b int) bool { return is[a] < is[b] })
		if len(is) > 8 {
			is = is[:8]
		}
		var mu sync.Mutex
		var dg sync.WaitGroup
		for n, plan := range s.plans(is) {
			dg.Add(1)
			i, plan := is[n], plan
			go func() {
				defer dg.Done()
				r, _, _ := runPlans(k, s.tier, false, []string{plan}, stall, false)
				mu.Lock()
				defer mu.Unlock()
				if r != nil && r.Stats.Hash == want[i] {
					same++
				} else {
					differ++
					fmt.Fprintf(os.Stderr, "note: plan %d did not repeat exactly\n", i)
				}
			}()
		}
		dg.Wait()
	}

	sort.Slice(s.finds, func(a, b int) bool { return s.finds[a].i < s.finds[b].i })
	known := loadKnown(arg["known"], k.ID)
	code := 0
	violations := 0
	said := map[string]bool{}
	for _, f := range s.finds {
		if m := known.match(f.res.V); m != "" {
			if !said[m] {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", k.ID, m)
				said[m] = true
			}
			continue
		}
		violations++
		if code == 0 {
			if p := s.report(f, arg); p != "" {
				code = 1
			}
		}
	}
	for _, l := range s.lost {
		fmt.Fprintln(os.Stderr, "trouble: "+l)
	}
	if !s.evidence(arg, time.Since(t0), violations, same, differ) {
		return 3
	}
	if code == 0 && (len(s.lost) > 0 || len(s.aggs) == 0) {
		return 3
	}
	return code
}

// report confirms, minimises and writes down a violation.
func (s *search) report(f find, arg map[string]string) string {
	k := s.k
	class := f.res.V.Class
	fmt.Printf("found: property=%s plan %d class %s: %s\n", k.ID, f.i, class, f.res.V.Msg)
	plans := []string{f.plan}
	r, how, _ := runPlans(k, s.tier, f.race, plans, stall, false)
	ok := func(r *checks.Result, how string) bool {
		return (r != nil && r.V != nil && r.V.Class == class) || (r == nil && how == class)
	}
	repeats := ok(r, how)
	if !repeats && f.i > f.first {
		// does it need what went before in the same process?
		var is []uint64
		for i := f.first; i <= f.i; i += f.stride {
			is = append(is, i)
		}
		ps := s.plans(is)
		for n := 1; !repeats && len(ps) > 0; n *= 4 {
			q := ps
			if n < len(ps) {
				q = ps[len(ps)-1-n:]
			}
			r2, how2, _ := runPlans(k, s.tier, f.race, q, 10*time.Minute, false)
			if ok(r2, how2) {
				repeats = true
				plans, r, how = q, r2, how2
			}
			if n >= len(ps) {
				break
			}
		}
	}
	if !repeats && class == "race" {
		// (the detector forgets; without a replay there is nothing to show)
		fmt.Printf("note: plan %d's data race did not show again\n", f.i)
		return ""
	}
	if repeats && len(plans) == 1 && arg["noshrink"] == "" {
		sh := &shrinker{k: k, tier: s.tier, race: f.race, class: class, end: time.Now().Add(60 * time.Second)}
		plans[0] = sh.shrink(plans[0], r)
	}
	msgText := f.res.V.Msg
	var trace []string
	if r, how, errs := runPlans(k, s.tier, f.race, plans, stall, true); ok(r, how) {
		if r != nil {
			msgText, trace = r.V.Msg, r.Trace
		} else {
			msgText = errs
		}
	}
	var raw []json.RawMessage
	for _, p := range plans {
		raw = append(raw, json.RawMessage(p))
	}
	file := replayFile{Property: k.ID, Class: class, Message: msgText, Seed: s.seed, Index: f.i, Tier: s.tier, Race: f.race, Repeats: repeats, Plans: raw, Trace: trace}
	b, _ := json.MarshalIndent(file, "", " ")
	dir := arg["replays"]
	if dir == "" {
		dir = "."
	}
	os.MkdirAll(dir, 0755)
	p := filepath.Join(dir, fmt.Sprintf("%s-%s-%d.json", k.ID, s.seed, f.i))
	if err := os.WriteFile(p, append(b, '\n'), 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
	fmt.Printf("minimised: %s\n", msgText)
	fmt.Printf("VIOLATION property=%s replay=%s\n", k.ID, p)
	return p
}

type replayFile struct {
	Property string            `json:"property"`
	Class    string            `json:"class"`
	Message  string            `json:"message"`
	Seed     string            `json:"seed"`
	Index    uint64            `json:"index"`
	Tier     string            `json:"tier"`
	Race     bool              `json:"race,omitempty"`
	Repeats  bool              `json:"repeats"`
	Plans    []json.RawMessage `json:"plans"`
	Trace    []string          `json:"trace,omitempty"`
}

func replay(k *checks.Check, arg map[string]string) int {
	b, err := os.ReadFile(arg["replay"])
	var f replayFile
	if err == nil {
		err = json.Unmarshal(b, &f)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	var plans []string
	for _, p := range f.Plans {
		var c bytes.Buffer
		json.Compact(&c, p)
		plans = append(plans, c.String())
	}
	r, how, errs := runPlans(k, f.Tier, f.Race, plans, 10*time.Minute, true)
	switch {
	case r != nil && r.V == nil:
		fmt.Printf("no violation of %s in this replay\n", k.ID)
		return 0
	case r != nil:
		fmt.Printf("class %s: %s\n", r.V.Class, r.V.Msg)
		for _, l := range r.Trace {
			fmt.Println("  " + l)
		}
		if r.V.Class != f.Class {
			fmt.Printf("note: recorded as class %s\n", f.Class)
		}
	case how != "":
		fmt.Printf("class %s: %s\n", how, errs)
	default:
		fmt.Fprintln(os.Stderr, errs)
		return 3
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", k.ID, arg["replay"])
	return 1
}

type knownList []*regexp.Regexp

// loadKnown reads the listed findings of a property: lines
// "finding: property=<id> class=<class> match=<regexp on the message>".
func loadKnown(path, id string) *known {
	kn := &known{}
	b, err := os.ReadFile(path)
	if err != nil {
		return kn
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: property="+id+" class=") {
			continue
		}
		l = strings.TrimPrefix(l, "finding: property="+id+" class=")
		class, rest, ok := strings.Cut(l, " match=")
		if !ok {
			continue
		}
		re, err := regexp.Compile(rest)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			continue
		}
		kn.class = append(kn.class, class)
		kn.re = append(kn.re, re)
	}
	return kn
}

type known struct {
	class []string
	re    knownList
}

func (kn *known) match(v *checks.Violation) string {
	for i, re := range kn.re {
		if kn.class[i] == v.Class && re.MatchString(v.Msg) {
			return kn.class[i] + " " + re.String()
		}
	}
	return ""
}

func (s *search) evidence(arg map[string]string, wall time.Duration, violations, same, differ int) bool {
	var t Agg
	t.Fired, t.Notes = map[string]int{}, map[string]int{}
	hs, is := map[uint64]bool{}, map[uint64]bool{}
	for _, a := range s.aggs {
		t.Evals += a.Evals
		t.Skips += a.Skips
		t.Trivials += a.Trivials
		t.Steps += a.Steps
		t.SimNS += a.SimNS
		t.Switches += a.Switches
		t.Sims += a.Sims
		t.Ops += a.Ops
		t.Judged += a.Judged
		for f, c := range a.Fired {
			t.Fired[f] += c
		}
		for f, c := range a.Notes {
			t.Notes[f] += c
		}
		for _, h := range a.Hashes {
			hs[h] = true
		}
		for _, h := range a.Inters {
			is[h] = true
		}
	}
	var samples []interface{}
	for i, p := range s.plans([]uint64{0, 1, 2}) {
		if len(p) < 4000 {
			samples = append(samples, map[string]interface{}{"index": i, "plan": json.RawMessage([]byte(p))})
		} else {
			samples = append(samples, map[string]interface{}{"index": i, "plan_text": p[:4000] + "..."})
		}
	}
	h := wall.Hours()
	cov := map[string]interface{}{
		"evaluations": t.Evals, "distinct_nontrivial": len(hs), "rule": s.k.Rule, "samples": samples,
		"simulations":             t.Sims,
		"runs_per_hour":           int(float64(t.Evals) / h),
		"simulations_per_hour":    int(float64(t.Sims) / h),
		"simulated_seconds":       float64(t.SimNS) / 1e9,
		"scheduler_steps":         t.Steps,
		"switches":                t.Switches,
		"distinct_interleavings":  len(is),
		"interleaving_measure":    "hash of the sequence of (scheduler step, task given the turn) of the simulations with more than one task",
		"distinctness_measure":    "hash over switches, steps and the sequence of operating system calls with the faults that hit them",
		"simulated_system_calls":  t.Ops,
		"faults_fired":            t.Fired,
		"comparisons":             t.Judged,
		"skipped":                 t.Skips,
		"trivial":                 t.Trivials,
		"events":                  t.Notes,
		"determinism":             map[string]int{"repeated_in_fresh_process": same + differ, "identical": same},
		"components_real":         realParts + s.k.Real,
		"components_stubbed":      stubParts + s.k.Stub,
		"race_detector_runs_plan": s.k.Race > 0,
	}
	ev := map[string]interface{}{
		"property": s.k.ID, "tier": s.tier, "seed": num(s.seed), "level": "exploration", "coverage": cov, "wall_s": wall.Seconds(), "violations": violations,
		"assumptions": []string{
			"the instrumented copy of /repo behaves as /repo does: every statement is kept, with a yield point before it and operating system packages replaced by the simulated machine",
			"the simulated machine's files, mappings, descriptors and errors behave as Linux's do",
		},
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return false
	}
	out := arg["evidence"]
	if out == "" {
		return true
	}
	if err := os.MkdirAll(filepath.Dir(out), 0755); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return false
	}
	if err := os.WriteFile(out, append(b, '\n'), 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return false
	}
	fmt.Printf("%s: %d runs (%d simulations), %d distinct non-trivial, %d skipped, %d comparisons, %.1f s\n", s.k.ID, t.Evals, t.Sims, len(hs), t.Skips, t.Judged, wall.Seconds())
	return true
}

const realParts = "all Go code of the repository - library, internal packages and the six commands' main functions - compiled from its working tree, with a yield point before every statement; golang.org/x/text, gods, encoding/json, bufio, net/http file systems and the rest of the standard library as they are"

const stubParts = "what os, io/ioutil, path/filepath, syscall and x/sys/unix (mmap, munmap), time, flag, fmt's and log's standard streams, sync, math/rand, go statements and the order of map iteration reach: a simulated machine with disk, descriptors, mappings, clock, processes and a seeded scheduler"

var _ = io.EOF
