package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os/exec"
	"sort"
	"time"

	"vsim/checks"
)

// shrinker makes a plan smaller while it keeps failing in the same way.
type shrinker struct {
	k     *checks.Check
	tier  string
	race  bool
	class string
	end   time.Time
	tries int

	c   *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
}

func (s *shrinker) stop() {
	if s.c != nil {
		s.in.Close()
		s.c.Process.Kill()
		s.c.Wait()
		s.c = nil
	}
}

// fails executes a plan in a process kept for the purpose.
func (s *shrinker) fails(plan string) (*checks.Result, bool) {
	s.tries++
	if s.class == "fatal" || s.class == "stall" {
		if s.class == "stall" {
			return nil, false
		}
		r, how, _ := runPlans(s.k, s.tier, s.race, []string{plan}, 20*time.Second, false)
		return r, r == nil && how == s.class
	}
	if s.c == nil {
		s.c = command(s.race, "exec", s.k.ID, "tier="+s.tier)
		s.in, _ = s.c.StdinPipe()
		o, _ := s.c.StdoutPipe()
		s.out = bufio.NewReaderSize(o, 1<<20)
		if s.c.Start() != nil {
			s.c = nil
			return nil, false
		}
	}
	t := time.AfterFunc(30*time.Second, func() { s.c.Process.Kill() })
	defer t.Stop()
	_, err := io.WriteString(s.in, plan+"\n")
	var b []byte
	if err == nil {
		b, err = s.out.ReadBytes('\n')
	}
	if err != nil {
		s.stop()
		return nil, false
	}
	r := &checks.Result{}
	if json.Unmarshal(b, r) != nil {
		return nil, false
	}
	return r, r.V != nil && r.V.Class == s.class
}

func (s *shrinker) shrink(plan string, r *checks.Result) string {
	defer s.stop()
	var v interface{}
	d := json.NewDecoder(bytes.NewReader([]byte(plan)))
	d.UseNumber()
	if d.Decode(&v) != nil {
		return plan
	}
	// the schedule as an explicit list of switches
	if m, ok := v.(map[string]interface{}); ok && m["sched"] != nil && r != nil && len(r.Rec) > 0 {
		old := m["sched"]
		if len(r.Rec) < 20000 {
			b, _ := json.Marshal(map[string]interface{}{"kind": "list", "list": r.Rec})
			var l interface{}
			e := json.NewDecoder(bytes.NewReader(b))
			e.UseNumber()
			e.Decode(&l)
			m["sched"] = l
			if _, ok := s.fails(dump(v)); !ok {
				m["sched"] = old
			}
		}
	}
	for round := 0; round < 6 && time.Now().Before(s.end); round++ {
		before := dump(v)
		s.node(&v, v, "", func(x interface{}) bool {
			_, ok := s.fails(dump(x))
			return ok
		})
		if dump(v) == before {
			break
		}
	}
	p := dump(v)
	// must still fail in a process of its own
	if r, how, _ := runPlans(s.k, s.tier, s.race, []string{p}, 30*time.Second, false); !((r != nil && r.V != nil && r.V.Class == s.class) || (r == nil && how == s.class)) {
		return plan
	}
	return p
}

func dump(v interface{}) string {
	var b bytes.Buffer
	e := json.NewEncoder(&b)
	e.SetEscapeHTML(false)
	e.Encode(v)
	return string(bytes.TrimSpace(b.Bytes()))
}

// node shrinks the value in place; root is the whole plan.
func (s *shrinker) node(root *interface{}, v interface{}, key string, ok func(interface{}) bool) {
	// set is how a container replaces one of its children
	var walk func(v interface{}, key string, set func(interface{}))
	try := func(set func(interface{}), old, new interface{}) bool {
		if !time.Now().Before(s.end) {
			return false
		}
		set(new)
		if ok(*root) {
			return true
		}
		set(old)
		return false
	}
	walk = func(v interface{}, key string, set func(interface{})) {
		if !time.Now().Before(s.end) {
			return
		}
		switch x := v.(type) {
		case []interface{}:
			for n := len(x); n >= 1; n /= 2 {
				for i := 0; i+n <= len(x); {
					y := append(append([]interface{}{}, x[:i]...), x[i+n:]...)
					if try(set, x, y) {
						x = y
					} else {
						i += n
					}
				}
			}
			if key == "list" && len(x) > 40 {
				return
			}
			for i := range x {
				i := i
				walk(x[i], key, func(n interface{}) { x[i] = n })
			}
		case map[string]interface{}:
			var ks []string
			for k := range x {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				old := x[k]
				delete(x, k)
				if time.Now().Before(s.end) && ok(*root) {
					continue
				}
				x[k] = old
				k := k
				walk(old, k, func(n interface{}) { x[k] = n })
			}
		case string:
			r := []rune(x)
			for n := len(r); n >= 1; n /= 2 {
				for i := 0; i+n <= len(r); {
					y := string(r[:i]) + string(r[i+n:])
					if try(set, string(r), y) {
						r = []rune(y)
					} else {
						i += n
					}
				}
			}
		case json.Number:
			switch key {
			case "seed", "mseed", "map", "s", "t":
				return
			}
			n, err := x.Int64()
			if err != nil {
				return
			}
			cur := x
			for _, c := range []int64{0, 1, n / 4, n / 2, n - n/4, n - 1} {
				if c >= n || c < 0 {
					continue
				}
				y := json.Number(fmt.Sprint(c))
				if try(set, cur, y) {
					cur = y
					break
				}
			}
		case bool:
			if x {
				try(set, true, false)
			}
		}
	}
	walk(v, key, func(n interface{}) { *root = n })
}
