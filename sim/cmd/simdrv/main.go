// simdrv drives the simulations: it searches seeds, confirms and minimises
// what it finds, replays files and writes evidence.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"time"

	"vsim/checks"
)

func main() {
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: simdrv check|replay|work|exec|plan ID ...")
		os.Exit(3)
	}
	k := checks.All[os.Args[2]]
	if k == nil {
		fmt.Fprintln(os.Stderr, "no such check: "+os.Args[2])
		os.Exit(3)
	}
	arg := map[string]string{"tier": "quick", "seed": "1"}
	for _, a := range os.Args[3:] {
		for i := range a {
			if a[i] == '=' {
				arg[a[:i]] = a[i+1:]
				break
			}
		}
	}
	switch os.Args[1] {
	case "check":
		os.Exit(check(k, arg))
	case "replay":
		os.Exit(replay(k, arg))
	case "work":
		quiet()
		work(k, arg)
	case "exec":
		quiet()
		execPlans(k, arg)
	case "plan":
		quiet()
		for _, a := range os.Args[3:] {
			if strings.HasPrefix(a, "i=") {
				fmt.Printf("%s\n", k.Plan(num(arg["seed"]), num(a[2:]), arg["tier"]))
			}
		}
	default:
		os.Exit(3)
	}
}

func quiet() {
	runtime.GOMAXPROCS(1)
	debug.SetMemoryLimit(2 << 30)
	debug.SetMaxStack(512 << 20)
}

func num(s string) uint64 {
	n, _ := strconv.ParseUint(s, 10, 64)
	return n
}

// Agg is what a worker did.
type Agg struct {
	checks.Stats
	Evals    int
	Skips    int
	Trivials int
	Hashes   []uint64
	Inters   []uint64
	First    map[uint64]uint64 // hashes of its first runs
}

// msg is a line a worker prints.
type msg struct {
	S    *uint64        `json:"s,omitempty"`
	I    uint64         `json:"i,omitempty"`
	Plan string         `json:"plan,omitempty"`
	Res  *checks.Result `json:"res,omitempty"`
	Agg  *Agg           `json:"agg,omitempty"`
}

func work(k *checks.Check, arg map[string]string) {
	seed, first, stride, count := num(arg["seed"]), num(arg["first"]), num(arg["stride"]), num(arg["count"])
	deadline := time.Now().Add(time.Duration(num(arg["budget"])) * time.Second)
	w := bufio.NewWriter(os.Stdout)
	e := json.NewEncoder(w)
	a := &Agg{First: map[uint64]uint64{}}
	a.Fired = map[string]int{}
	a.Notes = map[string]int{}
	hs, is := map[uint64]bool{}, map[uint64]bool{}
	found, stop := 0, 5
	if arg["stop"] != "" {
		stop = int(num(arg["stop"]))
	}
	for n := uint64(0); n < count; n++ {
		if time.Now().After(deadline) {
			break
		}
		i := first + n*stride
		e.Encode(msg{S: &i})
		w.Flush()
		plan := k.Plan(seed, i, arg["tier"])
		r := k.Run(plan, arg["tier"], false)
		if r.Bad != "" {
			fmt.Fprintln(os.Stderr, r.Bad)
			os.Exit(3)
		}
		st := r.Stats
		a.Evals++
		if n < 4 {
			a.First[i] = st.Hash
		}
		if st.Skipped {
			a.Skips++
		} else if st.Trivial {
			a.Trivials++
		} else {
			hs[st.Hash] = true
		}
		if st.Inter != 0 {
			is[st.Inter] = true
		}
		a.Steps += st.Steps
		a.SimNS += st.SimNS
		a.Switches += st.Switches
		a.Sims += st.Sims
		a.Ops += st.Ops
		a.Judged += st.Judged
		for f, c := range st.Fired {
			a.Fired[f] += c
		}
		for f, c := range st.Notes {
			a.Notes[f] += c
		}
		if r.V != nil {
			e.Encode(msg{I: i, Plan: string(plan), Res: r})
			w.Flush()
			if found++; found >= stop {
				break
			}
		}
	}
	for h := range hs {
		a.Hashes = append(a.Hashes, h)
	}
	for h := range is {
		a.Inters = append(a.Inters, h)
	}
	e.Encode(msg{Agg: a})
	w.Flush()
}

// execPlans executes each plan on standard input, one per line, and prints its
// result.
func execPlans(k *checks.Check, arg map[string]string) {
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	w := bufio.NewWriter(os.Stdout)
	e := json.NewEncoder(w)
	for {
		b, err := in.ReadBytes('\n')
		if len(b) > 1 {
			e.Encode(k.Run(b, arg["tier"], arg["log"] == "1"))
			w.Flush()
		}
		if err == io.EOF {
			return
		}
	}
}
