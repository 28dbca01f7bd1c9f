// Command explore decides C29: it enumerates every schedule of the workloads up to a preemption bound on
// the instrumented library (package vsched decides who runs) and compares what each thread saw, and the
// shared state afterwards, with the same operations run alone.
//
//	explore run TIER EVIDENCE RACEFILE | explore replay FILE
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/Wieku/gosu-pp/vsched"

	"vmc/c29/bodies"
)

type artefact struct {
	Property string          `json:"property"`
	Workload bodies.Workload `json:"workload"`
	Start    int             `json:"start"`
	Plan     []vsched.Switch `json:"plan"`
	Every    bool            `json:"every_statement"`
	At       []string        `json:"preempted_at"`
	Message  string          `json:"message"`
}

type job struct {
	W     int  // workload
	Three bool // from Triples
	Bound int
	Every bool
}

func (j job) workload() bodies.Workload {
	if j.Three {
		return bodies.Triples()[j.W]
	}
	return bodies.Pairs()[j.W]
}

func (j job) name() string {
	g := "calls and package state"
	if j.Every {
		g = "every statement"
	}
	return fmt.Sprintf("%d preemption(s) at %s", j.Bound, g)
}

// jobs lists the explorations of a tier in order.
func jobs(tier string) []job {
	var out []job
	ps, ts := bodies.Pairs(), bodies.Triples()
	for i := range ps {
		out = append(out, job{i, false, 1, true})
	}
	for i := range ts {
		out = append(out, job{i, true, 1, true})
	}
	cheap := func(w bodies.Workload) bool { // few points per execution
		for _, o := range w.Threads {
			switch bodies.Ops[o].Name {
			case "build", "parse", "curves", "parse-odd", "paths", "long-paths":
				return false
			}
		}
		return true
	}
	small := func(w bodies.Workload) bool {
		for _, o := range w.Threads {
			switch bodies.Ops[o].Name {
			case "pp", "mods", "timing", "difficulty", "positions":
			default:
				return false
			}
		}
		return true
	}
	for i, w := range ps {
		if small(w) {
			out = append(out, job{i, false, 2, false})
		}
	}
	if tier == "thorough" {
		for i, w := range ps {
			if cheap(w) && !small(w) { // all but the pairs that build sliders
				out = append(out, job{i, false, 2, false})
			}
		}
		for i, w := range ps {
			if small(w) {
				out = append(out, job{i, false, 2, true})
			}
		}
		for i := range ts {
			out = append(out, job{i, true, 2, false})
		}
		for i, w := range ps {
			if !cheap(w) {
				out = append(out, job{i, false, 2, false})
			}
		}
	}
	return out
}

// expectation is what an operation returns alone, from a cold start.
var expected = map[[2]int]string{}
var dumps = map[int]string{}

func expect(op, m int) string {
	k := [2]int{op, m}
	if v, ok := expected[k]; ok {
		return v
	}
	vsched.Cold()
	var v string
	vsched.Alone(func() { v = bodies.Ops[op].Run(bodies.New(m), m) })
	expected[k] = v
	return v
}

func dump(m int) string {
	if v, ok := dumps[m]; ok {
		return v
	}
	vsched.Cold()
	var v string
	vsched.Alone(func() { v = bodies.New(m).Dump() })
	dumps[m] = v
	return v
}

func execute(w bodies.Workload, start int, plan []vsched.Switch, every bool) (vsched.Result, string) {
	out := make([]string, len(w.Threads))
	exp := make([]string, len(w.Threads))
	var want []string
	for i, o := range w.Threads {
		k := 0
		if !w.Shared {
			k = i % 2
			want = append(want, dump(k))
		}
		exp[i] = expect(o, k)
	}
	if w.Shared {
		want = []string{dump(0)}
	}
	vsched.Cold()
	var st *bodies.State
	var bs []func()
	vsched.Alone(func() { st, bs = w.Prepare(out) })
	vsched.Cold()
	r := vsched.Run(bs, start, plan, every)
	if r.Stuck != "" {
		return r, r.Stuck
	}
	for i, p := range r.Panics {
		if p != "" {
			op := "started by the library"
			if i < len(w.Threads) {
				op = bodies.Ops[w.Threads[i]].Name
			}
			return r, fmt.Sprintf("thread %d (%s) panicked: %s", i, op, p)
		}
	}
	for i := range out {
		if out[i] != exp[i] {
			return r, fmt.Sprintf("thread %d (%s) got %s, alone it gets %s", i, bodies.Ops[w.Threads[i]].Name, first(out[i], exp[i]), first(exp[i], out[i]))
		}
	}
	for i, m := range st.Maps {
		var d string
		m := m
		vsched.Alone(func() { d = m.Dump() })
		if d != want[i] {
			return r, fmt.Sprintf("afterwards map %d is %s instead of %s", i, first(d, want[i]), first(want[i], d))
		}
	}
	return r, ""
}

func first(a, b string) string {
	n := 0
	for n < len(a) && n < len(b) && a[n] == b[n] {
		n++
	}
	lo, hi := n-40, n+80
	if lo < 0 {
		lo = 0
	}
	if hi > len(a) {
		hi = len(a)
	}
	return fmt.Sprintf("...%q... (differs at byte %d)", a[lo:hi], n)
}

type report struct {
	Job        int
	Execs      int64
	Points     int64
	Schedules  int64 // distinct (start, preemption locations)
	Longest    int64
	Done       bool
	Sample     string
	Violation  *artefact
	Reproduced int
}

func child(shard, n int, tier string, deadline time.Time) {
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(2 << 30)
	enc := json.NewEncoder(os.Stdout)
	for ji, j := range jobs(tier) {
		w := j.workload()
		rep := report{Job: ji, Done: true}
		seen := map[uint64]struct{}{}
		fail := func(start int, plan []vsched.Switch, r vsched.Result, msg string) {
			a := &artefact{"C29", w, start, append([]vsched.Switch{}, plan...), j.Every, r.At, msg}
			rep.Violation = a
			if r.Stuck == "" {
				for i := 0; i < 5; i++ {
					if _, m := execute(w, start, plan, j.Every); m != "" {
						rep.Reproduced++
					}
				}
			}
			_ = enc.Encode(rep)
			os.Exit(0)
		}
		run := func(start int, plan []vsched.Switch) vsched.Result {
			r, msg := execute(w, start, plan, j.Every)
			rep.Execs++
			rep.Points += r.Points
			if r.Points > rep.Longest {
				rep.Longest = r.Points
			}
			h := fnv.New64a()
			fmt.Fprint(h, start, len(plan))
			for i, a := range r.At {
				h.Write([]byte(a))
				h.Write([]byte{byte(plan[i].To)})
			}
			seen[h.Sum64()] = struct{}{}
			if msg != "" {
				fail(start, plan, r, msg)
			}
			if rep.Sample == "" && len(plan) > 0 && r.Switched == len(plan) && plan[0].K > 40 {
				rep.Sample = fmt.Sprintf("%s: thread %d first, preempted at %s", w.Name, start, strings.Join(r.At, ", then at "))
			}
			return r
		}
		nt := len(w.Threads)
		for start := 0; start < len(w.Threads) && rep.Done; start++ {
			a := run(start, nil)
			if n := len(a.Panics); n > nt {
				nt = n // threads the library starts itself
			}
			if shard == 0 {
				if os.Getenv("C29_POINTS") != "" {
					fmt.Fprintln(os.Stderr, "points", a.Points, w.Name)
				}
				if b := run(start, nil); a.Points != b.Points {
					fmt.Fprintf(os.Stderr, "explorer: %s: the same schedule took %d and %d points\n", w.Name, a.Points, b.Points)
				}
			}
			for to1 := 0; to1 < nt; to1++ {
				if to1 == start {
					continue
				}
			outer:
				for k := int64(1 + shard); ; k += int64(n) {
					if time.Now().After(deadline) {
						rep.Done = false
						break
					}
					p := []vsched.Switch{{K: k, To: to1}}
					if r := run(start, p); r.Switched < 1 {
						break
					}
					if j.Bound < 2 {
						continue
					}
					for to2 := 0; to2 < nt; to2++ {
						if to2 == to1 {
							continue
						}
						for k2 := int64(1); ; k2++ {
							if k2&63 == 0 && time.Now().After(deadline) {
								rep.Done = false
								break outer
							}
							r := run(start, []vsched.Switch{p[0], {K: k2, To: to2}})
							if r.Switched < 2 {
								break
							}
						}
					}
				}
			}
		}
		rep.Schedules = int64(len(seen))
		_ = enc.Encode(rep)
	}
}

type raceRun struct {
	Ran        bool
	Iterations int
	Note       string
	Failure    string
}

func parent(tier, evidence, raceFile string) int {
	t0 := time.Now()
	limit := 240
	if tier == "thorough" {
		limit = 760
	}
	if s, err := strconv.Atoi(os.Getenv("VERIF_DEADLINE_S")); err == nil {
		limit = s
	}
	n := runtime.GOMAXPROCS(0)
	js := jobs(tier)
	type agg struct {
		report
		shards int
	}
	tot := make([]agg, len(js))
	for i := range tot {
		tot[i].Done = true
	}
	var mu sync.Mutex
	var viol *artefact
	repro := 0
	var crash string
	var procs []*exec.Cmd
	var wg sync.WaitGroup
	var samples []interface{}
	for s := 0; s < n; s++ {
		c := exec.Command(os.Args[0], "child", strconv.Itoa(s), strconv.Itoa(n), tier, strconv.FormatInt(t0.Add(time.Duration(limit)*time.Second).UnixNano(), 10))
		c.Env = append(os.Environ(), "GOMAXPROCS=2")
		var eb strings.Builder
		c.Stderr = &eb
		so, err := c.StdoutPipe()
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		if err := c.Start(); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		procs = append(procs, c)
		wg.Add(1)
		go func() {
			defer wg.Done()
			sc := bufio.NewScanner(so)
			sc.Buffer(nil, 1<<26)
			for sc.Scan() {
				var r report
				if json.Unmarshal(sc.Bytes(), &r) != nil {
					continue
				}
				mu.Lock()
				a := &tot[r.Job]
				a.Execs += r.Execs
				a.Points += r.Points
				a.Schedules += r.Schedules
				if r.Longest > a.Longest {
					a.Longest = r.Longest
				}
				a.Done = a.Done && r.Done
				a.shards++
				if a.Sample == "" {
					a.Sample = r.Sample
				}
				if r.Violation != nil && (viol == nil || len(r.Violation.Plan) < len(viol.Plan)) {
					viol, repro = r.Violation, r.Reproduced
					for _, p := range procs {
						_ = p.Process.Kill()
					}
				}
				mu.Unlock()
			}
			err := c.Wait()
			mu.Lock()
			if err != nil && viol == nil && crash == "" {
				crash = fmt.Sprintf("%v: %s", err, eb.String())
			} else if eb.Len() > 0 {
				fmt.Fprint(os.Stderr, eb.String())
			}
			mu.Unlock()
		}()
	}
	wg.Wait()
	race := raceRun{Note: "not run"}
	if b, err := os.ReadFile(raceFile); err == nil {
		_ = json.Unmarshal(b, &race)
	}
	var execs, points, scheds int64
	exhaustive := true
	kinds := map[string]map[string]int64{}
	var order []string
	for i, j := range js {
		a := tot[i]
		execs += a.Execs
		points += a.Points
		scheds += a.Schedules
		done := a.Done && a.shards == n
		exhaustive = exhaustive && done
		k := fmt.Sprintf("%d threads, %s", len(j.workload().Threads), j.name())
		if kinds[k] == nil {
			kinds[k] = map[string]int64{"workloads": 0, "workloads_complete": 0, "executions": 0, "points": 0, "distinct_schedules": 0, "longest_execution_points": 0}
			order = append(order, k)
		}
		kinds[k]["workloads"]++
		if done {
			kinds[k]["workloads_complete"]++
		}
		kinds[k]["executions"] += a.Execs
		kinds[k]["points"] += a.Points
		kinds[k]["distinct_schedules"] += a.Schedules
		if a.Longest > kinds[k]["longest_execution_points"] {
			kinds[k]["longest_execution_points"] = a.Longest
		}
		if a.Sample != "" && len(samples) < 12 {
			samples = append(samples, a.Sample)
		}
	}
	code := 0
	if viol != nil || crash != "" || race.Failure != "" {
		code = 1
	}
	if len(samples) == 0 {
		samples = []interface{}{"none completed"}
	}
	ev := map[string]interface{}{
		"property": "C29", "tier": tier, "seed": seed(), "level": "model_checking",
		"coverage": map[string]interface{}{
			"states": scheds, "transitions": points, "traces_validated_against_impl": execs, "evaluations": execs,
			"rule":       "one execution = one schedule of two or three threads running real library calls under the controlled scheduler; states counts distinct schedules by the source positions of their preemptions, transitions the scheduling points passed; every thread's results and the shared objects are compared with the same calls run alone from a cold start",
			"samples":    samples,
			"exhaustive": exhaustive, "classes": kinds, "race_pass": race,
		},
		"assumptions": []string{"threads interleave at statement boundaries of the library (calls inside a statement are split at the callee's entry); memory is sequentially consistent", "unsynchronised accesses are searched by the separate race pass"},
		"wall_s":      time.Since(t0).Seconds(), "violations": code,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	_ = os.MkdirAll(filepath.Dir(evidence), 0o755)
	if err := os.WriteFile(evidence, b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	for _, k := range order {
		fmt.Printf("C29/%s: %v\n", k, kinds[k])
	}
	fmt.Printf("C29/race pass: %+v\n", race)
	_ = os.MkdirAll("replays", 0o755)
	switch {
	case viol != nil:
		p := "replays/C29-schedule.json"
		b, _ := json.MarshalIndent(viol, "", " ")
		_ = os.WriteFile(p, b, 0o644)
		fmt.Printf("%s, thread %d first, preempted at %v (reproduced %d/5): %s\nVIOLATION property=C29 replay=%s\n", viol.Workload.Name, viol.Start, viol.At, repro, viol.Message, p)
		return 1
	case crash != "":
		if !strings.Contains(crash, "gosu-pp") || !strings.Contains(crash, "fatal error") && !strings.Contains(crash, "panic") {
			fmt.Fprintln(os.Stderr, crash)
			return 2
		}
		_ = os.WriteFile("replays/C29-crash.txt", []byte(crash), 0o644)
		fmt.Printf("%.600s\nVIOLATION property=C29 replay=replays/C29-crash.txt\n", crash)
		return 1
	case race.Failure != "":
		_ = os.WriteFile("replays/C29-race.txt", []byte(race.Failure), 0o644)
		fmt.Printf("%.1500s\nVIOLATION property=C29 replay=replays/C29-race.txt\n", race.Failure)
		return 1
	}
	fmt.Printf("C29: held on everything explored: executions=%d points=%d schedules=%d exhaustive=%v wall=%.1fs\n", execs, points, scheds, exhaustive, time.Since(t0).Seconds())
	return 0
}

func seed() int64 { n, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); return n }

func main() {
	switch os.Args[1] {
	case "child":
		s, _ := strconv.Atoi(os.Args[2])
		n, _ := strconv.Atoi(os.Args[3])
		d, _ := strconv.ParseInt(os.Args[5], 10, 64)
		child(s, n, os.Args[4], time.Unix(0, d))
	case "run":
		os.Exit(parent(os.Args[2], os.Args[3], os.Args[4]))
	case "replay":
		b, err := os.ReadFile(os.Args[2])
		var a artefact
		if err != nil || json.Unmarshal(b, &a) != nil {
			fmt.Println(string(b))
			os.Exit(2)
		}
		_, m := execute(a.Workload, a.Start, a.Plan, a.Every)
		fmt.Printf("%s, thread %d first, plan %v at %v\n", a.Workload.Name, a.Start, a.Plan, a.At)
		if m != "" {
			fmt.Println("fails:", m)
			os.Exit(1)
		}
		fmt.Println("passes")
	}
}
