// Package core is a stateless, exhaustive explorer: a harness body makes every
// nondeterministic decision through X.Choose / X.Dev, and Run executes the body
// once for every sequence of decisions (depth first, in parallel).
package core

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Scenario is one closed system: a body whose decision tree is enumerated completely.
type Scenario struct {
	Name   string
	Bound  string // human-readable statement of alphabet and bound
	Budget int    // max number of non-default Dev choices per execution
	Body   func(x *X)
}

type Check struct {
	ID        string
	Rule      string
	Scenarios func(thorough bool) []Scenario
}

type failure struct{ msg string }

type probeStop struct{}

// X is one execution.
type X struct {
	choices  []int
	widths   []int
	pos      int
	fixed    int // choices[:fixed] belong to the prefix
	probe    bool
	lenient  bool
	replay   bool
	budget   int
	devsUsed int

	ops    int64
	traces int64
	desc   func() string
	rn     *runner
	Worker int
	Local  map[string]interface{}
	hits   map[uint64]struct{}
}

// Choose returns every value in [0,n) over the whole exploration.
func (x *X) Choose(n int) int {
	if n <= 0 {
		panic("Choose of nothing")
	}
	if n == 1 {
		return 0
	}
	if x.pos < len(x.choices) {
		c := x.choices[x.pos]
		if c >= n || (x.pos < len(x.widths) && x.widths[x.pos] != 0 && x.widths[x.pos] != n && !x.lenient) {
			if x.lenient {
				c = 0
				x.choices[x.pos] = 0
			} else {
				panic(fmt.Sprintf("explorer: replay diverged at decision %d (choice %d of %d)", x.pos, c, n))
			}
		}
		for len(x.widths) <= x.pos {
			x.widths = append(x.widths, 0)
		}
		x.widths[x.pos] = n
		x.pos++
		return c
	}
	if x.probe {
		x.widths = append(x.widths, n)
		panic(probeStop{})
	}
	x.choices = append(x.choices, 0)
	for len(x.widths) < len(x.choices) {
		x.widths = append(x.widths, 0)
	}
	x.widths[x.pos] = n
	x.pos++
	return 0
}

// Dev is Choose with a default: values other than 0 use up one deviation.
func (x *X) Dev(n int) int {
	if x.devsUsed >= x.budget || n <= 1 {
		return 0
	}
	c := x.Choose(n)
	if c != 0 {
		x.devsUsed++
	}
	return c
}

func (x *X) Bool() bool { return x.Choose(2) == 1 }

// Op counts transitions (operations executed on the implementation).
func (x *X) Op(n int) { x.ops += int64(n) }

// Trace counts behaviours of the implementation compared with the model.
func (x *X) Trace(n int) { x.traces += int64(n) }

// Desc says how to describe this execution.
func (x *X) Desc(f func() string) { x.desc = f }

// State records a canonical state hash.
func (x *X) State(h uint64) { x.rn.state(h) }

// Outcome records a distinct observed outcome.
func (x *X) Outcome(h uint64) { x.rn.outcome(h) }

// Fail ends the execution as a violation.
func (x *X) Fail(format string, a ...interface{}) {
	panic(failure{fmt.Sprintf(format, a...)})
}

func (x *X) Assert(ok bool, format string, a ...interface{}) {
	if !ok {
		panic(failure{fmt.Sprintf(format, a...)})
	}
}

// Replaying is true while a recorded violation is re-executed.
func (x *X) Replaying() bool { return x.replay }

const nShard = 64

type shardSet struct {
	mu sync.Mutex
	m  map[uint64]struct{}
}

type hashSet struct {
	s     [nShard]shardSet
	n     int64
	limit int64
}

func newHashSet(limit int64) *hashSet {
	h := &hashSet{limit: limit}
	for i := range h.s {
		h.s[i].m = map[uint64]struct{}{}
	}
	return h
}
func (h *hashSet) add(v uint64) {
	if atomic.LoadInt64(&h.n) >= h.limit {
		return
	}
	s := &h.s[(v*0x9E3779B97F4A7C15)>>58]
	s.mu.Lock()
	if _, ok := s.m[v]; !ok {
		s.m[v] = struct{}{}
		atomic.AddInt64(&h.n, 1)
	}
	s.mu.Unlock()
}

type violation struct {
	scenario string
	choices  []int
	msg      string
	desc     string
}

type runner struct {
	check    *Check
	sc       *Scenario
	states   *hashSet
	outcomes *hashSet

	execs, ops, traces int64
	stop               atomic.Bool
	capped             atomic.Bool
	viol               atomic.Pointer[violation]

	mu      sync.Mutex
	samples []string
	seen    int64

	cur []curExec
}

type curExec struct {
	mu    sync.Mutex
	start time.Time
	x     *X
}

func (r *runner) state(h uint64)   { r.states.add(h) }
func (r *runner) outcome(h uint64) { r.outcomes.add(h) }

// exec runs the body once and returns the failure message, if any.
func (r *runner) exec(x *X) (msg string, failed, stopped bool) {
	defer func() {
		if e := recover(); e != nil {
			switch v := e.(type) {
			case probeStop:
				stopped = true
			case failure:
				msg, failed = v.msg, true
			case string:
				if strings.HasPrefix(v, "explorer:") {
					panic(e)
				}
				msg, failed = "panic: "+v+"\n"+trimStack(), true
			default:
				msg, failed = fmt.Sprintf("panic: %v\n%s", e, trimStack()), true
			}
		}
	}()
	x.pos, x.devsUsed, x.ops, x.traces, x.desc = 0, 0, 0, 0, nil
	r.sc.Body(x)
	return
}

func trimStack() string {
	st := strings.Split(string(debug.Stack()), "\n")
	var out []string
	for _, l := range st {
		if strings.Contains(l, "gosu-pp") || strings.Contains(l, "vmc") {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) > 16 {
			break
		}
	}
	return strings.Join(out, "\n")
}

func (r *runner) describe(x *X) (s string) {
	defer func() {
		if e := recover(); e != nil {
			s = fmt.Sprint("choices ", x.choices)
		}
	}()
	if x.desc != nil {
		d := x.desc()
		if len(d) > 6000 {
			d = d[:4000] + fmt.Sprintf(" ... (%d bytes left out) ... ", len(d)-5000) + d[len(d)-1000:]
		}
		return d
	}
	return fmt.Sprint("choices ", x.choices)
}

func (r *runner) report(x *X, msg string) {
	v := &violation{scenario: r.sc.Name, choices: append([]int{}, x.choices...), msg: msg, desc: r.describe(x)}
	if r.viol.CompareAndSwap(nil, v) {
		r.stop.Store(true)
	}
}

func (r *runner) newX(w int) *X {
	return &X{rn: r, Worker: w, budget: r.sc.Budget, Local: map[string]interface{}{}}
}

// subtree explores everything below prefix.
func (r *runner) subtree(x *X, prefix []int, deadline time.Time) {
	x.choices = append(x.choices[:0], prefix...)
	x.widths = x.widths[:0]
	x.fixed = len(prefix)
	c := &r.cur[x.Worker]
	n := 0
	for {
		if r.stop.Load() {
			return
		}
		n++
		if n&15 == 0 && time.Now().After(deadline) {
			r.capped.Store(true)
			r.stop.Store(true)
			return
		}
		c.mu.Lock()
		c.start, c.x = time.Now(), x
		c.mu.Unlock()
		msg, failed, _ := r.exec(x)
		c.mu.Lock()
		c.x = nil
		c.mu.Unlock()
		atomic.AddInt64(&r.execs, 1)
		atomic.AddInt64(&r.ops, x.ops)
		atomic.AddInt64(&r.traces, x.traces)
		if failed {
			r.report(x, msg)
			return
		}
		r.sample(x)
		if x.pos != len(x.choices) {
			panic("explorer: execution used fewer decisions than its prefix")
		}
		// next sequence
		i := len(x.choices) - 1
		for i >= x.fixed && x.choices[i]+1 >= x.widths[i] {
			i--
		}
		if i < x.fixed {
			return
		}
		x.choices = x.choices[:i+1]
		x.widths = x.widths[:i+1]
		x.choices[i]++
	}
}

func (r *runner) sample(x *X) {
	k := atomic.AddInt64(&r.seen, 1)
	if k&(k-1) != 0 { // powers of two only
		return
	}
	d := r.describe(x)
	if len(d) > 900 {
		d = d[:900] + "..."
	}
	r.mu.Lock()
	r.samples = append(r.samples, d)
	if len(r.samples) > 12 {
		r.samples = append(r.samples[:2], r.samples[len(r.samples)-8:]...)
	}
	r.mu.Unlock()
}

func (r *runner) run(workers int, deadline time.Time) {
	r.cur = make([]curExec, workers+1)
	// Phase 1: split the tree into subtrees.
	type node struct{ p []int }
	queue := []node{{nil}}
	var leaves []node
	target := workers * 48
	for depth := 0; len(queue) > 0 && len(queue)+len(leaves) < target && depth < 12; depth++ {
		var next []node
		for _, nd := range queue {
			x := r.newX(workers)
			x.probe = true
			x.choices = append([]int{}, nd.p...)
			c := &r.cur[workers]
			c.mu.Lock()
			c.start, c.x = time.Now(), x
			c.mu.Unlock()
			msg, failed, stopped := r.exec(x)
			c.mu.Lock()
			c.x = nil
			c.mu.Unlock()
			if failed {
				atomic.AddInt64(&r.execs, 1)
				r.report(x, msg)
				return
			}
			if !stopped {
				leaves = append(leaves, nd)
				continue
			}
			w := x.widths[len(x.widths)-1]
			for k := 0; k < w; k++ {
				next = append(next, node{append(append([]int{}, nd.p...), k)})
			}
		}
		queue = next
	}
	all := append(leaves, queue...)
	var idx int64 = -1
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			x := r.newX(w)
			for {
				i := int(atomic.AddInt64(&idx, 1))
				if i >= len(all) || r.stop.Load() {
					return
				}
				r.subtree(x, all[i].p, deadline)
			}
		}(w)
	}
	wg.Wait()
}

type artefact struct {
	Property string `json:"property"`
	Scenario string `json:"scenario"`
	Tier     string `json:"tier"`
	Choices  []int  `json:"choices"`
	Message  string `json:"message"`
	Case     string `json:"case"`
}

func rssBytes() int64 {
	b, err := os.ReadFile("/proc/self/statm")
	if err != nil {
		return 0
	}
	f := strings.Fields(string(b))
	if len(f) < 2 {
		return 0
	}
	n, _ := strconv.ParseInt(f[1], 10, 64)
	return n * int64(os.Getpagesize())
}

const hangLimit = 120 * time.Second
const rssLimit = int64(14) << 30

func writeReplay(id, tier string, v *violation) string {
	dir := os.Getenv("VERIF_REPLAYS")
	if dir == "" {
		dir = "replays"
	}
	_ = os.MkdirAll(dir, 0o755)
	p := filepath.Join(dir, fmt.Sprintf("%s-%s.json", id, v.scenario))
	b, _ := json.MarshalIndent(artefact{id, v.scenario, tier, v.choices, v.msg, v.desc}, "", " ")
	_ = os.WriteFile(p, b, 0o644)
	return p
}

// shrink greedily lowers decisions while the execution keeps failing.
func (r *runner) shrink(v *violation) {
	try := func(ch []int) (*violation, bool) {
		x := r.newX(0)
		x.lenient, x.replay = true, true
		x.choices = append([]int{}, ch...)
		done := make(chan bool, 1)
		var msg string
		var failed bool
		go func() {
			msg, failed, _ = r.exec(x)
			done <- true
		}()
		select {
		case <-done:
		case <-time.After(20 * time.Second):
			return nil, false
		}
		if !failed {
			return nil, false
		}
		return &violation{r.sc.Name, append([]int{}, x.choices[:x.pos]...), msg, r.describe(x)}, true
	}
	end := time.Now().Add(15 * time.Second)
	for changed := true; changed; {
		changed = false
		for i := len(v.choices) - 1; i >= 0; i-- {
			if i >= len(v.choices) {
				continue
			}
			for _, to := range []int{0, v.choices[i] / 2, v.choices[i] - 1} {
				if to < 0 || i >= len(v.choices) || to >= v.choices[i] || time.Now().After(end) {
					continue
				}
				ch := append([]int{}, v.choices...)
				ch[i] = to
				if nv, ok := try(ch); ok && len(nv.choices) <= len(v.choices) {
					*v = *nv
					changed = true
					break
				}
			}
		}
	}
}

type scStat struct {
	Name       string  `json:"name"`
	Bound      string  `json:"bound"`
	Budget     int     `json:"deviation_bound,omitempty"`
	Executions int64   `json:"executions"`
	Ops        int64   `json:"transitions"`
	Traces     int64   `json:"traces"`
	States     int64   `json:"states"`
	Outcomes   int64   `json:"distinct_outcomes"`
	Exhaustive bool    `json:"exhaustive"`
	WallS      float64 `json:"wall_s"`
}

// Main runs one check and returns the exit code.
func Main(c *Check, tier string, seed int64, evidencePath string) int {
	t0 := time.Now()
	thorough := tier == "thorough"
	limit := 300 * time.Second
	if thorough {
		limit = 780 * time.Second
	}
	if s := os.Getenv("VERIF_DEADLINE_S"); s != "" {
		if n, err := strconv.Atoi(s); err == nil {
			limit = time.Duration(n) * time.Second
		}
	}
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(5 << 30)
	workers := runtime.GOMAXPROCS(0)
	deadline := t0.Add(limit)

	var cur atomic.Pointer[runner]
	outMu := sync.Mutex{}
	go func() { // monitor: non-termination and memory explosion
		for {
			time.Sleep(100 * time.Millisecond)
			r := cur.Load()
			if r == nil || r.cur == nil {
				continue
			}
			big := rssBytes() > rssLimit
			var oldest *X
			var at time.Time
			for i := range r.cur {
				e := &r.cur[i]
				e.mu.Lock()
				if e.x != nil && (oldest == nil || e.start.Before(at)) {
					oldest, at = e.x, e.start
				}
				e.mu.Unlock()
			}
			if oldest == nil {
				continue
			}
			var why string
			if big && time.Since(at) > 500*time.Millisecond {
				why = "the calculation keeps allocating memory without bound"
			} else if time.Since(at) > hangLimit {
				why = fmt.Sprintf("the calculation did not finish within %v", hangLimit)
			} else {
				continue
			}
			outMu.Lock()
			v := &violation{r.sc.Name, append([]int{}, oldest.choices...), why, r.describe(oldest)}
			p := writeReplay(c.ID, tier, v)
			fmt.Printf("%s: %s\n%s\nVIOLATION property=%s replay=%s\n", v.scenario, v.msg, v.desc, c.ID, p)
			os.Exit(1)
		}
	}()

	var stats []scStat
	var samples []interface{}
	var states, ops, traces, execs int64
	exhaustive := true
	only := os.Getenv("VERIF_SCENARIO")
	for _, sc := range c.Scenarios(thorough) {
		sc := sc
		if only != "" && sc.Name != only {
			continue
		}
		r := &runner{check: c, sc: &sc, states: newHashSet(30_000_000), outcomes: newHashSet(5_000_000)}
		cur.Store(r)
		ts := time.Now()
		r.run(workers, deadline)
		if v := r.viol.Load(); v != nil {
			// A violation must reproduce.
			again := 0
			for i := 0; i < 5; i++ {
				x := r.newX(0)
				x.replay = true
				x.choices = append([]int{}, v.choices...)
				if _, failed, _ := r.exec(x); failed {
					again++
				}
			}
			if again == 5 {
				r.shrink(v)
			}
			outMu.Lock()
			if again == 0 {
				fmt.Printf("%s: a failure did not reproduce in 5 re-executions and is reported as nondeterminism: %s\n", v.scenario, v.msg)
			}
			p := writeReplay(c.ID, tier, v)
			fmt.Printf("%s (reproduced %d/5): %s\ncase: %s\nVIOLATION property=%s replay=%s\n", v.scenario, again, v.msg, v.desc, c.ID, p)
			stats = append(stats, scStat{sc.Name, sc.Bound, sc.Budget, r.execs, r.ops, r.traces, r.states.n, r.outcomes.n, false, time.Since(ts).Seconds()})
			writeEvidence(c, tier, seed, evidencePath, stats, []interface{}{v.desc}, states+r.states.n, ops+r.ops, traces+r.traces, execs+r.execs, false, 1, t0)
			return 1
		}
		st := scStat{sc.Name, sc.Bound, sc.Budget, r.execs, r.ops, r.traces, r.states.n, r.outcomes.n, !r.capped.Load(), time.Since(ts).Seconds()}
		stats = append(stats, st)
		fmt.Printf("%s/%s: executions=%d transitions=%d states=%d traces=%d outcomes=%d exhaustive=%v %.1fs\n", c.ID, sc.Name, st.Executions, st.Ops, st.States, st.Traces, st.Outcomes, st.Exhaustive, st.WallS)
		states += r.states.n
		ops += r.ops
		traces += r.traces
		execs += r.execs
		exhaustive = exhaustive && st.Exhaustive
		for i, s := range r.samples {
			if i < 3 || i == len(r.samples)-1 {
				samples = append(samples, map[string]string{"scenario": sc.Name, "case": s})
			}
		}
	}
	writeEvidence(c, tier, seed, evidencePath, stats, samples, states, ops, traces, execs, exhaustive, 0, t0)
	fmt.Printf("%s: held on everything explored: executions=%d transitions=%d states=%d traces=%d exhaustive=%v wall=%.1fs\n", c.ID, execs, ops, states, traces, exhaustive, time.Since(t0).Seconds())
	return 0
}

func writeEvidence(c *Check, tier string, seed int64, path string, stats []scStat, samples []interface{}, states, ops, traces, execs int64, exhaustive bool, viol int, t0 time.Time) {
	ev := map[string]interface{}{
		"property": c.ID, "tier": tier, "seed": seed, "level": "model_checking",
		"coverage": map[string]interface{}{
			"states": states, "transitions": ops, "traces_validated_against_impl": traces,
			"evaluations": execs, "rule": c.Rule, "samples": samples, "exhaustive": exhaustive, "scenarios": stats,
		},
		"assumptions": []string{"values outside the stated alphabets and bounds are not covered", "float comparisons use the tolerance stated in DESIGN.md"},
		"wall_s":      time.Since(t0).Seconds(), "violations": viol,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	_ = os.MkdirAll(filepath.Dir(path), 0o755)
	if err := os.WriteFile(path, b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "evidence:", err)
		os.Exit(2)
	}
}

// Replay re-executes a recorded violation.
func Replay(checks []*Check, file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var a artefact
	if err := json.Unmarshal(b, &a); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	for _, c := range checks {
		if c.ID != a.Property {
			continue
		}
		for _, sc := range c.Scenarios(a.Tier == "thorough") {
			if sc.Name != a.Scenario {
				continue
			}
			sc := sc
			r := &runner{check: c, sc: &sc, states: newHashSet(1000), outcomes: newHashSet(1000)}
			x := r.newX(0)
			x.replay = true
			x.choices = append([]int{}, a.Choices...)
			msg, failed, _ := r.exec(x)
			fmt.Println("case:", r.describe(x))
			if failed {
				fmt.Println("fails:", msg)
				return 1
			}
			fmt.Println("passes")
			return 0
		}
	}
	fmt.Fprintln(os.Stderr, "no such scenario")
	return 2
}
