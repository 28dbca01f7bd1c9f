// Package vsched is a cooperative scheduler: exactly one registered thread runs at a time, and
// control moves only at points chosen by the plan of the execution (or when a thread blocks).
package vsched

import (
	"fmt"
	"reflect"
	"runtime/debug"
)

var names []string

var resets, inits []func()

// Register is called by the init function of every instrumented file.
func Register(reset, init func()) {
	resets = append(resets, reset)
	inits = append(inits, init)
	init() // the program's own start-up
}

// Cold puts every package-level variable of the library back to its start-up value.
func Cold() {
	for i := 0; i < 2; i++ {
		for _, f := range resets {
			f()
		}
	}
	for _, f := range inits {
		f()
	}
}

// Zero sets *p to its zero value.
func Zero(p interface{}) {
	v := reflect.ValueOf(p).Elem()
	v.Set(reflect.Zero(v.Type()))
}

// Switch is one step of a plan: the running thread is preempted at its K-th point (counted from the
// moment it was given control), and thread To runs.
type Switch struct {
	K  int64 `json:"k"`
	To int   `json:"to"`
}

type thread struct {
	id       int
	wake     chan struct{}
	done     bool
	blocked  func() bool // nil: runnable; otherwise runnable once it returns true
	Panicked string
}

const horizon = 40_000_000 // points a thread may run before it is taken off the processor
var forced int

var (
	active   bool
	fine     int64         // what a point between calls counts: 1, or 0 when only calls and package state do
	left     int64 = never // points until something happens
	granted  int64         // what left started from
	total    int64
	plan     []Switch
	step     int
	threads  []*thread
	cur      *thread
	finished chan struct{}
	deadlock string
	lastID   int
	Trace    func(point string)
	at       []string
)

const never = int64(1) << 62

// P is a scheduling point before a statement.
func P(id int) {
	if left -= fine; left <= 0 {
		reached(id)
	}
}

// C is a scheduling point at a function's entry or before a statement that mentions package state.
func C(id int) {
	if left--; left <= 0 {
		reached(id)
	}
}

// spent is the number of points passed since arm.
func spent() int64 { return granted - left }

func reached(id int) {
	if !active {
		left = never
		return
	}
	lastID = id
	total += spent()
	if step < len(plan) {
		to := plan[step].To
		step++
		at = append(at, names[id])
		arm()
		if to >= 0 && to < len(threads) && threads[to] != cur && runnable(threads[to]) {
			transfer(threads[to])
		}
		return
	}
	forced++
	arm()
	if forced > 3 {
		deadlock = "no progress: a thread ran " + fmt.Sprint(horizon) + " points without finishing, at " + names[id]
		active = false
		finished <- struct{}{}
		select {}
	}
	if n := next(); n != nil && n != cur {
		transfer(n)
	}
}

func arm() {
	if step < len(plan) {
		granted = plan[step].K
	} else {
		granted = horizon
	}
	left = granted
}

func runnable(t *thread) bool { return !t.done && (t.blocked == nil || t.blocked()) }

// next picks the next thread: round robin after the running one.
func next() *thread {
	n := len(threads)
	for i := 1; i <= n; i++ {
		t := threads[(cur.id+i)%n]
		if t != cur && runnable(t) {
			return t
		}
	}
	if runnable(cur) {
		return cur
	}
	return nil
}

func transfer(t *thread) {
	me := cur
	cur = t
	t.blocked = nil
	t.wake <- struct{}{}
	<-me.wake
}

// Block parks the running thread until ready reports true.
func Block(what string, ready func() bool) {
	if !active {
		if !ready() {
			panic("vsched: would block forever outside an execution: " + what)
		}
		return
	}
	for !ready() {
		cur.blocked = ready
		n := next()
		if n == nil {
			deadlock = "deadlock: every unfinished thread waits, the last one for " + what + " near " + names[lastID]
			active = false
			finished <- struct{}{}
			select {}
		}
		total += spent()
		arm()
		if n != cur {
			transfer(n)
		}
		cur.blocked = nil
	}
}

// Yield lets another thread run (used inside waiting loops).
func Yield() {
	if !active {
		return
	}
	if n := next(); n != nil && n != cur {
		transfer(n)
	}
}

// Result is what one execution did.
type Result struct {
	Stuck    string   // deadlock or no progress
	Panics   []string // per thread
	Points   int64    // scheduling points passed
	Switched int      // preemptions of the plan that were reached
	At       []string // where
}

// run executes a thread's body and hands control on when it is over.
func (t *thread) run(b func()) {
	func() {
		defer func() {
			if r := recover(); r != nil {
				t.Panicked = fmt.Sprintf("%v\n%s", r, clip(debug.Stack()))
			}
		}()
		b()
	}()
	t.done = true
	total += spent()
	n := next()
	if n == nil {
		active = false
		for _, o := range threads {
			if !o.done {
				deadlock = "deadlock: a thread waits for something no thread will do, near " + names[lastID]
			}
		}
		finished <- struct{}{}
		return
	}
	arm()
	cur = n
	n.blocked = nil
	n.wake <- struct{}{}
}

// Go is the library's go statement: the body becomes one more thread.
func Go(b func()) {
	if !active {
		panic("vsched: goroutine started outside an execution")
	}
	t := &thread{id: len(threads), wake: make(chan struct{})}
	threads = append(threads, t)
	go func() {
		<-t.wake
		t.run(b)
	}()
}

// Alone runs one body as the only initial thread.
func Alone(b func()) {
	if r := Run([]func(){b}, 0, nil, false); r.Stuck != "" {
		panic("gosu-pp: " + r.Stuck)
	} else {
		for _, p := range r.Panics {
			if p != "" {
				panic("gosu-pp: " + p)
			}
		}
	}
}

// Run executes the bodies under the plan. Thread start runs first; after the last preemption the
// running thread finishes and the others follow round robin.
func Run(bodies []func(), start int, p []Switch, everyPoint bool) Result {
	threads = nil
	plan, step, forced, total, deadlock = p, 0, 0, 0, ""
	fine = 0
	if everyPoint {
		fine = 1
	}
	at = nil
	finished = make(chan struct{})
	for i, b := range bodies {
		t := &thread{id: i, wake: make(chan struct{})}
		threads = append(threads, t)
		b := b
		go func() {
			<-t.wake
			t.run(b)
		}()
	}
	arm()
	cur = threads[start]
	active = true
	cur.wake <- struct{}{}
	<-finished
	active = false
	left = never
	r := Result{Stuck: deadlock, Points: total, Switched: step, At: at}
	for _, t := range threads {
		r.Panics = append(r.Panics, t.Panicked)
	}
	return r
}

func clip(b []byte) string {
	if len(b) > 1500 {
		b = b[:1500]
	}
	return string(b)
}
