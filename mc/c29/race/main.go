// Command race runs the C29 bodies freely (no scheduler) on the plain library; built with -race it
// reports unsynchronised accesses. It is the companion of explore, not the deciding step.
//
//	race SECONDS
package main

import (
	"fmt"
	"os"
	"strconv"
	"sync"
	"time"

	"vmc/c29/bodies"
)

func main() {
	secs, _ := strconv.Atoi(os.Args[1])
	end := time.Now().Add(time.Duration(secs) * time.Second)
	ws := append(bodies.Pairs(), bodies.Triples()...)
	n := 0
	// The first round runs without any warm-up so that lazily built state is built concurrently. Results
	// from concurrent first use are compared with later sequential ones.
	for round := 0; round < 2 || time.Now().Before(end); round++ {
		for _, w := range ws {
			if round >= 2 && time.Now().After(end) {
				break
			}
			out := make([]string, len(w.Threads))
			st, bs := w.Prepare(out)
			var wg sync.WaitGroup
			start := make(chan struct{})
			for i := range bs {
				b := bs[i]
				wg.Add(1)
				go func() { defer wg.Done(); <-start; b() }()
			}
			close(start)
			wg.Wait()
			n++
			for i, o := range w.Threads {
				k := 0
				if !w.Shared {
					k = i % 2
				}
				if alone := bodies.Ops[o].Run(bodies.New(k), k); alone != out[i] {
					fmt.Printf("gosu-pp free run: %s: thread %d (%s) saw a result that differs from the same call alone\n", w.Name, i, bodies.Ops[o].Name)
					os.Exit(65)
				}
			}
			for i, m := range st.Maps {
				if m.Dump() != bodies.New(i%2).Dump() {
					fmt.Printf("gosu-pp free run: %s: the objects of map %d changed\n", w.Name, i)
					os.Exit(65)
				}
			}
		}
	}
	fmt.Println("iterations", n)
}
