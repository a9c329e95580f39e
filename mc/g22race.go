//go:build verifrace

package main

import (
	"fmt"
	"os"
	"sync"

	g "github.com/urban-wombat/gotables"
)

var _ *g.Table

func unobserved() func() { return func() {} }

// schedRace runs every pair of operations at the same time, under the race detector and without a scheduler. The
// detector orders accesses by synchronisation, not by time, so one run of a pair tells about all its schedules in
// which the two make the same accesses. Each pair is a process of its own case, so that a report is attributed.
func schedRace(c *Ctx) {
	dir, done := c.Scratch()
	defer done()
	ops := schedOps(dir)
	listed := len(ops)
	ops = append(ops, schedMethods()...)
	for i := range ops {
		for j := range ops {
			if (i >= listed || j >= listed) && (i-j > 2 || j-i > 2) {
				continue
			}
			i, j := i, j
			c.Do(func() string { return fmt.Sprintf("race detector: %s | %s", ops[i].name, ops[j].name) }, func(t *T) {
				r1, a1 := ops[i].prep(0)
				r2, a2 := ops[j].prep(1)
				var wg sync.WaitGroup
				start := make(chan struct{})
				for _, r := range []func() string{r1, r2} {
					wg.Add(1)
					go func(r func() string) { defer wg.Done(); <-start; r() }(r)
				}
				close(start)
				wg.Wait()
				a1()
				a2()
				t.Step(2)
				t.State(fmt.Sprint(i, j))
				t.Outcome("no race reported")
			})
		}
	}
	if c.only < 0 {
		os.Stdout.Sync()
	}
}

func init() { register(&Checker{ID: "G22R", Run: schedRace}) }
