//go:build verifsched

package main

import (
	"fmt"
	"strings"

	g "github.com/urban-wombat/gotables"
)

// ---- controlled scheduler ----

type preempt struct{ step, to int }

type thread struct {
	wake chan struct{}
	run  func() string
	res  string
	done bool
}

type sched struct {
	ths      []*thread
	cur      int
	step     int
	varSteps int // of them at variables or locks
	pre      []preempt
	pi       int
	mask     int
	who      []int8  // thread running at each step (1-based: who[step-1])
	site     []int32 // its point
	ready    []uint8 // threads not yet finished at that step
	fin      chan struct{}
	blocked  int
	vc       [][4]int32
	locks    map[interface{}][4]int32
	maps     map[string]*mapHB
	lens     map[string]int
	race     string
	visits   map[int]int // of each goroutine at each statement point
}

type mapHB struct {
	w     [4]int32 // clock of the last write of each thread, 0 none
	r     [4]int32
	wsite [4]int
	rsite [4]int
}

const maxSteps = 300000
const maxVisits = 4

func (s *sched) hook(site, kind int) {
	s.look(site)
	if kind == 1 || kind == 2 || kind == 5 {
		if m := g.VSMaps[site]; m != "" {
			s.hb(m, site, kind == 2)
		}
	}
	if s.mask>>uint(kind)&1 == 0 {
		return
	}
	if kind == 6 {
		// the same statement over and over, as in a loop: its first visits are the points
		if s.visits == nil {
			s.visits = map[int]int{}
		}
		v := site*4 + s.cur
		if s.visits[v] >= maxVisits {
			return
		}
		s.visits[v]++
	}
	s.step++
	if maskVars>>uint(kind)&1 == 1 {
		s.varSteps++
	}
	if s.step > maxSteps {
		panic("more than 300000 scheduling points: livelock")
	}
	var rd uint8
	for i, t := range s.ths {
		if !t.done {
			rd |= 1 << uint(i)
		}
	}
	s.who = append(s.who, int8(s.cur))
	s.site = append(s.site, int32(site))
	s.ready = append(s.ready, rd)
	s.blocked = 0
	if s.pi < len(s.pre) && s.pre[s.pi].step == s.step {
		to := s.pre[s.pi].to
		s.pi++
		if !s.ths[to].done && to != s.cur {
			s.switchTo(to)
		}
	}
}

// look notices that the running goroutine has changed a map under another name.
func (s *sched) look(site int) {
	for m, f := range g.VSLens {
		if n := f(); n != s.lens[m] {
			s.lens[m] = n
			s.hb(m, site, true)
		}
	}
}

func (s *sched) hb(m string, site int, write bool) {
	h := s.maps[m]
	if h == nil {
		h = &mapHB{}
		s.maps[m] = h
	}
	me := s.cur
	for o := range s.ths {
		if o == me || s.race != "" {
			continue
		}
		if h.w[o] > s.vc[me][o] {
			s.race = fmt.Sprintf("unsynchronised accesses to the map %s: at or before %s and %s", m, siteName(h.wsite[o]), siteName(site))
		} else if write && h.r[o] > s.vc[me][o] {
			s.race = fmt.Sprintf("unsynchronised accesses to the map %s: at or before %s and %s", m, siteName(h.rsite[o]), siteName(site))
		}
	}
	if write {
		h.w[me], h.wsite[me] = s.vc[me][me], site
	} else {
		h.r[me], h.rsite[me] = s.vc[me][me], site
	}
}

func siteName(site int) string {
	if site < 0 {
		return "a lock operation"
	}
	return g.VSSites[site]
}

func (s *sched) sync(p interface{}, acquire bool) {
	me := s.cur
	l := s.locks[p]
	if acquire {
		for i := range l {
			if l[i] > s.vc[me][i] {
				s.vc[me][i] = l[i]
			}
		}
		return
	}
	for i := range l {
		if s.vc[me][i] > l[i] {
			l[i] = s.vc[me][i]
		}
	}
	s.locks[p] = l
	s.vc[me][me]++
}

func (s *sched) switchTo(to int) {
	me := s.cur
	s.look(-1)
	s.cur = to
	s.ths[to].wake <- struct{}{}
	<-s.ths[me].wake
}

// block: the running thread cannot go on; run another one.
func (s *sched) block() {
	s.blocked++
	if s.blocked > 2*len(s.ths) {
		panic("deadlock: every goroutine waits for a lock")
	}
	for i := 1; i < len(s.ths); i++ {
		if to := (s.cur + i) % len(s.ths); !s.ths[to].done {
			s.switchTo(to)
			return
		}
	}
	panic("deadlock: the goroutine waits for a lock that nobody will release")
}

func (s *sched) finish(me int) {
	s.look(-1)
	s.ths[me].done = true
	for i := 0; i < len(s.ths); i++ {
		if !s.ths[i].done {
			s.cur = i
			s.ths[i].wake <- struct{}{}
			return
		}
	}
	close(s.fin)
}

// execute runs the threads under the schedule: start with thread first, preempt at the given steps; a finished
// thread is followed by the lowest unfinished one.
func execute(runs []func() string, first int, pre []preempt, mask int) *sched {
	s := &sched{pre: pre, mask: mask, fin: make(chan struct{}), locks: map[interface{}][4]int32{}, maps: map[string]*mapHB{}, lens: map[string]int{}, vc: make([][4]int32, len(runs))}
	for i, r := range runs {
		s.vc[i][i] = 1
		s.ths = append(s.ths, &thread{wake: make(chan struct{}), run: r})
	}
	s.cur = first
	for m, f := range g.VSLens {
		s.lens[m] = f()
	}
	g.VSHook, g.VSBlocked, g.VSSync = s.hook, s.block, s.sync
	for i := range s.ths {
		go func(i int) {
			t := s.ths[i]
			<-t.wake
			func() {
				defer func() {
					if r := recover(); r != nil {
						t.res = fmt.Sprint("panic: ", r)
					}
				}()
				t.res = t.run()
			}()
			s.finish(i)
		}(i)
	}
	s.ths[first].wake <- struct{}{}
	<-s.fin
	g.VSHook, g.VSBlocked, g.VSSync = nil, nil, nil
	return s
}

const (
	maskVars  = 1<<1 | 1<<2 | 1<<4
	maskFuncs = maskVars | 1<<0 | 1<<5 | 1<<6
	maskLoops = maskFuncs | 1<<3
)

type schedCase struct {
	ops  []schedOp
	vs   []int
	base []string
}

// runSched executes one schedule; fail is the first difference from the solo runs.
func (k *schedCase) runSched(first int, pre []preempt, mask int) (s *sched, fail string) {
	runs := make([]func() string, len(k.ops))
	after := make([]func() string, len(k.ops))
	schedFresh()
	for i, o := range k.ops {
		runs[i], after[i] = o.prep(k.vs[i])
	}
	s = execute(runs, first, pre, mask)
	for i := range k.ops {
		if got := s.ths[i].res + "\x00" + after[i](); got != k.base[i] && fail == "" {
			fail = fmt.Sprintf("goroutine %d (%s, variant %d): got %s, alone it gets %s", i, k.ops[i].name, k.vs[i], clipDiff(got, k.base[i]), clipDiff(k.base[i], got))
		}
	}
	if fail == "" {
		fail = s.race
	}
	if fail != "" {
		var b strings.Builder
		fmt.Fprintf(&b, "; schedule: goroutine %d starts", first)
		for _, p := range pre {
			at := "?"
			if p.step <= len(s.site) && s.site[p.step-1] >= 0 {
				at = g.VSSites[s.site[p.step-1]]
			}
			fmt.Fprintf(&b, ", at point %d (%s) goroutine %d takes over", p.step, at, p.to)
		}
		fail += b.String()
	}
	return s, fail
}

// clipDiff shows a from a little before the first difference from b.
func clipDiff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	if i -= 30; i < 0 {
		i = 0
	}
	return fmt.Sprintf("%q", clip(a[i:], 200))
}

// explore runs every schedule with up to bound preemptions at points of mask, and gives the first failure.
func (k *schedCase) explore(t *T, first, bound, mask int) (n int, fail string) {
	var rec func(pre []preempt)
	rec = func(pre []preempt) {
		if fail != "" {
			return
		}
		s, f := k.runSched(first, pre, mask)
		n++
		t.Step(s.step)
		if f != "" {
			fail = f
			return
		}
		if len(pre) == bound {
			return
		}
		from := 0
		if len(pre) > 0 {
			from = pre[len(pre)-1].step
		}
		for i := from; i < len(s.who) && fail == ""; i++ {
			for to := range k.ops {
				if to != int(s.who[i]) && s.ready[i]>>uint(to)&1 == 1 {
					rec(append(pre[:len(pre):len(pre)], preempt{i + 1, to}))
				}
			}
		}
	}
	rec(nil)
	return
}

func schedExplore(c *Ctx) {
	dir, done := c.Scratch()
	defer done()
	ops := schedOps(dir)
	listed := len(ops) // these are paired each with each, the methods each with itself and its neighbours
	ops = append(ops, schedMethods()...)
	// What every operation gives alone, before anything else ran; and again afterwards, in the opposite order.
	alone := func(o schedOp, v int) (string, *sched) {
		schedFresh()
		run, after := o.prep(v)
		s := execute([]func() string{run}, 0, nil, maskFuncs)
		return strings.ReplaceAll(s.ths[0].res+"\x00"+after(), dir, "DIR"), s
	}
	base := make([][3]string, len(ops))
	steps, varSteps := make([]int, len(ops)), make([]int, len(ops))
	for i, o := range ops {
		for v := 0; v < 3; v++ {
			var s *sched
			base[i][v], s = alone(o, v)
			steps[i], varSteps[i] = max(steps[i], s.step), max(varSteps[i], s.varSteps)
		}
	}
	for i := len(ops) - 1; i >= 0; i-- {
		i := i
		c.Do(func() string { return "repeated solo run of: " + ops[i].name }, func(t *T) {
			for v := 2; v >= 0; v-- {
				if got, _ := alone(ops[i], v); got != base[i][v] {
					t.Failf("variant %d: got %s, at first it got %s", v, clipDiff(got, base[i][v]), clipDiff(base[i][v], got))
				}
				t.Step(steps[i])
				t.State(base[i][v])
			}
			t.Outcome("solo repeated")
		})
	}
	mk := func(idx []int, vs []int) *schedCase {
		k := &schedCase{vs: vs}
		for j, i := range idx {
			k.ops = append(k.ops, ops[i])
			k.base = append(k.base, strings.ReplaceAll(base[i][vs[j]], "DIR", dir))
		}
		return k
	}
	do := func(what string, idx, vs []int, first, bound, mask int) {
		desc := func() string {
			var n []string
			for _, i := range idx {
				n = append(n, ops[i].name)
			}
			return fmt.Sprintf("goroutines: %s; goroutine %d first; up to %d preemptions at %s", strings.Join(n, " | "), first, bound, what)
		}
		c.Do(desc, func(t *T) {
			n, fail := mk(idx, vs).explore(t, first, bound, mask)
			if fail != "" {
				t.Failf("%s", fail)
			}
			t.Outcome(fmt.Sprintf("%d goroutines, bound %d at %s", len(idx), bound, what))
			if !t.dry {
				c.Note(fmt.Sprintf("schedules with up to %d preemptions at %s, %d goroutines", bound, what, len(idx)), int64(n))
			}
			t.State(desc())
		})
	}
	for i := range ops {
		for j := range ops {
			if (i >= listed || j >= listed) && (i-j > 2 || j-i > 2) {
				continue
			}
			// goroutine 0 starts; the pair is also enumerated the other way round
			// bound 2 needs about n*n/2 schedules for n points; with more points, bound 1 of the next line covers them
			bound := 1
			if n := varSteps[i] + varSteps[j]; n <= c.pick(60, 400) {
				bound = 2
			}
			if n := varSteps[i] + varSteps[j]; c.Thorough && n <= 60 {
				bound = 3
			}
			do("accesses to variables", []int{i, j}, []int{0, 1}, 0, bound, maskVars)
			do("accesses and function entries", []int{i, j}, []int{0, 1}, 0, 1, maskFuncs)
			if c.Thorough {
				do("accesses, function entries and loop iterations", []int{i, j}, []int{1, 2}, 0, 1, maskLoops)
				if steps[i] < 120 && steps[j] < 120 {
					do("accesses and function entries", []int{i, j}, []int{0, 1}, 0, 2, maskFuncs)
				}
				for k := range ops[:listed] {
					if i < listed && j < listed && k >= j && varSteps[i]+varSteps[j]+varSteps[k] <= 60 {
						do("accesses to variables", []int{i, j, k}, []int{0, 1, 2}, 0, 2, maskVars)
					}
				}
			}
		}
	}
	if c.only < 0 && c.Shard == 0 {
		for i, o := range ops {
			c.Note("scheduling points of a solo run: "+o.name, int64(steps[i]))
		}
		c.Note("variables that may change: "+strings.Join(g.VSVars, " "), int64(len(g.VSVars)))
		c.Note("variables with contents that nothing seems to change: "+strings.Join(g.VSConst, " "), int64(len(g.VSConst)))
	}
}

func init() { register(&Checker{ID: "G22X", Run: schedExplore}) }

// unobserved suspends the scheduling points: looking at a result is not part of the exploration.
func unobserved() func() {
	hook, bl, sy := g.VSHook, g.VSBlocked, g.VSSync
	g.VSHook, g.VSBlocked, g.VSSync = nil, nil, nil
	return func() { g.VSHook, g.VSBlocked, g.VSSync = hook, bl, sy }
}
