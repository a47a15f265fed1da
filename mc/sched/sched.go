//go:build sched

// Package sched explores the interleavings of a few threads at the statements
// of the instrumented library.
package sched

import (
	"fmt"
	"runtime"
	"runtime/debug"

	vs "github.com/danhhz/zeropb/vsched_verif"

	"verifmc/fw"
	"verifmc/ref"
)

// Thread is one thread's program.
type Thread struct {
	Name string
	// Run returns what the thread observed (formatted later, so that the
	// harness adds no synchronisation to the schedule).
	Run func() []ref.V
	// After observes the thread's message when all threads have finished.
	After func() []ref.V
}

// Scenario builds fresh threads (and their messages) for one run.
type Scenario struct {
	Name string
	Make func() []Thread
}

type result struct {
	seen  []ref.V
	panic string
}

func body(i int, t *Thread, r *result, join chan struct{}) {
	defer func() { join <- struct{}{} }()
	vs.Start(i)
	defer vs.End()
	defer func() {
		if p := recover(); p != nil {
			r.panic = fw.PanicText(p, debug.Stack())
		}
	}()
	r.seen = t.Run()
}

// Explore runs every schedule with at most bound preemptions and returns the
// length of the longest one in library statements.
func Explore(c *fw.Ctx, sc *Scenario, bound int) (steps int64) {
	runtime.GOMAXPROCS(1)
	return explore(c, sc, bound, nil)
}

// Cold runs the one schedule in which the first thread is preempted before its
// k'th statement; nothing of the library has run in this process before.
func Cold(c *fw.Ctx, sc *Scenario, k int) (steps int64) {
	runtime.GOMAXPROCS(1)
	at := make([]uint8, k+1)
	if k > 0 {
		at[k] = 1
	}
	return explore(c, sc, -1, at)
}

// Only one search is under way at a time.
var choiceBuf, fullBuf [1 << 16]uint8
var costBuf [1<<16 + 1]int

// explore runs the schedules from the given one on; bound < 0: only this one.
func explore(c *fw.Ctx, sc *Scenario, bound int, first []uint8) (steps int64) {
	// What each thread sees alone; found out after the first schedule, so that
	// this one meets the library as a new process has it.
	var want, wantAfter [][]ref.V
	// The search starts with running to completion one after the other.
	choice := append(choiceBuf[:0], first...)
	full, cost := fullBuf[:], costBuf[:]
	races := runtime.RaceErrors()
	join := make(chan struct{}, 8)
	c.Cur = func() []string {
		l := []string{"scenario " + sc.Name}
		for _, t := range sc.Make() {
			l = append(l, "thread: "+t.Name)
		}
		return append(l, "schedule (thread chosen at each statement): "+who())
	}
	for {
		if !c.Step() {
			return steps
		}
		threads := sc.Make()
		res := make([]result, len(threads))
		vs.NChoice = len(choice)
		copy(vs.Choice[:], choice)
		vs.Begin(len(threads))
		for i := range threads {
			go body(i, &threads[i], &res[i], join)
		}
		for range threads {
			<-join
		}
		c.Evaluations++
		if vs.Steps > steps {
			steps = vs.Steps
		}
		c.SetMax("statements_per_schedule", vs.Steps)
		pre := 0
		for i := 0; i < vs.NTaken; i++ {
			if i < len(choice) && choice[i] > 0 && !vs.Forced[i] {
				pre++
			}
		}
		if pre > 0 {
			c.Nontrivial++
		}
		if n := runtime.RaceErrors(); n != races {
			c.Fail("data race (%d reports) in this schedule", n-races)
		}
		if want == nil {
			for i := range threads {
				t := sc.Make()[i]
				x := t.Run()
				want = append(want, x)
				wantAfter = append(wantAfter, t.After())
			}
		}
		for i := range threads {
			if res[i].panic != "" {
				c.Fail("thread %d: %s", i, res[i].panic)
			}
			if !same(res[i].seen, want[i]) {
				c.Fail("thread %d observes %v; running alone it observes %v", i, clip(res[i].seen), clip(want[i]))
			}
			if after := threads[i].After(); !same(after, wantAfter[i]) {
				c.Fail("thread %d's message ends up as %v; running alone as %v", i, clip(after), clip(wantAfter[i]))
			}
		}
		if runtime.RaceErrors() != races {
			c.Fail("data race after this schedule")
		}
		if bound < 0 {
			return steps
		}
		// Next schedule: the last decision that has an untried alternative
		// within the bound.
		full, cost = full[:vs.NTaken], cost[:vs.NTaken+1]
		for i := copy(full, choice); i < len(full); i++ {
			full[i] = 0
		}
		// Preemptions before each position.
		for i := 0; i < vs.NTaken; i++ {
			cost[i+1] = cost[i]
			if full[i] > 0 && !vs.Forced[i] {
				cost[i+1]++
			}
		}
		i := vs.NTaken - 1
		for ; i >= 0; i-- {
			if int(full[i])+1 >= int(vs.Alts[i]) {
				continue
			}
			extra := 1
			if vs.Forced[i] {
				extra = 0
			}
			if cost[i]+extra <= bound {
				break
			}
		}
		if i < 0 {
			return steps
		}
		choice = append(choice[:0], full[:i+1]...)
		choice[i]++
	}
}

func same(a, b []ref.V) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func clip(l []ref.V) string {
	s := fmt.Sprint(l)
	if len(s) > 600 {
		s = s[:600] + ".."
	}
	return s
}

func who() string {
	b := make([]byte, 0, vs.NTaken)
	for i := 0; i < vs.NTaken; i++ {
		b = append(b, '0'+vs.Who[i])
	}
	return string(b)
}
