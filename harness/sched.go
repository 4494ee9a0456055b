//go:build sched

package main

import (
	"fmt"
	"os"
	"runtime"
	"strings"
	"time"

	vs "verifharness/vsched"
)

// schedFree reports that the code under test synchronizes by means which the
// explorer does not control; executions are then merely repeated.
var schedFree = os.Getenv("VERIF_SCHED") == "free"

// X is one execution of a scenario.
type X struct {
	t    *T
	fail string
	note []string
}

// Failf records a violation; callable from any scenario thread.
func (x *X) Failf(format string, v ...interface{}) {
	vs.Point("fail")
	if x.fail == "" {
		x.fail = fmt.Sprintf(format, v...)
	}
}

// explorer enumerates the schedules of a scenario.
type explorer struct {
	bound   int  // preemptions, or deviations from the default
	delay   bool // bound counts every deviation, not only preemptions
	maxExec int
	limit   int // steps of one execution
	tried   []uint16
	path    []int8
	seenPts int
	Execs   int
	Capped  bool
	Diverge int
}

const delayBound = 100

// explore runs body under every schedule with at most bound preemptions.
// A bound of delayBound+k allows k deviations from the default schedule (run
// until blocked, then the next thread in turn) instead, whether preemptions
// or not.
// setup builds a fresh scenario: it returns the body (thread 0) and a check of
// the finished execution, which runs on the main goroutine.
func explore(t *T, bound int, setup func(x *X) (body func(), check func())) {
	exploreN(t, bound, t.c.Pick(60, 1000), setup)
}

// exploreN is explore with a number of executions for uncontrolled runs.
func exploreN(t *T, bound, free int, setup func(x *X) (body func(), check func())) {
	if schedFree {
		exploreFree(t, free, setup)
		return
	}
	e := &explorer{bound: bound, limit: 60000}
	if bound >= delayBound {
		e.bound, e.delay = bound-delayBound, true
	}
	e.maxExec = t.c.Pick(60000, 3000000)
	for {
		x := &X{t: t}
		body, check := setup(x)
		st := vs.Run(e.path, e.limit, body)
		e.Execs++
		t.c.crumb.tick()
		n := int(vs.NRecs)
		t.Step(n)
		switch st {
		case vs.Deadlock:
			t.Failf("deadlock: every thread waits:%s\nschedule: %s", vs.Blocked(), e.describe(n))
		case vs.Livelock:
			t.Failf("no end after %d steps:%s", e.limit, vs.Blocked())
		}
		for i := e.seenPts; i < n; i++ {
			t.StateHash(vs.Recs[i].Hash)
		}
		if st == vs.Diverged {
			e.Diverge++
			if e.Diverge <= 3 {
				// Something global was initialized on the way, so that the
				// next execution differs: start over.
				e.tried, e.path, e.seenPts = nil, nil, 0
				continue
			}
			t.c.note("a schedule could not be replayed exactly")
			if e.Diverge > 50 {
				t.c.res.Notes = appendUnique(t.c.res.Notes, "gave up a scenario: the code is not deterministic under a fixed schedule")
				e.Capped = true
				break
			}
		}
		if x.fail == "" {
			check()
		}
		if x.fail != "" {
			t.Failf("%s\nschedule: %s", x.fail, e.describe(n))
		}
		t.Trace()
		if !e.next(n) {
			break
		}
		if e.Execs >= e.maxExec || e.Execs%256 == 0 && time.Now().After(t.c.deadline) {
			e.Capped = true
			break
		}
	}
	if os.Getenv("VERIF_VERBOSE") != "" {
		fmt.Println(t.key, "execs", e.Execs, "points", vs.NRecs)
	}
	if e.Capped {
		t.c.capped = true
		t.c.note("the schedules of a scenario were not enumerated completely: " + t.key)
	}
}

func (c *C) note(s string) {
	if len(c.res.Notes) < 20 {
		c.res.Notes = appendUnique(c.res.Notes, s)
	}
}

// next finds the next schedule by depth-first search.
func (e *explorer) next(n int) bool {
	if n > vs.MaxPoints {
		n = vs.MaxPoints
	}
	for len(e.tried) < n {
		e.tried = append(e.tried, 0)
	}
	for i := len(e.path); i < n; i++ {
		e.tried[i] = 1 << uint(vs.Recs[i].Chosen)
	}
	// Preemptions used before each point.
	used := 0
	budget := make([]int, n)
	for i := 0; i < n; i++ {
		r := &vs.Recs[i]
		budget[i] = used
		used += e.cost(r, r.Chosen)
	}
	for i := n - 1; i >= 0; i-- {
		r := &vs.Recs[i]
		if r.Forced && i >= len(e.path) {
			continue
		}
		for c := 0; c < 16; c++ {
			if r.Mask&^e.tried[i]&(1<<uint(c)) == 0 {
				continue
			}
			if budget[i]+e.cost(r, int8(c)) > e.bound {
				continue
			}
			e.tried[i] |= 1 << uint(c)
			p := make([]int8, i+1)
			for k := 0; k < i; k++ {
				p[k] = vs.Recs[k].Chosen
			}
			p[i] = int8(c)
			e.path = p
			e.seenPts = i
			return true
		}
	}
	return false
}

// cost is what choosing c costs.
func (e *explorer) cost(r *vs.Rec, c int8) int {
	switch {
	case e.delay && c != r.Def, !e.delay && !r.Forced && !r.Free && c != r.Self:
		return 1
	}
	return 0
}

func (e *explorer) describe(n int) string {
	var sb strings.Builder
	last := int8(-2)
	run := 0
	for i := 0; i < n && i < vs.MaxPoints; i++ {
		c := vs.Recs[i].Chosen
		if c != last {
			if run > 0 {
				fmt.Fprintf(&sb, "t%d*%d ", last, run)
			}
			last, run = c, 0
		}
		run++
		if sb.Len() > 1500 {
			return sb.String() + "..."
		}
	}
	fmt.Fprintf(&sb, "t%d*%d", last, run)
	return sb.String()
}

// exploreFree repeats a scenario with uncontrolled scheduling.
func exploreFree(t *T, n int, setup func(x *X) (body func(), check func())) {
	r := rng(1)
	fmt.Sscan(os.Getenv("VERIF_SEED"), &r)
	for i := 0; i < n; i++ {
		x := &X{t: t}
		seed := r.next()
		k := uint64(0)
		_ = k
		vs.SetPerturb(func() {
			if time.Now().UnixNano()>>6&3 != 0 {
				runtime.Gosched()
			} else if seed&1 == 0 {
				time.Sleep(time.Microsecond)
			}
		})
		body, check := setup(x)
		done := make(chan struct{})
		go func() { body(); close(done) }()
		select {
		case <-done:
		case <-time.After(30 * time.Second):
			buf := make([]byte, 1<<16)
			buf = buf[:runtime.Stack(buf, true)]
			t.Failf("deadlock (uncontrolled run %d):\n%s", i, buf)
		}
		if x.fail == "" {
			check()
		}
		if x.fail != "" {
			t.Failf("%s (uncontrolled run %d)", x.fail, i)
		}
		t.Trace()
	}
	if n == 1 {
		return
	}
	t.c.capped = true
	t.c.note("the code under test synchronizes by means outside the explorer's control: schedules were sampled, not enumerated")
}

// threads runs fs as concurrent threads and waits for all of them.
func (x *X) threads(fs ...func()) {
	var wg vs.Join
	wg.Add(len(fs))
	for _, f := range fs {
		vs.Thread(func() {
			defer wg.Done()
			f()
		})
	}
	wg.Wait()
}
