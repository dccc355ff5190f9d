// Package vsync replaces package sync in the code under test: every
// synchronization is a scheduling point of a controlled scheduler, which
// explores the interleavings of a few goroutines. Control is handed over by
// means the race detector does not see, so that it judges exactly the
// synchronization of the code under test.
package vsync

import (
	"fmt"
	"os"
	"runtime"
	"sync"
)

const maxThreads = 8

type blocker interface{ free() bool }

type choice struct {
	chosen, options int
	current         bool // the running thread was able to continue
	opts            [maxThreads]int8
}

var (
	active  bool
	turn    int // the running thread, -1: the controller
	n       int
	waiting [maxThreads]blocker
	done    [maxThreads]bool
	spins   [maxThreads]int
	path    [100000]choice
	pathLen int
	at      int
	points  int64
	failure string
	current string // what is being explored
	gen     int    // the number of the execution, to reset pools
)

// Out receives the findings.
var Out = os.Stdout

//go:norace
func isActive() bool { return active }

//go:norace
func enabled(t int) bool {
	return !done[t] && (waiting[t] == nil || waiting[t].free())
}

//go:norace
func pick(cur int) int {
	points++
	var opts [maxThreads]int8
	k := 0
	ok := cur >= 0 && enabled(cur)
	if ok && spins[cur] > 100 {
		spins[cur] = 0
		for t := 0; t < n; t++ {
			if t != cur && enabled(t) {
				ok = false
			}
		}
	}
	if ok {
		opts[0] = int8(cur)
		k = 1
	}
	for t := 0; t < n; t++ {
		if t != cur && enabled(t) {
			opts[k] = int8(t)
			k++
		}
	}
	if k == 0 {
		return -1
	}
	if k == 1 {
		return int(opts[0])
	}
	if at >= len(path) {
		return int(opts[0])
	}
	c := &path[at]
	if at < pathLen {
		if c.chosen >= k {
			c.chosen = 0
		}
	} else {
		pathLen++
		c.chosen = 0
	}
	at++
	c.options, c.current, c.opts = k, ok, opts
	return int(opts[c.chosen])
}

//go:norace
func waitTurn(me int) {
	for turn != me {
		runtime.Gosched()
	}
}

//go:norace
func handOver(me, next int) {
	if next == me {
		return
	}
	turn = next
	if me >= 0 {
		waitTurn(me)
	}
}

//go:norace
func dead() {
	s := ""
	for t := 0; t < n; t++ {
		if !done[t] {
			s += fmt.Sprint(" ", t)
		}
	}
	fmt.Fprintf(Out, "FINDING %s|deadlock: threads%s wait forever; schedule%s\n", current, s, schedule())
	fmt.Fprintf(Out, "DONE\n")
	os.Exit(0)
}

//go:norace
func schedule() string {
	s := ""
	for i := 0; i < at && i < pathLen; i++ {
		s += fmt.Sprint(" ", path[i].opts[path[i].chosen])
	}
	return s
}

// Point is a scheduling point: another thread may continue first.
//
//go:norace
func Point() {
	if !active {
		return
	}
	me := turn
	next := pick(me)
	if next < 0 {
		dead()
	}
	handOver(me, next)
}

// block is a scheduling point after which b is free.
//
//go:norace
func block(b blocker) {
	me := turn
	waiting[me] = b
	next := pick(me)
	if next < 0 {
		dead()
	}
	handOver(me, next)
	waiting[me] = nil
}

//go:norace
func finish(me int) {
	done[me] = true
	for t := 0; t < n; t++ {
		if !done[t] {
			next := pick(-1)
			if next < 0 {
				dead()
			}
			turn = next
			return
		}
	}
	turn = -1
}

//go:norace
func setFailure(s string) {
	if failure == "" {
		failure = s
	}
}

//go:norace
func begin(k int, name string) {
	n, at, failure, current = k, 0, "", name
	for t := range done {
		done[t], waiting[t], spins[t] = false, nil, 0
	}
	active = true
	turn = -2
	turn = pick(-1)
}

//go:norace
func end() {
	for turn != -1 {
		runtime.Gosched()
	}
	active = false
}

//go:norace
func nextSchedule(bound int) bool {
	if pathLen > at {
		pathLen = at
	}
	for pathLen > 0 {
		c := &path[pathLen-1]
		used := 0
		for i := 0; i < pathLen-1; i++ {
			if path[i].current && path[i].chosen != 0 {
				used++
			}
		}
		if c.chosen+1 < c.options && (!c.current || used+1 <= bound) {
			c.chosen++
			return true
		}
		pathLen--
	}
	return false
}

//go:norace
func bumpGen() { gen++ }

//go:norace
func resetPath() { pathLen = 0 }

//go:norace
func getFailure() string { return failure }

// Explore runs all schedules of the threads produced by setup with at most
// bound preemptions. It returns the number of schedules, and false if check, a
// panic or the race detector reported something.
func Explore(name string, bound int, setup func() []func(), check func() string) (schedules int64, ok bool) {
	runtime.GOMAXPROCS(1)
	resetPath()
	for {
		bumpGen()
		races := raceErrors()
		bodies := setup()
		var wg sync.WaitGroup
		wg.Add(len(bodies))
		begin(len(bodies), name)
		for i, b := range bodies {
			go thread(i, b, &wg)
		}
		end()
		wg.Wait()
		schedules++
		what := getFailure()
		if raceErrors() > races {
			what = "data race: " + raceText()
		}
		if what == "" {
			what = check()
		}
		if what != "" {
			fmt.Fprintf(Out, "FINDING %s|%s; schedule%s\n", name, what, schedule())
			return schedules, false
		}
		if !nextSchedule(bound) {
			return schedules, true
		}
	}
}

func thread(i int, body func(), wg *sync.WaitGroup) {
	waitTurn(i)
	defer func() {
		if r := recover(); r != nil {
			setFailure(fmt.Sprint("panic: ", r))
		}
		wg.Done()
		finish(i)
	}()
	body()
}

// Points is the number of scheduling points passed.
//
//go:norace
func Points() int64 { return points }
