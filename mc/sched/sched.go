// Package sched runs a few goroutines under a controlled scheduler and
// explores their interleavings up to a preemption bound.
//
// Exactly one managed goroutine runs at a time.  At every scheduling point the
// running goroutine itself decides (from the recorded prefix of choices, then
// "stay") who continues.  Code that runs while no execution is active is not
// affected.
package sched

import (
	"fmt"
	"runtime/debug"
	"strings"
	"unsafe"
)

// Thread is one managed goroutine.
type thread struct {
	id     int
	resume chan struct{}
	wait   func() bool // nil: runnable; otherwise blocked until it returns true
	what   string
	done   bool
}

// Point is one recorded decision.
type point struct {
	enabled []int // canonical: running thread first if enabled, then ascending
	chosen  int   // index into enabled
	still   bool  // the running thread was still enabled
}

// Exec is one execution.
type Exec struct {
	threads  []*thread
	cur      *thread
	prefix   []int
	points   []point
	finished chan struct{}
	failure  string
	aborted  bool
	steps    int
	maxSteps int
	// Trace of API level events, filled by harnesses through Log.
	Events []string
	clock  int
}

var active *Exec

// Active tells whether a controlled execution is running.
func Active() bool { return active != nil && !active.aborted }

// Cur is the id of the running managed goroutine.
func Cur() int { return active.cur.id }

// P is a scheduling point.
func P() {
	if e := active; e != nil {
		e.point()
	}
}

type abortT struct{}

// Now returns a fresh logical time (for call/return histories).
func Now() int {
	if active == nil {
		return 0
	}
	active.clock++
	return active.clock
}

func (e *Exec) enabled() []int {
	var r []int
	c := e.cur
	if c != nil && !c.done && (c.wait == nil || c.wait()) {
		r = append(r, c.id)
	}
	for _, t := range e.threads {
		if t == c || t.done {
			continue
		}
		if t.wait == nil || t.wait() {
			r = append(r, t.id)
		}
	}
	return r
}

func (e *Exec) fail(msg string) {
	if e.failure == "" {
		e.failure = msg
	}
	e.aborted = true
}

// pick decides who runs next; nil when nobody can.
func (e *Exec) pick() *thread {
	en := e.enabled()
	if len(en) == 0 {
		return nil
	}
	still := e.cur != nil && en[0] == e.cur.id
	ch := 0
	if len(en) > 1 {
		i := len(e.points)
		if i < len(e.prefix) {
			ch = e.prefix[i]
			if ch >= len(en) {
				e.fail(fmt.Sprintf("DIVERGENCE: choice %d of %d at point %d", ch, len(en), i))
				ch = 0
			}
		}
		e.points = append(e.points, point{en, ch, still})
	}
	return e.threads[en[ch]]
}

func (e *Exec) point() {
	if e.aborted {
		panic(abortT{})
	}
	me := e.cur
	e.steps++
	if e.steps > e.maxSteps {
		e.fail(fmt.Sprintf("no termination within %d scheduling points (livelock)", e.maxSteps))
		panic(abortT{})
	}
	next := e.pick()
	if next == nil {
		e.deadlock()
		panic(abortT{})
	}
	if next == me {
		me.wait = nil
		return
	}
	e.cur = next
	raceOff()
	next.resume <- struct{}{}
	<-me.resume
	raceOn()
	if e.aborted {
		panic(abortT{})
	}
	me.wait = nil
}

func (e *Exec) deadlock() {
	var w []string
	for _, t := range e.threads {
		if !t.done {
			w = append(w, fmt.Sprintf("T%d waits for %s", t.id, t.what))
		}
	}
	e.fail("deadlock: " + strings.Join(w, ", "))
}

// Wait blocks the running goroutine until cond holds (a scheduling point).
func Wait(what string, cond func() bool) {
	e := active
	if e.aborted {
		panic(abortT{})
	}
	me := e.cur
	me.wait, me.what = cond, what
	e.point()
}

func (e *Exec) exit(me *thread) {
	ReleaseMerge(unsafe.Pointer(&e.clock))
	raceOff()
	defer raceOn()
	me.done = true
	if e.aborted {
		// release the others so that they unwind
		for _, t := range e.threads {
			if !t.done {
				e.cur = t
				t.resume <- struct{}{}
				return
			}
		}
		close(e.finished)
		return
	}
	all := true
	for _, t := range e.threads {
		if !t.done {
			all = false
		}
	}
	if all {
		close(e.finished)
		return
	}
	next := e.pick()
	if next == nil {
		e.deadlock()
		for _, t := range e.threads {
			if !t.done {
				next = t
				break
			}
		}
	}
	e.cur = next
	next.resume <- struct{}{}
}

// Run executes bodies under the schedule prefix.
func run(prefix []int, maxSteps int, bodies []func()) *Exec {
	e := &Exec{prefix: prefix, finished: make(chan struct{}), maxSteps: maxSteps}
	for i, b := range bodies {
		t := &thread{id: i, resume: make(chan struct{})}
		e.threads = append(e.threads, t)
		b := b
		go func() {
			raceOff()
			<-t.resume
			raceOn()
			func() {
				defer func() {
					if r := recover(); r != nil {
						if _, ok := r.(abortT); !ok {
							where := ""
							for _, l := range strings.Split(string(debug.Stack()), "\n") {
								if strings.Contains(l, "/repo/") || strings.Contains(l, "build/C") {
									where = strings.TrimSpace(l)
									break
								}
							}
							e.fail(fmt.Sprintf("panic in T%d: %v (%s)", t.id, r, where))
						}
					}
				}()
				if !e.aborted {
					b()
				}
			}()
			e.exit(t)
		}()
	}
	active = e
	e.cur = nil
	first := e.pick()
	e.cur = first
	raceOff()
	first.resume <- struct{}{}
	<-e.finished
	raceOn()
	Acquire(unsafe.Pointer(&e.clock))
	active = nil
	if e.failure == "" && len(e.points) < len(e.prefix) {
		e.failure = fmt.Sprintf("DIVERGENCE: %d points, %d choices", len(e.points), len(e.prefix))
	}
	return e
}
