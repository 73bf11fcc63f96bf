package sched

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verif/mc/mcx"
)

// Harness is one closed concurrent program.
type Harness struct {
	Name string
	// New builds fresh objects and returns the goroutine bodies and the
	// oracle, which is run after the execution (with no schedule active).
	New      func() (bodies []func(), check func() (outcome string, err error), err error)
	Bound    int
	MaxSteps int
	MaxExecs int
	Small    bool // not worth being split
}

type explorer struct {
	c      *mcx.Ctx
	h      Harness
	execs  int
	pts    int
	maxPts int
	out    map[string]int
	w, ws  int
	fail   []int
	err    error
	capped bool
	start  time.Time
	limit  time.Duration
}

// what the watchdog of a worker looks at
var (
	executions int64
	current    atomic.Value
)

func (x *explorer) one(prefix []int) (*Exec, string, error) {
	current.Store(append([]int{}, prefix...))
	atomic.AddInt64(&executions, 1)
	bodies, check, err := x.h.New()
	if err != nil {
		return nil, "", err
	}
	ms := x.h.MaxSteps
	if ms == 0 {
		ms = 200000
	}
	e := run(prefix, ms, bodies)
	if e.failure != "" {
		return e, "", fmt.Errorf("%s", e.failure)
	}
	var o string
	err = mcx.Protect(func() error {
		var err error
		o, err = check()
		return err
	})
	return e, o, err
}

func (x *explorer) explore(prefix []int, preempt int, top bool) {
	if x.fail != nil || x.capped {
		return
	}
	if x.execs%256 == 255 && time.Since(x.start) > x.limit || x.h.MaxExecs > 0 && x.execs >= x.h.MaxExecs {
		x.capped = true
		return
	}
	e, o, err := x.one(prefix)
	if !(top && x.w != 0) {
		x.execs++
		if e != nil {
			x.pts += len(e.points)
			if len(e.points) > x.maxPts {
				x.maxPts = len(e.points)
			}
		}
		x.out[o]++
	}
	if err != nil && e != nil && strings.HasPrefix(err.Error(), "DIVERGENCE") {
		// the code is not deterministic (e.g. ranges over a map)
		x.out["diverged"]++
		return
	}
	for k := 0; err != nil && k < 4; k++ {
		_, _, err2 := x.one(prefix)
		if err2 == nil || strings.HasPrefix(err2.Error(), "DIVERGENCE") {
			x.out["unstable"]++
			return
		}
	}
	if err != nil {
		x.err = err
		x.fail = prefix
		if x.fail == nil {
			x.fail = []int{}
		}
		return
	}
	cost := preempt
	for i := len(prefix); i < len(e.points); i++ {
		p := e.points[i]
		c := cost
		if p.still {
			c++
		}
		if c > x.h.Bound {
			continue
		}
		if top && i%x.ws != x.w {
			continue
		}
		for alt := 1; alt < len(p.enabled); alt++ {
			np := make([]int, i+1)
			for k := 0; k < i; k++ {
				np[k] = e.points[k].chosen
			}
			np[i] = alt
			x.explore(np, c, false)
			if x.fail != nil || x.capped {
				return
			}
		}
	}
}

type wres struct {
	Execs, Pts, MaxPts int
	Out                map[string]int
	Fail               []int
	Failed             bool
	Err                string
	Capped             bool
	Hang               bool
	Crash              string
}

const envW = "MC_SCHED_WORKER"

// Explore explores every harness.  Harnesses are distributed over worker
// processes (the scheduler is global to a process); a harness with a large
// space is itself split on its first deviation.
func Explore(c *mcx.Ctx, hs []Harness, limit time.Duration) {
	if w := os.Getenv(envW); w != "" {
		worker(c, hs, w)
	}
	byName := map[string]Harness{}
	for _, h := range hs {
		byName[h.Name] = h
		if r, replaying := c.Replaying(h.Name); replaying && r != nil {
			if strings.HasPrefix(r.Sig, "race ") {
				races(c, hs, h.Name, limit)
				continue
			}
			var err error
			for i := 0; i < 5; i++ {
				x := &explorer{h: h, out: map[string]int{}}
				_, _, err = x.one(r.Schedule)
				fmt.Fprintf(mcx.Out, "replay %s schedule %v run %d: %v\n", h.Name, r.Schedule, i+1, err)
			}
			if err != nil {
				c.Violation(mcx.Replay{Harness: h.Name, Schedule: r.Schedule}, err)
			}
		}
	}
	if _, replaying := c.Replaying("\x00"); replaying {
		return
	}
	defer races(c, hs, "", limit)
	nw := runtime.GOMAXPROCS(0)
	type job struct{ h, w, of int }
	var jobs []job
	for i := range hs {
		for w := 0; w < nw && !hs[i].Small; w++ {
			jobs = append(jobs, job{i, w, nw})
		}
	}
	large := len(jobs)
	for i := range hs {
		if hs[i].Small {
			jobs = append(jobs, job{i, 0, 1})
		}
	}
	deadline := time.Now().Add(limit)
	var mu sync.Mutex
	agg := make([]wres, len(hs))
	for i := range agg {
		agg[i].Out = map[string]int{}
	}
	ji := 0
	var wg sync.WaitGroup
	for k := 0; k < nw; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				if ji >= len(jobs) {
					mu.Unlock()
					return
				}
				j := jobs[ji]
				left := time.Until(deadline)
				njobs := (large - ji + nw - 1) / nw
				if njobs < 1 {
					njobs = 1
				}
				ji++
				skip := agg[j.h].Failed
				mu.Unlock()
				if skip {
					continue
				}
				if left < time.Second {
					left = time.Second
				}
				share := left / time.Duration(njobs) * 2
				if share > left {
					share = left
				}
				r := spawn(c, j.h, j.w, j.of, share)
				if r.Crash != "" { // confirm
					r = spawn(c, j.h, j.w, j.of, share)
				}
				mu.Lock()
				if h := hs[j.h].Name; r.Crash != "" {
					c.Violation(mcx.Replay{Harness: h, Sig: "crash " + h}, fmt.Errorf("the process crashed twice: %s", r.Crash))
				} else if r.Hang {
					c.Violation(mcx.Replay{Harness: h, Schedule: r.Fail, Sig: "hang " + h}, fmt.Errorf("%s", r.Err))
				}
				a := &agg[j.h]
				a.Execs += r.Execs
				a.Pts += r.Pts
				if r.MaxPts > a.MaxPts {
					a.MaxPts = r.MaxPts
				}
				for o, n := range r.Out {
					a.Out[o] += n
				}
				a.Capped = a.Capped || r.Capped
				if r.Failed && !a.Failed {
					a.Failed, a.Fail, a.Err = true, r.Fail, r.Err
				}
				mu.Unlock()
				c.Tick()
			}
		}()
	}
	wg.Wait()
	for i, h := range hs {
		a := agg[i]
		if a.Failed {
			// confirm: the same schedule must fail every time
			ok := true
			var err error
			for k := 0; k < 5 && ok; k++ {
				x := &explorer{h: h, out: map[string]int{}}
				_, _, err = x.one(a.Fail)
				ok = err != nil && !strings.HasPrefix(err.Error(), "DIVERGENCE")
			}
			if ok {
				c.Violation(mcx.Replay{Harness: h.Name, Schedule: a.Fail}, err)
			} else {
				fmt.Fprintf(mcx.Out, "note: schedule %v of %s failed once (%s) and then passed\n", a.Fail, h.Name, a.Err)
				c.Outcome("unstable schedule ignored")
			}
		}
		if a.Capped {
			c.NotExhaustive(h.Name + ": time or execution cap inside preemption bound " + strconv.Itoa(h.Bound))
		}
		c.AddTraces(a.Execs)
		c.AddTransitions(a.Pts)
		c.AddStates(a.Execs)
		c.Count(h.Name, a.Execs)
		c.DistinctN(len(a.Out))
		c.Extra("schedules "+h.Name, map[string]interface{}{"executions": a.Execs, "decision_points": a.Pts,
			"longest": a.MaxPts, "preemption_bound": h.Bound, "distinct_outcomes": len(a.Out), "capped": a.Capped})
		n := 0
		for o := range a.Out {
			if n < 2 {
				c.Sample(h.Name + " -> " + o)
			}
			n++
		}
		fmt.Fprintf(mcx.Out, "  %s: executions=%d longest=%d outcomes=%d capped=%v\n", h.Name, a.Execs, a.MaxPts, len(a.Out), a.Capped)
	}
}

func spawn(c *mcx.Ctx, h, w, nw int, share time.Duration) wres {
	self, _ := os.Executable()
	return spawnProg(c, self, nil, h, w, nw, share)
}

func spawnProg(c *mcx.Ctx, prog string, env []string, h, w, nw int, share time.Duration) wres {
	var r wres
	cmd := exec.Command(prog, "-tier", c.Tier, "-root", c.Root)
	cmd.Env = append(append(os.Environ(), env...), fmt.Sprintf("%s=%d,%d,%d,%d", envW, h, w, nw, int(share.Milliseconds())), "GOMAXPROCS=2")
	tee := &mcx.Tee{}
	cmd.Stderr = tee
	done := make(chan struct{})
	timer := time.AfterFunc(share+170*time.Second, func() { cmd.Process.Kill() }) //nolint
	go func() {
		t := time.NewTicker(5 * time.Second)
		defer t.Stop()
		for {
			select {
			case <-done:
				return
			case <-t.C:
				c.Tick()
			}
		}
	}()
	out, err := cmd.Output()
	close(done)
	timer.Stop()
	for _, l := range strings.Split(string(out), "\n") {
		if strings.HasPrefix(l, "WRES ") {
			if json.Unmarshal([]byte(l[5:]), &r) == nil {
				return r
			}
		}
	}
	fmt.Fprintf(mcx.Out, "worker %d/%d of harness %d ended without result: %v\n%s\n", w, nw, h, err, tail(string(out)))
	r.Capped = true
	r.Crash = tee.Crash()
	return r
}

func tail(s string) string {
	if len(s) > 2000 {
		return s[len(s)-2000:]
	}
	return s
}

func worker(c *mcx.Ctx, hs []Harness, w string) {
	p := strings.Split(w, ",")
	n := make([]int, len(p))
	for i := range p {
		n[i], _ = strconv.Atoi(p[i])
	}
	var x *explorer
	go func() {
		last, since := int64(0), time.Now()
		for {
			time.Sleep(time.Second)
			c.Tick()
			if k := atomic.LoadInt64(&executions); k != last {
				last, since = k, time.Now()
			} else if k != 0 && time.Since(since) > 140*time.Second {
				// executions take milliseconds
				p, _ := current.Load().([]int)
				b, _ := json.Marshal(wres{Hang: true, Fail: p, Capped: true, Err: "an execution doesn't end: endless loop or a call that never returns"})
				fmt.Fprintln(mcx.Out, "WRES "+string(b))
				os.Exit(0)
			}
		}
	}()
	x = &explorer{h: hs[n[0]], w: n[1], ws: n[2], limit: time.Duration(n[3]) * time.Millisecond, out: map[string]int{}, start: time.Now()}
	bound := x.h.Bound
	if Racing && bound > 1 {
		bound = 1
	}
	// iterate the bound so that the first counterexample has the fewest preemptions
	for b := 0; b <= bound; b++ {
		x.h.Bound = b
		x.execs, x.pts, x.out = 0, 0, map[string]int{}
		x.explore(nil, 0, true)
		if x.fail != nil || x.capped {
			break
		}
	}
	r := wres{Execs: x.execs, Pts: x.pts, MaxPts: x.maxPts, Out: x.out, Fail: x.fail, Failed: x.fail != nil, Capped: x.capped}
	if x.err != nil {
		r.Err = x.err.Error()
	}
	if len(r.Out) > 2000 {
		r.Out = map[string]int{fmt.Sprintf("%d outcomes", len(r.Out)): x.execs}
	}
	b, _ := json.Marshal(r)
	fmt.Fprintln(mcx.Out, "WRES "+string(b))
	os.Exit(0)
}
