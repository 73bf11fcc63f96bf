package mcx

import (
	"fmt"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
)

// Sys is a system under exploration: the real objects together with their
// reference model.
type Sys interface {
	// Ops lists the operations enabled now, simplest first.
	Ops() []string
	// Do performs op on the real code and on the model and compares what
	// both show.  full asks for the complete observation as well; it is
	// false while a known-good prefix is replayed.
	Do(op string, full bool) error
	// Key is a canonical form of the state (model state and whatever else
	// determines the future).
	Key() string
	// Close releases the system.
	Close()
}

// BFS is a breadth-first search over histories with state deduplication.
type BFS struct {
	Name      string
	New       func() (Sys, error)
	Depth     int
	MaxStates int // 0: no cap
}

type bfsNode struct {
	trace []string
	ops   []string
}

// runTrace replays a trace; the last op is fully checked.
func (b *BFS) runTrace(trace []string, fullAll bool) (key string, ops []string, err error) {
	err = Protect(func() error {
		s, err := b.New()
		if err != nil {
			return fmt.Errorf("initial state: %w", err)
		}
		defer s.Close()
		for i, op := range trace {
			if err := s.Do(op, fullAll || i == len(trace)-1); err != nil {
				if se, ok := err.(*SigError); ok {
					return se
				}
				return fmt.Errorf("step %d (%s): %w", i+1, op, err)
			}
		}
		key = s.Key()
		ops = s.Ops()
		return nil
	})
	return
}

// Run explores and reports.
func (c *Ctx) BFS(b BFS) {
	if Worker() {
		return
	}
	if r, replaying := c.Replaying(b.Name); replaying {
		if r == nil {
			return
		}
		var err error
		for i := 0; i < 5; i++ {
			_, _, err = b.runTrace(r.Trace, true)
			fmt.Fprintf(Out, "replay %s run %d: %v\n", strings.Join(r.Trace, " ; "), i+1, err)
		}
		if err != nil {
			c.Violation(Replay{Harness: b.Name, Trace: r.Trace}, err)
		}
		return
	}
	key, ops, err := b.runTrace(nil, true)
	if err != nil {
		c.Violation(Replay{Harness: b.Name}, err)
		return
	}
	var mu sync.Mutex
	seen := map[string]bool{key: true}
	frontier := []bfsNode{{nil, ops}}
	states, transitions := int64(1), int64(0)
	depthDone := 0
	capped := false
	for d := 0; d < b.Depth && len(frontier) > 0; d++ {
		var next []bfsNode
		type job struct {
			n  int
			op int
		}
		var jobs []job
		for i, n := range frontier {
			for j := range n.ops {
				jobs = append(jobs, job{i, j})
			}
		}
		type res struct {
			key  string
			node bfsNode
		}
		results := make([]*res, len(jobs))
		var idx int64 = -1
		var wg sync.WaitGroup
		stop := int32(0)
		for w := 0; w < runtime.GOMAXPROCS(0); w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for {
					i := int(atomic.AddInt64(&idx, 1))
					if i >= len(jobs) || atomic.LoadInt32(&stop) != 0 {
						return
					}
					if i%32 == 0 && c.Expired() {
						atomic.StoreInt32(&stop, 1)
						return
					}
					n := frontier[jobs[i].n]
					tr := append(append(make([]string, 0, len(n.trace)+1), n.trace...), n.ops[jobs[i].op])
					id := new(int)
					c.current.Store(id, Replay{Harness: b.Name, Trace: tr})
					k, o, err := b.runTrace(tr, false)
					c.current.Delete(id)
					c.Tick()
					atomic.AddInt64(&transitions, 1)
					if err != nil {
						ok := true
						for r := 0; r < 4; r++ {
							if _, _, e := b.runTrace(tr, false); e == nil {
								ok = false
							}
						}
						if ok {
							c.Violation(Replay{Harness: b.Name, Trace: tr}, err)
						} else {
							c.Outcome("unstable trace ignored")
							fmt.Fprintf(Out, "note: unstable trace %v: %v\n", tr, err)
						}
						continue
					}
					mu.Lock()
					dup := seen[k]
					mu.Unlock()
					if !dup {
						results[i] = &res{k, bfsNode{tr, o}}
					}
				}
			}()
		}
		wg.Wait()
		if atomic.LoadInt32(&stop) != 0 {
			capped = true
		}
		for _, r := range results { // deterministic order
			if r == nil || seen[r.key] {
				continue
			}
			if b.MaxStates > 0 && len(seen) >= b.MaxStates {
				capped = true
				c.NotExhaustive(fmt.Sprintf("%s: state cap %d", b.Name, b.MaxStates))
				break
			}
			seen[r.key] = true
			states++
			next = append(next, r.node)
		}
		if capped {
			break
		}
		depthDone = d + 1
		frontier = next
	}
	c.AddStates(int(states))
	c.AddTransitions(int(transitions))
	c.AddTraces(int(transitions))
	c.Count(b.Name, int(states))
	c.Extra("depth "+b.Name, depthDone)
	closed := len(frontier) == 0 && !capped
	if closed {
		c.Extra("closed "+b.Name, true)
	}
	if len(frontier) > 0 {
		c.Sample(b.Name + ": " + strings.Join(frontier[len(frontier)/2].trace, " ; "))
	}
}
