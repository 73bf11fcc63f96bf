package sched

import (
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"verif/mc/mcx"
)

// The second program of a check is built with Go's race detector, to which the
// hand-overs of the scheduler are invisible: of two accesses to the same memory
// on any schedule it reports those that no lock of the code under test orders.

const lib = "github.com/iden3/go-iden3-core/"

var (
	access = regexp.MustCompile(`(?m)^(?:Previous )?(?:[Rr]ead|[Ww]rite) at `)
	frame  = regexp.MustCompile(`(?m)^  ([^ (]\S*)\(`)
)

// culprit is the function of the code under test or of the harness that made
// an access.
func culprit(stack string) string {
	for _, m := range frame.FindAllStringSubmatch(stack, -1) {
		f := m[1]
		if strings.HasPrefix(f, lib) || strings.HasPrefix(f, "verif/") || strings.HasPrefix(f, "main.") {
			return f
		}
	}
	return ""
}

// Reports lists the races between two accesses of the code under test.
func reports(log string) []string {
	var out []string
	for _, r := range strings.Split(log, "==================\n") {
		if !strings.HasPrefix(r, "WARNING: DATA RACE") {
			continue
		}
		parts := strings.Split(strings.TrimPrefix(r, "WARNING: DATA RACE\n"), "\n\n")
		var who []string
		for _, p := range parts {
			if access.MatchString(p) {
				who = append(who, culprit(p))
			}
		}
		if len(who) == 2 && strings.HasPrefix(who[0], lib) && strings.HasPrefix(who[1], lib) {
			sort.Strings(who)
			out = append(out, strings.TrimPrefix(who[0], lib)+" and "+strings.TrimPrefix(who[1], lib))
		}
	}
	return out
}

func races(c *mcx.Ctx, hs []Harness, only string, limit time.Duration) {
	self, _ := os.Executable()
	prog := self + "-race"
	if _, err := os.Stat(prog); err != nil {
		return
	}
	dir, err := ioutil.TempDir("", "races")
	if err != nil {
		return
	}
	defer os.RemoveAll(dir)
	nw := runtime.GOMAXPROCS(0)
	if limit > 150*time.Second {
		limit = 150 * time.Second
	}
	deadline := time.Now().Add(limit)
	// each harness in one process: one deviation from each sequential order is
	// cheap, and it is locks, not schedules, that are looked at
	one := func(i int) (wres, []string) {
		left := time.Until(deadline)
		if left < 5*time.Second {
			left = 5 * time.Second
		}
		log := filepath.Join(dir, fmt.Sprint(i, "-", time.Now().UnixNano()))
		r := spawnProg(c, prog, []string{"GORACE=halt_on_error=0 exitcode=0 atexit_sleep_ms=0 history_size=3 log_path=" + log}, i, 0, 1, left/time.Duration((len(hs)+nw-1)/nw)*3)
		fs, _ := filepath.Glob(log + "*")
		var all []string
		for _, f := range fs {
			b, err := ioutil.ReadFile(f)
			if err == nil {
				all = append(all, reports(string(b))...)
			}
		}
		return r, all
	}
	var mu sync.Mutex
	var wg sync.WaitGroup
	next, execs, capped := 0, 0, 0
	seen := map[string]bool{}
	for k := 0; k < nw; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				i := next
				next++
				mu.Unlock()
				if i >= len(hs) {
					return
				}
				if only != "" && hs[i].Name != only {
					continue
				}
				r, rs := one(i)
				if len(rs) > 0 {
					// again
					_, rs2 := one(i)
					have := map[string]bool{}
					for _, x := range rs2 {
						have[x] = true
					}
					var both []string
					for _, x := range rs {
						if have[x] {
							both = append(both, x)
						}
					}
					rs = both
				}
				mu.Lock()
				execs += r.Execs
				if r.Capped {
					capped++
				}
				for _, x := range rs {
					if !seen[x] {
						seen[x] = true
						c.Violation(mcx.Replay{Harness: hs[i].Name, Sig: "race " + x}, fmt.Errorf("data race: %s use the same memory at once with no lock in between", x))
					}
				}
				mu.Unlock()
				c.Tick()
			}
		}()
	}
	wg.Wait()
	c.AddTraces(execs)
	c.Extra("races", map[string]interface{}{"harnesses": len(hs), "executions": execs, "capped": capped, "found": len(seen)})
	fmt.Fprintf(mcx.Out, "  races: harnesses=%d executions=%d capped=%d found=%d\n", len(hs), execs, capped, len(seen))
}
