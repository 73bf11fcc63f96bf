// Package lin makes linearizability harnesses: a program of a few threads is
// run under the controlled scheduler, and the results of every schedule must be
// those of some sequential order of the same calls that respects real time.
package lin

import (
	"crypto/sha256"
	"fmt"
	"strings"

	"verif/mc/sched"
)

// Op runs one call on the system and returns everything it shows.
type Op struct {
	Name string
	Run  func(s interface{}) string
}

// Sys describes the system.
type Sys struct {
	// New builds a fresh system; done releases it (may be nil).
	New func() (s interface{}, done func(), err error)
	// Begin is called on the system right before the threads start and End
	// right after (may be nil), e.g. to switch scheduling points on and off.
	Begin, End func(s interface{})
	// Final shows the final state.
	Final func(s interface{}) string
	// Check is an extra condition on the final state (may be nil).
	Check func(s interface{}) error
}

type rec struct {
	op         *Op
	out        string
	start, end int
	th         int
}

// Dig is a short digest.
func Dig(s string) string { h := sha256.Sum256([]byte(s)); return fmt.Sprintf("%x", h[:5]) }

// Err shows an error.
func Err(err error) string {
	if err == nil {
		return "ok"
	}
	return "error " + err.Error()
}

// Harness makes a scheduler harness of per-thread operation sequences.
func Harness(name string, sys Sys, threads [][]Op, bound int) sched.Harness {
	var nm []string
	for _, t := range threads {
		var x []string
		for _, o := range t {
			x = append(x, o.Name)
		}
		nm = append(nm, strings.Join(x, ","))
	}
	type seqRes struct {
		outs  map[string]string
		final string
	}
	cache := map[string]seqRes{}
	seq := func(order []rec) seqRes {
		k := ""
		for _, r := range order {
			k += fmt.Sprintf("%d", r.th)
		}
		if r, ok := cache[k]; ok {
			return r
		}
		s, done, err := sys.New()
		if err != nil {
			panic(err)
		}
		res := seqRes{outs: map[string]string{}}
		idx := map[int]int{}
		for _, r := range order {
			res.outs[fmt.Sprintf("%d.%d", r.th, idx[r.th])] = r.op.Run(s)
			idx[r.th]++
		}
		res.final = sys.Final(s)
		if done != nil {
			done()
		}
		cache[k] = res
		return res
	}
	return sched.Harness{
		Name:  name + ": " + strings.Join(nm, " | "),
		Bound: bound,
		New: func() ([]func(), func() (string, error), error) {
			s, done, err := sys.New()
			if err != nil {
				return nil, nil, err
			}
			if sys.Begin != nil {
				sys.Begin(s)
			}
			recs := make([][]rec, len(threads))
			var bodies []func()
			for t := range threads {
				t := t
				bodies = append(bodies, func() {
					for i := range threads[t] {
						o := &threads[t][i]
						sched.P()
						st := sched.Now()
						out := o.Run(s)
						recs[t] = append(recs[t], rec{o, out, st, sched.Now(), t})
					}
				})
			}
			check := func() (string, error) {
				if done != nil {
					defer done()
				}
				if sys.End != nil {
					sys.End(s)
				}
				fin := sys.Final(s)
				if sys.Check != nil {
					if err := sys.Check(s); err != nil {
						return "", err
					}
				}
				var ok bool
				var order []rec
				total := 0
				for _, r := range recs {
					total += len(r)
				}
				var find func(pos []int)
				find = func(pos []int) {
					if ok {
						return
					}
					if len(order) == total {
						r := seq(order)
						if r.final != fin {
							return
						}
						for t := range recs {
							for i, x := range recs[t] {
								if r.outs[fmt.Sprintf("%d.%d", t, i)] != x.out {
									return
								}
							}
						}
						ok = true
						return
					}
					for t := range recs {
						if pos[t] == len(recs[t]) {
							continue
						}
						c := recs[t][pos[t]]
						bad := false
						for u := range recs {
							if u != t && pos[u] < len(recs[u]) && recs[u][pos[u]].end < c.start {
								bad = true
							}
						}
						if bad {
							continue
						}
						pos[t]++
						order = append(order, c)
						find(pos)
						order = order[:len(order)-1]
						pos[t]--
					}
				}
				find(make([]int, len(recs)))
				var o []string
				for _, r := range recs {
					for _, x := range r {
						o = append(o, x.op.Name+"="+x.out)
					}
				}
				out := strings.Join(o, " ; ")
				if !ok {
					return out, fmt.Errorf("no sequential order explains the results: %s ; final %s", out, fin)
				}
				return Dig(out), nil
			}
			return bodies, check, nil
		},
	}
}
