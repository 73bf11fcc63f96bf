// Package mcx is the common part of every check: it counts what was explored,
// reports violations as replayable artefacts, knows the recorded findings and
// writes the evidence file.
package mcx

import (
	"encoding/json"
	"flag"
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/sirupsen/logrus"
)

// Replay is the artefact written for a violation.
type Replay struct {
	Property string   `json:"property"`
	Harness  string   `json:"harness"`
	Key      string   `json:"key,omitempty"`
	Trace    []string `json:"trace,omitempty"`
	Schedule []int    `json:"schedule,omitempty"`
	Error    string   `json:"error"`
	Sig      string   `json:"sig"`
	Repro    string   `json:"repro"`
}

// Ctx is the context of one run of one check.
type Ctx struct {
	ID, Tier, Level string
	Seed            int
	Root            string
	start           time.Time
	deadline        time.Time

	mu          sync.Mutex
	states      int64
	transitions int64
	traces      int64
	evals       int64
	distinct    map[string]struct{}
	distinctN   int64
	outcomes    map[string]int64
	samples     []interface{}
	perHarness  map[string]int64
	extra       map[string]interface{}
	assume      []string
	rule        []string
	notExh      []string
	violations  int
	sigs        map[string]bool
	knownHit    map[string]bool
	known       map[string]string
	replay      *Replay
	replayHit   bool
	progress    int64
	current     sync.Map
}

const maxViol = 5

// Thorough tells whether this is the thorough tier.
func (c *Ctx) Thorough() bool { return c.Tier == "thorough" }

// Pick returns q in the quick tier and t in the thorough one.
func (c *Ctx) Pick(q, t int) int {
	if c.Thorough() {
		return t
	}
	return q
}

// Main runs a check.
func Main(id, level string, f func(c *Ctx)) {
	tier := flag.String("tier", os.Getenv("VERIF_TIER"), "quick or thorough")
	replay := flag.String("replay", "", "replay file")
	root := flag.String("root", "/verif", "verif directory")
	flag.Parse()
	if *tier != "thorough" {
		*tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	c := &Ctx{ID: id, Tier: *tier, Level: level, Seed: seed, Root: *root, start: time.Now(),
		distinct: map[string]struct{}{}, outcomes: map[string]int64{}, perHarness: map[string]int64{},
		extra: map[string]interface{}{}, sigs: map[string]bool{}, knownHit: map[string]bool{}, known: map[string]string{}}
	budget := 240 * time.Second
	if c.Thorough() {
		budget = 780 * time.Second
	}
	if b := os.Getenv("VERIF_BUDGET_S"); b != "" {
		n, _ := strconv.Atoi(b)
		budget = time.Duration(n) * time.Second
	}
	c.deadline = c.start.Add(budget)
	c.loadKnown()
	if *replay != "" {
		b, err := ioutil.ReadFile(*replay)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		c.replay = &Replay{}
		if err := json.Unmarshal(b, c.replay); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
	}
	if c.replay != nil && c.replay.Harness == "process" {
		c.replay = nil // the whole run is the replay
	}
	if os.Getenv(envGuard) == "" && c.replay == nil && !Worker() {
		c.guard()
	}
	go c.watchdog()
	logrus.SetOutput(ioutil.Discard)
	if p := os.Getenv("MC_PROF"); p != "" {
		if w, err := os.Create(p); err == nil && pprof.StartCPUProfile(w) == nil {
			defer pprof.StopCPUProfile()
		}
	}
	f(c)
	pprof.StopCPUProfile()
	c.finish()
}

// watchdog turns a call that never returns into a violation: 180 s without a
// single completed step, when steps take milliseconds.
func (c *Ctx) watchdog() {
	last, since := int64(-1), time.Now()
	for {
		time.Sleep(2 * time.Second)
		n := atomic.LoadInt64(&c.progress)
		if n != last {
			last, since = n, time.Now()
			continue
		}
		if time.Since(since) > 180*time.Second {
			found := false
			c.current.Range(func(k, v interface{}) bool {
				found = true
				r := v.(Replay)
				r.Error = "no progress for 180 s: the call never returns (deadlock or endless loop)"
				r.Sig = "hang " + r.Harness
				c.report(r)
				return false
			})
			if !found {
				buf := make([]byte, 1<<16)
				buf = buf[:runtime.Stack(buf, true)]
				fmt.Fprintf(os.Stderr, "watchdog: no progress outside a case\n%s\n", buf)
				c.report(Replay{Harness: "watchdog", Error: "no progress for 180 s", Sig: "hang"})
			}
			c.finish()
		}
	}
}

// Tick tells the watchdog that work proceeds.
func (c *Ctx) Worker() bool { return Worker() }

// Worker tells whether this process is a scheduler worker (which only runs
// schedules; everything else is the parent's).
func Worker() bool { return os.Getenv("MC_SCHED_WORKER") != "" }

func (c *Ctx) Tick() { atomic.AddInt64(&c.progress, 1) }

// Expired tells that the internal deadline passed; the run is then not exhaustive.
func (c *Ctx) Expired() bool {
	if time.Now().After(c.deadline) {
		c.NotExhaustive("internal deadline")
		return true
	}
	if c.Failed() {
		c.NotExhaustive("stopped after the first violations")
		return true
	}
	return false
}

// Failed tells that enough violations were found to stop.
func (c *Ctx) Failed() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.violations >= maxViol
}

// NotExhaustive records that a cap was hit.
func (c *Ctx) NotExhaustive(why string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	for _, w := range c.notExh {
		if w == why {
			return
		}
	}
	c.notExh = append(c.notExh, why)
}

func (c *Ctx) AddStates(n int)      { atomic.AddInt64(&c.states, int64(n)) }
func (c *Ctx) AddTransitions(n int) { atomic.AddInt64(&c.transitions, int64(n)); c.Tick() }
func (c *Ctx) AddTraces(n int)      { atomic.AddInt64(&c.traces, int64(n)); c.Tick() }

// Outcome counts an observed outcome class (to show that cases collide).
func (c *Ctx) Outcome(s string) {
	c.mu.Lock()
	c.outcomes[s]++
	c.mu.Unlock()
}

// Sample keeps a few actual cases.
func (c *Ctx) Sample(x interface{}) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.samples) < 12 {
		c.samples = append(c.samples, x)
	}
}

func (c *Ctx) Extra(k string, v interface{}) {
	c.mu.Lock()
	c.extra[k] = v
	c.mu.Unlock()
}

func (c *Ctx) Count(h string, n int) {
	c.mu.Lock()
	c.perHarness[h] += int64(n)
	c.mu.Unlock()
}

func (c *Ctx) Assume(s string) { c.assume = append(c.assume, s) }
func (c *Ctx) Rule(s string)   { c.rule = append(c.rule, s) }

func (c *Ctx) loadKnown() {
	b, err := ioutil.ReadFile(filepath.Join(c.Root, "known_findings.txt"))
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		// finding: property=C21 sig=<sig> :: what
		if !strings.HasPrefix(l, "finding: property="+c.ID+" sig=") {
			continue
		}
		l = strings.TrimPrefix(l, "finding: property="+c.ID+" sig=")
		p := strings.SplitN(l, " :: ", 2)
		if len(p) == 2 {
			c.known[strings.TrimSpace(p[0])] = p[1]
		}
	}
}

// SigError is an error carrying the signature that identifies the failing
// input, call site or history in the known-findings file.
type SigError struct {
	Sig string
	Msg string
}

func (e *SigError) Error() string { return e.Msg }

// Sigf makes a SigError.
func Sigf(sig, f string, a ...interface{}) error { return &SigError{sig, fmt.Sprintf(f, a...)} }

func sigOf(err error, def string) string {
	if s, ok := err.(*SigError); ok {
		return s.Sig
	}
	return def
}

// IsKnown tells whether a signature is recorded as a known finding of this property.
func (c *Ctx) IsKnown(sig string) bool { _, ok := c.known[sig]; return ok }

func (c *Ctx) report(r Replay) {
	c.mu.Lock()
	defer c.mu.Unlock()
	r.Property = c.ID
	if what, ok := c.known[r.Sig]; ok {
		if !c.knownHit[r.Sig] {
			c.knownHit[r.Sig] = true
			fmt.Fprintf(Out, "KNOWN-FINDING: property=%s %s (sig %s)\n", c.ID, what, r.Sig)
		}
		return
	}
	if c.sigs[r.Sig] || c.violations >= maxViol {
		return
	}
	c.sigs[r.Sig] = true
	c.violations++
	dir := filepath.Join(c.Root, "replays")
	_ = os.MkdirAll(dir, 0755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%d.json", c.ID, c.violations))
	r.Repro = fmt.Sprintf("bash %s/run.sh %s replay %s", c.Root, c.ID, path)
	b, _ := json.MarshalIndent(r, "", " ")
	_ = ioutil.WriteFile(path, b, 0644)
	fmt.Fprintf(Out, "violation in harness %s: %s\n  case: %s\n  trace: %s\n", r.Harness, r.Error, r.Key, strings.Join(r.Trace, " ; "))
	fmt.Fprintf(Out, "VIOLATION property=%s replay=%s\n", c.ID, path)
}

// Protect runs f and turns a panic into an error.
func Protect(f func() error) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(*SigError); ok {
				err = s
				return
			}
			st := string(debug.Stack())
			where := ""
			for _, l := range strings.Split(st, "\n") {
				if strings.Contains(l, "/repo/") {
					where = strings.TrimSpace(l)
					break
				}
			}
			err = fmt.Errorf("panic: %v (at %s)", r, where)
		}
	}()
	return f()
}

// Case runs one enumerated case.  On failure it is run 5 times; only a case
// that fails every time is reported.
func (c *Ctx) Case(harness, key string, f func() error) {
	if Worker() {
		return
	}
	if c.replay != nil {
		if c.replay.Harness != harness || c.replay.Key != key {
			return
		}
		c.replayHit = true
		for i := 0; i < 5; i++ {
			fmt.Fprintf(Out, "replay %s %s run %d: %v\n", harness, key, i+1, Protect(f))
		}
	}
	id := new(int)
	c.current.Store(id, Replay{Harness: harness, Key: key})
	err := Protect(f)
	c.current.Delete(id)
	atomic.AddInt64(&c.evals, 1)
	c.Tick()
	if err == nil {
		return
	}
	for i := 0; i < 4; i++ {
		if e := Protect(f); e == nil {
			fmt.Fprintf(Out, "note: %s %s failed once and then passed: %v\n", harness, key, err)
			c.Outcome("unstable case ignored")
			return
		}
	}
	c.report(Replay{Harness: harness, Key: key, Error: err.Error(), Sig: sigOf(err, harness+" "+key)})
}

// Each runs n cases in parallel. key(i) names case i.
func (c *Ctx) Each(harness string, n int, key func(i int) string, f func(i int) error) {
	if Worker() {
		return
	}
	w := runtime.GOMAXPROCS(0)
	if n < w {
		w = n
	}
	var next int64 = -1
	var done int64
	var wg sync.WaitGroup
	for k := 0; k < w; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(atomic.AddInt64(&next, 1))
				if i >= n {
					return
				}
				if c.Expired() {
					return
				}
				c.Case(harness, key(i), func() error { return f(i) })
				atomic.AddInt64(&done, 1)
			}
		}()
	}
	wg.Wait()
	c.Count(harness, int(done))
	if n > 0 {
		c.Sample(harness + ": " + key(0))
		c.Sample(harness + ": " + key(n/2))
	}
}

// Distinct counts a distinct non-trivial case.
func (c *Ctx) Distinct(k string) {
	c.mu.Lock()
	if len(c.distinct) < 1<<20 {
		c.distinct[k] = struct{}{}
	}
	c.mu.Unlock()
}

// DistinctN adds n cases known to be distinct by construction.
func (c *Ctx) DistinctN(n int) { atomic.AddInt64(&c.distinctN, int64(n)) }

// Violation reports a violation found (and confirmed) by an engine.
func (c *Ctx) Violation(r Replay, err error) {
	r.Error = err.Error()
	if r.Sig == "" {
		r.Sig = sigOf(err, r.Harness+" "+strings.Join(r.Trace, ";")+fmt.Sprint(r.Schedule))
	}
	c.report(r)
}

// Replaying returns the artefact to replay for a harness, if any.
func (c *Ctx) Replaying(harness string) (*Replay, bool) {
	if c.replay == nil {
		return nil, false
	}
	if c.replay.Harness == harness {
		c.replayHit = true
		return c.replay, true
	}
	return nil, true
}

func (c *Ctx) finish() {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.replay != nil {
		if !c.replayHit {
			fmt.Fprintln(Out, "replay: case not found")
			os.Exit(2)
		}
		if c.violations > 0 {
			os.Exit(1)
		}
		os.Exit(0)
	}
	cov := map[string]interface{}{}
	for k, v := range c.extra {
		cov[k] = v
	}
	if len(c.samples) == 0 {
		c.samples = append(c.samples, "none")
	}
	cov["samples"] = c.samples
	cov["exhaustive"] = len(c.notExh) == 0
	if len(c.notExh) > 0 {
		cov["caps_hit"] = c.notExh
	}
	if len(c.outcomes) > 0 {
		cov["outcomes"] = c.outcomes
	}
	if len(c.perHarness) > 0 {
		cov["per_harness"] = c.perHarness
	}
	cov["rule"] = strings.Join(c.rule, " ")
	// Cases run directly on the real code are evaluations; they count as
	// transitions from the initial state of the case as well.
	cov["evaluations"] = c.evals + c.traces
	cov["states"] = c.states
	cov["transitions"] = c.transitions
	cov["traces_validated_against_impl"] = c.traces
	if c.states == 0 && c.transitions == 0 {
		cov["states"] = c.evals
		cov["transitions"] = c.evals
		cov["traces_validated_against_impl"] = c.evals
	}
	if c.states == 0 {
		cov["states"] = c.evals
	}
	if c.traces == 0 {
		cov["traces_validated_against_impl"] = c.evals
	}
	dn := int64(len(c.distinct)) + c.distinctN
	if dn == 0 {
		dn = c.states
		if dn == 0 {
			dn = c.evals
		}
	}
	cov["distinct_nontrivial"] = dn
	ev := map[string]interface{}{
		"property": c.ID, "tier": c.Tier, "seed": c.Seed, "level": c.Level,
		"coverage": cov, "wall_s": time.Since(c.start).Seconds(), "violations": c.violations,
	}
	if len(c.assume) > 0 {
		ev["assumptions"] = c.assume
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	_ = os.MkdirAll(filepath.Join(c.Root, "evidence"), 0755)
	if err := ioutil.WriteFile(filepath.Join(c.Root, "evidence", c.ID+".json"), append(b, '\n'), 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var ph []string
	for k, v := range c.perHarness {
		ph = append(ph, fmt.Sprintf("%s=%d", k, v))
	}
	sort.Strings(ph)
	fmt.Fprintf(Out, "%s %s: states=%v transitions=%v traces=%v cases=%d exhaustive=%v violations=%d wall=%.1fs\n  %s\n", c.ID, c.Tier,
		cov["states"], cov["transitions"], cov["traces_validated_against_impl"], c.evals, len(c.notExh) == 0, c.violations, time.Since(c.start).Seconds(), strings.Join(ph, " "))
	if len(c.outcomes) > 0 {
		var o []string
		for k, v := range c.outcomes {
			o = append(o, fmt.Sprintf("%s=%d", k, v))
		}
		sort.Strings(o)
		if len(o) > 40 {
			o = append(o[:40], fmt.Sprintf("... (%d outcomes)", len(o)))
		}
		fmt.Fprintln(Out, "  outcomes:", strings.Join(o, ", "))
	}
	for _, w := range c.notExh {
		fmt.Fprintln(Out, "  cap hit:", w)
	}
	if c.violations > 0 {
		os.Exit(1)
	}
	os.Exit(0)
}
