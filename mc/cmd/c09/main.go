// C09: on-disk commits are atomic and ordered across a crash.
package main

import (
	"errors"
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/iden3/go-iden3-core/db"
	"github.com/iden3/go-iden3-core/merkletree"
	"verif/mc/mcx"
	"verif/mc/vos"
	"verif/mc/vposeidon"
	"verif/mc/world"
)

type step struct {
	name string
	run  func(h *hist) error
}

// hist is a storage driven through a history, with the states it had.
type hist struct {
	dir    string
	st     *db.LevelDbStorage
	rec    *vos.Rec
	kv     map[string]string
	states []string // after 0,1,2... commits
	// at[i]: number of logged operations when commit i was asked for, and when it returned
	asked, acked []int
	opened       int // operations when the first opening returned
	nops         int
	hit, failed  bool
	left         *vos.FS
	mt           *merkletree.MerkleTree
	roots        []merkletree.Hash
}

func show(m map[string]string) string {
	var l []string
	for k, v := range m {
		l = append(l, fmt.Sprintf("%q=%q", k, v))
	}
	sort.Strings(l)
	return strings.Join(l, ",")
}

func (h *hist) commit(f func() error, eff map[string]string) error {
	h.asked = append(h.asked, h.rec.Len())
	err := f()
	for k, v := range eff {
		h.kv[k] = v
	}
	if err != nil {
		// a failed commit may have taken effect or not
		h.states = append(h.states, show(h.kv))
		return err
	}
	h.acked = append(h.acked, h.rec.Len())
	h.states = append(h.states, show(h.kv))
	return nil
}

func (h *hist) open() (err error) {
	st, err := db.NewLevelDbStorage(h.dir, false)
	h.st = st
	return err
}

// put commits one transaction of puts.
func put(name string, kvs ...string) step {
	return step{name, func(h *hist) error {
		tx, err := h.st.NewTx()
		if err != nil {
			return err
		}
		eff := map[string]string{}
		n := len(h.states)
		for i := 0; i+1 < len(kvs); i += 2 {
			v := strings.ReplaceAll(kvs[i+1], "#", fmt.Sprint(n))
			tx.Put([]byte(kvs[i]), []byte(v))
			eff[kvs[i]] = v
		}
		return h.commit(tx.Commit, eff)
	}}
}

var steps = []step{
	put("one", "x", "1#"),
	put("three", "x", "2#", "y", "3#", "z", ""),
	{"merged", func(h *hist) error {
		a, err := h.st.WithPrefix([]byte("p")).NewTx()
		if err != nil {
			return err
		}
		b, err := h.st.NewTx()
		if err != nil {
			return err
		}
		n := fmt.Sprint(len(h.states))
		a.Put([]byte("q"), []byte("a"+n))
		a.Put([]byte("r"), []byte("a"+n))
		b.Put([]byte("x"), []byte("b"+n))
		b.Put([]byte("pq"), []byte("b"+n))
		b.Add(a)
		return h.commit(b.Commit, map[string]string{"pq": "a" + n, "pr": "a" + n, "x": "b" + n})
	}},
	put("empty"),
	{"reopen", func(h *hist) error { h.st.Close(); return h.open() }},
}

var big = put("big", "x", strings.Repeat("X#", 20000), "y", "big#", "z", strings.Repeat("Z#", 9000))

var many = func() step {
	var kvs []string
	for i := 0; i < 300; i++ {
		kvs = append(kvs, fmt.Sprintf("many%03d", i), "#")
	}
	return put("many", kvs...)
}()

var ctr int64

var fractions = []int{0, 50}

func run(ss []step) (*hist, error) { return runFault(ss, 0, 0, false) }

var errInjected = errors.New("injected fault")

// runFault runs a history; if at is positive the at-th file operation after
// opening fails (a write after half of its bytes if half is set) and so do all
// later ones if kind is 1; the history ends at the first error, and the files
// left are the only crash state.
func runFault(ss []step, at, kind int, half bool) (*hist, error) {
	dir := filepath.Join(world.Scratch(), fmt.Sprintf("h%d", atomic.AddInt64(&ctr, 1)))
	if err := os.MkdirAll(dir, 0700); err != nil {
		return nil, err
	}
	h := &hist{dir: filepath.Join(dir, "db"), kv: map[string]string{}, states: []string{""}, asked: []int{0}, acked: []int{0}}
	h.rec = vos.Watch(dir)
	defer h.rec.Stop()
	defer os.RemoveAll(dir) //nolint
	if err := h.open(); err != nil {
		return nil, err
	}
	h.opened = h.rec.Len()
	if at > 0 {
		h.rec.Reset()
		h.rec.Fault = func(n int, o vos.Op) (int, error) {
			if strings.Contains(o.Path, "LOG") || strings.Contains(o.Path, "LOCK") || o.Kind == "close" {
				return 0, nil
			}
			h.nops++
			if h.nops == at || kind == 1 && h.nops > at {
				h.hit = true
				if half {
					return len(o.Data) / 2, errInjected
				}
				return 0, errInjected
			}
			return 0, nil
		}
	}
	for _, s := range ss {
		if err := s.run(h); err != nil {
			if h.hit {
				h.failed = true
				break
			}
			return nil, fmt.Errorf("%s: %w", s.name, err)
		}
	}
	func() {
		defer func() {
			if r := recover(); r != nil && !h.hit {
				panic(r)
			}
		}()
		if h.st != nil {
			h.st.Close()
		}
	}()
	if at > 0 {
		h.rec.Fault = nil
		h.left = vos.LoadFS(dir)
	}
	return h, nil
}

// check opens the files of a crash state and compares.
func (h *hist) check(fs *vos.FS, lo, hi int, what string, created bool) error {
	dir := filepath.Join(world.Scratch(), fmt.Sprintf("c%d", atomic.AddInt64(&ctr, 1)))
	defer os.RemoveAll(dir) //nolint
	if err := fs.Write(dir); err != nil {
		return err
	}
	for round := 0; round < 2; round++ {
		st, err := db.NewLevelDbStorage(filepath.Join(dir, "db"), created)
		if err != nil {
			return fmt.Errorf("%s: reopening fails: %v", what, err)
		}
		got := map[string]string{}
		err = st.Iterate(func(k, v []byte) (bool, error) { got[string(k)] = string(v); return true, nil })
		if err != nil {
			st.Close()
			return fmt.Errorf("%s: reading after reopening fails: %v", what, err)
		}
		s := show(got)
		which := -1
		for i := hi; i >= lo; i-- {
			if h.states[i] == s {
				which = i
				break
			}
		}
		if which < 0 {
			st.Close()
			for i := range h.states {
				if h.states[i] == s {
					return fmt.Errorf("%s: reopens to the state after %d commits, but %d were acknowledged and %d asked for", what, i, lo, hi)
				}
			}
			if len(s) > 300 {
				s = s[:300] + "..."
			}
			return fmt.Errorf("%s: reopens to {%s}, which is no prefix of the committed transactions", what, s)
		}
		if h.mt != nil && which > 0 {
			mt, err := merkletree.NewMerkleTree(st, 140)
			if err != nil {
				st.Close()
				return fmt.Errorf("%s: opening the tree: %v", what, err)
			}
			if r := h.roots[which]; !r.Equals(mt.RootKey()) {
				st.Close()
				return fmt.Errorf("%s: the tree reopens with a root it did not have then", what)
			}
			n := 0
			if err := mt.Walk(nil, func(*merkletree.Node) { n++ }); err != nil || n == 0 {
				st.Close()
				return fmt.Errorf("%s: the reopened tree cannot be read: %v", what, err)
			}
		}
		// and it still works
		if round == 0 {
			tx, _ := st.NewTx()
			if err := tx.Commit(); err != nil {
				st.Close()
				return fmt.Errorf("%s: committing after reopening: %v", what, err)
			}
		}
		st.Close()
		lo, hi = which, which // reopening again changes nothing
	}
	return nil
}

func (h *hist) bounds(n int) (lo, hi int) {
	for i := range h.asked {
		if h.acked[i] <= n {
			lo = i
		}
		if h.asked[i] < n || i == 0 {
			hi = i
		}
	}
	// an operation being torn belongs to the commit asked for at or before it
	for i := range h.asked {
		if h.asked[i] <= n && i > hi {
			hi = i
		}
	}
	return
}

func histories(depth int) [][]int {
	out := [][]int{nil}
	var rec func(p []int)
	rec = func(p []int) {
		if len(p) == depth {
			return
		}
		for i := range steps {
			q := append(append([]int{}, p...), i)
			out = append(out, q)
			rec(q)
		}
	}
	rec(nil)
	return out
}

// explore checks every crash state of a history. pick says which cut points of
// a write of n bytes are tried.
func explore(h *hist, seen *sync.Map, pick func(n int) []int) (int, error) {
	states := 0
	if os.Getenv("C09_DEBUG") != "" {
		for i, o := range h.rec.Ops {
			fmt.Println(i, o.Kind, o.Path, o.To, len(o.Data))
		}
	}
	fs := h.rec.Base.Clone()
	visit := func(f *vos.FS, lo, hi int, what string, created bool) error {
		c := f.Clone()
		for p := range c.Files {
			if strings.HasSuffix(p, "/LOG") || strings.HasSuffix(p, "/LOG.old") {
				delete(c.Files, p)
			}
		}
		key := fmt.Sprintf("%d %d %v ", lo, hi, created) + c.Digest() + strings.Join(h.states[lo:hi+1], "|")
		if _, dup := seen.LoadOrStore(key, true); dup {
			return nil
		}
		states++
		return h.check(f, lo, hi, what, created)
	}
	for n := 0; n <= len(h.rec.Ops); n++ {
		lo, hi := h.bounds(n)
		created := n >= h.opened
		if err := visit(fs, lo, hi, fmt.Sprintf("crash after %d of %d file operations", n, len(h.rec.Ops)), created); err != nil {
			return states, err
		}
		// power failure: only synced data is sure; any prefix of the rest
		for _, pl := range fs.PowerLoss(fractions) {
			if err := visit(pl, 0, hi, fmt.Sprintf("power failure after %d file operations", n), created); err != nil {
				return states, err
			}
		}
		if n == len(h.rec.Ops) {
			break
		}
		o := h.rec.Ops[n]
		if o.Kind == "write" && !strings.Contains(o.Path, "LOG") {
			for _, k := range pick(len(o.Data)) {
				if k <= 0 || k >= len(o.Data) {
					continue
				}
				g := fs.Clone()
				g.Apply(o, k)
				if err := visit(g, lo, hi, fmt.Sprintf("crash during file operation %d (%s) after %d of %d bytes", n, o.Path, k, len(o.Data)), created); err != nil {
					return states, err
				}
			}
		}
		fs.Apply(o, -1)
	}
	return states, nil
}

func every(n int) []int {
	var l []int
	for i := 1; i < n; i++ {
		l = append(l, i)
	}
	return l
}

func coarse(step int) func(n int) []int {
	return func(n int) []int {
		if n <= 200 {
			return every(n)
		}
		m := map[int]bool{}
		for i := 0; i < n; i += step {
			m[i] = true
		}
		for b := 0; b <= n+32768; b += 32768 { // journal block boundaries
			for d := -9; d <= 9; d++ {
				m[b+d] = true
			}
		}
		for d := 1; d < 40; d++ {
			m[d], m[n-d] = true, true
		}
		var l []int
		for k := range m {
			l = append(l, k)
		}
		sort.Ints(l)
		return l
	}
}

func main() {
	vposeidon.Fast = true
	mcx.Main("C09", "fault_enumeration", func(c *mcx.Ctx) {
		defer world.CleanScratch()
		c.Rule("all histories up to the depth over {one put, several puts, merged transactions with a prefix, empty commit, close and reopen} on the real on-disk storage, plus transactions spanning several journal blocks and trees; the files are rebuilt as after a stop at every file operation, every byte of every write, and every such moment of a power failure keeping none, half or all of the unsynced bytes; each is reopened (twice)")
		c.Assume("file system metadata operations take effect in order; a file's unsynced data survives as a prefix of what was written; LevelDB's own code runs on a recording stand-in of package os")
		var seen sync.Map
		if c.Thorough() {
			fractions = []int{0, 10, 30, 50, 70, 90}
		}
		hs := histories(c.Pick(3, 4))
		var total int64
		c.Each("histories", len(hs), func(i int) string {
			var n []string
			for _, s := range hs[i] {
				n = append(n, steps[s].name)
			}
			return strings.Join(n, ",")
		}, func(i int) error {
			var ss []step
			for _, s := range hs[i] {
				ss = append(ss, steps[s])
			}
			h, err := run(ss)
			if err != nil {
				return err
			}
			n, err := explore(h, &seen, every)
			atomic.AddInt64(&total, int64(n))
			return err
		})
		bigs := [][]step{
			{big}, {steps[0], big}, {big, steps[1]}, {big, steps[4], steps[1]}, {steps[1], big, big},
			{many}, {steps[0], many, many, steps[1]},
		}
		c.Each("several blocks", len(bigs), func(i int) string { return fmt.Sprint(i) }, func(i int) error {
			h, err := run(bigs[i])
			if err != nil {
				return err
			}
			n, err := explore(h, &seen, coarse(c.Pick(4001, 97)))
			atomic.AddInt64(&total, int64(n))
			return err
		})
		// failing file operations
		c.Each("failing file operations", len(hs), func(i int) string {
			return fmt.Sprint(hs[i])
		}, func(i int) error {
			var ss []step
			for _, s := range hs[i] {
				ss = append(ss, steps[s])
			}
			for at := 1; ; at++ {
				more := false
				for kind := 0; kind < 2; kind++ {
					for _, half := range []bool{false, true} {
						h, err := runFault(ss, at, kind, half)
						if err != nil {
							return err
						}
						if !h.hit {
							continue
						}
						more = true
						lo, hi := len(h.acked)-1, len(h.states)-1
						if err := h.check(h.left, lo, hi, fmt.Sprintf("file operation %d fails (every later one too: %v, half written: %v)", at, kind == 1, half), true); err != nil {
							return err
						}
						atomic.AddInt64(&total, 1)
					}
				}
				if !more {
					return nil
				}
			}
		})
		// trees
		a := world.NewAlphabet(0, 1, 2, 4, 6)
		orders := world.Orders(5, c.Pick(2, 4))
		c.Each("trees", len(orders), func(i int) string { return fmt.Sprint(orders[i]) }, func(i int) error {
			var ss []step
			treeStep := func(name string, f func(h *hist) error) {
				ss = append(ss, step{name, func(h *hist) error {
					err := h.commit(func() error { return f(h) }, nil)
					if err != nil {
						return err
					}
					// the state is whatever the storage shows now
					h.kv = map[string]string{}
					if err := h.st.Iterate(func(k, v []byte) (bool, error) { h.kv[string(k)] = string(v); return true, nil }); err != nil {
						return err
					}
					h.states[len(h.states)-1] = show(h.kv)
					h.roots = append(h.roots, *h.mt.RootKey())
					return nil
				}})
			}
			treeStep("new tree", func(h *hist) (err error) {
				h.roots = make([]merkletree.Hash, len(h.states))
				h.mt, err = merkletree.NewMerkleTree(h.st, 140)
				return err
			})
			for _, e := range orders[i] {
				d := a.Data[a.Names[e]]
				if !world.InField(&d) {
					continue
				}
				treeStep("add "+a.Names[e], func(h *hist) error { return h.mt.AddEntry(world.Entry(d)) })
			}
			h, err := run(ss)
			if err != nil {
				return err
			}
			n, err := explore(h, &seen, coarse(c.Pick(53, 7)))
			atomic.AddInt64(&total, int64(n))
			return err
		})
		c.AddStates(int(total))
		c.Extra("crash_states", total)
		_ = ioutil.Discard
	})
}
