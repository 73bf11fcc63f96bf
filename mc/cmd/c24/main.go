// C24: a crash while saving never loses previously stored keys.
package main

import (
	"errors"
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/iden3/go-iden3-core/keystore"
	"github.com/iden3/go-iden3-crypto/babyjub"
	"verif/mc/mcx"
	"verif/mc/vos"
	"verif/mc/world"
)

var params = keystore.KeyStoreParams{ScryptN: 2, ScryptP: 1}

type pkc = babyjub.PublicKeyComp

func priv(n byte) (k babyjub.PrivateKey) {
	for i := range k {
		k[i] = n*16 + byte(i)
	}
	return k
}

var (
	secrets []babyjub.PrivateKey
	pubs    []pkc
	passes  = []string{"", "secret"}
	index   = map[pkc]int{}
)

func init() {
	for i := 0; i < 4; i++ {
		k := priv(byte(i + 1))
		secrets = append(secrets, k)
		pubs = append(pubs, k.Public().Compress())
		index[pubs[i]] = i
	}
}

var errInjected = errors.New("injected fault")

// save is one call: key k under pass p; reopen closes and opens first.
type save struct {
	k, p   int
	reopen bool
}

func (s save) String() string {
	r := ""
	if s.reopen {
		r = "reopen,"
	}
	return fmt.Sprintf("%ssave k%d p%d", r, s.k, s.p)
}

// state maps key to pass.
type state map[int]int

func (s state) with(k, p int) state {
	n := state{}
	for a, b := range s {
		n[a] = b
	}
	n[k] = p
	return n
}

func (s state) eq(o state) bool {
	if len(s) != len(o) {
		return false
	}
	for k, p := range s {
		if q, ok := o[k]; !ok || p != q {
			return false
		}
	}
	return true
}

var ctr int64

func scratch() string {
	d := filepath.Join(world.Scratch(), fmt.Sprintf("d%d", atomic.AddInt64(&ctr, 1)))
	if err := os.MkdirAll(d, 0700); err != nil {
		panic(err)
	}
	return d
}

func open(path string) (*keystore.KeyStore, error) {
	ks, err := keystore.NewKeyStore(keystore.NewFileStorage(path), params)
	if err == nil {
		runtime.SetFinalizer(ks, nil)
	}
	return ks, err
}

// content tells what an open key store holds.
func content(ks *keystore.KeyStore) (state, error) {
	st := state{}
	for _, pk := range ks.Keys() {
		pk := pk
		k, ok := index[pk]
		if !ok {
			return nil, fmt.Errorf("a key nobody stored is listed")
		}
		for p := range passes {
			if ks.UnlockKey(&pk, []byte(passes[p])) != nil {
				continue
			}
			sk, err := ks.ExportKey(&pk)
			if err != nil {
				return nil, err
			}
			if *sk != secrets[k] {
				return nil, fmt.Errorf("key %d comes back with another secret", k)
			}
			st[k] = p
		}
		if _, ok := st[k]; !ok {
			return nil, fmt.Errorf("key %d is listed but no passphrase unlocks it", k)
		}
	}
	return st, nil
}

// hist is one recorded history of saves.
type hist struct {
	rec    *vos.Rec
	states []state
	asked  []int // log length when save i was asked for
	acked  []int // and when it returned
}

func run(ss []save, pre *vos.FS, st0 state) (*hist, error) {
	dir := scratch()
	defer os.RemoveAll(dir) //nolint
	if pre != nil {
		if err := pre.Write(dir); err != nil {
			return nil, err
		}
	}
	h := &hist{states: []state{st0}, asked: []int{0}, acked: []int{0}}
	h.rec = vos.Watch(dir)
	defer h.rec.Stop()
	path := filepath.Join(dir, "keys")
	ks, err := open(path)
	if err != nil {
		return nil, err
	}
	for _, s := range ss {
		if s.reopen {
			if err := ks.Close(); err != nil {
				return nil, err
			}
			if ks, err = open(path); err != nil {
				return nil, err
			}
		}
		h.asked = append(h.asked, h.rec.Len())
		if _, err := ks.ImportKey(secrets[s.k], []byte(passes[s.p])); err != nil {
			return nil, err
		}
		h.acked = append(h.acked, h.rec.Len())
		h.states = append(h.states, h.states[len(h.states)-1].with(s.k, s.p))
	}
	return h, ks.Close()
}

// reopen opens a crash state and compares with the states allowed.
func reopen(fs *vos.FS, allowed []state, what string) error {
	dir := scratch()
	defer os.RemoveAll(dir) //nolint
	if err := fs.Write(dir); err != nil {
		return err
	}
	path := filepath.Join(dir, "keys")
	return reopenAt(path, allowed, what)
}

func reopenAt(path string, allowed []state, what string) error {
	ks, err := open(path)
	if err != nil {
		return fmt.Errorf("%s: reopening fails: %v", what, err)
	}
	st, err := content(ks)
	if err == nil {
		ok := false
		for _, a := range allowed {
			ok = ok || a.eq(st)
		}
		if !ok {
			err = fmt.Errorf("the keys are %v, allowed: %v", st, allowed)
		}
	}
	if err != nil {
		ks.Close() //nolint
		return fmt.Errorf("%s: %v", what, err)
	}
	// and saving goes on
	if _, err := ks.ImportKey(secrets[3], []byte(passes[1])); err != nil {
		ks.Close() //nolint
		return fmt.Errorf("%s: saving after reopening: %v", what, err)
	}
	if err := ks.Close(); err != nil {
		return fmt.Errorf("%s: closing after reopening: %v", what, err)
	}
	if ks, err = open(path); err != nil {
		return fmt.Errorf("%s: reopening again: %v", what, err)
	}
	defer ks.Close() //nolint
	st2, err := content(ks)
	if err == nil && !st2.eq(st.with(3, 1)) {
		err = fmt.Errorf("after another save the keys are %v", st2)
	}
	if err != nil {
		return fmt.Errorf("%s: %v", what, err)
	}
	return nil
}

var fractions = []int{0, 50}

func (h *hist) crashes(seen *sync.Map) (int, error) {
	n := 0
	visit := func(fs *vos.FS, i int, what string, power bool) error {
		lo, hi := 0, 0
		for j := range h.asked {
			if h.acked[j] <= i {
				lo = j
			}
			if h.asked[j] <= i {
				hi = j
			}
		}
		al := h.states[lo : hi+1]
		key := fmt.Sprint(al, fs.Digest())
		if _, dup := seen.LoadOrStore(key, true); dup {
			return nil
		}
		n++
		return reopen(fs, al, what)
	}
	fs := h.rec.Base.Clone()
	for i := 0; i <= len(h.rec.Ops); i++ {
		if err := visit(fs, i, fmt.Sprintf("stop after %d of %d file operations", i, len(h.rec.Ops)), false); err != nil {
			return n, err
		}
		for _, pl := range fs.PowerLoss(fractions) {
			if err := visit(pl, i, fmt.Sprintf("power failure after %d of %d file operations", i, len(h.rec.Ops)), true); err != nil {
				return n, err
			}
		}
		if i == len(h.rec.Ops) {
			break
		}
		o := h.rec.Ops[i]
		if o.Kind == "write" {
			for k := 1; k < len(o.Data); k++ {
				g := fs.Clone()
				g.Apply(o, k)
				if err := visit(g, i, fmt.Sprintf("stop in file operation %d (%s) after %d of %d bytes", i, o.Path, k, len(o.Data)), false); err != nil {
					return n, err
				}
			}
		}
		fs.Apply(o, -1)
	}
	return n, nil
}

// faulty runs the saves with the at-th file operation failing (and all later
// ones in this save if sticky), the rest of the saves going on afterwards.
func faulty(ss []save, at int, sticky bool, keep int, at2 int) (hit bool, err error) {
	dir := scratch()
	defer os.RemoveAll(dir) //nolint
	rec := vos.Watch(dir)
	rec.NoLog = true
	defer rec.Stop()
	path := filepath.Join(dir, "keys")
	ks, err := open(path)
	if err != nil {
		return false, err
	}
	n, struck, kinds := 0, false, ""
	active := false
	rec.Fault = func(_ int, o vos.Op) (int, error) {
		if !active {
			return 0, nil
		}
		n++
		if n == at || n == at2 || sticky && struck {
			hit, struck = true, true
			kinds += fmt.Sprintf(" %s %s", o.Kind, o.Path)
			k := keep
			if k > len(o.Data) || k < 0 {
				k = len(o.Data) / 2
			}
			return k, errInjected
		}
		return 0, nil
	}
	mem := state{}
	disk := []state{mem}
	for _, s := range ss {
		if s.reopen {
			if err := ks.Close(); err != nil {
				return hit, fmt.Errorf("closing: %v", err)
			}
			if ks, err = open(path); err != nil {
				return hit, fmt.Errorf("reopening after%s failed: %v", kinds, err)
			}
			st, err := content(ks)
			if err != nil {
				return hit, err
			}
			ok := false
			for _, d := range disk {
				ok = ok || d.eq(st)
			}
			if !ok {
				return hit, fmt.Errorf("after%s failed and reopening the keys are %v, not %v", kinds, st, disk)
			}
			mem, disk = st, []state{st}
		}
		struck = false
		active = true
		_, err := ks.ImportKey(secrets[s.k], []byte(passes[s.p]))
		active = false
		if err != nil && !struck {
			return hit, fmt.Errorf("%v after%s failed earlier: %v", s, kinds, err)
		}
		next := mem.with(s.k, s.p)
		if err == nil {
			mem, disk = next, []state{next}
		} else {
			disk = append(disk, next)
		}
		st, err := content(ks)
		if err != nil {
			return hit, err
		}
		if !st.eq(mem) {
			return hit, fmt.Errorf("%s: with%s failed the open key store holds %v, not %v", s, kinds, st, mem)
		}
		// the process stops here
		fs := vos.LoadFS(dir)
		if err := reopen(fs, disk, fmt.Sprintf("stop after %v with%s failed", s, kinds)); err != nil {
			return hit, err
		}
	}
	if err := ks.Close(); err != nil {
		return hit, err
	}
	return hit, reopenAt(path, disk, "reopening with"+kinds+" failed")
}

func histories(depth int) [][]save {
	var out [][]save
	var rec func(p []save)
	rec = func(p []save) {
		if len(p) > 0 {
			out = append(out, append([]save{}, p...))
		}
		if len(p) == depth {
			return
		}
		maxk := 0
		for _, s := range p {
			if s.k >= maxk {
				maxk = s.k + 1
			}
		}
		for k := 0; k <= maxk && k < 3; k++ {
			for pw := range passes {
				for _, r := range []bool{false, true} {
					if r && len(p) == 0 {
						continue
					}
					rec(append(p, save{k, pw, r}))
				}
			}
		}
	}
	rec(nil)
	return out
}

func name(ss []save) string {
	var l []string
	for _, s := range ss {
		l = append(l, s.String())
	}
	return strings.Join(l, "; ")
}

func main() {
	mcx.Main("C24", "fault_enumeration", func(c *mcx.Ctx) {
		defer world.CleanScratch()
		c.Rule("all sequences of saves up to the depth (new keys, stored keys under another passphrase, with and without closing and reopening in between) on the real file storage; the files are rebuilt as after a stop at every file operation and every byte of every write, and as after a power failure at every such moment keeping none, half or all of the unsynced bytes; each is reopened, compared, saved to and reopened again. Every file operation of a save fails once or together with all later ones, a failing write after none, half, or nearly all of its bytes, and the saves go on. Interrupted saves on top of the files left by interrupted saves")
		c.Assume("file system metadata operations take effect in order; a file's unsynced data survives as a prefix of what was written; the key store runs on a recording stand-in of package os")
		if c.Thorough() {
			fractions = []int{0, 10, 30, 50, 70, 90}
		}
		var seen sync.Map
		var total int64
		hs := histories(3)
		c.Each("crashes", len(hs), func(i int) string { return name(hs[i]) }, func(i int) error {
			h, err := run(hs[i], nil, state{})
			if err != nil {
				return err
			}
			n, err := h.crashes(&seen)
			atomic.AddInt64(&total, int64(n))
			return err
		})
		fh := histories(c.Pick(2, 3))
		c.Each("failing operations", len(fh), func(i int) string { return name(fh[i]) }, func(i int) error {
			for _, sticky := range []bool{false, true} {
				for _, keep := range []int{0, -1, 1, 100000} {
					for at := 1; ; at++ {
						hit, err := faulty(fh[i], at, sticky, keep, 0)
						if err != nil {
							return fmt.Errorf("operation %d fails (later ones too: %v): %w", at, sticky, err)
						}
						if !hit {
							break
						}
						atomic.AddInt64(&total, 1)
						if c.Thorough() && !sticky {
							for at2 := at + 1; at2 < at+12; at2++ {
								if _, err := faulty(fh[i], at, false, keep, at2); err != nil {
									return fmt.Errorf("operations %d and %d fail: %w", at, at2, err)
								}
								atomic.AddInt64(&total, 1)
							}
						}
					}
				}
			}
			return nil
		})
		// interrupted saves on top of the leftovers of interrupted saves
		two, err := run([]save{{0, 0, false}, {1, 1, false}}, nil, state{})
		if err != nil {
			panic(err)
		}
		var left []*vos.FS
		var leftSt []state
		dup := map[string]bool{}
		for i := 0; i <= len(two.rec.Ops); i++ {
			ks := []int{0}
			if i < len(two.rec.Ops) && two.rec.Ops[i].Kind == "write" {
				l := len(two.rec.Ops[i].Data)
				ks = append(ks, 1, l/2, l-1)
			}
			for _, k := range ks {
				fs := two.rec.At(i, k)
				if dup[fs.Digest()] {
					continue
				}
				dup[fs.Digest()] = true
				left = append(left, fs)
			}
		}
		for i := range left {
			dir := scratch()
			if err := left[i].Write(dir); err != nil {
				panic(err)
			}
			ks, err := open(filepath.Join(dir, "keys"))
			if err != nil {
				leftSt = append(leftSt, nil) // reported by the crashes above
				continue
			}
			st, _ := content(ks)
			ks.Close() //nolint
			leftSt = append(leftSt, st)
			os.RemoveAll(dir) //nolint
		}
		nexts := histories(1)
		nexts = append(nexts, []save{{2, 1, false}})
		c.Each("crashes on leftovers", len(left)*len(nexts), func(i int) string {
			return fmt.Sprintf("leftover %d; %s", i/len(nexts), name(nexts[i%len(nexts)]))
		}, func(i int) error {
			st := leftSt[i/len(nexts)]
			if st == nil {
				return nil
			}
			h, err := run(nexts[i%len(nexts)], left[i/len(nexts)], st)
			if err != nil {
				return err
			}
			n, err := h.crashes(&seen)
			atomic.AddInt64(&total, int64(n))
			return err
		})
		// a file as older versions leave it, with a lock file of a dead process
		c.Case("existing file", "lock file and loose permissions", func() error {
			dir := scratch()
			defer os.RemoveAll(dir) //nolint
			path := filepath.Join(dir, "keys")
			h, err := run([]save{{0, 0, false}}, nil, state{})
			if err != nil {
				return err
			}
			fs := h.rec.At(len(h.rec.Ops), 0)
			if err := fs.Write(dir); err != nil {
				return err
			}
			if err := ioutil.WriteFile(path+".lock", nil, 0600); err != nil {
				return err
			}
			if err := reopenAt(path, []state{{0: 0}}, "file with a lock file"); err != nil {
				return err
			}
			fi, err := os.Stat(path)
			if err != nil {
				return err
			}
			if fi.Mode().Perm()&0077 != 0 {
				return fmt.Errorf("the key file is open to others: %v", fi.Mode())
			}
			return nil
		})
		kinds := map[string]int{}
		for _, o := range two.rec.Ops {
			kinds[o.Kind]++
		}
		var l []string
		for k, n := range kinds {
			l = append(l, fmt.Sprintf("%s %d", k, n))
		}
		sort.Strings(l)
		c.Extra("file operations of two saves", l)
		c.AddStates(int(total))
		c.AddTraces(int(total))
		c.AddTransitions(int(total))
	})
}
