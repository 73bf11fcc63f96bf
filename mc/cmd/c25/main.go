// C25: at most one holder has the key file open.
package main

import (
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strings"
	"sync/atomic"
	"time"

	"github.com/iden3/go-iden3-core/keystore"
	"github.com/iden3/go-iden3-crypto/babyjub"
	"verif/mc/mcx"
	"verif/mc/sched"
	"verif/mc/vos"
	"verif/mc/world"
)

var params = keystore.KeyStoreParams{ScryptN: 2, ScryptP: 1}

var k1 = babyjub.PrivateKey{1, 2, 3}

var ctr int64

func scratch() string {
	d := filepath.Join(world.Scratch(), fmt.Sprintf("d%d", atomic.AddInt64(&ctr, 1)))
	if err := os.MkdirAll(d, 0700); err != nil {
		panic(err)
	}
	return d
}

func open(st keystore.Storage) (*keystore.KeyStore, error) {
	ks, err := keystore.NewKeyStore(st, params)
	if err == nil {
		runtime.SetFinalizer(ks, nil)
	}
	return ks, err
}

// ---- sequences

// sys: storage objects 0, 1 (and their key stores A, B on 0; C on 1), used
// directly and through key stores.
type sys struct {
	dir  string
	rec  *vos.Rec
	objs []*keystore.FileStorage
	ks   map[string]*keystore.KeyStore // A, B, C: last opened
	// model
	owner  int    // object locked, -1: none
	holder string // key store open, "": the lock was taken directly
	closed map[string]bool
	fresh  int
}

var on = map[string]int{"A": 0, "B": 0, "C": 1}

func newSys() (mcx.Sys, error) {
	s := &sys{dir: scratch(), ks: map[string]*keystore.KeyStore{}, owner: -1, closed: map[string]bool{}}
	s.rec = vos.Watch(s.dir)
	s.rec.NoLog = true
	for i := 0; i < 2; i++ {
		s.objs = append(s.objs, keystore.NewFileStorage(s.path()))
	}
	return s, nil
}

func (s *sys) path() string { return filepath.Join(s.dir, "keys") }

func (s *sys) Close() {
	for _, o := range s.objs {
		o.Unlock() //nolint
	}
	s.rec.Stop()
	os.RemoveAll(s.dir) //nolint
}

func (s *sys) Key() string {
	_, err := os.Stat(s.path())
	return fmt.Sprint(s.owner, s.holder, s.closed, s.ks["A"] != nil, s.ks["B"] != nil, s.ks["C"] != nil, err == nil)
}

func (s *sys) Ops() []string {
	return []string{"open A", "open B", "open C", "close A", "close B", "close C", "use A", "use B", "use C",
		"badopen A", "badopen C", "lock 0", "lock 1", "unlock 0", "unlock 1"}
}

func (s *sys) Do(op string, full bool) error {
	f := strings.Fields(op)
	switch f[0] {
	case "open", "badopen":
		obj := on[f[1]]
		if f[0] == "badopen" {
			// the key file cannot be read, or holds garbage
			s.fresh++
			s.rec.Fault = func(n int, o vos.Op) (int, error) {
				if o.Path == "keys" {
					return 0, errors.New("injected fault")
				}
				return 0, nil
			}
		}
		ks, err := open(s.objs[obj])
		s.rec.Fault = nil
		if s.owner >= 0 {
			if err == nil {
				return fmt.Errorf("succeeds while the file is held")
			}
			if err != keystore.ErrStorageLock {
				return fmt.Errorf("fails with %v while the file is held, not with the lock error", err)
			}
			break
		}
		if f[0] == "badopen" {
			if err == nil {
				return fmt.Errorf("succeeds although the file cannot be read")
			}
			break
		}
		if err != nil {
			return fmt.Errorf("fails although nobody holds the file: %v", err)
		}
		s.ks[f[1]] = ks
		s.owner, s.holder = obj, f[1]
		s.closed[f[1]] = false
	case "close":
		ks := s.ks[f[1]]
		if ks == nil {
			break
		}
		err := ks.Close()
		if s.holder == f[1] {
			if err != nil {
				return fmt.Errorf("fails: %v", err)
			}
			s.owner, s.holder = -1, ""
			s.closed[f[1]] = true
		} else if !s.closed[f[1]] {
			// its lock was taken away with a direct unlock
			s.closed[f[1]] = err == nil
			if s.owner == on[f[1]] && err == nil {
				// closing releases the lock of its own storage object
				s.owner, s.holder = -1, ""
			}
		}
	case "use":
		ks := s.ks[f[1]]
		if ks == nil {
			break
		}
		_, err := ks.ImportKey(k1, []byte("p"))
		if s.holder == f[1] && err != nil {
			return fmt.Errorf("the holder cannot save: %v", err)
		}
		if (s.closed[f[1]] || s.owner != on[f[1]]) && err == nil {
			return fmt.Errorf("one who does not hold the file saves to it")
		}
	case "lock":
		obj := int(f[1][0] - '0')
		ok, err := s.objs[obj].TryLock()
		if err != nil {
			return fmt.Errorf("fails: %v", err)
		}
		if ok != (s.owner < 0) {
			return fmt.Errorf("answers %v while the owner is %d", ok, s.owner)
		}
		if ok {
			s.owner, s.holder = obj, ""
		}
	case "unlock":
		obj := int(f[1][0] - '0')
		err := s.objs[obj].Unlock()
		if s.owner == obj {
			if err != nil {
				return fmt.Errorf("fails: %v", err)
			}
			s.owner, s.holder = -1, ""
		}
	}
	if full {
		return s.observe()
	}
	return nil
}

func (s *sys) observe() error {
	for i, o := range s.objs {
		before, rerr := os.ReadFile(s.path())
		b, err := o.Read()
		if s.owner != i {
			if err == nil || os.IsNotExist(err) {
				return fmt.Errorf("an unheld storage lets read (%v)", err)
			}
			if o.Write([]byte("{}")) == nil {
				return fmt.Errorf("an unheld storage lets write")
			}
			after, _ := os.ReadFile(s.path())
			if string(after) != string(before) {
				return fmt.Errorf("a refused write changes the file")
			}
			continue
		}
		if rerr == nil && (err != nil || string(b) != string(before)) {
			return fmt.Errorf("the holder cannot read: %v", err)
		}
		if rerr == nil {
			if err := o.Write(before); err != nil {
				return fmt.Errorf("the holder cannot write: %v", err)
			}
		}
	}
	// a third party
	z := keystore.NewFileStorage(s.path())
	ok, err := z.TryLock()
	if err != nil {
		return fmt.Errorf("locking from a third object: %v", err)
	}
	if ok {
		defer z.Unlock() //nolint
	}
	if ok != (s.owner < 0) {
		return fmt.Errorf("a third object can lock: %v, owner: %d", ok, s.owner)
	}
	return nil
}

// ---- interleavings

type span struct{ from, to int }

type world1 struct {
	dir   string
	rec   *vos.Rec
	objs  []*keystore.FileStorage
	ks    map[string]*keystore.KeyStore
	held  int               // key stores certainly open
	who   map[string]string // thread -> state
	err   error
	sure  []span // certainly held
	maybe []span // perhaps held or being opened, closed
	fails []fail
	log   []string
}

type fail struct {
	span
	self int // its place in maybe
	what string
	ok   bool
}

func (w *world1) bad(f string, a ...interface{}) {
	if w.err == nil {
		w.err = fmt.Errorf(f, a...)
	}
}

const never = 1 << 30

// open opens key store name on object obj.
func (w *world1) open(name string, obj int) {
	t0 := sched.Now()
	i := len(w.maybe)
	w.maybe = append(w.maybe, span{t0, never})
	ks, err := open(w.objs[obj])
	t1 := sched.Now()
	w.log = append(w.log, fmt.Sprintf("%s:%v", name, err))
	if err != nil {
		w.maybe[i].to = t1
		w.fails = append(w.fails, fail{span{t0, t1}, i, name, err == keystore.ErrStorageLock})
		return
	}
	w.held++
	if w.held > 1 {
		w.bad("%s opens the key file while another key store holds it", name)
	}
	w.sure = append(w.sure, span{t1, never})
	w.who[name] = fmt.Sprintf("%d %d", i, len(w.sure)-1)
	w.ks[name] = ks
}

func (w *world1) use(name string) {
	ks := w.ks[name]
	if ks == nil {
		return
	}
	_, err := ks.ImportKey(k1, []byte("p"))
	if w.who[name] != "" && err != nil {
		w.bad("%s holds the key file but cannot save: %v", name, err)
	}
	if w.who[name] == "" && err == nil {
		w.bad("%s has closed the key file but saves", name)
	}
}

func (w *world1) close(name string) {
	ks := w.ks[name]
	if ks == nil {
		return
	}
	st := w.who[name]
	if st != "" {
		var i, j int
		fmt.Sscanf(st, "%d %d", &i, &j) //nolint
		w.held--
		w.sure[j].to = sched.Now()
		w.who[name] = ""
		if err := ks.Close(); err != nil {
			w.bad("%s: closing fails: %v", name, err)
		}
		w.maybe[i].to = sched.Now()
		return
	}
	// Closing again: nothing is known to be going on.
	ks.Close() //nolint
}

func (w *world1) run(script string) {
	for _, o := range strings.Split(script, " ") {
		switch o[0] {
		case 'o':
			w.open(o[1:2], int(o[2]-'0'))
		case 'u':
			w.use(o[1:2])
		case 'c':
			w.close(o[1:2])
		case 'f':
			// opening fails because the file holds garbage
			obj := int(o[2] - '0')
			t0 := sched.Now()
			i := len(w.maybe)
			w.maybe = append(w.maybe, span{t0, never})
			ks, err := open(garbage{w.objs[obj]})
			if err == nil {
				w.bad("opening garbage succeeds")
				_ = ks
			}
			w.maybe[i].to = sched.Now()
		}
	}
}

// garbage reads garbage.
type garbage struct{ *keystore.FileStorage }

func (g garbage) Read() ([]byte, error) {
	if _, err := g.FileStorage.Read(); err != nil && !os.IsNotExist(err) {
		return nil, err
	}
	return []byte("garbage"), nil
}

func (w *world1) check() (string, error) {
	if w.err != nil {
		return "", w.err
	}
	for _, f := range w.fails {
		// someone must have held the file, or been opening or closing it, at
		// some time during the failing opening
		ok := false
		for i, m := range w.maybe {
			if i == f.self {
				continue
			}
			if m.from <= f.to && m.to >= f.from {
				ok = true
			}
		}
		if !ok {
			return "", fmt.Errorf("%s: opening fails although nobody holds the key file", f.what)
		}
		if !f.ok {
			return "", fmt.Errorf("%s: opening a held file fails with something else than the lock error", f.what)
		}
	}
	for n, st := range w.who {
		if st != "" {
			if err := w.ks[n].Close(); err != nil {
				return "", fmt.Errorf("closing %s at the end: %v", n, err)
			}
		}
	}
	for i, o := range append(w.objs, keystore.NewFileStorage(filepath.Join(w.dir, "keys"))) {
		ks, err := open(o)
		if err != nil {
			return "", fmt.Errorf("with everything closed, object %d cannot be opened: %v", i, err)
		}
		if err := ks.Close(); err != nil {
			return "", err
		}
	}
	return strings.Join(w.log, " "), nil
}

func harness(c *mcx.Ctx, bound int, scripts ...string) sched.Harness {
	return sched.Harness{
		Name:  "interleavings: " + strings.Join(scripts, " | "),
		Bound: bound,
		New: func() ([]func(), func() (string, error), error) {
			w := &world1{dir: scratch(), ks: map[string]*keystore.KeyStore{}, who: map[string]string{}}
			w.rec = vos.Watch(w.dir)
			w.rec.NoLog = true
			for i := 0; i < 3; i++ {
				w.objs = append(w.objs, keystore.NewFileStorage(filepath.Join(w.dir, "keys")))
			}
			ks, err := open(w.objs[2])
			if err != nil {
				return nil, nil, err
			}
			if _, err := ks.ImportKey(k1, []byte("p")); err != nil {
				return nil, nil, err
			}
			if err := ks.Close(); err != nil {
				return nil, nil, err
			}
			w.rec.Points = true
			var bodies []func()
			for i := range scripts {
				i := i
				bodies = append(bodies, func() { w.run(scripts[i]) })
			}
			return bodies, func() (string, error) {
				w.rec.Points = false
				defer os.RemoveAll(w.dir) //nolint
				defer w.rec.Stop()
				out, err := w.check()
				for _, o := range w.objs {
					o.Unlock() //nolint
				}
				return out, err
			}, nil
		},
	}
}

// ---- processes

// child opens the key file, says how it went, and closes on a line of input.
func child(path string) {
	ks, err := open(keystore.NewFileStorage(path))
	if err != nil {
		fmt.Println("error", err == keystore.ErrStorageLock)
		os.Exit(0)
	}
	fmt.Println("open")
	b := make([]byte, 1)
	if _, err := io.ReadFull(os.Stdin, b); err == nil && b[0] == 'c' {
		fmt.Println("closed", ks.Close())
		io.ReadFull(os.Stdin, b) //nolint
	}
	os.Exit(0)
}

type proc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out io.Reader
}

func start(path string) (*proc, string, error) {
	cmd := exec.Command(os.Args[0])
	cmd.Env = append(os.Environ(), "C25_CHILD="+path)
	in, err := cmd.StdinPipe()
	if err != nil {
		return nil, "", err
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		return nil, "", err
	}
	if err := cmd.Start(); err != nil {
		return nil, "", err
	}
	p := &proc{cmd, in, out}
	s, err := p.line()
	return p, s, err
}

func (p *proc) line() (string, error) {
	var s []byte
	b := make([]byte, 1)
	for {
		if _, err := p.out.Read(b); err != nil {
			return string(s), err
		}
		if b[0] == '\n' {
			return string(s), nil
		}
		s = append(s, b[0])
	}
}

func (p *proc) end() {
	p.cmd.Process.Kill() //nolint
	p.cmd.Wait()         //nolint
}

// procs runs a script over processes: each word is a process (digit) and what
// it does: o start and open, c close, k kill.
func procs(script string) error {
	dir := scratch()
	defer os.RemoveAll(dir) //nolint
	path := filepath.Join(dir, "keys")
	ps := map[byte]*proc{}
	defer func() {
		for _, p := range ps {
			p.end()
		}
	}()
	var owner byte
	for _, w := range strings.Fields(script) {
		n := w[0]
		switch w[1] {
		case 'o':
			if p := ps[n]; p != nil {
				p.end()
				if owner == n {
					owner = 0
				}
			}
			p, s, err := start(path)
			if err != nil {
				return err
			}
			ps[n] = p
			want := "open"
			if owner != 0 {
				want = "error true"
			} else {
				owner = n
			}
			if s != want {
				return fmt.Errorf("%s: process says %q, expected %q", w, s, want)
			}
		case 'c':
			if p := ps[n]; p != nil && owner == n {
				p.in.Write([]byte("c")) //nolint
				s, err := p.line()
				if err != nil {
					return err
				}
				if s != "closed <nil>" {
					return fmt.Errorf("%s: process says %q", w, s)
				}
				owner = 0
			}
		case 'k':
			if p := ps[n]; p != nil {
				p.end()
				delete(ps, n)
				if owner == n {
					owner = 0
				}
			}
		}
	}
	return nil
}

func main() {
	if p := os.Getenv("C25_CHILD"); p != "" {
		child(p)
	}
	mcx.Main("C25", "model_checking", func(c *mcx.Ctx) {
		defer world.CleanScratch()
		c.Rule("all interleavings, at the granularity of system calls and lock operations and up to the preemption bound, of 2-3 threads opening, failing to open, using, closing and closing again key stores on one file, sharing or not sharing the storage object, and of 2-3 threads locking, unlocking, reading and writing the storages themselves, against sequential orders; all operation sequences up to the depth over three key stores on two storage objects together with direct locking and unlocking; all sequences of three processes opening, closing and being killed up to a length")
		c.Assume("flock of the kernel this runs on; finalizers are taken away (what they do, closing, is done explicitly)")
		b := c.Pick(3, 5)
		hs := []sched.Harness{
			harness(c, b, "oA0 uA cA", "oB1 uB cB"),
			harness(c, b, "oA0 cA cA", "oB1 uB"),
			harness(c, b, "oA0 cA cA", "oB0 uB"),
			harness(c, b, "oA0 uA cA", "oB0 uB cB"),
			harness(c, b, "oA0 cA oA0 uA", "oB1 uB cB"),
			harness(c, b, "fA0 oA0", "oB1 uB"),
			harness(c, b, "fA0", "oB0 uB cB"),
			harness(c, b-1, "oA0 cA", "oB1 uB cB", "oC2 uC cC"),
			harness(c, b-1, "oA0 cA cA", "oB1 uB", "oC2 uC"),
			harness(c, b-1, "oA0 cA cA", "oB0 uB", "oC2 uC"),
			harness(c, b-1, "fA0", "oB1 cB", "oC2 uC"),
			harness(c, b-1, "oA0 cA uA cA", "oB0 cB uB", "oC0 uC"),
		}
		d := c.Pick(3, 5)
		hs = append(hs,
			direct(d, true, "w0x", "u0 l1 w1y"),
			direct(d, true, "w0x r0", "u0 l1 r1"),
			direct(d, true, "w0x", "w0y", "r0"),
			direct(d, true, "u0 l0 w0x", "l1 w1y u1"),
			direct(d, true, "u0", "u0 l1", "r0"),
			direct(d, true, "r0 r0", "u0 l1 w1y u1"),
			direct(d, false, "l0 w0x u0", "l1 w1y u1"),
			direct(d, false, "l0 u0", "l0 w0x", "l1 w1y"),
			direct(d, false, "l0 r0", "l0 u0", "l1 w1y"),
		)
		sched.Explore(c, hs, time.Duration(c.Pick(60, 500))*time.Second)
		if c.Worker() {
			return
		}
		c.BFS(mcx.BFS{Name: "sequences", New: newSys, Depth: c.Pick(7, 9)})
		var scripts []string
		var rec func(s string, n int)
		rec = func(s string, n int) {
			if n == 0 {
				scripts = append(scripts, strings.TrimSpace(s))
				return
			}
			for _, p := range "123" {
				for _, o := range "ock" {
					if p > '1' && !strings.Contains(s, string(p-1)) {
						continue // the processes are alike
					}
					if o != 'o' && !strings.Contains(s, string(p)+"o") {
						continue
					}
					rec(s+" "+string(p)+string(o), n-1)
				}
			}
		}
		rec("", c.Pick(4, 6))
		c.Each("processes", len(scripts), func(i int) string { return scripts[i] }, func(i int) error { return procs(scripts[i]) })
	})
}
