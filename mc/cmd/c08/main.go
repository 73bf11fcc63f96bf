// C08: every storage backend behaves as a prefix-separated transactional map.
package main

import (
	"bytes"
	"errors"
	"fmt"
	"sort"
	"strings"
	"sync/atomic"
	"time"

	"github.com/iden3/go-iden3-core/db"
	"verif/mc/lin"
	"verif/mc/mcx"
	"verif/mc/sched"
	"verif/mc/world"
)

var views = [][]string{{}, {"a"}, {"a", "b"}, {"\xff"}}
var keys = []string{"", "b", "\xff"}

func prefix(v int) string { return strings.Join(views[v], "") }

type txm struct {
	view int
	tx   db.Tx
	w    map[string]string
}

// sys is a storage with up to two open transactions, and its model.
type sys struct {
	root   db.Storage
	reopen func() (db.Storage, error)
	done   func()
	st     []db.Storage
	kv     map[string]string
	tx     [2]*txm
	vals   []string
	canRe  bool
}

func (s *sys) mkViews() {
	s.st = nil
	for _, v := range views {
		st := s.root
		for _, p := range v {
			buf := append(make([]byte, 0, 16), p...)
			st = st.WithPrefix(buf)
			scribble(buf)
		}
		s.st = append(s.st, st)
	}
}

func newSys(b world.Backend, vals []string) (mcx.Sys, error) {
	s := &sys{kv: map[string]string{}, vals: vals, canRe: b.Name == "leveldb"}
	s.root, s.reopen, _, s.done = b.New()
	s.mkViews()
	return s, nil
}

// scribble overwrites a buffer, its spare capacity included.
func scribble(b []byte) {
	b = b[:cap(b)]
	for i := range b {
		b[i] ^= 0x5a
	}
}

func (s *sys) Ops() []string {
	var o []string
	for i := range s.tx {
		if s.tx[i] == nil {
			for v := range views {
				o = append(o, fmt.Sprintf("new %d %d", i, v))
			}
			break // slots are filled in order
		}
	}
	for i, t := range s.tx {
		if t == nil {
			continue
		}
		for k := range keys {
			for x := range s.vals {
				o = append(o, fmt.Sprintf("put %d %d %d", i, k, x))
			}
		}
		o = append(o, fmt.Sprintf("commit %d", i), fmt.Sprintf("close %d", i))
		if s.tx[1-i] != nil {
			o = append(o, fmt.Sprintf("add %d %d", i, 1-i))
		}
		if len(t.w) > 0 {
			o = append(o, fmt.Sprintf("addself %d", i))
		}
	}
	if s.canRe {
		o = append(o, "reopen 0")
	}
	return o
}

func (s *sys) Do(op string, full bool) error {
	var w string
	var a, b, c int
	fmt.Sscan(op, &w, &a, &b, &c) //nolint
	switch w {
	case "new":
		tx, err := s.st[b].NewTx()
		if err != nil {
			return fmt.Errorf("NewTx: %v", err)
		}
		s.tx[a] = &txm{b, tx, map[string]string{}}
	case "put":
		k := append(make([]byte, 0, 8), keys[b]...)
		v := append(make([]byte, 0, 8), s.vals[c]...)
		s.tx[a].tx.Put(k, v)
		scribble(k)
		scribble(v)
		s.tx[a].w[prefix(s.tx[a].view)+keys[b]] = s.vals[c]
	case "commit":
		if err := s.tx[a].tx.Commit(); err != nil {
			return fmt.Errorf("Commit: %v", err)
		}
		for k, v := range s.tx[a].w {
			s.kv[k] = v
		}
		s.tx[a] = nil
	case "close":
		s.tx[a].tx.Close()
		s.tx[a] = nil
	case "add", "addself":
		if w == "addself" {
			b = a
		}
		s.tx[a].tx.Add(s.tx[b].tx)
		for k, v := range s.tx[b].w {
			s.tx[a].w[k] = v
		}
	case "reopen":
		n, err := s.reopen()
		if err != nil {
			return fmt.Errorf("reopening: %v", err)
		}
		s.root = n
		s.tx = [2]*txm{}
		s.mkViews()
	}
	if full {
		if err := s.observe(true); err != nil {
			return err
		}
		if err := s.observe(false); err != nil {
			return fmt.Errorf("after overwriting the buffers returned by the storage: %w", err)
		}
	}
	return nil
}

var errStop = errors.New("callback error")

func (s *sys) observe(scrib bool) error {
	spoil := func(b []byte) {
		if scrib {
			scribble(b[:len(b):len(b)])
		}
	}
	checkGet := func(who string, get func([]byte) ([]byte, error), pre string, look func(string) (string, bool)) error {
		for _, k := range keys {
			kb := append(make([]byte, 0, 8), k...)
			v, err := get(kb)
			if string(kb) != k {
				return fmt.Errorf("%s Get changed the caller's key", who)
			}
			want, ok := look(pre + k)
			if ok && (err != nil || string(v) != want) {
				return fmt.Errorf("%s Get(%q) = %q, %v; want %q", who, k, v, err, want)
			}
			if !ok && err != db.ErrNotFound {
				return fmt.Errorf("%s Get(%q) of an absent key = %q, %v", who, k, v, err)
			}
			if ok {
				spoil(v)
			}
		}
		return nil
	}
	for i, t := range s.tx {
		if t == nil {
			continue
		}
		if err := checkGet(fmt.Sprintf("transaction %d", i), t.tx.Get, prefix(t.view), func(k string) (string, bool) {
			if v, ok := t.w[k]; ok {
				return v, true
			}
			v, ok := s.kv[k]
			return v, ok
		}); err != nil {
			return err
		}
	}
	for vi, st := range s.st {
		pre := prefix(vi)
		if err := checkGet(fmt.Sprintf("storage %q", pre), st.Get, pre, func(k string) (string, bool) { v, ok := s.kv[k]; return v, ok }); err != nil {
			return err
		}
		var want []string
		for k := range s.kv {
			if strings.HasPrefix(k, pre) {
				want = append(want, k[len(pre):])
			}
		}
		sort.Strings(want)
		type pair struct{ k, v []byte }
		for stop := 0; stop <= len(want)+1; stop++ {
			for _, how := range []string{"stop", "error"} {
				var got []pair
				var kept []pair
				n := 0
				err := st.Iterate(func(k, v []byte) (bool, error) {
					n++
					got = append(got, pair{append([]byte{}, k...), append([]byte{}, v...)})
					kept = append(kept, pair{k, v})
					if n == stop {
						if how == "stop" {
							return false, nil
						}
						return true, errStop
					}
					return true, nil
				})
				wn := len(want)
				if stop > 0 && stop < wn {
					wn = stop
				}
				if stop > 0 && stop <= len(want) && how == "error" {
					if err != errStop {
						return fmt.Errorf("storage %q: Iterate swallowed the callback's error: %v", pre, err)
					}
				} else if err != nil {
					return fmt.Errorf("storage %q: Iterate: %v", pre, err)
				}
				if len(got) != wn {
					return fmt.Errorf("storage %q: Iterate (ending at %d) visited %d pairs, want %d", pre, stop, len(got), wn)
				}
				for i := range got {
					if string(got[i].k) != want[i] || string(got[i].v) != s.kv[pre+want[i]] {
						return fmt.Errorf("storage %q: Iterate pair %d is %q=%q, want %q=%q", pre, i, got[i].k, got[i].v, want[i], s.kv[pre+want[i]])
					}
					if !bytes.Equal(got[i].k, kept[i].k) || !bytes.Equal(got[i].v, kept[i].v) {
						return fmt.Errorf("storage %q: the pair given to the Iterate callback changed afterwards", pre)
					}
					spoil(kept[i].k)
					spoil(kept[i].v)
				}
			}
		}
		for lim := 0; lim <= len(want)+1; lim++ {
			l, err := st.List(lim)
			if err != nil {
				return fmt.Errorf("storage %q: List(%d): %v", pre, lim, err)
			}
			wn := len(want)
			if lim > 0 && lim < wn {
				wn = lim
			}
			if len(l) != wn {
				return fmt.Errorf("storage %q: List(%d) has %d pairs, want %d", pre, lim, len(l), wn)
			}
			for i := range l {
				if string(l[i].K) != want[i] || string(l[i].V) != s.kv[pre+want[i]] {
					return fmt.Errorf("storage %q: List(%d) pair %d is %q=%q", pre, lim, i, l[i].K, l[i].V)
				}
				spoil(l[i].K)
				spoil(l[i].V)
			}
		}
		_ = st.Info()
	}
	return nil
}

func show(m map[string]string) string {
	var l []string
	for k, v := range m {
		l = append(l, fmt.Sprintf("%q=%q", k, v))
	}
	sort.Strings(l)
	return strings.Join(l, ",")
}

func (s *sys) Key() string {
	k := show(s.kv)
	for _, t := range s.tx {
		if t == nil {
			k += "|-"
		} else {
			k += fmt.Sprintf("|%d:%s", t.view, show(t.w))
		}
	}
	return k
}

func (s *sys) Close() {
	for _, t := range s.tx {
		if t != nil {
			t.tx.Close()
		}
	}
	s.done()
}

// ---- typed values and lists over a transaction ----

type val struct{ N int }

type listSys struct {
	st   db.Storage
	tx   db.Tx
	sv   []*db.StorageValue
	sl   []*db.StorageList
	done func()
	how  int
	// model: [0] committed, [1] transaction
	m [2]listM
}

type listM struct {
	v    [2]int64 // -1 absent
	init [2]bool
	idx  [2][]string
	kv   [2]map[string]int
}

func (m listM) clone() listM {
	for i := range m.idx {
		m.idx[i] = append([]string{}, m.idx[i]...)
		n := map[string]int{}
		for k, v := range m.kv[i] {
			n[k] = v
		}
		m.kv[i] = n
	}
	return m
}

var lkeys = []string{"", "k", ":\x00\x00\x00\x00"}

func newList(b world.Backend) (mcx.Sys, error) {
	s := &listSys{}
	s.st, _, _, s.done = b.New()
	s.handles(0)
	s.m[0].v = [2]int64{-1, -1}
	s.m[0] = s.m[0].clone()
	return s, s.open()
}

// handles makes the handles on the stored values and lists anew: the prefixes
// are exact buffers (0) or buffers with spare capacity (1), one cut out of the
// other (2).
func (s *listSys) handles(how int) {
	a, b := []byte("lista."), []byte("listb.")
	x, y := []byte("v0"), []byte("v1")
	switch how {
	case 1:
		a, b = append(make([]byte, 0, 64), a...), append(make([]byte, 0, 64), b...)
		x, y = append(make([]byte, 0, 64), x...), append(make([]byte, 0, 64), y...)
	case 2:
		buf := []byte("lista.listb.v0v1................................................................................................")
		a, b, x, y = buf[0:6], buf[6:12], buf[12:14], buf[14:16]
	}
	s.sl = []*db.StorageList{db.NewStorageList(a), db.NewStorageList(b)}
	s.sv = []*db.StorageValue{db.NewStorageValue(x), db.NewStorageValue(y)}
}

func (s *listSys) open() (err error) {
	s.tx, err = s.st.NewTx()
	s.m[1] = s.m[0].clone()
	return err
}

func (s *listSys) Ops() []string {
	var o []string
	for i := range s.sl {
		o = append(o, fmt.Sprintf("init %d", i))
		for k := range lkeys {
			o = append(o, fmt.Sprintf("append %d %d", i, k))
		}
		o = append(o, fmt.Sprintf("set %d", i))
	}
	return append(o, "commit", "close", "handles 0", "handles 1", "handles 2")
}

func (s *listSys) Do(op string, full bool) error {
	var w string
	var a, b int
	fmt.Sscan(op, &w, &a, &b) //nolint
	m := &s.m[1]
	switch w {
	case "init":
		s.sl[a].Init(s.tx)
		m.init[a], m.idx[a] = true, nil
	case "append":
		n := len(m.idx[a]) + 10*a + 100
		key := append(make([]byte, 0, 16), lkeys[b]...)
		err := s.sl[a].Append(s.tx, key, val{n})
		if string(key) != lkeys[b] {
			return fmt.Errorf("Append changed the caller's key")
		}
		scribble(key)
		if (err == nil) != m.init[a] {
			return fmt.Errorf("Append to a list (initialised: %v): %v", m.init[a], err)
		}
		if err == nil {
			m.idx[a] = append(m.idx[a], lkeys[b])
			m.kv[a][lkeys[b]] = n
		}
	case "set":
		n := uint32(0xffffff00) + uint32(len(m.idx[0])*2+a)
		s.sv[a].Set(s.tx, n)
		m.v[a] = int64(n)
	case "handles":
		s.handles(a)
		s.how = a
	case "commit":
		if err := s.tx.Commit(); err != nil {
			return err
		}
		s.m[0] = *m
		if err := s.open(); err != nil {
			return err
		}
	case "close":
		s.tx.Close()
		if err := s.open(); err != nil {
			return err
		}
	}
	m = &s.m[1]
	for i := range s.sl {
		v, err := s.sv[i].Get(s.tx)
		if m.v[i] < 0 && err != db.ErrNotFound || m.v[i] >= 0 && (err != nil || int64(v) != m.v[i]) {
			return fmt.Errorf("value %d reads %d, %v; want %d", i, v, err, m.v[i])
		}
		n, err := s.sl[i].Length(s.tx)
		if !m.init[i] && err != db.ErrNotFound || m.init[i] && (err != nil || int(n) != len(m.idx[i])) {
			return fmt.Errorf("length of list %d reads %d, %v; want %d", i, n, err, len(m.idx[i]))
		}
		for _, k := range lkeys {
			var x val
			err := s.sl[i].Get(s.tx, []byte(k), &x)
			want, ok := m.kv[i][k]
			if !ok && err != db.ErrNotFound || ok && (err != nil || x.N != want) {
				return fmt.Errorf("list %d key %q reads %v, %v; want %v %v", i, k, x, err, want, ok)
			}
			var other struct{ N string }
			if err := s.sl[i].Get(s.tx, []byte(k), &other); err == nil {
				return fmt.Errorf("list %d key %q is read as a value of another type", i, k)
			}
			// what can't be stored is refused and leaves no trace
			if s.sl[i].Append(s.tx, []byte(k), func() {}) == nil {
				return fmt.Errorf("a function was appended to a list")
			}
		}
		for j := 0; j < len(m.idx[i]); j++ {
			var x val
			k, err := s.sl[i].GetByIdx(s.tx, uint32(j), &x)
			if err != nil || string(k) != m.idx[i][j] || x.N != m.kv[i][m.idx[i][j]] {
				return fmt.Errorf("list %d entry %d reads %q %v, %v; want %q", i, j, k, x, err, m.idx[i][j])
			}
			scribble(k[:len(k):len(k)])
		}
		var other struct{ N string }
		if len(m.idx[i]) > 0 {
			if _, err := s.sl[i].GetByIdx(s.tx, 0, &other); err == nil {
				return fmt.Errorf("list %d entry 0 is read as a value of another type", i)
			}
		}
		if n, err := s.sl[i].Length(s.tx); err == nil && int(n) != len(m.idx[i]) {
			return fmt.Errorf("length of list %d reads %d after refused appends, want %d", i, n, len(m.idx[i]))
		}
	}
	return nil
}

// documents stores and loads JSON documents.
func documents(b world.Backend) error {
	st, _, _, done := b.New()
	defer done()
	sub := st.WithPrefix([]byte("p"))
	type doc struct {
		A int
		B []byte
		C *string
	}
	str := "x"
	docs := []doc{{}, {1, nil, nil}, {-1, []byte{}, &str}, {1 << 40, []byte{0, 255}, &str}}
	same := func(x, y doc) bool {
		return x.A == y.A && string(x.B) == string(y.B) && (x.C == nil) == (y.C == nil) && (x.C == nil || *x.C == *y.C)
	}
	for i, d := range docs {
		key := []byte{'k', byte(i)}
		tx, err := sub.NewTx()
		if err != nil {
			return err
		}
		var got doc
		if err := db.LoadJSON(sub, key, &got); err != db.ErrNotFound {
			return fmt.Errorf("an absent document: %v", err)
		}
		if err := db.StoreJSON(tx, key, d); err != nil {
			return err
		}
		scribble(key)
		key = []byte{'k', byte(i)}
		if err := db.LoadJSON(sub, key, &got); err != db.ErrNotFound {
			return fmt.Errorf("an uncommitted document: %v", err)
		}
		if db.StoreJSON(tx, key, func() {}) == nil {
			return fmt.Errorf("a function was stored")
		}
		if err := tx.Commit(); err != nil {
			return err
		}
		if err := db.LoadJSON(sub, key, &got); err != nil || !same(got, d) {
			return fmt.Errorf("%v is loaded as %v, %v", d, got, err)
		}
		if err := db.LoadJSON(st, key, &got); err != db.ErrNotFound {
			return fmt.Errorf("a document of another prefix: %v", err)
		}
		var n int
		if err := db.LoadJSON(sub, key, &n); err == nil {
			return fmt.Errorf("a document is loaded as a number")
		}
		for _, bad := range []string{"", "{", "{}x", "null,"} {
			tx, err := sub.NewTx()
			if err != nil {
				return err
			}
			tx.Put([]byte("bad"), []byte(bad))
			if err := tx.Commit(); err != nil {
				return err
			}
			if err := db.LoadJSON(sub, []byte("bad"), &got); err == nil || err == db.ErrNotFound {
				return fmt.Errorf("%q is loaded as a document: %v", bad, err)
			}
		}
	}
	return nil
}

func (s *listSys) Key() string { return fmt.Sprint(s.how, s.m) }
func (s *listSys) Close()      { s.tx.Close(); s.done() }

// ---- concurrent use ----

type conc struct {
	st  db.Storage
	txs []db.Tx
}

func concHarnesses(b world.Backend, bound int) []sched.Harness {
	var shared db.Storage
	var ctr int64
	mk := func() (interface{}, func(), error) {
		if shared == nil || b.Name == "memory" {
			shared, _, _, _ = b.New()
		}
		st := shared.WithPrefix([]byte(fmt.Sprintf("run%012d:", atomic.AddInt64(&ctr, 1))))
		s := &conc{st: st}
		for i := 0; i < 2; i++ {
			tx, err := st.NewTx()
			if err != nil {
				return nil, nil, err
			}
			tx.Put([]byte("x"), []byte{byte('0' + i)})
			tx.Put([]byte("y"), []byte{byte('0' + i)})
			tx.Put([]byte{'z', byte('0' + i)}, []byte{byte('0' + i)})
			s.txs = append(s.txs, tx)
		}
		return s, nil, nil
	}
	list := func(st db.Storage) string {
		l, err := st.List(0)
		o := lin.Err(err)
		for _, kv := range l {
			o += fmt.Sprintf(" %s=%s", kv.K, kv.V)
		}
		return o
	}
	ops := map[string]lin.Op{}
	add := func(n string, f func(s *conc) string) {
		ops[n] = lin.Op{Name: n, Run: func(x interface{}) string { return f(x.(*conc)) }}
	}
	get := func(g func([]byte) ([]byte, error), k string) string {
		v, err := g([]byte(k))
		return lin.Err(err) + string(v)
	}
	add("commit0", func(s *conc) string { return lin.Err(s.txs[0].Commit()) })
	add("commit1", func(s *conc) string { return lin.Err(s.txs[1].Commit()) })
	add("list", func(s *conc) string { return list(s.st) })
	add("sub", func(s *conc) string { return list(s.st.WithPrefix([]byte("z"))) })
	add("getx", func(s *conc) string { return get(s.st.Get, "x") })
	add("gety", func(s *conc) string { return get(s.st.Get, "y") })
	add("txgetz0", func(s *conc) string { return get(s.txs[1].Get, "z0") })
	add("iter", func(s *conc) string {
		o := ""
		err := s.st.Iterate(func(k, v []byte) (bool, error) {
			o += fmt.Sprintf(" %s=%s:%s", k, v, get(s.st.Get, "nope"))
			return true, nil
		})
		return lin.Err(err) + o
	})
	sys := lin.Sys{New: mk, Final: func(s interface{}) string { return list(s.(*conc).st) }}
	o := func(n ...string) (r []lin.Op) {
		for _, x := range n {
			r = append(r, ops[x])
		}
		return
	}
	h := func(t ...[]lin.Op) sched.Harness { return lin.Harness("concurrent "+b.Name, sys, t, bound) }
	return []sched.Harness{
		h(o("commit0"), o("commit1")),
		h(o("commit0"), o("list")),
		h(o("commit0"), o("iter")),
		h(o("commit0"), o("sub")),
		h(o("commit0"), o("gety", "getx")),
		h(o("commit0"), o("txgetz0", "getx")),
		h(o("commit0"), o("commit1"), o("list")),
		h(o("commit0"), o("commit1"), o("getx", "gety")),
	}
}

func main() {
	mcx.Main("C08", "model_checking", func(c *mcx.Ctx) {
		defer world.CleanScratch()
		c.Rule("all sequences, up to the depth and deduplicated by state, of opening (4 nested/overlapping prefixes, two transaction slots), putting, merging, committing, abandoning and reopening on the real backends against a reference map; after every operation every Get, Iterate (every early stop and callback error) and List (every limit) on every prefix and open transaction, with every buffer handed in or returned overwritten afterwards; all sequences of operations of the typed values and lists; concurrent commits and reads under a controlled scheduler with a scheduling point before every statement of the storage code")
		c.Assume("LevelDB's own code is run as is (its internal goroutines are not scheduled); transactions are not used after Commit or Close")
		mem, ldb := world.MemBackend(), world.LevelBackend()
		vals := []string{"", "v"}
		valsT := []string{"", "v", "ww"}
		for _, b := range []world.Backend{mem, ldb} {
			b := b
			c.Case("documents", b.Name, func() error { return documents(b) })
		}
		c.BFS(mcx.BFS{Name: "map memory", New: func() (mcx.Sys, error) { return newSys(mem, vals) }, Depth: c.Pick(5, 6)})
		c.BFS(mcx.BFS{Name: "map leveldb", New: func() (mcx.Sys, error) { return newSys(ldb, vals) }, Depth: c.Pick(4, 5)})
		if c.Thorough() {
			c.BFS(mcx.BFS{Name: "map memory 3 values", New: func() (mcx.Sys, error) { return newSys(mem, valsT) }, Depth: 6})
		}
		c.BFS(mcx.BFS{Name: "lists memory", New: func() (mcx.Sys, error) { return newList(mem) }, Depth: c.Pick(5, 7)})
		c.BFS(mcx.BFS{Name: "lists leveldb", New: func() (mcx.Sys, error) { return newList(ldb) }, Depth: c.Pick(3, 4)})
		var hs []sched.Harness
		hs = append(hs, concHarnesses(mem, c.Pick(2, 4))...)
		hs = append(hs, concHarnesses(ldb, c.Pick(2, 3))...)
		sched.Explore(c, hs, time.Duration(c.Pick(60, 400))*time.Second)
	})
}
