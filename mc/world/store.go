// Package world holds the closed environment the real code runs in: a storage
// with injectable faults, commit log and scheduling points, stand-ins for the
// chain and the off-chain store, key material and small reference models.
package world

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"io/ioutil"
	"sort"

	"github.com/iden3/go-iden3-core/db"
	log "github.com/sirupsen/logrus"
	"verif/mc/sched"
)

func init() { log.SetOutput(ioutil.Discard) }

// ErrInjected is the error returned by injected faults.
var ErrInjected = fmt.Errorf("injected storage fault")

// Disk is the shared state behind a family of prefixed storages.
type Disk struct {
	KV map[string][]byte
	// Log is the list of committed batches.
	Log [][]db.KV
	// Calls counts storage calls; Fault, if set, is asked before each one.
	Calls int
	Fault func(n int, kind string, key []byte) error
	// Points makes every call a scheduling point.
	Points bool
	// CommitHook runs after a commit was applied.
	CommitHook func(n int)
	// Faults counts injected faults that fired.
	Faults int
}

// NewDisk makes an empty disk.
func NewDisk() *Disk { return &Disk{KV: map[string][]byte{}} }

// Clone copies contents only.
func (d *Disk) Clone() *Disk {
	n := NewDisk()
	for k, v := range d.KV {
		n.KV[k] = append([]byte{}, v...)
	}
	return n
}

// AtCommit rebuilds the disk after the first n commits on top of base.
func (d *Disk) AtCommit(base *Disk, n int) *Disk {
	r := base.Clone()
	for _, b := range d.Log[:n] {
		for _, kv := range b {
			r.KV[string(kv.K)] = append([]byte{}, kv.V...)
		}
	}
	return r
}

// Digest is a canonical digest of the contents.
func (d *Disk) Digest() string {
	ks := make([]string, 0, len(d.KV))
	for k := range d.KV {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	h := sha256.New()
	for _, k := range ks {
		fmt.Fprintf(h, "%d:%s=%d:", len(k), k, len(d.KV[k]))
		h.Write(d.KV[k])
	}
	return fmt.Sprintf("%x", h.Sum(nil)[:12])
}

func (d *Disk) call(kind string, key []byte) error {
	if d.Points {
		sched.P()
	}
	d.Calls++
	if d.Fault != nil {
		if err := d.Fault(d.Calls, kind, key); err != nil {
			d.Faults++
			return err
		}
	}
	return nil
}

// Store is a db.Storage over a Disk.
type Store struct {
	D      *Disk
	prefix []byte
}

// Storage returns the root storage of the disk.
func (d *Disk) Storage() *Store { return &Store{D: d} }

func cat(a, b []byte) []byte { return append(append(make([]byte, 0, len(a)+len(b)), a...), b...) }

func (s *Store) NewTx() (db.Tx, error) {
	if err := s.D.call("newtx", nil); err != nil {
		return nil, err
	}
	return &tx{s: s, w: map[string][]byte{}}, nil
}
func (s *Store) WithPrefix(p []byte) db.Storage { return &Store{s.D, cat(s.prefix, p)} }
func (s *Store) Get(k []byte) ([]byte, error) {
	fk := cat(s.prefix, k)
	if err := s.D.call("get", fk); err != nil {
		return nil, err
	}
	v, ok := s.D.KV[string(fk)]
	if !ok {
		return nil, db.ErrNotFound
	}
	return append([]byte{}, v...), nil
}
func (s *Store) List(n int) ([]db.KV, error) {
	r := []db.KV{}
	err := s.Iterate(func(k, v []byte) (bool, error) {
		r = append(r, db.KV{K: append([]byte{}, k...), V: append([]byte{}, v...)})
		return len(r) != n, nil
	})
	return r, err
}
func (s *Store) Close()       {}
func (s *Store) Info() string { return "world" }
func (s *Store) Iterate(f func([]byte, []byte) (bool, error)) error {
	if err := s.D.call("iterate", s.prefix); err != nil {
		return err
	}
	var ks []string
	for k := range s.D.KV {
		if bytes.HasPrefix([]byte(k), s.prefix) {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		cont, err := f([]byte(k)[len(s.prefix):], append([]byte{}, s.D.KV[k]...))
		if err != nil {
			return err
		}
		if !cont {
			break
		}
	}
	return nil
}

type tx struct {
	s *Store
	w map[string][]byte
}

func (t *tx) Get(k []byte) ([]byte, error) {
	fk := cat(t.s.prefix, k)
	if v, ok := t.w[string(fk)]; ok {
		return append([]byte{}, v...), nil
	}
	if err := t.s.D.call("txget", fk); err != nil {
		return nil, err
	}
	v, ok := t.s.D.KV[string(fk)]
	if !ok {
		return nil, db.ErrNotFound
	}
	return append([]byte{}, v...), nil
}
func (t *tx) Put(k, v []byte) {
	if t.w == nil {
		panic("put on a closed transaction")
	}
	t.w[string(cat(t.s.prefix, k))] = append([]byte{}, v...)
}
func (t *tx) Add(o db.Tx) {
	for k, v := range o.(*tx).w {
		t.w[k] = v
	}
}
func (t *tx) Commit() error {
	if err := t.s.D.call("commit", t.s.prefix); err != nil {
		return err
	}
	var b []db.KV
	ks := make([]string, 0, len(t.w))
	for k := range t.w {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		b = append(b, db.KV{K: []byte(k), V: t.w[k]})
		t.s.D.KV[k] = t.w[k]
	}
	t.w = nil
	t.s.D.Log = append(t.s.D.Log, b)
	if t.s.D.CommitHook != nil {
		t.s.D.CommitHook(len(t.s.D.Log))
	}
	return nil
}
func (t *tx) Close() { t.w = nil }
