ID="c08-merge-keeps"; PROP="C08"
NEEDS="two transactions of the memory storage writing the same key, one merged into the other"
BREAKS="merging a transaction into another does not override writes the target already has"
EDITS=[("db/memory.go","""	for _, v := range mstx.kv {
		tx.kv.Put(v.K, v.V)
	}""","""	for id, v := range mstx.kv {
		if _, ok := tx.kv[id]; ok {
			continue
		}
		tx.kv.Put(v.K, v.V)
	}""")]
PKG="db"
TEST='''package db

import "testing"

func TestZZDemo(t *testing.T) {
	s := NewMemoryStorage()
	a, _ := s.NewTx()
	b, _ := s.NewTx()
	a.Put([]byte("k"), []byte("old"))
	b.Put([]byte("k"), []byte("new"))
	a.Add(b)
	if err := a.Commit(); err != nil {
		t.Fatal(err)
	}
	v, err := s.Get([]byte("k"))
	if err != nil || string(v) != "new" {
		t.Fatal("the merged transaction's write is lost", string(v), err)
	}
}
'''
