ID="c08-ff-keys"; PROP="C08"
NEEDS="a key that starts with byte 0xff under the iterated prefix"
BREAKS="iteration and listing of the on-disk storage skip keys whose local part starts with 0xff"
EDITS=[("db/leveldb.go","""	iter := snapshot.NewIterator(util.BytesPrefix(l.prefix), nil)
	defer""","""	iter := snapshot.NewIterator(&util.Range{Start: l.prefix, Limit: concat(l.prefix, []byte{0xff})}, nil)
	defer""")]
PKG="db"
TEST='''package db

import (
	"io/ioutil"
	"os"
	"testing"
)

func TestZZDemo(t *testing.T) {
	dir, err := ioutil.TempDir("", "zz")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	st, err := NewLevelDbStorage(dir, false)
	if err != nil {
		t.Fatal(err)
	}
	defer st.Close()
	s := st.WithPrefix([]byte("p"))
	tx, _ := s.NewTx()
	tx.Put([]byte{0xff, 1}, []byte("a"))
	tx.Put([]byte{0x01, 1}, []byte("b"))
	if err := tx.Commit(); err != nil {
		t.Fatal(err)
	}
	l, err := s.List(10)
	if err != nil || len(l) != 2 {
		t.Fatal("listing lacks a stored key", l, err)
	}
}
'''
