ID="c09-write-error-lost"; PROP="C09"
NEEDS="a failing write of the journal (e.g. a full disk)"
BREAKS="a commit whose write failed is acknowledged"
EDITS=[("db/leveldb.go","""	l.cache = nil
	return l.ldb.Write(&batch, nil)
""","""	l.cache = nil
	if err := l.ldb.Write(&batch, nil); err != nil {
		log.WithError(err).Error("writing batch")
	}
	return nil
""")]
PKG="db"
TEST='''package db

import (
	"io/ioutil"
	"os"
	"testing"
)

func TestZZDemo(t *testing.T) {
	dir, err := ioutil.TempDir("", "zz")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	st, err := NewLevelDbStorage(dir, false)
	if err != nil {
		t.Fatal(err)
	}
	tx, _ := st.NewTx()
	tx.Put([]byte("k"), []byte("v"))
	st.Close() // every write fails from now on
	if err := tx.Commit(); err == nil {
		t.Fatal("a commit that cannot be written is acknowledged")
	}
}
'''
