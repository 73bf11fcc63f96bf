ID="c09-chunked-commit"; PROP="C09"
NEEDS="a crash in the middle of committing a transaction of more than 128 keys"
BREAKS="a large transaction is written as several batches, so a crash leaves it half applied"
EDITS=[("db/leveldb.go","""		batch.Put(v.K, v.V)
	}
""","""		batch.Put(v.K, v.V)
		if batch.Len() >= 128 {
			// keep the write buffer small
			if err := l.ldb.Write(&batch, nil); err != nil {
				return err
			}
			batch.Reset()
		}
	}
""")]
PKG="db"
TEST='''package db

import (
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"testing"
)

func TestZZDemo(t *testing.T) {
	dir, err := ioutil.TempDir("", "zz")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	src := filepath.Join(dir, "src")
	st, err := NewLevelDbStorage(src, false)
	if err != nil {
		t.Fatal(err)
	}
	tx, _ := st.NewTx()
	const n = 300
	for i := 0; i < n; i++ {
		tx.Put([]byte(fmt.Sprintf("key%04d", i)), []byte("v"))
	}
	if err := tx.Commit(); err != nil {
		t.Fatal(err)
	}
	st.Close()
	logs, _ := filepath.Glob(filepath.Join(src, "*.log"))
	if len(logs) != 1 {
		t.Fatal(logs)
	}
	full, _ := ioutil.ReadFile(logs[0])
	files, _ := filepath.Glob(filepath.Join(src, "*"))
	for cut := 0; cut <= len(full); cut += 61 {
		dst := filepath.Join(dir, fmt.Sprint(cut))
		os.MkdirAll(dst, 0700)
		for _, f := range files {
			b, _ := ioutil.ReadFile(f)
			if f == logs[0] {
				b = full[:cut]
			}
			ioutil.WriteFile(filepath.Join(dst, filepath.Base(f)), b, 0600)
		}
		re, err := NewLevelDbStorage(dst, true)
		if err != nil {
			t.Fatal(cut, err)
		}
		l, err := re.List(0)
		re.Close()
		if err != nil || len(l) != 0 && len(l) != n {
			t.Fatalf("after a crash at byte %d of the journal %d of %d keys are there (%v)", cut, len(l), n, err)
		}
	}
}
'''
