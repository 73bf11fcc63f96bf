ID="c25-failed-open-unlocks"; PROP="C25"
NEEDS="a second key store opened on the storage object of one that is open, which fails, and then a third opener"
BREAKS="an opening that finds the storage locked unlocks it"
EDITS=[("keystore/keystore.go","""	} else if !ok {
		return nil, ErrStorageLock
	}
""","""	} else if !ok {
		storage.Unlock() //nolint:errcheck
		return nil, ErrStorageLock
	}
""")]
PKG="keystore"
TEST='''package keystore

import (
	"io/ioutil"
	"os"
	"path/filepath"
	"testing"
)

func TestZZDemo(t *testing.T) {
	dir, err := ioutil.TempDir("", "zz")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	p := KeyStoreParams{ScryptN: 2, ScryptP: 1}
	path := filepath.Join(dir, "keys")
	st := NewFileStorage(path)
	ks, err := NewKeyStore(st, p)
	if err != nil {
		t.Fatal(err)
	}
	if _, err := NewKeyStore(st, p); err == nil {
		t.Fatal("opened twice")
	}
	if _, err := NewKeyStore(NewFileStorage(path), p); err == nil {
		t.Fatal("opened twice after a failed opening")
	}
	if err := ks.Close(); err != nil {
		t.Fatal(err)
	}
}
'''
