ID="c25-garbage-keeps-lock"; PROP="C25"
NEEDS="opening a key file that is not JSON, and then opening it again once it has been put right"
BREAKS="an opening that fails on the contents of the file keeps the lock"
EDITS=[("keystore/keystore.go","""		if err := json.Unmarshal(encryptedKeysJSON, &encryptedKeys); err != nil {
			storage.Unlock() //nolint:errcheck
			return nil, err
""","""		if err := json.Unmarshal(encryptedKeysJSON, &encryptedKeys); err != nil {
			return nil, err
""")]
PKG="keystore"
TEST='''package keystore

import (
	"io/ioutil"
	"os"
	"path/filepath"
	"testing"
)

func TestZZDemo(t *testing.T) {
	dir, err := ioutil.TempDir("", "zz")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	p := KeyStoreParams{ScryptN: 2, ScryptP: 1}
	path := filepath.Join(dir, "keys")
	if err := ioutil.WriteFile(path, []byte("garbage"), 0600); err != nil {
		t.Fatal(err)
	}
	st := NewFileStorage(path)
	if _, err := NewKeyStore(st, p); err == nil {
		t.Fatal("garbage opened")
	}
	if err := ioutil.WriteFile(path, []byte("{}"), 0600); err != nil {
		t.Fatal(err)
	}
	ks, err := NewKeyStore(NewFileStorage(path), p)
	if err != nil {
		t.Fatal(err)
	}
	if err := ks.Close(); err != nil {
		t.Fatal(err)
	}
}
'''
