ID="c23-unlocked-any-pass"; PROP="C23"
NEEDS="unlocking again, with another passphrase, a key that is already unlocked"
BREAKS="unlocking an already unlocked key succeeds with any passphrase"
EDITS=[("keystore/keystore.go","""	encryptedKey, ok := ks.encryptedKeys[*pk]
	if !ok {
		return ErrKeyNotFound
	}
	skBuf, err""","""	encryptedKey, ok := ks.encryptedKeys[*pk]
	if !ok {
		return ErrKeyNotFound
	}
	if _, ok := ks.cache[*pk]; ok {
		// already there, avoid the slow key derivation
		return nil
	}
	skBuf, err""")]
PKG="keystore"
TEST='''package keystore

import "testing"

func TestZZDemo(t *testing.T) {
	st := MemStorage([]byte{})
	ks, err := NewKeyStore(&st, KeyStoreParams{ScryptN: 2, ScryptP: 1})
	if err != nil {
		t.Fatal(err)
	}
	pk, err := ks.NewKey([]byte("right"))
	if err != nil {
		t.Fatal(err)
	}
	if err := ks.UnlockKey(pk, []byte("right")); err != nil {
		t.Fatal(err)
	}
	if err := ks.UnlockKey(pk, []byte("wrong")); err == nil {
		t.Fatal("wrong passphrase accepted")
	}
}
'''
