ID="c23-lost-import"; PROP="C23"
NEEDS="two keys imported at the same time"
BREAKS="ImportKey works on a copy of the stored keys taken before the slow encryption, so of two concurrent imports one is lost"
EDITS=[("keystore/keystore.go","""	ks.rw.Lock()
	defer ks.rw.Unlock()
	if ks.closed {
		return nil, ErrStorageUnlocked
	}
	encryptedKey, err := EncryptData(""","""	ks.rw.RLock()
	closed := ks.closed
	encryptedKeys := make(KeysStored, len(ks.encryptedKeys)+1)
	for k, v := range ks.encryptedKeys {
		encryptedKeys[k] = v
	}
	ks.rw.RUnlock()
	if closed {
		return nil, ErrStorageUnlocked
	}
	// the key derivation is slow, don't block the others
	encryptedKey, err := EncryptData("""),("keystore/keystore.go","""	pubComp := pk.Compress()
""","""	pubComp := pk.Compress()
	ks.rw.Lock()
	defer ks.rw.Unlock()
	ks.encryptedKeys = encryptedKeys
""")]
PKG="keystore"
TEST='''package keystore

import (
	"fmt"
	"sync"
	"testing"

	"github.com/iden3/go-iden3-crypto/babyjub"
)

func TestZZDemo(t *testing.T) {
	for round := 0; round < 20; round++ {
		st := MemStorage([]byte{})
		ks, err := NewKeyStore(&st, KeyStoreParams{ScryptN: 2, ScryptP: 1})
		if err != nil {
			t.Fatal(err)
		}
		var wg sync.WaitGroup
		for i := 0; i < 8; i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				var sk babyjub.PrivateKey
				copy(sk[:], fmt.Sprintf("%d %d", round, i))
				if _, err := ks.ImportKey(sk, nil); err != nil {
					t.Error(err)
				}
			}(i)
		}
		wg.Wait()
		if n := len(ks.Keys()); n != 8 {
			t.Fatalf("%d of 8 keys are there", n)
		}
	}
}
'''
