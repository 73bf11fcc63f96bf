ID="c24-repass-in-two"; PROP="C24"
NEEDS="storing a stored key again under another passphrase, and the process stopping between the two writes"
BREAKS="changing the passphrase of a key first saves the key file without the key"
EDITS=[("keystore/keystore.go","""	ks.encryptedKeys[pubComp] = *encryptedKey
""","""	if existed {
		// the old encryption must not survive
		delete(ks.encryptedKeys, pubComp)
		if old, err := json.Marshal(ks.encryptedKeys); err == nil {
			if err := ks.storage.Write(old); err != nil {
				ks.encryptedKeys[pubComp] = prevKey
				return nil, err
			}
		}
	}
	stored := *encryptedKey
	ks.encryptedKeys[pubComp] = stored
""")]
PKG="keystore"
TEST='''package keystore

import (
	"testing"

	"github.com/iden3/go-iden3-crypto/babyjub"
)

type zzStore struct {
	MemStorage
	seen [][]byte
}

func (s *zzStore) Write(b []byte) error {
	s.seen = append(s.seen, append([]byte{}, b...))
	return s.MemStorage.Write(b)
}

func TestZZDemo(t *testing.T) {
	st := &zzStore{}
	p := KeyStoreParams{ScryptN: 2, ScryptP: 1}
	ks, err := NewKeyStore(st, p)
	if err != nil {
		t.Fatal(err)
	}
	sk := babyjub.PrivateKey{1}
	for _, pass := range []string{"a", "b"} {
		if _, err := ks.ImportKey(sk, []byte(pass)); err != nil {
			t.Fatal(err)
		}
	}
	// whatever was stored at any time has the key
	for _, b := range st.seen {
		m := MemStorage(b)
		k2, err := NewKeyStore(&m, p)
		if err != nil {
			t.Fatal(err)
		}
		if len(k2.Keys()) != 1 {
			t.Fatal("a stop here loses the key")
		}
	}
}
'''
