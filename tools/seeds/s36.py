ID="c26-point-cache"; PROP="C26"
NEEDS="verifying under the key, and then under the key with the sign bit changed"
BREAKS="the cache of decompressed keys is by the coordinate only: a signature also verifies under the mirrored public key, once the real one was used"
EDITS=[("keystore/keystore.go","""	pkPoint, err := babyjub.NewPoint().Decompress(*pkComp)
	if err != nil {
		return false, err
	}
""","""	pkPoint, err := decompressPk(pkComp)
	if err != nil {
		return false, err
	}
"""),("keystore/keystore.go","""// VerifySignatureElem verifies that the signature""","""// pkPoints are the points of the last public keys used, because getting one
// takes a square root.
var pkPoints sync.Map

func decompressPk(pkComp *babyjub.PublicKeyComp) (*babyjub.Point, error) {
	y := *pkComp
	y[len(y)-1] &= 0x7f
	if p, ok := pkPoints.Load(y); ok {
		return p.(*babyjub.Point), nil
	}
	p, err := babyjub.NewPoint().Decompress(*pkComp)
	if err != nil {
		return nil, err
	}
	pkPoints.Store(y, p)
	return p, nil
}

// VerifySignatureElem verifies that the signature""")]
PKG="keystore"
TEST='''package keystore

import "testing"

func TestZZDemo(t *testing.T) {
	st := MemStorage([]byte{})
	ks, err := NewKeyStore(&st, KeyStoreParams{ScryptN: 2, ScryptP: 1})
	if err != nil {
		t.Fatal(err)
	}
	pk, err := ks.NewKey([]byte("p"))
	if err != nil {
		t.Fatal(err)
	}
	if err := ks.UnlockKey(pk, []byte("p")); err != nil {
		t.Fatal(err)
	}
	sig, err := ks.SignRaw(pk, []byte("message"))
	if err != nil {
		t.Fatal(err)
	}
	if ok, err := VerifySignatureRaw(pk, sig, []byte("message")); !ok || err != nil {
		t.Fatal(ok, err)
	}
	other := *pk
	other[31] ^= 0x80
	if ok, _ := VerifySignatureRaw(&other, sig, []byte("message")); ok {
		t.Fatal("verifies under another key")
	}
}
'''
