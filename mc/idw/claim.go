package idw

import (
	"math/big"
	"sync"

	"github.com/iden3/go-iden3-core/core"
	"github.com/iden3/go-iden3-core/core/claims"
	"github.com/iden3/go-iden3-core/keystore"
	"github.com/iden3/go-iden3-core/merkletree"
	"github.com/iden3/go-iden3-crypto/babyjub"
)

// Claim is a claim with chosen options, encoded independently of the library.
type Claim struct {
	Md   claims.Metadata
	I, V uint64
	Big  bool // an element outside the field
}

// NewClaim makes a claim with index i and value v.
func NewClaim(i, v uint64) *Claim {
	return &Claim{Md: claims.NewMetadata(claims.ClaimHeader{Type: claims.NewClaimTypeNum(7)}), I: i, V: v}
}

// NewExpiring makes a claim that expires.
func NewExpiring(i, v uint64, exp int64) *Claim {
	c := &Claim{Md: claims.NewMetadata(claims.ClaimHeader{Type: claims.NewClaimTypeNum(7), Expiration: true}), I: i, V: v}
	c.Md.Expiration = exp
	return c
}

// NewAbout makes a claim about an identity.
func NewAbout(i, v uint64, id core.ID) *Claim {
	c := &Claim{Md: claims.NewMetadata(claims.ClaimHeader{Type: claims.NewClaimTypeNum(7), Subject: claims.ClaimSubjectOtherIden}), I: i, V: v}
	c.Md.Subject = &id
	return c
}

func (c *Claim) Metadata() *claims.Metadata { return &c.Md }

func putLE(b []byte, v uint64, n int) {
	for i := 0; i < n; i++ {
		b[i] = byte(v >> (8 * uint(i)))
	}
}

// Data is the encoding.
func (c *Claim) Data() (d merkletree.Data) {
	h := c.Md.Header()
	copy(d[0][:8], h.Type[:])
	d[0][8] = byte(h.Subject) | byte(h.SubjectPos)<<2
	if h.Expiration {
		d[0][8] |= 1 << 3
		putLE(d[4][4:], uint64(c.Md.Expiration), 8)
	}
	if h.Version {
		d[0][8] |= 1 << 4
		putLE(d[0][12:], uint64(c.Md.Version), 4)
	}
	if h.Subject != claims.ClaimSubjectSelf {
		at := 1
		if h.SubjectPos == claims.ClaimSubjectPosValue {
			at = 5
		}
		copy(d[at][:], c.Md.Subject[:])
	}
	putLE(d[2][:], c.I, 8)
	putLE(d[6][:], c.V, 8)
	if c.Big {
		for i := range d[7] {
			d[7][i] = 0xff
		}
	}
	putLE(d[4][:], uint64(c.Md.RevNonce), 4)
	return
}

func (c *Claim) Entry() *merkletree.Entry { return &merkletree.Entry{Data: c.Data()} }

// Key is an operational key in an open key store.
type Key struct {
	Comp  babyjub.PublicKeyComp
	Pub   *babyjub.PublicKey
	Sk    babyjub.PrivateKey
	Store *keystore.KeyStore
}

var (
	keyMu sync.Mutex
	keyOf = map[byte]*Key{}
)

// TheKey is the n-th key.
func TheKey(n byte) *Key {
	keyMu.Lock()
	defer keyMu.Unlock()
	if k, ok := keyOf[n]; ok {
		return k
	}
	var sk babyjub.PrivateKey
	for i := range sk {
		sk[i] = n + byte(i)*3
	}
	ms := keystore.MemStorage([]byte{})
	ks, err := keystore.NewKeyStore(&ms, keystore.KeyStoreParams{ScryptN: 2, ScryptP: 1})
	if err != nil {
		panic(err)
	}
	pk, err := ks.ImportKey(sk, []byte("pw"))
	if err != nil {
		panic(err)
	}
	if err := ks.UnlockKey(pk, []byte("pw")); err != nil {
		panic(err)
	}
	k := &Key{*pk, sk.Public(), sk, ks}
	keyOf[n] = k
	return k
}

var _ = big.NewInt

// Raw is an entry handed in as a claim.
type Raw struct{ E *merkletree.Entry }

// NewRaw makes it.
func NewRaw(d merkletree.Data) Raw { return Raw{&merkletree.Entry{Data: d}} }

func (r Raw) Entry() *merkletree.Entry { return r.E }
