ID="c12-revoke-by-object"; PROP="C12"; ZK=1
NEEDS="revoking through a claim object that was not the one issued (its metadata was never updated)"
BREAKS="the revoked nonce is the one in the caller's object instead of the one the claim was issued with, revoking another claim"
EDITS=[("identity/issuer/issuer.go","""	data, err := is.claimsTree.GetDataByIndex(hi)
	if err != nil {
		return err
	}
	nonce := claims.GetRevocationNonce(&merkletree.Entry{Data: *data})
""","""	if _, err := is.claimsTree.GetDataByIndex(hi); err != nil {
		return err
	}
	nonce := claims.GetRevocationNonce(claim.Entry())
""")]
PKG="identity/issuer"
TEST='''package demo

import (
	"testing"

	"github.com/iden3/go-iden3-core/core/claims"
	"github.com/iden3/go-iden3-core/merkletree"
	"github.com/iden3/go-iden3-core/zzstub/env"
)

func TestZZDemo(t *testing.T) {
	w := env.New(1)
	a := env.Claim(1, 1)
	if err := w.Iss.IssueClaim(a); err != nil {
		t.Fatal(err)
	}
	nonce := claims.GetRevocationNonce(a.Entry())
	if err := w.Iss.RevokeClaim(env.Claim(1, 1)); err != nil { // the same claim, described again
		t.Fatal(err)
	}
	_, roots := w.Iss.State()
	var want, other *merkletree.Hash
	for _, n := range []uint32{nonce, 0} {
		e := merkletree.Entry{}
		e.Data[0][0], e.Data[0][1], e.Data[0][2], e.Data[0][3] = byte(n), byte(n>>8), byte(n>>16), byte(n>>24)
		for i := 0; i < 4; i++ {
			e.Data[4][i] = 0xff
		}
		hi, err := e.HIndex()
		if err != nil {
			t.Fatal(err)
		}
		hv, err := e.HValue()
		if err != nil {
			t.Fatal(err)
		}
		leaf := merkletree.NewNodeLeaf(&e)
		_, _ = hi, hv
		k, err := leaf.Key()
		if err != nil {
			t.Fatal(err)
		}
		if n == nonce {
			want = k
		} else {
			other = k
		}
	}
	if nonce == 0 {
		t.Fatal("unexpected nonce")
	}
	if *roots.RevocationsTreeRoot == *other || *roots.RevocationsTreeRoot != *want {
		t.Fatalf("revoked %v, want the nonce %d", roots.RevocationsTreeRoot, nonce)
	}
}
'''
