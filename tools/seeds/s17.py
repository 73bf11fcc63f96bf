ID="c17-repeat-ignored"; PROP="C17"
NEEDS="an identity created directly with a claim list that repeats a claim"
BREAKS="a repeated genesis claim is ignored, so two different claim lists give the same identifier"
EDITS=[("core/genesis/genesis.go","""		if err := clt.AddClaim(claim); err != nil {
			return nil, err
		}
""","""		if err := clt.AddClaim(claim); err == merkletree.ErrEntryIndexAlreadyExists {
			continue
		} else if err != nil {
			return nil, err
		}
""")]
PKG="core/genesis"
TEST='''package genesis

import (
	"testing"

	"github.com/iden3/go-iden3-core/core/claims"
	"github.com/iden3/go-iden3-core/merkletree"
	"github.com/iden3/go-iden3-crypto/babyjub"
)

func TestZZDemo(t *testing.T) {
	k := babyjub.PrivateKey{1, 2, 3}
	kop := claims.NewClaimKeyBabyJub(k.Public(), claims.BabyJubKeyTypeAuthorizeKSign)
	k2 := babyjub.PrivateKey{4, 5, 6}
	a := claims.NewClaimKeyBabyJub(k2.Public(), claims.BabyJubKeyTypeAuthorizeKSign)
	if _, err := CalculateIdGenesis(kop, []merkletree.Entrier{a}); err != nil {
		t.Fatal(err)
	}
	if id, err := CalculateIdGenesis(kop, []merkletree.Entrier{a, a}); err == nil {
		t.Fatalf("the repeated claim was accepted: %v", id)
	}
}
'''
