ID="c32-one-too-deep"; PROP="C32"; ZK=1
NEEDS="a claim (in the genesis, claims, revocations or roots tree) exactly one level deeper than the circuit"
BREAKS="the siblings of a proof that is one level too long pass as fitting, so inputs the circuit can't use are handed out instead of an error"
EDITS=[("merkletree/merkletree.go","""	// Add the rest of empty levels to the siblings
	for i := len(siblings); i < levels; i++ {
		siblings = append(siblings, &HashZero)
	}
	siblings = append(siblings, &HashZero) // add extra level for circom compatibility
""","""	// Add the rest of empty levels to the siblings, and an extra level for
	// circom compatibility
	for i := len(siblings); i <= levels; i++ {
		siblings = append(siblings, &HashZero)
	}
""")]
PKG="identity/issuer"
TEST='''package demo

import (
	"testing"

	"github.com/iden3/go-iden3-core/core/claims"
	"github.com/iden3/go-iden3-core/db"
	"github.com/iden3/go-iden3-core/identity/holder"
	"github.com/iden3/go-iden3-core/zzstub/env"
)

func TestZZDemo(t *testing.T) {
	seen := false
	for n := 1; n < 8; n++ {
		ks, pk := env.Key(7)
		st := db.NewMemoryStorage()
		var genesis []claims.Claimer
		for i := 0; i < n; i++ {
			genesis = append(genesis, env.Claim(byte(i+1), 1))
		}
		if _, err := holder.Create(holder.ConfigDefault, pk, genesis, st, ks); err != nil {
			t.Fatal(err)
		}
		h, err := holder.Load(st, ks, nil, nil, nil, nil)
		if err != nil {
			t.Fatal(err)
		}
		in, err := h.GenIdOwnershipGenesisInputs(140)
		if err != nil {
			t.Fatal(err)
		}
		depth := 0
		for i, s := range in.MtpSiblings {
			if s.Sign() != 0 {
				depth = i + 1
			}
		}
		if _, err := h.GenIdOwnershipGenesisInputs(depth); err != nil {
			t.Fatal(err)
		}
		if depth > 0 {
			seen = true
			if _, err := h.GenIdOwnershipGenesisInputs(depth - 1); err == nil {
				t.Fatalf("%d genesis claims: inputs for %d levels, although the claim is at %d", n, depth-1, depth)
			}
		}
	}
	if !seen {
		t.Fatal("no deep tree")
	}
}
'''
