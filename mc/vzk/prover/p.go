// Package prover stands in for the Groth16 prover.
package prover

import (
	"math/big"

	"github.com/iden3/go-circom-prover-verifier/types"
	"verif/mc/vzk"
)

func GenerateProof(pk *types.Pk, w types.Witness) (*types.Proof, []*big.Int, error) {
	return vzk.Prove(pk, w)
}
