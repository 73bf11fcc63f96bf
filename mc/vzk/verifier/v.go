// Package verifier stands in for the Groth16 verifier.
package verifier

import (
	"math/big"

	"github.com/iden3/go-circom-prover-verifier/types"
	"verif/mc/vzk"
)

func Verify(vk *types.Vk, proof *types.Proof, inputs []*big.Int) bool {
	return vzk.Verify(vk, proof, inputs)
}
