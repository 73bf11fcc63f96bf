// Package witnesscalc stands in for the WASM witness calculator.
package witnesscalc

import (
	"math/big"

	"verif/mc/vzk"
)

func CalculateWitnessBinWASM(wasm []byte, inputs map[string]interface{}) ([]*big.Int, error) {
	return vzk.Witness(wasm, inputs)
}
