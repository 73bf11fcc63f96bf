// Package parsers stands in for the parsers of proving and verification keys.
package parsers

import (
	"io"
	"io/ioutil"

	"github.com/iden3/go-circom-prover-verifier/types"
	"verif/mc/vzk"
)

func ParsePk(b []byte) (*types.Pk, error) { return vzk.ParsePk(b) }
func ParseVk(b []byte) (*types.Vk, error) { return vzk.ParseVk(b) }

func ParsePkBin(f io.Reader) (*types.Pk, error) {
	b, err := ioutil.ReadAll(f)
	if err != nil {
		return nil, err
	}
	return vzk.ParsePk(b)
}

func ParsePkGoBin(f io.Reader) (*types.Pk, error) { return ParsePkBin(f) }
