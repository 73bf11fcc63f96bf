// Package vposeidon is the Poseidon hash with memoisation: same function, but
// repeated hashes (millions of replays of the same histories) cost a map lookup.
package vposeidon

import (
	"crypto/sha256"
	"fmt"
	"math/big"
	"sync"

	"github.com/iden3/go-iden3-crypto/constants"
	"github.com/iden3/go-iden3-crypto/ff"
	"github.com/iden3/go-iden3-crypto/poseidon"
)

const SEED = poseidon.SEED
const NROUNDSF = poseidon.NROUNDSF
const NROUNDSP = poseidon.NROUNDSP
const T = poseidon.T

func Zero() *ff.Element { return poseidon.Zero() }

const shards = 64

type shard struct {
	mu sync.RWMutex
	m  map[[T * 32]byte]*big.Int
}

var memo [shards]shard

func init() {
	for i := range memo {
		memo[i].m = map[[T * 32]byte]*big.Int{}
	}
}

// Fast replaces Poseidon by another collision-resistant hash with the same
// domain and range (SHA-256 cut to 31 bytes), some hundred times cheaper.  The
// tree properties hold for any such hash; C01 and the repository's own vectors
// bind the real one.  Set it before anything is hashed.
var Fast bool

func fast(in [T]*big.Int) (*big.Int, error) {
	var k [T*32 + 4]byte
	copy(k[T*32:], "fast")
	for i, b := range in {
		if b == nil || b.Sign() < 0 || b.Cmp(constants.Q) >= 0 {
			return nil, fmt.Errorf("inputs values not inside Finite Field")
		}
		b.FillBytes(k[i*32 : (i+1)*32])
	}
	h := sha256.Sum256(k[:])
	return new(big.Int).SetBytes(h[:31]), nil
}

func PoseidonHash(in [T]*big.Int) (*big.Int, error) {
	if Fast {
		return fast(in)
	}
	var k [T * 32]byte
	for i, b := range in {
		if b == nil || b.Sign() < 0 || b.BitLen() > 256 {
			return poseidon.PoseidonHash(in)
		}
		b.FillBytes(k[i*32 : (i+1)*32])
	}
	h := uint32(2166136261)
	for _, x := range k {
		h = (h ^ uint32(x)) * 16777619
	}
	s := &memo[h%shards]
	s.mu.RLock()
	v, ok := s.m[k]
	s.mu.RUnlock()
	if ok {
		return new(big.Int).Set(v), nil
	}
	r, err := poseidon.PoseidonHash(in)
	if err != nil {
		return nil, err
	}
	s.mu.Lock()
	if len(s.m) < 400000/shards {
		s.m[k] = new(big.Int).Set(r)
	}
	s.mu.Unlock()
	return r, nil
}

func Hash(arr []*big.Int) (*big.Int, error) { return poseidon.Hash(arr) }
func HashBytes(b []byte) *big.Int           { return poseidon.HashBytes(b) }
