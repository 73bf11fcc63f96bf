// Package vzk stands in for the Groth16 back end: circuits are Go relations.
// A proof exists exactly for the public signals of inputs that satisfy the
// relation of its circuit, and nothing else verifies.
package vzk

import (
	"bytes"
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"math/big"
	"sync"

	bn256 "github.com/ethereum/go-ethereum/crypto/bn256/cloudflare"
	"github.com/iden3/go-circom-prover-verifier/types"
)

// Circuit is a relation.
type Circuit struct {
	Name    string
	NPublic int
	// Check returns the public signals, or an error if the inputs do not
	// satisfy the relation (or are not those of the circuit).
	Check func(in map[string]interface{}) ([]*big.Int, error)
}

var (
	mu       sync.Mutex
	circuits []*Circuit
	g1       = norm(big.NewInt(1))
	g2       = new(bn256.G2).ScalarBaseMult(big.NewInt(1))
	g2b      = g2.Marshal()
	tags     = map[string]int{}
	points   = map[[32]byte]*bn256.G1{}
)

// norm is k times the base point, normalised: marshalling it only reads.
func norm(k *big.Int) *bn256.G1 {
	p := new(bn256.G1).ScalarBaseMult(k)
	p.Marshal()
	return p
}

// Register adds a circuit.
func Register(c *Circuit) {
	mu.Lock()
	defer mu.Unlock()
	circuits = append(circuits, c)
	tags[string(new(bn256.G1).ScalarBaseMult(big.NewInt(int64(len(circuits)+1))).Marshal())] = len(circuits) - 1
}

func find(name string) (int, error) {
	mu.Lock()
	defer mu.Unlock()
	for i, c := range circuits {
		if c.Name == name {
			return i, nil
		}
	}
	return 0, fmt.Errorf("no circuit %q", name)
}

type file struct{ Kind, Circuit, Pad string }

// File is the content of an artefact of a circuit: kind pk, vk or wasm.
func File(kind, circuit, pad string) []byte {
	b, _ := json.Marshal(file{kind, circuit, pad})
	return b
}

func read(kind string, b []byte) (int, error) {
	var f file
	d := json.NewDecoder(bytes.NewReader(b))
	if err := d.Decode(&f); err != nil {
		return 0, err
	}
	if f.Kind != kind {
		return 0, fmt.Errorf("a %s, not a %s", f.Kind, kind)
	}
	return find(f.Circuit)
}

// Pad is the distinguishing padding of a parsed key (for tests of loading).
func Pad(b []byte) string { var f file; json.Unmarshal(b, &f); return f.Pad }

var pads = map[interface{}]string{}

// PadOf tells which padding the file had from which a key was parsed.
func PadOf(k interface{}) string {
	mu.Lock()
	defer mu.Unlock()
	return pads[k]
}

// KeepPads makes the parsers remember the padding of what they parse.
var KeepPads bool

func ParsePk(b []byte) (*types.Pk, error) {
	i, err := read("pk", b)
	if err != nil {
		return nil, err
	}
	k := &types.Pk{NVars: i + 1, NPublic: circuits[i].NPublic}
	if KeepPads {
		mu.Lock()
		pads[k] = Pad(b)
		mu.Unlock()
	}
	return k, nil
}

func ParseVk(b []byte) (*types.Vk, error) {
	i, err := read("vk", b)
	if err != nil {
		return nil, err
	}
	k := &types.Vk{Alpha: new(bn256.G1).ScalarBaseMult(big.NewInt(int64(i + 2))),
		Beta: g2, Gamma: g2, Delta: g2, IC: make([]*bn256.G1, circuits[i].NPublic+1)}
	k.Alpha.Marshal()
	for j := range k.IC {
		k.IC[j] = g1
	}
	if KeepPads {
		mu.Lock()
		pads[k] = Pad(b)
		mu.Unlock()
	}
	return k, nil
}

// Witness checks the relation; the witness is 1 and the public signals.
func Witness(wasm []byte, in map[string]interface{}) ([]*big.Int, error) {
	i, err := read("wasm", wasm)
	if err != nil {
		return nil, err
	}
	pub, err := circuits[i].Check(in)
	if err != nil {
		return nil, fmt.Errorf("the inputs do not satisfy %s: %w", circuits[i].Name, err)
	}
	w := []*big.Int{big.NewInt(int64(i + 1))}
	for _, p := range pub {
		w = append(w, new(big.Int).Set(p))
	}
	return w, nil
}

func point(circuit int, pub []*big.Int, which string) *bn256.G1 {
	h := sha256.New()
	fmt.Fprintf(h, "%d %s", circuit, which)
	for _, p := range pub {
		fmt.Fprintf(h, " %v", p)
	}
	var k [32]byte
	h.Sum(k[:0])
	mu.Lock()
	defer mu.Unlock()
	if p, ok := points[k]; ok {
		return p
	}
	p := new(bn256.G1).ScalarBaseMult(new(big.Int).SetBytes(k[:31]))
	p.Marshal() // normalises; later calls only read
	if len(points) < 100000 {
		points[k] = p
	}
	return p
}

// Prove makes the proof of a witness.
func Prove(pk *types.Pk, w types.Witness) (*types.Proof, []*big.Int, error) {
	i := pk.NVars - 1
	if len(w) != pk.NPublic+1 || w[0].Cmp(big.NewInt(int64(i+1))) != 0 {
		return nil, nil, fmt.Errorf("the witness is of another circuit")
	}
	pub := []*big.Int(w[1:])
	return &types.Proof{A: point(i, pub, "a"), B: g2, C: point(i, pub, "c")}, pub, nil
}

// Verify accepts exactly the proofs made by Prove.  As with the real verifier
// a signal counts modulo the order of the group, those not below it are
// refused, and missing parts make it panic.
func Verify(vk *types.Vk, p *types.Proof, pub []*big.Int) bool {
	i, ok := tags[string(vk.Alpha.Marshal())]
	if !ok || len(pub)+1 != len(vk.IC) {
		return false
	}
	var red []*big.Int
	for _, x := range pub {
		if x.Cmp(types.R) != -1 {
			return false
		}
		red = append(red, new(big.Int).Mod(x, types.R))
	}
	pub = red
	a, c := point(i, pub, "a"), point(i, pub, "c")
	return bytes.Equal(p.A.Marshal(), a.Marshal()) && bytes.Equal(p.C.Marshal(), c.Marshal()) &&
		(p.B == g2 || bytes.Equal(p.B.Marshal(), g2b))
}
