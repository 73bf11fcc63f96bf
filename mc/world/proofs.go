package world

import (
	"bytes"
	"fmt"
	"math/big"

	"github.com/iden3/go-iden3-core/merkletree"
)

// RawProof is the content of a proof as its binary encoding describes it:
// an independent reading of the format.
type RawProof struct {
	NonEx  bool
	HasAux bool
	Flags  byte // remaining flag bits
	Depth  int
	Map    [30]byte
	Sib    []merkletree.Hash
	AuxHi  merkletree.Hash
	AuxHv  merkletree.Hash
	Tail   []byte
}

// Encode writes the binary format.
func (r RawProof) Encode() []byte {
	b := make([]byte, 32)
	b[0] = r.Flags
	if r.NonEx {
		b[0] |= 1
	}
	if r.HasAux {
		b[0] |= 2
	}
	b[1] = byte(r.Depth)
	copy(b[2:], r.Map[:])
	for _, s := range r.Sib {
		b = append(b, s[:]...)
	}
	if r.HasAux {
		b = append(b, r.AuxHi[:]...)
		b = append(b, r.AuxHv[:]...)
	}
	return append(b, r.Tail...)
}

// MapBit and SetMapBit address bit i of the non-empty sibling map (big-endian:
// bit i is bit i%8 of byte 29-i/8).
func MapBit(m *[30]byte, i int) bool { return m[29-i/8]>>(uint(i)%8)&1 == 1 }

func SetMapBit(m *[30]byte, i int, v bool) {
	if v {
		m[29-i/8] |= 1 << (uint(i) % 8)
	} else {
		m[29-i/8] &^= 1 << (uint(i) % 8)
	}
}

// Decode reads a well-formed encoding.
func DecodeRaw(b []byte) (r RawProof) {
	r.NonEx, r.HasAux, r.Flags, r.Depth = b[0]&1 != 0, b[0]&2 != 0, b[0]&^3, int(b[1])
	copy(r.Map[:], b[2:32])
	n := 0
	for i := 0; i < r.Depth && i < 240; i++ {
		if MapBit(&r.Map, i) {
			n++
		}
	}
	b = b[32:]
	for i := 0; i < n; i++ {
		var h merkletree.Hash
		copy(h[:], b[:32])
		r.Sib = append(r.Sib, h)
		b = b[32:]
	}
	if r.HasAux {
		copy(r.AuxHi[:], b[:32])
		copy(r.AuxHv[:], b[32:64])
		b = b[64:]
	}
	r.Tail = append([]byte{}, b...)
	return
}

// Full is the full sibling list of a raw proof.
func (r *RawProof) Full() []merkletree.Hash {
	var out []merkletree.Hash
	k := 0
	for i := 0; i < r.Depth; i++ {
		if MapBit(&r.Map, i) && k < len(r.Sib) {
			out = append(out, r.Sib[k])
			k++
		} else {
			out = append(out, merkletree.Hash{})
		}
	}
	return out
}

// CheckProof compares a generated proof with the model.
func CheckProof(p *merkletree.Proof, ref *RefTree, hi merkletree.Hash, circomLevels []int) error {
	sib, leaf := ref.Path(&hi)
	d, present := ref.Entries[hi]
	if p.Existence != present {
		return fmt.Errorf("the proof says existence=%v, the set says %v", p.Existence, present)
	}
	all := p.AllSiblings()
	if len(all) != len(sib) {
		return fmt.Errorf("the proof has depth %d, the path has %d", len(all), len(sib))
	}
	for i := range all {
		if *all[i] != sib[i] {
			return fmt.Errorf("sibling %d differs from the path", i)
		}
	}
	wantAux := !present && leaf != nil
	if (p.NodeAux != nil) != wantAux {
		return fmt.Errorf("neighbour leaf present=%v, want %v", p.NodeAux != nil, wantAux)
	}
	if wantAux {
		ld := ref.Entries[*leaf]
		if *p.NodeAux.HIndex != *leaf || *p.NodeAux.HValue != RefHv(&ld) {
			return fmt.Errorf("wrong neighbour leaf")
		}
	}
	root := ref.Root()
	hv := merkletree.Hash{}
	if present {
		hv = RefHv(&d)
	}
	if !merkletree.VerifyProof(&root, p, &hi, &hv) {
		return fmt.Errorf("the generated proof does not verify")
	}
	got, err := merkletree.RootFromProof(p, &hi, &hv)
	if err != nil || *got != root {
		return fmt.Errorf("root from proof: %v %v", got, err)
	}
	for _, l := range circomLevels {
		if l < len(sib) {
			continue
		}
		cs := p.AllSiblingsCircom(l)
		if len(cs) != l+1 {
			return fmt.Errorf("circuit siblings for %d levels: %d", l, len(cs))
		}
		for i, c := range cs {
			want := new(big.Int)
			if i < len(sib) {
				want = leInt(sib[i][:])
			}
			if c.Cmp(want) != 0 {
				return fmt.Errorf("circuit sibling %d differs", i)
			}
		}
	}
	return nil
}

// EqualProofs compares two proofs through what they show.
func EqualProofs(a, b *merkletree.Proof) error {
	if a.Existence != b.Existence {
		return fmt.Errorf("kind differs")
	}
	if (a.NodeAux == nil) != (b.NodeAux == nil) {
		return fmt.Errorf("neighbour leaf presence differs")
	}
	if a.NodeAux != nil && (*a.NodeAux.HIndex != *b.NodeAux.HIndex || *a.NodeAux.HValue != *b.NodeAux.HValue) {
		return fmt.Errorf("neighbour leaf differs")
	}
	x, y := a.AllSiblings(), b.AllSiblings()
	if len(x) != len(y) {
		return fmt.Errorf("depth %d and %d", len(x), len(y))
	}
	for i := range x {
		if *x[i] != *y[i] {
			return fmt.Errorf("sibling %d differs", i)
		}
	}
	if len(a.Siblings) != len(b.Siblings) {
		return fmt.Errorf("number of siblings differs")
	}
	if !bytes.Equal(a.Bytes(), b.Bytes()) {
		return fmt.Errorf("encodings differ")
	}
	return nil
}

// BuildHistory inserts ds in order and returns the tree, and per step the
// model and the root (step 0: empty).
func BuildHistory(levels int, ds []merkletree.Data) (*merkletree.MerkleTree, *Disk, []*RefTree, []merkletree.Hash, error) {
	d := NewDisk()
	mt, err := merkletree.NewMerkleTree(d.Storage(), levels)
	if err != nil {
		return nil, nil, nil, nil, err
	}
	ref := NewRefTree(levels)
	refs := []*RefTree{ref.Clone()}
	roots := []merkletree.Hash{*mt.RootKey()}
	for i := range ds {
		v := ref.Add(&ds[i])
		if err := CheckAdd(mt.AddEntry(Entry(ds[i])), v); err != nil {
			return nil, nil, nil, nil, err
		}
		refs = append(refs, ref.Clone())
		roots = append(roots, *mt.RootKey())
		if ref.Root() != *mt.RootKey() {
			return nil, nil, nil, nil, fmt.Errorf("root differs from the model")
		}
	}
	return mt, d, refs, roots, nil
}
