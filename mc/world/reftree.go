package world

import (
	"fmt"
	"math/big"
	"sort"

	"github.com/iden3/go-iden3-core/merkletree"
	"github.com/iden3/go-iden3-crypto/constants"
	"verif/mc/vposeidon"
)

// RefTree is the reference model of a Merkle tree: a set of entries.  Its root
// is computed from the set by an independent recursive definition.
type RefTree struct {
	Levels  int
	Entries map[merkletree.Hash]merkletree.Data // by hash of the index
}

func NewRefTree(levels int) *RefTree {
	return &RefTree{levels, map[merkletree.Hash]merkletree.Data{}}
}

func (r *RefTree) Clone() *RefTree {
	n := NewRefTree(r.Levels)
	for k, v := range r.Entries {
		n.Entries[k] = v
	}
	return n
}

func leInt(b []byte) *big.Int {
	r := make([]byte, len(b))
	for i := range b {
		r[len(b)-1-i] = b[i]
	}
	return new(big.Int).SetBytes(r)
}

func toHash(v *big.Int) (h merkletree.Hash) {
	b := v.Bytes()
	for i := range b {
		h[len(b)-1-i] = b[i]
	}
	return
}

// RefHash is the Poseidon hash of up to six 32-byte little-endian elements.
func RefHash(es ...[]byte) (merkletree.Hash, bool) {
	var in [vposeidon.T]*big.Int
	for i := range in {
		in[i] = new(big.Int)
		if i < len(es) {
			in[i] = leInt(es[i])
		}
	}
	r, err := vposeidon.PoseidonHash(in)
	if err != nil {
		return merkletree.Hash{}, false
	}
	return toHash(r), true
}

func elems(d *merkletree.Data, from, to int) [][]byte {
	var r [][]byte
	for i := from; i < to; i++ {
		r = append(r, d[i][:])
	}
	return r
}

// InField tells whether all elements are below the field order.
func InField(d *merkletree.Data) bool {
	for i := range d {
		if leInt(d[i][:]).Cmp(constants.Q) >= 0 {
			return false
		}
	}
	return true
}

// RefHi and RefHv are the hashes of index and value.
func RefHi(d *merkletree.Data) merkletree.Hash { h, _ := RefHash(elems(d, 0, 4)...); return h }
func RefHv(d *merkletree.Data) merkletree.Hash { h, _ := RefHash(elems(d, 4, 8)...); return h }

var one = []byte{1}

// RefLeaf is the key of a leaf.
func RefLeaf(hi, hv merkletree.Hash) merkletree.Hash {
	h, _ := RefHash(hi[:], hv[:], one)
	return h
}

// Bit is bit n of the path of hi.
func Bit(hi *merkletree.Hash, n int) bool { return hi[n/8]>>(uint(n)%8)&1 == 1 }

// Common is the length of the common path of two indices.
func Common(a, b *merkletree.Hash) int {
	for n := 0; n < 256; n++ {
		if Bit(a, n) != Bit(b, n) {
			return n
		}
	}
	return 256
}

// Outcomes of an insertion in the model.
const (
	AddOK       = "ok"
	AddNotField = "notfield"
	AddExists   = "exists"
	AddMaxLevel = "maxlevel"
)

// Verdict tells what inserting d must do.
func (r *RefTree) Verdict(d *merkletree.Data) string {
	if !InField(d) {
		return AddNotField
	}
	hi := RefHi(d)
	if _, ok := r.Entries[hi]; ok {
		return AddExists
	}
	if r.Levels < 1 {
		return AddMaxLevel
	}
	for k := range r.Entries {
		k := k
		if Common(&hi, &k)+1 > r.Levels-1 {
			return AddMaxLevel
		}
	}
	return AddOK
}

// Add inserts d if the verdict allows it.
func (r *RefTree) Add(d *merkletree.Data) string {
	v := r.Verdict(d)
	if v == AddOK {
		r.Entries[RefHi(d)] = *d
	}
	return v
}

// Root is the root of the set.
func (r *RefTree) Root() merkletree.Hash {
	ks := make([]merkletree.Hash, 0, len(r.Entries))
	for k := range r.Entries {
		ks = append(ks, k)
	}
	return r.build(ks, 0)
}

func (r *RefTree) build(ks []merkletree.Hash, lvl int) merkletree.Hash {
	switch len(ks) {
	case 0:
		return merkletree.Hash{}
	case 1:
		d := r.Entries[ks[0]]
		return RefLeaf(ks[0], RefHv(&d))
	}
	var l, rr []merkletree.Hash
	for _, k := range ks {
		k := k
		if Bit(&k, lvl) {
			rr = append(rr, k)
		} else {
			l = append(l, k)
		}
	}
	lh, rh := r.build(l, lvl+1), r.build(rr, lvl+1)
	h, _ := RefHash(lh[:], rh[:])
	return h
}

// Path returns the full list of siblings on the path of hi, and the leaf
// where it ends (nil if it ends empty).
func (r *RefTree) Path(hi *merkletree.Hash) (sib []merkletree.Hash, leaf *merkletree.Hash) {
	ks := make([]merkletree.Hash, 0, len(r.Entries))
	for k := range r.Entries {
		ks = append(ks, k)
	}
	for lvl := 0; ; lvl++ {
		if len(ks) == 0 {
			return sib, nil
		}
		if len(ks) == 1 {
			k := ks[0]
			return sib, &k
		}
		var same, other []merkletree.Hash
		for _, k := range ks {
			k := k
			if Bit(&k, lvl) == Bit(hi, lvl) {
				same = append(same, k)
			} else {
				other = append(other, k)
			}
		}
		sib = append(sib, r.build(other, lvl+1))
		ks = same
	}
}

// Depth is the number of siblings on the path of hi.
func (r *RefTree) Depth(hi merkletree.Hash) int {
	s, _ := r.Path(&hi)
	return len(s)
}

// Sorted lists the entries in a canonical order.
func (r *RefTree) Sorted() []merkletree.Data {
	var ks []string
	for k := range r.Entries {
		k := k
		ks = append(ks, string(k[:]))
	}
	sort.Strings(ks)
	var out []merkletree.Data
	for _, k := range ks {
		var h merkletree.Hash
		copy(h[:], k)
		out = append(out, r.Entries[h])
	}
	return out
}

// MkData makes data from eight small numbers, little-endian like the claims do.
func MkData(v ...uint64) (d merkletree.Data) {
	for i, x := range v {
		for j := 0; j < 8; j++ {
			d[i][j] = byte(x >> (8 * uint(j)))
		}
	}
	return
}

// Alphabet is a set of entries whose paths collide in chosen ways.
type Alphabet struct {
	Names []string
	Data  map[string]merkletree.Data
}

func (a *Alphabet) add(n string, d merkletree.Data) {
	a.Names = append(a.Names, n)
	if a.Data == nil {
		a.Data = map[string]merkletree.Data{}
	}
	a.Data[n] = d
}

func pathUint(h *merkletree.Hash, bits int) int {
	r := 0
	for i := 0; i < bits; i++ {
		if Bit(h, i) {
			r |= 1 << uint(i)
		}
	}
	return r
}

// deepTable lists, per length of the path shared with the base entry A, the
// first number whose entry shares exactly that many bits (found by cmd/deep,
// re-verified at start).
var deepTable = map[int]uint64{0: 2, 1: 7, 2: 24, 3: 16, 4: 64, 5: 102, 6: 422, 7: 93, 8: 81, 9: 1295, 10: 253,
	11: 4325, 12: 3665, 13: 10357, 14: 41225, 15: 2842, 16: 79296, 17: 267845, 18: 277166, 19: 762000, 23: 125608}

// fastTable is the same for the stand-in hash (vposeidon.Fast).
var fastTable = map[int]uint64{0: 8, 1: 3, 2: 2, 3: 5, 4: 60, 5: 7, 6: 43, 7: 126, 8: 270, 9: 1105, 10: 709,
	11: 733, 12: 8364, 13: 20558, 14: 42040, 15: 57671, 16: 28929, 17: 140200, 18: 233249}

func table() map[int]uint64 {
	if vposeidon.Fast {
		return fastTable
	}
	return deepTable
}

// BaseEntry is entry A.
func BaseEntry() merkletree.Data { return MkData(1, 0, 0, 0, 7, 0, 0, 9) }

// Sharing returns an entry sharing exactly c path bits with A.
func Sharing(c int) merkletree.Data {
	n, ok := table()[c]
	if !ok {
		panic("no such entry")
	}
	d := MkData(n, 2, 0, 5, 7, 0, 0, 9)
	a := BaseEntry()
	ha, hd := RefHi(&a), RefHi(&d)
	if Common(&ha, &hd) != c {
		panic("deep table out of date")
	}
	return d
}

// DeepLens lists the available shared lengths.
func DeepLens() []int {
	var r []int
	for c := range table() {
		r = append(r, c)
	}
	sort.Ints(r)
	return r
}

// NewAlphabet makes an alphabet: A, one entry per shared length (named after
// it: "s4"), A2 = index of A with another value (differing only in the last
// element), A3 = index of A with the revocation-nonce element changed, X and Y
// out of the field.
func NewAlphabet(shared ...int) *Alphabet {
	a := &Alphabet{}
	base := BaseEntry()
	a.add("A", base)
	for _, c := range shared {
		a.add(fmt.Sprintf("s%d", c), Sharing(c))
	}
	a2 := base
	a2[7][0] = 77
	a.add("A2", a2)
	a3 := base
	a3[4][0] = 78
	a.add("A3", a3)
	x := MkData(3, 0, 0, 0, 0, 0, 0, 0)
	for i := range x[6] {
		x[6][i] = 0xff
	}
	a.add("X", x)
	y := MkData(4, 0, 0, 0, 0, 0, 0, 0)
	q := constants.Q.Bytes()
	for i := range q {
		y[2][len(q)-1-i] = q[i]
	}
	a.add("Y", y)
	return a
}
