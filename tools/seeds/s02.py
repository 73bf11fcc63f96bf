ID="c02-aux-same-index"; PROP="C02"
NEEDS="a hand-made non-existence proof whose neighbour leaf is the queried entry itself with the wrong value hash next to it"
BREAKS="a non-existence proof for an index present in the tree verifies when the caller names another value hash"
EDITS=[("merkletree/merkletree.go","			if bytes.Equal(hIndex[:], proof.NodeAux.HIndex[:]) {","			if bytes.Equal(hIndex[:], proof.NodeAux.HIndex[:]) &&\n				bytes.Equal(hValue[:], proof.NodeAux.HValue[:]) {")]
PKG="merkletree"
TEST='''package merkletree

import (
	"testing"

	"github.com/iden3/go-iden3-core/db"
)

// An entry of the tree must not be provable as absent.
func TestZZDemo(t *testing.T) {
	mt, err := NewMerkleTree(db.NewMemoryStorage(), 140)
	if err != nil {
		t.Fatal(err)
	}
	var es []*Entry
	for i := byte(1); i < 6; i++ {
		e := &Entry{}
		e.Data[0][0] = i
		e.Data[5][0] = i
		if err := mt.AddEntry(e); err != nil {
			t.Fatal(err)
		}
		es = append(es, e)
	}
	for _, e := range es {
		hi, hv, err := e.HiHv()
		if err != nil {
			t.Fatal(err)
		}
		p, err := mt.GenerateProof(hi, nil)
		if err != nil {
			t.Fatal(err)
		}
		p.Existence = false
		p.NodeAux = &NodeAux{HIndex: hi, HValue: hv}
		for _, v := range []*Hash{hv, &HashZero, hi} {
			if VerifyProof(mt.RootKey(), p, hi, v) {
				t.Fatal("a present entry was proved absent")
			}
		}
	}
}
'''
