ID="c03-short-sibling"; PROP="C03"
NEEDS="a serialised proof cut inside a sibling"
BREAKS="parsing a proof cut inside its sibling list panics"
EDITS=[("merkletree/merkletree.go","			if len(siblingBytes) < (sibIdx+1)*ElemBytesLen {","			if len(siblingBytes) <= sibIdx*ElemBytesLen {")]
PKG="merkletree"
TEST='''package merkletree

import (
	"testing"

	"github.com/iden3/go-iden3-core/db"
)

func TestZZDemo(t *testing.T) {
	mt, err := NewMerkleTree(db.NewMemoryStorage(), 140)
	if err != nil {
		t.Fatal(err)
	}
	e := &Entry{}
	for i := byte(1); i < 9; i++ {
		e = &Entry{}
		e.Data[0][0] = i
		if err := mt.AddEntry(e); err != nil {
			t.Fatal(err)
		}
	}
	hi, err := e.HIndex()
	if err != nil {
		t.Fatal(err)
	}
	p, err := mt.GenerateProof(hi, nil)
	if err != nil {
		t.Fatal(err)
	}
	b := p.Bytes()
	for n := 0; n < len(b); n++ {
		c := make([]byte, n)
		copy(c, b)
		if _, err := NewProofFromBytes(c); err == nil {
			t.Fatalf("cut to %d bytes accepted", n)
		}
	}
}
'''
