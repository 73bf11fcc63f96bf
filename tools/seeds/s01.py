ID="c01-path-wraps"; PROP="C01"
NEEDS="two entries whose index hashes agree on the first 16 path bits"
BREAKS="entries sharing 16 path bits can no longer be stored together although the depth limit separates them"
EDITS=[("merkletree/utils.go","		path[n] = common.TestBit(hIndex[:], uint(n))","		path[n] = common.TestBit(hIndex[:2], uint(n)%16)")]
PKG="merkletree"
TEST='''package merkletree

import (
	"encoding/binary"
	"testing"

	"github.com/iden3/go-iden3-core/db"
)

// Two entries whose index hashes share 16 path bits must both fit.
func TestZZDemo(t *testing.T) {
	mk := func(n uint64) *Entry {
		e := &Entry{}
		binary.LittleEndian.PutUint64(e.Data[0][:], n)
		return e
	}
	seen := map[[2]byte]uint64{}
	for n := uint64(1); ; n++ {
		h, err := mk(n).HIndex()
		if err != nil {
			t.Fatal(err)
		}
		k := [2]byte{h[0], h[1]}
		if m, ok := seen[k]; ok {
			mt, err := NewMerkleTree(db.NewMemoryStorage(), 140)
			if err != nil {
				t.Fatal(err)
			}
			if err := mt.AddEntry(mk(m)); err != nil {
				t.Fatal(err)
			}
			if err := mt.AddEntry(mk(n)); err != nil {
				t.Fatalf("entry refused: %v", err)
			}
			if mt.EntryExists(mk(n), nil) != nil || mt.EntryExists(mk(m), nil) != nil {
				t.Fatal("entry lost")
			}
			return
		}
		seen[k] = n
	}
}
'''
