ID="c04-write-error-overwritten"; PROP="C04"
NEEDS="a write of the stream that fails while the following ones succeed (a full disk, a pipe with a deadline)"
BREAKS="the dump lacks a node, but DumpTree reports success"
EDITS=[("merkletree/merkletree.go","""			err = serializeKV(w, k.Bytes(), n.Value())
			if err != nil {
				errS = err
			}
""","""			errS = serializeKV(w, k.Bytes(), n.Value())
""")]
PKG="merkletree"
TEST='''package merkletree

import (
	"bytes"
	"errors"
	"math/big"
	"testing"

	"github.com/iden3/go-iden3-core/db"
)

type onceFails struct {
	bytes.Buffer
	n, at int
}

func (w *onceFails) Write(b []byte) (int, error) {
	w.n++
	if w.n == w.at {
		return 0, errors.New("not now")
	}
	return w.Buffer.Write(b)
}

func TestZZDemo(t *testing.T) {
	mt, err := NewMerkleTree(db.NewMemoryStorage(), 20)
	if err != nil {
		t.Fatal(err)
	}
	for i := int64(0); i < 5; i++ {
		var d Data
		d[0] = NewElemBytesFromBigInt(big.NewInt(i))
		if err := mt.AddEntry(&Entry{Data: d}); err != nil {
			t.Fatal(err)
		}
	}
	for at := 1; ; at++ {
		w := &onceFails{at: at}
		if err := mt.DumpTree(w, nil); err != nil {
			continue
		}
		if w.n < at {
			break // no failure anymore
		}
		t.Fatalf("write %d failed, unnoticed", at)
	}
}
'''
