ID="c06-early-leaf"; PROP="C06"
NEEDS="an insertion whose commit fails, then the retry"
BREAKS="leaves are written in a transaction of their own: after a failed commit the retry is refused for ever"
EDITS=[("merkletree/merkletree.go","""	tx.Put(k[:], v)
	return k, nil
""","""	if n.Type == NodeTypeLeaf {
		txLeaf, err := mt.storage.NewTx()
		if err != nil {
			return nil, err
		}
		txLeaf.Put(k[:], v)
		return k, txLeaf.Commit()
	}
	tx.Put(k[:], v)
	return k, nil
""")]
PKG="merkletree"
TEST='''package merkletree

import (
	"errors"
	"testing"

	"github.com/iden3/go-iden3-core/db"
)

type failing struct {
	db.Storage
	left *int
}

type failTx struct {
	db.Tx
	left *int
}

func (f failing) NewTx() (db.Tx, error) {
	tx, err := f.Storage.NewTx()
	return failTx{tx, f.left}, err
}

func (t failTx) Commit() error {
	*t.left--
	if *t.left == -1 {
		return errors.New("disk failure")
	}
	return t.Tx.Commit()
}

// Whichever commit fails, the insertion can be retried.
func TestZZDemo(t *testing.T) {
	for n := 0; n < 3; n++ {
		left := 100
		mt, err := NewMerkleTree(failing{db.NewMemoryStorage(), &left}, 140)
		if err != nil {
			t.Fatal(err)
		}
		e := &Entry{}
		e.Data[0][0] = 1
		if err := mt.AddEntry(e); err != nil {
			t.Fatal(err)
		}
		left = n
		e2 := &Entry{}
		e2.Data[0][0] = 2
		if mt.AddEntry(e2) != nil {
			left = 100
			if err := mt.AddEntry(e2); err != nil {
				t.Fatalf("retry: %v", err)
			}
		}
		if err := mt.EntryExists(e2, nil); err != nil {
			t.Fatal(err)
		}
	}
}
'''
