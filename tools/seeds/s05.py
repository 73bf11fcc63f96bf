ID="c05-empty-root"; PROP="C05"
NEEDS="an existence check against the empty root after entries were added"
BREAKS="an existence check against the (historic) empty root answers from the current tree"
EDITS=[("merkletree/merkletree.go","""	var err error
	if rootKey != nil {
		mt, err""","""	var err error
	if rootKey != nil && !rootKey.Equals(&HashZero) {
		mt, err""")]
PKG="merkletree"
TEST='''package merkletree

import (
	"testing"

	"github.com/iden3/go-iden3-core/db"
)

func TestZZDemo(t *testing.T) {
	mt, err := NewMerkleTree(db.NewMemoryStorage(), 140)
	if err != nil {
		t.Fatal(err)
	}
	empty := *mt.RootKey()
	e := &Entry{}
	e.Data[0][0] = 1
	if mt.EntryExists(e, &empty) == nil {
		t.Fatal("entry in the empty tree")
	}
	if err := mt.AddEntry(e); err != nil {
		t.Fatal(err)
	}
	if mt.EntryExists(e, &empty) == nil {
		t.Fatal("entry exists under the empty root once it was added later")
	}
}
'''
