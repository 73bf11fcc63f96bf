ID="c21-roots-of-trees"; PROP="C21"
NEEDS="downloaded public data whose announced revocations root is not the one of the tree that comes with them"
BREAKS="only the roots of the imported trees are checked against the state, so the announced roots can be anything and are handed to the holder as published"
EDITS=[("components/idenpuboffchain/idenpuboffchain.go","""	if !revocationsTree.RootKey().Equals(&publicDataBlobs.RevocationsTreeRoot) {
		return nil, fmt.Errorf("Imported revocations tree root (%v) doesn't match the expected root (%v)",
			revocationsTree.RootKey(), publicDataBlobs.RevocationsTreeRoot)
	}

""",""""""),("components/idenpuboffchain/idenpuboffchain.go","""	if !rootsTree.RootKey().Equals(&publicDataBlobs.RootsTreeRoot) {
		return nil, fmt.Errorf("Imported roots tree root (%v) doesn't match the expected root (%v)",
			rootsTree.RootKey(), publicDataBlobs.RootsTreeRoot)
	}
""",""""""),("components/idenpuboffchain/idenpuboffchain.go","""		&publicDataBlobs.RevocationsTreeRoot, &publicDataBlobs.RootsTreeRoot)
	if err""","""		revocationsTree.RootKey(), rootsTree.RootKey())
	if err""")]
PKG="components/idenpuboffchain"
TEST='''package idenpuboffchain

import (
	"bytes"
	"testing"

	"github.com/iden3/go-iden3-core/core"
	"github.com/iden3/go-iden3-core/core/claims"
	"github.com/iden3/go-iden3-core/db"
	"github.com/iden3/go-iden3-core/merkletree"
)

func TestZZDemo(t *testing.T) {
	mt, err := merkletree.NewMerkleTree(db.NewMemoryStorage(), 140)
	if err != nil {
		t.Fatal(err)
	}
	old := *mt.RootKey()
	if err := claims.AddLeafRevocationsTree(mt, 5, 0xffffffff); err != nil {
		t.Fatal(err)
	}
	rot, err := merkletree.NewMerkleTree(db.NewMemoryStorage(), 140)
	if err != nil {
		t.Fatal(err)
	}
	var w, v bytes.Buffer
	if err := mt.DumpTree(&w, nil); err != nil {
		t.Fatal(err)
	}
	if err := rot.DumpTree(&v, nil); err != nil {
		t.Fatal(err)
	}
	clr := merkletree.Hash{1}
	b := PublicDataBlobs{IdenState: *core.IdenState(&clr, mt.RootKey(), rot.RootKey()), ClaimsTreeRoot: clr, RevocationsTreeRoot: *mt.RootKey(),
		RevocationsTree: w.Bytes(), RootsTreeRoot: *rot.RootKey(), RootsTree: v.Bytes()}
	if _, err := NewPublicDataFromBlobs(&b); err != nil {
		t.Fatal(err)
	}
	b.RevocationsTreeRoot = old
	if p, err := NewPublicDataFromBlobs(&b); err == nil {
		t.Fatalf("accepted with revocations root %v over a tree with root %v", p.RevocationsTreeRoot, p.RevocationsTree.RootKey())
	}
}
'''
