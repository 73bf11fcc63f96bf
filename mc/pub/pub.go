// Package pub is an issuer's side of the off-chain store: growing trees with a
// reference of every state they went through.
package pub

import (
	"bytes"
	"fmt"
	"sync"

	"github.com/iden3/go-iden3-core/components/idenpuboffchain"
	"github.com/iden3/go-iden3-core/core/claims"
	"github.com/iden3/go-iden3-core/merkletree"
	"verif/mc/world"
)

// H is a hash.
type H = merkletree.Hash

// State is what a state consists of.
type State struct {
	State, Clr, Rer, Ror H
	Revs, Roots          *world.RefTree
}

// Iss has the trees.
type Iss struct {
	Disk       *world.Disk
	Revs, Rots *merkletree.MerkleTree
	revs, rots *world.RefTree
	States     []State
	salt       uint64
}

// Levels of the trees.
const Levels = 140

// New makes an issuer with empty trees.
func New(salt uint64) (*Iss, error) {
	i := &Iss{Disk: world.NewDisk(), revs: world.NewRefTree(Levels), rots: world.NewRefTree(Levels), salt: salt}
	var err error
	if i.Revs, err = merkletree.NewMerkleTree(i.Disk.Storage().WithPrefix([]byte("rev")), Levels); err != nil {
		return nil, err
	}
	if i.Rots, err = merkletree.NewMerkleTree(i.Disk.Storage().WithPrefix([]byte("rot")), Levels); err != nil {
		return nil, err
	}
	i.record()
	return i, nil
}

func small(n uint64) (h H) {
	for k := 0; k < 8; k++ {
		h[k] = byte(n >> (8 * uint(k)))
	}
	return
}

func (i *Iss) record() {
	s := State{Clr: small(1000*i.salt + uint64(len(i.States)) + 1), Rer: i.revs.Root(), Ror: i.rots.Root(), Revs: i.revs.Clone(), Roots: i.rots.Clone()}
	s.State, _ = world.RefHash(s.Clr[:], s.Rer[:], s.Ror[:])
	i.States = append(i.States, s)
}

// RevLeaf and RootLeaf are the leaves of the trees.
func RevLeaf(nonce uint32) merkletree.Data {
	return claims.NewLeafRevocationsTree(nonce, nonce).Entry().Data
}
func RootLeaf(h H) merkletree.Data { return claims.NewLeafRootsTree(h).Entry().Data }

// Grow goes to the next state: a root is added, and a nonce is revoked every
// other time.
func (i *Iss) Grow() error {
	n := len(i.States)
	d := RootLeaf(i.States[n-1].Clr)
	if err := i.Rots.AddEntry(world.Entry(d)); err != nil {
		return err
	}
	i.rots.Add(&d)
	if n%2 == 0 || i.salt%2 == 1 {
		d := RevLeaf(uint32(n) + uint32(i.salt))
		if err := i.Revs.AddEntry(world.Entry(d)); err != nil {
			return err
		}
		i.revs.Add(&d)
	}
	i.record()
	s := i.States[n]
	if *i.Revs.RootKey() != s.Rer || *i.Rots.RootKey() != s.Ror {
		return fmt.Errorf("the trees are not those of the reference")
	}
	return nil
}

// Data are the public data of state k, over the live trees.
func (i *Iss) Data(k int) *idenpuboffchain.PublicData {
	s := i.States[k]
	return &idenpuboffchain.PublicData{IdenState: &s.State, ClaimsTreeRoot: &s.Clr, RevocationsTreeRoot: &s.Rer, RootsTreeRoot: &s.Ror, RevocationsTree: i.Revs, RootsTree: i.Rots}
}

// SameRoots compares the hashes.
func (s *State) sameRoots(st, clr, rer, ror *H) error {
	if *st != s.State || *clr != s.Clr || *rer != s.Rer || *ror != s.Ror {
		return fmt.Errorf("state %s with roots %s, %s, %s; want %s with %s, %s, %s", st.Hex()[:12], clr.Hex()[:12], rer.Hex()[:12], ror.Hex()[:12], s.State.Hex()[:12], s.Clr.Hex()[:12], s.Rer.Hex()[:12], s.Ror.Hex()[:12])
	}
	return nil
}

// CheckData compares public data with the state.
func (s *State) CheckData(p *idenpuboffchain.PublicData) error {
	if err := s.sameRoots(p.IdenState, p.ClaimsTreeRoot, p.RevocationsTreeRoot, p.RootsTreeRoot); err != nil {
		return err
	}
	for _, t := range []struct {
		n   string
		mt  *merkletree.MerkleTree
		ref *world.RefTree
	}{{"revocations", p.RevocationsTree, s.Revs}, {"roots", p.RootsTree, s.Roots}} {
		if r := t.ref.Root(); *t.mt.RootKey() != r {
			return fmt.Errorf("the %s tree has another root", t.n)
		}
		cl, err := t.mt.DumpClaims(nil)
		if err != nil {
			return fmt.Errorf("%s tree: %v", t.n, err)
		}
		if err := world.SameClaims(cl, t.ref); err != nil {
			return fmt.Errorf("%s tree: %v", t.n, err)
		}
		for _, d := range append(t.ref.Sorted(), RevLeaf(77), RootLeaf(small(78))) {
			hi := world.RefHi(&d)
			p, err := t.mt.GenerateProof(&hi, nil)
			if err != nil {
				return fmt.Errorf("%s tree: %v", t.n, err)
			}
			if err := world.CheckProof(p, t.ref, hi, nil); err != nil {
				return fmt.Errorf("%s tree: %v", t.n, err)
			}
		}
	}
	return nil
}

// good remembers the blobs that were rebuilt and found right.
var good sync.Map

// CheckBlobs compares public data blobs with the state, and rebuilds the trees.
func (s *State) CheckBlobs(b *idenpuboffchain.PublicDataBlobs, rebuild bool) error {
	if err := s.sameRoots(&b.IdenState, &b.ClaimsTreeRoot, &b.RevocationsTreeRoot, &b.RootsTreeRoot); err != nil {
		return err
	}
	if !rebuild {
		return nil
	}
	k := string(s.State[:]) + string(b.RevocationsTree) + "|" + string(b.RootsTree)
	if _, ok := good.Load(k); ok {
		return nil
	}
	p, err := idenpuboffchain.NewPublicDataFromBlobs(b)
	if err != nil {
		return fmt.Errorf("rebuilding state %s: %v", s.State.Hex()[:12], err)
	}
	if err := s.CheckData(p); err != nil {
		return err
	}
	good.Store(k, true)
	return nil
}

// Blobs are the blobs of state k.
func (i *Iss) Blobs(k int) (*idenpuboffchain.PublicDataBlobs, error) {
	s := &i.States[k]
	var rev, rot bytes.Buffer
	if err := i.Revs.DumpTree(&rev, &s.Rer); err != nil {
		return nil, err
	}
	if err := i.Rots.DumpTree(&rot, &s.Ror); err != nil {
		return nil, err
	}
	return &idenpuboffchain.PublicDataBlobs{IdenState: s.State, ClaimsTreeRoot: s.Clr, RevocationsTreeRoot: s.Rer, RootsTreeRoot: s.Ror, RevocationsTree: rev.Bytes(), RootsTree: rot.Bytes()}, nil
}
