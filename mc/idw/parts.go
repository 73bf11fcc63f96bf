package idw

import (
	"fmt"

	"github.com/iden3/go-iden3-core/core"
	"github.com/iden3/go-iden3-core/core/proof"
	"github.com/iden3/go-iden3-core/merkletree"
	"verif/mc/world"
)

// Hashes collects distinct Hashes.
type Hashes struct {
	L    []*merkletree.Hash
	seen map[merkletree.Hash]bool
}

// Add adds them.
func (h *Hashes) Add(xs ...merkletree.Hash) {
	for _, x := range xs {
		x := x
		if h.seen == nil {
			h.seen = map[merkletree.Hash]bool{}
		}
		if !h.seen[x] {
			h.seen[x] = true
			h.L = append(h.L, &x)
		}
	}
}

// Parts of credentials.
type Parts struct {
	Ids    []*core.ID
	Isd    []proof.IdenStateData
	Mtps   []*merkletree.Proof
	Claims []merkletree.Data
	Roots  Hashes
}

// Cut takes everything the issuers and the holder handed out into parts, and
// adds altered ones.
func (p *Pair) Cut() (r Parts, err error) {
	a, b, me := p.Ws[0].M.Id, p.Ws[1].M.Id, p.Me
	r.Ids = []*core.ID{&a, &b, &me}
	for _, w := range p.Ws {
		h := w.Chain.Hist[w.M.Id]
		for i, d := range h {
			r.Isd = append(r.Isd, d)
			if i == len(h)-1 {
				x := d
				x.BlockN++
				r.Isd = append(r.Isd, x)
				x = d
				x.BlockTs++
				r.Isd = append(r.Isd, x)
				x = d
				x.IdenState = h[0].IdenState
				r.Isd = append(r.Isd, x)
			}
		}
		r.Isd = append(r.Isd, proof.IdenStateData{IdenState: &w.M.States[0].State}) // genesis
		now := w.M.Now().State
		if now != w.M.States[len(w.M.States)-1].State && len(h) > 0 { // not published
			r.Isd = append(r.Isd, proof.IdenStateData{BlockN: h[len(h)-1].BlockN, BlockTs: h[len(h)-1].BlockTs, IdenState: &now})
		}
	}
	seen := map[string]bool{}
	mtp := func(x *merkletree.Proof) {
		if k := string(x.Bytes()); !seen[k] {
			seen[k] = true
			r.Mtps = append(r.Mtps, x)
		}
	}
	cl := func(d merkletree.Data) {
		if k := string(fmt.Sprint(d)); !seen[k] {
			seen[k] = true
			r.Claims = append(r.Claims, d)
		}
	}
	for _, c := range p.CE {
		mtp(c.MtpClaim)
		cl(c.Claim.Data)
	}
	for i, w := range p.Ws {
		for _, c := range w.M.Issued { // including unpublished ones
			cl(c.Data)
		}
		if h := w.Chain.Hist[w.M.Id]; len(h) > 0 {
			// the leaves of the other trees are no claims
			pd, err := p.GetPublicData(w.Off.Link, &w.M.Id, nil)
			if err != nil {
				return r, err
			}
			for _, t := range []struct {
				mt  *merkletree.MerkleTree
				ref *world.RefTree
			}{{pd.RevocationsTree, w.M.OnRec.Revs}, {pd.RootsTree, w.M.OnRec.RootsT}} {
				for _, d := range t.ref.Sorted() {
					hi := world.RefHi(&d)
					x, err := t.mt.GenerateProof(&hi, nil)
					if err != nil {
						return r, err
					}
					mtp(x)
					cl(d)
				}
			}
		}
		for _, rec := range w.M.States {
			if i == 0 || rec == w.M.States[len(w.M.States)-1] {
				r.Roots.Add(rec.Rer, rec.Ror, rec.Clr)
			}
		}
	}
	n := len(r.Claims)
	if n > 0 {
		d := r.Claims[n/2]
		d[4][0] ^= 0x40 // the nonce
		cl(d)
		d = r.Claims[n-1]
		d[7][0] ^= 1
		cl(d)
	}
	for _, w := range p.Ws {
		if len(w.Chain.Hist[w.M.Id]) > 0 {
			// proofs of absence
			l := RevLeaf(12345)
			hi := world.RefHi(&l)
			pd, err := p.GetPublicData(w.Off.Link, &w.M.Id, nil)
			if err != nil {
				return r, err
			}
			x, err := pd.RootsTree.GenerateProof(&hi, nil)
			if err != nil {
				return r, err
			}
			mtp(x)
		}
	}
	return r, nil
}

var scripts = map[string][]string{
	"one claim":   {"A issue", "A pub", "B issue", "B pub"},
	"two states":  {"A issue", "A pub", "A revoke", "A issue", "A pub", "B issue", "B pub"},
	"many claims": {"A issue", "A issue", "A issue", "A issue", "A pub", "B issue", "B pub", "A revoke", "A pub"},
}

// ScriptNames are the histories of ScriptedPair.
var ScriptNames = []string{"one claim", "two states", "many claims"}

// ScriptedPair is a pair after a history.
func ScriptedPair(n string) (*Pair, error) {
	p, err := NewPair()
	if err != nil {
		return nil, err
	}
	for _, op := range scripts[n] {
		if _, err := p.Do(op); err != nil {
			return nil, fmt.Errorf("%s: %v", op, err)
		}
	}
	return p, nil
}

// Forge is a proof with the same path, of the presence or absence of a leaf.
func Forge(m *merkletree.Proof, existence bool, aux *merkletree.Data) *merkletree.Proof {
	q := *m
	q.Existence, q.NodeAux = existence, nil
	if aux != nil {
		hi, hv := world.RefHi(aux), world.RefHv(aux)
		q.NodeAux = &merkletree.NodeAux{HIndex: &hi, HValue: &hv}
	}
	return &q
}

// SamePath looks for n claims that were not issued, whose path begins as that
// of an entry.
func SamePath(d merkletree.Data, depth, n int) (r []merkletree.Data) {
	hi := world.RefHi(&d)
	for i := uint64(1000); len(r) < n && i < 4000; i++ {
		x := NewClaim(i, 1).Data()
		h := world.RefHi(&x)
		same := true
		for l := 0; l < depth; l++ {
			if h[l/8]>>uint(l%8)&1 != hi[l/8]>>uint(l%8)&1 {
				same = false
			}
		}
		if same {
			r = append(r, x)
		}
	}
	return
}

// Forgeries are existence credentials made from genuine ones by turning the
// proof into one of another kind, for other claims on the same path.
func (p *Pair) Forgeries() (r []*proof.CredentialExistence) {
	for _, c := range p.CE {
		cl := append(SamePath(c.Claim.Data, len(c.MtpClaim.AllSiblings()), 3), c.Claim.Data)
		aux := []*merkletree.Data{nil, &c.Claim.Data}
		for _, o := range p.CE {
			if *o.Id == *c.Id && o.Claim.Data != c.Claim.Data {
				cl = append(cl, o.Claim.Data)
				aux = append(aux, &o.Claim.Data)
			}
		}
		for _, d := range cl {
			for _, a := range aux {
				for _, ex := range []bool{true, false} {
					f := *c
					f.Claim, f.MtpClaim = world.Entry(d), Forge(c.MtpClaim, ex, a)
					r = append(r, &f)
				}
			}
		}
	}
	return
}
