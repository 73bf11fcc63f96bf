// C14: a verifier accepts an existence credential only if the claim was issued.
package main

import (
	"encoding/json"
	"errors"
	"fmt"

	"github.com/iden3/go-iden3-core/components/verifier"
	"github.com/iden3/go-iden3-core/core/proof"
	"github.com/iden3/go-iden3-core/merkletree"
	"verif/mc/idw"
	"verif/mc/mcx"
	"verif/mc/vposeidon"
	"verif/mc/world"
)

type sys struct {
	p   *idw.Pair
	c   *mcx.Ctx
	new bool
}

func (s *sys) Ops() []string { return s.p.Ops() }
func (s *sys) Key() string   { return s.p.Key() }
func (s *sys) Close()        {}

func (s *sys) Do(op string, full bool) error {
	pub, err := s.p.Do(op)
	if err != nil || !full || !pub {
		return err
	}
	p := s.p
	for _, floor := range []bool{false, true} {
		chain := idw.Multi{Ws: p.Ws, Floor: floor}
		v := verifier.New(&chain)
		for i, c := range p.CE {
			if err := v.VerifyCredentialExistence(c); err != nil {
				return fmt.Errorf("genuine credential %d: %v", i, err)
			}
			if !p.ExistTrue(c) {
				return fmt.Errorf("credential %d states something false", i)
			}
		}
	}
	r, err := p.Cut()
	if err != nil {
		return err
	}
	n, acc := 0, 0
	chain := idw.Multi{Ws: p.Ws, Floor: true}
	v := verifier.New(&chain)
	for _, c := range p.Forgeries() {
		n++
		if v.VerifyCredentialExistence(c) == nil && !p.ExistTrue(c) {
			return fmt.Errorf("accepted although false: claim %x with forged proof %x", c.Claim.Data, c.MtpClaim.Bytes())
		}
	}
	for _, d := range r.Claims {
		for _, m := range r.Mtps {
			for _, rev := range r.Roots.L {
				for _, ror := range r.Roots.L {
					// a state that does not fit is refused before the
					// identity is looked at: take all identities only
					// for those that fit
					for _, st := range r.Isd {
						for k, id := range r.Ids {
							c := &proof.CredentialExistence{Id: id, IdenStateData: st, MtpClaim: m, Claim: world.Entry(d), RevocationsTreeRoot: rev, RootsTreeRoot: ror}
							err := v.VerifyCredentialExistence(c)
							n++
							if err == nil {
								acc++
								if !p.ExistTrue(c) {
									return fmt.Errorf("accepted although false: claim %x of %v at %d %d %x, roots %x %x, proof %x", d, id, st.BlockN, st.BlockTs, st.IdenState[:4], rev[:4], ror[:4], m.Bytes())
								}
							}
							if k == 0 && err == verifier.ErrCalculatedIdenStateDoesntMatch {
								break
							}
						}
					}
				}
			}
		}
	}
	s.c.AddTransitions(n)
	s.c.Extra("recombinations", n)
	if acc < len(p.Ws[0].M.States)-1 {
		return fmt.Errorf("only %d recombinations accepted", acc)
	}
	return nil
}

// judge verifies a credential that may be anything.
func judge(p *idw.Pair, c *proof.CredentialExistence) error {
	for _, floor := range []bool{false, true} {
		chain := idw.Multi{Ws: p.Ws, Floor: floor}
		err := verifier.New(&chain).VerifyCredentialExistence(c)
		if err == nil && !p.ExistTrue(c) {
			b, _ := json.Marshal(c)
			return fmt.Errorf("accepted although false: %s", b)
		}
	}
	return nil
}

func malformed(c *mcx.Ctx, n string) {
	p, err := idw.ScriptedPair(n)
	if err != nil {
		c.Case("malformed", n, func() error { return err })
		return
	}
	donors := []interface{}{}
	for _, x := range p.CE {
		donors = append(donors, x)
	}
	for _, v := range p.CV {
		donors = append(donors, v)
	}
	for i, x := range p.CE {
		i, x := i, x
		ms, err := idw.Mutations(x, donors)
		if err != nil {
			c.Case("malformed", n, func() error { return err })
			return
		}
		c.Each(fmt.Sprintf("malformed %s %d", n, i), len(ms), func(k int) string { return ms[k].Name }, func(k int) error {
			var y proof.CredentialExistence
			if err := json.Unmarshal(ms[k].Doc, &y); err == nil {
				if err := judge(p, &y); err != nil {
					return err
				}
			}
			// received into an object that held another credential
			z := proof.CredentialExistence{}
			if err := idw.Copy(p.CE[(i+1)%len(p.CE)], &z); err != nil {
				return err
			}
			_ = judge(p, &z)
			if err := json.Unmarshal(ms[k].Doc, &z); err == nil {
				return judge(p, &z)
			}
			return nil
		})
		// fields missing in memory
		c.Case("missing "+n, fmt.Sprint(i), func() error {
			for m := 0; m < 64; m++ {
				for _, ex := range []bool{true, false} {
					y := *x
					if m&1 != 0 {
						y.Id = nil
					}
					if m&2 != 0 {
						y.IdenStateData.IdenState = nil
					}
					if m&4 != 0 {
						y.MtpClaim = nil
					}
					if m&8 != 0 {
						y.Claim = nil
					}
					if m&16 != 0 {
						y.RevocationsTreeRoot = nil
					}
					if m&32 != 0 {
						y.RootsTreeRoot = nil
					}
					if y.MtpClaim != nil {
						q := *y.MtpClaim
						q.Existence = ex
						y.MtpClaim = &q
					}
					if err := mcx.Protect(func() error { return judge(p, &y) }); err != nil {
						return fmt.Errorf("missing fields %06b: %v", m, err)
					}
				}
			}
			return mcx.Protect(func() error { // nothing at all
				if verifier.New(&p.Multi).VerifyCredentialExistence(&proof.CredentialExistence{}) == nil {
					return fmt.Errorf("the empty credential was accepted")
				}
				return nil
			})
		})
		// changed in memory, after it was used
		c.Case("altered "+n, fmt.Sprint(i), func() error {
			var y proof.CredentialExistence
			if err := idw.Copy(x, &y); err != nil {
				return err
			}
			if err := verifier.New(&p.Multi).VerifyCredentialExistence(&y); err != nil {
				return err
			}
			check := func(what string) error {
				if err := mcx.Protect(func() error { return judge(p, &y) }); err != nil {
					return fmt.Errorf("%s: %v", what, err)
				}
				return nil
			}
			for e := range y.Claim.Data {
				for b := range y.Claim.Data[e] {
					for _, bit := range []byte{1, 0x80} {
						y.Claim.Data[e][b] ^= bit
						if err := check(fmt.Sprintf("claim element %d byte %d", e, b)); err != nil {
							return err
						}
						y.Claim.Data[e][b] ^= bit
					}
				}
			}
			hs := map[string]*merkletree.Hash{"state": y.IdenStateData.IdenState, "revocations root": y.RevocationsTreeRoot, "roots root": y.RootsTreeRoot}
			for j, h := range y.MtpClaim.Siblings {
				hs[fmt.Sprintf("sibling %d", j)] = h
			}
			for n, h := range hs {
				for b := range h {
					for bit := uint(0); bit < 8; bit++ {
						h[b] ^= 1 << bit
						if err := check(n); err != nil {
							return err
						}
						h[b] ^= 1 << bit
					}
				}
			}
			for b := range y.Id {
				for bit := uint(0); bit < 8; bit++ {
					y.Id[b] ^= 1 << bit
					if err := check("id"); err != nil {
						return err
					}
					y.Id[b] ^= 1 << bit
				}
			}
			for _, d := range []uint64{1, ^uint64(0), 1 << 32, 1 << 63} {
				y.IdenStateData.BlockN += d
				if err := check("block"); err != nil {
					return err
				}
				y.IdenStateData.BlockN -= d
				y.IdenStateData.BlockTs += int64(d)
				if err := check("time"); err != nil {
					return err
				}
				y.IdenStateData.BlockTs -= int64(d)
			}
			return verifier.New(&p.Multi).VerifyCredentialExistence(&y)
		})
		// the chain cannot be asked
		c.Case("no chain "+n, fmt.Sprint(i), func() error {
			if verifier.New(&idw.Multi{Ws: p.Ws, Err: errors.New("down")}).VerifyCredentialExistence(x) == nil {
				return fmt.Errorf("accepted without the chain")
			}
			return nil
		})
	}
}

func main() {
	vposeidon.Fast = true
	defer world.CleanScratch()
	mcx.Main("C14", "model-checking", func(c *mcx.Ctx) {
		c.Rule("breadth-first search over histories of two issuers; after every publication all recombinations of identities, chain records (and altered ones), proofs of all trees, claims and leaves, and roots are verified by the real verifier: what is accepted must be true by the reference sets, what is genuine must be accepted; all one-place mutations of the credentials' JSON, all subsets of missing fields and all bit changes in memory: no panic, accepted only if true")
		for _, n := range idw.ScriptNames {
			malformed(c, n)
		}
		c.BFS(mcx.BFS{Name: "recombination", New: func() (mcx.Sys, error) {
			p, err := idw.NewPair()
			return &sys{p: p, c: c}, err
		}, Depth: c.Pick(5, 7)})
	})
}
