// C15: a verifier accepts a validity credential only if the claim is
// unrevoked, unexpired, and the state fresh.
package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"math/big"
	"time"

	"github.com/iden3/go-iden3-core/components/idenpuboffchain"
	"github.com/iden3/go-iden3-core/components/verifier"
	"github.com/iden3/go-iden3-core/core"
	"github.com/iden3/go-iden3-core/core/claims"
	"github.com/iden3/go-iden3-core/core/proof"
	"github.com/iden3/go-iden3-core/merkletree"
	"verif/mc/idw"
	"verif/mc/mcx"
	"verif/mc/vposeidon"
	"verif/mc/world"
)

// expiry of a claim by its encoding
func expiry(d merkletree.Data) (int64, bool) {
	if d[0][8]&(1<<3) == 0 {
		return 0, false
	}
	var v uint64
	for i := 0; i < 8; i++ {
		v |= uint64(d[4][4+i]) << (8 * uint(i))
	}
	return int64(v), true
}

// instants are compared exactly, with any number of seconds.
func nanos(sec int64, ns int64) *big.Int {
	x := new(big.Int).Mul(big.NewInt(sec), big.NewInt(1e9))
	return x.Add(x, big.NewInt(ns))
}

type clock struct {
	now   time.Time
	fresh time.Duration
}

type verdict int

const (
	no verdict = iota
	maybe
	yes
)

// valid judges what a credential states.
func valid(p *idw.Pair, c *proof.CredentialValidity, k clock) (verdict, string) {
	if !p.ExistTrue(&c.CredentialExistence) {
		return no, "the claim was not issued"
	}
	v := yes
	d := c.CredentialExistence.Claim.Data
	now := nanos(k.now.Unix(), int64(k.now.Nanosecond()))
	if e, ok := expiry(d); ok {
		switch now.Cmp(nanos(e, 0)) {
		case 1:
			if now.Cmp(nanos(e, 1e9)) >= 0 {
				return no, "expired"
			}
			v = maybe // the clock's second is that of the expiry
		case 0:
			v = maybe
		}
	}
	id := c.CredentialExistence.Id
	r := p.Published(id, &c.IdenStateData)
	if r == nil {
		return no, "no such state was published"
	}
	if p.Revoked(r, d) {
		return no, "revoked"
	}
	last, err := p.Multi.GetState(id)
	if err != nil {
		return no, "not on chain"
	}
	if *last.IdenState != *c.IdenStateData.IdenState {
		switch nanos(c.IdenStateData.BlockTs, 0).Cmp(new(big.Int).Sub(now, big.NewInt(int64(k.fresh)))) {
		case -1:
			return no, "outdated"
		case 0:
			v = maybe
		}
	}
	return v, ""
}

// verify compares the verifier with the judgement.
func verify(p *idw.Pair, chain *idw.Multi, c *proof.CredentialValidity, k clock, genuine bool) (bool, error) {
	err := verifier.NewWithTimeNow(chain, func() time.Time { return k.now }).VerifyCredentialValidity(c, k.fresh)
	v, why := valid(p, c, k)
	if err == nil && v == no {
		b, _ := json.Marshal(c)
		return true, fmt.Errorf("accepted at %d.%09d with freshness %v although %s: %s", k.now.Unix(), k.now.Nanosecond(), k.fresh, why, b)
	}
	if err != nil && v == yes && genuine {
		b, _ := json.Marshal(c)
		return false, fmt.Errorf("refused at %d.%09d with freshness %v: %v: %s", k.now.Unix(), k.now.Nanosecond(), k.fresh, err, b)
	}
	return err == nil, nil
}

// clocks lists the boundaries.
func clocks(p *idw.Pair) (r []clock) {
	ts := map[int64]bool{idw.ExpAt: true, idw.ExpAt + 1: true, 0: true, -5: true, math.MaxInt32: true, 1 << 40: true}
	for _, w := range p.Ws {
		for _, d := range w.Chain.Hist[w.M.Id] {
			ts[d.BlockTs] = true
			ts[d.BlockTs+60] = true
			ts[d.BlockTs+3600] = true
		}
	}
	var secs []int64
	for t := range ts {
		secs = append(secs, t)
	}
	for _, s := range secs {
		for _, n := range []time.Time{time.Unix(s-1, 999999999), time.Unix(s, 0), time.Unix(s, 1), time.Unix(s+1, 0)} {
			for _, f := range []time.Duration{0, time.Nanosecond, time.Second, 60 * time.Second, time.Hour, -time.Second, math.MaxInt64} {
				r = append(r, clock{n, f})
			}
		}
	}
	return
}

var kinds = []func(n uint64, me core.ID) *idw.Claim{
	idw.ClaimKinds[1], idw.ClaimKinds[0], idw.ClaimKinds[3],
	func(n uint64, me core.ID) *idw.Claim { return idw.NewExpiring(n, 1, math.MaxInt64) },
	func(n uint64, me core.ID) *idw.Claim { return idw.NewExpiring(n, 1, -1) },
	func(n uint64, me core.ID) *idw.Claim { return idw.NewExpiring(n, 1, 0) },
}

type sys struct {
	p *idw.Pair
	c *mcx.Ctx
}

func (s *sys) Ops() []string { return s.p.Ops() }
func (s *sys) Key() string   { return s.p.Key() }
func (s *sys) Close()        {}

// liberal lets everything through that does not expire early; strict wants
// the latest state.
var (
	liberal = clock{time.Unix(-10, 0), math.MaxInt64}
	strict  = clock{time.Unix(idw.ExpAt-100, 0), 0}
)

func (s *sys) Do(op string, full bool) error {
	pub, err := s.p.Do(op)
	if err != nil || !full || !pub {
		return err
	}
	p := s.p
	n := 0
	var acc []*proof.CredentialValidity
	for _, floor := range []bool{false, true} {
		chain := &idw.Multi{Ws: p.Ws, Floor: floor}
		for _, k := range clocks(p) {
			for _, c := range p.CV { // also those built long ago
				n++
				if _, err := verify(p, chain, c, k, true); err != nil {
					return err
				}
			}
		}
	}
	r, err := p.Cut()
	if err != nil {
		return err
	}
	// proofs of absence of the nonces in use, and of others
	mtps := append([]*merkletree.Proof{}, r.Mtps...)
	seen := map[string]bool{}
	for _, m := range mtps {
		seen[string(m.Bytes())] = true
	}
	for _, c := range p.CV {
		if k := string(c.MtpNotNonce.Bytes()); !seen[k] {
			seen[k] = true
			mtps = append(mtps, c.MtpNotNonce)
		}
	}
	for _, w := range p.Ws {
		for _, st := range w.Chain.Hist[w.M.Id] {
			pd, err := p.GetPublicData(w.Off.Link, &w.M.Id, st.IdenState)
			if err != nil {
				return err
			}
			for nonce := uint32(0); nonce < 6; nonce++ {
				l := idw.RevLeaf(nonce)
				hi := world.RefHi(&l)
				m, err := pd.RevocationsTree.GenerateProof(&hi, nil)
				if err != nil {
					return err
				}
				if k := string(m.Bytes()); !seen[k] {
					seen[k] = true
					mtps = append(mtps, m)
				}
			}
		}
	}
	chain := &idw.Multi{Ws: p.Ws, Floor: true}
	for _, w := range p.Ws { // absence claimed with the leaf itself
		if w.M.OnRec == nil || w.M.OnRec.Revs == nil {
			continue
		}
		for _, d := range w.M.OnRec.Revs.Sorted() {
			d := d
			for _, m := range append([]*merkletree.Proof{}, mtps...) {
				for _, f := range []*merkletree.Proof{idw.Forge(m, false, &d), idw.Forge(m, false, nil)} {
					if k := string(f.Bytes()); !seen[k] && len(m.AllSiblings()) < 4 {
						seen[k] = true
						mtps = append(mtps, f)
					}
				}
			}
		}
	}
	// claims never issued, under genuine validities
	for _, v := range p.CV {
		for _, e := range p.Forgeries() {
			c := *v
			c.CredentialExistence = *e
			n++
			if _, err := verify(p, chain, &c, liberal, false); err != nil {
				return err
			}
		}
	}
	for _, ce := range p.CE {
		for _, st := range r.Isd {
			for _, m := range mtps {
				for _, clr := range r.Roots.L {
					for _, ror := range r.Roots.L {
						c := &proof.CredentialValidity{CredentialExistence: *ce, IdenStateData: st, MtpNotNonce: m, ClaimsTreeRoot: clr, RootsTreeRoot: ror}
						for i, k := range []clock{liberal, strict} {
							n++
							ok, err := verify(p, chain, c, k, false)
							if err != nil {
								return err
							}
							if ok && i == 0 {
								acc = append(acc, c)
							}
						}
					}
				}
			}
		}
	}
	for _, c := range acc {
		for _, k := range clocks(p) {
			n++
			if _, err := verify(p, chain, c, k, false); err != nil {
				return err
			}
		}
	}
	// parts of two existence credentials under a genuine validity
	for _, v := range p.CV {
		for _, a := range p.CE {
			for _, b := range p.CE {
				for bits := 0; bits < 32; bits++ {
					c := *v
					e := &c.CredentialExistence
					*e = *a
					if bits&1 != 0 {
						e.Id = b.Id
					}
					if bits&2 != 0 {
						e.IdenStateData = b.IdenStateData
					}
					if bits&4 != 0 {
						e.Claim = b.Claim
					}
					if bits&8 != 0 {
						e.MtpClaim = b.MtpClaim
					}
					if bits&16 != 0 {
						e.RevocationsTreeRoot, e.RootsTreeRoot = b.RevocationsTreeRoot, b.RootsTreeRoot
					}
					n++
					if _, err := verify(p, chain, &c, liberal, false); err != nil {
						return err
					}
				}
			}
		}
	}
	s.c.AddTransitions(n)
	s.c.Extra("verifications", n)
	if len(acc) < len(p.CV)/2 {
		return fmt.Errorf("only %d recombinations accepted", len(acc))
	}
	return nil
}

// cheat is an off-chain store that answers with other states' data.
type cheat struct {
	*idw.Multi
	id    core.ID
	state *merkletree.Hash
}

func (o *cheat) GetPublicData(url string, id *core.ID, state *merkletree.Hash) (*idenpuboffchain.PublicData, error) {
	return o.Multi.GetPublicData(url, &o.id, o.state)
}

func malformed(c *mcx.Ctx, n string) {
	p, err := idw.ScriptedPair(n)
	if err != nil {
		c.Case("malformed", n, func() error { return err })
		return
	}
	donors := []interface{}{}
	for _, x := range p.CV {
		donors = append(donors, x)
	}
	ks := []clock{liberal, strict, {time.Unix(idw.ExpAt+10, 0), math.MaxInt64}}
	judge := func(y *proof.CredentialValidity) error {
		for _, floor := range []bool{false, true} {
			for _, k := range ks {
				if _, err := verify(p, &idw.Multi{Ws: p.Ws, Floor: floor}, y, k, false); err != nil {
					return err
				}
			}
		}
		return nil
	}
	for i, x := range p.CV {
		i, x := i, x
		ms, err := idw.Mutations(x, donors)
		if err != nil {
			c.Case("malformed", n, func() error { return err })
			return
		}
		c.Each(fmt.Sprintf("malformed %s %d", n, i), len(ms), func(k int) string { return ms[k].Name }, func(k int) error {
			var y proof.CredentialValidity
			if err := json.Unmarshal(ms[k].Doc, &y); err == nil {
				if err := judge(&y); err != nil {
					return err
				}
			}
			z := proof.CredentialValidity{}
			if err := idw.Copy(p.CV[(i+1)%len(p.CV)], &z); err != nil {
				return err
			}
			_ = judge(&z)
			if err := json.Unmarshal(ms[k].Doc, &z); err == nil {
				return judge(&z)
			}
			return nil
		})
		c.Case("missing "+n, fmt.Sprint(i), func() error {
			for m := 0; m < 1<<11; m++ {
				y := *x
				e := &y.CredentialExistence
				for b, f := range []func(){
					func() { e.Id = nil }, func() { e.IdenStateData.IdenState = nil }, func() { e.MtpClaim = nil }, func() { e.Claim = nil },
					func() { e.RevocationsTreeRoot = nil }, func() { e.RootsTreeRoot = nil },
					func() { y.IdenStateData.IdenState = nil }, func() { y.MtpNotNonce = nil }, func() { y.ClaimsTreeRoot = nil }, func() { y.RootsTreeRoot = nil },
					func() { y.CredentialExistence = proof.CredentialExistence{} }} {
					if m>>uint(b)&1 != 0 {
						f()
					}
				}
				if err := mcx.Protect(func() error { return judge(&y) }); err != nil {
					return fmt.Errorf("missing fields %011b: %v", m, err)
				}
			}
			return nil
		})
		c.Case("altered "+n, fmt.Sprint(i), func() error {
			var y proof.CredentialValidity
			if err := idw.Copy(x, &y); err != nil {
				return err
			}
			check := func(what string) error {
				if err := mcx.Protect(func() error { return judge(&y) }); err != nil {
					return fmt.Errorf("%s: %v", what, err)
				}
				return nil
			}
			if err := check("unchanged"); err != nil {
				return err
			}
			e := &y.CredentialExistence
			for i := range e.Claim.Data {
				for b := range e.Claim.Data[i] {
					for bit := uint(0); bit < 8; bit++ {
						e.Claim.Data[i][b] ^= 1 << bit
						if err := check(fmt.Sprintf("claim element %d byte %d", i, b)); err != nil {
							return err
						}
						e.Claim.Data[i][b] ^= 1 << bit
					}
				}
			}
			hs := map[string]*merkletree.Hash{"state": y.IdenStateData.IdenState, "claims root": y.ClaimsTreeRoot, "roots root": y.RootsTreeRoot}
			for j, h := range y.MtpNotNonce.Siblings {
				hs[fmt.Sprintf("sibling %d", j)] = h
			}
			if y.MtpNotNonce.NodeAux != nil {
				hs["aux index"], hs["aux value"] = y.MtpNotNonce.NodeAux.HIndex, y.MtpNotNonce.NodeAux.HValue
			}
			for n, h := range hs {
				for b := range h {
					for bit := uint(0); bit < 8; bit++ {
						h[b] ^= 1 << bit
						if err := check(n); err != nil {
							return err
						}
						h[b] ^= 1 << bit
					}
				}
			}
			for _, d := range []uint64{1, ^uint64(0), 15, 1 << 20, 1 << 32, 1 << 63} {
				y.IdenStateData.BlockN += d
				if err := check("block"); err != nil {
					return err
				}
				y.IdenStateData.BlockN -= d
				y.IdenStateData.BlockTs += int64(d)
				if err := check("time"); err != nil {
					return err
				}
				y.IdenStateData.BlockTs -= int64(d)
			}
			return check("restored")
		})
		c.Case("no chain "+n, fmt.Sprint(i), func() error {
			for _, k := range ks {
				if verifier.NewWithTimeNow(&idw.Multi{Ws: p.Ws, Err: errors.New("down")}, func() time.Time { return k.now }).VerifyCredentialValidity(x, k.fresh) == nil {
					return fmt.Errorf("accepted without the chain")
				}
			}
			return nil
		})
	}
	// what a holder builds from data that are not those of the state asked for
	for i, x := range p.CE {
		i, x := i, x
		c.Case("cheating store "+n, fmt.Sprint(i), func() error {
			for _, w := range p.Ws {
				w := w
				for _, st := range w.Chain.Hist[w.M.Id] {
					h, err := p.HolderWith(&cheat{&p.Multi, w.M.Id, st.IdenState})
					if err != nil {
						return err
					}
					last, err := p.Multi.GetState(x.Id)
					if err != nil {
						return err
					}
					v, err := h.HolderGetCredentialValidity(x)
					rec := p.Published(x.Id, last)
					if err == nil && (*last.IdenState != *st.IdenState || p.Revoked(rec, x.Claim.Data)) {
						return fmt.Errorf("the holder took the data of state %x for those of %x", st.IdenState[:4], last.IdenState[:4])
					}
					if err == nil {
						if ok, err := verify(p, &p.Multi, v, liberal, true); err != nil || !ok {
							if e, has := expiry(x.Claim.Data); err != nil || !has || e > -10 {
								return fmt.Errorf("%v %v", ok, err)
							}
						}
					}
				}
			}
			return nil
		})
		ms, err := idw.Mutations(x, nil)
		if err != nil {
			c.Case("holder", n, func() error { return err })
			return
		}
		c.Each(fmt.Sprintf("malformed to holder %s %d", n, i), len(ms), func(k int) string { return ms[k].Name }, func(k int) error {
			var y proof.CredentialExistence
			if json.Unmarshal(ms[k].Doc, &y) != nil {
				return nil
			}
			v, err := p.H.HolderGetCredentialValidity(&y)
			if err != nil {
				return nil
			}
			return judge(v)
		})
	}
}

var _ = claims.GetRevocationNonce

func main() {
	vposeidon.Fast = true
	defer world.CleanScratch()
	mcx.Main("C15", "model-checking", func(c *mcx.Ctx) {
		c.Rule("breadth-first search over histories of two issuers with claims that never expire, expire at several times, or name a subject; after every publication every validity credential ever built is verified at every clock boundary (expiry, block time plus freshness, each with the neighbouring nanoseconds) and freshness, and all recombinations of existence credentials, states, proofs and roots at a liberal and a strict clock; one-place mutations, missing fields, bit changes, cheating off-chain stores")
		c.Assume("what happens in the very second of the expiry and exactly at the freshness limit is left open")
		for _, n := range idw.ScriptNames {
			malformed(c, n)
		}
		for _, k := range []struct {
			n     string
			at    int
			depth int
		}{{"recombination, early kinds", 0, c.Pick(5, 6)}, {"recombination, late kinds", 3, c.Pick(4, 5)}} {
			k := k
			c.BFS(mcx.BFS{Name: k.n, New: func() (mcx.Sys, error) {
				p, err := idw.NewPair()
				if err == nil {
					p.Kinds = kinds[k.at : k.at+3]
				}
				return &sys{p: p, c: c}, err
			}, Depth: k.depth})
		}
	})
}
