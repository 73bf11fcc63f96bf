// C32: inputs prepared for circuits satisfy the relation the circuits prove.
package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"io/ioutil"
	"math"
	"math/big"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"time"

	zktypes "github.com/iden3/go-circom-prover-verifier/types"
	"github.com/iden3/go-iden3-core/components/verifier"
	"github.com/iden3/go-iden3-core/core"
	"github.com/iden3/go-iden3-core/core/proof"
	"github.com/iden3/go-iden3-core/identity/holder"
	"github.com/iden3/go-iden3-core/identity/issuer"
	"github.com/iden3/go-iden3-core/merkletree"
	zkutils "github.com/iden3/go-iden3-core/utils/zk"
	"github.com/mitchellh/mapstructure"
	"github.com/sirupsen/logrus"
	"verif/mc/idw"
	"verif/mc/mcx"
	"verif/mc/vposeidon"
	"verif/mc/vzk"
	"verif/mc/world"
)

func decode(x interface{}) (map[string]interface{}, error) {
	var m map[string]interface{}
	if err := mapstructure.Decode(x, &m); err != nil {
		return nil, err
	}
	return m, nil
}

// strs compares the text form of inputs with the inputs.
func strs(x interface{}, m map[string]interface{}) error {
	s, err := zkutils.InputsToMapStrings(x)
	if err != nil {
		return err
	}
	if len(s) != len(m) {
		return fmt.Errorf("%d inputs, %d as text", len(m), len(s))
	}
	for k, v := range m {
		switch v := v.(type) {
		case *big.Int:
			if s[k] != v.Text(10) {
				return fmt.Errorf("input %s is %v, as text %v", k, v, s[k])
			}
		case []*big.Int:
			t, ok := s[k].([]string)
			if !ok || len(t) != len(v) {
				return fmt.Errorf("input %s as text is %v", k, s[k])
			}
			for i := range v {
				if t[i] != v[i].Text(10) {
					return fmt.Errorf("input %s[%d] is %v, as text %v", k, i, v[i], t[i])
				}
			}
		default:
			return fmt.Errorf("input %s is a %T", k, v)
		}
	}
	return nil
}

// ---- ownership

type owner interface {
	GenIdOwnershipGenesisInputs(levels int) (*issuer.IdOwnershipGenesisInputs, error)
}

// owns judges the inputs an identity prepares with each number of levels.
func owns(o owner, id *core.ID, key *idw.Key, need int) error {
	for _, lv := range []int{-1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 139, 140, 141, 300} {
		in, err := o.GenIdOwnershipGenesisInputs(lv)
		if (err == nil) != (lv >= need) {
			return fmt.Errorf("%d levels where %d are needed: %v", lv, need, err)
		}
		if err != nil {
			if in != nil {
				return fmt.Errorf("inputs along with error %v", err)
			}
			continue
		}
		if in.Id.Cmp(idw.LE(id[:])) != 0 {
			return fmt.Errorf("the identifier is %v", in.Id)
		}
		if len(in.MtpSiblings) != lv+1 || in.MtpSiblings[lv].Sign() != 0 {
			return fmt.Errorf("%d levels: siblings %v", lv, in.MtpSiblings)
		}
		if err := idw.Ownership(in.Id, in.PrivateKey, in.MtpSiblings, in.ClaimsTreeRoot); err != nil {
			return fmt.Errorf("%d levels: %v", lv, err)
		}
		m, err := decode(in)
		if err != nil {
			return err
		}
		if err := strs(in, m); err != nil {
			return err
		}
		// what is done with the inputs does not matter to the next ones
		in.Id.SetInt64(1)
		in.PrivateKey.SetInt64(2)
		in.ClaimsTreeRoot.SetInt64(3)
		for _, s := range in.MtpSiblings {
			s.SetInt64(4)
		}
	}
	return nil
}

var extras = []func(i uint64) *idw.Claim{
	func(i uint64) *idw.Claim { return idw.NewClaim(i, 1) },
	func(i uint64) *idw.Claim { return idw.NewExpiring(i, 2, idw.ExpAt) },
	func(i uint64) *idw.Claim { return idw.NewAbout(i, 3, core.NewID(core.TypeBJP0, [27]byte{byte(i)})) },
}

func ownership(c *mcx.Ctx) {
	type cs struct {
		key   byte
		kinds []int
	}
	var l []cs
	for key := byte(1); key <= byte(c.Pick(3, 9)); key++ {
		ks := [][]int{{}}
		for n := 0; n < c.Pick(4, 6); n++ {
			for _, k := range ks[len(ks)-pow(3, n):] {
				for j := range extras {
					ks = append(ks, append(append([]int{}, k...), j))
				}
			}
		}
		for _, k := range ks {
			l = append(l, cs{key, k})
		}
		// many claims: deep trees
		for n := 8; n <= c.Pick(24, 60); n += 4 {
			l = append(l, cs{key, make([]int, n)})
		}
	}
	depths := map[int]bool{}
	c.Each("ownership", len(l), func(i int) string { return fmt.Sprintf("key %d, claims %v", l[i].key, l[i].kinds) }, func(i int) error {
		var ex []*idw.Claim
		for n, k := range l[i].kinds {
			ex = append(ex, extras[k](uint64(n+1)))
		}
		w, err := idw.NewWorld(l[i].key, ex, 0)
		if err != nil {
			return err
		}
		gen := w.M.States[0]
		need := gen.Claims.Depth(world.RefHi(&w.M.KOp))
		c.Outcome(fmt.Sprintf("operational key at depth %d", need))
		_ = depths
		if err := owns(w.Iss, &w.M.Id, w.Key, need); err != nil {
			return err
		}
		// the same later on, and after reloading
		if len(ex) < 3 {
			for _, n := range []uint64{50, 51} {
				if err := w.Issue(idw.NewClaim(n, 1)); err != nil {
					return err
				}
				if err := w.Publish(idw.PubEnv{}); err != nil {
					return err
				}
				w.Chain.Mine()
				if err := w.Sync(idw.SyncEnv{}); err != nil {
					return err
				}
				if err := owns(w.Iss, &w.M.Id, w.Key, need); err != nil {
					return err
				}
			}
			if err := w.Again(); err != nil {
				return err
			}
			if err := owns(w.Iss, &w.M.Id, w.Key, need); err != nil {
				return err
			}
		}
		h, id, err := w.NewHolder(l[i].key+1, ex)
		if err != nil {
			return err
		}
		m := idw.Genesis(idw.TheKey(l[i].key+1), ex, 0)
		if m.Id != id {
			return fmt.Errorf("the holder is %v", &id)
		}
		return owns(h, &id, idw.TheKey(l[i].key+1), m.States[0].Claims.Depth(world.RefHi(&m.KOp)))
	})
}

func pow(b, n int) int {
	r := 1
	for ; n > 0; n-- {
		r *= b
	}
	return r
}

// ---- state updates

func updates(c *mcx.Ctx) {
	var ws []*idw.World
	var sts []merkletree.Hash
	zk := idw.TheZk()
	for k := byte(1); k <= 2; k++ {
		w, err := idw.NewWorld(k, []*idw.Claim{idw.NewClaim(90, 1), idw.NewClaim(91, 1)}[:2*(k-1)], 0)
		if err != nil {
			panic(err)
		}
		for n := uint64(1); n <= 3; n++ {
			if err := w.Issue(idw.NewClaim(n, 1)); err != nil {
				panic(err)
			}
			if err := w.Publish(idw.PubEnv{}); err != nil {
				panic(err)
			}
			w.Chain.Mine()
			if err := w.Sync(idw.SyncEnv{}); err != nil {
				panic(err)
			}
		}
		for _, r := range w.M.States {
			sts = append(sts, r.State)
		}
		ws = append(ws, w)
	}
	sts = append(sts, merkletree.HashZero, merkletree.Hash{1}, merkletree.Hash{31: 1})
	levels := []int{0, 1, 2, idw.OwnLevels - 1, idw.OwnLevels, idw.OwnLevels + 1, 140}
	n := len(ws) * len(sts) * len(sts) * len(levels)
	c.Each("state updates", n, func(i int) string { return fmt.Sprint(i) }, func(i int) error {
		w := ws[i%2]
		i /= 2
		old, new, lv := sts[i%len(sts)], sts[i/len(sts)%len(sts)], levels[i/len(sts)/len(sts)]
		conf := &issuer.IdenStateZkProofConf{Levels: lv}
		setFiles(&conf.Files, &zk.Conf.Files)
		iss, err := issuer.Load(w.Disk.Clone().Storage(), w.Key.Store, &w.Net, conf, w.Off)
		if err != nil {
			return err
		}
		o, nw := old, new
		out, err := iss.GenZkProofIdenStateUpdate(&o, &nw)
		if o != old || nw != new {
			return fmt.Errorf("the states of the caller were changed")
		}
		if (err == nil) != (lv == idw.OwnLevels) {
			return fmt.Errorf("with %d levels: %v", lv, err)
		}
		if err != nil {
			return nil
		}
		want := []*big.Int{idw.LE(w.M.Id[:]), idw.LE(old[:]), idw.LE(new[:])}
		if len(out.PubSignals) != 3 || out.PubSignals[0].Cmp(want[0]) != 0 || out.PubSignals[1].Cmp(want[1]) != 0 || out.PubSignals[2].Cmp(want[2]) != 0 {
			return fmt.Errorf("the signals are %v, not %v", out.PubSignals, want)
		}
		if !vzk.Verify(zk.Vk, &out.Proof, want) {
			return fmt.Errorf("the proof does not verify")
		}
		return nil
	})
	c.Case("state updates", "without the key", func() error {
		w := ws[0]
		iss, err := issuer.Load(w.Disk.Clone().Storage(), idw.TheKey(2).Store, &w.Net, zk.Conf, w.Off)
		if err != nil {
			return nil
		}
		if out, err := iss.GenZkProofIdenStateUpdate(&sts[0], &sts[1]); err == nil || out != nil {
			return fmt.Errorf("a proof without the key: %v", out)
		}
		return nil
	})
}

func setFiles(dst, src *zkutils.ZkFiles) { *dst = *src } //nolint

// ---- credentials

// aux is validity data a holder got.
type aux struct {
	v   *holder.CredentialValidityAux
	id  core.ID
	rec *idw.Rec
	non uint32
}

// proved is a proof with what it proves.
type proved struct {
	out   *holder.ZkProofCredOut
	state merkletree.Hash
}

type sys struct {
	p   *idw.Pair
	c   *mcx.Ctx
	ax  []*aux
	prv []*proved
}

func (s *sys) Ops() []string { return s.p.Ops() }
func (s *sys) Key() string   { return s.p.Key() }
func (s *sys) Close()        {}

// foreign copies validity data with the parts b in place of its own.
func mix(a, b *holder.CredentialValidityAux, bits int) *holder.CredentialValidityAux {
	r := *a
	for i, f := range []func(){
		func() { r.IdenStateData = b.IdenStateData }, func() { r.MtpNotNonce = b.MtpNotNonce }, func() { r.ClaimsTreeRoot = b.ClaimsTreeRoot },
		func() { r.RevTreeRoot = b.RevTreeRoot }, func() { r.RootsTreeRoot = b.RootsTreeRoot }, func() { r.PublicData = b.PublicData },
	} {
		if bits>>uint(i)&1 != 0 {
			f()
		}
	}
	return &r
}

// inputs has a holder prepare the inputs and judges them.
func (s *sys) inputs(own *issuer.IdOwnershipGenesisInputs, ce *proof.CredentialExistence, v *holder.CredentialValidityAux, lv int) (bool, error) {
	in, err := s.p.H.HolderGetCredentialProofInputs(own, ce, v, lv)
	if err != nil {
		if in != nil {
			return false, fmt.Errorf("inputs along with error %v", err)
		}
		return false, nil
	}
	m, err := decode(in)
	if err != nil {
		return true, err
	}
	pub, err := idw.CheckCredAt(m, idw.OwnLevels, lv, idw.LE(s.p.Me[:]))
	if err != nil {
		return true, fmt.Errorf("inputs that can't be proven: %v", err)
	}
	if pub[0].Cmp(idw.LE(v.IdenStateData.IdenState[:])) != 0 {
		return true, fmt.Errorf("the state of the inputs is not that of the data")
	}
	for i := range ce.Claim.Data {
		if m["claim"].([]*big.Int)[i].Cmp(idw.LE(ce.Claim.Data[i][:])) != 0 {
			return true, fmt.Errorf("the claim of the inputs is another")
		}
	}
	return true, strs(in, m)
}

// need is the number of levels that a claim's inputs take.
func (s *sys) need(ce *proof.CredentialExistence, a *aux) int {
	was := s.p.Published(ce.Id, &ce.IdenStateData)
	d := ce.Claim.Data
	n := was.Claims.Depth(world.RefHi(&d))
	rl := idw.RevLeaf(idw.Nonce(d))
	sib, _ := a.rec.Revs.Path(hp(world.RefHi(&rl)))
	if len(sib) > n {
		n = len(sib)
	}
	root := idw.RootLeaf(was.Clr)
	if k := a.rec.RootsT.Depth(world.RefHi(&root)); k > n {
		n = k
	}
	return n
}

func hp(h merkletree.Hash) *merkletree.Hash { return &h }

func (s *sys) Do(op string, full bool) error {
	pub, err := s.p.Do(op)
	if err != nil || !pub {
		return err
	}
	p := s.p
	n := 0
	// the data for every credential as of now
	for _, w := range p.Ws {
		if w.M.OnRec == nil {
			continue
		}
		seen := map[uint32]bool{}
		for _, ce := range p.CE {
			if *ce.Id != w.M.Id || seen[idw.Nonce(ce.Claim.Data)] || p.Revoked(w.M.OnRec, ce.Claim.Data) {
				continue
			}
			seen[idw.Nonce(ce.Claim.Data)] = true
			v, err := p.H.HolderGetCredentialValidityData(ce)
			if err != nil {
				return err
			}
			dup := false
			for _, a := range s.ax {
				dup = dup || a.id == w.M.Id && a.rec.State == w.M.OnRec.State && a.non == idw.Nonce(ce.Claim.Data)
			}
			if !dup {
				s.ax = append(s.ax, &aux{v, w.M.Id, w.M.OnRec, idw.Nonce(ce.Claim.Data)})
			}
		}
	}
	own, err := p.H.GenIdOwnershipGenesisInputs(idw.OwnLevels)
	if err != nil {
		return err
	}
	// proofs from end to end
	zk := idw.TheZk()
	for _, ce := range p.CE {
		last, err := p.Multi.GetState(ce.Id)
		if err != nil {
			return err
		}
		var rec *idw.Rec
		for _, w := range p.Ws {
			if w.M.Id == *ce.Id {
				rec = w.M.OnRec
			}
		}
		d := ce.Claim.Data
		// neither revoked nor too deep, and about the holder
		fits := !p.Revoked(rec, d) && d[0][8]&3 == 2 && d[0][8]&4 == 0 && s.need(ce, &aux{rec: rec}) <= idw.IssLevels
		for _, lv := range []int{idw.IssLevels, idw.IssLevels - 1, idw.IssLevels + 1, 0} {
			for _, ol := range []int{idw.OwnLevels, idw.OwnLevels - 1} {
				out, err := p.H.HolderGenZkProofCredential(ce, func(in map[string]interface{}) error {
					if in["claim"] != nil {
						return fmt.Errorf("the claim is given")
					}
					var cl []*big.Int
					for i := range d {
						cl = append(cl, idw.LE(d[i][:]))
					}
					in["claim"] = cl
					return nil
				}, ol, lv, zk.Cred)
				n++
				if ok := fits && lv == idw.IssLevels && ol == idw.OwnLevels; (err == nil) != ok {
					return fmt.Errorf("a proof with levels %d %d: %v, possible: %v", ol, lv, err, ok)
				}
				if err != nil {
					if out != nil {
						return fmt.Errorf("a proof along with error %v", err)
					}
					continue
				}
				if len(out.ZkProofOut.PubSignals) != 1 || out.ZkProofOut.PubSignals[0].Cmp(idw.LE(last.IdenState[:])) != 0 ||
					*out.IssuerID != *ce.Id || out.IdenStateBlockN != last.BlockN {
					return fmt.Errorf("the proof is of %v %v %d", out.ZkProofOut.PubSignals, out.IssuerID, out.IdenStateBlockN)
				}
				var x holder.ZkProofCredOut
				if err := idw.Copy(out, &x); err != nil {
					return err
				}
				s.prv = append(s.prv, &proved{&x, *last.IdenState})
			}
		}
	}
	if !full {
		return nil
	}
	// every credential with all data the holder ever got
	for _, ce := range p.CE {
		for _, a := range s.ax {
			last := a.id == *ce.Id && a.non == idw.Nonce(ce.Claim.Data) && a.v.IdenStateData.BlockN >= ce.IdenStateData.BlockN
			need := 0
			if a.id == *ce.Id {
				need = s.need(ce, a)
			}
			for _, lv := range []int{-1, 0, need - 1, need, need + 1, idw.IssLevels, 140} {
				ok, err := s.inputs(own, ce, a.v, lv)
				if err != nil {
					return err
				}
				n++
				if last && !ok && lv >= need {
					return fmt.Errorf("no inputs with %d levels where %d are needed", lv, need)
				}
				if ok && lv < need {
					return fmt.Errorf("inputs with %d levels where %d are needed", lv, need)
				}
			}
		}
	}
	// parts of two of the data
	for _, ce := range p.CE {
		for _, a := range s.ax {
			for _, b := range s.ax {
				if a == b {
					continue
				}
				for bits := 1; bits < 63; bits++ {
					n++
					if _, err := s.inputs(own, ce, mix(a.v, b.v, bits), idw.IssLevels); err != nil {
						return fmt.Errorf("data mixed (%06b): %v", bits, err)
					}
				}
			}
		}
	}
	// credentials that are not genuine
	fs := p.Forgeries()
	for _, a := range p.CE {
		for _, b := range p.CE {
			for bits := 1; bits < 16; bits++ {
				e := *a
				if bits&1 != 0 {
					e.Id = b.Id
				}
				if bits&2 != 0 {
					e.Claim = b.Claim
				}
				if bits&4 != 0 {
					e.MtpClaim = b.MtpClaim
				}
				if bits&8 != 0 {
					e.IdenStateData = b.IdenStateData
				}
				fs = append(fs, &e)
			}
		}
	}
	for _, f := range fs {
		for _, a := range s.ax {
			n++
			if _, err := s.inputs(own, f, a.v, idw.IssLevels); err != nil {
				return fmt.Errorf("forged credential: %v", err)
			}
		}
	}
	// absence shown by other proofs
	for _, a := range s.ax {
		ms := []*merkletree.Proof{}
		for _, w := range p.Ws {
			for _, r := range w.M.States {
				for _, d := range r.Revs.Sorted() {
					d := d
					ms = append(ms, idw.Forge(a.v.MtpNotNonce, false, &d), idw.Forge(a.v.MtpNotNonce, true, nil), idw.Forge(a.v.MtpNotNonce, false, nil))
				}
			}
		}
		for nonce := uint32(0); nonce < 6; nonce++ {
			l := idw.RevLeaf(nonce)
			m, err := a.v.PublicData.RevocationsTree.GenerateProof(hp(world.RefHi(&l)), nil)
			if err != nil {
				return err
			}
			ms = append(ms, m)
		}
		for _, m := range ms {
			for _, ce := range p.CE {
				v := *a.v
				v.MtpNotNonce = m
				n++
				if _, err := s.inputs(own, ce, &v, idw.IssLevels); err != nil {
					return fmt.Errorf("absence shown otherwise: %v", err)
				}
			}
		}
	}
	if err := s.verify(&n); err != nil {
		return err
	}
	s.c.AddTransitions(n)
	s.c.Extra("inputs and verifications", n)
	return nil
}

// ---- verification

type clock struct {
	now   time.Time
	fresh time.Duration
}

// valid judges a proof's presentation.
func (s *sys) valid(pr *proved, sig []*big.Int, id *core.ID, block uint64, k clock) (yes, no bool) {
	if len(sig) != 1 || sig[0] == nil || sig[0].Cmp(idw.LE(pr.state[:])) != 0 {
		return false, true
	}
	for _, w := range s.p.Ws {
		if w.M.Id != *id {
			continue
		}
		for _, h := range w.Chain.Hist[*id] {
			if h.BlockN != block || *h.IdenState != pr.state {
				continue
			}
			last, _ := s.p.Multi.GetState(id)
			if *last.IdenState == pr.state {
				return true, false
			}
			now := new(big.Int).Add(new(big.Int).Mul(big.NewInt(k.now.Unix()), big.NewInt(1e9)), big.NewInt(int64(k.now.Nanosecond())))
			now.Sub(now, big.NewInt(int64(k.fresh)))
			switch new(big.Int).Mul(big.NewInt(h.BlockTs), big.NewInt(1e9)).Cmp(now) {
			case 1:
				return true, false
			case 0:
				return false, false
			}
			return false, true
		}
	}
	return false, true
}

func (s *sys) verify(n *int) error {
	zk := idw.TheZk()
	var ks []clock
	blocks := map[uint64]bool{0: true, math.MaxUint64: true}
	ids := []core.ID{s.p.Me, {}}
	for _, w := range s.p.Ws {
		ids = append(ids, w.M.Id)
		for _, h := range w.Chain.Hist[w.M.Id] {
			blocks[h.BlockN], blocks[h.BlockN+1], blocks[h.BlockN-1] = true, true, true
			for _, d := range []int64{0, 60} {
				for _, t := range []time.Time{time.Unix(h.BlockTs+d, -1), time.Unix(h.BlockTs+d, 0), time.Unix(h.BlockTs+d, 1)} {
					ks = append(ks, clock{t, time.Duration(d) * time.Second})
				}
			}
		}
	}
	ks = append(ks, clock{time.Unix(0, 0), math.MaxInt64}, clock{time.Unix(1<<40, 0), 0}, clock{time.Unix(1<<33, 0), math.MaxInt64})
	check := func(pr *proved, prf *zktypes.Proof, sig []*big.Int, id *core.ID, block uint64, files *zkutils.ZkFiles, k clock, bad bool) error {
		for _, floor := range []bool{false, true} {
			chain := &idw.Multi{Ws: s.p.Ws, Floor: floor}
			*n++
			err := verifier.NewWithTimeNow(chain, func() time.Time { return k.now }).VerifyZkProofCredential(prf, sig, id, block, files, k.fresh)
			yes, no := s.valid(pr, sig, id, block, k)
			if bad {
				yes, no = false, true
			}
			if err == nil && no {
				return fmt.Errorf("a proof of state %x is accepted for %v at %d with signals %v, time %v, freshness %v", pr.state[:4], id, block, sig, k.now.Unix(), k.fresh)
			}
			if err != nil && yes {
				return fmt.Errorf("a proof of state %x is refused for %v at %d: %v", pr.state[:4], id, block, err)
			}
		}
		return nil
	}
	lax := clock{time.Unix(0, 0), math.MaxInt64}
	for i, pr := range s.prv {
		p, sig := &pr.out.ZkProofOut.Proof, pr.out.ZkProofOut.PubSignals
		for _, k := range ks {
			if err := check(pr, p, sig, pr.out.IssuerID, pr.out.IdenStateBlockN, zk.Cred, k, false); err != nil {
				return err
			}
		}
		if i > 0 && s.prv[i-1].state == pr.state {
			continue
		}
		for j := range ids {
			for b := range blocks {
				for _, k := range []clock{lax, {time.Unix(1<<40, 0), 0}} {
					if err := check(pr, p, sig, &ids[j], b, zk.Cred, k, false); err != nil {
						return err
					}
				}
			}
		}
		// other signals
		var sigs [][]*big.Int
		x := sig[0]
		q := zktypes.R
		alts := []*big.Int{nil, new(big.Int), big.NewInt(1), big.NewInt(-1), new(big.Int).Neg(x), new(big.Int).Add(x, q), new(big.Int).Sub(x, q), new(big.Int).Sub(q, x),
			new(big.Int).Add(x, new(big.Int).Lsh(big.NewInt(1), 256)), new(big.Int).Lsh(x, 256), new(big.Int).Sub(x, new(big.Int).Lsh(q, 1)), q}
		for _, o := range s.prv {
			alts = append(alts, o.out.ZkProofOut.PubSignals[0])
		}
		for bit := 0; bit < 256; bit += 5 {
			alts = append(alts, new(big.Int).Xor(x, new(big.Int).Lsh(big.NewInt(1), uint(bit))))
		}
		for _, a := range alts {
			sigs = append(sigs, []*big.Int{a}, []*big.Int{a, x}, []*big.Int{x, a})
		}
		sigs = append(sigs, nil, []*big.Int{}, []*big.Int{x, x})
		for _, sg := range sigs {
			for _, o := range s.prv {
				if o != pr && o.state == pr.state {
					continue
				}
				if err := check(pr, p, sg, o.out.IssuerID, o.out.IdenStateBlockN, zk.Cred, lax, false); err != nil {
					return err
				}
			}
		}
		// other proofs, incomplete ones, and other circuits
		for _, o := range s.prv {
			if o.state != pr.state {
				if err := check(pr, &o.out.ZkProofOut.Proof, sig, pr.out.IssuerID, pr.out.IdenStateBlockN, zk.Cred, lax, true); err != nil {
					return err
				}
				for bits := 1; bits < 7; bits++ {
					if bits == 2 {
						continue // B is the same in all of the stand-in's proofs
					}
					y := *p
					if bits&1 != 0 {
						y.A = o.out.ZkProofOut.Proof.A
					}
					if bits&2 != 0 {
						y.B = o.out.ZkProofOut.Proof.B
					}
					if bits&4 != 0 {
						y.C = o.out.ZkProofOut.Proof.C
					}
					if err := check(pr, &y, sig, pr.out.IssuerID, pr.out.IdenStateBlockN, zk.Cred, lax, true); err != nil {
						return err
					}
				}
			}
		}
		for bits := 1; bits <= 8; bits++ {
			y := *p
			z := &y
			if bits&1 != 0 {
				y.A = nil
			}
			if bits&2 != 0 {
				y.B = nil
			}
			if bits&4 != 0 {
				y.C = nil
			}
			if bits == 8 {
				z = nil
			}
			if err := mcx.Protect(func() error {
				return check(pr, z, sig, pr.out.IssuerID, pr.out.IdenStateBlockN, zk.Cred, lax, true)
			}); err != nil {
				return fmt.Errorf("incomplete proof %04b: %v", bits, err)
			}
		}
		if err := check(pr, p, sig, pr.out.IssuerID, pr.out.IdenStateBlockN, &zk.Conf.Files, lax, true); err != nil {
			return err
		}
		if verifier.New(&idw.Multi{Ws: s.p.Ws, Err: errors.New("down")}).VerifyZkProofCredential(p, sig, pr.out.IssuerID, pr.out.IdenStateBlockN, zk.Cred, math.MaxInt64) == nil {
			return fmt.Errorf("accepted without the chain")
		}
	}
	return nil
}

// ---- circuits with more signals

// signals: a circuit that also shows a number; nothing but that number passes.
func signals(c *mcx.Ctx) {
	vzk.Register(&vzk.Circuit{Name: "show", NPublic: 3, Check: func(m map[string]interface{}) ([]*big.Int, error) {
		a, b := m["shown"].(*big.Int), m["more"].(*big.Int)
		delete(m, "shown")
		delete(m, "more")
		pub, err := idw.CheckCred(m)
		if err != nil {
			return nil, err
		}
		return append(pub, a, b), nil
	}})
	files := idw.Files("zkshow", "show")
	p, err := idw.NewPair()
	if err != nil {
		panic(err)
	}
	p.Kinds = []func(n uint64, me core.ID) *idw.Claim{idw.ClaimKinds[2]}
	for _, op := range []string{"A issue", "A pub"} {
		if _, err := p.Do(op); err != nil {
			panic(err)
		}
	}
	var ce *proof.CredentialExistence
	for _, x := range p.CE {
		if x.Claim.Data[0][8]&3 == 2 {
			ce = x
		}
	}
	q := zktypes.R
	nums := []*big.Int{new(big.Int), big.NewInt(1), big.NewInt(255), big.NewInt(256), new(big.Int).Sub(q, big.NewInt(1)), new(big.Int).Rsh(q, 1), new(big.Int).Lsh(big.NewInt(1), 248)}
	alts := append([]*big.Int{nil, q, big.NewInt(-1)}, nums...)
	for _, x := range nums {
		for _, y := range []*big.Int{q, new(big.Int).Lsh(q, 1), new(big.Int).Lsh(big.NewInt(1), 256)} {
			alts = append(alts, new(big.Int).Add(x, y), new(big.Int).Sub(x, y))
		}
		alts = append(alts, new(big.Int).Neg(x))
	}
	c.Each("signals", len(nums)*len(nums), func(i int) string { return fmt.Sprint(nums[i%len(nums)], nums[i/len(nums)]) }, func(i int) error {
		a, b := nums[i%len(nums)], nums[i/len(nums)]
		var cl []*big.Int
		for j := range ce.Claim.Data {
			cl = append(cl, idw.LE(ce.Claim.Data[j][:]))
		}
		out, err := p.H.HolderGenZkProofCredential(ce, func(in map[string]interface{}) error {
			in["claim"], in["shown"], in["more"] = cl, a, b
			return nil
		}, idw.OwnLevels, idw.IssLevels, files)
		if err != nil {
			return err
		}
		// over the wire
		doc, err := json.Marshal(zkutils.PubSignals(out.ZkProofOut.PubSignals))
		if err != nil {
			return err
		}
		var sig zkutils.PubSignals
		if err := json.Unmarshal(doc, &sig); err != nil {
			return err
		}
		if len(sig) != 3 || sig[0].Cmp(out.ZkProofOut.PubSignals[0]) != 0 || sig[1].Cmp(a) != 0 || sig[2].Cmp(b) != 0 {
			return fmt.Errorf("the signals %v are read back as %v", out.ZkProofOut.PubSignals, sig)
		}
		v := func(s []*big.Int) error {
			return mcx.Protect(func() error {
				err := verifier.NewWithTimeNow(&p.Multi, func() time.Time { return time.Unix(0, 0) }).VerifyZkProofCredential(&out.ZkProofOut.Proof, s, out.IssuerID, out.IdenStateBlockN, files, time.Hour)
				same := len(s) == 3
				for j := range s {
					same = same && s[j] != nil && s[j].Cmp(sig[j]) == 0
				}
				if (err == nil) != same {
					return fmt.Errorf("signals %v instead of %v: %v", s, sig, err)
				}
				return nil
			})
		}
		for k := 0; k < 3; k++ {
			for _, x := range alts {
				s := append([]*big.Int{}, sig...)
				s[k] = x
				if err := v(s); err != nil {
					return err
				}
			}
			for _, y := range []*big.Int{q, new(big.Int).Neg(q)} {
				s := append([]*big.Int{}, sig...)
				s[k] = new(big.Int).Add(s[k], y)
				if err := v(s); err != nil {
					return err
				}
			}
		}
		for _, s := range [][]*big.Int{sig, sig[:2], sig[:1], append(append([]*big.Int{}, sig...), new(big.Int)), {sig[0], sig[2], sig[1]}, {sig[1], sig[0], sig[2]}} {
			if err := v(s); err != nil {
				return err
			}
		}
		return nil
	})
	// what the caller adds goes into the circuit, and its refusal stops
	c.Case("signals", "inputs of the caller", func() error {
		stop := errors.New("stop")
		out, err := p.H.HolderGenZkProofCredential(ce, func(in map[string]interface{}) error { return stop }, idw.OwnLevels, idw.IssLevels, files)
		if err != stop || out != nil {
			return fmt.Errorf("%v %v", out, err)
		}
		for _, bad := range []func(in map[string]interface{}){
			func(in map[string]interface{}) { delete(in, "claim") },
			func(in map[string]interface{}) { in["isIdenState"] = big.NewInt(5) },
			func(in map[string]interface{}) { in["hoKOpSk"] = big.NewInt(5) },
			func(in map[string]interface{}) { in["isProofExistClaimsTreeRoot"] = big.NewInt(5) },
		} {
			out, err := p.H.HolderGenZkProofCredential(ce, func(in map[string]interface{}) error {
				var cl []*big.Int
				for j := range ce.Claim.Data {
					cl = append(cl, idw.LE(ce.Claim.Data[j][:]))
				}
				in["claim"], in["shown"], in["more"] = cl, nums[0], nums[1]
				bad(in)
				return nil
			}, idw.OwnLevels, idw.IssLevels, files)
			if err == nil || out != nil {
				return fmt.Errorf("a proof out of wrong inputs")
			}
		}
		return nil
	})
	// incomplete credentials and data
	c.Case("signals", "parts outside the field", func() error {
		own, err := p.H.GenIdOwnershipGenesisInputs(idw.OwnLevels)
		if err != nil {
			return err
		}
		v, err := p.H.HolderGetCredentialValidityData(ce)
		if err != nil {
			return err
		}
		ff := merkletree.Hash{}
		for i := range ff {
			ff[i] = 0xff
		}
		fr, _ := new(big.Int).SetString("21888242871839275222246405745257275088548364400416034343698204186575808495617", 10)
		for _, out := range []merkletree.Hash{ff, *merkletree.NewHashFromBigInt(fr), *merkletree.NewHashFromBigInt(new(big.Int).Add(fr, big.NewInt(1)))} {
			out := out
			for n := 0; n < 16; n++ {
				e, a := *ce, *v
				claim := merkletree.Entry{Data: ce.Claim.Data} // without remembered hashes
				e.Claim = &claim
				if n < 8 {
					claim.Data[n] = merkletree.ElemBytes(out)
				}
				switch n {
				case 8:
					a.ClaimsTreeRoot = &out
				case 9:
					a.RevTreeRoot = &out
				case 10:
					a.RootsTreeRoot = &out
				case 11:
					d := *a.IdenStateData
					d.IdenState = &out
					a.IdenStateData = &d
				case 12:
					m := *e.MtpClaim
					m.Siblings = append([]*merkletree.Hash{}, m.Siblings...)
					if len(m.Siblings) == 0 {
						continue
					}
					m.Siblings[0] = &out
					e.MtpClaim = &m
				case 13:
					m := *a.MtpNotNonce
					m.Siblings = append([]*merkletree.Hash{}, m.Siblings...)
					if len(m.Siblings) == 0 {
						continue
					}
					m.Siblings[0] = &out
					a.MtpNotNonce = &m
				case 14:
					m := *a.MtpNotNonce
					m.NodeAux = &merkletree.NodeAux{HIndex: &out, HValue: &merkletree.Hash{}}
					a.MtpNotNonce = &m
				case 15:
					m := *a.MtpNotNonce
					m.NodeAux = &merkletree.NodeAux{HIndex: &merkletree.Hash{9}, HValue: &out}
					a.MtpNotNonce = &m
				}
				if err := mcx.Protect(func() error {
					in, err := p.H.HolderGetCredentialProofInputs(own, &e, &a, idw.IssLevels)
					if err == nil || in != nil {
						return fmt.Errorf("%v %v", in, err)
					}
					if n < 8 || n == 12 {
						o, err := p.H.HolderGenZkProofCredential(&e, func(in map[string]interface{}) error { return errors.New("stop") }, idw.OwnLevels, idw.IssLevels, files)
						if err == nil || o != nil {
							return fmt.Errorf("a proof out of nothing")
						}
					}
					return nil
				}); err != nil {
					return fmt.Errorf("part %d is %x: %v", n, out[:], err)
				}
			}
		}
		return nil
	})
	// artefacts that are missing, changed, not artefacts, or of another circuit
	for i := range idw.Artefacts {
		i := i
		for _, what := range []string{"missing", "changed", "empty", "not JSON", "of another circuit"} {
			what := what
			c.Case("artefacts", idw.Artefacts[i]+" "+what, func() error { return badArtefact(p, ce, i, what) })
		}
	}
	c.Case("signals", "missing parts", func() error {
		own, err := p.H.GenIdOwnershipGenesisInputs(idw.OwnLevels)
		if err != nil {
			return err
		}
		v, err := p.H.HolderGetCredentialValidityData(ce)
		if err != nil {
			return err
		}
		for bits := 0; bits < 1<<8; bits++ {
			e, a := *ce, *v
			for i, f := range []func(){
				func() { e.Claim = nil }, func() { e.MtpClaim = nil },
				func() { a.IdenStateData = nil }, func() { a.MtpNotNonce = nil }, func() { a.ClaimsTreeRoot = nil },
				func() { a.RevTreeRoot = nil }, func() { a.RootsTreeRoot = nil }, func() { a.PublicData = nil },
			} {
				if bits>>uint(i)&1 != 0 {
					f()
				}
			}
			if err := mcx.Protect(func() error {
				in, err := p.H.HolderGetCredentialProofInputs(own, &e, &a, idw.IssLevels)
				if (err == nil) != (bits == 0) || (in == nil) != (err != nil) {
					return fmt.Errorf("%v %v", in, err)
				}
				if bits>>2 == 0 {
					out, err := p.H.HolderGenZkProofCredential(&e, func(in map[string]interface{}) error { return errors.New("stop") }, idw.OwnLevels, idw.IssLevels, files)
					if err == nil || out != nil {
						return fmt.Errorf("a proof out of nothing")
					}
				}
				return nil
			}); err != nil {
				return fmt.Errorf("missing parts %08b: %v", bits, err)
			}
		}
		return nil
	})
}

// badArtefact: nothing is proved or accepted with artefacts of which the i-th
// is bad, however often it is tried; with good ones it is.
func badArtefact(p *idw.Pair, ce *proof.CredentialExistence, i int, what string) error {
	mk := func(circuit, other string, bad bool) *zkutils.ZkFiles {
		m := map[string][]byte{}
		for j, n := range idw.Artefacts {
			m[n] = idw.Artefact(j, circuit)
		}
		n := idw.Artefacts[i]
		if bad {
			switch what {
			case "empty":
				m[n] = []byte{}
			case "not JSON":
				m[n] = []byte("{\"")
			case "of another circuit":
				m[n] = idw.Artefact(i, other)
			}
		}
		dir := fmt.Sprintf("bad-%s-%d-%s-%v", circuit, i, strings.ReplaceAll(what, " ", ""), bad)
		f := idw.FilesOf(dir, m, true)
		if bad {
			fn := filepath.Join(world.Scratch(), dir, n)
			var err error
			switch what {
			case "missing":
				err = os.Remove(fn)
			case "changed":
				err = ioutil.WriteFile(fn, idw.Artefact(i, other), 0600)
			}
			if err != nil {
				panic(err)
			}
		}
		return f
	}
	var cl []*big.Int
	for j := range ce.Claim.Data {
		cl = append(cl, idw.LE(ce.Claim.Data[j][:]))
	}
	var made *holder.ZkProofCredOut
	cred := func(f *zkutils.ZkFiles) error {
		out, err := p.H.HolderGenZkProofCredential(ce, func(in map[string]interface{}) error {
			in["claim"] = cl
			return nil
		}, idw.OwnLevels, idw.IssLevels, f)
		if (err == nil) != (out != nil) {
			return mcx.Sigf("half", "a proof %v along with error %v", out, err)
		}
		if err == nil {
			made = out
		}
		return err
	}
	w := p.Ws[0]
	conf := func(f *zkutils.ZkFiles) *issuer.IdenStateZkProofConf {
		k := &issuer.IdenStateZkProofConf{Levels: idw.OwnLevels}
		setFiles(&k.Files, f)
		return k
	}
	st := w.M.States[len(w.M.States)-1].State
	var upd *issuer.Issuer
	update := func() error {
		a, b := st, st
		out, err := upd.GenZkProofIdenStateUpdate(&a, &b)
		if (err == nil) != (out != nil) {
			return mcx.Sigf("half", "a proof %v along with error %v", out, err)
		}
		return err
	}
	check := func(f *zkutils.ZkFiles) error {
		return verifier.New(&idw.Multi{Ws: p.Ws}).VerifyZkProofCredential(&made.ZkProofOut.Proof, made.ZkProofOut.PubSignals, made.IssuerID, made.IdenStateBlockN, f, math.MaxInt64)
	}
	for _, bad := range []bool{false, true} {
		cf, vf, sf := mk("cred", "idstate", bad), mk("cred", "idstate", bad), mk("idstate", "cred", bad)
		var err error
		upd, err = issuer.Load(w.Disk.Clone().Storage(), w.Key.Store, &w.Net, conf(sf), w.Off)
		if err != nil && !bad {
			return err
		}
		if err == nil {
			if err := update(); (err != nil) != bad {
				return fmt.Errorf("a state update proof of a published identity, with bad artefacts: %v, ended with: %v", bad, err)
			}
		}
		// an identity that does not publish takes the artefacts when it needs them
		cfg := issuer.ConfigDefault
		cfg.GenesisOnly = true
		disk := world.NewDisk()
		if _, err := issuer.Create(cfg, &w.Key.Comp, nil, disk.Storage(), w.Key.Store); err != nil {
			return err
		}
		if upd, err = issuer.Load(disk.Storage(), w.Key.Store, &w.Net, conf(mk("idstate", "cred", bad)), w.Off); err != nil {
			return err
		}
		for try := 0; try < 2; try++ {
			for _, x := range []struct {
				what string
				do   func() error
				bad  bool
			}{
				{"a credential proof", func() error { return cred(cf) }, bad},
				{"a state update proof", update, bad},
				// the verifier needs only the verification key
				{"a verification", func() error { return check(vf) }, bad && i == 1},
			} {
				var err error
				if e := mcx.Protect(func() error { err = x.do(); return nil }); e != nil {
					return fmt.Errorf("%s, with bad artefacts: %v: %v", x.what, bad, e)
				}
				if _, ok := err.(*mcx.SigError); ok {
					return fmt.Errorf("%s, with bad artefacts: %v: %v", x.what, bad, err)
				}
				if (err != nil) != x.bad {
					return fmt.Errorf("%s, with bad artefacts: %v, ended with: %v", x.what, bad, err)
				}
			}
		}
	}
	// artefacts that go bad after they were loaded; only the proving key is
	// read again, and only if it is not kept
	for _, cache := range []bool{false, true} {
		mk := func(circuit string) (*zkutils.ZkFiles, string) {
			m := map[string][]byte{}
			for j, n := range idw.Artefacts {
				m[n] = idw.Artefact(j, circuit)
			}
			dir := fmt.Sprintf("later-%s-%d-%s-%v", circuit, i, strings.ReplaceAll(what, " ", ""), cache)
			return idw.FilesOf(dir, m, cache), filepath.Join(world.Scratch(), dir, idw.Artefacts[i])
		}
		cf, cfn := mk("cred")
		sf, sfn := mk("idstate")
		if err := cf.LoadAll(); err != nil {
			return err
		}
		var err error
		if upd, err = issuer.Load(w.Disk.Clone().Storage(), w.Key.Store, &w.Net, conf(sf), w.Off); err != nil {
			return err
		}
		for try := 0; try < 4; try++ {
			if try == 1 {
				for fn, other := range map[string]string{cfn: "idstate", sfn: "cred"} {
					b := []byte(nil)
					switch what {
					case "missing":
						if err := os.Remove(fn); err != nil {
							panic(err)
						}
						continue
					case "not JSON":
						b = []byte("{\"")
					case "of another circuit", "changed":
						b = idw.Artefact(i, other)
					}
					if err := ioutil.WriteFile(fn, b, 0600); err != nil {
						panic(err)
					}
				}
			}
			if try == 3 { // they are good again
				for fn, circuit := range map[string]string{cfn: "cred", sfn: "idstate"} {
					if err := ioutil.WriteFile(fn, idw.Artefact(i, circuit), 0600); err != nil {
						panic(err)
					}
				}
			}
			want := (try == 1 || try == 2) && i == 0 && !cache
			for k, do := range []func() error{func() error { return cred(cf) }, update} {
				var err error
				if e := mcx.Protect(func() error { err = do(); return nil }); e != nil {
					return fmt.Errorf("proof %d, artefacts going bad (try %d, kept: %v): %v", k, try, cache, e)
				}
				either := (try == 1 || try == 2) && !want // kept or not
				if _, ok := err.(*mcx.SigError); ok || (err != nil) != want && !either {
					return fmt.Errorf("proof %d, artefacts going bad (try %d, kept: %v) ended with: %v", k, try, cache, err)
				}
			}
		}
	}
	return nil
}

var _ = reflect.DeepEqual

func main() {
	vposeidon.Fast = true
	logrus.SetOutput(ioutil.Discard)
	defer world.CleanScratch()
	mcx.Quiet()
	mcx.Main("C32", "model_checking", func(c *mcx.Ctx) {
		c.Rule("ownership inputs of every identity with up to 4 (6) genesis claims of three kinds, and with many, for every circuit depth; state updates between all pairs of states of two identities at several depths; and a breadth-first search over histories of two issuers where after every publication the inputs are prepared for every credential with all validity data ever got, at every depth around the one needed, with all mixtures of two sets of data, forged and recombined credentials, and other proofs of absence; each is checked against the circuits' relation written independently. Proofs made end to end are verified with every issuer, block, signal, clock and other proof.")
		c.Assume("the circuits prove the relation in idw/circuits.go; the proof system is a stand-in that accepts exactly the proofs of satisfied relations, with signals counted modulo the group order as the real one does")
		idw.TheZk()
		signals(c)
		updates(c)
		ownership(c)
		for _, k := range []struct {
			n     string
			kinds []int
			depth int
		}{{"about the holder", []int{2, 0, 2}, c.Pick(5, 7)}, {"several kinds", []int{2, 2, 3, 1}, c.Pick(5, 6)}} {
			k := k
			c.BFS(mcx.BFS{Name: k.n, New: func() (mcx.Sys, error) {
				p, err := idw.NewPair()
				if err != nil {
					return nil, err
				}
				p.Kinds = nil
				for _, i := range k.kinds {
					p.Kinds = append(p.Kinds, idw.ClaimKinds[i])
				}
				return &sys{p: p, c: c}, nil
			}, Depth: k.depth})
		}
	})
}
