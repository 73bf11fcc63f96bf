// C17: the genesis identifier binds the operational key and genesis claims.
package main

import (
	"fmt"

	"github.com/iden3/go-iden3-core/core"
	"github.com/iden3/go-iden3-core/core/claims"
	"github.com/iden3/go-iden3-core/core/genesis"
	"github.com/iden3/go-iden3-core/identity/holder"
	"github.com/iden3/go-iden3-core/identity/issuer"
	"github.com/iden3/go-iden3-core/merkletree"
	"verif/mc/idw"
	"verif/mc/mcx"
	"verif/mc/vposeidon"
	"verif/mc/world"
)

// the alphabet of genesis claims
var kinds = []string{"a", "b", "a'", "x", "o", "k2", "big"}

func claim(n string, prior uint32) claims.Claimer {
	var c *idw.Claim
	switch n {
	case "a":
		c = idw.NewClaim(1, 1)
	case "b":
		c = idw.NewClaim(2, 1)
	case "a'":
		c = idw.NewClaim(1, 2)
	case "x":
		c = idw.NewExpiring(1, 1, 77)
	case "o":
		c = idw.NewAbout(1, 1, core.NewID([2]byte{0, 0}, [27]byte{1, 2, 3}))
	case "big":
		c = &idw.Claim{Md: idw.NewClaim(4, 4).Md, I: 4, V: 4, Big: true}
	case "k2":
		k := claims.NewClaimKeyBabyJub(idw.TheKey(2).Pub, claims.BabyJubKeyTypeAuthorizeKSign)
		k.Metadata().RevNonce = prior
		return k
	}
	c.Md.RevNonce = prior
	return c
}

// data is the independent encoding with the nonce it must get.
func data(n string, nonce uint32) merkletree.Data {
	if n == "k2" {
		p := idw.TheKey(2).Pub
		return idw.KOpData(p.X, p.Y, nonce)
	}
	c := claim(n, nonce).(*idw.Claim)
	return c.Data()
}

func lists(depth int) (r [][]string) {
	var rec func(p []string)
	rec = func(p []string) {
		r = append(r, append([]string{}, p...))
		if len(p) == depth {
			return
		}
		for _, k := range kinds {
			rec(append(p, k))
		}
	}
	rec(nil)
	return
}

type expect struct {
	id    core.ID
	ok    bool
	clr   merkletree.Hash
	ror   merkletree.Hash
	state merkletree.Hash
	tree  *world.RefTree
	kop   merkletree.Hash
}

func model(key byte, l []string, levels int) (e expect) {
	p := idw.TheKey(key).Pub
	t := world.NewRefTree(levels)
	d := idw.KOpData(p.X, p.Y, 0)
	e.kop = world.RefHi(&d)
	ok := t.Add(&d) == world.AddOK
	for i, n := range l {
		d := data(n, uint32(i+1))
		ok = ok && t.Add(&d) == world.AddOK
	}
	if !ok {
		return
	}
	e.ok, e.tree = true, t
	e.clr = t.Root()
	rt := world.NewRefTree(140)
	rl := idw.RootLeaf(e.clr)
	rt.Add(&rl)
	e.ror = rt.Root()
	e.state = idw.RefState(e.clr, merkletree.HashZero, e.ror)
	e.id = core.ID(idw.RefID(e.state))
	return
}

func one(key byte, l []string, levels int) (core.ID, bool, error) {
	e := model(key, l, levels)
	k := idw.TheKey(key)
	mk := func(prior uint32) []claims.Claimer {
		r := []claims.Claimer{}
		for _, n := range l {
			r = append(r, claim(n, prior))
		}
		return r
	}
	// storage-backed, whatever the claims' metadata held before
	for _, prior := range []uint32{0, 7, 0xffffffff} {
		for _, hold := range []bool{false, true} {
			d := world.NewDisk()
			cfg := idw.Cfg(0)
			cfg.MaxLevelsClaimsTree = levels
			cs := mk(prior)
			var id *core.ID
			var err error
			if hold {
				hc := holder.ConfigDefault
				hc.MaxLevelsClaimsTree = levels
				id, err = holder.Create(hc, &k.Comp, cs, d.Storage(), k.Store)
			} else {
				id, err = issuer.Create(cfg, &k.Comp, cs, d.Storage(), k.Store)
			}
			if (err == nil) != e.ok {
				return e.id, false, fmt.Errorf("creating (prior nonce %d, holder %v): %v, the model accepts: %v", prior, hold, err, e.ok)
			}
			if err != nil {
				if len(d.KV) > 0 {
					if _, err := issuer.Load(d.Storage(), k.Store, idw.NewChain(), idw.TheZk().Conf, idw.NewOff("")); err == nil {
						return e.id, false, fmt.Errorf("a refused creation left an identity")
					}
				}
				continue
			}
			if *id != e.id {
				return e.id, false, fmt.Errorf("creating (prior nonce %d, holder %v): identifier %v, that of the genesis state is %v", prior, hold, id, &e.id)
			}
			for j, c := range cs {
				if c.Metadata().RevNonce != uint32(j+1) {
					return e.id, false, fmt.Errorf("genesis claim %d has nonce %d", j, c.Metadata().RevNonce)
				}
			}
			var is *issuer.Issuer
			if hold {
				h, err := holder.Load(d.Storage(), k.Store, nil, nil, nil, nil)
				if err != nil {
					return e.id, false, err
				}
				is = h.Issuer
			} else if is, err = issuer.Load(d.Storage(), k.Store, idw.NewChain(), idw.TheZk().Conf, idw.NewOff("")); err != nil {
				return e.id, false, err
			}
			s, r := is.State()
			if *is.ID() != e.id || *s != e.state || *r.ClaimsTreeRoot != e.clr || *r.RootsTreeRoot != e.ror || *r.RevocationsTreeRoot != merkletree.HashZero {
				return e.id, false, fmt.Errorf("the loaded identity has %v, state %v, roots %v; want %v %v", is.ID(), s, r, &e.id, e.state)
			}
			if *is.KeyOperational() != k.Comp {
				return e.id, false, fmt.Errorf("the loaded identity has another operational key")
			}
			depth := e.tree.Depth(e.kop)
			for lv := 0; lv <= 9; lv++ {
				in, err := is.GenIdOwnershipGenesisInputs(lv)
				if err != nil {
					if lv >= depth {
						return e.id, false, fmt.Errorf("ownership inputs for %d levels: %v", lv, err)
					}
					continue
				}
				if lv < depth {
					return e.id, false, fmt.Errorf("ownership inputs for %d levels although the proof is longer", lv)
				}
				if len(in.MtpSiblings) != lv+1 {
					return e.id, false, fmt.Errorf("%d siblings for %d levels", len(in.MtpSiblings), lv)
				}
				if in.ClaimsTreeRoot.Cmp(idw.LE(e.clr[:])) != 0 || in.Id.Cmp(idw.LE(e.id[:])) != 0 {
					return e.id, false, fmt.Errorf("ownership inputs name another identity or claims root")
				}
				if err := idw.Ownership(in.Id, in.PrivateKey, in.MtpSiblings, in.ClaimsTreeRoot); err != nil {
					return e.id, false, fmt.Errorf("ownership inputs for %d levels: %v", lv, err)
				}
			}
		}
	}
	// direct
	if levels == 140 {
		cs := mk(0)
		es := []merkletree.Entrier{}
		for i, c := range cs {
			c.Metadata().RevNonce = uint32(i + 1)
			es = append(es, c)
		}
		kop := claims.NewClaimKeyBabyJub(k.Pub, claims.BabyJubKeyTypeAuthorizeKSign)
		id, err := genesis.CalculateIdGenesis(kop, es)
		if (err == nil) != e.ok || err == nil && *id != e.id {
			return e.id, false, fmt.Errorf("calculated directly: %v %v, want %v %v", id, err, &e.id, e.ok)
		}
	}
	return e.id, e.ok, nil
}

func main() {
	vposeidon.Fast = true
	defer world.CleanScratch()
	mcx.Main("C17", "model-checking", func(c *mcx.Ctx) {
		c.Rule("all keys and all lists of genesis claims up to the bound (repeated, reordered, invalid, of several kinds, with arbitrary prior nonces), created through issuer, holder and directly: identifier, state, recorded roots, nonces and ownership inputs against an independent computation; all identifiers pairwise different")
		ls := lists(c.Pick(4, 5))
		for _, lv := range []int{140, 3} {
			lv := lv
			for _, key := range []byte{1, 2, 3} {
				key := key
				if lv != 140 && key != 1 {
					continue
				}
				ids := make([]core.ID, len(ls))
				oks := make([]bool, len(ls))
				c.Each(fmt.Sprintf("key %d, %d levels", key, lv), len(ls), func(i int) string { return fmt.Sprint(ls[i]) }, func(i int) error {
					id, ok, err := one(key, ls[i], lv)
					ids[i], oks[i] = id, ok
					return err
				})
				c.Case("distinct", fmt.Sprintf("key %d, %d levels", key, lv), func() error {
					seen := map[core.ID]int{}
					for i := range ids {
						if !oks[i] {
							continue
						}
						if j, dup := seen[ids[i]]; dup {
							return fmt.Errorf("claims %v and %v give the same identifier", ls[i], ls[j])
						}
						seen[ids[i]] = i
						all.add(ids[i], fmt.Sprintf("key %d %v", key, ls[i]), lv)
					}
					return all.err
				})
			}
		}
		c.DistinctN(len(ls) * 4)
	})
}

type pool struct {
	m   map[core.ID]string
	err error
}

func (p *pool) add(id core.ID, s string, lv int) {
	if lv != 140 {
		return
	}
	if o, ok := p.m[id]; ok && p.err == nil {
		p.err = fmt.Errorf("%s and %s give the same identifier", o, s)
	}
	p.m[id] = s
}

var all = &pool{m: map[core.ID]string{}}
