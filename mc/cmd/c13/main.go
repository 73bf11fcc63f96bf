// C13: issuers hand out credentials exactly for claims under the on-chain state.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"

	"github.com/iden3/go-iden3-core/components/verifier"
	"github.com/iden3/go-iden3-core/core/proof"
	"github.com/iden3/go-iden3-core/identity/issuer"
	"github.com/iden3/go-iden3-core/merkletree"
	"verif/mc/idw"
	"verif/mc/mcx"
	"verif/mc/vposeidon"
	"verif/mc/world"
)

type sys struct {
	w     *idw.World
	v     *verifier.Verifier
	names []string
	old   []*proof.CredentialExistence
	seen  map[string]bool
}

func claim(n string) *idw.Claim {
	switch n {
	case "a":
		return idw.NewClaim(1, 1)
	case "a'":
		return idw.NewClaim(1, 2)
	case "b":
		return idw.NewExpiring(2, 1, 50)
	case "c":
		return idw.NewClaim(3, 1)
	}
	return idw.NewClaim(5, 1) // the genesis claim g
}

func issued(m *idw.Model, n string) *idw.Issued {
	d := claim(n).Data()
	h := world.RefHi(&d)
	return m.Issued[string(h[:])]
}

func (s *sys) Ops() []string {
	ops := []string{}
	for _, n := range s.names {
		if issued(s.w.M, n) == nil {
			ops = append(ops, "issue "+n)
			break
		}
	}
	for _, n := range []string{"a", "b", "g"} {
		if is := issued(s.w.M, n); is != nil && !is.Revoked {
			ops = append(ops, "revoke "+n)
		}
	}
	ops = append(ops, "pub", "sync", "reload")
	if s.w.Chain.Waiting() > 0 {
		ops = append(ops, "mine")
	}
	return ops
}

// entries lists the entries asked about: those issued, altered ones, others.
func (s *sys) entries() map[string]merkletree.Data {
	r := map[string]merkletree.Data{}
	for _, n := range append([]string{"a'", "g"}, s.names...) {
		c := claim(n)
		d := c.Data()
		r[n+" nonce 0"] = d
		if is := issued(s.w.M, n); is != nil {
			d[4] = is.Data[4]
			r[n] = d
			e := d
			e[7][0]++
			r[n+" other value"] = e
			e = d
			e[3][0]++
			r[n+" other index"] = e
			e = d
			e[4][0]++
			r[n+" other nonce"] = e
		}
	}
	return r
}

func want(m *idw.Model, d merkletree.Data) error {
	if *m.OnChain.IdenState == merkletree.HashZero {
		return issuer.ErrIdenStateOnChainZero
	}
	h := world.RefHi(&d)
	if x, ok := m.OnRec.Claims.Entries[h]; ok && x == d {
		return nil
	}
	if x, ok := m.Claims.Entries[h]; ok && x == d {
		return issuer.ErrClaimNotYetInOnChainState
	}
	return issuer.ErrClaimNotFoundClaimsTree
}

func (s *sys) collect(check bool) error {
	m := s.w.M
	for n, d := range s.entries() {
		w := want(m, d)
		if w != nil && !check {
			continue
		}
		k := fmt.Sprintf("%s %x", n, *m.OnChain.IdenState)
		if s.seen[k] && !check {
			continue
		}
		e := idw.NewRaw(d)
		c, err := s.w.Iss.GenCredentialExistence(e)
		if err != w {
			return fmt.Errorf("credential for %s: answered %v, want %v", n, err, w)
		}
		if w != nil {
			continue
		}
		if check {
			if *c.Id != m.Id || *c.IdenStateData.IdenState != *m.OnChain.IdenState || c.IdenStateData.BlockN != m.OnChain.BlockN ||
				c.IdenStateData.BlockTs != m.OnChain.BlockTs || c.Claim.Data != d || c.IdenPubUrl != s.w.Off.Link ||
				*c.RevocationsTreeRoot != m.OnRec.Rer || *c.RootsTreeRoot != m.OnRec.Ror {
				return fmt.Errorf("the credential for %s does not state what was asked", n)
			}
		}
		if !s.seen[k] {
			s.seen[k] = true
			// keep it as its recipient has it
			b, err := json.Marshal(c)
			if err != nil {
				return err
			}
			var x proof.CredentialExistence
			if err := json.Unmarshal(b, &x); err != nil {
				return fmt.Errorf("the credential for %s cannot be read back: %v", n, err)
			}
			b2, err := json.Marshal(&x)
			if err != nil || !bytes.Equal(b, b2) {
				return fmt.Errorf("the credential for %s changes when read back", n)
			}
			if err := s.v.VerifyCredentialExistence(c); err != nil {
				return fmt.Errorf("the credential for %s: %v", n, err)
			}
			s.old = append(s.old, &x)
		}
	}
	if check {
		for i, c := range s.old {
			if err := s.v.VerifyCredentialExistence(c); err != nil {
				return fmt.Errorf("credential %d given earlier (state %v): %v", i, c.IdenStateData.IdenState, err)
			}
		}
	}
	return nil
}

func (s *sys) Do(op string, full bool) error {
	w := s.w
	var err error
	switch op {
	case "pub":
		err = w.Publish(idw.PubEnv{})
	case "mine":
		w.Chain.Mine()
	case "sync":
		err = w.Sync(idw.SyncEnv{})
	case "reload":
		err = w.Reload(idw.SyncEnv{})
	default:
		if op[:5] == "issue" {
			err = w.Issue(claim(op[6:]))
		} else {
			err = w.Revoke(claim(op[7:]))
		}
	}
	if err != nil {
		return err
	}
	return s.collect(full)
}

func (s *sys) Key() string {
	k := s.w.M.Key()
	for _, t := range s.w.Chain.Txs {
		k += fmt.Sprintf(" %x:%d", t.New[:4], t.Status)
	}
	return k
}

func (s *sys) Close() {}

func main() {
	vposeidon.Fast = true
	defer world.CleanScratch()
	mcx.Main("C13", "model-checking", func(c *mcx.Ctx) {
		c.Rule("exhaustive breadth-first search over histories of issuing, revoking, publishing, mining, synchronising and restarting; at every state credentials are asked for every issued, altered and never issued claim and compared with the reference (given exactly for entries under the on-chain record; otherwise the right reason); every credential ever given, as read back by its recipient, is verified at every later state")
		for _, f := range []struct {
			name  string
			names []string
			extra []*idw.Claim
			depth int
		}{
			{"two claims", []string{"a", "b"}, nil, c.Pick(10, 14)},
			{"genesis claim", []string{"a", "b", "c"}, []*idw.Claim{claim("g")}, c.Pick(9, 12)},
		} {
			f := f
			c.BFS(mcx.BFS{Name: f.name, New: func() (mcx.Sys, error) {
				extra := []*idw.Claim{}
				for range f.extra {
					extra = append(extra, claim("g"))
				}
				w, err := idw.NewWorld(1, extra, 0)
				if err != nil {
					return nil, err
				}
				return &sys{w: w, v: verifier.New(&w.Net), names: f.names, seen: map[string]bool{}}, nil
			}, Depth: f.depth})
		}
	})
}
