// C10: identity publication follows its state machine for every chain answer.
package main

import (
	"fmt"

	"github.com/iden3/go-iden3-core/merkletree"
	"verif/mc/idw"
	"verif/mc/mcx"
	"verif/mc/vposeidon"
	"verif/mc/world"
)

type sys struct {
	w     *idw.World
	alien byte
	reorg int
	mine  int
}

func claim(n string) *idw.Claim {
	switch n {
	case "a":
		return idw.NewClaim(1, 1)
	case "b":
		return idw.NewClaim(2, 1)
	case "c":
		return idw.NewClaim(3, 1)
	}
	return idw.NewClaim(1, 2) // same index as a
}

func (s *sys) Ops() []string {
	w, m := s.w, s.w.M
	ops := []string{}
	for _, n := range []string{"a", "b", "c"} {
		d := claim(n).Data()
		if m.Claims.Verdict(&d) == world.AddOK {
			ops = append(ops, "issue "+n)
			break
		}
	}
	if len(m.Issued) > 1 {
		ops = append(ops, "issue a'", "revoke a")
	}
	ops = append(ops, "pub", "pub refused", "pub lost", "pub offfail", "sync", "sync noconfirm", "sync nostate", "reload", "reload nostate")
	if w.Chain.Waiting() > 0 {
		ops = append(ops, "mine", "revert", "drop")
	}
	if len(w.Chain.Txs) > 0 {
		ops = append(ops, "block")
	}
	if s.alien < 1 {
		ops = append(ops, "alien")
	}
	if len(w.Chain.Hist[m.Id]) > 0 && s.reorg < 1 {
		ops = append(ops, "reorg")
	}
	return ops
}

func (s *sys) Do(op string, full bool) error {
	w := s.w
	var err error
	switch op {
	case "issue a", "issue b", "issue c", "issue a'":
		err = w.Issue(claim(op[6:]))
	case "revoke a":
		err = w.Revoke(claim("a"))
	case "pub":
		err = w.Publish(idw.PubEnv{})
	case "pub refused":
		err = w.Publish(idw.PubEnv{Reject: true})
	case "pub lost":
		err = w.Publish(idw.PubEnv{Lost: true})
	case "pub offfail":
		err = w.Publish(idw.PubEnv{Off: true})
	case "sync":
		err = w.Sync(idw.SyncEnv{})
	case "sync noconfirm":
		err = w.Sync(idw.SyncEnv{NetConfirm: true})
	case "sync nostate":
		err = w.Sync(idw.SyncEnv{NetState: true})
	case "reload":
		err = w.Reload(idw.SyncEnv{})
	case "reload nostate":
		err = w.Reload(idw.SyncEnv{NetState: true})
	case "mine":
		w.Chain.Mine()
	case "revert":
		w.Chain.MineFail()
	case "drop":
		for _, t := range w.Chain.Txs {
			if t.Status == idw.TxPending {
				t.Status = idw.TxDropped
			}
		}
	case "block":
		w.Chain.Blocks(1)
	case "alien":
		s.alien++
		w.Chain.Block++
		w.Chain.Record(w.M.Id, merkletree.Hash{9, s.alien})
	case "reorg":
		s.reorg++
		h := w.Chain.Hist[w.M.Id]
		w.Chain.Hist[w.M.Id] = h[:len(h)-1]
	}
	if err != nil {
		return err
	}
	if err := w.M.Show(w.Iss); err != nil {
		return err
	}
	if full {
		// what is stored is what is shown
		d := w.Disk
		w.Disk = d.Clone()
		defer func() { w.Disk = d }()
		live := w.Iss
		if err := w.Again(); err != nil {
			return err
		}
		got := w.M.Show(w.Iss)
		w.Iss = live
		if got != nil {
			return fmt.Errorf("after a restart: %v", got)
		}
	}
	return nil
}

func (s *sys) Key() string {
	w := s.w
	k := fmt.Sprintf("%s | alien%d reorg%d |", w.M.Key(), s.alien, s.reorg)
	for _, t := range w.Chain.Txs {
		age := "-"
		if t.Status == idw.TxOK {
			a := w.Chain.Block - t.Block
			if a > 4 {
				a = 4
			}
			age = fmt.Sprint(a)
		}
		k += fmt.Sprintf(" %x:%d:%s", t.New[:4], t.Status, age)
	}
	for _, h := range w.Chain.Hist[w.M.Id] {
		k += fmt.Sprintf(" h%x", h.IdenState[:4])
	}
	return k
}

func (s *sys) Close() {}

func main() {
	vposeidon.Fast = true
	defer world.CleanScratch()
	mcx.Main("C10", "model-checking", func(c *mcx.Ctx) {
		c.Rule("exhaustive breadth-first search over histories of issuing, revoking, publishing, synchronising and restarting the real issuer against a chain and an off-chain store that give every answer (refusal, lost answer, off-chain failure, no receipt, reverted or dropped transaction, few confirmations, old, new and foreign state, network errors); after each step state, roots, pending and on-chain record, submissions with their proofs, publications and the error are compared with the reference state machine, and so is an identity loaded from what is stored")
		c.BFS(mcx.BFS{Name: "publication", New: func() (mcx.Sys, error) {
			w, err := idw.NewWorld(1, nil, 1)
			return &sys{w: w}, err
		}, Depth: c.Pick(7, 10)})
		c.BFS(mcx.BFS{Name: "publication of an identity with genesis claims, three confirmations", New: func() (mcx.Sys, error) {
			w, err := idw.NewWorld(2, []*idw.Claim{idw.NewClaim(1, 1), idw.NewClaim(5, 1)}, 3)
			return &sys{w: w}, err
		}, Depth: c.Pick(6, 8)})
		after := func(confirm uint64, ops ...string) func() (mcx.Sys, error) {
			return func() (mcx.Sys, error) {
				w, err := idw.NewWorld(3, nil, confirm)
				if err != nil {
					return nil, err
				}
				s := &sys{w: w}
				for _, op := range ops {
					if err := s.Do(op, false); err != nil {
						return nil, fmt.Errorf("%s: %w", op, err)
					}
				}
				return s, nil
			}
		}
		once := []string{"issue a", "pub", "mine", "block", "block", "sync"}
		twice := append(append([]string{}, once...), "issue b", "revoke a", "pub", "mine", "block", "block", "sync", "reload")
		c.BFS(mcx.BFS{Name: "second publication", New: after(2, once...), Depth: c.Pick(6, 9)})
		c.BFS(mcx.BFS{Name: "third publication", New: after(2, twice...), Depth: c.Pick(5, 8)})
	})
}
