// C11: a crashed identity resumes without losing or inventing anything.
package main

import (
	"errors"
	"fmt"

	"github.com/iden3/go-iden3-core/core"
	"github.com/iden3/go-iden3-core/identity/holder"
	"github.com/iden3/go-iden3-core/identity/issuer"
	"github.com/iden3/go-iden3-core/merkletree"
	"verif/mc/idw"
	"verif/mc/mcx"
	"verif/mc/vposeidon"
	"verif/mc/world"
)

type sys struct {
	c *mcx.Ctx
	w *idw.World
}

func claim(n string) *idw.Claim {
	if n == "a" {
		return idw.NewClaim(1, 1)
	}
	return idw.NewClaim(2, 1)
}

func has(m *idw.Model, n string) *idw.Issued {
	d := claim(n).Data()
	h := world.RefHi(&d)
	return m.Issued[string(h[:])]
}

func (s *sys) Ops() []string {
	ops := []string{}
	for _, n := range []string{"a", "b"} {
		ops = append(ops, "issue "+n)
		if has(s.w.M, n) == nil {
			break
		}
	}
	ops = append(ops, "revoke a", "pub", "sync", "reload", "cred a")
	if s.w.Chain.Waiting() > 0 {
		ops = append(ops, "mine", "revert")
	}
	return ops
}

// act performs op; the claim is returned to know its nonce.
func act(w *idw.World, op string) (*idw.Claim, error) {
	switch op[:3] {
	case "iss":
		c := claim(op[6:])
		c.Md.RevNonce = 0xabcd0000
		return c, w.Iss.IssueClaim(c)
	case "rev":
		if op == "revert" {
			w.Chain.MineFail()
			return nil, nil
		}
		return nil, w.Iss.RevokeClaim(claim(op[7:]))
	case "pub":
		return nil, w.Iss.PublishState()
	case "syn":
		return nil, w.Iss.SyncIdenStatePublic()
	case "rel":
		is, err := w.Load(w.Disk)
		if err == nil {
			w.Iss = is
			return nil, nil
		}
		// the process ends and starts again later
		f, n := w.Disk.Fault, w.Disk.Faults
		w.Disk.Fault = nil
		if e := w.Again(); e != nil {
			return nil, fmt.Errorf("cannot be loaded any more: %v", e)
		}
		w.Disk.Fault, w.Disk.Faults = f, n
		return nil, err
	case "cre":
		c := claim(op[5:])
		if is := has(w.M, op[5:]); is != nil {
			c.Md.RevNonce = is.Nonce
		}
		_, err := w.Iss.GenCredentialExistence(c)
		return c, err
	case "min":
		w.Chain.Mine()
	}
	return nil, nil
}

// cred is the expected answer to a credential request.
func cred(m *idw.Model, n string) error {
	if *m.OnChain.IdenState == merkletree.HashZero {
		return issuer.ErrIdenStateOnChainZero
	}
	if is := has(m, n); is == nil {
		return issuer.ErrClaimNotFoundClaimsTree
	} else if h := world.RefHi(&is.Data); m.OnRec.Claims.Entries[h] != is.Data {
		return issuer.ErrClaimNotYetInOnChainState
	}
	return nil
}

var errAny = errors.New("an error")

// final applies op to the model given its outcome without faults.
func final(w *idw.World, m *idw.Model, op string, c *idw.Claim, err error) error {
	switch op[:3] {
	case "iss":
		return m.Issue(c, 0xabcd0000, err)
	case "rev":
		if op == "revert" {
			return nil
		}
		return m.Revoke(claim(op[7:]).Data(), err)
	case "pub":
		return idw.Same(err, m.Publish(idw.PubEnv{}), "publishing")
	case "syn", "rel":
		return idw.Same(err, m.Sync(w.Chain, idw.SyncEnv{}), op)
	case "cre":
		return idw.Same(err, cred(m, op[5:]), "credential")
	}
	return nil
}

// steps lists the models at which op may stop, the full effect last.
func steps(w *idw.World, m *idw.Model, op string, c *idw.Claim, full *idw.Model) []*idw.Model {
	if op == "pub" {
		return m.PublishSteps()
	}
	if full == nil {
		return []*idw.Model{m.Clone()}
	}
	return []*idw.Model{m.Clone(), full.Clone()}
}

// filter keeps the models that agree with what the identity shows, live and
// from what is stored.
func filter(w *idw.World, ms []*idw.Model) ([]*idw.Model, error) {
	var keep []*idw.Model
	var first error
	live := w.Iss
	for _, m := range ms {
		if err := w.ShowAll(m); err != nil {
			first = fmt.Errorf("%v [%s]", err, m.Key())
			continue
		}
		// reload with a chain that confirms the record
		w.M = m
		d := w.Disk
		w.Disk = d.Clone()
		err := w.Again()
		w.Disk = d
		if err == nil {
			err = m.Show(w.Iss)
		}
		w.Iss = live
		if err != nil {
			first = fmt.Errorf("restarted: %v [%s]", err, m.Key())
			continue
		}
		keep = append(keep, m)
	}
	if len(keep) == 0 {
		return nil, first
	}
	return keep, nil
}

// do performs op without faults on a set of possible models.
func do(w *idw.World, ms []*idw.Model, op string) ([]*idw.Model, error) {
	w.M = ms[0]
	c, err := act(w, op)
	var next []*idw.Model
	var bad error
	for _, m := range ms {
		n := m.Clone()
		if e := final(w, n, op, c, err); e != nil {
			bad = e
			continue
		}
		next = append(next, n)
	}
	if len(next) == 0 {
		return nil, fmt.Errorf("%s: %v", op, bad)
	}
	next, bad = filter(w, next)
	if bad != nil {
		return nil, fmt.Errorf("%s: %v", op, bad)
	}
	return next, nil
}

// resume repeats op and brings the identity to a published state.
func resume(w *idw.World, ms []*idw.Model, op string) error {
	var err error
	if ms, err = do(w, ms, op); err != nil {
		return fmt.Errorf("repeating: %v", err)
	}
	for i := 0; i < 4; i++ {
		for _, o := range []string{"pub", "mine", "sync"} {
			if ms, err = do(w, ms, o); err != nil {
				return fmt.Errorf("continuing (round %d): %v", i+1, err)
			}
		}
	}
	m := ms[0]
	now := m.Now().State
	last := m.States[len(m.States)-1].State
	if now != last || m.Pending != nil || m.Owed != nil || len(m.States) > 1 && *m.OnChain.IdenState != last {
		return fmt.Errorf("after four rounds of publishing, mining and synchronising: %s", m.Key())
	}
	if len(m.States) > 1 {
		if _, ok := w.Off.Data[m.Id][last]; !ok {
			return fmt.Errorf("the public data of the state on chain were never published")
		}
	}
	for _, n := range []string{"a", "b"} {
		if ms, err = do(w, ms, "cred "+n); err != nil {
			return fmt.Errorf("at the end: %v", err)
		}
	}
	return nil
}

type snap struct {
	disk  *world.Disk
	chain *idw.Chain
	off   *idw.Off
	what  string
}

// attack explores op from the state of s.w under crashes and faults.
func (s *sys) attack(op string) error {
	base := s.w
	fork := func() (*idw.World, error) { return base.Fork(base.Disk, base.Chain, base.Off) }
	// crashes
	w, err := fork()
	if err != nil {
		return err
	}
	var snaps []snap
	take := func(what string) { snaps = append(snaps, snap{w.Disk.Clone(), w.Chain.Clone(), w.Off.Clone(), what}) }
	w.Disk.Log = nil
	w.Disk.CommitHook = func(n int) { take(fmt.Sprintf("commit %d", n)) }
	w.Chain.After = func() error { take("submission"); return nil }
	w.Off.After = func() { take("off-chain publication") }
	before := w.M.Clone()
	full := w.M.Clone()
	c, err := act(w, op)
	if e := final(w, full, op, c, err); e != nil {
		return nil // reported by the plain run
	}
	ms := steps(w, before, op, c, full)
	done := map[string]bool{}
	for _, sn := range snaps {
		for _, mined := range []bool{false, true} {
			if mined && sn.chain.Waiting() == 0 {
				continue
			}
			k := fmt.Sprint(sn.disk.Digest(), len(sn.chain.Txs), len(sn.off.Log), mined)
			if done[k] {
				continue
			}
			done[k] = true
			s.c.AddTransitions(1)
			x, err := base.Fork(sn.disk, sn.chain, sn.off)
			if err != nil {
				// perhaps it was the chain record that did not fit any more:
				// try the other models
				for _, m := range ms {
					base2 := *base
					base2.M = m
					if x, err = base2.Fork(sn.disk, sn.chain, sn.off); err == nil {
						break
					}
				}
			}
			if err != nil {
				return fmt.Errorf("crash after %s: %v", sn.what, err)
			}
			if mined {
				x.Chain.Mine()
			}
			set, err := filter(x, ms)
			if err == nil {
				err = resume(x, set, op)
			}
			if err != nil {
				return fmt.Errorf("crash after %s (then mined: %v): %v", sn.what, mined, err)
			}
		}
	}
	if op == "mine" || op == "revert" {
		return nil
	}
	// faults
	for mode := 0; mode < 2; mode++ {
		for i := 1; ; i++ {
			w, err := fork()
			if err != nil {
				return err
			}
			kind := ""
			w.Disk.Calls, w.Disk.Faults = 0, 0
			w.Chain.Unknown = 0
			w.Disk.Fault = func(n int, k string, _ []byte) error {
				if n == i || mode == 1 && n > i {
					if kind == "" {
						kind = k
					}
					return world.ErrInjected
				}
				return nil
			}
			before := w.M.Clone()
			c, err := act(w, op)
			w.Disk.Fault = nil
			if w.Disk.Faults == 0 {
				break
			}
			s.c.AddTransitions(1)
			s.c.Count("faults at "+kind, 1)
			where := fmt.Sprintf("storage failing at call %d (%s, mode %d) of %s", i, kind, mode, op)
			if w.Chain.Unknown > 0 {
				return fmt.Errorf("%s: the chain was asked for a transaction that was never submitted", where)
			}
			full := before.Clone()
			fe := final(w, full, op, c, err)
			var ms []*idw.Model
			switch {
			case err == nil || op[:3] == "cre" && !errors.Is(err, world.ErrInjected):
				if fe != nil {
					return fmt.Errorf("%s: %v", where, fe)
				}
				ms = []*idw.Model{full}
			case op[:3] == "iss":
				if c.Md.RevNonce != 0xabcd0000 {
					return fmt.Errorf("%s: the failed issuance changed the claim", where)
				}
				ms = []*idw.Model{before}
			case op == "sync" || op == "reload":
				n := before.Clone()
				n.Sync(w.Chain, idw.SyncEnv{})
				ms = []*idw.Model{before, n}
			case op == "pub":
				ms = before.PublishSteps()
			default:
				ms = []*idw.Model{before}
			}
			if ms, err = filter(w, ms); err != nil {
				return fmt.Errorf("%s: %v", where, err)
			}
			next := op
			if op == "reload" && err == nil {
				next = "sync" // what was loaded in spite of the failure
			}
			if err := resume(w, ms, next); err != nil {
				return fmt.Errorf("%s: %v", where, err)
			}
		}
	}
	return nil
}

func (s *sys) Do(op string, full bool) error {
	if full {
		if err := s.attack(op); err != nil {
			return err
		}
	}
	w := s.w
	c, err := act(w, op)
	return final(w, w.M, op, c, err)
}

func (s *sys) Key() string {
	w := s.w
	k := w.M.Key()
	for _, t := range w.Chain.Txs {
		k += fmt.Sprintf(" %x:%d", t.New[:4], t.Status)
	}
	return k
}

func (s *sys) Close() {}

func lists() [][]*idw.Claim {
	return [][]*idw.Claim{nil, {idw.NewClaim(1, 1)}, {idw.NewClaim(1, 1), idw.NewClaim(2, 2)}, {idw.NewClaim(1, 1), idw.NewClaim(1, 2)}}
}

func same(a, b []*idw.Claim) bool {
	return fmt.Sprint(len(a)) == fmt.Sprint(len(b)) && a[0].V == b[0].V
}

// create explores the creation of an identity.
func create(c *mcx.Ctx, li int, hold bool) error {
	k := idw.TheKey(1)
	mk := func(d *world.Disk, key *idw.Key, l []*idw.Claim) error {
		var id *core.ID
		var err error
		if hold {
			cfg := holder.ConfigDefault
			cfg.Config = idw.Cfg(0)
			id, err = holder.Create(cfg, &key.Comp, idw.Claimers(l), d.Storage(), key.Store)
		} else {
			id, err = issuer.Create(idw.Cfg(0), &key.Comp, idw.Claimers(l), d.Storage(), key.Store)
		}
		if err == nil && (id == nil || *id != idw.Genesis(key, l, 0).Id) {
			panic(fmt.Sprintf("created %v", id))
		}
		return err
	}
	invalid := li == 3
	// check that a disk holds exactly the identity of (key, l)
	holds := func(d *world.Disk, key *idw.Key, l []*idw.Claim) error {
		w := &idw.World{Disk: d, Chain: idw.NewChain(), Off: idw.NewOff("http://off"), Key: key}
		w.Net.Chain = w.Chain
		w.M = idw.Genesis(key, l, 0)
		if err := w.Again(); err != nil {
			return err
		}
		set, err := filter(w, []*idw.Model{w.M})
		if err != nil {
			return err
		}
		return resume(w, set, "issue a")
	}
	disks := []*world.Disk{}
	whats := []string{}
	d := world.NewDisk()
	d.CommitHook = func(n int) {
		disks = append(disks, d.Clone())
		whats = append(whats, fmt.Sprintf("crash after commit %d", n))
	}
	l := lists()[li]
	if err := mk(d, k, l); (err == nil) == invalid {
		return fmt.Errorf("creating: %v", err)
	}
	if !invalid {
		x := d.Clone()
		if err := holds(x, k, l); err != nil {
			return fmt.Errorf("created: %v", err)
		}
	}
	for mode := 0; mode < 2; mode++ {
		for i := 1; ; i++ {
			d := world.NewDisk()
			d.Fault = func(n int, kk string, _ []byte) error {
				if n == i || mode == 1 && n > i {
					return world.ErrInjected
				}
				return nil
			}
			err := mk(d, k, lists()[li])
			d.Fault = nil
			if d.Faults == 0 {
				break
			}
			if err == nil && !invalid {
				if e := holds(d.Clone(), k, l); e != nil {
					return fmt.Errorf("storage failing at call %d (mode %d): creation reports success, but: %v", i, mode, e)
				}
			}
			disks = append(disks, d)
			whats = append(whats, fmt.Sprintf("storage failing at call %d (mode %d)", i, mode))
		}
	}
	// a second creation over the complete identity, with the storage failing
	if !invalid {
		for _, other := range []struct {
			key byte
			li  int
		}{{1, li}, {1, (li + 1) % 3}, {2, li}} {
			for mode := 0; mode < 2; mode++ {
				for i := 1; ; i++ {
					x := d.Clone()
					x.Fault = func(n int, kk string, _ []byte) error {
						if n == i || mode == 1 && n > i {
							return world.ErrInjected
						}
						return nil
					}
					err := mk(x, idw.TheKey(other.key), lists()[other.li])
					x.Fault = nil
					c.AddTransitions(1)
					where := fmt.Sprintf("creating again (key %d, claims %d) with the storage failing at call %d (mode %d)", other.key, other.li, i, mode)
					if err == nil {
						return fmt.Errorf("%s succeeded", where)
					}
					if x.Faults == 0 {
						break
					}
					if e := holds(x, k, l); e != nil {
						return fmt.Errorf("%s damaged the identity: %v", where, e)
					}
				}
			}
		}
	}
	if hold && !invalid {
		if err := holding(c, d, k, l); err != nil {
			return err
		}
	}
	for j := range disks {
		// is there an identity already?
		complete := holds(disks[j].Clone(), k, l) == nil && !invalid
		for _, other := range []struct {
			key byte
			li  int
		}{{1, li}, {1, (li + 1) % 4}, {2, li}} {
			c.AddTransitions(1)
			x := disks[j].Clone()
			ok := idw.TheKey(other.key)
			ol := lists()[other.li]
			err := mk(x, ok, ol)
			again := other.key == 1 && other.li == li
			switch {
			case err == nil && (other.li == 3):
				return fmt.Errorf("%s, then creating with repeated claims succeeded", whats[j])
			case err == nil && complete && !again:
				return fmt.Errorf("%s: another identity was created over a complete one", whats[j])
			case err == nil:
				if e := holds(x, ok, ol); e != nil {
					return fmt.Errorf("%s, then creating with key %d claims %d: %v", whats[j], other.key, other.li, e)
				}
			case complete:
				if e := holds(x, k, l); e != nil {
					return fmt.Errorf("%s: the refused second creation (key %d claims %d) damaged the identity: %v", whats[j], other.key, other.li, e)
				}
			case again && !invalid:
				return fmt.Errorf("%s: repeating the creation answers %v", whats[j], err)
			}
		}
	}
	return nil
}

// holding loads a holder with the storage failing at every call.
func holding(c *mcx.Ctx, d *world.Disk, k *idw.Key, l []*idw.Claim) error {
	w := &idw.World{Chain: idw.NewChain(), Off: idw.NewOff("http://off")}
	w.Net.Chain = w.Chain
	m := idw.Genesis(k, l, 0)
	for mode := 0; mode < 2; mode++ {
		for i := 1; ; i++ {
			x := d.Clone()
			x.Fault = func(n int, kk string, _ []byte) error {
				if n == i || mode == 1 && n > i {
					return world.ErrInjected
				}
				return nil
			}
			h, err := holder.Load(x.Storage(), k.Store, &w.Net, idw.TheZk().Conf, w.Off, w.Off)
			x.Fault = nil
			c.AddTransitions(1)
			where := fmt.Sprintf("loading a holder with the storage failing at call %d (mode %d)", i, mode)
			if (h == nil) == (err == nil) {
				return fmt.Errorf("%s: %v, error %v", where, h, err)
			}
			if x.Faults == 0 && err != nil {
				return fmt.Errorf("loading a holder: %v", err)
			}
			if err == nil {
				if e := m.Show(h.Issuer); e != nil {
					return fmt.Errorf("%s succeeds, but: %v", where, e)
				}
			}
			if x.Faults == 0 {
				break
			}
		}
	}
	// nothing was created here
	if h, err := holder.Load(world.NewDisk().Storage(), k.Store, &w.Net, idw.TheZk().Conf, w.Off, w.Off); err == nil || h != nil {
		return fmt.Errorf("a holder is loaded from an empty storage")
	}
	return nil
}

func main() {
	vposeidon.Fast = true
	defer world.CleanScratch()
	mcx.Main("C11", "fault_enumeration", func(c *mcx.Ctx) {
		c.Rule("after every bounded history of issuing, revoking, publishing, mining, synchronising and restarting, the next operation is crashed after every commit, submission and off-chain publication (with and without the submission being mined before the restart) and run with the storage failing at every call (alone or from there on); live and restarted identity are compared with the steps the reference machine allows, the operation is repeated and the identity brought to a published state; the same for creating an identity, repeated with the same and with other arguments")
		c.Assume("a commit is atomic and durable (C08, C09)")
		c.Each("create", 2*len(lists()), func(i int) string { return fmt.Sprint("genesis claims ", i/2, " of a holder ", i%2 == 1) }, func(i int) error { return create(c, i/2, i%2 == 1) })
		for _, conf := range []struct {
			key     byte
			extra   []*idw.Claim
			confirm uint64
		}{{1, nil, 0}} {
			conf := conf
			c.BFS(mcx.BFS{Name: "resume", New: func() (mcx.Sys, error) {
				w, err := idw.NewWorld(conf.key, conf.extra, conf.confirm)
				return &sys{c, w}, err
			}, Depth: c.Pick(8, 11)})
		}
	})
}
