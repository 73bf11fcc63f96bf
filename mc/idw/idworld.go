package idw

import (
	"fmt"

	"github.com/iden3/go-iden3-core/components/idenpubonchain"
	"github.com/iden3/go-iden3-core/core"
	"github.com/iden3/go-iden3-core/core/claims"
	"github.com/iden3/go-iden3-core/identity/holder"
	"github.com/iden3/go-iden3-core/identity/issuer"
	"github.com/iden3/go-iden3-core/merkletree"
	"verif/mc/world"
)

// Cfg is the configuration used.
func Cfg(confirm uint64) issuer.Config {
	c := issuer.ConfigDefault
	c.ConfirmBlocks = confirm
	return c
}

// World is one issuer with its environment and model.
type World struct {
	Disk  *world.Disk
	Chain *Chain
	Net   Net // what the issuer talks to
	Off   *Off
	Key   *Key
	M     *Model
	Iss   *issuer.Issuer
}

var errChain = fmt.Errorf("the chain refuses")
var errNet = fmt.Errorf("network down")
var errOff = fmt.Errorf("the off-chain store is down")

// Claimers converts.
func Claimers(cs []*Claim) []claims.Claimer {
	r := make([]claims.Claimer, len(cs))
	for i := range cs {
		r[i] = cs[i]
	}
	return r
}

// Net is the connection to a chain.
type Net struct{ *Chain }

// NewWorld creates an identity with extra genesis claims and loads it.
func NewWorld(key byte, extra []*Claim, confirm uint64) (*World, error) {
	w := &World{Disk: world.NewDisk(), Chain: NewChain(), Off: NewOff("http://off"), Key: TheKey(key)}
	w.Net.Chain = w.Chain
	id, err := issuer.Create(Cfg(confirm), &w.Key.Comp, Claimers(extra), w.Disk.Storage(), w.Key.Store)
	if err != nil {
		return nil, err
	}
	w.M = Genesis(w.Key, extra, confirm)
	if *id != w.M.Id {
		return nil, fmt.Errorf("created %v, the genesis state gives %v", id, &w.M.Id)
	}
	if w.Iss, err = w.Load(w.Disk); err != nil {
		return nil, err
	}
	return w, nil
}

// Load loads the identity from a disk.
func (w *World) Load(d *world.Disk) (*issuer.Issuer, error) {
	return issuer.Load(d.Storage(), w.Key.Store, &w.Net, TheZk().Conf, w.Off)
}

// Issue issues a claim and checks the outcome.
func (w *World) Issue(c *Claim) error {
	c.Md.RevNonce = 0xabcd0000
	err := w.Iss.IssueClaim(c)
	return w.M.Issue(c, 0xabcd0000, err)
}

// Revoke revokes a claim and checks the outcome.
func (w *World) Revoke(c *Claim) error {
	return w.M.Revoke(c.Data(), w.Iss.RevokeClaim(c))
}

// Publish publishes and checks the outcome.
func (w *World) Publish(e PubEnv) error {
	w.Chain.Hook = func(k string) error {
		if k == "submit" && e.Reject {
			return errChain
		}
		return nil
	}
	if e.Lost {
		w.Chain.After = func() error { return errChain }
	}
	if e.Off {
		w.Off.Hook = func() error { return errOff }
	}
	n := len(w.Off.Log)
	err := w.Iss.PublishState()
	w.Chain.Hook, w.Chain.After, w.Off.Hook = nil, nil, nil
	if e := Same(err, w.M.Publish(e), "publishing"); e != nil {
		return e
	}
	_ = n
	return w.CheckOut()
}

// Sync synchronises and checks the outcome.
func (w *World) Sync(e SyncEnv) error {
	w.Chain.Hook = e.hook
	err := w.Iss.SyncIdenStatePublic()
	w.Chain.Hook = nil
	return Same(err, w.M.Sync(w.Chain, e), "synchronising")
}

func (e SyncEnv) hook(k string) error {
	if k == "confirm" && e.NetConfirm || k == "getstate" && e.NetState {
		return errNet
	}
	return nil
}

// Reload restarts the identity; it stays as it is if it could not be loaded
// (the chain does not answer as expected).
func (w *World) Reload(e SyncEnv) error {
	w.Chain.Hook = e.hook
	is, err := w.Load(w.Disk)
	w.Chain.Hook = nil
	if e := Same(err, w.M.Sync(w.Chain, e), "loading"); e != nil {
		return e
	}
	if err == nil {
		w.Iss = is
		return nil
	}
	// The failed loading may have recorded what it learnt; the process starts
	// again from what is stored.
	return w.Again()
}

// Again loads the identity from its disk with a chain that gives no news.
func (w *World) Again() error {
	// load with a chain that gives no news
	w.Net.Chain = w.quiet()
	is, err := w.Load(w.Disk)
	w.Net.Chain = w.Chain
	if err != nil {
		return fmt.Errorf("loading: %v", err)
	}
	w.Iss = is
	return nil
}

// quiet is a chain that confirms what the identity has on record.
func (w *World) quiet() *Chain {
	c := w.Chain.Clone()
	for _, t := range c.Txs {
		t.Status = TxPending
	}
	delete(c.Hist, w.M.Id)
	if *w.M.OnChain.IdenState != merkletree.HashZero {
		c.Hist[w.M.Id] = append(c.Hist[w.M.Id], w.M.OnChain)
	}
	return c
}

// CheckOut compares submissions and publications with the model.
func (w *World) CheckOut() error {
	if w.Off.Bad != nil {
		return w.Off.Bad
	}
	if len(w.Chain.Txs) != len(w.M.Submitted) {
		return fmt.Errorf("%d submissions, the model says %d", len(w.Chain.Txs), len(w.M.Submitted))
	}
	for i, t := range w.Chain.Txs {
		m := w.M.Submitted[i]
		if t.Kind != m.Kind || t.Id != m.Id || t.New != m.New || t.Kind == "init" && t.Old != m.Old {
			return fmt.Errorf("submission %d is %s %x -> %x, the history says %s %x -> %x", i+1, t.Kind, t.Old[:4], t.New[:4], m.Kind, m.Old[:4], m.New[:4])
		}
		if !t.Shows(m.Old) {
			return fmt.Errorf("the proof of submission %d does not show its transition", i+1)
		}
	}
	if fmt.Sprint(w.Off.Log) != fmt.Sprint(w.M.Published) {
		return fmt.Errorf("published off chain: %v, the history says %v", w.Off.Log, w.M.Published)
	}
	return nil
}

// NewHolder makes a holder on its own disk that uses the world's chain and
// off-chain store.
func (w *World) NewHolder(key byte, extra []*Claim) (*holder.Holder, core.ID, error) {
	d := world.NewDisk()
	k := TheKey(key)
	cfg := holder.ConfigDefault
	cfg.GenesisOnly = true
	id, err := holder.Create(cfg, &k.Comp, Claimers(extra), d.Storage(), k.Store)
	if err != nil {
		return nil, core.ID{}, err
	}
	h, err := holder.Load(d.Storage(), k.Store, &w.Net, nil, nil, w.Off)
	return h, *id, err
}

var _ idenpubonchain.IdenPubOnChainer = (*Chain)(nil)

// Fork copies the world with the identity loaded from a copy of d.
func (w *World) Fork(d *world.Disk, ch *Chain, off *Off) (*World, error) {
	n := &World{Disk: d.Clone(), Chain: ch.Clone(), Off: off.Clone(), Key: w.Key, M: w.M.Clone()}
	n.Net.Chain = n.Chain
	return n, n.Again()
}

// ShowAll compares everything visible with a model.
func (w *World) ShowAll(m *Model) error {
	if err := m.Show(w.Iss); err != nil {
		return err
	}
	was := w.M
	w.M = m
	defer func() { w.M = was }()
	return w.CheckOut()
}
