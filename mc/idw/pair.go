package idw

import (
	"encoding/json"
	"fmt"
	"math/big"

	"github.com/ethereum/go-ethereum/core/types"
	zktypes "github.com/iden3/go-circom-prover-verifier/types"
	"github.com/iden3/go-iden3-core/components/idenpuboffchain"
	"github.com/iden3/go-iden3-core/components/idenpubonchain"
	"github.com/iden3/go-iden3-core/core"
	"github.com/iden3/go-iden3-core/core/claims"
	"github.com/iden3/go-iden3-core/core/proof"
	"github.com/iden3/go-iden3-core/identity/holder"
	"github.com/iden3/go-iden3-core/merkletree"
	"verif/mc/world"
)

// Multi is the chain of several issuers as a verifier and a holder see it.
type Multi struct {
	Ws []*World
	// Floor makes queries by block answer with the last state not newer
	// than the block, as the contract does.
	Floor bool
	// Err is answered to every query.
	Err error
}

func (m *Multi) of(id *core.ID) *Chain {
	for _, w := range m.Ws {
		if w.M.Id == *id {
			return w.Chain
		}
	}
	return NewChain()
}

func (m *Multi) GetState(id *core.ID) (*proof.IdenStateData, error) {
	if m.Err != nil {
		return nil, m.Err
	}
	return m.of(id).GetState(id)
}

func (m *Multi) GetStateByBlock(id *core.ID, n uint64) (*proof.IdenStateData, error) {
	if m.Err != nil {
		return nil, m.Err
	}
	c := m.of(id)
	if !m.Floor {
		return c.GetStateByBlock(id, n)
	}
	var r *proof.IdenStateData
	for _, d := range c.Hist[*id] {
		if d.BlockN <= n {
			r = copyData(d)
		}
	}
	if r == nil {
		return nil, idenpubonchain.ErrIdenNotOnChainOrBlockTooNew
	}
	return r, nil
}

func (m *Multi) GetStateByTime(id *core.ID, ts int64) (*proof.IdenStateData, error) {
	return m.of(id).GetStateByTime(id, ts)
}

func (m *Multi) SetState(id *core.ID, newState *merkletree.Hash, p *zktypes.Proof) (*types.Transaction, error) {
	return nil, fmt.Errorf("read only")
}

func (m *Multi) InitState(id *core.ID, gen, newState *merkletree.Hash, p *zktypes.Proof) (*types.Transaction, error) {
	return nil, fmt.Errorf("read only")
}

func (m *Multi) TxConfirmBlocks(tx *types.Transaction) (*big.Int, error) {
	return nil, fmt.Errorf("read only")
}

// GetPublicData dispatches to the issuers' stores.
func (m *Multi) GetPublicData(url string, id *core.ID, state *merkletree.Hash) (*idenpuboffchain.PublicData, error) {
	for _, w := range m.Ws {
		if w.M.Id == *id {
			return w.Off.GetPublicData(url, id, state)
		}
	}
	return nil, fmt.Errorf("unknown identity")
}

// Pair is two issuers with a holder, and everything they ever handed out.
type Pair struct {
	Multi
	H  *holder.Holder
	Me core.ID
	// Kinds tells which claims are issued, in order.
	Kinds []func(n uint64, me core.ID) *Claim
	CE    []*proof.CredentialExistence
	CV    []*proof.CredentialValidity
	seen  map[string]bool
	hdisk *world.Disk
}

// ClaimKinds are a plain claim, one that expires, and claims about the holder.
var ClaimKinds = []func(n uint64, me core.ID) *Claim{
	func(n uint64, me core.ID) *Claim { return NewClaim(n, 1) },
	func(n uint64, me core.ID) *Claim { return NewExpiring(n, 1, ExpAt) },
	func(n uint64, me core.ID) *Claim { return NewAbout(n, 1, me) },
	func(n uint64, me core.ID) *Claim {
		c := &Claim{Md: claims.NewMetadata(claims.ClaimHeader{Type: claims.NewClaimTypeNum(7), Subject: claims.ClaimSubjectOtherIden,
			SubjectPos: claims.ClaimSubjectPosValue, Expiration: true, Version: true}), I: n, V: 1}
		c.Md.Subject, c.Md.Expiration, c.Md.Version = &me, ExpAt+1, 3
		return c
	},
}

// ExpAt is the time at which claims expire.
const ExpAt = 100500

// NewPair makes the issuers and the holder.
func NewPair() (*Pair, error) {
	p := &Pair{Kinds: ClaimKinds, seen: map[string]bool{}}
	for i := byte(1); i <= 2; i++ {
		w, err := NewWorld(i, nil, 0)
		if err != nil {
			return nil, err
		}
		p.Ws = append(p.Ws, w)
	}
	d := world.NewDisk()
	p.hdisk = d
	k := TheKey(9)
	cfg := holder.ConfigDefault
	cfg.GenesisOnly = true
	id, err := holder.Create(cfg, &k.Comp, nil, d.Storage(), k.Store)
	if err != nil {
		return nil, err
	}
	p.Me = *id
	p.H, err = holder.Load(d.Storage(), k.Store, &p.Multi, nil, nil, &p.Multi)
	return p, err
}

// Issued lists the n-th issuer's claims in issuing order.
func (p *Pair) Issued(n int) (r []*Claim) {
	m := p.Ws[n].M
	for i := 0; i < len(m.Issued)-1; i++ {
		r = append(r, p.Kinds[i](uint64(i+1), p.Me))
	}
	return
}

// Ops are the possible operations.
func (p *Pair) Ops() (ops []string) {
	for i, n := range []string{"A", "B"} {
		m := p.Ws[i].M
		if len(m.Issued)-1 < len(p.Kinds) {
			ops = append(ops, n+" issue")
		}
		for _, c := range p.Issued(i) {
			d := c.Data()
			h := world.RefHi(&d)
			if !m.Issued[string(h[:])].Revoked {
				ops = append(ops, n+" revoke")
				break
			}
		}
		now := m.Now().State
		if now != m.States[len(m.States)-1].State {
			ops = append(ops, n+" pub")
		}
	}
	return
}

// Do runs one; published tells whether new credentials were collected.
func (p *Pair) Do(op string) (published bool, err error) {
	i := 0
	if op[0] == 'B' {
		i = 1
	}
	w := p.Ws[i]
	switch op[2:] {
	case "issue":
		n := len(w.M.Issued) - 1
		return false, w.Issue(p.Kinds[n](uint64(n+1), p.Me))
	case "revoke":
		for _, c := range p.Issued(i) {
			d := c.Data()
			h := world.RefHi(&d)
			if !w.M.Issued[string(h[:])].Revoked {
				return false, w.Revoke(c)
			}
		}
		return false, nil
	}
	if err := w.Publish(PubEnv{}); err != nil {
		return false, err
	}
	w.Chain.Mine()
	p.Ws[1-i].Chain.Blocks(1)
	if err := w.Sync(SyncEnv{}); err != nil {
		return false, err
	}
	return true, p.collect(w)
}

// Copy is a value as its recipient has it.
func Copy(from, to interface{}) error {
	b, err := json.Marshal(from)
	if err != nil {
		return err
	}
	return json.Unmarshal(b, to)
}

// collect gets a credential for every claim on chain, and the validity of
// every credential.
func (p *Pair) collect(w *World) error {
	for _, d := range w.M.OnRec.Claims.Sorted() {
		c, err := w.Iss.GenCredentialExistence(NewRaw(d))
		if err != nil {
			return err
		}
		var x proof.CredentialExistence
		if err := Copy(c, &x); err != nil {
			return err
		}
		p.CE = append(p.CE, &x)
	}
	for _, c := range p.CE {
		if *c.Id != w.M.Id {
			continue
		}
		v, err := p.H.HolderGetCredentialValidity(c)
		if p.Revoked(w.M.OnRec, c.Claim.Data) {
			if err != holder.ErrRevokedClaim {
				return fmt.Errorf("the holder of a revoked claim is answered with %v", err)
			}
			continue
		}
		if err != nil {
			return fmt.Errorf("the holder of an unrevoked claim is answered with %v", err)
		}
		var x proof.CredentialValidity
		if err := Copy(v, &x); err != nil {
			return err
		}
		p.CV = append(p.CV, &x)
	}
	return nil
}

// Nonce is the revocation nonce of an entry.
func Nonce(d merkletree.Data) uint32 {
	return uint32(d[4][0]) | uint32(d[4][1])<<8 | uint32(d[4][2])<<16 | uint32(d[4][3])<<24
}

// Revoked tells whether a claim's nonce is revoked in a recorded state.
func (p *Pair) Revoked(r *Rec, d merkletree.Data) bool {
	l := RevLeaf(Nonce(d))
	_, ok := r.Revs.Entries[world.RefHi(&l)]
	return ok
}

// Published is the record of a state published exactly as stated, or nil.
func (p *Pair) Published(id *core.ID, d *proof.IdenStateData) *Rec {
	if id == nil || d.IdenState == nil {
		return nil
	}
	for _, w := range p.Ws {
		if w.M.Id != *id {
			continue
		}
		for _, x := range w.Chain.Hist[*id] {
			if x.BlockN == d.BlockN && x.BlockTs == d.BlockTs && *x.IdenState == *d.IdenState {
				for _, r := range w.M.States {
					if r.State == *d.IdenState {
						return r
					}
				}
			}
		}
	}
	return nil
}

// ExistTrue tells whether what an existence credential states is true.
func (p *Pair) ExistTrue(c *proof.CredentialExistence) bool {
	r := p.Published(c.Id, &c.IdenStateData)
	if r == nil || c.Claim == nil {
		return false
	}
	d := c.Claim.Data
	x, ok := r.Claims.Entries[world.RefHi(&d)]
	return ok && x == d
}

// Key identifies the situation.
func (p *Pair) Key() string {
	k := ""
	for _, w := range p.Ws {
		k += w.M.Key() + "|"
		for _, d := range w.Chain.Hist[w.M.Id] {
			k += fmt.Sprintf("%d:%x ", d.BlockN, d.IdenState[:4])
		}
	}
	return k
}

// HolderWith is the holder with another off-chain store.
func (p *Pair) HolderWith(off idenpuboffchain.IdenPubOffChainReader) (*holder.Holder, error) {
	return holder.Load(p.hdisk.Storage(), TheKey(9).Store, &p.Multi, nil, nil, off)
}
