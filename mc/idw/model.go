package idw

import (
	"errors"
	"fmt"
	"strings"

	"github.com/iden3/go-iden3-core/core"
	"github.com/iden3/go-iden3-core/core/claims"
	"github.com/iden3/go-iden3-core/core/proof"
	"github.com/iden3/go-iden3-core/db"
	"github.com/iden3/go-iden3-core/eth"
	"github.com/iden3/go-iden3-core/identity/issuer"
	"github.com/iden3/go-iden3-core/merkletree"
	"verif/mc/world"
)

// Roots are the roots behind a state.
type Roots struct{ State, Clr, Rer, Ror merkletree.Hash }

// Rec is a state the identity had when publishing, with the sets behind it.
type Rec struct {
	Roots
	Claims, Revs, RootsT *world.RefTree
}

// Issued is an issued claim.
type Issued struct {
	Data    merkletree.Data
	Nonce   uint32
	Revoked bool
}

// Model is the reference identity.
type Model struct {
	Id                   core.ID
	KOp                  merkletree.Data
	Claims, Revs, RootsT *world.RefTree
	Issued               map[string]*Issued // by hash of the index
	Nonces               map[uint32]bool
	MaxNonce             int64
	States               []*Rec // recorded states, genesis first
	OnChain              proof.IdenStateData
	OnRec                *Rec
	Pending              *Rec
	Txed                 bool
	Tx                   int  // number of the pending transaction
	Owed                 *Rec // state whose public data are not published yet
	Submitted            []ChainTx
	Published            []merkletree.Hash
	Confirm              uint64
}

func (m *Model) rec() *Rec {
	c, r, o := m.Claims.Root(), m.Revs.Root(), m.RootsT.Root()
	return &Rec{Roots{RefState(c, r, o), c, r, o}, m.Claims.Clone(), m.Revs.Clone(), m.RootsT.Clone()}
}

// Genesis makes the model of a new identity: the claims are those of the
// operational key and the extra ones, with the nonces they got.
func Genesis(key *Key, extra []*Claim, confirm uint64) *Model {
	m := &Model{Claims: world.NewRefTree(140), Revs: world.NewRefTree(140), RootsT: world.NewRefTree(140),
		Issued: map[string]*Issued{}, Nonces: map[uint32]bool{}, Confirm: confirm, MaxNonce: -1,
		OnChain: proof.IdenStateData{IdenState: &merkletree.Hash{}}}
	kd := KOpData(key.Pub.X, key.Pub.Y, 0)
	m.KOp = kd
	m.add(kd, 0)
	for _, c := range extra {
		m.add(c.Data(), c.Md.RevNonce)
	}
	clr := m.Claims.Root()
	rl := RootLeaf(clr)
	m.RootsT.Add(&rl)
	g := m.rec()
	m.States = []*Rec{g}
	m.Id = core.ID(RefID(g.State))
	return m
}

func (m *Model) add(d merkletree.Data, nonce uint32) {
	m.Claims.Add(&d)
	h := world.RefHi(&d)
	m.Issued[string(h[:])] = &Issued{Data: d, Nonce: nonce}
	m.Nonces[nonce] = true
	if int64(nonce) > m.MaxNonce {
		m.MaxNonce = int64(nonce)
	}
}

// Clone copies the model.
func (m *Model) Clone() *Model {
	n := *m
	n.Claims, n.Revs, n.RootsT = m.Claims.Clone(), m.Revs.Clone(), m.RootsT.Clone()
	n.Issued = map[string]*Issued{}
	for k, v := range m.Issued {
		w := *v
		n.Issued[k] = &w
	}
	n.Nonces = map[uint32]bool{}
	for k := range m.Nonces {
		n.Nonces[k] = true
	}
	n.States = append([]*Rec{}, m.States...)
	n.Submitted = append([]ChainTx{}, m.Submitted...)
	n.Published = append([]merkletree.Hash{}, m.Published...)
	return &n
}

// Now is the current state.
func (m *Model) Now() *Rec { return m.rec() }

// Issue checks the outcome of issuing a claim.  before is the nonce the claim
// object had.
func (m *Model) Issue(c *Claim, before uint32, err error) error {
	d := c.Data()
	want := m.Claims.Verdict(&d)
	if (err == nil) != (want == world.AddOK) {
		return fmt.Errorf("issuing answered %v, the model says %s", err, want)
	}
	if err != nil {
		if c.Md.RevNonce != before {
			return fmt.Errorf("a failed issuance changed the claim's nonce from %d to %d", before, c.Md.RevNonce)
		}
		return nil
	}
	if m.Nonces[c.Md.RevNonce] {
		return fmt.Errorf("nonce %d was given to two claims", c.Md.RevNonce)
	}
	m.add(d, c.Md.RevNonce)
	return nil
}

// Revoke checks the outcome of revoking a claim.
func (m *Model) Revoke(c merkletree.Data, err error) error {
	h := world.RefHi(&c)
	is, ok := m.Issued[string(h[:])]
	if !ok {
		if err == nil {
			return fmt.Errorf("a claim that was never issued could be revoked")
		}
		return nil
	}
	if is.Revoked {
		if err == nil {
			return fmt.Errorf("a claim was revoked twice")
		}
		return nil
	}
	if err != nil {
		return fmt.Errorf("revoking an issued claim: %v", err)
	}
	is.Revoked = true
	l := RevLeaf(is.Nonce)
	m.Revs.Add(&l)
	return nil
}

// PubEnv is what the environment answers to a publication.
type PubEnv struct {
	Reject bool // the chain refuses the submission
	Lost   bool // the chain takes it but the answer is an error
	Off    bool // the off-chain store fails
}

var errAny = errors.New("some error")

func (m *Model) publishOff(r *Rec, e PubEnv) error {
	if e.Off {
		return errAny
	}
	m.Published = append(m.Published, r.State)
	m.Owed = nil
	return nil
}

// Publish is PublishState.
func (m *Model) Publish(e PubEnv) error {
	if m.Owed != nil && (m.Pending == nil || m.Txed) {
		if err := m.publishOff(m.Owed, e); err != nil {
			return err
		}
		if m.Pending != nil {
			return nil
		}
	}
	if m.Pending != nil && m.Txed {
		return issuer.ErrIdenStatePendingNotNil
	}
	last := m.States[len(m.States)-1]
	if m.Pending == nil {
		now := m.rec()
		if now.State == last.State {
			return nil
		}
		if now.Clr != last.Clr {
			rl := RootLeaf(now.Clr)
			m.RootsT.Add(&rl)
			now = m.rec()
		}
		m.States = append(m.States, now)
		m.Pending = now
		m.Owed = now
	}
	prev := m.States[len(m.States)-2]
	if e.Reject {
		return errAny
	}
	t := ChainTx{Kind: "set", Id: m.Id, Old: prev.State, New: m.Pending.State}
	if *m.OnChain.IdenState == merkletree.HashZero {
		t.Kind = "init"
	}
	m.Submitted = append(m.Submitted, t)
	if e.Lost {
		return errAny
	}
	m.Txed = true
	m.Tx = len(m.Submitted)
	return m.publishOff(m.Pending, e)
}

// SyncEnv is what the environment answers to a synchronisation.
type SyncEnv struct {
	NetConfirm, NetState bool
}

// Sync is SyncIdenStatePublic against a chain.
func (m *Model) Sync(ch *Chain, e SyncEnv) error {
	var rev error
	if m.Pending != nil && m.Txed {
		if e.NetConfirm {
			return errAny
		}
		t := ch.Txs[m.Tx-1]
		switch t.Status {
		case TxPending, TxDropped:
			return nil
		case TxFailed:
			m.Txed = false
			rev = eth.ErrReceiptStatusFailed
		}
		if t.Status == TxOK && ch.Block-t.Block < m.Confirm {
			return nil
		}
	}
	if e.NetState {
		return errAny
	}
	st, on := ch.Last(m.Id)
	if !on {
		st = merkletree.HashZero
	}
	if st == *m.OnChain.IdenState {
		return rev
	}
	if m.Pending == nil || st != m.Pending.State {
		return errAny
	}
	h := ch.Hist[m.Id]
	m.OnChain = *copyData(h[len(h)-1])
	m.OnRec = m.Pending
	m.Pending, m.Txed = nil, false
	return nil
}

func Same(err, want error, what string) error {
	if (err == nil) != (want == nil) {
		return fmt.Errorf("%s answered %v, want %v", what, err, want)
	}
	if want != nil && want != errAny && !errors.Is(err, want) {
		return fmt.Errorf("%s answered %v, want %v", what, err, want)
	}
	return nil
}

// Show compares what an issuer shows with the model.
func (m *Model) Show(is *issuer.Issuer) error {
	now := m.rec()
	s, r := is.State()
	if *r.ClaimsTreeRoot != now.Clr {
		return fmt.Errorf("the claims tree is not that of the issued claims")
	}
	if *r.RevocationsTreeRoot != now.Rer {
		return fmt.Errorf("the revocations tree is not that of the revoked claims")
	}
	if *r.RootsTreeRoot != now.Ror {
		return fmt.Errorf("the roots tree is not that of the published claims roots")
	}
	if *s != now.State {
		return fmt.Errorf("the identity state is not that of its roots")
	}
	if *is.ID() != m.Id {
		return fmt.Errorf("the identifier is %v, want %v", is.ID(), &m.Id)
	}
	oc := is.StateDataOnChain()
	if *oc.IdenState != *m.OnChain.IdenState || oc.BlockN != m.OnChain.BlockN || oc.BlockTs != m.OnChain.BlockTs {
		return fmt.Errorf("on-chain record %v, want %v", oc, m.OnChain)
	}
	if *is.IdenStateOnChain() != *m.OnChain.IdenState {
		return fmt.Errorf("on-chain state %v, want %v", is.IdenStateOnChain(), m.OnChain.IdenState)
	}
	p, tx := is.IdenStatePending()
	want := merkletree.HashZero
	if m.Pending != nil {
		want = m.Pending.State
	}
	if *p != want || tx != m.Txed {
		return fmt.Errorf("pending state %v (submitted %v), want %v (%v)", p, tx, want, m.Txed)
	}
	return nil
}

// Key is a canonical form of the model.
func (m *Model) Key() string {
	var b strings.Builder
	sh := func(r *Rec) string {
		if r == nil {
			return "-"
		}
		return fmt.Sprintf("%x", r.State[:4])
	}
	n := m.rec()
	fmt.Fprintf(&b, "%s on%s p%s,%v,%d owed%s max%d", sh(n), sh(m.OnRec), sh(m.Pending), m.Txed, m.Tx, sh(m.Owed), m.MaxNonce)
	for _, r := range m.States {
		b.WriteString(" " + sh(r))
	}
	return b.String()
}

var _ = db.ErrNotFound
var _ = claims.ClaimSubjectSelf

// PublishSteps lists the models at the points at which publishing may stop
// (first: nothing done, last: all done), for an environment that agrees.
func (m *Model) PublishSteps() []*Model {
	out := []*Model{m.Clone()}
	cur := m.Clone()
	step := func(f func()) {
		f()
		out = append(out, cur.Clone())
	}
	off := func(r *Rec) {
		step(func() { cur.Published = append(cur.Published, r.State) })
		step(func() { cur.Owed = nil })
	}
	if cur.Owed != nil && (cur.Pending == nil || cur.Txed) {
		off(cur.Owed)
		if cur.Pending != nil {
			return out
		}
	}
	if cur.Pending != nil && cur.Txed {
		return out
	}
	if cur.Pending == nil {
		last := cur.States[len(cur.States)-1]
		if cur.rec().State == last.State {
			return out
		}
		if n := cur.rec(); n.Clr != last.Clr {
			rl := RootLeaf(n.Clr)
			if cur.RootsT.Verdict(&rl) == world.AddOK {
				step(func() { cur.RootsT.Add(&rl) })
			}
		}
		step(func() {
			n := cur.rec()
			cur.States = append(cur.States, n)
			cur.Pending, cur.Owed = n, n
		})
	}
	step(func() {
		t := ChainTx{Kind: "set", Id: cur.Id, Old: cur.States[len(cur.States)-2].State, New: cur.Pending.State}
		if *cur.OnChain.IdenState == merkletree.HashZero {
			t.Kind = "init"
		}
		cur.Submitted = append(cur.Submitted, t)
	})
	step(func() { cur.Txed, cur.Tx = true, len(cur.Submitted) })
	off(cur.Pending)
	return out
}
