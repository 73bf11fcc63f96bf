package idw

import (
	"fmt"
	"math/big"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/types"
	zktypes "github.com/iden3/go-circom-prover-verifier/types"
	"github.com/iden3/go-iden3-core/components/idenpubonchain"
	"github.com/iden3/go-iden3-core/core"
	"github.com/iden3/go-iden3-core/core/proof"
	"github.com/iden3/go-iden3-core/eth"
	"github.com/iden3/go-iden3-core/merkletree"
	"verif/mc/sched"
	"verif/mc/vzk"
)

// Statuses of a transaction.
const (
	TxPending = iota
	TxOK
	TxFailed
	TxDropped
)

// ChainTx is a submitted update.
type ChainTx struct {
	Kind     string // init, set
	Id       core.ID
	Old, New merkletree.Hash
	Proof    *zktypes.Proof
	Status   int
	Block    uint64
}

// Chain is the contract with its blockchain.
type Chain struct {
	Block uint64
	Ts    int64
	Hist  map[core.ID][]proof.IdenStateData
	Txs   []*ChainTx
	// Hook, if set, is asked before each call ("submit", "confirm",
	// "getstate", "byblock").
	Hook func(call string) error
	// After is asked after a submission was taken.
	After  func() error
	Points bool
	Calls  []string
	// Unknown counts the questions about transactions that were never
	// submitted.
	Unknown int
}

// NewChain makes an empty chain.
func NewChain() *Chain {
	return &Chain{Block: 100, Ts: 100000, Hist: map[core.ID][]proof.IdenStateData{}}
}

// Clone copies the chain (without hooks).
func (c *Chain) Clone() *Chain {
	n := NewChain()
	n.Block, n.Ts = c.Block, c.Ts
	for k, v := range c.Hist {
		n.Hist[k] = append([]proof.IdenStateData{}, v...)
	}
	for _, t := range c.Txs {
		t := *t
		n.Txs = append(n.Txs, &t)
	}
	return n
}

func (c *Chain) call(k string) error {
	if c.Points {
		sched.P()
	}
	if c.Hook != nil {
		return c.Hook(k)
	}
	return nil
}

func copyData(d proof.IdenStateData) *proof.IdenStateData {
	h := *d.IdenState
	return &proof.IdenStateData{BlockTs: d.BlockTs, BlockN: d.BlockN, IdenState: &h}
}

// Last is the last state of an identity.
func (c *Chain) Last(id core.ID) (merkletree.Hash, bool) {
	h := c.Hist[id]
	if len(h) == 0 {
		return merkletree.HashZero, false
	}
	return *h[len(h)-1].IdenState, true
}

func (c *Chain) GetState(id *core.ID) (*proof.IdenStateData, error) {
	if err := c.call("getstate"); err != nil {
		return nil, err
	}
	h := c.Hist[*id]
	if len(h) == 0 {
		return nil, idenpubonchain.ErrIdenNotOnChain
	}
	return copyData(h[len(h)-1]), nil
}

func (c *Chain) GetStateByBlock(id *core.ID, n uint64) (*proof.IdenStateData, error) {
	if err := c.call("byblock"); err != nil {
		return nil, err
	}
	h := c.Hist[*id]
	if len(h) == 0 {
		return nil, idenpubonchain.ErrIdenNotOnChainOrBlockTooNew
	}
	for _, d := range h {
		if d.BlockN == n {
			return copyData(d), nil
		}
	}
	return nil, idenpubonchain.ErrIdenByBlockNotFound
}

func (c *Chain) GetStateByTime(id *core.ID, ts int64) (*proof.IdenStateData, error) {
	for _, d := range c.Hist[*id] {
		if d.BlockTs == ts {
			return copyData(d), nil
		}
	}
	return nil, idenpubonchain.ErrIdenByTimeNotFound
}

func idBig(id *core.ID) *big.Int { return le(id[:]) }

// Shows tells whether the proof of a submission shows a transition.
func (t *ChainTx) Shows(old merkletree.Hash) bool {
	return t.Proof != nil && vzk.Verify(TheZk().Vk, t.Proof, []*big.Int{idBig(&t.Id), le(old[:]), le(t.New[:])})
}

func (c *Chain) submit(t *ChainTx, p *zktypes.Proof) (*types.Transaction, error) {
	if err := c.call("submit"); err != nil {
		return nil, err
	}
	t.Proof = p
	c.Txs = append(c.Txs, t)
	if c.After != nil {
		if err := c.After(); err != nil {
			return nil, err
		}
	}
	return types.NewTransaction(uint64(len(c.Txs)), common.Address{}, nil, 0, nil, nil), nil
}

func (c *Chain) SetState(id *core.ID, newState *merkletree.Hash, p *zktypes.Proof) (*types.Transaction, error) {
	return c.submit(&ChainTx{Kind: "set", Id: *id, New: *newState}, p)
}

func (c *Chain) InitState(id *core.ID, gen, newState *merkletree.Hash, p *zktypes.Proof) (*types.Transaction, error) {
	return c.submit(&ChainTx{Kind: "init", Id: *id, Old: *gen, New: *newState}, p)
}

func (c *Chain) TxConfirmBlocks(tx *types.Transaction) (*big.Int, error) {
	if err := c.call("confirm"); err != nil {
		return nil, err
	}
	if tx == nil || tx.Nonce() == 0 || tx.Nonce() > uint64(len(c.Txs)) {
		c.Unknown++
		return nil, fmt.Errorf("a transaction that was never submitted")
	}
	t := c.Txs[tx.Nonce()-1]
	switch t.Status {
	case TxPending, TxDropped:
		return nil, eth.ErrReceiptNotReceived
	case TxFailed:
		return nil, eth.ErrReceiptStatusFailed
	}
	return new(big.Int).SetUint64(c.Block - t.Block), nil
}

// Mine makes a block of the waiting transactions.
func (c *Chain) Mine() {
	c.Block++
	c.Ts += 15
	for _, t := range c.Txs {
		if t.Status != TxPending {
			continue
		}
		t.Block = c.Block
		last, on := c.Last(t.Id)
		ok := on == (t.Kind == "set")
		if t.Kind == "set" {
			ok = ok && t.Shows(last)
		} else {
			ok = ok && core.ID(RefID(t.Old)) == t.Id && t.Shows(t.Old)
		}
		if !ok {
			t.Status = TxFailed
			continue
		}
		t.Status = TxOK
		c.Record(t.Id, t.New)
	}
}

// MineFail makes a block in which the waiting transactions revert.
func (c *Chain) MineFail() {
	c.Block++
	c.Ts += 15
	for _, t := range c.Txs {
		if t.Status == TxPending {
			t.Status, t.Block = TxFailed, c.Block
		}
	}
}

// Record writes a state into the contract.
func (c *Chain) Record(id core.ID, s merkletree.Hash) {
	c.Hist[id] = append(c.Hist[id], proof.IdenStateData{BlockN: c.Block, BlockTs: c.Ts, IdenState: &s})
}

// Blocks lets n empty blocks pass.
func (c *Chain) Blocks(n uint64) { c.Block += n; c.Ts += 15 * int64(n) }

// Waiting counts the transactions not in a block yet.
func (c *Chain) Waiting() (n int) {
	for _, t := range c.Txs {
		if t.Status == TxPending {
			n++
		}
	}
	return
}
