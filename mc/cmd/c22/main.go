// C22: the chain clients report the contract's states faithfully.
package main

import (
	"bytes"
	"errors"
	"fmt"
	"math/big"
	"strings"
	"sync"
	"time"

	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/crypto"
	zktypes "github.com/iden3/go-circom-prover-verifier/types"
	"github.com/iden3/go-iden3-core/components/idenpubonchain"
	"github.com/iden3/go-iden3-core/components/idenpubonchain/local"
	"github.com/iden3/go-iden3-core/core"
	"github.com/iden3/go-iden3-core/core/proof"
	"github.com/iden3/go-iden3-core/eth"
	"github.com/iden3/go-iden3-core/merkletree"
	"verif/mc/ethnode"
	"verif/mc/mcx"
	"verif/mc/vzk"
)

const nIds, nStates = 2, 7

var (
	acc    *ethnode.Account
	locked *ethnode.Account
	vk     *zktypes.Vk
	pk     *zktypes.Pk
)

// state k of identity i; 0 is the genesis state.
func state(i, k int) (h merkletree.Hash) {
	copy(h[:], crypto.Keccak256([]byte(fmt.Sprint("state ", i, " ", k))))
	h[31] &= 0x1f
	return
}

// ident is the identifier of identity i (2: one that is never on chain).
func ident(i int) (id core.ID) {
	s := state(i, 0)
	copy(id[2:], s[32-27:])
	t := 0
	for _, b := range id[:29] {
		t += int(b)
	}
	id[29], id[30] = byte(t>>8), byte(t)
	return
}

// num is the number of little-endian bytes.
func num(b []byte) *big.Int {
	r := make([]byte, len(b))
	for i := range b {
		r[len(b)-1-i] = b[i]
	}
	return new(big.Int).SetBytes(r)
}

var proofs sync.Map

// zkp is the proof of the transition of identity i from state a to b.
func zkp(i, a, b int) *zktypes.Proof {
	k := [3]int{i, a, b}
	if p, ok := proofs.Load(k); ok {
		return p.(*zktypes.Proof)
	}
	id, x, y := ident(i), state(i, a), state(i, b)
	p, _, err := vzk.Prove(pk, zktypes.Witness{big.NewInt(1), num(id[:]), num(x[:]), num(y[:])})
	if err != nil {
		panic(err)
	}
	p.A.Marshal()
	proofs.Store(k, p)
	return p
}

type rec struct {
	n  uint64
	ts int64
	s  merkletree.Hash
}

// sub is a submission.
type sub struct {
	kind    string
	i, from int // proven from this state
	to      int
	bad     bool // wrong in another way
	done    bool
	ok      bool
	block   uint64
	tx      *types.Transaction
	ltx     *types.Transaction
	lerr    error
}

type sys struct {
	n     *ethnode.Node
	c     *idenpubonchain.IdenPubOnChain
	l     *local.IdenPubOnChain
	lb    uint64
	hist  [nIds][]rec
	at    [nIds]int
	subs  []*sub
	sends int
}

func newSys() (mcx.Sys, error) {
	s := &sys{n: ethnode.New(ethnode.Block{N: 10, Ts: 1000})}
	for i := 0; i < nIds; i++ {
		for a := 0; a < nStates; a++ {
			for b := 0; b < nStates; b++ {
				id, x, y := ident(i), state(i, a), state(i, b)
				s.n.Allow(zkp(i, a, b), num(id[:]), num(x[:]), num(y[:]))
			}
		}
	}
	s.c = idenpubonchain.New(eth.NewClient(s.n.Client, &acc.Acc, acc.Ks), idenpubonchain.ContractAddresses{IdenStates: s.n.Addr})
	s.lb = s.n.Head.N + 1
	s.l = local.New(func() time.Time { return time.Unix(1000+int64(s.lb-10)*15, 999) }, func() uint64 { return s.lb }, vk)
	return s, nil
}

func (s *sys) Close() { s.n.Close() }

func (s *sys) Key() string {
	var w []string
	for _, x := range s.subs {
		if !x.done {
			w = append(w, fmt.Sprint(x.kind, x.i, x.from, x.to, x.bad))
		}
	}
	// Relative heights: what matters is the order and the distances to the
	// head.
	r := fmt.Sprint(s.at, w)
	for i := range s.hist {
		for _, h := range s.hist[i] {
			r += fmt.Sprint(" ", s.n.Head.N-h.n)
		}
		r += "|"
	}
	return r
}

func (s *sys) waiting() (n int) {
	for _, x := range s.subs {
		if !x.done {
			n++
		}
	}
	return
}

// narrow histories: right updates only, so that they get long.
type narrow struct{ *sys }

func (s narrow) Ops() []string {
	r := []string{"mine"}
	for i := 0; i < nIds; i++ {
		if s.at[i]+1 == nStates || s.waiting() > i {
			continue
		}
		if s.at[i] == 0 {
			r = append(r, fmt.Sprintf("init %d 0 1 -", i))
		} else if i == 0 || s.at[i] < 2 {
			r = append(r, fmt.Sprintf("set %d %d %d -", i, s.at[i], s.at[i]+1))
		}
	}
	return r
}

func (s *sys) Ops() []string {
	var r []string
	if s.waiting() < 3 {
		for i := 0; i < nIds; i++ {
			if s.at[i]+1 < nStates {
				// kind, identity, proven from, to, what is wrong
				r = append(r, fmt.Sprintf("init %d 0 %d -", i, s.at[i]+1), fmt.Sprintf("set %d %d %d -", i, s.at[i], s.at[i]+1))
				if i == 0 {
					r = append(r, fmt.Sprintf("set %d %d %d proof", i, s.at[i], s.at[i]+1), fmt.Sprintf("init %d 0 %d proof", i, s.at[i]+1))
					if s.at[i]+2 < nStates {
						// the next one, before the first is in a block
						r = append(r, fmt.Sprintf("set %d %d %d -", i, s.at[i]+1, s.at[i]+2))
					}
					if s.at[i] > 0 {
						r = append(r, fmt.Sprintf("set %d %d %d -", i, s.at[i]-1, s.at[i]+1), fmt.Sprintf("set %d %d %d -", i, s.at[i], s.at[i]))
						r = append(r, fmt.Sprintf("set %d %d %d -", i, s.at[i], s.at[i]-1))
					}
					r = append(r, fmt.Sprintf("set %d %d %d other", i, s.at[i], s.at[i]+1), fmt.Sprintf("init %d 1 2 -", i), fmt.Sprintf("init %d 0 1 id", i))
				}
			}
		}
	}
	return append(r, "mine")
}

func (s *sys) Do(op string, full bool) error {
	f := strings.Fields(op)
	switch f[0] {
	case "mine":
		if err := s.mine(); err != nil {
			return err
		}
	default:
		x := &sub{kind: f[0]}
		fmt.Sscan(f[1], &x.i)
		fmt.Sscan(f[2], &x.from)
		fmt.Sscan(f[3], &x.to)
		if err := s.submit(x, f[4]); err != nil {
			return err
		}
	}
	if full {
		return s.observe(f[0] == "mine")
	}
	return nil
}

func scribbleData(d *proof.IdenStateData) {
	*d.IdenState = merkletree.Hash{1, 2, 3}
	d.BlockN, d.BlockTs = 77, 77
}

func (s *sys) submit(x *sub, wrong string) error {
	p := zkp(x.i, x.from, x.to)
	id, old, to := ident(x.i), state(x.i, x.from), state(x.i, x.to)
	switch wrong {
	case "proof": // of another transition
		p, x.bad = zkp(x.i, x.from, (x.to+1)%nStates), true
	case "other": // of the other identity
		p, x.bad = zkp(1-x.i, x.from, x.to), true
	case "id": // the genesis state is of another identity
		id, x.bad = ident(1-x.i), true
	}
	wantID := num(id[:])
	// A copy is handed over and overwritten afterwards.
	cp := &zktypes.Proof{A: p.A, B: p.B, C: p.C}
	var err error
	nsend := len(s.n.Pool)
	if x.kind == "init" {
		x.tx, err = s.c.InitState(&id, &old, &to, cp)
	} else {
		x.tx, err = s.c.SetState(&id, &to, cp)
	}
	if err != nil {
		return fmt.Errorf("the submission failed: %w", err)
	}
	if len(s.n.Pool) != nsend+1 {
		return fmt.Errorf("%d transactions were sent", len(s.n.Pool)-nsend)
	}
	if err := s.checkTx(x, s.n.Pool[nsend], wantID, p); err != nil {
		return err
	}
	if x.kind == "init" {
		x.ltx, x.lerr = s.l.InitState(&id, &old, &to, cp)
	} else {
		x.ltx, x.lerr = s.l.SetState(&id, &to, cp)
	}
	id, old, to = core.ID{5}, merkletree.Hash{6}, merkletree.Hash{7}
	if x.lerr == nil && x.ltx == nil {
		return fmt.Errorf("the local chain returned neither a transaction nor an error")
	}
	s.subs = append(s.subs, x)
	return nil
}

// checkTx compares what was sent with what was submitted.
func (s *sys) checkTx(x *sub, tx *types.Transaction, id *big.Int, p *zktypes.Proof) error {
	var args []byte
	put := func(b *big.Int) {
		w := make([]byte, 32)
		y := b.Bytes()
		copy(w[32-len(y):], y)
		args = append(args, w...)
	}
	old, to := state(x.i, x.from), state(x.i, x.to)
	sig := "setState(uint256,uint256,uint256[2],uint256[2][2],uint256[2])"
	put(num(to[:]))
	if x.kind == "init" {
		sig = "initState(uint256,uint256,uint256,uint256[2],uint256[2][2],uint256[2])"
		put(num(old[:]))
	}
	put(id)
	args = append(args, ethnode.ProofWords(p)...)
	want := append(crypto.Keccak256([]byte(sig))[:4], args...)
	if !bytes.Equal(tx.Data(), want) {
		return fmt.Errorf("the transaction carries\n%x, not\n%x", tx.Data(), want)
	}
	if tx.To() == nil || *tx.To() != s.n.Addr || tx.Value().Sign() != 0 {
		return fmt.Errorf("the transaction is sent to %v with value %v", tx.To(), tx.Value())
	}
	from, err := types.Sender(types.HomesteadSigner{}, tx)
	if err != nil || from != acc.Acc.Address {
		return fmt.Errorf("the transaction is sent by %v (%v)", from, err)
	}
	if tx.Hash() != x.tx.Hash() {
		return fmt.Errorf("the transaction returned is not the one sent")
	}
	return nil
}

func (s *sys) mine() error {
	var was [nIds]int
	copy(was[:], s.at[:])
	s.n.Mine(15)
	var now []*sub
	for _, x := range s.subs {
		if x.done {
			continue
		}
		x.done, x.block = true, s.n.Head.N
		now = append(now, x)
		h := s.hist[x.i]
		// The reference contract.
		switch {
		case x.bad:
		case x.kind == "init":
			x.ok = len(h) == 0 // from any state, if proven
		default:
			x.ok = len(h) > 0 && h[len(h)-1].n != s.n.Head.N && x.from == s.at[x.i]
		}
		if x.ok {
			s.hist[x.i] = append(h, rec{s.n.Head.N, int64(s.n.Head.Ts), state(x.i, x.to)})
			s.at[x.i] = x.to
		}
		if inc := s.n.Done[x.tx.Hash()]; (inc.Status == 1) != x.ok {
			return fmt.Errorf("harness: %s of identity %d from %d to %d (wrong %v): the contract says %d (%v), the reference %v", x.kind, x.i, x.from, x.to, x.bad, inc.Status, inc.Err, x.ok)
		}
		if (x.lerr == nil) != x.ok {
			return fmt.Errorf("%s of identity %d from state %d (it was in %d) to %d, wrong %v: the contract accepted it: %v, the local chain answered %v", x.kind, x.i, x.from, was[x.i], x.to, x.bad, x.ok, x.lerr)
		}
	}
	s.lb = s.n.Head.N
	s.l.Sync()
	for _, x := range now {
		if !x.ok {
			continue
		}
		n, err := s.l.TxConfirmBlocks(x.ltx)
		if err != nil || n.Sign() != 0 {
			return fmt.Errorf("confirmations on the local chain in the block of the transaction: %v (%v)", n, err)
		}
	}
	return s.confirms()
}

// confirms compares the confirmations of every submission.
func (s *sys) confirms() error {
	for _, x := range s.subs {
		n, err := s.c.TxConfirmBlocks(x.tx)
		switch {
		case !x.done:
			if err != eth.ErrReceiptNotReceived {
				return fmt.Errorf("a waiting transaction: %v (%v)", n, err)
			}
			continue
		case !x.ok:
			if err != eth.ErrReceiptStatusFailed {
				return fmt.Errorf("a reverted transaction: %v (%v)", n, err)
			}
			continue
		}
		want := new(big.Int).SetUint64(s.n.Head.N - x.block)
		if err != nil || n.Cmp(want) != 0 {
			return fmt.Errorf("a transaction in block %d at %d: %v confirmations (%v)", x.block, s.n.Head.N, n, err)
		}
		s.lb = s.n.Head.N
		n, err = s.l.TxConfirmBlocks(x.ltx)
		s.lb = s.n.Head.N + 1
		if err != nil || n.Cmp(want) != 0 {
			return fmt.Errorf("a transaction in block %d at %d: %v confirmations (%v) on the local chain", x.block, s.n.Head.N, n, err)
		}
	}
	s.lb = s.n.Head.N + 1
	return nil
}

func same(d *proof.IdenStateData, err error, r *rec) bool {
	return err == nil && d != nil && d.BlockN == r.n && d.BlockTs == r.ts && *d.IdenState == r.s
}

func show(d *proof.IdenStateData, err error) string {
	if err != nil {
		return "error " + err.Error()
	}
	return fmt.Sprintf("block %d, time %d, state %x", d.BlockN, d.BlockTs, d.IdenState[:])
}

func is(err error, l ...error) bool {
	for _, e := range l {
		if errors.Is(err, e) {
			return true
		}
	}
	return false
}

var absent = []error{idenpubonchain.ErrIdenNotOnChain, idenpubonchain.ErrIdenNotOnChainOrBlockTooNew, idenpubonchain.ErrIdenNotOnChainOrTimeTooNew}

// observeState compares the latest states.
func (s *sys) observeState() error {
	for i := 0; i <= nIds; i++ {
		id := ident(i)
		var h []rec
		if i < nIds {
			h = s.hist[i]
		}
		for k, ch := range []idenpubonchain.IdenPubOnChainer{s.c, s.l} {
			name := []string{"client", "local chain"}[k]
			d, err := ch.GetState(&id)
			if len(h) == 0 {
				if err != idenpubonchain.ErrIdenNotOnChain || d != nil {
					return fmt.Errorf("%s: the state of an identity that is not on chain: %s", name, show(d, err))
				}
			} else if !same(d, err, &h[len(h)-1]) {
				return fmt.Errorf("%s: the state of identity %d is %s, recorded %v", name, i, show(d, err), h[len(h)-1])
			}
			if err == nil {
				scribbleData(d)
			}
		}
	}
	return nil
}

// observe asks for everything (the contract only if it can have changed).
func (s *sys) observe(mined bool) error {
	if err := s.observeState(); err != nil {
		return err
	}
	if err := s.confirms(); err != nil {
		return err
	}
	for round := 0; round < 2; round++ {
		for i := 0; i <= nIds; i++ {
			id := ident(i)
			var h []rec
			if i < nIds {
				h = s.hist[i]
			}
			for b := uint64(8); b <= s.n.Head.N+2; b++ {
				if round == 0 && mined {
					if err := s.real("getStateDataByBlock", i, b, at(h, func(r rec) bool { return r.n <= b })); err != nil {
						return err
					}
				}
				d, err := s.l.GetStateByBlock(&id, b)
				if e := judge(fmt.Sprintf("local chain: identity %d at block %d", i, b), at(h, func(r rec) bool { return r.n == b }), pick(len(h) > 0, idenpubonchain.ErrIdenByBlockNotFound, idenpubonchain.ErrIdenNotOnChain), d, err); e != nil {
					return e
				}
			}
			for n := int64(8); n <= int64(s.n.Head.N)+2; n++ {
				for _, e := range []int64{-1, 0, 1} {
					t := 1000 + (n-10)*15 + e
					if round == 0 && mined && (e == 0 || t == 1014) {
						if err := s.real("getStateDataByTime", i, uint64(t), at(h, func(r rec) bool { return r.ts <= t })); err != nil {
							return err
						}
					}
					d, err := s.l.GetStateByTime(&id, t)
					if e := judge(fmt.Sprintf("local chain: identity %d at time %d", i, t), at(h, func(r rec) bool { return r.ts == t }), pick(len(h) > 0, idenpubonchain.ErrIdenByTimeNotFound, idenpubonchain.ErrIdenNotOnChain), d, err); e != nil {
						return e
					}
				}
			}
		}
	}
	return nil
}

// real asks the client for the block or time and compares with what the
// contract answers, and that with the reference.
func (s *sys) real(method string, i int, x uint64, floor *rec) error {
	id := ident(i)
	in, err := ethnode.StateABI.Pack(method, num(id[:]), x)
	if err != nil {
		return err
	}
	out, cerr := s.n.View(s.n.Addr, in)
	var want *rec
	if cerr == nil {
		if len(out) != 96 {
			return fmt.Errorf("harness: the contract answers %d bytes", len(out))
		}
		w := func(k int) *big.Int { return new(big.Int).SetBytes(out[32*k : 32*k+32]) }
		if w(2).Sign() != 0 {
			want = &rec{n: w(0).Uint64(), ts: w(1).Int64()}
			for k := 0; k < 32; k++ {
				want.s[k] = out[95-k]
			}
			if floor == nil || *want != *floor {
				return fmt.Errorf("harness: the contract answers %v, recorded %v", *want, floor)
			}
		} else if floor != nil {
			return fmt.Errorf("harness: the contract answers nothing, recorded %v", *floor)
		}
	}
	var d1, d2 *proof.IdenStateData
	var e1, e2 error
	missing, not := idenpubonchain.ErrIdenNotOnChainOrBlockTooNew, idenpubonchain.ErrIdenByBlockNotFound
	for _, strict := range []bool{false, true} {
		if strict && cerr == nil {
			break
		}
		s.n.Strict = strict
		exact := want
		if method == "getStateDataByBlock" {
			d1, e1 = s.c.GetStateClosestToBlock(&id, x)
			d2, e2 = s.c.GetStateByBlock(&id, x)
			if want != nil && want.n != x {
				exact = nil
			}
		} else {
			missing, not = idenpubonchain.ErrIdenNotOnChainOrTimeTooNew, idenpubonchain.ErrIdenByTimeNotFound
			d1, e1 = s.c.GetStateClosestToTime(&id, int64(x))
			d2, e2 = s.c.GetStateByTime(&id, int64(x))
			if want != nil && want.ts != int64(x) {
				exact = nil
			}
		}
		what := fmt.Sprintf("%s of identity %d for %d", method, i, x)
		if cerr != nil {
			// The contract fails (blocks not made yet or before the first record).
			for k, e := range []error{e1, e2} {
				if e == nil || is(e, absent...) || is(e, not) {
					return fmt.Errorf("%s: the contract fails with %v, the client answers %s", what, cerr, show([]*proof.IdenStateData{d1, d2}[k], e))
				}
			}
			continue
		}
		if err := judge(what, want, missing, d1, e1); err != nil {
			return err
		}
		if err := judge("exactly: "+what, exact, pick(want != nil, not, missing), d2, e2); err != nil {
			return err
		}
	}
	return nil
}

func pick(c bool, a, b error) error {
	if c {
		return a
	}
	return b
}

func judge(what string, want *rec, missing error, d *proof.IdenStateData, err error) error {
	if want != nil {
		if !same(d, err, want) {
			return fmt.Errorf("%s: %s, recorded %v", what, show(d, err), *want)
		}
		scribbleData(d)
		return nil
	}
	if err == nil || d != nil || !is(err, missing) {
		return fmt.Errorf("%s: %s, expected %v", what, show(d, err), missing)
	}
	return nil
}

func at(h []rec, f func(rec) bool) *rec {
	for i := len(h) - 1; i >= 0; i-- {
		if f(h[i]) {
			return &h[i]
		}
	}
	return nil
}
