package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/big"
	"time"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/common/hexutil"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/iden3/go-iden3-core/components/idenpubonchain"
	"github.com/iden3/go-iden3-core/components/idenpubonchain/local"
	"github.com/iden3/go-iden3-core/core"
	"github.com/iden3/go-iden3-core/core/proof"
	"github.com/iden3/go-iden3-core/eth"
	"github.com/iden3/go-iden3-core/merkletree"
	"verif/mc/ethnode"
	"verif/mc/lin"
	"verif/mc/mcx"
	"verif/mc/sched"
	"verif/mc/vzk"
)

type query struct {
	name string
	sig  string
	f    func(c *idenpubonchain.IdenPubOnChain, id *core.ID, at uint64) (*proof.IdenStateData, error)
	// exact: only an answer for the very block (0) or time (1)
	exact int
}

var queries = []query{
	{"GetState", "getStateDataById(uint256)", func(c *idenpubonchain.IdenPubOnChain, id *core.ID, at uint64) (*proof.IdenStateData, error) {
		return c.GetState(id)
	}, -1},
	{"GetStateByBlock", "getStateDataByBlock(uint256,uint64)", func(c *idenpubonchain.IdenPubOnChain, id *core.ID, at uint64) (*proof.IdenStateData, error) {
		return c.GetStateByBlock(id, at)
	}, 0},
	{"GetStateClosestToBlock", "getStateDataByBlock(uint256,uint64)", func(c *idenpubonchain.IdenPubOnChain, id *core.ID, at uint64) (*proof.IdenStateData, error) {
		return c.GetStateClosestToBlock(id, at)
	}, -1},
	{"GetStateByTime", "getStateDataByTime(uint256,uint64)", func(c *idenpubonchain.IdenPubOnChain, id *core.ID, at uint64) (*proof.IdenStateData, error) {
		return c.GetStateByTime(id, int64(at))
	}, 1},
	{"GetStateClosestToTime", "getStateDataByTime(uint256,uint64)", func(c *idenpubonchain.IdenPubOnChain, id *core.ID, at uint64) (*proof.IdenStateData, error) {
		return c.GetStateClosestToTime(id, int64(at))
	}, -1},
}

func words(n, ts uint64, s *big.Int) []byte {
	r := make([]byte, 96)
	binary.BigEndian.PutUint64(r[24:], n)
	binary.BigEndian.PutUint64(r[56:], ts)
	b := s.Bytes()
	copy(r[96-len(b):], b)
	return r
}

func client() (*ethnode.Node, *idenpubonchain.IdenPubOnChain) {
	n := ethnode.New(ethnode.Block{N: 10, Ts: 1000})
	return n, idenpubonchain.New(eth.NewClient(n.Client, &acc.Acc, acc.Ks), idenpubonchain.ContractAddresses{IdenStates: n.Addr})
}

// values: every answer comes back exactly, and requests carry exactly what is
// asked.
func values(c *mcx.Ctx) {
	var states []*big.Int
	for i := uint(0); i < 256; i++ {
		states = append(states, new(big.Int).Lsh(big.NewInt(1), i))
	}
	m := new(big.Int).Lsh(big.NewInt(1), 256)
	states = append(states, new(big.Int).Sub(m, big.NewInt(1)), big.NewInt(255), big.NewInt(256), num(bytes.Repeat([]byte{0xab, 1}, 16)))
	var nums []uint64
	for i := uint(0); i < 64; i++ {
		nums = append(nums, 1<<i)
		if i%8 == 0 {
			nums = append(nums, 1<<i-1)
		}
	}
	nums = append(nums, 1<<63-1, 12345678901234567)
	var ids []core.ID
	for i := 0; i < 31*8; i++ {
		var id core.ID
		id[i/8] = 1 << uint(i%8)
		ids = append(ids, id)
	}
	full := core.ID{}
	for i := range full {
		full[i] = byte(0xff - i)
	}
	ids = append(ids, full, core.ID{})
	c.Each("values", len(queries), func(i int) string { return queries[i].name }, func(i int) error {
		q := queries[i]
		n, cl := client()
		defer n.Close()
		one := func(id core.ID, at, bn, ts uint64, s *big.Int) error {
			n.Hook = func(m string, _ int) *ethnode.Reply {
				if m == "call" {
					return &ethnode.Reply{Result: hexutil.Bytes(words(bn, ts, s))}
				}
				return nil
			}
			in := id
			d, err := q.f(cl, &in, at)
			var want []byte
			want = append(want, crypto.Keccak256([]byte(q.sig))[:4]...)
			want = append(want, common.LeftPadBytes(num(id[:]).Bytes(), 32)...)
			if q.name != "GetState" {
				want = append(want, common.LeftPadBytes(new(big.Int).SetUint64(at).Bytes(), 32)...)
			}
			if !bytes.Equal(n.LastCall.Data, want) || n.LastCall.To != n.Addr {
				return fmt.Errorf("%s of %x at %d asks %x at %x", q.name, id[:], at, n.LastCall.Data, n.LastCall.To[:])
			}
			if in != id {
				return fmt.Errorf("%s changed the identifier", q.name)
			}
			switch {
			case q.exact == 0 && bn != at:
				if err != idenpubonchain.ErrIdenByBlockNotFound {
					return fmt.Errorf("asked for block %d, answer for %d: %s", at, bn, show(d, err))
				}
				return nil
			case q.exact == 1 && ts != at:
				if err != idenpubonchain.ErrIdenByTimeNotFound {
					return fmt.Errorf("asked for time %d, answer for %d: %s", at, ts, show(d, err))
				}
				return nil
			}
			if err != nil {
				return fmt.Errorf("%s: %w", q.name, err)
			}
			if d.BlockN != bn || d.BlockTs != int64(ts) || num(d.IdenState[:]).Cmp(s) != 0 {
				return fmt.Errorf("%s: %s for block %d, time %d, state %x", q.name, show(d, err), bn, ts, s)
			}
			return nil
		}
		for _, s := range states {
			if err := one(full, 7, 7, 7, s); err != nil {
				return err
			}
		}
		for _, x := range nums {
			for _, y := range nums {
				if err := one(full, x, x, y, states[3]); err != nil {
					return err
				}
				if err := one(full, y, x, y, states[3]); err != nil {
					return err
				}
			}
		}
		for _, id := range ids {
			if err := one(id, 9, 9, 9, states[200]); err != nil {
				return err
			}
		}
		c.AddTransitions(len(states) + 2*len(nums)*len(nums) + len(ids))
		return nil
	})
}

type fault struct {
	name  string
	r     ethnode.Reply
	empty bool // the output is empty, so the code is asked for
}

func callFaults() (r []fault) {
	good := words(10, 1000, big.NewInt(12345))
	r = append(r, fault{"error", ethnode.Reply{Err: ethnode.Refused}, false},
		fault{"null", ethnode.Reply{}, true},
		fault{"number", ethnode.Reply{Result: 7}, false},
		fault{"object", ethnode.Reply{Result: map[string]int{"a": 1}}, false},
		fault{"list", ethnode.Reply{Result: []int{1}}, false},
		fault{"bool", ethnode.Reply{Result: true}, false},
		fault{"no text", ethnode.Reply{Result: ""}, false},
		fault{"no hex", ethnode.Reply{Result: "0xzz"}, false},
		fault{"no prefix", ethnode.Reply{Result: "00"}, false},
		fault{"odd", ethnode.Reply{Result: "0x0"}, false})
	for n := 0; n < 96; n++ {
		r = append(r, fault{fmt.Sprintf("%d bytes", n), ethnode.Reply{Result: hexutil.Bytes(good[:n])}, n == 0})
	}
	return
}

// failures of the node are errors, and not the absence of the identity.
func failures(c *mcx.Ctx) {
	for _, q := range queries {
		for _, f := range callFaults() {
			codes := []*ethnode.Reply{nil}
			if f.empty {
				codes = append(codes, &ethnode.Reply{Err: ethnode.Refused}, &ethnode.Reply{Result: "0x"}, &ethnode.Reply{}, &ethnode.Reply{Result: 7}, &ethnode.Reply{Result: "zz"})
			}
			for k, code := range codes {
				q, f, code := q, f, code
				c.Case("failures", fmt.Sprintf("%s: %s, code %d", q.name, f.name, k), func() error {
					n, cl := client()
					defer n.Close()
					n.Hook = func(m string, _ int) *ethnode.Reply {
						switch m {
						case "call":
							r := f.r
							return &r
						case "getCode":
							return code
						}
						return nil
					}
					for i := 0; i <= nIds; i++ {
						id := ident(i)
						d, err := q.f(cl, &id, 10)
						if err == nil || d != nil {
							return fmt.Errorf("data: %s", show(d, err))
						}
						if is(err, absent...) || is(err, idenpubonchain.ErrIdenByBlockNotFound, idenpubonchain.ErrIdenByTimeNotFound) {
							return fmt.Errorf("reported as absent: %v", err)
						}
					}
					return nil
				})
			}
		}
		q := q
		c.Case("failures", q.name+": the node is gone", func() error {
			n, cl := client()
			n.Close()
			id := ident(0)
			d, err := q.f(cl, &id, 10)
			if err == nil || d != nil || is(err, absent...) {
				return fmt.Errorf("%s", show(d, err))
			}
			return nil
		})
	}
	// Submissions.
	bad := []ethnode.Reply{{Err: ethnode.Refused}, {}, {Result: 7}, {Result: "zz"}, {Result: []int{}}}
	for _, m := range []string{"gasPrice", "getTransactionCount", "sendRawTransaction"} {
		for k := range bad {
			if m == "sendRawTransaction" && k > 0 {
				break // the hash in the answer is not used
			}
			for _, kind := range []string{"init", "set"} {
				m, k, kind := m, k, kind
				c.Case("submission failures", fmt.Sprint(m, " ", k, " ", kind), func() error {
					n, cl := client()
					defer n.Close()
					n.Hook = func(x string, _ int) *ethnode.Reply {
						if x == m {
							return &bad[k]
						}
						return nil
					}
					tx, err := send(cl, kind)
					if m == "gasPrice" && k == 1 || m == "getTransactionCount" && k == 1 {
						// null reads as zero
						return nil
					}
					if err == nil || tx {
						return fmt.Errorf("no error, or a transaction with it (%v)", err)
					}
					if len(n.Pool) != 0 {
						return fmt.Errorf("a transaction was sent")
					}
					return nil
				})
			}
		}
	}
	for k, cl := range []func(n *ethnode.Node) *eth.Client{
		func(n *ethnode.Node) *eth.Client { return eth.NewClient(n.Client, nil, nil) },
		func(n *ethnode.Node) *eth.Client { return eth.NewClient(n.Client, nil, acc.Ks) },
		func(n *ethnode.Node) *eth.Client { return eth.NewClient(n.Client, &locked.Acc, locked.Ks) },
	} {
		for _, kind := range []string{"init", "set"} {
			k, cl, kind := k, cl, kind
			c.Case("submission failures", fmt.Sprint("account ", k, " ", kind), func() error {
				n := ethnode.New(ethnode.Block{N: 10, Ts: 1000})
				defer n.Close()
				tx, err := send(idenpubonchain.New(cl(n), idenpubonchain.ContractAddresses{IdenStates: n.Addr}), kind)
				if err == nil || tx || len(n.Pool) != 0 {
					return fmt.Errorf("sent without an unlocked account (%v)", err)
				}
				if k < 2 && !is(err, eth.ErrAccountNil) {
					return fmt.Errorf("without an account: %v", err)
				}
				return nil
			})
		}
	}
}

func send(cl *idenpubonchain.IdenPubOnChain, kind string) (bool, error) {
	id, g, s := ident(0), state(0, 0), state(0, 1)
	if kind == "init" {
		tx, err := cl.InitState(&id, &g, &s, zkp(0, 0, 1))
		return tx != nil, err
	}
	tx, err := cl.SetState(&id, &s, zkp(0, 0, 1))
	return tx != nil, err
}

// loc is a local chain for concurrent use.
type loc struct {
	l *local.IdenPubOnChain
	b uint64
}

func conc(name string, init []int, threads [][]lin.Op, bound int) sched.Harness {
	return lin.Harness(name, lin.Sys{
		New: func() (interface{}, func(), error) {
			s := &loc{b: 10}
			s.l = local.New(func() time.Time { return time.Unix(int64(s.b), 0) }, func() uint64 { return s.b }, vk)
			for k, n := range init {
				id, a, b := ident(0), state(0, 0), state(0, n)
				var err error
				if k == 0 {
					_, err = s.l.InitState(&id, &a, &b, zkp(0, 0, n))
				} else {
					_, err = s.l.SetState(&id, &b, zkp(0, init[k-1], n))
				}
				if err != nil {
					return nil, nil, err
				}
				s.l.Sync()
				s.b++
			}
			return s, nil, nil
		},
		Final: func(x interface{}) string {
			s := x.(*loc)
			s.l.Sync()
			r := ""
			for i := 0; i < nIds; i++ {
				id := ident(i)
				for b := uint64(9); b < s.b+3; b++ {
					d, err := s.l.GetStateByBlock(&id, b)
					r += show(d, err) + ";"
				}
			}
			return r
		},
	}, threads, bound)
}

func opInit(i, to int) lin.Op {
	return lin.Op{Name: fmt.Sprint("init ", i, " ", to), Run: func(x interface{}) string {
		id, a, b := ident(i), state(i, 0), state(i, to)
		_, err := x.(*loc).l.InitState(&id, &a, &b, zkp(i, 0, to))
		return lin.Err(err)
	}}
}

func opSet(i, from, to int) lin.Op {
	return lin.Op{Name: fmt.Sprint("set ", i, " ", from, to), Run: func(x interface{}) string {
		id, b := ident(i), state(i, to)
		_, err := x.(*loc).l.SetState(&id, &b, zkp(i, from, to))
		return lin.Err(err)
	}}
}

func opSync() lin.Op {
	return lin.Op{Name: "sync", Run: func(x interface{}) string { x.(*loc).l.Sync(); return "" }}
}

func opGet(i int) lin.Op {
	return lin.Op{Name: fmt.Sprint("get ", i), Run: func(x interface{}) string {
		id := ident(i)
		d, err := x.(*loc).l.GetState(&id)
		return show(d, err)
	}}
}

func main() {
	mcx.Main("C22", "model_checking", func(c *mcx.Ctx) {
		c.Rule("A node in the process executes the repository's State contract (its byte code, with a verifier contract that accepts exactly the registered proofs) and makes blocks; the real client and the local chain are given the same submissions of two identities (first states and updates: right, proven from an older or a future state, repeated, with a proof of another transition or identity, with another genesis state, several before one block), all histories to a depth. Every transaction sent is compared byte for byte; after every step both chains are asked for every block and time around the history and every confirmation, and compared with a reference and with each other; everything handed over or returned is overwritten. All single-bit values of states, identifiers, blocks and times; every malformed, truncated or failing answer of the node to each query and submission. Concurrent submissions, synchronisations and reads of the local chain under every schedule within the preemption bound.")
		c.Assume("A proof is accepted exactly for the transition it was made for (stand-in verifier on both sides). What the contract answers for a block or time is its own: it fails for the head and later blocks and before the first record, which the client must pass on as an error other than absence, whether the node reports the failure as an error or as output.")
		var err error
		vzk.Register(&vzk.Circuit{Name: "idstate", NPublic: 3})
		if pk, err = vzk.ParsePk(vzk.File("pk", "idstate", "")); err == nil {
			vk, err = vzk.ParseVk(vzk.File("vk", "idstate", ""))
		}
		if err != nil {
			panic(err)
		}
		_ = merkletree.HashZero
		b := c.Pick(2, 3)
		sched.Explore(c, []sched.Harness{
			conc("init", nil, [][]lin.Op{{opInit(0, 1)}, {opInit(0, 2)}, {opSync()}}, b),
			conc("init and get", nil, [][]lin.Op{{opInit(0, 1), opInit(1, 1)}, {opSync(), opGet(0), opGet(1)}}, b),
			conc("set", []int{1}, [][]lin.Op{{opSet(0, 1, 2)}, {opSet(0, 1, 3)}, {opSync(), opGet(0)}}, b),
			conc("set and init", []int{1}, [][]lin.Op{{opSet(0, 1, 2), opSet(0, 2, 3)}, {opInit(0, 1), opInit(1, 1)}, {opSync()}}, b),
			conc("sync twice", []int{1, 2}, [][]lin.Op{{opSet(0, 2, 3), opSync()}, {opSync(), opGet(0)}}, b),
		}, time.Duration(c.Pick(40, 200))*time.Second)
		if c.Worker() {
			return
		}
		acc, locked = ethnode.NewAccount(), ethnode.NewAccount()
		defer acc.Close()
		defer locked.Close()
		if err := acc.Ks.Unlock(acc.Acc, "pass"); err != nil {
			panic(err)
		}
		values(c)
		failures(c)
		c.BFS(mcx.BFS{Name: "long histories", New: func() (mcx.Sys, error) {
			s, err := newSys()
			return narrow{s.(*sys)}, err
		}, Depth: c.Pick(8, 13)})
		c.BFS(mcx.BFS{Name: "histories", New: newSys, Depth: c.Pick(5, 7)})
	})
}
