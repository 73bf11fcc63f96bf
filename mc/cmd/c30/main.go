// C30: transaction confirmation is reported only for mined successful
// transactions.
package main

import (
	"errors"
	"fmt"
	"math/big"
	"strings"
	"time"

	"github.com/ethereum/go-ethereum/accounts/abi/bind"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/ethclient"
	"github.com/iden3/go-iden3-core/components/idenpubonchain"
	"github.com/iden3/go-iden3-core/eth"
	"verif/mc/ethnode"
	"verif/mc/mcx"
	"verif/mc/vtime"
)

var acc, locked *ethnode.Account

var tx = types.NewTransaction(3, common.HexToAddress("0x5"), big.NewInt(0), 5, big.NewInt(6), []byte{7})

// answer of the node about a receipt.
type answer struct {
	name string
	mk   func(block uint64) *ethnode.Reply
	// what it says: 0 nothing, 1 success, 2 failure, 3 nothing or failure
	says int
}

func edited(f func(m map[string]interface{})) func(b uint64) *ethnode.Reply {
	return func(b uint64) *ethnode.Reply {
		m := ethnode.Receipt(tx.Hash(), b, 1)
		f(m)
		return &ethnode.Reply{Result: m}
	}
}

func result(x interface{}) func(b uint64) *ethnode.Reply {
	return func(uint64) *ethnode.Reply { return &ethnode.Reply{Result: x} }
}

var answers = []answer{
	{"absent", result(nil), 0},
	{"success", func(b uint64) *ethnode.Reply { return &ethnode.Reply{Result: ethnode.Receipt(tx.Hash(), b, 1)} }, 1},
	{"failed", func(b uint64) *ethnode.Reply { return &ethnode.Reply{Result: ethnode.Receipt(tx.Hash(), b, 0)} }, 2},
	{"error", func(uint64) *ethnode.Reply { return &ethnode.Reply{Err: ethnode.Refused} }, 0},
	{"no block", edited(func(m map[string]interface{}) { delete(m, "blockNumber") }), 0},
	{"failed without block", edited(func(m map[string]interface{}) { delete(m, "blockNumber"); m["status"] = "0x0" }), 0},
	{"status of wrong type", edited(func(m map[string]interface{}) { m["status"] = "zz" }), 0},
	// more of them, used alone
	{"null block", edited(func(m map[string]interface{}) { m["blockNumber"] = nil }), 0},
	{"text", result("receipt"), 0},
	{"number", result(1), 0},
	{"list", result([]int{1, 2}), 0},
	{"true", result(true), 0},
	{"empty object", result(map[string]int{}), 0},
	{"no logs", edited(func(m map[string]interface{}) { delete(m, "logs") }), 0},
	{"no gas", edited(func(m map[string]interface{}) { delete(m, "gasUsed") }), 0},
	{"no hash", edited(func(m map[string]interface{}) { delete(m, "transactionHash") }), 0},
	{"status a list", edited(func(m map[string]interface{}) { m["status"] = []int{1} }), 0},
	{"block of wrong type", edited(func(m map[string]interface{}) { m["blockNumber"] = "seven" }), 0},
	{"block a number", edited(func(m map[string]interface{}) { m["blockNumber"] = 7 }), 0},
	{"failed with block of wrong type", edited(func(m map[string]interface{}) { m["blockNumber"] = "x"; m["status"] = "0x0" }), 0},
	{"failed, then broken logs", edited(func(m map[string]interface{}) { m["logs"] = 5; m["status"] = "0x0" }), 0},
	// A receipt of before statuses existed reads as failed.
	{"no status", edited(func(m map[string]interface{}) { delete(m, "status") }), 3},
}

const common7 = 7 // answers used in sequences

// judge compares what a wait returned with the decisive answer.
func judge(a *answer, block uint64, r *types.Receipt, err error) error {
	says := 0
	name := "nothing"
	if a != nil {
		says, name = a.says, a.name
	}
	switch {
	case says == 1:
		if err != nil || r == nil || r.Status != 1 || r.BlockNumber == nil || r.BlockNumber.Uint64() != block || r.TxHash != tx.Hash() {
			return fmt.Errorf("the node has the receipt, the client answers %v (%v)", r, err)
		}
	case says == 2 || says == 3 && err == eth.ErrReceiptStatusFailed:
		if err != eth.ErrReceiptStatusFailed {
			return fmt.Errorf("the transaction failed, the client answers %v (%v)", r, err)
		}
	default:
		if err != eth.ErrReceiptNotReceived || r != nil {
			return fmt.Errorf("the node answers %s, the client %v (%v)", name, r, err)
		}
	}
	return nil
}

// waits runs WaitReceipt over a sequence of answers; the last one is repeated.
func wait(seq []int, limit, cost time.Duration) error {
	n := ethnode.New(ethnode.Block{N: 10, Ts: 1000})
	defer n.Close()
	cl := eth.NewClient(n.Client, nil, nil)
	cl.ReceiptTimeout = limit
	return waitOn(n, cl, seq, limit, cost)
}

func waitOn(n *ethnode.Node, cl *eth.Client, seq []int, limit, cost time.Duration) error {
	n.Forget()
	const start = int64(1000000000000)
	vtime.Set(start)
	var last *answer
	asked := 0
	late := false
	n.Hook = func(m string, k int) *ethnode.Reply {
		if m != "getTransactionReceipt" {
			return nil
		}
		if last != nil && last.says != 0 {
			late = true
		}
		if k >= len(seq) {
			k = len(seq) - 1
		}
		vtime.Advance(cost)
		last = &answers[seq[k]]
		asked++
		return last.mk(9)
	}
	r, err := cl.WaitReceipt(tx)
	took := time.Duration(vtime.Now().UnixNano() - start)
	if asked == 0 {
		return fmt.Errorf("the node was not asked")
	}
	if late {
		return fmt.Errorf("the node was asked again after it had the receipt")
	}
	if err := judge(last, 9, r, err); err != nil {
		return err
	}
	if last.says == 0 && (took < limit || took > limit+time.Second+2*cost) {
		return fmt.Errorf("gave up after %v with a limit of %v", took, limit)
	}
	return nil
}

func waiting(c *mcx.Ctx) {
	n := ethnode.New(ethnode.Block{N: 10, Ts: 1000})
	defer n.Close()
	cl := eth.NewClient(n.Client, nil, nil)
	L := c.Pick(4, 5)
	total := 1
	for i := 0; i < L; i++ {
		total *= common7
	}
	for _, p := range [][2]time.Duration{{0, 0}, {100, 0}, {200, 0}, {600, 0}, {1000, 0}, {700, 150}, {600, 700}, {60000, 1000}} {
		limit, cost := p[0]*time.Millisecond, p[1]*time.Millisecond
		if limit > 5*time.Second {
			cost = time.Second
		}
		cl.ReceiptTimeout = limit
		c.Case("waiting", fmt.Sprintf("limit %v, cost %v", limit, cost), func() error {
			for k := 0; k < total; k++ {
				seq := make([]int, L)
				x := k
				for i := range seq {
					seq[i] = x % common7
					x /= common7
				}
				if err := waitOn(n, cl, seq, limit, cost); err != nil {
					var s []string
					for _, i := range seq {
						s = append(s, answers[i].name)
					}
					return fmt.Errorf("%s: %w", strings.Join(s, ", "), err)
				}
				c.AddTraces(1)
			}
			for i := range answers {
				for j := range answers {
					for _, seq := range [][]int{{i}, {i, j}, {0, i, j}} {
						if err := waitOn(n, cl, seq, limit, cost); err != nil {
							return fmt.Errorf("%s, %s: %w", answers[i].name, answers[j].name, err)
						}
						c.AddTraces(1)
					}
				}
			}
			return nil
		})
	}
}

// heads a node can answer with.
type head struct {
	name string
	r    func() *ethnode.Reply
	n    int64 // -1: no number
}

func header(f func(m map[string]interface{})) func() *ethnode.Reply {
	return func() *ethnode.Reply {
		m := ethnode.Header(ethnode.Block{N: 12, Ts: 1})
		f(m)
		return &ethnode.Reply{Result: m}
	}
}

func heads() []head {
	r := []head{
		{"error", func() *ethnode.Reply { return &ethnode.Reply{Err: ethnode.Refused} }, -1},
		{"null", func() *ethnode.Reply { return &ethnode.Reply{} }, -1},
		{"text", func() *ethnode.Reply { return &ethnode.Reply{Result: "0xc"} }, -1},
		{"number", func() *ethnode.Reply { return &ethnode.Reply{Result: 12} }, -1},
		{"empty", func() *ethnode.Reply { return &ethnode.Reply{Result: map[string]int{}} }, -1},
		{"no number", header(func(m map[string]interface{}) { delete(m, "number") }), -1},
		{"null number", header(func(m map[string]interface{}) { m["number"] = nil }), -1},
		{"number a text", header(func(m map[string]interface{}) { m["number"] = "twelve" }), -1},
		{"number a list", header(func(m map[string]interface{}) { m["number"] = []int{} }), -1},
		{"number broken elsewhere", header(func(m map[string]interface{}) { m["difficulty"] = "x" }), -1},
	}
	for _, n := range []int64{0, 1, 6, 7, 8, 9, 10, 11, 255, 256, 257, 65536, 1 << 40} {
		n := n
		r = append(r, head{fmt.Sprint("head ", n), func() *ethnode.Reply {
			return &ethnode.Reply{Result: ethnode.Header(ethnode.Block{N: uint64(n), Ts: 5})}
		}, n})
	}
	return r
}

func confirmations(c *mcx.Ctx) {
	n := ethnode.New(ethnode.Block{N: 10, Ts: 1000})
	defer n.Close()
	cl := eth.NewClient(n.Client, nil, nil)
	ip := idenpubonchain.New(cl, idenpubonchain.ContractAddresses{IdenStates: n.Addr})
	for _, block := range []uint64{0, 1, 7, 9, 255, 256, 1 << 40} {
		for _, a := range answers {
			for _, h := range heads() {
				block, a, h := block, a, h
				c.Case("confirmations", fmt.Sprintf("%s in block %d, %s", a.name, block, h.name), func() error {
					vtime.Set(1000000000000)
					n.Hook = func(m string, k int) *ethnode.Reply {
						switch m {
						case "getTransactionReceipt":
							return a.mk(block)
						case "getBlockByNumber":
							return h.r()
						}
						return nil
					}
					r, err := cl.GetReceipt(tx)
					if e := judge(&a, block, r, err); e != nil {
						return e
					}
					b, err := cl.CurrentBlock()
					if h.n < 0 {
						if err == nil || b != nil {
							return fmt.Errorf("current block %v (%v)", b, err)
						}
					} else if err != nil || b.Int64() != h.n {
						return fmt.Errorf("current block %v (%v)", b, err)
					}
					x, err := ip.TxConfirmBlocks(tx)
					switch {
					case a.says == 1 && h.n >= int64(block):
						if err != nil || x.Int64() != h.n-int64(block) {
							return fmt.Errorf("%v confirmations (%v)", x, err)
						}
					case a.says == 1 && h.n >= 0:
						// The node contradicts itself.
						if err == nil && x.Int64() != h.n-int64(block) {
							return fmt.Errorf("%v confirmations", x)
						}
					default:
						if err == nil || x != nil {
							return fmt.Errorf("%v confirmations (%v)", x, err)
						}
						if a.says == 1 {
							if errors.Is(err, eth.ErrReceiptNotReceived) || errors.Is(err, eth.ErrReceiptStatusFailed) {
								return fmt.Errorf("a failing node is reported as %v", err)
							}
							return nil
						}
						if h.n < 0 && err != eth.ErrReceiptNotReceived && err != eth.ErrReceiptStatusFailed {
							return nil // both fail
						}
						return judge(&a, block, nil, err)
					}
					return nil
				})
			}
		}
	}
	// The chain grows between any two requests.
	for mask := 0; mask < 1<<6; mask++ {
		for _, status := range []uint64{0, 1} {
			mask, status := mask, status
			c.Case("growing chain", fmt.Sprintf("blocks %06b, status %d", mask, status), func() error {
				vtime.Set(1000000000000)
				h, inc := uint64(10), uint64(0)
				req := uint(0)
				grow := func() {
					if req < 6 && mask>>req&1 == 1 {
						h++
						if inc == 0 {
							inc = h
						}
					}
					req++
				}
				for call := 0; call < 3; call++ {
					var seen bool
					h0 := h
					n.Hook = func(m string, k int) *ethnode.Reply {
						grow()
						switch m {
						case "getTransactionReceipt":
							if inc == 0 {
								return &ethnode.Reply{}
							}
							seen = true
							return &ethnode.Reply{Result: ethnode.Receipt(tx.Hash(), inc, status)}
						case "getBlockByNumber":
							return &ethnode.Reply{Result: ethnode.Header(ethnode.Block{N: h, Ts: 5})}
						}
						return nil
					}
					x, err := ip.TxConfirmBlocks(tx)
					switch {
					case !seen:
						if err != eth.ErrReceiptNotReceived {
							return fmt.Errorf("call %d: waiting: %v (%v)", call, x, err)
						}
					case status == 0:
						if err != eth.ErrReceiptStatusFailed {
							return fmt.Errorf("call %d: failed: %v (%v)", call, x, err)
						}
					default:
						lo := int64(h0) - int64(inc)
						if lo < 0 {
							lo = 0
						}
						if err != nil || x.Int64() < lo || x.Int64() > int64(h)-int64(inc) {
							return fmt.Errorf("call %d: included in %d, head from %d to %d: %v (%v)", call, inc, h0, h, x, err)
						}
					}
				}
				return nil
			})
		}
	}
}

// hanging nodes (with the real clock).
func hanging(c *mcx.Ctx) {
	vtime.Real()
	for _, m := range []string{"getTransactionReceipt", "getBlockByNumber"} {
		for _, call := range []string{"GetReceipt", "WaitReceipt", "CurrentBlock", "TxConfirmBlocks"} {
			m, call := m, call
			c.Case("hanging", m+" "+call, func() error {
				n := ethnode.New(ethnode.Block{N: 10, Ts: 1000})
				defer n.Close()
				cl := eth.NewClient(n.Client, nil, nil)
				cl.ReceiptTimeout = 300 * time.Millisecond
				ip := idenpubonchain.New(cl, idenpubonchain.ContractAddresses{IdenStates: n.Addr})
				n.Hook = func(x string, k int) *ethnode.Reply {
					if x == m {
						return &ethnode.Reply{Hang: true}
					}
					if x == "getTransactionReceipt" {
						return answers[1].mk(9)
					}
					return nil
				}
				done := make(chan error, 1)
				go func() {
					var err error
					switch call {
					case "GetReceipt":
						_, err = cl.GetReceipt(tx)
					case "WaitReceipt":
						_, err = cl.WaitReceipt(tx)
					case "CurrentBlock":
						_, err = cl.CurrentBlock()
					default:
						_, err = ip.TxConfirmBlocks(tx)
					}
					done <- err
				}()
				receipt := m == "getTransactionReceipt"
				want := call == "TxConfirmBlocks" || receipt == (call != "CurrentBlock")
				select {
				case err := <-done:
					if want != (err != nil) {
						return fmt.Errorf("the answer to %s is missing: %v", m, err)
					}
					if receipt && want && err != eth.ErrReceiptNotReceived {
						return fmt.Errorf("%v", err)
					}
				case <-time.After(60 * time.Second):
					return fmt.Errorf("still waiting for a node that doesn't answer")
				}
				return nil
			})
		}
	}
}

var errFn = errors.New("the caller's function fails")

// auth: calls that need an account.
func auth(c *mcx.Ctx) {
	bad := map[string]ethnode.Reply{"error": {Err: ethnode.Refused}, "text": {Result: "zz"}, "number": {Result: 7}, "list": {Result: []int{}}, "object": {Result: map[string]int{}}}
	for name, r := range bad {
		name, r := name, r
		c.Case("auth", "gas price "+name, func() error {
			n := ethnode.New(ethnode.Block{N: 10, Ts: 1000})
			defer n.Close()
			n.Hook = func(m string, k int) *ethnode.Reply {
				if m == "gasPrice" || m == "getBalance" {
					return &r
				}
				return nil
			}
			cl := eth.NewClient(n.Client, &acc.Acc, acc.Ks)
			called := false
			t, err := cl.CallAuth(0, func(*ethclient.Client, *bind.TransactOpts) (*types.Transaction, error) {
				called = true
				return tx, nil
			})
			if err == nil || t != nil || called {
				return fmt.Errorf("without a gas price: %v %v, called %v", t, err, called)
			}
			if b, err := cl.BalanceAt(acc.Acc.Address); err == nil {
				return fmt.Errorf("balance %v", b)
			}
			return nil
		})
	}
	for _, gas := range []uint64{0, 1, 21000, 300000, 1000000, 1 << 40} {
		gas := gas
		c.Case("auth", fmt.Sprint("gas ", gas), func() error {
			n := ethnode.New(ethnode.Block{N: 10, Ts: 1000})
			defer n.Close()
			for price := int64(1); price < 1<<50; price = price*3 + 1 {
				n.Hook = func(m string, k int) *ethnode.Reply {
					if m == "gasPrice" {
						return &ethnode.Reply{Result: fmt.Sprintf("0x%x", price)}
					}
					return nil
				}
				cl := eth.NewClient(n.Client, &acc.Acc, acc.Ks)
				for k := 0; k < 2; k++ {
					var e error
					t, err := cl.CallAuth(gas, func(x *ethclient.Client, o *bind.TransactOpts) (*types.Transaction, error) {
						if x != n.Client || o.From != acc.Acc.Address || o.Value.Sign() != 0 || gas != 0 && o.GasLimit != gas || o.GasLimit == 0 {
							e = fmt.Errorf("options %v", o)
						}
						if o.GasPrice.Int64() < price || o.GasPrice.Int64() > 2*price {
							e = fmt.Errorf("price %v for a suggestion of %d", o.GasPrice, price)
						}
						if k == 1 {
							return nil, errFn
						}
						return tx, nil
					})
					if e != nil {
						return e
					}
					if k == 0 && (t != tx || err != nil) || k == 1 && (t != nil || !errors.Is(err, errFn)) {
						return fmt.Errorf("%v %v", t, err)
					}
				}
			}
			return nil
		})
	}
	mk := func(n *ethnode.Node) []*eth.Client {
		return []*eth.Client{eth.NewClient(n.Client, nil, nil), eth.NewClient(n.Client, nil, acc.Ks),
			eth.NewClient(n.Client, &locked.Acc, locked.Ks), eth.NewClient(n.Client, &acc.Acc, acc.Ks)}
	}
	for k := 0; k < 4; k++ {
		k := k
		c.Case("auth", fmt.Sprint("account ", k), func() error {
			n := ethnode.New(ethnode.Block{N: 10, Ts: 1000})
			defer n.Close()
			cl := mk(n)[k]
			called := false
			_, err := cl.CallAuth(1, func(x *ethclient.Client, o *bind.TransactOpts) (*types.Transaction, error) {
				called = true
				return o.Signer(types.HomesteadSigner{}, o.From, tx)
			})
			switch {
			case k < 2:
				if err != eth.ErrAccountNil || called {
					return fmt.Errorf("without an account: %v", err)
				}
			case k == 2:
				if err == nil {
					return fmt.Errorf("a locked account signs")
				}
			default:
				if err != nil {
					return err
				}
			}
			if (cl.Account() == nil) != (k < 2) {
				return fmt.Errorf("account %v", cl.Account())
			}
			return nil
		})
	}
}

// deploy runs DeployState with a node that fails at one or two requests and
// mines after some polls.
func deploy(c *mcx.Ctx) {
	run := func(stub bool, mineAt int, fail func(k int, m string) *ethnode.Reply) (int, error) {
		n := ethnode.New(ethnode.Block{N: 10, Ts: 1000})
		defer n.Close()
		vtime.Set(1000000000000)
		cl := eth.NewClient(n.Client, &acc.Acc, acc.Ks)
		cl.ReceiptTimeout = 2 * time.Second
		req, polls := 0, 0
		failed := 0
		n.Hook = func(m string, _ int) *ethnode.Reply {
			req++
			if m == "getTransactionReceipt" {
				polls++
				if mineAt > 0 && polls%mineAt == 0 {
					n.MineInHook(15)
				}
			}
			if r := fail(req, m); r != nil {
				failed++
				return r
			}
			return nil
		}
		var deps *idenpubonchain.StateDepsAddresses
		if stub {
			deps = &idenpubonchain.StateDepsAddresses{Verifier: &n.Stub}
		}
		res, err := idenpubonchain.DeployState(cl, deps)
		n.Hook = nil
		if err != nil {
			if failed == 0 && mineAt > 0 {
				return req, err
			}
			return req, nil
		}
		if mineAt == 0 {
			return req, fmt.Errorf("deployed without a block")
		}
		for i, d := range []eth.ContractData{res.Verifier, res.State} {
			if i == 0 && stub {
				if d.Address != n.Stub {
					return req, fmt.Errorf("the given verifier was not kept")
				}
				continue
			}
			if d.Tx == nil || d.Receipt == nil || d.Receipt.Status != 1 {
				return req, fmt.Errorf("contract %d: %v", i, d)
			}
			inc, ok := n.Done[d.Tx.Hash()]
			if !ok || inc.Status != 1 || inc.Made != d.Address || inc.Block != d.Receipt.BlockNumber.Uint64() || len(n.St.GetCode(d.Address)) == 0 {
				return req, fmt.Errorf("contract %d at %x: %v", i, d.Address, inc)
			}
		}
		return req, nil
	}
	bad := []ethnode.Reply{{Err: ethnode.Refused}, {}, {Result: 7}, {Result: "zz"}}
	for _, stub := range []bool{true, false} {
		for mineAt := 0; mineAt < 4; mineAt++ {
			stub, mineAt := stub, mineAt
			c.Case("deploy", fmt.Sprintf("verifier given %v, a block every %d polls", stub, mineAt), func() error {
				N, err := run(stub, mineAt, func(int, string) *ethnode.Reply { return nil })
				if err != nil {
					return err
				}
				for i := 1; i <= N; i++ {
					for j := i; j <= N; j++ {
						for b := range bad {
							for b2 := range bad {
								if i == j && b2 > 0 {
									continue
								}
								if _, err := run(stub, mineAt, func(k int, m string) *ethnode.Reply {
									if m == "sendRawTransaction" && (k == i && b > 0 || k == j && b2 > 0) {
										return nil
									}
									if k == i {
										return &bad[b]
									}
									if k == j {
										return &bad[b2]
									}
									return nil
								}); err != nil {
									return fmt.Errorf("requests %d and %d fail (%d, %d): %w", i, j, b, b2, err)
								}
								c.AddTraces(1)
							}
						}
						if c.Expired() {
							return nil
						}
					}
				}
				return nil
			})
		}
	}
	// Every transaction fails.
	c.Case("deploy", "reverted", func() error {
		n := ethnode.New(ethnode.Block{N: 10, Ts: 1000})
		defer n.Close()
		vtime.Set(1000000000000)
		cl := eth.NewClient(n.Client, &acc.Acc, acc.Ks)
		n.Hook = func(m string, _ int) *ethnode.Reply {
			if m == "getTransactionReceipt" {
				return answers[2].mk(11)
			}
			return nil
		}
		_, err := idenpubonchain.DeployState(cl, &idenpubonchain.StateDepsAddresses{Verifier: &n.Stub})
		if !errors.Is(err, eth.ErrReceiptStatusFailed) {
			return fmt.Errorf("%v", err)
		}
		_, err = cl.Deploy("x", func(*ethclient.Client, *bind.TransactOpts) (common.Address, *types.Transaction, interface{}, error) {
			return common.Address{1}, nil, nil, errFn
		})
		if !errors.Is(err, errFn) {
			return fmt.Errorf("%v", err)
		}
		return nil
	})
	// Errors of reads pass.
	c.Case("deploy", "reads", func() error {
		n := ethnode.New(ethnode.Block{N: 10, Ts: 1000})
		defer n.Close()
		cl := eth.NewClient(n.Client, nil, nil)
		if err := cl.Call(func(x *ethclient.Client) error { return errFn }); err != errFn {
			return fmt.Errorf("%v", err)
		}
		if err := cl.Call(func(x *ethclient.Client) error { return nil }); err != nil {
			return err
		}
		b, err := cl.BalanceAt(acc.Acc.Address)
		if err != nil || b.Int64() != 12345 {
			return fmt.Errorf("balance %v (%v)", b, err)
		}
		return nil
	})
}

func main() {
	mcx.Main("C30", "exploration", func(c *mcx.Ctx) {
		c.Rule("All sequences of answers about a receipt (absent, success, failure, error, without block, malformed) up to a length under several limits and answer times with a virtual clock; every malformed receipt in pairs; every receipt answer with every block and every answer about the head; blocks made between any two requests; nodes that don't answer at all; calls without an account, with a locked one, with failing or odd gas prices; deployments in which every request and every pair of requests fails.")
		c.Assume("The node's receipt for a transaction is believed; a receipt without status may be read as that of a failed transaction. Where the node contradicts itself (a head below the block of the receipt) either the difference or an error is accepted.")
		acc, locked = ethnode.NewAccount(), ethnode.NewAccount()
		defer acc.Close()
		defer locked.Close()
		if err := acc.Ks.Unlock(acc.Acc, "pass"); err != nil {
			panic(err)
		}
		waiting(c)
		confirmations(c)
		auth(c)
		deploy(c)
		hanging(c)
	})
}
