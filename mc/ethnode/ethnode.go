// Package ethnode is an Ethereum node in the process: it speaks JSON-RPC with
// the real go-ethereum client, executes the repository's State contract (the
// real byte code) in the EVM, and makes blocks when told to. Its answers can be
// replaced one by one.
package ethnode

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io/ioutil"
	"math/big"
	"os"
	"strings"
	"sync"

	"github.com/ethereum/go-ethereum/accounts"
	"github.com/ethereum/go-ethereum/accounts/abi"
	ethkeystore "github.com/ethereum/go-ethereum/accounts/keystore"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/common/hexutil"
	"github.com/ethereum/go-ethereum/core/rawdb"
	"github.com/ethereum/go-ethereum/core/state"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/core/vm/runtime"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/ethereum/go-ethereum/ethclient"
	"github.com/ethereum/go-ethereum/params"
	"github.com/ethereum/go-ethereum/rlp"
	"github.com/ethereum/go-ethereum/rpc"
	zktypes "github.com/iden3/go-circom-prover-verifier/types"
	"github.com/iden3/go-iden3-core/eth/contracts"
)

// Reply is a replaced answer.
type Reply struct {
	Result interface{}
	Err    error
	Hang   bool // never answers
}

// Block of the chain.
type Block struct {
	N, Ts uint64
}

// Included is a transaction in a block.
type Included struct {
	Tx     *types.Transaction
	Block  uint64
	Status uint64
	Err    error
	Made   common.Address // of a contract
}

// Node is the node with its chain.
type Node struct {
	mu    sync.Mutex
	St    *state.StateDB
	Head  Block
	Pool  []*types.Transaction
	Done  map[common.Hash]Included
	Addr  common.Address // the State contract
	Stub  common.Address // the verifier
	Calls []string
	// Strict nodes answer failed calls with an error.
	Strict bool
	// LastCall is the last read asked for.
	LastCall CallArgs
	// Hook replaces answers; nil means the honest one.
	Hook func(method string, n int) *Reply
	n    map[string]int

	Client *ethclient.Client
	server *rpc.Server
	rpcc   *rpc.Client
	stop   chan struct{}
}

var chainConfig = params.AllEthashProtocolChanges

// stubCode verifies against a table: storage[keccak(inputs)] = keccak(a,b,c).
//
//	CALLDATACOPY(0, 260, 96); k := KECCAK(0, 96)
//	CALLDATACOPY(0, 4, 256);  v := KECCAK(0, 256)
//	return v == SLOAD(k)
var stubCode = common.FromHex(strings.Join([]string{
	"6060", "610104", "6000", "37", // calldatacopy(0,260,96)
	"6060", "6000", "20", // keccak(0,96)
	"54",                           // sload
	"610100", "6004", "6000", "37", // calldatacopy(0,4,256)
	"610100", "6000", "20", // keccak(0,256)
	"14",         // eq
	"6000", "52", // mstore(0)
	"6020", "6000", // return(0,32)
	"f3"}, ""))

var deployed struct {
	sync.Once
	code []byte
	err  error
}

// StateABI is the parsed interface of the contract.
var StateABI = func() abi.ABI {
	a, err := abi.JSON(strings.NewReader(contracts.StateABI))
	if err != nil {
		panic(err)
	}
	return a
}()

// New starts a node with the contract deployed at the given first block.
func New(head Block) *Node {
	n := &Node{Head: head, Done: map[common.Hash]Included{}, n: map[string]int{},
		Stub: common.HexToAddress("0x5700000000000000000000000000000000000001")}
	st, err := state.New(common.Hash{}, state.NewDatabase(rawdb.NewMemoryDatabase()), nil)
	if err != nil {
		panic(err)
	}
	n.St = st
	st.CreateAccount(n.Stub)
	st.SetCode(n.Stub, stubCode)
	arg, err := StateABI.Pack("", n.Stub)
	if err != nil {
		panic(err)
	}
	_, addr, _, err := runtime.Create(append(common.FromHex(contracts.StateBin), arg...), n.cfg(nil, common.HexToAddress("0xdede"), head, 10000000))
	if err != nil {
		panic(err)
	}
	n.Addr = addr
	n.start()
	return n
}

func (n *Node) start() {
	n.stop = make(chan struct{})
	n.server = rpc.NewServer()
	if err := n.server.RegisterName("eth", &service{n}); err != nil {
		panic(err)
	}
	n.rpcc = rpc.DialInProc(n.server)
	n.Client = ethclient.NewClient(n.rpcc)
}

// Close stops the node.
func (n *Node) Close() {
	close(n.stop)
	n.rpcc.Close()
	n.server.Stop()
}

func (n *Node) cfg(st *state.StateDB, from common.Address, b Block, gas uint64) *runtime.Config {
	if st == nil {
		st = n.St
	}
	return &runtime.Config{ChainConfig: chainConfig, State: st, Origin: from, GasLimit: gas,
		BlockNumber: new(big.Int).SetUint64(b.N), Time: new(big.Int).SetUint64(b.Ts)}
}

func word(x *big.Int) []byte { return common.LeftPadBytes(x.Bytes(), 32) }

// Allow makes the verifier contract accept the proof for the public signals.
func (n *Node) Allow(p *zktypes.Proof, pub ...*big.Int) {
	var in []byte
	for _, x := range pub {
		in = append(in, word(x)...)
	}
	if len(in) != 96 {
		panic("three public signals")
	}
	n.St.SetState(n.Stub, crypto.Keccak256Hash(in), crypto.Keccak256Hash(ProofWords(p)))
}

// ProofWords are the numbers of a proof as the contract takes them.
func ProofWords(p *zktypes.Proof) []byte {
	r := append([]byte{}, p.A.Marshal()...)
	r = append(r, p.B.Marshal()...)
	return append(r, p.C.Marshal()...)
}

// Mine makes a block that includes every waiting transaction.
func (n *Node) Mine(dt uint64) {
	n.mu.Lock()
	defer n.mu.Unlock()
	n.mine(dt)
}

// MineInHook is Mine for use in a hook.
func (n *Node) MineInHook(dt uint64) { n.mine(dt) }

func (n *Node) mine(dt uint64) {
	n.Head.N++
	n.Head.Ts += dt
	for _, tx := range n.Pool {
		i := Included{Tx: tx, Block: n.Head.N, Status: types.ReceiptStatusSuccessful}
		from, err := types.Sender(types.HomesteadSigner{}, tx)
		if err == nil && tx.To() == nil {
			n.St.SetNonce(from, tx.Nonce())
			_, i.Made, _, err = runtime.Create(tx.Data(), n.cfg(nil, from, n.Head, tx.Gas()))
		} else if err == nil {
			_, _, err = runtime.Call(*tx.To(), tx.Data(), n.cfg(nil, from, n.Head, tx.Gas()))
		}
		if err != nil {
			i.Status, i.Err = types.ReceiptStatusFailed, err
		}
		n.Done[tx.Hash()] = i
	}
	n.Pool = nil
}

// Drop forgets the waiting transactions.
func (n *Node) Drop() { n.Pool = nil }

func (n *Node) reply(method string) (*Reply, error) {
	n.Calls = append(n.Calls, method)
	k := n.n[method]
	n.n[method]++
	if n.Hook == nil {
		return nil, nil
	}
	r := n.Hook(method, k)
	if r == nil {
		return nil, nil
	}
	if r.Hang {
		n.mu.Unlock()
		<-n.stop
		n.mu.Lock()
		return nil, errors.New("stopped")
	}
	return r, r.Err
}

// Seen is how often a method was called; Forget sets it back.
func (n *Node) Seen(method string) int {
	n.mu.Lock()
	defer n.mu.Unlock()
	return n.n[method]
}

// Forget clears the counts of calls.
func (n *Node) Forget() {
	n.mu.Lock()
	defer n.mu.Unlock()
	n.n, n.Calls = map[string]int{}, nil
}

type service struct{ n *Node }

// CallArgs are the arguments of a read.
type CallArgs struct {
	From, To common.Address
	Data     hexutil.Bytes
}

func (s *service) Call(_ context.Context, a CallArgs, block string) (interface{}, error) {
	n := s.n
	n.mu.Lock()
	defer n.mu.Unlock()
	n.LastCall = a
	if r, err := n.reply("call"); err != nil || r != nil {
		if err != nil {
			return nil, err
		}
		return r.Result, nil
	}
	ret, err := n.View(a.To, a.Data)
	if err != nil {
		// Older nodes answer a failed call with what it returned, newer
		// ones with an error.
		if n.Strict {
			return nil, err
		}
	}
	return hexutil.Bytes(ret), nil
}

// View executes a call on the head.
func (n *Node) View(to common.Address, data []byte) ([]byte, error) {
	ret, _, err := runtime.Call(to, data, n.cfg(n.St.Copy(), common.Address{}, n.Head, 10000000))
	return ret, err
}

func (s *service) GetCode(_ context.Context, a common.Address, block string) (interface{}, error) {
	n := s.n
	n.mu.Lock()
	defer n.mu.Unlock()
	if r, err := n.reply("getCode"); err != nil || r != nil {
		if err != nil {
			return nil, err
		}
		return r.Result, nil
	}
	return hexutil.Bytes(n.St.GetCode(a)), nil
}

func (s *service) GetTransactionCount(_ context.Context, a common.Address, block string) (interface{}, error) {
	n := s.n
	n.mu.Lock()
	defer n.mu.Unlock()
	if r, err := n.reply("getTransactionCount"); err != nil || r != nil {
		if err != nil {
			return nil, err
		}
		return r.Result, nil
	}
	c := len(n.Pool)
	for range n.Done {
		c++
	}
	return hexutil.Uint64(c), nil
}

func (s *service) GasPrice(_ context.Context) (interface{}, error) {
	n := s.n
	n.mu.Lock()
	defer n.mu.Unlock()
	if r, err := n.reply("gasPrice"); err != nil || r != nil {
		if err != nil {
			return nil, err
		}
		return r.Result, nil
	}
	return (*hexutil.Big)(big.NewInt(1000)), nil
}

func (s *service) GetBalance(_ context.Context, a common.Address, block string) (interface{}, error) {
	n := s.n
	n.mu.Lock()
	defer n.mu.Unlock()
	if r, err := n.reply("getBalance"); err != nil || r != nil {
		if err != nil {
			return nil, err
		}
		return r.Result, nil
	}
	return (*hexutil.Big)(big.NewInt(12345)), nil
}

func (s *service) SendRawTransaction(_ context.Context, b hexutil.Bytes) (interface{}, error) {
	n := s.n
	n.mu.Lock()
	defer n.mu.Unlock()
	if r, err := n.reply("sendRawTransaction"); err != nil || r != nil {
		if err != nil {
			return nil, err
		}
		return r.Result, nil
	}
	tx := new(types.Transaction)
	if err := rlp.DecodeBytes(b, tx); err != nil {
		return nil, err
	}
	n.Pool = append(n.Pool, tx)
	return tx.Hash(), nil
}

func (s *service) GetTransactionReceipt(_ context.Context, h common.Hash) (interface{}, error) {
	n := s.n
	n.mu.Lock()
	defer n.mu.Unlock()
	if r, err := n.reply("getTransactionReceipt"); err != nil || r != nil {
		if err != nil {
			return nil, err
		}
		return r.Result, nil
	}
	i, ok := n.Done[h]
	if !ok {
		return nil, nil
	}
	return Receipt(h, i.Block, i.Status), nil
}

func (s *service) GetBlockByNumber(_ context.Context, num string, full bool) (interface{}, error) {
	n := s.n
	n.mu.Lock()
	defer n.mu.Unlock()
	if r, err := n.reply("getBlockByNumber"); err != nil || r != nil {
		if err != nil {
			return nil, err
		}
		return r.Result, nil
	}
	return Header(n.Head), nil
}

// Receipt is a receipt as nodes write it.
func Receipt(h common.Hash, block, status uint64) map[string]interface{} {
	r := map[string]interface{}{}
	b, err := json.Marshal(&types.Receipt{Status: status, CumulativeGasUsed: 1, TxHash: h, GasUsed: 1, Logs: []*types.Log{},
		BlockNumber: new(big.Int).SetUint64(block), BlockHash: common.BigToHash(new(big.Int).SetUint64(block))})
	if err == nil {
		err = json.Unmarshal(b, &r)
	}
	if err != nil {
		panic(err)
	}
	return r
}

// Header is a block header as nodes write it.
func Header(b Block) map[string]interface{} {
	r := map[string]interface{}{}
	j, err := json.Marshal(&types.Header{Number: new(big.Int).SetUint64(b.N), Time: b.Ts, Difficulty: big.NewInt(1)})
	if err == nil {
		err = json.Unmarshal(j, &r)
	}
	if err != nil {
		panic(err)
	}
	return r
}

// Account is an account in a key store of its own.
type Account struct {
	Dir string
	Ks  *ethkeystore.KeyStore
	Acc accounts.Account
}

// NewAccount makes an account with the passphrase "pass".
func NewAccount() *Account {
	d, err := ioutil.TempDir("", "ethks")
	if err != nil {
		panic(err)
	}
	a := &Account{Dir: d, Ks: ethkeystore.NewKeyStore(d, 2, 1)}
	k, err := crypto.ToECDSA(bytes.Repeat([]byte{7}, 32))
	if err == nil {
		a.Acc, err = a.Ks.ImportECDSA(k, "pass")
	}
	if err != nil {
		panic(err)
	}
	return a
}

// Close removes it.
func (a *Account) Close() { os.RemoveAll(a.Dir) }

// Refused is a node's error.
var Refused = fmt.Errorf("the node refuses")
