ID="c30-head-first"; PROP="C30"
NEEDS="a block that includes the transaction made between the request for the head and that for the receipt"
BREAKS="the head is read before the receipt, so a transaction included in between has a negative number of confirmations"
EDITS=[("components/idenpubonchain/idenpubonchain.go","""	receipt, err := ip.client.GetReceipt(tx)
	if err != nil {
		return nil, err
	}
	currentBlock, err := ip.client.CurrentBlock()
	if err != nil {
		return nil, err
	}
""","""	currentBlock, err := ip.client.CurrentBlock()
	if err != nil {
		return nil, err
	}
	receipt, err := ip.client.GetReceipt(tx)
	if err != nil {
		return nil, err
	}
""")]
PKG="components/idenpubonchain"
TEST='''package idenpubonchain

import (
	"context"
	"encoding/json"
	"math/big"
	"testing"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/ethclient"
	"github.com/ethereum/go-ethereum/rpc"
	"github.com/iden3/go-iden3-core/eth"
)

type zzNode struct{ head *int64 }

// A block is made after every answer; the transaction is in block 11.
func (n zzNode) GetBlockByNumber(_ context.Context, num string, full bool) (*types.Header, error) {
	h := &types.Header{Number: big.NewInt(*n.head), Difficulty: big.NewInt(1)}
	*n.head++
	return h, nil
}

func (n zzNode) GetTransactionReceipt(_ context.Context, h common.Hash) (json.RawMessage, error) {
	head := *n.head
	*n.head++
	if head < 11 {
		return json.RawMessage("null"), nil
	}
	return json.Marshal(&types.Receipt{Status: 1, CumulativeGasUsed: 1, GasUsed: 1, Logs: []*types.Log{}, TxHash: h, BlockNumber: big.NewInt(11)})
}

func TestZZDemo(t *testing.T) {
	for head := int64(8); head < 14; head++ {
		h := head
		srv := rpc.NewServer()
		if err := srv.RegisterName("eth", zzNode{&h}); err != nil {
			t.Fatal(err)
		}
		ip := New(eth.NewClient(ethclient.NewClient(rpc.DialInProc(srv)), nil, nil), ContractAddresses{})
		tx := types.NewTransaction(3, common.HexToAddress("0x5"), big.NewInt(0), 5, big.NewInt(6), nil)
		n, err := ip.TxConfirmBlocks(tx)
		if err == eth.ErrReceiptNotReceived {
			continue
		}
		if err != nil {
			t.Fatal(err)
		}
		if n.Sign() < 0 {
			t.Fatalf("%v confirmations", n)
		}
	}
}
'''
