ID="c30-pending-receipt"; PROP="C30"
NEEDS="a node that answers once with the failed receipt of a transaction after an error, within one wait"
BREAKS="an error of the node during a wait is kept and returned even though the receipt arrives later"
EDITS=[("eth/client.go","""	log.WithField("tx", txid.Hex()).Debug("Successfull transaction")

	return receipt, err
""","""	log.WithField("tx", txid.Hex()).Debug("Successfull transaction")

	return receipt, lastErr
"""),("eth/client.go","""	start := time.Now()
	for {
""","""	start := time.Now()
	var lastErr error
	for {
		if err != nil && err != ethereum.NotFound {
			lastErr = err
		}
"""),("eth/client.go",'''	"github.com/ethereum/go-ethereum/accounts"
''','''	"github.com/ethereum/go-ethereum"
	"github.com/ethereum/go-ethereum/accounts"
''')]
PKG="eth"
NEEDS="a node that fails once while the receipt is waited for, and then has it"
TEST='''package eth

import (
	"context"
	"encoding/json"
	"errors"
	"math/big"
	"testing"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/ethclient"
	"github.com/ethereum/go-ethereum/rpc"
)

type zzNode struct{ n *int }

func (n zzNode) GetTransactionReceipt(_ context.Context, h common.Hash) (json.RawMessage, error) {
	*n.n++
	switch *n.n {
	case 1:
		return json.RawMessage("null"), nil
	case 2:
		return nil, errors.New("busy")
	}
	return json.Marshal(&types.Receipt{Status: 1, CumulativeGasUsed: 1, GasUsed: 1, Logs: []*types.Log{}, TxHash: h, BlockNumber: big.NewInt(11)})
}

func TestZZDemo(t *testing.T) {
	srv := rpc.NewServer()
	n := 0
	if err := srv.RegisterName("eth", zzNode{&n}); err != nil {
		t.Fatal(err)
	}
	c := NewClient(ethclient.NewClient(rpc.DialInProc(srv)), nil, nil)
	r, err := c.WaitReceipt(types.NewTransaction(3, common.HexToAddress("0x5"), big.NewInt(0), 5, big.NewInt(6), nil))
	if err != nil || r == nil || r.BlockNumber.Int64() != 11 {
		t.Fatal(r, err)
	}
}
'''
