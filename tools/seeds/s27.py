ID="c22-cache-by-block"; PROP="C22"
NEEDS="one client asked for the states of two identities at the same block"
BREAKS="answers for a block are remembered under the block number alone, so the second identity is given the first one's state"
EDITS=[("components/idenpubonchain/idenpubonchain.go","""	client    *eth.Client
	addresses ContractAddresses
}
""","""	client    *eth.Client
	addresses ContractAddresses
	rw        sync.Mutex
	byBlock   map[uint64]proof.IdenStateData
}
"""),("components/idenpubonchain/idenpubonchain.go","""		addresses: addresses,
	}
}""","""		addresses: addresses,
		byBlock:   make(map[uint64]proof.IdenStateData),
	}
}"""),("components/idenpubonchain/idenpubonchain.go","""	idenStateData, err := ip.GetStateClosestToBlock(id, queryBlockN)
	if err != nil {
		return nil, err
	}
	if idenStateData.BlockN != queryBlockN {
		return nil, ErrIdenByBlockNotFound
	}
	return idenStateData, nil
""","""	// The state recorded in a block never changes, ask for it only once.
	ip.rw.Lock()
	defer ip.rw.Unlock()
	if cached, ok := ip.byBlock[queryBlockN]; ok {
		return &cached, nil
	}
	idenStateData, err := ip.GetStateClosestToBlock(id, queryBlockN)
	if err != nil {
		return nil, err
	}
	if idenStateData.BlockN != queryBlockN {
		return nil, ErrIdenByBlockNotFound
	}
	ip.byBlock[queryBlockN] = *idenStateData
	return idenStateData, nil
"""),("components/idenpubonchain/idenpubonchain.go",'''	"math/big"
''','''	"math/big"
	"sync"
''')]
PKG="components/idenpubonchain"
TEST='''package idenpubonchain

import (
	"context"
	"math/big"
	"testing"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/common/hexutil"
	"github.com/ethereum/go-ethereum/ethclient"
	"github.com/ethereum/go-ethereum/rpc"
	"github.com/iden3/go-iden3-core/core"
	"github.com/iden3/go-iden3-core/eth"
)

type zzNode struct{}

type zzArgs struct {
	To   common.Address
	Data hexutil.Bytes
}

// Call answers block 7, time 7 and the identifier plus one as state.
func (zzNode) Call(_ context.Context, a zzArgs, block string) (hexutil.Bytes, error) {
	s := new(big.Int).SetBytes(a.Data[4:36])
	s.Add(s, big.NewInt(1))
	r := append(common.LeftPadBytes([]byte{7}, 32), common.LeftPadBytes([]byte{7}, 32)...)
	return append(r, common.LeftPadBytes(s.Bytes(), 32)...), nil
}

func TestZZDemo(t *testing.T) {
	srv := rpc.NewServer()
	if err := srv.RegisterName("eth", zzNode{}); err != nil {
		t.Fatal(err)
	}
	ip := New(eth.NewClient(ethclient.NewClient(rpc.DialInProc(srv)), nil, nil), ContractAddresses{})
	for k := byte(1); k < 4; k++ {
		id := core.NewID([2]byte{}, [27]byte{k})
		for i := 0; i < 2; i++ {
			d, err := ip.GetStateByBlock(&id, 7)
			if err != nil {
				t.Fatal(err)
			}
			w := id.BigInt()
			w.Add(w, big.NewInt(1))
			if d.IdenState.BigInt().Cmp(w) != 0 {
				t.Fatalf("identity %v has state %v, not %v", id, d.IdenState.BigInt(), w)
			}
		}
		if _, err := ip.GetStateByBlock(&id, 8); err != ErrIdenByBlockNotFound {
			t.Fatal(err)
		}
	}
}
'''
