ID="c22-history-shared"; PROP="C22"
NEEDS="an identity on the local chain updated twice, and a query for the block or time of an older record"
BREAKS="the history of an identity keeps one record that is overwritten by each update, so the older blocks show the newest state"
EDITS=[("components/idenpubonchain/local/local.go","""	h.IdenStates = append(h.IdenStates, idenStateData)
	h.ByTime[idenStateData.BlockTs] = idenStateData
""","""	if n := len(h.IdenStates); n > 1 && cap(h.IdenStates) == n {
		// Reuse the record of the last update instead of growing forever.
		*h.IdenStates[n-1] = *idenStateData
		idenStateData = h.IdenStates[n-1]
	} else {
		h.IdenStates = append(h.IdenStates, idenStateData)
	}
	h.ByTime[idenStateData.BlockTs] = idenStateData
""")]
PKG="components/idenpubonchain/local"
TEST='''package local

import (
	"testing"

	"github.com/iden3/go-iden3-core/core/proof"
	"github.com/iden3/go-iden3-core/merkletree"
)

func TestZZDemo(t *testing.T) {
	h := NewIdenStateHistory()
	for k := byte(1); k < 9; k++ {
		h.Add(&proof.IdenStateData{BlockN: uint64(k), BlockTs: int64(k) * 10, IdenState: &merkletree.Hash{k}})
		for j := byte(1); j <= k; j++ {
			if *h.ByBlock[uint64(j)].IdenState != (merkletree.Hash{j}) || *h.ByTime[int64(j)*10].IdenState != (merkletree.Hash{j}) {
				t.Fatalf("after %d updates block %d shows %v", k, j, h.ByBlock[uint64(j)].IdenState)
			}
		}
	}
}
'''
