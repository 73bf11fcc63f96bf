ID="c19-long-expiry"; PROP="C19"
NEEDS="a claim whose expiration does not fit in 32 bits"
BREAKS="only the low 32 bits of the expiration are written, so a claim that is not to expire in this century is decoded with another expiration"
EDITS=[("core/claims/claim.go","""		binary.LittleEndian.PutUint64(value[0][ClaimRevNonceLen:], uint64(m.Expiration))
""","""		binary.LittleEndian.PutUint32(value[0][ClaimRevNonceLen:], uint32(m.Expiration))
""")]
PKG="core/claims"
TEST='''package claims

import (
	"testing"

	"github.com/iden3/go-iden3-core/merkletree"
)

func TestZZDemo(t *testing.T) {
	m := NewMetadata(ClaimHeader{Type: NewClaimTypeNum(7), Expiration: true})
	m.Expiration = 5000000000
	e := &merkletree.Entry{}
	m.Marshal(e)
	var b Metadata
	b.Unmarshal(e)
	if b.Expiration != m.Expiration {
		t.Fatalf("%d became %d", m.Expiration, b.Expiration)
	}
}
'''
