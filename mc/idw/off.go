package idw

import (
	"bytes"
	"fmt"

	"github.com/iden3/go-iden3-core/components/idenpuboffchain"
	"github.com/iden3/go-iden3-core/core"
	"github.com/iden3/go-iden3-core/merkletree"
	"verif/mc/sched"
)

// Off is the off-chain store: what is published is what the trees hold when
// publishing, as bytes.
type Off struct {
	Link string
	Data map[core.ID]map[merkletree.Hash]*idenpuboffchain.PublicDataBlobs
	Log  []merkletree.Hash
	Last map[core.ID]merkletree.Hash
	Hook func() error
	// After runs after a publication.
	After  func()
	Points bool
	// Bad is the first inconsistency of a publication.
	Bad error
}

// NewOff makes an empty store.
func NewOff(link string) *Off {
	return &Off{Link: link, Data: map[core.ID]map[merkletree.Hash]*idenpuboffchain.PublicDataBlobs{}, Last: map[core.ID]merkletree.Hash{}}
}

func (o *Off) Url() string { return o.Link }

func (o *Off) Publish(id *core.ID, d *idenpuboffchain.PublicData) error {
	if o.Points {
		sched.P()
	}
	if o.Hook != nil {
		if err := o.Hook(); err != nil {
			return err
		}
	}
	var ret, rot bytes.Buffer
	if err := d.RootsTree.DumpTree(&rot, d.RootsTreeRoot); err != nil {
		return err
	}
	if err := d.RevocationsTree.DumpTree(&ret, d.RevocationsTreeRoot); err != nil {
		return err
	}
	b := &idenpuboffchain.PublicDataBlobs{IdenState: *d.IdenState, ClaimsTreeRoot: *d.ClaimsTreeRoot,
		RevocationsTreeRoot: *d.RevocationsTreeRoot, RevocationsTree: ret.Bytes(),
		RootsTreeRoot: *d.RootsTreeRoot, RootsTree: rot.Bytes()}
	if RefState(b.ClaimsTreeRoot, b.RevocationsTreeRoot, b.RootsTreeRoot) != b.IdenState && o.Bad == nil {
		o.Bad = fmt.Errorf("published roots are not those of the published state")
	}
	if o.Data[*id] == nil {
		o.Data[*id] = map[merkletree.Hash]*idenpuboffchain.PublicDataBlobs{}
	}
	o.Data[*id][b.IdenState] = b
	o.Log = append(o.Log, b.IdenState)
	o.Last[*id] = b.IdenState
	if o.After != nil {
		o.After()
	}
	return nil
}

func (o *Off) GetPublicData(url string, id *core.ID, state *merkletree.Hash) (*idenpuboffchain.PublicData, error) {
	if o.Points {
		sched.P()
	}
	if url != o.Link {
		return nil, fmt.Errorf("no server at %q", url)
	}
	s := o.Last[*id]
	if state != nil {
		s = *state
	}
	b, ok := o.Data[*id][s]
	if !ok {
		return nil, fmt.Errorf("no public data of that state")
	}
	c := *b
	return idenpuboffchain.NewPublicDataFromBlobs(&c)
}

// Clone copies the store (without hooks).
func (o *Off) Clone() *Off {
	n := NewOff(o.Link)
	for id, m := range o.Data {
		n.Data[id] = map[merkletree.Hash]*idenpuboffchain.PublicDataBlobs{}
		for k, v := range m {
			n.Data[id][k] = v
		}
	}
	for k, v := range o.Last {
		n.Last[k] = v
	}
	n.Log = append([]merkletree.Hash{}, o.Log...)
	return n
}
