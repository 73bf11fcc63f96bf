exec(open("/verif/tools/seeds/s48.py").read())
ID="c32-validity-remembered"
NEEDS="a proof, the revocation of its claim, and another proof with the same holder object"
BREAKS="the validity data of a claim are got once: a claim revoked since is proven again with the data from before"
EDITS=[("identity/holder/holder.go","""	credValidData, err := h.HolderGetCredentialValidityData(credExist)
	if err != nil {
		return nil, err
	}
	credProofInputs, err""","""	credValidData, err := h.credentialValidityData(credExist)
	if err != nil {
		return nil, err
	}
	credProofInputs, err"""),("identity/holder/holder.go","""	idenPubOffChainReader idenpuboffchain.IdenPubOffChainReader
	idenPubOnChain        idenpubonchain.IdenPubOnChainer
}
""","""	idenPubOffChainReader idenpuboffchain.IdenPubOffChainReader
	idenPubOnChain        idenpubonchain.IdenPubOnChainer
	credValidData         sync.Map
}

// credentialValidityData gets the validity data of a credential, and keeps
// them in order not to ask for them for each proof.
func (h *Holder) credentialValidityData(credExist *proof.CredentialExistence) (*CredentialValidityAux, error) {
	hi, err := credExist.Claim.HIndex()
	if err != nil {
		return nil, err
	}
	if data, ok := h.credValidData.Load(*hi); ok {
		return data.(*CredentialValidityAux), nil
	}
	data, err := h.HolderGetCredentialValidityData(credExist)
	if err != nil {
		return nil, err
	}
	h.credValidData.Store(*hi, data)
	return data, nil
}
"""),("identity/holder/holder.go","""	"math/big"
""","""	"math/big"
	"sync"
""")]
TEST=SETUP+'''
func TestZZDemo(t *testing.T) {
	w := env.New(1)
	a := env.Claim(1, 1)
	if err := w.Iss.IssueClaim(a); err != nil {
		t.Fatal(err)
	}
	if err := w.Publish(); err != nil {
		t.Fatal(err)
	}
	h := newHolder(t, w)
	ce, err := w.Iss.GenCredentialExistence(a)
	if err != nil {
		t.Fatal(err)
	}
	prove := func() error {
		_, err := h.HolderGenZkProofCredential(ce, func(map[string]interface{}) error { return nil }, 8, 16, &w.Zk.Files)
		return err
	}
	if err := prove(); err != nil {
		t.Fatal(err)
	}
	if err := w.Iss.RevokeClaim(a); err != nil {
		t.Fatal(err)
	}
	if err := w.Publish(); err != nil {
		t.Fatal(err)
	}
	if err := prove(); err == nil {
		t.Fatal("a revoked claim is proven")
	}
}
'''
