exec(open("/verif/tools/seeds/s41.py").read())
ID="c28-vk-shared"
NEEDS="two objects in one process for the same directory, and another file with another hash there by the time of the second"
BREAKS="parsed verification keys are kept per path: the second object gets the key of the first, whose hash is not the one it expects"
VK='''`{"protocol":"groth16"}`'''
EDITS=[("utils/zk/zk.go","""	vk, err := parsers.ParseVk(vkJSON)
	if err != nil {
		return err
	}
	z.verificationKey = vk
	return nil
}
""","""	vk, err := parseVerificationKey(z.pathVerificationKey, vkJSON)
	if err != nil {
		return err
	}
	z.verificationKey = vk
	return nil
}

// verificationKeys are the keys that were parsed already.
var verificationKeys sync.Map

func parseVerificationKey(filename string, vkJSON []byte) (*zktypes.Vk, error) {
	if vk, ok := verificationKeys.Load(filename); ok {
		return vk.(*zktypes.Vk), nil
	}
	vk, err := parsers.ParseVk(vkJSON)
	if err != nil {
		return nil, err
	}
	verificationKeys.Store(filename, vk)
	return vk, nil
}
""")]
TEST='''package zk

import ('''+HELP+'''	"math/big"

	bn256 "github.com/ethereum/go-ethereum/crypto/bn256/cloudflare"
	"fmt"
)

// key has n points, which are k times the generators.
func key(n int, k int64) string {
	g1 := new(bn256.G1).ScalarBaseMult(big.NewInt(k)).Marshal()
	g2 := new(bn256.G2).ScalarBaseMult(big.NewInt(k)).Marshal()
	s := func(b []byte) string { return new(big.Int).SetBytes(b).String() }
	p1 := fmt.Sprintf(`["%s","%s","1"]`, s(g1[:32]), s(g1[32:]))
	p2 := fmt.Sprintf(`[["%s","%s"],["%s","%s"],["1","0"]]`, s(g2[32:64]), s(g2[:32]), s(g2[96:]), s(g2[64:96]))
	ic := p1
	for i := 0; i < n; i++ {
		ic += "," + p1
	}
	return fmt.Sprintf(`{"protocol":"groth","nPublic":%d,"IC":[%s],"vk_alfa_1":%s,"vk_alpha_1":%s,"vk_beta_2":%s,"vk_gamma_2":%s,"vk_delta_2":%s}`, n, ic, p1, p1, p2, p2, p2)
}

func TestZZDemo(t *testing.T) {
	dir, err := ioutil.TempDir("", "zzdemo")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir) //nolint
	var body string
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		w.Write([]byte(body)) //nolint
	}))
	defer srv.Close()
	for n := 1; n <= 2; n++ {
		body = key(n, int64(n+1))
		os.RemoveAll(dir) //nolint
		h := sha256.Sum256([]byte(body))
		hs := ZkFilesHashes{VerificationKey: hex.EncodeToString(h[:])}
		vk, err := NewZkFiles(srv.URL, dir, ProvingKeyFormatJSON, hs, true).VerificationKey()
		if err != nil {
			t.Fatal(err)
		}
		if len(vk.IC) != n+1 {
			t.Fatalf("the key of another file: %d points instead of %d", len(vk.IC), n+1)
		}
	}
}
'''
