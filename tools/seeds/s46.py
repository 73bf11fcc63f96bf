ID="c31-rooted-path"; PROP="C31"
NEEDS="a publication URL that has a path of its own, and the reading of a given state"
BREAKS="the state is asked for at the root of the server instead of below the URL of the identity: not found, or that of another service"
EDITS=[("components/idenpuboffchain/readerhttp/readerhttp.go","""			fmt.Sprintf("%s/state/%s", id.String(), idenState.Hex())).Get(""), &publicDataBlobs)
""","""			fmt.Sprintf("/%s/state/%s", id.String(), idenState.Hex())).Get(""), &publicDataBlobs)
""")]
PKG="components/idenpuboffchain/readerhttp"
TEST='''package readerhttp

import (
	"net/http"
	"net/http/httptest"
	"testing"

	"github.com/iden3/go-iden3-core/core"
	"github.com/iden3/go-iden3-core/merkletree"
)

func TestZZDemo(t *testing.T) {
	var asked string
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		asked = r.URL.Path
		http.Error(w, `{"error":"none"}`, 404)
	}))
	defer srv.Close()
	var id core.ID
	for _, base := range []string{"/", "/identities/"} {
		NewIdenPubOffChainHttp().GetPublicData(srv.URL+base, &id, &merkletree.HashZero) //nolint
		if want := base + id.String() + "/state/" + merkletree.HashZero.Hex(); asked != want {
			t.Fatalf("asked for %q instead of %q", asked, want)
		}
	}
}
'''
