ID="c31-request-reused"; PROP="C31"
NEEDS="a second request with the same client, with a path of several levels or a body"
BREAKS="all requests of a client are one object: the path of the next is taken relative to that of the last, and a request asks for something else"
EDITS=[("components/httpclient/httpclient.go","""	return p.client.New()
""","""	return p.client
""")]
PKG="components/httpclient"
TEST='''package httpclient

import (
	"fmt"
	"net/http"
	"net/http/httptest"
	"testing"
)

func TestZZDemo(t *testing.T) {
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		fmt.Fprintf(w, "%q", r.URL.Path)
	}))
	defer srv.Close()
	c := NewHttpClient(srv.URL)
	for _, p := range []string{"a/state/1", "b/state/2"} {
		var got string
		if err := c.DoRequest(c.NewRequest().Path(p).Get(""), &got); err != nil {
			t.Fatal(err)
		}
		if got != "/"+p {
			t.Fatalf("asked for %q instead of %q", got, p)
		}
	}
}
'''
