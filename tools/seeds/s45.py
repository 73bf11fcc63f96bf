ID="c31-not-modified"; PROP="C31"
NEEDS="an answer with a status such as 300 or 304, which the client doesn't follow, and a result whose fields may be empty"
BREAKS="such answers count as success: the caller gets an empty result and no error"
EDITS=[("components/httpclient/httpclient.go","""	if !(200 <= resp.StatusCode && resp.StatusCode < 300) {
""","""	if !(200 <= resp.StatusCode && resp.StatusCode < 400) {
""")]
PKG="components/httpclient"
TEST='''package httpclient

import (
	"net/http"
	"net/http/httptest"
	"testing"
)

func TestZZDemo(t *testing.T) {
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		w.WriteHeader(300)
		w.Write([]byte(`{"error":"which one?"}`)) //nolint
	}))
	defer srv.Close()
	c := NewHttpClient(srv.URL)
	var res struct{ Value string }
	if err := c.DoRequest(c.NewRequest().Path("value").Get(""), &res); err == nil {
		t.Fatal("no error, although the server gave no value")
	}
}
'''
