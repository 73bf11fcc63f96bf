ID="c28-leftover-tmp"; PROP="C28"
NEEDS="a download that was broken off, or whose content was wrong, after more bytes than the right file has"
BREAKS="the temporary file of an earlier attempt is written over without being emptied: the rest of it stays behind the right content and no later attempt succeeds"
EDITS=[("utils/zk/zk.go","""	f, err := os.Create(filenameTmp)
""","""	f, err := os.OpenFile(filenameTmp, os.O_WRONLY|os.O_CREATE, 0600)
""")]
PKG="utils/zk"
HELP='''
	"crypto/sha256"
	"encoding/hex"
	"io/ioutil"
	"net/http"
	"net/http/httptest"
	"os"
	"testing"
'''
TEST='''package zk

import ('''+HELP+''')

func TestZZDemo(t *testing.T) {
	dir, err := ioutil.TempDir("", "zzdemo")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir) //nolint
	body := "a long page that says that the server is busy"
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		w.Write([]byte(body)) //nolint
	}))
	defer srv.Close()
	h := sha256.Sum256([]byte("the circuit"))
	hs := ZkFilesHashes{WitnessCalcWASM: hex.EncodeToString(h[:])}
	if _, err := NewZkFiles(srv.URL, dir, ProvingKeyFormatJSON, hs, true).WitnessCalcWASM(); err == nil {
		t.Fatal("the wrong file is accepted")
	}
	os.Remove(dir + "/circuit.wasm") //nolint
	body = "the circuit"
	b, err := NewZkFiles(srv.URL, dir, ProvingKeyFormatJSON, hs, true).WitnessCalcWASM()
	if err != nil || string(b) != body {
		t.Fatal("not loaded from a server that is fine: ", err)
	}
}
'''
