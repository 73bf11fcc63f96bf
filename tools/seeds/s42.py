exec(open("/verif/tools/seeds/s41.py").read())
ID="c28-recheck-dropped"
NEEDS="two objects that want the same file at once, and a server that answers the second request wrongly"
BREAKS="who waited for another's download doesn't look whether the file is there by then, and gets it again: fails although the artefact is there"
EDITS=[("utils/zk/zk.go","""	// The file may have been downloaded before aquiring the lock, so check again if it exists
	_, err = os.Stat(filename)
	if err == nil {
		log.WithField("filename", filename).Debug("ZkFile already exists, skipping download")
		return nil
	} else if !os.IsNotExist(err) {
		return err
	}

""","")]
TEST='''package zk

import ('''+HELP+'''	"sync"
	"sync/atomic"
	"time"
)

func TestZZDemo(t *testing.T) {
	dir, err := ioutil.TempDir("", "zzdemo")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir) //nolint
	var n int32
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		if atomic.AddInt32(&n, 1) > 1 {
			http.Error(w, "too many requests", 429)
			return
		}
		time.Sleep(2 * time.Second)
		w.Write([]byte("the circuit")) //nolint
	}))
	defer srv.Close()
	h := sha256.Sum256([]byte("the circuit"))
	hs := ZkFilesHashes{WitnessCalcWASM: hex.EncodeToString(h[:])}
	var wg sync.WaitGroup
	for i := 0; i < 2; i++ {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(time.Duration(i) * 300 * time.Millisecond)
			if _, err := NewZkFiles(srv.URL, dir, ProvingKeyFormatJSON, hs, true).WitnessCalcWASM(); err != nil {
				t.Errorf("object %d: %v", i, err)
			}
		}()
	}
	wg.Wait()
}
'''
