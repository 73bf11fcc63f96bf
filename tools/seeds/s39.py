ID="c27-aux-read-lock"; PROP="C27"
NEEDS="two payloads added to the same nonce concurrently, or a redeeming between the look and the write"
BREAKS="the payload is looked at and set under different locks: both callers are told that theirs is kept"
EDITS=[("utils/noncedb/nonce_db.go","""	ndb.mutex.Lock()
	defer ndb.mutex.Unlock()
	nObj, ok := ndb.nonceObjsByNonce[nonce]
	if !ok {
		return false
	} else if nObj.Aux != nil {
		return false
	}
	nObj.Aux = aux
	return true
""","""	ndb.mutex.RLock()
	nObj, ok := ndb.nonceObjsByNonce[nonce]
	free := ok && nObj.Aux == nil
	ndb.mutex.RUnlock()
	if !free {
		return false
	}
	ndb.mutex.Lock()
	nObj.Aux = aux
	ndb.mutex.Unlock()
	return true
""")]
PKG="utils/noncedb"
TEST='''package core

import (
	"sync"
	"testing"
	"time"
)

func TestZZDemo(t *testing.T) {
	end := time.Now().Add(60 * time.Second)
	for i := 0; time.Now().Before(end) && i < 400000; i++ {
		db := NewNonceDb()
		db.Add("n", 1000, nil)
		var wg sync.WaitGroup
		var ok [8]bool
		for k := range ok {
			k := k
			wg.Add(1)
			go func() {
				defer wg.Done()
				ok[k] = db.AddAux("n", k)
			}()
		}
		wg.Wait()
		n := 0
		for _, o := range ok {
			if o {
				n++
			}
		}
		if n != 1 {
			t.Fatalf("%d payloads were taken, after %d rounds", n, i)
		}
	}
}
'''
