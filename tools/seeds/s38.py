ID="c27-search-drops"; PROP="C27"
NEEDS="a search of an expired nonce, and the nonce being purged and added again between its two critical sections"
BREAKS="Search removes expired nonces it finds, by name and after having released the lock: a nonce added anew meanwhile is lost"
EDITS=[("utils/noncedb/nonce_db.go","""	if !ok {
		return nil, false
	}
	if nObj.Expiration < time.Now().Unix() {
		ok = false
	}
	return nObj, ok
}

// SearchAndDelete""","""	if !ok {
		return nil, false
	}
	if nObj.Expiration < time.Now().Unix() {
		// no need to wait for DeleteOld
		ndb.mutex.Lock()
		delete(ndb.nonceObjsByNonce, nonce)
		ndb.mutex.Unlock()
		ok = false
	}
	return nObj, ok
}

// SearchAndDelete""")]
PKG="utils/noncedb"
TEST='''package core

import (
	"sync"
	"testing"
	"time"
)

func TestZZDemo(t *testing.T) {
	end := time.Now().Add(60 * time.Second)
	for i := 0; time.Now().Before(end) && i < 400000; i++ {
		db := NewNonceDb()
		db.Add("n", -10, nil)
		var wg sync.WaitGroup
		for k := 0; k < 6; k++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				db.Search("n")
			}()
		}
		var added bool
		wg.Add(1)
		go func() {
			defer wg.Done()
			db.DeleteOld()
			added = db.Add("n", 1000, nil) != nil
		}()
		wg.Wait()
		if _, ok := db.Search("n"); added && !ok {
			t.Fatalf("a nonce is lost after %d rounds", i)
		}
	}
}
'''
