From 4179f6ef9b284f2f290fdfce7b5ea642489e6727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:48 +0000
Subject: [PATCH 01/71] fix: compare all the elements of two entries, not only
 the index

---
 merkletree/merkletree.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/merkletree/merkletree.go b/merkletree/merkletree.go
index b3d2dcf..41d8f17 100644
--- a/merkletree/merkletree.go
+++ b/merkletree/merkletree.go
@@ -78,8 +78,7 @@ func (d *Data) Bytes() (b [ElemBytesLen * DataLen]byte) {
 }
 
 func (d1 *Data) Equal(d2 *Data) bool {
-	return bytes.Equal(d1[0][:], d2[0][:]) && bytes.Equal(d1[1][:], d2[1][:]) &&
-		bytes.Equal(d1[2][:], d2[2][:]) && bytes.Equal(d1[3][:], d2[3][:])
+	return *d1 == *d2
 }
 
 func (d Data) MarshalText() ([]byte, error) {
-- 
2.43.0


From 0688e68b23ac272209f0aac8f42b466a8c4dd77d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:15 +0000
Subject: [PATCH 02/71] fix: refuse proof bytes whose depth exceeds the sibling
 bitmap

---
 merkletree/merkletree.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/merkletree/merkletree.go b/merkletree/merkletree.go
index 41d8f17..f20e5bf 100644
--- a/merkletree/merkletree.go
+++ b/merkletree/merkletree.go
@@ -786,6 +786,9 @@ func NewProofFromBytes(bs []byte) (*Proof, error) {
 		p.Existence = true
 	}
 	p.depth = uint(bs[1])
+	if p.depth > uint(len(p.notempties)*8) {
+		return nil, ErrInvalidProofBytes
+	}
 	copy(p.notempties[:], bs[proofFlagsLen:ElemBytesLen])
 	siblingBytes := bs[ElemBytesLen:]
 	sibIdx := 0
-- 
2.43.0


From 731e0ca5efcf4dcddf8ab4296bef83092d3cd8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:51 +0000
Subject: [PATCH 03/71] fix: store the root of an imported tree so that it can
 be reopened, and require it

---
 merkletree/merkletree.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/merkletree/merkletree.go b/merkletree/merkletree.go
index f20e5bf..6b1b621 100644
--- a/merkletree/merkletree.go
+++ b/merkletree/merkletree.go
@@ -669,6 +669,10 @@ func deserializeKV(r io.Reader) ([]byte, []byte, error) {
 
 // ImportTree imports the tree from the output from the DumpTree function
 func (mt *MerkleTree) ImportTree(i io.Reader) error {
+	// verify that the MerkleTree is writable
+	if !mt.writable {
+		return ErrNotWritable
+	}
 	tx, err := mt.storage.NewTx()
 	if err != nil {
 		return err
@@ -677,6 +681,7 @@ func (mt *MerkleTree) ImportTree(i io.Reader) error {
 	defer mt.Unlock()
 
 	r := bufio.NewReader(i)
+	var root []byte
 	for {
 		k, v, err := deserializeKV(r)
 		if err == io.EOF {
@@ -684,19 +689,24 @@ func (mt *MerkleTree) ImportTree(i io.Reader) error {
 		} else if err != nil {
 			return err
 		}
+		if bytes.Equal(k, rootNodeValue) {
+			root = v
+			continue
+		}
 		tx.Put(k, v)
 	}
 
-	v, err := tx.Get(rootNodeValue)
-	if err != nil {
-		return err
+	// the dump must name its root, which is stored like AddEntry does
+	if len(root) != ElemBytesLen {
+		return ErrInvalidDBValue
 	}
+	mt.dbInsert(tx, rootNodeValue, DBEntryTypeRoot, root)
 
 	if err := tx.Commit(); err != nil {
 		return err
 	}
 	mt.rootKey = &Hash{}
-	copy(mt.rootKey[:], v)
+	copy(mt.rootKey[:], root)
 
 	return nil
 }
-- 
2.43.0


From b722489b96cbb27229cbf6dbe11705d11790adb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:08 +0000
Subject: [PATCH 04/71] fix: report the write errors of DumpClaimsIoWriter

---
 merkletree/merkletree.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/merkletree/merkletree.go b/merkletree/merkletree.go
index 6b1b621..407f72e 100644
--- a/merkletree/merkletree.go
+++ b/merkletree/merkletree.go
@@ -714,13 +714,22 @@ func (mt *MerkleTree) ImportTree(i io.Reader) error {
 // DumpClaimsIoWriter uses Walk function to get all the Claims of the tree and write
 // them to w.  The output is JSON encoded with claims in hex.
 func (mt *MerkleTree) DumpClaimsIoWriter(w io.Writer, rootKey *Hash) error {
-	fmt.Fprintf(w, "[\n")
+	if _, err := fmt.Fprintf(w, "[\n"); err != nil {
+		return err
+	}
+	var errW error
 	err := mt.Walk(rootKey, func(n *Node) {
-		if n.Type == NodeTypeLeaf {
-			fmt.Fprintf(w, "	\"%v\",\n", common3.HexEncode(n.Entry.Bytes()))
+		if n.Type == NodeTypeLeaf && errW == nil {
+			_, errW = fmt.Fprintf(w, "	\"%v\",\n", common3.HexEncode(n.Entry.Bytes()))
 		}
 	})
-	fmt.Fprintf(w, "]\n")
+	if err != nil {
+		return err
+	}
+	if errW != nil {
+		return errW
+	}
+	_, err = fmt.Fprintf(w, "]\n")
 	return err
 }
 
-- 
2.43.0


From f6fdc1d820781c990a140ba41873231a0e6bff80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:46 +0000
Subject: [PATCH 05/71] fix: do not share the tree's root key with callers

---
 merkletree/merkletree.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/merkletree/merkletree.go b/merkletree/merkletree.go
index 407f72e..bac7758 100644
--- a/merkletree/merkletree.go
+++ b/merkletree/merkletree.go
@@ -257,7 +257,8 @@ func (mt *MerkleTree) Snapshot(rootKey *Hash) (*MerkleTree, error) {
 	if err != nil {
 		return nil, err
 	}
-	return &MerkleTree{storage: mt.storage, maxLevels: mt.maxLevels, rootKey: rootKey, writable: false}, nil
+	root := *rootKey
+	return &MerkleTree{storage: mt.storage, maxLevels: mt.maxLevels, rootKey: &root, writable: false}, nil
 }
 
 // Storage returns the MT storage
@@ -269,7 +270,8 @@ func (mt *MerkleTree) Storage() db.Storage {
 func (mt *MerkleTree) RootKey() *Hash {
 	mt.RLock()
 	defer mt.RUnlock()
-	return mt.rootKey
+	root := *mt.rootKey
+	return &root
 }
 
 // MaxLevels returns the MT maximum level
-- 
2.43.0


From 4d4987e07f3829f600389dbb429bdf7c402eef1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:32 +0000
Subject: [PATCH 06/71] fix: change the tree's root only once the insertion is
 committed

---
 merkletree/merkletree.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/merkletree/merkletree.go b/merkletree/merkletree.go
index bac7758..c33bc04 100644
--- a/merkletree/merkletree.go
+++ b/merkletree/merkletree.go
@@ -477,12 +477,12 @@ func (mt *MerkleTree) AddEntry(e *Entry) error {
 	if err != nil {
 		return err
 	}
-	mt.rootKey = newRootKey
-	mt.dbInsert(tx, rootNodeValue, DBEntryTypeRoot, mt.rootKey[:])
+	mt.dbInsert(tx, rootNodeValue, DBEntryTypeRoot, newRootKey[:])
 
 	if err := tx.Commit(); err != nil {
 		return err
 	}
+	mt.rootKey = newRootKey
 	return nil
 }
 
-- 
2.43.0


From 1f5c92516f3238edba0d0257e9df36e44f57e0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:03 +0000
Subject: [PATCH 07/71] fix: open a tree as new only if its storage has no
 root, not on any read error

---
 merkletree/merkletree.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/merkletree/merkletree.go b/merkletree/merkletree.go
index c33bc04..955f5f1 100644
--- a/merkletree/merkletree.go
+++ b/merkletree/merkletree.go
@@ -228,6 +228,9 @@ type MerkleTree struct {
 func NewMerkleTree(storage db.Storage, maxLevels int) (*MerkleTree, error) {
 	mt := MerkleTree{storage: storage, maxLevels: maxLevels, writable: true}
 	_, gettedRoot, err := mt.dbGet(rootNodeValue)
+	if err != nil && err != db.ErrNotFound {
+		return nil, err
+	}
 	if err != nil {
 		tx, err := mt.storage.NewTx()
 		if err != nil {
-- 
2.43.0


From 61f3ec16b8e695356b14dded26ec09bc939b9e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:25 +0000
Subject: [PATCH 08/71] fix: dump the nodes and the root record of one single
 root

---
 merkletree/merkletree.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/merkletree/merkletree.go b/merkletree/merkletree.go
index 955f5f1..1b52983 100644
--- a/merkletree/merkletree.go
+++ b/merkletree/merkletree.go
@@ -591,6 +591,9 @@ func (mt *MerkleTree) PrintGraphViz(rootKey *Hash) error {
 // to compute the Tree, while with DumpClaims will require to compute the Tree
 // (with the computational cost of each hash)
 func (mt *MerkleTree) DumpTree(w io.Writer, rootKey *Hash) error {
+	if rootKey == nil {
+		rootKey = mt.RootKey()
+	}
 	var errS error
 	err := mt.Walk(rootKey, func(n *Node) {
 		if n.Type != NodeTypeEmpty {
@@ -611,9 +614,6 @@ func (mt *MerkleTree) DumpTree(w io.Writer, rootKey *Hash) error {
 		return errS
 	}
 
-	if rootKey == nil {
-		rootKey = mt.RootKey()
-	}
 	err = serializeKV(w, rootNodeValue, rootKey.Bytes())
 
 	return err
-- 
2.43.0


From 4e09a5e4b00aeb079c13b02fd0629f42aa5a4107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:10 +0000
Subject: [PATCH 09/71] fix: storages must not share value buffers with their
 callers

---
 db/kvmap.go   | 7 +++++--
 db/leveldb.go | 4 ++--
 db/memory.go  | 2 +-
 3 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/db/kvmap.go b/db/kvmap.go
index b36dddd..5feb4e7 100644
--- a/db/kvmap.go
+++ b/db/kvmap.go
@@ -8,8 +8,11 @@ type kvMap map[[sha256.Size]byte]KV
 
 func (m kvMap) Get(k []byte) ([]byte, bool) {
 	v, ok := m[sha256.Sum256(k)]
-	return v.V, ok
+	if !ok {
+		return nil, false
+	}
+	return clone(v.V), true
 }
 func (m kvMap) Put(k, v []byte) {
-	m[sha256.Sum256(k)] = KV{k, v}
+	m[sha256.Sum256(k)] = KV{k, clone(v)}
 }
diff --git a/db/leveldb.go b/db/leveldb.go
index fea3165..6545365 100644
--- a/db/leveldb.go
+++ b/db/leveldb.go
@@ -92,8 +92,8 @@ func (l *LevelDbStorage) Iterate(f func([]byte, []byte) (bool, error)) error {
 	iter := snapshot.NewIterator(util.BytesPrefix(l.prefix), nil)
 	defer iter.Release()
 	for iter.Next() {
-		localKey := iter.Key()[len(l.prefix):]
-		if cont, err := f(localKey, iter.Value()); err != nil {
+		localKey := clone(iter.Key()[len(l.prefix):])
+		if cont, err := f(localKey, clone(iter.Value())); err != nil {
 			return err
 		} else if !cont {
 			break
diff --git a/db/memory.go b/db/memory.go
index 8d6dcfd..531653f 100644
--- a/db/memory.go
+++ b/db/memory.go
@@ -48,7 +48,7 @@ func (l *MemoryStorage) Iterate(f func([]byte, []byte) (bool, error)) error {
 			continue
 		}
 		localkey := v.K[len(l.prefix):]
-		kvs = append(kvs, KV{localkey, v.V})
+		kvs = append(kvs, KV{clone(localkey), clone(v.V)})
 
 	}
 	sort.SliceStable(kvs, func(i, j int) bool { return bytes.Compare(kvs[i].K, kvs[j].K) < 0 })
-- 
2.43.0


From 0e5a839c7f3252b65a5ffc215ed5c20cc9046e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:10 +0000
Subject: [PATCH 10/71] fix: LevelDbStorage.Info must not panic on empty values

---
 db/leveldb.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/db/leveldb.go b/db/leveldb.go
index 6545365..929db54 100644
--- a/db/leveldb.go
+++ b/db/leveldb.go
@@ -46,7 +46,7 @@ func (l *LevelDbStorage) Info() string {
 	claimcount := 0
 	iter := snapshot.NewIterator(nil, nil)
 	for iter.Next() {
-		if iter.Value()[0] == byte(1) { // TODO when the new merkletree version is ready, instead of byte(1) use the type indicator
+		if v := iter.Value(); len(v) > 0 && v[0] == byte(1) { // TODO when the new merkletree version is ready, instead of byte(1) use the type indicator
 			claimcount++
 		}
 
-- 
2.43.0


From 41e589c88c5333b68dee780ad4a5c65079013284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:57 +0000
Subject: [PATCH 11/71] fix: make MemoryStorage commits atomic for concurrent
 readers

---
 db/memory.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/db/memory.go b/db/memory.go
index 531653f..d18cb2b 100644
--- a/db/memory.go
+++ b/db/memory.go
@@ -3,11 +3,13 @@ package db
 import (
 	"bytes"
 	"sort"
+	"sync"
 )
 
 type MemoryStorage struct {
 	prefix []byte
 	kv     kvMap
+	rw     *sync.RWMutex // protects kv, shared with the storages derived by WithPrefix
 }
 
 type MemoryStorageTx struct {
@@ -17,7 +19,7 @@ type MemoryStorageTx struct {
 
 func NewMemoryStorage() *MemoryStorage {
 	kvmap := make(kvMap)
-	return &MemoryStorage{[]byte{}, kvmap}
+	return &MemoryStorage{[]byte{}, kvmap, new(sync.RWMutex)}
 }
 
 func (l *MemoryStorage) Info() string {
@@ -25,7 +27,7 @@ func (l *MemoryStorage) Info() string {
 }
 
 func (m *MemoryStorage) WithPrefix(prefix []byte) Storage {
-	return &MemoryStorage{concat(m.prefix, prefix), m.kv}
+	return &MemoryStorage{concat(m.prefix, prefix), m.kv, m.rw}
 }
 
 func (m *MemoryStorage) NewTx() (Tx, error) {
@@ -34,6 +36,8 @@ func (m *MemoryStorage) NewTx() (Tx, error) {
 
 // Get retreives a value from a key in the mt.Lvl
 func (l *MemoryStorage) Get(key []byte) ([]byte, error) {
+	l.rw.RLock()
+	defer l.rw.RUnlock()
 
 	if v, ok := l.kv.Get(concat(l.prefix, key[:])); ok {
 		return v, nil
@@ -43,6 +47,7 @@ func (l *MemoryStorage) Get(key []byte) ([]byte, error) {
 
 func (l *MemoryStorage) Iterate(f func([]byte, []byte) (bool, error)) error {
 	kvs := make([]KV, 0)
+	l.rw.RLock()
 	for _, v := range l.kv {
 		if len(v.K) < len(l.prefix) || !bytes.Equal(v.K[:len(l.prefix)], l.prefix) {
 			continue
@@ -51,6 +56,7 @@ func (l *MemoryStorage) Iterate(f func([]byte, []byte) (bool, error)) error {
 		kvs = append(kvs, KV{clone(localkey), clone(v.V)})
 
 	}
+	l.rw.RUnlock()
 	sort.SliceStable(kvs, func(i, j int) bool { return bytes.Compare(kvs[i].K, kvs[j].K) < 0 })
 
 	for _, kv := range kvs {
@@ -68,6 +74,8 @@ func (tx *MemoryStorageTx) Get(key []byte) ([]byte, error) {
 	if v, ok := tx.kv.Get(concat(tx.s.prefix, key)); ok {
 		return v, nil
 	}
+	tx.s.rw.RLock()
+	defer tx.s.rw.RUnlock()
 	if v, ok := tx.s.kv.Get(concat(tx.s.prefix, key)); ok {
 		return v, nil
 	}
@@ -80,6 +88,8 @@ func (tx *MemoryStorageTx) Put(k, v []byte) {
 }
 
 func (tx *MemoryStorageTx) Commit() error {
+	tx.s.rw.Lock()
+	defer tx.s.rw.Unlock()
 	for _, v := range tx.kv {
 		tx.s.kv.Put(v.K, v.V)
 	}
-- 
2.43.0


From d9d80acb8cc6a01bef58b76b7952f6fc5b6a537c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:57 +0000
Subject: [PATCH 12/71] fix: StorageList keys must not alias the spare capacity
 of the caller's prefix

---
 db/storageutils.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/db/storageutils.go b/db/storageutils.go
index a1d131b..9da143a 100644
--- a/db/storageutils.go
+++ b/db/storageutils.go
@@ -44,9 +44,9 @@ type StorageList struct {
 // the dbPrefix in a Storage.
 func NewStorageList(dbPrefix []byte) *StorageList {
 	return &StorageList{
-		length:            NewStorageValue(append(dbPrefix, []byte("len")...)),
-		dbPrefixList:      append(dbPrefix, []byte("list:")...),
-		dbPrefixListByIdx: append(dbPrefix, []byte("byidx:")...),
+		length:            NewStorageValue(concat(dbPrefix, []byte("len"))),
+		dbPrefixList:      concat(dbPrefix, []byte("list:")),
+		dbPrefixListByIdx: concat(dbPrefix, []byte("byidx:")),
 	}
 }
 
@@ -67,8 +67,8 @@ func (sl *StorageList) Append(tx Tx, key []byte, value interface{}) error {
 	}
 	var idxBytes [4]byte
 	binary.LittleEndian.PutUint32(idxBytes[:], idx)
-	tx.Put(append(sl.dbPrefixList, key...), valueJSON)
-	tx.Put(append(sl.dbPrefixListByIdx, idxBytes[:]...), key)
+	tx.Put(concat(sl.dbPrefixList, key), valueJSON)
+	tx.Put(concat(sl.dbPrefixListByIdx, idxBytes[:]), key)
 	sl.length.Set(tx, idx+1)
 	return nil
 }
@@ -77,7 +77,7 @@ func (sl *StorageList) Append(tx Tx, key []byte, value interface{}) error {
 func (sl *StorageList) GetByIdx(tx Tx, idx uint32, value interface{}) ([]byte, error) {
 	var idxBytes [4]byte
 	binary.LittleEndian.PutUint32(idxBytes[:], idx)
-	key, err := tx.Get(append(sl.dbPrefixListByIdx, idxBytes[:]...))
+	key, err := tx.Get(concat(sl.dbPrefixListByIdx, idxBytes[:]))
 	if err != nil {
 		return nil, err
 	}
@@ -87,7 +87,7 @@ func (sl *StorageList) GetByIdx(tx Tx, idx uint32, value interface{}) ([]byte, e
 
 // GetByIdx returns the value given the key of the StorageList in an open db transaction.
 func (sl *StorageList) Get(tx Tx, key []byte, value interface{}) error {
-	valueJSON, err := tx.Get(append(sl.dbPrefixList, key...))
+	valueJSON, err := tx.Get(concat(sl.dbPrefixList, key))
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 3623ee6055caf1f738b2c577b487472029225a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:00 +0000
Subject: [PATCH 13/71] fix: opening a LevelDbStorage recovers from a crash
 during its creation

---
 db/leveldb.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/db/leveldb.go b/db/leveldb.go
index 929db54..d186b76 100644
--- a/db/leveldb.go
+++ b/db/leveldb.go
@@ -25,6 +25,10 @@ func NewLevelDbStorage(path string, errorIfMissing bool) (*LevelDbStorage, error
 		ErrorIfMissing: errorIfMissing,
 	}
 	ldb, err := leveldb.OpenFile(path, o)
+	if errors.IsCorrupted(err) {
+		// e.g. the process stopped while the database was being created
+		ldb, err = leveldb.RecoverFile(path, o)
+	}
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From e71384dd25b85ee10973f87f2c706db7e5cb5d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:45 +0000
Subject: [PATCH 14/71] fix: a failed issuance must not change the claim's
 revocation nonce

---
 identity/issuer/issuer.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/identity/issuer/issuer.go b/identity/issuer/issuer.go
index dd80a2d..6861452 100644
--- a/identity/issuer/issuer.go
+++ b/identity/issuer/issuer.go
@@ -597,9 +597,11 @@ func (is *Issuer) IssueClaim(claim claims.Claimer) error {
 	if err := tx.Commit(); err != nil {
 		return err
 	}
+	prevNonce := claim.Metadata().RevNonce
 	claim.Metadata().RevNonce = nonce
 	err = is.claimsTree.AddClaim(claim)
 	if err != nil {
+		claim.Metadata().RevNonce = prevNonce
 		return err
 	}
 	return nil
-- 
2.43.0


From 32db422798228ebe76e9ca509d63532636abd66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:40 +0000
Subject: [PATCH 15/71] fix: retry the publication of the pending state instead
 of the current one

---
 identity/issuer/issuer.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/identity/issuer/issuer.go b/identity/issuer/issuer.go
index 6861452..1d8e368 100644
--- a/identity/issuer/issuer.go
+++ b/identity/issuer/issuer.go
@@ -705,7 +705,14 @@ func (is *Issuer) PublishState() error {
 			return err
 		}
 	} else {
-		idenStateLast, idenStateTreeRootsLast, err = is.getIdenStateByIdx(tx0, -2)
+		// Retry the publication of the pending state, which may be older
+		// than the current one.
+		pendingTreeRoots, err := is.getIdenStateTreeRoots(tx0, idenStatePending)
+		if err != nil {
+			return err
+		}
+		idenState, idenStateTreeRoots = idenStatePending, *pendingTreeRoots
+		idenStateLast, _, err = is.getIdenStateByIdx(tx0, -2)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 15986ebc1c3f5ef30ccd0758e3171fbbbd37efcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:40 +0000
Subject: [PATCH 16/71] fix: let a reverted identity state transaction be sent
 again

---
 identity/issuer/issuer.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/identity/issuer/issuer.go b/identity/issuer/issuer.go
index 1d8e368..9caf5a6 100644
--- a/identity/issuer/issuer.go
+++ b/identity/issuer/issuer.go
@@ -508,6 +508,18 @@ func (is *Issuer) SyncIdenStatePublic() error {
 		confirmBlocks, err := is.idenPubOnChain.TxConfirmBlocks(ethTx)
 		if err == eth.ErrReceiptNotReceived {
 			return nil
+		} else if err == eth.ErrReceiptStatusFailed {
+			// The transaction was reverted: the pending state has to be
+			// transacted again, so go back to (B).
+			tx, txErr := is.storage.NewTx()
+			if txErr != nil {
+				return txErr
+			}
+			is.setIdenStatePending(tx, idenStatePending, false)
+			if txErr := tx.Commit(); txErr != nil {
+				return txErr
+			}
+			return fmt.Errorf("TxConfirmBlocks: %w", err)
 		} else if err != nil {
 			return fmt.Errorf("TxConfirmBlocks: %w", err)
 		}
-- 
2.43.0


From 3f0ce2e71977af3e5f35012df7778fca4721ec53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:46 +0000
Subject: [PATCH 17/71] fix: publish the off chain data that could not be
 published when the state was

---
 identity/issuer/issuer.go | 82 ++++++++++++++++++++++++++++++++-------
 1 file changed, 68 insertions(+), 14 deletions(-)

diff --git a/identity/issuer/issuer.go b/identity/issuer/issuer.go
index 9caf5a6..a4ff2b2 100644
--- a/identity/issuer/issuer.go
+++ b/identity/issuer/issuer.go
@@ -61,6 +61,7 @@ var (
 	dbKeyIdenStateDataOnChain       = []byte("idenstatedataonchain")
 	dbKeyIdenStatePending           = []byte("idenstatepending")
 	dbKeyIdenStatePendingTransacted = []byte("idenstatependingtxed")
+	dbKeyIdenStateUnpublished       = []byte("idenstateunpublished")
 	dbKeyEthTxSetState              = []byte("ethtxsetstate")
 	dbKeyEthTxInitState             = []byte("ethtxinitstate")
 )
@@ -121,10 +122,13 @@ type Issuer struct {
 	// still pending.
 	_idenStatePending           *merkletree.Hash
 	_idenStatePendingTransacted bool
-	_ethTxSetState              *types.Transaction
-	_ethTxInitState             *types.Transaction
-	idenStateZkProofConf        *IdenStateZkProofConf
-	cfg                         Config
+	// idenStateUnpublished is the identity state whose public off chain
+	// data has not been published yet (zero if there's none).
+	_idenStateUnpublished *merkletree.Hash
+	_ethTxSetState        *types.Transaction
+	_ethTxInitState       *types.Transaction
+	idenStateZkProofConf  *IdenStateZkProofConf
+	cfg                   Config
 }
 
 //
@@ -199,6 +203,22 @@ func (is *Issuer) loadIdenStatePending() error {
 	return nil
 }
 
+func (is *Issuer) setIdenStateUnpublished(tx db.Tx, v *merkletree.Hash) {
+	is._idenStateUnpublished = v
+	tx.Put(dbKeyIdenStateUnpublished, v[:])
+}
+
+func (is *Issuer) loadIdenStateUnpublished() error {
+	var v merkletree.Hash
+	b, err := is.storage.Get(dbKeyIdenStateUnpublished)
+	if err != nil && err != db.ErrNotFound {
+		return err
+	}
+	copy(v[:], b)
+	is._idenStateUnpublished = &v
+	return nil
+}
+
 func (is *Issuer) ethTxSetState() *types.Transaction { return is._ethTxSetState }
 
 func (is *Issuer) setEthTxSetState(tx db.Tx, v *types.Transaction) error {
@@ -346,6 +366,7 @@ func Create(cfg Config, kOpComp *babyjub.PublicKeyComp, extraGenesisClaims []cla
 		return nil, err
 	}
 	is.setIdenStatePending(tx, &merkletree.HashZero, false)
+	is.setIdenStateUnpublished(tx, &merkletree.HashZero)
 	if err := is.setEthTxInitState(tx, nil); err != nil {
 		return nil, err
 	}
@@ -433,6 +454,9 @@ func Load(storage db.Storage, keyStore *keystore.KeyStore,
 	if err := is.loadIdenStatePending(); err != nil {
 		return nil, err
 	}
+	if err := is.loadIdenStateUnpublished(); err != nil {
+		return nil, err
+	}
 	if err := is.loadEthTxInitState(); err != nil {
 		return nil, err
 	}
@@ -666,6 +690,16 @@ func (is *Issuer) PublishState() error {
 	is.rw.Lock()
 	defer is.rw.Unlock()
 	idenStatePending, transacted := is.idenStatePending()
+	// If the last transacted state could not be published off chain, do it now.
+	if !is._idenStateUnpublished.Equals(&merkletree.HashZero) &&
+		(idenStatePending.Equals(&merkletree.HashZero) || transacted) {
+		if err := is.publishOffChain(is._idenStateUnpublished); err != nil {
+			return err
+		}
+		if transacted {
+			return nil
+		}
+	}
 	// (C)(idenStatePending: X, transacted: true)
 	if !idenStatePending.Equals(&merkletree.HashZero) && transacted {
 		return ErrIdenStatePendingNotNil
@@ -712,6 +746,7 @@ func (is *Issuer) PublishState() error {
 		}
 
 		is.setIdenStatePending(tx, idenState, false)
+		is.setIdenStateUnpublished(tx, idenState)
 
 		if err := tx.Commit(); err != nil {
 			return err
@@ -719,11 +754,7 @@ func (is *Issuer) PublishState() error {
 	} else {
 		// Retry the publication of the pending state, which may be older
 		// than the current one.
-		pendingTreeRoots, err := is.getIdenStateTreeRoots(tx0, idenStatePending)
-		if err != nil {
-			return err
-		}
-		idenState, idenStateTreeRoots = idenStatePending, *pendingTreeRoots
+		idenState = idenStatePending
 		idenStateLast, _, err = is.getIdenStateByIdx(tx0, -2)
 		if err != nil {
 			return err
@@ -771,20 +802,43 @@ func (is *Issuer) PublishState() error {
 		return err
 	}
 
+	// finally, Publish the Public Off Chain identity data
+	return is.publishOffChain(idenState)
+}
+
+// publishOffChain publishes the public off chain data of idenState, a state
+// of the stored list.
+func (is *Issuer) publishOffChain(idenState *merkletree.Hash) error {
+	tx, err := is.storage.NewTx()
+	if err != nil {
+		return err
+	}
+	defer tx.Close()
+	idenStateTreeRoots, err := is.getIdenStateTreeRoots(tx, idenState)
+	if err != nil {
+		return err
+	}
+	revocationsTree, err := is.revocationsTree.Snapshot(idenStateTreeRoots.RevocationsTreeRoot)
+	if err != nil {
+		return err
+	}
+	rootsTree, err := is.rootsTree.Snapshot(idenStateTreeRoots.RootsTreeRoot)
+	if err != nil {
+		return err
+	}
 	publicData := idenpuboffchain.PublicData{
 		IdenState:           idenState,
 		ClaimsTreeRoot:      idenStateTreeRoots.ClaimsTreeRoot,
 		RevocationsTreeRoot: idenStateTreeRoots.RevocationsTreeRoot,
-		RevocationsTree:     is.revocationsTree,
+		RevocationsTree:     revocationsTree,
 		RootsTreeRoot:       idenStateTreeRoots.RootsTreeRoot,
-		RootsTree:           is.rootsTree,
+		RootsTree:           rootsTree,
 	}
-
-	// finally, Publish the Public Off Chain identity data
 	if err := is.idenPubOffChainWriter.Publish(is.id, &publicData); err != nil {
 		return err
 	}
-	return nil
+	is.setIdenStateUnpublished(tx, &merkletree.HashZero)
+	return tx.Commit()
 }
 
 // RevokeClaim revokes an already issued claim.
-- 
2.43.0


From 1eb80f95c85ed7fbaac1f09cb9b6fbbe7acd5f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:59 +0000
Subject: [PATCH 18/71] fix: PublishState must not panic when the storage
 refuses a transaction

---
 identity/issuer/issuer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/identity/issuer/issuer.go b/identity/issuer/issuer.go
index a4ff2b2..8633a01 100644
--- a/identity/issuer/issuer.go
+++ b/identity/issuer/issuer.go
@@ -708,10 +708,10 @@ func (is *Issuer) PublishState() error {
 	idenState, idenStateTreeRoots := is.state()
 
 	tx0, err := is.storage.NewTx() // Read only Tx
-	defer tx0.Close()
 	if err != nil {
 		return err
 	}
+	defer tx0.Close()
 	idenStateLast, idenStateTreeRootsLast, err := is.getIdenStateByIdx(tx0, -1)
 	if err != nil {
 		return err
-- 
2.43.0


From 9a2e31b426fed0502da2d70ee51dcd191b341879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:59 +0000
Subject: [PATCH 19/71] fix: an interrupted publication can be repeated after
 its root was recorded

---
 identity/issuer/issuer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/identity/issuer/issuer.go b/identity/issuer/issuer.go
index 8633a01..33d3c19 100644
--- a/identity/issuer/issuer.go
+++ b/identity/issuer/issuer.go
@@ -730,7 +730,10 @@ func (is *Issuer) PublishState() error {
 		// If the ClaimsTreeRoot has changed (claims have been added), add the
 		// ClaimsTreeRoot to the RootsTree.
 		if !idenStateTreeRoots.ClaimsTreeRoot.Equals(idenStateTreeRootsLast.ClaimsTreeRoot) {
-			if err := claims.AddLeafRootsTree(is.rootsTree, idenStateTreeRoots.ClaimsTreeRoot); err != nil {
+			// The root may already be there if a previous publication was
+			// interrupted.
+			if err := claims.AddLeafRootsTree(is.rootsTree, idenStateTreeRoots.ClaimsTreeRoot); err != nil &&
+				err != merkletree.ErrEntryIndexAlreadyExists {
 				return err
 			}
 			idenState, idenStateTreeRoots = is.state()
-- 
2.43.0


From f6d1c313a38578684c238e8fbf4f868c2ac44a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:00 +0000
Subject: [PATCH 20/71] fix: an interrupted identity creation can be repeated,
 a complete one is not overwritten

---
 identity/issuer/issuer.go | 38 +++++++++++++++++++++++++++++++++++++-
 1 file changed, 37 insertions(+), 1 deletion(-)

diff --git a/identity/issuer/issuer.go b/identity/issuer/issuer.go
index 33d3c19..e163088 100644
--- a/identity/issuer/issuer.go
+++ b/identity/issuer/issuer.go
@@ -42,6 +42,8 @@ var (
 	ErrClaimNotFoundStateOnChain          = fmt.Errorf("claim not found under the on chain identity state")
 	ErrClaimNotFoundClaimsTree            = fmt.Errorf("claim not found in the claims tree: the claim hasn't been issued")
 	ErrClaimNotYetInOnChainState          = fmt.Errorf("claim has been issued but is not yet under a published on chain identity state")
+	ErrIdenAlreadyExists                  = fmt.Errorf("the storage already contains an identity")
+	ErrGenesisTreesNotEmpty               = fmt.Errorf("the storage contains claims that don't belong to the genesis")
 	ErrFailedVerifyZkProofIdenStateUpdate = fmt.Errorf("failed verifing generated zk proof of identity state update")
 )
 
@@ -266,10 +268,23 @@ func loadMTs(cfg *Config, storage db.Storage) (*merkletree.MerkleTree, *merkletr
 	return clt, ret, rot, nil
 }
 
+// addClaimIfMissing adds a claim to the tree unless it's already there.
+func addClaimIfMissing(mt *merkletree.MerkleTree, claim merkletree.Entrier) error {
+	if err := mt.AddClaim(claim); err != merkletree.ErrEntryIndexAlreadyExists {
+		return err
+	}
+	return mt.EntryExists(claim.Entry(), nil)
+}
+
 // Create a new Issuer, creating a new genesis ID and initializes the
 // storages.  The extraGenesisClaims metadata's are updated.
 func Create(cfg Config, kOpComp *babyjub.PublicKeyComp, extraGenesisClaims []claims.Claimer,
 	storage db.Storage, keyStore *keystore.KeyStore) (*core.ID, error) {
+	if _, err := storage.Get(dbKeyId); err == nil {
+		return nil, ErrIdenAlreadyExists
+	} else if err != db.ErrNotFound {
+		return nil, err
+	}
 	clt, ret, rot, err := loadMTs(&cfg, storage)
 	if err != nil {
 		return nil, err
@@ -305,10 +320,31 @@ func Create(cfg Config, kOpComp *babyjub.PublicKeyComp, extraGenesisClaims []cla
 		claim.Metadata().RevNonce = nonce
 		extraGenesisClaimsEntriers[i] = claim
 	}
-	id, err := genesis.CalculateIdGenesisMT(clt, rot, claimKOp, extraGenesisClaimsEntriers)
+	// Calculate the genesis in memory, and then add to the stored trees
+	// what's missing there: a previous creation may have been interrupted.
+	memClt, _, memRot, err := loadMTs(&cfg, db.NewMemoryStorage())
+	if err != nil {
+		return nil, err
+	}
+	id, err := genesis.CalculateIdGenesisMT(memClt, memRot, claimKOp, extraGenesisClaimsEntriers)
 	if err != nil {
 		return nil, err
 	}
+	for _, claim := range append([]merkletree.Entrier{claimKOp}, extraGenesisClaimsEntriers...) {
+		if err := addClaimIfMissing(clt, claim); err != nil {
+			return nil, err
+		}
+	}
+	if !clt.RootKey().Equals(memClt.RootKey()) {
+		return nil, ErrGenesisTreesNotEmpty
+	}
+	if err := claims.AddLeafRootsTree(rot, clt.RootKey()); err != nil &&
+		err != merkletree.ErrEntryIndexAlreadyExists {
+		return nil, err
+	}
+	if !rot.RootKey().Equals(memRot.RootKey()) || !ret.RootKey().Equals(&merkletree.HashZero) {
+		return nil, ErrGenesisTreesNotEmpty
+	}
 	claimKOpHi, err := claimKOp.Entry().HIndex()
 	if err != nil {
 		return nil, err
-- 
2.43.0


From da082a5c76ea27b080d03282df6204b455e7fa3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:32 +0000
Subject: [PATCH 21/71] fix: a failed commit must not change the identity in
 memory

---
 identity/issuer/issuer.go | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/identity/issuer/issuer.go b/identity/issuer/issuer.go
index e163088..6ff1e26 100644
--- a/identity/issuer/issuer.go
+++ b/identity/issuer/issuer.go
@@ -136,11 +136,13 @@ type Issuer struct {
 //
 // Persistence setters and getters
 //
+// The setters only write to the transaction: the values in memory are updated
+// once it's committed.
+//
 
 func (is *Issuer) idenStateDataOnChain() *proof.IdenStateData { return is._idenStateDataOnChain }
 
 func (is *Issuer) setIdenStateDataOnChain(tx db.Tx, v *proof.IdenStateData) error {
-	is._idenStateDataOnChain = v
 	return db.StoreJSON(tx, dbKeyIdenStateDataOnChain, v)
 }
 
@@ -182,8 +184,6 @@ func bool2byte(v bool) byte {
 }
 
 func (is *Issuer) setIdenStatePending(tx db.Tx, v *merkletree.Hash, transacted bool) {
-	is._idenStatePending = v
-	is._idenStatePendingTransacted = transacted
 	tx.Put(dbKeyIdenStatePending, v[:])
 	tx.Put(dbKeyIdenStatePendingTransacted, []byte{bool2byte(transacted)})
 }
@@ -206,7 +206,6 @@ func (is *Issuer) loadIdenStatePending() error {
 }
 
 func (is *Issuer) setIdenStateUnpublished(tx db.Tx, v *merkletree.Hash) {
-	is._idenStateUnpublished = v
 	tx.Put(dbKeyIdenStateUnpublished, v[:])
 }
 
@@ -224,7 +223,6 @@ func (is *Issuer) loadIdenStateUnpublished() error {
 func (is *Issuer) ethTxSetState() *types.Transaction { return is._ethTxSetState }
 
 func (is *Issuer) setEthTxSetState(tx db.Tx, v *types.Transaction) error {
-	is._ethTxSetState = v
 	return db.StoreJSON(tx, dbKeyEthTxSetState, v)
 }
 
@@ -236,7 +234,6 @@ func (is *Issuer) loadEthTxSetState() error {
 func (is *Issuer) ethTxInitState() *types.Transaction { return is._ethTxInitState }
 
 func (is *Issuer) setEthTxInitState(tx db.Tx, v *types.Transaction) error {
-	is._ethTxInitState = v
 	return db.StoreJSON(tx, dbKeyEthTxInitState, v)
 }
 
@@ -579,6 +576,7 @@ func (is *Issuer) SyncIdenStatePublic() error {
 			if txErr := tx.Commit(); txErr != nil {
 				return txErr
 			}
+			is._idenStatePendingTransacted = false
 			return fmt.Errorf("TxConfirmBlocks: %w", err)
 		} else if err != nil {
 			return fmt.Errorf("TxConfirmBlocks: %w", err)
@@ -639,6 +637,8 @@ func (is *Issuer) SyncIdenStatePublic() error {
 		if err := tx.Commit(); err != nil {
 			return err
 		}
+		is._idenStatePending, is._idenStatePendingTransacted = &merkletree.HashZero, false
+		is._idenStateDataOnChain = idenStateData
 		return nil
 	}
 
@@ -790,6 +790,8 @@ func (is *Issuer) PublishState() error {
 		if err := tx.Commit(); err != nil {
 			return err
 		}
+		is._idenStatePending, is._idenStatePendingTransacted = idenState, false
+		is._idenStateUnpublished = idenState
 	} else {
 		// Retry the publication of the pending state, which may be older
 		// than the current one.
@@ -812,6 +814,7 @@ func (is *Issuer) PublishState() error {
 		return err
 	}
 
+	ethTxInitState, ethTxSetState := is.ethTxInitState(), is.ethTxSetState()
 	if is.idenStateOnChain().Equals(&merkletree.HashZero) {
 		// Identity State not present in the Smart Contract. First time
 		// publishing it.
@@ -823,6 +826,7 @@ func (is *Issuer) PublishState() error {
 		if err := is.setEthTxInitState(tx, ethTx); err != nil {
 			return err
 		}
+		ethTxInitState = ethTx
 	} else {
 		// Identity State already present in the Smart Contract.
 		// Update it.
@@ -834,12 +838,15 @@ func (is *Issuer) PublishState() error {
 		if err := is.setEthTxSetState(tx, ethTx); err != nil {
 			return err
 		}
+		ethTxSetState = ethTx
 	}
 	is.setIdenStatePending(tx, idenState, true)
 
 	if err := tx.Commit(); err != nil {
 		return err
 	}
+	is._idenStatePending, is._idenStatePendingTransacted = idenState, true
+	is._ethTxInitState, is._ethTxSetState = ethTxInitState, ethTxSetState
 
 	// finally, Publish the Public Off Chain identity data
 	return is.publishOffChain(idenState)
@@ -877,7 +884,11 @@ func (is *Issuer) publishOffChain(idenState *merkletree.Hash) error {
 		return err
 	}
 	is.setIdenStateUnpublished(tx, &merkletree.HashZero)
-	return tx.Commit()
+	if err := tx.Commit(); err != nil {
+		return err
+	}
+	is._idenStateUnpublished = &merkletree.HashZero
+	return nil
 }
 
 // RevokeClaim revokes an already issued claim.
-- 
2.43.0


From e45c941364fc952616298542986a8de79b519482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:04 +0000
Subject: [PATCH 22/71] fix: a pending state that got on chain through an
 earlier transaction is recognised

---
 identity/issuer/issuer.go | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/identity/issuer/issuer.go b/identity/issuer/issuer.go
index 6ff1e26..5190f7f 100644
--- a/identity/issuer/issuer.go
+++ b/identity/issuer/issuer.go
@@ -553,6 +553,7 @@ func (is *Issuer) SyncIdenStatePublic() error {
 	// blocks is equal or higher than is.cfg.ConfirmBlocks
 	idenStatePending, transacted := is.idenStatePending()
 	// (C)(idenStatePending: X, transacted: true)
+	var errReverted error
 	if !idenStatePending.Equals(&merkletree.HashZero) && transacted {
 		var ethTx *types.Transaction
 		// If idenStateOnChain is zero, the pending state was caused by
@@ -567,7 +568,8 @@ func (is *Issuer) SyncIdenStatePublic() error {
 			return nil
 		} else if err == eth.ErrReceiptStatusFailed {
 			// The transaction was reverted: the pending state has to be
-			// transacted again, so go back to (B).
+			// transacted again, so go back to (B), unless it is on
+			// chain because of an earlier transaction.
 			tx, txErr := is.storage.NewTx()
 			if txErr != nil {
 				return txErr
@@ -577,16 +579,17 @@ func (is *Issuer) SyncIdenStatePublic() error {
 				return txErr
 			}
 			is._idenStatePendingTransacted = false
-			return fmt.Errorf("TxConfirmBlocks: %w", err)
+			errReverted = fmt.Errorf("TxConfirmBlocks: %w", err)
 		} else if err != nil {
 			return fmt.Errorf("TxConfirmBlocks: %w", err)
-		}
-		log.WithField("tx", ethTx.Hash().Hex()).
-			WithField("TxConfirmBlocks", confirmBlocks).
-			WithField("cfg.ConfirmBlocks", is.cfg.ConfirmBlocks).
-			Debug("State Update Tx")
-		if confirmBlocks.Cmp(new(big.Int).SetUint64(is.cfg.ConfirmBlocks)) == -1 {
-			return nil
+		} else {
+			log.WithField("tx", ethTx.Hash().Hex()).
+				WithField("TxConfirmBlocks", confirmBlocks).
+				WithField("cfg.ConfirmBlocks", is.cfg.ConfirmBlocks).
+				Debug("State Update Tx")
+			if confirmBlocks.Cmp(new(big.Int).SetUint64(is.cfg.ConfirmBlocks)) == -1 {
+				return nil
+			}
 		}
 	}
 
@@ -618,7 +621,7 @@ func (is *Issuer) SyncIdenStatePublic() error {
 	// a. the idenStateOnchan (in this case, we still have an
 	// IdenState pending to be set on chain).
 	if idenStateData.IdenState.Equals(is.idenStateOnChain()) {
-		return nil
+		return errReverted
 	}
 
 	// b. the idenStatePending (in this case, we no longer have an
-- 
2.43.0


From ddf069c457e53e08d3e8c84808588bc33303b77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:56 +0000
Subject: [PATCH 23/71] fix: a storage failure is not reported as a claim that
 was not issued

---
 identity/issuer/issuer.go | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/identity/issuer/issuer.go b/identity/issuer/issuer.go
index 5190f7f..3a027ab 100644
--- a/identity/issuer/issuer.go
+++ b/identity/issuer/issuer.go
@@ -968,6 +968,15 @@ func generateExistenceMTProof(mt *merkletree.MerkleTree, hi, root *merkletree.Ha
 	return mtp, nil
 }
 
+// entryExists checks if an entry exists in the tree under the given root.
+func entryExists(mt *merkletree.MerkleTree, entry *merkletree.Entry, root *merkletree.Hash) (bool, error) {
+	err := mt.EntryExists(entry, root)
+	if err == merkletree.ErrEntryIndexNotFound || err == merkletree.ErrEntryDataNotMatch {
+		return false, nil
+	}
+	return err == nil, err
+}
+
 // GenCredentialExistence generates an existence credential (claim + proof of
 // existence) of an issued claim.  The result contains all data necessary to
 // validate the credential against the Identity State found in the blockchain.
@@ -1001,19 +1010,25 @@ func (is *Issuer) GenCredentialExistence(claim merkletree.Entrier) (*proof.Crede
 	}
 	mtpExist, err := generateExistenceMTProof(is.claimsTree, hi,
 		idenStateTreeRoots.ClaimsTreeRoot)
-	if err != nil {
+	if err == ErrClaimNotFoundStateOnChain {
 		// We were unable to generate a proof from the claims tree
 		// associated with the on chain identity state.  Check if the
 		// claim exists in the current claims tree.
-		if err := is.claimsTree.EntryExists(claimEntry, nil); err != nil {
+		if exists, err := entryExists(is.claimsTree, claimEntry, nil); err != nil {
+			return nil, err
+		} else if !exists {
 			return nil, ErrClaimNotFoundClaimsTree
 		} else {
 			return nil, ErrClaimNotYetInOnChainState
 		}
+	} else if err != nil {
+		return nil, err
 	} else {
 		// We were able to generate a proof from the claims tree with
 		// the HIndex.  Check the HValue is also valid!
-		if err := is.claimsTree.EntryExists(claimEntry, idenStateTreeRoots.ClaimsTreeRoot); err != nil {
+		if exists, err := entryExists(is.claimsTree, claimEntry, idenStateTreeRoots.ClaimsTreeRoot); err != nil {
+			return nil, err
+		} else if !exists {
 			return nil, ErrClaimNotFoundClaimsTree
 		}
 	}
-- 
2.43.0


From abc64c7778f94d94f3f00b3fd2405cff8d8d887b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:02 +0000
Subject: [PATCH 24/71] fix: reading the on chain and pending states takes the
 issuer's lock

---
 identity/issuer/issuer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/identity/issuer/issuer.go b/identity/issuer/issuer.go
index 3a027ab..db27720 100644
--- a/identity/issuer/issuer.go
+++ b/identity/issuer/issuer.go
@@ -152,6 +152,8 @@ func (is *Issuer) loadIdenStateDataOnChain() error {
 }
 
 func (is *Issuer) IdenStateOnChain() *merkletree.Hash {
+	is.rw.RLock()
+	defer is.rw.RUnlock()
 	return is._idenStateDataOnChain.IdenState
 }
 
@@ -160,6 +162,8 @@ func (is *Issuer) idenStateOnChain() *merkletree.Hash {
 }
 
 func (is *Issuer) IdenStatePending() (*merkletree.Hash, bool) {
+	is.rw.RLock()
+	defer is.rw.RUnlock()
 	return is._idenStatePending, is._idenStatePendingTransacted
 }
 
-- 
2.43.0


From 7b153b58381a9a1a86143788df2e3216d33cda33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:49 +0000
Subject: [PATCH 25/71] fix: the subject position of a claim header is read
 back as it was written

---
 core/claims/claim.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/claims/claim.go b/core/claims/claim.go
index e8628fa..ac48ccd 100644
--- a/core/claims/claim.go
+++ b/core/claims/claim.go
@@ -188,7 +188,7 @@ func (c *ClaimHeader) Unmarshal(e *merkletree.Entry) {
 	copy(c.Type[:], index[0][:ClaimTypeLen])
 	flags0 := index[0][ClaimTypeLen]
 	c.Subject = ClaimSubject(flags0 & 0b00000011)
-	c.SubjectPos = ClaimSubjectPos(flags0 & (1 << 2))
+	c.SubjectPos = ClaimSubjectPos((flags0 >> 2) & 1)
 	c.Expiration = byte2bool(flags0 & (1 << 3))
 	c.Version = byte2bool(flags0 & (1 << 4))
 }
-- 
2.43.0


From d7e2c8b214c0e6735c3048e5e72eae70f326a061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:49 +0000
Subject: [PATCH 26/71] fix: an entry parsed from text does not keep the hashes
 of its previous data

---
 merkletree/merkletree.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/merkletree/merkletree.go b/merkletree/merkletree.go
index 1b52983..7938da0 100644
--- a/merkletree/merkletree.go
+++ b/merkletree/merkletree.go
@@ -203,6 +203,8 @@ func (e Entry) MarshalText() ([]byte, error) {
 }
 
 func (e *Entry) UnmarshalText(text []byte) error {
+	// The cached hashes are those of the previous data.
+	e.hIndex, e.hValue = nil, nil
 	return e.Data.UnmarshalText(text)
 }
 
-- 
2.43.0


From 8c0e2c5fadf7071c7e5dcba4e14eeb82c0212791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:50 +0000
Subject: [PATCH 27/71] fix: verifying an incomplete credential, or one with
 roots outside the field, returns an error

---
 components/verifier/verifier.go | 23 ++++++++++++++++++++---
 core/id.go                      | 22 +++++++++++++++++++---
 2 files changed, 39 insertions(+), 6 deletions(-)

diff --git a/components/verifier/verifier.go b/components/verifier/verifier.go
index f947ed2..e5f5a61 100644
--- a/components/verifier/verifier.go
+++ b/components/verifier/verifier.go
@@ -21,6 +21,7 @@ var (
 	ErrMtpNonExistence                = fmt.Errorf("The Merkle Tree Proof is of non-existence")
 	ErrMtpExistence                   = fmt.Errorf("The Merkle Tree Proof is of existence")
 	ErrCalculatedIdenStateDoesntMatch = fmt.Errorf("Calculated IdenState doesn't match the one in the credential")
+	ErrIncompleteCredential           = fmt.Errorf("The credential is missing some of its parts")
 	ErrClaimExpired                   = fmt.Errorf("Expired claim")
 	ErrFailedVerifyZkProofCredential  = fmt.Errorf("failed verifing generated zk proof of credential")
 )
@@ -56,12 +57,18 @@ func NewWithTimeNow(idenPubOnChain idenpubonchain.IdenPubOnChainer, timeNow func
 // VerifyCredentialExistence verifies a credential of existence.  That is, that
 // the claim was issued by a particular identity.
 func (v *Verifier) VerifyCredentialExistence(credExist *proof.CredentialExistence) error {
+	if credExist.Id == nil || credExist.IdenStateData.IdenState == nil ||
+		credExist.MtpClaim == nil || credExist.Claim == nil {
+		return ErrIncompleteCredential
+	}
 	if !credExist.MtpClaim.Existence {
 		return ErrMtpNonExistence
 	}
 	// Verify that the idenState is built from claims merkle tree where the
 	// claim exists.
-	hi, hv, err := credExist.Claim.HiHv()
+	// The hashes are calculated from the data that is being verified, without
+	// relying on the ones that the entry may have cached.
+	hi, hv, err := credExist.Claim.Clone().HiHv()
 	if err != nil {
 		return err
 	}
@@ -69,7 +76,10 @@ func (v *Verifier) VerifyCredentialExistence(credExist *proof.CredentialExistenc
 	if err != nil {
 		return err
 	}
-	idenState := core.IdenState(claimsRoot, credExist.RevocationsTreeRoot, credExist.RootsTreeRoot)
+	idenState, err := core.CalculateIdenState(claimsRoot, credExist.RevocationsTreeRoot, credExist.RootsTreeRoot)
+	if err != nil {
+		return err
+	}
 	if !idenState.Equals(credExist.IdenStateData.IdenState) {
 		return ErrCalculatedIdenStateDoesntMatch
 	}
@@ -115,6 +125,10 @@ func (v *Verifier) validateFreshness(id *core.ID, idenState *merkletree.Hash, bl
 // the claim was issued by a particular identity, and that it has not been
 // revoked passed the freshness time.
 func (v *Verifier) VerifyCredentialValidity(credValid *proof.CredentialValidity, freshness time.Duration) error {
+	if credValid.CredentialExistence.Claim == nil || credValid.MtpNotNonce == nil ||
+		credValid.IdenStateData.IdenState == nil {
+		return ErrIncompleteCredential
+	}
 	// If the claim has an expiration date, check that it hasn't expired.
 	var metadata claims.Metadata
 	metadata.Unmarshal(credValid.CredentialExistence.Claim)
@@ -149,7 +163,10 @@ func (v *Verifier) VerifyCredentialValidity(credValid *proof.CredentialValidity,
 	if err != nil {
 		return err
 	}
-	idenState := core.IdenState(credValid.ClaimsTreeRoot, revocationsTreeRoot, credValid.RootsTreeRoot)
+	idenState, err := core.CalculateIdenState(credValid.ClaimsTreeRoot, revocationsTreeRoot, credValid.RootsTreeRoot)
+	if err != nil {
+		return err
+	}
 	if !idenState.Equals(credValid.IdenStateData.IdenState) {
 		return ErrCalculatedIdenStateDoesntMatch
 	}
diff --git a/core/id.go b/core/id.go
index d8968e5..2a5120b 100644
--- a/core/id.go
+++ b/core/id.go
@@ -3,6 +3,7 @@ package core
 import (
 	"bytes"
 	"errors"
+	"fmt"
 	"math/big"
 
 	"github.com/btcsuite/btcutil/base58"
@@ -153,16 +154,31 @@ func IdGenesisFromIdenState(hash *merkletree.Hash) *ID {
 }
 
 // IdenState calculates the Identity State from the Claims Tree Root, Revocation Tree Root and Roots Tree Root.
+// The roots must be valid elements of the finite field; use
+// CalculateIdenState for roots that come from outside.
 func IdenState(clr *merkletree.Hash, rer *merkletree.Hash, ror *merkletree.Hash) *merkletree.Hash {
+	idenState, err := CalculateIdenState(clr, rer, ror)
+	if err != nil {
+		panic(err)
+	}
+	return idenState
+}
+
+// CalculateIdenState calculates the Identity State like IdenState, and returns
+// an error if any of the roots is missing or not inside the finite field.
+func CalculateIdenState(clr *merkletree.Hash, rer *merkletree.Hash, ror *merkletree.Hash) (*merkletree.Hash, error) {
+	if clr == nil || rer == nil || ror == nil {
+		return nil, fmt.Errorf("missing tree root")
+	}
 	bi, err := merkletree.ElemBytesToPoseidonInput(merkletree.ElemBytes(*clr),
 		merkletree.ElemBytes(*rer),
 		merkletree.ElemBytes(*ror))
 	if err != nil {
-		panic(err)
+		return nil, err
 	}
 	idenState, err := poseidon.PoseidonHash(bi)
 	if err != nil {
-		panic(err)
+		return nil, err
 	}
-	return merkletree.NewHashFromBigInt(idenState)
+	return merkletree.NewHashFromBigInt(idenState), nil
 }
-- 
2.43.0


From 87cf0bfbb05d5b722ee1e076f34ed1b4705de720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:50 +0000
Subject: [PATCH 28/71] fix: a zk proof without public signals is refused

---
 components/verifier/verifier.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/components/verifier/verifier.go b/components/verifier/verifier.go
index e5f5a61..6fced59 100644
--- a/components/verifier/verifier.go
+++ b/components/verifier/verifier.go
@@ -197,6 +197,11 @@ func (v *Verifier) VerifyZkProofCredential(
 		return fmt.Errorf("error loading zk vk: %w", err)
 	}
 
+	// The first public signal is the IdenState of the issuer.
+	if len(pubSignals) == 0 || pubSignals[0] == nil {
+		return ErrFailedVerifyZkProofCredential
+	}
+
 	// Verify the zkp
 	if !verifier.Verify(vk, zkProof, pubSignals) {
 		return ErrFailedVerifyZkProofCredential
-- 
2.43.0


From 8439c2255177b96c8ae9e3a7425fbdc00f1f54ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:51 +0000
Subject: [PATCH 29/71] fix: public data with a root outside the field are
 refused with an error

---
 components/idenpuboffchain/idenpuboffchain.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/components/idenpuboffchain/idenpuboffchain.go b/components/idenpuboffchain/idenpuboffchain.go
index b0a9f2d..cb5a38a 100644
--- a/components/idenpuboffchain/idenpuboffchain.go
+++ b/components/idenpuboffchain/idenpuboffchain.go
@@ -72,8 +72,11 @@ func NewPublicDataFromBlobs(publicDataBlobs *PublicDataBlobs) (*PublicData, erro
 		return nil, fmt.Errorf("Imported roots tree root (%v) doesn't match the expected root (%v)",
 			rootsTree.RootKey(), publicDataBlobs.RootsTreeRoot)
 	}
-	idenState := core.IdenState(&publicDataBlobs.ClaimsTreeRoot,
+	idenState, err := core.CalculateIdenState(&publicDataBlobs.ClaimsTreeRoot,
 		&publicDataBlobs.RevocationsTreeRoot, &publicDataBlobs.RootsTreeRoot)
+	if err != nil {
+		return nil, err
+	}
 	if !idenState.Equals(&publicDataBlobs.IdenState) {
 		return nil, ErrCalculatedIdenStateDoesntMatch
 	}
-- 
2.43.0


From 707bbcb6660ccc2531a62c04074346748f080125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:31 +0000
Subject: [PATCH 30/71] fix: a holder given an incomplete credential returns an
 error

---
 identity/holder/holder.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/identity/holder/holder.go b/identity/holder/holder.go
index 5687ce6..9a26607 100644
--- a/identity/holder/holder.go
+++ b/identity/holder/holder.go
@@ -30,6 +30,7 @@ const (
 
 var (
 	ErrRevokedClaim                   = fmt.Errorf("revocation nonce exists in the Revocation Tree.  The claim is revoked.")
+	ErrIncompleteCredential           = fmt.Errorf("the credential is missing some of its parts")
 	ErrRootNotFound                   = fmt.Errorf("claims tree root not found in roots tree.")
 	ErrFailedVerifyZkProofCredential  = fmt.Errorf("failed verifing generated zk proof of credential")
 	ErrCalculatedIdenStateDoesntMatch = fmt.Errorf("Calculated IdenState from public data doesn't match the one queried")
@@ -93,6 +94,9 @@ type CredentialValidityAux struct {
 // a validity proof from a credential existence proof.
 func (h *Holder) HolderGetCredentialValidityData(
 	credExist *proof.CredentialExistence) (*CredentialValidityAux, error) {
+	if credExist.Id == nil || credExist.Claim == nil {
+		return nil, ErrIncompleteCredential
+	}
 	idenStateData, err := h.idenPubOnChain.GetState(credExist.Id)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From e6c16d69370b404df97dcd7d1400e070bee46a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:29 +0000
Subject: [PATCH 31/71] fix: a claim with an expiration in the far future is
 not taken as expired

---
 components/verifier/verifier.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/components/verifier/verifier.go b/components/verifier/verifier.go
index 6fced59..523384f 100644
--- a/components/verifier/verifier.go
+++ b/components/verifier/verifier.go
@@ -133,8 +133,11 @@ func (v *Verifier) VerifyCredentialValidity(credValid *proof.CredentialValidity,
 	var metadata claims.Metadata
 	metadata.Unmarshal(credValid.CredentialExistence.Claim)
 	if metadata.Header().Expiration {
+		// The comparison is done in seconds because time.Time can't
+		// represent all the possible expiration values.
 		now := v.timeNow()
-		if time.Unix(metadata.Expiration, 0).Before(now) {
+		if metadata.Expiration < now.Unix() ||
+			(metadata.Expiration == now.Unix() && now.Nanosecond() > 0) {
 			return ErrClaimExpired
 		}
 	}
-- 
2.43.0


From 646023b55b0c631f81887f7d7e7fe770cbf41491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:53 +0000
Subject: [PATCH 32/71] fix: decoding short or wrongly padded base64 neither
 panics nor succeeds

---
 common/common.go | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/common/common.go b/common/common.go
index 5c531c4..c154188 100644
--- a/common/common.go
+++ b/common/common.go
@@ -19,13 +19,8 @@ func Base64ToBytes(base64String string) ([]byte, error) {
 // Base64Decode decodes a string in base64 with optional padding into an array
 // of bytes.
 func Base64Decode(b64 string) ([]byte, error) {
-	l := len(b64)
-	if b64[l-3] == '=' {
-		b64 = b64[:l-3]
-	} else if b64[l-2] == '=' {
-		b64 = b64[:l-2]
-	} else if b64[l-1] == '=' {
-		b64 = b64[:l-1]
+	if strings.Contains(b64, "=") {
+		return base64.StdEncoding.DecodeString(b64)
 	}
 	return base64.RawStdEncoding.DecodeString(b64)
 }
-- 
2.43.0


From 470fa69e7e13e9d87086b7ee72df6302bd7f71ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:04 +0000
Subject: [PATCH 33/71] fix: a generic claim's entry has the hashes of its
 current metadata

---
 core/claims/utils.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/core/claims/utils.go b/core/claims/utils.go
index 757d865..da7f7c8 100644
--- a/core/claims/utils.go
+++ b/core/claims/utils.go
@@ -19,8 +19,11 @@ func NewClaimGeneric(entry *merkletree.Entry) *ClaimGeneric {
 }
 
 func (c *ClaimGeneric) Entry() *merkletree.Entry {
-	c.metadata.Marshal(c.entry)
-	return c.entry
+	// Marshal into a copy: the entry caches its hashes, which are not those
+	// of the claim anymore once the metadata changes.
+	e := &merkletree.Entry{Data: c.entry.Data}
+	c.metadata.Marshal(e)
+	return e
 }
 
 func (c *ClaimGeneric) Metadata() *Metadata {
-- 
2.43.0


From 35c3a8660c203ff45d086ac636441af5cb0c160d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:05 +0000
Subject: [PATCH 34/71] fix: a claim read from hexadecimal keeps its metadata
 and has its length checked

---
 core/claims/utils.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/core/claims/utils.go b/core/claims/utils.go
index da7f7c8..4b9bbb2 100644
--- a/core/claims/utils.go
+++ b/core/claims/utils.go
@@ -2,6 +2,7 @@ package claims
 
 import (
 	"encoding/hex"
+	"fmt"
 
 	common3 "github.com/iden3/go-iden3-core/common"
 	"github.com/iden3/go-iden3-core/merkletree"
@@ -36,15 +37,15 @@ func HexToClaimGeneric(h string) (ClaimGeneric, error) {
 		return ClaimGeneric{}, err
 	}
 	var dataBytes [merkletree.ElemBytesLen * merkletree.DataLen]byte
+	if len(bytesValue) != len(dataBytes) {
+		return ClaimGeneric{}, fmt.Errorf("invalid claim length: %v", len(bytesValue))
+	}
 	copy(dataBytes[:], bytesValue)
 	data := merkletree.NewDataFromBytes(dataBytes)
 	entry := merkletree.Entry{
 		Data: *data,
 	}
-	entrier := ClaimGeneric{
-		entry: &entry,
-	}
-	return entrier, nil
+	return *NewClaimGeneric(&entry), nil
 }
 
 func HexArrayToClaimGenericArray(arrH []string) ([]ClaimGeneric, error) {
-- 
2.43.0


From 0e2878bddc4718b7f1dcc335488ca6804de7eb0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:07 +0000
Subject: [PATCH 35/71] fix: claim metadata without the identity of their
 subject are refused

---
 core/claims/claim.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/claims/claim.go b/core/claims/claim.go
index ac48ccd..e1efdc2 100644
--- a/core/claims/claim.go
+++ b/core/claims/claim.go
@@ -320,6 +320,9 @@ func (m *Metadata) UnmarshalJSON(b []byte) error {
 		return err
 	}
 	if m.header.Subject != ClaimSubjectSelf {
+		if metadata.ID == nil {
+			return fmt.Errorf("missing ID of the claim subject")
+		}
 		m.Subject = metadata.ID
 	}
 	if m.header.Expiration {
-- 
2.43.0


From 892ea660f13ea6a738b81787a43068b425e58562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:10 +0000
Subject: [PATCH 36/71] fix: the last public data are found with any cache
 length

---
 components/idenpuboffchain/writerhttp/writerhttp.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/components/idenpuboffchain/writerhttp/writerhttp.go b/components/idenpuboffchain/writerhttp/writerhttp.go
index 2807ca9..66fbe29 100644
--- a/components/idenpuboffchain/writerhttp/writerhttp.go
+++ b/components/idenpuboffchain/writerhttp/writerhttp.go
@@ -134,7 +134,10 @@ func (i *IdenPubOffChainWriteHttp) prevCacheIdx(tx db.Tx) (byte, error) {
 	if err != nil {
 		return 0, err
 	}
-	return (cacheIdx[0] - 1) % i.cfg.CacheLen, nil
+	if cacheIdx[0] == 0 {
+		return i.cfg.CacheLen - 1, nil
+	}
+	return cacheIdx[0] - 1, nil
 }
 
 // nextCacheIdx returns the current cacheIdx and stores the next one.
-- 
2.43.0


From 5519bb7c9d9f01664cf6d7c191293badd81be995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:12 +0000
Subject: [PATCH 37/71] fix: a state absent from a cache that is not full yet
 is reported as not found

---
 components/idenpuboffchain/writerhttp/writerhttp.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/components/idenpuboffchain/writerhttp/writerhttp.go b/components/idenpuboffchain/writerhttp/writerhttp.go
index 66fbe29..01b6bcf 100644
--- a/components/idenpuboffchain/writerhttp/writerhttp.go
+++ b/components/idenpuboffchain/writerhttp/writerhttp.go
@@ -188,7 +188,9 @@ func (i *IdenPubOffChainWriteHttp) GetPublicData(queryIdenState *merkletree.Hash
 		for ; cacheIdx < i.cfg.CacheLen; cacheIdx++ {
 			// idenState
 			idenState, err := tx.Get(keyIdx(dbKeyIdenState, cacheIdx))
-			if err != nil {
+			if err == db.ErrNotFound {
+				return nil, ErrIdenStateNotFound // the slots are filled in order
+			} else if err != nil {
 				return nil, err
 			}
 			if bytes.Equal(queryIdenState[:], idenState) {
@@ -201,7 +203,9 @@ func (i *IdenPubOffChainWriteHttp) GetPublicData(queryIdenState *merkletree.Hash
 	}
 	// idenState
 	idenState, err := tx.Get(keyIdx(dbKeyIdenState, cacheIdx))
-	if err != nil {
+	if err == db.ErrNotFound {
+		return nil, ErrIdenStateNotFound
+	} else if err != nil {
 		return nil, err
 	}
 
-- 
2.43.0


From e55f5242f65d9cc8501193c82551d32f5f6990f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:13 +0000
Subject: [PATCH 38/71] fix: an off-chain writer with no room for public data
 is refused

---
 components/idenpuboffchain/writerhttp/writerhttp.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/components/idenpuboffchain/writerhttp/writerhttp.go b/components/idenpuboffchain/writerhttp/writerhttp.go
index 01b6bcf..296dbbe 100644
--- a/components/idenpuboffchain/writerhttp/writerhttp.go
+++ b/components/idenpuboffchain/writerhttp/writerhttp.go
@@ -44,6 +44,9 @@ type IdenPubOffChainWriteHttp struct {
 
 // NewIdenPubOffChainWriteHttp returns a new IdenPubOffChainWriteHttp
 func NewIdenPubOffChainWriteHttp(cfg *Config, storage db.Storage) (*IdenPubOffChainWriteHttp, error) {
+	if cfg.CacheLen == 0 {
+		return nil, fmt.Errorf("the cache length can't be 0")
+	}
 	i := IdenPubOffChainWriteHttp{
 		rw:      &sync.RWMutex{},
 		storage: storage,
-- 
2.43.0


From b4d1f2e9e00039102003d47dacc7b61ce4b222c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:47 +0000
Subject: [PATCH 39/71] fix: published data don't change with the issuer's
 trees in the local off-chain store

---
 components/idenpuboffchain/local/local.go | 26 +++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/components/idenpuboffchain/local/local.go b/components/idenpuboffchain/local/local.go
index 7bc7801..9e54d29 100644
--- a/components/idenpuboffchain/local/local.go
+++ b/components/idenpuboffchain/local/local.go
@@ -52,6 +52,11 @@ func (ip *IdenPubOffChain) Url() string {
 }
 
 func (ip *IdenPubOffChain) Publish(id *core.ID, publicData *idenpuboffchain.PublicData) error {
+	// The issuer keeps changing its trees after publishing them.
+	publicData, err := snapshot(publicData)
+	if err != nil {
+		return err
+	}
 	ip.rw.Lock()
 	defer ip.rw.Unlock()
 	iden, ok := ip.idens[*id]
@@ -66,3 +71,24 @@ func (ip *IdenPubOffChain) Publish(id *core.ID, publicData *idenpuboffchain.Publ
 	iden.last = publicData.IdenState
 	return nil
 }
+
+// snapshot returns a copy of the publicData that doesn't change with it.
+func snapshot(publicData *idenpuboffchain.PublicData) (*idenpuboffchain.PublicData, error) {
+	idenState, claimsTreeRoot := *publicData.IdenState, *publicData.ClaimsTreeRoot
+	revocationsTree, err := publicData.RevocationsTree.Snapshot(publicData.RevocationsTreeRoot)
+	if err != nil {
+		return nil, err
+	}
+	rootsTree, err := publicData.RootsTree.Snapshot(publicData.RootsTreeRoot)
+	if err != nil {
+		return nil, err
+	}
+	return &idenpuboffchain.PublicData{
+		IdenState:           &idenState,
+		ClaimsTreeRoot:      &claimsTreeRoot,
+		RevocationsTreeRoot: revocationsTree.RootKey(),
+		RevocationsTree:     revocationsTree,
+		RootsTreeRoot:       rootsTree.RootKey(),
+		RootsTree:           rootsTree,
+	}, nil
+}
-- 
2.43.0


From bdc895dbe26ad0f6b5f35ba8c38f497751df39dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:43 +0000
Subject: [PATCH 40/71] fix: the local chain counts the confirmations of an
 update from its block

---
 components/idenpubonchain/local/local.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/components/idenpubonchain/local/local.go b/components/idenpubonchain/local/local.go
index 2500d85..60b791c 100644
--- a/components/idenpubonchain/local/local.go
+++ b/components/idenpubonchain/local/local.go
@@ -145,7 +145,7 @@ func (ip *IdenPubOnChain) SetState(id *core.ID, newState *merkletree.Hash,
 		IdenState: newState,
 	}
 	ip.pendingSet = append(ip.pendingSet, &IdIdenStateData{Id: id, IdenStateData: &idenState})
-	return &types.Transaction{}, nil
+	return newTransaction(idenState.BlockN), nil
 }
 
 // InitState initializes the first Identity State of the given ID in the IdenStates Smart Contract.
@@ -167,8 +167,14 @@ func (ip *IdenPubOnChain) InitState(id *core.ID, genesisState,
 		IdenState: newState,
 	}
 	ip.pendingInit = append(ip.pendingInit, &IdIdenStateData{Id: id, IdenStateData: &idenState})
+	return newTransaction(idenState.BlockN), nil
+}
+
+// newTransaction returns a transaction for TxConfirmBlocks, with the number of
+// the block that includes it as data.
+func newTransaction(blockN uint64) *types.Transaction {
 	return types.NewTransaction(0, common.Address{}, nil, 0, nil,
-		new(big.Int).SetUint64(ip.blockNow()).Bytes()), nil
+		new(big.Int).SetUint64(blockN).Bytes())
 }
 
 // TxConfirmBlocks returns the number of confirmed blocks of transaction tx.
-- 
2.43.0


From 204373956cf61f20f50ef68038aeccc35446adb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:56 +0000
Subject: [PATCH 41/71] fix: the local chain records one transition of an
 identity per block, from its current state

---
 components/idenpubonchain/local/local.go | 28 +++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/components/idenpubonchain/local/local.go b/components/idenpubonchain/local/local.go
index 60b791c..65f2710 100644
--- a/components/idenpubonchain/local/local.go
+++ b/components/idenpubonchain/local/local.go
@@ -135,12 +135,19 @@ func (ip *IdenPubOnChain) SetState(id *core.ID, newState *merkletree.Hash,
 	if !ok {
 		return nil, idenpubonchain.ErrIdenNotOnChain
 	}
-	oldState := idenStatesData.IdenStates[len(idenStatesData.IdenStates)-1].IdenState
-	if !ip.verifyZKP(zkProof, id, oldState, newState) {
+	if ip.isPending(id) {
+		return nil, fmt.Errorf("identity already has a pending state")
+	}
+	last := idenStatesData.IdenStates[len(idenStatesData.IdenStates)-1]
+	if !ip.verifyZKP(zkProof, id, last.IdenState, newState) {
 		return nil, fmt.Errorf("zkproof verification failed")
 	}
+	blockN := ip.blockNow()
+	if last.BlockN == blockN {
+		return nil, fmt.Errorf("no multiple set in the same block")
+	}
 	idenState := proof.IdenStateData{
-		BlockN:    ip.blockNow(),
+		BlockN:    blockN,
 		BlockTs:   ip.timeNow().Unix(),
 		IdenState: newState,
 	}
@@ -157,6 +164,9 @@ func (ip *IdenPubOnChain) InitState(id *core.ID, genesisState,
 	if ok {
 		return nil, fmt.Errorf("identity already exists on chain")
 	}
+	if ip.isPending(id) {
+		return nil, fmt.Errorf("identity already has a pending state")
+	}
 
 	if !ip.verifyZKP(zkProof, id, genesisState, newState) {
 		return nil, fmt.Errorf("zkproof verification failed")
@@ -184,6 +194,18 @@ func (ip *IdenPubOnChain) TxConfirmBlocks(tx *types.Transaction) (*big.Int, erro
 	return currentBlock.Sub(currentBlock, blockNumber), nil
 }
 
+// isPending tells whether there is a state of the identity waiting for Sync.
+func (ip *IdenPubOnChain) isPending(id *core.ID) bool {
+	for _, pending := range [][]*IdIdenStateData{ip.pendingInit, ip.pendingSet} {
+		for _, idIdenStateData := range pending {
+			if idIdenStateData.Id.Equals(id) {
+				return true
+			}
+		}
+	}
+	return false
+}
+
 func (ip *IdenPubOnChain) verifyZKP(zkProof *zktypes.Proof,
 	id *core.ID, oldState, newState *merkletree.Hash) bool {
 	var idElem merkletree.ElemBytes
-- 
2.43.0


From d4b87e57824fe9b5e80fbf383c478c656188b7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:10 +0000
Subject: [PATCH 42/71] fix: the records of the local chain aren't shared with
 its callers

---
 components/idenpubonchain/local/local.go | 31 +++++++++++++++++-------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/components/idenpubonchain/local/local.go b/components/idenpubonchain/local/local.go
index 65f2710..8bc858e 100644
--- a/components/idenpubonchain/local/local.go
+++ b/components/idenpubonchain/local/local.go
@@ -91,7 +91,7 @@ func (ip *IdenPubOnChain) GetState(id *core.ID) (*proof.IdenStateData, error) {
 	if !ok {
 		return nil, idenpubonchain.ErrIdenNotOnChain
 	}
-	return idenStatesData.IdenStates[len(idenStatesData.IdenStates)-1], nil
+	return copyIdenStateData(idenStatesData.IdenStates[len(idenStatesData.IdenStates)-1]), nil
 }
 
 // GetStateByBlock returns the Identity State Data of the given ID published at
@@ -107,7 +107,7 @@ func (ip *IdenPubOnChain) GetStateByBlock(id *core.ID, queryBlockN uint64) (*pro
 	if !ok {
 		return nil, idenpubonchain.ErrIdenByBlockNotFound
 	}
-	return idenState, nil
+	return copyIdenStateData(idenState), nil
 }
 
 // GetStateByTime returns the Identity State Data of the given ID published at
@@ -123,7 +123,7 @@ func (ip *IdenPubOnChain) GetStateByTime(id *core.ID, queryBlockTs int64) (*proo
 	if !ok {
 		return nil, idenpubonchain.ErrIdenByTimeNotFound
 	}
-	return idenState, nil
+	return copyIdenStateData(idenState), nil
 }
 
 // SetState updates the Identity State of the given ID in the IdenStates Smart Contract.
@@ -146,12 +146,13 @@ func (ip *IdenPubOnChain) SetState(id *core.ID, newState *merkletree.Hash,
 	if last.BlockN == blockN {
 		return nil, fmt.Errorf("no multiple set in the same block")
 	}
-	idenState := proof.IdenStateData{
+	idenState := copyIdenStateData(&proof.IdenStateData{
 		BlockN:    blockN,
 		BlockTs:   ip.timeNow().Unix(),
 		IdenState: newState,
-	}
-	ip.pendingSet = append(ip.pendingSet, &IdIdenStateData{Id: id, IdenStateData: &idenState})
+	})
+	idCopy := *id
+	ip.pendingSet = append(ip.pendingSet, &IdIdenStateData{Id: &idCopy, IdenStateData: idenState})
 	return newTransaction(idenState.BlockN), nil
 }
 
@@ -171,15 +172,27 @@ func (ip *IdenPubOnChain) InitState(id *core.ID, genesisState,
 	if !ip.verifyZKP(zkProof, id, genesisState, newState) {
 		return nil, fmt.Errorf("zkproof verification failed")
 	}
-	idenState := proof.IdenStateData{
+	idenState := copyIdenStateData(&proof.IdenStateData{
 		BlockN:    ip.blockNow(),
 		BlockTs:   ip.timeNow().Unix(),
 		IdenState: newState,
-	}
-	ip.pendingInit = append(ip.pendingInit, &IdIdenStateData{Id: id, IdenStateData: &idenState})
+	})
+	idCopy := *id
+	ip.pendingInit = append(ip.pendingInit, &IdIdenStateData{Id: &idCopy, IdenStateData: idenState})
 	return newTransaction(idenState.BlockN), nil
 }
 
+// copyIdenStateData returns a copy, so that what is recorded isn't shared with
+// the callers.
+func copyIdenStateData(idenStateData *proof.IdenStateData) *proof.IdenStateData {
+	idenState := *idenStateData.IdenState
+	return &proof.IdenStateData{
+		BlockN:    idenStateData.BlockN,
+		BlockTs:   idenStateData.BlockTs,
+		IdenState: &idenState,
+	}
+}
+
 // newTransaction returns a transaction for TxConfirmBlocks, with the number of
 // the block that includes it as data.
 func newTransaction(blockN uint64) *types.Transaction {
-- 
2.43.0


From 2327103fbf8220002b88307070a6bfb444b8024a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:44 +0000
Subject: [PATCH 43/71] fix: a receipt that can't be read or has no block is
 not taken as that of a failed or mined transaction

---
 eth/client.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/eth/client.go b/eth/client.go
index 1b332ad..9ef3dde 100644
--- a/eth/client.go
+++ b/eth/client.go
@@ -161,6 +161,11 @@ func (c *Client) waitReceipt(tx *types.Transaction, ctx context.Context, timeout
 	start := time.Now()
 	for {
 		receipt, err = c.client.TransactionReceipt(ctx, txid)
+		if err != nil || (receipt != nil && receipt.BlockNumber == nil) {
+			// A receipt that can't be read or that belongs to no block
+			// doesn't say anything about the transaction.
+			receipt = nil
+		}
 		if receipt != nil || time.Since(start) >= timeout {
 			break
 		}
-- 
2.43.0


From e2ce91cbfc17c3cb74c123d15513f209d0257948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:55 +0000
Subject: [PATCH 44/71] fix: waiting for a receipt ends at the limit when the
 node doesn't answer

---
 eth/client.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/eth/client.go b/eth/client.go
index 9ef3dde..20d3ec0 100644
--- a/eth/client.go
+++ b/eth/client.go
@@ -139,7 +139,10 @@ func (c *Client) Call(fn func(*ethclient.Client) error) error {
 // WaitReceipt will block until a transaction is confirmed.  Internally it
 // polls the state every 200 milliseconds.
 func (c *Client) WaitReceipt(tx *types.Transaction) (*types.Receipt, error) {
-	return c.waitReceipt(tx, context.TODO(), c.ReceiptTimeout)
+	// The last request gets as much time as that of GetReceipt.
+	ctx, cancel := context.WithTimeout(context.TODO(), c.ReceiptTimeout+1*time.Second)
+	defer cancel()
+	return c.waitReceipt(tx, ctx, c.ReceiptTimeout)
 }
 
 // GetReceipt will check if a transaction is confirmed and return
-- 
2.43.0


From d16584c90ff2014864d7ad9cd3d34b476742f401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:55 +0000
Subject: [PATCH 45/71] fix: a key store whose storage holds null can be used

---
 keystore/keystore.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/keystore/keystore.go b/keystore/keystore.go
index 04ead5f..31be12e 100644
--- a/keystore/keystore.go
+++ b/keystore/keystore.go
@@ -249,6 +249,10 @@ func NewKeyStore(storage Storage, params KeyStoreParams) (*KeyStore, error) {
 			storage.Unlock() //nolint:errcheck
 			return nil, err
 		}
+		if encryptedKeys == nil {
+			// the stored JSON is null
+			encryptedKeys = make(map[babyjub.PublicKeyComp]EncryptedData)
+		}
 	}
 	ks := &KeyStore{
 		storage:       storage,
-- 
2.43.0


From 52427a290dee837823f9b9c8d4aa92684a55dc65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:56 +0000
Subject: [PATCH 46/71] fix: a key that could not be stored is not kept in the
 key store

---
 keystore/keystore.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/keystore/keystore.go b/keystore/keystore.go
index 31be12e..4f6cf51 100644
--- a/keystore/keystore.go
+++ b/keystore/keystore.go
@@ -303,12 +303,19 @@ func (ks *KeyStore) ImportKey(sk babyjub.PrivateKey, pass []byte) (*babyjub.Publ
 	}
 	pk := sk.Public()
 	pubComp := pk.Compress()
+	prevKey, existed := ks.encryptedKeys[pubComp]
 	ks.encryptedKeys[pubComp] = *encryptedKey
 	encryptedKeysJSON, err := json.Marshal(ks.encryptedKeys)
-	if err != nil {
-		return nil, err
+	if err == nil {
+		err = ks.storage.Write(encryptedKeysJSON)
 	}
-	if err := ks.storage.Write(encryptedKeysJSON); err != nil {
+	if err != nil {
+		// the key has not been stored
+		if existed {
+			ks.encryptedKeys[pubComp] = prevKey
+		} else {
+			delete(ks.encryptedKeys, pubComp)
+		}
 		return nil, err
 	}
 	return &pubComp, nil
-- 
2.43.0


From f59a8e9987da1e0ba4149d72e1e2dcbd0e140220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:56 +0000
Subject: [PATCH 47/71] fix: ExportKey returns a copy of the key in the cache

---
 keystore/keystore.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/keystore/keystore.go b/keystore/keystore.go
index 4f6cf51..534cd4c 100644
--- a/keystore/keystore.go
+++ b/keystore/keystore.go
@@ -328,7 +328,9 @@ func (ks *KeyStore) ExportKey(pk *babyjub.PublicKeyComp) (*babyjub.PrivateKey, e
 	if !ok {
 		return nil, ErrKeyNotInCache
 	}
-	return sk, nil
+	// a copy: the key in the cache is cleared when the key store is closed
+	skCopy := *sk
+	return &skCopy, nil
 }
 
 // UnlockKey decrypts the key corresponding to the public key pk and loads it
-- 
2.43.0


From 78eb301a70f6374734b8625ca4cb982536970c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:56 +0000
Subject: [PATCH 48/71] fix: UnlockKey refuses a stored key that is not the one
 of the public key

---
 keystore/keystore.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/keystore/keystore.go b/keystore/keystore.go
index 534cd4c..9073805 100644
--- a/keystore/keystore.go
+++ b/keystore/keystore.go
@@ -347,7 +347,13 @@ func (ks *KeyStore) UnlockKey(pk *babyjub.PublicKeyComp, pass []byte) error {
 		return err
 	}
 	var sk babyjub.PrivateKey
+	if len(skBuf) != len(sk) {
+		return ErrInvalidEncData
+	}
 	copy(sk[:], skBuf)
+	if sk.Public().Compress() != *pk {
+		return ErrInvalidEncData
+	}
 	ks.cache[*pk] = &sk
 	return nil
 }
-- 
2.43.0


From fb7c6e2f12bad0414e6e7d70884407717a16f04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:56 +0000
Subject: [PATCH 49/71] fix: MemStorage copies the data it reads and writes

---
 keystore/keystore.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/keystore/keystore.go b/keystore/keystore.go
index 9073805..9425074 100644
--- a/keystore/keystore.go
+++ b/keystore/keystore.go
@@ -202,12 +202,12 @@ type MemStorage []byte
 
 // Read reads the slice contents.
 func (ms *MemStorage) Read() ([]byte, error) {
-	return []byte(*ms), nil
+	return append([]byte{}, *ms...), nil
 }
 
 // Write copies the data to the slice.
 func (ms *MemStorage) Write(data []byte) error {
-	*ms = data
+	*ms = append([]byte{}, data...)
 	return nil
 }
 
-- 
2.43.0


From f80c278073c6b0b690cf65c693a045b52fb99ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:57 +0000
Subject: [PATCH 50/71] fix: a closed key store holds no keys and doesn't touch
 the storage

---
 keystore/keystore.go | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/keystore/keystore.go b/keystore/keystore.go
index 9425074..1f9c9df 100644
--- a/keystore/keystore.go
+++ b/keystore/keystore.go
@@ -223,6 +223,7 @@ type KeyStore struct {
 	params        KeyStoreParams
 	encryptedKeys KeysStored
 	cache         map[babyjub.PublicKeyComp]*babyjub.PrivateKey
+	closed        bool
 	rw            sync.RWMutex
 }
 
@@ -268,12 +269,24 @@ func NewKeyStore(storage Storage, params KeyStoreParams) (*KeyStore, error) {
 	return ks, nil
 }
 
+// Close clears the secret keys in the cache and unlocks the storage.  A closed
+// key store can't be used anymore, and closing it again does nothing.
 func (ks *KeyStore) Close() error {
+	ks.rw.Lock()
+	defer ks.rw.Unlock()
 	zero := [32]byte{}
-	for _, sk := range ks.cache {
+	for pk, sk := range ks.cache {
 		copy(sk[:], zero[:])
+		delete(ks.cache, pk)
+	}
+	if ks.closed {
+		return nil
+	}
+	if err := ks.storage.Unlock(); err != nil {
+		return err
 	}
-	return ks.storage.Unlock()
+	ks.closed = true
+	return nil
 }
 
 // Keys returns the compressed public keys of the key storage.
@@ -297,6 +310,9 @@ func (ks *KeyStore) NewKey(pass []byte) (*babyjub.PublicKeyComp, error) {
 func (ks *KeyStore) ImportKey(sk babyjub.PrivateKey, pass []byte) (*babyjub.PublicKeyComp, error) {
 	ks.rw.Lock()
 	defer ks.rw.Unlock()
+	if ks.closed {
+		return nil, ErrStorageUnlocked
+	}
 	encryptedKey, err := EncryptData(sk[:], pass, ks.params.ScryptN, ks.params.ScryptP)
 	if err != nil {
 		return nil, err
@@ -338,6 +354,9 @@ func (ks *KeyStore) ExportKey(pk *babyjub.PublicKeyComp) (*babyjub.PrivateKey, e
 func (ks *KeyStore) UnlockKey(pk *babyjub.PublicKeyComp, pass []byte) error {
 	ks.rw.Lock()
 	defer ks.rw.Unlock()
+	if ks.closed {
+		return ErrStorageUnlocked
+	}
 	encryptedKey, ok := ks.encryptedKeys[*pk]
 	if !ok {
 		return ErrKeyNotFound
-- 
2.43.0


From 275c009783cd586173014417e6a63dcde693fb6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:57 +0000
Subject: [PATCH 51/71] fix: an interrupted write of the key file doesn't lose
 the keys

---
 keystore/keystore.go | 41 ++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 40 insertions(+), 1 deletion(-)

diff --git a/keystore/keystore.go b/keystore/keystore.go
index 1f9c9df..09bb44b 100644
--- a/keystore/keystore.go
+++ b/keystore/keystore.go
@@ -11,6 +11,7 @@ import (
 	"io/ioutil"
 	"math/big"
 	"os"
+	"path/filepath"
 	"runtime"
 	"sync"
 
@@ -177,7 +178,45 @@ func (fs *FileStorage) Write(data []byte) error {
 	if !fs.lock.Locked() {
 		return ErrStorageUnlocked
 	}
-	return ioutil.WriteFile(fs.path, data, 0600)
+	// Write a new file and put it in the place of the old one, so that the
+	// contents are never lost or incomplete.
+	tmpPath := fs.path + ".tmp"
+	if err := writeFileSync(tmpPath, data); err != nil {
+		return err
+	}
+	if err := os.Rename(tmpPath, fs.path); err != nil {
+		return err
+	}
+	return syncDir(filepath.Dir(fs.path))
+}
+
+// writeFileSync writes data to a new file and flushes it to the disk.
+func writeFileSync(path string, data []byte) error {
+	f, err := os.OpenFile(path, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0600)
+	if err != nil {
+		return err
+	}
+	_, err = f.Write(data)
+	if err == nil {
+		err = f.Sync()
+	}
+	if errClose := f.Close(); err == nil {
+		err = errClose
+	}
+	return err
+}
+
+// syncDir flushes a directory to the disk.
+func syncDir(path string) error {
+	d, err := os.Open(path)
+	if err != nil {
+		return err
+	}
+	err = d.Sync()
+	if errClose := d.Close(); err == nil {
+		err = errClose
+	}
+	return err
 }
 
 // TryLocks the storage file with a .lock file.
-- 
2.43.0


From f54a542e7c58b3236f3dd1a2598f64042c16bf64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:57 +0000
Subject: [PATCH 52/71] fix: unlocking a FileStorage never releases the lock of
 someone else

---
 keystore/keystore.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/keystore/keystore.go b/keystore/keystore.go
index 09bb44b..37edd36 100644
--- a/keystore/keystore.go
+++ b/keystore/keystore.go
@@ -226,14 +226,16 @@ func (fs *FileStorage) TryLock() (bool, error) {
 	return fs.lock.TryLock()
 }
 
-// Unlocks the storage file and removes the .lock file.
+// Unlocks the storage file.
 func (fs *FileStorage) Unlock() error {
 	fs.rw.Lock()
 	defer fs.rw.Unlock()
-	if err := fs.lock.Unlock(); err != nil {
-		return err
+	if !fs.lock.Locked() {
+		return ErrStorageUnlocked
 	}
-	return os.Remove(fs.path + ".lock")
+	// The .lock file is not removed: someone may have it open waiting for
+	// the lock, and would get a lock on a file that is not there anymore.
+	return fs.lock.Unlock()
 }
 
 // MemStorage is a storage backed by a slice.
-- 
2.43.0


From b92c27dd7963676569ddb2bae28f5fee51b42de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:57 +0000
Subject: [PATCH 53/71] fix: a FileStorage can't be locked twice

---
 keystore/keystore.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/keystore/keystore.go b/keystore/keystore.go
index 37edd36..8bbc5e9 100644
--- a/keystore/keystore.go
+++ b/keystore/keystore.go
@@ -223,6 +223,10 @@ func syncDir(path string) error {
 func (fs *FileStorage) TryLock() (bool, error) {
 	fs.rw.Lock()
 	defer fs.rw.Unlock()
+	if fs.lock.Locked() {
+		// flock doesn't refuse to lock again what it has already locked
+		return false, nil
+	}
 	return fs.lock.TryLock()
 }
 
-- 
2.43.0


From b9e0ffc91e501e3f1282ae1e570f9e1f00f481a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:28 +0000
Subject: [PATCH 54/71] fix: unlocking a stored key with an invalid ScryptP
 doesn't panic

---
 keystore/keystore.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/keystore/keystore.go b/keystore/keystore.go
index 8bbc5e9..2ec257b 100644
--- a/keystore/keystore.go
+++ b/keystore/keystore.go
@@ -121,6 +121,10 @@ func EncryptData(data, pass []byte, scryptN, scryptP int) (*EncryptedData, error
 
 // DecryptData decrypts the encData with the key derived from pass.
 func DecryptData(encData *EncryptedData, pass []byte) ([]byte, error) {
+	if encData.ScryptP <= 0 {
+		// scrypt.Key panics with it
+		return nil, ErrInvalidEncData
+	}
 	derivedKey, err := scrypt.Key(pass, encData.Salt[:],
 		encData.ScryptN, scryptR, encData.ScryptP, scryptDKLen)
 	if err != nil {
-- 
2.43.0


From 05770edfb7cc1c9da6c54e448d8e7defb32c6e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:28 +0000
Subject: [PATCH 55/71] fix: purging a redeemed nonce doesn't delete the same
 nonce added again

---
 utils/noncedb/nonce_db.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/utils/noncedb/nonce_db.go b/utils/noncedb/nonce_db.go
index 06e29e2..74d70ad 100644
--- a/utils/noncedb/nonce_db.go
+++ b/utils/noncedb/nonce_db.go
@@ -186,7 +186,10 @@ func (ndb *NonceDb) DeleteOld() {
 		}
 		if nObj.Expiration < now {
 			ndb.noncesHeap.Pop()
-			delete(ndb.nonceObjsByNonce, nObj.Nonce)
+			// the nonce may have been redeemed and added again
+			if ndb.nonceObjsByNonce[nObj.Nonce] == nObj {
+				delete(ndb.nonceObjsByNonce, nObj.Nonce)
+			}
 		} else {
 			break
 		}
-- 
2.43.0


From 17ce9b3426691671e477be1dc0b7b4bd42096bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:29 +0000
Subject: [PATCH 56/71] fix: signing and verifying don't write behind the
 prefix of the caller

---
 keystore/keystore.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/keystore/keystore.go b/keystore/keystore.go
index 2ec257b..b7bf854 100644
--- a/keystore/keystore.go
+++ b/keystore/keystore.go
@@ -440,12 +440,18 @@ func (ks *KeyStore) SignElem(pk *babyjub.PublicKeyComp, msg *big.Int) (*babyjub.
 	return &sigComp, nil
 }
 
+// prefixDateMsg returns [prefix | date | msg] in a new byte slice.
+func prefixDateMsg(prefix PrefixType, date int64, rawMsg []byte) []byte {
+	msg := append([]byte{}, prefix...)
+	msg = append(msg, common.Uint64ToEthBytes(uint64(date))...)
+	return append(msg, rawMsg...)
+}
+
 // Sign uses the key corresponding to the public key pk to sign the mimc7 hash
 // of the [prefix | date | msg] byte slice.
 func (ks *KeyStore) Sign(pk *babyjub.PublicKeyComp, prefix PrefixType, rawMsg []byte) (*babyjub.SignatureComp, int64, error) {
 	date := time.Now()
-	msg := append(prefix, common.Uint64ToEthBytes(uint64(date.Unix()))...)
-	msg = append(msg, rawMsg...)
+	msg := prefixDateMsg(prefix, date.Unix(), rawMsg)
 	sig, err := ks.SignRaw(pk, msg)
 	return sig, date.Unix(), err
 }
@@ -476,8 +482,7 @@ func VerifySignatureElem(pkComp *babyjub.PublicKeyComp, msg *big.Int, sigComp *b
 // VerifySignature verifies that the signature sigComp of the poseidon hash of
 // the [prefix | date | msg] byte slice was signed with the public key pkComp.
 func VerifySignature(pkComp *babyjub.PublicKeyComp, sigComp *babyjub.SignatureComp, prefix PrefixType, date int64, rawMsg []byte) (bool, error) {
-	msg := append(prefix, common.Uint64ToEthBytes(uint64(date))...)
-	msg = append(msg, rawMsg...)
+	msg := prefixDateMsg(prefix, date, rawMsg)
 	return VerifySignatureRaw(pkComp, sigComp, msg)
 }
 
-- 
2.43.0


From da3d149aeba9cbfee61b4434f997d394aadaef6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:29 +0000
Subject: [PATCH 57/71] fix: signing with a date or a prefix doesn't write
 behind the slices of the caller

---
 components/idensigner/idensigner.go | 2 +-
 crypto/signatures.go                | 2 +-
 identity/issuer/issuer.go           | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/components/idensigner/idensigner.go b/components/idensigner/idensigner.go
index 09bac2b..cfd95bf 100644
--- a/components/idensigner/idensigner.go
+++ b/components/idensigner/idensigner.go
@@ -38,6 +38,6 @@ func (s *IdenSigner) SignEthMsg(msg []byte) (*babyjub.SignatureComp, error) {
 func (s *IdenSigner) SignEthMsgDate(msg []byte) (*babyjub.SignatureComp, int64, error) {
 	dateInt64 := time.Now().Unix()
 	dateBytes := common.Uint64ToEthBytes(uint64(dateInt64))
-	sig, err := s.SignEthMsg(append(msg, dateBytes...))
+	sig, err := s.SignEthMsg(append(append([]byte{}, msg...), dateBytes...))
 	return sig, dateInt64, err
 }
diff --git a/crypto/signatures.go b/crypto/signatures.go
index 6de1c6d..a5541fb 100644
--- a/crypto/signatures.go
+++ b/crypto/signatures.go
@@ -78,7 +78,7 @@ func VerifySigEthMsg(addr common.Address, sig *SignatureEthMsg, msg []byte) bool
 // appended given an ethereum address.
 func VerifySigEthMsgDate(addr common.Address, sig *SignatureEthMsg, msg []byte, date int64) bool {
 	dateBytes := common3.Uint64ToEthBytes(uint64(date))
-	return VerifySigEthMsg(addr, sig, append(msg[:], dateBytes...))
+	return VerifySigEthMsg(addr, sig, append(append([]byte{}, msg...), dateBytes...))
 }
 
 // VerifySig verifies a given signature and the msgHash with the expected address
diff --git a/identity/issuer/issuer.go b/identity/issuer/issuer.go
index db27720..e8695ca 100644
--- a/identity/issuer/issuer.go
+++ b/identity/issuer/issuer.go
@@ -937,7 +937,7 @@ func (is *Issuer) Sign(string) (string, error) {
 
 // SignBinary signs a binary message by the kOp of the issuer.
 func (is *Issuer) SignBinary(prefix, msg []byte) (*babyjub.SignatureComp, error) {
-	return is.keyStore.SignRaw(is.kOpComp, append(prefix, msg...))
+	return is.keyStore.SignRaw(is.kOpComp, append(append([]byte{}, prefix...), msg...))
 }
 
 // SignState signs the Identity State transition (oldState+newState) by the kOp of the issuer.
-- 
2.43.0


From bdccbf19f7c85a28c1ca56f596a822f7c24a4972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:30 +0000
Subject: [PATCH 58/71] fix: signing or verifying a message outside of the
 field is an error instead of a panic

---
 keystore/keystore.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/keystore/keystore.go b/keystore/keystore.go
index b7bf854..0f81eba 100644
--- a/keystore/keystore.go
+++ b/keystore/keystore.go
@@ -20,6 +20,7 @@ import (
 	common3 "github.com/iden3/go-iden3-core/common"
 	"github.com/iden3/go-iden3-crypto/babyjub"
 	"github.com/iden3/go-iden3-crypto/poseidon"
+	cryptoUtils "github.com/iden3/go-iden3-crypto/utils"
 	"golang.org/x/crypto/nacl/secretbox"
 	"golang.org/x/crypto/scrypt"
 )
@@ -53,6 +54,7 @@ var (
 	ErrKeyNotInCache   = fmt.Errorf("public key not found in the cache.  Maybe it's not unlocked")
 	ErrKeyNotFound     = fmt.Errorf("public key not found in the key store")
 	ErrInvalidEncData  = fmt.Errorf("invalid encrypted data")
+	ErrMsgNotInField   = fmt.Errorf("message is not an element of the field")
 )
 
 // prefixes for msg to be signed
@@ -435,6 +437,9 @@ func (ks *KeyStore) SignElem(pk *babyjub.PublicKeyComp, msg *big.Int) (*babyjub.
 	if !ok {
 		return nil, ErrKeyNotInCache
 	}
+	if !cryptoUtils.CheckBigIntInField(msg) {
+		return nil, ErrMsgNotInField
+	}
 	sig := sk.SignPoseidon(msg)
 	sigComp := sig.Compress()
 	return &sigComp, nil
@@ -475,6 +480,9 @@ func VerifySignatureElem(pkComp *babyjub.PublicKeyComp, msg *big.Int, sigComp *b
 	if err != nil {
 		return false, err
 	}
+	if !cryptoUtils.CheckBigIntInField(msg) {
+		return false, ErrMsgNotInField
+	}
 	pk := babyjub.PublicKey(*pkPoint)
 	return pk.VerifyPoseidon(msg, sig), nil
 }
-- 
2.43.0


From de7103ca82cde35ce78bdedf8931e69e64a21c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:30 +0000
Subject: [PATCH 59/71] fix: a signature with S out of range doesn't verify

---
 keystore/keystore.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/keystore/keystore.go b/keystore/keystore.go
index 0f81eba..904a73e 100644
--- a/keystore/keystore.go
+++ b/keystore/keystore.go
@@ -483,6 +483,10 @@ func VerifySignatureElem(pkComp *babyjub.PublicKeyComp, msg *big.Int, sigComp *b
 	if !cryptoUtils.CheckBigIntInField(msg) {
 		return false, ErrMsgNotInField
 	}
+	if sig.S.Cmp(babyjub.SubOrder) >= 0 {
+		// S plus a multiple of the order would verify as well
+		return false, nil
+	}
 	pk := babyjub.PublicKey(*pkPoint)
 	return pk.VerifyPoseidon(msg, sig), nil
 }
-- 
2.43.0


From 8913d1519dacc213b2f425f395b11fa283df2d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:31 +0000
Subject: [PATCH 60/71] fix: the malleable form of an ethereum signature
 doesn't verify

---
 crypto/signatures.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crypto/signatures.go b/crypto/signatures.go
index a5541fb..3cf9b9f 100644
--- a/crypto/signatures.go
+++ b/crypto/signatures.go
@@ -5,6 +5,7 @@ import (
 	"crypto/ecdsa"
 	"encoding/json"
 	"fmt"
+	"math/big"
 
 	"github.com/ethereum/go-ethereum/accounts"
 	"github.com/ethereum/go-ethereum/accounts/keystore"
@@ -83,6 +84,11 @@ func VerifySigEthMsgDate(addr common.Address, sig *SignatureEthMsg, msg []byte,
 
 // VerifySig verifies a given signature and the msgHash with the expected address
 func VerifySig(addr common.Address, sig *Signature, msgHash []byte) bool {
+	r, s := new(big.Int).SetBytes(sig[:32]), new(big.Int).SetBytes(sig[32:64])
+	if !crypto.ValidateSignatureValues(sig[64], r, s, true) {
+		// among others, the malleable form (high s) of a signature
+		return false
+	}
 	recoveredPub, err := crypto.Ecrecover(msgHash, sig[:])
 	if err != nil {
 		fmt.Printf("ECRecover error: %s\n", err)
-- 
2.43.0


From d759c74f3e3c7cd298df7f5a1fc2e7742daacf39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:09 +0000
Subject: [PATCH 61/71] fix: signing or verifying a negative message is an
 error

---
 keystore/keystore.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/keystore/keystore.go b/keystore/keystore.go
index 904a73e..6fe15c3 100644
--- a/keystore/keystore.go
+++ b/keystore/keystore.go
@@ -437,7 +437,7 @@ func (ks *KeyStore) SignElem(pk *babyjub.PublicKeyComp, msg *big.Int) (*babyjub.
 	if !ok {
 		return nil, ErrKeyNotInCache
 	}
-	if !cryptoUtils.CheckBigIntInField(msg) {
+	if msg.Sign() < 0 || !cryptoUtils.CheckBigIntInField(msg) {
 		return nil, ErrMsgNotInField
 	}
 	sig := sk.SignPoseidon(msg)
@@ -480,7 +480,7 @@ func VerifySignatureElem(pkComp *babyjub.PublicKeyComp, msg *big.Int, sigComp *b
 	if err != nil {
 		return false, err
 	}
-	if !cryptoUtils.CheckBigIntInField(msg) {
+	if msg.Sign() < 0 || !cryptoUtils.CheckBigIntInField(msg) {
 		return false, ErrMsgNotInField
 	}
 	if sig.S.Cmp(babyjub.SubOrder) >= 0 {
-- 
2.43.0


From 1e9821a75dce425efd907b07569d15953b8fdee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:56 +0000
Subject: [PATCH 62/71] fix: a downloaded zk file that doesn't match its hash
 isn't kept

---
 utils/zk/zk.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/utils/zk/zk.go b/utils/zk/zk.go
index 5a5bb19..6ce9592 100644
--- a/utils/zk/zk.go
+++ b/utils/zk/zk.go
@@ -82,7 +82,9 @@ func PrintProof(proof *zktypes.Proof) {
 		proofC[0], proofC[1])
 }
 
-func download(url, filename string) (err error) {
+// download downloads the file at `url` into `filename` unless it exists already.
+// The file is put at its place only when it's complete and passes `check`.
+func download(url, filename string, check func(filename string) error) (err error) {
 	// If the file already exists, return early
 	_, err = os.Stat(filename)
 	if err == nil {
@@ -154,14 +156,21 @@ func download(url, filename string) (err error) {
 	}
 
 	if _, err = io.Copy(f, resp.Body); err != nil {
+		f.Close() //nolint:errcheck
 		return err
 	}
 	if err := f.Sync(); err != nil {
+		f.Close() //nolint:errcheck
 		return err
 	}
 	if err := f.Close(); err != nil {
 		return err
 	}
+	if check != nil {
+		if err := check(filenameTmp); err != nil {
+			return err
+		}
+	}
 	if err = os.Rename(filenameTmp, filename); err != nil {
 		return err
 	}
@@ -266,7 +275,7 @@ func (z *ZkFiles) insecureDownload(basename string) error {
 	}
 	filename := path.Join(z.Path, basename)
 	url := fmt.Sprintf("%s/%s", z.Url, basename)
-	if err := download(url, filename); err != nil {
+	if err := download(url, filename, nil); err != nil {
 		return err
 	}
 	return nil
@@ -333,7 +342,8 @@ func (z *ZkFiles) DebugDownloadPrintHashes(provingKeyFormat ProvingKeyFormat) er
 func (z *ZkFiles) downloadCheckFile(basename, hash string) error {
 	filename := path.Join(z.Path, basename)
 	url := fmt.Sprintf("%s/%s", z.Url, basename)
-	if err := download(url, filename); err != nil {
+	check := func(filename string) error { return checkHash(filename, hash) }
+	if err := download(url, filename, check); err != nil {
 		return err
 	}
 	if err := checkHash(filename, hash); err != nil {
-- 
2.43.0


From 5134281ebc20625be553c88b17fe29c24afaa151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:56 +0000
Subject: [PATCH 63/71] fix: two downloads of the same zk file don't run at
 once

---
 utils/zk/zk.go | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/utils/zk/zk.go b/utils/zk/zk.go
index 6ce9592..823d827 100644
--- a/utils/zk/zk.go
+++ b/utils/zk/zk.go
@@ -102,14 +102,9 @@ func download(url, filename string, check func(filename string) error) (err erro
 			return err
 		}
 		if ok {
-			defer func() {
-				lock.Unlock()
-				if err = lock.Unlock(); err != nil {
-					return
-				}
-				err = os.Remove(filenameTmp + ".lock")
-				return
-			}()
+			// The lock file stays, because a file removed while others
+			// wait for its lock would let two of them in.
+			defer lock.Unlock() //nolint:errcheck
 			break
 		}
 		log.WithField("filename", filename).Debug("ZkFile downloading locked, waiting...")
-- 
2.43.0


From ceec4ffbeb4e3b79163da10f320e8fe95ea91fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:57 +0000
Subject: [PATCH 64/71] fix: the zk files that are used are those whose hash
 was checked

---
 utils/zk/zk.go | 81 +++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 63 insertions(+), 18 deletions(-)

diff --git a/utils/zk/zk.go b/utils/zk/zk.go
index 823d827..6446220 100644
--- a/utils/zk/zk.go
+++ b/utils/zk/zk.go
@@ -173,6 +173,15 @@ func download(url, filename string, check func(filename string) error) (err erro
 	return err
 }
 
+// calcReaderHash uses sha256
+func calcReaderHash(r io.Reader) ([]byte, error) {
+	hasher := sha256.New()
+	if _, err := io.Copy(hasher, r); err != nil {
+		return nil, err
+	}
+	return hasher.Sum(nil), nil
+}
+
 // calcHash uses sha256
 func calcHash(filename string) ([]byte, error) {
 	f, err := os.Open(filename)
@@ -180,28 +189,51 @@ func calcHash(filename string) ([]byte, error) {
 		return nil, err
 	}
 	defer f.Close()
-	hasher := sha256.New()
-	if _, err := io.Copy(hasher, f); err != nil {
-		return nil, err
-	}
-	return hasher.Sum(nil), nil
+	return calcReaderHash(f)
 }
 
-// checkHash uses sha256
-func checkHash(filename, hashStr string) error {
+// openChecked opens a file whose content has the given hash (sha256).
+func openChecked(filename, hashStr string) (*os.File, error) {
 	hash, err := hex.DecodeString(hashStr)
 	if err != nil {
-		return err
+		return nil, err
 	}
-	h, err := calcHash(filename)
+	f, err := os.Open(filename)
 	if err != nil {
-		return err
+		return nil, err
 	}
-	if !bytes.Equal(h, hash) {
+	h, err := calcReaderHash(f)
+	if err == nil && !bytes.Equal(h, hash) {
 		fmt.Printf("\"%s\": \"%s\",\n", path.Base(filename), hex.EncodeToString(h))
-		return fmt.Errorf("hash mismatch: expected %v but got %v", hashStr, hex.EncodeToString(h))
+		err = fmt.Errorf("hash mismatch: expected %v but got %v", hashStr, hex.EncodeToString(h))
 	}
-	return nil
+	if err == nil {
+		_, err = f.Seek(0, io.SeekStart)
+	}
+	if err != nil {
+		f.Close() //nolint:errcheck
+		return nil, err
+	}
+	return f, nil
+}
+
+// readChecked reads a file whose content has the given hash (sha256).
+func readChecked(filename, hashStr string) ([]byte, error) {
+	f, err := openChecked(filename, hashStr)
+	if err != nil {
+		return nil, err
+	}
+	defer f.Close()
+	return ioutil.ReadAll(f)
+}
+
+// checkHash uses sha256
+func checkHash(filename, hashStr string) error {
+	f, err := openChecked(filename, hashStr)
+	if err != nil {
+		return err
+	}
+	return f.Close()
 }
 
 // ZkFilesHashes are the sha256 hash in hex of the zk files
@@ -406,11 +438,22 @@ func (z *ZkFiles) DownloadAll() error {
 }
 
 func (z *ZkFiles) parseProvingKey() (*zktypes.Pk, error) {
+	pk, err := z.parseCheckedProvingKey()
+	if err != nil {
+		z.pathProvingKey = "" // get the file anew next time
+		return nil, err
+	}
+	return pk, nil
+}
+
+// parseCheckedProvingKey checks the hash of the file that it parses, because it
+// may have changed since it was downloaded.
+func (z *ZkFiles) parseCheckedProvingKey() (*zktypes.Pk, error) {
 	start := time.Now()
 	var pk *zktypes.Pk
 	switch z.provingKeyFormat {
 	case ProvingKeyFormatJSON:
-		provingKeyBytes, err := ioutil.ReadFile(z.pathProvingKey)
+		provingKeyBytes, err := readChecked(z.pathProvingKey, z.hashes.ProvingKey)
 		if err != nil {
 			return nil, err
 		}
@@ -419,7 +462,7 @@ func (z *ZkFiles) parseProvingKey() (*zktypes.Pk, error) {
 			return nil, err
 		}
 	case ProvingKeyFormatBin:
-		f, err := os.Open(z.pathProvingKey)
+		f, err := openChecked(z.pathProvingKey, z.hashes.ProvingKey)
 		if err != nil {
 			return nil, err
 		}
@@ -429,7 +472,7 @@ func (z *ZkFiles) parseProvingKey() (*zktypes.Pk, error) {
 			return nil, err
 		}
 	case ProvingKeyFormatGoBin:
-		f, err := os.Open(z.pathProvingKey)
+		f, err := openChecked(z.pathProvingKey, z.hashes.ProvingKey)
 		if err != nil {
 			return nil, err
 		}
@@ -490,8 +533,9 @@ func (z *ZkFiles) loadVerificationKey() error {
 			return err
 		}
 	}
-	vkJSON, err := ioutil.ReadFile(z.pathVerificationKey)
+	vkJSON, err := readChecked(z.pathVerificationKey, z.hashes.VerificationKey)
 	if err != nil {
+		z.pathVerificationKey = "" // get the file anew next time
 		return err
 	}
 	vk, err := parsers.ParseVk(vkJSON)
@@ -519,8 +563,9 @@ func (z *ZkFiles) loadWitnessCalcWASM() error {
 			return err
 		}
 	}
-	wasmBytes, err := ioutil.ReadFile(z.pathWitnessCalcWASM)
+	wasmBytes, err := readChecked(z.pathWitnessCalcWASM, z.hashes.WitnessCalcWASM)
 	if err != nil {
+		z.pathWitnessCalcWASM = "" // get the file anew next time
 		return err
 	}
 	z.witnessCalcWASM = wasmBytes
-- 
2.43.0


From d891dd1c8be16fcfe24f3b47f16a592f280ec7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:57 +0000
Subject: [PATCH 65/71] fix: a failed download of the zk files is reported
 along with their hashes

---
 utils/zk/zk.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/zk/zk.go b/utils/zk/zk.go
index 6446220..1773fd8 100644
--- a/utils/zk/zk.go
+++ b/utils/zk/zk.go
@@ -352,7 +352,7 @@ func (z *ZkFiles) DebugDownloadPrintHashes(provingKeyFormat ProvingKeyFormat) er
 	defer os.RemoveAll(dir) // clean up
 	z0 := NewZkFiles(z.Url, dir, provingKeyFormat, ZkFilesHashes{}, false)
 	if err := z0.InsecureDownloadAll(); err != nil {
-		return nil
+		return err
 	}
 	hashes, err := z0.InsecureCalcHashes()
 	if err != nil {
-- 
2.43.0


From f617c71e8b9e189e38bf9d0765e82d419776f9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:31 +0000
Subject: [PATCH 66/71] fix: an HTTP client with an empty address returns
 errors instead of panicking

---
 components/httpclient/httpclient.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/components/httpclient/httpclient.go b/components/httpclient/httpclient.go
index 4eb43f5..2e05ddf 100644
--- a/components/httpclient/httpclient.go
+++ b/components/httpclient/httpclient.go
@@ -3,6 +3,7 @@ package httpclient
 import (
 	"fmt"
 	"reflect"
+	"strings"
 
 	"github.com/dghubble/sling"
 	"gopkg.in/go-playground/validator.v9"
@@ -23,7 +24,7 @@ type HttpClient struct {
 }
 
 func NewHttpClient(urlBase string) *HttpClient {
-	if urlBase[len(urlBase)-1] != '/' {
+	if !strings.HasSuffix(urlBase, "/") {
 		urlBase += "/"
 	}
 	client := sling.New().Base(urlBase)
-- 
2.43.0


From 422e0f42988f4c21812a57b7cf4a697c1bae0628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:31 +0000
Subject: [PATCH 67/71] fix: a cut, empty or garbled HTTP response isn't taken
 for a result

---
 components/httpclient/httpclient.go | 30 ++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/components/httpclient/httpclient.go b/components/httpclient/httpclient.go
index 2e05ddf..6ee7f95 100644
--- a/components/httpclient/httpclient.go
+++ b/components/httpclient/httpclient.go
@@ -1,7 +1,11 @@
 package httpclient
 
 import (
+	"bytes"
+	"encoding/json"
 	"fmt"
+	"io/ioutil"
+	"net/http"
 	"reflect"
 	"strings"
 
@@ -9,6 +13,9 @@ import (
 	"gopkg.in/go-playground/validator.v9"
 )
 
+// ErrNoContent is returned when a successful response has no result.
+var ErrNoContent = fmt.Errorf("server: response without content")
+
 type ServerError struct {
 	Err string `json:"error"`
 }
@@ -17,6 +24,24 @@ func (e ServerError) Error() string {
 	return fmt.Sprintf("server: %v", e.Err)
 }
 
+// decoder decodes the responses.  A body that is cut, null, or followed by
+// something else is an error.
+type decoder struct{}
+
+func (decoder) Decode(resp *http.Response, v interface{}) error {
+	body, err := ioutil.ReadAll(resp.Body)
+	if err != nil {
+		return err
+	}
+	if err := json.Unmarshal(body, v); err != nil {
+		return err
+	}
+	if bytes.Equal(bytes.TrimSpace(body), []byte("null")) {
+		return ErrNoContent
+	}
+	return nil
+}
+
 type HttpClient struct {
 	UrlBase  string
 	client   *sling.Sling
@@ -27,7 +52,7 @@ func NewHttpClient(urlBase string) *HttpClient {
 	if !strings.HasSuffix(urlBase, "/") {
 		urlBase += "/"
 	}
-	client := sling.New().Base(urlBase)
+	client := sling.New().Base(urlBase).ResponseDecoder(decoder{})
 	return &HttpClient{UrlBase: urlBase,
 		client: client, validate: validator.New()}
 }
@@ -47,6 +72,9 @@ func (p *HttpClient) DoRequest(s *sling.Sling, res interface{}) error {
 		return serverError
 	}
 	if res != nil {
+		if resp.StatusCode == http.StatusNoContent {
+			return ErrNoContent
+		}
 		rv := reflect.ValueOf(res)
 		if rv.Kind() == reflect.Ptr && rv.Elem().Kind() == reflect.Struct {
 			return p.validate.Struct(res)
-- 
2.43.0


From 9b4f90fcdd7d8b3bd33c628d2d8d77befff374b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:31 +0000
Subject: [PATCH 68/71] fix: public data of another state than the requested
 one are refused

---
 components/idenpuboffchain/readerhttp/readerhttp.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/components/idenpuboffchain/readerhttp/readerhttp.go b/components/idenpuboffchain/readerhttp/readerhttp.go
index f95637e..612ae2e 100644
--- a/components/idenpuboffchain/readerhttp/readerhttp.go
+++ b/components/idenpuboffchain/readerhttp/readerhttp.go
@@ -37,5 +37,9 @@ func (i *IdenPubOffChainReadHttp) GetPublicData(idenPubUrl string, id *core.ID,
 	if err != nil {
 		return nil, err
 	}
+	if idenState != nil && !publicData.IdenState.Equals(idenState) {
+		return nil, fmt.Errorf("the public data are of the state %v instead of %v",
+			publicData.IdenState, idenState)
+	}
 	return publicData, nil
 }
-- 
2.43.0


From 4f2aab2986e3333cba606e769ac25ac8a105ddaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:24 +0000
Subject: [PATCH 69/71] fix: a zk proof with a missing or negative public
 signal is refused

---
 components/verifier/verifier.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/components/verifier/verifier.go b/components/verifier/verifier.go
index 523384f..e3bafd2 100644
--- a/components/verifier/verifier.go
+++ b/components/verifier/verifier.go
@@ -201,9 +201,16 @@ func (v *Verifier) VerifyZkProofCredential(
 	}
 
 	// The first public signal is the IdenState of the issuer.
-	if len(pubSignals) == 0 || pubSignals[0] == nil {
+	if len(pubSignals) == 0 {
 		return ErrFailedVerifyZkProofCredential
 	}
+	// Negative signals would be taken for the positive ones that they are
+	// congruent with.
+	for _, signal := range pubSignals {
+		if signal == nil || signal.Sign() < 0 {
+			return ErrFailedVerifyZkProofCredential
+		}
+	}
 
 	// Verify the zkp
 	if !verifier.Verify(vk, zkProof, pubSignals) {
-- 
2.43.0


From 7cd8c13a851412b60d3b74227959ca75340905e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:25 +0000
Subject: [PATCH 70/71] fix: an incomplete zk proof is refused

---
 components/verifier/verifier.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/components/verifier/verifier.go b/components/verifier/verifier.go
index e3bafd2..ecedbff 100644
--- a/components/verifier/verifier.go
+++ b/components/verifier/verifier.go
@@ -200,6 +200,10 @@ func (v *Verifier) VerifyZkProofCredential(
 		return fmt.Errorf("error loading zk vk: %w", err)
 	}
 
+	if zkProof == nil || zkProof.A == nil || zkProof.B == nil || zkProof.C == nil {
+		return ErrFailedVerifyZkProofCredential
+	}
+
 	// The first public signal is the IdenState of the issuer.
 	if len(pubSignals) == 0 {
 		return ErrFailedVerifyZkProofCredential
-- 
2.43.0


From 47499a8707b8c0eab855716cd8b09db516b92d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:25 +0000
Subject: [PATCH 71/71] fix: proof inputs aren't made out of foreign or
 incomplete validity data

---
 identity/holder/holder.go | 43 +++++++++++++++++++++++++++++++++++++++
 1 file changed, 43 insertions(+)

diff --git a/identity/holder/holder.go b/identity/holder/holder.go
index 9a26607..f1f7849 100644
--- a/identity/holder/holder.go
+++ b/identity/holder/holder.go
@@ -31,6 +31,9 @@ const (
 var (
 	ErrRevokedClaim                   = fmt.Errorf("revocation nonce exists in the Revocation Tree.  The claim is revoked.")
 	ErrIncompleteCredential           = fmt.Errorf("the credential is missing some of its parts")
+	ErrMtpNonExistence                = fmt.Errorf("the credential's proof isn't one of existence of the claim")
+	ErrIncompleteValidityData         = fmt.Errorf("the validity data is missing some of its parts")
+	ErrValidityDataDoesntMatch        = fmt.Errorf("the validity data isn't that of the claim and the identity state")
 	ErrRootNotFound                   = fmt.Errorf("claims tree root not found in roots tree.")
 	ErrFailedVerifyZkProofCredential  = fmt.Errorf("failed verifing generated zk proof of credential")
 	ErrCalculatedIdenStateDoesntMatch = fmt.Errorf("Calculated IdenState from public data doesn't match the one queried")
@@ -90,6 +93,37 @@ type CredentialValidityAux struct {
 	PublicData     *idenpuboffchain.PublicData
 }
 
+// check verifies that the validity data shows that the revocation nonce of the
+// claim is not revoked in the identity state.
+func (c *CredentialValidityAux) check(claim *merkletree.Entry) error {
+	if c.IdenStateData == nil || c.IdenStateData.IdenState == nil || c.MtpNotNonce == nil ||
+		c.ClaimsTreeRoot == nil || c.RevTreeRoot == nil || c.RootsTreeRoot == nil ||
+		c.PublicData == nil || c.PublicData.RootsTree == nil {
+		return ErrIncompleteValidityData
+	}
+	if c.MtpNotNonce.Existence {
+		return ErrRevokedClaim
+	}
+	revLeaf := claims.NewLeafRevocationsTree(claims.GetRevocationNonce(claim), 0xffffffff).Entry()
+	hi, hv, err := revLeaf.HiHv()
+	if err != nil {
+		return err
+	}
+	revTreeRoot, err := merkletree.RootFromProof(c.MtpNotNonce, hi, hv)
+	if err != nil {
+		return err
+	}
+	idenState, err := core.CalculateIdenState(c.ClaimsTreeRoot, c.RevTreeRoot, c.RootsTreeRoot)
+	if err != nil {
+		return err
+	}
+	if !revTreeRoot.Equals(c.RevTreeRoot) || !c.PublicData.RootsTree.RootKey().Equals(c.RootsTreeRoot) ||
+		!idenState.Equals(c.IdenStateData.IdenState) {
+		return ErrValidityDataDoesntMatch
+	}
+	return nil
+}
+
 // HolderGetCredentialValidityData is a helper function to get the data used in
 // a validity proof from a credential existence proof.
 func (h *Holder) HolderGetCredentialValidityData(
@@ -194,6 +228,15 @@ func (h *Holder) HolderGetCredentialProofInputs(
 	credExist *proof.CredentialExistence,
 	credValidData *CredentialValidityAux,
 	issuerLevels int) (*CredentialProofInputs, error) {
+	if credExist.Claim == nil || credExist.MtpClaim == nil {
+		return nil, ErrIncompleteCredential
+	}
+	if !credExist.MtpClaim.Existence {
+		return nil, ErrMtpNonExistence
+	}
+	if err := credValidData.check(credExist.Claim); err != nil {
+		return nil, err
+	}
 	hi, err := credExist.Claim.HIndex()
 	if err != nil {
 		return nil, err
-- 
2.43.0

