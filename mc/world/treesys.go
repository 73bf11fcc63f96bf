package world

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"io/ioutil"
	"os"
	"sort"
	"strings"
	"sync"

	"github.com/iden3/go-iden3-core/db"
	"github.com/iden3/go-iden3-core/merkletree"
)

// Backend makes storages.
type Backend struct {
	Name string
	// New makes an empty storage; reopen gives a second handle on the same
	// contents after closing the first; done releases it.
	New func() (st db.Storage, reopen func() (db.Storage, error), digest func() string, done func())
}

// DiskBackend is the harness storage.
func DiskBackend() Backend {
	return Backend{"disk", func() (db.Storage, func() (db.Storage, error), func() string, func()) {
		d := NewDisk()
		return d.Storage(), func() (db.Storage, error) { return d.Storage(), nil }, d.Digest, func() {}
	}}
}

// MemBackend is the repository's memory storage.
func MemBackend() Backend {
	return Backend{"memory", func() (db.Storage, func() (db.Storage, error), func() string, func()) {
		m := db.NewMemoryStorage()
		return m, func() (db.Storage, error) { return m, nil }, func() string { return DigestOf(m) }, func() {}
	}}
}

// LevelBackend is the repository's on-disk storage, in a scratch directory.
func LevelBackend() Backend {
	return Backend{"leveldb", func() (db.Storage, func() (db.Storage, error), func() string, func()) {
		dir, err := ioutil.TempDir(Scratch(), "ldb")
		if err != nil {
			panic(err)
		}
		st, err := db.NewLevelDbStorage(dir, false)
		if err != nil {
			panic(err)
		}
		cur := st
		return st, func() (db.Storage, error) {
				cur.Close()
				n, err := db.NewLevelDbStorage(dir, true)
				if err != nil {
					return nil, err
				}
				cur = n
				return n, nil
			}, func() string { return DigestOf(cur) }, func() {
				cur.Close()
				os.RemoveAll(dir) //nolint
			}
	}}
}

var scratchOnce sync.Once
var scratchDir string

// Scratch is a scratch directory, in memory when possible.
func Scratch() string {
	scratchOnce.Do(func() {
		base := "/dev/shm"
		if f, err := ioutil.TempFile(base, "w"); err == nil {
			f.Close()
			os.Remove(f.Name())
		} else {
			base = ""
		}
		d, err := ioutil.TempDir(base, "verifmc")
		if err != nil {
			panic(err)
		}
		scratchDir = d
	})
	return scratchDir
}

// CleanScratch removes the scratch directory.
func CleanScratch() {
	if scratchDir != "" {
		os.RemoveAll(scratchDir) //nolint
	}
}

// DigestOf lists the contents of a storage.
func DigestOf(s db.Storage) string {
	d := NewDisk()
	_ = s.Iterate(func(k, v []byte) (bool, error) {
		d.KV[string(k)] = append([]byte{}, v...)
		return true, nil
	})
	return d.Digest()
}

// Entry makes an entry of data.
func Entry(d merkletree.Data) *merkletree.Entry { return &merkletree.Entry{Data: d} }

// ObserveTree compares everything a tree shows at a root (nil: current) with
// the model. all is the alphabet to ask about.
func ObserveTree(mt *merkletree.MerkleTree, ref *RefTree, root *merkletree.Hash, all []merkletree.Data) error {
	want := ref.Root()
	if root == nil {
		if got := mt.RootKey(); *got != want {
			return fmt.Errorf("root is %s, the set has root %s", got.Hex(), want.Hex())
		}
	}
	for i := range all {
		d := all[i]
		hi := RefHi(&d)
		stored, present := ref.Entries[hi]
		e := Entry(d)
		err := mt.EntryExists(e, root)
		switch {
		case present && stored == d && err != nil:
			return fmt.Errorf("entry %s is in the set but the existence check says: %v", short(&d), err)
		case (!present || stored != d) && err == nil:
			return fmt.Errorf("entry %s is not in the set but the existence check accepts it", short(&d))
		}
		if root == nil {
			got, err := mt.GetDataByIndex(&hi)
			switch {
			case present && err != nil:
				return fmt.Errorf("lookup of the index of %s fails: %v", short(&d), err)
			case present && *got != stored:
				return fmt.Errorf("lookup of the index of %s returns other data", short(&d))
			case !present && err != merkletree.ErrEntryIndexNotFound:
				return fmt.Errorf("lookup of the absent index of %s gives %v, %v", short(&d), got, err)
			}
		}
	}
	claims, err := mt.DumpClaims(root)
	if err != nil {
		return fmt.Errorf("export of entries fails: %v", err)
	}
	if err := SameClaims(claims, ref); err != nil {
		return err
	}
	var buf bytes.Buffer
	if err := mt.DumpClaimsIoWriter(&buf, root); err != nil {
		return fmt.Errorf("export of entries to a writer fails: %v", err)
	}
	var ls []string
	for _, l := range strings.Split(buf.String(), "\n") {
		l = strings.Trim(l, "\t\",")
		if strings.HasPrefix(l, "0x") {
			ls = append(ls, l)
		}
	}
	if err := SameClaims(ls, ref); err != nil {
		return fmt.Errorf("writer: %v", err)
	}
	leaves, middles := 0, 0
	err = mt.Walk(root, func(n *merkletree.Node) {
		switch n.Type {
		case merkletree.NodeTypeLeaf:
			leaves++
		case merkletree.NodeTypeMiddle:
			middles++
		}
	})
	if err != nil {
		return fmt.Errorf("enumeration fails: %v", err)
	}
	if leaves != len(ref.Entries) {
		return fmt.Errorf("enumeration shows %d leaves, the set has %d entries", leaves, len(ref.Entries))
	}
	return nil
}

// SameClaims compares exported entries with the set.
func SameClaims(claims []string, ref *RefTree) error {
	var got []string
	for _, c := range claims {
		got = append(got, strings.TrimPrefix(c, "0x"))
	}
	var want []string
	for _, d := range ref.Sorted() {
		d := d
		b := d.Bytes()
		want = append(want, hex.EncodeToString(b[:]))
	}
	sort.Strings(got)
	sort.Strings(want)
	if len(got) != len(want) {
		return fmt.Errorf("export lists %d entries, the set has %d", len(got), len(want))
	}
	for i := range got {
		if got[i] != want[i] {
			return fmt.Errorf("export lists an entry that is not in the set: %s", got[i])
		}
	}
	return nil
}

func short(d *merkletree.Data) string {
	var p []string
	for i := range d {
		p = append(p, fmt.Sprintf("%x", leInt(d[i][:])))
	}
	return "[" + strings.Join(p, ",") + "]"
}

// CheckAdd compares the outcome of an insertion with the verdict.
func CheckAdd(err error, verdict string) error {
	switch verdict {
	case AddOK:
		if err != nil {
			return fmt.Errorf("insertion refused: %v", err)
		}
	case AddExists:
		if err != merkletree.ErrEntryIndexAlreadyExists {
			return fmt.Errorf("insertion of an existing index gives: %v", err)
		}
	case AddMaxLevel:
		if err != merkletree.ErrReachedMaxLevel {
			return fmt.Errorf("insertion that the depth limit cannot separate gives: %v", err)
		}
	case AddNotField:
		if err == nil {
			return fmt.Errorf("insertion of an element outside the field accepted")
		}
	}
	return nil
}
