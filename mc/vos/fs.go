package vos

import (
	"io/ioutil"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// Inode is the content of a file: as seen by the processes, and as on the
// medium if nothing but synced data survives.
type Inode struct {
	ID     int
	Data   []byte
	Synced []byte
}

// FS is a model of the files under a directory, rebuilt from a log.
type FS struct {
	Files map[string]*Inode
	Dirs  map[string]bool
	byID  map[int]*Inode
}

// LoadFS reads a directory; everything there counts as synced.
func LoadFS(root string) *FS {
	fs := &FS{Files: map[string]*Inode{}, Dirs: map[string]bool{}, byID: map[int]*Inode{}}
	_ = filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil || p == root {
			return nil
		}
		rel := strings.TrimPrefix(p, root+"/")
		if fi.IsDir() {
			fs.Dirs[rel] = true
			return nil
		}
		b, err := ioutil.ReadFile(p)
		if err == nil {
			fs.Files[rel] = &Inode{Data: b, Synced: append([]byte{}, b...)}
		}
		return nil
	})
	return fs
}

// Clone copies.
func (fs *FS) Clone() *FS {
	n := &FS{Files: map[string]*Inode{}, Dirs: map[string]bool{}, byID: map[int]*Inode{}}
	for d := range fs.Dirs {
		n.Dirs[d] = true
	}
	for p, in := range fs.Files {
		c := &Inode{ID: in.ID, Data: append([]byte{}, in.Data...), Synced: append([]byte{}, in.Synced...)}
		n.Files[p] = c
		n.byID[c.ID] = c
	}
	return n
}

func put(b []byte, off int64, d []byte) []byte {
	end := int(off) + len(d)
	if end > len(b) {
		b = append(b, make([]byte, end-len(b))...)
	}
	copy(b[off:], d)
	return b
}

// Apply performs a logged operation; of a write only the first keep bytes if
// keep is not negative.
func (fs *FS) Apply(o Op, keep int) {
	in := fs.byID[o.ID]
	switch o.Kind {
	case "create":
		if fs.Files[o.Path] == nil {
			in := &Inode{ID: o.ID}
			fs.Files[o.Path] = in
			fs.byID[o.ID] = in
		}
	case "write":
		if in != nil {
			d := o.Data
			if keep >= 0 {
				d = d[:keep]
			}
			in.Data = put(in.Data, o.Off, d)
		}
	case "trunc":
		if in != nil {
			if int(o.Size) <= len(in.Data) {
				in.Data = in.Data[:o.Size]
			} else {
				in.Data = put(in.Data, o.Size, nil)
			}
			if int(o.Size) < len(in.Synced) {
				in.Synced = in.Synced[:o.Size]
			}
		}
	case "sync":
		if in != nil {
			in.Synced = append([]byte{}, in.Data...)
		}
	case "rename":
		if f := fs.Files[o.Path]; f != nil {
			fs.Files[o.To] = f
			delete(fs.Files, o.Path)
		}
	case "remove":
		for p := range fs.Files {
			if p == o.Path || strings.HasPrefix(p, o.Path+"/") {
				delete(fs.Files, p)
			}
		}
		for p := range fs.Dirs {
			if p == o.Path || strings.HasPrefix(p, o.Path+"/") {
				delete(fs.Dirs, p)
			}
		}
	case "mkdir":
		fs.Dirs[o.Path] = true
	}
}

// At is the state after the first n operations, the next one (a write) torn
// after keep bytes if keep is positive.
func (r *Rec) At(n, keep int) *FS {
	fs := r.Base.Clone()
	for i := 0; i < n; i++ {
		fs.Apply(r.Ops[i], -1)
	}
	if keep > 0 {
		fs.Apply(r.Ops[n], keep)
	}
	return fs
}

// PowerLoss lists what may be on the medium after a power failure in this
// state: all data, or each file cut back to any of a few lengths between what
// was synced and what was written (all files alike).
func (fs *FS) PowerLoss(fractions []int) []*FS {
	var out []*FS
	seen := map[string]bool{}
	for _, fr := range fractions {
		n := fs.Clone()
		for _, in := range n.Files {
			s, d := in.Synced, in.Data
			// where written and synced data differ
			c := 0
			for c < len(s) && c < len(d) && s[c] == d[c] {
				c++
			}
			grow := len(d) - c
			k := c + grow*fr/100
			img := append([]byte{}, d[:k]...)
			if len(s) > k {
				img = append(img, s[k:]...)
			}
			in.Data = img
		}
		if k := n.Digest(); !seen[k] {
			seen[k] = true
			out = append(out, n)
		}
	}
	return out
}

// Digest is a canonical form.
func (fs *FS) Digest() string {
	var l []string
	for p, in := range fs.Files {
		l = append(l, p+"\x00"+string(in.Data))
	}
	for p := range fs.Dirs {
		l = append(l, p+"/")
	}
	sort.Strings(l)
	return strings.Join(l, "\x01")
}

// Write puts the files under a directory.
func (fs *FS) Write(root string) error {
	var dirs []string
	for d := range fs.Dirs {
		dirs = append(dirs, d)
	}
	sort.Strings(dirs)
	if err := os.MkdirAll(root, 0700); err != nil {
		return err
	}
	for _, d := range dirs {
		if err := os.MkdirAll(filepath.Join(root, d), 0700); err != nil {
			return err
		}
	}
	for p, in := range fs.Files {
		if err := os.MkdirAll(filepath.Dir(filepath.Join(root, p)), 0700); err != nil {
			return err
		}
		if err := ioutil.WriteFile(filepath.Join(root, p), in.Data, 0600); err != nil {
			return err
		}
	}
	return nil
}
