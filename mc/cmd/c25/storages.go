package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/iden3/go-iden3-core/keystore"
	"verif/mc/lin"
	"verif/mc/sched"
	"verif/mc/vos"
)

// ---- interleavings of the storages' own operations

type storages struct {
	dir  string
	rec  *vos.Rec
	objs []*keystore.FileStorage
}

// direct: each thread is a list of l0 (lock by object 0), u0 (unlock), r0
// (read), w0x (write x); object 0 may hold the lock at the start.
func direct(bound int, held bool, scripts ...string) sched.Harness {
	var th [][]lin.Op
	for _, sc := range scripts {
		var l []lin.Op
		for _, o := range strings.Fields(sc) {
			o := o
			l = append(l, lin.Op{Name: o, Run: func(s interface{}) string {
				st := s.(*storages).objs[o[1]-'0']
				switch o[0] {
				case 'l':
					ok, err := st.TryLock()
					return fmt.Sprint(ok, lin.Err(err))
				case 'u':
					return lin.Err(st.Unlock())
				case 'r':
					b, err := st.Read()
					return string(b) + " " + lin.Err(err)
				}
				return lin.Err(st.Write([]byte(o[2:])))
			}})
		}
		th = append(th, l)
	}
	h := lin.Harness(fmt.Sprintf("storages, 0 holding: %v", held), lin.Sys{
		New: func() (interface{}, func(), error) {
			w := &storages{dir: scratch()}
			p := filepath.Join(w.dir, "keys")
			if err := os.WriteFile(p, []byte("old"), 0600); err != nil {
				return nil, nil, err
			}
			for i := 0; i < 2; i++ {
				w.objs = append(w.objs, keystore.NewFileStorage(p))
			}
			if held {
				if ok, err := w.objs[0].TryLock(); err != nil || !ok {
					return nil, nil, fmt.Errorf("cannot lock: %v", err)
				}
			}
			w.rec = vos.Watch(w.dir)
			w.rec.NoLog = true
			return w, func() {
				for _, o := range w.objs {
					o.Unlock() //nolint
				}
				w.rec.Stop()
				os.RemoveAll(w.dir) //nolint
			}, nil
		},
		Begin: func(s interface{}) { s.(*storages).rec.Points = true },
		End:   func(s interface{}) { s.(*storages).rec.Points = false },
		Final: func(s interface{}) string {
			w := s.(*storages)
			p := filepath.Join(w.dir, "keys")
			b, err := os.ReadFile(p)
			r := string(b) + " " + lin.Err(err)
			for _, o := range w.objs {
				b, err := o.Read()
				r += fmt.Sprintf(", %s %s", b, lin.Err(err))
			}
			ok, err := keystore.NewFileStorage(p).TryLock()
			return r + fmt.Sprint(", free ", ok, lin.Err(err))
		},
	}, th, bound)
	h.Small = true
	return h
}
