exec(open("/verif/tools/seeds/s24.py").read().replace("c20-narrow-lock","unused"))
ID="c20-index-first"; PROP="C20"
NEEDS="a publication whose commit fails after the cache position was advanced"
BREAKS="the cache position is stored on its own before the data, so a failed publication makes the latest data unavailable, or those of an older state"
EDITS=[("components/idenpuboffchain/writerhttp/writerhttp.go","""	next := (cacheIdx[0] + 1) % i.cfg.CacheLen
	tx.Put(dbKeyCacheIdx, []byte{next})
	return cacheIdx[0], nil
""","""	next := (cacheIdx[0] + 1) % i.cfg.CacheLen
	idxTx, err := i.storage.NewTx()
	if err != nil {
		return 0, err
	}
	idxTx.Put(dbKeyCacheIdx, []byte{next})
	if err := idxTx.Commit(); err != nil {
		return 0, err
	}
	return cacheIdx[0], nil
""")]
TEST=COMMON+'''
func TestZZDemo(t *testing.T) {
	for k := 1; k <= 3; k++ {
		st := &hookSt{Storage: db.NewMemoryStorage()}
		w, err := NewIdenPubOffChainWriteHttp(NewConfigDefault("http://foo.bar"), st)
		if err != nil {
			t.Fatal(err)
		}
		a, b := demoData(t, 1), demoData(t, 2)
		if err := w.Publish(&core.ID{}, a); err != nil {
			t.Fatal(err)
		}
		n := 0
		st.commit = func() error {
			n++
			if n == k {
				return errors.New("disk full")
			}
			return nil
		}
		want := a
		if err := w.Publish(&core.ID{}, b); err == nil {
			want = b
		}
		st.commit = nil
		d, err := w.GetPublicData(nil)
		if err != nil || !d.IdenState.Equals(want.IdenState) {
			t.Fatalf("failure at commit %d: latest is %v %v", k, d, err)
		}
	}
}
'''
