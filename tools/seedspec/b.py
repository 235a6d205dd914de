H = '''package antcache

'''
COMMON = '''
type zzF func(*http.Request) (*http.Response, error)
func (f zzF) Do(r *http.Request) (*http.Response, error) { return f(r) }
func zzR(r *http.Request, status int, body string, kv ...string) *http.Response {
	resp := &http.Response{StatusCode: status, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Request: r, Body: io.NopCloser(strings.NewReader(body)), ContentLength: int64(len(body))}
	resp.Header.Set("Date", time.Now().UTC().Format(http.TimeFormat))
	for i := 0; i < len(kv); i += 2 { resp.Header.Set(kv[i], kv[i+1]) }
	return resp
}
func zzGet(t *testing.T, c *Cache, kv ...string) (*http.Response, string) {
	r, _ := http.NewRequest("GET", "http://h/a", nil)
	for i := 0; i < len(kv); i += 2 { r.Header.Set(kv[i], kv[i+1]) }
	resp, err := c.Do(r)
	if err != nil { t.Fatal(err) }
	b, err := io.ReadAll(resp.Body)
	if err != nil { t.Fatal(err) }
	if err := resp.Body.Close(); err != nil { t.Fatal(err) }
	return resp, string(b)
}
'''
I = 'import ("io";"net/http";"strings";"testing";"time")\n'
SEEDS = [
dict(id='H01-authorization-stored', property='H01', pkg='antcache',
  edits=[('antcache/httpcache.go', '''	if !c.strategy.cache(req) {
		return c.client.Do(req)
	}

	var key = keyof(req)

	resp, err := c.load(key, req)
	if err != nil {
		return nil, err
	}
	if resp != nil {
		return resp, nil
	}

	resp, err = c.client.Do(req)
''', '''	var key = keyof(req)
	var resp *http.Response
	var err error

	if c.strategy.cache(req) {
		if resp, err = c.load(key, req); err != nil {
			return nil, err
		}
		if resp != nil {
			return resp, nil
		}
	}

	resp, err = c.client.Do(req)
''')],
  needs='a request with Authorization or Range whose response is storable, read to the end',
  breaks='responses to requests that bypass the lookup are stored and served to anyone',
  test=H+I+COMMON+'''
func TestZZDemo(t *testing.T) {
	c, _ := New(zzF(func(r *http.Request) (*http.Response, error) { return zzR(r, 200, "for "+r.Header.Get("Authorization"), "Cache-Control", "max-age=60"), nil }))
	zzGet(t, c, "Authorization", "me")
	if _, b := zzGet(t, c); b != "for " { t.Fatal(b) }
}
'''),
dict(id='H02-maxage-zero-expires', property='H02', pkg='antcache',
  edits=[('antcache/rfc7234.go', '''		if maxage, ok := resd.duration("max-age"); ok {
			return maxage > 0
		}
''', '''		if maxage, ok := resd.duration("max-age"); ok && maxage > 0 {
			return true
		}
''')],
  needs='max-age=0 together with an Expires in the future',
  breaks='Expires overrides a max-age of zero, so that the response is stored',
  test=H+I.replace('(','("context";')+COMMON+'''
type zzS struct{ memstore; n int }
func (s *zzS) Store(ctx context.Context, k uint64, v []byte) error { s.n++; return s.memstore.Store(ctx, k, v) }
func TestZZDemo(t *testing.T) {
	s := &zzS{}
	c, _ := New(zzF(func(r *http.Request) (*http.Response, error) { return zzR(r, 200, "b", "Cache-Control", "max-age=0", "Expires", time.Now().Add(time.Hour).UTC().Format(http.TimeFormat)), nil }), WithStorage(s))
	zzGet(t, c)
	if s.n != 0 { t.Fatal("stored") }
}
'''),
dict(id='H03-expires-until', property='H03', pkg='antcache',
  edits=[('antcache/rfc7234.go', '''			lifetime = exp.Sub(d)
''', '''			lifetime = time.Until(exp)
''')],
  needs='a response with Expires and no max-age, older than half of its lifetime',
  breaks='the lifetime shrinks as the response ages, so a fresh response is validated',
  test=H+I+COMMON+'''
func TestZZDemo(t *testing.T) {
	n := 0
	c, _ := New(zzF(func(r *http.Request) (*http.Response, error) { n++
		resp := zzR(r, 200, "b", "Expires", time.Now().Add(time.Hour).UTC().Format(http.TimeFormat))
		resp.Header.Set("Date", time.Now().Add(-2*time.Hour).UTC().Format(http.TimeFormat))
		return resp, nil }))
	zzGet(t, c); zzGet(t, c)
	if n != 1 { t.Fatal("calls", n) }
}
'''),
dict(id='H03-only-if-cached-first', property='H03', pkg='antcache',
  edits=[('antcache/rfc7234.go', '''	if reqd.has("no-cache") || resd.has("no-cache") || pragma(req.Header, reqd) {
		return stale
	}

	// When only-if-cached is set, always return fresh.
	if reqd.has("only-if-cached") {
		return fresh
	}
''', '''	// When only-if-cached is set, always return fresh.
	if reqd.has("only-if-cached") {
		return fresh
	}

	if reqd.has("no-cache") || resd.has("no-cache") || pragma(req.Header, reqd) {
		return stale
	}
''')],
  needs='only-if-cached with a stored response that says no-cache',
  breaks='a response that says no-cache is served without validation',
  test=H+I+COMMON+'''
func TestZZDemo(t *testing.T) {
	n := 0
	c, _ := New(zzF(func(r *http.Request) (*http.Response, error) { n++; return zzR(r, 200, "b", "Cache-Control", "max-age=60, no-cache"), nil }))
	zzGet(t, c); zzGet(t, c, "Cache-Control", "only-if-cached")
	if n != 2 { t.Fatal("calls", n) }
}
'''),
dict(id='H04-request-not-cloned', property='H04', pkg='antcache',
  edits=[('antcache/httpcache.go', '''	var req = resp.Request.Clone(ctx)
''', '''	var req = resp.Request.WithContext(ctx)
''')],
  needs='a validation that is answered by something that cannot be stored, so that the request is sent again',
  breaks="the caller's request keeps the conditional headers, and the unconditional fetch becomes conditional",
  test=H+I+COMMON+'''
func TestZZDemo(t *testing.T) {
	n := 0
	c, _ := New(zzF(func(r *http.Request) (*http.Response, error) { n++
		if n == 1 { return zzR(r, 200, "b", "Cache-Control", "max-age=60, no-cache", "ETag", "x"), nil }
		if n == 2 { return zzR(r, 404, "gone"), nil }
		if r.Header.Get("If-None-Match") != "" { return zzR(r, 304, ""), nil }
		return zzR(r, 200, "c"), nil }))
	zzGet(t, c)
	if resp, b := zzGet(t, c); b != "c" || resp.StatusCode != 200 { t.Fatal(resp.StatusCode, b) }
}
'''),
dict(id='H06-response-no-cache', property='H06', pkg='antcache',
  edits=[('antcache/aggressive.go', '''	if date, ok := date(resp.Header); ok {
		if time.Since(date) < a.lifetime() {
			return fresh
		}
	}
	return transparent
''', '''	if date, ok := date(resp.Header); ok {
		var lifetime = a.lifetime()
		if maxage, ok := directivesFrom(resp.Header).duration("max-age"); ok && maxage < lifetime {
			lifetime = maxage
		}
		if time.Since(date) < lifetime {
			return fresh
		}
	}
	return transparent
''')],
  needs='a response whose max-age is below the configured age',
  breaks='the aggressive cache honours max-age of the response',
  test=H+I+COMMON+'''
func TestZZDemo(t *testing.T) {
	n := 0
	c, _ := New(zzF(func(r *http.Request) (*http.Response, error) { n++; return zzR(r, 200, "b", "Cache-Control", "max-age=0"), nil }), Aggressive(time.Hour))
	zzGet(t, c); zzGet(t, c)
	if n != 1 { t.Fatal("calls", n) }
}
'''),
dict(id='H06-default-age', property='H06', pkg='antcache',
  edits=[('antcache/aggressive.go', '''	if a.age > 0 {
		return a.age
	}
	return 24 * time.Hour
''', '''	if a.age < time.Second {
		return 24 * time.Hour
	}
	return a.age
''')],
  needs='a configured age below one second',
  breaks='ages below one second become 24 hours',
  test=H+I+COMMON+'''
func TestZZDemo(t *testing.T) {
	n := 0
	c, _ := New(zzF(func(r *http.Request) (*http.Response, error) { n++
		resp := zzR(r, 200, "b")
		resp.Header.Set("Date", time.Now().Add(-10*time.Second).UTC().Format(http.TimeFormat))
		return resp, nil }), Aggressive(500*time.Millisecond))
	zzGet(t, c); zzGet(t, c)
	if n != 2 { t.Fatal("calls", n) }
}
'''),
dict(id='K01-sync-leaves-temp', property='K01', pkg='antcache',
  edits=[('antcache/disk.go', '''	if err := d.add(key, f); err != nil {
		cleanup()
		return fmt.Errorf("antcache: add - %w", err)
	}
''', '''	if err := d.add(key, f); err != nil {
		return fmt.Errorf("antcache: add - %w", err)
	}
''')],
  needs='the rename of the temporary file fails',
  breaks='the temporary file is left behind when it cannot be moved into place',
  test=H+'''import ("context";"os";"path/filepath";"strings";"testing")
func TestZZDemo(t *testing.T) {
	root := t.TempDir()
	if err := os.MkdirAll(filepath.Join(root, "7", "x"), 0o755); err != nil { t.Fatal(err) }
	d, err := Open(root)
	if err != nil { t.Fatal(err) }
	if err := d.Store(context.Background(), 7, []byte("v")); err == nil { t.Fatal("stored") }
	es, _ := os.ReadDir(root)
	for _, e := range es { if strings.HasSuffix(e.Name(), ".tmp") { t.Fatal(e.Name()) } }
}
'''),
dict(id='K03-load-unlocked', property='K03', pkg='antcache',
  edits=[('antcache/disk.go', '''	d.readymu.RLock()
	defer d.readymu.RUnlock()

	if f, ok := d.ready[key]; ok {
		if v, err = os.ReadFile(f.path); err != nil {
''', '''	d.readymu.RLock()
	f, ok := d.ready[key]
	d.readymu.RUnlock()

	if ok {
		if v, err = os.ReadFile(f.path); err != nil {
''')],
  needs='the sweeper removes an entry between the lookup and the reading of its file',
  breaks='Load fails for an entry that is being swept',
  test=H+'''import ("context";"fmt";"sync/atomic";"testing";"time")
func TestZZDemo(t *testing.T) {
	d, err := Open(t.TempDir(), Maxage(time.Nanosecond))
	if err != nil { t.Fatal(err) }
	var stop atomic.Bool
	done := make(chan string, 8)
	for i := 0; i < 4; i++ {
		go func() {
			for !stop.Load() {
				for k := uint64(0); k < 8; k++ {
					if _, err := d.Load(context.Background(), k); err != nil { done <- fmt.Sprint(err); return }
				}
			}
			done <- ""
		}()
	}
	end := time.Now().Add(8*time.Second)
	msg := ""
	for n := 0; time.Now().Before(end) && msg == "" ; n++ {
		for k := uint64(0); k < 8; k++ { d.Store(context.Background(), k, []byte("v")) }
		time.Sleep(time.Millisecond)
		d.sweep()
		select { case msg = <-done: default: }
	}
	stop.Store(true)
	if msg != "" { t.Fatal(msg) }
}
'''),
dict(id='K03-shared-buffer', property='K03', pkg='antcache',
  edits=[('antcache/disk.go', '''	compress bool
}
''', '''	compress bool
	scratch  []byte
}
'''), ('antcache/disk.go', '''		v = snappy.Encode(nil, v)
''', '''		d.scratch = snappy.Encode(d.scratch[:cap(d.scratch)], v)
		v = d.scratch
''')],
  needs='two concurrent Stores with compression',
  breaks='concurrent Stores share a buffer, so one key may get the bytes of the other',
  race=True,
  test=H+'''import ("bytes";"context";"sync";"testing")
func TestZZDemo(t *testing.T) {
	d, err := Open(t.TempDir(), Compress())
	if err != nil { t.Fatal(err) }
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		g := g
		wg.Add(1)
		go func() {
			defer wg.Done()
			v := bytes.Repeat([]byte{byte('a' + g)}, 500)
			for i := 0; i < 50; i++ {
				d.Store(context.Background(), uint64(g), v)
				if got, err := d.Load(context.Background(), uint64(g)); err != nil || !bytes.Equal(got, v) { t.Error("altered"); return }
			}
		}()
	}
	wg.Wait()
}
'''),
dict(id='K04-seconds', property='K04', pkg='antcache',
  edits=[('antcache/disk.go', '''		return a.Before(b)
''', '''		return a.Unix() < b.Unix()
''')],
  needs='surplus entries whose times are within one second of each other',
  breaks='the order of age is lost within a second, so a newer entry may be evicted',
  test=H+'''import ("context";"os";"path/filepath";"strconv";"testing";"time")
func TestZZDemo(t *testing.T) {
	for n := 0; n < 20; n++ {
		root := t.TempDir()
		base := time.Unix(1000000000, 0)
		for i := 0; i < 6; i++ {
			p := filepath.Join(root, strconv.Itoa(i))
			os.WriteFile(p, []byte("x"), 0o644)
			os.Chtimes(p, base, base.Add(time.Duration(i)*time.Millisecond))
		}
		d, err := Open(root, Maxage(0), Maxsize(3))
		if err != nil { t.Fatal(err) }
		d.Wait(context.Background())
		d.sweep()
		for i := 3; i < 6; i++ {
			if v, _ := d.Load(context.Background(), uint64(i)); v == nil { t.Fatal("evicted", i) }
		}
		d.Close()
	}
}
'''),
dict(id='K04-stop-at-failure', property='K04', pkg='antcache',
  edits=[('antcache/disk.go', '''			log.Printf("antcache: disk remove - %s", err)
			continue
''', '''			return removed, fmt.Errorf("antcache: disk remove - %w", err)
''')],
  needs='the removal of one of several files fails',
  breaks='a file that cannot be removed keeps the others from being removed',
  test=H+'''import ("context";"os";"path/filepath";"testing";"time")
func TestZZDemo(t *testing.T) {
	root := t.TempDir()
	old := time.Now().Add(-48*time.Hour)
	os.MkdirAll(filepath.Join(root, "1", "x"), 0o755)
	os.WriteFile(filepath.Join(root, "2"), []byte("x"), 0o644)
	os.Chtimes(filepath.Join(root, "1"), old.Add(-time.Hour), old.Add(-time.Hour))
	os.Chtimes(filepath.Join(root, "2"), old, old)
	d, err := Open(root)
	if err != nil { t.Fatal(err) }
	d.Wait(context.Background())
	d.sweep()
	if v, _ := d.Load(context.Background(), 2); v != nil { t.Fatal("still there") }
}
'''),
dict(id='K05-int-names', property='K05', pkg='antcache',
  edits=[('antcache/disk.go', '''	var newname = strconv.FormatUint(key, 10)
''', '''	var newname = strconv.FormatInt(int64(key), 10)
''')],
  needs='a key of 2^63 or more, and reopening the directory',
  breaks='entries with large keys get a name that is not recognized after reopening',
  test=H+'''import ("context";"testing")
func TestZZDemo(t *testing.T) {
	root := t.TempDir()
	d, _ := Open(root)
	d.Store(context.Background(), 1<<63+5, []byte("v"))
	d.Close()
	d, _ = Open(root)
	d.Wait(context.Background())
	if v, _ := d.Load(context.Background(), 1<<63+5); string(v) != "v" { t.Fatalf("%q", v) }
}
'''),
dict(id='K02-decimal-temp', property='K02', pkg='antcache',
  edits=[('antcache/disk.go', '''	f, err := os.CreateTemp(d.path, "*.tmp")
''', '''	f, err := os.CreateTemp(d.path, strconv.FormatUint(key, 10)+"*")
''')],
  needs='a crash while a value is being written, and reopening the directory',
  breaks='a temporary file has a decimal name, so that a store that is opened after a crash takes it for an entry',
  test=H+'''import ("context";"os";"strconv";"testing";"time")
func TestZZDemo(t *testing.T) {
	root := t.TempDir()
	d, err := Open(root)
	if err != nil { t.Fatal(err) }
	// What a crash could leave behind at any moment of a Store.
	done := make(chan bool)
	go func() { for i := 0; i < 20; i++ { d.Store(context.Background(), 7, make([]byte, 4<<20)) }; close(done) }()
	for {
		select { case <-done: return; default: }
		es, _ := os.ReadDir(root)
		for _, e := range es {
			if n, err := strconv.ParseUint(e.Name(), 10, 64); err == nil && n != 7 { <-done; t.Fatal(e.Name()) }
		}
		time.Sleep(100*time.Microsecond)
	}
}
'''),
]
