import runpy
D = runpy.run_path('/verif/tools/seedspec/d.py')
SRV, AC, CDP = D['SRV'], D['AC'], D['CDP']

SEEDS = [
dict(id='D01-hash-key', property='D01', pkg='.',
  edits=[('dedupe.go', '''		if _, exists := d.m.LoadOrStore(u.String(), nil); !exists {
''', '''		h := fnv.New32a()
		io.WriteString(h, u.String())
		if _, exists := d.m.LoadOrStore(h.Sum32(), nil); !exists {
'''), ('dedupe.go', '''	"context"
	"sync"
''', '''	"context"
	"hash/fnv"
	"io"
	"sync"
''')],
  needs='two URLs with the same 32-bit hash',
  breaks='DedupeMap drops a URL it has never returned',
  test=SRV+'''
func TestZZDemo(t *testing.T) {
	d := DedupeMap()
	for i := 0; i < 60; i++ {
		urls := make(URLs, 10000)
		for j := range urls {
			urls[j] = &url.URL{Scheme: "http", Host: "a.example", Path: fmt.Sprintf("/%d/%d", i, j*7919)}
		}
		got, err := d.Dedupe(context.Background(), urls)
		if err != nil || len(got) != len(urls) {
			t.Fatal(len(got), err)
		}
	}
}
'''),
dict(id='J01-pooled-value', property='J01', pkg='.',
  edits=[('json.go', '''	var v = reflect.New(j.typ)

	if err''', '''	var v, ok = j.pool.Get().(reflect.Value)
	if !ok {
		v = reflect.New(j.typ)
	}
	defer j.pool.Put(v)

	if err'''), ('json.go', '	lock      sync.Mutex\n', '	lock      sync.Mutex\n	pool      sync.Pool // of reflect.Value\n')],
  needs='two pages, the second of which lacks an element the first had',
  breaks='the second line repeats a field of the first page',
  test=SRV+'''
func TestZZDemo(t *testing.T) {
	type item struct {
		A string `css:"h1"`
		B struct {
			C string `css:"b"`
		} `css:"h2"`
	}
	for i := 0; i < 100; i++ {
		var buf bytes.Buffer
		j := JSON(&buf, item{})
		if _, err := j.Scrape(context.Background(), zzPage("http://a.example/", "<h1>1</h1><h2><b>2</b></h2>")); err != nil {
			t.Fatal(err)
		}
		if _, err := j.Scrape(context.Background(), zzPage("http://a.example/", "<h1>3</h1>")); err != nil {
			t.Fatal(err)
		}
		if got := buf.String(); got != "{\\"A\\":\\"1\\",\\"B\\":{\\"C\\":\\"2\\"}}\\n{\\"A\\":\\"3\\",\\"B\\":{\\"C\\":\\"\\"}}\\n" {
			t.Fatal(got)
		}
	}
}
'''),
dict(id='K04-size-uncompressed', property='K04', pkg='antcache',
  edits=[('antcache/disk.go', '''	if d.compress {
		v = snappy.Encode(nil, v)
	}

	if _, err := f.Write(v); err != nil {
''', '''	data := v
	if d.compress {
		data = snappy.Encode(nil, v)
	}

	if _, err := f.Write(data); err != nil {
'''), ('antcache/disk.go', '	if err := d.add(key, f); err != nil {', '	if err := d.add(key, f, int64(len(v))); err != nil {'),
  ('antcache/disk.go', 'func (d *Diskstore) add(key uint64, f *os.File) error {', 'func (d *Diskstore) add(key uint64, f *os.File, size int64) error {'),
  ('antcache/disk.go', '''		path:  newpath,
		size:  stat.Size(),
''', '''		path:  newpath,
		size:  size,
''')],
  needs='compression and values that compress well',
  breaks='the sweeper removes entries although the files are smaller than maxsize',
  test=AC+'''
func TestZZDemo(t *testing.T) {
	d, err := Open(t.TempDir(), Compress(), Maxsize(4000), SweepEvery(0))
	if err != nil {
		t.Fatal(err)
	}
	defer d.Close()
	ctx := context.Background()
	d.Wait(ctx)
	v := bytes.Repeat([]byte("a"), 3000)
	for k := uint64(1); k < 4; k++ {
		if err := d.Store(ctx, k, v); err != nil {
			t.Fatal(err)
		}
	}
	if n, err := d.sweep(); n != 0 || err != nil {
		t.Fatal(n, err)
	}
}
'''),
dict(id='K03-sweep-snapshot', property='K03', pkg='antcache', race=False,
  edits=[('antcache/disk.go', '''	d.readymu.Lock()
	defer d.readymu.Unlock()

	var files = make([]file, 0, len(d.ready))
	var now''', '''	var files = d.files()
	var now'''), ('antcache/disk.go', '''	for _, f := range d.ready {
		files = append(files, f)
	}

	sort.Slice''', '''	sort.Slice'''),
  ('antcache/disk.go', '''	for _, f := range remove {
		if err := os.Remove''', '''	d.readymu.Lock()
	defer d.readymu.Unlock()

	for _, f := range remove {
		if err := os.Remove''')],
  needs='a Store that replaces an expired entry while the sweeper has decided to remove it',
  breaks='the sweeper removes the new value',
  test=AC+'''
func TestZZDemo(t *testing.T) {
	var d *Diskstore
	ctx := context.Background()
	d, err := Open(t.TempDir(), SweepEvery(0), Maxage(time.Hour))
	if err != nil {
		t.Fatal(err)
	}
	defer d.Close()
	d.Wait(ctx)
	if err := d.Store(ctx, 1, []byte("old")); err != nil {
		t.Fatal(err)
	}
	// The sweeper's clock is read while it decides; a store
	// that comes then may only be delayed, not lost.
	done := make(chan bool)
	d.now = func() time.Time {
		go func() {
			d.Store(ctx, 1, []byte("new"))
			close(done)
		}()
		time.Sleep(200 * time.Millisecond)
		return time.Now().Add(2 * time.Hour)
	}
	d.sweep()
	<-done
	v, err := d.Load(ctx, 1)
	if err != nil || string(v) != "new" {
		t.Fatalf("%q %v", v, err)
	}
}
'''),
dict(id='H05-writeto', property='H05', pkg='antcache',
  edits=[('antcache/cachereader.go', '''	if n, err = cr.rc.Read(p); n > 0 {
		cr.buf.Write(p[:n])
	}
''', '''	if n, err = io.TeeReader(cr.rc, &cr.buf).Read(p); err == io.ErrUnexpectedEOF {
		cr.eof = true
	}
''')],
  needs='a body of unknown length that ends with an unexpected EOF',
  breaks='the truncated body is stored',
  test=AC+'''
func TestZZDemo(t *testing.T) {
	st := &zzStore{}
	c, err := New(zzTrip(func(r *http.Request) (*http.Response, error) {
		return zzResp(r, io.MultiReader(strings.NewReader("hello"), iotest.ErrReader(io.ErrUnexpectedEOF)), -1), nil
	}), WithStorage(st))
	if err != nil {
		t.Fatal(err)
	}
	resp, err := c.Do(zzGet("GET", "http://a.example/"))
	if err != nil {
		t.Fatal(err)
	}
	io.Copy(io.Discard, resp.Body)
	resp.Body.Close()
	if st.stores != 0 {
		t.Fatal("stored", st.stores)
	}
}
'''),
dict(id='H04-merge-append', property='H04', pkg='antcache',
  edits=[('antcache/utils.go', '			a[key] = b[key]\n', '			for _, v := range b[key] {\n				a.Set(key, v)\n			}\n')],
  needs='a 304 with several values of one header',
  breaks='only the last of the values updates the stored response',
  test=AC+'''
func TestZZDemo(t *testing.T) {
	st := &zzStore{}
	c, err := New(zzTrip(func(r *http.Request) (*http.Response, error) {
		if r.Header.Get("If-None-Match") != "" {
			resp := zzResp(r, strings.NewReader(""), 0)
			resp.StatusCode = 304
			resp.Header["X-A"] = []string{"1", "2"}
			return resp, nil
		}
		resp := zzResp(r, strings.NewReader("ab"), 2)
		resp.Header.Set("ETag", "x")
		resp.Header.Set("Cache-Control", "max-age=10, no-cache")
		return resp, nil
	}), WithStorage(st))
	if err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 2; i++ {
		resp, err := c.Do(zzGet("GET", "http://a.example/"))
		if err != nil {
			t.Fatal(err)
		}
		io.ReadAll(resp.Body)
		resp.Body.Close()
		if i == 1 && len(resp.Header["X-A"]) != 2 {
			t.Fatal(resp.Header)
		}
	}
}
'''),
dict(id='E01-done-early', property='E01', pkg='.',
  edits=[('engine.go', '''func (eng *Engine) process(ctx context.Context, url *URL) error {
	defer eng.queue.Done(ctx, url)
''', '''func (eng *Engine) process(ctx context.Context, url *URL) error {
	var once sync.Once
	done := func() { once.Do(func() { eng.queue.Done(ctx, url) }) }
	defer done()
'''), ('engine.go', '''	// Enqueue URLs.
	if err := eng.enqueue''', '''	// Enqueue URLs.
	done()
	if err := eng.enqueue'''), ('engine.go', '''	"net/url"

	"github''', '''	"net/url"
	"sync"

	"github''')],
  needs='a page that is the only one being handled when its links are enqueued',
  breaks='the crawl ends although links of the last page were not visited',
  test=SRV+'''
type zzSlow struct{ Deduper }

func (d zzSlow) Dedupe(ctx context.Context, urls URLs) (URLs, error) {
	time.Sleep(50 * time.Millisecond)
	return d.Deduper.Dedupe(ctx, urls)
}

func TestZZDemo(t *testing.T) {
	s := &zzScraper{next: func(p *Page) (URLs, error) { return URLs{zzURL("http://a.example/1")}, nil }}
	eng, err := NewEngine(EngineConfig{
		Scraper: s, Impolite: true, Deduper: zzSlow{DedupeMap()},
		Fetcher: &Fetcher{Client: zzTrip(func(r *http.Request) (*http.Response, error) { return zzResp(r, 200, ""), nil })},
	})
	if err != nil {
		t.Fatal(err)
	}
	if err := eng.Run(context.Background(), "http://a.example/"); err != nil || len(s.seen) != 2 {
		t.Fatal(err, s.seen)
	}
}
'''),
]
