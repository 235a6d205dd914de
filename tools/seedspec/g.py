import runpy
D = runpy.run_path('/verif/tools/seedspec/d.py')
F = runpy.run_path('/verif/tools/seedspec/f.py')
SRV, AC, CDP, NRM, ROB = D['SRV'], D['AC'], D['CDP'], F['NRM'], F['ROB']
SEEDS = [
dict(id='E05-fetcher-agent', property='E05', pkg='.',
  edits=[('engine.go', '''		allowed, err := eng.robots.Allowed(ctx, robots.Request{
			URL:       url,
			UserAgent: UserAgent.String(),
''', '''		allowed, err := eng.robots.Allowed(ctx, robots.Request{
			URL:       url,
			UserAgent: eng.fetcher.userAgent(),
''')],
  needs='a fetcher with a user agent of its own and a robots.txt with a group for antbot',
  breaks='a page is fetched that robots.txt disallows for the engine\'s user agent',
  test=SRV+'''
func TestZZDemo(t *testing.T) {
	old := DefaultClient
	defer func() { DefaultClient = old }()
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		if r.URL.Path == "/robots.txt" { io.WriteString(w, "User-agent: antbot\\nDisallow: /\\n") }
	}))
	defer srv.Close()
	s := &zzScraper{}
	eng, err := NewEngine(EngineConfig{Scraper: s, Fetcher: &Fetcher{UserAgent: StaticAgent("Mozilla/5.0")}})
	if err != nil { t.Fatal(err) }
	if err := eng.Run(context.Background(), srv.URL+"/a"); err != nil || len(s.seen) != 0 { t.Fatal(err, s.seen) }
}
'''),
dict(id='P01-trim-href', property='P01', pkg='.',
  edits=[('page.go', '			u, err := url.Parse(href)\n', '			u, err := url.Parse(strings.TrimSpace(href))\n'),
         ('page.go', '	"net/url"\n	"sync"\n', '	"net/url"\n	"strings"\n	"sync"\n')],
  needs='an href with spaces around it',
  breaks='an href which RFC 3986 does not allow is resolved to another URL or returned although it does not parse',
  test=SRV+'''
func TestZZDemo(t *testing.T) {
	p := zzPage("http://a.example/", `<a href=" http://b/">x</a>`)
	if got := p.URLs(); len(got) != 0 { t.Fatal(got) }
}
'''),
dict(id='P01-unique', property='P01', pkg='.',
  edits=[('page.go', '''			switch u.Scheme {
			case "https", "http":
				ret = append(ret, u)
			}
''', '''			switch u.Scheme {
			case "https", "http":
				if s := u.String(); !seen[s] {
					seen[s] = true
					ret = append(ret, u)
				}
			}
'''), ('page.go', '	var ret = make(URLs, 0, len(anchors))\n', '	var ret = make(URLs, 0, len(anchors))\n	var seen = make(map[string]bool)\n')],
  needs='two links to the same URL', breaks='one of them is missing',
  test=SRV+'''
func TestZZDemo(t *testing.T) {
	p := zzPage("http://a.example/", `<a href="/b">x</a><a href="/b">y</a>`)
	if got := p.URLs(); len(got) != 2 { t.Fatal(got) }
}
'''),
dict(id='L02-query-unique', property='L02', pkg='.',
  edits=[('list.go', '''		for _, n := range l {
			ret = append(ret, sel.MatchAll(n)...)
		}
''', '''		seen := make(map[*html.Node]bool)
		for _, n := range l {
			for _, m := range sel.MatchAll(n) {
				if !seen[m] {
					seen[m] = true
					ret = append(ret, m)
				}
			}
		}
''')],
  needs='a list with a node inside another', breaks='Query drops matches of the inner node',
  test=SRV+'''
func TestZZDemo(t *testing.T) {
	p := zzPage("http://a.example/", `<div><div><b>x</b></div></div>`)
	if got := p.Query("div").Query("b"); len(got) != 2 { t.Fatal(len(got)) }
}
'''),
dict(id='H07-redacted', property='H07', pkg='antcache',
  edits=[('antcache/utils.go', 'req.Method + ":" + req.URL.String(),', 'req.Method + ":" + req.URL.Redacted(),')],
  needs='two URLs with the same user and different passwords', breaks='the response of one is served for the other',
  test=AC+'''
func TestZZDemo(t *testing.T) {
	c, err := New(zzTrip(func(r *http.Request) (*http.Response, error) {
		return zzResp(r, strings.NewReader(r.URL.String()), -1), nil
	}))
	if err != nil { t.Fatal(err) }
	for _, s := range []string{"http://u:a@h/", "http://u:b@h/"} {
		resp, err := c.Do(zzGet("GET", s))
		if err != nil { t.Fatal(err) }
		buf, _ := io.ReadAll(resp.Body)
		resp.Body.Close()
		if string(buf) != s { t.Fatal(s, string(buf)) }
	}
}
'''),
dict(id='H05-length-le', property='H05', pkg='antcache',
  edits=[('antcache/cachereader.go', '		cr.resp.ContentLength == int64(cr.buf.Len())', '		cr.resp.ContentLength <= int64(cr.buf.Len())')],
  needs='a response of unknown length that is closed early', breaks='a truncated body is stored and served',
  test=AC+'''
func TestZZDemo(t *testing.T) {
	st := &zzStore{}
	c, err := New(zzTrip(func(r *http.Request) (*http.Response, error) {
		return zzResp(r, strings.NewReader("hello"), -1), nil
	}), WithStorage(st))
	if err != nil { t.Fatal(err) }
	resp, err := c.Do(zzGet("GET", "http://a.example/"))
	if err != nil { t.Fatal(err) }
	resp.Body.Read(make([]byte, 2))
	resp.Body.Close()
	if st.stores != 0 { t.Fatal("stored", st.stores) }
}
'''),
dict(id='C03-close-first-error', property='C03', pkg='antcdp',
  edits=[('antcdp/tx.go', '''			if e := c.Close(); e != nil {
				err = multierror.Append(err, e)
			}
''', '''			if err := c.Close(); err != nil {
				return err
			}
'''), ('antcdp/tx.go', '''	return nil
}

// ParseProto''', '''	return nil
}

// ParseProto''')],
  needs='x', breaks='x', test=''),
dict(id='K03-rename-outside-lock', property='K03', pkg='antcache',
  edits=[('antcache/disk.go', '''	d.readymu.Lock()
	defer d.readymu.Unlock()

	if err := os.Rename(path, f.path); err != nil {
		return err
	}

	d.ready[f.key] = f
''', '''	if err := os.Rename(path, f.path); err != nil {
		return err
	}

	d.readymu.Lock()
	defer d.readymu.Unlock()
	d.ready[f.key] = f
''')],
  needs='a sweep that removes the old entry of a key between the rename and the registration of its new file',
  breaks='the new file is removed and Load of an entry that was stored successfully fails',
  test=AC+'''
func TestZZDemo(t *testing.T) {
	d, err := Open(t.TempDir(), Maxage(time.Hour), SweepEvery(0))
	if err != nil { t.Fatal(err) }
	defer d.Close()
	ctx := context.Background()
	if err := d.Wait(ctx); err != nil { t.Fatal(err) }
	if err := d.Store(ctx, 1, []byte("old")); err != nil { t.Fatal(err) }
	d.now = func() time.Time { return time.Now().Add(2 * time.Hour) }
	d.readymu.Lock()
	done := make(chan error, 1)
	go func() { done <- d.Store(ctx, 1, []byte("new")) }()
	time.Sleep(300 * time.Millisecond)
	// what a sweep does while it has the lock
	for k, f := range d.ready {
		os.Remove(f.path)
		delete(d.ready, k)
	}
	d.readymu.Unlock()
	if err := <-done; err != nil { t.Fatal(err) }
	v, err := d.Load(ctx, 1)
	if err != nil || string(v) != "new" { t.Fatalf("%q %v", v, err) }
}
'''),
dict(id='N01-keep-rawpath', property='N01', pkg='internal/normalize',
  edits=[('internal/normalize/url.go', '	u.RawPath = ""\n', '	if u.RawPath != "" {\n		u.RawPath = path.Join("/", u.RawPath)\n	}\n')],
  needs='a path with an encoding it does not need', breaks='it normalizes to another string than the one without',
  test=NRM+'''
func TestZZDemo(t *testing.T) {
	a, _ := RawURL("http://a/%7Ex%2fy")
	b, _ := RawURL("http://a/~x%2Fy")
	if a != b { t.Fatal(a, b) }
}

var _ url.URL
'''),
dict(id='E06-match-raw', property='E06', pkg='.',
  edits=[('engine.go', '''	// The batch may be shared with the scraper, copy it.
	for j := range batch {
		u := *batch[j]
		urls[j] = normalize.URL(&u)
	}

	next, err := eng.dedupe(ctx, eng.matches(urls))
''', '''	batch = eng.matches(batch)
	urls = urls[:len(batch)]

	// The batch may be shared with the scraper, copy it.
	for j := range batch {
		u := *batch[j]
		urls[j] = normalize.URL(&u)
	}

	next, err := eng.dedupe(ctx, urls)
''')],
  needs='a URL whose host is written in upper case and a matcher for the host', breaks='the matcher is given the URL before it is normalized and rejects it',
  test=SRV+'''
func TestZZDemo(t *testing.T) {
	s := &zzScraper{}
	eng, err := NewEngine(EngineConfig{Scraper: s, Impolite: true, Matcher: MatchHostname("a.example"), Fetcher: &Fetcher{Client: zzTrip(func(r *http.Request) (*http.Response, error) { return zzResp(r, 200, ""), nil })}})
	if err != nil { t.Fatal(err) }
	if err := eng.Run(context.Background(), "http://A.example:80/"); err != nil || len(s.seen) != 1 { t.Fatal(err, s.seen) }
}
'''),
dict(id='R01-request-uri', property='R01', pkg='internal/robots',
  edits=[('internal/robots/cache.go', '	var path = req.URL.Path\n', '	var path = req.URL.Path\n	if q := req.URL.RawQuery; q != "" {\n		path += "?" + q\n	}\n')],
  needs='a robots.txt rule that ends with $ and a URL with a query', breaks='a disallowed path is allowed when the URL has a query',
  test=ROB+'''
func TestZZDemo(t *testing.T) {
	s, _ := zzServe(t, "User-agent: *\\nDisallow: /a$\\n")
	c := NewCache(s.Client(), 10)
	u, _ := url.Parse(s.URL + "/a?b=1")
	ok, err := c.Allowed(context.Background(), Request{URL: u})
	if err != nil || ok { t.Fatal(ok, err) }
}
'''),
dict(id='X01-folded-key', property='X01', pkg='internal/selectors',
  edits=[('internal/selectors/selectors.go', '	if s, ok := c.m.Load(selector); ok {', '	key := strings.ToLower(selector)\n\n	if s, ok := c.m.Load(key); ok {'),
         ('internal/selectors/selectors.go', '	c.m.Store(selector, v)', '	c.m.Store(key, v)'),
         ('internal/selectors/selectors.go', '	"sync"\n', '	"strings"\n	"sync"\n')],
  needs='two selectors that differ by the letter case of a class', breaks='the selector of one is returned for the other',
  test='''package selectors

import (
	"strings"
	"testing"

	"golang.org/x/net/html"
)

func TestZZDemo(t *testing.T) {
	n, _ := html.Parse(strings.NewReader(`<p class="A">`))
	a, err := Compile(".A")
	if err != nil || len(a.MatchAll(n)) != 1 { t.Fatal(err) }
	b, err := Compile(".a")
	if err != nil || len(b.MatchAll(n)) != 0 { t.Fatal(err) }
}
'''),
dict(id='H03-only-first-vary-value', property='H03', pkg='antcache',
  edits=[('antcache/utils.go', '	return strings.Join(req.Header.Values(key), ", ")', '	return req.Header.Get(key)')],
  needs='a varied request header given on two lines', breaks='the response selected by other headers is served',
  test=AC+'''
func TestZZDemo(t *testing.T) {
	c, err := New(zzTrip(func(r *http.Request) (*http.Response, error) {
		resp := zzResp(r, strings.NewReader(strings.Join(r.Header["X-A"], "+")), -1)
		resp.Header.Set("Vary", "X-A")
		return resp, nil
	}))
	if err != nil { t.Fatal(err) }
	for _, l := range []string{"b", "c"} {
		req := zzGet("GET", "http://a.example/")
		req.Header["X-A"] = []string{"a", l}
		resp, err := c.Do(req)
		if err != nil { t.Fatal(err) }
		buf, _ := io.ReadAll(resp.Body)
		resp.Body.Close()
		if string(buf) != "a+"+l { t.Fatal(l, string(buf)) }
	}
}
'''),
dict(id='E01-scheme-upgraded', property='E01', pkg='.',
  edits=[('queue.go', '''	mq.pending = append(mq.pending, urls...)
	mq.active += len(urls)
''', '''	for _, u := range urls {
		if mq.last != nil && *mq.last == *u {
			continue
		}
		mq.pending = append(mq.pending, u)
		mq.last = u
		mq.active++
	}
'''), ('queue.go', '	stopped bool\n', '	stopped bool\n	last    *URL\n')],
  needs='x', breaks='x', test=''),
dict(id='J01-urls-on-error', property='J01', pkg='.',
  edits=[('json.go', '''	if err := j.encode(v.Interface()); err != nil {
		return nil, fmt.Errorf("ant: json encode %s - %w", j.typ, err)
	}
''', '''	if err := j.encode(v.Interface()); err != nil {
		return p.URLs(), fmt.Errorf("ant: json encode %s - %w", j.typ, err)
	}
''')],
  needs='a writer that fails', breaks='a scrape that failed yields URLs',
  test=SRV+'''
type zzFull struct{}

func (zzFull) Write([]byte) (int, error) { return 0, errors.New("full") }

func TestZZDemo(t *testing.T) {
	j := JSON(zzFull{}, struct { A string `css:"a"` }{})
	u, err := j.Scrape(context.Background(), zzPage("http://a.example/", `<a href="/b">x</a>`))
	if err == nil || len(u) != 0 { t.Fatal(u, err) }
}
'''),
]
SEEDS = [s for s in SEEDS if len(s['test']) > 1]
