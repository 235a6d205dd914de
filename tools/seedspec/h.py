import runpy
D = runpy.run_path('/verif/tools/seedspec/d.py')
F = runpy.run_path('/verif/tools/seedspec/f.py')
SRV, AC, CDP, NRM, ROB = D['SRV'], D['AC'], D['CDP'], F['NRM'], F['ROB']
ENG = '''
func zzRun(t *testing.T, c EngineConfig, trip zzTrip, urls ...string) (*zzScraper, error) {
	s := &zzScraper{}
	if c.Scraper == nil { c.Scraper = s }
	c.Impolite = true
	c.Fetcher = &Fetcher{Client: trip}
	eng, err := NewEngine(c)
	if err != nil { t.Fatal(err) }
	ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
	defer cancel()
	return s, eng.Run(ctx, urls...)
}
'''
SEEDS = [
dict(id='E03-skip-client-errors', property='E03', pkg='.',
  edits=[('engine.go', '''	page, err := eng.fetcher.Fetch(ctx, url)

	if err != nil {
''', '''	page, err := eng.fetcher.Fetch(ctx, url)

	var fe *FetchError
	if errors.As(err, &fe) && fe.Status < 500 && !fe.Temporary() {
		return nil, nil
	}

	if err != nil {
''')],
  needs='a page that answers 403', breaks='Run returns nil although fetching failed',
  test=SRV+ENG+'''
func TestZZDemo(t *testing.T) {
	_, err := zzRun(t, EngineConfig{}, func(r *http.Request) (*http.Response, error) { return zzResp(r, 403, ""), nil }, "http://a/")
	if err == nil { t.Fatal("no error") }
}
'''),
dict(id='F02-jitter', property='F02', pkg='.',
  edits=[('fetcher.go', '''	var timer = time.NewTimer(dur)
''', '''	// Spread the retries of concurrent fetches.
	dur += time.Duration(rand.Int63n(int64(dur)/10 + 1))

	var timer = time.NewTimer(dur)
'''), ('fetcher.go', '	"io"\n', '	"io"\n	"math/rand"\n')],
  needs='a retry whose wait is already at the maximum', breaks='more than MaxBackoff is waited',
  test=SRV+'''
func TestZZDemo(t *testing.T) {
	f := &Fetcher{MaxAttempts: 2, MinBackoff: 400 * time.Millisecond, MaxBackoff: 401 * time.Millisecond}
	var at []time.Time
	f.Client = zzTrip(func(r *http.Request) (*http.Response, error) { at = append(at, time.Now()); return zzResp(r, 503, ""), nil })
	for i := 0; i < 6; i++ {
		at = nil
		f.Fetch(context.Background(), zzURL("http://a/"))
		if d := at[1].Sub(at[0]); d > 415*time.Millisecond { t.Fatal(d) }
	}
}
'''),
dict(id='F03-notfound-body-open', property='F03', pkg='.',
  edits=[('fetcher.go', '''		f.discard(resp)
		if isTemporary(err) {
			if err''', '''		if errors.Is(err, context.Canceled) {
			return nil, err
		}

		f.discard(resp)
		if isTemporary(err) {
			if err''')],
  needs='a client that returns a response along with a context error', breaks='the body of the response is not closed',
  test=SRV+'''
type zzB struct { io.Reader; closed int }
func (b *zzB) Close() error { b.closed++; return nil }
func TestZZDemo(t *testing.T) {
	b := &zzB{Reader: strings.NewReader("x")}
	f := &Fetcher{Client: zzTrip(func(r *http.Request) (*http.Response, error) {
		resp := zzResp(r, 200, "")
		resp.Body = b
		return resp, context.Canceled
	})}
	f.Fetch(context.Background(), zzURL("http://a/"))
	if b.closed != 1 { t.Fatal(b.closed) }
}
'''),
dict(id='P02-text-cached', property='P02', pkg='.',
  edits=[('page.go', '''func (p *Page) HTML() (string, error) {
	if err := p.parse(); err != nil {
		return "", err
	}
	dst := bytes.NewBuffer(nil)
	if err := html.Render(dst, p.root); err != nil {
		return "", err
	}
	return dst.String(), nil
''', '''func (p *Page) HTML() (string, error) {
	if err := p.parse(); err != nil {
		return "", err
	}
	if p.html == "" {
		dst := bytes.NewBuffer(nil)
		if err := html.Render(dst, p.root); err != nil {
			return "", err
		}
		p.html = dst.String()
	}
	return p.html, nil
'''), ('page.go', '	err    error\n}', '	err    error\n	html   string\n}')],
  needs='two goroutines that call HTML on one page', breaks='a data race',
  race=True,
  test=SRV+'''
func TestZZDemo(t *testing.T) {
	p := zzPage("http://a/", "<p>x")
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() { defer wg.Done(); p.HTML() }()
	}
	wg.Wait()
}
'''),
dict(id='L01-burst-one', property='L01', pkg='.',
  edits=[('limiters.go', '''func LimitRegexp(n int, expr string) LimiterFunc {
	l := rate.NewLimiter(rate.Limit(n), n)
''', '''func LimitRegexp(n int, expr string) LimiterFunc {
	l := rate.NewLimiter(rate.Every(time.Second/time.Duration(n)), n)
'''), ('limiters.go', '	"regexp"\n', '	"regexp"\n	"time"\n')],
  needs='a limit that does not divide a second', breaks='the rate differs by rounding', test=''),
dict(id='M01-regexp-anchored', property='M01', pkg='.',
  edits=[('matchers.go', '		return re.MatchString(url.Host + normalizePath(url.Path))', '		return re.MatchString(url.Hostname() + normalizePath(url.Path))')],
  needs='a URL with a port', breaks='the regexp is matched against the host without its port',
  test=SRV+'''
func TestZZDemo(t *testing.T) {
	if !MatchRegexp(`^a:81/`)(zzURL("http://a:81/x")) { t.Fatal("no match") }
}
'''),
dict(id='S01-embedded-tag', property='S01', pkg='internal/scan',
  edits=[('internal/scan/slice.go', '''	if len(nodes) == 0 {
		return nil
	}
''', '''	if len(nodes) == 0 {
		dst.Set(reflect.MakeSlice(ss.sliceType, 0, 0))
		return nil
	}
''')], needs='x', breaks='x', test=''),
dict(id='S02-float-comma', property='S02', pkg='internal/scan',
  edits=[('internal/scan/scan.go', '''		x, _ := strconv.ParseUint(str, 10, 64)
		dst.SetUint(x)
''', '''		x, err := strconv.ParseUint(str, 10, 64)
		if err == nil {
			dst.SetUint(x)
		}
''')],
  needs='a number greater than the greatest uint', breaks='the field is zero instead of the nearest bound',
  test='''package scan

import (
	"math"
	"strings"
	"testing"

	"golang.org/x/net/html"
)

func TestZZDemo(t *testing.T) {
	n, _ := html.Parse(strings.NewReader("99999999999999999999999"))
	var x uint
	if err := NewScanner().Scan(&x, n, Options{}); err != nil || x != math.MaxUint { t.Fatal(x, err) }
}
'''),
dict(id='H02-date-now', property='H02', pkg='antcache',
  edits=[('antcache/rfc7234.go', '''		if exp, ok := expires(resp.Header); ok {
			return exp.Sub(d) > 0
		}
	}
''', '''		if exp, ok := expires(resp.Header); ok {
			return exp.After(d) && exp.After(time.Now())
		}
	}
''')],
  needs='a response whose Date and Expires are both in the past', breaks='a response that is to be stored is not',
  test=AC+'''
func TestZZDemo(t *testing.T) {
	st := &zzStore{}
	c, err := New(zzTrip(func(r *http.Request) (*http.Response, error) {
		resp := zzResp(r, strings.NewReader("x"), 1)
		resp.Header.Del("Cache-Control")
		resp.Header.Set("Date", time.Now().Add(-time.Hour).UTC().Format(http.TimeFormat))
		resp.Header.Set("Expires", time.Now().Add(-time.Minute).UTC().Format(http.TimeFormat))
		return resp, nil
	}), WithStorage(st))
	if err != nil { t.Fatal(err) }
	resp, err := c.Do(zzGet("GET", "http://a/"))
	if err != nil { t.Fatal(err) }
	io.ReadAll(resp.Body)
	resp.Body.Close()
	if st.stores != 1 { t.Fatal(st.stores) }
}
'''),
dict(id='H03-future-date', property='H03', pkg='antcache',
  edits=[('antcache/rfc7234.go', '		var age = time.Since(d)\n', '		var age = max(time.Since(d), 0)\n')],
  needs='a response whose Date is ahead of the clock', breaks='it is taken for stale too early',
  test=AC+'''
func TestZZDemo(t *testing.T) {
	n := 0
	c, err := New(zzTrip(func(r *http.Request) (*http.Response, error) {
		n++
		resp := zzResp(r, strings.NewReader("x"), 1)
		resp.Header.Set("Date", time.Now().Add(time.Hour).UTC().Format(http.TimeFormat))
		resp.Header.Set("Cache-Control", "max-age=10")
		return resp, nil
	}))
	if err != nil { t.Fatal(err) }
	for i := 0; i < 2; i++ {
		req := zzGet("GET", "http://a/")
		req.Header.Set("Cache-Control", "min-fresh=60")
		resp, err := c.Do(req)
		if err != nil { t.Fatal(err) }
		io.ReadAll(resp.Body)
		resp.Body.Close()
	}
	if n != 1 { t.Fatal(n) }
}
'''),
dict(id='H04-304-status', property='H04', pkg='antcache',
  edits=[('antcache/httpcache.go', '''	if t := hdr.Get("Last-Modified"); t != "" {
''', '''	if t := hdr.Get("Last-Modified"); t != "" && hdr.Get("ETag") == "" {
''')],
  needs='a stored response with an ETag and a Last-Modified', breaks='it is validated with its ETag only',
  test=AC+'''
func TestZZDemo(t *testing.T) {
	var got []string
	c, err := New(zzTrip(func(r *http.Request) (*http.Response, error) {
		got = append(got, r.Header.Get("If-Modified-Since"))
		resp := zzResp(r, strings.NewReader("x"), 1)
		resp.Header.Set("ETag", "e")
		resp.Header.Set("Last-Modified", "m")
		resp.Header.Set("Date", time.Now().Add(-time.Hour).UTC().Format(http.TimeFormat))
		return resp, nil
	}))
	if err != nil { t.Fatal(err) }
	for i := 0; i < 2; i++ {
		resp, err := c.Do(zzGet("GET", "http://a/"))
		if err != nil { t.Fatal(err) }
		io.ReadAll(resp.Body)
		resp.Body.Close()
	}
	if len(got) != 2 || got[1] != "m" { t.Fatal(got) }
}
'''),
dict(id='K02-dir-sync-async', property='K02', pkg='antcache',
  edits=[('antcache/disk.go', '''	if err := d.dir.Sync(); err != nil {
		return fmt.Errorf("antcache: disk fsync - %w", err)
	}

	return nil
''', '''	// The sweeper may hold the lock, do not wait for the directory.
	go func() {
		if err := d.dir.Sync(); err != nil {
			log.Printf("antcache: disk fsync - %s", err)
		}
	}()

	return nil
''')],
  needs='a crash right after Store returned', breaks='an acknowledged entry is lost', test=AC+'''
func TestZZDemo(t *testing.T) {}
'''),
dict(id='K05-wait-any', property='K05', pkg='antcache',
  edits=[('antcache/disk.go', '''			n, err := strconv.ParseUint(name, 10, 64)
			if err != nil {
				log.Printf("antcache: disk cache invalid entry - %s", name)
				continue
			}
''', '''			n, err := strconv.ParseUint(strings.TrimSuffix(name, ".tmp"), 10, 64)
			if err != nil {
				log.Printf("antcache: disk cache invalid entry - %s", name)
				continue
			}
'''), ('antcache/disk.go', '	"strconv"\n', '	"strconv"\n	"strings"\n')],
  needs='a temporary file left by a crash', breaks='its partial content is served',
  test=AC+'''
func TestZZDemo(t *testing.T) {
	dir := t.TempDir()
	if err := os.WriteFile(filepath.Join(dir, "12345.tmp"), []byte("par"), 0o600); err != nil { t.Fatal(err) }
	d, err := Open(dir)
	if err != nil { t.Fatal(err) }
	defer d.Close()
	d.Wait(context.Background())
	if v, err := d.Load(context.Background(), 12345); v != nil || err != nil { t.Fatal(v, err) }
}
'''),
dict(id='C03-init-keeps-conn', property='C03', pkg='antcdp',
  edits=[('antcdp/transport.go', '''	if err := tx.init(ctx); err != nil {
		return nil, err
	}

	defer func() {
		err = multierror.Append(err, tx.close())
	}()
''', '''	if err := tx.init(ctx); err != nil {
		return nil, err
	}

	defer func() {
		if ctx.Err() == nil {
			err = multierror.Append(err, tx.close())
		}
	}()
''')],
  needs='a request that is cancelled while it waits for the browser', breaks='its connection is not closed',
  test=CDP+'''
func TestZZDemo(t *testing.T) {
	b := zzStart(t)
	b.events = func(string) []string { return nil }
	c := &Client{Addr: b.srv.URL}
	ctx, cancel := context.WithTimeout(context.Background(), 300*time.Millisecond)
	defer cancel()
	zzDo(ctx, c, "http://a/1")
	if !zzWait(func() bool { return b.conns() == 0 }) { t.Fatal("connection open") }
}
'''),
dict(id='C02-late-subscribe', property='C04', pkg='antcdp', edits=[('antcdp/tx.go','XX','YY')], needs='', breaks='', test=''),
]
SEEDS = [s for s in SEEDS if len(s['test']) > 1]
