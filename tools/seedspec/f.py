import runpy
D = runpy.run_path('/verif/tools/seedspec/d.py')
SRV, AC, CDP = D['SRV'], D['AC'], D['CDP']
NRM = '''package normalize

import (
	"net/url"
	"testing"
)

'''
ROB = '''package robots

import (
	"context"
	"net/http"
	"net/http/httptest"
	"net/url"
	"sync/atomic"
	"testing"
	"time"
)

var (
	_ = context.Background
	_ = time.Now
	_ atomic.Int32
	_ url.URL
)

func zzServe(t *testing.T, txt string) (*httptest.Server, *int32) {
	n := new(int32)
	s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		atomic.AddInt32(n, 1)
		w.Write([]byte(txt))
	}))
	t.Cleanup(s.Close)
	return s, n
}
'''

SEEDS = [
dict(id='F01-agent-once', property='F01', pkg='.',
  edits=[('fetcher.go', '''	if ua := f.UserAgent; ua != nil {
		return ua.String()
	}
''', '''	if f.UserAgent != nil {
		f.agent.Do(func() { f.agentString = f.UserAgent.String() })
		return f.agentString
	}
'''), ('fetcher.go', '''	MaxBackoff time.Duration
}
''', '''	MaxBackoff time.Duration

	agent       sync.Once
	agentString string
}
'''), ('fetcher.go', '	"net/url"\n	"time"', '	"net/url"\n	"sync"\n	"time"')],
  needs='a user agent whose String changes from request to request, as the Stringer interface is there for',
  breaks='every request after the first is sent with the first user agent',
  test=SRV+'''
type zzRotate int

func (r *zzRotate) String() string { *r++; return fmt.Sprint("agent", int(*r)) }

func TestZZDemo(t *testing.T) {
	var got []string
	f := &Fetcher{UserAgent: new(zzRotate), Client: zzTrip(func(r *http.Request) (*http.Response, error) {
		got = append(got, r.Header.Get("User-Agent"))
		return zzResp(r, 200, ""), nil
	})}
	for i := 0; i < 2; i++ {
		if _, err := f.Fetch(context.Background(), zzURL("http://a.example/")); err != nil { t.Fatal(err) }
	}
	if got[0] != "agent1" || got[1] != "agent2" { t.Fatal(got) }
}
'''),
dict(id='N02-ipv6-brackets', property='N02', pkg='internal/normalize',
  edits=[('internal/normalize/url.go', '''	var host = strings.ToLower(u.Host)

	switch u.Scheme {
	case "http":
		return strings.TrimSuffix(host, ":80")
	case "https":
		return strings.TrimSuffix(host, ":443")
	default:
		return host
	}
''', '''	var host = strings.ToLower(u.Hostname())

	switch port := u.Port(); {
	case u.Scheme == "http" && port == "80":
		return host
	case u.Scheme == "https" && port == "443":
		return host
	default:
		return strings.ToLower(u.Host)
	}
''')],
  needs='an IPv6 host with the default port',
  breaks='the brackets of the host are lost, the URL names another host or none',
  test=NRM+'''
func TestZZDemo(t *testing.T) {
	got, err := RawURL("http://[::1]:80/a")
	if err != nil { t.Fatal(err) }
	u, err := url.Parse(got)
	if err != nil || u.Hostname() != "::1" { t.Fatal(got, err) }
}
'''),
dict(id='R02-whole-seconds', property='R02', pkg='internal/robots',
  edits=[('internal/robots/cache.go', '''		if d := g.CrawlDelay; d > 0 {
''', '''		if d := g.CrawlDelay.Truncate(time.Second); d > 0 {
''')],
  needs='a crawl delay that is not a whole number of seconds',
  breaks='less than the crawl delay is waited',
  test=ROB+'''
func TestZZDemo(t *testing.T) {
	s, _ := zzServe(t, "User-agent: *\\nCrawl-delay: 0.5\\n")
	c := NewCache(s.Client(), 10)
	u, _ := url.Parse(s.URL + "/a")
	start := time.Now()
	if err := c.Wait(context.Background(), Request{URL: u}); err != nil { t.Fatal(err) }
	if d := time.Since(start); d < 500*time.Millisecond { t.Fatal(d) }
}
'''),
dict(id='C04-path-unescaped', property='C04', pkg='antcdp',
  edits=[('antcdp/tx.go', '''	var args = page.NewNavigateArgs(tx.request.URL.String())
''', '''	var url = *tx.request.URL
	url.RawPath = ""

	var args = page.NewNavigateArgs(url.String())
''')],
  needs='a URL whose path has an encoded slash',
  breaks='the browser is sent to another URL',
  test=CDP+'''
func TestZZDemo(t *testing.T) {
	b := zzStart(t)
	c := &Client{Addr: b.srv.URL}
	if _, err := zzDo(context.Background(), c, "http://a.example/x%2Fy"); err != nil { t.Fatal(err) }
	if !strings.Contains(strings.Join(b.params, " "), "http://a.example/x%2Fy") { t.Fatal(b.params) }
}
'''),
dict(id='P01-http-prefix', property='P01', pkg='.',
  edits=[('page.go', '''			switch u.Scheme {
			case "https", "http":
				ret = append(ret, u)
			}
''', '''			if strings.HasPrefix(u.Scheme, "http") {
				ret = append(ret, u)
			}
'''), ('page.go', '	"net/url"\n	"sync"\n', '	"net/url"\n	"strings"\n	"sync"\n')],
  needs='a link with a scheme which merely begins with http',
  breaks='links which are not http or https are returned',
  test=SRV+'''
func TestZZDemo(t *testing.T) {
	p := zzPage("http://a.example/", `<a href="httpx://b/">x</a>`)
	if got := p.URLs(); len(got) != 0 { t.Fatal(got) }
}
'''),
dict(id='E06-no-host', property='E06', pkg='.',
  edits=[('engine.go', '''		switch u.Scheme {
		case "https", "http":
		default:
			return fmt.Errorf("ant: cannot enqueue invalid URL %q", u)
		}

		batch = append(batch, u)
''', '''		switch u.Scheme {
		case "https", "http":
			batch = append(batch, u)
		case "":
			continue
		default:
			return fmt.Errorf("ant: cannot enqueue invalid URL %q", u)
		}
''')],
  needs='a start URL without a scheme among others',
  breaks='a start URL that is neither http nor https is dropped silently, and the others are crawled',
  test=SRV+'''
func TestZZDemo(t *testing.T) {
	s := &zzScraper{}
	eng, err := NewEngine(EngineConfig{Scraper: s, Impolite: true, Fetcher: &Fetcher{Client: zzTrip(func(r *http.Request) (*http.Response, error) { return zzResp(r, 200, ""), nil })}})
	if err != nil { t.Fatal(err) }
	if err := eng.Run(context.Background(), "http://a.example/", "/b"); err == nil { t.Fatal("accepted", s.seen) }
}
'''),
dict(id='H03-vary-first-line', property='H03', pkg='antcache',
  edits=[('antcache/utils.go', '''	var keys = split(strings.Join(resp.Header.Values("Vary"), ","), ",")
''', '''	var keys = split(resp.Header.Get("Vary"), ",")
''')],
  needs='a response with two Vary lines',
  breaks='a response selected by another request header is served',
  test=AC+'''
func TestZZDemo(t *testing.T) {
	c, err := New(zzTrip(func(r *http.Request) (*http.Response, error) {
		resp := zzResp(r, strings.NewReader(r.Header.Get("Accept-Language")), -1)
		resp.Header["Vary"] = []string{"Accept", "Accept-Language"}
		return resp, nil
	}))
	if err != nil { t.Fatal(err) }
	for _, l := range []string{"de", "fr"} {
		req := zzGet("GET", "http://a.example/")
		req.Header.Set("Accept-Language", l)
		resp, err := c.Do(req)
		if err != nil { t.Fatal(err) }
		buf, _ := io.ReadAll(resp.Body)
		resp.Body.Close()
		if string(buf) != l { t.Fatal(l, string(buf)) }
	}
}
'''),
dict(id='H06-age-from-store-age-header', property='H06', pkg='antcache',
  edits=[('antcache/aggressive.go', '''		if time.Since(date) < a.lifetime() {
''', '''		if time.Since(date).Round(time.Minute) < a.lifetime() {
''')],
  needs='an age within half a minute of the limit',
  breaks='a response is served after the configured age',
  test=AC+'''
func TestZZDemo(t *testing.T) {
	n := 0
	c, err := New(zzTrip(func(r *http.Request) (*http.Response, error) {
		n++
		resp := zzResp(r, strings.NewReader("x"), -1)
		resp.Header.Set("Date", time.Now().Add(-25*time.Second).UTC().Format(http.TimeFormat))
		return resp, nil
	}), Aggressive(20*time.Second))
	if err != nil { t.Fatal(err) }
	for i := 0; i < 2; i++ {
		resp, err := c.Do(zzGet("GET", "http://a.example/"))
		if err != nil { t.Fatal(err) }
		io.ReadAll(resp.Body)
		resp.Body.Close()
	}
	if n != 2 { t.Fatal(n) }
}
'''),
dict(id='K01-load-buffer-reused', property='K01', pkg='antcache',
  edits=[('antcache/disk.go', '''		if v, err = snappy.Decode(nil, v); err != nil {
''', '''		if v, err = snappy.Decode(d.buf(len(v)), v); err != nil {
'''), ('antcache/disk.go', '''// Add adds the given file to ready.
''', '''// Buf returns a buffer to decode n compressed bytes into.
func (d *Diskstore) buf(n int) []byte {
	if v, ok := d.bufs.Get().([]byte); ok && cap(v) >= n {
		return v[:cap(v)]
	}
	v := make([]byte, 4*n)
	d.bufs.Put(v)
	return v
}

// Add adds the given file to ready.
''') , ('antcache/disk.go', '''	compress bool
}
''', '''	compress bool
	bufs     sync.Pool
}
''')],
  needs='compression, and the bytes of one Load used after another Load',
  breaks='the bytes which a Load returned are overwritten by a later one',
  test=AC+'''
func TestZZDemo(t *testing.T) {
	for try := 0; try < 20; try++ {
		d, err := Open(t.TempDir(), Compress())
		if err != nil { t.Fatal(err) }
		ctx := context.Background()
		for i, s := range []string{"one", "two", "six"} {
			if err := d.Store(ctx, uint64(i), []byte(s)); err != nil { t.Fatal(err) }
		}
		a, _ := d.Load(ctx, 0)
		b, _ := d.Load(ctx, 1)
		c, _ := d.Load(ctx, 2)
		d.Close()
		if string(a) != "one" || string(b) != "two" || string(c) != "six" { t.Fatalf("%s %s %s", a, b, c) }
	}
}
'''),
dict(id='K05-readdir-short', property='K05', pkg='antcache',
  edits=[('antcache/disk.go', '''		names, err := d.dir.Readdirnames(5)
''', '''		names, err := d.dir.Readdirnames(64)
'''), ('antcache/disk.go', '''			found++
		}
	}
''', '''			found++
		}

		if len(names) < 64 {
			break
		}
	}
''')],
  needs='a directory of which the system returns fewer names than asked for before its end',
  breaks='nothing on Linux',
  test='x'),
dict(id='X01-cached-nil', property='X01', pkg='internal/selectors',
  edits=[('internal/selectors/selectors.go', 'XX', 'YY')], needs='', breaks='', test=''),
dict(id='S02-uint-via-int', property='S02', pkg='internal/scan', edits=[('internal/scan/scan.go','XX','YY')], needs='', breaks='', test=''),
dict(id='L01-lowercase-host', property='L01', pkg='.',
  edits=[('limiters.go', '		if u.Host == name {\n', '		if u.Hostname() == name || u.Host == name {\n')],
  needs='a URL with a port', breaks='a URL with another host (host:port) waits', test='x'),
dict(id='C01-closed-target-reused', property='C01', pkg='antcdp', edits=[('antcdp/targets.go','XX','YY')], needs='', breaks='', test=''),
dict(id='Q02-wait-closes', property='Q02', pkg='.',
  edits=[('queue.go', '''	if mq.active -= n; mq.active == 0 {
		mq.idle.Broadcast()
	}
''', '''	if mq.active -= n; mq.active == 0 {
		mq.idle.Signal()
	}
''')],
  needs='two goroutines waiting', breaks='the second Wait never returns',
  test=SRV+'''
func TestZZDemo(t *testing.T) {
	q := MemoryQueue(1)
	ctx := context.Background()
	q.Enqueue(ctx, URLs{zzURL("http://a.example/")})
	done := make(chan bool, 2)
	for i := 0; i < 2; i++ {
		go func() { q.Wait(); done <- true }()
	}
	time.Sleep(50 * time.Millisecond)
	u, _ := q.Dequeue(ctx)
	q.Done(ctx, u)
	for i := 0; i < 2; i++ {
		select {
		case <-done:
		case <-time.After(3 * time.Second):
			t.Fatal("a Wait did not return")
		}
	}
}
'''),
]
SEEDS = [s for s in SEEDS if len(s['test']) > 1]
