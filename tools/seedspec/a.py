H = 'package ant\n\n'
SEEDS = [
dict(id='E02-robots-error-not-acknowledged', property='E02',
  edits=[('engine.go', '''	defer eng.queue.Done(ctx, url)

	// Check robots.txt.''', '''	// Check robots.txt.'''),
  ('engine.go', '''		if !allowed {
			return nil
		}
	}
''', '''		if !allowed {
			eng.queue.Done(ctx, url)
			return nil
		}
	}

	defer eng.queue.Done(ctx, url)
''')],
  needs='the robots.txt of a host cannot be fetched',
  breaks='a URL whose robots.txt lookup fails is never acknowledged so Wait and Run never return',
  test=H+'''
import ("context";"testing";"time")
type zzC struct{}
func (zzC) Scrape(ctx context.Context, p *Page) (URLs, error) { return nil, nil }
func TestZZDemo(t *testing.T) {
	eng, err := NewEngine(EngineConfig{Scraper: zzC{}})
	if err != nil { t.Fatal(err) }
	done := make(chan error, 1)
	go func() { done <- eng.Run(context.Background(), "http://127.0.0.1:1/a") }()
	select {
	case err := <-done:
		if err == nil { t.Fatal("nil error") }
	case <-time.After(5 * time.Second):
		t.Fatal("Run hangs")
	}
}
'''),
dict(id='E03-swallow-eof', property='E03',
  edits=[('engine.go', '''	urls, err := eng.scraper.Scrape(ctx, page)
	if err != nil {''', '''	urls, err := eng.scraper.Scrape(ctx, page)
	if errors.Is(err, io.EOF) && len(urls) == 0 {
		return nil, nil
	}
	if err != nil {''')],
  needs='a scraper error that wraps io.EOF, for example a truncated body',
  breaks='a scraper failure wrapping io.EOF is swallowed and Run returns nil',
  test=H+'''
import ("context";"testing";"net/http";"net/http/httptest";"io";"fmt")
type zzS struct{}
func (zzS) Scrape(ctx context.Context, p *Page) (URLs, error) { return nil, fmt.Errorf("decode - %w", io.EOF) }
func TestZZDemo(t *testing.T) {
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { io.WriteString(w, "x") }))
	defer srv.Close()
	eng, err := NewEngine(EngineConfig{Scraper: zzS{}, Impolite: true})
	if err != nil { t.Fatal(err) }
	if err := eng.Run(context.Background(), srv.URL); err == nil { t.Fatal("the scrape error is lost") }
}
'''),
dict(id='E04-release-before-scrape', property='E04',
  edits=[('engine.go', '''	// Potential limits.
	if err := eng.limit(ctx, url); err != nil {
		return err
	}

	// Scrape''', '''	// Potential limits.
	//
	// Waiting does not use any resources, give the permit
	// to other URLs meanwhile.
	if eng.sema != nil {
		eng.sema.Release(1)
	}
	lerr := eng.limit(ctx, url)
	if eng.sema != nil && !eng.sema.TryAcquire(1) {
		eng.sema.Acquire(context.Background(), 1)
	}
	if lerr != nil {
		return lerr
	}

	// Scrape''')],
  needs='a limiter that blocks while other URLs are queued',
  breaks='a URL waiting in the limiter gives its permit away, more than Concurrency URLs are in progress',
  test=H+'''
import ("context";"testing";"net/http";"net/http/httptest";"io";"sync";"time")
type zzD struct{}
func (zzD) Scrape(ctx context.Context, p *Page) (URLs, error) { return nil, nil }
func TestZZDemo(t *testing.T) {
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { io.WriteString(w, "x") }))
	defer srv.Close()
	var mu sync.Mutex
	var cur, max int
	lim := LimiterFunc(func(ctx context.Context, u *URL) error {
		mu.Lock(); cur++; if cur > max { max = cur }; mu.Unlock()
		time.Sleep(50 * time.Millisecond)
		mu.Lock(); cur--; mu.Unlock()
		return nil
	})
	eng, err := NewEngine(EngineConfig{Scraper: zzD{}, Impolite: true, Concurrency: 1, Workers: 2, Limiter: lim})
	if err != nil { t.Fatal(err) }
	if err := eng.Run(context.Background(), srv.URL+"/1", srv.URL+"/2", srv.URL+"/3", srv.URL+"/4"); err != nil { t.Fatal(err) }
	if max > 1 { t.Fatal("in progress at once:", max) }
}
'''),
dict(id='E05-delay-skipped-with-limiter', property='E05',
  edits=[('engine.go', '''	if eng.impolite {
		return nil
	}

	err := eng.robots.Wait(''', '''	if eng.impolite || eng.limiter != nil {
		return nil
	}

	err := eng.robots.Wait(''')],
  needs='a configured limiter together with a robots.txt crawl delay',
  breaks='the crawl delay of robots.txt is skipped when a limiter is configured',
  test=H+'''
import ("context";"testing";"net/http";"net/http/httptest";"io";"time")
type zzE struct{}
func (zzE) Scrape(ctx context.Context, p *Page) (URLs, error) { return nil, nil }
func TestZZDemo(t *testing.T) {
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		if r.URL.Path == "/robots.txt" { io.WriteString(w, "User-agent: *\\nCrawl-delay: 1\\n") }
	}))
	defer srv.Close()
	eng, err := NewEngine(EngineConfig{Scraper: zzE{}, Limiter: Limit(1000)})
	if err != nil { t.Fatal(err) }
	start := time.Now()
	if err := eng.Run(context.Background(), srv.URL+"/1"); err != nil { t.Fatal(err) }
	if time.Since(start) < 900*time.Millisecond { t.Fatal("no delay") }
}
'''),
dict(id='E06-rejected-recorded', property='E06',
  edits=[('engine.go', '''			if eng.matcher.Match(u) {
				ret = append(ret, u)
			}
''', '''			if eng.matcher.Match(u) {
				ret = append(ret, u)
				continue
			}
			// There is no need to look at it again.
			eng.deduper.Dedupe(context.Background(), URLs{u})
''')],
  needs='a matcher that rejects a URL and a de-duplicator shared with another engine (or a matcher that changes its mind)',
  breaks='URLs the matcher rejects are recorded as visited',
  test=H+'''
import ("context";"testing")
type zzQ struct{ Queue; n int }
func (q *zzQ) Enqueue(ctx context.Context, u URLs) error { q.n += len(u); return nil }
type zzF struct{}
func (zzF) Scrape(ctx context.Context, p *Page) (URLs, error) { return nil, nil }
func TestZZDemo(t *testing.T) {
	q := &zzQ{}
	d := DedupeMap()
	for _, h := range []string{"b.com", "a.com"} {
		eng, err := NewEngine(EngineConfig{Scraper: zzF{}, Queue: q, Deduper: d, Matcher: MatchHostname(h)})
		if err != nil { t.Fatal(err) }
		if err := eng.Enqueue(context.Background(), "http://a.com/a"); err != nil { t.Fatal(err) }
	}
	if q.n != 1 { t.Fatal("queued", q.n) }
}
'''),
dict(id='Q01-signal-one', property='Q01',
  edits=[('queue.go', '''	mq.active += len(urls)
	mq.cond.Broadcast()
''', '''	mq.active += len(urls)
	mq.cond.Signal()
''')],
  needs='two consumers blocked in Dequeue when a batch of two URLs arrives',
  breaks='only one blocked consumer is woken for a whole batch, the other stays asleep although URLs are pending',
  test=H+'''
import ("context";"testing";"time")
func TestZZDemo(t *testing.T) {
	q := MemoryQueue(2)
	got := make(chan *URL, 2)
	for i := 0; i < 2; i++ { go func() { u, _ := q.Dequeue(context.Background()); got <- u }() }
	time.Sleep(100 * time.Millisecond)
	q.Enqueue(context.Background(), URLs{{Path: "a"}, {Path: "b"}})
	for i := 0; i < 2; i++ {
		select {
		case <-got:
		case <-time.After(2 * time.Second): t.Fatal("a consumer is stranded")
		}
	}
}
'''),
dict(id='Q02-dequeue-cancelled-late', property='Q02',
  edits=[('queue.go', '''	if ctx.Err() != nil {
		return ctx.Err()
	}

	mq.pending = append(mq.pending, urls...)
	mq.active += len(urls)
''', '''	mq.active += len(urls)

	if ctx.Err() != nil {
		return ctx.Err()
	}

	mq.pending = append(mq.pending, urls...)
''')],
  needs='Enqueue with a cancelled context followed by Wait',
  breaks='a cancelled Enqueue is counted as outstanding although nothing was queued, so Wait never returns',
  test=H+'''
import ("context";"testing";"time")
func TestZZDemo(t *testing.T) {
	q := MemoryQueue(2)
	ctx, cancel := context.WithCancel(context.Background())
	cancel()
	if err := q.Enqueue(ctx, URLs{{Path: "a"}}); err == nil { t.Fatal("no error") }
	done := make(chan bool)
	go func() { q.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(2 * time.Second): t.Fatal("Wait hangs")
	}
}
'''),
dict(id='D01-load-then-store', property='D01', race=False,
  edits=[('dedupe.go', '''		if _, exists := d.m.LoadOrStore(u.String(), nil); !exists {
			ret = append(ret, u)
		}''', '''		key := u.String()
		if _, exists := d.m.Load(key); !exists {
			d.m.Store(key, nil)
			ret = append(ret, u)
		}''')],
  needs='two Dedupe calls with the same URL at the same time',
  breaks='two concurrent calls may both return the same new URL',
  test=H+'''
import ("context";"testing";"sync";"sync/atomic";"net/url";"fmt")
func TestZZDemo(t *testing.T) {
	for i := 0; i < 200; i++ {
		d := DedupeMap()
		var urls URLs
		for j := 0; j < 200; j++ { u, _ := url.Parse(fmt.Sprintf("http://h/%d", j)); urls = append(urls, u) }
		var n int64
		var wg sync.WaitGroup
		start := make(chan bool)
		for g := 0; g < 4; g++ {
			wg.Add(1)
			go func() { defer wg.Done(); <-start; r, _ := d.Dedupe(context.Background(), urls); atomic.AddInt64(&n, int64(len(r))) }()
		}
		close(start)
		wg.Wait()
		if n != 200 { t.Fatal("returned", n) }
	}
}
'''),
dict(id='N01-upper-host-with-port', property='N01', pkg='internal/normalize',
  edits=[('internal/normalize/url.go', '''	sort.Strings(parts)
''', '''	sort.SliceStable(parts, func(i, j int) bool {
			return key(parts[i]) < key(parts[j])
		})
''') if False else ('internal/normalize/url.go', '''		parts := strings.Split(query, "&")
		sort.Strings(parts)
''', '''		parts := strings.Split(query, "&")
		sort.SliceStable(parts, func(i, j int) bool {
			a, _, _ := strings.Cut(parts[i], "=")
			b, _, _ := strings.Cut(parts[j], "=")
			return a < b
		})
''')],
  needs='a query with the same parameter name twice in different value order',
  breaks='query parameters are ordered by name only, so the order of repeated parameters leaks into the result',
  test='''package normalize

import "testing"
func TestZZDemo(t *testing.T) {
	a, _ := RawURL("http://h/?k=2&k=1")
	b, _ := RawURL("http://h/?k=1&k=2")
	if a != b { t.Fatal(a, b) }
}
'''),
dict(id='N02-dedupe-params', property='N02', pkg='internal/normalize',
  edits=[('internal/normalize/url.go', '''		sort.Strings(parts)
		return strings.Join(parts, "&")''', '''		sort.Strings(parts)
		parts = slices.Compact(parts)
		return strings.Join(parts, "&")'''),
   ('internal/normalize/url.go', '''	"path"
''', '''	"path"
	"slices"
''')],
  needs='a query that repeats an identical parameter',
  breaks='repeated query parameters are collapsed, so ?a=1&a=1 and ?a=1 become the same URL',
  test='''package normalize

import "testing"
func TestZZDemo(t *testing.T) {
	a, _ := RawURL("http://h/?a=1&b=2&a=1")
	b, _ := RawURL("http://h/?a=1&b=2")
	if a == b { t.Fatal(a, b) }
}
'''),
dict(id='F01-redirect-405', property='F01',
  edits=[('fetcher.go', '''		if err, ok := err.(*FetchError); ok {
			if err.Status == 404 {''', '''		if err, ok := err.(*FetchError); ok {
			if err.Status == 404 || (err.Status == 410 && attempt > 1) {''')],
  needs='a temporary failure followed by a 410 answer',
  breaks='410 after a retry is treated like 404, the error is lost',
  test=H+'''
import ("context";"testing";"net/http";"net/http/httptest")
func TestZZDemo(t *testing.T) {
	n := 0
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		n++
		if n == 1 { w.WriteHeader(503) } else { w.WriteHeader(410) }
	}))
	defer srv.Close()
	if _, err := Fetch(context.Background(), srv.URL); err == nil { t.Fatal("no error") }
}
'''),
dict(id='F02-backoff-resets', property='F02',
  edits=[('fetcher.go', '''	var factor = time.Duration(attempt * attempt)
''', '''	var factor = time.Duration(attempt*attempt) & 0xff
''')],
  needs='sixteen attempts or more',
  breaks='the backoff factor wraps at 256 so the waits shrink (or divide by zero) on attempt 16',
  test=H+'''
import ("context";"testing";"net/http";"net/http/httptest";"time")
func TestZZDemo(t *testing.T) {
	var at []time.Time
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { at = append(at, time.Now()); w.WriteHeader(503) }))
	defer srv.Close()
	f := &Fetcher{MaxAttempts: 19, MinBackoff: time.Millisecond, MaxBackoff: 40 * time.Millisecond}
	u := mustZZ(srv.URL)
	f.Fetch(context.Background(), u)
	for i := 10; i+1 < len(at); i++ { if at[i+1].Sub(at[i]) < 38*time.Millisecond { t.Fatal("wait shrinks", i, at[i+1].Sub(at[i])) } }
}
func mustZZ(s string) *URL { r, _ := http.NewRequest("GET", s, nil); return r.URL }
'''),
dict(id='F03-notfound-leaks', property='F03',
  edits=[('fetcher.go', '''		f.discard(resp)
		if isTemporary(err) {
			if err''', '''		if isTemporary(err) {
			f.discard(resp)
			if err'''),
   ('fetcher.go', '''			if err.Status == 404 {
				return nil, nil
			}
		}

		return nil, err''', '''			if err.Status == 404 {
				f.discard(resp)
				return nil, nil
			}
			f.discard(resp)
		}

		return nil, err''')],
  needs='a client that returns both a response and a non-temporary error',
  breaks='the body of a response returned along with a client error is neither drained nor closed',
  test=H+'''
import ("context";"testing";"net/http";"errors";"io";"strings")
type zzB struct{ io.Reader; closed bool }
func (b *zzB) Close() error { b.closed = true; return nil }
type zzCl struct{ b *zzB }
func (c zzCl) Do(r *http.Request) (*http.Response, error) { return &http.Response{Body: c.b, Request: r}, errors.New("redirect refused") }
func TestZZDemo(t *testing.T) {
	b := &zzB{Reader: strings.NewReader("x")}
	r, _ := http.NewRequest("GET", "http://h/", nil)
	_, err := (&Fetcher{Client: zzCl{b}}).Fetch(context.Background(), r.URL)
	if err == nil { t.Fatal("no error") }
	if !b.closed { t.Fatal("the body leaks") }
}
'''),
dict(id='L01-escaped-path', property='L01',
  edits=[('limiters.go', '''		if match.Match(u.Host+u.Path, pattern) {''', '''		if match.Match(u.Host+u.RequestURI(), pattern) {''')],
  needs='a URL with a query and a pattern that does not end in a star',
  breaks='the pattern limiter looks at the query string, so a covered URL with a query is not limited',
  test=H+'''
import ("context";"testing";"net/http")
func TestZZDemo(t *testing.T) {
	l := LimitPattern(1, "h.com/a")
	ctx, cancel := context.WithCancel(context.Background())
	cancel()
	r, _ := http.NewRequest("GET", "http://h.com/a?x=1", nil)
	if err := l.Limit(ctx, r.URL); err == nil { t.Fatal("not limited") }
}
'''),
dict(id='L02-at-negative', property='L02',
  edits=[('list.go', '''	if i = len(l) + i; i >= 0 {
		if len(l) > i {
			return List{l[i]}
		}
	}
''', '''	if i = len(l) - (-i % (len(l) + 1)); i >= 0 {
		if len(l) > i {
			return List{l[i]}
		}
	}
''')],
  needs='a negative index below minus the length',
  breaks='a negative index out of range wraps around and returns a node',
  test=H+'''
import ("testing";"golang.org/x/net/html")
func TestZZDemo(t *testing.T) {
	l := List{&html.Node{}, &html.Node{}}
	if n := len(l.At(-4)); n != 0 { t.Fatal(n) }
}
'''),
dict(id='M01-rawpath', property='M01',
  edits=[('matchers.go', '''		return match.Match(url.Host+normalizePath(url.Path), pattern)''', '''		return match.Match(url.Host+normalizePath(url.EscapedPath()), pattern)''')],
  needs='a path with characters that are percent-encoded in a URL',
  breaks='the pattern is matched against the escaped path',
  test=H+'''
import ("testing";"net/url")
func TestZZDemo(t *testing.T) {
	u, _ := url.Parse("http://h.com/a%20b")
	if !MatchPattern("h.com/a b").Match(u) { t.Fatal("no match") }
}
'''),
dict(id='P01-scheme-relative', property='P01',
  edits=[('page.go', '''			if !u.IsAbs() {
				u = p.URL.ResolveReference(u)
			}''', '''			if u.Host == "" {
				u = p.URL.ResolveReference(u)
			}''')],
  needs='a scheme relative href such as //cdn.example.com/x',
  breaks='scheme relative links are dropped instead of being resolved',
  test=H+'''
import ("testing";"io";"strings";"net/url")
func TestZZDemo(t *testing.T) {
	u, _ := url.Parse("http://h.com/")
	p := &Page{URL: u, body: io.NopCloser(strings.NewReader(`<a href="//o.com/x">x</a>`))}
	if l := p.URLs(); len(l) != 1 || l[0].String() != "http://o.com/x" { t.Fatal(l) }
}
'''),
dict(id='P02-once-not-shared', property='P02',
  edits=[('page.go', '''		if p.root, p.err = html.Parse(p.body); p.err != nil {
			p.err = fmt.Errorf("ant: parse html %q - %w", p.URL, p.err)
		}
		p.close()
''', '''		if p.root, p.err = html.Parse(p.body); p.err != nil {
			p.err = fmt.Errorf("ant: parse html %q - %w", p.URL, p.err)
			return
		}
		p.close()
''')],
  needs='a body whose read fails while parsing',
  breaks='the body is not closed when parsing fails',
  test=H+'''
import ("testing";"errors";"net/url")
type zzR struct{ closed bool }
func (r *zzR) Read(b []byte) (int, error) { return 0, errors.New("reset") }
func (r *zzR) Close() error { r.closed = true; return nil }
func TestZZDemo(t *testing.T) {
	r := &zzR{}
	p := &Page{URL: &url.URL{}, body: r}
	if _, err := p.Document(); err == nil { t.Fatal("no error") }
	if !r.closed { t.Fatal("not closed") }
}
'''),
dict(id='S01-slice-append', property='S01', pkg='internal/scan',
  edits=[('internal/scan/slice.go', '''	dst.Set(slice)
	return nil''', '''	if dst.Cap() > len(nodes) {
		dst.SetLen(len(nodes))
		reflect.Copy(dst, slice)
		return nil
	}

	dst.Set(slice)
	return nil''')],
  needs='scanning into a struct whose slice field already has a larger capacity shared with other data',
  breaks='the scanner overwrites the backing array of a slice that the destination shares with other values',
  test='''package scan

import ("testing")
func TestZZDemo(t *testing.T) {
	var dst struct { A []string `css:"i"` }
	shared := []string{"x", "y", "z"}
	dst.A = shared[:1]
	s := NewScanner()
	if err := s.Scan(&dst, parse(t, "<i>1</i><i>2</i>"), Options{}); err != nil { t.Fatal(err) }
	if shared[0] != "x" || shared[1] != "y" { t.Fatal("shared data overwritten", shared) }
}
'''),
dict(id='S02-base-zero', property='S02', pkg='internal/scan',
  edits=[('internal/scan/scan.go', '''		x, _ := strconv.ParseInt(str, 10, 64)''', '''		x, _ := strconv.ParseInt(str, 0, 64)''')],
  needs='a number with a leading zero',
  breaks='"010" scans as 8 into an int field',
  test='''package scan

import ("testing")
func TestZZDemo(t *testing.T) {
	var dst struct { A int `css:"i"` }
	if err := NewScanner().Scan(&dst, parse(t, "<i>010</i>"), Options{}); err != nil { t.Fatal(err) }
	if dst.A != 10 { t.Fatal(dst.A) }
}
'''),
dict(id='J01-unlocked', property='J01', race=True,
  edits=[('json.go', '''	j.lock.Lock()
	defer j.lock.Unlock()
	return j.enc.Encode(v)''', '''	j.lock.Lock()
	enc := j.enc
	j.lock.Unlock()
	return enc.Encode(v)''')],
  needs='two scrapes at the same time',
  breaks='the encoder is used outside the lock, lines may be lost or interleaved',
  test=H+'''
import ("testing";"context";"io";"strings";"net/url";"sync";"bytes")
type zzW struct{ n int; b bytes.Buffer }
func (w *zzW) Write(p []byte) (int, error) { w.n++; return w.b.Write(p) }
func TestZZDemo(t *testing.T) {
	type item struct { T string `css:"i"` }
	w := &zzW{}
	s := JSON(w, item{})
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() { defer wg.Done(); s.Scrape(context.Background(), &Page{URL: &url.URL{}, body: io.NopCloser(strings.NewReader("<i>x</i>"))}) }()
	}
	wg.Wait()
	if w.n != 8 { t.Fatal(w.n) }
}
'''),
dict(id='X01-trimmed-key', property='X01', pkg='internal/selectors',
  edits=[('internal/selectors/selectors.go', '''	if s, ok := c.m.Load(selector); ok {''', '''	key := strings.ToLower(selector)
	if s, ok := c.m.Load(key); ok {'''),
   ('internal/selectors/selectors.go', '''	c.m.Store(selector, v)''', '''	c.m.Store(key, v)'''),
   ('internal/selectors/selectors.go', '''	"sync"
''', '''	"strings"
	"sync"
''')],
  needs='two selectors that differ by letter case only, such as .a and .A',
  breaks='the cache key ignores letter case, .A gets the selector of .a',
  test='''package selectors

import ("testing";"golang.org/x/net/html";"strings")
func TestZZDemo(t *testing.T) {
	n, _ := html.Parse(strings.NewReader(`<i class="A"></i>`))
	c := NewCache()
	c.Compile(".a")
	s, err := c.Compile(".A")
	if err != nil { t.Fatal(err) }
	if len(s.MatchAll(n)) != 1 { t.Fatal("wrong selector") }
}
'''),
dict(id='R01-hostname-key', property='R01', pkg='internal/robots',
  edits=[('internal/robots/cache.go', '''	if v, ok := c.lru.Get(url.Host); ok {''', '''	if v, ok := c.lru.Get(url.Hostname()); ok {'''),
   ('internal/robots/cache.go', '''		s := &Host{}
		c.lru.Set(url.Host, s)''', '''		s := &Host{}
		c.lru.Set(url.Hostname(), s)'''),
   ('internal/robots/cache.go', '''	s := &Host{data: data}
	c.lru.Set(url.Host, s)''', '''	s := &Host{data: data}
	c.lru.Set(url.Hostname(), s)''')],
  needs='two servers on one host name with different ports',
  breaks='the robots.txt of one port decides for the other',
  test='''package robots

import ("testing";"context";"net/http";"net/http/httptest";"io";"net/url")
func TestZZDemo(t *testing.T) {
	mk := func(s string) *url.URL {
		srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { io.WriteString(w, s) }))
		u, _ := url.Parse(srv.URL + "/a")
		return u
	}
	c := NewCache(http.DefaultClient, 10)
	a, b := mk("User-agent: *\\nDisallow: /a\\n"), mk("User-agent: *\\nDisallow:\\n")
	if ok, err := c.Allowed(context.Background(), Request{URL: a}); ok || err != nil { t.Fatal(ok, err) }
	if ok, err := c.Allowed(context.Background(), Request{URL: b}); !ok || err != nil { t.Fatal(ok, err) }
}
'''),
dict(id='R02-cap-delay', property='R02', pkg='internal/robots',
  edits=[('internal/robots/cache.go', '''		if d := g.CrawlDelay; d > 0 {
			t := time.NewTimer(d)''', '''		if d := g.CrawlDelay; d > 0 {
			t := time.NewTimer(d % time.Minute)''')],
  needs='a crawl delay of a minute or more',
  breaks='the delay is cut to its seconds part, a 60s delay is not waited at all',
  test='''package robots

import ("testing";"context";"net/http";"net/http/httptest";"io";"net/url";"time")
func TestZZDemo(t *testing.T) {
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { io.WriteString(w, "User-agent: *\\nCrawl-delay: 60\\n") }))
	u, _ := url.Parse(srv.URL + "/a")
	c := NewCache(http.DefaultClient, 10)
	ctx, cancel := context.WithTimeout(context.Background(), 500*time.Millisecond)
	defer cancel()
	if err := c.Wait(ctx, Request{URL: u}); err == nil { t.Fatal("no wait") }
}
'''),
]
