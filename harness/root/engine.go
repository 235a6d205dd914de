package ant

import (
	"context"
	"errors"
	"io"
	"net/http"
	"net/url"
	"strings"
	"sync"

	vt "github.com/yields/ant/internal/zzvt"
)

// zzBody is a response body that records how it was used.
type zzBody struct {
	data   string
	off    int
	eof    bool
	closed int
	failAt int // read error after this many bytes, -1 for none
	err    error
}

func (b *zzBody) Read(p []byte) (int, error) {
	if b.closed > 0 {
		return 0, errors.New("read after close")
	}
	if b.failAt >= 0 && b.off >= b.failAt {
		return 0, b.err
	}
	if b.off >= len(b.data) {
		b.eof = true
		return 0, io.EOF
	}
	n := copy(p, b.data[b.off:])
	if b.failAt >= 0 && b.off+n > b.failAt {
		n = b.failAt - b.off
	}
	b.off += n
	return n, nil
}

func (b *zzBody) Close() error { b.closed++; return nil }

func zzNewBody(s string) *zzBody { return &zzBody{data: s, failAt: -1} }

func zzResp(req *http.Request, code int, body io.ReadCloser) *http.Response {
	return &http.Response{StatusCode: code, Header: http.Header{}, Body: body, Request: req, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, ContentLength: -1}
}

// zzClient is a Client made of a function.
type zzClient func(*http.Request) (*http.Response, error)

func (c zzClient) Do(r *http.Request) (*http.Response, error) { return c(r) }

// zzScraper is a Scraper made of a function.
type zzScraper func(context.Context, *Page) (URLs, error)

func (s zzScraper) Scrape(ctx context.Context, p *Page) (URLs, error) { return s(ctx, p) }

func zzMust(raw string) *URL {
	i := strings.Index(raw, "://")
	u := &URL{Scheme: raw[:i]}
	rest := raw[i+3:]
	if j := strings.IndexByte(rest, '#'); j >= 0 {
		u.Fragment = rest[j+1:]
		rest = rest[:j]
	}
	if j := strings.IndexByte(rest, '?'); j >= 0 {
		u.RawQuery = rest[j+1:]
		rest = rest[:j]
	}
	if j := strings.IndexByte(rest, '/'); j >= 0 {
		u.Path = rest[j:]
		rest = rest[:j]
	}
	u.Host = rest
	return u
}

// zzCrawl is one crawl over a link graph that is drawn as it is discovered:
// every scraped page returns links whose host is a symbolic letter, so that
// the solver decides which of them are new.
type zzCrawl struct {
	links    int
	hosts    string
	aliases  bool
	concrete bool // split over the hosts (hashing them symbolically is out of reach)
	nlinks   int
	expect   []string // canonical form of every URL handed to the engine
	fetched  []string
	scraped  []string
	bodies   []*zzBody
	active   int
	peak     int
	reject   bool // the matcher rejects host c
	fault    func(op string, ctx context.Context) error
	limited  []string
}

// link draws a link and its canonical form.
func (c *zzCrawl) link() (*URL, string) {
	c.nlinks++
	b := vt.Byte("host", c.hosts)
	if c.concrete {
		b = byte(vt.Concrete(int64(b)))
	}
	u := &URL{Scheme: "http", Host: string([]byte{b})}
	if c.aliases {
		if vt.Choose("form", 2) == 1 {
			u.Host += ":80"
			u.Path = "/./"
			u.Fragment = "f"
		}
	}
	s := "http://" + string([]byte{b | 0x20}) + "/"
	c.expect = append(c.expect, s)
	return u, s
}

func (c *zzCrawl) enter() {
	c.active++
	if c.active > c.peak {
		c.peak = c.active
	}
}

func (c *zzCrawl) client() zzClient {
	return func(r *http.Request) (*http.Response, error) {
		c.fetched = append(c.fetched, r.URL.String())
		c.enter()
		vt.Yield()
		c.active--
		if c.fault != nil {
			if err := c.fault("fetch", r.Context()); err != nil {
				if ze, ok := err.(*zzErr); ok && ze.status != 0 {
					b := zzNewBody("x")
					c.bodies = append(c.bodies, b)
					return zzResp(r, ze.status, b), nil
				}
				return nil, err
			}
		}
		b := zzNewBody("x")
		c.bodies = append(c.bodies, b)
		return zzResp(r, 200, b), nil
	}
}

func (c *zzCrawl) scraper() zzScraper {
	return func(ctx context.Context, p *Page) (URLs, error) {
		c.scraped = append(c.scraped, p.URL.String())
		c.enter()
		vt.Yield()
		c.active--
		if c.fault != nil {
			if err := c.fault("scrape", ctx); err != nil {
				return nil, err
			}
		}
		var out URLs
		for j := 0; j < c.links; j++ {
			u, _ := c.link()
			out = append(out, u)
		}
		return out, nil
	}
}

func (c *zzCrawl) matcher() Matcher {
	return MatcherFunc(func(u *URL) bool {
		return vt.Not(vt.And(c.reject, vt.EqStr(u.Host, "c")))
	})
}

func zzIn(s string, xs []string) bool {
	ok := false
	for _, x := range xs {
		ok = vt.Or(ok, vt.EqStr(s, x))
	}
	return ok
}

func (c *zzCrawl) config() EngineConfig {
	return EngineConfig{Scraper: c.scraper(), Fetcher: &Fetcher{Client: c.client()}, Impolite: true}
}

// start draws n start URLs.
func (c *zzCrawl) start(n int) []string {
	var out []string
	for i := 0; i < n; i++ {
		u, _ := c.link()
		out = append(out, u.String())
	}
	return out
}

// exactly asserts that the crawl visited what it had to, once.
func (c *zzCrawl) exactly() {
	for i, f := range c.fetched {
		for _, g := range c.fetched[:i] {
			vt.Assert("once", vt.Not(vt.EqStr(f, g)), "a URL was fetched more than once")
		}
		vt.Assert("invented", zzIn(f, c.expect), "a URL was fetched that no scraper returned")
		vt.Assert("unmatched", vt.Not(vt.And(c.reject, vt.EqStr(f, "http://c/"))), "a URL that the matcher rejects was fetched")
		vt.Assert("unscraped", zzIn(f, c.scraped), "a fetched page was not scraped")
	}
	for i, f := range c.scraped {
		for _, g := range c.scraped[:i] {
			vt.Assert("once", vt.Not(vt.EqStr(f, g)), "a URL was scraped more than once")
		}
	}
	for _, e := range c.expect {
		vt.Assert("missed", vt.Or(zzIn(e, c.fetched), vt.And(c.reject, vt.EqStr(e, "http://c/"))), "a reachable URL was not crawled")
	}
}

func (c *zzCrawl) run(cfg EngineConfig, start []string) {
	eng, err := NewEngine(cfg)
	vt.Assert("new", err == nil, "NewEngine failed")
	err = eng.Run(context.Background(), start...)
	vt.Assert("nil", err == nil, "Run returned an error although nothing failed")
	c.exactly()
	if len(c.fetched) >= 2 {
		vt.Reach("several")
	}
	if c.peak > 1 {
		vt.Reach("parallel")
	}
}

// Every link graph over a few hosts in several spellings; one worker.
//
// verif: all delay=0 links=2 nhosts=2
// verif: thorough links=3
func Verif_E01_graphs() {
	vt.Expect("several")
	c := &zzCrawl{links: vt.Param("links", 2), hosts: "abAB", aliases: true}
	c.run(c.config(), c.start(1))
}

// The same with the bloom filter.
//
// verif: all delay=0 links=2
// verif: thorough links=3
func Verif_E01_bloom() {
	vt.Expect("several")
	c := &zzCrawl{links: vt.Param("links", 2), hosts: "abc", concrete: true}
	cfg := c.config()
	cfg.Deduper = DedupeBF(1000, 3)
	c.run(cfg, c.start(1))
}

// Matchers, worker counts and concurrency limits.
//
// verif: quick delay=1 links=1
// verif: thorough delay=1 links=2
func Verif_E01_config() {
	vt.Expect("several", "parallel")
	c := &zzCrawl{links: vt.Param("links", 2), hosts: "abc"}
	cfg := c.config()
	c.reject = vt.Bool("reject")
	cfg.Matcher = c.matcher()
	cfg.Workers = 1 + vt.Choose("workers", 2)
	cfg.Concurrency = vt.Choose("concurrency", 3)
	c.run(cfg, c.start(2))
}

// Every schedule of small crawls with two workers.
//
// verif: quick preempt=1 links=1
// verif: thorough preempt=2 links=1
func Verif_E01_schedules() {
	vt.Expect("parallel")
	c := &zzCrawl{links: vt.Param("links", 1), hosts: "ab"}
	cfg := c.config()
	cfg.Workers = 2
	cfg.Concurrency = vt.Choose("concurrency", 2)
	c.run(cfg, c.start(2))
}

func zzParse(raw string) (*URL, error) { return url.Parse(raw) }

// A scraper that returns the same links for every page: they stay as they
// are, also while other pages are crawled.
//
// verif: quick delay=1 races
// verif: thorough preempt=1 races
func Verif_E01_shared() {
	vt.Expect("ran")
	links := URLs{zzMust("http://X/a?b&a#f"), zzMust("http://b:80/./c"), zzMust("http://d/")}
	var before []URL
	for _, u := range links {
		before = append(before, *u)
	}
	pointers := append(URLs(nil), links...)
	var mu sync.Mutex
	seen := map[string]int{}
	cfg := EngineConfig{
		Impolite: true,
		Workers:  1 + vt.Choose("workers", 2),
		Matcher:  MatcherFunc(func(u *URL) bool { return u.Host != "b" }),
		Scraper: zzScraper(func(ctx context.Context, p *Page) (URLs, error) {
			mu.Lock()
			seen[p.URL.String()]++
			mu.Unlock()
			return links, nil
		}),
		Fetcher: &Fetcher{Client: zzClient(func(r *http.Request) (*http.Response, error) {
			return zzResp(r, 200, zzNewBody("x")), nil
		})},
	}
	eng, err := NewEngine(cfg)
	vt.Assert("new", err == nil, "NewEngine failed")
	err = eng.Run(context.Background(), "http://s/", "http://t/")
	vt.Assert("nil", err == nil, "Run returned an error although nothing failed")
	for i, u := range links {
		vt.Assert("slice", u == pointers[i], "the engine changed the slice that the scraper returned")
		vt.Assert("url", *u == before[i], "the engine changed a URL that the scraper returned")
	}
	for _, s := range []string{"http://s/", "http://t/", "http://x/a?a&b", "http://d/"} {
		vt.Assert("visited", seen[s] == 1, "a URL was not visited exactly once")
	}
	vt.Assert("only", len(seen) == 4, "a URL was visited that no scraper returned or the matcher rejects")
	vt.Reach("ran")
}
