package ant

import (
	"context"
	"errors"
	"net/http"
	"net/url"
	"strings"
	"time"

	"github.com/yields/ant/internal/normalize"
	_ "github.com/yields/ant/internal/zzvhttp"
	vt "github.com/yields/ant/internal/zzvt"
)

// zzQueue is a queue that can be replaced between crawls.
type zzQueue struct {
	Queue
}

// zzSpan tracks which URLs are being processed: from the first thing done for
// them to the last.
type zzSpan struct {
	active int
	peak   int
}

func (s *zzSpan) begin() {
	s.active++
	if s.active > s.peak {
		s.peak = s.active
	}
}

func (s *zzSpan) end() { s.active-- }

// At most Concurrency URLs are processed at once.
//
// verif: all urls=3
// verif: quick delay=2
// verif: thorough delay=4
func Verif_E04_limit() {
	vt.Expect("full", "failed", "fine")
	n := 1 + vt.Choose("n", 2)
	s := &zzSpan{}
	f := &zzFaults{budget: 1}
	op := func(name string, ctx context.Context) error {
		vt.Yield()
		err := f.fault(name, ctx)
		if err != nil {
			s.end()
		}
		return err
	}
	cfg := EngineConfig{Impolite: true, Workers: 1 + vt.Choose("workers", 2), Concurrency: n}
	cfg.Limiter = LimiterFunc(func(ctx context.Context, u *URL) error {
		s.begin()
		return op("limit", ctx)
	})
	cfg.Fetcher = &Fetcher{Client: zzClient(func(r *http.Request) (*http.Response, error) {
		if err := op("fetch", r.Context()); err != nil {
			return nil, err
		}
		return zzResp(r, 200, zzNewBody("")), nil
	})}
	cfg.Scraper = zzScraper(func(ctx context.Context, p *Page) (URLs, error) {
		if err := op("scrape", ctx); err != nil {
			return nil, err
		}
		s.end()
		return nil, nil
	})
	eng, err := NewEngine(cfg)
	vt.Assert("new", err == nil, "NewEngine failed")
	urls := []string{"http://a/", "http://b/", "http://c/"}
	err = eng.Run(context.Background(), urls[:vt.Param("urls", 3)]...)
	vt.Assert("limit", s.peak <= n, "more URLs are processed at once than Concurrency")
	if s.peak == n {
		vt.Reach("full")
	}
	if err != nil {
		vt.Reach("failed")
	} else {
		vt.Reach("fine")
	}
}

// No limit without Concurrency: everything queued can be in flight.
//
// verif: all delay=0
// verif: thorough delay=1
func Verif_E04_unlimited() {
	n := vt.Choose("n", 2)
	active, sum := 0, 0
	cfg := EngineConfig{Impolite: true, Workers: 1 + vt.Choose("workers", 2), Concurrency: 0}
	if n == 1 {
		cfg.Concurrency = -int(vt.Int64("neg", 1, 3))
	}
	cfg.Fetcher = &Fetcher{Client: zzClient(func(r *http.Request) (*http.Response, error) {
		active++
		vt.WaitUntil(func() bool { return active >= 3 })
		return zzResp(r, 200, zzNewBody("")), nil
	})}
	cfg.Scraper = zzScraper(func(ctx context.Context, p *Page) (URLs, error) {
		sum++
		return nil, nil
	})
	eng, err := NewEngine(cfg)
	vt.Assert("new", err == nil, "NewEngine failed")
	err = eng.Run(context.Background(), "http://a/", "http://b/", "http://c/")
	vt.Assert("all", err == nil && sum == 3, "not all URLs were processed")
}

// Permits come back on every path: after a first crawl, whatever happened in
// it, a second crawl of the same engine runs with exactly Concurrency URLs at
// once.
//
// verif: all delay=1
// verif: thorough delay=2
func Verif_E04_permits() {
	vt.Expect("error", "notfound", "disallowed", "canceled", "fine")
	n := 1 + vt.Choose("n", 2)
	what := vt.Pick("what", "fine", "error", "notfound", "disallowed", "canceled", "scrape", "limit")
	second := false
	active, peak, started := 0, 0, 0
	q := &zzQueue{MemoryQueue(1)}
	ctx, cancel := context.WithCancel(context.Background())
	DefaultClient = &http.Client{Transport: zzTransport(func(r *http.Request) (*http.Response, error) {
		return zzResp(r, 200, zzNewBody("User-agent: *\nDisallow: /no\n")), nil
	})}
	cfg := EngineConfig{Workers: 1 + vt.Choose("workers", 2), Concurrency: n, Queue: q}
	cfg.Limiter = LimiterFunc(func(ctx context.Context, u *URL) error {
		if !second && what == "limit" {
			return errors.New("limit")
		}
		return nil
	})
	cfg.Fetcher = &Fetcher{Client: zzClient(func(r *http.Request) (*http.Response, error) {
		if second {
			started++
			active++
			if active > peak {
				peak = active
			}
			vt.WaitUntil(func() bool { return started >= n })
			vt.Yield()
			active--
			return zzResp(r, 200, zzNewBody("")), nil
		}
		switch what {
		case "canceled":
			cancel()
			vt.Quiesce()
		case "error":
			return nil, errors.New("fetch")
		case "notfound":
			return zzResp(r, 404, zzNewBody("")), nil
		}
		return zzResp(r, 200, zzNewBody("")), nil
	})}
	cfg.Scraper = zzScraper(func(ctx context.Context, p *Page) (URLs, error) {
		if !second && what == "scrape" {
			return nil, errors.New("scrape")
		}
		return nil, nil
	})
	eng, err := NewEngine(cfg)
	vt.Assert("new", err == nil, "NewEngine failed")
	if what == "disallowed" {
		err = eng.Run(ctx, "http://a/no", "http://a/no2", "http://a/no3")
	} else {
		err = eng.Run(ctx, "http://a/x", "http://a/y", "http://a/z")
	}
	vt.Quiesce()
	vt.Reach(what)
	second = true
	q.Queue = MemoryQueue(1)
	err = eng.Run(context.Background(), "http://a/1", "http://a/2", "http://a/3")
	vt.Assert("second", err == nil && started == 3, "the second crawl failed")
	vt.Assert("peak", peak == n, "the second crawl did not run with Concurrency URLs at once")
}

// zzTransport is a transport made of a function.
type zzTransport func(r *http.Request) (*http.Response, error)

func (t zzTransport) RoundTrip(r *http.Request) (*http.Response, error) { return t(r) }

// robots.txt files and what they mean for the paths /x... and others
var zzRobots = []struct {
	text  string
	code  int
	denyX bool
	deny  bool
	delay time.Duration
}{
	{"", 200, false, false, 0},
	{"User-agent: *\nDisallow: /x\n", 200, true, false, 0},
	{"User-agent: *\nDisallow:\nCrawl-delay: 2\n", 200, false, false, 2 * time.Second},
	{"User-agent: *\nDisallow: /\n\nUser-agent: antbot\nDisallow: /x\nCrawl-delay: 1\n", 200, true, false, time.Second},
	{"User-agent: *\nDisallow: /\n", 200, true, true, 0},
	{"gone", 404, false, false, 0},
	{"", 503, false, false, 0},
}

// Every kind of URL is subject to robots.txt, at the start and when discovered.
//
// verif: all delay=1
func Verif_E05_urls() {
	vt.Expect("denied", "allowed", "discovered")
	raw := []string{"/", "", "/?q=1", "/x", "/x/y.html", "/x?q=1", "/robots.txt", "/index.html", "//", "/x/../", "/%78"}[vt.Choose("path", 11)]
	base := []string{"http://h", "https://h", "http://h:8080", "http://u:p@h"}[vt.Choose("base", 4)]
	deny := vt.Choose("deny", 2) == 1
	discovered := vt.Choose("discovered", 2) == 1
	var fetched, limited, robots []string
	DefaultClient = &http.Client{Transport: zzTransport(func(r *http.Request) (*http.Response, error) {
		robots = append(robots, r.URL.String())
		text := "User-agent: *\nAllow: /\n\nUser-agent: antbot\nDisallow: /\n"
		if !deny || r.URL.Host == "start" {
			text = "User-agent: *\nDisallow: /\n\nUser-agent: antbot\nAllow: /\n"
		}
		return zzResp(r, 200, zzNewBody(text)), nil
	})}
	target, err := zzParse(base + raw)
	vt.Assert("parse", err == nil, "a URL does not parse")
	host := target.Host
	cfg := EngineConfig{Workers: 1 + vt.Choose("workers", 2)}
	cfg.Limiter = LimiterFunc(func(ctx context.Context, u *URL) error {
		if u.Host == host {
			limited = append(limited, u.String())
		}
		return nil
	})
	// pages are asked for with another user agent
	cfg.Fetcher = &Fetcher{UserAgent: StaticAgent("mozilla"), Client: zzClient(func(r *http.Request) (*http.Response, error) {
		if r.URL.Host == host {
			fetched = append(fetched, r.URL.String())
		}
		return zzResp(r, 200, zzNewBody("")), nil
	})}
	cfg.Scraper = zzScraper(func(ctx context.Context, p *Page) (URLs, error) {
		if p.URL.Host == "start" {
			return URLs{target}, nil
		}
		return nil, nil
	})
	eng, err := NewEngine(cfg)
	vt.Assert("new", err == nil, "NewEngine failed")
	start := target.String()
	if discovered {
		vt.Reach("discovered")
		start = "http://start/"
	}
	vt.Assert("run", eng.Run(context.Background(), start) == nil, "Run failed although nothing did")
	asked := false
	for _, r := range robots {
		asked = asked || r == target.Scheme+"://"+host+"/robots.txt"
	}
	vt.Assert("asked", asked, "the robots.txt of the URL's host was not asked for")
	if deny {
		vt.Reach("denied")
		vt.Assert("fetch-denied", len(fetched) == 0 && len(limited) == 0, "a disallowed URL was limited or fetched")
	} else {
		vt.Reach("allowed")
		vt.Assert("fetch-allowed", len(fetched) == 1 && len(limited) == 1, "an allowed URL was not limited and fetched once")
	}
}

// robots.txt, limiter, crawl delay, fetch: in this order and never skipped.
//
// verif: all delay=2 urls=2
// verif: thorough delay=2 urls=3
func Verif_E05_gates() {
	vt.Expect("fetched", "disallowed", "delayed", "limit-failed", "impolite", "robots-failed", "delay-canceled")
	rb := zzRobots[vt.Choose("robots", len(zzRobots))]
	impolite := vt.Choose("impolite", 2) == 1
	robotsFails := vt.Bool("robots-fails")
	limitFails := vt.Bool("limit-fails")
	cancelIn := vt.Choose("cancel-in-delay", 2) == 1
	ctx, cancel := context.WithCancel(context.Background())
	robots := 0
	var limited, fetched, scraped []string
	var when []int64
	DefaultClient = &http.Client{Transport: zzTransport(func(r *http.Request) (*http.Response, error) {
		vt.Assert("robots-url", r.URL.String() == "http://h/robots.txt", "robots.txt was requested from another place")
		vt.Assert("impolite", !impolite, "robots.txt was requested although the engine is impolite")
		if robotsFails {
			return nil, errors.New("robots")
		}
		vt.Yield()
		robots++
		return zzResp(r, rb.code, zzNewBody(rb.text)), nil
	})}
	denied := func(u *URL) bool {
		return vt.And(!impolite, vt.Or(rb.deny, vt.And(rb.denyX, vt.EqStr(u.Path[:2], "/x"))))
	}
	cfg := EngineConfig{Impolite: impolite, Workers: 1}
	cfg.Limiter = LimiterFunc(func(ctx context.Context, u *URL) error {
		vt.Assert("limit-before-robots", impolite || robots > 0, "the limiter was asked before robots.txt")
		vt.Assert("limit-denied", vt.Not(denied(u)), "a disallowed URL was limited")
		limited = append(limited, u.String())
		when = append(when, vt.Now())
		if limitFails {
			return vt.Error("limit-error", errors.New("limit"), context.Canceled)
		}
		if cancelIn {
			vt.Go(func() {
				time.Sleep(time.Millisecond)
				cancel()
			})
		}
		return nil
	})
	cfg.Fetcher = &Fetcher{Client: zzClient(func(r *http.Request) (*http.Response, error) {
		s := r.URL.String()
		vt.Assert("fetch-before-robots", impolite || robots > 0, "a page was fetched before robots.txt")
		vt.Assert("fetch-denied", vt.Not(denied(r.URL)), "a disallowed URL was fetched")
		vt.Assert("fetch-before-limit", zzIn(s, limited), "a page was fetched before the limiter admitted it")
		vt.Assert("fetch-limit-failed", !limitFails, "a page was fetched although the limiter failed")
		if !impolite {
			last := int64(0)
			for i, l := range limited {
				if vt.EqStr(l, s) {
					last = when[i]
				}
			}
			vt.Assert("delay", vt.Now()-last >= int64(rb.delay), "a page was fetched before the crawl delay elapsed")
			vt.Assert("delay-canceled", !(cancelIn && rb.delay > 0), "a page was fetched although the crawl delay was canceled")
			if rb.delay > 0 {
				vt.Reach("delayed")
			}
		}
		fetched = append(fetched, s)
		return zzResp(r, 200, zzNewBody("")), nil
	})}
	cfg.Scraper = zzScraper(func(ctx context.Context, p *Page) (URLs, error) {
		scraped = append(scraped, p.URL.String())
		return nil, nil
	})
	eng, err := NewEngine(cfg)
	vt.Assert("new", err == nil, "NewEngine failed")
	var start []string
	anyDenied, all := false, true
	for i := 0; i < vt.Param("urls", 2); i++ {
		b := string([]byte{vt.Byte("path", "xyz")})
		u := &URL{Scheme: "http", Host: "h", Path: "/" + b + string(rune('0'+i))}
		d := denied(u)
		anyDenied = vt.Or(anyDenied, d)
		all = vt.And(all, d)
		start = append(start, u.String())
	}
	err = eng.Run(ctx, start...)
	failed := ctx.Err() != nil
	switch {
	case impolite:
		vt.Reach("impolite")
		vt.Assert("impolite-error", failed || (err != nil) == limitFails, "wrong result of an impolite crawl")
	case robotsFails:
		vt.Reach("robots-failed")
		vt.Assert("robots-error", err != nil, "a failed robots lookup was not reported")
		vt.Assert("robots-failed-fetch", len(fetched) == 0 && len(limited) == 0, "a URL was processed although robots.txt could not be read")
		return
	}
	if limitFails && len(limited) > 0 {
		vt.Reach("limit-failed")
		vt.Assert("limit-error", err != nil, "a failed limiter was not reported")
	}
	if failed {
		if rb.delay > 0 && !impolite && len(limited) > 0 {
			vt.Reach("delay-canceled")
		}
		return
	}
	if !limitFails {
		vt.Assert("nil", err == nil, "a crawl in which nothing failed returned an error")
		for _, s := range start {
			u := zzMust(s)
			vt.Assert("allowed-missed", vt.Or(denied(u), vt.And(zzIn(s, fetched), zzIn(s, scraped))), "an allowed URL was not crawled")
		}
		if len(fetched) > 0 {
			vt.Reach("fetched")
		}
		if len(fetched) < len(start) {
			vt.Reach("disallowed")
		}
	}
}

// zzRecQueue records what is queued.
type zzRecQueue struct {
	Queue
	urls URLs
}

func (q *zzRecQueue) Enqueue(ctx context.Context, urls URLs) error {
	q.urls = append(q.urls, urls...)
	return q.Queue.Enqueue(ctx, urls)
}

type zzRecDeduper struct {
	Deduper
	urls URLs
}

func (d *zzRecDeduper) Dedupe(ctx context.Context, urls URLs) (URLs, error) {
	d.urls = append(d.urls, urls...)
	return d.Deduper.Dedupe(ctx, urls)
}

// Enqueue checks start URLs and matches normalized URLs.
//
// verif: all delay=0 len=2
// verif: thorough len=3
func Verif_E06_start() {
	vt.Expect("queued", "refused", "rejected")
	raw := []string{"http://ok/"}
	pos := vt.Choose("pos", 3)
	s := vt.Pick("scheme", "http", "https", "HtTp", "ftp", "mailto", "httpx", "") + vt.Pick("sep", "://", ":", "//", "") + vt.String("rest", 0, vt.Param("len", 2), "aX:/%?1")
	switch pos {
	case 0:
		raw = []string{s}
	case 1:
		raw = append(raw, s)
	case 2:
		raw = append([]string{s}, raw...)
	}
	bad := false
	for _, r := range raw {
		u, err := url.Parse(r)
		if err != nil || u.Scheme != "http" && u.Scheme != "https" {
			bad = true
		}
	}
	q := &zzRecQueue{Queue: MemoryQueue(1)}
	d := &zzRecDeduper{Deduper: DedupeMap()}
	var seen []string
	cfg := EngineConfig{Impolite: true, Queue: q, Deduper: d}
	cfg.Matcher = MatcherFunc(func(u *URL) bool {
		seen = append(seen, u.String())
		return vt.Not(vt.EqStr(u.Host, "x"))
	})
	cfg.Scraper = zzScraper(func(ctx context.Context, p *Page) (URLs, error) { return nil, nil })
	eng, err := NewEngine(cfg)
	vt.Assert("new", err == nil, "NewEngine failed")
	err = eng.Enqueue(context.Background(), raw...)
	if bad {
		vt.Reach("refused")
		vt.Assert("refused", err != nil, "a start URL that is not http(s) was accepted")
		vt.Assert("partial", len(q.urls) == 0, "URLs of a refused call were queued")
		vt.Assert("visited", len(d.urls) == 0, "URLs of a refused call were recorded as visited")
		return
	}
	vt.Assert("accepted", err == nil, "valid start URLs were refused")
	vt.Assert("matched", len(seen) == len(raw), "the matcher was not asked about every URL")
	for _, u := range q.urls {
		vt.Assert("scheme", u.Scheme == "http" || u.Scheme == "https", "a URL with another scheme was queued")
		vt.Assert("rejected", vt.Not(vt.EqStr(u.Host, "x")), "a URL that the matcher rejects was queued")
		vt.Assert("seen", zzIn(u.String(), seen), "a URL was queued that the matcher did not see")
	}
	for _, u := range d.urls {
		vt.Assert("rejected-visited", vt.Not(vt.EqStr(u.Host, "x")), "a rejected URL was recorded as visited")
	}
	for _, r := range raw {
		u, _ := url.Parse(r)
		n := normalize.URL(u)
		vt.Assert("normalized", zzIn(n.String(), seen), "the matcher was not given the normalized URL")
		var qs []string
		for _, x := range q.urls {
			qs = append(qs, x.String())
		}
		if n.Host == "x" {
			vt.Reach("rejected")
		} else {
			vt.Reach("queued")
			vt.Assert("lost", zzIn(n.String(), qs), "an accepted URL was not queued")
		}
	}
}

// Discovered URLs are normalized and matched before they are remembered.
//
// verif: all delay=0 urls=2
// verif: thorough urls=3
func Verif_E06_discovered() {
	vt.Expect("queued", "rejected")
	q := &zzRecQueue{Queue: MemoryQueue(1)}
	d := &zzRecDeduper{Deduper: DedupeMap()}
	var seen []string
	var fetched []string
	cfg := EngineConfig{Impolite: true, Queue: q, Deduper: d}
	deny := string([]byte{vt.Byte("deny", "abc")})
	cfg.Matcher = MatcherFunc(func(u *URL) bool {
		seen = append(seen, u.String())
		return vt.Not(vt.EqStr(u.Host, deny))
	})
	cfg.Fetcher = &Fetcher{Client: zzClient(func(r *http.Request) (*http.Response, error) {
		fetched = append(fetched, r.URL.String())
		return zzResp(r, 200, zzNewBody("")), nil
	})}
	var want []string
	cfg.Scraper = zzScraper(func(ctx context.Context, p *Page) (URLs, error) {
		if p.URL.Host != "start" {
			return nil, nil
		}
		var out URLs
		for i := 0; i < vt.Param("urls", 2); i++ {
			b := vt.Byte("host", "aBbC")
			out = append(out, &URL{Scheme: "http", Host: string([]byte{b}), Fragment: vt.Pick("frag", "", "f")})
			want = append(want, "http://"+string([]byte{b | 0x20})+"/")
		}
		return out, nil
	})
	eng, err := NewEngine(cfg)
	vt.Assert("new", err == nil, "NewEngine failed")
	err = eng.Run(context.Background(), "http://start/")
	vt.Assert("nil", err == nil, "the crawl failed")
	for _, u := range d.urls {
		vt.Assert("rejected-visited", vt.Not(vt.EqStr(u.Host, deny)), "a rejected URL was recorded as visited")
	}
	for _, u := range q.urls {
		vt.Assert("rejected-queued", vt.Not(vt.EqStr(u.Host, deny)), "a rejected URL was queued")
	}
	for _, w := range want {
		vt.Assert("normalized", zzIn(w, seen), "the matcher was not given the normalized URL")
		host := strings.TrimSuffix(w[len("http://"):], "/")
		if host == deny {
			vt.Reach("rejected")
			vt.Assert("rejected-fetched", !zzIn(w, fetched), "a rejected URL was fetched")
		} else {
			vt.Reach("queued")
			vt.Assert("lost", zzIn(w, fetched), "an accepted URL was not crawled")
		}
	}
}
