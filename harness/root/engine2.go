package ant

import (
	"context"
	"errors"
	"io"
	"net/http"

	vt "github.com/yields/ant/internal/zzvt"
)

// zzFaults makes at most budget operations fail, which ones is symbolic.
type zzFaults struct {
	budget   int
	wrap     bool // the errors wrap well known ones
	status   bool // fetches fail with statuses too
	failures []error
}

type zzErr struct {
	op     string
	under  error
	status int // the response that the failed fetch gets
}

func (e *zzErr) Error() string { return e.op + " failed" }

func (e *zzErr) Unwrap() error { return e.under }

func (f *zzFaults) fault(op string, ctx context.Context) error {
	if f.budget == 0 {
		return nil
	}
	if vt.Bool("fail-" + op) {
		f.budget--
		err := &zzErr{op: op}
		if f.wrap {
			wraps := []error{nil, io.EOF, context.Canceled, context.DeadlineExceeded}
			if op == "fetch" {
				wraps = wraps[:3] // a temporary error, which is retried
			}
			err.under = wraps[vt.Choose("wraps", len(wraps))]
		}
		if op == "fetch" && f.status {
			err.status = []int{0, 403, 500}[vt.Choose("status", 3)]
		}
		f.failures = append(f.failures, err)
		vt.Reach(op)
		return err
	}
	return nil
}

// zzDeduper fails on demand.
type zzDeduper struct {
	d     Deduper
	fault func(op string, ctx context.Context) error
}

func (d *zzDeduper) Dedupe(ctx context.Context, urls URLs) (URLs, error) {
	if err := d.fault("dedupe", ctx); err != nil {
		return nil, err
	}
	return d.d.Dedupe(ctx, urls)
}

func (c *zzCrawl) limiter() Limiter {
	return LimiterFunc(func(ctx context.Context, u *URL) error {
		c.limited = append(c.limited, u.String())
		c.enter()
		vt.Yield()
		c.active--
		if c.fault != nil {
			return c.fault("limit", ctx)
		}
		return nil
	})
}

func (c *zzCrawl) faulty(f *zzFaults) EngineConfig {
	c.fault = f.fault
	cfg := c.config()
	cfg.Limiter = c.limiter()
	cfg.Deduper = &zzDeduper{DedupeMap(), f.fault}
	return cfg
}

// over asserts that nothing of a crawl is left behind.
func zzOver() {
	vt.Quiesce()
	vt.Assert("leak", vt.Live() == 0, "goroutines of the crawl are still around after Run returned")
}

// Any operation fails.
//
// verif: all links=1 workers=2
// verif: quick delay=2 faults=1
// verif: thorough preempt=2 faults=2
func Verif_E02_faults() {
	vt.Expect("fetch", "scrape", "limit", "dedupe", "error", "ok")
	c := &zzCrawl{links: vt.Param("links", 1), hosts: "ab"}
	f := &zzFaults{budget: vt.Param("faults", 1), status: true}
	cfg := c.faulty(f)
	cfg.Workers = 1 + vt.Choose("workers", vt.Param("workers", 2))
	cfg.Concurrency = vt.Choose("concurrency", 2)
	eng, err := NewEngine(cfg)
	vt.Assert("new", err == nil, "NewEngine failed")
	err = eng.Run(context.Background(), c.start(1)...)
	if err != nil {
		vt.Reach("error")
	} else {
		vt.Reach("ok")
	}
	zzOver()
}

// robots.txt lookups fail, refuse or delay.
//
// verif: all delay=1
// verif: thorough delay=2
func Verif_E02_robots() {
	vt.Expect("robots", "disallowed", "body", "canceled", "error", "ok")
	c := &zzCrawl{links: 0, hosts: "a"}
	cfg := c.config()
	cfg.Impolite = false
	cfg.Workers = 1 + vt.Choose("workers", 2)
	cfg.Concurrency = vt.Choose("concurrency", 2)
	ctx, cancel := context.WithCancel(context.Background())
	what := vt.Pick("robots", "fine", "robots", "disallowed", "body", "canceled", "unavailable")
	DefaultClient = &http.Client{Transport: zzTransport(func(r *http.Request) (*http.Response, error) {
		vt.Yield()
		vt.Reach(what)
		switch what {
		case "robots":
			return nil, &zzErr{op: "robots"}
		case "disallowed":
			return zzResp(r, 200, zzNewBody("User-agent: *\nDisallow: /a\n")), nil
		case "body":
			return zzResp(r, 200, &zzBody{data: "User", failAt: 2, err: &zzErr{op: "body"}}), nil
		case "canceled":
			cancel()
			return zzResp(r, 200, zzNewBody("User-agent: *\nCrawl-delay: 3600\n")), nil
		case "unavailable":
			return zzResp(r, 503, zzNewBody("")), nil
		}
		return zzResp(r, 200, zzNewBody("")), nil
	})}
	eng, err := NewEngine(cfg)
	vt.Assert("new", err == nil, "NewEngine failed")
	err = eng.Run(ctx, "http://h/a", "http://h/b", "http://h/ab")
	if err != nil {
		vt.Reach("error")
	} else {
		vt.Reach("ok")
	}
	switch what {
	case "robots", "body":
		vt.Assert("swallowed", err != nil, "a failed robots lookup was not reported")
	case "fine", "disallowed", "unavailable":
		vt.Assert("spurious", err == nil, "Run failed although no operation did")
	}
	zzOver()
}

// More URLs than permits when one fails.
//
// verif: all links=2
// verif: quick delay=1
// verif: thorough delay=2
func Verif_E02_backlog() {
	vt.Expect("fetch", "error", "ok")
	c := &zzCrawl{links: vt.Param("links", 2), hosts: "ab"}
	f := &zzFaults{budget: 1}
	cfg := c.config()
	c.fault = f.fault
	cfg.Workers = 2
	cfg.Concurrency = 1
	cfg.Scraper = zzScraper(func(ctx context.Context, p *Page) (URLs, error) {
		switch p.URL.Host {
		case "s":
			return URLs{zzMust("http://x/"), zzMust("http://y/"), zzMust("http://z/")}, nil
		}
		return nil, f.fault("scrape", ctx)
	})
	eng, err := NewEngine(cfg)
	vt.Assert("new", err == nil, "NewEngine failed")
	err = eng.Run(context.Background(), "http://s/")
	if err != nil {
		vt.Reach("error")
	} else {
		vt.Reach("ok")
	}
	zzOver()
}

// The context is cancelled at any moment.
//
// verif: all links=1
// verif: quick delay=2
// verif: thorough preempt=2
func Verif_E02_cancel() {
	vt.Expect("canceled", "ok")
	c := &zzCrawl{links: vt.Param("links", 1), hosts: "ab"}
	cfg := c.config()
	cfg.Workers = 1 + vt.Choose("workers", 2)
	cfg.Concurrency = vt.Choose("concurrency", 2)
	honour := vt.Bool("client-honours-context")
	cfg.Fetcher = &Fetcher{Client: zzClient(func(r *http.Request) (*http.Response, error) {
		vt.Yield()
		if honour && r.Context().Err() != nil {
			return nil, r.Context().Err()
		}
		return zzResp(r, 200, zzNewBody("")), nil
	})}
	eng, err := NewEngine(cfg)
	vt.Assert("new", err == nil, "NewEngine failed")
	ctx, cancel := context.WithCancel(context.Background())
	if vt.Choose("before", 2) == 1 {
		cancel()
	} else {
		vt.Go(cancel)
	}
	err = eng.Run(ctx, c.start(1)...)
	if err != nil {
		vt.Reach("canceled")
		vt.Assert("not-canceled", ctx.Err() != nil, "Run failed although neither an operation failed nor the context was canceled")
	} else {
		vt.Reach("ok")
	}
	zzOver()
}

// Start URLs that cannot be queued.
//
// verif: all delay=1
func Verif_E02_start() {
	vt.Expect("error", "ok")
	c := &zzCrawl{links: 0, hosts: "ab"}
	cfg := c.config()
	cfg.Workers = 1 + vt.Choose("workers", 2)
	eng, err := NewEngine(cfg)
	vt.Assert("new", err == nil, "NewEngine failed")
	raw := vt.Pick("scheme", "http", "https", "ftp", "htt", "HTTP", "") + vt.Pick("sep", "://", ":", "/", "") + vt.String("host", 0, 1, "a:%/")
	var urls []string
	switch vt.Choose("how", 3) {
	case 0:
		urls = []string{raw}
	case 1:
		urls = []string{"http://b/", raw}
	}
	err = eng.Run(context.Background(), urls...)
	if err != nil {
		vt.Reach("error")
	} else {
		vt.Reach("ok")
	}
	zzOver()
}

// A failing crawl reports its failure.
//
// verif: all links=1
// verif: quick delay=2 faults=2
// verif: thorough preempt=2 faults=2
func Verif_E03_reported() {
	vt.Expect("fetch", "scrape", "limit", "dedupe", "two", "none")
	c := &zzCrawl{links: vt.Param("links", 1), hosts: "ab"}
	f := &zzFaults{budget: vt.Param("faults", 2)}
	cfg := c.faulty(f)
	cfg.Workers = 1 + vt.Choose("workers", 2)
	cfg.Concurrency = vt.Choose("concurrency", 2)
	c.reported(f, cfg)
}

// The failures wrap io.EOF or context errors, or are error statuses.
//
// verif: all links=1
// verif: quick delay=0 faults=1
// verif: thorough delay=1 faults=2
func Verif_E03_wrapped() {
	vt.Expect("fetch", "scrape", "limit", "dedupe", "none")
	c := &zzCrawl{links: vt.Param("links", 1), hosts: "ab"}
	f := &zzFaults{budget: vt.Param("faults", 1), wrap: true, status: true}
	cfg := c.faulty(f)
	cfg.Workers = 1 + vt.Choose("workers", 2)
	c.reported(f, cfg)
}

func (c *zzCrawl) reported(f *zzFaults, cfg EngineConfig) {
	eng, err := NewEngine(cfg)
	vt.Assert("new", err == nil, "NewEngine failed")
	err = eng.Run(context.Background(), c.start(2)...)
	if len(f.failures) == 0 {
		vt.Reach("none")
		vt.Assert("spurious", err == nil, "Run failed although no operation did")
		c.exactly()
		return
	}
	if len(f.failures) == 2 {
		vt.Reach("two")
	}
	vt.Assert("swallowed", err != nil, "an operation failed and Run returned nil")
	ok := false
	for _, e := range f.failures {
		ok = ok || errors.Is(err, e)
		if ze := e.(*zzErr); ze.status != 0 {
			var fe *FetchError
			ok = ok || errors.As(err, &fe) && fe.Status == ze.status
		}
	}
	vt.Assert("wraps", ok, "the error of Run does not wrap a failure that happened")
}

// A failing crawl stops: once a failure was noticed by everybody, no further
// URL is started.
//
// verif: all urls=4 delay=1
// verif: thorough delay=3
func Verif_E03_stops() {
	vt.Expect("failed-first", "failed-later")
	n := vt.Param("urls", 4)
	bad := vt.Int("bad", 0, n-1)
	op := vt.Choose("op", 3)
	failed := false
	late := 0
	fault := func(o int, ctx context.Context, u *URL) error {
		if failed && ctx.Err() == nil {
			late++
		}
		if !failed {
			vt.Yield()
		}
		i := int(u.Path[1]) - 'a'
		if i == bad && o == op {
			failed = true
			return &zzErr{op: "op"}
		}
		if failed {
			// everybody notices the failure before this URL is done
			vt.Quiesce()
		}
		return nil
	}
	cfg := EngineConfig{Impolite: true, Workers: 1 + vt.Choose("workers", 2), Concurrency: 1}
	cfg.Limiter = LimiterFunc(func(ctx context.Context, u *URL) error { return fault(0, ctx, u) })
	cfg.Fetcher = &Fetcher{Client: zzClient(func(r *http.Request) (*http.Response, error) {
		if err := fault(1, r.Context(), r.URL); err != nil {
			return nil, err
		}
		return zzResp(r, 200, zzNewBody("")), nil
	})}
	cfg.Scraper = zzScraper(func(ctx context.Context, p *Page) (URLs, error) {
		return nil, fault(2, ctx, p.URL)
	})
	eng, err := NewEngine(cfg)
	vt.Assert("new", err == nil, "NewEngine failed")
	var urls []string
	for i := 0; i < n; i++ {
		urls = append(urls, "http://h/"+string(rune('a'+i)))
	}
	err = eng.Run(context.Background(), urls...)
	vt.Assert("swallowed", err != nil, "an operation failed and Run returned nil")
	if bad == 0 {
		vt.Reach("failed-first")
	} else {
		vt.Reach("failed-later")
	}
	vt.Assert("goes-on", late <= cfg.Workers, "URLs are still started with a live context long after the crawl failed")
}

// URLs are added from outside while the crawl runs.
//
// verif: all links=0
// verif: quick delay=2
// verif: thorough delay=4
func Verif_E02_added() {
	vt.Expect("added", "refused")
	c := &zzCrawl{links: vt.Param("links", 0), hosts: "ab"}
	cfg := c.config()
	cfg.Workers = 1 + vt.Choose("workers", 2)
	eng, err := NewEngine(cfg)
	vt.Assert("new", err == nil, "NewEngine failed")
	start := c.start(1)
	more := c.start(1)
	vt.Go(func() {
		if err := eng.Enqueue(context.Background(), more...); err == nil {
			vt.Reach("added")
		} else {
			vt.Assert("eof", errors.Is(err, io.EOF), "Enqueue failed on an open queue")
			vt.Reach("refused")
		}
	})
	err = eng.Run(context.Background(), start...)
	vt.Assert("spurious", err == nil, "Run failed although no operation did")
	for i, f := range c.fetched {
		for _, g := range c.fetched[:i] {
			vt.Assert("once", vt.Not(vt.EqStr(f, g)), "a URL was fetched more than once")
		}
	}
	vt.Assert("started", vt.Or(zzIn(c.expect[0], c.fetched), vt.EqStr(c.expect[0], c.expect[1])), "a start URL was not fetched")
	zzOver()
}

// A finished engine is run again.
//
// verif: all links=0 delay=1
func Verif_E02_again() {
	c := &zzCrawl{links: vt.Param("links", 0), hosts: "ab"}
	f := &zzFaults{budget: 1}
	cfg := c.faulty(f)
	cfg.Workers = 1 + vt.Choose("workers", 2)
	cfg.Concurrency = vt.Choose("concurrency", 2)
	eng, err := NewEngine(cfg)
	vt.Assert("new", err == nil, "NewEngine failed")
	eng.Run(context.Background(), c.start(1)...)
	eng.Run(context.Background(), "http://q/")
	zzOver()
}

// zzBadQueue is a queue that fails on demand.
type zzBadQueue struct {
	Queue
	fault func(op string, ctx context.Context) error
}

func (q *zzBadQueue) Enqueue(ctx context.Context, urls URLs) error {
	if err := q.fault("enqueue", ctx); err != nil {
		return err
	}
	return q.Queue.Enqueue(ctx, urls)
}

func (q *zzBadQueue) Dequeue(ctx context.Context) (*URL, error) {
	if err := q.fault("dequeue", ctx); err != nil {
		return nil, err
	}
	return q.Queue.Dequeue(ctx)
}

// The queue fails.
//
// verif: all links=1 delay=1
// verif: quick faults=1
// verif: thorough faults=2
func Verif_E03_queue() {
	vt.Expect("enqueue", "dequeue", "none")
	c := &zzCrawl{links: vt.Param("links", 1), hosts: "ab"}
	f := &zzFaults{budget: vt.Param("faults", 1)}
	cfg := c.config()
	cfg.Workers = 1 + vt.Choose("workers", 2)
	cfg.Concurrency = vt.Choose("concurrency", 2)
	cfg.Queue = &zzBadQueue{MemoryQueue(1), f.fault}
	c.reported(f, cfg)
	zzOver()
}
