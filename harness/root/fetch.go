package ant

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"net/http"
	"time"

	vt "github.com/yields/ant/internal/zzvt"
)

// zzTempErr is a network error that says whether it is temporary.
type zzTempErr struct{ temp bool }

func (e *zzTempErr) Error() string   { return "net" }
func (e *zzTempErr) Temporary() bool { return e.temp }

// zzOutcome is what the client answers to one attempt.
type zzOutcome struct {
	resp   bool
	status int
	err    error
	temp   bool // temporary
	body   *zzBody
}

// draw chooses an outcome.
func zzDraw(plain error) *zzOutcome {
	o := &zzOutcome{}
	switch vt.Choose("kind", 6) {
	case 0, 1:
		o.resp = true
		o.status = vt.Int("status", 200, 599)
		o.temp = vt.Or(o.status == 429, o.status == 503, o.status == 504)
	case 2:
		o.err = plain
	case 3:
		o.temp = vt.Bool("temporary")
		o.err = &zzTempErr{o.temp}
	case 4:
		o.temp = vt.Bool("temporary")
		o.err = fmt.Errorf("wrapped: %w", &zzTempErr{o.temp})
	case 5:
		// a response and an error
		o.resp = true
		o.status = 200
		if vt.Choose("error", 2) == 1 {
			o.err = plain
			break
		}
		o.temp = vt.Bool("temporary")
		o.err = &zzTempErr{o.temp}
	}
	if o.resp {
		o.body = zzNewBody("some body")
		if vt.Choose("body", 2) == 1 {
			o.body.failAt, o.body.err = 4, plain
		}
	}
	return o
}

// The retry protocol.
//
// verif: all preempt=0
// verif: quick attempts=2
// verif: thorough attempts=3
func Verif_F01_protocol() {
	vt.Expect("page", "notfound", "status", "error", "exhausted", "retried")
	limit := vt.Param("attempts", 2)
	f := &Fetcher{MaxAttempts: 1 + vt.Choose("attempts", limit)}
	want := UserAgent.String()
	if vt.Choose("agent", 2) == 1 {
		want = vt.String("ua", 0, 2, "ab/ ")
		f.UserAgent = StaticAgent(want)
	}
	url := &URL{Scheme: "http", Host: "h", Path: "/" + string([]byte{vt.Byte("path", "ab")}), RawQuery: vt.Pick("query", "", "q=1")}
	raw := url.String()
	var outs []*zzOutcome
	plain := vt.Error("plain", errors.New("plain"))
	stopped := false
	redirected := &URL{Scheme: "http", Host: "other", Path: "/"}
	moved := vt.Choose("moved", 2) == 1
	f.Client = zzClient(func(r *http.Request) (*http.Response, error) {
		vt.Assert("after-final", !stopped, "another request was sent after a final outcome")
		vt.Assert("too-many", len(outs) < f.MaxAttempts, "more requests than MaxAttempts")
		vt.Assert("method", r.Method == "GET", "the request is not a GET")
		vt.Assert("url", vt.EqStr(r.URL.String(), raw), "the request is for another URL")
		vt.Assert("user-agent", len(r.Header["User-Agent"]) == 1 && vt.EqStr(r.Header["User-Agent"][0], want), "wrong User-Agent")
		vt.Assert("accept", r.Header.Get("Accept") == "text/html; charset=UTF-8", "no HTML Accept header")
		o := zzDraw(plain)
		outs = append(outs, o)
		if !o.temp {
			stopped = true
		}
		if !o.resp {
			return nil, o.err
		}
		resp := zzResp(r, o.status, o.body)
		resp.Header.Set("X-N", vt.Dec(int64(len(outs))))
		if moved {
			resp.Request = r.Clone(r.Context())
			resp.Request.URL = redirected
		}
		return resp, o.err
	})
	page, err := f.Fetch(context.Background(), url)
	vt.Assert("some", len(outs) > 0, "no request was sent")
	last := outs[len(outs)-1]
	if len(outs) > 1 {
		vt.Reach("retried")
	}
	from := raw
	if moved {
		from = redirected.String()
	}
	if !stopped {
		vt.Reach("exhausted")
		vt.Assert("gave-up", len(outs) == f.MaxAttempts, "Fetch stopped retrying a temporary failure early")
		vt.Assert("exhausted", page == nil && err != nil, "exhausted attempts did not give an error")
		zzWraps(err, last, from)
		return
	}
	switch {
	case last.err != nil:
		vt.Reach("error")
		vt.Assert("error", page == nil && err != nil && errors.Is(err, last.err), "a client error was not returned wrapped")
	case last.status == 404:
		vt.Reach("notfound")
		vt.Assert("notfound", page == nil && err == nil, "404 did not give a nil page and a nil error")
	case last.status < 400:
		vt.Reach("page")
		vt.Assert("page", page != nil && err == nil, "a status below 400 did not give a page")
		vt.Assert("page-url", page.URL.String() == from, "the page has the wrong URL")
		vt.Assert("page-header", page.Header.Get("X-N") == vt.Dec(int64(len(outs))), "the page has the headers of another response")
		b, rerr := io.ReadAll(page.Body())
		if last.body.failAt < 0 {
			vt.Assert("page-body", rerr == nil && string(b) == "some body", "the page has another body")
		} else {
			vt.Assert("page-body", rerr == last.body.err, "a body error was not passed on")
		}
	default:
		vt.Reach("status")
		vt.Assert("status", page == nil && err != nil, "an error status did not give an error")
		zzWraps(err, last, from)
	}
}

// zzWraps asserts that err wraps the failure o.
func zzWraps(err error, o *zzOutcome, from string) {
	if o.err != nil {
		vt.Assert("wraps", errors.Is(err, o.err), "the error does not wrap the last failure")
		return
	}
	var fe *FetchError
	vt.Assert("fetch-error", errors.As(err, &fe), "the error is not a FetchError")
	vt.Assert("fetch-error-status", fe.Status == o.status, "the FetchError has another status")
	vt.Assert("fetch-error-url", fe.URL.String() == from, "the FetchError has another URL")
}

// zzSpoof is a user agent that is another one every time it is asked.
type zzSpoof struct {
	base string
	said []string
}

func (s *zzSpoof) String() string {
	s.said = append(s.said, s.base+vt.Dec(int64(len(s.said))))
	return s.said[len(s.said)-1]
}

// A user agent that changes: what it said during the Fetch is sent.
//
// verif: all preempt=0
func Verif_F01_agent() {
	vt.Expect("sent", "retried")
	agent := &zzSpoof{base: vt.String("base", 0, 1, "ab")}
	from, tries := 0, 0
	f := &Fetcher{UserAgent: agent, MaxAttempts: 2}
	f.Client = zzClient(func(r *http.Request) (*http.Response, error) {
		got := r.Header["User-Agent"]
		ok := false
		for _, s := range agent.said[from:] {
			ok = vt.Or(ok, len(got) == 1 && vt.EqStr(got[0], s))
		}
		vt.Assert("user-agent", ok, "a request was not sent with the user agent of the time")
		vt.Reach("sent")
		if tries++; tries == 1 && vt.Choose("retry", 2) == 1 {
			vt.Reach("retried")
			return zzResp(r, 503, zzNewBody("")), nil
		}
		return zzResp(r, 200, zzNewBody("")), nil
	})
	for i := 0; i < 3; i++ {
		from, tries = len(agent.said), 0
		p, err := f.Fetch(context.Background(), &URL{Scheme: "http", Host: "h", Path: "/"})
		vt.Assert("page", p != nil && err == nil, "Fetch failed")
	}
}

// The default number of attempts is 5.
//
// verif: all preempt=0
func Verif_F01_default() {
	n := 0
	f := &Fetcher{MaxAttempts: vt.Int("max", -2, 0)}
	f.Client = zzClient(func(r *http.Request) (*http.Response, error) {
		n++
		return zzResp(r, 503, zzNewBody("")), nil
	})
	page, err := f.Fetch(context.Background(), zzMust("http://h/"))
	vt.Assert("five", page == nil && err != nil && n == 5, "the default is not 5 attempts")
}

// Fetch by string parses its argument and uses the default fetcher.
//
// verif: all preempt=0 len=2
// verif: thorough len=3
func Verif_F01_raw() {
	vt.Expect("bad", "good")
	raw := "http://h/" + vt.String("raw", 0, vt.Param("len", 2), "a%2 ?")
	var got []string
	DefaultFetcher = &Fetcher{Client: zzClient(func(r *http.Request) (*http.Response, error) {
		got = append(got, r.URL.String())
		return zzResp(r, 200, zzNewBody("")), nil
	})}
	u, perr := zzParse(raw)
	page, err := Fetch(context.Background(), raw)
	if perr != nil {
		vt.Reach("bad")
		vt.Assert("bad", err != nil && page == nil && len(got) == 0, "an invalid URL was fetched")
		return
	}
	vt.Reach("good")
	vt.Assert("good", err == nil && page != nil && len(got) == 1 && got[0] == u.String(), "a valid URL was not fetched")
}

// Waits between attempts, bounds of up to 36 years.
//
// verif: all preempt=0 attempts=3
// verif: thorough attempts=6
func Verif_F02_large() { zzBackoff(vt.Param("attempts", 3), int64(1)<<60) }

// More attempts with bounds of up to a few microseconds.
//
// verif: all preempt=0 attempts=6
// verif: thorough attempts=20
func Verif_F02_small() { zzBackoff(vt.Param("attempts", 8), 4000) }

// Many attempts with a few maxima and any small minimum.
//
// verif: all preempt=0 attempts=40 timerfires=130
// verif: thorough attempts=120
func Verif_F02_many() {
	maxima := []int64{1000, 123457, 1 << 52}
	max := maxima[vt.Choose("max", len(maxima))]
	zzBounds(vt.Param("attempts", 40), vt.Int64("min", 1, 4095), max)
}

func zzBackoff(n int, big int64) {
	zzBounds(n, vt.Int64("min", -1, big), vt.Int64("max", -1, big))
}

func zzBounds(n int, min, max int64) {
	vt.Expect("waited", "invalid")
	f := &Fetcher{MaxAttempts: n, MinBackoff: time.Duration(min), MaxBackoff: time.Duration(max)}
	lo, hi := vt.IteInt(min > 0, min, int64(50*time.Millisecond)), vt.IteInt(max > 0, max, int64(time.Second))
	var at []int64
	f.Client = zzClient(func(r *http.Request) (*http.Response, error) {
		at = append(at, vt.Now())
		return nil, &zzTempErr{true}
	})
	page, err := f.Fetch(context.Background(), zzMust("http://h/"))
	vt.Assert("error", page == nil && err != nil, "temporary failures did not give an error")
	if lo >= hi {
		vt.Reach("invalid")
		vt.Assert("invalid", len(at) == 1, "a retry was made although MinBackoff >= MaxBackoff")
		var t *zzTempErr
		vt.Assert("invalid-error", !errors.As(err, &t), "invalid bounds were reported as the failure of the client")
		return
	}
	vt.Reach("waited")
	vt.Assert("attempts", len(at) == n, "Fetch gave up early")
	prev := int64(0)
	for i := 1; i < len(at); i++ {
		d := at[i] - at[i-1]
		vt.Assert("least", d >= lo, "a wait was shorter than MinBackoff")
		vt.Assert("most", d <= hi, "a wait was longer than MaxBackoff")
		vt.Assert("monotone", d >= prev, "a later wait was shorter than an earlier one")
		prev = d
	}
}

// Cancellation during a wait.
//
// verif: all preempt=1 attempts=3
func Verif_F02_cancel() {
	vt.Expect("first", "later")
	n := vt.Param("attempts", 3)
	f := &Fetcher{MaxAttempts: n + 1, MinBackoff: 10, MaxBackoff: 1000}
	ctx, cancel := context.WithCancel(context.Background())
	ctx, want := zzEnded(ctx)
	which := vt.Int("cancel-after", 1, n)
	count := 0
	var when int64
	f.Client = zzClient(func(r *http.Request) (*http.Response, error) {
		vt.Assert("request-after-cancel", ctx.Err() == nil, "a request was sent after the context was canceled")
		count++
		if count == which {
			d := vt.Int64("delay", 0, 9)
			vt.Go(func() {
				time.Sleep(time.Duration(d))
				when = vt.Now()
				cancel()
			})
		}
		return nil, &zzTempErr{true}
	})
	page, err := f.Fetch(ctx, zzMust("http://h/"))
	vt.Assert("canceled", page == nil && errors.Is(err, want), "Fetch did not return the context error")
	vt.Assert("prompt", vt.Now() == when, "Fetch went on waiting after the cancellation")
	vt.Assert("count", count == which, "another request was sent")
	if which == 1 {
		vt.Reach("first")
	} else {
		vt.Reach("later")
	}
}

// Bodies of attempts that do not become the page are drained and closed.
//
// verif: all preempt=0 attempts=2
// verif: thorough attempts=3
func Verif_F03_fetch() {
	vt.Expect("page", "failed", "retried")
	f := &Fetcher{MaxAttempts: 1 + vt.Choose("attempts", vt.Param("attempts", 2))}
	var outs []*zzOutcome
	plain := vt.Error("plain", errors.New("plain"))
	f.Client = zzClient(func(r *http.Request) (*http.Response, error) {
		o := zzDraw(plain)
		outs = append(outs, o)
		if !o.resp {
			return nil, o.err
		}
		return zzResp(r, o.status, o.body), o.err
	})
	page, _ := f.Fetch(context.Background(), zzMust("http://h/"))
	for i, o := range outs {
		if !o.resp {
			continue
		}
		if page != nil && i == len(outs)-1 {
			vt.Reach("page")
			vt.Assert("handed-over", o.body.closed == 0 && o.body.off == 0 && !o.body.eof, "the body of the page was read or closed")
			continue
		}
		vt.Reach("failed")
		if len(outs) > 1 {
			vt.Reach("retried")
		}
		vt.Assert("closed", o.body.closed == 1, "the body of a discarded response was not closed")
		vt.Assert("drained", o.body.eof || o.body.failAt >= 0 && o.body.off >= o.body.failAt, "the body of a discarded response was not drained")
	}
}

// A crawl closes every page.
//
// verif: all delay=1
func Verif_F03_crawl() {
	vt.Expect("ok", "error", "parsed", "panic-free")
	body := zzNewBody("<html><a href=x>x</a></html>")
	if vt.Choose("body", 2) == 1 {
		body.failAt, body.err = 4, vt.Error("body-error", errors.New("broken body"))
	}
	use := vt.Choose("use", 4)
	fail := vt.Bool("fail")
	cfg := EngineConfig{Impolite: true}
	cfg.Fetcher = &Fetcher{Client: zzClient(func(r *http.Request) (*http.Response, error) { return zzResp(r, 200, body), nil })}
	cfg.Scraper = zzScraper(func(ctx context.Context, p *Page) (URLs, error) {
		switch use {
		case 1:
			p.URLs()
			vt.Reach("parsed")
		case 2:
			p.Body().Read(make([]byte, 3))
		case 3:
			io.Copy(new(bytes.Buffer), p.Body())
		}
		if fail {
			return nil, errors.New("scrape")
		}
		return nil, nil
	})
	eng, err := NewEngine(cfg)
	vt.Assert("new", err == nil, "NewEngine failed")
	err = eng.Run(context.Background(), "http://h/")
	vt.Assert("result", (err != nil) == fail, "wrong result of Run")
	vt.Assert("closed", body.closed >= 1, "the page was not closed after scraping")
	vt.Assert("drained", body.eof || body.failAt >= 0 && body.off >= body.failAt, "the page was not drained after scraping")
	vt.Reach("panic-free")
	if fail {
		vt.Reach("error")
	} else {
		vt.Reach("ok")
	}
}
