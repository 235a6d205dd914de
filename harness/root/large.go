package ant

import (
	"context"
	"fmt"
	"io"
	"net/http"
	"strconv"
	"strings"
	"time"

	"golang.org/x/net/html"

	vt "github.com/yields/ant/internal/zzvt"
)

// Sizes beyond those of the symbolic harnesses: known inputs with a choice of
// size, for behaviour that changes at a threshold.

// zzSite is the i-th URL of a large site, in a spelling that normalization
// changes if alias is set, and as it is requested.
func zzSite(i int, alias bool) (raw, canon string) {
	n := strconv.Itoa(i)
	switch i % 8 {
	case 0:
		raw, canon = "http://h/p"+n, "http://h/p"+n
	case 1:
		raw, canon = "https://h/p"+n, "https://h/p"+n
	case 2:
		raw, canon = "http://h/p?a="+n+"&b=1", "http://h/p?a="+n+"&b=1"
		if alias {
			raw = "http://h/p?b=1&a=" + n
		}
	case 3:
		raw, canon = "http://host"+n+".example/", "http://host"+n+".example/"
		if alias {
			raw = "http://HOST" + n + ".example:80"
		}
	case 4:
		raw = "http://h/" + strings.Repeat("directory/", 30) + n
		canon = raw
	case 5:
		raw, canon = "http://h:"+strconv.Itoa(1000+i)+"/p", "http://h:"+strconv.Itoa(1000+i)+"/p"
	case 6:
		raw, canon = "http://u"+n+"@h/p", "http://u"+n+"@h/p"
	default:
		raw, canon = "http://h/p/"+n+"/q", "http://h/p/"+n+"/q"
		if alias {
			raw = "http://h/x/..//p/./" + n + "/q#f"
		}
	}
	return raw, canon
}

// A large site: chains, hubs, and links back.
//
// verif: all delay=0 steps=200000000
// verif: quick pages=150
// verif: thorough pages=600
func Verif_E01_large() {
	vt.Expect("all")
	n := vt.Param("pages", 100)
	workers := []int{1, 3, 20}[vt.Choose("workers", 3)]
	conc := []int{0, 2, 15}[vt.Choose("concurrency", 3)]
	shape := vt.Choose("shape", 4)
	index := map[string]int{}
	for i := 0; i < n; i++ {
		_, s := zzSite(i, false)
		index[s] = i
	}
	vt.Assert("distinct", len(index) == n, "the URLs are not distinct")
	fetched := make([]int, n)
	scraped := make([]int, n)
	find := func(s string) int {
		i, ok := index[s]
		vt.Assert("invented", ok, "a URL was requested that is not part of the site")
		return i
	}
	link := func(j int, alias bool) *URL {
		raw, _ := zzSite(j, alias)
		u, err := zzParse(raw)
		vt.Assert("parse", err == nil, "a URL does not parse")
		return u
	}
	cfg := EngineConfig{
		Impolite: true, Workers: workers, Concurrency: conc,
		Fetcher: &Fetcher{Client: zzClient(func(r *http.Request) (*http.Response, error) {
			fetched[find(r.URL.String())]++
			return zzResp(r, 200, zzNewBody("x")), nil
		})},
		Scraper: zzScraper(func(ctx context.Context, p *Page) (URLs, error) {
			i := find(p.URL.String())
			scraped[i]++
			var out URLs
			switch shape {
			case 0: // a chain, with a link back
				if i+1 < n {
					out = append(out, link(i+1, i%2 == 0))
				}
				out = append(out, link(i/2, true))
			case 1: // a hub whose pages link to the hub and each other
				if i == 0 {
					for j := n - 1; j >= 0; j-- {
						out = append(out, link(j, j%3 == 0))
					}
				} else {
					out = append(out, link(0, false), link((i*7)%n, true))
				}
			case 2: // a tree
				for j := 2*i + 1; j <= 2*i+2 && j < n; j++ {
					out = append(out, link(j, true), link(j, false))
				}
			case 3: // all are start URLs
			}
			return out, nil
		}),
	}
	if vt.Bool("bloom") {
		cfg.Deduper = DedupeBF(1_000_000, 7)
	}
	start := []string{}
	for i := 0; i < n && (i == 0 || shape == 3); i++ {
		raw, _ := zzSite(i, true)
		start = append(start, raw)
	}
	eng, err := NewEngine(cfg)
	vt.Assert("new", err == nil, "NewEngine failed")
	vt.Assert("nil", eng.Run(context.Background(), start...) == nil, "Run returned an error although nothing failed")
	for i := 0; i < n; i++ {
		vt.Assert("once", fetched[i] <= 1 && scraped[i] <= 1, "a URL was crawled more than once")
		vt.Assert("missed", fetched[i] == 1 && scraped[i] == 1, "a reachable URL was not crawled")
	}
	vt.Reach("all")
}

// A page with very many links.
//
// verif: all delay=0 steps=900000000
// verif: quick pages=12000
// verif: thorough pages=60000
func Verif_E01_hub() {
	vt.Expect("all")
	n := vt.Param("pages", 100)
	start := vt.Choose("start", 2) == 1 // the links are start URLs
	fetched := make([]int, n)
	rest := 0
	cfg := EngineConfig{
		Impolite: true, Workers: 2, Concurrency: 3,
		Fetcher: &Fetcher{Client: zzClient(func(r *http.Request) (*http.Response, error) {
			i, err := strconv.Atoi(r.URL.Path[1:])
			vt.Assert("invented", err == nil && i >= 0 && i < n, "a URL was requested that is not part of the site")
			fetched[i]++
			return zzResp(r, 200, zzNewBody("x")), nil
		})},
		Scraper: zzScraper(func(ctx context.Context, p *Page) (URLs, error) {
			rest++
			if p.URL.Path != "/0" || start {
				return nil, nil
			}
			out := make(URLs, 0, n)
			for j := 0; j < n; j++ {
				out = append(out, &URL{Scheme: "http", Host: "h", Path: "/" + strconv.Itoa(j)})
			}
			return out, nil
		}),
	}
	urls := []string{"http://h/0"}
	for j := 1; j < n && start; j++ {
		urls = append(urls, "http://h/"+strconv.Itoa(j))
	}
	eng, err := NewEngine(cfg)
	vt.Assert("new", err == nil, "NewEngine failed")
	vt.Assert("nil", eng.Run(context.Background(), urls...) == nil, "Run returned an error although nothing failed")
	ok := rest == n
	for i := 0; i < n; i++ {
		ok = ok && fetched[i] == 1
	}
	vt.Assert("all", ok, "a reachable URL was not crawled, or more than once")
	vt.Reach("all")
}

// Many URLs in a queue.
//
// verif: all delay=0 steps=50000000
func Verif_Q01_large() {
	vt.Expect("all")
	ctx := context.Background()
	q := MemoryQueue(vt.Choose("size", 2) * 100)
	batch := []int{1, 3, 64, 100, 700}[vt.Choose("batch", 5)]
	lag := []int{0, 1, 50, 699}[vt.Choose("lag", 4)]
	const n = 700
	us := make(URLs, n)
	for i := range us {
		us[i] = &URL{Host: strconv.Itoa(i)}
	}
	next := 0
	take := func() {
		u, err := q.Dequeue(ctx)
		vt.Assert("dequeue", err == nil, "Dequeue failed")
		vt.Assert("order", next < n && u == us[next], "a URL was lost, repeated or out of order")
		q.Done(ctx, u)
		next++
	}
	for i := 0; i < n; i += batch {
		j := i + batch
		if j > n {
			j = n
		}
		vt.Assert("enqueue", q.Enqueue(ctx, us[i:j]) == nil, "Enqueue failed")
		for j-next > lag {
			take()
		}
	}
	for next < n {
		take()
	}
	q.Wait()
	vt.Assert("close", q.Close(ctx) == nil, "Close failed")
	_, err := q.Dequeue(ctx)
	vt.Assert("empty", err == io.EOF, "more was dequeued than enqueued")
	vt.Reach("all")
}

// Many callers that wait when the queue is closed, or when URLs arrive.
//
// verif: all delay=0 steps=50000000
func Verif_Q02_large() {
	vt.Expect("all")
	ctx := context.Background()
	q := MemoryQueue(0)
	n := []int{10, 33, 100}[vt.Choose("callers", 3)]
	urls := []int{0, 1, 9, 40, 200}[vt.Choose("urls", 5)]
	ended, got, waited := 0, 0, false
	for i := 0; i < n; i++ {
		vt.Go(func() {
			defer func() { ended++ }()
			for {
				u, err := q.Dequeue(ctx)
				if err != nil {
					vt.Assert("eof", err == io.EOF && u == nil, "Dequeue of a closed queue does not return io.EOF")
					return
				}
				got++
				q.Done(ctx, u)
			}
		})
	}
	var us URLs
	for i := 0; i < urls; i++ {
		us = append(us, &URL{Host: strconv.Itoa(i)})
	}
	vt.Yield()
	vt.Assert("enqueue", q.Enqueue(ctx, us) == nil, "Enqueue failed")
	vt.Go(func() { q.Wait(); waited = true })
	vt.WaitUntil(func() bool { return got == urls && waited })
	vt.Assert("close", q.Close(ctx) == nil, "Close failed")
	vt.WaitUntil(func() bool { return ended == n })
	vt.Reach("all")
}

// Many URLs through a de-duplicator, in batches.
//
// verif: all delay=0 steps=50000000
func Verif_D01_large() {
	vt.Expect("all")
	ctx := context.Background()
	exact := vt.Bool("map")
	d := DedupeMap()
	if !exact {
		d = DedupeBF(1_000_000, 7)
	}
	n := 400
	batch := []int{1, 10, 65, 400}[vt.Choose("batch", 4)]
	first := map[string]bool{}
	for round := 0; round < 2; round++ {
		for i := 0; i < n; i += batch {
			var in URLs
			for j := i; j < i+batch && j < n; j++ {
				_, s := zzSite(j, false)
				u, err := zzParse(s)
				vt.Assert("parse", err == nil, "a URL does not parse")
				v := *u
				in = append(in, u, &v)
			}
			out, err := d.Dedupe(ctx, in)
			vt.Assert("error", err == nil, "Dedupe failed")
			k := 0
			for _, u := range out {
				for k < len(in) && in[k] != u {
					k++
				}
				vt.Assert("order", k < len(in), "Dedupe returned URLs out of order or not from its input")
				vt.Assert("twice", !first[u.String()], "a URL was returned twice")
				first[u.String()] = true
			}
		}
	}
	vt.Assert("dropped", len(first) == n, "a URL that was new was dropped")
	vt.Reach("all")
}

// More URLs at once than workers and limit.
//
// verif: all delay=0 steps=50000000
func Verif_E04_large() {
	vt.Expect("full")
	workers := []int{5, 12, 40}[vt.Choose("workers", 3)]
	conc := []int{4, 10, 33}[vt.Choose("concurrency", 3)]
	active, peak, n := 0, 0, 0
	held := true
	cfg := EngineConfig{
		Impolite: true, Workers: workers, Concurrency: conc,
		Fetcher: &Fetcher{Client: zzClient(func(r *http.Request) (*http.Response, error) {
			active++
			n++
			if active > peak {
				peak = active
			}
			vt.Assert("limit", active <= conc, "more URLs are processed than the limit allows")
			vt.WaitUntil(func() bool { return !held || r.Context().Err() != nil })
			active--
			return zzResp(r, []int{200, 404}[n%2], zzNewBody("x")), nil
		})},
		Scraper: zzScraper(func(ctx context.Context, p *Page) (URLs, error) { return nil, nil }),
	}
	eng, err := NewEngine(cfg)
	vt.Assert("new", err == nil, "NewEngine failed")
	var start []string
	for i := 0; i < 90; i++ {
		start = append(start, "http://h/"+strconv.Itoa(i))
	}
	ended := false
	vt.Go(func() {
		vt.Assert("run", eng.Run(context.Background(), start...) == nil, "Run failed")
		ended = true
	})
	vt.Quiesce()
	if peak == conc {
		vt.Reach("full")
	}
	vt.Assert("used", peak == conc, "fewer URLs are processed at once than the limit allows")
	held = false
	vt.WaitUntil(func() bool { return ended })
	vt.Assert("all", n == len(start) && active == 0, "not every URL was processed")
}

// Bodies of many sizes are drained, whatever the outcome.
//
// verif: all preempt=0 steps=50000000
func Verif_F03_large() {
	vt.Expect("drained", "page")
	size := []int{0, 1, 511, 512, 513, 4095, 4096, 4097, 32767, 32768, 32769, 70_000, 1_100_000}[vt.Choose("size", 13)]
	status := []int{200, 404, 500, 503}[vt.Choose("status", 4)]
	body := zzNewBody(strings.Repeat("0123456789", size/10+1)[:size])
	last := zzNewBody("ok")
	n := 0
	f := &Fetcher{MaxAttempts: 3, Client: zzClient(func(r *http.Request) (*http.Response, error) {
		if n++; n == 1 {
			return zzResp(r, status, body), nil
		}
		return zzResp(r, 200, last), nil
	})}
	p, err := f.Fetch(context.Background(), zzMust("http://h/"))
	if status == 200 {
		vt.Assert("unread", err == nil && p != nil && body.off == 0 && body.closed == 0, "the body of the page was touched")
		vt.Assert("close", p.close() == nil, "the page could not be closed")
		vt.Reach("page")
	} else {
		vt.Reach("drained")
	}
	vt.Assert("drained", body.eof && body.off == size, "the body was not read to its end")
	vt.Assert("closed", body.closed == 1, "the body was not closed")
}

// zzWide is a document with n links, some of them skipped.
func zzWide(n int) (doc string, want []string, texts []string) {
	var sb strings.Builder
	sb.WriteString("<html><body><div>")
	for i := 0; i < n; i++ {
		s := strconv.Itoa(i)
		switch i % 7 {
		case 3:
			sb.WriteString(`<a href="mailto:` + s + `">m</a>`)
			texts = append(texts, "m")
		case 5:
			sb.WriteString(`<a name="x">n</a>`)
			texts = append(texts, "n")
		default:
			sb.WriteString(`<p class="c"><a href="../p/` + s + `?q=` + s + `#f">t` + s + `</a></p>`)
			want = append(want, "http://h/a/p/"+s+"?q="+s+"#f")
			texts = append(texts, "t"+s)
		}
	}
	sb.WriteString("</div></body></html>")
	return sb.String(), want, texts
}

// Pages with many links, read in pieces of any size.
//
// verif: all preempt=0 steps=100000000
func Verif_P01_large() {
	vt.Expect("all")
	n := []int{40, 150, 400}[vt.Choose("links", 3)]
	doc, want, _ := zzWide(n)
	p := zzPage("http://h/a/b/c", zzNewBody(doc))
	zzSameList("all", p.URLs(), want)
	got, err := p.Next("p.c a")
	vt.Assert("next", err == nil, "Next failed")
	zzSameList("next", got, want)
	vt.Reach("all")
}

// Many calls on a page with a large body.
//
// verif: all preempt=0 steps=100000000
func Verif_P02_large() {
	vt.Expect("all")
	doc, _, texts := zzWide([]int{30, 300}[vt.Choose("links", 2)])
	body := zzNewBody(doc)
	p := zzPage("http://h/a/b/c", body)
	var root *html.Node
	for i := 0; i < 40; i++ {
		d, err := p.Document()
		vt.Assert("document", err == nil && d != nil && (root == nil || d == root), "a later call sees another document")
		root = d
		vt.Assert("drained", body.eof && body.off == len(doc) && body.closed == 1, "the body was not read to its end and closed once")
		vt.Assert("query", len(p.Query("a")) == len(texts), "Query does not see the whole document")
	}
	vt.Reach("all")
}

// Lists of many nodes.
//
// verif: all preempt=0 steps=100000000
func Verif_L02_large() {
	vt.Expect("all")
	doc, _, texts := zzWide([]int{30, 300}[vt.Choose("links", 2)])
	p := zzPage("http://h/a/b/c", zzNewBody(doc))
	l := p.Query("div")
	vt.Assert("div", len(l) == 1, "Query does not find the element")
	l = l.Query("a")
	n := len(texts)
	vt.Assert("all", len(l) == n, "Query does not find all elements")
	for i := 0; i < n; i++ {
		vt.Assert("at", len(l.At(i)) == 1 && l.At(i)[0] == l[i], "At does not return the i-th node")
		vt.Assert("at-neg", len(l.At(-1-i)) == 1 && l.At(-1 - i)[0] == l[n-1-i], "At does not count from the end")
		vt.Assert("order", l.At(i).Text() == texts[i], "the nodes are out of order")
	}
	vt.Assert("out", len(l.At(n)) == 0 && len(l.At(-n-1)) == 0, "At out of range does not return an empty list")
	vt.Assert("text", l.Text() == strings.Join(texts, ""), "Text does not concatenate the text of all nodes")
	vt.Assert("is", l.Is(`a[href="../p/`+strconv.Itoa(n/7*7+6)+`?q=`+strconv.Itoa(n/7*7+6)+`#f"]`) == (n%7 > 6) && l.Is("a"), "Is does not look at all nodes")
	vt.Reach("all")
}

// Long URLs, hosts and patterns.
//
// verif: all preempt=0 steps=100000000
func Verif_M01_large() {
	vt.Expect("match", "no-match")
	n := []int{60, 254, 255, 256, 257, 2047, 2048, 5000}[vt.Choose("size", 8)]
	long := strings.Repeat("x", n)
	last := vt.Pick("last", "y", "z")
	ok := last == "y"
	check := func(label string, m Matcher, u *URL, want bool) {
		vt.Assert(label, m.Match(u) == want, "a long URL is matched wrongly")
	}
	host := &URL{Scheme: "http", Host: long + last, Path: "/"}
	path := &URL{Scheme: "http", Host: "h", Path: "/" + long + "/" + last, RawQuery: long, Fragment: long}
	check("hostname", MatchHostname(long+"y"), host, ok)
	check("host-pattern", MatchPattern("*y/"), host, ok)
	check("host-regexp", MatchRegexp("^x+y/$"), host, ok)
	check("pattern", MatchPattern("h/*/y"), path, ok)
	check("pattern-any", MatchPattern("h/"+strings.Repeat("?", n)+"/y"), path, ok)
	check("pattern-one", MatchPattern("h/"+strings.Repeat("?", n-1)+"/?"), path, false)
	check("pattern-long", MatchPattern("h/"+long+"/y"), path, ok)
	check("regexp", MatchRegexp("^h/x+/y$"), path, ok)
	if ok {
		vt.Reach("match")
	} else {
		vt.Reach("no-match")
	}
}

// Large bursts.
//
// verif: all preempt=0 timerfires=3000 steps=50000000
func Verif_L01_large() {
	vt.Expect("waited")
	n := []int{10, 99, 100, 101, 1000}[vt.Choose("n", 5)]
	l := []Limiter{Limit(n), LimitHostname(n, "h"), LimitPattern(n, "h/*"), LimitRegexp(n, "^h/")}[vt.Choose("kind", 4)]
	u := &URL{Scheme: "http", Host: "h", Path: "/p"}
	start := vt.Now()
	for i := 1; i <= 2*n+3; i++ {
		vt.Assert("nil", l.Limit(context.Background(), u) == nil, "the limiter returned an error")
		want := int64(0)
		if i > n {
			want = int64(i-n) * int64(time.Second) / int64(n)
		}
		d := vt.Now() - start - want
		vt.Assert("rate", d > -int64(time.Millisecond) && d < int64(time.Millisecond), "a URL was let through too early or too late")
	}
	vt.Reach("waited")
}

// Wide structs, long slices and texts.
//
// verif: all preempt=0 steps=100000000
func Verif_S01_large() {
	vt.Expect("all")
	type cell struct {
		A string   `css:"i"`
		B int      `css:"b"`
		C []string `css:"u@x"`
	}
	type wide struct {
		F0, F1 string `css:"title"`
		F2     string `css:"#n2"`
		F3     string `css:"#n3"`
		F4     int    `css:"#n4"`
		F5     string `css:"#n5@class"`
		F6     string
		F7     string   `css:"#n7"`
		F8     []string `css:"i"`
		F9     []int    `css:"b"`
		F10    []cell   `css:"p"`
		F12    cell     `css:"#n12"`
		F13    string   `css:"#n13"`
		F14    uint     `css:"#n14"`
		F15    []byte   `css:"#n15"`
		F16    string   `css:"#n16"`
		F17    string   `css:"#n17"`
		F18    string   `css:"#n18"`
	}
	n := []int{3, 17, 130}[vt.Choose("rows", 3)]
	long := strings.Repeat("long text ", []int{1, 30, 500}[vt.Choose("text", 3)])
	var sb strings.Builder
	sb.WriteString("<title>t</title>")
	for _, k := range []int{2, 3, 4, 5, 7, 13, 14, 15, 16, 17, 18} {
		s := strconv.Itoa(k)
		text := s
		if k == 17 {
			text = long
		}
		sb.WriteString(`<s id="n` + s + `" class="c` + s + `">` + text + `</s>`)
	}
	row := func(id string, i int) string {
		s := strconv.Itoa(i)
		return `<p` + id + `><i>r` + s + `</i><b>` + s + `</b><u x="` + s + `"></u><u x="y"></u></p>`
	}
	for i := 0; i < n; i++ {
		id := ""
		if i == n-1 {
			id = ` id="n12"`
		}
		sb.WriteString(row(id, i))
	}
	p := zzPage("http://h/", zzNewBody(sb.String()))
	for round := 0; round < 2; round++ {
		v := wide{F6: "kept"}
		vt.Assert("scan", p.Scan(&v) == nil, "Scan failed")
		vt.Assert("texts", v.F0 == "t" && v.F1 == "t" && v.F2 == "2" && v.F3 == "3" && v.F4 == 4 && v.F5 == "c5" && v.F6 == "kept" && v.F7 == "7" && v.F13 == "13" && v.F14 == 14 && string(v.F15) == "15" && v.F16 == "16" && v.F17 == long && v.F18 == "18", "a field was not filled from its own node")
		vt.Assert("lengths", len(v.F8) == n && len(v.F9) == n && len(v.F10) == n, "a slice misses elements")
		check := func(c cell, i int) {
			s := strconv.Itoa(i)
			vt.Assert("cell", c.A == "r"+s && c.B == i && len(c.C) == 2 && c.C[0] == s && c.C[1] == "y", "a nested struct was not filled from its own nodes")
		}
		for i := 0; i < n; i++ {
			vt.Assert("elements", v.F8[i] == "r"+strconv.Itoa(i) && v.F9[i] == i, "an element of a slice is wrong")
			check(v.F10[i], i)
		}
		check(v.F12, n-1)
	}
	vt.Reach("all")
}

// Long numbers: zeros in front, and more digits than any type has.
//
// verif: all preempt=0 steps=50000000
func Verif_S02_large() {
	vt.Expect("done")
	zeros := []int{0, 1, 18, 19, 20, 40, 300}[vt.Choose("zeros", 7)]
	digits := vt.Pick("digits", "0", "7", "127", "128", "255", "256", "65535", "2147483648", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "100000000000000000000000000000000000000000")
	zzNumbers(vt.Pick("sign", "", "-", "+") + strings.Repeat("0", zeros) + digits)
	vt.Reach("done")
}

// Long lines.
//
// verif: all preempt=0 steps=100000000
func Verif_J01_large() {
	vt.Expect("all")
	n := []int{1, 511, 1023, 4095, 4096, 4097, 65_536}[vt.Choose("size", 7)]
	w := &zzWriter{}
	j := JSON(w, zzRow{})
	want := ""
	for i := 0; i < 3; i++ {
		text := strings.Repeat(string(rune('a'+i)), n)
		urls, err := j.Scrape(context.Background(), zzRowPage(text))
		vt.Assert("scraped", err == nil && len(urls) == 2, "a scrape failed")
		want += `{"t":"` + text + `","l":["x","y"],"n":7}` + "\n"
		vt.Assert("line", w.out == want, "not exactly one JSON line per page was written")
	}
	vt.Reach("all")
}

// Many faults one after another.
//
// verif: all preempt=0 timerfires=300 steps=50000000
func Verif_F01_large() {
	vt.Expect("page", "exhausted")
	max := []int{5, 9, 33, 120}[vt.Choose("max", 4)]
	fail := []int{4, 8, 32, 33, 119, 200}[vt.Choose("fail", 6)]
	n := 0
	f := &Fetcher{MaxAttempts: max, MinBackoff: 1, MaxBackoff: 2, Client: zzClient(func(r *http.Request) (*http.Response, error) {
		if n++; n <= fail {
			if n%3 == 0 {
				return nil, fmt.Errorf("wrapped %d - %w", n, &zzTempErr{true})
			}
			return zzResp(r, []int{429, 503, 504}[n%3], zzNewBody("x")), nil
		}
		return zzResp(r, 200, zzNewBody("ok")), nil
	})}
	p, err := f.Fetch(context.Background(), zzMust("http://h/"))
	if fail < max {
		vt.Reach("page")
		vt.Assert("page", err == nil && p != nil && n == fail+1, "the page was not fetched after the failures")
	} else {
		vt.Reach("exhausted")
		vt.Assert("exhausted", err != nil && p == nil && n == max, "not exactly MaxAttempts were made")
	}
}
