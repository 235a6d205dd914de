package ant

import (
	"context"
	"errors"
	"net/http"
	"net/url"
	"strings"

	"golang.org/x/net/html"

	vt "github.com/yields/ant/internal/zzvt"
)

// zzPage fetches a page with the given URL and body.
func zzPage(raw string, body *zzBody) *Page {
	u := zzMust(raw)
	f := &Fetcher{MaxAttempts: 1, Client: zzClient(func(r *http.Request) (*http.Response, error) {
		resp := zzResp(r, 200, body)
		resp.Request = &http.Request{Method: "GET", URL: u}
		return resp, nil
	})}
	p, err := f.Fetch(context.Background(), u)
	vt.Assert("page", err == nil && p != nil, "Fetch failed")
	return p
}

// zzElems returns the elements named tag in document order.
func zzElems(n *html.Node, tag string) []*html.Node {
	var out []*html.Node
	if n.Type == html.ElementNode && (tag == "" || n.Data == tag) {
		out = append(out, n)
	}
	for c := n.FirstChild; c != nil; c = c.NextSibling {
		out = append(out, zzElems(c, tag)...)
	}
	return out
}

func zzSetAttr(n *html.Node, key, val string) {
	for i := range n.Attr {
		if n.Attr[i].Key == key {
			n.Attr[i].Val = val
			return
		}
	}
	n.Attr = append(n.Attr, html.Attribute{Key: key, Val: val})
}

// zzDots removes dot segments as RFC 3986 5.2.4 does.
func zzDots(p string) string {
	var out []string
	segs := strings.Split(p[1:], "/")
	for i, s := range segs {
		last := i == len(segs)-1
		switch {
		case vt.Force(vt.EqStr(s, ".")):
			if last {
				out = append(out, "")
			}
		case vt.Force(vt.EqStr(s, "..")):
			if len(out) > 0 {
				out = out[:len(out)-1]
			}
			if last {
				out = append(out, "")
			}
		default:
			out = append(out, s)
		}
	}
	return "/" + strings.Join(out, "/")
}

// zzHref draws an href and what it resolves to against http://h/d/e?q ("" for
// hrefs that are skipped).
func zzHref(n int) (href, want string) {
	const dir, base = "http://h/d/", "http://h/d/e"
	switch vt.Choose("href", 14) {
	case 0:
		return "", "same"
	case 1:
		f := vt.String("frag", 1, 1, "ab")
		return "#" + f, base + "?q#" + f
	case 2:
		q := vt.String("query", 1, 1, "ab")
		return "?" + q, base + "?" + q
	case 3, 4:
		p := vt.String("rel", 1, n, "a./")
		vt.Assume(vt.Not(vt.EqStr(p[:1], "/")))
		return p, "http://h" + zzDots("/d/"+p)
	case 5:
		p := vt.String("abs", 0, n-1, "a./")
		vt.Assume(len(p) == 0 || vt.Not(vt.EqStr(p[:1], "/")))
		return "/" + p, "http://h" + zzDots("/"+p)
	case 6:
		p := vt.String("net", 1, 2, "a")
		return "//" + p + "/x", "http://" + p + "/x"
	case 7:
		p := vt.String("other", 1, 2, "a")
		return "https://" + p + "/x?y#z", "https://" + p + "/x?y#z"
	case 8:
		p := vt.String("host", 1, 1, "ab")
		return "HTTP://" + p + "/", "http://" + p + "/"
	case 9:
		return vt.Pick("scheme", "mailto:", "ftp://x/", "javascript:", "tel:", "data:", "https+x://h/") + vt.String("rest", 0, 1, "a1"), ""
	case 10:
		return vt.Pick("bad", "http://[::1", "%zz", "http://h:x/", "\x7f", "http://a b/", ":a", " http://h/", "\thttp://h/", "\nx"), ""
	case 11:
		return "http:" + vt.String("opaque", 1, 1, "ab"), "?"
	case 12:
		p := vt.String("seg", 1, 1, "ab")
		return p + "?a#b", dir + p + "?a#b"
	default:
		p := vt.String("seg", 1, 1, "ab")
		x := vt.Pick("space", "x%20", " ", "x ")
		return x + p, dir + strings.ReplaceAll(x, " ", "%20") + p
	}
}

const zzDoc = `<html><head><link href="l"></head><body><a href="0">t</a><p><a href="1" class="x">u</a></p><ul><li><a class="x">n</a></li><li><a href="2">v</a></li></ul></body></html>`

func zzStrings(us URLs) []string {
	var out []string
	for _, u := range us {
		out = append(out, u.String())
	}
	return out
}

func zzSameList(label string, got URLs, want []string) {
	var w []string
	for _, s := range want {
		if s != "" {
			w = append(w, s)
		}
	}
	g := zzStrings(got)
	vt.Assert(label+"-count", len(g) == len(w), "not exactly the valid links were returned")
	for i := range g {
		if w[i] == "?" {
			continue
		}
		if w[i] == "same" {
			// An empty href is the page itself: net/url keeps the fragment,
			// RFC 3986 does not; both are the same document.
			g[i], _, _ = strings.Cut(g[i], "#")
			w[i] = "http://h/d/e?q"
		}
		vt.Assert(label+"-link", vt.EqStr(g[i], w[i]), "a link was not resolved as RFC 3986 says, or links are out of order")
		vt.Assert(label+"-scheme", got[i].Scheme == "http" || got[i].Scheme == "https", "a link with another scheme was returned")
		vt.Assert(label+"-absolute", got[i].Host != "", "a relative link was returned")
	}
}

// One link with every kind of href, between two fixed ones.
//
// verif: all preempt=0 len=3
// verif: thorough len=5
func Verif_P01_links() {
	vt.Expect("skipped", "resolved")
	raw := "http://h/d/e?q#frag"
	p := zzPage(raw, zzNewBody(zzDoc))
	root, err := p.Document()
	vt.Assert("document", err == nil && root != nil, "the document could not be parsed")
	as := zzElems(root, "a")
	vt.Assert("elements", len(as) == 4, "the document was parsed wrongly")
	href, want := zzHref(vt.Param("len", 3))
	zzSetAttr(as[1], "href", href)
	if want == "" {
		vt.Reach("skipped")
	} else {
		vt.Reach("resolved")
	}
	zzSameList("urls", p.URLs(), []string{"http://h/d/0", want, "http://h/d/2"})
	next, err := p.Next("a")
	vt.Assert("next", err == nil, "Next failed")
	zzSameList("next", next, []string{"http://h/d/0", want, "http://h/d/2"})
	next, err = p.Next("a.x")
	vt.Assert("next", err == nil, "Next failed")
	zzSameList("class", next, []string{want})
	next, err = p.Next("li a, link")
	vt.Assert("next", err == nil, "Next failed")
	zzSameList("group", next, []string{"http://h/d/l", "http://h/d/2"})
	next, err = p.Next(vt.Pick("sel", "a[", "", ">>", "nothing", "li"))
	vt.Assert("none", len(next) == 0 && err == nil, "an invalid or unmatched selector gave links")
	vt.Assert("page-url", p.URL.String() == raw, "the URL of the page was altered")
}

// Several symbolic links: order, duplicates and missing attributes.
//
// verif: all preempt=0
func Verif_P01_order() {
	vt.Expect("all", "few")
	raw := vt.Pick("base", "http://h/d/e", "https://h/", "http://h:81", "http://h/d/?x#y")
	p := zzPage(raw, zzNewBody(zzDoc))
	root, err := p.Document()
	vt.Assert("document", err == nil, "the document could not be parsed")
	base := zzMust(raw)
	if base.Path == "" {
		base.Path = "/"
	}
	dir := base.Scheme + "://" + base.Host + base.Path[:strings.LastIndexByte(base.Path, '/')+1]
	var want []string
	for _, a := range zzElems(root, "a") {
		a.Attr = nil
		switch vt.Choose("kind", 4) {
		case 0:
			s := vt.String("seg", 1, 1, "ab")
			zzSetAttr(a, "href", s)
			want = append(want, dir+s)
		case 1:
			zzSetAttr(a, "data-href", "zzz")
		case 2:
			zzSetAttr(a, "href", "mailto:"+vt.String("seg", 1, 1, "ab"))
		case 3:
			zzSetAttr(a, "x", "y")
			zzSetAttr(a, "href", "http://abs/")
			want = append(want, "http://abs/")
		}
	}
	if len(want) == 4 {
		vt.Reach("all")
	} else {
		vt.Reach("few")
	}
	zzSameList("urls", p.URLs(), want)
	next, err := p.Next("a")
	vt.Assert("next", err == nil, "Next failed")
	zzSameList("next", next, want)
	vt.Assert("page-url", p.URL.String() == raw, "the URL of the page was altered")
}

// The href comes through the HTML parser.
//
// verif: all preempt=0 len=2
// verif: thorough len=3
func Verif_P01_html() {
	vt.Expect("link", "skipped")
	s := vt.String("href", 0, vt.Param("len", 2), "a/.#:%")
	p := zzPage("http://h/d/e", zzNewBody(`<a href="`+s+`">x</a>`))
	got := p.URLs()
	u, err := url.Parse(s)
	if err == nil && !u.IsAbs() {
		u = zzMust("http://h/d/e").ResolveReference(u)
	}
	if err != nil || u.Scheme != "http" {
		vt.Reach("skipped")
		vt.Assert("skipped", len(got) == 0, "an invalid link was returned")
		return
	}
	vt.Reach("link")
	vt.Assert("link", len(got) == 1 && got[0].String() == u.String(), "a link was not returned or resolved wrongly")
}

type zzItem struct {
	Title string   `css:"title"`
	Links []string `css:"a@href"`
}

// zzView is what one call of a page method saw.
type zzView struct {
	root *html.Node
	err  error
	text string
}

// zzCall makes one call and checks its result against the document.
func zzCall(p *Page, k int, failed error) {
	bad := func(err error) {
		vt.Assert("error", err != nil && errors.Is(err, failed), "the read error was not returned")
	}
	switch k {
	case 0:
		n, err := p.Document()
		if failed != nil {
			vt.Assert("no-document", n == nil, "a document was returned with an error")
			bad(err)
			return
		}
		vt.Assert("document", err == nil && n != nil && n.Type == html.DocumentNode, "no document")
	case 1:
		s, err := p.HTML()
		if failed != nil {
			vt.Assert("no-html", s == "", "HTML was returned with an error")
			bad(err)
			return
		}
		vt.Assert("html", err == nil && s == `<html><head><title>t</title></head><body><a href="x">l</a></body></html>`, "wrong HTML")
	case 2:
		l := p.Query("a")
		vt.Assert("query", len(l) == 1 && failed == nil || len(l) == 0 && failed != nil, "wrong query result")
	case 3:
		s := p.Text("title")
		vt.Assert("text", s == "t" && failed == nil || s == "" && failed != nil, "wrong text")
	case 4:
		us := p.URLs()
		vt.Assert("urls", len(us) == 1 && us[0].String() == "http://h/x" && failed == nil || len(us) == 0 && failed != nil, "wrong URLs")
	case 5:
		us, err := p.Next("a")
		vt.Assert("next", err == nil && (len(us) == 1 && failed == nil || len(us) == 0 && failed != nil), "wrong next URLs")
	case 6:
		var it zzItem
		err := p.Scan(&it)
		if failed != nil {
			bad(err)
			return
		}
		vt.Assert("scan", err == nil && it.Title == "t" && len(it.Links) == 1 && it.Links[0] == "x", "wrong scan result")
	}
}

const zzDoc2 = `<title>t</title><a href="x">l</a>`

// Sequences of calls, with and without a failing body.
//
// verif: all preempt=0 calls=3
// verif: thorough calls=4
func Verif_P02_sequence() {
	vt.Expect("parsed", "failed")
	body := zzNewBody(zzDoc2)
	var failed error
	if vt.Bool("fail") {
		failed = vt.Error("error", errors.New("read"))
		body.failAt, body.err = vt.Int("fail-at", 0, len(zzDoc2)), failed
		body.failAt = int(vt.Concrete(int64(body.failAt)))
	}
	p := zzPage("http://h/", body)
	vt.Assert("lazy", body.off == 0 && body.closed == 0, "the body was read before it was needed")
	for i := 0; i < vt.Param("calls", 3); i++ {
		zzCall(p, vt.Choose("call", 7), failed)
		vt.Assert("closed", body.closed > 0, "the body is not closed after the first call")
		vt.Assert("drained", body.eof || failed != nil, "the body is not drained after the first call")
	}
	if failed != nil {
		vt.Reach("failed")
	} else {
		vt.Reach("parsed")
		a, _ := p.Document()
		b, _ := p.Document()
		vt.Assert("same", a == b, "two calls saw different documents")
		vt.Assert("same-node", zzElems(a, "a")[0] == p.Query("a")[0], "Query searched another document")
	}
}

// Concurrent calls.
//
// verif: all races
// verif: quick preempt=1 callers=2
// verif: thorough preempt=2 callers=3
func Verif_P02_concurrent() {
	vt.Expect("parsed", "failed")
	body := zzNewBody(zzDoc2)
	var failed error
	if vt.Bool("fail") {
		failed = vt.Error("error", errors.New("read"))
		body.failAt, body.err = 5, failed
	}
	p := zzPage("http://h/", body)
	n := vt.Param("callers", 2)
	ended := 0
	for i := 0; i < n; i++ {
		k := vt.Choose("call", 7)
		vt.Go(func() {
			zzCall(p, k, failed)
			vt.Assert("closed", body.closed > 0, "the body is not closed after a call")
			ended++
		})
	}
	vt.WaitUntil(func() bool { return ended == n })
	vt.Assert("drained", body.eof || failed != nil, "the body is not drained")
	if failed != nil {
		vt.Reach("failed")
	} else {
		vt.Reach("parsed")
	}
}
