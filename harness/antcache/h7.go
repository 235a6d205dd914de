package antcache

import (
	"net/http"
	"net/url"
	"strings"

	vt "github.com/yields/ant/internal/zzvt"
)

type zzTarget struct{ method, scheme, user, host, path, query string }

func (t *zzTarget) req() *http.Request {
	u := &url.URL{Scheme: t.scheme, Host: t.host, Path: t.path, RawQuery: t.query}
	if t.user != "" {
		u.User = url.User(t.user)
		if name, password, ok := strings.Cut(t.user, ":"); ok {
			u.User = url.UserPassword(name, password)
		}
	}
	return &http.Request{Method: t.method, URL: u, Host: t.host, Header: http.Header{}, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1}
}

// zzDraw draws the parts of a target that may differ.
func zzDraw(which, n int) *zzTarget {
	t := &zzTarget{method: "GET", scheme: "http", host: "h", path: "/p", query: "q"}
	switch which {
	case 0:
		t.method = vt.Pick("method", "GET", "HEAD")
		t.scheme = vt.Pick("scheme", "http", "https")
		if vt.Bool("user") {
			t.user = vt.Pick("name", "u", "v", "u:", "u:p", "u:q")
		}
	case 1:
		t.host = vt.String("host", 1, n, "aB:1")
	case 2:
		t.path = "/" + vt.String("path", 0, n, "aA/?:")
	case 3:
		t.query = vt.String("query", 0, n, "aA=&")
	case 4:
		t.path = "/" + vt.String("path", 0, 1, "a?")
		t.query = vt.String("query", 0, n, "a/?")
	case 5:
		t.host = vt.String("host", 1, 1, "ab")
		t.path = "/" + vt.String("path", 0, n, "ab/")
	}
	return t
}

// Two requests, of which the second may be served the response to the first.
//
// verif: quick preempt=0 len=2
// verif: thorough preempt=0 len=3
func Verif_H07_key() {
	vt.Expect("hit", "miss")
	n := vt.Param("len", 2)
	which := vt.Choose("which", 6)
	a, b := zzDraw(which, n), zzDraw(which, n)
	o := &zzOrigin{serve: func(n int, r *http.Request) (*http.Response, error) {
		body := ""
		if r.Method == "GET" {
			body = []string{"", "one", "two"}[n]
		}
		resp := zzResp(r, 200, zzNewBody(body))
		resp.Header.Set("Date", vt.HTTPDate(vt.Now()/1e9))
		resp.Header.Set("Cache-Control", "max-age=60")
		return resp, nil
	}}
	c := zzCache(o, &zzStore{}, zzStrategy()...)
	zzFetch(c, a.req())
	hit := zzSecond(c, o, b.req())
	same := vt.And(a.method == b.method, a.scheme == b.scheme, a.user == b.user, vt.EqStr(a.host, b.host), vt.EqStr(a.path, b.path), vt.EqStr(a.query, b.query))
	vt.Assert("key", vt.Iff(hit, same), "a stored response is served exactly for its own method and URL")
}
