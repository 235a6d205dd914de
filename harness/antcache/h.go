package antcache

import (
	"context"
	"errors"
	"io"
	"net/http"
	"strings"
	"time"

	vt "github.com/yields/ant/internal/zzvt"
)

var (
	zzErrLoad   = errors.New("load")
	zzErrStore  = errors.New("store")
	zzErrClient = errors.New("client")
	zzErrRead   = errors.New("read")
	zzErrClose  = errors.New("close")
)

// zzStore is a storage that records what happens to it.
type zzStore struct {
	m       map[uint64][]byte
	loads   int
	stores  int
	loadErr error
	stErr   error
}

func (s *zzStore) Load(ctx context.Context, key uint64) ([]byte, error) {
	s.loads++
	if s.loadErr != nil {
		return nil, s.loadErr
	}
	if v, ok := s.m[key]; ok {
		return append([]byte(nil), v...), nil
	}
	return nil, nil
}

func (s *zzStore) Store(ctx context.Context, key uint64, v []byte) error {
	s.stores++
	if s.stErr != nil {
		return s.stErr
	}
	if s.m == nil {
		s.m = map[uint64][]byte{}
	}
	s.m[key] = append([]byte(nil), v...)
	return nil
}

// zzBody is a response body: short reads, optional failure, counts closes.
type zzBody struct {
	s        string
	off      int
	chunk    int
	failAt   int
	err      error
	closeErr error
	closed   int
	withEOF  bool // the last bytes come together with io.EOF
}

func zzNewBody(s string) *zzBody { return &zzBody{s: s, failAt: -1} }

func (b *zzBody) Read(p []byte) (int, error) {
	if b.closed > 0 {
		return 0, errors.New("read of a closed body")
	}
	end := len(b.s)
	if b.failAt >= 0 && b.failAt < end {
		end = b.failAt
	}
	if b.off == end {
		if b.failAt >= 0 {
			return 0, b.err
		}
		return 0, io.EOF
	}
	if b.chunk > 0 && len(p) > b.chunk {
		p = p[:b.chunk]
	}
	n := copy(p, b.s[b.off:end])
	b.off += n
	if b.withEOF && b.off == len(b.s) {
		return n, io.EOF
	}
	return n, nil
}

func (b *zzBody) Close() error { b.closed++; return b.closeErr }

// zzClient is the origin.
type zzClient func(*http.Request) (*http.Response, error)

func (f zzClient) Do(r *http.Request) (*http.Response, error) { return f(r) }

func zzReq(method, url string) *http.Request {
	r, err := http.NewRequest(method, url, nil)
	vt.Assert("request", err == nil, "the request could not be built")
	return r
}

// zzResp is a response as net/http would deliver it.
func zzResp(r *http.Request, status int, body *zzBody) *http.Response {
	resp := &http.Response{
		StatusCode: status,
		Proto:      "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header:        http.Header{},
		Body:          body,
		ContentLength: int64(len(body.s)),
		Request:       r,
	}
	if r.Method == "HEAD" {
		body.s = ""
	}
	return resp
}

func zzCache(c Client, s Storage, opts ...Option) *Cache {
	cache, err := New(c, append([]Option{WithStorage(s)}, opts...)...)
	vt.Assert("new", err == nil, "New failed")
	return cache
}

// zzStrategy is no option, or the aggressive strategy.
func zzStrategy() []Option {
	if vt.Bool("aggressive") {
		return []Option{Aggressive(time.Hour)}
	}
	return nil
}

// zzDrain reads the body to its end and closes it.
func zzDrain(resp *http.Response) (string, error) {
	b, err := io.ReadAll(resp.Body)
	if cerr := resp.Body.Close(); err == nil {
		err = cerr
	}
	return string(b), err
}

// zzCase is s with the letters at even or odd places in either case.
func zzCase(s string) string {
	out := ""
	odd := vt.Choose("odd", 2)
	for i := 0; i < len(s); i++ {
		c := s[i : i+1]
		if u := strings.ToUpper(c); u != c {
			if i%2 == odd {
				c = string([]byte{vt.Byte("case", c+u)})
			} else {
				c = u
			}
		}
		out += c
	}
	return out
}

// zzSpell is the directive d as it may appear among others.
func zzSpell(d string) []string {
	switch vt.Choose("spelling", 7) {
	case 0:
		return []string{d}
	case 1:
		return []string{zzCase(d)}
	case 2:
		return []string{"x-a, " + d}
	case 3:
		return []string{" " + d + " ,x-a=1"}
	case 4:
		return []string{"x-a=\"b\"", d}
	case 5:
		return []string{"x-a,\t" + d + ",,"}
	default:
		return []string{"", "x-a", "x-b," + d}
	}
}

// Requests that bypass the cache.
//
// verif: all preempt=0
func Verif_H01_bypass() {
	vt.Expect("bypass", "cache")
	method := vt.Pick("method", "GET", "HEAD", "POST", "PUT", "get")
	req := zzReq(method, "http://h/a")
	bypass := method != "GET" && method != "HEAD"
	cc := vt.Choose("cc", 4)
	hdr := 0
	if cc == 0 {
		hdr = vt.Choose("header", 5)
	}
	for i, k := range []string{"Range", "Content-Range", "Authorization"} {
		if hdr == i+1 || hdr == 4 {
			req.Header.Set(k, vt.String("value", 1, 2, "ab= "))
			bypass = true
		}
	}
	switch cc {
	case 1:
		req.Header["Cache-Control"] = zzSpell("no-store")
		bypass = true
	case 2:
		req.Header["Cache-Control"] = zzSpell(vt.Pick("near", "no-stor", "no-storee", "no-cache", "max-age=0", "xno-store"))
	case 3:
		req.Header["Cache-Control"] = []string{""}
	}
	before := req.Header.Clone()
	st := &zzStore{}
	calls := 0
	body := zzNewBody("body")
	resp := zzResp(req, 200, body)
	resp.Header.Set("Date", vt.HTTPDate(vt.Now()/1e9))
	resp.Header.Set("Cache-Control", "max-age=60")
	var cerr error
	then := vt.Choose("then", 3)
	if then == 1 {
		cerr = zzErrClient
	}
	c := zzCache(zzClient(func(r *http.Request) (*http.Response, error) {
		calls++
		vt.Assert("same-request", !bypass || r == req, "the request was replaced")
		vt.Assert("headers", len(r.Header) == len(before), "the headers were changed")
		for k, vs := range before {
			vt.Assert("headers", len(r.Header[k]) == len(vs), "the headers were changed")
			for i, v := range vs {
				vt.Assert("headers", vt.EqStr(r.Header[k][i], v), "the headers were changed")
			}
		}
		if cerr != nil {
			return nil, cerr
		}
		return resp, nil
	}), st, zzStrategy()...)
	for i := 1; i <= 2; i++ {
		got, err := c.Do(req)
		if !bypass {
			vt.Reach("cache")
			vt.Assert("looked-up", st.loads == i, "a cacheable request was not looked up")
			return
		}
		vt.Reach("bypass")
		vt.Assert("origin", calls == i, "the request was not sent to the origin exactly once")
		if cerr != nil {
			vt.Assert("error", got == nil && err == cerr, "the client's error was not returned unchanged")
			continue
		}
		vt.Assert("response", err == nil && got == resp && got.Body == io.ReadCloser(body) && got.StatusCode == 200 && len(got.Header) == 2, "the response was changed")
		if i == 1 && then == 2 {
			_, err = zzDrain(got)
			vt.Assert("drain", err == nil, "reading the body failed")
			vt.Assert("untouched", st.loads == 0 && st.stores == 0, "the storage was used")
			body.closed, body.off = 0, 0
		}
		vt.Assert("untouched", st.loads == 0 && st.stores == 0, "the storage was used")
	}
}
