package antcache

import (
	"errors"
	"io"
	"net/http"

	vt "github.com/yields/ant/internal/zzvt"
)

// zzHeaders is what the origin sends besides the lifetime.
func zzHeaders(h http.Header, v string) {
	h.Set("X-Val", v)
	h["X-Many"] = []string{"1", "2, 3", ""}
}

func zzSameHeaders(h http.Header, v string) {
	vt.Assert("headers", vt.EqStr(h.Get("X-Val"), v) && len(h["X-Val"]) == 1, "a header was altered")
	m := h["X-Many"]
	vt.Assert("headers", len(m) == 3 && m[0] == "1" && m[1] == "2, 3" && m[2] == "", "a header was altered")
}

// zzRead reads at most n times into buffers of size k and tells what it got.
func zzRead(r io.Reader, n, k int) (got string, err error) {
	buf := make([]byte, k)
	for i := 0; i < n && err == nil; i++ {
		var m int
		m, err = r.Read(buf)
		vt.Assert("count", m >= 0 && m <= k, "Read returned an impossible count")
		got += string(buf[:m])
	}
	return got, err
}

// One response: any way to deliver it and any way to read it.
//
// verif: all preempt=0 body=3
func Verif_H05_body() {
	vt.Expect("stored", "not-stored", "hit", "refetched")
	method := vt.Pick("method", "GET", "HEAD")
	want := vt.String("body", 0, vt.Param("body", 3), "a\r\n0")
	if method == "HEAD" {
		want = ""
	}
	body := zzNewBody(want)
	body.chunk = vt.Choose("chunk", 2) // 0: no limit
	body.withEOF = vt.Bool("with-eof")
	if vt.Bool("fails") {
		body.failAt = vt.Choose("fail-at", len(want)+1)
		body.err = vt.Error("read-error", zzErrRead)
	}
	if vt.Bool("close-fails") {
		body.closeErr = zzErrClose
	}
	length := vt.Choose("length", 3)
	status := 200
	if len(want) == 0 && length == 0 && method == "GET" {
		status = []int{404, 204}[vt.Choose("204", 2)]
	}
	st := &zzStore{}
	aggr := zzStrategy()
	o := &zzOrigin{serve: func(n int, r *http.Request) (*http.Response, error) {
		resp := zzResp(r, status, body)
		if n > 1 {
			resp.Body = zzNewBody(want)
		}
		switch length {
		case 1:
			resp.ContentLength = -1
		case 2:
			resp.ContentLength = -1
			resp.TransferEncoding = []string{"chunked"}
		}
		resp.Header.Set("Date", vt.HTTPDate(vt.Now()/1e9))
		resp.Header.Set("Cache-Control", "max-age=60")
		zzHeaders(resp.Header, "v")
		return resp, nil
	}}
	c := zzCache(o, st, aggr...)
	resp, err := c.Do(zzReq(method, "http://h/a"))
	vt.Assert("do", err == nil && resp != nil && resp.StatusCode == status, "Do failed")
	zzSameHeaders(resp.Header, "v")

	n := vt.Choose("reads", 6)
	got, rerr := zzRead(resp.Body, n, 1+vt.Choose("buffer", 2))
	whole := len(got) == len(want)
	vt.Assert("passed-through", vt.EqStr(got, want[:len(got)]), "the body read is not the one sent")
	if body.failAt >= 0 {
		vt.Assert("error", rerr == nil || rerr == body.err || (rerr == io.EOF && whole && body.withEOF), "the read error was replaced")
	} else {
		vt.Assert("error", rerr == nil || (rerr == io.EOF && whole), "reading ended early or failed")
	}
	vt.Assert("before-close", st.stores == 0, "stored before the body was closed")
	err = resp.Body.Close()
	vt.Assert("closed", body.closed == 1, "the origin's body was not closed")
	if body.closeErr != nil {
		vt.Assert("close-error", errors.Is(err, zzErrClose), "the error of closing the body was lost")
	} else {
		vt.Assert("close-error", err == nil, "Close failed")
	}
	switch {
	case rerr == io.EOF:
		vt.Assert("stored", st.stores == 1, "a response that was read to the end was not stored")
	case !whole:
		vt.Assert("truncated", st.stores == 0, "a response that was not read to the end was stored")
	case rerr != nil && length != 0 && method != "HEAD":
		vt.Assert("failed", st.stores == 0, "a response whose body failed was stored")
	case len(got) == 0 && n == 0 && length != 0 && method != "HEAD":
		vt.Assert("unread", st.stores == 0, "a response whose end was not seen was stored")
	}
	stores := st.stores
	if stores > 0 {
		vt.Reach("stored")
	} else {
		vt.Reach("not-stored")
	}
	resp.Body.Close()
	vt.Assert("once", st.stores == stores, "closing twice stored twice")

	resp, err = c.Do(zzReq(method, "http://h/a"))
	vt.Assert("do", err == nil && resp != nil && resp.StatusCode == status, "the second Do failed")
	zzSameHeaders(resp.Header, "v")
	if length == 0 {
		vt.Assert("length", resp.ContentLength == int64(len(want)), "the content length changed")
	}
	again, err := zzDrain(resp)
	vt.Assert("read", err == nil, "reading the second body failed")
	vt.Assert("same", vt.EqStr(again, want), "the body served is not the one sent")
	vt.Assert("calls", o.calls == 2-stores, "a stored response was not served, or one that was not stored was")
	if stores > 0 {
		vt.Reach("hit")
	} else {
		vt.Reach("refetched")
	}
}

// HEAD: the length is that of the resource.
//
// verif: all preempt=0
func Verif_H05_head() {
	vt.Expect("hit")
	st := &zzStore{}
	n := int64(vt.Choose("length", 4) * 500)
	o := &zzOrigin{serve: func(_ int, r *http.Request) (*http.Response, error) {
		resp := zzResp(r, 200, zzNewBody(""))
		if r.Method == "HEAD" {
			resp.ContentLength = n
		}
		resp.Header.Set("Date", vt.HTTPDate(vt.Now()/1e9))
		resp.Header.Set("Cache-Control", "max-age=60")
		zzHeaders(resp.Header, "v")
		return resp, nil
	}}
	c := zzCache(o, st, zzStrategy()...)
	for i := 0; i < 3; i++ {
		resp, err := c.Do(zzReq("HEAD", "http://h/a"))
		vt.Assert("do", err == nil && resp != nil && resp.StatusCode == 200, "Do failed")
		zzSameHeaders(resp.Header, "v")
		vt.Assert("length", resp.ContentLength == n, "the content length changed")
		if i == 0 && vt.Bool("unread") {
			resp.Body.Close()
			continue
		}
		b, err := zzDrain(resp)
		vt.Assert("empty", err == nil && b == "", "a HEAD response has a body")
	}
	vt.Reach("hit")
	vt.Assert("calls", o.calls == 1 && st.stores == 1, "the response was not served from the storage")
	// GET is another key.
	zzFetch(c, zzReq("GET", "http://h/a"))
	vt.Assert("method", o.calls == 2, "the response to a HEAD was served for a GET")
}

// Headers of any value.
//
// verif: all preempt=0
func Verif_H05_headers() {
	vt.Expect("hit")
	v := vt.String("value", 0, 2, "aZ:, \"=")
	if len(v) > 0 {
		vt.Assume(v[0] != ' ' && v[len(v)-1] != ' ')
	}
	o := &zzOrigin{serve: func(_ int, r *http.Request) (*http.Response, error) {
		resp := zzResp(r, 200, zzNewBody("b"))
		resp.Header.Set("Date", vt.HTTPDate(vt.Now()/1e9))
		resp.Header.Set("Cache-Control", "max-age=60")
		if vt.Bool("vary") {
			resp.Header.Set("Vary", "X-Sel")
		}
		zzHeaders(resp.Header, v)
		return resp, nil
	}}
	c := zzCache(o, &zzStore{}, zzStrategy()...)
	req := zzReq("GET", "http://h/a")
	req.Header.Set("X-Sel", "s")
	n := 0
	for i := 0; i < 3; i++ {
		resp, err := c.Do(req)
		vt.Assert("do", err == nil && resp != nil, "Do failed")
		zzSameHeaders(resp.Header, v)
		_, from := resp.Header["X-From-Cache"]
		vt.Assert("from", from == (i > 0), "X-From-Cache is wrong")
		if i == 0 {
			n = len(resp.Header)
		} else {
			delete(resp.Header, "X-From-Cache")
			delete(resp.Header, "Content-Length")
			vt.Assert("no-more", len(resp.Header) == n, "a header was added or removed")
		}
		b, err := zzDrain(resp)
		vt.Assert("body", err == nil && b == "b", "the body is wrong")
	}
	vt.Reach("hit")
	vt.Assert("calls", o.calls == 1, "the response was not served from the storage")
}

// A validated response that is read in part leaves the stored one as it is.
//
// verif: all preempt=0
func Verif_H05_validated() {
	vt.Expect("whole", "part")
	z := zzNewStale("GET")
	vt.Assume(len(z.stored) == 2 && z.why != 1)
	full := vt.Bool("full")
	next := z.stored
	if full {
		next = "new"
	}
	z.o.serve = func(_ int, r *http.Request) (*http.Response, error) {
		var resp *http.Response
		if full {
			resp = zzResp(r, 200, zzNewBody(next))
		} else {
			resp = zzResp(r, 304, zzNewBody(""))
			if vt.Bool("304-length") {
				resp.ContentLength = -1
			}
		}
		resp.Header.Set("Date", vt.HTTPDate(z.now))
		resp.Header.Set("Cache-Control", "max-age=60")
		return resp, nil
	}
	resp, err := z.c.Do(z.req("GET"))
	vt.Assert("do", err == nil && resp != nil, "Do failed")
	n := vt.Choose("reads", 3)
	got, rerr := zzRead(resp.Body, n, 1)
	vt.Assert("read", (rerr == nil || rerr == io.EOF && n == len(next)) && vt.EqStr(got, next[:n]), "the body read is wrong")
	whole := n == len(next)
	if rerr == nil && vt.Bool("rest") {
		rest, rerr := zzRead(resp.Body, 5, 8)
		vt.Assert("read", rerr == io.EOF && vt.EqStr(got+rest, next), "the body read is wrong")
		whole = true
	}
	err = resp.Body.Close()
	vt.Assert("close", err == nil, "Close failed")
	calls := z.o.calls
	resp, err = z.c.Do(zzReq("GET", "http://h/a"))
	vt.Assert("do", err == nil && resp != nil, "Do failed")
	again, err := zzDrain(resp)
	vt.Assert("again", err == nil && vt.Or(vt.EqStr(again, next), vt.And(!whole, vt.EqStr(again, z.stored))), "the body served later is not the one sent")
	if whole {
		vt.Reach("whole")
		vt.Assert("stored", z.o.calls == calls, "the response was not stored")
	} else {
		vt.Reach("part")
	}
}
