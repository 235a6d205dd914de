package antcache

import (
	"errors"
	"net/http"

	vt "github.com/yields/ant/internal/zzvt"
)

// zzStale is a cache that holds a stale response for GET http://h/a.
type zzStale struct {
	st       *zzStore
	o        *zzOrigin
	c        *Cache
	now      int64
	stored   string // its body
	etag, lm string
	why      int
}

// zzNewStale stores a response that is stale because of its age, of the
// request, or of itself.
func zzNewStale(method string) *zzStale {
	z := &zzStale{st: &zzStore{}, o: &zzOrigin{}, now: vt.Now() / 1e9}
	z.why = vt.Choose("stale", 3)
	z.stored = vt.String("stored", 0, 2, "ab\r\n")
	if method == "HEAD" {
		z.stored = ""
	}
	if vt.Bool("etag") {
		z.etag = vt.String("etag-v", 1, 2, "ab\"")
	}
	if vt.Bool("last-modified") {
		z.lm = vt.Pick("lm-v", "Mon, 02 Jan 2006 15:04:05 GMT", "x")
	}
	z.o.serve = func(n int, r *http.Request) (*http.Response, error) {
		resp := zzResp(r, 203, zzNewBody(z.stored))
		resp.Header.Set("X-Both", "old")
		resp.Header.Set("X-Old", "old")
		if z.etag != "" {
			resp.Header.Set("Etag", z.etag)
		}
		if z.lm != "" {
			resp.Header.Set("Last-Modified", z.lm)
		}
		resp.Header.Set("Date", vt.HTTPDate(z.now))
		resp.Header.Set("Cache-Control", "max-age=50")
		switch z.why {
		case 0:
			resp.Header.Set("Date", vt.HTTPDate(z.now-100))
		case 1:
			resp.Header.Set("Cache-Control", "max-age=50, no-cache")
		}
		return resp, nil
	}
	z.c = zzCache(z.o, z.st)
	zzFetch(z.c, zzReq(method, "http://h/a"))
	vt.Assert("stored", z.st.stores == 1, "the response was not stored")
	return z
}

// req is a request that finds the stored response to be stale.
func (z *zzStale) req(method string) *http.Request {
	req := zzReq(method, "http://h/a")
	req.Header.Set("X-Req", "r")
	if z.why == 2 {
		req.Header.Set("Cache-Control", "no-cache")
	}
	return req
}

// conditional checks a request that is to validate the stored response.
func (z *zzStale) conditional(got, req *http.Request) {
	n := len(req.Header)
	if z.etag != "" {
		n++
		vt.Assert("etag", vt.EqStr(got.Header.Get("If-None-Match"), z.etag), "the stored ETag was not sent")
	}
	if z.lm != "" {
		n++
		vt.Assert("last-modified", got.Header.Get("If-Modified-Since") == z.lm, "the stored Last-Modified was not sent")
	}
	vt.Assert("conditional", len(got.Header) == n, "other headers were added to the request")
	z.plain(got, req)
}

// plain checks the parts of a request that are sent as they are.
func (z *zzStale) plain(got, req *http.Request) {
	vt.Assert("plain", got.Method == req.Method && got.URL.String() == "http://h/a" && got.Header.Get("X-Req") == "r" && got.Header.Get("Cache-Control") == req.Header.Get("Cache-Control"), "the request sent is not the caller's")
	vt.Assert("context", got.Context() == req.Context(), "the request sent has another context")
}

// serves checks what resp is and reads it.
func zzServes(resp *http.Response, err error, status int, body string, stored bool) {
	vt.Assert("served", err == nil && resp != nil, "Do failed")
	vt.Assert("status", resp.StatusCode == status, "the status is wrong")
	_, has := resp.Header["X-From-Cache"]
	vt.Assert("x-from-cache", has == stored, "X-From-Cache marks exactly the responses from the store")
	b, err := zzDrain(resp)
	vt.Assert("read", err == nil, "reading the body failed")
	vt.Assert("body", vt.EqStr(b, body), "the body is wrong")
}

// 304: the stored response is served, updated.
//
// verif: all preempt=0
func Verif_H04_notmodified() {
	vt.Expect("served", "hit")
	method := vt.Pick("method", "GET", "HEAD")
	z := zzNewStale(method)
	req := z.req(method)
	n := len(req.Header)
	body := zzNewBody("")
	z.o.serve = func(_ int, r *http.Request) (*http.Response, error) {
		z.conditional(r, req)
		resp := zzResp(r, 304, body)
		resp.Header.Set("Date", vt.HTTPDate(z.now))
		resp.Header.Set("Cache-Control", "max-age=60")
		resp.Header.Set("X-Both", "new")
		resp.Header["X-New"] = []string{"new", "newer"}
		for _, k := range []string{"Keep-Alive", "Proxy-Authenticate", "Te", "Upgrade"} {
			resp.Header.Set(k, "hop")
		}
		return resp, nil
	}
	headers := func(h http.Header) {
		vt.Assert("merged", h.Get("X-Both") == "new" && h.Get("X-Old") == "old" && len(h["X-New"]) == 2 && h["X-New"][1] == "newer" && h.Get("Cache-Control") == "max-age=60", "the headers are not those of the stored response updated by the 304")
		vt.Assert("hop", h.Get("Keep-Alive") == "" && h.Get("Proxy-Authenticate") == "" && h.Get("Te") == "" && h.Get("Upgrade") == "", "a header of the connection was stored")
		vt.Assert("etag-kept", vt.EqStr(h.Get("Etag"), z.etag) && h.Get("Last-Modified") == z.lm, "a validator was lost")
		vt.Assert("internal", len(h["X-Varied-X-Req"]) == 0, "an internal header is visible")
	}
	resp, err := z.c.Do(req)
	vt.Assert("calls", z.o.calls == 2, "the origin was not asked exactly once")
	vt.Assert("req-unchanged", len(req.Header) == n, "the caller's request was changed")
	vt.Assert("closed", body.closed > 0, "the body of the 304 was not closed")
	vt.Assert("do", err == nil && resp != nil, "Do failed")
	headers(resp.Header)
	zzServes(resp, err, 203, z.stored, true)
	vt.Reach("served")
	vt.Assert("updated", z.st.stores == 2, "the stored response was not updated")
	// The response is fresh again.
	z.o.serve = func(_ int, r *http.Request) (*http.Response, error) {
		vt.Fail("fresh", "the validated response is not fresh")
		return nil, zzErrClient
	}
	resp, err = z.c.Do(zzReq(method, "http://h/a"))
	vt.Assert("do", err == nil && resp != nil, "Do failed")
	headers(resp.Header)
	zzServes(resp, err, 203, z.stored, true)
	vt.Reach("hit")
}

// A full response that can be stored replaces the stored one.
//
// verif: all preempt=0
func Verif_H04_replaced() {
	vt.Expect("served", "hit")
	z := zzNewStale("GET")
	req := z.req("GET")
	status := vt.Int("status", 100, 499)
	vt.Assume(zzStatusOK(status))
	next := vt.String("next", 0, 2, "cd")
	z.o.serve = func(_ int, r *http.Request) (*http.Response, error) {
		z.conditional(r, req)
		resp := zzResp(r, status, zzNewBody(next))
		if vt.Bool("unknown-length") {
			resp.ContentLength = -1
		}
		resp.Header.Set("Date", vt.HTTPDate(z.now))
		resp.Header.Set("Cache-Control", "max-age=60")
		return resp, nil
	}
	if status == 204 {
		next = ""
	}
	resp, err := z.c.Do(req)
	vt.Assert("do", err == nil && resp != nil, "Do failed")
	vt.Assert("replaced", resp.Header.Get("X-Old") == "" && resp.Header.Get("Etag") == "", "the full response has headers of the stored one")
	zzServes(resp, err, status, next, false)
	vt.Assert("calls", z.o.calls == 2, "the origin was not asked exactly once")
	vt.Reach("served")
	vt.Assert("stores", z.st.stores == 2, "the stored response was not replaced")
	z.o.serve = nil
	resp, err = z.c.Do(zzReq("GET", "http://h/a"))
	vt.Assert("do", err == nil && resp != nil, "Do failed")
	vt.Assert("replaced", resp.Header.Get("X-Old") == "" && resp.Header.Get("Etag") == "", "the stored response has headers of the one it replaced")
	zzServes(resp, err, status, next, true)
	vt.Reach("hit")
}

// A 5xx is forwarded, or hidden if the request says stale-if-error.
//
// verif: all preempt=0
func Verif_H04_servererror() {
	vt.Expect("forwarded", "hidden")
	z := zzNewStale("GET")
	req := z.req("GET")
	hide := vt.Bool("stale-if-error")
	if hide {
		v := []string{vt.Pick("directive", "stale-if-error", "stale-if-error=60")}
		if z.why == 0 && z.etag == "" && z.lm == "" && len(z.stored) == 0 {
			v = zzSpell(v[0])
		}
		req.Header["Cache-Control"] = append(req.Header["Cache-Control"], v...)
	} else if z.why == 0 && vt.Bool("other") {
		req.Header["Cache-Control"] = []string{"stale-if-erro, max-age=1"}
	}
	status := vt.Int("status", 500, 599)
	body := zzNewBody("oops")
	z.o.serve = func(_ int, r *http.Request) (*http.Response, error) {
		z.conditional(r, req)
		resp := zzResp(r, status, body)
		if vt.Bool("storable") {
			resp.Header.Set("Date", vt.HTTPDate(z.now))
			resp.Header.Set("Cache-Control", "max-age=60")
		}
		return resp, nil
	}
	resp, err := z.c.Do(req)
	if hide {
		vt.Reach("hidden")
		vt.Assert("closed", body.closed > 0, "the body of the 5xx was not closed")
		vt.Assert("old", err == nil && resp.Header.Get("X-Both") == "old", "the headers are not those of the stored response")
		zzServes(resp, err, 203, z.stored, true)
	} else {
		vt.Reach("forwarded")
		vt.Assert("do", err == nil && resp != nil, "Do failed")
		vt.Assert("replaced", resp.Header.Get("X-Old") == "" && resp.Header.Get("Etag") == "", "the forwarded response has headers of the stored one")
		zzServes(resp, err, status, "oops", false)
		vt.Assert("closed", body.closed > 0, "the body of the 5xx was not closed")
	}
	vt.Assert("calls", z.o.calls == 2, "the origin was not asked exactly once")
	vt.Assert("internal", z.st.stores == 1, "the stored response was changed")
}

// Anything else leads to an unconditional fetch.
//
// verif: all preempt=0
func Verif_H04_other() {
	vt.Expect("not-stored", "stored", "failed")
	z := zzNewStale("GET")
	req := z.req("GET")
	n := len(req.Header)
	body := zzNewBody("first")
	kind := vt.Choose("other", 3)
	status := 200
	if kind == 0 {
		status = vt.Int("status", 200, 499)
		vt.Assume(vt.And(status != 304, vt.Not(zzStatusOK(status))))
	}
	next := vt.Choose("next", 3)
	second := zzNewBody("second")
	z.o.serve = func(calls int, r *http.Request) (*http.Response, error) {
		if calls == 2 {
			z.conditional(r, req)
			resp := zzResp(r, status, body)
			if kind != 2 {
				resp.Header.Set("Date", vt.HTTPDate(z.now))
			}
			resp.Header.Set("Cache-Control", "max-age=60")
			if kind == 1 {
				resp.Header.Set("Cache-Control", "no-store, max-age=60")
			}
			return resp, nil
		}
		vt.Assert("fetch", calls == 3 && len(r.Header) == n, "the second request is not unconditional")
		z.plain(r, req)
		switch next {
		case 0:
			return nil, zzErrClient
		case 1:
			resp := zzResp(r, 500, second)
			return resp, nil
		}
		resp := zzResp(r, 200, second)
		resp.Header.Set("Date", vt.HTTPDate(z.now))
		resp.Header.Set("Cache-Control", "max-age=60")
		return resp, nil
	}
	resp, err := z.c.Do(req)
	vt.Assert("closed", body.closed > 0, "the body of the first response was not closed")
	vt.Assert("calls", z.o.calls == 3, "the origin was not asked again, once")
	switch next {
	case 0:
		vt.Reach("failed")
		vt.Assert("error", resp == nil && errors.Is(err, zzErrClient), "the client's error was not returned")
		vt.Assert("kept", z.st.stores == 1, "the stored response was changed")
	case 1:
		vt.Reach("not-stored")
		zzServes(resp, err, 500, "second", false)
		vt.Assert("kept", z.st.stores == 1, "the stored response was changed")
	case 2:
		vt.Reach("stored")
		zzServes(resp, err, 200, "second", false)
		vt.Assert("stores", z.st.stores == 2, "the response was not stored")
		z.o.serve = nil
		resp, err = z.c.Do(zzReq("GET", "http://h/a"))
		zzServes(resp, err, 200, "second", true)
	}
}

// Errors of the client and of the storage.
//
// verif: all preempt=0
func Verif_H04_errors() {
	vt.Expect("load", "client", "store", "corrupt", "first", "fresh")
	where := vt.Choose("where", 5)
	zzErrClient, zzErrLoad, zzErrStore := zzErrClient, zzErrLoad, zzErrStore
	if err := vt.Error("error", nil); err != nil {
		zzErrClient, zzErrLoad, zzErrStore = err, err, err
	}
	if where == 4 {
		o := &zzOrigin{}
		st := &zzStore{}
		c := zzCache(o, st, zzStrategy()...)
		vt.Reach("first")
		o.serve = func(int, *http.Request) (*http.Response, error) { return nil, zzErrClient }
		resp, err := c.Do(zzReq("GET", "http://h/a"))
		vt.Assert("error", resp == nil && errors.Is(err, zzErrClient), "the client's error was not returned")
		vt.Assert("kept", st.stores == 0 && len(st.m) == 0, "an error was stored")
		return
	}
	z := zzNewStale("GET")
	req := z.req("GET")
	body := zzNewBody("")
	status := 304
	if vt.Bool("full") {
		status = 200
	}
	z.o.serve = func(_ int, r *http.Request) (*http.Response, error) {
		if where == 1 {
			return nil, zzErrClient
		}
		resp := zzResp(r, status, body)
		resp.Header.Set("Date", vt.HTTPDate(z.now))
		resp.Header.Set("Cache-Control", "max-age=60")
		return resp, nil
	}
	switch where {
	case 0:
		vt.Reach("load")
		z.st.loadErr = zzErrLoad
		resp, err := z.c.Do(req)
		vt.Assert("error", resp == nil && errors.Is(err, zzErrLoad), "the storage's error was not returned")
		vt.Assert("calls", z.o.calls == 1, "the origin was asked")
	case 1:
		vt.Reach("client")
		resp, err := z.c.Do(req)
		vt.Assert("error", resp == nil && errors.Is(err, zzErrClient), "the client's error was not returned")
		vt.Assert("kept", z.st.stores == 1, "the stored response was changed")
	case 2:
		vt.Reach("store")
		z.st.stErr = zzErrStore
		resp, err := z.c.Do(req)
		vt.Assert("do", err == nil && resp != nil, "Do failed")
		_, err = zzDrain(resp)
		vt.Assert("error", errors.Is(err, zzErrStore), "the storage's error was not returned by Close")
	case 3:
		vt.Reach("corrupt")
		for k, v := range z.st.m {
			z.st.m[k] = v[:1+vt.Choose("cut", 12)]
		}
		resp, err := z.c.Do(req)
		vt.Assert("error", resp == nil && err != nil, "an unreadable stored response is served")
	}
	if where == 0 {
		z.st.loadErr = nil
		vt.Reach("fresh")
		zzFetch(z.c, zzReq("GET", "http://h/a"))
	}
}
