package antcache

import (
	"net/http"
	"time"

	vt "github.com/yields/ant/internal/zzvt"
)

// Every status and every Date.
//
// verif: all preempt=0
func Verif_H06_stored() {
	vt.Expect("stored", "not-stored")
	req := zzReq(vt.Pick("method", "GET", "HEAD"), "http://h/a")
	status := vt.Int("status", 100, 999)
	date := vt.Choose("date", 4)
	st := &zzStore{}
	c := zzCache(zzClient(func(r *http.Request) (*http.Response, error) {
		resp := zzResp(r, status, zzNewBody(""))
		switch date {
		case 0:
			resp.Header.Set("Date", vt.HTTPDate(zzTime("date-s")))
		case 1:
			resp.Header.Set("Date", vt.Pick("bad-date", "0", "yesterday", "Mon, 02 Jan 2006"))
		case 2:
			resp.Header.Set("Date", "")
		}
		return resp, nil
	}), st, Aggressive(time.Duration(vt.Int64("age", -1<<63, 1<<63-1))))
	zzFetch(c, req)
	if st.stores > 0 {
		vt.Reach("stored")
	} else {
		vt.Reach("not-stored")
	}
	vt.Assert("stored", vt.Iff(st.stores == 1, vt.And(date == 0, zzStatusOK(status))), "a response is stored exactly if its status is storable and it has a Date")
}

// The directives of the response do not matter.
//
// verif: all preempt=0
func Verif_H06_directives() {
	vt.Expect("hit")
	o := &zzOrigin{serve: func(_ int, r *http.Request) (*http.Response, error) {
		resp := zzResp(r, 200, zzNewBody("b"))
		resp.Header.Set("Date", vt.HTTPDate(vt.Now()/1e9))
		switch vt.Choose("has", 3) {
		case 0:
			resp.Header["Cache-Control"] = zzSpell(vt.Pick("directive", "no-store", "no-cache", "private", "must-revalidate", "max-age=0", "s-maxage=0"))
		case 1:
			resp.Header.Set(vt.Pick("field", "Pragma", "Vary", "Expires", "Set-Cookie"), vt.Pick("value", "no-cache", "*", "0", "a=b"))
		}
		return resp, nil
	}}
	st := &zzStore{}
	c := zzCache(o, st, Aggressive(time.Hour))
	req := zzReq("GET", "http://h/a")
	zzFetch(c, req)
	vt.Assert("stored", st.stores == 1, "the response was not stored")
	hit := zzSecond(c, o, req)
	vt.Assert("hit", hit, "the stored response was not served")
}

// Every age.
//
// verif: all preempt=0
func Verif_H06_age() {
	vt.Expect("hit", "miss")
	age := vt.Int64("age", -1<<63, 1<<63-1)
	now, date := zzNow(), zzTime("date-s")
	vt.SetNow(now * 1e9)
	o := &zzOrigin{serve: func(n int, r *http.Request) (*http.Response, error) {
		resp := zzResp(r, 200, zzNewBody([]string{"old", "new"}[n-1]))
		if n == 2 {
			vt.Assert("unconditional", len(r.Header) == 0, "an expired response is not fetched unconditionally")
			resp.Header.Set("Date", vt.HTTPDate(now))
		} else {
			resp.Header.Set("Date", vt.HTTPDate(date))
			resp.Header.Set("Etag", "e")
			resp.Header.Set("Last-Modified", "Mon, 02 Jan 2006 15:04:05 GMT")
		}
		return resp, nil
	}}
	st := &zzStore{}
	c := zzCache(o, st, Aggressive(time.Duration(age)))
	req := zzReq("GET", "http://h/a")
	zzFetch(c, req)
	limit := vt.IteInt(age > 0, age, int64(24*time.Hour))
	hit := zzSecond(c, o, req)
	vt.Assert("age", vt.Iff(hit, (now-date)*1e9 < limit), "a stored response is served exactly if its age is below the limit")
	if !hit {
		hit = zzSecond(c, o, req)
		vt.Assert("again", hit, "the response fetched afterwards is not served")
	}
}

// no-cache and no-store in the request, in any spelling.
//
// verif: all preempt=0
func Verif_H06_request() {
	vt.Expect("hit", "miss", "bypass")
	o := &zzOrigin{serve: func(n int, r *http.Request) (*http.Response, error) {
		resp := zzResp(r, 200, zzNewBody("b"))
		resp.Header.Set("Date", vt.HTTPDate(vt.Now()/1e9))
		resp.Header.Set("Etag", "e")
		return resp, nil
	}}
	st := &zzStore{}
	c := zzCache(o, st, Aggressive(time.Hour))
	zzFetch(c, zzReq("GET", "http://h/a"))
	req := zzReq("GET", "http://h/a")
	where := vt.Choose("where", 3)
	switch where {
	case 0:
		req.Header["Cache-Control"] = zzSpell("no-cache")
	case 1:
		req.Header["Cache-Control"] = zzSpell("no-store")
	case 2:
		req.Header["Cache-Control"] = zzSpell(vt.Pick("near", "no-cach", "max-age=0", "nocache"))
	}
	loads, stores := st.loads, st.stores
	hit := zzSecond(c, o, req)
	switch where {
	case 0:
		vt.Assert("no-cache", !hit, "a request that says no-cache was answered from the store")
		vt.Assert("stored", st.stores == stores+1, "the response to a request that says no-cache was not stored")
	case 1:
		vt.Reach("bypass")
		vt.Assert("no-store", !hit && st.loads == loads && st.stores == stores, "a request that says no-store used the store")
	case 2:
		vt.Assert("hit", hit, "the stored response was not served")
	}
}

// no-cache with an expired response, and one whose Date is in the future.
//
// verif: all preempt=0
func Verif_H06_nocache() {
	vt.Expect("miss")
	now, date := zzNow(), zzTime("date-s")
	vt.SetNow(now * 1e9)
	failing := vt.Choose("answer", 3)
	o := &zzOrigin{serve: func(n int, r *http.Request) (*http.Response, error) {
		resp := zzResp(r, 200, zzNewBody([]string{"old", "new", "newer"}[n-1]))
		resp.Header.Set("Date", vt.HTTPDate(date))
		resp.Header.Set("Etag", "e")
		if n > 1 {
			resp.StatusCode = []int{200, 500, 304}[failing]
		}
		return resp, nil
	}}
	c := zzCache(o, &zzStore{}, Aggressive(0))
	zzFetch(c, zzReq("GET", "http://h/a"))
	req := zzReq("GET", "http://h/a")
	req.Header.Set("Cache-Control", vt.Pick("cc", "no-cache", "max-stale, no-cache", "only-if-cached, no-cache", "no-cache, stale-if-error"))
	resp, err := c.Do(req)
	vt.Assert("do", err == nil && resp != nil, "Do failed")
	_, from := resp.Header["X-From-Cache"]
	b, err := zzDrain(resp)
	vt.Assert("origin", o.calls > 1 && !from && err == nil && b == "new", "a request that says no-cache was answered from the store")
	vt.Reach("miss")
}
