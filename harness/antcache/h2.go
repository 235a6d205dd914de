package antcache

import (
	"net/http"

	vt "github.com/yields/ant/internal/zzvt"
)

// zzTime is a symbolic instant, in seconds since the epoch.
func zzTime(name string) int64 { return vt.Int64(name, 0, 7_258_118_400) } // 1970-2200

// zzNow is an instant the clock can be set to (replays start in 2000).
func zzNow() int64 { return vt.Int64("now", 946_684_801, 7_258_118_400) }

var zzStorable = []int{200, 203, 204, 206, 300, 301, 404, 405, 410, 414, 501}

// zzStatusOK is the set of storable status codes.
func zzStatusOK(status int) bool {
	ok := false
	for _, s := range zzStorable {
		ok = vt.Or(ok, status == s)
	}
	return ok
}

// zzLifetime draws the lifetime of a response: its headers, the value of
// max-age and of Expires, and which of the two are there and valid.
type zzLife struct {
	date                        int64
	hasDate                     bool
	maxage, expires             int64
	hasMaxage, hasExpires, huge bool
}

func (l *zzLife) draw(h http.Header, more ...string) {
	switch vt.Choose("date", 4) {
	case 0:
		l.hasDate = true
		l.date = zzTime("date-s")
		h.Set("Date", vt.HTTPDate(l.date))
	case 1:
		h.Set("Date", vt.Pick("bad-date", "0", "yesterday", "Mon, 02 Jan 2006"))
	case 2:
		h.Set("Date", "")
	}
	var cc []string
	switch vt.Choose("maxage", 4) {
	case 1:
		l.hasMaxage = true
		l.maxage = vt.Int64("maxage-s", -1<<63, 1<<63-1)
		cc = append(cc, "max-age="+vt.Dec(l.maxage))
	case 2:
		l.hasMaxage, l.huge = true, true
		cc = append(cc, "max-age=99999999999999999999")
	case 3:
		cc = append(cc, vt.Pick("bad-maxage", "max-age", "max-age=", "max-age=x", "s-maxage=5", "max-age=1.5"))
	}
	switch vt.Choose("expires", 3) {
	case 1:
		l.hasExpires = true
		l.expires = zzTime("expires-s")
		h.Set("Expires", vt.HTTPDate(l.expires))
	case 2:
		h.Set("Expires", vt.Pick("bad-expires", "0", "-1", "never"))
	}
	cc = append(cc, more...)
	switch {
	case len(cc) == 1:
		h.Set("Cache-Control", cc[0])
	case len(cc) > 1 && vt.Bool("lines"):
		h["Cache-Control"] = cc
	case len(cc) > 1:
		h.Set("Cache-Control", cc[0]+", "+cc[1])
	}
}

// positive tells whether there is an explicit positive lifetime.
func (l *zzLife) positive() bool {
	switch {
	case !l.hasDate:
		return false
	case l.huge:
		return true
	case l.hasMaxage:
		return l.maxage > 0
	case l.hasExpires:
		return l.expires > l.date
	}
	return false
}

// zzFetch does one request against an empty store and reads the response.
func zzFetch(c *Cache, req *http.Request) *http.Response {
	resp, err := c.Do(req)
	vt.Assert("do", err == nil && resp != nil, "Do failed")
	_, err = zzDrain(resp)
	vt.Assert("drain", err == nil, "reading and closing the body failed")
	return resp
}

// Every status, with a response that is storable otherwise.
//
// verif: all preempt=0
func Verif_H02_status() {
	vt.Expect("stored", "not-stored")
	req := zzReq(vt.Pick("method", "GET", "HEAD"), "http://h/a")
	status := vt.Int("status", 100, 999)
	st := &zzStore{}
	c := zzCache(zzClient(func(r *http.Request) (*http.Response, error) {
		resp := zzResp(r, status, zzNewBody(""))
		resp.Header.Set("Date", vt.HTTPDate(vt.Now()/1e9))
		resp.Header.Set("Cache-Control", "max-age=60")
		return resp, nil
	}), st)
	zzFetch(c, req)
	if st.stores > 0 {
		vt.Reach("stored")
	} else {
		vt.Reach("not-stored")
	}
	vt.Assert("stored", vt.Iff(st.stores == 1, zzStatusOK(status)), "a response is stored exactly if its status is storable")
	vt.Assert("once", st.stores <= 1, "the response was stored more than once")
}

// Every combination of Date, max-age and Expires.
//
// verif: all preempt=0
func Verif_H02_lifetime() {
	vt.Expect("stored", "not-stored")
	req := zzReq("GET", "http://h/a")
	st := &zzStore{}
	l := &zzLife{}
	resp := zzResp(req, 200, zzNewBody("b"))
	if vt.Bool("more") {
		l.draw(resp.Header, "public")
	} else {
		l.draw(resp.Header)
	}
	c := zzCache(zzClient(func(r *http.Request) (*http.Response, error) { return resp, nil }), st)
	zzFetch(c, req)
	if st.stores > 0 {
		vt.Reach("stored")
	} else {
		vt.Reach("not-stored")
	}
	vt.Assert("stored", vt.Iff(st.stores == 1, l.positive()), "a response is stored exactly if it has an explicit positive lifetime")
}

// no-store on either side, in any spelling.
//
// verif: all preempt=0
func Verif_H02_nostore() {
	vt.Expect("stored", "not-stored")
	req := zzReq("GET", "http://h/a")
	st := &zzStore{}
	resp := zzResp(req, 200, zzNewBody("b"))
	now := vt.Now() / 1e9
	resp.Header.Set("Date", vt.HTTPDate(now))
	resp.Header.Set("Expires", vt.HTTPDate(now+60))
	want := true
	switch vt.Choose("where", 4) {
	case 0:
		req.Header["Cache-Control"] = zzSpell("no-store")
		want = false
	case 1:
		resp.Header["Cache-Control"] = zzSpell("no-store")
		want = false
	case 2:
		resp.Header["Cache-Control"] = zzSpell(vt.Pick("other", "nostore", "no-cache", "must-revalidate", "max-age=7"))
	case 3:
		req.Header["Cache-Control"] = zzSpell(vt.Pick("other", "no-cache", "max-age=0", "only-if-cached"))
	}
	c := zzCache(zzClient(func(r *http.Request) (*http.Response, error) { return resp, nil }), st)
	zzFetch(c, req)
	if st.stores > 0 {
		vt.Reach("stored")
	} else {
		vt.Reach("not-stored")
	}
	vt.Assert("stored", (st.stores == 1) == want, "a response is stored exactly if neither side says no-store")
}
