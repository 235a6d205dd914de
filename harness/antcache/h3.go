package antcache

import (
	"net/http"

	vt "github.com/yields/ant/internal/zzvt"
)

// zzOrigin counts the requests and answers each with a response of its own.
type zzOrigin struct {
	calls int
	reqs  []*http.Request
	serve func(n int, r *http.Request) (*http.Response, error)
}

func (o *zzOrigin) Do(r *http.Request) (*http.Response, error) {
	o.calls++
	o.reqs = append(o.reqs, r)
	return o.serve(o.calls, r)
}

const zzHuge = int64(9_223_372_036)

// zzClamp is the nearest number of seconds that a duration can hold.
func zzClamp(n int64) int64 {
	return vt.IteInt(n > zzHuge, zzHuge, vt.IteInt(n < -zzHuge, -zzHuge, n))
}

// zzSecond sends req to the cache and tells whether it was served without
// contacting the origin.
func zzSecond(c *Cache, o *zzOrigin, req *http.Request) bool {
	before := o.calls
	resp, err := c.Do(req)
	vt.Assert("do", err == nil && resp != nil, "Do failed")
	_, err = zzDrain(resp)
	vt.Assert("drain", err == nil, "reading and closing the body failed")
	hit := o.calls == before
	if hit {
		vt.Reach("hit")
	} else {
		vt.Reach("miss")
	}
	return hit
}

// The arithmetic of freshness: lifetime, age, min-fresh and max-stale.
//
// verif: all preempt=0
func Verif_H03_arithmetic() {
	vt.Expect("hit", "miss")
	now, date := zzNow(), zzTime("date-s")
	vt.SetNow(now * 1e9)
	var lifetime int64
	var h = http.Header{}
	h.Set("Date", vt.HTTPDate(date))
	// At most one of the values is beyond 1e9 seconds.
	huge, drawn := vt.Choose("huge", 9), false
	draw := func(name string, which int) int64 {
		switch huge {
		case which:
			drawn = true
			return vt.Int64(name, 1_000_000_001, zzHuge)
		case which + 4:
			drawn = true
			return vt.Int64(name, zzHuge+1, 1<<63-1)
		}
		return vt.Int64(name, 0, 1_000_000_000)
	}
	clamp := func(n int64, which int) int64 {
		if huge == which+4 {
			return zzHuge
		}
		return n
	}
	must := ""
	if vt.Bool("must-revalidate") {
		must = ", must-revalidate"
	}
	life := vt.Choose("life", 3)
	if life != 1 {
		lifetime = draw("maxage-s", 1)
		vt.Assume(lifetime > 0)
		h.Set("Cache-Control", "max-age="+vt.Dec(lifetime)+must)
		lifetime = clamp(lifetime, 1)
	} else if must != "" {
		h.Set("Cache-Control", must[2:])
	}
	if life != 0 {
		e := zzTime("expires-s")
		h.Set("Expires", vt.HTTPDate(e))
		if life == 1 {
			lifetime = e - date
			vt.Assume(lifetime > 0)
		}
	}
	o := &zzOrigin{serve: func(n int, r *http.Request) (*http.Response, error) {
		resp := zzResp(r, 200, zzNewBody("b"))
		resp.Header = h.Clone()
		return resp, nil
	}}
	c := zzCache(o, &zzStore{})
	zzFetch(c, zzReq("GET", "http://h/a"))

	req := zzReq("GET", "http://h/a")
	var cc []string
	var minfresh, maxstale int64
	always := false
	if vt.Bool("req-maxage") {
		lifetime = draw("req-maxage-s", 2)
		cc = append(cc, "max-age="+vt.Dec(lifetime))
		lifetime = clamp(lifetime, 2)
	}
	if vt.Bool("min-fresh") {
		minfresh = draw("min-fresh-s", 3)
		cc = append(cc, "min-fresh="+vt.Dec(minfresh))
		minfresh = clamp(minfresh, 3)
	}
	switch vt.Choose("max-stale", 3) {
	case 1:
		v := draw("max-stale-s", 4)
		cc = append(cc, "max-stale="+vt.Dec(v))
		if must == "" {
			maxstale = clamp(v, 4)
		}
	case 2:
		cc = append(cc, "max-stale")
		always = must == ""
	}
	for i, d := range cc {
		if i == 0 {
			req.Header.Set("Cache-Control", d)
		} else if vt.Bool("line") {
			req.Header.Add("Cache-Control", d)
		} else {
			l := req.Header["Cache-Control"]
			l[len(l)-1] += "," + d
		}
	}
	vt.Assume(huge == 0 || drawn)
	want := always
	if !always {
		want = lifetime > now-date+minfresh-maxstale
	}
	hit := zzSecond(c, o, req)
	vt.Assert("fresh", vt.Iff(hit, want), "a stored response is served exactly if lifetime > age + min-fresh - max-stale")
}

// A directive that is too large to be parsed is larger than any age.
//
// verif: all preempt=0
func Verif_H03_unparsable() {
	vt.Expect("hit", "miss")
	now, date := zzNow(), zzTime("date-s")
	vt.SetNow(now * 1e9)
	o := &zzOrigin{}
	const big = "99999999999999999999999"
	respd, reqd := "max-age=60", ""
	want := false
	switch vt.Choose("where", 4) {
	case 0:
		respd = "max-age=" + big
		want = true
	case 1:
		reqd = "max-age=" + big
		want = true
	case 2:
		reqd = "min-fresh=" + big
		want = false
	case 3:
		reqd = "max-stale=" + big
		want = true
	}
	o.serve = func(n int, r *http.Request) (*http.Response, error) {
		resp := zzResp(r, 200, zzNewBody("b"))
		resp.Header.Set("Date", vt.HTTPDate(date))
		resp.Header.Set("Cache-Control", respd)
		return resp, nil
	}
	c := zzCache(o, &zzStore{})
	zzFetch(c, zzReq("GET", "http://h/a"))
	req := zzReq("GET", "http://h/a")
	if reqd != "" {
		req.Header.Set("Cache-Control", reqd)
	}
	hit := zzSecond(c, o, req)
	vt.Assert("fresh", hit == want, "an enormous directive does not saturate")
}

// no-cache on either side, the pragma and only-if-cached, in any spelling.
//
// verif: all preempt=0
func Verif_H03_directives() {
	vt.Expect("hit", "miss")
	now, date := zzNow(), zzTime("date-s")
	vt.SetNow(now * 1e9)
	req := zzReq("GET", "http://h/a")
	where := vt.Choose("where", 9)
	o := &zzOrigin{serve: func(n int, r *http.Request) (*http.Response, error) {
		resp := zzResp(r, 200, zzNewBody("b"))
		resp.Header.Set("Date", vt.HTTPDate(date))
		resp.Header.Set("Expires", vt.HTTPDate(date+100))
		if n == 1 {
			switch where {
			case 1:
				resp.Header["Cache-Control"] = zzSpell("no-cache")
			case 6, 7:
				resp.Header["Cache-Control"] = []string{"no-cache"}
			case 8:
				resp.Header["Cache-Control"] = []string{"must-revalidate"}
			}
		}
		return resp, nil
	}}
	var want bool
	isFresh := now-date < 100
	switch where {
	case 0:
		req.Header["Cache-Control"] = zzSpell("no-cache")
	case 1, 6:
	case 2:
		req.Header["Pragma"] = zzSpell("no-cache")
	case 3:
		// ignored when there is a Cache-Control header.
		req.Header["Pragma"] = []string{"no-cache"}
		req.Header.Set("Cache-Control", vt.Pick("cc", "max-stale=0", "max-age=100", "min-fresh=0"))
		want = isFresh
	case 4:
		req.Header["Cache-Control"] = zzSpell("only-if-cached")
		want = true
	case 5:
		req.Header.Set(vt.Pick("field", "Cache-Control", "Pragma"), vt.Pick("near", "no-cach", "no-caches", "x-no-cache", "no"))
		want = isFresh
	case 7:
		req.Header.Set("Cache-Control", "max-stale, only-if-cached")
	case 8:
		req.Header["Cache-Control"] = zzSpell("max-stale")
		want = isFresh
	}
	c := zzCache(o, &zzStore{})
	zzFetch(c, zzReq("GET", "http://h/a"))
	hit := zzSecond(c, o, req)
	vt.Assert("fresh", vt.Iff(hit, want), "a directive is not respected")
}

// Responses selected by request headers.
//
// verif: all preempt=0
func Verif_H03_vary() {
	vt.Expect("hit", "miss")
	now := vt.Now() / 1e9
	same := true
	a, b := zzReq("GET", "http://h/a"), zzReq("GET", "http://h/a")
	for _, k := range []string{"Accept", "X-One"} {
		switch vt.Choose("both", 5) {
		case 0:
		case 1:
			a.Header.Set(k, vt.String("first", 1, 2, "aB"))
			same = false
		case 2:
			b.Header.Set(k, vt.String("second", 1, 2, "aB"))
			same = false
		case 3:
			v := vt.String("first", 1, 2, "aB")
			w := vt.String("second", 1, 2, "aB")
			a.Header.Set(k, v)
			b.Header.Set(k, w)
			same = vt.And(same, vt.EqStr(v, w))
		case 4:
			a.Header[k] = []string{"a", "b"}
			b.Header[k] = []string{"a", vt.String("second", 1, 1, "ab")}
			same = vt.And(same, vt.EqStr(b.Header[k][1], "b"))
		}
	}
	// Not selecting.
	a.Header.Set("X-Other", "1")
	if vt.Bool("other") {
		b.Header.Set("X-Other", "2")
	}
	vary := vt.Choose("vary", 6)
	o := &zzOrigin{serve: func(n int, r *http.Request) (*http.Response, error) {
		resp := zzResp(r, 200, zzNewBody("b"))
		resp.Header.Set("Date", vt.HTTPDate(now))
		resp.Header.Set("Cache-Control", "max-age=100")
		resp.Header["Vary"] = [][]string{
			{"Accept, X-One"},
			{"accept", "x-one"},
			{" X-ONE,,ACCEPT,accept"},
			{"Accept,X-One,X-Absent"},
			{"*"},
			{"Accept, *"},
		}[vary]
		return resp, nil
	}}
	c := zzCache(o, &zzStore{})
	zzFetch(c, a)
	hit := zzSecond(c, o, b)
	if vary >= 4 {
		same = false
	}
	vt.Assert("selected", vt.Iff(hit, same), "a stored response is served exactly if the request headers it varies by match")
	hit = zzSecond(c, o, b)
	vt.Assert("again", hit == (vary < 4), "the response fetched for the same request headers is not served")
}

// A response stored under the other strategy, without a lifetime or a
// valid Date, is stale.
//
// verif: all preempt=0
func Verif_H03_shared() {
	vt.Expect("hit", "miss")
	now := zzNow()
	vt.SetNow(now * 1e9)
	st := &zzStore{}
	l := &zzLife{}
	req := zzReq("GET", "http://h/a")
	o := &zzOrigin{serve: func(n int, r *http.Request) (*http.Response, error) {
		resp := zzResp(r, 200, zzNewBody("b"))
		if n == 1 {
			l.draw(resp.Header)
		}
		return resp, nil
	}}
	ca := zzCache(o, st, Aggressive(0))
	zzFetch(ca, req)
	vt.Assume(st.stores == 1)
	c := zzCache(o, st)
	hit := zzSecond(c, o, req)
	life := int64(0)
	if l.positive() {
		life = l.expires - l.date
		if l.hasMaxage {
			life = zzClamp(l.maxage)
		}
		if l.huge {
			life = zzHuge
		}
	} else if vt.Symbolic() {
		vt.Assume(now >= l.date)
	}
	vt.Assert("fresh", vt.Iff(hit, vt.And(l.positive(), life > now-l.date)), "a stored response is served exactly if lifetime > age")
}
