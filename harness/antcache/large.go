package antcache

import (
	"bytes"
	"context"
	"net/http"
	"strconv"
	"strings"
	"time"

	vos "github.com/yields/ant/internal/zzvos"
	vt "github.com/yields/ant/internal/zzvt"
)

// Sizes beyond those of the symbolic harnesses: known inputs with a choice of
// size, for behaviour that changes at a threshold.

// zzText is n bytes without a short period, of all values.
func zzText(n int) string {
	b := make([]byte, n)
	x := uint32(n)
	for i := range b {
		x = x*1664525 + 1013904223
		b[i] = byte(x >> 24)
	}
	return string(b)
}

// Bodies of many sizes, delivered and read in pieces of many sizes.
//
// verif: all preempt=0 steps=100000000
func Verif_H05_large() {
	vt.Expect("hit", "validated")
	n := []int{0, 1, 511, 512, 513, 4095, 4096, 4097, 32_767, 32_768, 32_769, 70_000, 300_001, 1_100_000}[vt.Choose("size", 14)]
	text := zzText(n)
	body := zzNewBody(text)
	mode := vt.Choose("mode", 4)
	vt.Assume(n < 1_000_000 || mode == 3)
	body.chunk = []int{0, 1 + n/7, 512, 4096}[mode]
	body.withEOF = mode >= 2
	size := []int{1 + n/5, 512, 1 << 20}[vt.Choose("buffer", 3)]
	vt.Assume(n < 1_000_000 || size == 1<<20)
	length := mode%2 == 0
	etag := zzText(2000)
	o := &zzOrigin{serve: func(k int, r *http.Request) (*http.Response, error) {
		resp := zzResp(r, 200, body)
		if k > 1 {
			vt.Assert("validator", r.Header.Get("If-None-Match") == etag, "the stored ETag was not sent")
			resp = zzResp(r, 304, zzNewBody(""))
		}
		if !length {
			resp.ContentLength = -1
			resp.TransferEncoding = []string{"chunked"}
		}
		resp.Header.Set("Date", vt.HTTPDate(vt.Now()/1e9))
		resp.Header.Set("Cache-Control", "max-age=60")
		for i := 0; i < 40; i++ {
			resp.Header.Set("X-Header-"+strconv.Itoa(i), strings.Repeat("v", i*20)+strconv.Itoa(i))
		}
		resp.Header.Set("Etag", etag)
		return resp, nil
	}}
	// The ETag is sent in a header: no control characters.
	etag = strings.Map(func(r rune) rune { return 'a' + r%26 }, etag)
	st := &zzStore{}
	opts := zzStrategy()
	c := zzCache(o, st, opts...)
	check := func(req *http.Request) {
		resp, err := c.Do(req)
		vt.Assert("do", err == nil && resp != nil && resp.StatusCode == 200, "Do failed")
		for i := 0; i < 40; i++ {
			h := resp.Header["X-Header-"+strconv.Itoa(i)]
			vt.Assert("headers", len(h) == 1 && h[0] == strings.Repeat("v", i*20)+strconv.Itoa(i), "a header was altered")
		}
		got, err := zzRead(resp.Body, 2*n+2, size)
		vt.Assert("body", err != nil && err.Error() == "EOF" && got == text, "the body is not the one sent")
		vt.Assert("close", resp.Body.Close() == nil && body.closed == 1, "the body was not closed")
	}
	check(zzReq("GET", "http://h/a"))
	vt.Assert("stored", st.stores == 1, "the response was not stored")
	check(zzReq("GET", "http://h/a"))
	vt.Assert("hit", o.calls == 1, "the stored response was not served")
	vt.Reach("hit")
	if len(opts) > 0 {
		return // does not validate
	}
	req := zzReq("GET", "http://h/a")
	req.Header.Set("Cache-Control", "no-cache")
	check(req)
	vt.Assert("validated", o.calls == 2 && st.stores == 2, "the stored response was not validated")
	check(zzReq("GET", "http://h/a"))
	vt.Assert("hit", o.calls == 2, "the validated response was not served")
	vt.Reach("validated")
}

// Long URLs that differ in one place, or in the method only.
//
// verif: all preempt=0 steps=50000000
func Verif_H07_large() {
	vt.Expect("hit", "miss")
	n := []int{7, 15, 16, 31, 63, 100, 127, 254, 255, 256, 257, 511, 1023, 2047, 2048, 2049, 5000, 9000}[vt.Choose("size", 18)]
	where := vt.Choose("where", 7)
	seg := strings.Repeat("abcdefghi/", n/10+1)[:n]
	urls := []string{"http://h/" + seg, "http://h/" + seg}
	methods := []string{"GET", "GET"}
	switch where {
	case 1:
		urls[1] += "x"
	case 2:
		urls[0] += "y"
		urls[1] += "x"
	case 3:
		urls[0] += "?q=" + seg + "y"
		urls[1] += "?q=" + seg + "x"
	case 4:
		methods[1] = "HEAD"
	case 5:
		urls[1] = "http://h/x" + seg[1:]
	case 6:
		urls[1] = urls[1][:len(urls[1])/2] + "-" + urls[1][len(urls[1])/2:]
	}
	o := &zzOrigin{serve: func(n int, r *http.Request) (*http.Response, error) {
		body := ""
		if r.Method == "GET" {
			body = []string{"", "one", "two"}[n]
		}
		resp := zzResp(r, 200, zzNewBody(body))
		resp.Header.Set("Date", vt.HTTPDate(vt.Now()/1e9))
		resp.Header.Set("Cache-Control", "max-age=60")
		return resp, nil
	}}
	c := zzCache(o, &zzStore{}, zzStrategy()...)
	zzFetch(c, zzReq(methods[0], urls[0]))
	hit := zzSecond(c, o, zzReq(methods[1], urls[1]))
	vt.Assert("key", hit == (where == 0), "a stored response is served exactly for its own method and URL")
}

// Many responses in one store.
//
// verif: all preempt=0 steps=50000000
func Verif_H07_many() {
	vt.Expect("done")
	o := &zzOrigin{serve: func(n int, r *http.Request) (*http.Response, error) {
		resp := zzResp(r, 200, zzNewBody(r.URL.String()))
		resp.Header.Set("Date", vt.HTTPDate(vt.Now()/1e9))
		resp.Header.Set("Cache-Control", "max-age=60")
		return resp, nil
	}}
	var s Storage = &zzStore{}
	if vt.Bool("memory") {
		s = &memstore{}
	}
	c := zzCache(o, s)
	n := []int{3, 60, 300}[vt.Choose("n", 3)]
	for i := 0; i < 2; i++ {
		for k := 0; k < n; k++ {
			u := "http://h/" + strconv.Itoa(k)
			resp, err := c.Do(zzReq("GET", u))
			vt.Assert("do", err == nil && resp != nil, "Do failed")
			b, err := zzDrain(resp)
			vt.Assert("body", err == nil && b == u, "a response was served for another URL")
		}
		vt.Assert("calls", o.calls == n, "a stored response was not served")
	}
	vt.Reach("done")
}

// zzMany is directives with d at position at among n others, on one line, on
// a line each, or on lines of four.
func zzMany(d string, n, at, lines int) []string {
	var all, out []string
	for i := 0; i < n; i++ {
		if i == at {
			all = append(all, d)
		}
		all = append(all, []string{"x-" + strconv.Itoa(i), "x-" + strconv.Itoa(i) + "=" + strings.Repeat("v", 5*i), "public"}[i%3])
	}
	if at >= n {
		all = append(all, d)
	}
	per := []int{len(all), 1, 4}[lines]
	for i := 0; i < len(all); i += per {
		j := i + per
		if j > len(all) {
			j = len(all)
		}
		out = append(out, strings.Join(all[i:j], []string{", ", ","}[i%2]))
	}
	return out
}

// zzAmong calls check with one directive among many others.
func zzAmong(check func(d []string)) {
	n := []int{5, 17, 70}[vt.Choose("others", 3)]
	check(zzMany("%", n, []int{0, n / 2, n}[vt.Choose("at", 3)], vt.Choose("lines", 3)))
}

func zzWith(d []string, s string) []string {
	var out []string
	for _, l := range d {
		out = append(out, strings.Replace(l, "%", s, 1))
	}
	return out
}

// A request or response with many directives and other headers bypasses the
// cache exactly if it should.
//
// verif: all preempt=0 steps=50000000
func Verif_H01_large() {
	vt.Expect("bypass", "cached")
	zzAmong(func(d []string) {
		o := &zzOrigin{serve: func(n int, r *http.Request) (*http.Response, error) {
			resp := zzResp(r, 200, zzNewBody("b"))
			resp.Header.Set("Date", vt.HTTPDate(vt.Now()/1e9))
			resp.Header.Set("Cache-Control", "max-age=100")
			return resp, nil
		}}
		st := &zzStore{}
		c := zzCache(o, st, zzStrategy()...)
		s := vt.Pick("directive", "no-store", "x-store")
		for i := 0; i < 2; i++ {
			req := zzReq("GET", "http://h/"+strings.Repeat("p/", 300))
			for k := 0; k < 60; k++ {
				req.Header.Set("X-Header-"+strconv.Itoa(k), "v")
			}
			req.Header["Cache-Control"] = zzWith(d, s)
			zzFetch(c, req)
		}
		if s == "no-store" {
			vt.Reach("bypass")
			vt.Assert("bypass", o.calls == 2 && st.stores == 0 && st.loads == 0, "a request that bypasses the cache touched the store")
		} else {
			vt.Reach("cached")
			vt.Assert("cached", o.calls == 1 && st.stores == 1, "a response was not stored")
		}
	})
}

// A response with many directives is stored exactly if it should.
//
// verif: all preempt=0 steps=50000000
func Verif_H02_large() {
	vt.Expect("stored", "not-stored")
	zzAmong(func(d []string) {
		s := vt.Pick("directive", "no-store", "max-age=100", "max-age=0", "x-max-age=100")
		o := &zzOrigin{serve: func(n int, r *http.Request) (*http.Response, error) {
			resp := zzResp(r, 200, zzNewBody("b"))
			resp.Header.Set("Date", vt.HTTPDate(vt.Now()/1e9))
			resp.Header["Cache-Control"] = zzWith(d, s)
			if s == "no-store" {
				resp.Header.Set("Expires", vt.HTTPDate(vt.Now()/1e9+100))
			}
			return resp, nil
		}}
		st := &zzStore{}
		zzFetch(zzCache(o, st), zzReq("GET", "http://h/a"))
		if s == "max-age=100" {
			vt.Reach("stored")
		} else {
			vt.Reach("not-stored")
		}
		vt.Assert("stored", (st.stores == 1) == (s == "max-age=100"), "a response with an explicit lifetime is stored, others are not")
	})
}

// A stored response with many directives is fresh exactly if it should, and
// one that varies by many headers is selected exactly if they match.
//
// verif: all preempt=0 steps=50000000
func Verif_H03_large() {
	vt.Expect("hit", "miss")
	where := vt.Choose("where", 4)
	among, fields, differ := zzAmong, 3, -1
	if where == 0 {
		among = func(check func([]string)) { check(nil) }
		fields = []int{3, 40, 100}[vt.Choose("fields", 3)]
		differ = []int{-1, 0, fields / 2, fields - 1}[vt.Choose("differ", 4)]
	}
	oneLine := vt.Bool("one-line")
	among(func(d []string) {
		a, b := zzReq("GET", "http://h/a"), zzReq("GET", "http://h/a")
		var vary []string
		for i := 0; i < fields; i++ {
			k := "X-Field-" + strconv.Itoa(i)
			vary = append(vary, k)
			a.Header.Set(k, strings.Repeat("v", i*30)+"y")
			b.Header.Set(k, strings.Repeat("v", i*30)+"y")
			if i == differ {
				b.Header.Set(k, strings.Repeat("v", i*30)+"z")
			}
		}
		o := &zzOrigin{serve: func(n int, r *http.Request) (*http.Response, error) {
			resp := zzResp(r, 200, zzNewBody("b"))
			resp.Header.Set("Date", vt.HTTPDate(vt.Now()/1e9-50))
			resp.Header["Cache-Control"] = []string{"max-age=100"}
			switch where {
			case 1:
				resp.Header["Cache-Control"] = zzWith(d, "max-age=51")
			case 2:
				resp.Header["Cache-Control"] = zzWith(d, "max-age=50")
			}
			if !oneLine {
				resp.Header["Vary"] = vary
			} else {
				resp.Header.Set("Vary", strings.Join(vary, ", "))
			}
			return resp, nil
		}}
		want := differ < 0
		switch where {
		case 2:
			want = false
		case 3:
			s := vt.Pick("directive", "no-cache", "x-cache", "max-age=49", "min-fresh=51", "min-fresh=49")
			b.Header["Cache-Control"] = zzWith(d, s)
			want = want && (s == "x-cache" || s == "min-fresh=49")
		}
		c := zzCache(o, &zzStore{})
		zzFetch(c, a)
		vt.Assert("fresh", zzSecond(c, o, b) == want, "a stored response is served exactly if it is fresh and selected")
	})
}

// 304 and replaced responses with many and long headers.
//
// verif: all preempt=0 steps=50000000
func Verif_H04_large() {
	vt.Expect("served", "replaced")
	n := []int{2, 33, 120}[vt.Choose("headers", 3)]
	size := []int{1, 300, 4100}[vt.Choose("size", 3)]
	status := []int{304, 200, 503}[vt.Choose("status", 3)]
	value := func(k string, i int) string { return k + strings.Repeat("v", size) + strconv.Itoa(i) }
	old := zzText(5000)
	o := &zzOrigin{}
	o.serve = func(k int, r *http.Request) (*http.Response, error) {
		resp := zzResp(r, 200, zzNewBody(old))
		first := 0
		if k > 1 {
			vt.Assert("validators", r.Header.Get("If-None-Match") == value("e", 1), "the stored ETag was not sent")
			resp = zzResp(r, status, zzNewBody("new"))
			first = n / 2
		}
		resp.Header.Set("Date", vt.HTTPDate(vt.Now()/1e9))
		resp.Header.Set("Cache-Control", "max-age=60")
		resp.Header.Set("Etag", value("e", k))
		for i := first; i < n; i++ {
			resp.Header.Set("X-Header-"+strconv.Itoa(i), value("h", i+1000*k))
		}
		return resp, nil
	}
	st := &zzStore{}
	c := zzCache(o, st)
	zzFetch(c, zzReq("GET", "http://h/a"))
	req := zzReq("GET", "http://h/a")
	req.Header.Set("Cache-Control", "no-cache")
	if status == 503 {
		req.Header.Set("Cache-Control", "max-age=0, stale-if-error")
	}
	for i := 0; i < 2; i++ {
		resp, err := c.Do(req)
		vt.Assert("do", err == nil && resp != nil, "Do failed")
		served, body := 200, old
		switch {
		case status == 304:
			vt.Reach("served")
		case status == 200:
			vt.Reach("replaced")
			body = "new"
		default:
			served = resp.StatusCode
			if served == 503 {
				body = "new"
			}
		}
		vt.Assert("status", resp.StatusCode == served, "the status is wrong")
		for j := 0; j < n; j++ {
			h := resp.Header.Get("X-Header-" + strconv.Itoa(j))
			switch {
			case status == 503:
			case j >= n/2:
				vt.Assert("merged", h == value("h", j+2000), "a header was not updated")
			case status == 304:
				vt.Assert("merged", h == value("h", j+1000), "a header was lost")
			default:
				vt.Assert("merged", h == "", "a header of the response that was replaced is served")
			}
		}
		b, err := zzDrain(resp)
		vt.Assert("body", err == nil && b == body, "the body is wrong")
		if status == 503 {
			break
		}
		req = zzReq("GET", "http://h/a")
		vt.Assert("calls", o.calls == 2, "the origin was not asked exactly once more")
	}
}

// Many files, swept.
//
// verif: all preempt=0 steps=100000000
func Verif_K04_large() {
	vt.Expect("kept", "removed")
	vos.PutDir(zzRoot)
	n := []int{40, 101, 257}[vt.Choose("files", 3)]
	stride := []int{1, 37, n - 1}[vt.Choose("order", 3)]
	now := vt.Now()
	type file struct {
		key         uint64
		mtime, size int64
	}
	var fs []file
	for i := 0; i < n; i++ {
		age := int64(i * stride % n)
		f := file{uint64(i), now - (age*60+1)*int64(time.Second), int64(1 + i%5*1000)}
		fs = append(fs, f)
		vos.Put(zzRoot+"/"+strconv.Itoa(i), []byte{byte(i)}, time.Unix(0, f.mtime)).SetSize(f.size)
	}
	maxage := []int64{0, 30, int64(n), 3}[vt.Choose("maxage", 4)] // in minutes
	maxsize := []int64{0, 999, 50_000, 1 << 40}[vt.Choose("maxsize", 4)]
	d := zzOpen(Maxage(time.Duration(maxage)*time.Minute), Maxsize(maxsize))
	removed, err := d.sweep()
	vt.Assert("sweep", err == nil, "the sweep failed")
	// From the newest to the oldest file.
	at := map[int64]file{}
	for _, f := range fs {
		at[(now-f.mtime)/int64(time.Minute)] = f
	}
	var sum int64
	kept := 0
	full := false
	for age := int64(0); age < int64(n); age++ {
		f := at[age]
		v, err := d.Load(context.Background(), f.key)
		vt.Assert("load", err == nil, "Load failed after a sweep")
		want := maxage == 0 || now-f.mtime <= maxage*int64(time.Minute)
		if want {
			sum += f.size
			if maxsize > 0 && sum > maxsize {
				full = true
			}
			want = !full
		}
		vt.Assert("kept", (v != nil) == want, "the sweep kept or removed the wrong files")
		if want {
			vt.Reach("kept")
			kept++
			vt.Assert("content", len(v) == 1 && v[0] == byte(f.key), "an entry has the wrong content")
		} else {
			vt.Reach("removed")
		}
	}
	vt.Assert("count", removed == n-kept && len(vos.List(zzRoot)) == kept && len(d.files()) == kept, "the number of files is wrong")
}

// Many entries and foreign files, read in batches, before and after more are
// stored.
//
// verif: all preempt=0 steps=100000000
func Verif_K05_large() {
	vt.Expect("found")
	vos.PutDir(zzRoot)
	n := []int{19, 64, 100, 257}[vt.Choose("files", 4)]
	vos.Reverse = vt.Bool("reverse")
	vos.ReadBatch = []int{1, 3, 100, 1000}[vt.Choose("batch", 4)]
	foreign := 0
	for i := 0; i < n; i++ {
		name := strconv.FormatUint(uint64(i)*0xffff_ffff_ffff, 10)
		if i%9 == 4 {
			name += ".tmp"
			foreign++
		}
		vos.Put(zzRoot+"/"+name, []byte(name), time.Unix(0, vt.Now()))
	}
	for round := 0; round < 2; round++ {
		d := zzOpen()
		vt.Assert("files", len(d.files()) == n-foreign+round*n, "a file that is not an entry is tracked, or one that is is not")
		for i := 0; i < n; i++ {
			k := uint64(i) * 0xffff_ffff_ffff
			if i%9 != 4 {
				vt.Reach("found")
				zzLoads(d, k, []byte(strconv.FormatUint(k, 10)), true)
			} else {
				zzLoads(d, k, nil, false)
			}
			if round == 0 {
				zzStoreOK(d, k+1, "s"+strconv.Itoa(i))
			}
			zzLoads(d, k+1, []byte("s"+strconv.Itoa(i)), true)
		}
		vt.Assert("tracked", len(d.files()) == 2*n-foreign && len(vos.List(zzRoot)) == 2*n, "an entry is not tracked, or a file was removed")
		_, err := d.sweep()
		vt.Assert("sweep", err == nil && len(vos.List(zzRoot)) == 2*n, "a file was removed")
		vt.Assert("close", d.Close() == nil && vos.OpenFiles() == 0, "Close failed or left a file open")
	}
}

// Many goroutines on one store, each with keys of its own.
//
// verif: all delay=0 races steps=50000000
func Verif_K03_large() {
	vt.Expect("done")
	vos.PutDir(zzRoot)
	n := []int{9, 40, 130}[vt.Choose("goroutines", 3)]
	var opts []DiskOption
	if vt.Bool("compress") {
		opts = append(opts, Compress())
	}
	d := zzOpen(opts...)
	var fs []func()
	for i := 0; i < n; i++ {
		fs = append(fs, func() {
			for k := 0; k < 3; k++ {
				key := uint64(i*3 + k)
				v := strings.Repeat("v"+strconv.Itoa(i), 1+k*100)
				zzStoreOK(d, key, v)
				zzStoreOK(d, 1<<60+uint64(k), "shared")
				got, err := d.Load(context.Background(), key)
				vt.Assert("value", err == nil && string(got) == v, "Load does not return what was stored")
			}
		})
	}
	zzAll(fs...)
	for i := 0; i < 3*n; i++ {
		zzLoads(d, uint64(i), []byte(strings.Repeat("v"+strconv.Itoa(i/3), 1+i%3*100)), true)
	}
	vt.Assert("files", len(d.files()) == 3*n+3 && len(vos.List(zzRoot)) == 3*n+3, "not exactly the stored entries are there")
	vt.Reach("done")
}

// Large values replaced by smaller ones and the other way around.
//
// verif: all preempt=0 steps=50000000
func Verif_K02_large() {
	vt.Expect("done")
	vos.PutDir(zzRoot)
	var opts []DiskOption
	if vt.Bool("compress") {
		opts = append(opts, Compress())
	}
	sizes := []int{0, 1, 4096, 70_000, 300_000}
	a, b := sizes[vt.Choose("first", 5)], sizes[vt.Choose("second", 5)]
	d := zzOpen(opts...)
	for i, n := range []int{a, b, a} {
		v := []byte(zzText(n))
		if i == 1 {
			v = bytes.Repeat([]byte("x"), n)
		}
		zzStoreOK(d, 7, string(v))
		zzLoads(d, 7, v, true)
		vt.Assert("files", len(vos.List(zzRoot)) == 1, "a temporary file was left")
		d = zzOpen(opts...)
		zzLoads(d, 7, v, true)
	}
	vt.Reach("done")
}
