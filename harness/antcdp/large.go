package antcdp

import (
	"context"
	"io"
	"net/http"
	"strconv"
	"strings"

	"github.com/mafredri/cdp/protocol/network"
	browser "github.com/yields/ant/internal/zzvbrowser"
	vt "github.com/yields/ant/internal/zzvt"
)

// Large documents with many headers and cookies, among many events.
//
// verif: all preempt=0 steps=100000000
func Verif_C02_large() {
	vt.Expect("done")
	b := browser.Reset()
	size := []int{0, 4095, 4096, 4097, 65_536, 300_000}[vt.Choose("size", 6)]
	events := []int{0, 3, 9}[vt.Choose("events", 3)]
	n := []int{0, 9, 70}[vt.Choose("headers", 3)]
	doc := strings.Repeat("0123456789abcdef\n", size/17+1)[:size]
	headers := "{"
	for i := 0; i < n; i++ {
		s := strconv.Itoa(i)
		if i > 0 {
			headers += ","
		}
		headers += `"X-H` + s + `":"` + strings.Repeat("v", i*20) + s + `"`
		b.Cookies = append(b.Cookies, network.Cookie{Name: "k" + s, Value: "v" + s, Path: "/", Domain: "a.test"})
	}
	headers += "}"
	b.Page = func(u string, t *browser.Tab) []browser.Event {
		t.HTML = doc
		f := t.Frame
		var es []browser.Event
		for i := 0; i < events; i++ {
			if i == events/2 {
				es = append(es, zzResEvent("d", zzDoc, &f, 404, headers, nil))
			}
			es = append(es, zzOtherOf(i%7, i%9, t))
		}
		if events == 0 {
			es = append(es, zzResEvent("d", zzDoc, &f, 404, headers, nil))
		}
		return append(es, browser.Event{Ready: true})
	}
	resp, err := (&Client{}).Do(zzReq(context.Background(), "/"))
	vt.Assert("error", err == nil && resp != nil, "the request failed")
	vt.Reach("done")
	vt.Assert("status", resp.StatusCode == 404, "the status code is not the document's")
	body, err := io.ReadAll(resp.Body)
	vt.Assert("body", err == nil && string(body) == doc, "the body is not the content of the document")
	vt.Assert("length", resp.ContentLength == int64(size) && resp.Header.Get("Content-Length") == strconv.Itoa(size), "the content length is not the body's")
	got := resp.Cookies()
	vt.Assert("cookies", len(got) == n, "the cookies are not the browser's")
	for i, k := range got {
		s := strconv.Itoa(i)
		vt.Assert("header", resp.Header.Get("X-H"+s) == strings.Repeat("v", i*20)+s, "the headers are not the document's")
		vt.Assert("cookie", k.Name == "k"+s && k.Value == "v"+s && k.Path == "/", "a cookie is not the browser's")
	}
	vt.Assert("close", resp.Body.Close() == nil, "the body cannot be closed")
	zzQuiet(b)
}

// Requests with long URLs and many headers and cookies.
//
// verif: all preempt=0 steps=100000000
func Verif_C04_large() {
	vt.Expect("done")
	b := browser.Reset()
	b.Page = zzSimple
	n := []int{1, 12, 80}[vt.Choose("headers", 3)]
	m := []int{0, 1, 12, 60}[vt.Choose("cookies", 4)]
	size := []int{1, 255, 3000}[vt.Choose("size", 3)]
	req := zzReq(context.Background(), "/"+strings.Repeat("p", size))
	req.URL.RawQuery = "q=" + strings.Repeat("v", size)
	for i := 0; i < n; i++ {
		req.Header.Set("X-H"+strconv.Itoa(i), strings.Repeat("v", size)+strconv.Itoa(i))
	}
	for i := 0; i < m; i++ {
		req.AddCookie(&http.Cookie{Name: "k" + strconv.Itoa(i), Value: strings.Repeat("v", size%1000)})
	}
	u := req.URL.String()
	resp, err := (&Client{}).Do(req)
	vt.Assert("error", err == nil && resp != nil, "the request failed")
	vt.Reach("done")
	vt.Assert("url", len(b.Tabs) == 1 && b.Tabs[0].URL == u, "the browser was sent to another URL")
	vt.Assert("headers-set", len(b.Headers) > 0, "the headers of the request are not sent")
	got, err := b.Headers[len(b.Headers)-1].Map()
	vt.Assert("headers-valid", err == nil, "the headers are not valid")
	for i := 0; i < n; i++ {
		vt.Assert("header", got["X-H"+strconv.Itoa(i)] == strings.Repeat("v", size)+strconv.Itoa(i), "a header of the request is not sent")
	}
	for k := range got {
		vt.Assert("extra", strings.HasPrefix(k, "X-H") || k == "Cookie", "a header is sent that is not the request's")
	}
	vt.Assert("cookies", len(b.Set) == m, "the cookies of the request are not set")
	for i, k := range b.Set {
		vt.Assert("cookie", k.Name == "k"+strconv.Itoa(i) && k.Value == strings.Repeat("v", size%1000) && k.URL != nil && *k.URL == u, "a cookie of the request is not set for its URL")
	}
}

// Many requests, one after another and in rounds at the same time.
//
// verif: all delay=0 steps=50000000
func Verif_C01_large() {
	vt.Expect("all")
	b := browser.Reset()
	b.Page = func(u string, t *browser.Tab) []browser.Event {
		return append([]browser.Event{{Pause: true}}, zzLean(u, t)...)
	}
	c := &Client{}
	n := []int{2, 7, 10, 30}[vt.Choose("n", 4)]
	rounds := []int{2, 12}[vt.Choose("rounds", 2)]
	for r := 0; r < rounds; r++ {
		done := 0
		for i := 0; i < n; i++ {
			path := "/" + strconv.Itoa(r) + "/" + strconv.Itoa(i)
			vt.Go(func() {
				resp, err := c.Do(zzReq(context.Background(), path))
				zzServed(resp, err, path)
				vt.Atomic(func() { done++ })
			})
		}
		vt.WaitUntil(func() bool { return b.Conns == n })
		b.Resume()
		vt.WaitUntil(func() bool { return done == n })
		b.Again()
		zzQuiet(b)
	}
	vt.Assert("targets", len(b.Tabs) >= n && (n > 10 || len(b.Tabs) == n), "an idle target was not reused")
	vt.Reach("all")
}
