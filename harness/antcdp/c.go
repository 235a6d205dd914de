package antcdp

import (
	"context"
	"errors"
	"io"
	"net/http"
	"net/url"
	"strconv"
	"strings"

	"github.com/mafredri/cdp/protocol/network"
	"github.com/mafredri/cdp/protocol/page"
	browser "github.com/yields/ant/internal/zzvbrowser"
	vt "github.com/yields/ant/internal/zzvt"
)

func zzReq(ctx context.Context, path string) *http.Request {
	u := &url.URL{Scheme: "http", Host: "a.test", Path: path}
	return (&http.Request{Method: "GET", Header: make(http.Header), URL: u}).WithContext(ctx)
}

func zzFrame(s string) *page.FrameID {
	f := page.FrameID(s)
	return &f
}

func zzReqEvent(id string, typ network.ResourceType, frame *page.FrameID) browser.Event {
	return browser.Event{Req: &network.RequestWillBeSentReply{RequestID: network.RequestID(id), Type: typ, FrameID: frame}}
}

func zzResEvent(id string, typ network.ResourceType, frame *page.FrameID, status int, headers string, proto *string) browser.Event {
	return browser.Event{Res: &network.ResponseReceivedReply{RequestID: network.RequestID(id), Type: typ, FrameID: frame,
		Response: network.Response{Status: status, Headers: network.Headers(headers), Protocol: proto}}}
}

const zzDoc = network.ResourceTypeDocument

// zzStatus is the status of simple pages.
var zzStatus = 200

// zzSimple is a page without sub-resources; its content is its URL.
func zzSimple(u string, t *browser.Tab) []browser.Event {
	t.HTML = "<html>" + u + "</html>"
	p := "http/1.1"
	f := t.Frame
	return []browser.Event{
		zzReqEvent("1", zzDoc, &f),
		zzResEvent("1", zzDoc, &f, zzStatus, `{"X-Url":"`+u+`"}`, &p),
		{Ready: true},
	}
}

// zzLean is zzSimple without request events.
func zzLean(u string, t *browser.Tab) []browser.Event { return zzSimple(u, t)[1:] }

// zzServed checks that resp is the response for path.
func zzServed(resp *http.Response, err error, path string) {
	vt.Assert("error", err == nil && resp != nil, "the request failed")
	if err != nil || resp == nil {
		return
	}
	vt.Assert("status", resp.StatusCode == zzStatus, "the response does not have the status of the page")
	u := "http://a.test" + path
	b, err := io.ReadAll(resp.Body)
	vt.Assert("body", err == nil && string(b) == "<html>"+u+"</html>", "the response does not have the content of the page")
	vt.Assert("header", resp.Header.Get("X-Url") == u, "the response does not have the headers of the page")
	vt.Assert("request", resp.Request != nil && resp.Request.URL.String() == u, "the response is for another request")
}

// zzQuiet checks that nothing is left open.
func zzQuiet(b *browser.Browser) {
	vt.Assert("conns", b.Conns == 0, "a connection was left open")
	vt.Assert("streams", b.Streams == 0, "an event stream was left open")
	for _, t := range b.Tabs {
		vt.Assert("shared", t.Most <= 1, "a target served two requests at once")
	}
}

// Requests one after another use the same target.
//
// verif: all preempt=0
func Verif_C01_reuse() {
	vt.Expect("reused", "canceled")
	b := browser.Reset()
	b.Page = zzSimple
	c := &Client{}
	zzStatus = []int{200, 304, 404, 503}[vt.Choose("status", 4)]
	n := vt.Choose("n", 3)
	tabs := 0
	for i := 0; i <= n; i++ {
		path := vt.Pick("path", "/a", "/b")
		if vt.Bool("canceled") {
			vt.Reach("canceled")
			ctx, cancel := context.WithCancel(context.Background())
			cancel()
			resp, err := c.Do(zzReq(ctx, path))
			vt.Assert("canceled", resp == nil && errors.Is(err, context.Canceled), "a canceled request did not return its context's error")
		} else {
			resp, err := c.Do(zzReq(context.Background(), path))
			zzServed(resp, err, path)
			if tabs == 1 {
				vt.Reach("reused")
			}
			tabs = 1
		}
		zzQuiet(b)
		vt.Assert("created", len(b.Tabs) == tabs, "an idle target was not reused")
	}
}

// Requests at the same time use different targets.
//
// verif: quick preempt=2
// verif: thorough preempt=3 tasks=3
func Verif_C01_concurrent() {
	vt.Expect("all")
	b := browser.Reset()
	b.Page = zzLean
	b.Switch = true
	c := &Client{}
	n := vt.Param("tasks", 2)
	zzStatus = []int{200, 500}[vt.Choose("status", 2)]
	idle := vt.Bool("idle")
	if idle {
		resp, err := c.Do(zzReq(context.Background(), "/idle"))
		zzServed(resp, err, "/idle")
	}
	done := 0
	for i := 0; i < n; i++ {
		path := "/" + string(rune('a'+i))
		vt.Go(func() {
			resp, err := c.Do(zzReq(context.Background(), path))
			zzServed(resp, err, path)
			vt.Atomic(func() { done++ })
		})
	}
	vt.WaitUntil(func() bool { return done == n })
	vt.Reach("all")
	zzQuiet(b)
	vt.Assert("created", len(b.Tabs) <= n, "an idle target was not reused")
	tabs := len(b.Tabs)
	resp, err := c.Do(zzReq(context.Background(), "/again"))
	zzServed(resp, err, "/again")
	zzQuiet(b)
	vt.Assert("reused", len(b.Tabs) == tabs, "an idle target was not reused")
}

// More requests at the same time than the pool holds targets.
//
// verif: quick delay=1
// verif: thorough delay=2
func Verif_C01_full() {
	vt.Expect("all")
	b := browser.Reset()
	b.Page = func(u string, t *browser.Tab) []browser.Event {
		return append([]browser.Event{{Pause: true}}, zzLean(u, t)...)
	}
	c := &Client{}
	n := []int{1, 9, 10, 11, 13}[vt.Choose("n", 5)]
	done := 0
	for i := 0; i < n; i++ {
		path := "/" + string(rune('a'+i))
		vt.Go(func() {
			resp, err := c.Do(zzReq(context.Background(), path))
			zzServed(resp, err, path)
			vt.Atomic(func() { done++ })
		})
	}
	vt.WaitUntil(func() bool { return b.Conns == n })
	vt.Assert("targets", len(b.Tabs) == n, "two requests share a target")
	b.Resume()
	vt.WaitUntil(func() bool { return done == n })
	vt.Reach("all")
	zzQuiet(b)
	b.Page = zzLean
	resp, err := c.Do(zzReq(context.Background(), "/again"))
	zzServed(resp, err, "/again")
	vt.Assert("reused", len(b.Tabs) == n, "an idle target was not reused")
}

// Concurrent requests after one that failed.
//
// verif: all delay=0
// verif: quick tasks=2 failures=1
// verif: thorough tasks=3 failures=2
func Verif_C01_fault() {
	vt.Expect("failed", "fine", "text")
	b := browser.Reset()
	b.Page = zzSimple
	zzStatus = 200
	c := &Client{}
	if vt.Bool("idle") {
		resp, err := c.Do(zzReq(context.Background(), "/idle"))
		zzServed(resp, err, "/idle")
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	switch vt.Choose("how", 3) {
	case 0:
		b.Fail = browser.Steps[vt.Choose("step", len(browser.Steps))]
	case 1:
		b.Hang = browser.Steps[vt.Choose("step", len(browser.Steps))]
		vt.Go(func() {
			vt.WaitUntil(func() bool { return b.Hung > 0 })
			cancel()
		})
	case 2:
		b.ErrorText = "net::ERR_NAME_NOT_RESOLVED"
		vt.Reach("text")
	}
	for i := 1 + vt.Choose("failures", vt.Param("failures", 1)); i > 0; i-- {
		if resp, err := c.Do(zzReq(ctx, "/x")); err != nil {
			vt.Reach("failed")
		} else {
			vt.Reach("fine")
			resp.Body.Close()
		}
	}
	b.Fail, b.Hang, b.ErrorText = "", "", ""
	b.Page = func(u string, t *browser.Tab) []browser.Event {
		return append([]browser.Event{{Pause: true}}, zzLean(u, t)...)
	}
	n, done := vt.Param("tasks", 2), 0
	for i := 0; i < n; i++ {
		path := "/" + string(rune('a'+i))
		vt.Go(func() {
			resp, err := c.Do(zzReq(context.Background(), path))
			zzServed(resp, err, path)
			vt.Atomic(func() { done++ })
		})
	}
	vt.WaitUntil(func() bool { return b.Conns == n })
	b.Resume()
	vt.WaitUntil(func() bool { return done == n })
	zzQuiet(b)
	vt.Assert("targets", len(b.Tabs) == n, "an idle target was not reused, or two requests share one")
}

// A failure anywhere.
//
// verif: all preempt=0
func Verif_C03_fault() {
	vt.Expect("create", "later")
	b := browser.Reset()
	b.Page = zzSimple
	c := &Client{}
	tabs := 0
	if vt.Bool("idle") {
		resp, err := c.Do(zzReq(context.Background(), "/idle"))
		zzServed(resp, err, "/idle")
		tabs = 1
	}
	step := browser.Steps[vt.Choose("step", len(browser.Steps))]
	made := b.Did(step)
	cause := browser.ErrFault
	var ctx, cancel = context.WithCancel(context.Background())
	defer cancel()
	switch vt.Choose("how", 3) {
	case 0:
		b.Fail = step
		cause = vt.Error("error", cause)
		b.Err = cause
	case 1:
		b.Hang = step
		cause = context.Canceled
		vt.Go(func() {
			vt.WaitUntil(func() bool { return b.Hung > 0 })
			cancel()
		})
	case 2:
		vt.Assume(step == "navigate")
		b.ErrorText = "net::ERR_NAME_NOT_RESOLVED"
		cause = nil
	}
	resp, err := c.Do(zzReq(ctx, "/x"))
	if b.Did(step) == made {
		// the call is not made: an idle target was used
		vt.Assert("step", step == "create" && tabs == 1, "a step is missing")
		vt.Assume(false)
	}
	if step == "create" {
		vt.Reach("create")
	} else {
		vt.Reach("later")
		tabs = 1
	}
	vt.Assert("error", err != nil && resp == nil, "a failed request returned no error, or a response")
	if cause != nil {
		vt.Assert("cause", errors.Is(err, cause), "the error is not the failure's")
	} else {
		vt.Assert("text", err != nil && strings.Contains(err.Error(), b.ErrorText), "the error does not tell the failure")
	}
	zzQuiet(b)
	b.Fail, b.Hang, b.ErrorText = "", "", ""
	resp, err = c.Do(zzReq(context.Background(), "/again"))
	zzServed(resp, err, "/again")
	if tabs == 0 {
		tabs = 1
	}
	vt.Assert("reused", len(b.Tabs) == tabs, "the failed request's target was not reused")
	zzQuiet(b)
}

// zzOther is an event that is not about the navigated document.
func zzOther(i int, t *browser.Tab) browser.Event {
	return zzOtherOf(vt.Choose("event", 7), i, t)
}

func zzOtherOf(kind, i int, t *browser.Tab) browser.Event {
	f := t.Frame
	id := "o" + string(rune('0'+i))
	p := "http/9.9"
	switch kind {
	case 0: // a sub-resource is requested
		return zzReqEvent(id, network.ResourceTypeScript, &f)
	case 1: // another frame's document is requested
		return zzReqEvent(id, zzDoc, zzFrame("G"))
	case 2: // something without a frame is requested
		return zzReqEvent(id, network.ResourceTypePing, nil)
	case 3: // a sub-resource arrives
		return zzResEvent(id, network.ResourceTypeStylesheet, &f, 404, `{"X-Other":"1"}`, &p)
	case 4: // another frame's document arrives
		return zzResEvent(id, zzDoc, zzFrame("G"), 500, `{"X-Other":"1"}`, &p)
	case 5: // something without a frame arrives
		return zzResEvent(id, network.ResourceTypeOther, nil, 301, `{"X-Other":"1"}`, nil)
	}
	// the document is requested (again)
	return zzReqEvent(id, zzDoc, &f)
}

// The document's response among other events.
//
// verif: quick delay=0 others=2
// verif: thorough delay=0 others=3
func Verif_C02_events() {
	vt.Expect("done")
	b := browser.Reset()
	status := []int{200, 404}[vt.Choose("status", 2)]
	val := vt.String("value", 0, 2, "ab")
	n := vt.Choose("n", vt.Param("others", 3)+1)
	at := vt.Choose("at", n+1)
	ready := vt.Choose("ready", 3)
	pause := vt.Choose("pause", n+3) // the event that comes late
	b.Page = func(u string, t *browser.Tab) []browser.Event {
		var es []browser.Event
		f := t.Frame
		t.HTML = "<p>"
		p := "http/1.1"
		if ready == 0 {
			es = append(es, browser.Event{Ready: true})
		}
		for i := 0; i <= n; i++ {
			if i == pause {
				es = append(es, browser.Event{Pause: true})
			}
			if i == at {
				es = append(es, zzResEvent("d", zzDoc, &f, status, `{"X-Val":"`+val+`"}`, &p))
				if ready == 1 {
					es = append(es, browser.Event{Ready: true})
				}
				continue
			}
			es = append(es, zzOther(i, t))
		}
		if n+1 == pause {
			es = append(es, browser.Event{Pause: true})
		}
		if ready == 2 {
			es = append(es, browser.Event{Ready: true})
		}
		return es
	}
	vt.Go(func() {
		vt.Quiesce()
		b.Resume()
	})
	c := &Client{}
	resp, err := c.Do(zzReq(context.Background(), "/"))
	vt.Assert("error", err == nil && resp != nil, "the request failed")
	vt.Reach("done")
	vt.Assert("status", resp.StatusCode == status, "the status is not the document's")
	vt.Assert("value", vt.EqStr(resp.Header.Get("X-Val"), val), "the headers are not the document's")
	vt.Assert("other", resp.Header.Get("X-Other") == "", "the headers of another response were returned")
	vt.Assert("proto", resp.Proto == "http/1.1" && resp.ProtoMajor == 1 && resp.ProtoMinor == 1, "the protocol is not the document's")
	body, err := io.ReadAll(resp.Body)
	vt.Assert("body", err == nil && string(body) == "<p>", "the body is not the document's")
	zzQuiet(b)
}

// The response that is made of the document.
//
// verif: quick preempt=0 len=3
// verif: thorough preempt=0 len=6
func Verif_C02_response() {
	vt.Expect("done", "versioned")
	b := browser.Reset()
	status := []int{200, 404, 599}[vt.Choose("status", 3)]
	html := vt.String("html", 0, vt.Param("len", 3), "<a\n\"")
	proto := []string{"", "h2", "", "blob"}[vt.Choose("proto", 4)]
	versioned := vt.Bool("versioned")
	major, minor := 0, 0
	if versioned {
		nums := []int{1, 0, 2, 10, 123}
		major, minor = nums[vt.Choose("major", 5)], nums[vt.Choose("minor", 5)]
		proto = vt.Pick("scheme", "http", "") + "/" + strconv.Itoa(major) + "." + strconv.Itoa(minor)
	}
	headers := []string{`{}`, `null`, `{"A":"1","Content-Length":"99999"}`, `{"a":"1","Content-Type":"text/html; charset=utf-8"}`}
	h := vt.Choose("headers", len(headers))
	if h == 0 && !versioned {
		html = vt.Pick("prefix", "", "é", "日本") + html
	}
	cookies := vt.Choose("cookies", 3)
	val := vt.String("cookie", 0, 2, "xy=")
	for i := 0; i < cookies; i++ {
		b.Cookies = append(b.Cookies, network.Cookie{Name: string(rune('k' + i)), Value: val, Path: "/", Domain: "a.test", HTTPOnly: i == 0})
	}
	b.Page = func(u string, t *browser.Tab) []browser.Event {
		t.HTML = html
		f := t.Frame
		pp := &proto
		if proto == "" {
			pp = nil
		}
		return []browser.Event{zzResEvent("d", zzDoc, &f, status, headers[h], pp), {Ready: true}}
	}
	req := zzReq(context.Background(), "/")
	resp, err := (&Client{}).Do(req)
	vt.Assert("error", err == nil && resp != nil, "the request failed")
	vt.Reach("done")
	vt.Assert("request", resp.Request == req, "the response is not for the request")
	vt.Assert("status", resp.StatusCode == status, "the status code is not the document's")
	text := map[int]string{200: "200 OK", 404: "404 Not Found"}[status]
	vt.Assert("text", text == "" || resp.Status == text, "the status line is not the document's")
	vt.Assert("proto", vt.EqStr(resp.Proto, proto), "the protocol is not the document's")
	if versioned {
		vt.Reach("versioned")
		vt.Assert("version", resp.ProtoMajor == major && resp.ProtoMinor == minor, "the protocol version is not the document's")
	}
	body, err := io.ReadAll(resp.Body)
	vt.Assert("body", err == nil && vt.EqStr(string(body), html), "the body is not the content of the document")
	vt.Assert("length", resp.ContentLength == int64(len(html)), "the content length is not the body's")
	vt.Assert("length-header", len(resp.Header.Values("Content-Length")) == 1 && resp.Header.Get("Content-Length") == strconv.Itoa(len(html)), "the content length header is not the body's")
	vt.Assert("headers", (resp.Header.Get("A") == "1") == (h >= 2) && (resp.Header.Get("Content-Type") == "text/html; charset=utf-8") == (h == 3), "the headers are not the document's")
	got := resp.Cookies()
	vt.Assert("cookies", len(got) == cookies, "the cookies are not the browser's")
	for i, k := range got {
		vt.Assert("cookie", k.Name == string(rune('k'+i)) && vt.EqStr(k.Value, val) && k.Path == "/" && k.HttpOnly == (i == 0), "a cookie is not the browser's")
	}
	vt.Assert("close", resp.Body.Close() == nil, "the body cannot be closed")
	zzQuiet(b)
}

// Every status.
//
// verif: all preempt=0
func Verif_C02_status() {
	vt.Expect("known", "unknown")
	b := browser.Reset()
	status := vt.Int("status", 100, 599)
	b.Page = func(u string, t *browser.Tab) []browser.Event {
		f := t.Frame
		return []browser.Event{zzResEvent("d", zzDoc, &f, status, `{"X":"y"}`, nil), {Ready: true}}
	}
	resp, err := (&Client{}).Do(zzReq(context.Background(), "/"))
	vt.Assert("error", err == nil && resp != nil, "the request failed")
	vt.Assert("code", resp.StatusCode == status, "the status code is not the document's")
	text := http.StatusText(status)
	if text == "" {
		vt.Reach("unknown")
	} else {
		vt.Reach("known")
		vt.Assert("status", vt.EqStr(resp.Status, strconv.Itoa(status)+" "+text), "the status line is not the document's")
	}
	vt.Assert("header", resp.Header.Get("X") == "y", "the headers are not the document's")
	zzQuiet(b)
}

// A document that never arrives.
//
// verif: quick delay=0 others=1
// verif: thorough delay=0 others=2
func Verif_C02_never() {
	vt.Expect("canceled", "dropped", "not-ready")
	b := browser.Reset()
	n := vt.Choose("n", vt.Param("others", 2)+1)
	ready := vt.Bool("ready")
	document := vt.Bool("document")
	drop := vt.Bool("drop")
	late := vt.Bool("late")
	vt.Assume(!(ready && document))
	b.Page = func(u string, t *browser.Tab) []browser.Event {
		var es []browser.Event
		f := t.Frame
		if late {
			es = append(es, browser.Event{Pause: true})
		}
		if document {
			es = append(es, zzResEvent("d", zzDoc, &f, 200, `{}`, nil))
		}
		for i := 0; i < n; i++ {
			es = append(es, zzOther(i, t))
		}
		if ready {
			es = append(es, browser.Event{Ready: true})
		}
		if drop {
			es = append(es, browser.Event{Drop: true})
		}
		return es
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	vt.Go(func() {
		vt.Quiesce()
		b.Resume()
		if !drop {
			vt.Quiesce()
			cancel()
		}
	})
	resp, err := (&Client{}).Do(zzReq(ctx, "/"))
	vt.Assert("error", err != nil && resp == nil, "there is a response without a document")
	if document {
		vt.Reach("not-ready")
	}
	if drop {
		vt.Reach("dropped")
	} else {
		vt.Reach("canceled")
		vt.Assert("cause", errors.Is(err, context.Canceled), "a canceled request did not return its context's error")
	}
	zzQuiet(b)
}

// What the browser is told of the request.
//
// verif: quick preempt=0 len=3
// verif: thorough preempt=0 len=5
func Verif_C04_request() {
	vt.Expect("done", "headers", "cookies")
	b := browser.Reset()
	b.Page = zzSimple
	c := &Client{}
	again := vt.Bool("again")
	if again {
		// an earlier request in the same target
		req := zzReq(context.Background(), "/before")
		req.Header.Set("X-Before", "1")
		resp, err := c.Do(req)
		zzServed(resp, err, "/before")
	}
	hs := len(b.Headers)
	start := len(b.Order)
	cs := len(b.Set)
	req := zzReq(context.Background(), "/p")
	req.URL.RawQuery = vt.Pick("query", "", "a=1&b=2")
	req.URL.Scheme = vt.Pick("scheme", "http", "https")
	switch vt.Choose("url", 6) {
	case 1:
		req.URL.Path, req.URL.RawPath = "/p/q", "/p%2Fq"
	case 2:
		req.URL.Path = "/p q"
	case 3:
		req.URL.User = url.UserPassword("u", "v")
	case 4:
		req.URL.Fragment = "f"
	case 5:
		req.URL.Host += ":81"
	}
	want := map[string]string{}
	one := vt.String("one", 0, vt.Param("len", 3), "ab/;= ")
	switch vt.Choose("headers", 6) {
	case 4:
		req.Header["X-Many"] = []string{one, "2", "3"}
		want["X-Many"] = one + ", 2, 3"
	case 5:
		req.Header["x-lower"] = []string{one}
		want["x-lower"] = one
	case 0:
	case 1:
		req.Header = nil
	case 2:
		req.Header.Set("User-Agent", one)
		want["User-Agent"] = one
	case 3:
		req.Header.Set("X-One", one)
		req.Header.Set("Accept", "text/html")
		want["X-One"], want["Accept"] = one, "text/html"
	}
	n := vt.Choose("cookies", 3)
	val := vt.String("cookie", 0, 2, "xy=")
	if req.Header == nil {
		n = 0
	}
	for i := 0; i < n; i++ {
		req.AddCookie(&http.Cookie{Name: string(rune('k' + i)), Value: val})
	}
	u := req.URL.String()
	resp, err := c.Do(req)
	vt.Assert("error", err == nil && resp != nil, "the request failed")
	vt.Reach("done")
	vt.Assert("url", b.Tabs[0].URL == u && len(b.Tabs) == 1, "the browser was sent to another URL")
	vt.Assert("headers-set", len(b.Headers) > hs || len(want) == 0, "the headers of the request are not sent")
	var got map[string]string
	if len(b.Headers) > hs {
		got, err = b.Headers[len(b.Headers)-1].Map()
		vt.Assert("headers-valid", err == nil, "the headers are not valid")
	}
	for k, v := range want {
		vt.Reach("headers")
		x, ok := got[k]
		vt.Assert("header", ok && vt.EqStr(x, v), "a header of the request is not sent")
	}
	for k := range got {
		_, ok := want[k]
		vt.Assert("extra", ok || k == "Cookie", "a header is sent that is not the request's")
	}
	vt.Assert("cookies", len(b.Set) == cs+n, "the cookies of the request are not set")
	for i, k := range b.Set[cs:] {
		vt.Reach("cookies")
		vt.Assert("cookie", k.Name == string(rune('k'+i)) && vt.EqStr(k.Value, val) && k.URL != nil && *k.URL == u, "a cookie of the request is not set for its URL")
	}
	order := strings.Join(b.Order[start:], ",")
	for _, before := range []string{"page.enable", "network.enable", "headers", "set cookies", "subscribe response", "subscribe ready"} {
		i, j := strings.Index(order, before), strings.Index(order, "navigate")
		needed := (before != "headers" || len(want) > 0) && (before != "set cookies" || n > 0)
		vt.Assert("order", i < j && (i >= 0 || !needed), "the browser is sent to the page before it is set up")
	}
}

// The document's response among other events, and every order of the
// browser's events and the client's steps.
//
// verif: quick preempt=2
// verif: thorough preempt=4
func Verif_C02_late() {
	vt.Expect("done")
	b := browser.Reset()
	kind := vt.Choose("kind", 3)
	b.Page = func(u string, t *browser.Tab) []browser.Event {
		f := t.Frame
		t.HTML = "<p>"
		sub := zzReqEvent("s", network.ResourceTypeScript, &f)
		other := zzResEvent("o", zzDoc, zzFrame("G"), 500, `{"X-Other":"1"}`, nil)
		doc := zzResEvent("d", zzDoc, &f, 200, `{"X-Val":"1"}`, nil)
		ready := browser.Event{Ready: true}
		pause := browser.Event{Pause: true}
		switch kind {
		case 0:
			return []browser.Event{pause, sub, other, doc, ready}
		case 1:
			return []browser.Event{sub, pause, other, doc, ready}
		}
		return []browser.Event{pause, ready, doc, other, sub}
	}
	b.Resume()
	resp, err := (&Client{}).Do(zzReq(context.Background(), "/"))
	vt.Assert("error", err == nil && resp != nil, "the request failed")
	vt.Reach("done")
	vt.Assert("response", resp.StatusCode == 200 && resp.Header.Get("X-Val") == "1" && resp.Header.Get("X-Other") == "", "the response is not the document's")
	zzQuiet(b)
}
