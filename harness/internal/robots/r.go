package robots

import (
	"context"
	"errors"
	"io"
	"net/http"
	"net/url"
	"strconv"
	"strings"
	"time"

	_ "github.com/yields/ant/internal/zzvhttp"
	vt "github.com/yields/ant/internal/zzvt"
)

type zzTransport func(*http.Request) (*http.Response, error)

func (f zzTransport) RoundTrip(r *http.Request) (*http.Response, error) { return f(r) }

var zzErrNet, zzErrRead = errors.New("net"), errors.New("read")

type zzBody struct {
	s      string
	off    int
	fail   bool
	err    error
	closed int
}

func (b *zzBody) Read(p []byte) (int, error) {
	if b.fail && b.off > 3 {
		if b.err != nil {
			return 0, b.err
		}
		return 0, zzErrRead
	}
	if b.off == len(b.s) {
		return 0, io.EOF
	}
	if len(p) > 4 {
		p = p[:len(p)/2] // short reads
	}
	n := copy(p, b.s[b.off:])
	b.off += n
	return n, nil
}

func (b *zzBody) Close() error { b.closed++; return nil }

// zzRule is one line of a group, zzGroup one group, as the reference sees them.
type zzRule struct {
	allow bool
	path  string
}

type zzGroup struct {
	agent string
	delay int // in seconds, or if negative in thousandths of one
	rules []zzRule
}

func zzFile(gs []zzGroup) string {
	s := "# robots\n"
	for _, g := range gs {
		s += "User-agent: " + g.agent + "\n"
		for _, r := range g.rules {
			if r.allow {
				s += "Allow: " + r.path + "\n"
			} else {
				s += "Disallow: " + r.path + "\n"
			}
		}
		if g.delay > 0 {
			s += "Crawl-delay: " + vt.Dec(int64(g.delay)) + "\n"
		} else if g.delay < 0 {
			ms := strconv.Itoa(1000 - g.delay%1000)
			s += "Crawl-delay: " + strconv.Itoa(-g.delay/1000) + "." + ms[1:] + "\n"
		}
		s += "\n"
	}
	return s
}

var zzFiles = [][]zzGroup{
	{},
	{{"*", 0, []zzRule{{false, "/"}}}},
	{{"*", 0, []zzRule{{false, "/a"}, {true, "/ab"}, {false, "/abb"}}}, {"ant", 2, []zzRule{{false, "/b"}}}},
	{{"ant", 0, []zzRule{{true, "/b"}, {false, "/"}}}, {"antbot", 3, []zzRule{{false, "/bb"}}}},
	{{"*", 5, []zzRule{{true, "/"}}}},
	{{"*", 7, []zzRule{{false, "/b/"}}}, {"bee", 0, []zzRule{{true, "/a"}}}},
}

// zzPick is the group for an agent: the longest one that starts its name.
func zzPick(gs []zzGroup, ua string) *zzGroup {
	if ua == "" {
		ua = "*"
	}
	ua = strings.ToLower(ua)
	var best *zzGroup
	for i := range gs {
		g := &gs[i]
		if g.agent == "*" {
			if best == nil {
				best = g
			}
		} else if strings.HasPrefix(ua, g.agent) && (best == nil || best.agent == "*" || len(g.agent) > len(best.agent)) {
			best = g
		}
	}
	return best
}

// zzAllowed applies the longest matching rule.
func zzAllowed(gs []zzGroup, ua, path string) bool {
	g := zzPick(gs, ua)
	if g == nil {
		return true
	}
	allow, n := true, 0
	for _, r := range g.rules {
		hit := r.path == "/" || len(path) >= len(r.path) && vt.Force(vt.EqStr(path[:len(r.path)], r.path))
		if hit && len(r.path) > n {
			allow, n = r.allow, len(r.path)
		}
	}
	return allow
}

type zzHost struct {
	gs     []zzGroup
	known  bool // the reference expects it to be cached
	all    bool // cached as "no restrictions"
	calls  int
	bodies []*zzBody
}

type zzOrigin struct {
	hosts  map[string]*zzHost
	mode   int // of the next fetch: 0 ok, 1 network error, 2 read error, 3 garbage, 4 status
	status int
	err    error // instead of zzErrNet and zzErrRead
	seen   []string
	delay  time.Duration
}

func (o *zzOrigin) client() *http.Client {
	return &http.Client{Transport: zzTransport(func(r *http.Request) (*http.Response, error) {
		if err := r.Context().Err(); err != nil {
			return nil, err
		}
		o.seen = append(o.seen, r.Method+" "+r.URL.String())
		h := o.hosts[r.URL.Host]
		vt.Assert("host", h != nil, "another host was asked")
		h.calls++
		if o.mode == 1 {
			if o.err != nil {
				return nil, o.err
			}
			return nil, zzErrNet
		}
		b := &zzBody{s: zzFile(h.gs), fail: o.mode == 2, err: o.err}
		status := 200
		switch o.mode {
		case 3:
			b.s = "User-agent: *\nDisallow: /\x00\nCrawl-delay: soon\n"
		case 4:
			status = o.status
		}
		h.bodies = append(h.bodies, b)
		return &http.Response{StatusCode: status, Body: b, Header: http.Header{}, Request: r}, nil
	})}
}

func zzURL(scheme, host, path string) *url.URL {
	return &url.URL{Scheme: scheme, Host: host, Path: path}
}

// zzStep makes one call and checks it against the reference.
func zzStep(c *Cache, o *zzOrigin, host, path, ua string, wait bool) {
	h := o.hosts[host]
	before := h.calls
	u := zzURL("http", host, path)
	req := Request{UserAgent: ua, URL: u}
	var ok bool
	var err error
	start := vt.Now()
	if wait {
		err = c.Wait(context.Background(), req)
	} else {
		ok, err = c.Allowed(context.Background(), req)
	}
	vt.Assert("url", u.Scheme == "http" && u.Host == host && vt.Force(vt.EqStr(u.Path, path)), "the URL was altered")
	if h.known {
		vt.Reach("cached")
		vt.Assert("once", h.calls == before, "robots.txt was fetched again while it was cached")
	} else {
		vt.Reach("fetched")
		vt.Assert("fetch", h.calls == before+1, "robots.txt was not fetched exactly once")
		vt.Assert("robots-url", o.seen[len(o.seen)-1] == "GET http://"+host+"/robots.txt", "another document was fetched")
		for _, b := range h.bodies {
			vt.Assert("closed", b.closed > 0, "the body of a robots.txt response was not closed")
		}
		fail := o.mode == 1 || o.mode == 2 && (o.status >= 200) || o.mode == 3
		switch {
		case o.mode == 4 && o.status >= 400:
			vt.Reach("status")
			h.known, h.all = true, true
		case o.mode == 4 && o.status >= 300:
			fail = true
		}
		if fail {
			vt.Reach("failed")
			vt.Assert("error", err != nil && !ok, "a failed fetch was not an error")
			if cause := o.err; cause != nil {
				vt.Assert("cause", o.mode > 2 || errors.Is(err, cause), "another error was returned")
			} else {
				vt.Assert("cause", (o.mode != 1 || errors.Is(err, zzErrNet)) && (o.mode != 2 || errors.Is(err, zzErrRead)), "another error was returned")
			}
			return
		}
		h.known = true
	}
	vt.Assert("no-error", err == nil, "a call failed although robots.txt is known")
	if wait {
		d := 0
		if g := zzPick(h.gs, ua); g != nil && !h.all {
			d = g.delay
		}
		vt.Assert("delay", vt.Now()-start == int64(d)*int64(time.Second), "Wait did not wait for exactly the crawl delay")
		return
	}
	p := path
	if len(p) > 0 && vt.Force(p[0] != '/') {
		p = "/" + p
	}
	want := h.all || zzAllowed(h.gs, ua, p)
	if want {
		vt.Reach("allowed")
	} else {
		vt.Reach("disallowed")
	}
	vt.Assert("decision", ok == want, "Allowed differs from what robots.txt says")
}

var zzAgents = []string{"", "ant", "Ant/1.0", "antbot", "other", "ANTBOT2", "an"}

// One call for every file, agent and path; the second one from the cache.
//
// verif: all preempt=0 len=4
// verif: thorough len=6
func Verif_R01_rules() {
	vt.Expect("fetched", "cached", "allowed", "disallowed")
	o := &zzOrigin{hosts: map[string]*zzHost{"h": {gs: zzFiles[vt.Choose("file", len(zzFiles))]}}}
	c := NewCache(o.client(), 10)
	for i := 0; i < 2; i++ {
		ua := zzAgents[vt.Choose("agent", len(zzAgents))]
		zzStep(c, o, "h", vt.String("path", 0, vt.Param("len", 4), "/ab"), ua, false)
	}
}

// A robots.txt whose rules are symbolic.
//
// verif: all preempt=0 len=3
// verif: thorough len=4
func Verif_R01_symbolic() {
	vt.Expect("fetched", "allowed", "disallowed")
	rule := func() zzRule {
		return zzRule{vt.Bool("allow"), "/" + vt.String("rule", 0, 2, "ab/")}
	}
	a, b := rule(), rule()
	vt.Assume(len(a.path) != len(b.path) || vt.Not(vt.EqStr(a.path, b.path)))
	gs := []zzGroup{{"*", 0, []zzRule{a, b}}}
	if vt.Bool("other") {
		gs = append(gs, zzGroup{"ant", 0, []zzRule{{false, "/" + vt.String("rule", 0, 1, "ab")}}})
	}
	o := &zzOrigin{hosts: map[string]*zzHost{"h": {gs: gs}}}
	c := NewCache(o.client(), 10)
	zzStep(c, o, "h", "/"+vt.String("path", 0, vt.Param("len", 3)-1, "ab/"), vt.Pick("agent", "ant", "bee"), false)
}

// Histories over two hosts with a failure at every position.
//
// verif: all preempt=0
// verif: quick calls=3
// verif: thorough calls=4
func Verif_R01_history() {
	vt.Expect("fetched", "cached", "failed", "status", "allowed", "disallowed")
	o := &zzOrigin{hosts: map[string]*zzHost{"h": {gs: zzFiles[2]}, "h:81": {gs: zzFiles[3]}}}
	c := NewCache(o.client(), 10)
	for i := 0; i < vt.Param("calls", 3); i++ {
		o.mode = vt.Choose("fault", 5)
		o.status = 200
		if o.mode == 4 {
			o.status = vt.Int("status", 300, 599)
		}
		zzStep(c, o, vt.Pick("host", "h", "h:81"), "/"+vt.String("path", 1, 1, "abc"), "ant", vt.Bool("wait"))
	}
}

// Whatever the failure is, it is an error and it is not remembered.
//
// verif: all preempt=0
func Verif_R01_errors() {
	vt.Expect("failed", "fetched")
	o := &zzOrigin{hosts: map[string]*zzHost{"h": {gs: zzFiles[2]}}, status: 200, err: vt.Error("error", nil)}
	c := NewCache(o.client(), 10)
	for i := 0; i < 3; i++ {
		o.mode = vt.Choose("fault", 3)
		zzStep(c, o, "h", "/"+vt.String("path", 1, 1, "abc"), "ant", vt.Bool("wait"))
	}
}

// A small cache forgets hosts, but never mixes them up.
//
// verif: all preempt=0
// verif: quick calls=4
// verif: thorough calls=6
func Verif_R01_capacity() {
	vt.Expect("right")
	files := [][]zzGroup{zzFiles[1], zzFiles[0], zzFiles[2]}
	names := []string{"a", "b", "c"}
	o := &zzOrigin{hosts: map[string]*zzHost{}}
	for i, n := range names {
		o.hosts[n] = &zzHost{gs: files[i]}
	}
	c := NewCache(o.client(), vt.Choose("capacity", 3)+1)
	for i := 0; i < vt.Param("calls", 4); i++ {
		k := vt.Choose("host", 3)
		p := "/" + vt.String("path", 1, 1, "ab")
		ok, err := c.Allowed(context.Background(), Request{URL: zzURL("https", names[k], p)})
		vt.Assert("right", err == nil && ok == zzAllowed(files[k], "", p), "a host got another host's answer")
		vt.Reach("right")
	}
}

// A robots.txt that changes: the old one is used for an hour.
//
// verif: all preempt=0
func Verif_R01_expiry() {
	vt.Expect("cached", "fetched", "allowed", "disallowed")
	k := vt.Choose("file", len(zzFiles))
	h := &zzHost{gs: zzFiles[k]}
	o := &zzOrigin{hosts: map[string]*zzHost{"h": h}}
	c := NewCache(o.client(), 10)
	path := "/" + vt.String("path", 1, 2, "ab")
	zzStep(c, o, "h", path, "ant", false)
	start := vt.Now()
	for i := 0; i < 2; i++ {
		vt.SetNow(vt.Now() + vt.Int64("later", 0, 3*int64(time.Hour)))
		if vt.Force(vt.Now()-start > int64(time.Hour)) {
			h.known = false
			h.gs = zzFiles[(k+i+1)%len(zzFiles)]
			start = vt.Now()
		}
		zzStep(c, o, "h", path, "ant", false)
	}
}

// Concurrent calls for two hosts.
//
// verif: all races
// verif: quick preempt=1 callers=2
// verif: thorough preempt=2 callers=3
func Verif_R01_concurrent() {
	vt.Expect("right")
	files := [][]zzGroup{zzFiles[1], zzFiles[2]}
	names := []string{"a", "b"}
	o := &zzOrigin{hosts: map[string]*zzHost{"a": {gs: files[0]}, "b": {gs: files[1]}}}
	cl := o.client()
	inner := cl.Transport
	cl.Transport = zzTransport(func(r *http.Request) (resp *http.Response, err error) {
		vt.Yield()
		vt.Atomic(func() { resp, err = inner.RoundTrip(r) })
		return
	})
	c := NewCache(cl, 1+vt.Choose("capacity", 2))
	n := vt.Param("callers", 2)
	ended := 0
	for i := 0; i < n; i++ {
		k := vt.Choose("host", 2)
		p := "/" + vt.String("path", 1, 1, "ab")
		vt.Go(func() {
			ok, err := c.Allowed(context.Background(), Request{URL: zzURL("https", names[k], p)})
			vt.Atomic(func() {
				vt.Assert("right", err == nil && ok == zzAllowed(files[k], "", p), "a host got another host's answer")
				vt.Reach("right")
				ended++
			})
		})
	}
	vt.WaitUntil(func() bool { return ended == n })
}

// Waiting, with a cancellation at a symbolic time.
//
// verif: all preempt=0
// verif: thorough preempt=1
func Verif_R02_cancel() {
	vt.Expect("waited", "canceled", "none")
	k := vt.Choose("file", len(zzFiles))
	ua := zzAgents[vt.Choose("agent", len(zzAgents))]
	o := &zzOrigin{hosts: map[string]*zzHost{"h": {gs: zzFiles[k]}}}
	c := NewCache(o.client(), 10)
	if vt.Bool("cached") {
		_, err := c.Allowed(context.Background(), Request{URL: zzURL("http", "h", "/")})
		vt.Assert("no-error", err == nil, "Allowed failed")
	}
	d := int64(0)
	if g := zzPick(zzFiles[k], ua); g != nil {
		d = int64(g.delay) * int64(time.Second)
	}
	at := vt.Int64("cancel-at", 1, 10*int64(time.Second))
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(at))
	defer cancel()
	start := vt.Now()
	err := c.Wait(ctx, Request{UserAgent: ua, URL: zzURL("http", "h", "/x")})
	took := vt.Now() - start
	if err == nil {
		if d == 0 {
			vt.Reach("none")
		} else {
			vt.Reach("waited")
		}
		vt.Assert("full", took == d, "Wait did not return after exactly the crawl delay")
		vt.Assert("not-late", at >= d, "Wait ignored the cancellation")
		return
	}
	vt.Reach("canceled")
	vt.Assert("context-error", errors.Is(err, context.DeadlineExceeded), "another error was returned")
	vt.Assert("prompt", took == at, "Wait did not return promptly when canceled")
	vt.Assert("not-early", at <= d, "Wait failed although the delay had elapsed")
}

// Delays of any magnitude, up to a symbolic deadline.
//
// verif: all preempt=0
func Verif_R02_magnitude() {
	vt.Expect("waited", "canceled")
	delays := []int{-1, -250, -500, -999, -1500, -59750, 1, 9, 10, 59, 60, 61, 120, 3599, 3600, 86400, 1000000}
	d := delays[vt.Choose("delay", len(delays))]
	want := int64(d) * int64(time.Second)
	if d < 0 {
		want = int64(-d) * int64(time.Millisecond)
	}
	o := &zzOrigin{hosts: map[string]*zzHost{"h": {gs: []zzGroup{{"*", d, nil}}}}}
	c := NewCache(o.client(), 10)
	at := vt.Int64("cancel-at", 1, 2000000*int64(time.Second))
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(at))
	defer cancel()
	start := vt.Now()
	err := c.Wait(ctx, Request{URL: zzURL("http", "h", "/x")})
	took := vt.Now() - start
	if err == nil {
		vt.Reach("waited")
		vt.Assert("full", took == want, "Wait did not return after exactly the crawl delay")
		return
	}
	vt.Reach("canceled")
	vt.Assert("context-error", errors.Is(err, context.DeadlineExceeded), "another error was returned")
	vt.Assert("prompt", took == at, "Wait did not return promptly when canceled")
	vt.Assert("not-early", at <= want, "Wait failed although the delay had elapsed")
}

// A context canceled by another goroutine, before or during the wait.
//
// verif: all races
// verif: quick preempt=1
// verif: thorough preempt=2
func Verif_R02_concurrent() {
	vt.Expect("waited", "canceled")
	o := &zzOrigin{hosts: map[string]*zzHost{"h": {gs: zzFiles[2]}}}
	c := NewCache(o.client(), 10)
	ctx, cancel := context.WithCancel(context.Background())
	nap := vt.Int64("nap", 0, 4*int64(time.Second))
	ended := 0
	start := vt.Now()
	vt.Go(func() {
		time.Sleep(time.Duration(nap))
		cancel()
		ended++
	})
	vt.Go(func() {
		err := c.Wait(ctx, Request{UserAgent: "ant", URL: zzURL("http", "h", "/x")})
		took := vt.Now() - start
		if err == nil {
			vt.Reach("waited")
			vt.Assert("full", took == 2*int64(time.Second), "Wait did not wait for exactly the crawl delay")
		} else {
			vt.Reach("canceled")
			vt.Assert("context-error", errors.Is(err, context.Canceled), "another error was returned")
			vt.Assert("prompt", took == nap, "Wait did not return promptly when canceled")
		}
		ended++
	})
	vt.WaitUntil(func() bool { return ended == 2 })
}

// Two waits, one after the other: each waits in full.
//
// verif: all preempt=0
// verif: thorough calls=4
func Verif_R02_sequence() {
	vt.Expect("cached", "fetched")
	o := &zzOrigin{hosts: map[string]*zzHost{"h": {gs: zzFiles[vt.Choose("file", len(zzFiles))]}, "g": {gs: zzFiles[4]}}}
	c := NewCache(o.client(), 10)
	for i := 0; i < vt.Param("calls", 3); i++ {
		zzStep(c, o, vt.Pick("host", "h", "g"), "/x", zzAgents[vt.Choose("agent", len(zzAgents))], true)
	}
}

// Only the path of a URL counts, whatever else it has, also for rules with
// wildcards; and robots.txt is that of its scheme and host.
//
// verif: all preempt=0
func Verif_R01_parts() {
	vt.Expect("allowed", "disallowed")
	rule := vt.Pick("rule", "/a$", "/*?", "/*b$", "/a", "/%61")
	u := zzURL(vt.Pick("scheme", "http", "https"), vt.Pick("host", "h", "h:81", "[::1]"), vt.Pick("path", "/a", "/b", "/ab", "/a?", "a", "/", "/%61", "/a/b"))
	u.RawQuery = vt.Pick("query", "", "a", "a$", "/a")
	switch vt.Choose("more", 4) {
	case 1:
		u.User = url.UserPassword("u", "p")
	case 2:
		u.Fragment = "a"
	case 3:
		u.ForceQuery = true
	}
	path := u.Path
	if path[0] != '/' {
		path = "/" + path
	}
	want := true
	switch rule {
	case "/a$":
		want = path != "/a"
	case "/*?":
		want = !strings.Contains(path, "?")
	case "/*b$":
		want = !strings.HasSuffix(path, "b")
	default:
		want = !strings.HasPrefix(path, rule)
	}
	asked := ""
	client := &http.Client{Transport: zzTransport(func(r *http.Request) (*http.Response, error) {
		asked = r.Method + " " + r.URL.String()
		return &http.Response{StatusCode: 200, Body: &zzBody{s: "User-agent: *\nDisallow: " + rule + "\n"}, Header: http.Header{}, Request: r}, nil
	})}
	before := *u
	ok, err := NewCache(client, 10).Allowed(context.Background(), Request{URL: u})
	vt.Assert("no-error", err == nil, "a call failed although robots.txt is known")
	vt.Assert("robots-url", asked == "GET "+u.Scheme+"://"+u.Host+"/robots.txt", "another document was fetched")
	vt.Assert("decision", ok == want, "Allowed differs from what robots.txt says")
	vt.Assert("url", *u == before, "the URL was altered")
	if want {
		vt.Reach("allowed")
	} else {
		vt.Reach("disallowed")
	}
}
