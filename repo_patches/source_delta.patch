From 1b8ffc734f3312d7745902f3fb82ab4eb0d2d523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:32 +0000
Subject: [PATCH 01/32] fix: remove the default port of bracketed IPv6 hosts

---
 internal/normalize/url.go | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/internal/normalize/url.go b/internal/normalize/url.go
index aef861b..5f300c4 100644
--- a/internal/normalize/url.go
+++ b/internal/normalize/url.go
@@ -45,16 +45,14 @@ func URL(u *url.URL) *url.URL {
 func hostname(u *url.URL) string {
 	var host = strings.ToLower(u.Host)
 
-	if j := strings.IndexByte(host, ':'); j != -1 {
-		switch port := host[j+1:]; {
-		case u.Scheme == "http" && port == "80":
-			return host[:j]
-		case u.Scheme == "https" && port == "443":
-			return host[:j]
-		}
+	switch u.Scheme {
+	case "http":
+		return strings.TrimSuffix(host, ":80")
+	case "https":
+		return strings.TrimSuffix(host, ":443")
+	default:
+		return host
 	}
-
-	return host
 }
 
 // Pathname normalizes the pathname.
-- 
2.43.0


From 802719cea7fe613671c1e8657f5abdf620c6ad03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:32 +0000
Subject: [PATCH 02/32] fix: keep the normalized path rooted

---
 internal/normalize/url.go | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/internal/normalize/url.go b/internal/normalize/url.go
index 5f300c4..6ea5677 100644
--- a/internal/normalize/url.go
+++ b/internal/normalize/url.go
@@ -35,6 +35,7 @@ func URL(u *url.URL) *url.URL {
 	u.Scheme = strings.ToLower(u.Scheme)
 	u.Host = hostname(u)
 	u.Path = pathname(u)
+	u.RawPath = ""
 	u.RawQuery = query(u.RawQuery)
 	u.ForceQuery = false
 	u.Fragment = ""
@@ -57,13 +58,7 @@ func hostname(u *url.URL) string {
 
 // Pathname normalizes the pathname.
 func pathname(u *url.URL) string {
-	switch u.Path {
-	case "", "/":
-		return "/"
-	default:
-		parts := strings.Split(u.Path, "/")
-		return path.Join(parts...)
-	}
+	return path.Join("/", u.Path)
 }
 
 // Query sorts the given query.
-- 
2.43.0


From fc940103f11b6038d4860b0d3057b95aec314dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:16 +0000
Subject: [PATCH 03/32] fix: acknowledge the dequeued URL when the crawl is
 canceled

---
 engine.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/engine.go b/engine.go
index eda6204..c519795 100644
--- a/engine.go
+++ b/engine.go
@@ -229,6 +229,7 @@ func (eng *Engine) run(ctx context.Context) error {
 
 		if eng.sema != nil {
 			if err := eng.sema.Acquire(ctx, 1); err != nil {
+				eng.queue.Done(ctx, url)
 				return err
 			}
 		}
-- 
2.43.0


From 337a663633381170e04dbf0f45022ba250b78764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:18 +0000
Subject: [PATCH 04/32] fix: stop the crawl when a URL fails

A failed URL only canceled the context of its own worker, the workers
kept crawling until the queue was empty and the error was reported
last. Process all URLs in one group and close the queue when the group
fails or the crawl is canceled.
---
 engine.go | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/engine.go b/engine.go
index c519795..4b2c4c1 100644
--- a/engine.go
+++ b/engine.go
@@ -142,11 +142,18 @@ func (eng *Engine) Run(ctx context.Context, urls ...string) error {
 		return fmt.Errorf("ant: enqueue - %w", err)
 	}
 
+	// Close the queue when the crawl fails or is canceled
+	// so that no more URLs are handled.
+	stop := context.AfterFunc(subctx, func() {
+		eng.queue.Close(ctx)
+	})
+	defer stop()
+
 	// Spawn workers.
 	for i := 0; i < eng.workers; i++ {
 		eg.Go(func() error {
 			defer eng.queue.Close(ctx)
-			return eng.run(subctx)
+			return eng.run(subctx, eg)
 		})
 	}
 
@@ -161,6 +168,11 @@ func (eng *Engine) Run(ctx context.Context, urls ...string) error {
 		return fmt.Errorf("ant: run - %w", err)
 	}
 
+	// URLs may have been discarded if the context was canceled.
+	if err := ctx.Err(); err != nil {
+		return fmt.Errorf("ant: run - %w", err)
+	}
+
 	return nil
 }
 
@@ -214,14 +226,16 @@ func (eng *Engine) enqueue(ctx context.Context, batch URLs) error {
 //
 // The worker is in charge of fetching a url from
 // the queue, creating a page and then calling the scraper.
-func (eng *Engine) run(ctx context.Context) error {
-	eg, subctx := errgroup.WithContext(ctx)
+//
+// URLs are processed in goroutines of the given group, its
+// context is ctx, the first error stops all workers.
+func (eng *Engine) run(ctx context.Context, eg *errgroup.Group) error {
 	for {
 		url, err := eng.queue.Dequeue(ctx)
 
 		if errors.Is(err, io.EOF) ||
 			errors.Is(err, context.Canceled) {
-			return eg.Wait()
+			return nil
 		}
 		if err != nil {
 			return err
@@ -238,7 +252,7 @@ func (eng *Engine) run(ctx context.Context) error {
 			if eng.sema != nil {
 				defer eng.sema.Release(1)
 			}
-			return eng.process(subctx, url)
+			return eng.process(ctx, url)
 		})
 	}
 }
-- 
2.43.0


From d0fddbcf549a3b5113a774aafca4547f3b140439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:56 +0000
Subject: [PATCH 05/32] fix: make DedupeBF safe to use from multiple goroutines

---
 dedupe.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dedupe.go b/dedupe.go
index 738bcb4..ed463ec 100644
--- a/dedupe.go
+++ b/dedupe.go
@@ -57,6 +57,7 @@ func (d *deduper) Dedupe(ctx context.Context, urls URLs) (URLs, error) {
 
 // Dedupebf implements a bloom filter deduper.
 type dedupebf struct {
+	mu     sync.Mutex
 	filter *bloom.BloomFilter
 }
 
@@ -77,6 +78,9 @@ func DedupeBF(k, m uint) Deduper {
 func (d *dedupebf) Dedupe(ctx context.Context, urls URLs) (URLs, error) {
 	var ret = make(URLs, 0, len(urls))
 
+	d.mu.Lock()
+	defer d.mu.Unlock()
+
 	for _, u := range urls {
 		v := []byte(u.String())
 		if !d.filter.Test(v) {
-- 
2.43.0


From 3622167155462c3fba7849f7c195e0525743053b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:16 +0000
Subject: [PATCH 06/32] fix: retry wrapped temporary network errors

---
 fetcher.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fetcher.go b/fetcher.go
index fc56b88..863f01c 100644
--- a/fetcher.go
+++ b/fetcher.go
@@ -2,6 +2,7 @@ package ant
 
 import (
 	"context"
+	"errors"
 	"fmt"
 	"io"
 	"net/http"
@@ -287,6 +288,6 @@ func (f *Fetcher) maxBackoff() time.Duration {
 
 // IsTemporary returns true if the error is temporary.
 func isTemporary(err error) bool {
-	t, ok := err.(interface{ Temporary() bool })
-	return ok && t.Temporary()
+	var t interface{ Temporary() bool }
+	return errors.As(err, &t) && t.Temporary()
 }
-- 
2.43.0


From f0a39f9386288769c168709f9d7dd6f84c7854cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:57 +0000
Subject: [PATCH 07/32] fix: keep the backoff within its bounds when it
 overflows

---
 fetcher.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/fetcher.go b/fetcher.go
index 863f01c..774fd02 100644
--- a/fetcher.go
+++ b/fetcher.go
@@ -249,14 +249,16 @@ func (f *Fetcher) client() Client {
 func (f *Fetcher) backoff(ctx context.Context, attempt int) error {
 	var min = f.minBackoff()
 	var max = f.maxBackoff()
-	var dur = time.Duration(attempt*attempt) * min
+	var factor = time.Duration(attempt * attempt)
+	var dur = max
 
 	if min >= max {
 		return fmt.Errorf("ant: min backoff must be greater than max backoff")
 	}
 
-	if dur > max {
-		dur = max
+	// Compare before multiplying, large bounds overflow.
+	if min <= max/factor {
+		dur = factor * min
 	}
 
 	var timer = time.NewTimer(dur)
-- 
2.43.0


From dc0dad3ed5da8df820f335d46f3153af61c28484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:25 +0000
Subject: [PATCH 08/32] fix: return an error when scanning into a slice without
 a selector

---
 internal/scan/slice.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/scan/slice.go b/internal/scan/slice.go
index ae02771..91072e7 100644
--- a/internal/scan/slice.go
+++ b/internal/scan/slice.go
@@ -1,6 +1,7 @@
 package scan
 
 import (
+	"fmt"
 	"reflect"
 
 	"github.com/andybalholm/cascadia"
@@ -18,6 +19,10 @@ type sliceScanner struct {
 func Slice(opts Options, t reflect.Type) (ScanFunc, error) {
 	var eltype = t.Elem()
 
+	if opts.Selector == nil {
+		return nil, fmt.Errorf("scan: cannot scan into type %s without a selector", t)
+	}
+
 	f, err := ScannerOf(eltype, Options{
 		Selector: nil,
 		Attr:     opts.Attr,
-- 
2.43.0


From 5b0b9df2105714ae6c2129280647ed7af6d4070e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:30 +0000
Subject: [PATCH 09/32] fix: scan nested structs within their selected node

---
 internal/scan/struct.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/internal/scan/struct.go b/internal/scan/struct.go
index 093dbb9..592b266 100644
--- a/internal/scan/struct.go
+++ b/internal/scan/struct.go
@@ -17,7 +17,8 @@ type field struct {
 
 // StructScanner implements a struct scanner.
 type structScanner struct {
-	fields []field
+	selector cascadia.Selector
+	fields   []field
 }
 
 // Struct returns a scanfunc for a struct or an error.
@@ -75,11 +76,20 @@ func Struct(opts Options, t reflect.Type) (ScanFunc, error) {
 		return nil, fmt.Errorf("scan: struct %v has no css tags", t)
 	}
 
-	return (structScanner{fields}).scan, nil
+	return (structScanner{
+		selector: opts.Selector,
+		fields:   fields,
+	}).scan, nil
 }
 
 // Scan implements a scan func.
 func (ss structScanner) scan(dst reflect.Value, src *html.Node) error {
+	if ss.selector != nil {
+		if src = ss.selector.MatchFirst(src); src == nil {
+			return nil
+		}
+	}
+
 	for _, f := range ss.fields {
 		v := dst.FieldByIndex(f.index)
 		if err := f.scan(v, src); err != nil {
-- 
2.43.0


From beb699a2f032e70a2d80b411c879feab6c39d302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:30 +0000
Subject: [PATCH 10/32] fix: return an error when scanning into a recursive
 type

---
 internal/scan/scan.go   | 3 +++
 internal/scan/slice.go  | 1 +
 internal/scan/struct.go | 8 ++++++++
 3 files changed, 12 insertions(+)

diff --git a/internal/scan/scan.go b/internal/scan/scan.go
index 2345881..23362ba 100644
--- a/internal/scan/scan.go
+++ b/internal/scan/scan.go
@@ -18,6 +18,9 @@ var (
 type Options struct {
 	Selector cascadia.Selector
 	Attr     string
+
+	// Parents are the struct types being analyzed.
+	parents []reflect.Type
 }
 
 // ScanFunc represents a scanner func.
diff --git a/internal/scan/slice.go b/internal/scan/slice.go
index 91072e7..0782ab3 100644
--- a/internal/scan/slice.go
+++ b/internal/scan/slice.go
@@ -26,6 +26,7 @@ func Slice(opts Options, t reflect.Type) (ScanFunc, error) {
 	f, err := ScannerOf(eltype, Options{
 		Selector: nil,
 		Attr:     opts.Attr,
+		parents:  opts.parents,
 	})
 	if err != nil {
 		return nil, err
diff --git a/internal/scan/struct.go b/internal/scan/struct.go
index 592b266..9645a53 100644
--- a/internal/scan/struct.go
+++ b/internal/scan/struct.go
@@ -30,6 +30,13 @@ func Struct(opts Options, t reflect.Type) (ScanFunc, error) {
 		name = t.String()
 	}
 
+	for _, p := range opts.parents {
+		if p == t {
+			return nil, fmt.Errorf("scan: cannot scan into recursive type %s", t)
+		}
+	}
+	var parents = append(opts.parents[:len(opts.parents):len(opts.parents)], t)
+
 	for j := 0; j < t.NumField(); j++ {
 		var f = t.Field(j)
 		var tag = f.Tag
@@ -61,6 +68,7 @@ func Struct(opts Options, t reflect.Type) (ScanFunc, error) {
 		scan, err := ScannerOf(f.Type, Options{
 			Selector: sel,
 			Attr:     attr,
+			parents:  parents,
 		})
 		if err != nil {
 			return nil, err
-- 
2.43.0


From 3b11bd26827e28593e879cd2013ea7125b2cdb3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:30 +0000
Subject: [PATCH 11/32] fix: return an error when scanning into nil

---
 internal/scan/scanner.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/internal/scan/scanner.go b/internal/scan/scanner.go
index 99101eb..26efb97 100644
--- a/internal/scan/scanner.go
+++ b/internal/scan/scanner.go
@@ -49,12 +49,17 @@ func NewScanner() *Scanner {
 // Scan scans from src node into dst value.
 func (s *Scanner) Scan(dst any, src *html.Node, opts Options) error {
 	var v = reflect.ValueOf(dst)
-	var t = v.Type()
 
-	if t.Kind() != reflect.Ptr {
+	if v.Kind() != reflect.Ptr {
 		return fmt.Errorf("scan: cannot scan into non ptr %T", dst)
 	}
 
+	if v.IsNil() {
+		return fmt.Errorf("scan: cannot scan into nil %T", dst)
+	}
+
+	var t = v.Type()
+
 	f, ok := s.lookup(t)
 	if !ok {
 		scanFunc, err := s.register(t.Elem(), opts)
-- 
2.43.0


From d43bbd8d69044bf3ab6dcc28485c94fe5742bc7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:30 +0000
Subject: [PATCH 12/32] fix: return an error when scraping JSON into a non
 struct

---
 json.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/json.go b/json.go
index e2577c9..edbe4fe 100644
--- a/json.go
+++ b/json.go
@@ -29,7 +29,7 @@ func JSON(w io.Writer, t any, selectors ...string) Scraper {
 	var typ = reflect.TypeOf(t)
 	var enc = json.NewEncoder(w)
 
-	if typ.Kind() == reflect.Ptr {
+	if typ != nil && typ.Kind() == reflect.Ptr {
 		typ = typ.Elem()
 	}
 
@@ -50,6 +50,10 @@ type jsonscraper struct {
 
 // Scrape implementation.
 func (j *jsonscraper) Scrape(ctx context.Context, p *Page) (URLs, error) {
+	if j.typ == nil || j.typ.Kind() != reflect.Struct {
+		return nil, fmt.Errorf("ant: cannot scrape into non struct %v", j.typ)
+	}
+
 	var v = reflect.New(j.typ)
 
 	if err := p.Scan(v.Interface()); err != nil {
-- 
2.43.0


From eef06b4fab1bd82df5e7641c80fe2d7d377817b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:12 +0000
Subject: [PATCH 13/32] fix: never store a truncated response

---
 antcache/cachereader.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/antcache/cachereader.go b/antcache/cachereader.go
index 69a47cd..69a018f 100644
--- a/antcache/cachereader.go
+++ b/antcache/cachereader.go
@@ -19,6 +19,7 @@ type cachereader struct {
 	key   uint64
 	rc    io.ReadCloser
 	buf   bytes.Buffer
+	eof   bool
 	once  sync.Once
 	ctx   context.Context
 	store func(ctx context.Context, key uint64, v []byte) error
@@ -29,14 +30,28 @@ func (cr *cachereader) Read(p []byte) (n int, err error) {
 	if n, err = cr.rc.Read(p); n > 0 {
 		cr.buf.Write(p[:n])
 	}
+	if err == io.EOF {
+		cr.eof = true
+	}
 	return n, err
 }
 
+// Complete returns true if the entire body was read.
+func (cr *cachereader) complete() bool {
+	return cr.eof ||
+		cr.resp.Request.Method == "HEAD" ||
+		cr.resp.ContentLength == int64(cr.buf.Len())
+}
+
 // Close implementation.
 func (cr *cachereader) Close() error {
 	cerr := cr.rc.Close()
 
 	cr.once.Do(func() {
+		if !cr.complete() {
+			return
+		}
+
 		resp := *cr.resp
 
 		r := bytes.NewReader(cr.buf.Bytes())
-- 
2.43.0


From eea54633b5fa7f164813aea5edcee0f6a8c4b870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:13 +0000
Subject: [PATCH 14/32] fix: keep the body of a validated response

---
 antcache/httpcache.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/antcache/httpcache.go b/antcache/httpcache.go
index dc68224..4727a94 100644
--- a/antcache/httpcache.go
+++ b/antcache/httpcache.go
@@ -240,6 +240,7 @@ func (c *Cache) verify(ctx context.Context, key uint64, resp *http.Response) (*h
 	if newresp.StatusCode >= 500 && newresp.StatusCode < 600 {
 		reqd := directivesFrom(req.Header)
 		if reqd.has("stale-if-error") {
+			c.discard(newresp)
 			return resp, nil
 		}
 		return newresp, nil
@@ -248,7 +249,7 @@ func (c *Cache) verify(ctx context.Context, key uint64, resp *http.Response) (*h
 	// A 304 (Not Modified) response status code indicates that the
 	// stored response can be updated and reused; see Section 4.3.4.
 	if newresp.StatusCode == 304 {
-		c.discard(resp)
+		c.discard(newresp)
 		merge(resp.Header, newresp.Header)
 		c.store(key, resp)
 		return resp, nil
-- 
2.43.0


From 67af44b5ef37fdb9147c533aeb7a6bb78e954536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:14 +0000
Subject: [PATCH 15/32] fix: mark only responses served from the storage as
 cached

---
 antcache/cachereader.go | 2 ++
 antcache/httpcache.go   | 7 ++++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/antcache/cachereader.go b/antcache/cachereader.go
index 69a018f..0a46ea3 100644
--- a/antcache/cachereader.go
+++ b/antcache/cachereader.go
@@ -53,6 +53,8 @@ func (cr *cachereader) Close() error {
 		}
 
 		resp := *cr.resp
+		resp.Header = resp.Header.Clone()
+		resp.Header.Del(fromCache)
 
 		r := bytes.NewReader(cr.buf.Bytes())
 		resp.Body = io.NopCloser(r)
diff --git a/antcache/httpcache.go b/antcache/httpcache.go
index 4727a94..d82c2ff 100644
--- a/antcache/httpcache.go
+++ b/antcache/httpcache.go
@@ -35,6 +35,9 @@ const (
 	transparent
 )
 
+// FromCache is set on responses that are served from the storage.
+const fromCache = "X-From-Cache"
+
 // Strategy represents a cache strategy.
 type strategy interface {
 	// Cache returns true if the request is cacheable.
@@ -151,7 +154,6 @@ func (c *Cache) Do(req *http.Request) (*http.Response, error) {
 		return nil, err
 	}
 	if resp != nil {
-		resp.Header.Set("X-From-Cache", "1")
 		return resp, nil
 	}
 
@@ -199,6 +201,7 @@ func (c *Cache) load(key uint64, req *http.Request) (*http.Response, error) {
 
 	switch c.strategy.fresh(resp) {
 	case fresh:
+		resp.Header.Set(fromCache, "1")
 		return resp, nil
 
 	case stale:
@@ -241,6 +244,7 @@ func (c *Cache) verify(ctx context.Context, key uint64, resp *http.Response) (*h
 		reqd := directivesFrom(req.Header)
 		if reqd.has("stale-if-error") {
 			c.discard(newresp)
+			resp.Header.Set(fromCache, "1")
 			return resp, nil
 		}
 		return newresp, nil
@@ -252,6 +256,7 @@ func (c *Cache) verify(ctx context.Context, key uint64, resp *http.Response) (*h
 		c.discard(newresp)
 		merge(resp.Header, newresp.Header)
 		c.store(key, resp)
+		resp.Header.Set(fromCache, "1")
 		return resp, nil
 	}
 
-- 
2.43.0


From 046c4fe5c85de71b6c8c4bbd5fc5d152e03c47e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:15 +0000
Subject: [PATCH 16/32] fix: let no-cache requests bypass the aggressive cache

---
 antcache/aggressive.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/antcache/aggressive.go b/antcache/aggressive.go
index 253e076..55cef76 100644
--- a/antcache/aggressive.go
+++ b/antcache/aggressive.go
@@ -67,6 +67,10 @@ func (a aggressive) store(resp *http.Response) bool {
 
 // Fresh implementation.
 func (a aggressive) fresh(resp *http.Response) freshness {
+	if directivesFrom(resp.Request.Header).has("no-cache") {
+		return transparent
+	}
+
 	if date, ok := date(resp.Header); ok {
 		if time.Since(date) < a.lifetime() {
 			return fresh
-- 
2.43.0


From e54082673d9f6ac9be24a5b7b15e44141e0e4942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:16 +0000
Subject: [PATCH 17/32] fix: saturate large cache-control durations

---
 antcache/directives.go | 30 +++++++++++++++++++++++++++++-
 antcache/rfc7234.go    |  4 ++--
 2 files changed, 31 insertions(+), 3 deletions(-)

diff --git a/antcache/directives.go b/antcache/directives.go
index 10192f5..0a7441c 100644
--- a/antcache/directives.go
+++ b/antcache/directives.go
@@ -1,6 +1,8 @@
 package antcache
 
 import (
+	"errors"
+	"math"
 	"net/http"
 	"strconv"
 	"strings"
@@ -42,7 +44,33 @@ func (d directives) has(name string) bool {
 func (d directives) duration(name string) (td time.Duration, ok bool) {
 	if v, has := d[name]; has {
 		n, err := strconv.ParseInt(v, 10, 64)
-		td, ok = (time.Duration(n) * time.Second), err == nil
+		td, ok = seconds(n), err == nil || errors.Is(err, strconv.ErrRange)
 	}
 	return
 }
+
+// Seconds returns n seconds, or the nearest duration.
+func seconds(n int64) time.Duration {
+	const max = math.MaxInt64 / int64(time.Second)
+
+	switch {
+	case n > max:
+		return math.MaxInt64
+	case n < -max:
+		return math.MinInt64
+	default:
+		return time.Duration(n) * time.Second
+	}
+}
+
+// Sum returns the sum of a and b, or the nearest duration.
+func sum(a, b time.Duration) time.Duration {
+	switch {
+	case b > 0 && a > math.MaxInt64-b:
+		return math.MaxInt64
+	case b < 0 && a < math.MinInt64-b:
+		return math.MinInt64
+	default:
+		return a + b
+	}
+}
diff --git a/antcache/rfc7234.go b/antcache/rfc7234.go
index 6d0ffb8..6342346 100644
--- a/antcache/rfc7234.go
+++ b/antcache/rfc7234.go
@@ -123,7 +123,7 @@ func (rfc7234) fresh(resp *http.Response) freshness {
 		}
 
 		if minfresh, ok := reqd.duration("min-fresh"); ok {
-			age += minfresh
+			age = sum(age, minfresh)
 		}
 
 		if reqd.has("max-stale") {
@@ -133,7 +133,7 @@ func (rfc7234) fresh(resp *http.Response) freshness {
 				return fresh
 			}
 
-			age -= ms
+			age = sum(age, -ms)
 		}
 
 		if lifetime > age {
-- 
2.43.0


From 8f6b17a67343c041b73ab634476bdad512f27a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:17 +0000
Subject: [PATCH 18/32] fix: respect all Cache-Control header lines

---
 antcache/directives.go | 2 +-
 antcache/utils.go      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/antcache/directives.go b/antcache/directives.go
index 0a7441c..9a8e5aa 100644
--- a/antcache/directives.go
+++ b/antcache/directives.go
@@ -14,7 +14,7 @@ type directives map[string]string
 
 // DirectivesFrom returns directives from h.
 func directivesFrom(h http.Header) directives {
-	var c = h.Get("Cache-Control")
+	var c = strings.Join(h.Values("Cache-Control"), ",")
 	var d directives
 
 	for _, item := range split(c, ",") {
diff --git a/antcache/utils.go b/antcache/utils.go
index 3f340d3..0a4821e 100644
--- a/antcache/utils.go
+++ b/antcache/utils.go
@@ -52,7 +52,7 @@ func matches(req *http.Request, resp *http.Response) bool {
 
 // Nostore returns true if no-store is set.
 func nostore(h http.Header) bool {
-	var c = h.Get("Cache-Control")
+	var c = strings.Join(h.Values("Cache-Control"), ",")
 
 	for _, v := range split(c, ",") {
 		if v == "no-store" {
-- 
2.43.0


From 12c827a25b7444b9e51626adc4072e1257c5d53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:18 +0000
Subject: [PATCH 19/32] fix: select stored responses by their Vary header

---
 antcache/cachereader.go |  6 ++++++
 antcache/httpcache.go   | 11 ++++++++++-
 antcache/utils.go       | 26 ++++++++++++++++++++++++++
 3 files changed, 42 insertions(+), 1 deletion(-)

diff --git a/antcache/cachereader.go b/antcache/cachereader.go
index 0a46ea3..530feb6 100644
--- a/antcache/cachereader.go
+++ b/antcache/cachereader.go
@@ -56,6 +56,12 @@ func (cr *cachereader) Close() error {
 		resp.Header = resp.Header.Clone()
 		resp.Header.Del(fromCache)
 
+		for _, key := range varied(&resp) {
+			if v := headerOf(resp.Request, key); v != "" {
+				resp.Header.Set(variedPrefix+key, v)
+			}
+		}
+
 		r := bytes.NewReader(cr.buf.Bytes())
 		resp.Body = io.NopCloser(r)
 
diff --git a/antcache/httpcache.go b/antcache/httpcache.go
index d82c2ff..4571d47 100644
--- a/antcache/httpcache.go
+++ b/antcache/httpcache.go
@@ -9,6 +9,7 @@ import (
 	"fmt"
 	"io"
 	"net/http"
+	"strings"
 )
 
 // Freshness enumerates freshness.
@@ -199,7 +200,15 @@ func (c *Cache) load(key uint64, req *http.Request) (*http.Response, error) {
 		return nil, fmt.Errorf("antcache: read response %d - %w", key, err)
 	}
 
-	switch c.strategy.fresh(resp) {
+	freshness := c.strategy.fresh(resp)
+
+	for key := range resp.Header {
+		if strings.HasPrefix(key, variedPrefix) {
+			resp.Header.Del(key)
+		}
+	}
+
+	switch freshness {
 	case fresh:
 		resp.Header.Set(fromCache, "1")
 		return resp, nil
diff --git a/antcache/utils.go b/antcache/utils.go
index 0a4821e..110bf14 100644
--- a/antcache/utils.go
+++ b/antcache/utils.go
@@ -47,9 +47,35 @@ func matches(req *http.Request, resp *http.Response) bool {
 		}
 	}
 
+	for _, key := range varied(resp) {
+		if key == "*" || resp.Header.Get(variedPrefix+key) != headerOf(req, key) {
+			return false
+		}
+	}
+
 	return true
 }
 
+// VariedPrefix prefixes the stored request headers
+// that were used to select the response.
+const variedPrefix = "X-Varied-"
+
+// Varied returns the header names that resp varies by.
+func varied(resp *http.Response) []string {
+	var keys = split(strings.Join(resp.Header.Values("Vary"), ","), ",")
+
+	for j, key := range keys {
+		keys[j] = http.CanonicalHeaderKey(key)
+	}
+
+	return keys
+}
+
+// HeaderOf returns the value of the request header key.
+func headerOf(req *http.Request, key string) string {
+	return strings.Join(req.Header.Values(key), ", ")
+}
+
 // Nostore returns true if no-store is set.
 func nostore(h http.Header) bool {
 	var c = strings.Join(h.Values("Cache-Control"), ",")
-- 
2.43.0


From dedb36e679e729ccb82f0d1f973d9a2b15f479a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:19 +0000
Subject: [PATCH 20/32] fix: validate stale responses that must be revalidated

---
 antcache/rfc7234.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/antcache/rfc7234.go b/antcache/rfc7234.go
index 6342346..cd05fb6 100644
--- a/antcache/rfc7234.go
+++ b/antcache/rfc7234.go
@@ -126,7 +126,7 @@ func (rfc7234) fresh(resp *http.Response) freshness {
 			age = sum(age, minfresh)
 		}
 
-		if reqd.has("max-stale") {
+		if reqd.has("max-stale") && !resd.has("must-revalidate") {
 			ms, ok := reqd.duration("max-stale")
 
 			if !ok {
-- 
2.43.0


From 473c1019cecdab3fcea132a436545ff8bf8efea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:20 +0000
Subject: [PATCH 21/32] fix: respect the no-cache pragma

---
 antcache/rfc7234.go |  2 +-
 antcache/utils.go   | 15 +++++++++++++++
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/antcache/rfc7234.go b/antcache/rfc7234.go
index cd05fb6..b6d8df2 100644
--- a/antcache/rfc7234.go
+++ b/antcache/rfc7234.go
@@ -98,7 +98,7 @@ func (rfc7234) fresh(resp *http.Response) freshness {
 	//
 	// the stored response does not contain the no-cache cache directive
 	// (Section 5.2.2.2), unless it is successfully validated (Section 4.3)
-	if reqd.has("no-cache") || resd.has("no-cache") {
+	if reqd.has("no-cache") || resd.has("no-cache") || pragma(req.Header, reqd) {
 		return stale
 	}
 
diff --git a/antcache/utils.go b/antcache/utils.go
index 110bf14..1f09f54 100644
--- a/antcache/utils.go
+++ b/antcache/utils.go
@@ -89,6 +89,21 @@ func nostore(h http.Header) bool {
 	return false
 }
 
+// Pragma returns true if the no-cache pragma is set.
+//
+// https://tools.ietf.org/html/rfc7234#section-5.4
+func pragma(h http.Header, d directives) bool {
+	if len(d) > 0 {
+		return false
+	}
+	for _, v := range split(strings.Join(h.Values("Pragma"), ","), ",") {
+		if v == "no-cache" {
+			return true
+		}
+	}
+	return false
+}
+
 // Expires returns the expires timestamp.
 //
 // When expires does not exist or is zero, ok is false.
-- 
2.43.0


From 24cff350defbcb7c595ad29003a208901f6d1d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:57 +0000
Subject: [PATCH 22/32] fix: sweep the oldest files first

---
 antcache/disk.go | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/antcache/disk.go b/antcache/disk.go
index d2646e8..de2a220 100644
--- a/antcache/disk.go
+++ b/antcache/disk.go
@@ -341,17 +341,16 @@ func (d *Diskstore) sweep() (int, error) {
 	})
 
 	for _, f := range files {
-		if d.maxage > 0 {
-			if now.Sub(f.mtime) > d.maxage {
-				remove = append(remove, f)
-			}
-		}
+		sum += f.size
+	}
 
-		if d.maxsize > 0 {
-			if sum += f.size; sum > d.maxsize {
-				remove = append(remove, f)
-				sum -= f.size
-			}
+	for _, f := range files {
+		expired := d.maxage > 0 && now.Sub(f.mtime) > d.maxage
+		surplus := d.maxsize > 0 && sum > d.maxsize
+
+		if expired || surplus {
+			remove = append(remove, f)
+			sum -= f.size
 		}
 	}
 
-- 
2.43.0


From 113729af217cc685d6c170fd4e7b420270b1952d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:58 +0000
Subject: [PATCH 23/32] fix: never sweep a file that was just stored

---
 antcache/disk.go | 50 +++++++++++++++++++++++++++++++-----------------
 1 file changed, 32 insertions(+), 18 deletions(-)

diff --git a/antcache/disk.go b/antcache/disk.go
index de2a220..5ac3b8d 100644
--- a/antcache/disk.go
+++ b/antcache/disk.go
@@ -328,12 +328,19 @@ func (d *Diskstore) sweeper() {
 
 // Sweep sweeps the directory.
 func (d *Diskstore) sweep() (int, error) {
-	var files = d.files()
+	d.readymu.Lock()
+	defer d.readymu.Unlock()
+
+	var files = make([]file, 0, len(d.ready))
 	var now = d.now()
 	var removed int
 	var remove []file
 	var sum int64
 
+	for _, f := range d.ready {
+		files = append(files, f)
+	}
+
 	sort.Slice(files, func(i, j int) bool {
 		a := files[i].mtime
 		b := files[j].mtime
@@ -354,18 +361,13 @@ func (d *Diskstore) sweep() (int, error) {
 		}
 	}
 
-	d.readymu.Lock()
-	defer d.readymu.Unlock()
-
 	for _, f := range remove {
-		if _, ok := d.ready[f.key]; ok {
-			if err := os.Remove(f.path); err != nil {
-				log.Printf("antcache: disk remove - %s", err)
-				continue
-			}
-			delete(d.ready, f.key)
-			removed++
+		if err := os.Remove(f.path); err != nil && !errors.Is(err, os.ErrNotExist) {
+			log.Printf("antcache: disk remove - %s", err)
+			continue
 		}
+		delete(d.ready, f.key)
+		removed++
 	}
 
 	if removed > 0 {
@@ -461,7 +463,12 @@ func (d *Diskstore) add(key uint64, f *os.File) error {
 		return fmt.Errorf("antcache: close %s - %w", f.Name(), err)
 	}
 
-	if err := os.Rename(f.Name(), newpath); err != nil {
+	if err := d.rename(f.Name(), file{
+		key:   key,
+		path:  newpath,
+		size:  stat.Size(),
+		mtime: stat.ModTime(),
+	}); err != nil {
 		return fmt.Errorf("antcache: disk rename - %w", err)
 	}
 
@@ -469,15 +476,22 @@ func (d *Diskstore) add(key uint64, f *os.File) error {
 		return fmt.Errorf("antcache: disk fsync - %w", err)
 	}
 
+	return nil
+}
+
+// Rename moves the file at path into its place.
+//
+// The lock is held so that the sweeper never removes
+// the new file in place of the one it replaces.
+func (d *Diskstore) rename(path string, f file) error {
 	d.readymu.Lock()
-	d.ready[key] = file{
-		key:   key,
-		path:  newpath,
-		size:  stat.Size(),
-		mtime: stat.ModTime(),
+	defer d.readymu.Unlock()
+
+	if err := os.Rename(path, f.path); err != nil {
+		return err
 	}
-	d.readymu.Unlock()
 
+	d.ready[f.key] = f
 	return nil
 }
 
-- 
2.43.0


From 7d6cb33f6358394c0a177ef48446195674933634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:58 +0000
Subject: [PATCH 24/32] fix: stop the warmup when the directory cannot be read

---
 antcache/disk.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/antcache/disk.go b/antcache/disk.go
index 5ac3b8d..91e731e 100644
--- a/antcache/disk.go
+++ b/antcache/disk.go
@@ -259,6 +259,11 @@ func (d *Diskstore) warmup() {
 			break
 		}
 
+		if err != nil {
+			log.Printf("antcache: disk read directory - %s", err)
+			break
+		}
+
 		for _, name := range names {
 			var path = filepath.Join(d.path, name)
 
-- 
2.43.0


From b85563a9285da113f2b1d062aab35e80ad20e2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:59 +0000
Subject: [PATCH 25/32] fix: never list a swept file as cached

---
 antcache/disk.go | 41 ++++++++++++++++++++++++++---------------
 1 file changed, 26 insertions(+), 15 deletions(-)

diff --git a/antcache/disk.go b/antcache/disk.go
index 91e731e..0090e34 100644
--- a/antcache/disk.go
+++ b/antcache/disk.go
@@ -245,7 +245,7 @@ func (d *Diskstore) Wait(ctx context.Context) error {
 //
 // The method logs if any errors occur.
 func (d *Diskstore) warmup() {
-	var files []file
+	var found int
 
 	defer func() {
 		close(d.warm)
@@ -277,30 +277,41 @@ func (d *Diskstore) warmup() {
 				continue
 			}
 
-			stat, err := os.Stat(path)
-			if err != nil {
+			if err := d.found(n, path); err != nil {
 				log.Printf("antcache: disk stat %s - %s", path, err)
 				continue
 			}
 
-			files = append(files, file{
-				key:   n,
-				path:  path,
-				size:  stat.Size(),
-				mtime: stat.ModTime(),
-			})
+			found++
 		}
 	}
 
+	d.debugf("found %d cached pages", found)
+}
+
+// Found adds the file at path, unless it was stored in the meantime.
+//
+// The lock is held so that a file that is swept is not added again.
+func (d *Diskstore) found(key uint64, path string) error {
 	d.readymu.Lock()
-	for _, f := range files {
-		if _, ok := d.ready[f.key]; !ok {
-			d.ready[f.key] = f
-		}
+	defer d.readymu.Unlock()
+
+	if _, ok := d.ready[key]; ok {
+		return nil
 	}
-	d.readymu.Unlock()
 
-	d.debugf("found %d cached pages", len(files))
+	stat, err := os.Stat(path)
+	if err != nil {
+		return err
+	}
+
+	d.ready[key] = file{
+		key:   key,
+		path:  path,
+		size:  stat.Size(),
+		mtime: stat.ModTime(),
+	}
+	return nil
 }
 
 // Sweeper sweeps the directory.
-- 
2.43.0


From bb851fd25f162c43d1d1af5504510c5937a718a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:31 +0000
Subject: [PATCH 26/32] fix: antcdp closes the connection when a transaction
 cannot be initialized

---
 antcdp/tx.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/antcdp/tx.go b/antcdp/tx.go
index 34f948f..053b1f5 100644
--- a/antcdp/tx.go
+++ b/antcdp/tx.go
@@ -34,7 +34,9 @@ type tx struct {
 }
 
 // Init initializes the transaction.
-func (tx *tx) init(ctx context.Context) error {
+//
+// If the initialization fails, the connection is closed.
+func (tx *tx) init(ctx context.Context) (err error) {
 	var url = tx.target.WebSocketDebuggerURL
 
 	conn, err := rpcc.DialContext(ctx, url)
@@ -42,6 +44,12 @@ func (tx *tx) init(ctx context.Context) error {
 		return fmt.Errorf("antcdp: dial %q - %w", url, err)
 	}
 
+	defer func() {
+		if err != nil {
+			conn.Close()
+		}
+	}()
+
 	tx.conn = conn
 	tx.resp = &http.Response{Request: tx.request}
 	tx.client = cdp.NewClient(conn)
-- 
2.43.0


From 7adac1e705a670857abf4367fe38c8c3b19a53c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:32 +0000
Subject: [PATCH 27/32] fix: antcdp does not wait for responses that it never
 accepts

---
 antcdp/tx.go | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/antcdp/tx.go b/antcdp/tx.go
index 053b1f5..e6c8540 100644
--- a/antcdp/tx.go
+++ b/antcdp/tx.go
@@ -123,20 +123,20 @@ func (tx *tx) do(ctx context.Context) (*http.Response, error) {
 	return tx.resp, nil
 }
 
-// Wait waits for the network requests to load.
+// Wait waits for the response of the frame's document.
+//
+// Requests for the document's sub-resources and for other
+// frames are not waited for.
 func (tx *tx) wait(ctx context.Context, args page.NavigateReply) error {
-	var ids = make(map[network.RequestID]struct{})
 	var reqc = tx.events.req
 	var resc = tx.events.res
 
 	for {
 		select {
 		case <-reqc.Ready():
-			event, err := reqc.Recv()
-			if err != nil {
+			if _, err := reqc.Recv(); err != nil {
 				return fmt.Errorf("antcdp: request recv - %w", err)
 			}
-			ids[event.RequestID] = struct{}{}
 
 		case <-resc.Ready():
 			event, err := resc.Recv()
@@ -155,10 +155,7 @@ func (tx *tx) wait(ctx context.Context, args page.NavigateReply) error {
 				return fmt.Errorf("antcdp: merge response - %w", err)
 			}
 
-			delete(ids, event.RequestID)
-			if len(ids) == 0 {
-				return nil
-			}
+			return nil
 
 		case <-ctx.Done():
 			return ctx.Err()
-- 
2.43.0


From 3af0ba84f47a5838de9b30e0ff69f882795af5d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:00 +0000
Subject: [PATCH 28/32] fix: antcdp sends every value of a header, whatever its
 name's case

---
 antcdp/tx.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/antcdp/tx.go b/antcdp/tx.go
index e6c8540..0563641 100644
--- a/antcdp/tx.go
+++ b/antcdp/tx.go
@@ -251,8 +251,12 @@ func (tx *tx) setHeaders(ctx context.Context) error {
 	var dst = make(map[string]string)
 	var src = tx.request.Header
 
-	for k := range src {
-		dst[k] = src.Get(k)
+	for k, v := range src {
+		sep := ", "
+		if k == "Cookie" {
+			sep = "; "
+		}
+		dst[k] = strings.Join(v, sep)
 	}
 
 	buf, err := json.Marshal(dst)
-- 
2.43.0


From 3e1b1a72e20e7de16c17dea4444801f05aab4891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:26 +0000
Subject: [PATCH 29/32] fix: let a memory queue be used on while Wait waits

Wait panicked (WaitGroup is reused) when a URL was enqueued between the
last Done and the return of Wait, and with it a crawl to which URLs are
added from outside.
---
 queue.go | 38 ++++++++++++++++++++++++++++----------
 1 file changed, 28 insertions(+), 10 deletions(-)

diff --git a/queue.go b/queue.go
index 01d3a91..f26b48d 100644
--- a/queue.go
+++ b/queue.go
@@ -53,16 +53,19 @@ type memoryQueue struct {
 	pending URLs
 	cond    *sync.Cond
 	stopped bool
-	wg      *sync.WaitGroup
+	active  int        // URLs that are queued or being handled.
+	idle    *sync.Cond // signals that there are none.
 }
 
 // MemoryQueue returns a new memory queue.
 func MemoryQueue(size int) Queue {
+	var mu sync.Mutex
+
 	return &memoryQueue{
 		pending: make(URLs, 0, size),
-		cond:    sync.NewCond(&sync.RWMutex{}),
+		cond:    sync.NewCond(&mu),
 		stopped: false,
-		wg:      &sync.WaitGroup{},
+		idle:    sync.NewCond(&mu),
 	}
 }
 
@@ -84,7 +87,7 @@ func (mq *memoryQueue) Enqueue(ctx context.Context, urls URLs) error {
 	}
 
 	mq.pending = append(mq.pending, urls...)
-	mq.wg.Add(len(urls))
+	mq.active += len(urls)
 	mq.cond.Broadcast()
 
 	return nil
@@ -113,13 +116,24 @@ func (mq *memoryQueue) Dequeue(ctx context.Context) (*URL, error) {
 
 // Done implementation.
 func (mq *memoryQueue) Done(_ context.Context, _ *URL) error {
-	mq.wg.Done()
+	mq.cond.L.Lock()
+	defer mq.cond.L.Unlock()
+
+	mq.ack(1)
 	return nil
 }
 
 // Wait implementation.
+//
+// URLs may be enqueued while it waits, which is
+// why it does not use a wait group.
 func (mq *memoryQueue) Wait() {
-	mq.wg.Wait()
+	mq.cond.L.Lock()
+	defer mq.cond.L.Unlock()
+
+	for mq.active > 0 {
+		mq.idle.Wait()
+	}
 }
 
 // Close implementation.
@@ -127,12 +141,16 @@ func (mq *memoryQueue) Close(_ context.Context) error {
 	mq.cond.L.Lock()
 	defer mq.cond.L.Unlock()
 
-	for range mq.pending {
-		mq.wg.Done()
-	}
-
+	mq.ack(len(mq.pending))
 	mq.stopped = true
 	mq.pending = mq.pending[:0]
 	mq.cond.Broadcast()
 	return nil
 }
+
+// Ack marks n active URLs as handled, the lock must be held.
+func (mq *memoryQueue) ack(n int) {
+	if mq.active -= n; mq.active == 0 {
+		mq.idle.Broadcast()
+	}
+}
-- 
2.43.0


From f8ded35469fae87d187fa695b9c6e13483374912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:57 +0000
Subject: [PATCH 30/32] fix: do not change the URLs that a scraper returned

The engine normalized them in place, in the slice of the scraper: a
scraper that returns the same URLs for several pages raced with the
engine, and found its URLs changed.
---
 engine.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/engine.go b/engine.go
index 4b2c4c1..6ae39c4 100644
--- a/engine.go
+++ b/engine.go
@@ -206,11 +206,15 @@ func (eng *Engine) Enqueue(ctx context.Context, rawurls ...string) error {
 
 // Enqueue enqueues the given parsed urls.
 func (eng *Engine) enqueue(ctx context.Context, batch URLs) error {
+	var urls = make(URLs, len(batch))
+
+	// The batch may be shared with the scraper, copy it.
 	for j := range batch {
-		batch[j] = normalize.URL(batch[j])
+		u := *batch[j]
+		urls[j] = normalize.URL(&u)
 	}
 
-	next, err := eng.dedupe(ctx, eng.matches(batch))
+	next, err := eng.dedupe(ctx, eng.matches(urls))
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From fcc70ad64bc1dd8a59899277d070a7993c14cf89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:04:19 +0000
Subject: [PATCH 31/32] fix: round float32 fields once when scanning

---
 internal/scan/scan.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/scan/scan.go b/internal/scan/scan.go
index 23362ba..d3cedd7 100644
--- a/internal/scan/scan.go
+++ b/internal/scan/scan.go
@@ -142,7 +142,7 @@ func Float(opts Options) ScanFunc {
 			str = Text(src)
 		}
 
-		x, _ := strconv.ParseFloat(str, 64)
+		x, _ := strconv.ParseFloat(str, dst.Type().Bits())
 		dst.SetFloat(x)
 		return nil
 	}
-- 
2.43.0


From 11880b5347236c804b6b0a3c4a305c6156f0809d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:22:39 +0000
Subject: [PATCH 32/32] fix: load empty values from compressed disk stores

---
 antcache/disk.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/antcache/disk.go b/antcache/disk.go
index 0090e34..e8f091a 100644
--- a/antcache/disk.go
+++ b/antcache/disk.go
@@ -452,7 +452,8 @@ func (d *Diskstore) Load(_ context.Context, key uint64) (v []byte, err error) {
 	}
 
 	if v != nil && d.compress {
-		if v, err = snappy.Decode(nil, v); err != nil {
+		// A nil value means that there is none.
+		if v, err = snappy.Decode([]byte{}, v); err != nil {
 			err = fmt.Errorf(
 				"antcache: compress is on but snappy can't decode %s/%d - %w",
 				d.path,
-- 
2.43.0

