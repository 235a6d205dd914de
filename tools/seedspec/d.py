SRV = '''package ant

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"net/url"
	"reflect"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"golang.org/x/net/html"
)

var (
	_ = bytes.NewReader
	_ = context.Background
	_ = errors.New
	_ = fmt.Sprint
	_ = io.EOF
	_ = httptest.NewServer
	_ = reflect.DeepEqual
	_ = sort.Strings
	_ = strings.Join
	_ = atomic.AddInt32
	_ = time.Now
	_ = html.Parse
	_ sync.Mutex
	_ url.URL
)

type zzTrip func(*http.Request) (*http.Response, error)

func (f zzTrip) Do(r *http.Request) (*http.Response, error) { return f(r) }

func zzResp(r *http.Request, status int, body string) *http.Response {
	return &http.Response{StatusCode: status, Header: http.Header{}, Request: r, Body: io.NopCloser(strings.NewReader(body))}
}

func zzURL(s string) *url.URL {
	u, err := url.Parse(s)
	if err != nil {
		panic(err)
	}
	return u
}

func zzPage(u, body string) *Page {
	f := &Fetcher{Client: zzTrip(func(r *http.Request) (*http.Response, error) { return zzResp(r, 200, body), nil })}
	p, err := f.Fetch(context.Background(), zzURL(u))
	if err != nil {
		panic(err)
	}
	return p
}

type zzScraper struct {
	mu   sync.Mutex
	seen []string
	next func(p *Page) (URLs, error)
}

func (s *zzScraper) Scrape(ctx context.Context, p *Page) (URLs, error) {
	s.mu.Lock()
	s.seen = append(s.seen, p.URL.String())
	s.mu.Unlock()
	if s.next != nil {
		return s.next(p)
	}
	return nil, nil
}
'''
AC = '''package antcache

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"testing"
	"testing/iotest"
	"time"
)

var (
	_ = bytes.NewReader
	_ = context.Background
	_ = errors.New
	_ = fmt.Sprint
	_ = io.EOF
	_ = os.Open
	_ = exec.Command
	_ = filepath.Join
	_ = strconv.Itoa
	_ = strings.Join
	_ = iotest.DataErrReader
	_ = time.Now
	_ sync.Mutex
	_ url.URL
)

type zzTrip func(*http.Request) (*http.Response, error)

func (f zzTrip) Do(r *http.Request) (*http.Response, error) { return f(r) }

func zzGet(method, u string) *http.Request {
	r, err := http.NewRequest(method, u, nil)
	if err != nil {
		panic(err)
	}
	return r
}

func zzResp(r *http.Request, body io.Reader, n int) *http.Response {
	return &http.Response{
		Status: "200 OK", StatusCode: 200, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: http.Header{
			"Date":          {time.Now().UTC().Format(http.TimeFormat)},
			"Cache-Control": {"max-age=1000"},
		},
		Request: r, Body: io.NopCloser(body), ContentLength: int64(n),
	}
}

type zzStore struct {
	mu     sync.Mutex
	m      map[uint64][]byte
	stores int
	load   error
}

func (s *zzStore) Store(_ context.Context, k uint64, v []byte) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.m == nil {
		s.m = map[uint64][]byte{}
	}
	s.m[k] = append([]byte(nil), v...)
	s.stores++
	return nil
}

func (s *zzStore) Load(_ context.Context, k uint64) ([]byte, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.m[k], s.load
}
'''
CDP = None
import runpy
CDP = runpy.run_path('/verif/tools/seedspec/c.py')['H']

SEEDS = [
dict(id='H05-close-twice', property='H05', pkg='antcache',
  edits=[('antcache/cachereader.go', '	cr.once.Do(func() {\n', '	func() {\n'),
         ('antcache/cachereader.go', '		}\n	})\n\n	return cerr', '		}\n	}()\n\n	return cerr')],
  needs='a caller that closes a response body twice',
  breaks='the response is stored once per Close instead of once',
  test=AC+'''
func TestZZDemo(t *testing.T) {
	st := &zzStore{}
	c, err := New(zzTrip(func(r *http.Request) (*http.Response, error) {
		return zzResp(r, strings.NewReader("hello"), 5), nil
	}), WithStorage(st))
	if err != nil {
		t.Fatal(err)
	}
	resp, err := c.Do(zzGet("GET", "http://a.example/"))
	if err != nil {
		t.Fatal(err)
	}
	io.Copy(io.Discard, resp.Body)
	resp.Body.Close()
	resp.Body.Close()
	if st.stores != 1 {
		t.Fatal("stored", st.stores)
	}
}
'''),
dict(id='H07-key-no-scheme', property='H07', pkg='antcache',
  edits=[('antcache/utils.go', '		req.Method + ":" + req.URL.String(),', '		req.Method + ":" + req.URL.Host + req.URL.RequestURI(),')],
  needs='the same host and path requested over http and https',
  breaks='the response of the http URL is served for the https one',
  test=AC+'''
func TestZZDemo(t *testing.T) {
	n := 0
	c, err := New(zzTrip(func(r *http.Request) (*http.Response, error) {
		n++
		return zzResp(r, strings.NewReader(r.URL.Scheme), -1), nil
	}))
	if err != nil {
		t.Fatal(err)
	}
	for _, s := range []string{"http", "https"} {
		resp, err := c.Do(zzGet("GET", s+"://a.example/x"))
		if err != nil {
			t.Fatal(err)
		}
		buf, _ := io.ReadAll(resp.Body)
		resp.Body.Close()
		if string(buf) != s {
			t.Fatalf("%s got %s", s, buf)
		}
	}
}
'''),
dict(id='H07-key-folded', property='H07', pkg='antcache',
  edits=[('antcache/utils.go', '		req.Method + ":" + req.URL.String(),', '		req.Method + ":" + strings.ToLower(req.URL.String()),')],
  needs='two URLs whose paths differ by letter case only',
  breaks='the response of one is served for the other',
  test=AC+'''
func TestZZDemo(t *testing.T) {
	c, err := New(zzTrip(func(r *http.Request) (*http.Response, error) {
		return zzResp(r, strings.NewReader(r.URL.Path), -1), nil
	}))
	if err != nil {
		t.Fatal(err)
	}
	for _, s := range []string{"/a", "/A"} {
		resp, err := c.Do(zzGet("GET", "http://a.example"+s))
		if err != nil {
			t.Fatal(err)
		}
		buf, _ := io.ReadAll(resp.Body)
		resp.Body.Close()
		if string(buf) != s {
			t.Fatalf("%s got %s", s, buf)
		}
	}
}
'''),
dict(id='K05-vanished-skips-rest', property='K05', pkg='antcache',
  edits=[('antcache/disk.go', '''				log.Printf("antcache: disk stat %s - %s", path, err)
				continue
''', '''				log.Printf("antcache: disk stat %s - %s", path, err)
				break
''')],
  needs='a file that cannot be examined while the directory is being warmed up',
  breaks='the entries listed after it in the same batch are not found',
  test=AC+'''
func TestZZDemo(t *testing.T) {
	dir := t.TempDir()
	for i := 0; i < 60; i++ {
		if i%2 == 0 {
			os.Symlink(filepath.Join(dir, "nowhere"), filepath.Join(dir, strconv.Itoa(i)))
		} else if err := os.WriteFile(filepath.Join(dir, strconv.Itoa(i)), []byte("v"), 0600); err != nil {
			t.Fatal(err)
		}
	}
	d, err := Open(dir)
	if err != nil {
		t.Fatal(err)
	}
	defer d.Close()
	d.Wait(context.Background())
	for i := 1; i < 60; i += 2 {
		v, err := d.Load(context.Background(), uint64(i))
		if err != nil || string(v) != "v" {
			t.Fatal(i, v, err)
		}
	}
}
'''),
dict(id='K03-close-leaves-sweeper', property='K03', pkg='antcache',
  edits=[('antcache/disk.go', '''	if disk.ticker != nil {
		disk.wg.Add(1)
		go disk.sweeper()
''', '''	if disk.ticker != nil {
		go disk.sweeper()
'''), ('antcache/disk.go', '''		d.ticker.Stop()
		d.wg.Done()
''', '''		d.ticker.Stop()
''')],
  needs='Close during a sweep',
  breaks='Close returns while the sweeper is still at work in the directory',
  test=AC+'''
func TestZZDemo(t *testing.T) {
	in, out := make(chan bool), make(chan bool)
	var once sync.Once
	d, err := Open(t.TempDir(), SweepEvery(time.Millisecond), Maxage(time.Nanosecond), Debug(func(f string, args ...any) {
		if strings.Contains(f, "removed") {
			once.Do(func() { close(in); <-out })
		}
	}))
	if err != nil {
		t.Fatal(err)
	}
	d.Wait(context.Background())
	if err := d.Store(context.Background(), 1, []byte("v")); err != nil {
		t.Fatal(err)
	}
	<-in
	done := make(chan bool)
	go func() { d.Close(); close(done) }()
	select {
	case <-done:
		t.Fatal("Close returned during a sweep")
	case <-time.After(300 * time.Millisecond):
	}
	close(out)
	<-done
}
'''),
dict(id='H04-load-error-is-miss', property='H04', pkg='antcache',
  edits=[('antcache/httpcache.go', '''		return nil, fmt.Errorf("antcache: load %d - %w", key, err)
''', '''		return nil, nil
''')],
  needs='a storage that fails',
  breaks='a storage error is not returned, the origin is asked instead',
  test=AC+'''
func TestZZDemo(t *testing.T) {
	st := &zzStore{load: io.ErrUnexpectedEOF}
	c, err := New(zzTrip(func(r *http.Request) (*http.Response, error) {
		return zzResp(r, strings.NewReader("hello"), 5), nil
	}), WithStorage(st))
	if err != nil {
		t.Fatal(err)
	}
	if _, err := c.Do(zzGet("GET", "http://a.example/")); !errors.Is(err, io.ErrUnexpectedEOF) {
		t.Fatal(err)
	}
}
'''),
dict(id='Q01-alias-batch', property='Q01',
  edits=[('queue.go', '''	mq.pending = append(mq.pending, urls...)
''', '''	if len(mq.pending) == 0 {
		mq.pending = urls
	} else {
		mq.pending = append(mq.pending, urls...)
	}
''')],
  needs='a caller that reuses the slice it enqueued',
  breaks='the queue shares the slice with its caller and loses URLs',
  test=SRV+'''
func TestZZDemo(t *testing.T) {
	q := MemoryQueue(4)
	ctx := context.Background()
	batch := make(URLs, 1, 4)
	for _, s := range []string{"http://a/1", "http://a/2", "http://a/3"} {
		batch[0] = zzURL(s)
		if err := q.Enqueue(ctx, batch); err != nil {
			t.Fatal(err)
		}
	}
	for _, s := range []string{"http://a/1", "http://a/2", "http://a/3"} {
		u, err := q.Dequeue(ctx)
		if err != nil || u.String() != s {
			t.Fatal(u, err, "want", s)
		}
	}
}
'''),
dict(id='D01-redacted', property='D01',
  edits=[('dedupe.go', 'd.m.LoadOrStore(u.String(), nil)', 'd.m.LoadOrStore(u.Redacted(), nil)')],
  needs='URLs that differ by their password',
  breaks='the second one is dropped though it was never seen',
  test=SRV+'''
func TestZZDemo(t *testing.T) {
	got, err := DedupeMap().Dedupe(context.Background(), URLs{zzURL("http://u:a@h/"), zzURL("http://u:b@h/")})
	if err != nil || len(got) != 2 {
		t.Fatal(got, err)
	}
}
'''),
dict(id='D01-bloom-no-scheme', property='D01',
  edits=[('dedupe.go', '		v := []byte(u.String())', '		v := []byte(u.Host + u.RequestURI())')],
  needs='the same page over http and https, or with two user names',
  breaks='the bloom filter drops URLs which it has not seen',
  test=SRV+'''
func TestZZDemo(t *testing.T) {
	got, err := DedupeBF(100000, 5).Dedupe(context.Background(), URLs{zzURL("http://h/"), zzURL("https://h/")})
	if err != nil || len(got) != 2 {
		t.Fatal(got, err)
	}
}
'''),
dict(id='E04-workers-raise', property='E04',
  edits=[('engine.go', '''	if n := int64(c.Concurrency); n > 0 {
''', '''	if n := int64(c.Concurrency); n > 0 {
		if w := int64(c.Workers); w > n {
			n = w
		}
''')],
  needs='more workers than the concurrency limit',
  breaks='as many URLs as there are workers are processed at once',
  test=SRV+'''
func TestZZDemo(t *testing.T) {
	var in, most int32
	s := &zzScraper{next: func(p *Page) (URLs, error) {
		n := atomic.AddInt32(&in, 1)
		for m := atomic.LoadInt32(&most); n > m && !atomic.CompareAndSwapInt32(&most, m, n); m = atomic.LoadInt32(&most) {
		}
		time.Sleep(20 * time.Millisecond)
		atomic.AddInt32(&in, -1)
		return nil, nil
	}}
	f := &Fetcher{Client: zzTrip(func(r *http.Request) (*http.Response, error) { return zzResp(r, 200, "x"), nil })}
	eng, err := NewEngine(EngineConfig{Scraper: s, Fetcher: f, Impolite: true, Workers: 4, Concurrency: 1})
	if err != nil {
		t.Fatal(err)
	}
	if err := eng.Run(context.Background(), "http://a/1", "http://a/2", "http://a/3", "http://a/4", "http://a/5"); err != nil {
		t.Fatal(err)
	}
	if most != 1 || len(s.seen) != 5 {
		t.Fatal("at once", most, "seen", s.seen)
	}
}
'''),
dict(id='E03-limit-unwrapped', property='E03',
  edits=[('engine.go', 'return fmt.Errorf("limit %q - %w", url, err)', 'return fmt.Errorf("limit %q - %v", url, err)')],
  needs='a limiter that fails',
  breaks="Run's error does not wrap the limiter's",
  test=SRV+'''
func TestZZDemo(t *testing.T) {
	f := &Fetcher{Client: zzTrip(func(r *http.Request) (*http.Response, error) { return zzResp(r, 200, "x"), nil })}
	bad := errors.New("no token")
	eng, err := NewEngine(EngineConfig{Scraper: &zzScraper{}, Fetcher: f, Impolite: true,
		Limiter: LimiterFunc(func(context.Context, *url.URL) error { return bad })})
	if err != nil {
		t.Fatal(err)
	}
	if err := eng.Run(context.Background(), "http://a/1"); !errors.Is(err, bad) {
		t.Fatal(err)
	}
}
'''),
dict(id='E05-home-allowed', property='E05',
  edits=[('engine.go', '''	if !eng.impolite {
		allowed, err''', '''	if !eng.impolite && url.Path != "/" {
		allowed, err''')],
  needs='a host whose robots.txt disallows everything',
  breaks='its home page is fetched all the same',
  test=SRV+'''
func TestZZDemo(t *testing.T) {
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		if r.URL.Path == "/robots.txt" {
			io.WriteString(w, "User-agent: *\\nDisallow: /\\n")
		}
	}))
	defer srv.Close()
	s := &zzScraper{}
	eng, err := NewEngine(EngineConfig{Scraper: s})
	if err != nil {
		t.Fatal(err)
	}
	if err := eng.Run(context.Background(), srv.URL+"/", srv.URL+"/x"); err != nil {
		t.Fatal(err)
	}
	if len(s.seen) != 0 {
		t.Fatal(s.seen)
	}
}
'''),
dict(id='E01-batch-cap', property='E01',
  edits=[('engine.go', '''	return urls, nil
}

// Dedupe''', '''	return urls[:min(len(urls), 1000)], nil
}

// Dedupe''')],
  needs='a page with more than a thousand links',
  breaks='the links after the thousandth are not crawled',
  test=SRV+'''
func TestZZDemo(t *testing.T) {
	f := &Fetcher{Client: zzTrip(func(r *http.Request) (*http.Response, error) { return zzResp(r, 200, "x"), nil })}
	s := &zzScraper{next: func(p *Page) (ret URLs, err error) {
		if p.URL.Path == "/" {
			for i := 0; i < 1500; i++ {
				ret = append(ret, zzURL(fmt.Sprintf("http://a/%d", i)))
			}
		}
		return ret, nil
	}}
	eng, err := NewEngine(EngineConfig{Scraper: s, Fetcher: f, Impolite: true, Concurrency: 10})
	if err != nil {
		t.Fatal(err)
	}
	if err := eng.Run(context.Background(), "http://a/"); err != nil {
		t.Fatal(err)
	}
	if len(s.seen) != 1501 {
		t.Fatal(len(s.seen))
	}
}
'''),
dict(id='F01-gone-as-notfound', property='F01',
  edits=[('fetcher.go', '			if err.Status == 404 {', '			if err.Status == 404 || err.Status == 410 {')],
  needs='a page that is gone (410)',
  breaks='Fetch returns nothing instead of a FetchError',
  test=SRV+'''
func TestZZDemo(t *testing.T) {
	f := &Fetcher{Client: zzTrip(func(r *http.Request) (*http.Response, error) { return zzResp(r, 410, "x"), nil })}
	p, err := f.Fetch(context.Background(), zzURL("http://a/"))
	var fe *FetchError
	if p != nil || !errors.As(err, &fe) || fe.Status != 410 {
		t.Fatal(p, err)
	}
}
'''),
dict(id='F02-small-max-ignored', property='F02',
  edits=[('fetcher.go', '	if f.MaxBackoff > 0 {', '	if f.MaxBackoff > f.minBackoff() {')],
  needs='MaxBackoff at most MinBackoff, and a temporary failure',
  breaks='the default maximum is used instead of an error',
  test=SRV+'''
func TestZZDemo(t *testing.T) {
	n := 0
	f := &Fetcher{MinBackoff: 2 * time.Millisecond, MaxBackoff: time.Millisecond, Client: zzTrip(func(r *http.Request) (*http.Response, error) {
		if n++; n < 3 {
			return zzResp(r, 503, "x"), nil
		}
		return zzResp(r, 200, "x"), nil
	})}
	if _, err := f.Fetch(context.Background(), zzURL("http://a/")); err == nil || n != 1 {
		t.Fatal(n, err)
	}
}
'''),
dict(id='F02-cancelled-retry', property='F02',
  edits=[('fetcher.go', '''	case <-ctx.Done():
		return ctx.Err()
	}
}

// MinBackoff''', '''	case <-ctx.Done():
		if err := ctx.Err(); errors.Is(err, context.DeadlineExceeded) {
			return err
		}
		return nil
	}
}

// MinBackoff''')],
  needs='a context that is cancelled during the wait before a retry',
  breaks='another request is sent',
  test=SRV+'''
func TestZZDemo(t *testing.T) {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	n := 0
	f := &Fetcher{MinBackoff: 10 * time.Second, MaxBackoff: 100 * time.Second, Client: zzTrip(func(r *http.Request) (*http.Response, error) {
		n++
		if n == 1 {
			time.AfterFunc(50*time.Millisecond, cancel)
			return zzResp(r, 503, "x"), nil
		}
		return zzResp(r, 200, "x"), nil
	})}
	if _, err := f.Fetch(ctx, zzURL("http://a/")); !errors.Is(err, context.Canceled) || n != 1 {
		t.Fatal(n, err)
	}
}
'''),
dict(id='F03-drain-limit', property='F03',
  edits=[('fetcher.go', '		io.Copy(io.Discard, r.Body)', '		io.CopyN(io.Discard, r.Body, 256<<10)')],
  needs='an error response with a body of more than 256 kB',
  breaks='the body is not read to its end, so the connection is not reused',
  test=SRV+'''
func TestZZDemo(t *testing.T) {
	body := bytes.NewReader(make([]byte, 1<<20))
	f := &Fetcher{Client: zzTrip(func(r *http.Request) (*http.Response, error) {
		resp := zzResp(r, 500, "")
		resp.Body = io.NopCloser(body)
		return resp, nil
	})}
	f.Fetch(context.Background(), zzURL("http://a/"))
	if body.Len() != 0 {
		t.Fatal("left", body.Len())
	}
}
'''),
dict(id='P01-fragment-skipped', property='P01',
  edits=[('page.go', '''			u, err := url.Parse(href)
			if err != nil {''', '''			u, err := url.Parse(href)
			if err != nil || *u == (url.URL{Fragment: u.Fragment}) {''')],
  needs='an href that is empty or only a fragment',
  breaks="the page's own URL is missing from its links",
  test=SRV+'''
func TestZZDemo(t *testing.T) {
	us := zzPage("http://a/p", `<a href="#x"></a><a href="/q"></a>`).URLs()
	if len(us) != 2 || us[0].String() != "http://a/p#x" {
		t.Fatal(us)
	}
}
'''),
dict(id='L01-host-with-port', property='L01',
  edits=[('limiters.go', '		if u.Host == name {', '		if u.Hostname() == name {')],
  needs='a URL with a port',
  breaks='URLs of the host on any port are limited, and those of the given port never',
  test=SRV+'''
func TestZZDemo(t *testing.T) {
	l := LimitHostname(1, "a:8080")
	ctx, cancel := context.WithTimeout(context.Background(), 50*time.Millisecond)
	defer cancel()
	l.Limit(ctx, zzURL("http://a:8080/"))
	if err := l.Limit(ctx, zzURL("http://a:8080/")); err == nil {
		t.Fatal("not limited")
	}
}
'''),
dict(id='L02-attr-any', property='L02',
  edits=[('list.go', '		return scan.Attr(n, key)', '''		if v, ok := scan.Attr(n, key); ok {
			return v, true
		}''')],
  needs='a list whose first node lacks the attribute',
  breaks="Attr returns another node's attribute",
  test=SRV+'''
func TestZZDemo(t *testing.T) {
	l := zzPage("http://a/", `<p>1</p><p id="x">2</p>`).Query("p")
	if v, ok := l.Attr("id"); ok || v != "" {
		t.Fatal(v, ok)
	}
}
'''),
dict(id='S01-field-order', property='S01',
  edits=[('internal/scan/struct.go', '			index: f.Index,', '			index: []int{len(fields)},')],
  needs='a struct with a field that is not scanned before one that is',
  breaks="a field's text is put into the wrong field",
  test=SRV+'''
func TestZZDemo(t *testing.T) {
	var v struct {
		A string
		B string `css:"b"`
	}
	v.A = "kept"
	if err := zzPage("http://a/", `<b>x</b>`).Scan(&v); err != nil {
		t.Fatal(err)
	}
	if v.A != "kept" || v.B != "x" {
		t.Fatal(v)
	}
}
'''),
dict(id='S02-bytes-trimmed', property='S02',
  edits=[('internal/scan/scan.go', '		dst.SetBytes([]byte(str))', '		dst.SetBytes([]byte(strings.TrimSpace(str)))'),
         ('internal/scan/scan.go', '	"strconv"\n', '	"strconv"\n	"strings"\n')],
  needs='text with white space around it, scanned into a byte slice',
  breaks='the text is not copied verbatim',
  test=SRV+'''
func TestZZDemo(t *testing.T) {
	var v struct {
		B []byte `css:"b"`
	}
	if err := zzPage("http://a/", `<b> x </b>`).Scan(&v); err != nil {
		t.Fatal(err)
	}
	if string(v.B) != " x " {
		t.Fatalf("%q", v.B)
	}
}
'''),
dict(id='J01-selectors-reversed', property='J01',
  edits=[('json.go', '			next = append(next, urls...)', '			next = append(urls, next...)')],
  needs='a scraper with two selectors that match links',
  breaks='the URLs are not in the order of the selectors',
  test=SRV+'''
func TestZZDemo(t *testing.T) {
	type typ struct {
		B string `css:"b"`
	}
	s := JSON(io.Discard, typ{}, "a.x", "a.y")
	us, err := s.Scrape(context.Background(), zzPage("http://a/", `<b>1</b><a class=y href="/y"></a><a class=x href="/x"></a>`))
	if err != nil || len(us) != 2 || us[0].Path != "/x" || us[1].Path != "/y" {
		t.Fatal(us, err)
	}
}
'''),
dict(id='R01-5xx-refused', property='R01', pkg='internal/robots',
  edits=[('internal/robots/cache.go', '	if resp.StatusCode >= 400 {', '	if resp.StatusCode >= 400 && resp.StatusCode < 500 {')],
  needs='a robots.txt that answers with a server error',
  breaks='every page of the host is refused',
  test='''package robots

import (
	"context"
	"net/http"
	"net/http/httptest"
	"net/url"
	"testing"
)

func TestZZDemo(t *testing.T) {
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { w.WriteHeader(503) }))
	defer srv.Close()
	u, _ := url.Parse(srv.URL + "/x")
	ok, err := NewCache(http.DefaultClient, 10).Allowed(context.Background(), Request{URL: u, UserAgent: "x"})
	if err != nil || !ok {
		t.Fatal(ok, err)
	}
}
'''),
dict(id='N01-values-order', property='N01', pkg='internal/normalize',
  edits=[('internal/normalize/url.go', '		sort.Strings(parts)', '''		sort.SliceStable(parts, func(i, j int) bool {
			a, _, _ := strings.Cut(parts[i], "=")
			b, _, _ := strings.Cut(parts[j], "=")
			return a < b
		})''')],
  needs='a query with several values of one parameter',
  breaks='queries that differ by the order of the values normalize differently',
  test='''package normalize

import "testing"

func TestZZDemo(t *testing.T) {
	a, _ := RawURL("http://h/?a=2&a=1")
	b, _ := RawURL("http://h/?a=1&a=2")
	if a != b {
		t.Fatal(a, b)
	}
}
'''),
dict(id='N02-unique-params', property='N02', pkg='internal/normalize',
  edits=[('internal/normalize/url.go', '''		sort.Strings(parts)
		return strings.Join(parts, "&")''', '''		sort.Strings(parts)
		return strings.Join(slices.Compact(parts), "&")'''),
         ('internal/normalize/url.go', '	"path"\n', '	"path"\n	"slices"\n')],
  needs='a query with the same parameter and value twice',
  breaks='a repeated parameter is dropped',
  test='''package normalize

import "testing"

func TestZZDemo(t *testing.T) {
	a, _ := RawURL("http://h/?a=1&a=1")
	if a != "http://h/?a=1&a=1" {
		t.Fatal(a)
	}
}
'''),
dict(id='C02-one-cookie', property='C02', pkg='antcdp',
  edits=[('antcdp/tx.go', 'tx.resp.Header.Add("Set-Cookie", cookie.String())', 'tx.resp.Header.Set("Set-Cookie", cookie.String())')],
  needs='a browser with more than one cookie',
  breaks='the response has only the last cookie',
  test=CDP+'''
func TestZZDemo(t *testing.T) {
	b := zzStart(t)
	b.cookies = `[{"name":"a","value":"1","domain":"h","path":"/","expires":-1,"size":2,"httpOnly":false,"secure":false,"session":true,"priority":"Medium","sameParty":false,"sourceScheme":"Unset","sourcePort":80},{"name":"b","value":"2","domain":"h","path":"/","expires":-1,"size":2,"httpOnly":false,"secure":false,"session":true,"priority":"Medium","sameParty":false,"sourceScheme":"Unset","sourcePort":80}]`
	c := &Client{Addr: b.srv.URL}
	req, _ := http.NewRequest("GET", "http://h/", nil)
	resp, err := c.Do(req)
	if err != nil {
		t.Fatal(err)
	}
	if n := len(resp.Header.Values("Set-Cookie")); n != 2 {
		t.Fatal(n, resp.Header)
	}
}
'''),
dict(id='K02-compressed-not-synced', property='K02', pkg='antcache',
  edits=[('antcache/disk.go', '''	if _, err := f.Write(v); err != nil {
		cleanup()
		return fmt.Errorf("antcache: disk write - %w", err)
	}

	if err := f.Sync(); err != nil {
		cleanup()
		return fmt.Errorf("antcache: disk fsync - %w", err)
	}
''', '''	if _, err := f.Write(v); err != nil {
		cleanup()
		return fmt.Errorf("antcache: disk write - %w", err)
	}

	// Compressed values are checked when they are decoded.
	if !d.compress {
		if err := f.Sync(); err != nil {
			cleanup()
			return fmt.Errorf("antcache: disk fsync - %w", err)
		}
	}
''')],
  needs='a compressing store and a machine that stops after an entry was stored',
  breaks='the entry is put in its place before its content is on disk',
  test=AC+'''
func TestZZDemo(t *testing.T) {
	if dir := os.Getenv("ZZDIR"); dir != "" {
		d, err := Open(dir, Compress())
		if err != nil {
			t.Fatal(err)
		}
		if err := d.Store(context.Background(), 7, []byte("value")); err != nil {
			t.Fatal(err)
		}
		return
	}
	if _, err := exec.LookPath("strace"); err != nil {
		t.Skip("no strace")
	}
	dir := t.TempDir()
	out := filepath.Join(t.TempDir(), "trace")
	cmd := exec.Command("strace", "-f", "-y", "-o", out, "-e", "trace=fsync,fdatasync,rename,renameat,renameat2", os.Args[0], "-test.run", "^TestZZDemo$")
	cmd.Env = append(os.Environ(), "ZZDIR="+dir)
	if b, err := cmd.CombinedOutput(); err != nil {
		t.Fatalf("%s %s", err, b)
	}
	buf, err := os.ReadFile(out)
	if err != nil {
		t.Fatal(err)
	}
	synced := false
	for _, l := range strings.Split(string(buf), "\\n") {
		if strings.Contains(l, "sync(") && strings.Contains(l, "<"+dir+"/") {
			synced = true
		}
		if strings.Contains(l, "rename") && !synced {
			t.Fatal("renamed before it was synced\\n", string(buf))
		}
	}
}
'''),
dict(id='Q02-close-keeps-pending', property='Q02',
  edits=[('queue.go', '''	mq.stopped = true
	mq.pending = mq.pending[:0]
''', '''	mq.stopped = true
''')],
  needs='URLs that are still queued when the queue is closed',
  breaks='Dequeue returns URLs after Close',
  test=SRV+'''
func TestZZDemo(t *testing.T) {
	q := MemoryQueue(1)
	ctx := context.Background()
	if err := q.Enqueue(ctx, URLs{zzURL("http://a/"), zzURL("http://b/")}); err != nil {
		t.Fatal(err)
	}
	q.Close(ctx)
	if u, err := q.Dequeue(ctx); err != io.EOF {
		t.Fatal(u, err)
	}
}
'''),
]
