H = '''package antcdp

import (
	"context"
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/gorilla/websocket"
)

var _ = io.EOF
var _ = context.Background

// zzChrome is a small browser.
type zzChrome struct {
	mu     sync.Mutex
	tabs   int
	open   map[string]int
	most   int
	total  int
	calls  []string
	params []string
	fail   string
	hold   string
	release chan struct{}
	events func(url string) []string // after a navigation
	cookies string
	srv    *httptest.Server
}

func zzStart(t *testing.T) *zzChrome {
	b := &zzChrome{open: map[string]int{}, release: make(chan struct{}), cookies: "[]"}
	b.events = func(u string) []string { return []string{b.req("1", "Document", "F"), b.res("1", "Document", "F", 200, "{}"), b.ready()} }
	up := websocket.Upgrader{CheckOrigin: func(*http.Request) bool { return true }}
	b.srv = httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		if r.URL.Path == "/json/version" {
			io.WriteString(w, "{}")
			return
		}
		if strings.HasPrefix(r.URL.Path, "/json/new") {
			b.mu.Lock()
			b.tabs++
			n := b.tabs
			b.mu.Unlock()
			fmt.Fprintf(w, `{"id":"%d","type":"page","webSocketDebuggerUrl":"ws://%s/tab/%d"}`, n, r.Host, n)
			return
		}
		c, err := up.Upgrade(w, r, nil)
		if err != nil {
			return
		}
		defer c.Close()
		b.mu.Lock()
		b.open[r.URL.Path]++
		b.total++
		if n := b.open[r.URL.Path]; n > b.most {
			b.most = n
		}
		b.mu.Unlock()
		defer func() { b.mu.Lock(); b.open[r.URL.Path]--; b.mu.Unlock() }()
		url := ""
		for {
			var m struct {
				ID     int
				Method string
				Params json.RawMessage
			}
			if err := c.ReadJSON(&m); err != nil {
				return
			}
			b.mu.Lock()
			b.calls = append(b.calls, m.Method)
			b.params = append(b.params, m.Method+" "+string(m.Params))
			fail, hold, cookies := b.fail == m.Method, b.hold == m.Method, b.cookies
			b.mu.Unlock()
			if hold {
				<-b.release
			}
			if fail {
				c.WriteMessage(1, []byte(fmt.Sprintf(`{"id":%d,"error":{"code":-1,"message":"failed"}}`, m.ID)))
				continue
			}
			result := "{}"
			var events []string
			switch m.Method {
			case "Page.navigate":
				var p struct{ URL string }
				json.Unmarshal(m.Params, &p)
				url = p.URL
				result = `{"frameId":"F","loaderId":"L"}`
				events = b.events(url)
			case "DOM.getDocument":
				result = `{"root":{"nodeId":1,"backendNodeId":1,"nodeType":9,"nodeName":"x","localName":"x","nodeValue":"x"}}`
			case "DOM.getOuterHTML":
				x, _ := json.Marshal("<p>" + url)
				result = `{"outerHTML":` + string(x) + `}`
			case "Storage.getCookies":
				result = `{"cookies":` + cookies + `}`
			}
			c.WriteMessage(1, []byte(fmt.Sprintf(`{"id":%d,"result":%s}`, m.ID, result)))
			for _, e := range events {
				if e == "sleep" {
					time.Sleep(200 * time.Millisecond)
					continue
				}
				c.WriteMessage(1, []byte(e))
			}
		}
	}))
	t.Cleanup(b.srv.CloseClientConnections)
	return b
}
func (b *zzChrome) req(id, typ, frame string) string {
	return fmt.Sprintf(`{"method":"Network.requestWillBeSent","params":{"requestId":%q,"loaderId":"L","documentURL":"","request":{},"type":%q,"frameId":%q,"initiator":{"type":"other"}}}`, id, typ, frame)
}
func (b *zzChrome) res(id, typ, frame string, status int, headers string) string {
	return fmt.Sprintf(`{"method":"Network.responseReceived","params":{"requestId":%q,"loaderId":"L","type":%q,"frameId":%q,"response":{"status":%d,"headers":%s,"protocol":"http/1.1"}}}`, id, typ, frame, status, headers)
}
func (b *zzChrome) ready() string { return `{"method":"Page.domContentEventFired","params":{"timestamp":1}}` }
func (b *zzChrome) conns() (n int) {
	b.mu.Lock()
	defer b.mu.Unlock()
	for _, k := range b.open { n += k }
	return
}
func (b *zzChrome) count(m string) (n int) {
	b.mu.Lock()
	defer b.mu.Unlock()
	for _, c := range b.calls { if c == m { n++ } }
	return
}
func zzDo(ctx context.Context, c *Client, u string, kv ...string) (*http.Response, error) {
	r, _ := http.NewRequestWithContext(ctx, "GET", u, nil)
	for i := 0; i < len(kv); i += 2 { r.Header.Set(kv[i], kv[i+1]) }
	type res struct { resp *http.Response; err error }
	ch := make(chan res, 1)
	go func() { resp, err := c.Do(r); ch <- res{resp, err} }()
	select {
	case x := <-ch:
		return x.resp, x.err
	case <-time.After(8 * time.Second):
		return nil, fmt.Errorf("the request hangs")
	}
}
func zzWait(f func() bool) bool {
	for i := 0; i < 300; i++ {
		if f() { return true }
		time.Sleep(10 * time.Millisecond)
	}
	return false
}

'''
SEEDS = [
dict(id='C01-release-early', property='C01', pkg='antcdp',
  edits=[('antcdp/transport.go', '''	resp, err := tx.do(ctx)
	if err != nil {
		return nil, err
	}

	return resp, nil
''', '''	resp, err := tx.do(ctx)
	if err != nil {
		return nil, err
	}

	if resp.StatusCode >= 500 {
		return nil, t.pool.release(target)
	}

	return resp, nil
''')],
  needs='a 5xx document, then two requests at once', breaks='the target is in the pool twice, and the response is dropped', test=H+'''
func TestZZDemo(t *testing.T) {
	b := zzStart(t)
	c := &Client{Addr: b.srv.URL}
	b.events = func(u string) []string { return []string{b.res("1", "Document", "F", 500, "{}"), b.ready()} }
	zzDo(context.Background(), c, "http://a/1")
	b.events = func(u string) []string { return []string{"sleep", b.res("1", "Document", "F", 200, "{}"), b.ready()} }
	var wg sync.WaitGroup
	for i := 0; i < 2; i++ {
		wg.Add(1)
		go func() { defer wg.Done(); zzDo(context.Background(), c, "http://a/2") }()
	}
	wg.Wait()
	if b.most > 1 { t.Fatal("a target served two requests at once") }
}
'''),
dict(id='C01-release-blocks', property='C01', pkg='antcdp',
  edits=[('antcdp/targets.go', '''	case t.targets <- target:
	default:
	}
	return nil
''', '''	case t.targets <- target:
	default:
		<-t.targets
		t.targets <- target
	}
	return nil
''')],
  needs='more simultaneous requests than the pool has room for, that end while another takes the last idle target', breaks='releasing can block forever', test=H+'''
func TestZZDemo(t *testing.T) {
	p := newTargets(nil)
	for i := 0; i < cap(p.targets); i++ { p.release(nil) }
	done := make(chan bool, 1)
	go func() {
		for i := 0; i < 300000; i++ {
			var wg sync.WaitGroup
			for j := 0; j < 4; j++ { wg.Add(1); go func() { defer wg.Done(); p.release(nil) }() }
			wg.Wait()
		}
		done <- true
	}()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		t.Fatal("release blocks")
	}
}
'''),
dict(id='C01-idle-dropped-on-cancel', property='C01', pkg='antcdp',
  edits=[('antcdp/targets.go', '''	case v := <-t.targets:
		return v, nil

	case <-ctx.Done():
''', '''	case v := <-t.targets:
		return v, ctx.Err()

	case <-ctx.Done():
''')],
  needs='a canceled request while a target is idle', breaks='the idle target is lost', test=H+'''
func TestZZDemo(t *testing.T) {
	b := zzStart(t)
	c := &Client{Addr: b.srv.URL}
	if _, err := zzDo(context.Background(), c, "http://a/1"); err != nil { t.Fatal(err) }
	for i := 0; i < 20; i++ {
		ctx, cancel := context.WithCancel(context.Background())
		cancel()
		if _, err := zzDo(ctx, c, "http://a/1"); err == nil { t.Fatal("no error") }
	}
	if _, err := zzDo(context.Background(), c, "http://a/1"); err != nil { t.Fatal(err) }
	if b.tabs != 1 { t.Fatal("the idle target was not reused") }
}
'''),
dict(id='C02-frame-missing', property='C02', pkg='antcdp',
  edits=[('antcdp/tx.go', '''			if event.Type != network.ResourceTypeDocument {
				continue
			}
			if id := event.FrameID; id != nil && *id != args.FrameID {
				continue
			}
''', '''			if *event.FrameID != args.FrameID {
				continue
			}
			if event.Type != network.ResourceTypeDocument {
				continue
			}
''')],
  needs='a response without a frame (a preflight, a worker script) before the document', breaks='the request panics', test=H+'''
func TestZZDemo(t *testing.T) {
	b := zzStart(t)
	c := &Client{Addr: b.srv.URL}
	b.events = func(u string) []string {
		return []string{strings.Replace(b.res("9", "Preflight", "F", 204, "{}"), `"frameId":"F",`, "", 1), b.res("1", "Document", "F", 200, "{}"), b.ready()}
	}
	if _, err := zzDo(context.Background(), c, "http://a/1"); err != nil { t.Fatal(err) }
}
'''),
dict(id='C02-iframe', property='C02', pkg='antcdp',
  edits=[('antcdp/tx.go', '''id != nil && *id != args.FrameID {''', '''id == nil || *id != args.FrameID && tx.resp.StatusCode != 0 {''')],
  needs="another frame's document that arrives before the navigated one", breaks="the response has another frame's status and headers", test=H+'''
func TestZZDemo(t *testing.T) {
	b := zzStart(t)
	c := &Client{Addr: b.srv.URL}
	b.events = func(u string) []string {
		return []string{b.res("9", "Document", "G", 404, "{}"), b.res("1", "Document", "F", 200, "{}"), b.ready()}
	}
	resp, err := zzDo(context.Background(), c, "http://a/1")
	if err != nil { t.Fatal(err) }
	if resp.StatusCode != 200 { t.Fatal(resp.StatusCode) }
}
'''),
dict(id='C02-length-header', property='C02', pkg='antcdp',
  edits=[('antcdp/tx.go', '''	tx.resp.Header.Set("Content-Length", length)
''', '''	if tx.resp.Header.Get("Content-Length") == "" {
		tx.resp.Header.Set("Content-Length", length)
	}
''')],
  needs='a document with a Content-Length, whose rendered size differs', breaks='the header is the size of the document before it was rendered', test=H+'''
func TestZZDemo(t *testing.T) {
	b := zzStart(t)
	c := &Client{Addr: b.srv.URL}
	b.events = func(u string) []string { return []string{b.res("1", "Document", "F", 200, `{"Content-Length":"77"}`), b.ready()} }
	resp, err := zzDo(context.Background(), c, "http://a/1")
	if err != nil { t.Fatal(err) }
	if g := resp.Header.Get("Content-Length"); g != fmt.Sprint(resp.ContentLength) { t.Fatal(g) }
}
'''),
dict(id='C02-proto-minor', property='C02', pkg='antcdp',
  edits=[('antcdp/tx.go', '''		if p := strings.SplitN(s[j+1:], ".", 2); len(p) == 2 {
			major, _ = strconv.Atoi(p[0])
			minor, _ = strconv.Atoi(p[1])
			ok = true
		}
''', '''		if p := s[j+1:]; len(p) == 3 && p[1] == '.' {
			major = int(p[0] - '0')
			minor = int(p[2] - '0')
			ok = true
		}
''')],
  needs='a protocol version of two digits', breaks='the version is not reported', test=H+'''
func TestZZDemo(t *testing.T) {
	b := zzStart(t)
	c := &Client{Addr: b.srv.URL}
	b.events = func(u string) []string { return []string{strings.Replace(b.res("1", "Document", "F", 200, "{}"), "http/1.1", "quic/1.10", 1), b.ready()} }
	resp, err := zzDo(context.Background(), c, "http://a/1")
	if err != nil { t.Fatal(err) }
	if resp.ProtoMajor != 1 || resp.ProtoMinor != 10 { t.Fatal(resp.ProtoMajor, resp.ProtoMinor) }
}
'''),
dict(id='C02-ready-before', property='C02', pkg='antcdp',
  edits=[('antcdp/tx.go', '''	ready, err := tx.client.Page.DOMContentEventFired(ctx)
	if err != nil {
		return err
	}

	tx.events.req = reqc
	tx.events.res = resc
	tx.events.ready = ready
	return nil
''', '''	tx.events.req = reqc
	tx.events.res = resc
	return nil
'''), ('antcdp/tx.go', '''	if _, err := tx.events.ready.Recv(); err != nil {
		return nil, fmt.Errorf("antcdp: dom ready - %w", err)
	}
''', '''	ready, err := tx.client.Page.DOMContentEventFired(ctx)
	if err != nil {
		return nil, err
	}

	tx.events.ready = ready
	if _, err := tx.events.ready.Recv(); err != nil {
		return nil, fmt.Errorf("antcdp: dom ready - %w", err)
	}
''')],
  needs='a small document that is ready before its response event has been handled', breaks='the request waits for an event that has been sent already', test=H+'''
func TestZZDemo(t *testing.T) {
	b := zzStart(t)
	c := &Client{Addr: b.srv.URL}
	b.events = func(u string) []string { return []string{b.ready(), "sleep", b.res("1", "Document", "F", 200, "{}")} }
	if _, err := zzDo(context.Background(), c, "http://a/1"); err != nil { t.Fatal(err) }
}
'''),
dict(id='C03-errortext-target', property='C03', pkg='antcdp',
  edits=[('antcdp/transport.go', '''	defer t.pool.release(target)

''', '''
'''), ('antcdp/transport.go', '''	defer func() {
		err = multierror.Append(err, tx.close())
	}()
''', '''	defer func() {
		err = multierror.Append(err, tx.close())
		t.pool.release(target)
	}()
''')],
  needs='a transaction that fails before it is initialized', breaks='the target does not go back to the pool', test=H+'''
func TestZZDemo(t *testing.T) {
	b := zzStart(t)
	c := &Client{Addr: b.srv.URL}
	b.fail = "Network.enable"
	if _, err := zzDo(context.Background(), c, "http://a/1"); err == nil { t.Fatal("no error") }
	b.fail = ""
	if _, err := zzDo(context.Background(), c, "http://a/1"); err != nil { t.Fatal(err) }
	if b.tabs != 1 { t.Fatal("the target was not reused") }
}
'''),
dict(id='C03-close-on-success', property='C03', pkg='antcdp',
  edits=[('antcdp/transport.go', '''	defer func() {
		err = multierror.Append(err, tx.close())
	}()

	resp, err := tx.do(ctx)
	if err != nil {
		return nil, err
	}

	return resp, nil
''', '''	resp, err := tx.do(ctx)
	if err != nil && ctx.Err() != nil {
		return nil, err
	}
	if cerr := tx.close(); cerr != nil {
		err = multierror.Append(err, cerr)
	}
	if err != nil {
		return nil, err
	}

	return resp, nil
''')],
  needs='a request that is canceled while the page loads', breaks='the connection of a canceled request stays open', test=H+'''
func TestZZDemo(t *testing.T) {
	b := zzStart(t)
	c := &Client{Addr: b.srv.URL}
	b.events = func(u string) []string { return nil }
	ctx, cancel := context.WithTimeout(context.Background(), 300*time.Millisecond)
	defer cancel()
	if _, err := zzDo(ctx, c, "http://a/1"); err == nil { t.Fatal("no error") }
	if !zzWait(func() bool { return b.conns() == 0 }) { t.Fatal("the connection stays open") }
}
'''),
dict(id='C03-cookies-ignored', property='C03', pkg='antcdp',
  edits=[('antcdp/tx.go', '''	if err := tx.readcookies(ctx); err != nil {
		return nil, err
	}

	return tx.resp, nil
''', '''	if err := tx.readcookies(ctx); err != nil {
		return tx.resp, err
	}

	return tx.resp, nil
'''), ('antcdp/transport.go', '''	resp, err := tx.do(ctx)
	if err != nil {
		return nil, err
	}

	return resp, nil
''', '''	resp, err := tx.do(ctx)
	if resp != nil {
		return resp, nil
	}

	return nil, err
''')],
  needs='a browser that fails to answer with its cookies', breaks='a failed request returns a response without cookies and no error', test=H+'''
func TestZZDemo(t *testing.T) {
	b := zzStart(t)
	c := &Client{Addr: b.srv.URL}
	b.fail = "Storage.getCookies"
	if resp, err := zzDo(context.Background(), c, "http://a/1"); err == nil || resp != nil { t.Fatal("no error") }
}
'''),
dict(id='C04-cookie-url', property='C04', pkg='antcdp',
  edits=[('antcdp/tx.go', '''	var url = tx.request.URL.String()
	var c = ''', '''	var url = tx.request.URL.Scheme + "://" + tx.request.URL.Host
	var c = ''')],
  needs='a request with cookies whose URL has a path', breaks='cookies are set for another URL than the request goes to', test=H+'''
func TestZZDemo(t *testing.T) {
	b := zzStart(t)
	c := &Client{Addr: b.srv.URL}
	if _, err := zzDo(context.Background(), c, "http://a/1/2?q", "Cookie", "a=b"); err != nil { t.Fatal(err) }
	for _, p := range b.params {
		if strings.HasPrefix(p, "Storage.setCookies") && !strings.Contains(p, "http://a/1/2?q") { t.Fatal(p) }
	}
}
'''),
dict(id='C04-cookies-shared', property='C04', pkg='antcdp',
  edits=[('antcdp/tx.go', '''	for j, c := range cookies {
		args.Cookies[j] = network.CookieParam{
			Name:     c.Name,
''', '''	var c0 http.Cookie
	for j, p := range cookies {
		c := &c0
		c.Domain, c.Path, c.Value = p.Domain, p.Path, p.Value
		if c.Name == "" {
			c.Name = p.Name
		}
		args.Cookies[j] = network.CookieParam{
			Name:     c.Name,
''')],
  needs='a request with two cookies', breaks='all cookies get the name of the first', test=H+'''
func TestZZDemo(t *testing.T) {
	b := zzStart(t)
	c := &Client{Addr: b.srv.URL}
	if _, err := zzDo(context.Background(), c, "http://a/", "Cookie", "a=1; b=2"); err != nil { t.Fatal(err) }
	for _, p := range b.params {
		if strings.HasPrefix(p, "Storage.setCookies") && !strings.Contains(p, `"name":"b"`) { t.Fatal(p) }
	}
}
'''),
dict(id='C04-no-query', property='C04', pkg='antcdp',
  edits=[('antcdp/tx.go', '''page.NewNavigateArgs(tx.request.URL.String())''', '''page.NewNavigateArgs("http://" + tx.request.URL.Host + tx.request.URL.RequestURI())''')],
  needs='an https URL', breaks='the browser is sent to the http URL', test=H+'''
func TestZZDemo(t *testing.T) {
	b := zzStart(t)
	c := &Client{Addr: b.srv.URL}
	if _, err := zzDo(context.Background(), c, "https://a/1?x=1"); err != nil { t.Fatal(err) }
	if !strings.Contains(strings.Join(b.params, "\\n"), `Page.navigate {"url":"https://a/1?x=1"`) { t.Fatal(b.params) }
}
'''),
]
