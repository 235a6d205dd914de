// Package zzvbrowser is a model of a browser that is driven over the chrome
// debugging protocol, at the level of the API of github.com/mafredri/cdp.
//
// The code under test is compiled against it (its imports of cdp, cdp/rpcc
// and cdp/devtool are rewritten), in the symbolic executor and when a
// counterexample is replayed. It models what the library promises:
//
//   - every call fails with the context's error when the context is done,
//     fails when its connection is closed, and may fail for other reasons,
//   - closing a connection ends its event streams,
//   - an event stream delivers its events in order, then its error; once its
//     context is done it delivers the context's error,
//   - events are only delivered to streams that were there before them.
package zzvbrowser

import (
	"context"
	"errors"
	"strconv"
	"sync"

	realcdp "github.com/mafredri/cdp"
	realdevtool "github.com/mafredri/cdp/devtool"
	"github.com/mafredri/cdp/protocol/dom"
	"github.com/mafredri/cdp/protocol/network"
	"github.com/mafredri/cdp/protocol/page"
	"github.com/mafredri/cdp/protocol/storage"
	vt "github.com/yields/ant/internal/zzvt"
)

var (
	// ErrFault is the error of an injected fault.
	ErrFault  = errors.New("the browser failed")
	ErrClosed = errors.New("the connection is closed")
	errStream = errors.New("the stream is closing")
)

// The kinds of calls, in the order in which a request makes them.
var Steps = []string{"create", "dial", "page.enable", "network.enable", "headers", "set cookies", "subscribe request", "subscribe response", "subscribe ready", "navigate", "document", "html", "get cookies"}

// Event is something a page does after it has been navigated.
type Event struct {
	Req   *network.RequestWillBeSentReply
	Res   *network.ResponseReceivedReply
	Ready bool
	Drop  bool // the browser closes the connection
	Pause bool // nothing happens until Resume
}

// Tab is a target.
type Tab struct {
	Target *realdevtool.Target
	InUse  int    // open connections
	Most   int    // the most connections that were ever open
	URL    string // where it is
	Frame  page.FrameID
	HTML   string
	nodes  int
}

// Browser is the state of the browser.
type Browser struct {
	mu sync.Mutex

	Tabs    []*Tab
	Cookies []network.Cookie
	Set     []network.CookieParam
	Headers []network.Headers // as set by SetExtraHTTPHeaders
	Order   []string          // the calls that were made
	Streams int               // open streams
	Conns   int               // open connections
	Dials   int               // connections ever opened

	// Fail fails the calls of a kind.
	Fail string
	// Hang makes calls of a kind wait for their context or connection.
	Hang string
	// Hung counts calls that wait.
	Hung int
	// Err is the error of an injected fault, if not ErrFault.
	Err error
	// ErrorText is what the browser answers to a navigation.
	ErrorText string
	// Page is called for each navigation.
	Page func(url string, t *Tab) []Event
	// Visit is called when the tab has loaded the page, before it answers
	// the next call.
	Visit func(t *Tab)
	// Switch makes every call a scheduling point.
	Switch bool

	resume chan struct{}
}

// B is the browser.
var B = New()

// New returns a new browser.
func New() *Browser { return &Browser{resume: make(chan struct{})} }

// Reset starts the browser.
func Reset() *Browser {
	B = New()
	return B
}

// Resume continues paused pages.
func (b *Browser) Resume() { close(b.resume) }

// Again makes later pages pause again.
func (b *Browser) Again() { b.resume = make(chan struct{}) }

// Did returns how many calls of a kind were made.
func (b *Browser) Did(kind string) (n int) {
	b.mu.Lock()
	defer b.mu.Unlock()
	for _, o := range b.Order {
		if o == kind {
			n++
		}
	}
	return n
}

func (b *Browser) step(ctx context.Context, c *Conn, kind string) error {
	if b.Switch {
		vt.Yield()
	}
	if err := ctx.Err(); err != nil {
		return err
	}
	b.mu.Lock()
	b.Order = append(b.Order, kind)
	dead := c != nil && c.closed
	fail, hang := b.Fail == kind, b.Hang == kind
	if hang {
		b.Hung++
	}
	b.mu.Unlock()
	if dead {
		return ErrClosed
	}
	if hang {
		var done chan struct{}
		if c != nil {
			done = c.done
		}
		select {
		case <-ctx.Done():
			return ctx.Err()
		case <-done:
			return ErrClosed
		}
	}
	if fail {
		if b.Err != nil {
			return b.Err
		}
		return ErrFault
	}
	return nil
}

// Create creates a target.
func (b *Browser) Create(ctx context.Context) (*realdevtool.Target, error) {
	if err := b.step(ctx, nil, "create"); err != nil {
		return nil, err
	}
	b.mu.Lock()
	defer b.mu.Unlock()
	n := strconv.Itoa(len(b.Tabs) + 1)
	t := &realdevtool.Target{ID: "T" + n, Type: realdevtool.Page, WebSocketDebuggerURL: "ws://browser/" + n}
	b.Tabs = append(b.Tabs, &Tab{Target: t, Frame: page.FrameID("F" + n)})
	return t, nil
}

// Conn is a connection to a target.
type Conn struct {
	b      *Browser
	tab    *Tab
	closed bool
	done   chan struct{}
	err    error
	reqs   []*stream
	ress   []*stream
	readys []*stream
}

// Dial connects to a target.
func (b *Browser) Dial(ctx context.Context, url string) (*Conn, error) {
	if err := b.step(ctx, nil, "dial"); err != nil {
		return nil, err
	}
	b.mu.Lock()
	defer b.mu.Unlock()
	for _, t := range b.Tabs {
		if t.Target.WebSocketDebuggerURL == url {
			b.Conns++
			b.Dials++
			if t.InUse++; t.InUse > t.Most {
				t.Most = t.InUse
			}
			return &Conn{b: b, tab: t, done: make(chan struct{})}, nil
		}
	}
	return nil, errors.New("no such target " + url)
}

// Close closes the connection and ends its streams.
func (c *Conn) Close() error {
	if c.b.Switch {
		vt.Yield()
	}
	return c.drop(ErrClosed)
}

func (c *Conn) drop(err error) error {
	c.b.mu.Lock()
	if c.closed {
		c.b.mu.Unlock()
		return ErrClosed
	}
	c.closed = true
	c.b.Conns--
	c.tab.InUse--
	var all []*stream
	all = append(append(append(all, c.reqs...), c.ress...), c.readys...)
	c.b.mu.Unlock()
	close(c.done)
	for _, s := range all {
		s.end(err)
	}
	return nil
}

// stream is an event stream.
type stream struct {
	ctx   context.Context
	b     *Browser
	mu    sync.Mutex
	q     []Event
	ready chan struct{}
	ended bool
	err   error
	stop  chan struct{}
}

func (c *Conn) subscribe(ctx context.Context, kind string, to *[]*stream) (*stream, error) {
	if err := c.b.step(ctx, c, "subscribe "+kind); err != nil {
		return nil, err
	}
	s := &stream{ctx: ctx, b: c.b, ready: make(chan struct{}), stop: make(chan struct{})}
	c.b.mu.Lock()
	*to = append(*to, s)
	c.b.Streams++
	c.b.mu.Unlock()
	if ctx.Done() != nil {
		go func() {
			select {
			case <-ctx.Done():
				s.end(ctx.Err())
			case <-s.stop:
			}
		}()
	}
	return s, nil
}

func (s *stream) put(e Event) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.ended {
		return
	}
	s.q = append(s.q, e)
	if len(s.q) == 1 {
		close(s.ready)
	}
}

func (s *stream) end(err error) error {
	s.mu.Lock()
	if s.ended {
		s.mu.Unlock()
		return errors.New("the stream is already closed")
	}
	s.ended, s.err = true, err
	if len(s.q) == 0 {
		close(s.ready)
	}
	close(s.stop)
	s.mu.Unlock()
	s.b.mu.Lock()
	s.b.Streams--
	s.b.mu.Unlock()
	return nil
}

func (s *stream) Ready() <-chan struct{} {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.ready
}

func (s *stream) RecvMsg(m interface{}) error { return errors.New("not modelled") }
func (s *stream) Close() error {
	if s.b.Switch {
		vt.Yield()
	}
	return s.end(errStream)
}

func (s *stream) recv() (Event, error) {
	for {
		if err := s.ctx.Err(); err != nil {
			return Event{}, err
		}
		s.mu.Lock()
		if len(s.q) > 0 {
			e := s.q[0]
			s.q = s.q[1:]
			if len(s.q) == 0 && !s.ended {
				s.ready = make(chan struct{})
			}
			s.mu.Unlock()
			return e, nil
		}
		if s.ended {
			s.mu.Unlock()
			return Event{}, s.err
		}
		ch := s.ready
		s.mu.Unlock()
		<-ch
	}
}

type reqStream struct{ *stream }

func (s reqStream) Recv() (*network.RequestWillBeSentReply, error) {
	e, err := s.recv()
	if err != nil {
		return nil, err
	}
	return e.Req, nil
}

type resStream struct{ *stream }

func (s resStream) Recv() (*network.ResponseReceivedReply, error) {
	e, err := s.recv()
	if err != nil {
		return nil, err
	}
	return e.Res, nil
}

type readyStream struct{ *stream }

func (s readyStream) Recv() (*page.DOMContentEventFiredReply, error) {
	if _, err := s.recv(); err != nil {
		return nil, err
	}
	return &page.DOMContentEventFiredReply{}, nil
}

// NewClient returns a client of c.
func NewClient(c *Conn) *realcdp.Client {
	return &realcdp.Client{Page: pages{c: c}, Network: net{c: c}, DOM: doms{c: c}, Storage: stores{c: c}}
}

type pages struct {
	realcdp.Page
	c *Conn
}

func (p pages) Enable(ctx context.Context) error { return p.c.b.step(ctx, p.c, "page.enable") }

func (p pages) DOMContentEventFired(ctx context.Context) (page.DOMContentEventFiredClient, error) {
	s, err := p.c.subscribe(ctx, "ready", &p.c.readys)
	if err != nil {
		return nil, err
	}
	return readyStream{s}, nil
}

func (p pages) Navigate(ctx context.Context, a *page.NavigateArgs) (*page.NavigateReply, error) {
	b, c := p.c.b, p.c
	if err := b.step(ctx, c, "navigate"); err != nil {
		return nil, err
	}
	b.mu.Lock()
	text := b.ErrorText
	frame := c.tab.Frame
	if text == "" {
		c.tab.URL = a.URL
	}
	n := len(b.Order)
	b.mu.Unlock()
	if text != "" {
		return &page.NavigateReply{FrameID: frame, ErrorText: &text}, nil
	}
	loader := network.LoaderID("L" + strconv.Itoa(n))
	var script []Event
	if b.Page != nil {
		script = b.Page(a.URL, c.tab)
	}
	i := 0
	for ; i < len(script) && !script[i].Pause; i++ {
		c.play(script[i])
	}
	if i < len(script) {
		go func() {
			for ; i < len(script); i++ {
				if script[i].Pause {
					select {
					case <-b.resume:
					case <-c.done:
						return
					}
					continue
				}
				c.play(script[i])
			}
		}()
	}
	return &page.NavigateReply{FrameID: frame, LoaderID: &loader}, nil
}

func (c *Conn) play(e Event) {
	if e.Drop {
		c.drop(ErrClosed)
		return
	}
	to := c.readys
	if e.Req != nil {
		to = c.reqs
	}
	if e.Res != nil {
		to = c.ress
	}
	for _, s := range to {
		s.put(e)
	}
}

type net struct {
	realcdp.Network
	c *Conn
}

func (n net) Enable(ctx context.Context, _ *network.EnableArgs) error {
	return n.c.b.step(ctx, n.c, "network.enable")
}

func (n net) SetExtraHTTPHeaders(ctx context.Context, a *network.SetExtraHTTPHeadersArgs) error {
	b := n.c.b
	if err := b.step(ctx, n.c, "headers"); err != nil {
		return err
	}
	b.mu.Lock()
	defer b.mu.Unlock()
	b.Headers = append(b.Headers, a.Headers)
	return nil
}

func (n net) RequestWillBeSent(ctx context.Context) (network.RequestWillBeSentClient, error) {
	s, err := n.c.subscribe(ctx, "request", &n.c.reqs)
	if err != nil {
		return nil, err
	}
	return reqStream{s}, nil
}

func (n net) ResponseReceived(ctx context.Context) (network.ResponseReceivedClient, error) {
	s, err := n.c.subscribe(ctx, "response", &n.c.ress)
	if err != nil {
		return nil, err
	}
	return resStream{s}, nil
}

type doms struct {
	realcdp.DOM
	c *Conn
}

func (d doms) GetDocument(ctx context.Context, _ *dom.GetDocumentArgs) (*dom.GetDocumentReply, error) {
	if err := d.c.b.step(ctx, d.c, "document"); err != nil {
		return nil, err
	}
	d.c.tab.nodes++
	return &dom.GetDocumentReply{Root: dom.Node{NodeID: dom.NodeID(d.c.tab.nodes)}}, nil
}

func (d doms) GetOuterHTML(ctx context.Context, a *dom.GetOuterHTMLArgs) (*dom.GetOuterHTMLReply, error) {
	if err := d.c.b.step(ctx, d.c, "html"); err != nil {
		return nil, err
	}
	if a == nil || a.NodeID == nil || int(*a.NodeID) != d.c.tab.nodes {
		return nil, errors.New("no such node")
	}
	return &dom.GetOuterHTMLReply{OuterHTML: d.c.tab.HTML}, nil
}

type stores struct {
	realcdp.Storage
	c *Conn
}

func (s stores) SetCookies(ctx context.Context, a *storage.SetCookiesArgs) error {
	b := s.c.b
	if err := b.step(ctx, s.c, "set cookies"); err != nil {
		return err
	}
	b.mu.Lock()
	defer b.mu.Unlock()
	b.Set = append(b.Set, a.Cookies...)
	return nil
}

func (s stores) GetCookies(ctx context.Context, _ *storage.GetCookiesArgs) (*storage.GetCookiesReply, error) {
	b := s.c.b
	if err := b.step(ctx, s.c, "get cookies"); err != nil {
		return nil, err
	}
	b.mu.Lock()
	defer b.mu.Unlock()
	return &storage.GetCookiesReply{Cookies: append([]network.Cookie(nil), b.Cookies...)}, nil
}
