// Package vhttp stands in for the client and server ends of net/http. Requests
// travel over the simulated network; multiplexing, requests, responses and
// handlers are the real ones.
package vhttp

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"log"
	"net"
	"net/http"
	"net/http/httptest"
	"net/url"
	"strconv"
	"strings"
	"time"

	"github.com/PatchLens/go-update-lens/zzverif/vnet"
	"github.com/PatchLens/go-update-lens/zzverif/vsim"
)

// SimNet is what the network may do in this run (rates in per mille).
type SimNet struct {
	Lose      int // connection breaks before the request arrives
	LoseResp  int // connection breaks after it was handled
	Cut       int // only a part of the body arrives
	Refuse    int // the connection is refused
	GoneAfter int // nothing listens any more after so many messages (0: never)
	sent      int
	Stall     int // delivery takes StallFor
	StallFor  time.Duration
	Latency   time.Duration // up to
	Fragments bool
	Stranger  int                  // something else answers, with an error status
	LateResp  int                  // the answer takes StallFor
	BodyStall int                  // the body stops half-way for StallFor
	OnDeliver func(m *vnet.SimMsg) // when it reaches the server's queue
	OnSend    func(m *vnet.SimMsg)
}

func SimSetNet(n *SimNet) { vsim.W.Vals["simnet"] = n }
func simNet() *SimNet {
	n, _ := vsim.W.Vals["simnet"].(*SimNet)
	if n == nil {
		n = &SimNet{Latency: time.Millisecond}
		vsim.W.Vals["simnet"] = n
	}
	return n
}

// ---- client ----

type Client struct {
	Transport     http.RoundTripper
	CheckRedirect func(req *http.Request, via []*http.Request) error
	Jar           http.CookieJar
	Timeout       time.Duration
}

var DefaultClient = &Client{}

func Get(u string) (*http.Response, error) { return DefaultClient.Get(u) }
func Post(u, ct string, body io.Reader) (*http.Response, error) {
	return DefaultClient.Post(u, ct, body)
}

func (c *Client) CloseIdleConnections() {}

func (c *Client) Get(u string) (*http.Response, error) {
	req, err := http.NewRequest("GET", u, nil)
	if err != nil {
		return nil, err
	}
	return c.Do(req)
}

func (c *Client) Head(u string) (*http.Response, error) {
	req, err := http.NewRequest("HEAD", u, nil)
	if err != nil {
		return nil, err
	}
	return c.Do(req)
}

func (c *Client) Post(u, ct string, body io.Reader) (*http.Response, error) {
	req, err := http.NewRequest("POST", u, body)
	if err != nil {
		return nil, err
	}
	req.Header.Set("Content-Type", ct)
	return c.Do(req)
}

func (c *Client) PostForm(u string, d url.Values) (*http.Response, error) {
	return c.Post(u, "application/x-www-form-urlencoded", strings.NewReader(d.Encode()))
}

type timeoutError struct{}

func (timeoutError) Error() string {
	return "context deadline exceeded (Client.Timeout exceeded while awaiting headers)"
}
func (timeoutError) Timeout() bool   { return true }
func (timeoutError) Temporary() bool { return true }
func (timeoutError) Is(e error) bool { return e == context.DeadlineExceeded }

func (c *Client) Do(req *http.Request) (*http.Response, error) {
	wrap := func(err error) error {
		m := req.Method
		return &url.Error{Op: m[:1] + strings.ToLower(m[1:]), URL: req.URL.String(), Err: err}
	}
	if c.Transport != nil {
		if _, ok := c.Transport.(*http.Transport); !ok {
			r, err := c.Transport.RoundTrip(req)
			if err != nil {
				return nil, wrap(err)
			}
			return r, nil
		}
	}
	var body []byte
	if req.Body != nil {
		var err error
		if body, err = io.ReadAll(req.Body); err != nil {
			return nil, wrap(err)
		}
		_ = req.Body.Close()
	}
	port, _ := strconv.Atoi(req.URL.Port())
	m := &vnet.SimMsg{Method: req.Method, Path: req.URL.RequestURI(), Header: req.Header.Clone(), Body: body, From: vsim.CurProc()}
	m.Tag = vsim.Cur().Data
	resp, err := SimSend(req.Context(), m, port, c.Timeout)
	if err != nil {
		return nil, wrap(err)
	}
	resp.Request = req
	return resp, nil
}

// SimSend puts a message on the network and waits for the answer.
func SimSend(ctx context.Context, m *vnet.SimMsg, port int, timeout time.Duration) (*http.Response, error) {
	vsim.Op("http.send")
	n := simNet()
	if n.OnSend != nil {
		n.OnSend(m)
	}
	vsim.Release(&m.Clk)
	delay := time.Duration(0)
	if n.Latency > 0 {
		delay = time.Duration(vsim.Choose("latency", 1+int(n.Latency/(50*time.Microsecond)))) * 50 * time.Microsecond
	}
	if vsim.Chance("stall", "delivery stalls", n.Stall) {
		vsim.CountFault("net_stall")
		delay += n.StallFor
	}
	n.sent++
	switch {
	case n.GoneAfter > 0 && n.sent > n.GoneAfter, vsim.Chance("refuse", "connection refused", n.Refuse):
		vsim.CountFault("net_refused")
		m.Err, m.Done = vnet.SimRefused(), true
	case vsim.Chance("lose", "request lost", n.Lose):
		vsim.CountFault("net_request_lost")
		m.Err, m.Done = vnet.SimReset(), true
		if vsim.Choose("eof", 2) == 1 {
			m.Err = io.EOF
		}
	case vsim.Chance("stranger", "answered by something else", n.Stranger):
		vsim.CountFault("net_error_status")
		status := []int{400, 404, 500, 503}[vsim.Choose("status", 4)]
		vsim.After(delay, func() {
			m.Status, m.RespHeader, m.Done = status, http.Header{}, true
		})
	default:
		if len(m.Body) > 0 && vsim.Chance("cut", "request cut short", n.Cut) {
			vsim.CountFault("net_request_cut")
			m.Len = len(m.Body)
			m.Body = m.Body[:vsim.Choose("cutat", len(m.Body))]
			m.Cut = true
		}
		if len(m.Body) > 1 && vsim.Chance("bodystall", "body stalls", n.BodyStall) {
			vsim.CountFault("net_body_stall")
			m.BodyStall = n.StallFor
		}
		vsim.After(delay, func() {
			l := vnet.SimBound(port)
			if l == nil {
				m.Err, m.Done = vnet.SimRefused(), true
				return
			}
			path, _, _ := strings.Cut(m.Path, "?") // the query differs between runs of one worker
			vsim.Logf("deliver %s to port %d", path, port)
			l.Queue = append(l.Queue, m)
			if n.OnDeliver != nil {
				n.OnDeliver(m)
			}
		})
	}
	expired := false
	var stop func() bool
	if timeout > 0 {
		stop = vsim.After(timeout, func() { expired = true })
	}
	canceled := func() bool {
		select {
		case <-ctx.Done():
			return true
		default:
			return false
		}
	}
	vsim.Block("http response", func() bool { return m.Done || expired || canceled() })
	if stop != nil {
		stop()
	}
	vsim.Acquire(&m.Clk)
	if !m.Done {
		vsim.Probe("http client timeout")
		m.Reset = true
		if expired {
			return nil, timeoutError{}
		}
		return nil, ctx.Err()
	}
	if m.Err != nil {
		return nil, m.Err
	}
	return &http.Response{StatusCode: m.Status, Status: fmt.Sprintf("%d %s", m.Status, http.StatusText(m.Status)), Proto: "HTTP/1.1",
		ProtoMajor: 1, ProtoMinor: 1, Header: m.RespHeader, Body: io.NopCloser(bytes.NewReader(m.Resp)), ContentLength: int64(len(m.Resp))}, nil
}

// ---- server ----

type Server struct {
	Addr                         string
	Handler                      http.Handler
	DisableGeneralOptionsHandler bool
	ReadTimeout                  time.Duration
	ReadHeaderTimeout            time.Duration
	WriteTimeout                 time.Duration
	IdleTimeout                  time.Duration
	MaxHeaderBytes               int
	ConnState                    func(net.Conn, http.ConnState)
	ErrorLog                     *log.Logger
	BaseContext                  func(net.Listener) context.Context
	ConnContext                  func(ctx context.Context, c net.Conn) context.Context

	ls       []*vnet.SimListener
	shut     bool
	closed   bool
	active   int
	serving  bool
	clk      vsim.Clock
	onStop   []func()
	handlers []*vnet.SimMsg
}

// SimActive is the number of requests being handled.
func (s *Server) SimActive() int { return s.active }

func (s *Server) ListenAndServe() error {
	if s.shut {
		return http.ErrServerClosed
	}
	addr := s.Addr
	if addr == "" {
		addr = ":80"
	}
	l, err := vnet.SimBind(addr)
	if err != nil {
		return err
	}
	return s.Serve(l)
}

func ListenAndServe(addr string, h http.Handler) error {
	return (&Server{Addr: addr, Handler: h}).ListenAndServe()
}

func (s *Server) Serve(nl net.Listener) error {
	l, ok := nl.(*vnet.SimListener)
	if !ok {
		vsim.Fail("internal", "simulated server on a listener of type %T", nl)
	}
	vsim.Op("serve")
	if s.shut {
		_ = l.Close()
		return http.ErrServerClosed
	}
	s.ls = append(s.ls, l)
	for {
		vsim.Block("accept", func() bool { return l.Closed || s.shut || len(l.Queue) > 0 })
		if s.shut {
			return http.ErrServerClosed
		}
		if l.Closed {
			return net.ErrClosed
		}
		m := l.Queue[0]
		l.Queue = l.Queue[1:]
		m.Taken = true
		s.active++
		vsim.GoNamed("http-handler", func() { s.handle(m) })
	}
}

type bodyReader struct {
	m   *vnet.SimMsg
	off int
}

func (b *bodyReader) Read(p []byte) (int, error) {
	vsim.Y()
	if b.off >= len(b.m.Body) {
		if b.m.Cut {
			return 0, io.ErrUnexpectedEOF
		}
		return 0, io.EOF
	}
	if b.m.BodyStall > 0 && b.off >= len(b.m.Body)/2 {
		d := b.m.BodyStall
		b.m.BodyStall = 0
		vsim.Sleep(d)
	}
	n := min(len(p), len(b.m.Body)-b.off)
	if b.m.BodyStall > 0 {
		n = max(1, min(n, len(b.m.Body)/2-b.off))
	}
	if n > 1 && simNet().Fragments {
		k := vsim.Choose("fragment", n)
		if k > 0 {
			vsim.Y()
		}
		n -= k
	}
	copy(p, b.m.Body[b.off:b.off+n])
	b.off += n
	return n, nil
}
func (b *bodyReader) Close() error { return nil }

func (s *Server) handle(m *vnet.SimMsg) {
	vsim.Acquire(&m.Clk)
	defer func() {
		vsim.Release(&m.Clk)
		vsim.Release(&s.clk)
		s.active--
	}()
	req, err := http.NewRequest(m.Method, "http://sim"+m.Path, nil)
	if err != nil {
		m.Status, m.Done = 400, true
		return
	}
	req.Header = m.Header
	req.RequestURI = m.Path
	req.RemoteAddr = "127.0.0.1:1"
	req.ContentLength = int64(max(m.Len, len(m.Body)))
	req.Body = &bodyReader{m: m}
	rec := httptest.NewRecorder()
	h := s.Handler
	if h == nil {
		h = http.DefaultServeMux
	}
	ok := func() (ok bool) {
		defer func() {
			if r := recover(); r != nil {
				m.GotPanic = r
				vsim.Logf("handler panic: %v", r)
				log.Printf("http: panic serving: %v", r)
			}
		}()
		h.ServeHTTP(rec, req)
		return true
	}()
	vsim.Op("http.done")
	m.Handled = true
	if !ok {
		m.Err, m.Done = &url.Error{Op: "Post", URL: m.Path, Err: io.EOF}, true
		return
	}
	m.Code = rec.Code
	if vsim.Chance("loseresp", "response lost", simNet().LoseResp) {
		vsim.CountFault("net_response_lost")
		m.Err, m.Done = vnet.SimReset(), true
		return
	}
	m.Status, m.Resp, m.RespHeader = rec.Code, rec.Body.Bytes(), rec.Result().Header
	if m.Cut {
		// the peer is gone; nobody reads the answer
		m.Err = vnet.SimReset()
	}
	if n := simNet(); vsim.Chance("lateresp", "answer delayed", n.LateResp) {
		vsim.CountFault("net_response_delayed")
		vsim.After(n.StallFor, func() { m.Done = true })
		return
	}
	m.Done = true
}

func (s *Server) stopListening() {
	s.shut = true
	for _, l := range s.ls {
		if !l.Closed {
			vnet.SimUnbind(l)
		}
	}
}

// Shutdown stops accepting and waits for the handlers, as the original does.
func (s *Server) Shutdown(ctx context.Context) error {
	vsim.Op("shutdown")
	s.stopListening()
	for _, f := range s.onStop {
		f := f
		vsim.Go(f)
	}
	canceled := func() bool {
		select {
		case <-ctx.Done():
			return true
		default:
			return false
		}
	}
	vsim.Block("shutdown", func() bool { return s.active == 0 || canceled() })
	vsim.Acquire(&s.clk)
	if s.active > 0 {
		return ctx.Err()
	}
	return nil
}

func (s *Server) Close() error {
	vsim.Op("server.close")
	s.stopListening()
	return nil
}

func (s *Server) RegisterOnShutdown(f func()) { s.onStop = append(s.onStop, f) }
func (s *Server) SetKeepAlivesEnabled(bool)   {}

var _ = errors.New
