// Package http is the simulated net/http client; servers are models registered
// with the simulation.
package http

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"net/url"
	"strings"
	"time"

	stdtls "crypto/tls"
	stdnet "net"
	std "net/http"

	"github.com/iomz/gosstrak/verif/simrt"
)

// Transport mirrors the fields of http.Transport that programs set.
type Transport struct {
	Proxy                 func(*Request) (*url.URL, error)
	DialContext           func(ctx context.Context, network, addr string) (stdnet.Conn, error)
	Dial                  func(network, addr string) (stdnet.Conn, error)
	DialTLS               func(network, addr string) (stdnet.Conn, error)
	DialTLSContext        func(ctx context.Context, network, addr string) (stdnet.Conn, error)
	TLSClientConfig       *stdtls.Config
	TLSHandshakeTimeout   time.Duration
	DisableKeepAlives     bool
	DisableCompression    bool
	MaxIdleConns          int
	MaxIdleConnsPerHost   int
	MaxConnsPerHost       int
	IdleConnTimeout       time.Duration
	ResponseHeaderTimeout time.Duration
	ExpectContinueTimeout time.Duration
	TLSNextProto          map[string]func(authority string, c *stdtls.Conn) RoundTripper
	ProxyConnectHeader    Header
	MaxResponseHeaderBytes int64
	WriteBufferSize       int
	ReadBufferSize        int
	ForceAttemptHTTP2     bool
	kept                  bool // has a connection for the next request
}

func (t *Transport) CloseIdleConnections() {
	if t.kept {
		t.kept = false
		simrt.HTTP().Idle--
	}
}
func (t *Transport) Clone() *Transport { c := *t; c.kept = false; return &c }

var DefaultTransport RoundTripper = &Transport{}

type timeoutError struct{ s string }

func (e timeoutError) Error() string   { return e.s }
func (e timeoutError) Timeout() bool   { return true }
func (e timeoutError) Temporary() bool { return true }

// wait sleeps until d ns have passed or the request is given up.
func wait(ctx context.Context, deadline int64, d int64) error {
	if deadline > 0 && (d < 0 || simrt.NowNS()+d > deadline) {
		left := deadline - simrt.NowNS()
		if left > 0 {
			if err := sleepCtx(ctx, left); err != nil {
				return err
			}
		}
		return timeoutError{"net/http: request canceled (Client.Timeout exceeded while awaiting headers)"}
	}
	return sleepCtx(ctx, d)
}

func sleepCtx(ctx context.Context, d int64) error {
	if err := ctx.Err(); err != nil {
		return err
	}
	if ctx.Done() == nil && d >= 0 {
		simrt.Sleep(d)
		return nil
	}
	sel := simrt.NewSelect(false)
	simrt.SelRecv(sel, ctx.Done())
	if d >= 0 {
		t := make(chan time.Time, 1)
		cancel := simrt.After(d, func() { simrt.TrySend(t, time.Time{}) })
		defer cancel()
		simrt.SelRecv(sel, t)
	}
	if sel.Do() == 0 {
		return ctx.Err()
	}
	return nil
}

type body struct {
	r        *bytes.Reader
	hang     bool
	deadline int64
	ctx      context.Context
	over     bool
}

func (b *body) Read(p []byte) (int, error) {
	if b.r.Len() > 0 {
		return b.r.Read(p)
	}
	if b.hang && !b.over {
		err := wait(b.ctx, b.deadline, -1)
		b.end()
		return 0, err
	}
	b.end()
	return 0, io.EOF
}

func (b *body) Close() error {
	b.end()
	return nil
}

// end gives the connection of a response back.
func (b *body) end() {
	if !b.over {
		b.over = true
		simrt.HTTP().Open--
	}
}

func (t *Transport) roundTrip(req *Request, deadline int64) (*Response, error) {
	w := simrt.HTTP()
	var data []byte
	if req.Body != nil {
		var err error
		data, err = io.ReadAll(req.Body)
		req.Body.Close()
		if err != nil {
			return nil, err
		}
	}
	if t.ResponseHeaderTimeout > 0 {
		if dl := simrt.NowNS() + int64(t.ResponseHeaderTimeout); deadline == 0 || dl < deadline {
			deadline = dl
		}
	}
	w.Reqs++
	w.Busy++
	defer func() { w.Busy-- }()
	host := simrt.HostOf(req.URL.Host)
	h := w.Servers[host]
	if h == nil {
		simrt.Enter("http")
		return nil, &stdnet.OpError{Op: "dial", Net: "tcp", Err: errors.New("connect: connection refused")}
	}
	simrt.Enter("http")
	r := h(&simrt.HTTPReq{Method: req.Method, Host: host, Path: req.URL.Path, Query: req.URL.RawQuery, Header: req.Header, Body: data, Ctype: req.Header.Get("Content-Type"), At: simrt.NowNS()})
	if r.Hang {
		return nil, wait(req.Context(), deadline, -1)
	}
	if err := wait(req.Context(), deadline, r.Delay); err != nil {
		return nil, err
	}
	if r.Err != nil {
		return nil, r.Err
	}
	resp := &Response{Status: fmt.Sprintf("%d %s", r.Status, std.StatusText(r.Status)), StatusCode: r.Status, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: Header{}, Request: req, ContentLength: int64(len(r.Body))}
	if r.Header != nil {
		for k, v := range r.Header {
			resp.Header.Set(k, v)
		}
	}
	w.Open++
	b := &body{r: bytes.NewReader(r.Body), hang: r.BodyHang, deadline: deadline, ctx: req.Context()}
	if len(r.Body) == 0 && !r.BodyHang {
		b.end()
	}
	resp.Body = b
	if !t.kept && !t.DisableKeepAlives && t.IdleConnTimeout == 0 {
		t.kept = true
		w.Idle++
	}
	return resp, nil
}

func (t *Transport) RoundTrip(req *Request) (*Response, error) { return t.roundTrip(req, 0) }

// Client mirrors http.Client.
type Client struct {
	Transport     RoundTripper
	CheckRedirect func(req *Request, via []*Request) error
	Jar           CookieJar
	Timeout       time.Duration
}

var DefaultClient = &Client{}

func (c *Client) Do(req *Request) (*Response, error) {
	rt := c.Transport
	if rt == nil {
		rt = DefaultTransport
	}
	var dl int64
	if c.Timeout > 0 {
		dl = simrt.NowNS() + int64(c.Timeout)
	}
	var resp *Response
	var err error
	if t, ok := rt.(*Transport); ok {
		resp, err = t.roundTrip(req, dl)
	} else {
		resp, err = rt.RoundTrip(req)
	}
	if err != nil {
		m := req.Method
		if m == "" {
			m = "GET"
		}
		return nil, &url.Error{Op: m[:1] + strings.ToLower(m[1:]), URL: req.URL.String(), Err: err}
	}
	return resp, nil
}

func (c *Client) CloseIdleConnections() {}

func (c *Client) Get(u string) (*Response, error) {
	req, err := std.NewRequest("GET", u, nil)
	if err != nil {
		return nil, err
	}
	return c.Do(req)
}

func (c *Client) Head(u string) (*Response, error) {
	req, err := std.NewRequest("HEAD", u, nil)
	if err != nil {
		return nil, err
	}
	return c.Do(req)
}

func (c *Client) Post(u, ct string, b io.Reader) (*Response, error) {
	req, err := std.NewRequest("POST", u, b)
	if err != nil {
		return nil, err
	}
	req.Header.Set("Content-Type", ct)
	return c.Do(req)
}

func (c *Client) PostForm(u string, data url.Values) (*Response, error) {
	return c.Post(u, "application/x-www-form-urlencoded", strings.NewReader(data.Encode()))
}

func Get(u string) (*Response, error)                          { return DefaultClient.Get(u) }
func Head(u string) (*Response, error)                         { return DefaultClient.Head(u) }
func Post(u, ct string, b io.Reader) (*Response, error)        { return DefaultClient.Post(u, ct, b) }
func PostForm(u string, data url.Values) (*Response, error)    { return DefaultClient.PostForm(u, data) }
