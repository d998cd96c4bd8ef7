package http

import (
	"io"
	"log"
	"net"
	real "net/http"
	"net/url"
	"strings"
	"time"

	"MODPATH/verifsim/shim/context"
	"MODPATH/verifsim/simrt"
)

func mux() *real.ServeMux { return simrt.Val("http.mux", real.NewServeMux) }

func HandleFunc(pattern string, h func(real.ResponseWriter, *real.Request)) {
	simrt.ExitIfKilled()
	mux().HandleFunc(pattern, h)
}
func Handle(pattern string, h real.Handler) { simrt.ExitIfKilled(); mux().Handle(pattern, h) }

func ListenAndServe(addr string, h real.Handler) error {
	if h == nil {
		h = mux()
	}
	return simrt.HTTPServe(addr, h, nil)
}

type Server struct {
	Addr                                                      string
	Handler                                                   real.Handler
	ReadTimeout, WriteTimeout, IdleTimeout, ReadHeaderTimeout time.Duration
	MaxHeaderBytes                                            int
	ErrorLog                                                  *log.Logger
	s                                                         *simrt.HTTPServer
}

func (s *Server) ListenAndServe() error {
	h := s.Handler
	if h == nil {
		h = mux()
	}
	return simrt.HTTPServe(s.Addr, h, func(x *simrt.HTTPServer) { s.s = x })
}
func (s *Server) Close() error {
	if s.s != nil {
		s.s.Shut()
	}
	return nil
}

func (s *Server) Shutdown(context.Context) error { return s.Close() }
func (s *Server) RegisterOnShutdown(func())      {}
func (s *Server) SetKeepAlivesEnabled(bool)      {}
func (s *Server) Serve(l net.Listener) error {
	s.Addr = l.Addr().String()
	l.Close()
	return s.ListenAndServe()
}
func Serve(l net.Listener, h real.Handler) error { return (&Server{Handler: h}).Serve(l) }

func NewRequestWithContext(ctx context.Context, method, u string, body io.Reader) (*real.Request, error) {
	if err := ctx.Err(); err != nil {
		return nil, err
	}
	return real.NewRequest(method, u, body)
}

func Error(w real.ResponseWriter, msg string, code int) { real.Error(w, msg, code) }

func TimeoutHandler(h real.Handler, d time.Duration, msg string) real.Handler { return h }

type Client struct {
	Timeout       time.Duration
	Transport     real.RoundTripper
	CheckRedirect func(*real.Request, []*real.Request) error
	Jar           real.CookieJar
}

func (c *Client) CloseIdleConnections() {}

var DefaultClient = &Client{}

func (c *Client) Get(u string) (*real.Response, error) {
	return simrt.ProcHTTP("GET", u, "", nil, nil, c.Timeout)
}
func (c *Client) Post(u, ct string, body io.Reader) (*real.Response, error) {
	return simrt.ProcHTTP("POST", u, ct, nil, body, c.Timeout)
}
func (c *Client) PostForm(u string, v url.Values) (*real.Response, error) {
	return c.Post(u, "application/x-www-form-urlencoded", strings.NewReader(v.Encode()))
}
func (c *Client) Head(u string) (*real.Response, error) {
	return simrt.ProcHTTP("HEAD", u, "", nil, nil, c.Timeout)
}
func (c *Client) Do(r *real.Request) (*real.Response, error) {
	return simrt.ProcHTTP(r.Method, r.URL.String(), "", r.Header, r.Body, c.Timeout)
}
func Get(u string) (*real.Response, error)  { return DefaultClient.Get(u) }
func Head(u string) (*real.Response, error) { return DefaultClient.Head(u) }
func Post(u, ct string, body io.Reader) (*real.Response, error) {
	return DefaultClient.Post(u, ct, body)
}
func PostForm(u string, v url.Values) (*real.Response, error) { return DefaultClient.PostForm(u, v) }
