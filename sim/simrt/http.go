package simrt

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/url"
	"os"
	"runtime/debug"
	"strconv"
	"strings"
	"syscall"
	"time"
)

// HTTP is simulated at the level of requests and responses: a request reaches
// the server process after a network delay, a task of that process runs the
// registered handler, and the response travels back. Requests or responses can
// be lost (the client sees a broken connection).

// HTTPServer is a serving process's registration.
type HTTPServer struct {
	proc    *Proc
	handler http.Handler
	ls      *Listener
	closed  bool
	wait    []waiter
}

// HTTPResult is what the client saw.
type HTTPResult struct {
	Code   int
	Header http.Header
	Body   []byte
	Err    error
	Start  int64
	End    int64
	// what the server did, whatever the client saw
	Served bool
	SCode  int
	SBody  []byte
}

type httpRec struct {
	hdr   http.Header
	code  int
	body  bytes.Buffer
	wrote bool
}

func (r *httpRec) Header() http.Header { return r.hdr }
func (r *httpRec) WriteHeader(c int) {
	Y()
	if !r.wrote {
		r.wrote = true
		r.code = c
	}
}
func (r *httpRec) Write(b []byte) (int, error) {
	Y()
	if !r.wrote {
		r.WriteHeader(200)
	}
	return r.body.Write(b)
}
func (r *httpRec) Flush() {}

func httpServers(h *Host) map[int]*HTTPServer {
	m, ok := W.Values["http:"+h.IP].(map[int]*HTTPServer)
	if !ok {
		m = map[int]*HTTPServer{}
		W.Values["http:"+h.IP] = m
	}
	return m
}

// HTTPServe serves until closed; it blocks like http.ListenAndServe.
func HTTPServe(addr string, handler http.Handler, reg func(*HTTPServer)) error {
	ExitIfKilled()
	_, ps, err := net.SplitHostPort(addr)
	if err != nil {
		return &net.OpError{Op: "listen", Net: "tcp", Err: err}
	}
	port := 80
	if ps != "" && ps != "http" {
		port, err = strconv.Atoi(ps)
		if err != nil {
			return &net.OpError{Op: "listen", Net: "tcp", Err: err}
		}
	}
	p := Cur()
	l, err := Listen(port)
	if err != nil {
		return err
	}
	s := &HTTPServer{proc: p, handler: handler, ls: l}
	if reg != nil {
		reg(s)
	}
	httpServers(p.Host)[l.Port] = s
	for !s.closed {
		s.wait = append(s.wait, W.newWait())
		W.park("http serve")
	}
	return http.ErrServerClosed
}

// Shut stops the server.
func (s *HTTPServer) Shut() {
	s.closed = true
	s.ls.Close()
	for _, x := range s.wait {
		W.wakeup(x)
	}
	s.wait = nil
}

var errEOF = errors.New("EOF")

// HTTPCall performs one request from host h. Faults on the way follow the
// options in f.
func (w *World) HTTPCall(h *Host, p *Proc, method, rawURL, ctype string, hdr http.Header, body []byte, timeout time.Duration, f HTTPFault) HTTPResult {
	ExitIfKilled()
	res := HTTPResult{Start: w.Now()}
	fail := func(err error) HTTPResult {
		res.Err = &url.Error{Op: method[:1] + strings.ToLower(method[1:]), URL: rawURL, Err: err}
		res.End = w.Now()
		return res
	}
	u, err := url.Parse(rawURL)
	if err != nil {
		return fail(err)
	}
	if u.Scheme != "http" && u.Scheme != "https" {
		return fail(fmt.Errorf("unsupported protocol scheme %q", u.Scheme))
	}
	port := 80
	if ps := u.Port(); ps != "" {
		port, _ = strconv.Atoi(ps)
	}
	ip, ok := Lookup(u.Hostname())
	if !ok {
		return fail(&net.OpError{Op: "dial", Net: "tcp", Err: errors.New("lookup " + u.Hostname() + ": no such host")})
	}
	lim := int64(timeout)
	if lim == 0 {
		lim = dialLimit
	}
	deadline := w.now + lim
	tgt := w.Hosts[ip]
	l := w.lk(h.IP, ip)
	self := ip == h.IP
	travel := func() bool { // one way; false when the peer cannot be reached in time
		for {
			d := w.latency(l)
			if self {
				d = 20_000
			}
			if tgt != nil && !tgt.Down && (!l.cut || self) {
				Sleep(time.Duration(d))
				if !l.cut || self {
					return !tgt.Down
				}
			}
			if w.now+int64(time.Second) > deadline {
				if deadline > w.now {
					Sleep(time.Duration(deadline - w.now))
				}
				return false
			}
			Sleep(time.Second)
		}
	}
	if !travel() {
		return fail(&net.OpError{Op: "dial", Net: "tcp", Err: os.NewSyscallError("connect", syscall.ETIMEDOUT)})
	}
	s := httpServers(tgt)[port]
	if s == nil || s.closed || s.proc.Dead {
		return fail(&net.OpError{Op: "dial", Net: "tcp", Err: os.NewSyscallError("connect", syscall.ECONNREFUSED)})
	}
	if f.LoseRequest {
		w.Fault("http-request-lost")
		return fail(errEOF)
	}
	if f.Refuse {
		w.Fault("http-connection-refused")
		return fail(&net.OpError{Op: "dial", Net: "tcp", Err: os.NewSyscallError("connect", syscall.ECONNREFUSED)})
	}
	if f.Code != 0 && !f.After {
		w.Fault("http-error-status")
		if !travel() {
			return fail(fmt.Errorf("timeout awaiting response: %w", os.ErrDeadlineExceeded))
		}
		res.Code, res.Header, res.Body, res.End = f.Code, http.Header{}, []byte(http.StatusText(f.Code)+"\n"), w.Now()
		return res
	}
	req, err := http.NewRequest(method, rawURL, bytes.NewReader(body))
	if err != nil {
		return fail(err)
	}
	req.RequestURI = u.RequestURI()
	if hdr != nil {
		req.Header = hdr.Clone()
	}
	if ctype != "" {
		req.Header.Set("Content-Type", ctype)
	}
	req.RemoteAddr = h.IP + ":40000"
	req.Host = u.Host
	req.URL.Scheme, req.URL.Host = "", ""
	rec := &httpRec{hdr: http.Header{}, code: 200}
	x := w.newWait()
	done, aborted := false, false
	sp := s.proc
	hd := s.handler
	w.spawn(sp, "http", func() {
		served := false
		defer func() {
			r := recover()
			if r == nil && !served {
				return // the process was killed
			}
			if r != nil {
				if w.cur.killed {
					panic(r)
				}
				aborted = true
				if r != http.ErrAbortHandler {
					sp.WriteOut([]byte(fmt.Sprintf("http: panic serving: %v %s\n", r, trimStack(debug.Stack()))))
				}
			}
			done = true
			w.wakeup(x)
		}()
		hd.ServeHTTP(rec, req)
		served = true
	})
	sp.waiters = append(sp.waiters, x)
	if timeout > 0 {
		w.At(deadline, func() { w.wakeup(x) })
	}
	w.park("http call")
	if !done {
		if sp.Dead {
			return fail(errEOF)
		}
		return fail(fmt.Errorf("Client.Timeout exceeded while awaiting headers: %w", os.ErrDeadlineExceeded))
	}
	if aborted {
		res.Code = -1
		return fail(errEOF)
	}
	res.Served, res.SCode, res.SBody = true, rec.code, rec.body.Bytes()
	if f.LoseResponse {
		w.Fault("http-response-lost")
		travel()
		return fail(errEOF)
	}
	if !travel() {
		return fail(fmt.Errorf("timeout awaiting response: %w", os.ErrDeadlineExceeded))
	}
	res.Code = rec.code
	res.Header = rec.hdr
	if f.Code != 0 {
		w.Fault("http-error-status")
		res.Code, res.Body, res.End = f.Code, []byte(http.StatusText(f.Code)+"\n"), w.Now()
		return res
	}
	res.Body = rec.body.Bytes()
	res.End = w.Now()
	return res
}

// HTTPFault selects what happens to one request.
type HTTPFault struct {
	LoseRequest, LoseResponse bool
	Refuse                    bool
	Code                      int  // an error status instead of the answer
	After                     bool // after the request was served
	Cut                       int  // the body ends early, n-1 percent in
}

// cutBody ends early, as a connection lost during the answer.
type cutBody struct{ r io.Reader }

func (c cutBody) Read(b []byte) (int, error) {
	n, err := c.r.Read(b)
	if err == io.EOF {
		err = io.ErrUnexpectedEOF
	}
	return n, err
}

// ProcHTTP is used by the client shim in simulated processes. It follows
// redirects of GET requests, as the standard client does.
func ProcHTTP(method, rawURL, ctype string, hdr http.Header, body io.Reader, timeout time.Duration) (*http.Response, error) {
	var b []byte
	if body != nil {
		b, _ = io.ReadAll(body)
	}
	p := Cur()
	for hops := 0; ; hops++ {
		var f HTTPFault
		if fn, ok := W.Values["httpfault"].(func(p *Proc, method, url string, body []byte) HTTPFault); ok {
			f = fn(p, method, rawURL, b)
		}
		r := W.HTTPCall(p.Host, p, method, rawURL, ctype, hdr, b, timeout, f)
		if fn, ok := W.Values["httpseen"].(func(p *Proc, method, url string, body []byte, r *HTTPResult)); ok {
			fn(p, method, rawURL, b, &r)
		}
		if r.Err != nil {
			return nil, r.Err
		}
		if method == "GET" && (r.Code >= 301 && r.Code <= 303 || r.Code == 307 || r.Code == 308) {
			loc := r.Header.Get("Location")
			var err error
			if loc == "" {
				err = fmt.Errorf("%d response missing Location header", r.Code)
			} else if hops == 9 {
				err = errors.New("stopped after 10 redirects")
			}
			u, e1 := url.Parse(rawURL)
			n, e2 := url.Parse(loc)
			if err == nil && (e1 != nil || e2 != nil) {
				err = errors.New("failed to parse Location header")
			}
			if err != nil {
				return nil, &url.Error{Op: "Get", URL: rawURL, Err: err}
			}
			rawURL = u.ResolveReference(n).String()
			continue
		}
		var rd io.Reader = bytes.NewReader(r.Body)
		if f.Cut > 0 {
			W.Fault("http-body-cut")
			rd = cutBody{bytes.NewReader(r.Body[:len(r.Body)*(f.Cut-1)/100])}
		}
		return &http.Response{
			Status: fmt.Sprintf("%d %s", r.Code, http.StatusText(r.Code)), StatusCode: r.Code, Proto: "HTTP/1.1",
			ProtoMajor: 1, ProtoMinor: 1, Header: r.Header, Body: io.NopCloser(rd), ContentLength: int64(len(r.Body)),
		}, nil
	}
}

// HTTPUp tells whether something serves HTTP at a port.
func (w *World) HTTPUp(h *Host, port int) bool {
	s := httpServers(h)[port]
	return s != nil && !s.closed && !s.proc.Dead
}
