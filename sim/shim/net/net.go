package net

import (
	"errors"
	real "net"
	"strconv"
	"time"

	"MODPATH/verifsim/shim/context"
	"MODPATH/verifsim/simrt"
)

type TCPConn struct{ E *simrt.Endpoint }

func (c *TCPConn) Read(b []byte) (int, error)  { return c.E.Read(b) }
func (c *TCPConn) Write(b []byte) (int, error) { return c.E.Write(b) }
func (c *TCPConn) Close() error                { return c.E.Close() }
func (c *TCPConn) CloseWrite() error           { return c.E.CloseWrite() }
func (c *TCPConn) CloseRead() error            { return nil }
func (c *TCPConn) LocalAddr() real.Addr        { return c.E.LAddr }
func (c *TCPConn) RemoteAddr() real.Addr       { return c.E.RAddr }
func (c *TCPConn) SetDeadline(t time.Time) error {
	c.SetReadDeadline(t)
	return c.SetWriteDeadline(t)
}
func (c *TCPConn) SetReadDeadline(t time.Time) error {
	simrt.ExitIfKilled()
	simrt.Y()
	if c.E.Eof() && !c.E.Open() && simrtClosed(c.E) {
		return real.ErrClosed
	}
	c.E.SetReadDeadline(simrt.Deadline(t))
	return nil
}
func simrtClosed(e *simrt.Endpoint) bool { return e.ClosedLocally() }
func (c *TCPConn) SetWriteDeadline(t time.Time) error {
	simrt.ExitIfKilled()
	simrt.Y()
	if simrtClosed(c.E) {
		return real.ErrClosed
	}
	c.E.SetWriteDeadline(simrt.Deadline(t))
	return nil
}
func (c *TCPConn) SetKeepAlive(bool) error                  { return nil }
func (c *TCPConn) SetKeepAlivePeriod(d time.Duration) error { return nil }
func (c *TCPConn) SetNoDelay(bool) error                    { return nil }
func (c *TCPConn) SetLinger(int) error                      { return nil }
func (c *TCPConn) SetReadBuffer(int) error                  { return nil }
func (c *TCPConn) SetWriteBuffer(int) error                 { return nil }

type TCPListener struct {
	L *simrt.Listener
	a *real.TCPAddr
}

func (l *TCPListener) AcceptTCP() (*TCPConn, error) {
	e, err := l.L.Accept()
	if err != nil {
		return nil, err
	}
	return &TCPConn{e}, nil
}
func (l *TCPListener) Accept() (real.Conn, error) {
	c, err := l.AcceptTCP()
	if err != nil {
		return nil, err
	}
	return c, nil
}
func (l *TCPListener) Close() error    { simrt.ExitIfKilled(); simrt.Y(); return l.L.Close() }
func (l *TCPListener) Addr() real.Addr { return l.a }
func (l *TCPListener) SetDeadline(t time.Time) error {
	l.L.SetDeadline(simrt.Deadline(t))
	return nil
}

func resolve(addr string) (string, int, error) {
	h, p, err := real.SplitHostPort(addr)
	if err != nil {
		return "", 0, err
	}
	port := 0
	if p != "" {
		port, err = strconv.Atoi(p)
		if err != nil || port < 0 || port > 65535 {
			return "", 0, &real.AddrError{Err: "unknown port", Addr: addr}
		}
	}
	ip, ok := simrt.Lookup(h)
	if !ok {
		return "", 0, &real.DNSError{Err: "no such host", Name: h, IsNotFound: true}
	}
	return ip, port, nil
}

func ResolveTCPAddr(network, addr string) (*real.TCPAddr, error) {
	simrt.ExitIfKilled()
	simrt.Y()
	switch network {
	case "tcp", "tcp4", "tcp6", "":
	default:
		return nil, real.UnknownNetworkError(network)
	}
	ip, port, err := resolve(addr)
	if err != nil {
		return nil, err
	}
	pip := real.ParseIP(ip)
	if pip == nil {
		return nil, &real.AddrError{Err: "bad address", Addr: addr}
	}
	return &real.TCPAddr{IP: pip, Port: port}, nil
}

func dial(addr string, d time.Duration) (*TCPConn, error) {
	ip, port, err := resolve(addr)
	if err != nil {
		return nil, &real.OpError{Op: "dial", Net: "tcp", Err: err}
	}
	e, err := simrt.Dial(ip, port, d)
	if err != nil {
		return nil, err
	}
	return &TCPConn{e}, nil
}

func DialTCP(network string, laddr, raddr *real.TCPAddr) (*TCPConn, error) {
	if raddr == nil {
		return nil, &real.OpError{Op: "dial", Net: network, Err: errors.New("missing address")}
	}
	return dial(raddr.String(), 0)
}
func Dial(network, addr string) (real.Conn, error) {
	c, err := dial(addr, 0)
	if err != nil {
		return nil, err
	}
	return c, nil
}
func DialTimeout(network, addr string, d time.Duration) (real.Conn, error) {
	c, err := dial(addr, d)
	if err != nil {
		return nil, err
	}
	return c, nil
}

type Dialer struct {
	Timeout   time.Duration
	Deadline  time.Time
	KeepAlive time.Duration
	LocalAddr real.Addr
}

func (d *Dialer) Dial(network, addr string) (real.Conn, error) {
	return DialTimeout(network, addr, d.Timeout)
}
func (d *Dialer) DialContext(ctx context.Context, network, addr string) (real.Conn, error) {
	t := d.Timeout
	if dl, ok := ctx.Deadline(); ok {
		if left := time.Until(dl); t == 0 || left < t {
			t = left
		}
	}
	if err := ctx.Err(); err != nil {
		return nil, &real.OpError{Op: "dial", Net: network, Err: err}
	}
	return DialTimeout(network, addr, t)
}

type ListenConfig struct{ KeepAlive time.Duration }

func (lc *ListenConfig) Listen(ctx context.Context, network, addr string) (real.Listener, error) {
	return Listen(network, addr)
}

func ListenTCP(network string, a *real.TCPAddr) (*TCPListener, error) {
	port := 0
	if a != nil {
		port = a.Port
	}
	l, err := simrt.Listen(port)
	if err != nil {
		return nil, err
	}
	return &TCPListener{l, &real.TCPAddr{IP: real.ParseIP(simrt.Cur().Host.IP), Port: l.Port}}, nil
}
func Listen(network, addr string) (real.Listener, error) {
	a, err := ResolveTCPAddr(network, addr)
	if err != nil {
		return nil, err
	}
	l, err := ListenTCP(network, a)
	if err != nil {
		return nil, err
	}
	return l, nil
}
func LookupHost(h string) ([]string, error) {
	ip, ok := simrt.Lookup(h)
	if !ok {
		return nil, &real.DNSError{Err: "no such host", Name: h, IsNotFound: true}
	}
	return []string{ip}, nil
}
