package simrt

import (
	"io"
	"net"
	"os"
	"syscall"
	"time"
)

// Simulated TCP: ordered reliable byte streams over links that can delay,
// stall, partition and reset. Bytes already accepted are delivered in order
// and unaltered, as TCP does; loss shows as delay or as a reset.

const (
	tcpGiveUp = 150 * int64(time.Second)
	dialLimit = 127 * int64(time.Second)
	sndWindow = 256 << 10
)

type link struct {
	cut      bool
	cutAt    int64
	extra    int64 // extra one-way latency ns
	eps      map[*Endpoint]struct{}
	lossPct  int // percent of segments that need retransmission (delay)
	asymFrom string
}

// Endpoint is one side of a TCP connection.
type Endpoint struct {
	id           int
	proc         *Proc
	host         *Host
	LAddr, RAddr *net.TCPAddr
	peer         *Endpoint
	rbuf         []byte
	eof          bool
	rerr         error
	errSeen      bool // the pending error was reported once
	closed       bool // closed locally
	dead         bool // reset or vanished
	rdl, wdl     int64
	rdlGen       int
	rw, ww       []waiter
	inflight     int   // bytes sent by this side, not yet in peer's rbuf
	lastArr      int64 // last arrival time scheduled towards the peer
	outq         []seg // segments on their way, oldest first
	held         int   // how many of them wait for a cut link
	finSent      bool
	Sent, Recvd  int64
	Raw          bool
	OpenedAt     int64
	ClosedAt     int64
	silent       bool
	onData       func()
	Tag          any // for the harness
}

type seg struct {
	data []byte
	fin  bool
	rst  bool
}

// Listener is a listening TCP socket.
type Listener struct {
	proc   *Proc
	host   *Host
	Port   int
	queue  []*Endpoint
	wait   []waiter
	closed bool
	dl     int64
}

func (w *World) lk(a, b string) *link {
	if a > b {
		a, b = b, a
	}
	k := [2]string{a, b}
	l := w.links[k]
	if l == nil {
		l = &link{eps: map[*Endpoint]struct{}{}}
		w.links[k] = l
	}
	return l
}

// Cut partitions two hosts.
func (w *World) Cut(a, b *Host) {
	l := w.lk(a.IP, b.IP)
	if !l.cut {
		l.cut = true
		l.cutAt = w.now
		w.Fault("partition-link")
		at := w.now
		w.At(at+tcpGiveUp, func() {
			// keep-alive probes went unanswered
			if l.cut && l.cutAt == at {
				for _, e := range sortEps(l.eps) {
					if !e.dead && e.host != e.peer.host {
						w.Fault("tcp-timeout")
						e.die(os.NewSyscallError("read", syscall.ETIMEDOUT))
					}
				}
			}
		})
	}
}

// Heal ends a partition.
func (w *World) Heal(a, b *Host) {
	l := w.lk(a.IP, b.IP)
	if l.cut {
		l.cut = false
		w.Fault("heal-link")
		for _, e := range sortEps(l.eps) {
			e.flushHeld()
		}
	}
}

// SetLatency sets extra one-way latency of a link.
func (w *World) SetLatency(a, b *Host, d time.Duration) {
	w.lk(a.IP, b.IP).extra = int64(d)
	if d > 0 {
		w.Fault("link-slow")
	}
}

// SetLoss sets the share of segments that need retransmission.
func (w *World) SetLoss(a, b *Host, pct int) {
	w.lk(a.IP, b.IP).lossPct = pct
	if pct > 0 {
		w.Fault("link-lossy")
	}
}

// HealAll ends all network faults.
func (w *World) HealAll() {
	for i, a := range w.HostList {
		for _, b := range w.HostList[i+1:] {
			w.Heal(a, b)
			l := w.lk(a.IP, b.IP)
			l.extra, l.lossPct = 0, 0
		}
	}
}

func sortEps(m map[*Endpoint]struct{}) []*Endpoint {
	var es []*Endpoint
	for e := range m {
		es = append(es, e)
	}
	for i := 1; i < len(es); i++ {
		for j := i; j > 0 && es[j].id < es[j-1].id; j-- {
			es[j], es[j-1] = es[j-1], es[j]
		}
	}
	return es
}

// Conns lists the live connections between two hosts (one endpoint each).
func (w *World) Conns(a, b *Host) []*Endpoint {
	var out []*Endpoint
	for _, e := range sortEps(w.lk(a.IP, b.IP).eps) {
		if !e.dead && e.host == a {
			out = append(out, e)
		}
	}
	return out
}

// ResetConns resets every connection between two hosts.
func (w *World) ResetConns(a, b *Host) int {
	n := 0
	for _, e := range sortEps(w.lk(a.IP, b.IP).eps) {
		if !e.dead {
			e.reset(syscall.ECONNRESET)
			n++
		}
	}
	w.FaultN("conn-reset", n)
	return n
}

func (e *Endpoint) Proc() *Proc     { return e.proc }
func (e *Endpoint) Host() *Host     { return e.host }
func (e *Endpoint) Peer() *Endpoint { return e.peer }
func (e *Endpoint) Open() bool      { return !e.closed && !e.dead }

// Endpoints lists the open sockets of a process, oldest first.
func (p *Proc) Endpoints() []*Endpoint { return sortEps(p.eps) }

func (w *World) latency(l *link) int64 {
	d := w.Opt.NetBase + l.extra
	if w.Opt.NetJitter > 0 || l.lossPct > 0 {
		v := w.D.net.choose(func(r *RNG) uint32 {
			var x uint64
			if w.Opt.NetJitter > 0 {
				// skewed: mostly short
				j := uint64(w.Opt.NetJitter / 1000)
				x = r.Intn(j + 1)
				if r.N(4) > 0 {
					x /= 16
				}
			}
			if l.lossPct > 0 && r.N(100) < l.lossPct {
				x += 200_000 << uint(r.N(5)) // retransmission timeouts
			}
			return uint32(x)
		})
		if l.lossPct > 0 && v >= 200_000 {
			w.Fault("segment-lost-retransmitted")
		}
		d += int64(v) * 1000
	}
	return d
}

func (w *World) newEp(h *Host, p *Proc) *Endpoint {
	w.evSeq++
	e := &Endpoint{id: int(w.evSeq), host: h, proc: p, OpenedAt: w.now - Epoch}
	if p != nil {
		p.eps[e] = struct{}{}
	}
	return e
}

// netDial connects; timeout 0 means the system's.
func netDial(h *Host, p *Proc, ip string, port int, timeout int64) (*Endpoint, error) {
	ExitIfKilled()
	w := W
	limit := dialLimit
	if timeout > 0 && timeout < limit {
		limit = timeout
	}
	start := w.now
	target := w.Hosts[ip]
	w.nextPort[h.IP]++
	lp := 32768 + w.nextPort[h.IP]%28000
	la := &net.TCPAddr{IP: net.ParseIP(h.IP), Port: lp}
	ra := &net.TCPAddr{IP: net.ParseIP(ip), Port: port}
	operr := func(e error) error {
		return &net.OpError{Op: "dial", Net: "tcp", Addr: ra, Err: e}
	}
	tmo := func() error {
		if timeout > 0 {
			return operr(os.ErrDeadlineExceeded)
		}
		return operr(os.NewSyscallError("connect", syscall.ETIMEDOUT))
	}
	l := w.lk(h.IP, ip)
	if p != nil && h.DialErrs > 0 {
		h.DialErrs--
		w.Fault("dial-error")
		return nil, operr(os.NewSyscallError("socket", syscall.EMFILE))
	}
	for {
		self := h.IP == ip
		if target != nil && !target.Down && (!l.cut || self) {
			lat := w.latency(l)
			if self {
				lat = 20_000
			}
			Sleep(time.Duration(2 * lat))
			if w.now-start >= limit {
				return nil, tmo()
			}
			if l.cut && !self {
				continue
			}
			ls := target.lst[port]
			if target.Down {
				continue
			}
			if ls == nil || ls.closed || len(ls.queue) >= 128 {
				return nil, operr(os.NewSyscallError("connect", syscall.ECONNREFUSED))
			}
			a := w.newEp(h, p)
			b := w.newEp(target, ls.proc)
			a.LAddr, a.RAddr = la, ra
			b.LAddr, b.RAddr = ra, la
			a.peer, b.peer = b, a
			l.eps[a] = struct{}{}
			l.eps[b] = struct{}{}
			ls.queue = append(ls.queue, b)
			for _, x := range ls.wait {
				w.wakeup(x)
			}
			ls.wait = nil
			return a, nil
		}
		// SYN lost: retry with backoff
		el := w.now - start
		wait := int64(time.Second)
		for wait < el {
			wait *= 2
		}
		if el+wait > limit {
			wait = limit - el
		}
		if wait <= 0 {
			return nil, tmo()
		}
		Sleep(time.Duration(wait))
		if w.now-start >= limit {
			return nil, tmo()
		}
	}
}

// Dial connects from the current process.
func Dial(ip string, port int, timeout time.Duration) (*Endpoint, error) {
	p := Cur()
	return netDial(p.Host, p, ip, port, int64(timeout))
}

// HDial connects from a harness host.
func (w *World) HDial(h *Host, ip string, port int, timeout time.Duration) (*Endpoint, error) {
	return netDial(h, nil, ip, port, int64(timeout))
}

// Listen opens a listening socket in the current process.
func Listen(port int) (*Listener, error) {
	ExitIfKilled()
	Y()
	p := Cur()
	return listenOn(p.Host, p, port)
}

// HListen opens a listening socket for the harness.
func (w *World) HListen(h *Host, port int) (*Listener, error) { return listenOn(h, nil, port) }

func listenOn(h *Host, p *Proc, port int) (*Listener, error) {
	if port == 0 {
		port = 40000
		for h.lst[port] != nil {
			port++
		}
	}
	if h.lst[port] != nil {
		return nil, &net.OpError{Op: "listen", Net: "tcp", Err: os.NewSyscallError("bind", syscall.EADDRINUSE)}
	}
	l := &Listener{proc: p, host: h, Port: port}
	h.lst[port] = l
	if p != nil {
		p.lsts = append(p.lsts, l)
	}
	return l, nil
}

// Accept waits for a connection.
func (l *Listener) Accept() (*Endpoint, error) {
	ExitIfKilled()
	Y()
	w := W
	for {
		if l.closed {
			return nil, &net.OpError{Op: "accept", Net: "tcp", Err: net.ErrClosed}
		}
		if len(l.queue) > 0 && l.proc != nil && l.host.AcceptErrs > 0 {
			l.host.AcceptErrs--
			w.Fault("accept-error")
			Sleep(10_000)
			return nil, &net.OpError{Op: "accept", Net: "tcp", Err: os.NewSyscallError("accept4", syscall.EMFILE)}
		}
		if len(l.queue) > 0 {
			e := l.queue[0]
			l.queue = l.queue[1:]
			return e, nil
		}
		if l.dl > 0 && w.now >= l.dl {
			return nil, &net.OpError{Op: "accept", Net: "tcp", Err: os.ErrDeadlineExceeded}
		}
		x := w.newWait()
		l.wait = append(l.wait, x)
		if l.dl > 0 {
			w.At(l.dl, func() { w.wakeup(x) })
		}
		w.park("accept")
	}
}

func (l *Listener) SetDeadline(at int64) {
	l.dl = at
	for _, x := range l.wait {
		W.wakeup(x)
	}
	l.wait = nil
}

// Close closes the listener.
func (l *Listener) Close() error {
	if l.closed {
		return &net.OpError{Op: "close", Net: "tcp", Err: net.ErrClosed}
	}
	l.closed = true
	if l.host.lst[l.Port] == l {
		delete(l.host.lst, l.Port)
	}
	for _, x := range l.wait {
		W.wakeup(x)
	}
	l.wait = nil
	for _, e := range l.queue {
		e.sendRst()
		e.die(net.ErrClosed)
	}
	l.queue = nil
	return nil
}

func (p *Proc) netExit() {
	for _, l := range p.lsts {
		if !l.closed {
			l.Close()
		}
	}
	for _, e := range sortEps(p.eps) {
		if p.Host.Down {
			e.silent = true
			e.die(net.ErrClosed)
		} else {
			e.closeNow()
		}
	}
	p.eps = map[*Endpoint]struct{}{}
}

func (e *Endpoint) wakeR() {
	for _, x := range e.rw {
		W.wakeup(x)
	}
	e.rw = nil
}
func (e *Endpoint) wakeW() {
	for _, x := range e.ww {
		W.wakeup(x)
	}
	e.ww = nil
}

// die marks the endpoint unusable with err.
func (e *Endpoint) die(err error) {
	if e.dead {
		return
	}
	e.dead = true
	if e.rerr == nil {
		e.rerr = err
	}
	e.ClosedAt = W.now - Epoch
	e.wakeR()
	e.wakeW()
	delete(W.lk(e.LAddr.IP.String(), e.RAddr.IP.String()).eps, e)
	if e.proc != nil {
		delete(e.proc.eps, e)
	}
	if p := e.peer; p != nil {
		p.wakeW()
		// The other side learns of it at the latest from its keep-alive probes.
		if !p.dead {
			W.At(W.now+tcpGiveUp+15*int64(time.Second), func() {
				if !p.dead {
					p.die(os.NewSyscallError("read", syscall.ECONNRESET))
				}
			})
		}
	}
}

// reset breaks both sides at once (a middlebox reset).
func (e *Endpoint) reset(errno syscall.Errno) {
	p := e.peer
	e.die(os.NewSyscallError("read", errno))
	if p != nil {
		p.die(os.NewSyscallError("read", errno))
	}
}

func (e *Endpoint) sendRst() { e.transmit(seg{rst: true}) }

// transmit sends a segment to the peer. Segments arrive in order: the arrival
// events are interchangeable and each delivers the oldest one under way.
func (e *Endpoint) transmit(s seg) {
	if e.silent {
		return
	}
	e.outq = append(e.outq, s)
	e.launch()
}

// launch schedules one arrival, or holds it while the peer is unreachable.
func (e *Endpoint) launch() {
	w := W
	l := w.lk(e.host.IP, e.peer.host.IP)
	self := e.host == e.peer.host
	if l.cut && !self || e.peer.host.Down {
		e.held++
		if e.held == 1 {
			w.At(w.now+tcpGiveUp, func() {
				if e.held > 0 && !e.dead {
					w.Fault("tcp-timeout")
					e.die(os.NewSyscallError("read", syscall.ETIMEDOUT))
				}
			})
		}
		return
	}
	lat := w.latency(l)
	if self {
		lat = 20_000
	}
	at := w.now + lat
	if at <= e.lastArr {
		at = e.lastArr + 1
	}
	e.lastArr = at
	w.At(at, e.arrive)
}

func (e *Endpoint) flushHeld() {
	n := e.held
	e.held = 0
	for ; n > 0; n-- {
		e.launch()
	}
}

// arrive delivers the oldest segment under way from e to its peer.
func (e *Endpoint) arrive() {
	w := W
	l := w.lk(e.host.IP, e.peer.host.IP)
	self := e.host == e.peer.host
	p := e.peer
	if len(e.outq) == 0 {
		return
	}
	if l.cut && !self || p.host.Down {
		// lost on the way; retransmitted after the heal
		e.lastArr = 0
		e.launch()
		return
	}
	s := e.outq[0]
	e.outq = e.outq[1:]
	w.mix(uint64(e.id)<<20 + uint64(len(s.data)))
	if p.dead || p.silent {
		// no such connection any more
		if !s.rst && !e.dead && !s.fin {
			w.At(w.now+w.latency(l), func() { e.die(os.NewSyscallError("read", syscall.ECONNRESET)) })
		} else if !s.rst && !e.dead && p.silent {
			w.At(w.now+w.latency(l), func() { e.die(os.NewSyscallError("read", syscall.ECONNRESET)) })
		}
		return
	}
	switch {
	case s.rst:
		p.die(os.NewSyscallError("read", syscall.ECONNRESET))
	case s.fin:
		p.eof = true
		p.wakeR()
		if p.closed {
			// both sides closed
			p.die(net.ErrClosed)
			if !e.dead {
				e.die(net.ErrClosed)
			}
		}
	default:
		e.inflight -= len(s.data)
		if p.closed {
			// data for a closed socket: reset
			w.At(w.now+w.latency(l), func() { e.die(os.NewSyscallError("read", syscall.ECONNRESET)) })
			p.die(net.ErrClosed)
			return
		}
		p.rbuf = append(p.rbuf, s.data...)
		p.Recvd += int64(len(s.data))
		p.wakeR()
		if p.onData != nil {
			p.onData()
		}
	}
}

func (e *Endpoint) opErr(op string, err error) error {
	if err == io.EOF {
		return io.EOF
	}
	return &net.OpError{Op: op, Net: "tcp", Source: e.LAddr, Addr: e.RAddr, Err: err}
}

// Read reads available bytes, at least one.
func (e *Endpoint) Read(b []byte) (int, error) {
	ExitIfKilled()
	Y()
	w := W
	for {
		if e.closed {
			return 0, e.opErr("read", net.ErrClosed)
		}
		if e.rdl > 0 && w.now >= e.rdl {
			return 0, e.opErr("read", os.ErrDeadlineExceeded)
		}
		if len(b) == 0 {
			return 0, nil
		}
		if len(e.rbuf) > 0 {
			n := copy(b, e.rbuf)
			e.rbuf = e.rbuf[n:]
			if len(e.rbuf) == 0 {
				e.rbuf = nil
			}
			if e.peer != nil {
				e.peer.wakeW()
			}
			return n, nil
		}
		if e.eof {
			return 0, io.EOF
		}
		if e.dead {
			// the kernel reports a pending error once, then end of file
			if e.errSeen {
				return 0, io.EOF
			}
			e.errSeen = true
			return 0, e.opErr("read", e.rerr)
		}
		x := w.newWait()
		e.rw = append(e.rw, x)
		if e.rdl > 0 {
			w.At(e.rdl, func() { w.wakeup(x) })
		}
		w.park("net read")
	}
}

// Write sends all of b.
func (e *Endpoint) Write(b []byte) (int, error) {
	ExitIfKilled()
	Y()
	w := W
	if w.OnNetWrite != nil && e.proc != nil && !e.Raw {
		w.OnNetWrite(e, b)
	}
	done := 0
	for {
		if e.closed {
			return done, e.opErr("write", net.ErrClosed)
		}
		if e.wdl > 0 && w.now >= e.wdl {
			return done, e.opErr("write", os.ErrDeadlineExceeded)
		}
		if e.dead {
			err := e.rerr
			if se, ok := err.(*os.SyscallError); ok {
				if e.errSeen {
					se = &os.SyscallError{Err: syscall.EPIPE}
				}
				err = os.NewSyscallError("write", se.Err)
			}
			e.errSeen = true
			return done, e.opErr("write", err)
		}
		if done >= len(b) {
			return done, nil
		}
		room := sndWindow - e.inflight - len(e.peer.rbuf)
		if room <= 0 {
			x := w.newWait()
			e.ww = append(e.ww, x)
			if e.wdl > 0 {
				w.At(e.wdl, func() { w.wakeup(x) })
			}
			w.park("net write")
			continue
		}
		n := len(b) - done
		if n > room {
			n = room
		}
		if n > 16384 {
			n = 16384
		}
		if n > 1 && w.Opt.SegPct > 0 {
			v := w.D.net.choose(func(r *RNG) uint32 {
				if r.N(100) < w.Opt.SegPct {
					return uint32(1 + r.N(n-1))
				}
				return 0
			})
			if v > 0 && int(v) < n {
				n = int(v)
				w.Fault("segment-split")
			}
		}
		e.inflight += n
		e.Sent += int64(n)
		e.transmit(seg{data: append([]byte{}, b[done:done+n]...)})
		done += n
	}
}

// closeNow closes the socket as the kernel does on close or process exit.
func (e *Endpoint) closeNow() {
	if e.closed || e.dead {
		e.closed = true
		return
	}
	e.closed = true
	e.ClosedAt = W.now - Epoch
	if e.proc != nil {
		delete(e.proc.eps, e)
		if W.OnNetClose != nil && !e.proc.Dead {
			W.OnNetClose(e)
		}
	}
	e.wakeR()
	e.wakeW()
	if len(e.rbuf) > 0 {
		e.sendRst()
		e.die(net.ErrClosed)
		return
	}
	e.transmit(seg{fin: true})
	if e.eof {
		e.die(net.ErrClosed)
		return
	}
	// orphaned sockets go away after a while
	W.At(W.now+60*int64(time.Second), func() { e.die(net.ErrClosed) })
}

// Close closes the socket.
func (e *Endpoint) Close() error {
	ExitIfKilled()
	Y()
	if e.closed {
		return e.opErr("close", net.ErrClosed)
	}
	e.closeNow()
	return nil
}

// CloseWrite sends a FIN.
func (e *Endpoint) CloseWrite() error {
	ExitIfKilled()
	e.transmit(seg{fin: true})
	return nil
}

// Abort resets the connection from this side.
func (e *Endpoint) Abort() {
	if !e.dead {
		e.sendRst()
		e.closed = true
		e.die(net.ErrClosed)
	}
}

// SetReadDeadline sets the absolute virtual deadline (0 = none).
func (e *Endpoint) SetReadDeadline(at int64) {
	e.rdl = at
	e.wakeR()
}
func (e *Endpoint) SetWriteDeadline(at int64) {
	e.wdl = at
	e.wakeW()
}

// Buffered is the number of bytes ready to read.
func (e *Endpoint) Buffered() int { return len(e.rbuf) }
func (e *Endpoint) Eof() bool     { return e.eof || e.dead || e.closed }

// Deadline converts a wall clock time into a virtual deadline.
func Deadline(t time.Time) int64 {
	if t.IsZero() {
		return 0
	}
	d := t.UnixNano() - WallNow()
	at := W.now + d
	if at <= 0 {
		at = 1
	}
	return at
}

// PowerOff stops a host at once; its peers hear nothing.
func (w *World) PowerOff(h *Host) {
	h.Down = true
	w.Fault("power-off")
	for _, p := range w.Procs {
		if p.Host == h && !p.Dead {
			p.exit(-9, "power off", "", nil)
		}
	}
}

// PowerOn brings a host back; segments sent to its old connections are
// answered with resets.
func (w *World) PowerOn(h *Host) {
	h.Down = false
	for _, o := range w.HostList {
		for _, e := range sortEps(w.lk(h.IP, o.IP).eps) {
			e.flushHeld()
		}
	}
}

// ClosedLocally reports whether Close was called on this side.
func (e *Endpoint) ClosedLocally() bool { return e.closed }
