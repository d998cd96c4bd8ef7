package io

import (
	real "io"

	"MODPATH/verifsim/simrt"
)

type pipe struct {
	data         *simrt.Chan[[]byte]
	ack          *simrt.Chan[int]
	rdone        *simrt.Chan[struct{}]
	wdone        *simrt.Chan[struct{}]
	rerr, werr   error
	rshut, wshut bool
	busy         *simrt.Chan[struct{}]
}

type PipeReader struct{ p *pipe }
type PipeWriter struct{ p *pipe }

func Pipe() (*PipeReader, *PipeWriter) {
	p := &pipe{data: simrt.MakeChan[[]byte](0), ack: simrt.MakeChan[int](0), rdone: simrt.MakeChan[struct{}](0),
		wdone: simrt.MakeChan[struct{}](0), busy: simrt.MakeChan[struct{}](1)}
	return &PipeReader{p}, &PipeWriter{p}
}

func (p *pipe) readErr() error {
	if !p.wshut && p.rshut {
		return real.ErrClosedPipe
	}
	if p.werr != nil {
		return p.werr
	}
	return real.ErrClosedPipe
}
func (p *pipe) writeErr() error {
	if p.rshut && p.rerr != nil && !p.wshut {
		return p.rerr
	}
	return real.ErrClosedPipe
}

func (r *PipeReader) Read(b []byte) (int, error) {
	p := r.p
	if p.rshut || p.wshut {
		return 0, p.readErr()
	}
	d, x, y := simrt.RecvCase(p.data), simrt.RecvCase(p.rdone), simrt.RecvCase(p.wdone)
	if simrt.Select(false, d, x, y) == 0 {
		n := copy(b, d.V)
		simrt.Send(p.ack, n)
		return n, nil
	}
	return 0, p.readErr()
}
func (r *PipeReader) Close() error { return r.CloseWithError(nil) }
func (r *PipeReader) CloseWithError(err error) error {
	if err == nil {
		err = real.ErrClosedPipe
	}
	if !r.p.rshut {
		r.p.rshut, r.p.rerr = true, err
		simrt.Close(r.p.rdone)
	}
	return nil
}

func (w *PipeWriter) Write(b []byte) (n int, err error) {
	p := w.p
	simrt.Send(p.busy, struct{}{})
	defer simrt.Recv(p.busy)
	if p.rshut || p.wshut {
		return 0, p.writeErr()
	}
	for once := true; once || len(b) > 0; once = false {
		d, x, y := simrt.SendCase(p.data, b), simrt.RecvCase(p.rdone), simrt.RecvCase(p.wdone)
		if simrt.Select(false, d, x, y) != 0 {
			return n, p.writeErr()
		}
		k := simrt.Recv(p.ack)
		b, n = b[k:], n+k
	}
	return n, nil
}
func (w *PipeWriter) Close() error { return w.CloseWithError(nil) }
func (w *PipeWriter) CloseWithError(err error) error {
	if err == nil {
		err = real.EOF
	}
	if !w.p.wshut {
		w.p.wshut, w.p.werr = true, err
		simrt.Close(w.p.wdone)
	}
	return nil
}
