// Package sio replaces io.Pipe in code under simulation: the pipe of the
// standard library blocks on channels the simulator does not see.
package sio

import (
	"io"

	"verif.local/sim/ssync"
)

type pipe struct {
	wrMu ssync.Mutex // one Write at a time

	mu    ssync.Mutex
	cond  *ssync.Cond
	buf   []byte // what the writer offers
	offer bool
	taken int
	rerr  error // the reader has closed
	werr  error // the writer has closed
}

// PipeReader is io.PipeReader under the simulator.
type PipeReader struct{ p *pipe }

// PipeWriter is io.PipeWriter under the simulator.
type PipeWriter struct{ p *pipe }

// Pipe is io.Pipe under the simulator.
func Pipe() (*PipeReader, *PipeWriter) {
	p := &pipe{}
	p.cond = ssync.NewCond(&p.mu)
	return &PipeReader{p}, &PipeWriter{p}
}

func (r *PipeReader) Read(b []byte) (int, error) {
	p := r.p
	p.mu.Lock()
	defer p.mu.Unlock()
	for {
		if p.rerr != nil {
			return 0, io.ErrClosedPipe
		}
		if p.offer {
			n := copy(b, p.buf[p.taken:])
			p.taken += n
			if p.taken == len(p.buf) {
				p.offer = false
				p.cond.Broadcast()
			}
			return n, nil
		}
		if p.werr != nil {
			return 0, p.werr
		}
		p.cond.Wait()
	}
}

func (w *PipeWriter) Write(b []byte) (int, error) {
	p := w.p
	p.wrMu.Lock()
	defer p.wrMu.Unlock()
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.werr != nil {
		return 0, io.ErrClosedPipe
	}
	if p.rerr != nil {
		return 0, p.rerr
	}
	p.buf, p.taken, p.offer = b, 0, true
	p.cond.Broadcast()
	for p.offer && p.rerr == nil && p.werr == nil {
		p.cond.Wait()
	}
	n := p.taken
	done := !p.offer
	p.buf, p.offer = nil, false
	switch {
	case done:
		return n, nil
	case p.rerr != nil:
		return n, p.rerr
	}
	return n, io.ErrClosedPipe
}

func (r *PipeReader) Close() error { return r.CloseWithError(nil) }

func (r *PipeReader) CloseWithError(err error) error {
	if err == nil {
		err = io.ErrClosedPipe
	}
	p := r.p
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.rerr == nil {
		p.rerr = err
	}
	p.cond.Broadcast()
	return nil
}

func (w *PipeWriter) Close() error { return w.CloseWithError(nil) }

func (w *PipeWriter) CloseWithError(err error) error {
	if err == nil {
		err = io.EOF
	}
	p := w.p
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.werr == nil {
		p.werr = err
	}
	p.cond.Broadcast()
	return nil
}
