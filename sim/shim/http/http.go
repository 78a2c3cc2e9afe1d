// Package http replaces net/http's server in the repository's code: requests
// are delivered by simulated clients, everything else is the real package.
package http

import (
	"context"
	realhttp "net/http"
	"time"

	"verif.local/sim/rt"
)

type Server struct {
	Addr              string
	Handler           realhttp.Handler
	ReadTimeout       time.Duration
	ReadHeaderTimeout time.Duration
	WriteTimeout      time.Duration
	IdleTimeout       time.Duration
	MaxHeaderBytes    int

	inflight int
	closed   bool
	down     chan struct{}
}

// Serve delivers one request in the calling task. It reports false when the
// server does not accept connections (any more).
func (s *Server) Deliver(w realhttp.ResponseWriter, r *realhttp.Request) bool {
	if s.closed {
		return false
	}
	s.inflight++
	defer func() { s.inflight-- }()
	s.Handler.ServeHTTP(w, r)
	return true
}

func (s *Server) ListenAndServe() error {
	if s.closed {
		return realhttp.ErrServerClosed
	}
	s.down = make(chan struct{})
	t := rt.Cur()
	t.Proc.Server = s
	select {
	case <-s.down:
	case <-t.Proc.Gone():
	}
	rt.P()
	return realhttp.ErrServerClosed
}

func (s *Server) Shutdown(ctx context.Context) error {
	s.closed = true
	if s.down != nil {
		close(s.down)
		s.down = nil
		rt.P()
	}
	for s.inflight > 0 {
		select {
		case <-ctx.Done():
			rt.P()
			return ctx.Err()
		case <-time.After(10 * time.Millisecond):
			rt.P()
		}
	}
	return nil
}

func (s *Server) Close() error {
	s.closed = true
	if s.down != nil {
		close(s.down)
		s.down = nil
		rt.P()
	}
	return nil
}

type (
	ResponseWriter = realhttp.ResponseWriter
	Request        = realhttp.Request
	Handler        = realhttp.Handler
	HandlerFunc    = realhttp.HandlerFunc
	Header         = realhttp.Header
	Response       = realhttp.Response
	Client         = realhttp.Client
	Flusher        = realhttp.Flusher
	ServeMux       = realhttp.ServeMux
	Dir            = realhttp.Dir
)

var (
	ErrServerClosed = realhttp.ErrServerClosed
	Error           = realhttp.Error
	NotFound        = realhttp.NotFound
	StatusText      = realhttp.StatusText
	NewServeMux     = realhttp.NewServeMux
	NewRequest      = realhttp.NewRequest
)
