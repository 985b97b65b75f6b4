// Package http models a server by handing its handler to the stand-in for gin.
package http

import (
	"context"
	"io"
	"net/http"

	gin "github.com/sira-serverless-ir-arch/goirlib/zzverif/vgin"
)

func ListenAndServe(addr string, h http.Handler) error {
	gin.Listen(h)
	return http.ErrServerClosed
}

type Server http.Server

func (s *Server) ListenAndServe() error {
	gin.Listen(s.Handler)
	return http.ErrServerClosed
}

func (s *Server) Shutdown(context.Context) error { return nil }
func (s *Server) Close() error                   { return nil }

// MaxBytesReader fails after n bytes.
func MaxBytesReader(w http.ResponseWriter, r io.ReadCloser, n int64) io.ReadCloser {
	if n < 0 {
		n = 0
	}
	return &limited{r: r, n: n, limit: n}
}

type limited struct {
	r        io.ReadCloser
	n, limit int64
	err      error
}

func (l *limited) Read(p []byte) (int, error) {
	if l.err != nil {
		return 0, l.err
	}
	if len(p) == 0 {
		return 0, nil
	}
	if int64(len(p))-1 > l.n {
		p = p[:l.n+1]
	}
	n, err := l.r.Read(p)
	if int64(n) <= l.n {
		l.n -= int64(n)
		l.err = err
		return n, err
	}
	n = int(l.n)
	l.n = 0
	l.err = &http.MaxBytesError{Limit: l.limit}
	return n, l.err
}

func (l *limited) Close() error { return l.r.Close() }

// Error writes a text as the answer.
func Error(w http.ResponseWriter, text string, code int) {
	w.WriteHeader(code)
	io.WriteString(w, text+"\n")
}
