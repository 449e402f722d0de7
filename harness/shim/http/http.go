// Package http stands in for net/http: routes are recorded and listening returns at once.
package http

import (
	std "net/http"
	"time"
)

// Routes holds the handlers registered with Handle and HandleFunc.
var Routes = map[string]std.Handler{}

func Handle(pattern string, h std.Handler) { Routes[pattern] = h }

func HandleFunc(pattern string, f func(std.ResponseWriter, *std.Request)) {
	Routes[pattern] = std.HandlerFunc(f)
}

// ServeMux records its routes in Routes as well.
type ServeMux struct{ m map[string]std.Handler }

func NewServeMux() *ServeMux { return &ServeMux{m: map[string]std.Handler{}} }

func (x *ServeMux) Handle(pattern string, h std.Handler) {
	if x.m == nil {
		x.m = map[string]std.Handler{}
	}
	x.m[pattern] = h
	Routes[pattern] = h
}

func (x *ServeMux) HandleFunc(pattern string, f func(std.ResponseWriter, *std.Request)) {
	x.Handle(pattern, std.HandlerFunc(f))
}

func (x *ServeMux) ServeHTTP(w std.ResponseWriter, r *std.Request) {
	if h := x.m[r.URL.Path]; h != nil {
		h.ServeHTTP(w, r)
		return
	}
	w.WriteHeader(std.StatusNotFound)
}

var DefaultServeMux = NewServeMux()

// Server records how it was started.
type Server struct {
	Addr              string
	Handler           std.Handler
	ReadTimeout       time.Duration
	ReadHeaderTimeout time.Duration
	WriteTimeout      time.Duration
	IdleTimeout       time.Duration
	MaxHeaderBytes    int
}

// Started is called by ListenAndServe; harnesses replace it.
var Started = func(addr string) {}

func (s *Server) ListenAndServe() error { Started(s.Addr); return nil }
func (s *Server) Close() error          { return nil }

func ListenAndServe(addr string, h std.Handler) error { Started(addr); return nil }
