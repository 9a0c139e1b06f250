// Package mux is a stand-in for github.com/gorilla/mux, which this sandbox cannot fetch. It implements
// the part that Blueprint's generated HTTP servers use: exact-path routes.
package mux

import "net/http"

type Router struct{ routes []*Route }

type Route struct {
	path string
	h    http.Handler
}

func NewRouter() *Router { return &Router{} }

func (r *Router) Path(tpl string) *Route {
	rt := &Route{path: tpl}
	r.routes = append(r.routes, rt)
	return rt
}

func (r *Router) HandleFunc(path string, f func(http.ResponseWriter, *http.Request)) *Route {
	return r.Path(path).HandlerFunc(f)
}

func (r *Router) Handle(path string, h http.Handler) *Route { return r.Path(path).Handler(h) }

func (rt *Route) HandlerFunc(f func(http.ResponseWriter, *http.Request)) *Route {
	rt.h = http.HandlerFunc(f)
	return rt
}

func (rt *Route) Handler(h http.Handler) *Route { rt.h = h; return rt }

func (r *Router) ServeHTTP(w http.ResponseWriter, req *http.Request) {
	for _, rt := range r.routes {
		if rt.h != nil && rt.path == req.URL.Path {
			rt.h.ServeHTTP(w, req)
			return
		}
	}
	http.NotFound(w, req)
}
