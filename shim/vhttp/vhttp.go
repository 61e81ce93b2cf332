// Package vhttp replaces the parts of net/http a handler sees.
package vhttp

import (
	"errors"
	"io"
	"net/url"
	"strings"
	"time"
)

const (
	StatusContinue                      = 100
	StatusSwitchingProtocols            = 101
	StatusProcessing                    = 102
	StatusEarlyHints                    = 103
	StatusOK                            = 200
	StatusCreated                       = 201
	StatusAccepted                      = 202
	StatusNonAuthoritativeInfo          = 203
	StatusNoContent                     = 204
	StatusResetContent                  = 205
	StatusPartialContent                = 206
	StatusMultiStatus                   = 207
	StatusAlreadyReported               = 208
	StatusIMUsed                        = 226
	StatusMultipleChoices               = 300
	StatusMovedPermanently              = 301
	StatusFound                         = 302
	StatusSeeOther                      = 303
	StatusNotModified                   = 304
	StatusUseProxy                      = 305
	StatusTemporaryRedirect             = 307
	StatusPermanentRedirect             = 308
	StatusBadRequest                    = 400
	StatusUnauthorized                  = 401
	StatusPaymentRequired               = 402
	StatusForbidden                     = 403
	StatusNotFound                      = 404
	StatusMethodNotAllowed              = 405
	StatusNotAcceptable                 = 406
	StatusProxyAuthRequired             = 407
	StatusRequestTimeout                = 408
	StatusConflict                      = 409
	StatusGone                          = 410
	StatusLengthRequired                = 411
	StatusPreconditionFailed            = 412
	StatusRequestEntityTooLarge         = 413
	StatusRequestURITooLong             = 414
	StatusUnsupportedMediaType          = 415
	StatusRequestedRangeNotSatisfiable  = 416
	StatusExpectationFailed             = 417
	StatusTeapot                        = 418
	StatusMisdirectedRequest            = 421
	StatusUnprocessableEntity           = 422
	StatusLocked                        = 423
	StatusFailedDependency              = 424
	StatusTooEarly                      = 425
	StatusUpgradeRequired               = 426
	StatusPreconditionRequired          = 428
	StatusTooManyRequests               = 429
	StatusRequestHeaderFieldsTooLarge   = 431
	StatusUnavailableForLegalReasons    = 451
	StatusInternalServerError           = 500
	StatusNotImplemented                = 501
	StatusBadGateway                    = 502
	StatusServiceUnavailable            = 503
	StatusGatewayTimeout                = 504
	StatusHTTPVersionNotSupported       = 505
	StatusVariantAlsoNegotiates         = 506
	StatusInsufficientStorage           = 507
	StatusLoopDetected                  = 508
	StatusNotExtended                   = 510
	StatusNetworkAuthenticationRequired = 511
)

const (
	MethodGet     = "GET"
	MethodHead    = "HEAD"
	MethodPost    = "POST"
	MethodPut     = "PUT"
	MethodPatch   = "PATCH"
	MethodDelete  = "DELETE"
	MethodOptions = "OPTIONS"
)

func StatusText(code int) string { return "status" }

type Header map[string][]string

func canon(k string) string {
	b := []byte(k)
	up := true
	for i, c := range b {
		if up && c >= 'a' && c <= 'z' {
			b[i] = c - 32
		} else if !up && c >= 'A' && c <= 'Z' {
			b[i] = c + 32
		}
		up = c == '-'
	}
	return string(b)
}

func (h Header) Get(k string) string {
	if v := h[canon(k)]; len(v) > 0 {
		return v[0]
	}
	return ""
}
func (h Header) Values(k string) []string { return h[canon(k)] }
func (h Header) Set(k, v string)          { h[canon(k)] = []string{v} }
func (h Header) Add(k, v string)          { h[canon(k)] = append(h[canon(k)], v) }
func (h Header) Del(k string)             { delete(h, canon(k)) }

type Request struct {
	Method     string
	URL        *url.URL
	Header     Header
	Form       url.Values
	PostForm   url.Values
	Body       io.ReadCloser
	RemoteAddr string
	Host       string
	RequestURI string

	body, query url.Values
}

// NewRequest makes a request as a server would have parsed it.
func NewRequest(method, path string, query, body map[string][]string) *Request {
	return &Request{Method: method, URL: &url.URL{Path: path}, Header: Header{}, RequestURI: path, body: body, query: query}
}

func (r *Request) ParseForm() error {
	if r.Form == nil {
		r.Form, r.PostForm = url.Values{}, url.Values{}
		if r.Method == "POST" || r.Method == "PUT" || r.Method == "PATCH" {
			for k, v := range r.body {
				r.PostForm[k] = v
				r.Form[k] = append(r.Form[k], v...)
			}
		}
		for k, v := range r.query {
			r.Form[k] = append(r.Form[k], v...)
		}
	}
	return nil
}

func (r *Request) FormValue(k string) string {
	r.ParseForm()
	if v := r.Form[k]; len(v) > 0 {
		return v[0]
	}
	return ""
}

func (r *Request) PostFormValue(k string) string {
	r.ParseForm()
	if v := r.PostForm[k]; len(v) > 0 {
		return v[0]
	}
	return ""
}

func (r *Request) UserAgent() string { return r.Header.Get("User-Agent") }

type ResponseWriter interface {
	Header() Header
	Write([]byte) (int, error)
	WriteHeader(statusCode int)
}

// Recorder is a response.
type Recorder struct {
	Code int // zero when nothing was written
	Body []byte
	h    Header
}

func (w *Recorder) Header() Header {
	if w.h == nil {
		w.h = Header{}
	}
	return w.h
}

func (w *Recorder) Write(b []byte) (int, error) {
	if w.Code == 0 {
		w.Code = StatusOK
	}
	w.Body = append(w.Body, b...)
	return len(b), nil
}

func (w *Recorder) WriteHeader(code int) {
	if w.Code == 0 {
		w.Code = code
	}
}

type Handler interface {
	ServeHTTP(ResponseWriter, *Request)
}

type HandlerFunc func(ResponseWriter, *Request)

func (f HandlerFunc) ServeHTTP(w ResponseWriter, r *Request) { f(w, r) }

// ServeMux serves the longest pattern that is the path, or a prefix of it which ends in a slash.
type ServeMux struct {
	pats []string
	hs   []Handler
}

func NewServeMux() *ServeMux { return &ServeMux{} }

var DefaultServeMux = NewServeMux()

func (m *ServeMux) Handle(p string, h Handler) {
	m.pats = append(m.pats, p)
	m.hs = append(m.hs, h)
}

func (m *ServeMux) HandleFunc(p string, f func(ResponseWriter, *Request)) {
	m.Handle(p, HandlerFunc(f))
}

func (m *ServeMux) ServeHTTP(w ResponseWriter, r *Request) {
	best := -1
	for i, p := range m.pats {
		if (p == r.URL.Path || strings.HasSuffix(p, "/") && strings.HasPrefix(r.URL.Path, p)) && (best < 0 || len(p) > len(m.pats[best])) {
			best = i
		}
	}
	if best < 0 {
		NotFound(w, r)
		return
	}
	m.hs[best].ServeHTTP(w, r)
}

func HandleFunc(p string, f func(ResponseWriter, *Request)) { DefaultServeMux.HandleFunc(p, f) }
func Handle(p string, h Handler)                            { DefaultServeMux.Handle(p, h) }

func Error(w ResponseWriter, msg string, code int) {
	w.WriteHeader(code)
	w.Write([]byte(msg + "\n"))
}

func NotFound(w ResponseWriter, r *Request) { Error(w, "404 page not found", StatusNotFound) }

// Served is the handler a server was started with.
var Served Handler

func ListenAndServe(addr string, h Handler) error {
	if h == nil {
		h = DefaultServeMux
	}
	Served = h
	return errors.New("not listening")
}

// Server is a server with its own settings.
type Server struct {
	Addr              string
	Handler           Handler
	ReadTimeout       time.Duration
	ReadHeaderTimeout time.Duration
	WriteTimeout      time.Duration
	IdleTimeout       time.Duration
	MaxHeaderBytes    int
}

var ErrServerClosed = errors.New("http: Server closed")

func (s *Server) ListenAndServe() error { return ListenAndServe(s.Addr, s.Handler) }
