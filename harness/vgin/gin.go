// Package gin stands in for github.com/gin-gonic/gin: routes are recorded and requests are served by Serve, without a network.
package gin

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"io"
	"net/http"
	"net/url"
	"strings"
	"time"

	"github.com/sira-serverless-ir-arch/goirlib/zzverif/sym"
)

const (
	DebugMode   = "debug"
	ReleaseMode = "release"
	TestMode    = "test"
)

type H map[string]any

type HandlerFunc func(*Context)

type route struct {
	method, path string
	handlers     []HandlerFunc
}

type RouterGroup struct {
	engine *Engine
	prefix string
	mw     []HandlerFunc
}

type Engine struct {
	RouterGroup
	routes []route
	Runs   int
}

type HandlersChain = []HandlerFunc

type IRoutes interface {
	Use(...HandlerFunc) IRoutes
	Handle(string, string, ...HandlerFunc) IRoutes
	Any(string, ...HandlerFunc) IRoutes
	GET(string, ...HandlerFunc) IRoutes
	POST(string, ...HandlerFunc) IRoutes
	DELETE(string, ...HandlerFunc) IRoutes
	PATCH(string, ...HandlerFunc) IRoutes
	PUT(string, ...HandlerFunc) IRoutes
	OPTIONS(string, ...HandlerFunc) IRoutes
	HEAD(string, ...HandlerFunc) IRoutes
}

type IRouter interface {
	IRoutes
	Group(string, ...HandlerFunc) *RouterGroup
}

// Current is the engine that was run last.
var Current *Engine

var DefaultWriter io.Writer = io.Discard

func SetMode(string) {}
func Mode() string   { return DebugMode }

func New() *Engine {
	e := &Engine{}
	e.engine = e
	return e
}

func Default() *Engine { return New() }

func Logger() HandlerFunc { return func(*Context) {} }

func Recovery() HandlerFunc {
	return func(c *Context) {
		defer func() {
			if recover() != nil {
				c.AbortWithStatus(500)
			}
		}()
		c.Next()
	}
}

func (g *RouterGroup) Group(prefix string, h ...HandlerFunc) *RouterGroup {
	return &RouterGroup{engine: g.engine, prefix: g.prefix + prefix, mw: append(append([]HandlerFunc{}, g.mw...), h...)}
}

func (g *RouterGroup) Use(h ...HandlerFunc) IRoutes {
	g.mw = append(g.mw, h...)
	return g
}

func (g *RouterGroup) Handle(method, path string, h ...HandlerFunc) IRoutes {
	g.engine.routes = append(g.engine.routes, route{method, g.prefix + path, append(append([]HandlerFunc{}, g.mw...), h...)})
	return g
}

func (g *RouterGroup) POST(path string, h ...HandlerFunc) IRoutes {
	return g.Handle("POST", path, h...)
}
func (g *RouterGroup) GET(path string, h ...HandlerFunc) IRoutes { return g.Handle("GET", path, h...) }
func (g *RouterGroup) PUT(path string, h ...HandlerFunc) IRoutes { return g.Handle("PUT", path, h...) }
func (g *RouterGroup) DELETE(path string, h ...HandlerFunc) IRoutes {
	return g.Handle("DELETE", path, h...)
}
func (g *RouterGroup) PATCH(path string, h ...HandlerFunc) IRoutes {
	return g.Handle("PATCH", path, h...)
}

func (g *RouterGroup) OPTIONS(path string, h ...HandlerFunc) IRoutes {
	return g.Handle("OPTIONS", path, h...)
}
func (g *RouterGroup) HEAD(path string, h ...HandlerFunc) IRoutes {
	return g.Handle("HEAD", path, h...)
}
func (g *RouterGroup) Any(path string, h ...HandlerFunc) IRoutes {
	for _, m := range []string{"GET", "POST", "PUT", "PATCH", "HEAD", "OPTIONS", "DELETE"} {
		g.Handle(m, path, h...)
	}
	return g
}
func (g *RouterGroup) BasePath() string { return g.prefix }

func (e *Engine) NoRoute(...HandlerFunc)  {}
func (e *Engine) NoMethod(...HandlerFunc) {}

// ServeHTTP makes an Engine an http.Handler; requests come through Serve.
func (e *Engine) ServeHTTP(http.ResponseWriter, *http.Request) {}
func (e *Engine) Handler() http.Handler                        { return e }

func (e *Engine) SetTrustedProxies([]string) error { return nil }

func (e *Engine) Run(addr ...string) error {
	e.Runs++
	Current = e
	return nil
}

func (e *Engine) RunTLS(addr, cert, key string) error { return e.Run(addr) }

// Listen is what the model of net/http does with a handler.
func Listen(h any) {
	if e, ok := h.(*Engine); ok {
		e.Run()
	}
}

// Response is what a request was answered.
type Response struct {
	Status int
	Body   any // as decoded from JSON
	Wrote  int
	header http.Header
	raw    []byte
	open   bool // the last body is written piece by piece
}

// ResponseWriter writes the answer piece by piece.
type ResponseWriter interface {
	http.ResponseWriter
	Status() int
	Size() int
	Written() bool
	WriteString(string) (int, error)
	WriteHeaderNow()
	Flush()
}

type writer struct{ r *Response }

func (w *writer) Header() http.Header {
	if w.r.header == nil {
		w.r.header = http.Header{}
	}
	return w.r.header
}

func (w *writer) WriteHeader(code int) {
	if w.r.Wrote == 0 {
		w.r.Status = code
	}
}
func (w *writer) WriteHeaderNow() {}
func (w *writer) Flush()          {}
func (w *writer) Status() int     { return w.r.Status }
func (w *writer) Size() int       { return len(w.r.raw) }
func (w *writer) Written() bool   { return w.r.Wrote > 0 }

func (w *writer) Write(b []byte) (int, error) {
	if !w.r.open {
		w.r.open = true
		w.r.Wrote++
	}
	w.r.raw = append(w.r.raw, b...)
	return len(b), nil
}

func (w *writer) WriteString(s string) (int, error) { return w.Write([]byte(s)) }

// requestBody is the text of the JSON object sent, made when it is read.
type requestBody struct {
	body map[string]any
	text *bytes.Reader
	used bool // bound or read to some extent
}

func (b *requestBody) Read(p []byte) (int, error) {
	if b.text == nil {
		text := []byte("{]")
		if b.body != nil {
			text, _ = json.Marshal(b.body)
		}
		if b.used {
			text = nil
		}
		b.text = bytes.NewReader(text)
	}
	b.used = true
	return b.text.Read(p)
}

func (b *requestBody) Close() error { return nil }

// SentAs is the content type of the requests that are sent.
var SentAs = "application/json"

// Serve answers a request; body holds the fields of the JSON object sent, nil for a body that is not JSON.
func Serve(method, path string, query url.Values, body map[string]any) *Response {
	for _, r := range Current.routes {
		if r.method != method || r.path != path {
			continue
		}
		u := &url.URL{Path: path, RawQuery: query.Encode()}
		resp := &Response{Status: 200}
		sent := &requestBody{body: body}
		header := http.Header{}
		if SentAs != "" {
			header.Set("Content-Type", SentAs)
		}
		c := &Context{Request: &http.Request{Method: method, URL: u, Header: header, Body: sent}, Writer: &writer{resp}, sent: sent, handlers: r.handlers, index: -1, resp: resp, query: query}
		c.Next()
		if resp.raw != nil && json.Unmarshal(resp.raw, &resp.Body) != nil {
			resp.Body = string(resp.raw)
		}
		return resp
	}
	return &Response{Status: 404}
}

type Context struct {
	Request  *http.Request
	Writer   ResponseWriter
	Keys     map[string]any
	sent     *requestBody
	handlers []HandlerFunc
	index    int
	resp     *Response
	query    url.Values
}

func (c *Context) Next() {
	c.index++
	for c.index < len(c.handlers) {
		c.handlers[c.index](c)
		c.index++
	}
}

func (c *Context) Abort()             { c.index = 1000 }
func (c *Context) IsAborted() bool    { return c.index >= 1000 }
func (c *Context) Status(code int)    { c.resp.Status = code }
func (c *Context) Header(k, v string) { c.Writer.Header().Set(k, v) }

func (c *Context) AbortWithStatus(code int) {
	c.resp.Status = code
	c.Abort()
}

func (c *Context) AbortWithStatusJSON(code int, x any) {
	c.Abort()
	c.JSON(code, x)
}

func (c *Context) AbortWithError(code int, err error) error {
	c.AbortWithStatus(code)
	return err
}

func (c *Context) Error(err error) error { return err }

func (c *Context) JSON(code int, x any) {
	c.resp.Status = code
	c.resp.Wrote++
	c.resp.open = false
	c.resp.Body = sym.ToJSON(x)
}

func (c *Context) SecureJSON(code int, x any)   { c.JSON(code, x) }
func (c *Context) AsciiJSON(code int, x any)    { c.JSON(code, x) }
func (c *Context) IndentedJSON(code int, x any) { c.JSON(code, x) }
func (c *Context) PureJSON(code int, x any)     { c.JSON(code, x) }

func (c *Context) String(code int, format string, a ...any) {
	c.resp.Status = code
	c.resp.Wrote++
}

func (c *Context) ShouldBindJSON(x any) error {
	if c.Request.Body != io.ReadCloser(c.sent) || c.sent.text != nil {
		return json.NewDecoder(c.Request.Body).Decode(x)
	}
	if c.sent.used {
		return io.EOF
	}
	c.sent.used = true
	if c.sent.body == nil {
		return errors.New("invalid character in JSON")
	}
	return sym.FromJSON(c.sent.body, x)
}

// ShouldBind takes a body that is sent as something else for a form, of which a JSON text has no entry.
func (c *Context) ShouldBind(x any) error {
	if c.ContentType() != "application/json" {
		c.sent.used = true
		return nil
	}
	return c.ShouldBindJSON(x)
}

func (c *Context) BindJSON(x any) error {
	err := c.ShouldBindJSON(x)
	if err != nil {
		c.AbortWithStatus(400)
	}
	return err
}

func (c *Context) Bind(x any) error {
	err := c.ShouldBind(x)
	if err != nil {
		c.AbortWithStatus(400)
	}
	return err
}

func (c *Context) Query(k string) string { return c.query.Get(k) }

func (c *Context) GetQuery(k string) (string, bool) { return c.query.Get(k), c.query.Has(k) }

func (c *Context) DefaultQuery(k, d string) string {
	if c.query.Has(k) {
		return c.query.Get(k)
	}
	return d
}

func (c *Context) Param(string) string { return "" }

func (c *Context) Set(k string, v any) {
	if c.Keys == nil {
		c.Keys = map[string]any{}
	}
	c.Keys[k] = v
}

func (c *Context) Get(k string) (any, bool) {
	v, ok := c.Keys[k]
	return v, ok
}

func (c *Context) FullPath() string { return c.Request.URL.Path }
func (c *Context) ClientIP() string { return "127.0.0.1" }

func (c *Context) Copy() *Context {
	d := *c
	return &d
}

func (c *Context) GetHeader(k string) string { return c.Request.Header.Get(k) }

func (c *Context) MustGet(k string) any {
	v, ok := c.Keys[k]
	if !ok {
		panic("key does not exist")
	}
	return v
}

func (c *Context) GetString(k string) string {
	s, _ := c.Keys[k].(string)
	return s
}

func (c *Context) GetInt(k string) int {
	s, _ := c.Keys[k].(int)
	return s
}

func (c *Context) QueryArray(k string) []string { return c.query[k] }

func (c *Context) GetQueryArray(k string) ([]string, bool) {
	l, ok := c.query[k]
	return l, ok
}

func (c *Context) HandlerName() string { return "" }
func (c *Context) ContentType() string {
	kind, _, _ := strings.Cut(c.Request.Header.Get("Content-Type"), ";")
	return strings.TrimSpace(kind)
}

func (c *Context) Data(code int, contentType string, data []byte) {
	c.resp.Status = code
	c.resp.open = false
	c.Writer.Write(data)
}

func (c *Context) GetRawData() ([]byte, error) {
	return io.ReadAll(c.Request.Body)
}

func (c *Context) ShouldBindQuery(any) error {
	sym.Unsupported("gin: ShouldBindQuery")
	return nil
}

// Context is a context.Context.
func (c *Context) Deadline() (time.Time, bool) { return time.Time{}, false }
func (c *Context) Done() <-chan struct{}       { return nil }
func (c *Context) Err() error                  { return nil }
func (c *Context) Value(k any) any {
	if s, ok := k.(string); ok {
		return c.Keys[s]
	}
	return nil
}

func (c *Context) RequestContext() context.Context { return context.Background() }
