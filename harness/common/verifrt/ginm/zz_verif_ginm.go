// Package ginm stands in, in the symbolic run, for the parts of gin that use reflection: binding of
// requests to structs, validation, JSON. Native replays use the real ones. Routing, contexts,
// middlewares and response writers are gin's own in both.
package ginm

import (
	"bytes"
	"common/verifrt"
	"encoding/json"
	"errors"
	"io"
	"net/http"
	"net/textproto"
	"net/url"
	"reflect"
	"strconv"
	"strings"

	"github.com/gin-gonic/gin"
	"github.com/gin-gonic/gin/binding"
	"github.com/go-playground/validator/v10"
)

// ErrBind is the failure of a binding; Invalid is a failed validation.
var (
	ErrBind = errors.New("cannot bind")
	Invalid error = validator.ValidationErrors{}
)

// Validator checks the rules of structs.
type Validator struct{ binding.StructValidator }

func (Validator) ValidateStruct(v any) error { return check(v) }

// Gone, if not negative, is after how many bytes of a body the client is gone.
var Gone = -1

// Writer records a response.
type Writer struct {
	Head  http.Header
	Code  int
	Body  []byte
	JSON  any
	Abort bool // the handler gave the response up
}

func (w *Writer) Header() http.Header { return w.Head }
func (w *Writer) Write(b []byte) (int, error) {
	if w.Code == 0 {
		w.Code = 200
	}
	if n := Gone - len(w.Body); Gone >= 0 && n < len(b) {
		w.Body = append(w.Body, b[:n]...)
		return n, errors.New("client is gone")
	}
	w.Body = append(w.Body, b...)
	return len(b), nil
}
func (w *Writer) WriteHeader(c int) {
	if w.Code == 0 {
		w.Code = c
	}
}
func (w *Writer) Flush() {}

// Body is a JSON body: the symbolic run hands the value over, the native one marshals it.
type Body struct {
	io.Reader
	V any
}

func (b *Body) Close() error { return nil }

type raw []byte

func (r raw) CopyTo(obj any) error { return json.Unmarshal(r, obj) }

// RawBody makes the body of a request from JSON.
func RawBody(b []byte) *Body { return &Body{bytes.NewReader(b), raw(b)} }

// JSONBody makes the body of a request from a pointer to a struct.
func JSONBody(v any) *Body {
	if verifrt.Symbolic() {
		return &Body{bytes.NewReader(nil), v}
	}
	b, err := json.Marshal(v)
	verifrt.Assert(err == nil, "the body is valid")
	return &Body{bytes.NewReader(b), v}
}

// Do sends one request through a handler.
func Do(h http.Handler, method, path, query string, head map[string]string, body io.Reader, size int64) *Writer {
	return DoHost(h, method, "h", path, query, head, body, size)
}

// DoHost sends one request to a host.
func DoHost(h http.Handler, method, host, path, query string, head map[string]string, body io.Reader, size int64) (w *Writer) {
	w = &Writer{Head: http.Header{}}
	hd := http.Header{}
	for k, v := range head {
		hd[textproto.CanonicalMIMEHeaderKey(k)] = []string{v}
	}
	p, _ := url.PathUnescape(path)
	r := &http.Request{Method: method, URL: &url.URL{Path: p, RawQuery: query}, Header: hd, ProtoMajor: 1, ProtoMinor: 1, Host: host, ContentLength: size}
	if p != path {
		r.URL.RawPath = path
	}
	if body == nil {
		r.Body = http.NoBody
	} else if rc, ok := body.(io.ReadCloser); ok {
		r.Body = rc
	} else {
		r.Body = io.NopCloser(body)
	}
	if _, ok := body.(*Body); ok {
		hd["Content-Type"] = []string{"application/json"}
	}
	defer func() {
		if e := recover(); e != nil {
			if e != http.ErrAbortHandler {
				panic(e)
			}
			w.Abort = true
		}
	}()
	h.ServeHTTP(w, r)
	return w
}

func tag(f verifrt.Field, key string) (string, bool) {
	return reflect.StructTag(f.Tag).Lookup(key)
}

// fill maps values to the fields that carry the tag.
func fill(obj any, key string, get func(string) ([]string, bool)) error {
	for _, f := range verifrt.Fields(obj) {
		if f.Emb && f.Kind == "struct" && f.Ptr != nil {
			if err := fill(f.Ptr, key, get); err != nil {
				return err
			}
			continue
		}
		t, _ := tag(f, key)
		if t == "-" || f.Ptr == nil {
			continue
		}
		// gin takes the name of the field where there is no tag
		name, opt, _ := strings.Cut(t, ",")
		if name == "" {
			name = f.Name
		}
		vs, ok := get(name)
		if !ok || len(vs) == 0 {
			if !strings.HasPrefix(opt, "default=") {
				continue
			}
			vs = []string{opt[len("default="):]}
		}
		v := vs[0]
		switch f.Kind {
		case "string":
			verifrt.SetString(f.Ptr, v)
		case "bool":
			if v == "" {
				v = "false"
			}
			b, err := strconv.ParseBool(v)
			if err != nil {
				return ErrBind
			}
			verifrt.SetBool(f.Ptr, b)
		case "int":
			if v == "" {
				v = "0"
			}
			n, err := strconv.ParseInt(v, 10, 64)
			if err != nil {
				return ErrBind
			}
			verifrt.SetInt(f.Ptr, n)
			if verifrt.GetInt(f.Ptr) != n {
				return ErrBind
			}
		case "uint":
			if v == "" {
				v = "0"
			}
			n, err := strconv.ParseUint(v, 10, 64)
			if err != nil {
				return ErrBind
			}
			verifrt.SetInt(f.Ptr, int64(n))
			if uint64(verifrt.GetInt(f.Ptr)) != n {
				return ErrBind
			}
		case "struct": // gin takes it for JSON
			if strings.HasPrefix(v, "{") {
				panic("verifrt: binding of " + f.Name)
			}
			return ErrBind
		default:
			panic("verifrt: binding of " + f.Name)
		}
	}
	return nil
}

// check applies the binding rules of the tags.
func check(obj any) error {
	for _, f := range verifrt.Fields(obj) {
		if f.Kind == "struct" && f.Ptr != nil {
			if err := check(f.Ptr); err != nil {
				return err
			}
		}
		t, ok := tag(f, "binding")
		if !ok || t == "-" || f.Ptr == nil {
			continue
		}
		zero := func() bool {
			switch f.Kind {
			case "string":
				return verifrt.GetString(f.Ptr) == ""
			case "int", "uint":
				return verifrt.GetInt(f.Ptr) == 0
			case "slice":
				if s, ok := f.Ptr.(*[]string); ok {
					return *s == nil
				}
			}
			panic("verifrt: validation of " + f.Name)
		}
		num := func(s string) (have, want int64) {
			want, err := strconv.ParseInt(s, 10, 64)
			if err != nil {
				panic("verifrt: validation rule " + t)
			}
			switch f.Kind {
			case "string":
				return int64(len(verifrt.GetString(f.Ptr))), want
			case "slice":
				if s, ok := f.Ptr.(*[]string); ok {
					return int64(len(*s)), want
				}
				panic("verifrt: validation of " + f.Name)
			}
			return verifrt.GetInt(f.Ptr), want
		}
		skip := false
		for _, r := range strings.Split(t, ",") {
			if skip {
				break
			}
			rule, arg, _ := strings.Cut(r, "=")
			bad := false
			switch rule {
			case "required":
				bad = zero()
			case "omitempty":
				skip = zero()
			case "gte", "min":
				h, w := num(arg)
				bad = h < w
			case "gt":
				h, w := num(arg)
				bad = h <= w
			case "lte", "max":
				h, w := num(arg)
				bad = h > w
			case "lt":
				h, w := num(arg)
				bad = h >= w
			case "oneof":
				bad = true
				for _, o := range strings.Fields(arg) {
					if f.Kind == "string" {
						if verifrt.GetString(f.Ptr) == o {
							bad = false
						}
					} else if h, w := num(o); h == w {
						bad = false
					}
				}
			case "":
			default:
				panic("verifrt: validation rule " + r)
			}
			if bad {
				return Invalid
			}
		}
	}
	return nil
}

func uri(c *gin.Context) func(string) ([]string, bool) {
	return func(k string) ([]string, bool) {
		v, ok := c.Params.Get(k)
		return []string{v}, ok
	}
}

//gosym:model (*github.com/gin-gonic/gin.Context).ShouldBindUri
func zzUri(c *gin.Context, obj any) error {
	if err := fill(obj, "uri", uri(c)); err != nil {
		return err
	}
	return check(obj)
}

//gosym:model (*github.com/gin-gonic/gin.Context).ShouldBindWith
func zzWith(c *gin.Context, obj any, b binding.Binding) error {
	var err error
	switch b.Name() {
	case "header":
		err = fill(obj, "header", func(k string) ([]string, bool) {
			v, ok := c.Request.Header[textproto.CanonicalMIMEHeaderKey(k)]
			return v, ok
		})
	case "query", "form":
		q := c.Request.URL.Query()
		err = fill(obj, "form", func(k string) ([]string, bool) { v, ok := q[k]; return v, ok })
	case "json":
		b, ok := c.Request.Body.(*Body)
		if !ok {
			return ErrBind
		}
		if s, ok := b.V.(interface{ CopyTo(any) error }); ok {
			err = s.CopyTo(obj)
		} else if verifrt.Copy(obj, b.V) {
		} else if Marshal != nil {
			x, _ := Marshal(b.V)
			err = json.Unmarshal(x, obj)
		} else {
			panic("verifrt: JSON body for " + verifrt.TypeName(obj))
		}
	default:
		panic("verifrt: binding " + b.Name())
	}
	if err != nil {
		return err
	}
	return check(obj)
}

//gosym:model (*github.com/gin-gonic/gin.Context).ShouldBindBodyWith
func zzBodyWith(c *gin.Context, obj any, b binding.BindingBody) error { return zzWith(c, obj, b) }

//gosym:model (*github.com/gin-gonic/gin.Context).JSON
func zzJSON(c *gin.Context, code int, v any) {
	c.Status(code)
	c.Writer.WriteHeaderNow()
	Last = v
	if Marshal != nil {
		b, err := Marshal(v)
		verifrt.Assert(err == nil, "the response is valid")
		c.Writer.Write(b)
	}
}

// Marshal encodes JSON responses in the symbolic run, if set.
var Marshal func(any) ([]byte, error)

// Last is the value of the last JSON response, in the symbolic run.
var Last any

//gosym:model common/util.H2CHandler
func zzH2C(h http.Handler, g http.Handler) http.Handler { return h }

//gosym:model github.com/gin-gonic/gin.LoggerWithWriter
func zzLogger(w io.Writer, _ ...string) gin.HandlerFunc { return func(c *gin.Context) {} }

//gosym:model github.com/gin-gonic/gin.CustomRecoveryWithWriter
func zzRecovery(w io.Writer, handle gin.RecoveryFunc) gin.HandlerFunc {
	return func(c *gin.Context) {
		defer func() {
			if err := recover(); err != nil {
				handle(c, err)
			}
		}()
		c.Next()
	}
}

//gosym:model github.com/gin-gonic/gin.debugPrint
func zzDebugPrint(format string, values ...any) {}

//gosym:model github.com/gin-gonic/gin.debugPrintRoute
func zzDebugRoute(m, p string, h gin.HandlersChain) {}
