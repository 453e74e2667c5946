package main

import (
	"context"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"reflect"
	"sort"
	"strings"

	"verif/lib/jsonx"
	. "verif/lib/spec"
)

// Sent is the snapshot of an HTTP request, taken when it was sent.
type Sent struct {
	Method string
	Path   string
	URL    string
	Query  url.Values
	Header http.Header
	Body   string
	NoBody bool
	Ctx    context.Context
	Raw    *http.Request
}

// text returns the canonical representation of the request.
func (s *Sent) text() string {
	return fmt.Sprintf("%s %s?%s %s %s", s.Method, s.Path, s.Query.Encode(), headerText(s.Header), s.Body)
}

func headerText(h http.Header) string {
	var names []string
	for name := range h {
		names = append(names, name)
	}
	sort.Strings(names)
	var b strings.Builder
	for _, name := range names {
		fmt.Fprintf(&b, "%s=%q;", name, h[name])
	}
	return b.String()
}

// Transport is a transport that records the requests and returns the programmed responses.
type Transport struct {
	Sent    []*Sent
	Handler func(s *Sent) (*http.Response, error)
	Closed  int
	Opened  int
}

func (t *Transport) RoundTrip(r *http.Request) (*http.Response, error) {
	s := &Sent{
		Method: r.Method, Path: r.URL.Path, URL: r.URL.String(), Header: r.Header.Clone(), Ctx: r.Context(), Raw: r,
	}
	query, err := url.ParseQuery(r.URL.RawQuery)
	if err != nil {
		panic(fmt.Sprintf("query '%s' isn't valid: %v", r.URL.RawQuery, err))
	}
	s.Query = query
	if r.Body != nil {
		data, err := io.ReadAll(r.Body)
		if err != nil {
			panic(err)
		}
		s.Body = string(data)
	} else {
		s.NoBody = true
	}
	t.Sent = append(t.Sent, s)
	if t.Handler == nil {
		return t.Response(200, nil, ""), nil
	}
	return t.Handler(s)
}

// Response creates a response with the given body.
func (t *Transport) Response(status int, header http.Header, body string) *http.Response {
	return t.Reader(status, header, strings.NewReader(body))
}

// Reader creates a response with the given reader.
func (t *Transport) Reader(status int, header http.Header, reader io.Reader) *http.Response {
	t.Opened++
	return &http.Response{
		StatusCode: status, Header: header, Body: &body{Reader: reader, t: t},
		Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
	}
}

type body struct {
	io.Reader
	t      *Transport
	closed bool
}

func (b *body) Read(p []byte) (int, error) {
	if b.closed {
		panic("body was read after closing it")
	}
	return b.Reader.Read(p)
}

func (b *body) Close() error {
	if !b.closed {
		b.closed = true
		b.t.Closed++
	}
	return nil
}

// Route is a method reachable from the root of a version.
type Route struct {
	V    *Version
	Locs []*Locator
	R    *Resource
	M    *Method
}

func (r *Route) String() string {
	var b strings.Builder
	b.WriteString(r.V.Key())
	for _, l := range r.Locs {
		b.WriteString("/")
		b.WriteString(l.Name.String())
	}
	if r.M != nil {
		b.WriteString(":")
		b.WriteString(r.M.Name.String())
	}
	return b.String()
}

// routes returns all the routes of the model. Routes without method represent resources.
func routes() []*Route {
	var r []*Route
	for _, s := range model.Services {
		for _, v := range s.Versions {
			var walk func(res *Resource, locs []*Locator)
			walk = func(res *Resource, locs []*Locator) {
				r = append(r, &Route{V: v, Locs: locs, R: res})
				for _, m := range res.Methods {
					r = append(r, &Route{V: v, Locs: locs, R: res, M: m})
				}
				for _, l := range res.Locators {
					walk(v.Resource(l.Target), append(append([]*Locator{}, locs...), l))
				}
			}
			walk(v.Root(), nil)
		}
	}
	return r
}

// methodRoutes returns one route for each method of each resource.
func methodRoutes() []*Route {
	var r []*Route
	seen := map[*Method]bool{}
	for _, x := range routes() {
		if x.M != nil && !seen[x.M] {
			seen[x.M] = true
			r = append(r, x)
		}
	}
	return r
}

// serviceClient creates the client of the service.
func serviceClient(t http.RoundTripper, s *Service, base string) reflect.Value {
	return reflect.ValueOf(services[s.Name.Snake()]).Call([]reflect.Value{reflect.ValueOf(&t).Elem(), reflect.ValueOf(base)})[0]
}

// versionClient creates the client of the version.
func versionClient(t http.RoundTripper, v *Version, base string) reflect.Value {
	return method(serviceClient(t, v.Service, base), v.Name.Public()).Call(nil)[0]
}

// follow follows a locator.
func follow(client reflect.Value, l *Locator, id string) reflect.Value {
	var args []reflect.Value
	if l.Variable {
		args = append(args, reflect.ValueOf(id))
	}
	return method(client, l.GoName()).Call(args)[0]
}

// resourceClient creates the client of a resource, taking the identifiers in order.
func (r *Route) client(t http.RoundTripper, base string, ids []string) reflect.Value {
	client := versionClient(t, r.V, base)
	for _, l := range r.Locs {
		id := ""
		if l.Variable {
			id, ids = ids[0], ids[1:]
		}
		client = follow(client, l, id)
	}
	return client
}

// request creates the request of the route.
func (r *Route) request(t http.RoundTripper, base string, ids []string) reflect.Value {
	return method(r.client(t, base, ids), r.M.GoName()).Call(nil)[0]
}

// variables returns the number of variable locators.
func (r *Route) variables() int {
	n := 0
	for _, l := range r.Locs {
		if l.Variable {
			n++
		}
	}
	return n
}

// ids returns fixed identifiers for the variables of the route.
func (r *Route) ids() []string {
	var ids []string
	for i, n := 0, r.variables(); i < n; i++ {
		ids = append(ids, fmt.Sprintf("id%d", i))
	}
	return ids
}

// segments returns the expected segments, relative to the base of the service.
func (r *Route) segments(ids []string) []string {
	list := []string{r.V.Name.Snake()}
	for _, l := range r.Locs {
		if l.Variable {
			list = append(list, ids[0])
			ids = ids[1:]
		} else {
			list = append(list, l.Segment())
		}
	}
	if r.M != nil && r.M.Segment() != "" {
		list = append(list, r.M.Segment())
	}
	return list
}

// send sends a request.
func send(req reflect.Value) (response reflect.Value, err error) {
	out := method(req, "Send").Call(nil)
	err, _ = out[1].Interface().(error)
	return out[0], err
}

func sendContext(req reflect.Value, ctx context.Context) (response reflect.Value, err error) {
	out := method(req, "SendContext").Call([]reflect.Value{reflect.ValueOf(&ctx).Elem()})
	err, _ = out[1].Interface().(error)
	return out[0], err
}

// goValue converts an abstract value to the given Go type, that is the type of a parameter.
func goValue(val any, typ reflect.Type) reflect.Value {
	switch x := val.(type) {
	case *Obj:
		return object(x)
	case []any:
		if typ.Kind() == reflect.Ptr {
			panic("lists aren't expected here")
		}
		list := reflect.MakeSlice(typ, 0, len(x))
		for _, item := range x {
			list = reflect.Append(list, goValue(item, typ.Elem()))
		}
		return list
	case map[string]any:
		m := reflect.MakeMap(typ)
		for k, item := range x {
			m.SetMapIndex(reflect.ValueOf(k), goValue(item, typ.Elem()))
		}
		return m
	}
	return scalarGo(val, typ)
}

// setParam sets a parameter of a request.
func setParam(req reflect.Value, p *Param, val any) {
	m := method(req, p.GoName())
	out := m.Call([]reflect.Value{goValue(val, m.Type().In(0))})
	if out[0].Pointer() != req.Pointer() {
		panic(fmt.Sprintf("setter of parameter %s doesn't return the request", p.Name))
	}
}

var paramCache = map[*Param][]any{}

// paramSamples returns the representative values of a parameter.
func paramSamples(v *Version, p *Param) []any {
	r, ok := paramCache[p]
	if !ok {
		r = makeSamples(v, &Attr{Name: p.Name, Type: p.Type})
		paramCache[p] = r
	}
	return r
}

// bodyParam returns the input parameter that is the complete body of the request, or nil.
func bodyParam(v *Version, m *Method) *Param {
	if m.IsAction() {
		return nil
	}
	list := m.Body(v)
	if len(list) == 0 {
		return nil
	}
	return list[0]
}

// canonBody returns the canonical text of a body, or the problem.
func canonBody(text string) string {
	doc, err := jsonx.Decode([]byte(text))
	if err != nil {
		return "invalid: " + err.Error() + ": " + text
	}
	return jsonx.Canon(doc)
}
