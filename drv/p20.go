package main

import (
	"context"
	"fmt"
	"io"
	"net/http"
	"reflect"
	"strings"

	"example.com/gen/errors"
	"verif/lib/engine"
	. "verif/lib/spec"
)

// single checks if the response body of the method is directly the value of the output parameter.
func single(m *Method) bool {
	switch m.Name.String() {
	case "add", "get", "update", "async_update", "post":
		return true
	}
	return false
}

// responseDoc calculates the body of the response with the given output parameters.
func responseDoc(x *Route, values map[string]any, extra []field) string {
	out := x.M.Out()
	if len(out) == 0 {
		return ""
	}
	if single(x.M) {
		val, ok := values[out[0].Name.String()]
		if !ok {
			return ""
		}
		return compact(toJSON(val))
	}
	var fields []field
	for _, p := range out {
		if val, ok := values[p.Name.String()]; ok {
			fields = append(fields, field{p.BodyName(), compact(toJSON(val))})
		}
	}
	return docOf(append(fields, extra...))
}

// readParam reads an output parameter of a response, or a problem.
func readParam(v *Version, p *Param, response reflect.Value) (val any, present bool, err error) {
	plain := method(response, p.GoName()).Call(nil)[0]
	both := method(response, "Get"+p.GoName()).Call(nil)
	present = both[1].Bool()
	if !present {
		if !isZero(plain) || !isZero(both[0]) {
			err = fmt.Errorf("parameter %s is absent but its value is '%v'/'%v'", p.Name, plain, both[0])
		}
		return
	}
	if !reflect.DeepEqual(plain.Interface(), both[0].Interface()) {
		err = fmt.Errorf("accessors of parameter %s return different values", p.Name)
		return
	}
	if p.Type.Shape == List && plain.Kind() == reflect.Ptr {
		if plain.IsNil() {
			err = fmt.Errorf("list %s is present but it is nil", p.Name)
			return
		}
		slice := method(plain, "Slice").Call(nil)[0]
		list := []any{}
		for i := 0; i < slice.Len(); i++ {
			var item any
			item, err = readElem(v, p.Type.Elem, slice.Index(i))
			if err != nil {
				return
			}
			list = append(list, item)
		}
		if n := int(method(plain, "Len").Call(nil)[0].Int()); n != len(list) {
			err = fmt.Errorf("length of %s is %d, but it has %d items", p.Name, n, len(list))
		}
		val = list
		return
	}
	val, err = readValue(v, p.Type, plain)
	return
}

// checkParams checks that the response has exactly the given output parameters.
func checkParams(c *engine.Ctx, x *Route, response reflect.Value, values map[string]any) {
	for _, p := range x.M.Out() {
		val, present, err := readParam(x.V, p, response)
		c.Check(err == nil, "%v", err)
		want, ok := values[p.Name.String()]
		c.Equal("presence of parameter "+p.Name.String(), present, ok)
		if ok {
			c.Equal("parameter "+p.Name.String(), canon(val), canon(want))
		}
	}
}

func checkEnvelope(c *engine.Ctx, t *Transport, response reflect.Value, status int, header http.Header) {
	c.Equal("number of requests", len(t.Sent), 1)
	c.Equal("bodies closed", t.Closed, t.Opened)
	c.Check(!response.IsNil(), "response is nil")
	c.Equal("status", int(method(response, "Status").Call(nil)[0].Int()), status)
	got, _ := method(response, "Header").Call(nil)[0].Interface().(http.Header)
	c.Equal("headers", headerText(got), headerText(header))
}

// broken is a reader that returns part of the text, in chunks, and then an error.
type broken struct {
	text  string
	chunk int
	err   error
}

func (b *broken) Read(p []byte) (int, error) {
	if b.text == "" {
		return 0, b.err
	}
	n := len(b.text)
	if b.chunk > 0 && n > b.chunk {
		n = b.chunk
	}
	n = copy(p, b.text[:n])
	b.text = b.text[n:]
	return n, nil
}

var errBroken = fmt.Errorf("connection was reset")

var goodStatuses = []int{200, 201, 202, 203, 204, 206, 299, 300, 304, 399}
var badStatuses = []int{400, 401, 403, 404, 409, 410, 422, 429, 499, 500, 501, 502, 503, 504, 599}
var headers = []http.Header{
	nil,
	{"Content-Type": {"application/json"}},
	{"X-A": {"1", "2"}, "Retry-After": {"5"}, "Content-Type": {"text/html"}, "Date": {"Sun, 06 Nov 1994 08:49:37 GMT"}, "Server": {"s"},
		"Content-Length": {"7"}, "Location": {"/x"}, "Etag": {"e"}, "Set-Cookie": {"a=1", "b=2", "c=3"}, "Connection": {"close"}, "Link": {""}, "Content-Encoding": {"identity"},
		"Www-Authenticate": {"Bearer"}, "X-Operation-Id": {"op"}, "Vary": {"A", "B"}, "Cache-Control": {"no-cache"}, "not-canonical": {"x"}, "Empty": {}, "Transfer-Encoding": {"chunked"}},
}

func ready(x *Route, t *Transport) reflect.Value {
	req := x.request(t, "/api", x.ids())
	if p := bodyParam(x.V, x.M); p != nil {
		setParam(req, p, paramSamples(x.V, p)[1])
	}
	return req
}

func init() {
	properties["P20"] = &Property{
		Rule: "one execution per method and response given by the transport (status, headers, body, and the byte where it is truncated or fails); the response object is compared with the output parameters from which the body was calculated; outcomes are the distinct responses",
		Assumptions: []string{
			"empty bodies aren't errors, whatever the status",
			"bodies of methods without output parameters are ignored if they can be read and the status isn't an error",
			"nulls, content after the document, and the known findings of property P15 aren't included",
			"resources of the reference model (lib/models)",
		},
		Run: func(r *engine.Report) {
			limit := 8
			if r.Thorough() {
				limit = 12
			}
			for _, x := range methodRoutes() {
				out := x.M.Out()
				r.Explore("successful responses of "+x.String(), fmt.Sprintf("all the successful statuses and headers, all the subsets of output parameters for at most %d, otherwise all the sets of at most two and their complements, zero, typical and mixed values, with unknown fields and without them, reading everything and byte by byte", limit), func(c *engine.Ctx) {
					status := engine.Pick(c, "status", goodStatuses)
					header := engine.Pick(c, "header", headers)
					present := make([]bool, len(out))
					if len(out) <= limit {
						for i := range present {
							present[i] = c.Flag(out[i].Name.String())
						}
					} else if status != 200 || header == nil {
						full := c.Flag("full")
						for i := range present {
							present[i] = full
						}
					} else {
						others := c.Flag("complement")
						one := c.Choose("first", len(present)+1)
						two := c.Choose("second", len(present)+1)
						if two < one {
							c.Skip()
						}
						for i := range present {
							present[i] = (i == one || i == two) != others
						}
					}
					mode := c.Choose("mode", 3)
					extra := c.Choose("unknown", 2)
					chunk := c.Choose("chunk", 2)
					c.Commit()
					values := map[string]any{}
					for i, p := range out {
						if present[i] {
							n := mode
							if n == 2 {
								n = i % 2
							}
							values[p.Name.String()] = paramSamples(x.V, p)[n]
						}
					}
					var more []field
					if extra == 1 {
						more = []field{{"kind", `"ThingList"`}, {"unknown", `{"a":[{}]}`}}
					}
					doc := responseDoc(x, values, more)
					if len(out) == 0 && extra == 1 {
						doc = `{"something":1}`
					}
					t := &Transport{}
					t.Handler = func(s *Sent) (*http.Response, error) {
						return t.Reader(status, header, &broken{doc, chunk, io.EOF}), nil
					}
					response, err := send(ready(x, t))
					c.Check(err == nil, "response %d '%s' gives error: %v", status, doc, err)
					checkEnvelope(c, t, response, status, header)
					c.Check(method(response, "Error").Call(nil)[0].IsNil(), "response has an error")
					checkParams(c, x, response, values)
					c.Outcome(fmt.Sprintf("%d %s %s", status, headerText(header), doc))
				})
				if len(out) > 0 {
					r.Explore("values received by "+x.String(), "all the representative values of each output parameter", func(c *engine.Ctx) {
						p := engine.Pick(c, "parameter", out)
						val := engine.Pick(c, "value", paramSamples(x.V, p))
						c.Commit()
						values := map[string]any{p.Name.String(): val}
						t := &Transport{}
						t.Handler = func(s *Sent) (*http.Response, error) {
							return t.Response(200, nil, responseDoc(x, values, nil)), nil
						}
						response, err := send(ready(x, t))
						c.Check(err == nil, "can't send: %v", err)
						checkEnvelope(c, t, response, 200, nil)
						checkParams(c, x, response, values)
						c.Outcome(canon(val))
					})
				}
				r.Explore("large responses of "+x.String(), "each output parameter, the reason of an error, or an unknown field, with a long text, or with many items, up to 1 MiB, reading everything and in chunks", func(c *engine.Ctx) {
					many := c.Flag("many items")
					bad := c.Flag("error")
					p := engine.Pick(c, "parameter", append([]*Param{nil}, large(x.V, out, many)...))
					n := engine.Pick(c, "size", sizes(r.Thorough()))
					chunk := engine.Pick(c, "chunk", []int{0, 1000})
					c.Commit()
					if bad && (p != nil || many) {
						c.Skip()
					}
					status := 200
					values := map[string]any{}
					for _, q := range out {
						values[q.Name.String()] = paramSamples(x.V, q)[1]
					}
					text := strings.Repeat("0123456789", n/10)
					var more []field
					if p != nil {
						values[p.Name.String()] = enlarge(x.V, p.Type, n, many)
					} else if many {
						more = []field{{"unknown", "[" + strings.Repeat("{},", n/10) + "{}]"}}
					} else {
						more = []field{{"unknown", compact(text)}}
					}
					doc := responseDoc(x, values, more)
					e := AErr{"id": "1", "reason": text, "code": "C-1"}
					if bad {
						status = 500
						doc = compact(e.json())
					}
					t := &Transport{}
					t.Handler = func(s *Sent) (*http.Response, error) {
						return t.Reader(status, headers[1], &broken{doc, chunk, io.EOF}), nil
					}
					response, err := send(ready(x, t))
					c.Outcome(fmt.Sprint(status, n, len(doc)))
					checkEnvelope(c, t, response, status, headers[1])
					if bad {
						object, ok := err.(*errors.Error)
						e["status"] = status
						c.Check(ok, "error is %T", err)
						c.Equal("error", errText(object), e.canon())
						return
					}
					c.Check(err == nil, "response of %d bytes gives error: %v", len(doc), err)
					checkParams(c, x, response, values)
				})
				r.Explore("error responses of "+x.String(), "all the error statuses and all the subsets of the fields of errors", func(c *engine.Ctx) {
					status := engine.Pick(c, "status", badStatuses)
					e := AErr{}
					for i, name := range errFields {
						if c.Flag(name) {
							e[name] = errSamples[i][0]
						}
					}
					c.Commit()
					t := &Transport{}
					header := headers[status%3]
					t.Handler = func(s *Sent) (*http.Response, error) {
						return t.Response(status, header, compact(e.json())), nil
					}
					response, err := send(ready(x, t))
					c.Check(err != nil, "status %d with body '%s' doesn't give an error", status, compact(e.json()))
					checkEnvelope(c, t, response, status, header)
					want := e.clone()
					want["status"] = status
					object, ok := err.(*errors.Error)
					c.Check(ok, "error is %T", err)
					c.Equal("error", errText(object), want.canon())
					other, _ := method(response, "Error").Call(nil)[0].Interface().(*errors.Error)
					c.Check(other == object || errText(other) == want.canon(), "error of the response is different")
					checkParams(c, x, response, nil)
					c.Outcome(fmt.Sprintf("%d %s", status, want.canon()))
				})
				r.Explore("failures of "+x.String(), "all the lengths at which the body of a successful or error response is truncated or its reader fails, reading everything and byte by byte", func(c *engine.Ctx) {
					bad := c.Flag("error")
					values := map[string]any{}
					for _, p := range out {
						values[p.Name.String()] = paramSamples(x.V, p)[1]
					}
					status := 200
					doc := responseDoc(x, values, nil)
					if bad {
						status = 500
						e := AErr{}
						for i, name := range errFields {
							e[name] = errSamples[i][0]
						}
						doc = compact(e.json())
					} else if doc == "" {
						doc = `{"a":1}`
					}
					n := c.Choose("length", len(doc)+1)
					fail := c.Flag("fail")
					chunk := c.Choose("chunk", 2)
					c.Commit()
					t := &Transport{}
					t.Handler = func(s *Sent) (*http.Response, error) {
						err := io.EOF
						if fail {
							err = errBroken
						}
						return t.Reader(status, headers[1], &broken{doc[:n], chunk, err}), nil
					}
					response, err := send(ready(x, t))
					c.Equal("bodies closed", t.Closed, t.Opened)
					switch {
					case n == len(doc) && !fail:
						c.Check(bad == (err != nil), "error for complete body is %v", err)
					case n == len(doc):
						// The complete document was received.
					case n == 0 && !fail:
						c.Check(err == nil, "empty body gives error: %v", err)
						checkEnvelope(c, t, response, status, headers[1])
						checkParams(c, x, response, nil)
					case !bad && len(out) == 0 && n > 0:
						// The body is ignored.
					default:
						c.Check(err != nil, "body '%s' that ends with failure=%v gives no error", doc[:n], fail)
					}
					if !response.IsNil() {
						checkEnvelope(c, t, response, status, headers[1])
					}
					c.Outcome(fmt.Sprint(bad, fail, n, err != nil))
				})
				r.Explore("malformed responses of "+x.String(), "all the malformed bodies and bodies of the wrong type", func(c *engine.Ctx) {
					bodies := []string{
						"<html>Bad gateway</html>", "{", "[", "\"", "abc", "{]", "[}", "{\"a\":}", "{\"a\" 1}", "{a:1}", "{'a':1}", "tru", "-", "{\"a\":1", "\x00",
						"true", "12", `"x"`, "{,}", "{\"a\":1 \"b\":2}", "{\"a\":1,,}",
					}
					list := len(out) > 0 && single(x.M) && out[0].Type.Shape == List
					bad := c.Flag("error")
					if list && !bad {
						bodies = append(bodies, "{}", `{"items":[]}`)
					} else {
						bodies = append(bodies, "[]", "[{}]")
					}
					if bad {
						for _, name := range errFields {
							switch name {
							case "details":
							case "status":
								bodies = append(bodies, `{"status":"x"}`, `{"status":{}}`)
							default:
								bodies = append(bodies, fmt.Sprintf(`{%q:1}`, name), fmt.Sprintf(`{%q:{}}`, name), fmt.Sprintf(`{%q:[]}`, name))
							}
						}
						bodies = append(bodies, `{"timestamp":"yesterday"}`)
					} else if !single(x.M) {
						for _, p := range out {
							for _, w := range wrongValues(x.V, p.Type, false) {
								bodies = append(bodies, docOf([]field{{p.BodyName(), w}}))
							}
						}
					}
					text := engine.Pick(c, "body", bodies)
					c.Commit()
					if !bad && len(out) == 0 {
						c.Skip()
					}
					status := 200
					if bad {
						status = 502
					}
					t := &Transport{}
					t.Handler = func(s *Sent) (*http.Response, error) { return t.Response(status, headers[2], text), nil }
					response, err := send(ready(x, t))
					c.Equal("bodies closed", t.Closed, t.Opened)
					c.Check(err != nil, "status %d and body '%s' gives no error", status, text)
					if !response.IsNil() {
						checkEnvelope(c, t, response, status, headers[2])
					}
					c.Outcome(fmt.Sprint(status, text, strings.SplitN(err.Error(), "\n", 2)[0]))
				})
				r.Explore("transport failures of "+x.String(), "a failure of the transport, with and without context", func(c *engine.Ctx) {
					kind := c.Choose("kind", 3)
					c.Commit()
					t := &Transport{}
					t.Handler = func(s *Sent) (*http.Response, error) { return nil, errBroken }
					req := ready(x, t)
					var err error
					switch kind {
					case 0:
						_, err = send(req)
					case 1:
						_, err = sendContext(req, context.Background())
					case 2:
						_, err = sendContext(req, nil)
					}
					c.Check(err == errBroken, "error is '%v' instead of the error of the transport", err)
					c.Equal("number of requests", len(t.Sent), 1)
					c.Outcome(x.M.Name.String())
				})
				r.Explore("nil response of "+x.String(), "all the accessors", func(c *engine.Ctx) {
					c.Commit()
					req := x.request(&Transport{}, "/", x.ids())
					nilAccessors(c, method(req, "Send").Type().Out(0))
				})
			}
			for _, x := range routes() {
				if x.M == nil || x.M.Name.String() != "get" {
					continue
				}
				r.Explore("nil poll response of "+x.String(), "all the accessors", func(c *engine.Ctx) {
					c.Commit()
					req := method(x.client(&Transport{}, "/", x.ids()), "Poll").Call(nil)[0]
					nilAccessors(c, method(req, "StartContext").Type().Out(0))
				})
			}
			for _, s := range model.Services {
				for _, v := range s.Versions {
					metadata := func(t *Transport) reflect.Value {
						return method(versionClient(t, v, "/api"), "Get").Call(nil)[0]
					}
					r.Explore("metadata of "+v.Key(), "all the statuses, documents, and lengths at which the document is truncated or its reader fails", func(c *engine.Ctx) {
						status := engine.Pick(c, "status", append(append([]int{}, goodStatuses...), badStatuses...))
						bad := status >= 400
						doc := engine.Pick(c, "document", []string{`{"server_version":"1.2.3"}`, `{"kind":"X","server_version":"","a":{}}`, `{}`, ``})
						e := AErr{"id": "1", "reason": "because", "code": "C-1"}
						if bad {
							doc = compact(e.json())
						}
						n := c.Choose("length", len(doc)+1)
						fail := c.Flag("fail")
						c.Commit()
						t := &Transport{}
						t.Handler = func(s *Sent) (*http.Response, error) {
							err := io.EOF
							if fail {
								err = errBroken
							}
							return t.Reader(status, headers[1], &broken{doc[:n], 0, err}), nil
						}
						response, err := send(metadata(t))
						if !response.IsNil() {
							checkEnvelope(c, t, response, status, headers[1])
						}
						c.Equal("bodies closed", t.Closed, t.Opened)
						c.Outcome(fmt.Sprint(status, doc, n, fail))
						if n == 0 && !fail {
							c.Check(err == nil, "empty body gives error: %v", err)
							return
						}
						if n < len(doc) || (n == 0 && fail) {
							c.Check(err != nil, "truncated document '%s' gives no error", doc[:n])
							return
						}
						if fail {
							return
						}
						if bad {
							object, ok := err.(*errors.Error)
							want := e.clone()
							want["status"] = status
							c.Check(ok, "error is %T", err)
							c.Equal("error", errText(object), want.canon())
							return
						}
						c.Check(err == nil, "can't read metadata: %v", err)
						body := method(response, "Body").Call(nil)[0]
						c.Check(!body.IsNil(), "body is nil")
						got := method(body, "GetServerVersion").Call(nil)
						want, ok := map[string]string{`{"server_version":"1.2.3"}`: "1.2.3", `{"kind":"X","server_version":"","a":{}}`: ""}[doc]
						c.Equal("presence of the version", got[1].Bool(), ok)
						c.Equal("version", got[0].String(), want)
						c.Equal("version", method(body, "ServerVersion").Call(nil)[0].String(), want)
					})
					r.Explore("large metadata of "+v.Key(), "the version, an unknown field or the reason of an error with a long text, up to 1 MiB, reading everything and in chunks", func(c *engine.Ctx) {
						kind := c.Choose("kind", 3)
						n := engine.Pick(c, "size", sizes(r.Thorough()))
						chunk := engine.Pick(c, "chunk", []int{0, 1000})
						c.Commit()
						text := strings.Repeat("0123456789", n/10)
						status := 200
						want := text
						doc := docOf([]field{{"server_version", compact(text)}})
						e := AErr{"id": "1", "reason": text, "code": "C-1"}
						switch kind {
						case 1:
							want = "1.2.3"
							doc = docOf([]field{{"unknown", compact(text)}, {"server_version", compact(want)}})
						case 2:
							status = 404
							doc = compact(e.json())
						}
						t := &Transport{}
						t.Handler = func(s *Sent) (*http.Response, error) {
							return t.Reader(status, headers[1], &broken{doc, chunk, io.EOF}), nil
						}
						response, err := send(metadata(t))
						c.Outcome(fmt.Sprint(kind, n, chunk))
						checkEnvelope(c, t, response, status, headers[1])
						if kind == 2 {
							object, ok := err.(*errors.Error)
							e["status"] = status
							c.Check(ok, "error is %T", err)
							c.Equal("error", errText(object), e.canon())
							return
						}
						c.Check(err == nil, "can't read metadata of %d bytes: %v", len(doc), err)
						body := method(response, "Body").Call(nil)[0]
						c.Check(!body.IsNil(), "body is nil")
						c.Equal("version", method(body, "ServerVersion").Call(nil)[0].String(), want)
					})
					r.Explore("transport failures of metadata of "+v.Key(), "a failure of the transport", func(c *engine.Ctx) {
						c.Commit()
						t := &Transport{}
						t.Handler = func(s *Sent) (*http.Response, error) { return nil, errBroken }
						_, err := send(metadata(t))
						c.Check(err == errBroken, "error is '%v' instead of the error of the transport", err)
					})
					r.Explore("nil metadata of "+v.Key(), "all the accessors", func(c *engine.Ctx) {
						c.Commit()
						typ := method(metadata(&Transport{}), "Send").Type().Out(0)
						nilAccessors(c, typ)
						body, _ := typ.MethodByName("Body")
						nilAccessors(c, body.Type.Out(0))
					})
				}
			}
		},
	}
}

// nilAccessors checks that all the accessors of a nil pointer return zero values.
func nilAccessors(c *engine.Ctx, typ reflect.Type) {
	value := reflect.Zero(typ)
	for i := 0; i < typ.NumMethod(); i++ {
		m := typ.Method(i)
		if m.Type.NumIn() != 1 {
			continue
		}
		for _, out := range value.Method(i).Call(nil) {
			c.Check(isZero(out), "method %s of nil %s returns '%v'", m.Name, typ, out)
		}
		c.Outcome(typ.String() + m.Name)
	}
}
