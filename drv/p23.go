package main

import (
	"bytes"
	"fmt"
	"net/http"
	"net/http/httptest"
	"strings"
	"time"

	"example.com/gen/errors"
	"verif/lib/engine"
	"verif/lib/jsonx"
)

// errorText checks the text of an error.
func checkErrorText(c *engine.Ctx, e *errors.Error, a AErr) {
	text := e.Error()
	c.Equal("string", e.String(), text)
	c.Check(text != "", "text is empty")
	mention := func(name, mark string, value any) {
		_, ok := a[name]
		if ok {
			c.Check(strings.Contains(text, fmt.Sprint(value)), "text '%s' doesn't mention '%s', that is '%v'", text, name, value)
			return
		}
		// The reason can contain anything:
		head := text
		if reason, ok := a["reason"].(string); ok {
			head = strings.TrimSuffix(text, reason)
		}
		head = strings.ReplaceAll(head, "operation identifier is", "operation")
		c.Check(!strings.Contains(head, mark), "text '%s' mentions '%s', that isn't present", text, name)
	}
	mention("status", "status is", a["status"])
	mention("id", "identifier is '", a["id"])
	if _, ok := a["operation_id"]; ok {
		c.Check(strings.Contains(text, a["operation_id"].(string)), "text '%s' doesn't mention the operation identifier", text)
	} else {
		head := strings.TrimSuffix(text, fmt.Sprint(a["reason"]))
		c.Check(!strings.Contains(head, "operation identifier"), "text '%s' mentions the operation identifier, that isn't present", text)
	}
	mention("code", "code is", a["code"])
	mention("reason", "\x00", a["reason"])
	if t, ok := a["timestamp"].(time.Time); ok {
		found := strings.Contains(text, t.Format(time.RFC3339)) || strings.Contains(text, t.UTC().Format(time.RFC3339))
		c.Check(found, "text '%s' doesn't mention the timestamp", text)
	}
}

func init() {
	properties["P23"] = &Property{
		Rule: "one execution per error (subset of fields and values), per history of the builder, or per document; accessors, JSON, text and HTTP responses are compared with the abstract error; outcomes are the distinct errors",
		Assumptions: []string{
			"details are values that can be represented with JSON",
			"nil timestamps and nulls aren't included in documents",
		},
		Run: func(r *engine.Report) {
			build := func(c *engine.Ctx, b *errors.ErrorBuilder) *errors.Error {
				e, err := b.Build()
				c.Check(err == nil, "can't build: %v", err)
				return e
			}
			encode := func(c *engine.Ctx, e *errors.Error) string {
				var b bytes.Buffer
				err := errors.MarshalError(e, &b)
				c.Check(err == nil, "can't write: %v", err)
				return b.String()
			}
			all := func(c *engine.Ctx, a AErr) {
				e := build(c, a.builder())
				c.Equal("error", errText(e), a.canon())
				c.Equal("kind", e.Kind(), "Error")
				checkErrorText(c, e, a)
				text := encode(c, e)
				doc, err := jsonx.Decode([]byte(text))
				c.Check(err == nil, "document '%s' isn't valid: %v", text, err)
				c.Equal("document", jsonx.Canon(doc), jsonx.Canon(any(a.json())))
				c.Equal("document written again", encode(c, e), text)
				for _, source := range []any{text, []byte(text), strings.NewReader(text), &broken{text, 1, fmt.Errorf("EOF")}} {
					if b, ok := source.(*broken); ok {
						b.err = errEOF
					}
					again, err := errors.UnmarshalError(source)
					c.Check(err == nil, "can't read '%s': %v", text, err)
					c.Equal("error that was read", errText(again), a.canon())
					c.Equal("text of error that was read", again.Error() != "", true)
				}
				for _, status := range []int{0, 200, 404, 599} {
					again, err := errors.UnmarshalErrorStatus(text, status)
					c.Check(err == nil, "can't read '%s': %v", text, err)
					want := a.clone()
					want["status"] = status
					c.Equal("error with status", errText(again), want.canon())
				}
				copied := build(c, errors.NewError().Copy(e))
				c.Equal("copy", errText(copied), a.canon())
				c.Equal("error after everything", errText(e), a.canon())
				c.Outcome(a.canon())
			}
			r.Explore("subsets", "all the subsets of fields with typical and alternative values", func(c *engine.Ctx) {
				mode := c.Choose("mode", 3)
				a := AErr{}
				for i, name := range errFields {
					if c.Flag(name) {
						a[name] = errSamples[i][mode%len(errSamples[i])]
					}
				}
				c.Commit()
				all(c, a)
			})
			r.Explore("values", "all the representative values of all the pairs of fields", func(c *engine.Ctx) {
				i := c.Choose("first", len(errFields))
				v := engine.Pick(c, "value", errSamples[i])
				j := c.Choose("second", len(errFields))
				w := engine.Pick(c, "value", errSamples[j])
				c.Commit()
				if j < i {
					c.Skip()
				}
				all(c, AErr{errFields[i]: v, errFields[j]: w})
			})
			r.Explore("empty", "the empty error and the nil error", func(c *engine.Ctx) {
				kind := c.Choose("kind", 2)
				c.Commit()
				if kind == 0 {
					all(c, AErr{})
					return
				}
				var e *errors.Error
				c.Equal("kind", e.Kind(), "ErrorNil")
				a, _ := readErrNil(e)
				c.Equal("fields", a.canon(), "")
				c.Equal("copy of nil", errText(build(c, errors.NewError().ID("1").Copy(nil))), AErr{"id": "1"}.canon())
			})
			depth := 3
			if r.Thorough() {
				depth = 4
			}
			r.Explore("histories of the builder", fmt.Sprintf("all the sequences of %d operations: set each field with two values, copy two objects, build", depth), func(c *engine.Ctx) {
				n := 2*len(errFields) + 3
				ops := make([]int, depth)
				for i := range ops {
					ops[i] = c.Choose("operation", n)
				}
				c.Commit()
				first := AErr{"id": "x", "status": 1, "timestamp": date1}
				second := AErr{"reason": "y", "code": "", "details": "z", "operation_id": "w", "href": "v"}
				b := errors.NewError()
				current := AErr{}
				type built struct {
					e *errors.Error
					a AErr
				}
				var list []built
				step := func() {
					e := build(c, b)
					list = append(list, built{e, current.clone()})
				}
				for _, op := range ops {
					switch {
					case op < 2*len(errFields):
						v := errSamples[op/2][op%2]
						setErr(b, errFields[op/2], v)
						current[errFields[op/2]] = v
					case op < 2*len(errFields)+2:
						a := first
						if op == 2*len(errFields)+1 {
							a = second
						}
						b.Copy(build(c, a.builder()))
						current = a.clone()
					default:
						step()
					}
				}
				step()
				for _, x := range list {
					c.Equal("error", errText(x.e), x.a.canon())
				}
				c.Outcome(current.canon())
			})
			r.Explore("documents", "a full document truncated at all the lengths, with wrong values and with unknown fields in all the positions", func(c *engine.Ctx) {
				full := AErr{}
				for i, name := range errFields {
					full[name] = errSamples[i][0]
				}
				text := compact(full.json())
				kind := c.Choose("kind", 3)
				switch kind {
				case 0:
					n := c.Choose("length", len(text))
					c.Commit()
					_, err := errors.UnmarshalError(text[:n])
					c.Check(err != nil, "document '%s' gives no error", text[:n])
					_, err = errors.UnmarshalErrorStatus(&broken{text[:n], 1, errBroken}, 500)
					c.Check(err != nil, "reader that fails after '%s' gives no error", text[:n])
					c.Outcome(text[:n])
				case 1:
					name := engine.Pick(c, "field", errFields)
					value := engine.Pick(c, "value", []string{"1", "1.5", "true", `"x"`, `""`, "[]", "{}"})
					c.Commit()
					valid := name == "details" || (name == "status" && value == "1") ||
						(name != "status" && name != "timestamp" && strings.HasPrefix(value, `"`))
					doc := fmt.Sprintf(`{%q:%s}`, name, value)
					_, err := errors.UnmarshalError(doc)
					c.Check(valid == (err == nil), "result for document '%s' is '%v'", doc, err)
					c.Outcome(doc)
				case 2:
					pos := c.Choose("position", len(errFields)+1)
					value := engine.Pick(c, "value", unknown)
					c.Commit()
					var fields []field
					for i, name := range errFields {
						if i == pos {
							fields = append(fields, field{"unknown", value})
						}
						fields = append(fields, field{name, compact(full.json()[name])})
					}
					if pos == len(errFields) {
						fields = append(fields, field{"unknown", value})
					}
					e, err := errors.UnmarshalError(docOf(fields))
					c.Check(err == nil, "can't read '%s': %v", docOf(fields), err)
					c.Equal("error", errText(e), full.canon())
					c.Outcome(docOf(fields))
				}
			})
			r.Explore("sources", "sources of unsupported types", func(c *engine.Ctx) {
				source := engine.Pick(c, "source", []any{nil, 1, true, struct{}{}, map[string]any{}})
				c.Commit()
				_, err := errors.UnmarshalError(source)
				c.Check(err != nil, "source %T gives no error", source)
			})
			r.Explore("HTTP", "all the identifiers, subsets of the rest of the fields and kinds of senders", func(c *engine.Ctx) {
				sender := c.Choose("sender", 4)
				verb := engine.Pick(c, "method", []string{"GET", "POST", "PATCH", "DELETE"})
				path := engine.Pick(c, "path", []string{"/api/x", "/", "/a%20b%22c", "/ñ"})
				a := AErr{"id": "404"}
				if sender == 0 {
					a["id"] = engine.Pick(c, "id", []string{"400", "401", "404", "409", "418", "500", "503", "599", "200"})
					for i, name := range errFields {
						if name != "id" && c.Flag(name) {
							a[name] = errSamples[i][0]
						}
					}
				}
				c.Commit()
				req, err := http.NewRequest(verb, "http://server"+path, nil)
				c.Check(err == nil, "%v", err)
				w := httptest.NewRecorder()
				want := 0
				switch sender {
				case 0:
					fmt.Sscan(a["id"].(string), &want)
					errors.SendError(w, req, build(c, a.builder()))
				case 1:
					want = 404
					errors.SendNotFound(w, req)
				case 2:
					want = 405
					errors.SendMethodNotAllowed(w, req)
				case 3:
					want = 500
					errors.SendInternalServerError(w, req)
				}
				res := w.Result()
				c.Equal("status", res.StatusCode, want)
				c.Equal("content type", res.Header.Get("Content-Type"), "application/json")
				text := w.Body.String()
				doc, err := jsonx.Decode([]byte(text))
				c.Check(err == nil, "body '%s' isn't valid: %v", text, err)
				if sender == 0 {
					c.Equal("body", jsonx.Canon(doc), jsonx.Canon(any(a.json())))
				} else {
					e, err := errors.UnmarshalError(text)
					c.Check(err == nil, "%v", err)
					c.Equal("identifier", e.ID(), fmt.Sprint(want))
					c.Check(strings.Contains(e.Reason(), "'"+req.URL.Path+"'"), "reason '%s' doesn't mention the path", e.Reason())
					if sender > 1 {
						c.Check(strings.Contains(e.Reason(), "'"+verb+"'"), "reason '%s' doesn't mention the method", e.Reason())
					}
				}
				c.Outcome(text)
			})
			r.Explore("failing writers", "all the subsets of fields, failure of the writer at each byte", func(c *engine.Ctx) {
				a := AErr{}
				for i, name := range errFields {
					if c.Flag(name) {
						a[name] = errSamples[i][0]
					}
				}
				e := build(c, a.builder())
				text := encode(c, e)
				n := c.Choose("bytes", len(text)+1)
				c.Commit()
				err := errors.MarshalError(e, &failing{n, errInjected})
				c.Equal(fmt.Sprintf("failure writing %d of %d bytes is reported", n, len(text)), err != nil, n < len(text))
				c.Outcome(fmt.Sprint(text, n))
			})
			r.Explore("HTTP failures", "errors with and without identifiers that aren't numbers, and connections that fail after any number of bytes", func(c *engine.Ctx) {
				sender := c.Choose("sender", 5)
				id := "404"
				if sender == 0 {
					id = engine.Pick(c, "id", []string{"404", "", "x", "CLUSTERS-MGMT-404", "4x", "4.5"})
				}
				limit := engine.Pick(c, "limit", []int{0, 1, 2, 16, 64, 1 << 20})
				c.Commit()
				req, err := http.NewRequest("GET", "http://server/api/x", nil)
				c.Check(err == nil, "%v", err)
				w := &failingResponse{header: http.Header{}, failing: failing{limit, errInjected}}
				switch sender {
				case 0:
					errors.SendError(w, req, build(c, errors.NewError().ID(id).Reason("my reason")))
				case 1:
					errors.SendNotFound(w, req)
				case 2:
					errors.SendMethodNotAllowed(w, req)
				case 3:
					errors.SendInternalServerError(w, req)
				case 4:
					errors.SendPanic(w, req)
				}
				c.Equal("content type", w.header.Get("Content-Type"), "application/json")
				c.Check(w.calls <= 1, "status was sent %d times", w.calls)
				if limit > 1000 {
					e, err := errors.UnmarshalError(w.body.String())
					c.Check(err == nil, "body '%s' isn't an error: %v", &w.body, err)
					c.Check(e.Reason() != "" && e.ID() != "", "body '%s' has no reason or identifier", &w.body)
				}
				c.Outcome(fmt.Sprint(sender, id, w.body.String()))
			})
		},
	}
}

// readErrNil reads a nil error.
func readErrNil(e *errors.Error) (AErr, error) {
	a := AErr{}
	add := func(name string, zero, ok bool) {
		if !zero || ok {
			a[name] = "present"
		}
	}
	status, ok := e.GetStatus()
	add("status", e.Status() == 0 && status == 0, ok)
	id, ok := e.GetID()
	add("id", e.ID() == "" && id == "", ok)
	href, ok := e.GetHREF()
	add("href", e.HREF() == "" && href == "", ok)
	code, ok := e.GetCode()
	add("code", e.Code() == "" && code == "", ok)
	reason, ok := e.GetReason()
	add("reason", e.Reason() == "" && reason == "", ok)
	op, ok := e.GetOperationID()
	add("operation_id", e.OperationID() == "" && op == "", ok)
	details, ok := e.GetDetails()
	add("details", e.Details() == nil && details == nil, ok)
	stamp, ok := e.GetTimestamp()
	add("timestamp", e.Timestamp() == nil && stamp == nil, ok)
	return a, nil
}

// failingResponse is a response writer for a connection that fails after some bytes.
type failingResponse struct {
	failing
	header http.Header
	calls  int
	body   bytes.Buffer
}

func (w *failingResponse) Header() http.Header { return w.header }

func (w *failingResponse) WriteHeader(int) { w.calls++ }

func (w *failingResponse) Write(p []byte) (int, error) {
	n, err := w.failing.Write(p)
	w.body.Write(p[:n])
	return n, err
}
