package main

import (
	"context"
	"fmt"
	"net/http"
	"reflect"

	"verif/lib/engine"
	. "verif/lib/spec"
)

// metadataExtras are the things that can be added to metadata requests.
var metadataExtras = []extra{
	{0, "user", "text", "text"}, {0, "user", 42, "42"}, {0, "a&b=c", "d e&f=ñ+%", "d e&f=ñ+%"}, {0, "empty", "", ""},
	{0, "date", date2, "2000-02-29T18:29:59Z"}, {0, "user", true, "true"},
	{1, "X-User", "text", "text"}, {1, "x-user", 42, "42"}, {1, "Accept", "a/b;q=1", "a/b;q=1"}, {1, "X-Empty", "", ""},
}

// eachVersion runs the function for all the versions.
func eachVersion(f func(v *Version)) {
	for _, s := range model.Services {
		for _, v := range s.Versions {
			f(v)
		}
	}
}

// checkMetadata verifies a metadata request.
func (e *expectation) checkMetadata(c *engine.Ctx, v *Version, base string, s *Sent) {
	c.Equal("request", s.Method+" "+s.Path, "GET "+base+"/"+v.Name.Snake())
	query := queryCanon(e.query)
	c.Equal("query", queryCanon(s.Query), query)
	for name, want := range e.query {
		c.Equal("values of "+name, fmt.Sprintf("%q", s.Query[name]), fmt.Sprintf("%q", want))
	}
	c.Equal("headers", headerText(s.Header), headerText(e.header))
	c.Equal("body", s.Body, "")
}

// metadataParameters checks what is sent in metadata requests.
func metadataParameters(r *engine.Report) {
	depth := 3
	if r.Thorough() {
		depth = 4
	}
	eachVersion(func(v *Version) {
		r.Explore("metadata of "+v.Key(), fmt.Sprintf("all the sequences of up to %d parameters and headers", depth), func(c *engine.Ctx) {
			n := c.Choose("number", depth+1)
			var list []extra
			for i := 0; i < n; i++ {
				list = append(list, engine.Pick(c, "extra", metadataExtras))
			}
			c.Commit()
			t := &Transport{}
			req := method(versionClient(t, v, "/api"), "Get").Call(nil)[0]
			e := newExpectation()
			for _, x := range list {
				e.apply(req, x)
			}
			_, err := send(req)
			c.Check(err == nil, "can't send: %v", err)
			c.Equal("number of requests", len(t.Sent), 1)
			e.checkMetadata(c, v, "/api", t.Sent[0])
			c.Outcome(t.Sent[0].text())
		})
	})
}

// metadataHistories checks that metadata requests can be reused.
func metadataHistories(r *engine.Report) {
	depth := 4
	if r.Thorough() {
		depth = 6
	}
	type meta struct {
		req reflect.Value
		e   *expectation
	}
	ops := []extra{{0, "user", "a", "a"}, {0, "user", 2, "2"}, {1, "X-User", "b", "b"}, {1, "X-User", 3, "3"}}
	eachVersion(func(v *Version) {
		r.Explore("histories of metadata of "+v.Key(), fmt.Sprintf("all the sequences of %d operations on two requests: add a parameter or a header, send, create again; the transport modifies what it receives", depth), func(c *engine.Ctx) {
			total := len(ops) + 2
			list := make([]int, depth)
			for i := range list {
				list[i] = c.Choose("operation", 2*total)
			}
			c.Commit()
			t := &Transport{}
			client := versionClient(t, v, "/base")
			fresh := func() *meta {
				return &meta{method(client, "Get").Call(nil)[0], newExpectation()}
			}
			reqs := []*meta{fresh(), fresh()}
			type result struct {
				response reflect.Value
				text     string
			}
			var results []result
			run := func(m *meta) {
				n := len(t.Sent)
				text := fmt.Sprint("1.", n)
				ctx := context.WithValue(context.Background(), ctxKey{}, n)
				t.Handler = func(s *Sent) (*http.Response, error) {
					m.e.checkMetadata(c, v, "/base", s)
					c.Check(s.Ctx.Value(ctxKey{}) == n, "the context of the request isn't the given one")
					clobber(s.Raw)
					return t.Response(200, http.Header{"X-Number": {text}}, `{"server_version":"`+text+`"}`), nil
				}
				response, err := sendContext(m.req, ctx)
				c.Check(err == nil, "can't send: %v", err)
				c.Equal("number of requests", len(t.Sent), n+1)
				results = append(results, result{response, text})
			}
			for _, op := range list {
				m := reqs[op/total]
				switch op := op % total; op {
				case len(ops):
					run(m)
				case len(ops) + 1:
					*m = *fresh()
				default:
					m.e.apply(m.req, ops[op])
				}
				c.State(fmt.Sprint(len(t.Sent), op, queryCanon(m.e.query), headerText(m.e.header)))
			}
			for _, i := range []int{0, 1, 0} {
				run(reqs[i])
			}
			text := ""
			for i, x := range results {
				body := method(x.response, "Body").Call(nil)[0]
				c.Equal("version", method(body, "ServerVersion").Call(nil)[0].String(), x.text)
				header := method(x.response, "Header").Call(nil)[0].Interface().(http.Header)
				c.Equal("header", headerText(header), headerText(http.Header{"X-Number": {x.text}}))
				text += t.Sent[i].text()
			}
			c.Outcome(text)
		})
		r.Explore("contexts of metadata of "+v.Key(), "explicit, cancelled, nil and default contexts", func(c *engine.Ctx) {
			kind := c.Choose("kind", 4)
			c.Commit()
			t := &Transport{}
			req := method(versionClient(t, v, "/base"), "Get").Call(nil)[0]
			var err error
			ctx := context.Background()
			switch kind {
			case 0:
				_, err = send(req)
			case 1:
				_, err = sendContext(req, nil)
			case 2:
				ctx = context.WithValue(ctx, ctxKey{}, "x")
				_, err = sendContext(req, ctx)
			case 3:
				cancelled, cancel := context.WithCancel(ctx)
				cancel()
				ctx = cancelled
				_, err = sendContext(req, ctx)
			}
			c.Check(err == nil, "can't send: %v", err)
			got := t.Sent[0].Ctx
			c.Check(got.Value(ctxKey{}) == ctx.Value(ctxKey{}) && got.Err() == ctx.Err(), "context of the request isn't the given one")
		})
	})
}
