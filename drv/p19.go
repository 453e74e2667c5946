package main

import (
	"fmt"
	"net/http"
	"net/url"
	"reflect"
	"sort"
	"strconv"
	"time"

	"verif/lib/engine"
	"verif/lib/jsonx"
	. "verif/lib/spec"
)

// expectedText is the text that represents the value in queries.
func expectedText(val any) string {
	switch x := val.(type) {
	case bool:
		return strconv.FormatBool(x)
	case int:
		return strconv.Itoa(x)
	case int64:
		return strconv.FormatInt(x, 10)
	case float64:
		return fmt.Sprint(x)
	case string:
		return x
	case time.Time:
		return x.UTC().Format(time.RFC3339)
	}
	panic(fmt.Sprintf("value %T can't be in a query", val))
}

// extra is something added by the user to a request.
type extra struct {
	kind  int // 0: parameter, 1: header, 2: impersonation
	name  string
	value any
	text  string
}

// expectation is what a request should contain.
type expectation struct {
	query  url.Values
	header http.Header
	values map[string]any // Values of the parameters, by canonical name
}

func newExpectation() *expectation {
	return &expectation{query: url.Values{}, header: http.Header{}, values: map[string]any{}}
}

func (e *expectation) clone() *expectation {
	x := newExpectation()
	for k, v := range e.query {
		x.query[k] = append([]string{}, v...)
	}
	for k, v := range e.header {
		x.header[k] = append([]string{}, v...)
	}
	for k, v := range e.values {
		x.values[k] = v
	}
	return x
}

// apply applies an extra to a request and to the expectation.
func (e *expectation) apply(req reflect.Value, x extra) {
	args := []reflect.Value{reflect.ValueOf(x.name), reflect.ValueOf(x.value)}
	switch x.kind {
	case 0:
		method(req, "Parameter").Call(args)
		e.query.Add(x.name, x.text)
	case 1:
		method(req, "Header").Call(args)
		e.header.Add(x.name, x.text)
	case 2:
		method(req, "Impersonate").Call([]reflect.Value{reflect.ValueOf(x.text)})
		e.header.Add("Impersonate-User", x.text)
	}
}

// expected returns the canonical text of the expected request.
func (e *expectation) check(c *engine.Ctx, x *Route, s *Sent) {
	query := url.Values{}
	for k, v := range e.query {
		query[k] = append([]string{}, v...)
	}
	for _, p := range x.M.Query(x.V) {
		if val, ok := e.values[p.Name.String()]; ok {
			query.Add(p.QueryName(), expectedText(val))
		}
	}
	c.Equal("query", queryCanon(s.Query), queryCanon(query))
	// The values added by the user keep their order:
	for name, want := range e.query {
		i := 0
		for _, got := range s.Query[name] {
			if i < len(want) && got == want[i] {
				i++
			}
		}
		c.Check(i == len(want), "values of query parameter '%s' are %q, but the user added %q", name, s.Query[name], want)
	}
	c.Equal("headers", headerText(s.Header), headerText(e.header))
	if x.M.IsAction() {
		if len(x.M.Body(x.V)) == 0 {
			c.Check(s.Body == "" || canonBody(s.Body) == "{}", "body should be empty, but it is '%s'", s.Body)
			return
		}
		doc := map[string]any{}
		for _, p := range x.M.Body(x.V) {
			if val, ok := e.values[p.Name.String()]; ok {
				doc[p.BodyName()] = toJSON(val)
			}
		}
		c.Equal("body", canonBody(s.Body), jsonx.Canon(doc))
		return
	}
	p := bodyParam(x.V, x.M)
	if p == nil {
		c.Equal("body", s.Body, "")
		return
	}
	c.Equal("body", canonBody(s.Body), jsonx.Canon(toJSON(e.values[p.Name.String()])))
}

func queryCanon(q url.Values) string {
	var names []string
	for k := range q {
		names = append(names, k)
	}
	sort.Strings(names)
	text := ""
	for _, k := range names {
		v := append([]string{}, q[k]...)
		sort.Strings(v)
		text += fmt.Sprintf("%q=%q ", k, v)
	}
	return text
}

func init() {
	properties["P19"] = &Property{
		Rule: "one execution per method, set of parameters, values and extras; the query, headers and body received by the transport are compared with those calculated from the description of the model; outcomes are the distinct requests",
		Assumptions: []string{
			"parameters that are the complete body of the request (of add, update, post and search) are always set",
			"the text of floating point parameters is any that is read as the same number",
			"resources of the reference model (lib/models)",
		},
		Run: func(r *engine.Report) {
			limit := 11
			if r.Thorough() {
				limit = 13
			}
			for _, x := range methodRoutes() {
				in := x.M.In()
				body := bodyParam(x.V, x.M)
				var optional []*Param
				for _, p := range in {
					if p != body {
						optional = append(optional, p)
					}
				}
				run := func(c *engine.Ctx, values map[string]any, extras []extra, reverse bool) {
					t := &Transport{}
					req := x.request(t, "/api", x.ids())
					e := newExpectation()
					half := len(extras) / 2
					for _, extra := range extras[:half] {
						e.apply(req, extra)
					}
					for i := range in {
						p := in[i]
						if reverse {
							p = in[len(in)-1-i]
						}
						if val, ok := values[p.Name.String()]; ok {
							setParam(req, p, val)
							e.values[p.Name.String()] = val
						}
					}
					for _, extra := range extras[half:] {
						e.apply(req, extra)
					}
					_, err := send(req)
					c.Check(err == nil, "can't send: %v", err)
					c.Equal("number of requests", len(t.Sent), 1)
					e.check(c, x, t.Sent[0])
					c.Outcome(t.Sent[0].text())
				}
				r.Explore("parameters of "+x.String(), fmt.Sprintf("all the subsets of parameters for at most %d, otherwise all the sets of at most two and their complements; zero, typical and mixed values; both orders", limit), func(c *engine.Ctx) {
					present := make([]bool, len(optional))
					if len(optional) <= limit {
						for i := range present {
							present[i] = c.Flag(optional[i].Name.String())
						}
					} else {
						others := c.Flag("complement")
						one := c.Choose("first", len(present)+1)
						two := c.Choose("second", len(present)+1)
						if two < one {
							c.Skip()
						}
						for i := range present {
							present[i] = (i == one || i == two) != others
						}
					}
					mode := c.Choose("mode", 3)
					reverse := c.Flag("reverse")
					c.Commit()
					values := map[string]any{}
					pick := func(i int, p *Param) {
						n := mode
						if mode == 2 {
							n = i % 2
						}
						values[p.Name.String()] = paramSamples(x.V, p)[n]
					}
					for i, p := range optional {
						if present[i] {
							pick(i, p)
						}
					}
					if body != nil {
						pick(0, body)
					}
					run(c, values, nil, reverse)
				})
				if len(in) > 0 {
					r.Explore("values of "+x.String(), "all the representative values of each parameter, and overwriting it", func(c *engine.Ctx) {
						p := engine.Pick(c, "parameter", in)
						val := engine.Pick(c, "value", paramSamples(x.V, p))
						overwrite := c.Flag("overwrite")
						c.Commit()
						values := map[string]any{p.Name.String(): val}
						if body != nil && body != p {
							values[body.Name.String()] = paramSamples(x.V, body)[1]
						}
						if !overwrite {
							run(c, values, nil, false)
							return
						}
						t := &Transport{}
						req := x.request(t, "/api", x.ids())
						e := newExpectation()
						for _, q := range in {
							if w, ok := values[q.Name.String()]; ok {
								setParam(req, q, paramSamples(x.V, q)[0])
								setParam(req, q, paramSamples(x.V, q)[1])
								setParam(req, q, w)
								e.values[q.Name.String()] = w
							}
						}
						_, err := send(req)
						c.Check(err == nil, "can't send: %v", err)
						e.check(c, x, t.Sent[0])
						c.Outcome(t.Sent[0].text())
					})
				}
				r.Explore("large values of "+x.String(), "each parameter with a long text, or with many items, up to 1 MiB, and the rest with typical values", func(c *engine.Ctx) {
					many := c.Flag("many items")
					list := large(x.V, in, many)
					p := engine.Pick(c, "parameter", append([]*Param{nil}, list...))
					n := engine.Pick(c, "size", sizes(r.Thorough()))
					c.Commit()
					if p == nil {
						c.Skip()
					}
					values := map[string]any{}
					for _, q := range in {
						values[q.Name.String()] = paramSamples(x.V, q)[1]
					}
					values[p.Name.String()] = enlarge(x.V, p.Type, n, many)
					run(c, values, nil, false)
				})
				extras := []extra{
					{0, "user", "text", "text"}, {0, "user", 42, "42"}, {0, "user", true, "true"}, {0, "a&b=c", "d e&f=ñ+%", "d e&f=ñ+%"},
					{0, "date", date2, "2000-02-29T18:29:59Z"}, {0, "empty", "", ""}, {0, "user", 2.5, "2.5"},
					{1, "X-User", "text", "text"}, {1, "x-user", 42, "42"}, {1, "Accept", "a/b;q=1", "a/b;q=1"}, {1, "X-Empty", "", ""},
					{1, "X-User", true, "true"}, {1, "X-Float", 2.5, "2.5"}, {1, "Authorization", "Bearer a", "Bearer a"}, {1, "Content-Type", "text/plain", "text/plain"},
					{1, "User-Agent", "mine/1", "mine/1"}, {1, "Impersonate-User", "other", "other"}, {1, "Cookie", "a=1", "a=1"}, {1, "Host", "x", "x"},
					{2, "", nil, "admin"},
				}
				for _, p := range x.M.Query(x.V)[:min(2, len(x.M.Query(x.V)))] {
					extras = append(extras, extra{0, p.QueryName(), "mine", "mine"})
				}
				r.Explore("many extras of "+x.String(), "up to 40 values of the same parameter or header, or of different ones, added after all the parameters", func(c *engine.Ctx) {
					n := engine.Pick(c, "number", []int{4, 5, 8, 9, 16, 17, 33, 40})
					kind := c.Choose("kind", 2)
					same := c.Flag("same name")
					c.Commit()
					values := map[string]any{}
					for _, p := range in {
						values[p.Name.String()] = paramSamples(x.V, p)[1]
					}
					var list []extra
					for i := 0; i < n; i++ {
						name := "X-Name"
						if !same {
							name = fmt.Sprintf("X-Name-%d", i)
						}
						list = append(list, extra{kind, name, fmt.Sprint("value ", i), fmt.Sprint("value ", i)})
					}
					run(c, values, list, false)
				})
				depth := 2
				if r.Thorough() {
					depth = 3
				}
				r.Explore("extras of "+x.String(), fmt.Sprintf("all the sequences of %d parameters, headers and impersonations, before and after setting no or all the parameters", depth), func(c *engine.Ctx) {
					var list []extra
					for i := 0; i < depth; i++ {
						list = append(list, engine.Pick(c, "extra", extras))
					}
					full := c.Flag("parameters")
					c.Commit()
					values := map[string]any{}
					for _, p := range in {
						if full || p == body {
							values[p.Name.String()] = paramSamples(x.V, p)[1]
						}
					}
					run(c, values, list, false)
				})
			}
			metadataParameters(r)
		},
	}
}
