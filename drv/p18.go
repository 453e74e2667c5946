package main

import (
	"fmt"
	"net/url"
	"path"
	"reflect"
	"strings"

	"verif/lib/engine"
	. "verif/lib/spec"
)

// Identifiers of objects. All of them are valid path segments.
var identifiers = []string{
	"123", "a b", "ñ€", "a%2Fb", "x?y#z", "...", "a:b@c", "-", "things", "%", "+&=", ".well", "a;b,c", "\"'<>",
	"Upper-Case_1.2~3!$*()", strings.Repeat("x1", 300), "null", "2qkn7b8v0b1e6s4r9t2d5f3g7h1j0k6l",
}

var bases = []string{"/api/routes_api", "", "/", "api/x", "/a/b/", "/with space"}

func init() {
	properties["P18"] = &Property{
		Rule: "one execution per path of locators and method, base path and assignment of identifiers; the request received by the transport is compared with the path calculated from the description of the model; outcomes are the distinct requests",
		Assumptions: []string{
			"identifiers are valid path segments: not empty, without slashes, and different to one and two dots",
			"resources of the reference model (lib/models)",
		},
		Run: func(r *engine.Report) {
			all := routes()
			ids := identifiers
			check := func(c *engine.Ctx, t *Transport, verb, want string) {
				c.Equal("number of requests", len(t.Sent), 1)
				s := t.Sent[0]
				c.Equal("verb", s.Method, verb)
				c.Equal("path", s.Path, want)
				parsed, err := url.Parse("http://server/" + strings.TrimPrefix(strings.TrimPrefix(s.URL, "./"), "/"))
				c.Check(err == nil, "URL '%s' can't be parsed: %v", s.URL, err)
				c.Equal("path of the URL", strings.TrimPrefix(parsed.Path, "/"), strings.TrimPrefix(want, "/"))
				c.Equal("query", s.Query.Encode(), "")
				c.Equal("fragment", parsed.Fragment, "")
				c.Outcome(verb + " " + s.URL)
			}
			for _, x := range all {
				if x.M == nil {
					continue
				}
				n := x.variables()
				r.Explore("route "+x.String(), "all the base paths and all the assignments of identifiers (all of them for the first two variables)", func(c *engine.Ctx) {
					base := engine.Pick(c, "base", bases)
					var values []string
					for i := 0; i < n; i++ {
						list := ids
						if i >= 2 && !r.Thorough() {
							list = ids[:3]
						}
						values = append(values, engine.Pick(c, "identifier", list))
					}
					direct := c.Flag("create the client of the version directly")
					c.Commit()
					t := &Transport{}
					var req reflect.Value
					want := path.Join(append([]string{base}, x.segments(values)...)...)
					if direct {
						client := newVersionClient(t, x.V, base)
						left := values
						for _, l := range x.Locs {
							id := ""
							if l.Variable {
								id, left = left[0], left[1:]
							}
							client = follow(client, l, id)
						}
						req = method(client, x.M.GoName()).Call(nil)[0]
						want = joinRaw(base, x.segments(values)[1:])
					} else {
						req = x.request(t, base, values)
					}
					if p := bodyParam(x.V, x.M); p != nil {
						setParam(req, p, paramSamples(x.V, p)[1])
					}
					_, err := send(req)
					c.Check(err == nil, "can't send: %v", err)
					check(c, t, x.M.Verb(), want)
				})
			}
			for _, s := range model.Services {
				for _, v := range s.Versions {
					r.Explore("metadata of "+v.Key(), "all the base paths", func(c *engine.Ctx) {
						base := engine.Pick(c, "base", bases)
						direct := c.Flag("direct")
						c.Commit()
						t := &Transport{}
						client := versionClient(t, v, base)
						want := path.Join(base, v.Name.Snake())
						if direct {
							client = newVersionClient(t, v, base)
							want = base
						}
						_, err := send(method(client, "Get").Call(nil)[0])
						c.Check(err == nil, "can't send: %v", err)
						check(c, t, "GET", want)
					})
				}
			}
			// Clients of resources that are reachable via several paths, used alternately:
			r.Explore("pairs of routes", "all the ordered pairs of routes from the same client of the service, the first one used again at the end", func(c *engine.Ctx) {
				var list []*Route
				for _, x := range all {
					if x.M != nil {
						list = append(list, x)
					}
				}
				one := engine.Pick(c, "first", list)
				two := engine.Pick(c, "second", list)
				if one.V.Service != two.V.Service {
					c.Skip()
				}
				c.Commit()
				t := &Transport{}
				base := "/api/" + one.V.Service.Name.Snake()
				clientOne := one.client(t, base, one.ids())
				clientTwo := two.client(t, base, two.ids())
				for i, step := range []struct {
					x      *Route
					client reflect.Value
				}{{one, clientOne}, {two, clientTwo}, {one, clientOne}} {
					req := method(step.client, step.x.M.GoName()).Call(nil)[0]
					if p := bodyParam(step.x.V, step.x.M); p != nil {
						setParam(req, p, paramSamples(step.x.V, p)[1])
					}
					_, err := send(req)
					c.Check(err == nil, "can't send: %v", err)
					c.Equal("number of requests", len(t.Sent), i+1)
					s := t.Sent[i]
					c.Equal("request", s.Method+" "+s.Path, step.x.M.Verb()+" "+path.Join(append([]string{base}, step.x.segments(step.x.ids())...)...))
				}
				c.Outcome(fmt.Sprint(one, two))
			})
		},
	}
}

// newVersionClient creates the client of the version directly, without the client of the service.
func newVersionClient(t *Transport, v *Version, base string) reflect.Value {
	f := reflect.ValueOf(versions[v.Key()].NewClient)
	return f.Call([]reflect.Value{reflect.ValueOf(t), reflect.ValueOf(base)})[0]
}

// joinRaw joins segments to a path that isn't cleaned unless there are segments.
func joinRaw(base string, segments []string) string {
	if len(segments) == 0 {
		return base
	}
	return path.Join(append([]string{base}, segments...)...)
}
