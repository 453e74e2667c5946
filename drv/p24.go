package main

import (
	"fmt"
	"io"
	"math"
	"net/http"
	"net/url"
	"strings"
	"time"

	"example.com/gen/helpers"
	"verif/lib/engine"
)

var errEOF = io.EOF

// parseAs parses the parameter as the given type and returns the canonical text of the value, "absent" if
// there is no value and "error" if it can't be parsed.
func parseAs(typ string, q url.Values, name string) string {
	var val any
	var err error
	var missing bool
	switch typ {
	case "Integer":
		x, e := helpers.ParseInteger(q, name)
		err, missing = e, x == nil
		if x != nil {
			val = *x
		}
	case "Float":
		x, e := helpers.ParseFloat(q, name)
		err, missing = e, x == nil
		if x != nil {
			val = *x
		}
	case "String":
		x, e := helpers.ParseString(q, name)
		err, missing = e, x == nil
		if x != nil {
			val = *x
		}
	case "Boolean":
		x, e := helpers.ParseBoolean(q, name)
		err, missing = e, x == nil
		if x != nil {
			val = *x
		}
	case "Date":
		x, e := helpers.ParseDate(q, name)
		err, missing = e, x == nil
		if x != nil {
			val = *x
		}
	}
	if err != nil {
		if !missing {
			return "error with value"
		}
		return "error"
	}
	if missing {
		return "absent"
	}
	return canon(val)
}

var parseTypes = []string{"Integer", "Float", "String", "Boolean", "Date"}

func init() {
	properties["P24"] = &Property{
		Rule: "one execution per value, type, name and history of additions; what the helpers return is compared with the reference model; outcomes are the distinct results",
		Assumptions: []string{
			"dates have a resolution of one second",
			"the segments of the empty path are not specified",
		},
		Run: func(r *engine.Report) {
			values := map[string][]any{
				"Integer": {0, 1, -1, 42, math.MaxInt32, math.MinInt32, math.MaxInt64, math.MinInt64},
				"Float":   {0.0, 1.5, -0.125, 1e21, 1e-7, 0.1, math.MaxFloat64, math.SmallestNonzeroFloat64, 1e6, 123456789.0, 3.0},
				"String":  {"", "text", "a b", "a&b=c", "%20+", "ñ€😀", "\n\x00", "null", "true", "12"},
				"Boolean": {true, false},
				"Date":    {date1, date2, date3, time.Time{}, time.Date(9999, 12, 31, 23, 59, 59, 0, time.UTC)},
			}
			names := []string{"name", "", "a b", "a[]", "ñ", "a&b"}
			r.Explore("round trip", "all the representative values of all the types, all the names, direct or via the text of the query", func(c *engine.Ctx) {
				typ := engine.Pick(c, "type", parseTypes)
				val := engine.Pick(c, "value", values[typ])
				name := engine.Pick(c, "name", names)
				before := c.Choose("before", 3)
				encoded := c.Flag("encoded")
				c.Commit()
				var q url.Values
				switch before {
				case 1:
					q = url.Values{}
				case 2:
					q = url.Values{"other": {"x", "y"}}
				}
				helpers.AddValue(&q, name, val)
				if encoded {
					parsed, err := url.ParseQuery(q.Encode())
					c.Check(err == nil, "query isn't valid: %v", err)
					q = parsed
				}
				c.Equal("value", parseAs(typ, q, name), canon(val))
				c.Equal("number of values", len(q[name]), 1)
				if before == 2 {
					c.Equal("other values", fmt.Sprint(q["other"]), "[x y]")
				}
				for _, other := range parseTypes {
					c.Equal("missing value", parseAs(other, q, "missing"), "absent")
				}
				c.Outcome(q.Encode())
			})
			texts := map[string]map[string]any{
				"Integer": {"0": 0, "-5": -5, "9223372036854775807": math.MaxInt64, "-9223372036854775808": math.MinInt64, "007": 7,
					"": nil, " ": nil, "1.5": nil, "x": nil, "1x": nil, " 1": nil, "9223372036854775808": nil, "0x10": nil, "true": nil, "1e3": nil, "--1": nil},
				"Float":   {"0": 0.0, "1.5": 1.5, "-2": -2.0, "1e3": 1000.0, "": nil, "x": nil, "1,5": nil, "1.5x": nil, " 1": nil, "1e999": nil},
				"Boolean": {"true": true, "false": false, "": nil, "x": nil, "yes": nil, "2": nil, " true": nil, "tru": nil},
				"Date": {"2023-11-05T13:14:15Z": date1, "2023-11-05T14:14:15+01:00": date1, "": nil, "x": nil, "2023-11-05": nil,
					"2023-13-05T13:14:15Z": nil, "2023-11-05 13:14:15Z": nil, "2023-11-05T13:14:15": nil, "1699190055": nil, "2023-11-31T00:00:00Z": nil},
				"String": {"": "", "x": "x", " ": " "},
			}
			r.Explore("texts", "all the representative valid and invalid texts of all the types, given once, twice or never", func(c *engine.Ctx) {
				typ := engine.Pick(c, "type", parseTypes)
				var list []string
				for text := range texts[typ] {
					list = append(list, text)
				}
				sortStrings(list)
				text := engine.Pick(c, "text", list)
				times := c.Choose("times", 4)
				c.Commit()
				want := "error"
				if val := texts[typ][text]; val != nil && times == 1 {
					want = canon(val)
				}
				q := url.Values{"other": {"1", "2"}}
				switch times {
				case 0:
					want = "absent"
				case 1:
					q["name"] = []string{text}
				case 2:
					q["name"] = []string{text, text}
				case 3:
					q["name"] = []string{}
					want = "absent"
				}
				before := queryCanon(q)
				c.Equal("value of '"+text+"'", parseAs(typ, q, "name"), want)
				c.Equal("query", queryCanon(q), before)
				c.Equal("nil query", parseAs(typ, nil, "name"), "absent")
				c.Outcome(fmt.Sprint(typ, text, times))
			})
			depth := 4
			if r.Thorough() {
				depth = 5
			}
			// Histories of additions and copies. The model is a list of values by name:
			type kv struct {
				name string
				val  any
				text string
			}
			adds := []kv{{"a", 1, "1"}, {"a", "x y", "x y"}, {"B-c", true, "true"}, {"b-c", 2.5, "2.5"}, {"D", "", ""}}
			r.Explore("histories of queries and headers", fmt.Sprintf("all the sequences of %d additions, copies and changes of the copies", depth), func(c *engine.Ctx) {
				header := c.Flag("header")
				start := c.Choose("start", 2)
				ops := make([]int, depth)
				for i := range ops {
					ops[i] = c.Choose("operation", len(adds)+4)
				}
				c.Commit()
				var q url.Values
				var h http.Header
				if start == 1 {
					q, h = url.Values{}, http.Header{}
				}
				want := map[string][]string{}
				add := func(x kv) {
					if header {
						helpers.AddHeader(&h, x.name, x.val)
						name := http.CanonicalHeaderKey(x.name)
						want[name] = append(append([]string{}, want[name]...), x.text)
					} else {
						helpers.AddValue(&q, x.name, x.val)
						want[x.name] = append(append([]string{}, want[x.name]...), x.text)
					}
				}
				dump := func(m map[string][]string) string { return headerText(http.Header(m)) }
				current := func() map[string][]string {
					if header {
						return h
					}
					return q
				}
				type saved struct {
					m    map[string][]string
					text string
				}
				var copies []saved
				for _, op := range ops {
					switch {
					case op < len(adds):
						add(adds[op])
					case op == len(adds):
						// Copy, and continue with the original:
						var m map[string][]string
						if header {
							m = helpers.CopyHeader(h)
						} else {
							m = helpers.CopyQuery(q)
						}
						c.Equal("copy", dump(m), dump(want))
						copies = append(copies, saved{m, dump(want)})
					case op == len(adds)+1:
						// Copy, and continue with the copy:
						copies = append(copies, saved{current(), dump(want)})
						if header {
							h = helpers.CopyHeader(h)
						} else {
							q = helpers.CopyQuery(q)
						}
					case op == len(adds)+2:
						// Clobber a copy:
						var m map[string][]string
						if header {
							m = helpers.CopyHeader(h)
						} else {
							m = helpers.CopyQuery(q)
						}
						for k, v := range m {
							for i := range v {
								v[i] = "clobbered"
							}
							m[k] = append(v, "more")
						}
						if m != nil {
							m["new"] = []string{"x"}
						}
					case op == len(adds)+3:
						if !header {
							c.Skip()
						}
						helpers.AddImpersonationHeader(&h, "admin")
						want["Impersonate-User"] = append(append([]string{}, want["Impersonate-User"]...), "admin")
					}
					c.Equal("values", dump(current()), dump(want))
					c.State(fmt.Sprint(header, dump(want), len(copies)))
				}
				for _, s := range copies {
					c.Equal("copy", dump(s.m), s.text)
				}
				c.Outcome(fmt.Sprint(header, dump(want)))
			})
			r.Explore("copies of values", "all the lists of at most three values", func(c *engine.Ctx) {
				n := c.Choose("size", 4)
				var list []string
				for i := 0; i < n; i++ {
					list = append(list, engine.Pick(c, "value", []string{"", "a", "b"}))
				}
				c.Commit()
				got := helpers.CopyValues(list)
				c.Equal("copy", fmt.Sprintf("%q", got), fmt.Sprintf("%q", list))
				text := fmt.Sprintf("%q", list)
				for i := range got {
					got[i] = "x"
				}
				_ = append(got, "y")
				c.Equal("original", fmt.Sprintf("%q", list), text)
				c.Outcome(text)
			})
			parts := 4
			if r.Thorough() {
				parts = 6
			}
			r.Explore("segments", fmt.Sprintf("all the paths of at most %d segments, with and without leading and trailing slashes", parts), func(c *engine.Ctx) {
				n := 1 + c.Choose("size", parts)
				var list []string
				for i := 0; i < n; i++ {
					list = append(list, engine.Pick(c, "segment", []string{"a", "bc", "-", ".", "..", "ñ", " ", "%2F"}))
				}
				lead := engine.Pick(c, "lead", []string{"", "/", "//"})
				trail := engine.Pick(c, "trail", []string{"", "/", "//"})
				c.Commit()
				text := lead + strings.Join(list, "/") + trail
				c.Equal("segments of '"+text+"'", fmt.Sprintf("%q", helpers.Segments(text)), fmt.Sprintf("%q", list))
				c.Outcome(text)
			})
			r.Explore("pointers", "all the representative values of all the types", func(c *engine.Ctx) {
				typ := engine.Pick(c, "type", parseTypes)
				val := engine.Pick(c, "value", values[typ])
				c.Commit()
				switch x := val.(type) {
				case int:
					c.Equal("value", *helpers.NewInteger(x), x)
					p, q := helpers.NewInteger(x), helpers.NewInteger(x)
					*p = 5
					c.Equal("value", *q, x)
				case float64:
					c.Equal("value", *helpers.NewFloat(x), x)
				case string:
					c.Equal("value", *helpers.NewString(x), x)
				case bool:
					c.Equal("value", *helpers.NewBoolean(x), x)
				case time.Time:
					c.Check(helpers.NewDate(x).Equal(x), "date isn't %v", x)
				}
				c.Outcome(canon(val))
			})
		},
	}
}
