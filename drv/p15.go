package main

import (
	"fmt"
	"reflect"
	"strings"

	"verif/lib/engine"
	"verif/lib/jsonx"
	. "verif/lib/spec"
)

// field is a field of a JSON document.
type field struct{ name, value string }

func docOf(fields []field) string {
	var b strings.Builder
	b.WriteString("{")
	for i, f := range fields {
		if i > 0 {
			b.WriteString(",")
		}
		b.WriteString(compact(f.name))
		b.WriteString(":")
		b.WriteString(f.value)
	}
	b.WriteString("}")
	return b.String()
}

// fieldsOf returns the fields of the document of an object, in the order of the declaration.
func fieldsOf(o *Obj) []field {
	doc := toJSON(o).(map[string]any)
	var r []field
	add := func(name string) {
		if x, ok := doc[name]; ok {
			r = append(r, field{name, compact(x)})
		}
	}
	for _, name := range []string{"kind", "id", "href"} {
		if o.T.Kind == Class {
			add(name)
		}
	}
	for _, a := range o.T.Attrs {
		add(a.JSONName())
	}
	return r
}

// unknown are contents of unknown fields.
var unknown = []string{
	`null`, `true`, `0`, `-1.5e3`, `""`, `"text"`, `"}"`, `"\"{["`, `"\\"`, `[]`, `{}`,
	`[[],[{}],{"a":[1,2,{"b":"]}"}]}]`, `{"kind":"x","id":"y","items":[1],"a":{"b":{"c":null}}}`,
	`"\u00e9"`, `12345678901234567890123`,
}

// wrong are values that are not valid for each kind of value. Nulls aren't included because
// how they are treated isn't part of the format.
func wrongValues(v *Version, ref Ref, link bool) []string {
	object := []string{`true`, `1`, `"x"`, `[]`, `[1]`}
	list := []string{`true`, `1`, `"x"`, `{}`, `{"a":1}`}
	switch {
	case ref.Shape == List && link:
		return append(object, `{"items":{}}`, `{"items":"x"}`, `{"href":1}`, `{"kind":{}}`, `{"items":[1]}`)
	case ref.Shape == List:
		for _, x := range wrongValues(v, P(ref.Elem), false) {
			list = append(list, "["+x+"]")
		}
		return list
	case ref.Shape == Map:
		for _, x := range wrongValues(v, P(ref.Elem), false) {
			object = append(object, `{"k":`+x+`}`)
		}
		return object
	}
	switch ref.Elem {
	case "Boolean":
		return []string{`1`, `"true"`, `"x"`, `[]`, `{}`}
	case "Integer", "Long":
		return []string{`true`, `"1"`, `"x"`, `[]`, `{}`, `1.5`, `9223372036854775808`, `-9223372036854775809`}
	case "Float":
		return []string{`true`, `"1"`, `"x"`, `[]`, `{}`}
	case "String":
		return []string{`true`, `1`, `[]`, `{}`}
	case "Date":
		return []string{`true`, `1`, `[]`, `{}`, `""`, `"x"`, `"2023-11-05"`, `"2023-13-05T13:14:15Z"`, `"2023-11-05T13:14:15"`, `"2023-11-05 13:14:15Z"`}
	case "Interface":
		return nil
	}
	t := v.Type(ref.Elem)
	if t.Kind == Enum {
		return []string{`true`, `1`, `[]`, `{}`}
	}
	if len(t.Attrs) > 0 && t.Attrs[0].Type == P("String") {
		object = append(object, docOf([]field{{t.Attrs[0].JSONName(), "1"}}))
	}
	return object
}

func init() {
	properties["P15"] = &Property{
		Rule: "one execution per document; what is written is decoded with a strict independent decoder and compared with the document calculated from the description of the model, and what is read is compared with the abstract object; outcomes are the distinct documents",
		Assumptions: []string{
			"the order of the fields and the white space of documents that are written isn't part of the format",
			"nulls and content after the document aren't included",
			"types of the reference model (lib/models)",
		},
		Run: func(r *engine.Report) {
			thorough := r.Thorough()
			allTypes(func(v *Version, t *Type) {
				elem := t.Name.String()
				name := v.Key() + "/" + elem
				rg := reg(v, elem)
				limit := 12
				if thorough {
					limit = 17
				}
				checkDoc := func(c *engine.Ctx, o *Obj) {
					text, err := marshal(rg.Marshal, object(o))
					c.Check(err == nil, "can't write %s: %v", canon(o), err)
					doc, err := jsonx.Decode([]byte(text))
					c.Check(err == nil, "document '%s' isn't valid: %v", text, err)
					c.Equal("document", jsonx.Canon(doc), jsonx.Canon(toJSON(o)))
					c.Outcome(text)
				}
				r.Explore("format of "+name, fmt.Sprintf("all the subsets of attributes for at most %d, otherwise all the sets of at most two and their complements; zero, typical and mixed values", limit), func(c *engine.Ctx) {
					o := chooseObject(c, v, t, limit)
					c.Commit()
					checkDoc(c, o)
				})
				r.Explore("format of values of "+name, "all the representative values of each attribute", func(c *engine.Ctx) {
					if len(t.Attrs) == 0 {
						c.Skip()
					}
					a := t.Attrs[c.Choose("attribute", len(t.Attrs))]
					val := engine.Pick(c, "value", attrSamples(v, a))
					c.Commit()
					checkDoc(c, &Obj{V: v, T: t, Attrs: map[string]any{a.Name.String(): val}})
				})

				// Documents that are read are generated independently of the code that writes:
				read := func(c *engine.Ctx, text string, want string) {
					back, err := unmarshal(rg.Unmarshal, text)
					c.Check(err == nil, "can't read '%s': %v", text, err)
					c.Equal("object read from '"+text+"'", observe(v, elem, back), want)
					c.Outcome(text)
				}
				reject := func(c *engine.Ctx, f any, source any, text string) {
					_, err := unmarshal(f, source)
					c.Check(err != nil, "no error reading '%s'", text)
					c.Outcome(text)
				}
				r.Explore("reading subsets of "+name, "documents with all the subsets of attributes, as in the format", func(c *engine.Ctx) {
					o := chooseObject(c, v, t, limit)
					c.Commit()
					read(c, docOf(fieldsOf(o)), canon(o))
				})
				full := fullObj(v, t)
				if t.Kind == Class {
					full.Link = true
				}
				fields := fieldsOf(full)
				want := canon(full)
				if len(fields) <= 5 {
					r.Explore("order of fields of "+name, "all the permutations of the fields of the object with all the attributes", func(c *engine.Ctx) {
						left := append([]field{}, fields...)
						var list []field
						for i, n := 0, len(fields); i < n; i++ {
							k := c.Choose("field", len(left))
							list = append(list, left[k])
							left = append(append([]field{}, left[:k]...), left[k+1:]...)
						}
						c.Commit()
						read(c, docOf(list), want)
					})
				} else {
					r.Explore("order of fields of "+name, "all the rotations of the fields, and their reverses, of the object with all the attributes, and all the swaps of two fields", func(c *engine.Ctx) {
						i := c.Choose("first", len(fields))
						j := c.Choose("second", len(fields)+2)
						c.Commit()
						list := append(append([]field{}, fields[i:]...), fields[:i]...)
						switch {
						case j < len(fields):
							list = append([]field{}, fields...)
							list[i], list[j] = list[j], list[i]
						case j == len(fields)+1:
							for a, b := 0, len(list)-1; a < b; a, b = a+1, b-1 {
								list[a], list[b] = list[b], list[a]
							}
						}
						read(c, docOf(list), want)
					})
				}
				r.Explore("unknown fields of "+name, "unknown fields with all the representative names and contents in each position of the object with all the attributes, and also two of them", func(c *engine.Ctx) {
					pos := c.Choose("position", len(fields)+1)
					names := []string{"unknown", "Kind", "id_", "items", "\u00f1 \"x\""}
					for _, a := range t.Attrs {
						// Names that are similar to names of attributes:
						for _, x := range []string{a.JSONName() + "x", strings.ToUpper(a.JSONName()), a.Name.Public(), a.Name.Snake()} {
							taken := false
							for _, f := range fields {
								taken = taken || f.name == x
							}
							if !taken && len(t.Attrs) <= 20 {
								names = append(names, x)
							}
						}
					}
					x := engine.Pick(c, "name", names)
					two := c.Flag("two")
					content := engine.Pick(c, "content", unknown)
					for _, f := range fields {
						if f.name == x {
							c.Skip()
						}
					}
					c.Commit()
					list := append([]field{}, fields[:pos]...)
					list = append(list, field{x, content})
					if two {
						list = append(list, field{x, unknown[len(unknown)-1]})
					}
					list = append(list, fields[pos:]...)
					read(c, docOf(list), want)
				})
				r.Explore("white space in "+name, "all the kinds of white space around all the tokens", func(c *engine.Ctx) {
					space := engine.Pick(c, "space", []string{" ", "\n", "\t", "\r\n", "  \n\n  "})
					c.Commit()
					doc, _ := jsonx.Decode([]byte(docOf(fields)))
					read(c, space+spaced(doc, space)+space, want)
				})
				text := docOf(fields)
				r.Explore("truncated documents of "+name, "all the strict prefixes of the object with all the attributes, from a string and from a reader", func(c *engine.Ctx) {
					n := c.Choose("length", len(text))
					source := c.Choose("source", 2)
					c.Commit()
					if n == 0 {
						c.Skip()
					}
					reject(c, rg.Unmarshal, sources(text[:n])[source*2], text[:n])
				})
				r.Explore("failing reader of "+name, "failure of the reader at each byte of the object with all the attributes", func(c *engine.Ctx) {
					n := c.Choose("length", len(text))
					size := engine.Pick(c, "chunk", []int{1, 1 << 20})
					c.Commit()
					reject(c, rg.Unmarshal, &chunks{data: text, size: size, limit: n, err: errInjected}, text[:n])
				})
				r.Explore("values of wrong type of "+name, "all the representative wrong values of each field, alone, first and last", func(c *engine.Ctx) {
					type slot struct {
						name  string
						wrong []string
					}
					var slots []slot
					if t.Kind == Class {
						for _, x := range []string{"kind", "id", "href"} {
							slots = append(slots, slot{x, []string{`true`, `1`, `[]`, `{}`}})
						}
					}
					for _, a := range t.Attrs {
						if w := wrongValues(a.In(v), a.Type, a.Link); len(w) > 0 {
							slots = append(slots, slot{a.JSONName(), w})
						}
					}
					if len(slots) == 0 {
						c.Skip()
					}
					s := engine.Pick(c, "field", slots)
					value := engine.Pick(c, "value", s.wrong)
					mode := c.Choose("mode", 3)
					c.Commit()
					list := []field{{s.name, value}}
					for _, f := range fields {
						if f.name == s.name {
							continue
						}
						switch mode {
						case 1:
							list = append(list, f)
						case 2:
							list = append([]field{f}, list...)
						}
					}
					reject(c, rg.Unmarshal, docOf(list), docOf(list))
				})
				r.Explore("malformed documents of "+name, "documents that aren't objects, lists that aren't arrays, and sources of wrong types", func(c *engine.Ctx) {
					doc := engine.Pick(c, "document", []string{`true`, `1`, `"x"`, `x`, `]`, `}`, `,`, `{]`, `{"}`, `{,}`, `{"a"}`, `{"a":}`, `{"a" 1}`, `{"a":1 "b":2}`, `{"a":[}`, `{"a":{]}`, `{a:1}`, `[1`, `{1:2}`, `{"a":x}`})
					list := c.Flag("list")
					c.Commit()
					f := rg.Unmarshal
					if list {
						f = rg.UnmarshalList
						doc = strings.NewReplacer("[", "{", "]", "}", "{", "[", "}", "]").Replace(doc)
						if strings.HasPrefix(doc, "[") && !strings.Contains(doc, ":x") {
							doc = strings.Replace(doc, "[", "[[", 1)
						}
					}
					if doc == "}" && !list || doc == "]" && list {
						if _, err := unmarshal(f, doc); err == nil {
							c.Known("lone-closing-bracket", "a document that is only the closing bracket is accepted as an empty one")
						}
					}
					reject(c, f, doc, doc)
				})
				r.Explore("sources of "+name, "sources of types that aren't supported", func(c *engine.Ctx) {
					source := engine.Pick(c, "source", []any{1, true, 'x', map[string]any{}, struct{}{}, (*int)(nil)})
					list := c.Flag("list")
					c.Commit()
					f := rg.Unmarshal
					if list {
						f = rg.UnmarshalList
					}
					reject(c, f, reflect.ValueOf(source), fmt.Sprintf("%T", source))
				})
				arr := "[" + text + "," + text + "]"
				r.Explore("truncated lists of "+name, "all the strict prefixes of the list with two objects", func(c *engine.Ctx) {
					n := c.Choose("length", len(arr))
					c.Commit()
					if n == 0 {
						c.Skip()
					}
					reject(c, rg.UnmarshalList, arr[:n], arr[:n])
				})
				r.Explore("empty field name in "+name, "an unknown field with an empty name, followed by the rest of the fields", func(c *engine.Ctx) {
					if len(fields) == 0 {
						c.Skip()
					}
					c.Commit()
					list := append([]field{{"", "1"}}, fields...)
					back, err := unmarshal(rg.Unmarshal, docOf(list))
					if err != nil || observe(v, elem, back) != want {
						c.Known("empty-field-name", "content after a field with an empty name is lost reading documents like {\"\": 1, \"id\": \"123\"}")
					}
				})
			})
			// Metadata of versions:
			for _, s := range model.Services {
				for _, v := range s.Versions {
					fns := versions[v.Key()].Metadata
					r.Explore("metadata of "+v.Key(), "all the representative strings, unknown fields, and truncated documents", func(c *engine.Ctx) {
						val := engine.Pick(c, "value", samples(v, "String")).(string)
						content := engine.Pick(c, "content", unknown)
						after := c.Flag("after")
						cut := c.Flag("cut")
						c.Commit()
						list := []field{{"server_version", compact(val)}}
						if after {
							list = append(list, field{"unknown", content})
						} else {
							list = append([]field{{"unknown", content}}, list...)
						}
						text := docOf(list)
						if cut {
							for n := 1; n < len(text); n++ {
								_, err := unmarshal(fns[1], text[:n])
								c.Check(err != nil, "no error reading '%s'", text[:n])
							}
							return
						}
						back, err := unmarshal(fns[1], text)
						c.Check(err == nil, "can't read '%s': %v", text, err)
						got := method(back, "GetServerVersion").Call(nil)
						c.Check(got[0].String() == val && got[1].Bool(), "version read from '%s' is '%s'", text, got[0])
						out, err := marshal(fns[0], back)
						c.Check(err == nil, "can't write: %v", err)
						doc, err := jsonx.Decode([]byte(out))
						c.Check(err == nil, "document '%s' isn't valid: %v", out, err)
						c.Equal("metadata", jsonx.Canon(doc), jsonx.Canon(map[string]any{"server_version": val}))
						c.Outcome(text)
					})
					r.Explore("failures of metadata of "+v.Key(), "empty document, sources of types that aren't supported, and failures of the reader and of the writer at each byte", func(c *engine.Ctx) {
						text := `{"server_version":"123"}`
						what := c.Choose("what", 4)
						switch what {
						case 0:
							c.Commit()
							back, err := unmarshal(fns[1], "{}")
							c.Check(err == nil, "can't read empty document: %v", err)
							got := method(back, "GetServerVersion").Call(nil)
							c.Check(got[0].String() == "" && !got[1].Bool(), "version read from empty document is '%s' with presence %v", got[0], got[1])
							out, err := marshal(fns[0], back)
							doc, derr := jsonx.Decode([]byte(out))
							c.Check(err == nil && derr == nil && jsonx.Canon(doc) == "{}", "empty metadata is written as '%s', error is '%v'", out, err)
						case 1:
							source := engine.Pick(c, "source", []any{1, true, 'x', map[string]any{}, struct{}{}, (*int)(nil)})
							c.Commit()
							_, err := unmarshal(fns[1], reflect.ValueOf(source))
							c.Check(err != nil, "no error reading from %T", source)
						case 2:
							n := c.Choose("bytes", len(text))
							size := engine.Pick(c, "chunk", []int{1, 1 << 20})
							c.Commit()
							_, err := unmarshal(fns[1], &chunks{data: text, size: size, limit: n, err: errInjected})
							c.Check(err != nil, "failure reading %d bytes isn't reported", n)
						case 3:
							back, err := unmarshal(fns[1], text)
							c.Check(err == nil, "can't read: %v", err)
							text, err := marshal(fns[0], back)
							c.Check(err == nil, "can't write: %v", err)
							n := c.Choose("bytes", len(text)+1)
							c.Commit()
							out := call(fns[0], back, reflect.ValueOf(&failing{n, errInjected}))
							c.Equal(fmt.Sprintf("failure writing %d of %d bytes is reported", n, len(text)), !out[0].IsNil(), n < len(text))
						}
						c.Outcome(fmt.Sprint(what))
					})
				}
			}
		},
	}
}

// spaced generates the text of a document with white space around all the tokens.
func spaced(doc any, space string) string {
	switch t := doc.(type) {
	case *jsonx.Object:
		var parts []string
		for _, k := range t.Keys {
			parts = append(parts, space+compact(k)+space+":"+space+spaced(t.Values[k], space)+space)
		}
		return "{" + strings.Join(parts, ",") + space + "}"
	case []any:
		var parts []string
		for _, x := range t {
			parts = append(parts, space+spaced(x, space)+space)
		}
		return "[" + strings.Join(parts, ",") + space + "]"
	}
	return compact(doc)
}
