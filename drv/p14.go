package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"reflect"
	"strings"

	"verif/lib/engine"
	"verif/lib/jsonx"
	. "verif/lib/spec"
)

// marshal writes an object and returns the document.
func marshal(f any, rv reflect.Value) (string, error) {
	var b bytes.Buffer
	out := call(f, rv, reflect.ValueOf(&b))
	err, _ := out[0].Interface().(error)
	return b.String(), err
}

// unmarshal reads an object.
func unmarshal(f any, source any) (reflect.Value, error) {
	out := call(f, source)
	err, _ := out[1].Interface().(error)
	return out[0], err
}

// chunks is a reader that returns at most n bytes in each call, and fails after limit bytes.
type chunks struct {
	data  string
	size  int
	limit int
	err   error
}

func (r *chunks) Read(p []byte) (int, error) {
	if r.limit == 0 {
		return 0, r.err
	}
	n := r.size
	if n > len(p) {
		n = len(p)
	}
	if n > r.limit {
		n = r.limit
	}
	if n > len(r.data) {
		n = len(r.data)
	}
	if n == 0 {
		return 0, io.EOF
	}
	copy(p, r.data[:n])
	r.data = r.data[n:]
	r.limit -= n
	return n, nil
}

// failing is a writer that fails after the given number of bytes.
type failing struct {
	left int
	err  error
}

func (w *failing) Write(p []byte) (int, error) {
	if len(p) > w.left {
		n := w.left
		w.left = 0
		return n, w.err
	}
	w.left -= len(p)
	return len(p), nil
}

var errInjected = errors.New("injected failure")

// sources returns all the kinds of sources that can be used to read a document.
func sources(text string) []any {
	return []any{
		text, []byte(text), strings.NewReader(text), &chunks{data: text, size: 1, limit: 1 << 30},
		&chunks{data: text, size: 7, limit: 1 << 30},
	}
}

// chooseObject chooses one of the objects of the type: subsets of attributes and built-in fields.
func chooseObject(c *engine.Ctx, v *Version, t *Type, limit int) *Obj {
	o := &Obj{V: v, T: t, Attrs: map[string]any{}}
	if t.Kind == Class {
		o.Link = c.Flag("link")
		o.HasID = c.Flag("id")
		o.HasRef = c.Flag("href")
	}
	present := make([]bool, len(t.Attrs))
	if len(t.Attrs) <= limit {
		for i := range present {
			present[i] = c.Flag(t.Attrs[i].Name.String())
		}
	} else {
		others := c.Flag("complement")
		one := c.Choose("first", len(present)+1)
		two := c.Choose("second", len(present)+1)
		if two < one {
			c.Skip()
		}
		for i := range present {
			present[i] = (i == one || i == two) != others
		}
	}
	mode := c.Choose("mode", 3)
	if o.HasID && mode > 0 {
		o.ID = "123"
	}
	if o.HasRef && mode > 0 {
		o.HREF = "/api/123"
	}
	for i, a := range t.Attrs {
		if present[i] {
			n := mode
			if mode == 2 {
				n = i % 2
			}
			o.Attrs[a.Name.String()] = attrSamples(v, a)[n]
		}
	}
	return o
}

// roundTrip checks that the object can be written and read.
func roundTrip(c *engine.Ctx, o *Obj, srcs int) string {
	elem := o.T.Name.String()
	rg := reg(o.V, elem)
	rv := object(o)
	want := canon(o)
	text, err := marshal(rg.Marshal, rv)
	c.Check(err == nil, "can't write %s: %v", want, err)
	_, err = jsonx.Decode([]byte(text))
	c.Check(err == nil, "document '%s' for %s isn't valid: %v", text, want, err)
	c.Equal("object after writing", observe(o.V, elem, rv), want)
	again, err := marshal(rg.Marshal, rv)
	c.Check(err == nil, "can't write again %s: %v", want, err)
	c.Equal("second document", again, text)
	other, err := marshal(rg.Marshal, object(o))
	c.Check(err == nil, "can't write equal object: %v", err)
	c.Equal("document of equal object", other, text)
	for _, source := range sources(text)[:srcs] {
		back, err := unmarshal(rg.Unmarshal, source)
		c.Check(err == nil, "can't read '%s' from %T: %v", text, source, err)
		c.Equal("object read from "+fmt.Sprintf("%T", source), observe(o.V, elem, back), want)
	}
	return text
}

func init() {
	properties["P14"] = &Property{
		Rule: "one execution per object or list; the document that is written is decoded with a strict independent decoder, written again, and read from all the kinds of sources; outcomes are the distinct documents",
		Assumptions: []string{
			"strings are valid UTF-8 and floating point numbers are finite; dates don't have fractions of seconds, that aren't part of the format",
			"types of the reference model (lib/models)",
		},
		Run: func(r *engine.Report) {
			allTypes(func(v *Version, t *Type) {
				name := v.Key() + "/" + t.Name.String()
				rg := reg(v, t.Name.String())
				limit := 12
				if r.Thorough() {
					limit = 17
				}
				r.Explore("subsets of "+name, fmt.Sprintf("all the subsets of attributes for at most %d, otherwise all the sets of at most two and their complements; zero, typical and mixed values", limit), func(c *engine.Ctx) {
					o := chooseObject(c, v, t, limit)
					c.Commit()
					c.Outcome(roundTrip(c, o, 1))
				})
				r.Explore("values of "+name, "all the representative values of each attribute, alone and with all the others, read from all the kinds of sources", func(c *engine.Ctx) {
					if len(t.Attrs) == 0 {
						c.Skip()
					}
					a := t.Attrs[c.Choose("attribute", len(t.Attrs))]
					values := attrSamples(v, a)
					val := values[c.Choose("value", len(values))]
					others := c.Flag("others")
					c.Commit()
					o := &Obj{V: v, T: t, Attrs: map[string]any{}}
					if others {
						o = fullObj(v, t)
					}
					o.Attrs[a.Name.String()] = val
					c.Outcome(roundTrip(c, o, 5))
				})
				objs := objects(v, t)
				objs = append(objs, fullObj(v, t))
				max := 3
				if r.Thorough() {
					max = 5
				}
				r.Explore("lists of "+name, fmt.Sprintf("all the sequences of at most %d of the %d representative objects", max, len(objs)), func(c *engine.Ctx) {
					n := c.Choose("length", max+1)
					items := []any{}
					for i := 0; i < n; i++ {
						items = append(items, engine.Pick(c, "item", objs))
					}
					c.Commit()
					list := method(build(listBuilder(v, t.Name.String(), items)), "Slice").Call(nil)[0]
					listTrip(c, v, t.Name.String(), rg, list, items)
				})
			})
			// Many items, and many levels:
			allTypes(func(v *Version, t *Type) {
				rg := reg(v, t.Name.String())
				objs := append(objects(v, t), fullObj(v, t))
				r.Explore("long lists of "+v.Key()+"/"+t.Name.String(), "lists of up to 300 objects", func(c *engine.Ctx) {
					items := repeated(objs, engine.Pick(c, "length", []int{6, 8, 9, 16, 17, 32, 33, 64, 65, 100, 101, 128, 129, 256, 257, 300}))
					c.Commit()
					list := method(build(listBuilder(v, t.Name.String(), items)), "Slice").Call(nil)[0]
					listTrip(c, v, t.Name.String(), rg, list, items)
				})
			})
			r.Explore("nested objects", "objects nested up to 40 times, via plain attributes or lists, with and without other attributes in each level", func(c *engine.Ctx) {
				n := 1 + c.Choose("levels", 40)
				kind := c.Choose("kind", 3)
				full := c.Flag("full")
				c.Commit()
				v := version("kinds_mgmt/v1")
				t := v.Type("deep")
				var o *Obj
				for i := 0; i < n; i++ {
					x := &Obj{V: v, T: t, Attrs: map[string]any{}}
					if full {
						x.Attrs["nests"] = []any{fullObj(v, v.Type("nest"))}
					}
					if o != nil {
						if kind == 0 || kind == 2 && i%2 == 0 {
							x.Attrs["self"] = o
						} else {
							x.Attrs["selves"] = []any{o, newObj(v, "deep")}
						}
					}
					o = x
				}
				c.Outcome(roundTrip(c, o, 5))
			})
			// Lists of scalars:
			for _, s := range model.Services {
				for _, v := range s.Versions {
					for _, elem := range listedScalars(v) {
						rg := versions[v.Key()].Types[elem]
						values := samples(v, elem)
						r.Explore(fmt.Sprintf("lists of %s/%s", v.Key(), elem), "all the sequences of at most three representative values", func(c *engine.Ctx) {
							n := c.Choose("length", 4)
							items := []any{}
							for i := 0; i < n; i++ {
								items = append(items, engine.Pick(c, "item", values))
							}
							c.Commit()
							typ := reflect.TypeOf(rg.MarshalList).In(0)
							list := reflect.MakeSlice(typ, 0, n)
							for _, x := range items {
								list = reflect.Append(list, scalarGo(x, typ.Elem()))
							}
							listTrip(c, v, elem, rg, list, items)
						})
					}
				}
			}
			// Documents larger than the buffers:
			v := version("kinds_mgmt/v1")
			from, to := 3900, 4200
			if r.Thorough() {
				from, to = 0, 9000
			}
			r.Explore("large documents", fmt.Sprintf("all the lengths from %d to %d of the first string, read in chunks of 1, 7, 512 and 4096 bytes", from, to), func(c *engine.Ctx) {
				n := from + c.Choose("length", to-from+1)
				size := []int{1, 7, 512, 4096}[c.Choose("chunk", 4)]
				c.Commit()
				t := v.Type("mixed")
				o := fullObj(v, t)
				o.ID = strings.Repeat("x", n)
				rg := reg(v, "mixed")
				text, err := marshal(rg.Marshal, object(o))
				c.Check(err == nil, "can't write: %v", err)
				back, err := unmarshal(rg.Unmarshal, &chunks{data: text, size: size, limit: 1 << 30})
				c.Check(err == nil, "can't read: %v", err)
				c.Equal("object", observe(v, "mixed", back), canon(o))
				c.Outcome(fmt.Sprint(n))
			})
			allTypes(func(v *Version, t *Type) {
				r.Explore("very large "+v.Key()+"/"+t.Name.String(), "each attribute with a long text or with many items, up to 1 MiB, and the rest with typical values; the same for a list with many objects", func(c *engine.Ctx) {
					a := engine.Pick(c, "attribute", append([]*Attr{nil}, t.Attrs...))
					many := c.Flag("many")
					n := engine.Pick(c, "size", sizes(r.Thorough()))
					c.Commit()
					rg := reg(v, t.Name.String())
					if a == nil {
						if !many || rg.MarshalList == nil {
							c.Skip()
						}
						typ := reflect.TypeOf(rg.MarshalList).In(0)
						list := reflect.MakeSlice(typ, 0, n/100)
						items := repeated(objects(v, t), n/100)
						for _, x := range items {
							list = reflect.Append(list, object(x.(*Obj)))
						}
						listTrip(c, v, t.Name.String(), rg, list, items)
						return
					}
					if a.Link {
						c.Skip()
					}
					val := enlarge(a.In(v), a.Type, n, many)
					if val == nil {
						c.Skip()
					}
					o := objects(v, t)[1].(*Obj).clone()
					o.Attrs[a.Name.String()] = val
					text, err := marshal(rg.Marshal, object(o))
					c.Check(err == nil, "can't write: %v", err)
					c.Equal("document", canonBody(text), jsonx.Canon(toJSON(o)))
					back, err := unmarshal(rg.Unmarshal, text)
					c.Check(err == nil, "can't read: %v", err)
					c.Equal("object", observe(v, t.Name.String(), back), canon(o))
					c.Outcome(fmt.Sprint(a.Name, many, n))
				})
			})
			// Failures of the writer:
			allTypes(func(v *Version, t *Type) {
				o := fullObj(v, t)
				rg := reg(v, t.Name.String())
				text, err := marshal(rg.Marshal, object(o))
				if err != nil {
					r.AddViolation("failures", "can't write %s: %v", canon(o), err)
					return
				}
				r.Explore("failing writer of "+v.Key()+"/"+t.Name.String(), "failure of the writer at each byte of the document of the object with all the attributes", func(c *engine.Ctx) {
					n := c.Choose("bytes", len(text)+1)
					c.Commit()
					out := call(rg.Marshal, object(o), reflect.ValueOf(&failing{n, errInjected}))
					failed := !out[0].IsNil()
					c.Equal(fmt.Sprintf("failure writing %d of %d bytes is reported", n, len(text)), failed, n < len(text))
					c.Outcome(fmt.Sprint(n, failed))
				})
			})
			// Failures of the writer of lists, for all the types of elements:
			allVersions(func(v *Version) {
				check := func(elem string, f any, list reflect.Value) {
					text, err := marshal(f, list)
					if err != nil {
						r.AddViolation("failures", "can't write list of %s: %v", elem, err)
						return
					}
					r.Explore("failing writer of list of "+v.Key()+"/"+elem, "failure of the writer at each byte of the document of a list of several elements", func(c *engine.Ctx) {
						n := c.Choose("bytes", len(text)+1)
						c.Commit()
						out := call(f, list, reflect.ValueOf(&failing{n, errInjected}))
						failed := !out[0].IsNil()
						c.Equal(fmt.Sprintf("failure writing %d of %d bytes is reported", n, len(text)), failed, n < len(text))
						c.Outcome(fmt.Sprint(n, failed))
					})
				}
				for _, elem := range listedScalars(v) {
					f := reg(v, elem).MarshalList
					slice := reflect.MakeSlice(reflect.TypeOf(f).In(0), 0, 0)
					for _, x := range samples(v, elem) {
						slice = reflect.Append(slice, goValue(x, slice.Type().Elem()))
					}
					check(elem, f, slice)
				}
				for _, t := range v.Types {
					if t.Kind == Enum {
						continue
					}
					f := reg(v, t.Name.String()).MarshalList
					slice := reflect.MakeSlice(reflect.TypeOf(f).In(0), 0, 0)
					o := fullObj(v, t)
					slice = reflect.Append(slice, object(o), object(objects(v, t)[0].(*Obj)), object(o))
					check(t.Name.String(), f, slice)
				}
			})
		},
	}
}

// listedScalars returns the scalar types of the version that have a function to read and write lists.
func listedScalars(v *Version) []string {
	var r []string
	for _, elem := range Builtins {
		if versions[v.Key()].Types[elem] != nil {
			r = append(r, elem)
		}
	}
	for _, t := range v.Types {
		if t.Kind == Enum && reg(v, t.Name.String()).MarshalList != nil {
			r = append(r, t.Name.String())
		}
	}
	return r
}

func listTrip(c *engine.Ctx, v *Version, elem string, rg *TypeReg, list reflect.Value, items []any) {
	want := canon(items)
	observeList := func(rv reflect.Value) string {
		got, err := readValue(v, L(elem), rv)
		if err != nil {
			return "inconsistent: " + err.Error()
		}
		return canon(got)
	}
	text, err := marshal(rg.MarshalList, list)
	c.Check(err == nil, "can't write %s: %v", want, err)
	doc, err := jsonx.Decode([]byte(text))
	c.Check(err == nil, "document '%s' for %s isn't valid: %v", text, want, err)
	c.Equal("document", jsonx.Canon(doc), jsonx.Canon(toJSON(items)))
	c.Equal("list after writing", observeList(list), want)
	for _, source := range sources(text) {
		back, err := unmarshal(rg.UnmarshalList, source)
		c.Check(err == nil, "can't read '%s' from %T: %v", text, source, err)
		c.Equal("list read", observeList(back), want)
	}
	c.Outcome(text)
}
