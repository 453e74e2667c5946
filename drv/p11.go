package main

import (
	"fmt"
	"reflect"

	"verif/lib/engine"
	. "verif/lib/spec"
)

// allTypes calls the function for each struct and class of the model.
func allTypes(f func(v *Version, t *Type)) {
	for _, s := range model.Services {
		for _, v := range s.Versions {
			for _, t := range v.Types {
				if t.Kind == Struct || t.Kind == Class {
					f(v, t)
				}
			}
		}
	}
}

func init() {
	properties["P11"] = &Property{
		Rule: "one execution per subset of attributes, built-in fields and mode of selection of values; every accessor of the built object is compared with the abstract object; outcomes are the distinct abstract objects",
		Assumptions: []string{
			"types of the reference model (lib/models); attributes don't collide with the built-in methods",
		},
		Run: func(r *engine.Report) {
			allTypes(func(v *Version, t *Type) {
				name := v.Key() + "/" + t.Name.String()
				limit := 12
				if r.Thorough() {
					limit = 17
				}
				small := len(t.Attrs) <= limit
				bounds := "all the subsets of the attributes and of id, href and link, with zero, typical and mixed values"
				if !small {
					bounds = "all the sets with at most two attributes and their complements, and all the subsets of id, href and link"
				}
				r.Explore("subsets of "+name, bounds, func(c *engine.Ctx) {
					o := &Obj{V: v, T: t, Attrs: map[string]any{}}
					if t.Kind == Class {
						o.Link = c.Flag("link")
						o.HasID = c.Flag("id")
						o.HasRef = c.Flag("href")
					}
					present := make([]bool, len(t.Attrs))
					if small {
						for i := range present {
							present[i] = c.Flag(t.Attrs[i].Name.String())
						}
					} else {
						others := c.Flag("complement")
						one := c.Choose("first", len(present)+1)
						two := c.Choose("second", len(present)+1)
						if two < one {
							c.Skip()
						}
						for i := range present {
							present[i] = (i == one || i == two) != others
						}
					}
					mode := c.Choose("mode", 3)
					c.Commit()
					if mode > 0 {
						o.ID, o.HREF = "123", "/api/123"
					}
					if !o.HasID {
						o.ID = ""
					}
					if !o.HasRef {
						o.HREF = ""
					}
					for i, a := range t.Attrs {
						if present[i] {
							n := mode
							if mode == 2 {
								n = i % 2
							}
							o.Attrs[a.Name.String()] = attrSamples(v, a)[n]
						}
					}
					want := canon(o)
					b := newBuilder(o)
					c.Equal("builder is empty", method(b, "Empty").Call(nil)[0].Bool(), o.empty())
					c.Equal("object", observe(v, t.Name.String(), build(b)), want)
					c.Outcome(want)
				})
				r.Explore("values of "+name, "all the representative values of each attribute", func(c *engine.Ctx) {
					if len(t.Attrs) == 0 {
						c.Skip()
					}
					a := t.Attrs[c.Choose("attribute", len(t.Attrs))]
					values := attrSamples(v, a)
					val := values[c.Choose("value", len(values))]
					c.Commit()
					o := &Obj{V: v, T: t, Attrs: map[string]any{a.Name.String(): val}}
					c.Equal("object", observe(v, t.Name.String(), object(o)), canon(o))
					c.Outcome(canon(o))
				})
				r.Explore("nil "+name, "all the accessors of nil objects", func(c *engine.Ctx) {
					c.Commit()
					rg := reg(v, t.Name.String())
					rv := reflect.ValueOf(rg.Nil)
					c.Equal("empty", method(rv, "Empty").Call(nil)[0].Bool(), true)
					getters := []string{}
					if t.Kind == Class {
						c.Equal("kind", method(rv, "Kind").Call(nil)[0].String(), rg.NilKind)
						c.Equal("link", method(rv, "Link").Call(nil)[0].Bool(), false)
						getters = append(getters, "ID", "HREF")
					}
					for _, a := range t.Attrs {
						getters = append(getters, a.GoName())
					}
					for _, name := range getters {
						c.Check(isZero(method(rv, name).Call(nil)[0]), "accessor %s of nil object isn't the zero value", name)
						out := method(rv, "Get"+name).Call(nil)
						c.Check(isZero(out[0]) && !out[1].Bool(), "accessor Get%s of nil object returns a value", name)
					}
					if t.Kind == Class {
						// The names of the kinds are part of the JSON representation:
						c.Equal("kinds", []string{rg.Kind, rg.LinkKind, rg.NilKind},
							[]string{t.GoName(), t.GoName() + "Link", t.GoName() + "Nil"})
					}
					c.Equal("list kinds", []string{rg.ListKind, rg.ListLinkKind, rg.ListNilKind},
						[]string{t.GoName() + "List", t.GoName() + "ListLink", t.GoName() + "ListNil"})
					c.Outcome(name)
				})
			})
			r.Explore("enums", "the constants of all the values of all the enumerated types", func(c *engine.Ctx) {
				c.Commit()
				for _, s := range model.Services {
					for _, v := range s.Versions {
						for _, t := range v.Types {
							if t.Kind != Enum {
								continue
							}
							for _, x := range t.Values {
								got := reflect.ValueOf(reg(v, t.Name.String()).Values[x.Name.String()]).String()
								c.Equal(fmt.Sprintf("value %s of %s", x.Name, t.Name), got, x.JSONName())
								c.Outcome(got)
							}
						}
						for _, e := range v.Errors {
							c.Equal("error "+e.Name.String(), reflect.ValueOf(versions[v.Key()].Errors[e.Name.String()]).Int(), int64(e.Code))
						}
					}
				}
			})
		},
	}
}

// allVersions calls the given function for each version of the model.
func allVersions(f func(v *Version)) {
	for _, s := range model.Services {
		for _, v := range s.Versions {
			f(v)
		}
	}
}
