package main

import (
	"fmt"
	"reflect"

	"verif/lib/engine"
	. "verif/lib/spec"
)

func init() {
	properties["P16"] = &Property{
		Rule: "one execution per number of attributes, kind of type and set of attributes; presence and values reported by the builder, the object, its copies and its JSON document are compared with the abstract object; outcomes are the distinct objects",
		Assumptions: []string{
			"interactions between more than two attributes aren't explored (in addition to the complements)",
			"types with different numbers of attributes whose kinds repeat cyclically (lib/models)",
		},
		Run: func(r *engine.Report) {
			check := func(c *engine.Ctx, o *Obj) {
				v, elem := o.V, o.T.Name.String()
				rg := reg(v, elem)
				want := canon(o)
				x := object(o)
				c.Equal("object", observe(v, elem, x), want)
				b := call(rg.New)[0]
				method(b, "Copy").Call([]reflect.Value{x})
				c.Equal("copy", observe(v, elem, build(b)), want)
				text, err := marshal(rg.Marshal, x)
				c.Check(err == nil, "can't write: %v", err)
				again := call(rg.Unmarshal, text)
				c.Check(again[1].IsNil(), "can't read '%s'", text)
				c.Equal("object that was read", observe(v, elem, again[0]), want)
				c.Outcome(want)
			}
			allTypes(func(v *Version, t *Type) {
				n := len(t.Attrs)
				name := v.Key() + "/" + t.Name.String()
				r.Explore("pairs of "+name, fmt.Sprintf("all the sets of at most two of the %d attributes and their complements, with zero and typical values, with and without identifier and href", n), func(c *engine.Ctx) {
					others := c.Flag("complement")
					one := c.Choose("first", n+1)
					two := c.Choose("second", n+1)
					mode := c.Choose("mode", 2)
					builtin := 0
					if t.Kind == Class {
						builtin = c.Choose("builtin", 4)
					}
					if two < one {
						c.Skip()
					}
					c.Commit()
					o := &Obj{V: v, T: t, Attrs: map[string]any{}}
					for i, a := range t.Attrs {
						if (i == one || i == two) != others {
							o.Attrs[a.Name.String()] = attrSamples(v, a)[mode]
						}
					}
					switch builtin {
					case 1:
						o.HasID, o.ID = true, "1"
					case 2:
						o.HasRef, o.HREF = true, "/x"
					case 3:
						o.HasID, o.ID, o.Link = true, "", true
					}
					check(c, o)
				})
				r.Explore("ranges of "+name, "all the prefixes and suffixes of the attributes", func(c *engine.Ctx) {
					from := c.Choose("from", n+1)
					suffix := c.Flag("suffix")
					c.Commit()
					o := &Obj{V: v, T: t, Attrs: map[string]any{}}
					for i, a := range t.Attrs {
						if (i >= from) == suffix {
							o.Attrs[a.Name.String()] = attrSamples(v, a)[1]
						}
					}
					check(c, o)
				})
			})
		},
	}
}
