package main

import (
	"bytes"
	"fmt"
	"reflect"

	"verif/lib/engine"
	. "verif/lib/spec"
)

// checkList verifies that all the methods of a list agree with the expected sequence.
func checkList(c *engine.Ctx, v *Version, t *Type, rv reflect.Value, want []any) {
	elem := t.Name.String()
	texts := make([]string, len(want))
	for i, x := range want {
		texts[i] = canon(x)
	}
	n := len(want)
	c.Equal("length", int(method(rv, "Len").Call(nil)[0].Int()), n)
	c.Equal("emptiness", method(rv, "Empty").Call(nil)[0].Bool(), n == 0)
	for i := -2; i <= n+2; i++ {
		x := method(rv, "Get").Call([]reflect.Value{reflect.ValueOf(i)})[0]
		if i < 0 || i >= n {
			c.Check(x.IsNil(), "item %d of a list of length %d isn't nil", i, n)
		} else {
			c.Equal(fmt.Sprintf("item %d", i), observe(v, elem, x), texts[i])
		}
	}
	slice := method(rv, "Slice").Call(nil)[0]
	c.Check(!slice.IsNil(), "the slice of a list of length %d is nil", n)
	c.Equal("length of the slice", slice.Len(), n)
	for i := 0; i < n; i++ {
		c.Equal(fmt.Sprintf("item %d of the slice", i), observe(v, elem, slice.Index(i)), texts[i])
		slice.Index(i).Set(reflect.Zero(slice.Type().Elem()))
	}
	for _, name := range []string{"Each", "Range"} {
		m := method(rv, name)
		// Stop at each possible position, and also don't stop:
		for stop := 0; stop <= n; stop++ {
			count := 0
			f := reflect.MakeFunc(m.Type().In(0), func(args []reflect.Value) []reflect.Value {
				if name == "Range" {
					c.Equal("index", int(args[0].Int()), count)
					args = args[1:]
				}
				c.Check(count < n, "%s calls the function more than %d times", name, n)
				c.Equal(fmt.Sprintf("item %d of %s", count, name), observe(v, elem, args[0]), texts[count])
				count++
				return []reflect.Value{reflect.ValueOf(count != stop+1)}
			})
			m.Call([]reflect.Value{f})
			expected := stop + 1
			if expected > n {
				expected = n
			}
			c.Equal(fmt.Sprintf("calls of the function of %s that stops at %d of %d", name, stop, n), count, expected)
		}
	}
}

// listOp is an operation on a list builder.
type listHistory struct {
	c     *engine.Ctx
	b     reflect.Value
	items []any
	lists []*builtList
	args  []reflect.Value
}

type builtList struct {
	rv   reflect.Value
	want []any
}

func init() {
	properties["P13"] = &Property{
		Rule: "one execution per list (or history of operations on a list builder); all the methods of the list are called with all the indexes in and around its range and all the points where iteration can stop; outcomes are the distinct lists",
		Assumptions: []string{
			"lists of objects of the types of the reference model; the slices returned by Items, that expose the content of the list, aren't changed",
		},
		Run: func(r *engine.Report) {
			max := 3
			if r.Thorough() {
				max = 6
			}
			allTypes(func(v *Version, t *Type) {
				name := v.Key() + "/" + t.Name.String()
				rg := reg(v, t.Name.String())
				objs := objects(v, t)
				r.Explore("lists of "+name, fmt.Sprintf("all the sequences of at most %d of the %d representative objects, built and read from JSON, with and without buffer", max, len(objs)), func(c *engine.Ctx) {
					n := c.Choose("length", max+1)
					var items []any
					for i := 0; i < n; i++ {
						items = append(items, engine.Pick(c, "item", objs))
					}
					source := c.Choose("source", 2)
					c.Commit()
					var rv reflect.Value
					if source == 0 {
						b := listBuilder(v, t.Name.String(), items)
						c.Equal("builder is empty", method(b, "Empty").Call(nil)[0].Bool(), n == 0)
						rv = build(b)
					} else {
						text := compact(toJSON(append([]any{}, items...)))
						out := call(rg.UnmarshalList, text)
						c.Check(out[1].IsNil(), "can't read '%s': %v", text, out[1])
						// What is read is a slice; the list with those items:
						rv = build(call(rg.NewList)[0])
						method(rv, "SetItems").Call([]reflect.Value{out[0]})
					}
					checkList(c, v, t, rv, items)
					// The slice returned by the first call was overwritten, that should not affect the list:
					checkList(c, v, t, rv, items)
					if t.Kind == Class {
						c.Equal("kind", method(rv, "Kind").Call(nil)[0].String(), rg.ListKind)
						c.Equal("link", method(rv, "Link").Call(nil)[0].Bool(), false)
						c.Equal("href", method(rv, "HREF").Call(nil)[0].String(), "")
						out := method(rv, "GetHREF").Call(nil)
						c.Check(out[0].String() == "" && !out[1].Bool(), "list without href has one")
					}
					c.Equal("items", method(rv, "Items").Call(nil)[0].Len(), n)
					c.Outcome(canon(items))
				})
				r.Explore("long lists of "+name, "lists of up to 65 objects, built and read from JSON", func(c *engine.Ctx) {
					n := engine.Pick(c, "length", []int{4, 5, 7, 8, 9, 10, 16, 17, 32, 33, 64, 65})
					read := c.Flag("read")
					c.Commit()
					items := repeated(objs, n)
					var rv reflect.Value
					if !read {
						rv = build(listBuilder(v, t.Name.String(), items))
					} else {
						out := call(rg.UnmarshalList, compact(toJSON(items)))
						c.Check(out[1].IsNil(), "can't read list: %v", out[1])
						rv = build(call(rg.NewList)[0])
						method(rv, "SetItems").Call([]reflect.Value{out[0]})
					}
					checkList(c, v, t, rv, items)
					checkList(c, v, t, rv, items)
					c.Outcome(fmt.Sprint(n, read))
				})
				r.Explore("nil list of "+name, "all the methods of nil lists", func(c *engine.Ctx) {
					c.Commit()
					rv := reflect.ValueOf(rg.NilList)
					checkList(c, v, t, rv, nil)
					if t.Kind == Class {
						c.Equal("kind", method(rv, "Kind").Call(nil)[0].String(), rg.ListNilKind)
						c.Equal("link", method(rv, "Link").Call(nil)[0].Bool(), false)
						c.Equal("href", method(rv, "HREF").Call(nil)[0].String(), "")
						out := method(rv, "GetHREF").Call(nil)
						c.Check(out[0].String() == "" && !out[1].Bool(), "nil list has href")
					}
					c.Equal("items", method(rv, "Items").Call(nil)[0].Len(), 0)
					c.Outcome(name)
				})
				depth := 4
				if r.Thorough() {
					depth = 6
				}
				r.Explore("histories of list builder of "+name, fmt.Sprintf("all the sequences of %d operations", depth), func(c *engine.Ctx) {
					ops := make([]int, depth)
					for i := range ops {
						ops[i] = c.Choose("operation", 7)
					}
					c.Commit()
					h := &listHistory{c: c, b: call(rg.NewList)[0]}
					set := func(items ...any) {
						m := method(h.b, "Items")
						slice := reflect.MakeSlice(m.Type().In(0), 0, len(items)+1)
						for _, x := range items {
							slice = reflect.Append(slice, newBuilder(x.(*Obj)))
						}
						out := m.CallSlice([]reflect.Value{slice})
						c.Check(out[0].Pointer() == h.b.Pointer(), "items method doesn't return the builder")
						h.args = append(h.args, slice)
						h.items = items
					}
					copyOf := func(items ...any) {
						rv := build(listBuilder(v, t.Name.String(), items))
						h.lists = append(h.lists, &builtList{rv, items})
						method(h.b, "Copy").Call([]reflect.Value{rv})
						h.items = items
					}
					build := func() {
						rv := build(h.b)
						h.lists = append(h.lists, &builtList{rv, h.items})
					}
					for _, op := range ops {
						switch op {
						case 0:
							set()
						case 1:
							set(objs[1])
						case 2:
							set(objs[2], objs[1], objs[0])
						case 3:
							copyOf(objs[0], objs[1])
						case 4:
							copyOf()
						case 5:
							method(h.b, "Copy").Call([]reflect.Value{reflect.ValueOf(rg.NilList)})
							h.items = nil
						case 6:
							build()
						}
						c.Equal("builder is empty", method(h.b, "Empty").Call(nil)[0].Bool(), len(h.items) == 0)
						c.State(canon(h.items))
					}
					// Change the slices that were passed to the builder, which should have copied them:
					for _, slice := range h.args {
						for i := 0; i < slice.Len(); i++ {
							slice.Index(i).Set(reflect.Zero(slice.Type().Elem()))
						}
					}
					build()
					set(objs[0])
					for _, l := range h.lists {
						checkList(c, v, t, l.rv, l.want)
					}
					c.Outcome(canon(h.lists[len(h.lists)-1].want))
				})
			})
			// Setters of the lists, that are used by the code that reads them:
			allTypes(func(v *Version, t *Type) {
				name := v.Key() + "/" + t.Name.String()
				rg := reg(v, t.Name.String())
				objs := objects(v, t)
				depth := 3
				if r.Thorough() {
					depth = 5
				}
				r.Explore("setters of lists of "+name, fmt.Sprintf("all the sequences of at most %d setters, starting with an empty list and with one of two objects", depth), func(c *engine.Ctx) {
					start := c.Choose("start", 2)
					n := c.Choose("length", depth+1)
					count := 4
					if t.Kind == Class {
						count = 8
					}
					ops := make([]int, n)
					for i := range ops {
						ops[i] = c.Choose("setter", count)
					}
					c.Commit()
					items := append([]any{}, objs[:2*start]...)
					rv := build(listBuilder(v, t.Name.String(), items))
					link, href := false, ""
					set := func(list ...any) {
						m := method(rv, "SetItems")
						slice := reflect.Zero(m.Type().In(0))
						if list != nil {
							slice = reflect.MakeSlice(m.Type().In(0), 0, len(list))
						}
						for _, x := range list {
							slice = reflect.Append(slice, object(x.(*Obj)))
						}
						m.Call([]reflect.Value{slice})
						items = list
					}
					check := func() {
						checkList(c, v, t, rv, items)
						c.Equal("items", method(rv, "Items").Call(nil)[0].Len(), len(items))
						if t.Kind != Class {
							return
						}
						kind := rg.ListKind
						if link {
							kind = rg.ListLinkKind
						}
						c.Equal("kind", method(rv, "Kind").Call(nil)[0].String(), kind)
						c.Equal("link", method(rv, "Link").Call(nil)[0].Bool(), link)
						c.Equal("href", method(rv, "HREF").Call(nil)[0].String(), href)
						out := method(rv, "GetHREF").Call(nil)
						c.Check(out[0].String() == href && out[1].Bool() == (href != ""), "href and presence are '%s' and %v instead of '%s'", out[0], out[1], href)
					}
					check()
					for _, op := range ops {
						switch op {
						case 0:
							set()
						case 1:
							set([]any{}...)
						case 2:
							set(objs[1])
						case 3:
							set(objs[2], objs[0], objs[1])
						case 4, 5:
							link = op == 4
							method(rv, "SetLink").Call([]reflect.Value{reflect.ValueOf(link)})
						case 6, 7:
							href = []string{"/api/list", ""}[op-6]
							method(rv, "SetHREF").Call([]reflect.Value{reflect.ValueOf(href)})
						}
						check()
						c.State(fmt.Sprint(canon(items), link, href))
					}
					c.Outcome(fmt.Sprint(canon(items), link, href))
				})
			})
			// Link and href of lists that are read as part of objects:
			allTypes(func(v *Version, t *Type) {
				for _, a := range t.Attrs {
					if !a.Link || a.Type.Shape != List {
						continue
					}
					av := a.In(v)
					target := av.Type(a.Type.Elem)
					rg := reg(v, t.Name.String())
					tg := reg(av, a.Type.Elem)
					r.Explore(fmt.Sprintf("list %s of %s/%s", a.Name, v.Key(), t.Name), "all the combinations of kind, href, items and order of them", func(c *engine.Ctx) {
						kind := c.Choose("kind", 4) // None, list, link, other
						href := c.Choose("href", 3) // None, empty, value
						n := c.Choose("items", 4)   // None, 0, 1, 2
						order := c.Choose("order", 6)
						c.Commit()
						var fields [3]string
						if kind > 0 {
							fields[0] = fmt.Sprintf("%q:%q", "kind", []string{"", tg.ListKind, tg.ListLinkKind, "Other"}[kind])
						}
						if href > 0 {
							fields[1] = fmt.Sprintf("%q:%q", "href", []string{"", "", "/api/list"}[href])
						}
						items := []any{}
						if n > 0 {
							for i := 1; i < n; i++ {
								items = append(items, objects(av, target)[i])
							}
							fields[2] = `"items":` + compact(toJSON(items))
						}
						perm := [][]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}[order]
						var b bytes.Buffer
						for _, i := range perm {
							if fields[i] != "" {
								if b.Len() > 0 {
									b.WriteString(",")
								}
								b.WriteString(fields[i])
							}
						}
						text := fmt.Sprintf("{%q:{%s}}", a.JSONName(), b.String())
						out := call(rg.Unmarshal, text)
						c.Check(out[1].IsNil(), "can't read '%s': %v", text, out[1])
						res := method(out[0], "Get"+a.GoName()).Call(nil)
						c.Check(res[1].Bool(), "list isn't present after reading '%s'", text)
						list := res[0]
						checkList(c, av, target, list, items)
						want := tg.ListKind
						if kind == 2 {
							want = tg.ListLinkKind
						}
						c.Equal("kind", method(list, "Kind").Call(nil)[0].String(), want)
						c.Equal("link", method(list, "Link").Call(nil)[0].Bool(), kind == 2)
						wantRef := ""
						if href == 2 {
							wantRef = "/api/list"
						}
						c.Equal("href", method(list, "HREF").Call(nil)[0].String(), wantRef)
						got := method(list, "GetHREF").Call(nil)
						c.Check(got[0].String() == wantRef && got[1].Bool() == (wantRef != ""), "href and presence of '%s' are '%s' and %v", text, got[0], got[1])
						c.Outcome(text)
					})
				}
			})
		},
	}
}
