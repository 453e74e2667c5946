package main

import (
	"fmt"
	"reflect"

	"verif/lib/engine"
	. "verif/lib/spec"
)

// fullObj returns an object that has values for all the attributes, including those that are objects.
func fullObj(v *Version, t *Type) *Obj {
	o := &Obj{V: v, T: t, Attrs: map[string]any{}}
	for _, a := range t.Attrs {
		o.Attrs[a.Name.String()] = attrSamples(v, a)[1]
	}
	if t.Kind == Class {
		o.HasID, o.ID = true, "123"
		o.HasRef, o.HREF = true, "/api/things/123"
	}
	return o
}

// halfObj returns a link that has the first value of half of the attributes.
func halfObj(v *Version, t *Type) *Obj {
	o := &Obj{V: v, T: t, Attrs: map[string]any{}}
	for i, a := range t.Attrs {
		if i%2 == 0 {
			o.Attrs[a.Name.String()] = attrSamples(v, a)[0]
		}
	}
	if t.Kind == Class {
		o.HasID, o.ID = true, "456"
		o.Link = true
	}
	return o
}

// setKeep calls the setter of the attribute and returns the arguments that were passed.
func setKeep(b reflect.Value, v *Version, a *Attr, val any) []reflect.Value {
	m := method(b, a.GoName())
	args := setterArgs(m, v, a, val)
	var out []reflect.Value
	if m.Type().IsVariadic() {
		slice := reflect.MakeSlice(m.Type().In(0), 0, len(args)+1)
		slice = reflect.Append(slice, args...)
		out = m.CallSlice([]reflect.Value{slice})
		// Change the slice, which should have been copied:
		touch(v, a.Type.Elem, slice)
	} else {
		out = m.Call(args)
	}
	if out[0].Pointer() != b.Pointer() {
		panic(fmt.Sprintf("setter %s doesn't return the builder", a.GoName()))
	}
	return args
}

// touch changes the values that the user passed to a setter.
func touch(v *Version, elem string, arg reflect.Value) {
	switch arg.Kind() {
	case reflect.Slice:
		for i := 0; i < arg.Len(); i++ {
			arg.Index(i).Set(reflect.Zero(arg.Type().Elem()))
		}
	case reflect.Map:
		if arg.IsNil() {
			return
		}
		for _, k := range arg.MapKeys() {
			touch(v, elem, arg.MapIndex(k))
			arg.SetMapIndex(k, reflect.Value{})
		}
		arg.SetMapIndex(reflect.ValueOf("touched"), reflect.Zero(arg.Type().Elem()))
	case reflect.Ptr:
		if arg.IsNil() || IsBuiltin(elem) {
			return
		}
		t := v.Type(elem)
		if arg.Type() == reflect.TypeOf(reg(v, elem).NewList).Out(0) {
			method(arg, "Items").Call(nil)
			return
		}
		if t.Kind == Class {
			setID(arg, "touched")
			setHREF(arg, "touched")
			setLink(arg, true)
		}
		for _, a := range t.Attrs {
			values := attrSamples(v, a)
			set(arg, v, a, values[len(values)-1])
		}
	}
}

// scribble overwrites the content of the slices, maps and lists returned by the accessors of an object.
func scribble(t *Type, rv reflect.Value) {
	for _, a := range t.Attrs {
		x := method(rv, a.GoName()).Call(nil)[0]
		switch x.Kind() {
		case reflect.Slice:
			for i := 0; i < x.Len(); i++ {
				x.Index(i).Set(reflect.Zero(x.Type().Elem()))
			}
		case reflect.Map:
			if !x.IsNil() {
				for _, k := range x.MapKeys() {
					x.SetMapIndex(k, reflect.Value{})
				}
				x.SetMapIndex(reflect.ValueOf("scribbled"), reflect.Zero(x.Type().Elem()))
			}
		case reflect.Ptr:
			if a.Type.Shape == List && !x.IsNil() {
				for i, items := 0, method(x, "Items").Call(nil)[0]; i < items.Len(); i++ {
					items.Index(i).Set(reflect.Zero(items.Type().Elem()))
				}
				method(x, "SetHREF").Call([]reflect.Value{reflect.ValueOf("scribbled")})
			}
		}
	}
}

// built is an object that was built, together with the value that it should have.
type built struct {
	rv   reflect.Value
	want string
}

// history is the state of a history of operations on a builder.
type history struct {
	v       *Version
	t       *Type
	b       reflect.Value
	model   *Obj
	objects []*built
	args    []func()
	c       *engine.Ctx
}

type builderOp struct {
	name string
	run  func(h *history)
}

func (h *history) build() {
	h.c.Step(1)
	rv := build(h.b)
	h.objects = append(h.objects, &built{rv, canon(h.model)})
	h.verify("after build")
}

// verify checks all the objects that have been built.
func (h *history) verify(when string) {
	for i, x := range h.objects {
		if x.want != "" {
			h.c.Equal(fmt.Sprintf("object %d %s", i, when), observe(h.v, h.t.Name.String(), x.rv), x.want)
		}
	}
}

func (h *history) copy(o *Obj) {
	h.c.Step(1)
	rv := object(o)
	h.objects = append(h.objects, &built{rv, canon(o)})
	out := method(h.b, "Copy").Call([]reflect.Value{rv})
	h.c.Check(out[0].Pointer() == h.b.Pointer(), "the copy method doesn't return the builder")
	h.model = o.clone()
}

func builderOps(v *Version, t *Type) []builderOp {
	var ops []builderOp
	add := func(name string, run func(h *history)) { ops = append(ops, builderOp{name, run}) }
	for _, a := range t.Attrs {
		setTo := func(val any) func(h *history) {
			return func(h *history) {
				h.c.Step(1)
				args := setKeep(h.b, v, a, val)
				h.args = append(h.args, func() {
					for _, arg := range args {
						touch(a.In(v), a.Type.Elem, arg)
					}
				})
				h.model = h.model.clone()
				if val == nil {
					delete(h.model.Attrs, a.Name.String())
				} else {
					h.model.Attrs[a.Name.String()] = val
				}
			}
		}
		values := attrSamples(v, a)
		add("set "+a.Name.String(), setTo(values[1]))
		add("set other "+a.Name.String(), setTo(values[0]))
		if a.Type.Shape == Map || a.Type.Shape == Plain && !a.In(v).IsScalarElem(a.Type.Elem) {
			add("set nil "+a.Name.String(), setTo(nil))
		}
	}
	if t.Kind == Class {
		id := func(text string) func(h *history) {
			return func(h *history) {
				setID(h.b, text)
				h.model = h.model.clone()
				h.model.HasID, h.model.ID = true, text
			}
		}
		add("id", id("999"))
		add("empty id", id(""))
		add("href", func(h *history) {
			setHREF(h.b, "/other")
			h.model = h.model.clone()
			h.model.HasRef, h.model.HREF = true, "/other"
		})
		for _, flag := range []bool{true, false} {
			add(fmt.Sprintf("link %v", flag), func(h *history) {
				setLink(h.b, flag)
				h.model = h.model.clone()
				h.model.Link = flag
			})
		}
	}
	add("copy full", func(h *history) { h.copy(fullObj(v, t)) })
	add("copy half", func(h *history) { h.copy(halfObj(v, t)) })
	add("copy empty", func(h *history) { h.copy(&Obj{V: v, T: t, Attrs: map[string]any{}}) })
	add("copy nil", func(h *history) {
		method(h.b, "Copy").Call([]reflect.Value{reflect.ValueOf(reg(v, t.Name.String()).Nil)})
	})
	add("build", func(h *history) { h.build() })
	add("build and scribble", func(h *history) {
		h.build()
		last := h.objects[len(h.objects)-1]
		scribble(t, last.rv)
		last.want = ""
		h.verify("after changing the values returned by other object")
	})
	add("copy of built object", func(h *history) {
		h.build()
		last := h.objects[len(h.objects)-1]
		h.b = call(reg(v, t.Name.String()).New)[0]
		method(h.b, "Copy").Call([]reflect.Value{last.rv})
	})
	return ops
}

func init() {
	properties["P12"] = &Property{
		Rule: "one execution per history of operations on a builder; the abstract builder (a map from attributes to values) is run in lockstep and all the objects that have been built, or copied, are compared with it after each build, after changing what was passed to setters and what getters returned, and after setting everything again; outcomes are the distinct final objects",
		Assumptions: []string{
			"maps and nested builders passed to setters aren't changed by the user between the call to the setter and the call to build",
			"types of the reference model (lib/models)",
		},
		Run: func(r *engine.Report) {
			allTypes(func(v *Version, t *Type) {
				ops := builderOps(v, t)
				budget := 30000
				if r.Thorough() {
					budget = 7000000
				}
				depth := 3
				for n := len(ops) * len(ops) * len(ops) * len(ops); n <= budget && depth < 6; n *= len(ops) {
					depth++
				}
				name := v.Key() + "/" + t.Name.String()
				r.Explore("histories of "+name, fmt.Sprintf("all the sequences of %d operations chosen from %d, for two initial states", depth, len(ops)), func(c *engine.Ctx) {
					h := &history{v: v, t: t, c: c}
					start := c.Flag("start with all the attributes")
					indexes := make([]int, depth)
					for i := range indexes {
						indexes[i] = c.Choose("operation", len(ops))
					}
					c.Commit()
					h.model = &Obj{V: v, T: t, Attrs: map[string]any{}}
					if start {
						h.model = fullObj(v, t)
					}
					h.b = newBuilder(h.model)
					for _, i := range indexes {
						ops[i].run(h)
						c.State(canon(h.model))
						c.Equal("builder is empty", method(h.b, "Empty").Call(nil)[0].Bool(), h.model.empty())
					}
					h.build()
					c.Outcome(canon(h.model))
					for _, f := range h.args {
						f()
					}
					h.verify("after changing the values passed to the builder")
					other := halfObj(v, t)
					if t.Kind == Class {
						setID(h.b, "overwritten")
						setHREF(h.b, "overwritten")
						setLink(h.b, !h.model.Link)
					}
					for _, a := range t.Attrs {
						set(h.b, v, a, attrSamples(v, a)[len(attrSamples(v, a))-1])
					}
					h.verify("after setting all the attributes of the builder")
					h.copyOver(other)
					h.verify("after copying other object to the builder")
				})
			})
		},
	}
}

func (h *history) copyOver(o *Obj) {
	h.copy(o)
	h.build()
}
