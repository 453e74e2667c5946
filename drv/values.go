package main

import (
	"encoding/json"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"time"

	"verif/lib/jsonx"
	. "verif/lib/spec"
)

// Obj is the abstract value of an object: what the user of the generated code sees.
type Obj struct {
	V             *Version
	T             *Type
	Link          bool
	HasID, HasRef bool
	ID, HREF      string
	Attrs         map[string]any // Indexed by the canonical name of the attribute
}

// LL is the abstract value of a list of links.
type LL struct {
	Items []any
	Link  bool
	HREF  string
}

// The rest of the abstract values are bool, int, int64, float64, string (also for enums), time.Time,
// []any for lists and map[string]any for maps. Values of type `Interface` are wrapped:
type Iface struct{ Value any }

func newObj(v *Version, elem string) *Obj {
	t := v.Type(elem)
	if t == nil {
		panic("no type " + elem)
	}
	return &Obj{V: v, T: t, Attrs: map[string]any{}}
}

func (o *Obj) with(name string, value any) *Obj {
	for _, a := range o.T.Attrs {
		if a.Name.String() == name {
			o.Attrs[name] = value
			return o
		}
	}
	panic("no attribute " + name)
}

func (o *Obj) clone() *Obj {
	c := *o
	c.Attrs = map[string]any{}
	for k, v := range o.Attrs {
		c.Attrs[k] = v
	}
	return &c
}

func (o *Obj) empty() bool {
	return !o.HasID && !o.HasRef && len(o.Attrs) == 0
}

// canon generates the canonical text of an abstract value.
func canon(v any) string {
	var b strings.Builder
	writeCanon(&b, v)
	return b.String()
}

func writeCanon(b *strings.Builder, v any) {
	switch t := v.(type) {
	case nil:
		b.WriteString("nil")
	case *Obj:
		if t == nil {
			b.WriteString("nil object")
			return
		}
		b.WriteString(t.T.Name.String())
		b.WriteString("{")
		if t.Link {
			b.WriteString("link ")
		}
		if t.HasID {
			fmt.Fprintf(b, "id=%q ", t.ID)
		}
		if t.HasRef {
			fmt.Fprintf(b, "href=%q ", t.HREF)
		}
		keys := make([]string, 0, len(t.Attrs))
		for k := range t.Attrs {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			b.WriteString(k)
			b.WriteString("=")
			writeCanon(b, t.Attrs[k])
			b.WriteString(" ")
		}
		b.WriteString("}")
	case *LL:
		if t == nil {
			b.WriteString("nil list")
			return
		}
		fmt.Fprintf(b, "list(link=%v href=%q ", t.Link, t.HREF)
		writeCanon(b, t.Items)
		b.WriteString(")")
	case []any:
		b.WriteString("[")
		for _, x := range t {
			writeCanon(b, x)
			b.WriteString(" ")
		}
		b.WriteString("]")
	case map[string]any:
		keys := make([]string, 0, len(t))
		for k := range t {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		b.WriteString("map{")
		for _, k := range keys {
			fmt.Fprintf(b, "%q:", k)
			writeCanon(b, t[k])
			b.WriteString(" ")
		}
		b.WriteString("}")
	case time.Time:
		fmt.Fprintf(b, "date(%s)", t.UTC().Format(time.RFC3339Nano))
	case Iface:
		fmt.Fprintf(b, "any(%s)", jsonx.Canon(t.Value))
	case string:
		fmt.Fprintf(b, "%q", t)
	default:
		fmt.Fprintf(b, "%T(%v)", v, v)
	}
}

// ---- From abstract values to builders and objects ----

func call(f any, args ...any) []reflect.Value {
	var in []reflect.Value
	fv := reflect.ValueOf(f)
	for i, a := range args {
		if rv, ok := a.(reflect.Value); ok {
			in = append(in, rv)
			continue
		}
		if a == nil {
			in = append(in, reflect.Zero(fv.Type().In(i)))
			continue
		}
		in = append(in, reflect.ValueOf(a))
	}
	return fv.Call(in)
}

type methodKey struct {
	typ  reflect.Type
	name string
}

var methodCache = map[methodKey]int{}

func method(v reflect.Value, name string) reflect.Value {
	key := methodKey{v.Type(), name}
	i, ok := methodCache[key]
	if !ok {
		m, found := v.Type().MethodByName(name)
		if !found {
			panic(fmt.Sprintf("type %s doesn't have method %s", v.Type(), name))
		}
		i = m.Index
		methodCache[key] = i
	}
	return v.Method(i)
}

// scalarGo converts the abstract value of a scalar to the given Go type.
func scalarGo(val any, typ reflect.Type) reflect.Value {
	if i, ok := val.(Iface); ok {
		if i.Value == nil {
			return reflect.Zero(typ)
		}
		return reflect.ValueOf(i.Value)
	}
	return reflect.ValueOf(val).Convert(typ)
}

// newBuilder creates a builder that contains the given values.
func newBuilder(o *Obj) reflect.Value {
	b := call(reg(o.V, o.T.Name.String()).New)[0]
	fill(b, o)
	return b
}

// fill sets the values in the builder, in the order of the declaration of the attributes.
func fill(b reflect.Value, o *Obj) {
	if o.T.Kind == Class {
		if o.HasID {
			setID(b, o.ID)
		}
		if o.HasRef {
			setHREF(b, o.HREF)
		}
		if o.Link {
			setLink(b, true)
		}
	}
	for _, a := range o.T.Attrs {
		if val, ok := o.Attrs[a.Name.String()]; ok {
			set(b, o.V, a, val)
		}
	}
}

func setID(b reflect.Value, id string) { method(b, "ID").Call([]reflect.Value{reflect.ValueOf(id)}) }
func setHREF(b reflect.Value, href string) {
	method(b, "HREF").Call([]reflect.Value{reflect.ValueOf(href)})
}
func setLink(b reflect.Value, flag bool) {
	method(b, "Link").Call([]reflect.Value{reflect.ValueOf(flag)})
}

// elemBuilder converts the abstract value of an element to what builders accept.
func elemBuilder(val any, typ reflect.Type) reflect.Value {
	if o, ok := val.(*Obj); ok {
		if o == nil {
			return reflect.Zero(typ)
		}
		return newBuilder(o)
	}
	return scalarGo(val, typ)
}

// listBuilder creates a list builder.
func listBuilder(v *Version, elem string, items []any) reflect.Value {
	b := call(reg(v, elem).NewList)[0]
	m := method(b, "Items")
	var in []reflect.Value
	for _, item := range items {
		in = append(in, elemBuilder(item, m.Type().In(0).Elem()))
	}
	m.Call(in)
	return b
}

// setterArgs converts an abstract value to the arguments of the setter of a builder.
func setterArgs(m reflect.Value, v *Version, a *Attr, val any) []reflect.Value {
	var in []reflect.Value
	switch {
	case m.Type().IsVariadic():
		typ := m.Type().In(0).Elem()
		for _, item := range val.([]any) {
			in = append(in, elemBuilder(item, typ))
		}
	case a.Type.Shape == List:
		in = append(in, listBuilder(a.In(v), a.Type.Elem, val.(*LL).Items))
	case a.Type.Shape == Map:
		typ := m.Type().In(0)
		if val == nil {
			in = append(in, reflect.Zero(typ))
			break
		}
		mv := reflect.MakeMap(typ)
		for k, x := range val.(map[string]any) {
			mv.SetMapIndex(reflect.ValueOf(k), elemBuilder(x, typ.Elem()))
		}
		in = append(in, mv)
	default:
		if val == nil {
			in = append(in, reflect.Zero(m.Type().In(0)))
			break
		}
		in = append(in, elemBuilder(val, m.Type().In(0)))
	}
	return in
}

// set calls the setter of the attribute, and checks that it returns the same builder.
func set(b reflect.Value, v *Version, a *Attr, val any) {
	m := method(b, a.GoName())
	out := m.Call(setterArgs(m, v, a, val))
	if out[0].Pointer() != b.Pointer() {
		panic(fmt.Sprintf("setter %s doesn't return the builder", a.GoName()))
	}
}

// build builds the object.
func build(b reflect.Value) reflect.Value {
	out := method(b, "Build").Call(nil)
	if !out[1].IsNil() {
		panic(fmt.Sprintf("can't build: %v", out[1].Interface()))
	}
	return out[0]
}

// object creates the object.
func object(o *Obj) reflect.Value { return build(newBuilder(o)) }

// ---- From objects to abstract values ----

// readElem converts a Go value to the abstract value of the element type.
func readElem(v *Version, elem string, rv reflect.Value) (any, error) {
	if elem == "Interface" {
		return Iface{rv.Interface()}, nil
	}
	if IsBuiltin(elem) {
		return rv.Interface(), nil
	}
	t := v.Type(elem)
	if t.Kind == Enum {
		return rv.String(), nil
	}
	return readObj(v, t, rv)
}

func readValue(v *Version, ref Ref, rv reflect.Value) (any, error) {
	switch ref.Shape {
	case List:
		if rv.Kind() == reflect.Ptr {
			return readList(v, ref.Elem, rv)
		}
		if rv.IsNil() {
			return nil, nil
		}
		list := []any{}
		for i := 0; i < rv.Len(); i++ {
			x, err := readElem(v, ref.Elem, rv.Index(i))
			if err != nil {
				return nil, err
			}
			list = append(list, x)
		}
		return list, nil
	case Map:
		if rv.IsNil() {
			return nil, nil
		}
		m := map[string]any{}
		for _, k := range rv.MapKeys() {
			x, err := readElem(v, ref.Elem, rv.MapIndex(k))
			if err != nil {
				return nil, err
			}
			m[k.String()] = x
		}
		return m, nil
	}
	return readElem(v, ref.Elem, rv)
}

// readList reads a list object.
func readList(v *Version, elem string, rv reflect.Value) (*LL, error) {
	if rv.IsNil() {
		return nil, nil
	}
	l := &LL{Items: []any{}}
	l.Link = method(rv, "Link").Call(nil)[0].Bool()
	l.HREF = method(rv, "HREF").Call(nil)[0].String()
	slice := method(rv, "Slice").Call(nil)[0]
	for i := 0; i < slice.Len(); i++ {
		x, err := readElem(v, elem, slice.Index(i))
		if err != nil {
			return nil, err
		}
		l.Items = append(l.Items, x)
	}
	return l, nil
}

func isZero(rv reflect.Value) bool {
	if !rv.IsValid() || rv.IsZero() {
		return true
	}
	return false
}

// readObj reads an object using all its accessors, and verifies that they agree with each other.
func readObj(v *Version, t *Type, rv reflect.Value) (*Obj, error) {
	if rv.IsNil() {
		return nil, nil
	}
	o := &Obj{V: v, T: t, Attrs: map[string]any{}}
	get := func(name string) (value reflect.Value, ok bool, err error) {
		plain := method(rv, name).Call(nil)[0]
		out := method(rv, "Get"+name).Call(nil)
		value, ok = out[0], out[1].Bool()
		if !ok {
			if !isZero(value) || !isZero(plain) {
				err = fmt.Errorf("attribute %s of %s is absent but its value is '%v'/'%v'", name, t.Name, plain, value)
			}
			return
		}
		if !reflect.DeepEqual(plain.Interface(), value.Interface()) {
			err = fmt.Errorf("accessors of attribute %s of %s return different values '%v' and '%v'", name, t.Name, plain, value)
		}
		return
	}
	if t.Kind == Class {
		r := reg(v, t.Name.String())
		o.Link = method(rv, "Link").Call(nil)[0].Bool()
		kind := method(rv, "Kind").Call(nil)[0].String()
		want := r.Kind
		if o.Link {
			want = r.LinkKind
		}
		if kind != want {
			return nil, fmt.Errorf("kind of %s is '%s' but it should be '%s'", t.Name, kind, want)
		}
		id, ok, err := get("ID")
		if err != nil {
			return nil, err
		}
		if ok {
			o.HasID, o.ID = true, id.String()
		}
		href, ok, err := get("HREF")
		if err != nil {
			return nil, err
		}
		if ok {
			o.HasRef, o.HREF = true, href.String()
		}
	}
	for _, a := range t.Attrs {
		value, ok, err := get(a.GoName())
		if err != nil {
			return nil, err
		}
		if ok {
			x, err := readValue(a.In(v), a.Type, value)
			if err != nil {
				return nil, err
			}
			o.Attrs[a.Name.String()] = x
		}
	}
	if got := method(rv, "Empty").Call(nil)[0].Bool(); got != o.empty() {
		return nil, fmt.Errorf("object %s reports empty=%v", canon(o), got)
	}
	return o, nil
}

// observe reads an object and fails if it is inconsistent.
func observe(v *Version, elem string, rv reflect.Value) string {
	o, err := readObj(v, v.Type(elem), rv)
	if err != nil {
		return "inconsistent: " + err.Error()
	}
	return canon(o)
}

// ---- JSON ----

// elemJSON converts an abstract value to the expected JSON document.
func toJSON(val any) any {
	switch t := val.(type) {
	case *Obj:
		m := map[string]any{}
		if t.T.Kind == Class {
			r := reg(t.V, t.T.Name.String())
			m["kind"] = r.Kind
			if t.Link {
				m["kind"] = r.LinkKind
			}
			if t.HasID {
				m["id"] = t.ID
			}
			if t.HasRef {
				m["href"] = t.HREF
			}
		}
		for _, a := range t.T.Attrs {
			if x, ok := t.Attrs[a.Name.String()]; ok {
				m[a.JSONName()] = toJSON(x)
			}
		}
		return m
	case *LL:
		return map[string]any{"items": toJSON(t.Items)}
	case []any:
		list := []any{}
		for _, x := range t {
			list = append(list, toJSON(x))
		}
		return list
	case map[string]any:
		m := map[string]any{}
		for k, x := range t {
			m[k] = toJSON(x)
		}
		return m
	case time.Time:
		return t.Format(time.RFC3339)
	case Iface:
		return t.Value
	}
	return val
}

func compact(v any) string {
	data, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return string(data)
}
