package main

import (
	"fmt"
	"math"
	"strings"
	"time"

	. "verif/lib/spec"
)

var (
	date1 = time.Date(2023, 11, 5, 13, 14, 15, 0, time.UTC)
	date2 = time.Date(2000, 2, 29, 23, 59, 59, 0, time.FixedZone("", 5*3600+1800))
	date3 = time.Date(1999, 12, 31, 23, 0, 0, 0, time.FixedZone("", -8*3600))
)

// samples returns the representative values of an element type. The first one is the zero value and
// the second one is a typical value.
func samples(v *Version, elem string) []any {
	switch elem {
	case "Boolean":
		return []any{false, true}
	case "Integer":
		return []any{0, 42, -7, math.MaxInt32, math.MinInt32, math.MaxInt64, math.MinInt64}
	case "Long":
		return []any{int64(0), int64(43), int64(-9), int64(1 << 40), int64(math.MaxInt64), int64(math.MinInt64)}
	case "Float":
		return []any{0.0, 2.5, -0.125, 1e10, 1e-7, 1e21, 0.1, math.MaxFloat64, math.SmallestNonzeroFloat64}
	case "String":
		return []any{"", "text", "a\"b\\c\n\t/", "ñ€😀", "\x00\x1f\x7f", "<a>&'\u2028", "null", "  ", strings.Repeat("0123456789\"", 60)}
	case "Date":
		return []any{time.Time{}, date1, date2, date3}
	case "Interface":
		return []any{Iface{nil}, Iface{"any"}, Iface{true}, Iface{1.5}, Iface{[]any{"a", 2.0, nil}},
			Iface{map[string]any{"x": map[string]any{"y": []any{false}}, "": "z"}}, Iface{""}, Iface{0.0}}
	}
	t := v.Type(elem)
	if t.Kind == Enum {
		r := []any{""}
		for _, x := range t.Values {
			r = append(r, x.JSONName())
		}
		return append(r, "something_else")
	}
	return objects(v, t)
}

// objects returns the representative objects of a type: empty, with the first half of the attributes,
// full, and link.
func objects(v *Version, t *Type) []any {
	zero := &Obj{V: v, T: t, Attrs: map[string]any{}}
	half := zero.clone()
	full := zero.clone()
	for i, a := range t.Attrs {
		if !IsBuiltin(a.Type.Elem) && a.In(v).Type(a.Type.Elem).Kind != Enum {
			continue
		}
		vals := attrSamples(v, a)
		if i%2 == 0 {
			half.Attrs[a.Name.String()] = vals[0]
		}
		full.Attrs[a.Name.String()] = vals[1]
	}
	r := []any{zero, full, half}
	if t.Kind == Class {
		full.HasID, full.ID = true, "123"
		full.HasRef, full.HREF = true, "/api/things/123"
		half.HasID = true
		link := zero.clone()
		link.Link, link.HasID, link.ID, link.HasRef, link.HREF = true, true, "456", true, "/api/things/456"
		r = append(r, link)
	}
	return r
}

// repeated returns a list of n values.
func repeated(elems []any, n int) []any {
	var r []any
	for i := 0; i < n; i++ {
		r = append(r, elems[i%len(elems)])
	}
	return r
}

var sampleCache = map[*Attr][]any{}

// attrSamples returns the representative values of an attribute.
func attrSamples(v *Version, a *Attr) []any {
	r, ok := sampleCache[a]
	if !ok {
		r = makeSamples(v, a)
		sampleCache[a] = r
	}
	return r
}

func makeSamples(v *Version, a *Attr) []any {
	elems := samples(a.In(v), a.Type.Elem)
	if a.Link {
		// Only links to objects:
		var links []any
		for _, x := range elems {
			if o := x.(*Obj); o.Link {
				links = append(links, x)
			}
		}
		elems = append(links, elems...)
		if a.Type.Shape == List {
			return []any{
				&LL{Items: []any{}}, &LL{Items: []any{elems[0]}}, &LL{Items: []any{elems[0], elems[1], elems[2]}},
				&LL{Items: repeated(elems, 40)},
			}
		}
	}
	switch a.Type.Shape {
	case List:
		r := []any{[]any{}, []any{elems[1]}, []any{elems[1], elems[0], elems[1]}}
		for _, x := range elems {
			r = append(r, []any{x})
		}
		return append(r, append([]any{}, elems...), repeated(elems, 40))
	case Map:
		r := []any{map[string]any{}, map[string]any{"my_key": elems[1]}, map[string]any{"b": elems[0], "a": elems[1], "C": elems[1]}}
		for _, x := range elems {
			r = append(r, map[string]any{"k": x})
		}
		for _, k := range []string{"", " ", "kind", "a\"b", "ñ/€", "items"} {
			r = append(r, map[string]any{k: elems[1], "other": elems[0]})
		}
		many := map[string]any{}
		for i, x := range repeated(elems, 40) {
			many[fmt.Sprintf("key%d", i)] = x
		}
		return append(r, many)
	}
	return elems
}

// sizes are the lengths, in bytes, of large values.
func sizes(thorough bool) []int {
	r := []int{600, 5000, 40000, 70000, 1100000}
	if thorough {
		r = append(r, 1000, 4096, 8192, 10000, 32768, 65536, 100000, 524288, 4500000)
	}
	return r
}

// enlarge returns a value of the given type that takes at least n bytes, either because it contains a long
// text or because it contains many items. Returns nil if there is no such value.
func enlarge(v *Version, ref Ref, n int, many bool) any {
	if many {
		elems := samples(v, ref.Elem)[1:2]
		switch ref.Shape {
		case List:
			return repeated(elems, n/10)
		case Map:
			r := map[string]any{}
			for i, x := range repeated(elems, n/10) {
				r[fmt.Sprintf("key%d", i)] = x
			}
			return r
		}
		return nil
	}
	var elem any
	text := strings.Repeat("0123456789", n/10)
	switch {
	case ref.Elem == "String":
		elem = text
	case IsBuiltin(ref.Elem) || v.Type(ref.Elem).Kind == Enum:
		return nil
	default:
		t := v.Type(ref.Elem)
		o := objects(v, t)[1].(*Obj).clone()
		if t.Kind == Class {
			o.ID = text
		} else {
			found := false
			for _, a := range t.Attrs {
				if a.Type == P("String") && !found {
					o.Attrs[a.Name.String()] = text
					found = true
				}
			}
			if !found {
				return nil
			}
		}
		elem = o
	}
	switch ref.Shape {
	case List:
		return []any{elem, samples(v, ref.Elem)[1]}
	case Map:
		return map[string]any{"large": elem, "small": samples(v, ref.Elem)[1]}
	}
	return elem
}

// large returns the parameters that can have large values.
func large(v *Version, params []*Param, many bool) []*Param {
	var r []*Param
	for _, p := range params {
		if enlarge(v, p.Type, 10, many) != nil {
			r = append(r, p)
		}
	}
	return r
}
