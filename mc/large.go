package main

import (
	"fmt"

	"verif/lib/engine"
	. "verif/lib/spec"
)

// nth returns a word that is different for each number.
func nth(i int) string {
	return "w" + string(rune('a'+i/26%26)) + string(rune('a'+i%26))
}

// largeDimensions are the things of which there can be many in a model.
var largeDimensions = []string{
	"attributes", "types", "values", "nesting", "locators", "depth", "variables", "methods", "parameters", "outputs", "errors", "versions", "services",
	"documentation", "words",
}

// largeSizes are the numbers of things.
func largeSizes(thorough bool) []int {
	sizes := []int{4, 5, 7, 8, 9, 10, 11, 12, 16, 17, 20, 26, 27, 32, 33, 40, 50, 60}
	if thorough {
		sizes = nil
		for i := 0; i <= 61; i++ {
			sizes = append(sizes, i)
		}
	}
	return sizes
}

// largeModel chooses a model with many things in one dimension.
func largeModel(c *engine.Ctx, thorough bool) *Model {
	dimension := engine.Pick(c, "dimension", largeDimensions)
	n := engine.Pick(c, "size", largeSizes(thorough))
	return makeLarge(dimension, n)
}

const largeBounds = "models with many things (up to 60) in each dimension: attributes, types, values, nested types, locators, depth of the tree, variables, methods, input and output parameters, errors, versions, services, lines of documentation and words of names"

func makeLarge(dimension string, n int) *Model {
	types := common()
	elems := []string{"String", "Integer", "hue", "small_leaf", "big_thing"}
	ref := func(i int) Ref { return shapes[i%3](elems[i%len(elems)]) }
	doc := func(what string, i int) string {
		switch i % 3 {
		case 1:
			return fmt.Sprintf("Documentation of %s %d.", what, i)
		case 2:
			return fmt.Sprintf("First line of %s %d\nand the second. Second sentence.", what, i)
		}
		return ""
	}
	target := &Resource{Name: N("target_res"), Methods: []*Method{{Name: N("get"), Params: []*Param{param(N("body"), P("big_thing"), false, true)}}}}
	root := &Resource{Name: N("root"), Locators: []*Locator{{Name: N("target_things"), Target: "target_res"}}}
	resources := []*Resource{root, target}
	v := &Version{Name: N("v1")}
	m := &Model{}
	switch dimension {
	case "attributes":
		for _, kind := range []TypeKind{Struct, Class} {
			t := &Type{Name: N("many_" + KindNames[kind]), Kind: kind, Doc: "Has many attributes."}
			for i := 0; i < n; i++ {
				a := &Attr{Name: N("attr_" + nth(i)), Type: ref(i), Doc: doc("attribute", i)}
				if i%4 == 3 {
					a.Ann.JSON = fmt.Sprintf("json-%d", i)
				}
				if a.Type.Elem == "big_thing" && a.Type.Shape != Map && i%2 == 0 {
					a.Link = true
				}
				t.Attrs = append(t.Attrs, a)
			}
			types = append(types, t)
		}
	case "types":
		for i := 0; i < n; i++ {
			t := &Type{Name: N("type_" + nth(i)), Kind: []TypeKind{Struct, Class, Enum}[i%3], Doc: doc("type", i)}
			if t.Kind == Enum {
				t.Values = []*Value{{Name: N("one")}, {Name: N("value_" + nth(i))}}
			} else {
				t.Attrs = []*Attr{{Name: N("attr_" + nth(i)), Type: shapes[i%3]("type_" + nth((i+1)%n))}}
			}
			types = append(types, t)
		}
	case "values":
		t := &Type{Name: N("many_values"), Kind: Enum, Doc: "Has many values."}
		for i := 0; i < n; i++ {
			x := &Value{Name: N("value_" + nth(i)), Doc: doc("value", i)}
			if i%4 == 3 {
				x.Ann.JSON = fmt.Sprintf("json-%d", i)
			}
			t.Values = append(t.Values, x)
		}
		types = append(types, t)
	case "nesting":
		for i := 0; i < n; i++ {
			t := &Type{Name: N("level_" + nth(i)), Kind: []TypeKind{Struct, Class}[i%2], Doc: doc("level", i)}
			next := "small_leaf"
			if i+1 < n {
				next = "level_" + nth(i+1)
			}
			t.Attrs = []*Attr{{Name: N("next"), Type: shapes[i%3](next)}}
			types = append(types, t)
		}
	case "locators":
		for i := 0; i < n; i++ {
			l := &Locator{Name: N("locator_" + nth(i)), Target: "target_res", Doc: doc("locator", i)}
			if i%4 == 3 {
				l.Ann.HTTP = fmt.Sprintf("http-%d", i)
			}
			root.Locators = append(root.Locators, l)
		}
	case "depth", "variables":
		last := root
		for i := 0; i < n; i++ {
			r := &Resource{Name: N("level_" + nth(i)), Doc: doc("resource", i)}
			if i%3 == 0 {
				r.Methods = []*Method{{Name: N("do_it")}, {Name: N("get"), Params: []*Param{param(N("body"), P("small_leaf"), false, true)}}}
			}
			last.Locators = append(last.Locators, &Locator{Name: N("to_" + nth(i)), Target: r.Name.String(), Variable: dimension == "variables"})
			resources = append(resources, r)
			last = r
		}
		last.Locators = append(last.Locators, &Locator{Name: N("last_target"), Target: "target_res"})
	case "methods":
		for i := 0; i < n; i++ {
			x := &Method{Name: N("do_" + nth(i)), Doc: doc("method", i), Params: []*Param{param(N("param_"+nth(i)), ref(i), true, i%2 == 0)}}
			if i%4 == 3 {
				x.Ann.HTTP = fmt.Sprintf("http-%d", i)
			}
			target.Methods = append(target.Methods, x)
		}
	case "parameters":
		get, act := target.Methods[0], &Method{Name: N("do_it")}
		target.Methods = append(target.Methods, act)
		for i := 0; i < n; i++ {
			p := param(N("query_"+nth(i)), P([]string{"String", "Integer", "Boolean", "Date", "hue"}[i%5]), true, false)
			p.Doc = doc("parameter", i)
			if i%4 == 3 {
				p.Ann.HTTP = fmt.Sprintf("http-%d", i)
			}
			get.Params = append(get.Params, p)
			p = param(N("param_"+nth(i)), ref(i), true, false)
			p.Doc = doc("parameter", i)
			if i%4 == 2 {
				p.Ann.JSON = fmt.Sprintf("json-%d", i)
			}
			act.Params = append(act.Params, p)
		}
	case "outputs":
		act := &Method{Name: N("do_it")}
		target.Methods = append(target.Methods, act)
		for i := 0; i < n; i++ {
			p := param(N("param_"+nth(i)), ref(i), i%3 == 1, true)
			p.Doc = doc("parameter", i)
			act.Params = append(act.Params, p)
		}
	case "errors":
		for i := 0; i < n; i++ {
			v.Errors = append(v.Errors, &Error{Name: N("error_" + nth(i)), Code: 1000 + i*7, Doc: doc("error", i)})
		}
	case "versions", "services":
		for i := 1; i < n; i++ {
			w := &Version{Name: N(fmt.Sprintf("v%d", i+1)), Types: []*Type{{Name: N("type_" + nth(i)), Kind: Class, Attrs: []*Attr{{Name: N("attr_" + nth(i)), Type: P("String")}}}}}
			w.Resources = []*Resource{
				{Name: N("root"), Locators: []*Locator{{Name: N("locator_" + nth(i)), Target: "things_" + nth(i)}}},
				{Name: N("things_" + nth(i)), Methods: []*Method{{Name: N("get"), Params: []*Param{param(N("body"), P("type_"+nth(i)), false, true)}}}},
			}
			if dimension == "versions" {
				if i == 1 {
					m.Services = []*Service{{Name: N("my_service")}}
				}
				m.Services[0].Versions = append(m.Services[0].Versions, w)
			} else {
				m.Services = append(m.Services, &Service{Name: N("service_" + nth(i)), Versions: []*Version{w}})
			}
		}
	case "documentation":
		text := ""
		for i := 0; i < n; i++ {
			if i > 0 {
				text += "\n"
			}
			if i%5 == 4 {
				continue
			}
			text += fmt.Sprintf("Line %d of the text, with more words", i)
			if i%7 == 6 || i == n-1 {
				text += "."
			}
		}
		if n%5 == 0 && n > 0 {
			text += "End."
		}
		types = append(types, &Type{Name: N("documented"), Kind: Class, Doc: text, Attrs: []*Attr{{Name: N("text"), Type: P("String"), Doc: text}}})
		target.Doc = text
		target.Methods[0].Doc = text
	case "words":
		name := Name{}
		for i := 0; i < min(n, 40); i++ {
			name = append(name, nth(i))
		}
		if n == 0 {
			name = N("zero")
		}
		types = append(types, &Type{Name: append(N("type"), name...), Kind: Struct, Attrs: []*Attr{{Name: append(N("attr"), name...), Type: P("String")}}})
		root.Locators = append(root.Locators, &Locator{Name: append(N("locator"), name...), Target: "target_res"})
		target.Methods = append(target.Methods, &Method{Name: append(N("do"), name...), Params: []*Param{param(append(N("param"), name...), P("String"), true, true)}})
	}
	v.Types = types
	v.Resources = resources
	switch dimension {
	case "versions":
		if len(m.Services) == 0 {
			m.Services = []*Service{{Name: N("my_service")}}
		}
		m.Services[0].Versions = append(m.Services[0].Versions, v)
	default:
		m.Services = append(m.Services, &Service{Name: N("my_service"), Versions: []*Version{v}})
	}
	return m.Link()
}
