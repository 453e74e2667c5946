package main

import (
	"fmt"

	"github.com/openshift-online/ocm-api-metamodel/pkg/concepts"
)

// Consistency checks that the different ways to access the same model agree with each other.
func Consistency(m *concepts.Model) string {
	for _, s := range m.Services() {
		if m.FindService(s.Name()) != s {
			return fmt.Sprintf("service '%s' can't be found", s.Name())
		}
		if s.Owner() != m {
			return fmt.Sprintf("service '%s' has incorrect owner", s.Name())
		}
		for _, v := range s.Versions() {
			if s.FindVersion(v.Name()) != v {
				return fmt.Sprintf("version '%s' can't be found", v.Name())
			}
			for _, t := range v.Types() {
				if v.FindType(t.Name()) != t {
					return fmt.Sprintf("type '%s' can't be found", t.Name())
				}
				if d := checkPredicates(v, t); d != "" {
					return fmt.Sprintf("type '%s': %s", t.Name(), d)
				}
				for i, a := range t.Attributes() {
					if t.FindAttribute(a.Name()) != a {
						return fmt.Sprintf("attribute '%s' of type '%s' can't be found", a.Name(), t.Name())
					}
					if i > 0 && !before(t.Attributes()[i-1].Name(), a.Name()) {
						return fmt.Sprintf("attributes of type '%s' aren't sorted", t.Name())
					}
				}
				for i := range t.Values() {
					if i > 0 && !before(t.Values()[i-1].Name(), t.Values()[i].Name()) {
						return fmt.Sprintf("values of type '%s' aren't sorted", t.Name())
					}
				}
			}
			for i, t := range v.Types() {
				if i > 0 && !before(v.Types()[i-1].Name(), t.Name()) {
					return fmt.Sprintf("types of version '%s' aren't sorted", v.Name())
				}
			}
			for i, r := range v.Resources() {
				if v.FindResource(r.Name()) != r {
					return fmt.Sprintf("resource '%s' can't be found", r.Name())
				}
				if i > 0 && !before(v.Resources()[i-1].Name(), r.Name()) {
					return fmt.Sprintf("resources of version '%s' aren't sorted", v.Name())
				}
				if r.IsRoot() != (r.Name().String() == "root") {
					return fmt.Sprintf("root flag of resource '%s' isn't correct", r.Name())
				}
				for j, x := range r.Methods() {
					if r.FindMethod(x.Name()) != x {
						return fmt.Sprintf("method '%s' of resource '%s' can't be found", x.Name(), r.Name())
					}
					if j > 0 && !before(r.Methods()[j-1].Name(), x.Name()) {
						return fmt.Sprintf("methods of resource '%s' aren't sorted", r.Name())
					}
					if d := checkMethodPredicates(x); d != "" {
						return fmt.Sprintf("method '%s': %s", x.Name(), d)
					}
					for k, p := range x.Parameters() {
						if x.GetParameter(p.Name()) != p {
							return fmt.Sprintf("parameter '%s' of method '%s' can't be found", p.Name(), x.Name())
						}
						if k > 0 && !before(x.Parameters()[k-1].Name(), p.Name()) {
							return fmt.Sprintf("parameters of method '%s' aren't sorted", x.Name())
						}
						if p.IsItems() != (p.Name().String() == "items") {
							return fmt.Sprintf("items flag of parameter '%s' isn't correct", p.Name())
						}
						if p.IsBody() != (p.Name().String() == "body") {
							return fmt.Sprintf("body flag of parameter '%s' isn't correct", p.Name())
						}
					}
				}
				var variable *concepts.Locator
				constants := 0
				for j, l := range r.Locators() {
					if j > 0 && !before(r.Locators()[j-1].Name(), l.Name()) {
						return fmt.Sprintf("locators of resource '%s' aren't sorted", r.Name())
					}
					if l.Variable() {
						if variable == nil {
							variable = l
						}
					} else {
						constants++
					}
				}
				if r.VariableLocator() != variable {
					return fmt.Sprintf("variable locator of resource '%s' isn't correct", r.Name())
				}
				if len(r.ConstantLocators()) != constants {
					return fmt.Sprintf("constant locators of resource '%s' aren't correct", r.Name())
				}
				for _, l := range r.ConstantLocators() {
					if l.Variable() {
						return fmt.Sprintf("constant locators of resource '%s' aren't correct", r.Name())
					}
				}
			}
			if root := v.Root(); root == nil || root.Name().String() != "root" {
				return "root resource isn't correct"
			}
			for i, e := range v.Errors() {
				if v.FindError(e.Name()) != e {
					return fmt.Sprintf("error '%s' can't be found", e.Name())
				}
				if i > 0 && !before(v.Errors()[i-1].Name(), e.Name()) {
					return fmt.Sprintf("errors of version '%s' aren't sorted", v.Name())
				}
			}
		}
	}
	return ""
}

func checkPredicates(v *concepts.Version, t *concepts.Type) string {
	kind := kindText(t)
	name := t.Name().String()
	builtin := kind == "scalar"
	for _, x := range []struct {
		what string
		got  bool
		want bool
	}{
		{"boolean", t.IsBoolean(), builtin && name == "boolean"},
		{"integer", t.IsInteger(), builtin && name == "integer"},
		{"long", t.IsLong(), builtin && name == "long"},
		{"float", t.IsFloat(), builtin && name == "float"},
		{"string", t.IsString(), builtin && name == "string"},
		{"date", t.IsDate(), builtin && name == "date"},
		{"class", t.IsClass(), kind == "class"},
		{"enum", t.IsEnum(), kind == "enum"},
		{"interface", t.IsInterface(), kind == "interface"},
		{"list", t.IsList(), kind == "list"},
		{"map", t.IsMap(), kind == "map"},
		{"scalar", t.IsScalar(), kind == "scalar" || kind == "enum" || kind == "interface"},
		{"struct", t.IsStruct(), kind == "struct" || kind == "class"},
	} {
		if x.got != x.want {
			return fmt.Sprintf("predicate '%s' is %v", x.what, x.got)
		}
	}
	if (t.Element() != nil) != (kind == "list" || kind == "map") {
		return "element isn't correct"
	}
	if (t.Index() != nil) != (kind == "map") {
		return "index isn't correct"
	}
	return ""
}

func checkMethodPredicates(m *concepts.Method) string {
	name := m.Name().String()
	special := false
	for _, x := range []struct {
		name string
		got  bool
	}{
		{"add", m.IsAdd()}, {"delete", m.IsDelete()}, {"async_delete", m.IsAsyncDelete()},
		{"get", m.IsGet()}, {"list", m.IsList()}, {"post", m.IsPost()}, {"search", m.IsSearch()},
		{"update", m.IsUpdate()}, {"async_update", m.IsAsyncUpdate()},
	} {
		if x.got != (name == x.name) {
			return fmt.Sprintf("predicate '%s' is %v", x.name, x.got)
		}
		special = special || x.got
	}
	if m.IsAction() == special {
		return fmt.Sprintf("predicate 'action' is %v", m.IsAction())
	}
	return ""
}
