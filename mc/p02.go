package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"verif/lib/engine"
	. "verif/lib/spec"
)

// rootOnly is the simplest root resource.
func rootOnly() *Resource { return &Resource{Name: N("root")} }

// allElems are the types that can be referenced.
var allElems = []string{"Boolean", "Integer", "Long", "Float", "String", "Date", "Interface", "color", "leaf", "node", "user_account", "TLS"}

func elemTypes() []*Type {
	return []*Type{
		mkEnum("color", "red"),
		mkStruct("leaf", mkAttr("name", P("String"))),
		mkClass("node", mkAttr("name", P("String"))),
		mkClass("user_account", mkAttr("login", P("String"))),
		mkStruct("TLS", mkAttr("key", P("String"))),
	}
}

// literals are the values that can be used in defaults and annotations, with their source.
var literals = []struct {
	source string
	value  any
}{
	{"true", true},
	{"false", false},
	{"0", 0},
	{"7", 7},
	{"0170", 170},
	{"123456789012", 123456789012},
	{`""`, ""},
	{`"text"`, "text"},
	{`"two words // { }"`, "two words // { }"},
	{`"a\tb\\c"`, "a\tb\\c"},
	{"`raw \\n text`", `raw \n text`},
	{"`two\nlines`", "two\nlines"},
}

func annDump(name string, params ...any) string {
	var parts []string
	for i := 0; i+1 < len(params); i += 2 {
		parts = append(parts, fmt.Sprintf("%s=%#v", params[i], params[i+1]))
	}
	return fmt.Sprintf("%s(%s)", name, strings.Join(parts, ","))
}

func init() {
	properties["P02"] = &Property{
		Sharded: true,
		Rule:    "one execution per combination of declaration forms; the model that is read is compared with the declared one; outcomes are the distinct declared models",
		Assumptions: []string{
			"names are the ones used in the models of the check; splitting of other names is the subject of P08",
		},
		Run: func(env *Env, r *engine.Report) {
			dir := "my_service/v1"
			check := func(c *engine.Ctx, text string, v *Version) {
				m := mkModel("my_service", "v1", v)
				want := m.Dump()
				c.Outcome(strings.Join(want, "\n"))
				expectModel(c, env.Read(Files{dir + "/all.model": text}), want, func() string { return text })
			}
			decls := func(list ...interface{ Source() string }) string {
				var b strings.Builder
				for _, x := range list {
					b.WriteString(x.Source())
				}
				return b.String()
			}
			support := func() string {
				var b strings.Builder
				for _, t := range elemTypes() {
					b.WriteString(t.Source())
				}
				b.WriteString(rootOnly().Source())
				return b.String()
			}()

			anns := []Ann{
				{},
				{JSON: "a-b"},
				{HTTP: "c_d"},
				{Go: "Gopher"},
				{JSON: "x", HTTP: "y", Go: "Z"},
				{Raw: "@other", RawDump: []string{"other()"}},
				{Raw: "@other()", RawDump: []string{"other()"}},
				{Raw: `@other(a = 1 b = true c = "s")`, RawDump: []string{annDump("other", "a", 1, "b", true, "c", "s")}},
				{Raw: "@first(a = `r`) @second(b = false)", RawDump: []string{annDump("first", "a", "r"), annDump("second", "b", false)}},
			}

			r.Explore("attributes", "struct and class by keyword by shape by type by annotations", func(c *engine.Ctx) {
				kind := engine.Pick(c, "kind", []TypeKind{Struct, Class})
				keyword := engine.Pick(c, "keyword", []string{"", "attribute ", "link "})
				ref := Ref{Shape: TypeShape(c.Choose("shape", 3)), Elem: engine.Pick(c, "type", append([]string{"holder"}, allElems...))}
				ann := anns[0]
				if r.Thorough() || ref.Elem == "leaf" || ref.Elem == "String" {
					ann = engine.Pick(c, "annotations", anns)
				}
				after := c.Flag("after")
				c.Commit()
				t := &Type{Name: N("holder"), Kind: kind, Attrs: []*Attr{{Name: N("my_attr"), Type: ref, Ann: ann, Link: keyword == "link "}}}
				text := fmt.Sprintf("%s Holder {\n%s%sMyAttr %s\n}\n", KindNames[kind], annSource(ann), keyword, ref.Text())
				if after {
					text = support + text
				} else {
					text += support
				}
				check(c, text, &Version{Types: append(elemTypes(), t), Resources: []*Resource{rootOnly()}})
			})

			r.Explore("pairs of attributes", "all the pairs of shapes, types, index types and link flags in the same type or in two types", func(c *engine.Ctx) {
				elems := []string{"Integer", "String", "Interface", "color", "leaf", "node"}
				pick := func() *Attr {
					ref := Ref{Shape: TypeShape(c.Choose("shape", 3)), Elem: engine.Pick(c, "type", elems)}
					if ref.Shape == Map {
						ref.Index = engine.Pick(c, "index", []string{"", "Integer", "color"})
					}
					return &Attr{Type: ref, Link: c.Flag("link")}
				}
				a, b := pick(), pick()
				a.Name, b.Name = N("alpha"), N("beta")
				same := c.Flag("same")
				c.Commit()
				var types []*Type
				if same {
					types = []*Type{mkClass("holder", a, b)}
				} else {
					types = []*Type{mkStruct("holder", a), mkClass("keeper", b)}
				}
				text := ""
				for _, t := range types {
					text += t.Source()
				}
				check(c, text+support, &Version{Types: append(types, elemTypes()...), Resources: []*Resource{rootOnly()}})
			})

			r.Explore("parameters", "spelling of direction by shape by type by default value by annotations of the parameter of an action", func(c *engine.Ctx) {
				dirs := []struct {
					text    string
					in, out bool
				}{
					{"", false, true}, {"in ", true, false}, {"out ", false, true}, {"in out ", true, true}, {"out in ", true, true},
					{"in in ", true, false}, {"parameter ", false, true}, {"parameter in ", true, false}, {"parameter in out ", true, true},
				}
				d := engine.Pick(c, "direction", dirs)
				method := engine.Pick(c, "method keyword", []string{"method ", ""})
				ref := Ref{Shape: TypeShape(c.Choose("shape", 3)), Elem: engine.Pick(c, "type", allElems)}
				p := &Param{Name: N("my_param"), Type: ref, In: d.in, Out: d.out}
				suffix := ""
				if ref.Shape == Plain {
					var options []int
					for i, l := range literals {
						switch l.value.(type) {
						case bool:
							if ref.Elem == "Boolean" {
								options = append(options, i)
							}
						case int:
							if ref.Elem == "Integer" {
								options = append(options, i)
							}
						case string:
							if ref.Elem == "String" {
								options = append(options, i)
							}
						}
					}
					if i := c.Choose("default", len(options)+1); i > 0 {
						l := literals[options[i-1]]
						p.Default = l.value
						suffix = " = " + l.source
					}
				}
				ann := anns[0]
				if ref.Elem == "leaf" && ref.Shape != Map {
					ann = engine.Pick(c, "annotations", anns)
				}
				p.Ann = ann
				c.Commit()
				root := rootOnly()
				root.Methods = []*Method{mkMethod("act", p)}
				text := fmt.Sprintf("resource Root {\n%sAct {\n%s%sMyParam %s%s\n}\n}\n", method, annSource(ann), d.text, ref.Text(), suffix)
				text += strings.Replace(support, rootOnly().Source(), "", 1)
				check(c, text, &Version{Types: elemTypes(), Resources: []*Resource{root}})
			})

			r.Explore("pairs of parameters", "two parameters with all directions and a sample of types in one or two methods, of one or two resources, with equal or different names", func(c *engine.Ctx) {
				elems := []Ref{P("Integer"), L("leaf"), M("String"), P("node")}
				pick := func(label string) *Param {
					d := c.Choose("direction", 3)
					return &Param{Type: engine.Pick(c, label, elems), In: d != 1, Out: d != 0}
				}
				a, b := pick("a"), pick("b")
				a.Name, b.Name = N("alpha"), N("beta")
				where := c.Choose("where", 3)
				if where > 0 && c.Flag("same name") {
					b.Name = N("alpha")
				}
				c.Commit()
				root, other := rootOnly(), &Resource{Name: N("other")}
				switch where {
				case 0:
					root.Methods = []*Method{mkMethod("act", a, b)}
				case 1:
					root.Methods = []*Method{mkMethod("act", a), mkMethod("do_it", b)}
				case 2:
					root.Methods = []*Method{mkMethod("act", a)}
					other.Methods = []*Method{mkMethod("act", b)}
				}
				text := decls(root, other) + strings.Replace(support, rootOnly().Source(), "", 1)
				check(c, text, &Version{Types: elemTypes(), Resources: []*Resource{root, other}})
			})

			r.Explore("methods", "all the subsets of the standard methods in one resource", func(c *engine.Ctx) {
				methods := []*Method{
					mkMethod("add", mkInOut("body", P("node"))),
					mkMethod("get", mkOut("body", P("node"))),
					mkMethod("update", mkInOut("body", P("node"))),
					mkMethod("async_update", mkInOut("body", L("node"))),
					mkMethod("delete", mkIn("force", P("Boolean"))),
					mkMethod("async_delete"),
					mkMethod("list", mkDflt("page", 1), mkDflt("size", 100), mkOut("total", P("Integer")), mkOut("items", L("node"))),
					mkMethod("search", mkDflt("page", 1), mkDflt("size", 100), mkOut("total", P("Integer")), mkOut("items", L("node")), mkIn("body", P("leaf"))),
					mkMethod("post", mkIn("request", P("leaf")), mkOut("response", P("node"))),
					mkMethod("update_all", mkIn("x", P("String"))),
				}
				root := rootOnly()
				for _, m := range methods {
					if c.Flag(m.Name.String()) {
						root.Methods = append(root.Methods, m)
					}
				}
				c.Commit()
				text := decls(root) + strings.Replace(support, rootOnly().Source(), "", 1)
				check(c, text, &Version{Types: elemTypes(), Resources: []*Resource{root}})
			})

			r.Explore("locators", "two locators with all the targets, variable flags, order of members and annotations", func(c *engine.Ctx) {
				root, one, two := rootOnly(), &Resource{Name: N("one")}, &Resource{Name: N("two_IDs")}
				text := "resource Root {\n"
				for _, name := range []string{"alpha", "beta_ID"} {
					form := c.Choose("members", 4)
					if form == 3 && name == "alpha" {
						continue
					}
					l := &Locator{Name: N(name), Target: engine.Pick(c, "target", []string{"one", "two_IDs"}), Variable: form != 0}
					if name == "alpha" {
						l.Ann = engine.Pick(c, "annotations", anns)
					}
					target := "target " + N(l.Target).Public() + "\n"
					body := target
					switch form {
					case 1:
						body = target + "variable ID\n"
					case 2:
						body = "variable MyName\n" + target
					case 3:
						body = "variable ID " + target
					}
					text += fmt.Sprintf("%slocator %s {\n%s}\n", annSource(l.Ann), l.Name.Public(), body)
					root.Locators = append(root.Locators, l)
				}
				c.Commit()
				text += "}\n"
				check(c, text+decls(one, two), &Version{Resources: []*Resource{root, one, two}})
			})

			r.Explore("enums and errors", "number of values with and without keyword, and errors with and without code", func(c *engine.Ctx) {
				n := c.Choose("values", 4)
				t := &Type{Name: N("color"), Kind: Enum}
				text := "enum Color {\n"
				for i := 0; i < n; i++ {
					v := &Value{Name: N([]string{"red", "dark_blue", "RGB"}[i])}
					keyword := engine.Pick(c, "keyword", []string{"", "value "})
					if i == 0 {
						v.Ann = engine.Pick(c, "annotations", anns)
					}
					text += fmt.Sprintf("%s%s%s\n", annSource(v.Ann), keyword, v.Name.Public())
					t.Values = append(t.Values, v)
				}
				text += "}\n"
				v := &Version{Types: []*Type{t}, Resources: []*Resource{rootOnly()}}
				for i, codes := 0, []string{"", "0", "1", "404", "00012", "2147483648"}; i < 2; i++ {
					k := c.Choose("error", len(codes)+1)
					if k == 0 {
						continue
					}
					e := &Error{Name: N([]string{"not_found", "duplicated_ID"}[i])}
					if codes[k-1] == "" {
						text += fmt.Sprintf("error %s {\n}\n", e.Name.Public())
					} else {
						fmt.Sscanf(codes[k-1], "%d", &e.Code)
						text += fmt.Sprintf("error %s {\ncode %s\n}\n", e.Name.Public(), codes[k-1])
					}
					v.Errors = append(v.Errors, e)
				}
				c.Commit()
				check(c, text+rootOnly().Source(), v)
			})

			r.Explore("annotations", "all the literals in the annotations of all the kinds of declarations, with zero, one or two other annotations before", func(c *engine.Ctx) {
				where := c.Choose("where", 10)
				l := engine.Pick(c, "literal", literals)
				count := c.Choose("others", 3)
				c.Commit()
				ann := Ann{Raw: fmt.Sprintf("@special(name = %s)", l.source), RawDump: []string{annDump("special", "name", l.value)}}
				for i := 0; i < count; i++ {
					ann.Raw = fmt.Sprintf("@other%d(a = %d)\n", i, i) + ann.Raw
					ann.RawDump = append(ann.RawDump, annDump(fmt.Sprintf("other%d", i), "a", i))
				}
				v := &Version{
					Types: []*Type{
						mkEnum("color", "red", "blue"), mkStruct("leaf", mkAttr("name", P("String")), mkAttr("size", P("Integer"))),
						mkClass("node", mkAttr("name", P("String"))),
					},
					Resources: []*Resource{{Name: N("root"),
						Methods:  []*Method{mkMethod("act", mkIn("x", P("String")), mkIn("y", P("String"))), mkMethod("other")},
						Locators: []*Locator{mkLoc("alpha", "child", true), mkLoc("beta", "child", false)}},
						{Name: N("child")}},
					Errors: []*Error{{Name: N("fail"), Code: 1}},
				}
				switch where {
				case 0, 1, 2:
					v.Types[where].Ann = ann
				case 3:
					v.Types[0].Values[1].Ann = ann
				case 4:
					v.Types[1].Attrs[0].Ann = ann
				case 5:
					v.Resources[0].Ann = ann
				case 6:
					v.Resources[0].Methods[0].Ann = ann
				case 7:
					v.Resources[0].Methods[0].Params[1].Ann = ann
				case 8:
					v.Resources[0].Locators[1].Ann = ann
				case 9:
					v.Errors[0].Ann = ann
				}
				check(c, strings.Join(v.Decls(), "\n"), v)
			})

			r.Explore("versions and services", "all the assignments of a kind (or nothing) to the same type name, and of methods to the same resource name, in two versions of one service and in other service", func(c *engine.Ctx) {
				m := &Model{}
				for _, where := range []string{"alpha/v1", "alpha/v2", "beta_mgmt/v1"} {
					parts := strings.Split(where, "/")
					v := &Version{Name: N(parts[1])}
					root := rootOnly()
					switch c.Choose("type", 5) {
					case 1:
						v.Types = append(v.Types, mkEnum("thing", "red"))
					case 2:
						v.Types = append(v.Types, mkStruct("thing", mkAttr("name", P("String"))))
					case 3:
						v.Types = append(v.Types, mkClass("thing", mkAttr("name", P("Integer")), mkAttr("other", L("thing"))))
					case 4:
						v.Types = append(v.Types, mkClass("thing"), mkStruct("user", mkAttr("things", M("thing"))))
					}
					if c.Flag("resource") {
						v.Resources = append(v.Resources, &Resource{Name: N("things"), Methods: []*Method{mkMethod(map[string]string{"v1": "act_one", "v2": "act_two"}[parts[1]], mkIn("x", P("String")))}})
						root.Locators = []*Locator{mkLoc("things", "things", parts[0] == "alpha")}
						v.Errors = append(v.Errors, &Error{Name: N("fail"), Code: len(where)})
					}
					v.Resources = append(v.Resources, root)
					n := N(parts[0])
					found := false
					for _, s := range m.Services {
						if s.Name.String() == n.String() {
							s.Versions = append(s.Versions, v)
							found = true
						}
					}
					if !found {
						m.Services = append(m.Services, &Service{Name: n, Versions: []*Version{v}})
					}
				}
				c.Commit()
				m.Link()
				want := m.Dump()
				c.Outcome(strings.Join(want, "\n"))
				expectModel(c, env.Read(m.Files()), want, func() string { return showFiles(m.Files()) })
			})

			r.Explore("similar names", "all the pairs of different names that are similar, as names of services, versions, types, attributes, values, resources, locators, methods, parameters and errors", func(c *engine.Ctx) {
				first, second := engine.Pick(c, "first", similar), engine.Pick(c, "second", similar)
				if first == second {
					c.Skip()
				}
				m := &Model{}
				place := c.Choose("place", 3)
				version := func() *Version {
					root := rootOnly()
					v := &Version{Name: N("v1"), Resources: []*Resource{root}}
					for i, name := range []string{first, second} {
						v.Types = append(v.Types, &Type{Name: N(name), Kind: Class, Attrs: []*Attr{mkAttr(first, P("Integer")), mkAttr(second, P(first)), mkAttr("to_first", L(first)), mkAttr("to_second", M(second))}},
							mkEnum(name+"_values", first, second))
						root.Methods = append(root.Methods, mkMethod(name, mkIn(first, P("String")), mkOut(second, P("Boolean"))))
						root.Locators = append(root.Locators, mkLoc(name, []string{second, first}[i], i == 0))
						v.Resources = append(v.Resources, &Resource{Name: N(name), Methods: []*Method{mkMethod("act_" + name)}})
						v.Errors = append(v.Errors, &Error{Name: N(name), Code: i + 1})
					}
					return v
				}
				one, two := version(), version()
				switch place {
				case 0:
					m.Services = []*Service{{Name: N("alpha"), Versions: []*Version{one}}}
				case 1:
					one.Name, two.Name = N(first), N(second)
					m.Services = []*Service{{Name: N("alpha"), Versions: []*Version{one, two}}}
				case 2:
					m.Services = []*Service{{Name: N(first), Versions: []*Version{one}}, {Name: N(second), Versions: []*Version{two}}}
				}
				c.Commit()
				m.Link()
				want := m.Dump()
				c.Outcome(strings.Join(want, "\n"))
				expectModel(c, env.Read(m.Files()), want, func() string { return showFiles(m.Files()) })
			})

			r.Explore("directories", "extra files in the model and service directories and extra directories in the version directories are ignored; several inputs are combined", func(c *engine.Ctx) {
				m := orderModel()
				files := Files(m.Files())
				if c.Flag("file in model") {
					files["README.md"] = "This isn't a model."
				}
				if c.Flag("file in service") {
					files["my_service/notes.model"] = "This isn't a model."
				}
				if c.Flag("directory in version") {
					files["my_service/v1/sub/x.model"] = "This isn't a model."
				}
				empty := c.Flag("empty file")
				if empty {
					files["my_service/v1/empty.model"] = ""
				}
				c.Commit()
				expectModel(c, env.Read(files), m.Dump(), func() string { return showFiles(files) })
				c.Outcome("accepted")
			})

			r.Explore("several inputs", "all the distributions of eight declarations in two input directories", func(c *engine.Ctx) {
				m := orderModel()
				v := m.Services[0].Versions[0]
				var parts [2]string
				for _, d := range v.Decls() {
					parts[c.Choose("input", 2)] += d
				}
				c.Commit()
				base := env.Dir()
				defer os.RemoveAll(base)
				var dirs []string
				for i, part := range parts {
					dir := filepath.Join(base, fmt.Sprint(i))
					writeFiles(dir, Files{v.Dir() + "/all.model": part})
					dirs = append(dirs, dir)
				}
				expectModel(c, readDir(dirs...), m.Dump(), func() string { return strings.Join(parts[:], "\n---\n") })
				c.Outcome("accepted")
			})

			r.Explore("large models", largeBounds+"; each version in one file or each declaration in its own file, in direct and reverse order", func(c *engine.Ctx) {
				m := largeModel(c, r.Thorough())
				layout := c.Choose("layout", 3)
				c.Commit()
				files := Files(m.Files())
				if layout > 0 {
					files = Files{}
					for _, s := range m.Services {
						for _, v := range s.Versions {
							decls := v.Decls()
							for i, d := range decls {
								k := i
								if layout == 2 {
									k = len(decls) - i
								}
								files[fmt.Sprintf("%s/f%03d.model", v.Dir(), k)] = d
							}
						}
					}
				}
				want := m.Dump()
				expectModel(c, env.Read(files), want, func() string { return showFiles(files) })
				c.Outcome(strings.Join(want, "\n"))
			})

			r.Explore("bad literals", "integer and string literals and error codes that can't be represented are rejected", func(c *engine.Ctx) {
				bad := engine.Pick(c, "literal", []string{"99999999999999999999", `"a\qb"`, "\"two\nlines\"", `"\x"`})
				where := c.Choose("where", 3)
				if where == 2 && bad[0] == '"' {
					c.Skip()
				}
				c.Commit()
				text := rootOnly().Source()
				switch where {
				case 0:
					text = fmt.Sprintf("resource Root { Act { in X String = %s } }", bad)
				case 1:
					text += fmt.Sprintf("@json(name = %s) struct X { }", bad)
				case 2:
					text += fmt.Sprintf("error X { code %s }", bad)
				}
				res := env.Read(Files{dir + "/all.model": text})
				c.Check(res.Panic == "" && res.Err != nil, "should be rejected but it was %s: %s", res, text)
				c.Outcome("rejected")
			})
		},
	}
}

func annSource(a Ann) string {
	t := &Type{Name: N("x"), Kind: Struct, Ann: a}
	text := t.Source()
	return text[:strings.Index(text, "struct X {")]
}
