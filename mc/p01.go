package main

import (
	"fmt"
	"regexp"
	"slices"
	"sort"
	"strings"

	"verif/lib/engine"
	. "verif/lib/spec"
)

// Perm chooses a permutation of n elements.
func Perm(c *engine.Ctx, label string, n int) []int {
	rest := make([]int, n)
	for i := range rest {
		rest[i] = i
	}
	var result []int
	for len(rest) > 0 {
		i := 0
		if len(rest) > 1 {
			i = c.Choose(label, len(rest))
		}
		result = append(result, rest[i])
		rest = append(append([]int{}, rest[:i]...), rest[i+1:]...)
	}
	return result
}

// Permuted returns the elements in the order of the given permutation.
func Permuted[T any](list []T, perm []int) []T {
	result := make([]T, len(list))
	for i, j := range perm {
		result[i] = list[j]
	}
	return result
}

func mkAttr(name string, ref Ref) *Attr { return &Attr{Name: N(name), Type: ref} }
func mkLink(name string, ref Ref) *Attr { return &Attr{Name: N(name), Type: ref, Link: true} }
func mkIn(name string, ref Ref) *Param  { return &Param{Name: N(name), Type: ref, In: true} }
func mkOut(name string, ref Ref) *Param { return &Param{Name: N(name), Type: ref, Out: true} }
func mkInOut(name string, ref Ref) *Param {
	return &Param{Name: N(name), Type: ref, In: true, Out: true}
}
func mkDflt(name string, n int) *Param {
	return &Param{Name: N(name), Type: P("Integer"), In: true, Out: true, Default: n}
}
func mkEnum(name string, values ...string) *Type {
	t := &Type{Name: N(name), Kind: Enum}
	for _, v := range values {
		t.Values = append(t.Values, &Value{Name: N(v)})
	}
	return t
}
func mkStruct(name string, attrs ...*Attr) *Type {
	return &Type{Name: N(name), Kind: Struct, Attrs: attrs}
}
func mkClass(name string, attrs ...*Attr) *Type {
	return &Type{Name: N(name), Kind: Class, Attrs: attrs}
}
func mkMethod(name string, params ...*Param) *Method {
	return &Method{Name: N(name), Params: params}
}
func mkLoc(name, target string, variable bool) *Locator {
	return &Locator{Name: N(name), Target: target, Variable: variable}
}
func mkModel(service, version string, v *Version) *Model {
	v.Name = N(version)
	m := &Model{Services: []*Service{{Name: N(service), Versions: []*Version{v}}}}
	return m.Link()
}

// orderModel is the model used to check that the order isn't relevant: it has forward, backward, self
// and mutual references for every order.
func orderModel() *Model {
	return mkModel("my_service", "v1", &Version{
		Types: []*Type{
			mkEnum("color", "red", "dark_blue", "green"),
			mkStruct("leaf", mkAttr("shade", P("color")), mkAttr("tags", L("String")), mkAttr("self", P("leaf")), mkAttr("nodes", L("node"))),
			mkClass("node", mkLink("parent", P("node")), mkAttr("leaf", P("leaf")), mkAttr("leaves", M("leaf")), mkAttr("shades", L("color")), mkAttr("by_shade", M("color"))),
		},
		Resources: []*Resource{
			{Name: N("root"), Methods: []*Method{mkMethod("paint", mkIn("shade", P("color")), mkOut("result", M("node")))},
				Locators: []*Locator{mkLoc("nodes", "nodes", false), mkLoc("first", "node", false)}},
			{Name: N("nodes"), Methods: []*Method{
				mkMethod("list", mkDflt("page", 1), mkDflt("size", 100), mkOut("total", P("Integer")), mkOut("items", L("node"))),
				mkMethod("add", mkInOut("body", P("node")))},
				Locators: []*Locator{mkLoc("node", "node", true)}},
			{Name: N("node"), Methods: []*Method{mkMethod("get", mkOut("body", P("node"))), mkMethod("delete")}},
		},
		Errors: []*Error{{Name: N("not_found"), Code: 404}, {Name: N("duplicated"), Code: 12}},
	})
}

// decorated adds documentation and annotations to everything that is declared in the order model.
func decorated(m *Model) *Model {
	v := m.Services[0].Versions[0]
	n := 0
	doc := func() string {
		n++
		return fmt.Sprintf("Text %d.\n\nMore text.", n)
	}
	ann := func(json, http string) (a Ann) {
		a.JSON, a.HTTP = json, http
		return
	}
	for _, t := range v.Types {
		t.Doc, t.Ann = doc(), ann("json_"+t.Name.Snake(), "")
		for _, x := range t.Values {
			x.Doc, x.Ann = doc(), ann("json_"+x.Name.Snake(), "")
		}
		for _, x := range t.Attrs {
			x.Doc, x.Ann = doc(), ann("json_"+x.Name.Snake(), "")
		}
	}
	for _, x := range v.Resources {
		x.Doc, x.Ann = doc(), ann("", "http_"+x.Name.Snake())
		for _, y := range x.Methods {
			y.Doc, y.Ann = doc(), ann("", "http_"+y.Name.Snake())
			for _, z := range y.Params {
				z.Doc, z.Ann = doc(), ann("json_"+z.Name.Snake(), "")
			}
		}
		for _, y := range x.Locators {
			y.Doc, y.Ann = doc(), ann("", "http_"+y.Name.Snake())
		}
	}
	for _, x := range v.Errors {
		x.Doc, x.Ann = doc(), ann("json_"+x.Name.Snake(), "")
	}
	return m
}

var docRE = regexp.MustCompile(` doc=".*"`)

func withoutDocs(lines []string) []string {
	var result []string
	for _, line := range lines {
		result = append(result, docRE.ReplaceAllString(line, ""))
	}
	sort.Strings(result)
	return result
}

// Tokens splits the source of a model in tokens.
func Tokens(text string) []string {
	re := regexp.MustCompile("[A-Za-z_][A-Za-z0-9_]*|[0-9]+|\"(?:[^\"\\\\]|\\\\.)*\"|`[^`]*`|[@{}\\[\\]()=]")
	return re.FindAllString(text, -1)
}

func isWord(t string) bool {
	ch := t[0]
	return ch == '_' || ch >= 'a' && ch <= 'z' || ch >= 'A' && ch <= 'Z' || ch >= '0' && ch <= '9'
}

// expectModel checks that the result of reading is exactly the given set of lines.
func expectModel(c *engine.Ctx, res *Result, want []string, describe func() string) {
	c.Eval(1)
	if !res.OK() {
		c.Fail("model should be accepted but it was %s\n%s", res, describe())
	}
	if d := Diff(Dump(res.Model), want); d != "" {
		c.Fail("model isn't what was declared:\n%s\n%s", d, describe())
	}
	if d := Consistency(res.Model); d != "" {
		c.Fail("%s\n%s", d, describe())
	}
}

func showFiles(files Files) string {
	var names []string
	for name := range files {
		names = append(names, name)
	}
	sort.Strings(names)
	var b strings.Builder
	for _, name := range names {
		fmt.Fprintf(&b, "--- %s\n%s", name, files[name])
	}
	return b.String()
}

// fileSplits distributes the declarations in files according to the given cut points.
func splitFiles(dir string, decls []string, cuts ...int) Files {
	files := Files{}
	start := 0
	for i := 0; i <= len(cuts); i++ {
		end := len(decls)
		if i < len(cuts) {
			end = cuts[i]
		}
		files[fmt.Sprintf("%s/f%d.model", dir, i)] = strings.Join(decls[start:end], "\n")
		start = end
	}
	return files
}

func init() {
	properties["P01"] = &Property{
		Sharded: true,
		Rule:    "one execution per order, file distribution, member order or layout; the model that is read is compared with the declared one; an outcome is non trivial when it is a distinct result (accepted or rejected) of a distinct family",
		Assumptions: []string{
			"arrangements larger than the stated number of declarations and files behave like the explored ones",
		},
		Run: func(env *Env, r *engine.Report) {
			model := orderModel()
			version := model.Services[0].Versions[0]
			plain := model.Dump()
			plainDecls := version.Decls()
			decorated(model)
			want := model.Dump()
			decls := version.Decls()
			dir := version.Dir()

			// All the orders of the declarations, with all the positions to split them in files:
			n := len(decls)
			if !r.Thorough() {
				n = 7
			}
			base := decls
			r.Explore("orders and files", fmt.Sprintf("all the permutations of %d declarations split in two files (quick: after the third, thorough: at all positions)", n), func(c *engine.Ctx) {
				perm := Perm(c, "next", n)
				cut := 3
				if r.Thorough() {
					cut = c.Choose("cut", n+1)
				}
				c.Commit()
				list := append(append([]string{}, Permuted(base[:n], perm)...), base[n:]...)
				files := splitFiles(dir, list, cut)
				expectModel(c, env.Read(files), want, func() string { return showFiles(files) })
				c.Outcome("accepted")
			})

			// All the assignments of declarations to three files:
			r.Explore("three files", "all the assignments of 8 declarations to three files, in direct (and, if thorough, reverse) order", func(c *engine.Ctx) {
				reverse := r.Thorough() && c.Flag("reverse")
				parts := make([][]string, 3)
				for i := range decls {
					f := c.Choose("file", 3)
					if reverse {
						parts[f] = append([]string{decls[i]}, parts[f]...)
					} else {
						parts[f] = append(parts[f], decls[i])
					}
				}
				c.Commit()
				files := Files{}
				for i, part := range parts {
					files[fmt.Sprintf("%s/f%d.model", dir, i)] = strings.Join(part, "\n")
				}
				expectModel(c, env.Read(files), want, func() string { return showFiles(files) })
				c.Outcome("accepted")
			})

			// All the orders of the members of each declaration:
			r.Explore("members", "all the permutations of the members of every declaration, one declaration at a time, before and after the declarations it uses", func(c *engine.Ctx) {
				m := decorated(orderModel())
				v := m.Services[0].Versions[0]
				switch which := c.Choose("container", 9); which {
				case 0, 1, 2:
					t := v.Types[which]
					if t.Kind == Enum {
						t.Values = Permuted(t.Values, Perm(c, "value", len(t.Values)))
					} else {
						t.Attrs = Permuted(t.Attrs, Perm(c, "attr", len(t.Attrs)))
					}
				case 3, 4, 5:
					x := v.Resources[which-3]
					x.Locators = Permuted(x.Locators, Perm(c, "locator", len(x.Locators)))
					x.Methods = Permuted(x.Methods, Perm(c, "method", len(x.Methods)))
				case 6:
					x := v.Resources[1].Methods[0]
					x.Params = Permuted(x.Params, Perm(c, "param", len(x.Params)))
				case 7:
					x := v.Resources[0].Methods[0]
					x.Params = Permuted(x.Params, Perm(c, "param", len(x.Params)))
				case 8:
					v.Errors = Permuted(v.Errors, Perm(c, "error", len(v.Errors)))
				}
				reverse := c.Flag("reverse")
				c.Commit()
				list := v.Decls()
				if reverse {
					for i, j := 0, len(list)-1; i < j; i, j = i+1, j-1 {
						list[i], list[j] = list[j], list[i]
					}
				}
				files := splitFiles(dir, list)
				expectModel(c, env.Read(files), want, func() string { return showFiles(files) })
				c.Outcome("accepted")
			})

			// Many declarations:
			r.Explore("large models", largeBounds+"; declarations in direct, reverse or interleaved order, in one file, in one file each, or in files of seven", func(c *engine.Ctx) {
				m := makeLarge(engine.Pick(c, "dimension", largeDimensions), engine.Pick(c, "size", largeSizes(r.Thorough())))
				order := c.Choose("order", 3)
				layout := c.Choose("layout", 3)
				c.Commit()
				files := Files{}
				for _, s := range m.Services {
					for _, v := range s.Versions {
						list := v.Decls()
						switch order {
						case 1:
							slices.Reverse(list)
						case 2:
							var odd, even []string
							for i, d := range list {
								if i%2 == 0 {
									even = append(even, d)
								} else {
									odd = append(odd, d)
								}
							}
							list = append(odd, even...)
						}
						for i, d := range list {
							name := "all.model"
							switch layout {
							case 1:
								name = fmt.Sprintf("%s.model", nth(i))
							case 2:
								name = fmt.Sprintf("f%d.model", i/7)
							}
							files[v.Dir()+"/"+name] += d + "\n"
						}
					}
				}
				expectModel(c, env.Read(files), m.Dump(), func() string { return showFiles(files) })
				c.Outcome("accepted")
			})

			// Members of resources and locators mixed:
			r.Explore("mixed members", "all the permutations of five members of a resource mixing methods and locators, with both orders of the members of locators", func(c *engine.Ctx) {
				parts := []string{
					"method Get { out Body Leaf }",
					"locator Alpha { target Child variable ID }",
					"method Act { in X String }",
					"locator Beta { target Child }",
					"Other { }",
				}
				if c.Flag("variable first") {
					parts[1] = "locator Alpha { variable ID target Child }"
				}
				parts = Permuted(parts, Perm(c, "member", len(parts)))
				after := c.Flag("after")
				c.Commit()
				text := "resource Root {\n" + strings.Join(parts, "\n") + "\n}\n"
				rest := "resource Child { }\nstruct Leaf { Name String }\n"
				if after {
					text = rest + text
				} else {
					text += rest
				}
				m := mkModel("my_service", "v1", &Version{
					Types: []*Type{mkStruct("leaf", mkAttr("name", P("String")))},
					Resources: []*Resource{{Name: N("root"),
						Methods:  []*Method{mkMethod("get", mkOut("body", P("leaf"))), mkMethod("act", mkIn("x", P("String"))), mkMethod("other")},
						Locators: []*Locator{mkLoc("alpha", "child", true), mkLoc("beta", "child", false)},
					}, {Name: N("child")}},
				})
				expectModel(c, env.Read(Files{dir + "/a.model": text}), m.Dump(), func() string { return text })
				c.Outcome("accepted")
			})

			// All the layouts:
			tokens := Tokens(strings.Join(plainDecls, "\n"))
			separators := []string{"\n", "\t", "\r\n", "\n\n\n", " /* x */ ", "/*\n\n*/", " // comment\n", "\n// class Fake { }\n\n", " /* // */ ", "/* \" */ ", "   "}
			r.Explore("layouts", fmt.Sprintf("all the tokens separated by each of %d separators, and each of the %d gaps with each separator while the rest are spaces", len(separators), len(tokens)+1), func(c *engine.Ctx) {
				gap := c.Choose("gap", len(tokens)+2) - 1
				sep := engine.Pick(c, "separator", separators)
				c.Commit()
				var b strings.Builder
				for i := 0; i <= len(tokens); i++ {
					if gap == -1 || gap == i {
						b.WriteString(sep)
					} else if i > 0 {
						b.WriteString(" ")
					}
					if i < len(tokens) {
						b.WriteString(tokens[i])
					}
				}
				text := b.String()
				res := env.Read(Files{dir + "/all.model": text})
				c.Eval(1)
				if !res.OK() {
					c.Fail("layout should be accepted but it was %s\n%s", res, text)
				}
				if d := Diff(withoutDocs(Dump(res.Model)), plain); d != "" {
					c.Fail("layout changes the model: %s\n%s", d, text)
				}
				c.Outcome(sep)
			})
			r.Explore("compact layout", "no separator between tokens when one of them isn't a word, all of them or one gap at a time", func(c *engine.Ctx) {
				gap := c.Choose("gap", len(tokens))
				c.Commit()
				var b strings.Builder
				for i, token := range tokens {
					if i > 0 {
						words := isWord(token) && isWord(tokens[i-1])
						if words || gap != 0 && gap != i {
							b.WriteString(" ")
						}
					}
					b.WriteString(token)
				}
				text := b.String()
				expectModel(c, env.Read(Files{dir + "/all.model": text}), plain, func() string { return text })
				c.Outcome("accepted")
			})

			// Rejected models are rejected in all arrangements:
			defects := []struct{ name, find, replace, add string }{
				{"undefined attribute type", "Shade Color", "Shade Colour", ""},
				{"undefined list type", "Nodes []Node", "Nodes []Nodo", ""},
				{"undefined map type", "Leaves [String]Leaf", "Leaves [String]Leef", ""},
				{"undefined resource", "target Nodes", "target Nodos", ""},
				{"undefined parameter type", "out Result [String]Node", "out Result [String]Nada", ""},
				{"duplicated type", "", "", "struct Leaf {\n}\n"},
				{"type duplicated with other kind", "", "", "enum Node {\n}\n"},
				{"duplicated resource", "", "", "resource Node {\n}\n"},
				{"duplicated error", "", "", "error NotFound {\n code 1\n}\n"},
				{"no root", "resource Root", "resource Other", ""},
				{"loop", "resource Node {\n", "resource Node {\nlocator Back { target Nodes }\n", ""},
				{"bad method", "out Body Node", "in Body Node", ""},
				{"no target", "", "", "resource Strange {\nlocator X {\n}\n}\n"},
				{"bad syntax", "", "", "struct {\n}\n"},
			}
			r.Explore("rejected", fmt.Sprintf("%d incorrect models by all the rotations and transpositions of their declarations by all the positions to split them in two files", len(defects)), func(c *engine.Ctx) {
				d := engine.Pick(c, "defect", defects)
				list := append([]string{}, decls...)
				found := d.find == ""
				for i := range list {
					if d.find != "" && strings.Contains(list[i], d.find) {
						list[i] = strings.Replace(list[i], d.find, d.replace, 1)
						found = true
					}
				}
				if !found {
					panic("defect not applied: " + d.name)
				}
				if d.add != "" {
					list = append(list, d.add)
				}
				// Any rotation followed by any transposition:
				k := c.Choose("rotation", len(list))
				list = append(append([]string{}, list[k:]...), list[:k]...)
				i := c.Choose("i", len(list))
				j := c.Choose("j", len(list))
				if j < i {
					c.Skip()
				}
				cut := c.Choose("cut", 2)
				c.Commit()
				list[i], list[j] = list[j], list[i]
				files := splitFiles(dir, list, cut*(i+1))
				res := env.Read(files)
				c.Check(res.Panic == "" && res.Err != nil, "incorrect model (%s) should be rejected but it was %s\n%s", d.name, res, showFiles(files))
				c.Outcome(d.name)
			})
		},
	}
}
