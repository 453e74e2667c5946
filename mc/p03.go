package main

import (
	"fmt"
	"strings"

	"verif/lib/engine"
	. "verif/lib/spec"
)

// docOf is the reference implementation of the rule for documentation comments: the run of lines that
// only contain line comments and that ends right before the given line. The second result is false if
// the indentation of the comments isn't uniform.
func docOf(lines []string, index int) (string, bool) {
	first := index
	for first > 0 && strings.HasPrefix(strings.TrimSpace(lines[first-1]), "//") {
		first--
	}
	var texts []string
	for i := first; i < index; i++ {
		text := strings.TrimLeft(strings.TrimRight(lines[i], "\r"), " \t")
		texts = append(texts, strings.TrimPrefix(text, "//"))
	}
	indent := ""
	for _, text := range texts {
		if strings.TrimSpace(text) != "" {
			indent = text[:len(text)-len(strings.TrimLeft(text, " \t"))]
			break
		}
	}
	for i, text := range texts {
		if text == "" {
			continue
		}
		if !strings.HasPrefix(text, indent) {
			return "", false
		}
		texts[i] = text[len(indent):]
	}
	return strings.Join(texts, "\n"), true
}

// docCase is a model whose source is a list of lines; some of the lines contain the start of a
// declaration, and set is called with the documentation that it should have.
type docCase struct {
	lines []string
	marks []docMark
}

type docMark struct {
	line int
	set  func(doc string)
}

func (d *docCase) add(lines ...string) { d.lines = append(d.lines, lines...) }

func (d *docCase) decl(set func(string), lines ...string) {
	d.marks = append(d.marks, docMark{len(d.lines), set})
	d.lines = append(d.lines, lines...)
}

// finish calculates the documentation of all the declarations.
func (d *docCase) finish(c *engine.Ctx) {
	for _, m := range d.marks {
		doc, ok := docOf(d.lines, m.line)
		if !ok {
			c.Skip()
		}
		m.set(doc)
	}
}

func (d *docCase) text() string { return strings.Join(d.lines, "\n") + "\n" }

func init() {
	properties["P03"] = &Property{
		Sharded: true,
		Rule:    "one execution per arrangement of comment lines, blank lines and declarations; the documentation of every declaration of the model is compared with a reference implementation of the rule that works on lines; outcomes are the distinct expected models",
		Assumptions: []string{
			"comments of one block have uniform indentation",
		},
		Run: func(env *Env, r *engine.Report) {
			dir := "my_service/v1"
			finish := func(c *engine.Ctx, d *docCase, v *Version, eol string) {
				d.finish(c)
				c.Commit()
				m := mkModel("my_service", "v1", v)
				want := m.Dump()
				c.Outcome(strings.Join(want, "\n"))
				text := strings.ReplaceAll(d.text(), "\n", eol)
				expectModel(c, env.Read(Files{dir + "/all.model": text}), want, func() string { return text })
			}

			gaps := [][]string{
				{},
				{"// One."},
				{""},
				{"// One.", "// Two."},
				{"// One.", ""},
				{"// One.", "", "// Two."},
				{"//", "// One.", "//", "// Two."},
				{"/* Block */"},
				{"// One.", "/* Block */"},
				{"/* Block", "// inside", "*/"},
				{"/* Block", "", "*/"},
				{"// One.", "\t\t"},
			}
			ends := []string{"", " // Trailing.", " /* Block */", " "}

			// decls generates three consecutive declarations of the given kind:
			kinds := []string{"attribute", "class attribute", "value", "method", "empty method", "locator", "parameter",
				"struct", "class", "enum", "resource", "error"}
			build := func(c *engine.Ctx, kind string, annotated bool, decorate func(d *docCase, i int), end func(i int) string) (*docCase, *Version) {
				d := &docCase{}
				v := &Version{}
				root := rootOnly()
				child := &Resource{Name: N("child")}
				names := []string{"alpha", "beta", "gamma"}
				title := []string{"Alpha", "Beta", "Gamma"}
				ann, pre := Ann{}, []string{}
				if annotated {
					ann = Ann{JSON: "x"}
					pre = []string{`@json(name = "x")`}
				}
				with := func(lines ...string) []string { return append(append([]string{}, pre...), lines...) }
				switch kind {
				case "attribute", "class attribute", "value":
					t := &Type{Name: N("holder"), Kind: map[string]TypeKind{"attribute": Struct, "class attribute": Class, "value": Enum}[kind]}
					d.add(KindNames[t.Kind] + " Holder {")
					for i, name := range names {
						decorate(d, i)
						if kind == "value" {
							x := &Value{Name: N(name), Ann: ann}
							t.Values = append(t.Values, x)
							d.decl(func(doc string) { x.Doc = doc }, with("\t"+title[i]+end(i))...)
						} else {
							x := &Attr{Name: N(name), Type: P("String"), Ann: ann}
							t.Attrs = append(t.Attrs, x)
							d.decl(func(doc string) { x.Doc = doc }, with("\t"+title[i]+" String"+end(i))...)
						}
					}
					decorate(d, 3)
					d.add("}")
					v.Types = append(v.Types, t)
				case "method", "empty method", "locator", "parameter":
					d.add("resource Root {")
					if kind == "parameter" {
						d.add("method Act {")
						root.Methods = append(root.Methods, mkMethod("act"))
					}
					for i, name := range names {
						decorate(d, i)
						switch kind {
						case "method":
							x := mkMethod(name, mkIn("x", P("String")))
							x.Ann = ann
							root.Methods = append(root.Methods, x)
							d.decl(func(doc string) { x.Doc = doc }, with("\tmethod "+title[i]+" {"+end(i), "\t\tin X String", "\t}"+end(i))...)
						case "empty method":
							x := mkMethod(name)
							x.Ann = ann
							root.Methods = append(root.Methods, x)
							d.decl(func(doc string) { x.Doc = doc }, with("\t"+title[i]+" { }"+end(i))...)
						case "locator":
							x := mkLoc(name, "child", false)
							x.Ann = ann
							root.Locators = append(root.Locators, x)
							d.decl(func(doc string) { x.Doc = doc }, with("\tlocator "+title[i]+" {", "\t\ttarget Child"+end(i), "\t}"+end(i))...)
						case "parameter":
							x := mkIn(name, P("String"))
							x.Ann = ann
							root.Methods[0].Params = append(root.Methods[0].Params, x)
							d.decl(func(doc string) { x.Doc = doc }, with("\tin "+title[i]+" String"+end(i))...)
						}
					}
					decorate(d, 3)
					if kind == "parameter" {
						d.add("}")
					}
					d.add("}")
				default:
					for i, name := range names {
						decorate(d, i)
						line := kind + " " + title[i] + " { }" + end(i)
						switch kind {
						case "struct", "class", "enum":
							x := &Type{Name: N(name), Kind: map[string]TypeKind{"struct": Struct, "class": Class, "enum": Enum}[kind], Ann: ann}
							v.Types = append(v.Types, x)
							d.decl(func(doc string) { x.Doc = doc }, with(line)...)
						case "resource":
							x := &Resource{Name: N(name), Ann: ann}
							v.Resources = append(v.Resources, x)
							d.decl(func(doc string) { x.Doc = doc }, with(line)...)
						case "error":
							x := &Error{Name: N(name), Ann: ann}
							v.Errors = append(v.Errors, x)
							d.decl(func(doc string) { x.Doc = doc }, with(line)...)
						}
					}
					decorate(d, 3)
				}
				if len(root.Methods) == 0 && len(root.Locators) == 0 {
					d.add("", "resource Root { }")
				}
				d.add("", "resource Child { }")
				v.Resources = append(v.Resources, root, child)
				return d, v
			}

			r.Explore("gaps", fmt.Sprintf("%d kinds of declarations, the %d contents of each of the gaps before the first two (quick) or three (thorough) of them, trailing comments", len(kinds), len(gaps)), func(c *engine.Ctx) {
				kind := engine.Pick(c, "kind", kinds)
				end := engine.Pick(c, "end", ends)
				d, v := build(c, kind, false, func(d *docCase, i int) {
					switch {
					case i < 2 || i == 2 && r.Thorough():
						d.add(engine.Pick(c, "gap", gaps)...)
					case i == 2:
						d.add("// Last.")
					case i == 3:
						d.add("// Nothing.")
					}
				}, func(i int) string { return end })
				eol := "\n"
				if end == " " {
					eol = "\r\n"
				}
				finish(c, d, v, eol)
			})

			r.Explore("annotated", fmt.Sprintf("%d kinds of declarations with annotations, the %d contents of the gap before", len(kinds), len(gaps)), func(c *engine.Ctx) {
				kind := engine.Pick(c, "kind", kinds)
				d, v := build(c, kind, true, func(d *docCase, i int) {
					if i < 2 {
						d.add(engine.Pick(c, "gap", gaps)...)
					}
				}, func(i int) string { return "" })
				finish(c, d, v, "\n")
			})

			texts := []string{"//", "// a", "//  b", "//c", "// é // x", "//\ttab", "// }", "// \"", "//   ", "// @json(name = \"x\")"}
			r.Explore("texts", fmt.Sprintf("all the documentation comments of up to three lines (four if thorough) from %d texts, with and without code indentation", len(texts)), func(c *engine.Ctx) {
				kind := engine.Pick(c, "kind", []string{"attribute", "struct", "parameter", "error"})
				limit := 3
				if r.Thorough() {
					limit = 4
				}
				n := c.Choose("lines", limit) + 1
				indent := engine.Pick(c, "indent", []string{"", "\t"})
				var doc []string
				for i := 0; i < n; i++ {
					doc = append(doc, indent+engine.Pick(c, "text", texts))
				}
				if kind != "attribute" && n == 3 && !r.Thorough() {
					c.Skip()
				}
				d, v := build(c, kind, false, func(d *docCase, i int) {
					if i == 1 {
						d.add(doc...)
					}
				}, func(i int) string { return "" })
				finish(c, d, v, "\n")
			})

			r.Explore("large models", largeBounds+", where two of each three things have documentation", func(c *engine.Ctx) {
				m := largeModel(c, r.Thorough())
				c.Commit()
				files := Files(m.Files())
				want := m.Dump()
				expectModel(c, env.Read(files), want, func() string { return showFiles(files) })
				c.Outcome(strings.Join(want, "\n"))
			})

			r.Explore("nested", "all the subsets of documented declarations of a resource with methods, parameters and locators and of types with members", func(c *engine.Ctx) {
				d := &docCase{}
				num := 0
				doc := func() {
					num++
					if c.Flag("documented") {
						d.add(fmt.Sprintf("// Documentation %d.", num))
					}
				}
				root := rootOnly()
				m := mkMethod("act")
				x := mkIn("x", P("holder"))
				l := mkLoc("child", "child", true)
				t := mkStruct("holder")
				a := mkAttr("a", P("String"))
				e := mkEnum("color")
				val := &Value{Name: N("red")}
				er := &Error{Name: N("fail"), Code: 1}
				m.Params, root.Methods, root.Locators = []*Param{x}, []*Method{m}, []*Locator{l}
				t.Attrs, e.Values = []*Attr{a}, []*Value{val}
				child := &Resource{Name: N("child")}
				doc()
				d.decl(func(s string) { root.Doc = s }, "resource Root {")
				doc()
				d.decl(func(s string) { m.Doc = s }, "  method Act {")
				doc()
				d.decl(func(s string) { x.Doc = s }, "    in X Holder", "  }")
				doc()
				d.decl(func(s string) { l.Doc = s }, "  locator Child {", "// Target.", "    target Child", "// Variable.", "variable ID", "  }", "}")
				doc()
				d.decl(func(s string) { t.Doc = s }, "struct Holder {")
				doc()
				d.decl(func(s string) { a.Doc = s }, "  A String", "}")
				doc()
				d.decl(func(s string) { e.Doc = s }, "enum Color {")
				doc()
				d.decl(func(s string) { val.Doc = s }, "  Red", "}")
				doc()
				d.decl(func(s string) { er.Doc = s }, "error Fail {", "  // Code.", "  code 1", "}")
				doc()
				d.decl(func(s string) { child.Doc = s }, "resource Child {", "}")
				finish(c, d, &Version{Types: []*Type{t, e}, Resources: []*Resource{root, child}, Errors: []*Error{er}}, "\n")
			})

			r.Explore("one line", "complete declarations in one line only receive the documentation of the outer declaration", func(c *engine.Ctx) {
				documented := c.Flag("documented")
				which := c.Choose("which", 5)
				trailing := c.Flag("trailing")
				d := &docCase{}
				root := rootOnly()
				v := &Version{Resources: []*Resource{root, {Name: N("child")}}}
				if documented {
					d.add("// Documentation.")
				}
				end := ""
				if trailing {
					end = " // Trailing."
				}
				switch which {
				case 0:
					t := mkStruct("holder", mkAttr("a", P("String")), mkAttr("b", P("String")))
					v.Types = append(v.Types, t)
					d.decl(func(s string) { t.Doc = s }, "struct Holder { A String B String }"+end)
				case 1:
					t := mkEnum("color", "red", "blue")
					v.Types = append(v.Types, t)
					d.decl(func(s string) { t.Doc = s }, "enum Color { Red Blue }"+end)
				case 2:
					root.Methods = []*Method{mkMethod("act", mkIn("x", P("String")))}
					d.decl(func(s string) { root.Doc = s }, "resource Root { Act { in X String } }"+end)
				case 3:
					root.Locators = []*Locator{mkLoc("child", "child", false)}
					d.decl(func(s string) { root.Doc = s }, "resource Root { locator Child { target Child } }"+end)
				case 4:
					a, b := mkStruct("one"), mkStruct("two")
					v.Types = append(v.Types, a, b)
					d.decl(func(s string) { a.Doc = s }, "struct One { } struct Two { }"+end)
				}
				if which != 2 && which != 3 {
					d.add("resource Root { }")
				}
				d.add("resource Child { }")
				finish(c, d, v, "\n")
			})

			r.Explore("files", "comments at each line of one file never document the declarations of other file", func(c *engine.Ctx) {
				n := c.Choose("comments", 6)
				skip := c.Choose("skip", 6)
				first := c.Flag("first")
				c.Commit()
				one := strings.Repeat("// Comment.\n", n)
				two := strings.Repeat("\n", skip) + "struct Holder {\n\n\tA String\n\n\tB String\n}\n\nresource Root { }\n"
				files := Files{dir + "/a.model": one, dir + "/b.model": two}
				if !first {
					files = Files{dir + "/a.model": two, dir + "/b.model": one}
				}
				m := mkModel("my_service", "v1", &Version{Types: []*Type{mkStruct("holder", mkAttr("a", P("String")), mkAttr("b", P("String")))}, Resources: []*Resource{rootOnly()}})
				expectModel(c, env.Read(files), m.Dump(), func() string { return showFiles(files) })
				c.Outcome("accepted")
			})

			r.Explore("after references", "documentation of the declarations before and after a class that is a reference to other service", func(c *engine.Ctx) {
				before := c.Flag("before")
				own := c.Flag("own")
				after := c.Flag("after")
				remote := c.Choose("remote", 3)
				c.Commit()
				text := ""
				doc := func(flag bool, s string) string {
					if flag {
						text += "// " + s + "\n"
						return s
					}
					return ""
				}
				a := mkStruct("before", mkAttr("a", P("String")))
				a.Doc = doc(before, "Before.")
				text += "struct Before { A String }\n"
				n := mkClass("node", mkAttr("name", P("String")))
				doc(own, "Own.")
				text += "@ref(path = \"/other/v1/node\")\nclass Node {\n}\n"
				b := mkStruct("after", mkAttr("a", P("String")))
				b.Doc = doc(after, "After.")
				text += "struct After { A String }\nresource Root { }\n"
				other := mkClass("node", mkAttr("name", P("String")))
				if remote > 0 {
					other.Doc = "Remote."
				}
				if remote > 1 {
					other.Attrs[0].Doc = "Remote attribute."
					n.Attrs[0].Doc = "Remote attribute."
				}
				files := Files{"my_service/v1/a.model": text, "other/v1/a.model": other.Source() + rootOnly().Source()}
				res := env.Read(files)
				c.Check(res.OK(), "should be accepted but it was %s", res)
				for _, line := range Dump(res.Model) {
					for _, x := range []struct{ prefix, doc string }{
						{"my_service/v1 type before struct", a.Doc}, {"my_service/v1 type after struct", b.Doc},
						{"my_service/v1 type node attr name", n.Attrs[0].Doc}, {"my_service/v1 type before attr", ""},
						{"my_service/v1 type after attr", ""}, {"my_service/v1 resource root", ""}, {"other/v1 resource root", ""},
						{"other/v1 type node class", other.Doc},
					} {
						if strings.HasPrefix(line, x.prefix) {
							c.Check(strings.Contains(line, fmt.Sprintf(" doc=%q", x.doc)) || x.doc == "" && !strings.Contains(line, "doc="),
								"documentation of '%s' should be '%s': %s", x.prefix, x.doc, line)
						}
					}
				}
				c.Outcome(fmt.Sprint(before, own, after, remote))
			})
		},
	}
}
