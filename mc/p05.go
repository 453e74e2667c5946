package main

import (
	"fmt"
	"slices"
	"sort"
	"strings"

	"verif/lib/engine"
	. "verif/lib/spec"
)

// refDecide checks the decision of the reader for a model against the semantic rules.
func refDecide(env *Env, c *engine.Ctx, m *Model, files Files) {
	var bad []string
	for _, s := range m.Services {
		for _, v := range s.Versions {
			for _, x := range refCheck(v) {
				bad = append(bad, v.Key()+": "+x)
			}
		}
	}
	res := env.Read(files)
	c.Eval(1)
	switch {
	case res.Panic != "":
		c.Fail("panic: %s\n%s", res.Panic, showFiles(files))
	case len(bad) > 0 && res.Err == nil:
		c.Fail("incorrect model (%s) should be rejected but it was accepted\n%s", strings.Join(bad, ", "), showFiles(files))
	case len(bad) == 0:
		if !res.OK() {
			c.Fail("correct model should be accepted but it was %s\n%s", res, showFiles(files))
		}
		if d := Diff(Dump(res.Model), m.Dump()); d != "" {
			c.Fail("model isn't what was declared: %s\n%s", d, showFiles(files))
		}
	}
	sort.Strings(bad)
	c.Outcome(strings.Join(bad, ","))
}

// similar are names that are different, but similar.
var similar = []string{"one_mode", "onemode", "on_emode", "one_mode_more", "one", "mode_one", "one_modes"}

func init() {
	locations := []string{"alpha/v1", "alpha/v2", "beta/v1"}
	// build creates a model with the given version in each location:
	build := func(versions map[string]*Version) *Model {
		m := &Model{}
		for _, where := range locations {
			v := versions[where]
			if v == nil {
				continue
			}
			parts := strings.Split(where, "/")
			v.Name = N(parts[1])
			if n := len(m.Services); n > 0 && m.Services[n-1].Name.String() == parts[0] {
				m.Services[n-1].Versions = append(m.Services[n-1].Versions, v)
			} else {
				m.Services = append(m.Services, &Service{Name: N(parts[0]), Versions: []*Version{v}})
			}
		}
		return m.Link()
	}
	// files writes the declarations of the model in the requested arrangement:
	files := func(m *Model, arrangement int) Files {
		result := Files{}
		for _, s := range m.Services {
			for _, v := range s.Versions {
				decls := v.Decls()
				if arrangement&1 != 0 {
					for i, j := 0, len(decls)-1; i < j; i, j = i+1, j-1 {
						decls[i], decls[j] = decls[j], decls[i]
					}
				}
				if arrangement&2 != 0 {
					for i, d := range decls {
						result[fmt.Sprintf("%s/f%d.model", v.Dir(), i)] = d
					}
				} else {
					result[v.Dir()+"/all.model"] = strings.Join(decls, "\n")
				}
			}
		}
		return result
	}
	properties["P05"] = &Property{
		Sharded: true,
		Rule:    "one execution per assignment of declarations and uses of the same names in several versions and services; the decision is compared with an independent implementation of the rules; outcomes are the distinct sets of reasons",
		Run: func(env *Env, r *engine.Report) {
			uses := []string{"none", "attribute", "list", "map", "index", "link", "parameter", "list parameter", "map parameter", "indexed map", "both"}
			use := func(v *Version, kind string) {
				holder := mkClass("holder")
				root := v.Resources[0]
				add := func(ref Ref, link bool) {
					holder.Attrs = append(holder.Attrs, &Attr{Name: N("my_attr"), Type: ref, Link: link})
				}
				param := func(ref Ref) {
					root.Methods = append(root.Methods, mkMethod("act", mkIn("x", ref)))
				}
				switch kind {
				case "attribute":
					add(P("thing"), false)
				case "list":
					add(L("thing"), false)
				case "map":
					add(M("thing"), false)
				case "index":
					add(Ref{Shape: Map, Elem: "String", Index: "thing"}, false)
				case "indexed map":
					add(Ref{Shape: Map, Elem: "thing", Index: "Integer"}, false)
				case "both":
					add(Ref{Shape: Map, Elem: "thing", Index: "thing"}, false)
				case "link":
					add(P("thing"), true)
				case "parameter":
					param(P("thing"))
				case "list parameter":
					param(L("thing"))
				case "map parameter":
					param(M("thing"))
				}
				v.Types = append(v.Types, holder)
			}
			declare := func(v *Version, n int) {
				switch n {
				case 1:
					v.Types = append(v.Types, mkStruct("thing", mkAttr("name", P("String"))))
				case 2:
					v.Types = append(v.Types, mkEnum("thing", "red"))
				case 3:
					v.Types = append(v.Types, mkStruct("thing"), mkStruct("thing"))
				case 4:
					v.Types = append(v.Types, mkClass("thing", mkAttr("name", P("String"))), mkEnum("thing"))
				case 5:
					v.Types = append(v.Types, mkEnum("thing", "red"), mkClass("thing"))
				}
			}
			r.Explore("types in two versions", "all the ways to declare (not, once, twice) and to use a type in two versions of the same service or of two services, in four arrangements", func(c *engine.Ctx) {
				versions := map[string]*Version{}
				second := engine.Pick(c, "second", locations[1:])
				for _, where := range []string{"alpha/v1", second} {
					v := &Version{Resources: []*Resource{rootOnly()}}
					declare(v, c.Choose("declared", 6))
					use(v, engine.Pick(c, "used", uses))
					versions[where] = v
				}
				arrangement := 0
				if r.Thorough() {
					arrangement = c.Choose("arrangement", 4)
				}
				c.Commit()
				m := build(versions)
				refDecide(env, c, m, files(m, arrangement))
			})
			r.Explore("types in three versions", "a type declared or not and used or not in three versions, in four arrangements", func(c *engine.Ctx) {
				versions := map[string]*Version{}
				for _, where := range locations {
					v := &Version{Resources: []*Resource{rootOnly()}}
					declare(v, []int{0, 1, 3}[c.Choose("declared", 3)])
					use(v, uses[:3][c.Choose("used", 3)])
					versions[where] = v
				}
				arrangement := c.Choose("arrangement", 4)
				c.Commit()
				m := build(versions)
				refDecide(env, c, m, files(m, arrangement))
			})
			r.Explore("resources", "a resource declared (not, once, twice) and used or not, with or without a root (once or twice), in three versions, in two arrangements", func(c *engine.Ctx) {
				versions := map[string]*Version{}
				for _, where := range locations {
					v := &Version{}
					root := c.Choose("root", 3)
					used := c.Flag("used")
					for i, n := 0, c.Choose("declared", 3); i < n; i++ {
						v.Resources = append(v.Resources, &Resource{Name: N("thing"), Methods: []*Method{mkMethod("act")}})
					}
					for i := 0; i < root; i++ {
						x := rootOnly()
						if used {
							x.Locators = []*Locator{mkLoc("thing", "thing", true)}
						}
						v.Resources = append(v.Resources, x)
					}
					if root == 0 && used {
						v.Resources = append(v.Resources, &Resource{Name: N("other"), Locators: []*Locator{mkLoc("thing", "thing", false)}})
					}
					versions[where] = v
				}
				arrangement := 0
				if r.Thorough() {
					arrangement = c.Choose("arrangement", 4)
				}
				c.Commit()
				m := build(versions)
				refDecide(env, c, m, files(m, arrangement))
			})
			r.Explore("root as target", "a root that is only the target of a locator isn't a root", func(c *engine.Ctx) {
				v := &Version{Resources: []*Resource{{Name: N("other"), Locators: []*Locator{mkLoc("back", "root", c.Flag("variable"))}}}}
				if c.Flag("declared") {
					v.Resources = append(v.Resources, rootOnly())
				}
				if c.Flag("also type") {
					v.Types = append(v.Types, mkClass("root"))
				}
				arrangement := c.Choose("arrangement", 4)
				c.Commit()
				m := build(map[string]*Version{"alpha/v1": v})
				refDecide(env, c, m, files(m, arrangement))
			})
			r.Explore("errors", "an error declared zero, one, two or three times in three versions, in four arrangements; with types and resources with the same name", func(c *engine.Ctx) {
				versions := map[string]*Version{}
				for _, where := range locations {
					v := &Version{Resources: []*Resource{rootOnly()}}
					for i, n := 0, c.Choose("declared", 4); i < n; i++ {
						v.Errors = append(v.Errors, &Error{Name: N("thing"), Code: i})
					}
					if where != "beta/v1" && c.Flag("same name") {
						v.Types = append(v.Types, mkStruct("thing"))
						v.Resources = append(v.Resources, &Resource{Name: N("thing")})
					}
					versions[where] = v
				}
				arrangement := c.Choose("arrangement", 4)
				c.Commit()
				m := build(versions)
				refDecide(env, c, m, files(m, arrangement))
			})
			r.Explore("similar roots", "resources with names that are similar to the root, with and without root, in two versions", func(c *engine.Ctx) {
				versions := map[string]*Version{}
				for _, where := range []string{"alpha/v1", "beta/v1"} {
					v := &Version{Resources: []*Resource{{Name: N(engine.Pick(c, "name", []string{"ROOT", "roots", "root_root", "my_root", "ro_ot", "roo_t"}))}}}
					if c.Flag("root") {
						v.Resources = append(v.Resources, rootOnly())
						v.Resources[1].Locators = []*Locator{mkLoc("x", v.Resources[0].Name.String(), false)}
					}
					versions[where] = v
				}
				c.Commit()
				m := build(versions)
				refDecide(env, c, m, files(m, 0))
			})
			r.Explore("similar names", "all the pairs of declared types, resources or errors, and of used ones, whose names are similar: same letters with different words, prefixes, plurals, and lists", func(c *engine.Ctx) {
				kind := c.Choose("kind", 4)
				first, second := engine.Pick(c, "first", similar), engine.Pick(c, "second", similar)
				v := &Version{Resources: []*Resource{rootOnly()}}
				used := engine.Pick(c, "used", similar)
				for i, name := range []string{first, second} {
					switch kind {
					case 0:
						v.Types = append(v.Types, mkStruct(name, mkAttr("name", P("String"))))
					case 1:
						v.Types = append(v.Types, mkEnum(name, "red"))
					case 2:
						v.Resources = append(v.Resources, &Resource{Name: N(name)})
					case 3:
						v.Errors = append(v.Errors, &Error{Name: N(name), Code: i})
					}
				}
				switch kind {
				case 0, 1:
					v.Types = append(v.Types, mkClass("holder", mkAttr("x", engine.Pick(c, "shape", shapes)(used))))
				case 2:
					v.Resources[0].Locators = []*Locator{mkLoc("x", used, c.Flag("variable"))}
				}
				c.Commit()
				m := build(map[string]*Version{"alpha/v1": v})
				refDecide(env, c, m, files(m, 0))
			})
			r.Explore("locators", "locators with and without target and variable in the root, in reachable and in unreachable resources, of each version", func(c *engine.Ctx) {
				versions := map[string]*Version{}
				bad := engine.Pick(c, "version", locations)
				var text string
				for _, where := range locations {
					v := &Version{Resources: []*Resource{rootOnly(), {Name: N("thing")}, {Name: N("hidden")}}}
					v.Resources[0].Locators = []*Locator{mkLoc("thing", "thing", false)}
					if where == bad {
						x := v.Resources[c.Choose("resource", 3)]
						switch c.Choose("locator", 4) {
						case 0:
							x.Locators = append(x.Locators, &Locator{Name: N("no_target")})
						case 1:
							x.Locators = append(x.Locators, &Locator{Name: N("no_target"), Variable: true})
						case 2:
							x.Locators = append(x.Locators, &Locator{Name: N("a_target"), Target: "missing"})
						}
					}
					versions[where] = v
				}
				arrangement := c.Choose("arrangement", 4)
				c.Commit()
				m := build(versions)
				f := files(m, arrangement)
				for name := range f {
					f[name] = strings.ReplaceAll(f[name], "\t\ttarget \n", "")
				}
				_ = text
				refDecide(env, c, m, f)
			})
			r.Explore("large versions", "versions with many types, resources and errors (up to 60), where one of them, in any position, is missing, duplicated, or uses something that isn't declared", func(c *engine.Ctx) {
				n := engine.Pick(c, "size", []int{5, 9, 12, 17, 33, 60})
				at := []int{0, 1, n / 2, n - 2, n - 1}[c.Choose("position", 5)]
				what := c.Choose("defect", 13)
				arrangement := c.Choose("arrangement", 4)
				c.Commit()
				v := makeLarge("types", n).Services[0].Versions[0]
				deep := makeLarge("depth", n).Services[0].Versions[0]
				v.Resources = deep.Resources
				v.Errors = makeLarge("errors", n).Services[0].Versions[0].Errors
				t := v.Type("type_" + nth(at))
				x := v.Resource("level_" + nth(at))
				// The resource for the incorrect methods:
				act := func(ref Ref) {
					x.Methods = append(x.Methods, mkMethod("act", mkIn("first", P("String")), mkIn("second", ref)))
				}
				attr := func(ref Ref, link bool) {
					for t.Kind == Enum {
						at = (at + 1) % n
						t = v.Type("type_" + nth(at))
					}
					t.Attrs = append(t.Attrs, &Attr{Name: N("bad_one"), Type: ref, Link: link})
				}
				switch what {
				case 1:
					attr(P("missing"), false)
				case 2:
					attr(L("missing"), false)
				case 3:
					attr(M("missing"), false)
				case 4:
					attr(P("missing"), true)
				case 5:
					act(P("missing"))
				case 6:
					act(L("missing"))
				case 7:
					v.Types = append(v.Types, mkStruct(t.Name.String()))
				case 8:
					v.Resources = append(v.Resources, &Resource{Name: x.Name})
				case 9:
					v.Errors = append(v.Errors, &Error{Name: v.Errors[at].Name, Code: 1})
				case 10:
					x.Locators = append(x.Locators, mkLoc("bad_one", "missing", false))
				case 11:
					v.Types = slices.DeleteFunc(v.Types, func(y *Type) bool { return y == t })
				case 12:
					v.Resources = slices.DeleteFunc(v.Resources, func(y *Resource) bool { return y == x })
				}
				m := build(map[string]*Version{"alpha/v1": v, "beta/v1": {Types: []*Type{mkStruct("missing")}, Resources: []*Resource{rootOnly(), {Name: N("missing")}}}})
				refDecide(env, c, m, files(m, arrangement))
			})
			r.Explore("built-in types", "declaring a type with the name of a built-in type is rejected, other kinds of declarations aren't", func(c *engine.Ctx) {
				name := strings.ToLower(engine.Pick(c, "name", Builtins))
				v := &Version{Resources: []*Resource{rootOnly()}}
				switch c.Choose("kind", 5) {
				case 0:
					v.Types = append(v.Types, mkStruct(name))
				case 1:
					v.Types = append(v.Types, mkClass(name))
				case 2:
					v.Types = append(v.Types, mkEnum(name))
				case 3:
					v.Resources = append(v.Resources, &Resource{Name: N(name)})
				case 4:
					v.Errors = append(v.Errors, &Error{Name: N(name)})
				}
				c.Commit()
				m := build(map[string]*Version{"alpha/v1": v})
				refDecide(env, c, m, files(m, 0))
			})
			r.Explore("empty versions", "services without versions are accepted, versions without files are rejected because they have no root", func(c *engine.Ctx) {
				versions := map[string]*Version{"alpha/v1": {Resources: []*Resource{rootOnly()}}}
				second := engine.Pick(c, "second", locations[1:])
				switch c.Choose("content", 3) {
				case 0:
					versions[second] = &Version{}
				case 1:
					versions[second] = &Version{Types: []*Type{mkStruct("thing")}}
				case 2:
					versions[second] = &Version{Resources: []*Resource{rootOnly()}}
				}
				c.Commit()
				m := build(versions)
				refDecide(env, c, m, files(m, 0))
			})
		},
	}
}
