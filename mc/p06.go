package main

import (
	"slices"
	"strconv"
	"strings"

	"verif/lib/engine"
	. "verif/lib/spec"
)

func init() {
	methods := []string{"add", "get", "update", "async_update", "delete", "async_delete", "list", "search", "post", "restart", "add_all"}
	names := []string{"body", "items", "page", "size", "total", "other"}
	refs := []Ref{P("Integer"), P("String"), P("Boolean"), P("Long"), P("Date"), P("Interface"), P("color"), P("leaf"), P("node"), L("node"), L("String"), M("String"), M("leaf")}
	defaults := []any{nil, 1, 100, 7, true, "s"}
	param := func(name string, ref Ref, dir int, dflt any) *Param {
		return &Param{Name: N(name), Type: ref, In: dir != 1, Out: dir != 0, Default: dflt}
	}
	// complete returns a correct signature of the method:
	complete := func(name string) []*Param {
		page := func() []*Param {
			return []*Param{mkDflt("page", 1), mkDflt("size", 100), mkOut("total", P("Integer")), mkOut("items", L("node"))}
		}
		switch name {
		case "add", "update", "async_update":
			return []*Param{mkInOut("body", P("node")), mkIn("other", P("String"))}
		case "get":
			return []*Param{mkOut("body", P("node")), mkIn("other", P("String"))}
		case "delete", "async_delete":
			return []*Param{mkIn("other", P("String")), mkIn("more", P("color"))}
		case "list":
			return append(page(), mkIn("other", P("String")))
		case "search":
			return append(page(), mkIn("body", P("leaf")), mkIn("other", P("String")))
		case "post":
			return []*Param{mkIn("request", P("leaf")), mkOut("response", P("node"))}
		}
		return []*Param{mkIn("other", P("String")), mkOut("more", M("leaf"))}
	}
	types := func() []*Type {
		return []*Type{mkEnum("color", "red"), mkStruct("leaf", mkAttr("name", P("String"))), mkClass("node", mkAttr("name", P("String")))}
	}
	properties["P06"] = &Property{
		Sharded: true,
		Rule:    "one execution per signature; the decision of the reader is compared with an independent table of rules; outcomes are the distinct sets of broken rules",
		Assumptions: []string{
			"signatures that deviate from a correct one in more parameters than the bound are decided like the explored ones",
		},
		Run: func(env *Env, r *engine.Report) {
			decide := func(c *engine.Ctx, m *Method, child bool) {
				c.Commit()
				v := &Version{Types: types(), Resources: []*Resource{rootOnly()}}
				if child {
					v.Resources[0].Locators = []*Locator{mkLoc("child", "child", false)}
					v.Resources = append(v.Resources, &Resource{Name: N("child"), Methods: []*Method{mkMethod("get", mkOut("body", P("node"))), m}})
					if m.Name.String() == "get" {
						v.Resources[1].Methods = v.Resources[1].Methods[1:]
					}
				} else {
					v.Resources[0].Methods = []*Method{m}
				}
				model := mkModel("my_service", "v1", v)
				refDecide(env, c, model, Files(model.Files()))
			}
			r.Explore("one parameter", "all the methods with no parameter or with one of all the names, types, directions and defaults", func(c *engine.Ctx) {
				m := mkMethod(engine.Pick(c, "method", methods))
				if c.Flag("parameter") {
					dflt := any(nil)
					ref := engine.Pick(c, "type", refs)
					name := engine.Pick(c, "name", names)
					dir := c.Choose("direction", 3)
					if r.Thorough() || name == "other" || m.Name.String() == "restart" {
						dflt = engine.Pick(c, "default", defaults)
					}
					m.Params = append(m.Params, param(name, ref, dir, dflt))
				}
				decide(c, m, false)
			})
			few := []Ref{P("Integer"), P("leaf"), P("color"), L("node"), M("leaf")}
			r.Explore("two parameters", "all the methods with all the pairs of parameters from a smaller domain", func(c *engine.Ctx) {
				m := mkMethod(engine.Pick(c, "method", methods))
				for i := 0; i < 2; i++ {
					names := []string{"body", "items", []string{"first", "second"}[i]}
					m.Params = append(m.Params, param(engine.Pick(c, "name", names), engine.Pick(c, "type", few), c.Choose("direction", 3), nil))
				}
				if m.Params[0].Name.String() == m.Params[1].Name.String() {
					c.Skip()
				}
				decide(c, m, false)
			})
			deviate := func(c *engine.Ctx, params []*Param, label string) []*Param {
				i := c.Choose(label, len(params)+2)
				switch {
				case i == len(params):
					// Add other parameter:
					return append(params, param("extra", engine.Pick(c, "type", refs), c.Choose("direction", 3), nil))
				case i > len(params):
					return params
				}
				p := *params[i]
				switch c.Choose("deviation", 5) {
				case 0:
					// Remove it:
					return append(append([]*Param{}, params[:i]...), params[i+1:]...)
				case 1:
					p.Type = engine.Pick(c, "type", refs)
				case 2:
					dir := c.Choose("direction", 3)
					p.In, p.Out = dir != 1, dir != 0
				case 3:
					p.Default = engine.Pick(c, "default", defaults)
				case 4:
					p.Name = N(engine.Pick(c, "name", []string{"body", "items", "renamed", "pages"}))
					for j, other := range params {
						if j != i && other.Name.String() == p.Name.String() {
							c.Skip()
						}
					}
				}
				result := append([]*Param{}, params...)
				result[i] = &p
				return result
			}
			r.Explore("one deviation", "all the methods with complete signatures and each possible deviation of one parameter, in the root or in other resource", func(c *engine.Ctx) {
				name := engine.Pick(c, "method", methods)
				m := mkMethod(name, deviate(c, complete(name), "parameter")...)
				decide(c, m, c.Flag("child"))
			})
			r.Explore("type and direction", "all the methods with complete signatures, all the types, directions and defaults of each parameter", func(c *engine.Ctx) {
				name := engine.Pick(c, "method", methods)
				params := complete(name)
				i := c.Choose("parameter", len(params))
				dir := c.Choose("direction", 3)
				p := param(params[i].Name.String(), engine.Pick(c, "type", refs), dir, engine.Pick(c, "default", []any{params[i].Default, 7}))
				params[i] = p
				decide(c, mkMethod(name, params...), false)
			})
			if r.Thorough() {
				r.Explore("two deviations", "all the methods with complete signatures and each pair of deviations", func(c *engine.Ctx) {
					name := engine.Pick(c, "method", methods)
					params := deviate(c, complete(name), "first")
					if len(params) == 0 {
						c.Skip()
					}
					params = deviate(c, params, "second")
					seen := map[string]bool{}
					for _, p := range params {
						if seen[p.Name.String()] {
							c.Skip()
						}
						seen[p.Name.String()] = true
					}
					decide(c, mkMethod(name, params...), false)
				})
			}
			r.Explore("many parameters", "all the methods with complete signatures and up to 33 additional parameters, one of them, in any position, of another type, direction or with other default, in direct and reverse order", func(c *engine.Ctx) {
				name := engine.Pick(c, "method", methods)
				n := engine.Pick(c, "size", []int{4, 9, 17, 33})
				at := []int{0, n / 2, n - 1}[c.Choose("position", 3)]
				defect := c.Choose("defect", 7)
				reverse := c.Flag("reverse")
				params := complete(name)
				for i := 0; i < n; i++ {
					p := mkIn("extra_"+nth(i), P([]string{"String", "Integer", "Boolean", "Date", "color"}[i%5]))
					if i == at {
						switch defect {
						case 1:
							p.Type = P("leaf")
						case 2:
							p.Type = L("String")
						case 3:
							p.In, p.Out = false, true
						case 4:
							p.In, p.Out = true, true
						case 5:
							p.Type, p.Default = P("Integer"), "s"
						case 6:
							p.Type, p.Default = P("Integer"), 7
						}
					}
					params = append(params, p)
				}
				if reverse {
					slices.Reverse(params)
				}
				decide(c, mkMethod(name, params...), false)
			})
			r.Explore("versions", "correct and incorrect methods in two versions of two services", func(c *engine.Ctx) {
				m := &Model{}
				for i := 0; i < 2; i++ {
					s := &Service{Name: N("service_" + nth(i))}
					for j := 0; j < 2; j++ {
						v := &Version{Name: N("v" + strconv.Itoa(j+1)), Types: types(), Resources: []*Resource{rootOnly(), {Name: N("child")}}}
						v.Resources[0].Locators = []*Locator{mkLoc("child", "child", true)}
						params := complete("add")
						switch c.Choose("method", 3) {
						case 1:
							params = params[1:]
						case 2:
							params = append(params, mkOut("more", P("leaf")))
						}
						v.Resources[1].Methods = []*Method{mkMethod("add", params...), mkMethod("get", complete("get")...)}
						s.Versions = append(s.Versions, v)
					}
					m.Services = append(m.Services, s)
				}
				c.Commit()
				m.Link()
				refDecide(env, c, m, Files(m.Files()))
			})
			r.Explore("several methods", "correct and incorrect methods in the same version: one incorrect method in any resource is enough to reject the model", func(c *engine.Ctx) {
				v := &Version{Types: types(), Resources: []*Resource{rootOnly(), {Name: N("child")}, {Name: N("hidden")}}}
				v.Resources[0].Locators = []*Locator{mkLoc("child", "child", true)}
				var list []string
				for _, x := range v.Resources {
					for _, name := range []string{"add", "list"} {
						params := complete(name)
						if c.Flag("broken") {
							params = params[1:]
							if name == "list" {
								params = params[:2]
							}
							list = append(list, x.Name.String()+name)
						}
						x.Methods = append(x.Methods, mkMethod(name, params...))
					}
				}
				c.Commit()
				model := mkModel("my_service", "v1", v)
				refDecide(env, c, model, Files(model.Files()))
				c.Outcome(strings.Join(list, ","))
			})
		},
	}
}
