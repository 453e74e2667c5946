package main

import (
	"fmt"
	"os"
	"path/filepath"

	"verif/lib/engine"
	"verif/lib/models"
	. "verif/lib/spec"
)

// letters returns a word for a pair of numbers.
func letters(i, j int) string { return "x" + string(rune('a'+i)) + string(rune('a'+j)) }

// treeModel builds a model with a tree of resources. Choices are the kind of each locator, the annotations of the
// locators and the methods of the resources.
func treeModel(c *engine.Ctx, nodes int) *Model {
	name := func(i int) string {
		if i == 0 {
			return "root"
		}
		return []string{"", "aa_res", "bb_res", "cc_res", "dd_res"}[i]
	}
	v := &Version{Name: N("v1"), Types: common()}
	for i := 0; i < nodes; i++ {
		v.Resources = append(v.Resources, &Resource{Name: N(name(i))})
	}
	annotated := c.Flag("annotated")
	pattern := c.Choose("methods", 3)
	for i, r := range v.Resources {
		variables := 0
		for j := i + 1; j < nodes; j++ {
			switch c.Choose(fmt.Sprintf("%d-%d", i, j), 3) {
			case 1:
				l := &Locator{Name: N("fixed_" + letters(i, j)), Target: name(j)}
				if annotated {
					l.Ann.HTTP = fmt.Sprintf("Fixed-%d%d", i, j)
				}
				r.Locators = append(r.Locators, l)
			case 2:
				l := &Locator{Name: N("var_" + letters(i, j)), Target: name(j), Variable: true}
				if annotated {
					l.Ann.HTTP = fmt.Sprintf("Var.%d%d", i, j)
				}
				r.Locators = append(r.Locators, l)
				variables++
			}
		}
		// In the tree used for metrics all the variable segments are the same, so there can be only one:
		if variables > 1 {
			c.Skip()
		}
		act := &Method{Name: N("do_it"), Params: []*Param{param(N("one"), P("Integer"), true, false)}}
		if annotated {
			act.Ann.HTTP = "doIt"
		}
		get := &Method{Name: N("get"), Params: []*Param{param(N("body"), P("big_thing"), false, true), param(N("depth"), P("Integer"), true, false)}}
		if i == 0 {
			// The method to get the root is the metadata one:
			get = &Method{Name: N("delete")}
		}
		switch (i + pattern) % 3 {
		case 0:
			r.Methods = []*Method{act}
		case 1:
			r.Methods = []*Method{get, act}
		case 2:
			if i%2 == 1 {
				r.Methods = []*Method{get}
			}
		}
	}
	return (&Model{Services: []*Service{{Name: N("my_service"), Versions: []*Version{v}}}}).Link()
}

var docTexts = []string{"", "First sentence\nin two lines. Second sentence.", "Has \"quotes\", back\\slash, <tag> & 'single', 100%, %s %d %v %%, {{ .Type }}, |pipe|, *star*, _under_, #hash, [link](x), $var, a: b; c/d, `code`.\n\nSecond paragraph with unicode: ñ é 日本 😀", "One line\nand other line\nwithout dot"}

// methodModel builds a model with a resource with one method, of all the kinds, and optional parameters.
func methodModel(c *engine.Ctx) *Model {
	elem := "big_thing"
	if c.Flag("struct") {
		elem = "small_leaf"
	}
	var m *Method
	switch c.Choose("kind", 13) {
	case 0:
		m = &Method{Name: N("add"), Params: []*Param{param(N("body"), P(elem), true, true)}}
	case 1:
		m = &Method{Name: N("get"), Params: []*Param{param(N("body"), P(elem), false, true)}}
	case 2:
		m = &Method{Name: N("list"), Params: pageParams(elem)}
	case 3:
		m = &Method{Name: N("list"), Params: []*Param{param(N("items"), L(elem), false, true)}}
	case 4:
		m = &Method{Name: N("update"), Params: []*Param{param(N("body"), P(elem), true, true)}}
	case 5:
		m = &Method{Name: N("update"), Params: []*Param{param(N("body"), L(elem), true, true)}}
	case 6:
		m = &Method{Name: N("async_update"), Params: []*Param{param(N("body"), P(elem), true, true)}}
	case 7:
		m = &Method{Name: N("delete")}
	case 8:
		m = &Method{Name: N("async_delete")}
	case 9:
		m = &Method{Name: N("post"), Params: []*Param{param(N("request"), P(elem), true, false), param(N("response"), P("small_leaf"), false, true)}}
	case 10:
		m = &Method{Name: N("post"), Params: []*Param{param(N("response"), P(elem), false, true)}}
	case 11:
		m = &Method{Name: N("search"), Params: append(pageParams(elem), param(N("body"), P("small_leaf"), true, false))}
	case 12:
		m = &Method{Name: N("do_many_things"), Params: []*Param{param(N("one"), P(elem), true, true)}}
	}
	if m.Name.String() != "post" {
		for i, p := range []*Param{
			{Name: N("dry_run"), Type: P("Boolean"), In: true, Ann: Ann{HTTP: "dryRun"}},
			{Name: N("my_name"), Type: P("String"), In: true, Ann: Ann{JSON: "jsonName"}, Doc: "The\n\"name\"."},
			{Name: N("both_names"), Type: P("Date"), In: true, Ann: Ann{JSON: "asJSON", HTTP: "as-HTTP"}},
			{Name: N("main_hue"), Type: P("hue"), In: true},
		} {
			if c.Flag(fmt.Sprintf("extra%d", i)) {
				m.Params = append(m.Params, p)
			}
		}
	}
	m.Doc = docTexts[c.Choose("doc", 2)*2]
	if m.IsAction() && c.Flag("annotated") {
		m.Ann.HTTP = "do-many.things"
	}
	r := &Resource{Name: N("target_res"), Methods: []*Method{m}}
	root := &Resource{Name: N("root")}
	list := []*Resource{root}
	switch c.Choose("position", 3) {
	case 0:
		if m.Name.String() == "get" || m.Name.String() == "list" {
			c.Skip()
		}
		root.Methods = r.Methods
	case 1:
		root.Locators = []*Locator{{Name: N("target_things"), Target: "target_res"}}
		list = append(list, r)
	case 2:
		root.Locators = []*Locator{{Name: N("one_target"), Target: "target_res", Variable: true}, {Name: N("same_thing"), Target: "target_res"}}
		list = append(list, r)
	}
	v := &Version{Name: N("v1"), Types: common(), Resources: list}
	return (&Model{Services: []*Service{{Name: N("my_service"), Versions: []*Version{v}}}}).Link()
}

// actionModel builds a model with an action with parameters of all the kinds.
func actionModel(c *engine.Ctx, elems []string, params int) *Model {
	m := &Method{Name: N("do_many_things")}
	count := c.Choose("count", params+1)
	for i := 0; i < count; i++ {
		p := &Param{Name: N([]string{"first_one", "second_one"}[i])}
		p.Type = shapes[c.Choose("shape", 3)](elems[c.Choose("elem", len(elems))])
		dir := c.Choose("direction", 3)
		p.In, p.Out = dir != 1, dir != 0
		switch c.Choose("annotation", 3) {
		case 1:
			p.Ann.JSON = fmt.Sprintf("json%d", i)
		case 2:
			p.Ann.HTTP = fmt.Sprintf("http%d", i)
			p.Doc = docTexts[2]
		}
		m.Params = append(m.Params, p)
	}
	v := withResources(common(), &Resource{Name: N("acts"), Methods: []*Method{m}})
	return (&Model{Services: []*Service{{Name: N("my_service"), Versions: []*Version{v}}}}).Link()
}

// checkRoutes checks the routes of all the versions.
func checkRoutes(env *Env, c *engine.Ctx, m *Model, details bool) {
	docs, problem := env.openapiDocs(m)
	c.Check(problem == "", "%s", problem)
	for _, s := range m.Services {
		for _, v := range s.Versions {
			doc := docs[v.Key()]
			wantLines, wantDetails := oaRoutes(v)
			gotLines, gotDetails, problem := oaPaths(doc)
			if details {
				c.Check(sameLines(gotDetails, wantDetails), "details of the methods of version %s aren't correct: %s", v.Key(), Diff(gotDetails, wantDetails))
			} else {
				c.Check(problem == "", "version %s: %s", v.Key(), problem)
				c.Check(sameLines(gotLines, wantLines), "routes of version %s aren't correct: %s", v.Key(), Diff(gotLines, wantLines))
				problem = oaReferences(doc)
				c.Check(problem == "", "version %s: %s", v.Key(), problem)
				c.Equal("title", doc.Obj("info").Get("title"), any(v.Service.Name.String()))
				c.Equal("version", doc.Obj("info").Get("version"), any(v.Name.String()))
			}
			c.Outcome(fmt.Sprint(wantLines, len(wantDetails)))
		}
	}
}

func sameLines(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// referenceModels returns all the models with references between services.
func referenceModels() (list []*Model, labels []string) {
	for i, u := range referenceUnits() {
		m := &Model{}
		for _, f := range u.More {
			m.Services = append(m.Services, f(fmt.Sprintf("%04d", i)))
		}
		list = append(list, m.Link())
		labels = append(labels, u.Label)
	}
	return
}

// toolFiles runs the command line tool for the model and returns the generated files.
func (e *Env) toolFiles(what string, m *Model) (Files, string) {
	model, dir := e.Dir(), e.Dir()
	defer os.RemoveAll(model)
	defer os.RemoveAll(dir)
	writeFiles(model, Files(m.Files()))
	out := filepath.Join(dir, "out")
	code, text := e.Tool(dir, "generate", what, "--model", model, "--output", out)
	if code != 0 {
		return nil, fmt.Sprintf("generation of %s failed with code %d: %s", what, code, toolLog(text))
	}
	return tree(out), ""
}

func init() {
	properties["P25"] = &Property{
		Sharded: true,
		Prepare: buildTool,
		Rule:    "one execution per model; the generator runs on the model as read by the real reader, and the set of verbs, paths, parameters, bodies and statuses of each document is compared with the one calculated from the model by the reference, besides checking that the document is one JSON value without duplicated keys and that all its references resolve; outcomes are distinct sets of routes",
		Assumptions: []string{
			"a resource doesn't have two methods with the same verb and path, like Add and Post, and the root has no Get or List",
			"segments of locators of the same resource are different, and names of variable locators of the same path are different",
			"in models with references routes and references are checked",
		},
		Run: func(env *Env, r *engine.Report) {
			nodes := 4
			if env.Tier == "thorough" {
				nodes = 5
			}
			r.Explore("trees", fmt.Sprintf("all the acyclic graphs of %d resources with fixed and variable locators, at most one variable locator per resource, three distributions of methods, with and without annotations", nodes), func(c *engine.Ctx) {
				m := treeModel(c, nodes)
				c.Commit()
				checkRoutes(env, c, m, false)
			})
			r.Explore("methods", "all the kinds of methods, all the subsets of four optional parameters, three positions, with and without documentation", func(c *engine.Ctx) {
				m := methodModel(c)
				c.Commit()
				checkRoutes(env, c, m, false)
			})
			r.Explore("large models", largeBounds, func(c *engine.Ctx) {
				m := largeModel(c, r.Thorough())
				c.Commit()
				checkRoutes(env, c, m, false)
			})
			list, labels := referenceModels()
			r.Explore("references", "all the combinations of referenced classes, local uses and methods", func(c *engine.Ctx) {
				i := c.Choose("model", len(list))
				c.Commit()
				checkRoutes(env, c, list[i], false)
				c.Outcome(labels[i])
			})
			r.Explore("reference model", "the model used by the checks of the generated code, generated inside the process and with the command line tool", func(c *engine.Ctx) {
				m := models.Full()
				tool := c.Flag("tool")
				c.Commit()
				if !tool {
					checkRoutes(env, c, m, false)
					return
				}
				inside, problem := env.generateFor("openapi", m)
				c.Check(problem == "", "%s", problem)
				files, problem := env.toolFiles("openapi", m)
				c.Check(problem == "", "%s", problem)
				c.Equal("names of the files", files.names(), inside.names())
				for name := range files {
					c.Check(files[name] == inside[name], "file '%s' generated by the command line tool is different", name)
				}
			})
		},
	}
}
