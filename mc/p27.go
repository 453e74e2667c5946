package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"path/filepath"
	"sort"
	"strconv"

	"verif/lib/engine"
	"verif/lib/jsonx"
	"verif/lib/models"
	. "verif/lib/spec"
)

// metricsPaths calculates the paths of the tree of the model. Paths without other paths inside are marked.
func metricsPaths(m *Model) []string {
	set := map[string]bool{}
	add := func(path string) {
		set[path] = true
	}
	add("/api")
	for _, s := range m.Services {
		add("/api/" + s.Name.Snake())
		for _, v := range s.Versions {
			var visit func(path string, r *Resource)
			visit = func(path string, r *Resource) {
				add(path)
				for _, x := range r.Methods {
					if x.IsAction() {
						add(path + "/" + x.Segment())
					}
				}
				for _, l := range r.Locators {
					segment := l.Segment()
					if l.Variable {
						segment = "-"
					}
					visit(path+"/"+segment, v.Resource(l.Target))
				}
			}
			visit("/api/"+s.Name.Snake()+"/"+v.Name.Snake(), v.Root())
		}
	}
	var list []string
	for path := range set {
		list = append(list, path)
	}
	sort.Strings(list)
	return list
}

// pathTree extracts the paths of the tree of the generated source.
func pathTree(text string) ([]string, error) {
	file, err := parser.ParseFile(token.NewFileSet(), "path_tree_data.go", text, 0)
	if err != nil {
		return nil, err
	}
	// Find the first string literal, that is the only one of the file:
	data := ""
	ast.Inspect(file, func(n ast.Node) bool {
		if lit, ok := n.(*ast.BasicLit); ok && lit.Kind == token.STRING {
			if s, err := strconv.Unquote(lit.Value); err == nil {
				data += s
			}
		}
		return true
	})
	x, err := jsonx.Decode([]byte(data))
	if err != nil {
		return nil, err
	}
	var list []string
	var visit func(path string, x any) error
	visit = func(path string, x any) error {
		if path != "" {
			list = append(list, path)
		}
		if x == nil {
			return nil
		}
		o, ok := x.(*jsonx.Object)
		if !ok {
			return fmt.Errorf("node '%s' isn't an object or null", path)
		}
		for _, k := range o.Keys {
			if err := visit(path+"/"+k, o.Get(k)); err != nil {
				return err
			}
		}
		return nil
	}
	err = visit("", x)
	sort.Strings(list)
	return list, err
}

func checkTree(c *engine.Ctx, m *Model, files Files) {
	text, ok := files[filepath.Join("metrics", "path_tree_data.go")]
	c.Check(ok, "the source file hasn't been generated, only %v", files.names())
	got, err := pathTree(text)
	c.Check(err == nil, "the tree isn't correct: %v", err)
	want := metricsPaths(m)
	c.Check(sameLines(got, want), "paths aren't correct: %s", Diff(got, want))
	c.Outcome(fmt.Sprint(want))
}

func init() {
	properties["P27"] = &Property{
		Sharded: true,
		Prepare: buildTool,
		Rule:    "one execution per model; the generator runs on the model as read by the real reader, and the set of paths of the generated tree is compared with the one calculated from the model by the reference; outcomes are distinct sets of paths",
		Assumptions: []string{
			"segments of locators and actions of the same resource are different, and there is at most one variable locator per resource",
		},
		Run: func(env *Env, r *engine.Report) {
			nodes := 4
			if env.Tier == "thorough" {
				nodes = 5
			}
			check := func(c *engine.Ctx, m *Model) {
				c.Commit()
				files, problem := env.generateFor("metrics", m)
				c.Check(problem == "", "%s", problem)
				checkTree(c, m, files)
			}
			r.Explore("trees", fmt.Sprintf("all the acyclic graphs of %d resources with fixed and variable locators, at most one variable locator per resource, three distributions of methods, with and without annotations", nodes), func(c *engine.Ctx) {
				check(c, treeModel(c, nodes))
			})
			r.Explore("methods", "all the kinds of methods in three positions", func(c *engine.Ctx) {
				check(c, methodModel(c))
			})
			r.Explore("services", "up to three services with up to three versions, each of them with one of two roots", func(c *engine.Ctx) {
				m := &Model{}
				services := 1 + c.Choose("services", 3)
				for i := 0; i < services; i++ {
					s := &Service{Name: N([]string{"first_service", "second", "third_API"}[i])}
					versions := 1 + c.Choose("versions", 3)
					for j := 0; j < versions; j++ {
						v := &Version{Name: N([]string{"v1", "v2", "v2_alpha1"}[j]), Resources: bareRoot()}
						if c.Flag("method") {
							v.Resources[0].Methods = []*Method{{Name: N("do_" + letters(i, j))}}
						}
						s.Versions = append(s.Versions, v)
					}
					m.Services = append(m.Services, s)
				}
				m.Link()
				check(c, m)
			})
			r.Explore("large models", largeBounds, func(c *engine.Ctx) {
				check(c, largeModel(c, r.Thorough()))
			})
			list, labels := referenceModels()
			r.Explore("references", "all the combinations of referenced classes, local uses and methods", func(c *engine.Ctx) {
				i := c.Choose("model", len(list))
				check(c, list[i])
				c.Outcome(labels[i])
			})
			r.Explore("reference model", "the model used by the checks of the generated code, generated inside the process and with the command line tool", func(c *engine.Ctx) {
				m := models.Full()
				tool := c.Flag("tool")
				if !tool {
					check(c, m)
					return
				}
				c.Commit()
				dir, problem := env.GenerateGo(Files(m.Files()))
				c.Check(problem == "", "%s", problem)
				checkTree(c, m, tree(dir))
			})
		},
	}
}
