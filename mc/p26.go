package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"verif/lib/engine"
	"verif/lib/models"
	. "verif/lib/spec"
)

// typesModel builds a model with one type with attributes of all the kinds.
func typesModel(c *engine.Ctx, elems []string, attrs int) *Model {
	t := &Type{Name: N("my_DNS_type"), Kind: Struct}
	if c.Flag("class") {
		t.Kind = Class
	}
	t.Doc = docTexts[c.Choose("doc", 2)*2]
	count := c.Choose("count", attrs+1)
	for i := 0; i < count; i++ {
		a := &Attr{Name: N([]string{"first_one", "second_ID"}[i])}
		a.Type = shapes[c.Choose("shape", 3)](elems[c.Choose("elem", len(elems))])
		if a.Type.Elem == "big_thing" && a.Type.Shape != Map {
			a.Link = c.Flag("link")
		}
		switch c.Choose("annotation", 3) {
		case 1:
			a.Ann.JSON = fmt.Sprintf("json-%d.$x", i)
		case 2:
			a.Ann.Go = fmt.Sprintf("GoName%d", i)
		}
		a.Doc = docTexts[c.Choose("attribute doc", len(docTexts))]
		t.Attrs = append(t.Attrs, a)
	}
	v := &Version{Name: N("v1"), Types: append(common(), t), Resources: bareRoot()}
	return (&Model{Services: []*Service{{Name: N("my_service"), Versions: []*Version{v}}}}).Link()
}

// enumModel builds a model with one enumerated type.
func enumModel(c *engine.Ctx) *Model {
	t := &Type{Name: N("my_enum"), Kind: Enum, Doc: docTexts[c.Choose("doc", len(docTexts))]}
	count := c.Choose("count", 4)
	for i := 0; i < count; i++ {
		x := &Value{Name: N([]string{"big_one", "API_two", "other"}[i])}
		switch c.Choose("annotation", 3) {
		case 1:
			x.Ann.JSON = fmt.Sprintf("Value-%d", i)
		case 2:
			x.Ann.Go = fmt.Sprintf("GoName%d", i)
			x.Doc = docTexts[2]
		}
		t.Values = append(t.Values, x)
	}
	v := &Version{Name: N("v1"), Types: append(common(), t), Resources: bareRoot()}
	return (&Model{Services: []*Service{{Name: N("my_service"), Versions: []*Version{v}}}}).Link()
}

func checkSchemas(env *Env, c *engine.Ctx, m *Model) {
	docs, problem := env.openapiDocs(m)
	c.Check(problem == "", "%s", problem)
	for _, s := range m.Services {
		for _, v := range s.Versions {
			want := oaSchemas(v)
			got := oaComponents(v, docs[v.Key()])
			c.Check(sameLines(got, want), "schemas of version %s aren't correct: %s", v.Key(), Diff(got, want))
			c.Check(oaType(docs[v.Key()].Obj("components", "schemas", "Metadata")) == "{server_version string}", "schema of the metadata isn't correct")
			problem = oaReferences(docs[v.Key()])
			c.Check(problem == "", "%s", problem)
			for _, name := range []string{"kind", "href", "code", "reason"} {
				c.Check(oaType(docs[v.Key()].Obj("components", "schemas", "Error", "properties", name)) == "string", "property '%s' of the schema of the error isn't correct", name)
			}
			c.Outcome(fmt.Sprint(want))
		}
	}
}

// embedded generates the Go code of the model and returns the specifications embedded in the compiled code.
func (e *Env) embedded(m *Model) (map[string]string, string) {
	dir, problem := e.GenerateGo(Files(m.Files()))
	defer os.RemoveAll(dir)
	if problem != "" {
		return nil, problem
	}
	var b strings.Builder
	b.WriteString("package main\n\nimport (\n\t\"fmt\"\n\t\"os\"\n")
	i := 0
	var keys []string
	for _, s := range m.Services {
		for _, v := range s.Versions {
			fmt.Fprintf(&b, "\tp%d %q\n", i, Base+"/"+strings.ReplaceAll(s.Name.Snake(), "_", "")+"/"+strings.ReplaceAll(v.Name.Snake(), "_", ""))
			keys = append(keys, v.Key())
			i++
		}
	}
	b.WriteString(")\n\nfunc main() {\n")
	for i, key := range keys {
		fmt.Fprintf(&b, "\tif err := os.WriteFile(os.Args[1]+%q, p%d.OpenAPI, 0o644); err != nil {\n\t\tfmt.Println(err)\n\t\tos.Exit(1)\n\t}\n", "/"+strings.ReplaceAll(key, "/", "."), i)
	}
	b.WriteString("}\n")
	must(os.MkdirAll(filepath.Join(dir, "zzembedded"), 0o755))
	must(os.WriteFile(filepath.Join(dir, "zzembedded", "main.go"), []byte(b.String()), 0o644))
	out := e.Dir()
	defer os.RemoveAll(out)
	code, text := e.run(dir, nil, 800*time.Second, "go", "run", "./zzembedded", out)
	if code != 0 {
		return nil, "can't run program that reads the specifications: " + tail(text, 2000)
	}
	files := tree(out)
	result := map[string]string{}
	for _, key := range keys {
		result[key] = files[strings.ReplaceAll(key, "/", ".")]
	}
	return result, ""
}

// documented returns a model where everything has documentation with special characters.
func documented() *Model {
	v := &Version{Name: N("v1"), Types: common(), Resources: bareRoot()}
	for i, t := range v.Types {
		t.Doc = docTexts[2] + " `backticks` %s %d {{ x }} \t tab"
		for _, a := range t.Attrs {
			a.Doc = docTexts[1+i]
		}
	}
	return (&Model{Services: []*Service{{Name: N("my_service"), Versions: []*Version{v}}}}).Link()
}

func init() {
	properties["P26"] = &Property{
		Sharded: true,
		Prepare: buildTool,
		Rule:    "one execution per model; the generator runs on the model as read by the real reader, and the schemas, properties, types, enumerated values and descriptions of each document, and the types and descriptions of the parameters and bodies of each method, are compared with the ones calculated from the model by the reference; the specifications embedded in the compiled Go code are compared with the generated ones; outcomes are distinct sets of schemas",
		Assumptions: []string{
			"lists of links are described as arrays",
			"descriptions of the predefined properties and schemas aren't checked",
		},
		Run: func(env *Env, r *engine.Report) {
			attrs := 1
			elems := []string{"Boolean", "Integer", "Long", "Float", "String", "Date", "Interface", "hue", "small_leaf", "big_thing", "my_DNS_type"}
			r.Explore("attributes", "all the elements by all the shapes, annotations and documentation texts, in structs and classes", func(c *engine.Ctx) {
				m := typesModel(c, elems, attrs)
				c.Commit()
				checkSchemas(env, c, m)
			})
			pair := []string{"Integer", "big_thing"}
			if env.Tier == "thorough" {
				pair = []string{"Integer", "Date", "hue", "small_leaf", "big_thing"}
			}
			r.Explore("pairs of attributes", fmt.Sprintf("pairs of attributes of types %v, all the shapes, annotations and documentation texts", pair), func(c *engine.Ctx) {
				m := typesModel(c, pair, 2)
				c.Commit()
				checkSchemas(env, c, m)
			})
			r.Explore("enums", "up to three values, all the annotations and documentation texts", func(c *engine.Ctx) {
				m := enumModel(c)
				c.Commit()
				checkSchemas(env, c, m)
			})
			r.Explore("methods", "all the kinds of methods, all the subsets of four optional parameters, three positions, with and without documentation", func(c *engine.Ctx) {
				m := methodModel(c)
				c.Commit()
				checkRoutes(env, c, m, true)
			})
			few := []string{"Integer", "small_leaf"}
			if env.Tier == "thorough" {
				few = []string{"Integer", "Date", "hue", "small_leaf", "big_thing"}
			}
			r.Explore("actions", "all the kinds of one parameter", func(c *engine.Ctx) {
				m := actionModel(c, bodyElems, 1)
				c.Commit()
				checkRoutes(env, c, m, true)
			})
			r.Explore("actions with two parameters", fmt.Sprintf("all the pairs of parameters of types %v", few), func(c *engine.Ctx) {
				m := actionModel(c, few, 2)
				c.Commit()
				checkRoutes(env, c, m, true)
			})
			r.Explore("large models", largeBounds, func(c *engine.Ctx) {
				m := largeModel(c, r.Thorough())
				methods := c.Flag("methods")
				c.Commit()
				if methods {
					checkRoutes(env, c, m, true)
				} else {
					checkSchemas(env, c, m)
				}
			})
			list, labels := referenceModels()
			r.Explore("references", "all the combinations of referenced classes, local uses and methods", func(c *engine.Ctx) {
				i := c.Choose("model", len(list))
				c.Commit()
				m := list[i]
				docs, problem := env.openapiDocs(m)
				c.Check(problem == "", "%s", problem)
				// The version with references has the schemas of the referenced class, of all that it uses,
				// including links, and of its own types:
				base, user := m.Services[0].Versions[0], m.Services[1].Versions[0]
				want := oaSchemas(base)
				for _, t := range user.Types {
					if t.Ann.Ref == "" {
						want = append(want, oaSchemas(&Version{Types: []*Type{t}})...)
					}
				}
				sort.Strings(want)
				all := &Version{Types: append(append([]*Type{}, base.Types...), user.Types...)}
				got := oaComponents(all, docs[user.Key()])
				c.Check(sameLines(got, want), "schemas of version %s aren't correct: %s", user.Key(), Diff(got, want))
				c.Outcome(labels[i])
			})
			r.Explore("reference model", "the model used by the checks of the generated code", func(c *engine.Ctx) {
				methods := c.Flag("methods")
				c.Commit()
				if methods {
					checkRoutes(env, c, models.Main(), true)
				} else {
					checkSchemas(env, c, models.Main())
				}
			})
			r.Explore("embedded", "the reference model and a model with documentation with special characters", func(c *engine.Ctx) {
				m := models.Main()
				if c.Flag("documented") {
					m = documented()
				}
				c.Commit()
				files, problem := env.generateFor("openapi", m)
				c.Check(problem == "", "%s", problem)
				data, problem := env.embedded(m)
				c.Check(problem == "", "%s", problem)
				for _, s := range m.Services {
					for _, v := range s.Versions {
						name := filepath.Join(s.Name.Snake(), v.Name.Snake(), "openapi.json")
						c.Check(files[name] != "" && data[v.Key()] == files[name], "specification of version %s embedded in the Go code isn't the generated one", v.Key())
						c.Outcome(v.Key())
					}
				}
			})
		},
	}
}
