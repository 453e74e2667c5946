package main

import (
	"fmt"
	"go/format"
	"path/filepath"
	"regexp"
	"strings"

	"verif/lib/engine"
	"verif/lib/jsonx"
	. "verif/lib/spec"
)

// change is an extension of a model, together with what it may change in the output, and what it has to change.
type change struct {
	label string
	apply func()

	// Files that may change and files that have to. Files that are in the second list may also change. Names
	// start with the kind of output.
	may  []string
	must []string

	// Texts that have to appear in files.
	texts map[string]string

	// Prefixes of the files that may be added, and files that have to.
	dirs []string
	adds []string

	// Operations and schemas of the specification that may change, for each version. Operations are described by the
	// end of the path and the verb.
	version   *Version
	operation string
	schemas   []string
	others    bool // Specifications of other versions may also change
}

// goDir is the directory of the Go package of a version.
func goDir(v *Version) string { return v.Service.Name.Joined() + "/" + v.Name.Joined() }

// typeFiles returns the names of the Go files of a type.
func typeFiles(v *Version, t *Type) []string {
	base := "go/" + goDir(v) + "/" + t.Name.Snake()
	if t.Kind == Enum {
		return []string{base + "_type.go"}
	}
	return []string{base + "_type.go", base + "_builder.go", base + "_type_json.go"}
}

// listFiles are the files of the lists of the elements of the type that are only generated when needed.
func listFile(v *Version, elem string) string {
	return "go/" + goDir(v) + "/" + N(elem).Snake() + "_list_type_json.go"
}

func resourceFiles(v *Version, r *Resource) []string {
	base := "go/" + goDir(v) + "/" + r.Name.Snake()
	return []string{base + "_client.go", base + "_resource_json.go"}
}

func specFiles(v *Version) []string {
	return []string{"go/" + goDir(v) + "/openapi.go", "openapi/" + v.Service.Name.Snake() + "/" + v.Name.Snake() + "/openapi.json"}
}

func typePage(t *Type) string         { return "docs/" + t.Name.Snake() + "_type.md" }
func resourcePage(r *Resource) string { return "docs/" + r.Name.Snake() + "_resource.md" }

const (
	metricsFile = "go/metrics/path_tree_data.go"
	indexFile   = "docs/index.md"
)

// positions are the names of the new declarations, so that when sorted by name they are before, between and after the
// others; the last one has the same letters than an existing name. They are different for each step of the history.
var positions = [][]string{{"aa_new", "mm_new", "zz_new", "bigthing", "on_eextra"}, {"ab_other", "mn_other", "zz_other", "big_th_ing"}}

// changes returns all the extensions of the model.
func changes(m *Model, step int) []*change {
	var list []*change
	add := func(x *change) { list = append(list, x) }

	// Services and versions:
	for _, name := range positions[step] {
		add(&change{
			label: "service " + name,
			apply: func() {
				v := &Version{Name: N("v1"), Types: []*Type{{Name: N(name + "_type"), Kind: Class, Attrs: []*Attr{attr17(N("title"), P("String"))}}},
					Resources: []*Resource{{Name: N("root"), Methods: []*Method{{Name: N("do_new")}}}}}
				m.Services = append(m.Services, &Service{Name: N(name), Versions: []*Version{v}})
				m.Link()
			},
			must: []string{metricsFile, indexFile},
			may:  []string{"docs/root_resource.md"},
			adds: []string{"go/" + N(name).Joined() + "/client.go", "openapi/" + name + "/v1/openapi.json", "docs/" + name + "_type_type.md"},
			dirs: []string{"go/" + N(name).Joined() + "/"},
		})
	}
	for _, s := range m.Services {
		for _, name := range [][]string{{"v0", "v1_beta", "v9"}, {"v0_beta", "v1_other", "v9_beta"}}[step] {
			add(&change{
				label: fmt.Sprintf("version %s of %s", name, s.Name),
				apply: func() {
					v := &Version{Name: N(name), Types: []*Type{{Name: N("other_" + name), Kind: Enum, Values: []*Value{{Name: N("one")}}}},
						Resources: []*Resource{{Name: N("root"), Methods: []*Method{{Name: N("do_new")}}}}, Errors: []*Error{{Name: N("one"), Code: 1}}}
					s.Versions = append(s.Versions, v)
					m.Link()
				},
				must: []string{metricsFile, indexFile, "go/" + s.Name.Joined() + "/client.go"},
				may:  []string{"docs/root_resource.md"},
				adds: []string{"openapi/" + s.Name.Snake() + "/" + name + "/openapi.json", "docs/" + N("other_"+name).Snake() + "_type.md"},
				dirs: []string{"go/" + s.Name.Joined() + "/" + N(name).Joined() + "/"},
			})
		}
		for _, v := range s.Versions {
			list = append(list, versionChanges(m, v, step)...)
		}
	}

	// Pages of things of different versions with the same name replace each other:
	count := map[string]int{}
	for _, s := range m.Services {
		for _, v := range s.Versions {
			for _, t := range v.Types {
				count[typePage(t)]++
			}
			for _, r := range v.Resources {
				count[resourcePage(r)]++
			}
		}
	}
	for _, x := range list {
		var must []string
		for _, name := range x.must {
			if count[name] > 1 {
				x.may = append(x.may, name)
			} else {
				must = append(must, name)
			}
		}
		x.must = must
	}
	return list
}

func hasAttr(t *Type, name Name) bool {
	for _, a := range t.Attrs {
		if a.Name.Snake() == name.Snake() {
			return true
		}
	}
	return false
}

// hasMember checks if the resource has a method or a locator with the given name.
func hasMember(r *Resource, name string) bool {
	for _, m := range r.Methods {
		if m.Name.Snake() == name {
			return true
		}
	}
	for _, l := range r.Locators {
		if l.Name.Snake() == name {
			return true
		}
	}
	return false
}

func versionChanges(m *Model, v *Version, step int) []*change {
	var list []*change
	add := func(x *change) {
		x.version = v
		x.label = v.Key() + ": " + x.label
		list = append(list, x)
	}
	pkg := "go/" + goDir(v) + "/"

	// Other versions that use the types of this one, directly or not:
	used := func(t *Type) (files []string, others bool) {
		for _, s := range m.Services {
			for _, o := range s.Versions {
				if o == v {
					continue
				}
				uses := false
				for _, x := range o.Types {
					if x.Ann.Ref != "" {
						uses = true
					}
					for _, a := range x.Attrs {
						if a.Owner != nil {
							uses = true
						}
					}
				}
				if uses {
					others = true
					files = append(files, typeFiles(o, t)...)
					files = append(files, specFiles(o)...)
				}
			}
		}
		return
	}

	// Types:
	for i, kind := range []TypeKind{Enum, Struct, Class} {
		for _, name := range positions[step] {
			t := &Type{Name: N(name + "_type"), Kind: kind}
			if kind == Enum {
				t.Values = []*Value{{Name: N("one")}}
			} else {
				t.Attrs = []*Attr{attr17(N("title"), P("String")), attr17(N("colors"), P("hue"))}
			}
			base := pkg + t.Name.Snake()
			x := &change{
				label:   fmt.Sprintf("type %s of kind %d", name, i),
				apply:   func() { v.Types = append(v.Types, t) },
				must:    append(specFiles(v), indexFile),
				adds:    append(typeFiles(v, t), typePage(t)),
				schemas: []string{t.Name.Public()},
				dirs:    []string{base + "_list_"},
			}
			add(x)
		}
	}
	for _, t := range v.Types {
		if t.Ann.Ref != "" || t.Brought {
			continue
		}
		var schemas []string
		schemas = append(schemas, t.Name.Public())
		others, linked := used(t)
		member := func(x *change) {
			x.must = append(x.must, append(specFiles(v), typePage(t))...)
			x.may = append(x.may, others...)
			x.schemas = schemas
			x.others = linked
			add(x)
		}
		for _, name := range positions[step] {
			if t.Kind == Enum {
				member(&change{
					label: fmt.Sprintf("value %s of %s", name, t.Name),
					apply: func() { t.Values = append(t.Values, &Value{Name: N(name)}) },
					must:  typeFiles(v, t),
				})
				continue
			}
			for _, elem := range []string{"Integer", "Date", "hue"} {
				for s, shape := range shapes {
					x := &change{
						label: fmt.Sprintf("attribute %s of %s: %s of %s", name, t.Name, shapeNames[s], elem),
						apply: func() { t.Attrs = append(t.Attrs, attr17(N(name), shape(elem))) },
						must:  typeFiles(v, t),
						texts: map[string]string{typeFiles(v, t)[0]: N(name).Public(), typeFiles(v, t)[1]: N(name).Public(), typeFiles(v, t)[2]: `"` + name + `"`, specFiles(v)[1]: `"` + name + `"`},
					}
					if shape(elem).Shape == List {
						x.dirs = []string{listFile(v, elem)}
					}
					member(x)
				}
			}
		}
		// Members with the same name as those of other types, but with a different name in the documents:
		for _, o := range v.Types {
			if o == t {
				continue
			}
			if t.Kind == Enum {
				continue
			}
			for _, a := range o.Attrs {
				if hasAttr(t, a.Name) {
					continue
				}
				for _, ref := range []Ref{P("Integer"), a.Type} {
					x := &change{
						label: fmt.Sprintf("annotated attribute %s of %s: %v", a.Name, t.Name, ref),
						apply: func() {
							t.Attrs = append(t.Attrs, &Attr{Name: a.Name, Type: ref, Ann: Ann{JSON: "changed", Go: "Changed"}})
						},
						must:  typeFiles(v, t),
						texts: map[string]string{typeFiles(v, t)[0]: "Changed", typeFiles(v, t)[1]: "Changed", typeFiles(v, t)[2]: `"changed"`, specFiles(v)[1]: `"changed"`},
					}
					if ref.Shape == List {
						x.dirs = []string{listFile(v, ref.Elem)}
					}
					member(x)
				}
			}
		}
		if t.Kind != Enum {
			member(&change{
				label: fmt.Sprintf("documented attribute of %s", t.Name),
				apply: func() {
					t.Attrs = append(t.Attrs, &Attr{Name: N(positions[step][1] + "_doc"), Type: P("String"), Doc: "New documentation."})
				},
				must: typeFiles(v, t),
			})
			for i, a := range t.Attrs {
				if a.Doc == "" {
					member(&change{
						label: fmt.Sprintf("documentation of attribute %s of %s", a.Name, t.Name),
						apply: func() { t.Attrs[i].Doc = "New documentation." },
						must:  typeFiles(v, t)[:1],
						may:   typeFiles(v, t)[1:],
					})
				}
			}
		}
		if t.Doc == "" {
			// The documentation of the type is also part of the comments of the builders that use it:
			x := &change{
				label: fmt.Sprintf("documentation of type %s", t.Name),
				apply: func() { t.Doc = "New documentation." },
				may:   append([]string{indexFile}, typeFiles(v, t)...),
			}
			for _, o := range v.Types {
				if o.Kind != Enum && o != t {
					x.may = append(x.may, pkg+o.Name.Snake()+"_builder.go")
				}
			}
			member(x)
		}
	}

	// Resources:
	for _, r := range v.Resources {
		page := resourcePage(r)
		client, json := resourceFiles(v, r)[0], resourceFiles(v, r)[1]
		member := func(x *change) {
			x.must = append(x.must, client)
			if !strings.HasPrefix(x.label, "locator") && !strings.HasPrefix(x.label, "resource") {
				x.must = append(x.must, page)
			} else {
				x.may = append(x.may, page)
			}
			x.label = fmt.Sprintf("%s of %s", x.label, r.Name)
			add(x)
		}
		for _, name := range positions[step] {
			member(&change{
				label: "method " + name,
				apply: func() {
					r.Methods = append(r.Methods, &Method{Name: N(name), Params: []*Param{
						param(N("one"), P("String"), true, true), param(N("other"), P("hue"), true, false),
					}})
				},
				must: append(specFiles(v), json),
				may:  []string{metricsFile},
			})
			if r.Name.Snake() != "zz_last" {
				member(&change{
					label: "locator " + name,
					apply: func() {
						r.Locators = append(r.Locators, &Locator{Name: N(name), Target: "zz_last"})
					},
					must: append(specFiles(v), metricsFile),
				})
			}
			member(&change{
				label: "resource " + name,
				apply: func() {
					r.Locators = append(r.Locators, &Locator{Name: N("to_" + name), Target: name})
					v.Resources = append(v.Resources, &Resource{Name: N(name), Methods: []*Method{{Name: N("get"), Params: []*Param{param(N("body"), P("big_thing"), false, true)}}}})
				},
				must: append(specFiles(v), metricsFile, indexFile),
				may:  []string{page},
				adds: append(resourceFiles(v, &Resource{Name: N(name)}), "docs/"+name+"_resource.md"),
			})
		}
		for _, name := range []string{"act", "zap"} {
			if hasMember(r, name) {
				continue
			}
			member(&change{
				label: "annotated method " + name,
				apply: func() {
					r.Methods = append(r.Methods, &Method{Name: N(name), Ann: Ann{HTTP: "changed"}, Params: []*Param{
						{Name: N("zeta"), Type: P("Integer"), In: true, Ann: Ann{JSON: "changed"}}, param(N("middle"), P("hue"), true, true),
					}})
				},
				must:  append(specFiles(v), json, metricsFile),
				texts: map[string]string{client: `"changed"`, json: `"changed"`, metricsFile: `"changed"`, specFiles(v)[1]: `/changed"`},
			})
		}
		for _, name := range []string{"zoo", "mine"} {
			if hasMember(r, name) || r.Name.Snake() == "zz_last" {
				continue
			}
			member(&change{
				label: "locator annotated " + name,
				apply: func() {
					r.Locators = append(r.Locators, &Locator{Name: N(name), Target: "zz_last", Ann: Ann{HTTP: "changed"}})
				},
				must:  append(specFiles(v), metricsFile),
				texts: map[string]string{client: `"changed"`, metricsFile: `"changed"`, specFiles(v)[1]: `/changed"`},
			})
		}
		if r.Name.Snake() == "leaves" {
			// A method with query parameters that have the same names than those of other method:
			for _, annotation := range []Ann{{}, {HTTP: "changed"}, {JSON: "changed"}} {
				member(&change{
					label: fmt.Sprintf("method with query parameters with annotations %v", annotation),
					apply: func() {
						r.Methods = append(r.Methods, &Method{Name: N("add"), Params: []*Param{
							param(N("body"), P("leaf"), true, true), {Name: N("size"), Type: P("Integer"), In: true, Ann: annotation}, {Name: N("page"), Type: P("String"), In: true, Ann: annotation},
						}})
					},
					must: append(specFiles(v), json),
					may:  []string{metricsFile},
				})
			}
		}
		for _, method := range r.Methods {
			operation := " get"
			if method.IsAction() {
				operation = "/" + method.Name.Snake() + " post"
			}
			if method.Doc == "" {
				member(&change{
					operation: operation,
					label:     fmt.Sprintf("documentation of method %s", method.Name),
					apply:     func() { method.Doc = "New documentation." },
					must:      specFiles(v),
				})
			}
			for _, name := range positions[step] {
				if !method.IsAction() {
					continue
				}
				for _, elem := range []string{"String", "big_thing"} {
					x := &change{
						operation: operation,
						label:     fmt.Sprintf("parameter %s (%s) of method %s", name, elem, method.Name),
						apply:     func() { method.Params = append(method.Params, param(N(name), P(elem), true, true)) },
						must:      append(specFiles(v), json),
						may:       []string{metricsFile},
					}
					member(x)
				}
			}
		}
		if r.Doc == "" {
			member(&change{
				label: "documentation",
				apply: func() { r.Doc = "New documentation." },
				may:   append([]string{indexFile}, specFiles(v)...),
			})
		}
	}

	// Errors:
	for _, name := range positions[step] {
		add(&change{
			label: "error " + name,
			apply: func() { v.Errors = append(v.Errors, &Error{Name: N(name), Code: 77 + step}) },
			dirs:  []string{pkg + "errors.go"},
			may:   append(specFiles(v), pkg+"errors.go"),
		})
	}
	return list
}

// goImports matches the import declarations, which are removed because the formatter calculates them again.
var goImports = regexp.MustCompile(`(?m)^import \((?s:.*?)^\)$`)

// blankLines matches groups of blank lines, as their number isn't relevant in the documentation.
var blankLines = regexp.MustCompile(`\n\s*\n`)

// everything returns the outputs of a model.
func (e *Env) everything(m *Model) (Files, string) {
	result := Files{}
	for _, kind := range []string{"go", "openapi", "docs"} {
		files, problem := e.generateFor(kind, m)
		if problem != "" {
			return nil, problem
		}
		for name, text := range files {
			switch kind {
			case "go":
				text = goImports.ReplaceAllString(text, "")
			case "docs":
				text = blankLines.ReplaceAllString(text, "\n")
			}
			result[kind+"/"+filepath.ToSlash(name)] = text
		}
	}
	return result, ""
}

// sameText compares the content of two files.
func sameText(name, x, y string) bool {
	if x == y || !strings.HasSuffix(name, ".go") {
		return x == y
	}
	f, err := format.Source([]byte(x))
	g, problem := format.Source([]byte(y))
	return err == nil && problem == nil && string(f) == string(g)
}

// checkChange verifies the differences between the outputs before and after the change.
func checkChange(c *engine.Ctx, x *change, before, after Files) {
	allowed := map[string]bool{}
	for _, name := range append(append([]string{}, x.may...), x.must...) {
		allowed[name] = true
	}
	within := func(name string) bool {
		for _, dir := range x.dirs {
			if strings.HasPrefix(name, dir) {
				return true
			}
		}
		return false
	}
	expected := map[string]bool{}
	for _, name := range x.adds {
		expected[name] = true
		_, ok := after[name]
		c.Check(ok, "%s: file '%s' isn't generated", x.label, name)
	}
	for _, name := range before.names() {
		text, ok := after[name]
		c.Check(ok, "%s: file '%s' isn't generated any more", x.label, name)
		if !allowed[name] && !sameText(name, before[name], text) {
			c.Fail("%s: file '%s' is different: %s", x.label, name, tail(Diff(strings.Split(text, "\n"), strings.Split(before[name], "\n")), 600))
		}
	}
	for _, name := range after.names() {
		if _, ok := before[name]; !ok {
			c.Check(expected[name] || allowed[name] || within(name), "%s: file '%s' is generated", x.label, name)
		}
	}
	for name, text := range x.texts {
		c.Check(strings.Contains(after[name], text), "%s: '%s' isn't in file '%s'", x.label, text, name)
	}
	for _, name := range x.must {
		c.Check(before[name] != after[name], "%s: file '%s' doesn't change", x.label, name)
	}

	// Specifications:
	for _, name := range before.names() {
		if !strings.HasSuffix(name, "openapi.json") || before[name] == after[name] {
			continue
		}
		own := x.version != nil && name == specFiles(x.version)[1]
		if !own && x.others {
			continue
		}
		a, err := jsonx.Decode([]byte(before[name]))
		c.Check(err == nil, "%s: '%s': %v", x.label, name, err)
		b, err := jsonx.Decode([]byte(after[name]))
		c.Check(err == nil, "%s: '%s': %v", x.label, name, err)
		old, current := flatten(a), flatten(b)
		for key, text := range old {
			if current[key] == text {
				continue
			}
			parts := strings.SplitN(key, " ", 2)
			free := parts[0] == "paths" && x.operation != "" && strings.HasSuffix(key, x.operation)
			for _, schema := range x.schemas {
				free = free || key == "schemas "+schema
			}
			c.Check(free, "%s: '%s' of '%s' is different", x.label, key, name)
		}
	}
}

// flatten returns the parts of the specification.
func flatten(x any) map[string]string {
	result := map[string]string{}
	doc, _ := x.(*jsonx.Object)
	if doc == nil {
		return result
	}
	for _, key := range doc.Keys {
		o, _ := doc.Get(key).(*jsonx.Object)
		switch {
		case key == "paths" && o != nil:
			for _, path := range o.Keys {
				methods := o.Obj(path)
				if methods == nil {
					result["paths "+path] = jsonx.Canon(o.Get(path))
					continue
				}
				for _, verb := range methods.Keys {
					result["paths "+path+" "+verb] = jsonx.Canon(methods.Get(verb))
				}
			}
		case key == "components" && o != nil:
			for _, k := range o.Keys {
				group, _ := o.Get(k).(*jsonx.Object)
				if k != "schemas" || group == nil {
					result["components "+k] = jsonx.Canon(o.Get(k))
					continue
				}
				for _, name := range group.Keys {
					result["schemas "+name] = jsonx.Canon(group.Get(name))
				}
			}
		default:
			result[key] = jsonx.Canon(doc.Get(key))
		}
	}
	return result
}

// extensibleModel is a model with several services and versions, whose pages have different names.
func extensibleModel() *Model {
	prefix := func(p string) *Version {
		v := plainModel()
		v.Types[1].Name = N("big_thing")
		v.Types = append(v.Types, &Type{Name: N(p + "_extra"), Kind: Struct, Attrs: []*Attr{
			attr17(N("things"), L("big_thing")), {Name: N("own"), Type: L("big_thing"), Link: true}, attr17(N("dates"), L("Date")), attr17(N("by_hue"), M("hue")),
		}})
		v.Resources = append(v.Resources, &Resource{Name: N("zz_last"), Methods: []*Method{{Name: N("get"), Params: []*Param{param(N("body"), P(p+"_extra"), false, true)}}}})
		v.Resources[1].Locators = append(v.Resources[1].Locators, &Locator{Name: N("last"), Target: "zz_last", Variable: true})
		return v
	}
	one, two, three := prefix("one"), prefix("two"), prefix("three")
	two.Name = N("v2")
	three.Name = N("v1")
	m := &Model{Services: []*Service{
		{Name: N("first_mgmt"), Versions: []*Version{one, two}},
		{Name: N("second"), Versions: []*Version{three}},
	}}
	return m.Link()
}

// singleModel has only one version.
func singleModel() *Model {
	m := extensibleModel()
	m.Services = m.Services[:1]
	m.Services[0].Versions = m.Services[0].Versions[:1]
	return m.Link()
}

func init() {
	bases := []struct {
		name string
		make func() *Model
	}{
		{"one version", singleModel},
		{"several services and versions", extensibleModel},
	}
	properties["P31"] = &Property{
		Sharded: true,
		Rule:    "one execution per history of one or two extensions of a model; the real reader and all the generators run inside the process before and after the last extension, and the differences of the outputs are compared with those that the extension may and has to produce; outcomes are distinct extensions",
		Assumptions: []string{
			"Go sources are compared without their import declarations and after formatting them, as the formatter changes them in the last step",
			"the page of the root resource is checked only in models with one version, because the pages of all the versions go to the same directory",
		},
		Run: func(env *Env, r *engine.Report) {
			for _, base := range bases {
				var before Files
				r.Explore("extensions of a model with "+base.name, "all the extensions: services, versions, types, attributes, values, resources, locators, methods, parameters, errors and documentation, in all the places, sorted before, between or after the others", func(c *engine.Ctx) {
					if before == nil {
						files, problem := env.everything(base.make())
						c.Check(problem == "", "%s", problem)
						before = files
					}
					m := base.make()
					list := changes(m, 0)
					x := list[c.Choose("extension", len(list))]
					c.Commit()
					x.apply()
					after, problem := env.everything(m)
					c.Check(problem == "", "%s: %s", x.label, problem)
					checkChange(c, x, before, after)
					c.Outcome(x.label)
				})
			}
			if !r.Thorough() {
				return
			}
			cache := map[int]Files{}
			r.Explore("two extensions", "all the pairs of extensions of the model with one version", func(c *engine.Ctx) {
				m := singleModel()
				list := changes(m, 0)
				first := c.Choose("first", len(list))
				list[first].apply()
				m.Link()
				label := list[first].label
				list = changes(m, 1)
				x := list[c.Choose("second", len(list))]
				c.Commit()
				before := cache[first]
				if before == nil {
					files, problem := env.everything(m)
					c.Check(problem == "", "%s: %s", label, problem)
					cache = map[int]Files{first: files}
					before = files
				}
				x.apply()
				x.label = label + ", and then " + x.label
				after, problem := env.everything(m)
				c.Check(problem == "", "%s: %s", x.label, problem)
				checkChange(c, x, before, after)
				c.Outcome(x.label)
			})
		},
	}
}
