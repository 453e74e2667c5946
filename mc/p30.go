package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"

	"verif/lib/engine"
	"verif/lib/models"
	. "verif/lib/spec"
)

// goDecl is an exported declaration of a generated package: its signature and its documentation.
type goDecl struct {
	sig, doc string
}

// goExpr returns the text of a type, with the complete import paths instead of the selectors.
func goExpr(e ast.Expr, imports map[string]string) string {
	switch x := e.(type) {
	case *ast.Ident:
		if x.Name == "any" {
			return "interface{}"
		}
		return x.Name
	case *ast.StarExpr:
		return "*" + goExpr(x.X, imports)
	case *ast.ParenExpr:
		return goExpr(x.X, imports)
	case *ast.SelectorExpr:
		if id, ok := x.X.(*ast.Ident); ok {
			if path, ok := imports[id.Name]; ok {
				return path + "." + x.Sel.Name
			}
		}
		return goExpr(x.X, imports) + "." + x.Sel.Name
	case *ast.ArrayType:
		if x.Len == nil {
			return "[]" + goExpr(x.Elt, imports)
		}
		return "[n]" + goExpr(x.Elt, imports)
	case *ast.MapType:
		return "map[" + goExpr(x.Key, imports) + "]" + goExpr(x.Value, imports)
	case *ast.Ellipsis:
		return "..." + goExpr(x.Elt, imports)
	case *ast.InterfaceType:
		if len(x.Methods.List) == 0 {
			return "interface{}"
		}
		return "interface"
	case *ast.StructType:
		return "struct"
	case *ast.FuncType:
		return "func" + goSignature(x, imports)
	}
	return fmt.Sprintf("%T", e)
}

func goFields(list *ast.FieldList, imports map[string]string) string {
	var r []string
	if list != nil {
		for _, f := range list.List {
			n := len(f.Names)
			if n == 0 {
				n = 1
			}
			for i := 0; i < n; i++ {
				r = append(r, goExpr(f.Type, imports))
			}
		}
	}
	return "(" + strings.Join(r, ", ") + ")"
}

func goSignature(f *ast.FuncType, imports map[string]string) string {
	return goFields(f.Params, imports) + goFields(f.Results, imports)
}

// goPackage returns the exported declarations of the package in the directory. Functions that use the types
// of the JSON library are not included, they are only for other generated packages.
func goPackage(dir string) (decls map[string]goDecl, problem string) {
	decls = map[string]goDecl{}
	files, err := filepath.Glob(filepath.Join(dir, "*.go"))
	must(err)
	add := func(name, sig string, docs ...*ast.CommentGroup) {
		if _, ok := decls[name]; ok {
			problem = "declaration of " + name + " is repeated"
		}
		text := ""
		for _, doc := range docs {
			text += doc.Text() + "\n"
		}
		decls[name] = goDecl{sig, text}
	}
	set := token.NewFileSet()
	for _, file := range files {
		tree, err := parser.ParseFile(set, file, nil, parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			return nil, fmt.Sprintf("file %s can't be parsed: %v", filepath.Base(file), err)
		}
		imports := map[string]string{}
		for _, x := range tree.Imports {
			path, _ := strconv.Unquote(x.Path.Value)
			name := path[strings.LastIndex(path, "/")+1:]
			if x.Name != nil {
				name = x.Name.Name
			}
			imports[name] = path
		}
		for _, d := range tree.Decls {
			switch x := d.(type) {
			case *ast.FuncDecl:
				sig := goSignature(x.Type, imports)
				if !x.Name.IsExported() || strings.Contains(sig, "jsoniter") || strings.Contains(sig, "json-iterator") {
					continue
				}
				name := x.Name.Name
				if x.Recv != nil {
					recv := strings.TrimPrefix(goExpr(x.Recv.List[0].Type, imports), "*")
					if !ast.IsExported(recv) {
						continue
					}
					name = recv + "." + name
				}
				add(name, "func"+sig, x.Doc)
			case *ast.GenDecl:
				for _, s := range x.Specs {
					switch y := s.(type) {
					case *ast.TypeSpec:
						if y.Name.IsExported() {
							sig := "type " + goExpr(y.Type, imports)
							if y.Assign != 0 {
								sig = "type = " + goExpr(y.Type, imports)
							}
							add(y.Name.Name, sig, x.Doc, y.Doc)
						}
					case *ast.ValueSpec:
						for i, n := range y.Names {
							if !n.IsExported() {
								continue
							}
							sig := x.Tok.String()
							if y.Type != nil {
								sig += " " + goExpr(y.Type, imports)
							}
							if x.Tok == token.CONST && i < len(y.Values) {
								switch v := y.Values[i].(type) {
								case *ast.BasicLit:
									text := v.Value
									if v.Kind == token.STRING {
										s, _ := strconv.Unquote(v.Value)
										text = strconv.Quote(s)
									}
									sig += " " + text
								default:
									sig += fmt.Sprintf(" %T", v)
								}
							}
							add(n.Name, sig, y.Doc)
						}
					}
				}
			}
		}
	}
	return
}

var goBuiltins = map[string]string{
	"Boolean": "bool", "Integer": "int", "Long": "int64", "Float": "float64", "String": "string", "Date": "time.Time", "Interface": "interface{}",
}

// wantPackage returns the declarations that the package generated for the version should export.
func wantPackage(v *Version) map[string]goDecl {
	decls := map[string]goDecl{}
	add := func(name, sig string, docs ...string) { decls[name] = goDecl{sig, strings.Join(docs, "\n")} }
	const anyType = "interface{}"
	// elem returns the Go type of the elements:
	elem := func(owner *Version, name string) string {
		if text, ok := goBuiltins[name]; ok {
			return text
		}
		t := owner.Type(name)
		text := t.GoName()
		if owner != v {
			text = goPath(owner) + "." + text
		}
		if t.Kind != Enum {
			text = "*" + text
		}
		return text
	}
	ref := func(owner *Version, r Ref) string {
		switch r.Shape {
		case List:
			return "[]" + elem(owner, r.Elem)
		case Map:
			return "map[string]" + elem(owner, r.Elem)
		}
		return elem(owner, r.Elem)
	}
	codec := func(name, typ string) {
		add("Marshal"+name, "func("+typ+", io.Writer)(error)")
		add("Unmarshal"+name, "func("+anyType+")("+typ+", error)")
	}
	// Things that don't depend on the model:
	add("OpenAPI", "var")
	add("Metadata", "type struct")
	add("Metadata.ServerVersion", "func()(string)")
	add("Metadata.GetServerVersion", "func()(string, bool)")
	codec("Metadata", "*Metadata")
	common := func(req, resp string) {
		add(req, "type struct")
		add(req+".Parameter", "func(string, "+anyType+")(*"+req+")")
		add(req+".Header", "func(string, "+anyType+")(*"+req+")")
		add(resp, "type struct")
		add(resp+".Status", "func()(int)")
		add(resp+".Header", "func()(net/http.Header)")
		add(resp+".Error", "func()(*"+Base+"/errors.Error)")
	}
	sends := func(req, resp string) {
		add(req+".Send", "func()(*"+resp+", error)")
		add(req+".SendContext", "func(context.Context)(*"+resp+", error)")
	}
	common("MetadataRequest", "MetadataResponse")
	sends("MetadataRequest", "MetadataResponse")
	add("MetadataResponse.Body", "func()(*Metadata)")

	// Types:
	for _, e := range Builtins {
		codec(e+"List", "[]"+goBuiltins[e])
	}
	for _, t := range v.Types {
		g := t.GoName()
		// Functions for lists use the name of the type in the model:
		codec(t.Name.Public()+"List", "[]"+elem(v, t.Name.String()))
		if t.Kind == Enum {
			add(g, "type string")
			for _, x := range t.Values {
				name := x.Ann.Go
				if name == "" {
					name = x.Name.Public()
				}
				add(g+name, "const "+g+" "+strconv.Quote(x.JSONName()), x.Doc)
			}
			continue
		}
		b, l := g+"Builder", g+"List"
		lb := l + "Builder"
		kinds := []string{"List"}
		add(g, "type struct", t.Doc)
		add(g+".Empty", "func()(bool)")
		add("New"+g, "func()(*"+b+")")
		add(b, "type struct", t.Doc)
		add(b+".Empty", "func()(bool)")
		add(b+".Build", "func()(*"+g+", error)")
		add(b+".Copy", "func(*"+g+")(*"+b+")")
		codec(g, "*"+g)
		if t.Kind == Class {
			kinds = append(kinds, "")
			add(g+".Kind", "func()(string)")
			for _, name := range []string{"ID", "HREF"} {
				add(g+"."+name, "func()(string)")
				add(g+".Get"+name, "func()(string, bool)")
				add(b+"."+name, "func(string)(*"+b+")")
			}
			add(g+".Link", "func()(bool)")
			add(b+".Link", "func(bool)(*"+b+")")
		}
		for _, kind := range kinds {
			for _, suffix := range []string{"", "Link", "Nil"} {
				add(g+kind+suffix+"Kind", "const "+strconv.Quote(g+kind+suffix))
			}
		}
		for _, a := range t.Attrs {
			owner := a.In(v)
			get, set := ref(owner, a.Type), ref(owner, a.Type)
			if !IsBuiltin(a.Type.Elem) && owner.Type(a.Type.Elem).Kind != Enum {
				list := strings.TrimPrefix(elem(owner, a.Type.Elem), "*") + "List"
				set += "Builder"
				if a.Type.Shape == List && a.Link {
					get, set = "*"+list, "*"+list+"Builder"
				} else if a.Type.Shape == List {
					set = "..." + strings.TrimPrefix(set, "[]")
				}
			} else if a.Type.Shape == List {
				set = "..." + strings.TrimPrefix(set, "[]")
			}
			add(g+"."+a.GoName(), "func()("+get+")", a.Doc)
			add(g+".Get"+a.GoName(), "func()("+get+", bool)", a.Doc)
			add(b+"."+a.GoName(), "func("+set+")(*"+b+")")
		}
		// Lists:
		add(l, "type struct")
		if t.Kind == Class {
			add(l+".Kind", "func()(string)")
			add(l+".Link", "func()(bool)")
			add(l+".HREF", "func()(string)")
			add(l+".GetHREF", "func()(string, bool)")
		}
		add(l+".SetLink", "func(bool)()")
		add(l+".SetHREF", "func(string)()")
		add(l+".SetItems", "func([]*"+g+")()")
		add(l+".Items", "func()([]*"+g+")")
		add(l+".Slice", "func()([]*"+g+")")
		add(l+".Len", "func()(int)")
		add(l+".Empty", "func()(bool)")
		add(l+".Get", "func(int)(*"+g+")")
		add(l+".Each", "func(func(*"+g+")(bool))()")
		add(l+".Range", "func(func(int, *"+g+")(bool))()")
		add("New"+l, "func()(*"+lb+")")
		add(lb, "type struct")
		add(lb+".Empty", "func()(bool)")
		add(lb+".Build", "func()(*"+l+", error)")
		add(lb+".Copy", "func(*"+l+")(*"+lb+")")
		add(lb+".Items", "func(...*"+b+")(*"+lb+")")
	}

	// Errors:
	for _, x := range v.Errors {
		add(x.Name.Public()+"Error", fmt.Sprintf("const %d", x.Code), x.Doc)
	}

	// Resources:
	prefix := func(r *Resource) string {
		if r == v.Root() {
			return ""
		}
		if r.Ann.Go != "" {
			return r.Ann.Go
		}
		return r.Name.Public()
	}
	for _, r := range v.Resources {
		client := prefix(r) + "Client"
		add(client, "type struct", r.Doc)
		add("New"+client, "func(net/http.RoundTripper, string)(*"+client+")")
		if r == v.Root() {
			add(client+".Get", "func()(*MetadataRequest)")
		}
		for _, l := range r.Locators {
			arg := ""
			if l.Variable {
				arg = "string"
			}
			add(client+"."+l.GoName(), "func("+arg+")(*"+prefix(v.Resource(l.Target))+"Client)", l.Doc)
		}
		for _, m := range r.Methods {
			req, resp := prefix(r)+m.GoName()+"Request", prefix(r)+m.GoName()+"Response"
			add(client+"."+m.GoName(), "func()(*"+req+")", m.Doc)
			common(req, resp)
			sends(req, resp)
			add(req+".Impersonate", "func(string)(*"+req+")")
			typ := func(p *Param) string {
				if p.Type.Shape == List && p.Name.String() == "items" && !v.IsScalarElem(p.Type.Elem) && (m.Name.String() == "list" || m.Name.String() == "search") {
					return "*" + v.Type(p.Type.Elem).GoName() + "List"
				}
				return ref(v, p.Type)
			}
			getters := func(resp string) {
				for _, p := range m.Out() {
					name := p.GoName()
					if name == "Status" || name == "Error" {
						name += "_"
					}
					add(resp+"."+name, "func()("+typ(p)+")", p.Doc)
					add(resp+".Get"+name, "func()("+typ(p)+", bool)", p.Doc)
				}
			}
			setters := func(req string) {
				for _, p := range m.In() {
					add(req+"."+p.GoName(), "func("+typ(p)+")(*"+req+")", p.Doc)
				}
			}
			setters(req)
			getters(resp)
			if m.Name.String() == "get" {
				poll, polled := prefix(r)+"PollRequest", prefix(r)+"PollResponse"
				add(client+".Poll", "func()(*"+poll+")")
				common(poll, polled)
				add(poll+".Interval", "func(time.Duration)(*"+poll+")")
				add(poll+".Status", "func(int)(*"+poll+")")
				add(poll+".Predicate", "func(func(*"+resp+")(bool))(*"+poll+")")
				add(poll+".StartContext", "func(context.Context)(*"+polled+", error)")
				setters(poll)
				getters(polled)
			}
		}
	}
	return decls
}

// goPath is the import path of the package of a version.
func goPath(v *Version) string {
	return Base + "/" + v.Service.Name.Joined() + "/" + v.Name.Joined()
}

// wantService returns the declarations that the package generated for the service should export.
func wantService(s *Service) map[string]goDecl {
	decls := map[string]goDecl{
		"Client":    {"type struct", ""},
		"NewClient": {"func(net/http.RoundTripper, string)(*Client)", ""},
	}
	for _, v := range s.Versions {
		decls["Client."+v.Name.Public()] = goDecl{"func()(*" + goPath(v) + ".Client)", ""}
	}
	return decls
}

var digits = regexp.MustCompile(`_(\d)`)

// marks are the parts of the documentation that identify it.
var marks = regexp.MustCompile(`(Text|line|paragraph) \d+ of the`)

// compareDecls compares the declarations of a package with the expected ones, and returns a description of
// the differences.
func compareDecls(got, want map[string]goDecl) string {
	var problems []string
	for name, w := range want {
		g, ok := got[name]
		if !ok {
			problems = append(problems, name+" isn't declared, should be "+w.sig)
			continue
		}
		// Names that contain digits are split before them, that isn't relevant here:
		if digits.ReplaceAllString(g.sig, "$1") != digits.ReplaceAllString(w.sig, "$1") {
			problems = append(problems, name+" is "+g.sig+", should be "+w.sig)
		}
		text := " " + strings.Join(strings.Fields(g.doc), " ") + " "
		if doc := strings.Join(strings.Fields(w.doc), " "); doc != "" && !strings.Contains(text, " "+doc+" ") {
			problems = append(problems, fmt.Sprintf("documentation of %s is %q, should contain %q", name, g.doc, w.doc))
		}
	}
	// No declaration has the documentation of others:
	for name, w := range want {
		if w.doc == "" {
			continue
		}
		if g, w := marks.FindAllString(got[name].doc, -1), marks.FindAllString(w.doc, -1); len(g) > 0 && fmt.Sprint(g) != fmt.Sprint(w) {
			problems = append(problems, fmt.Sprintf("documentation of %s is %q", name, got[name].doc))
		}
	}
	for name, g := range got {
		if _, ok := want[name]; !ok {
			problems = append(problems, name+" is declared as "+g.sig+", but isn't in the model")
		}
	}
	sort.Strings(problems)
	if len(problems) > 8 {
		problems = problems[:8]
	}
	return strings.Join(problems, "\n")
}

// Interfaces generates the code of all the units, each in a different service, and compares the exported
// declarations with those expected. It returns the problems indexed by unit, and a general problem.
func (e *Env) Interfaces(units []*Unit) (problems map[int]string, decls map[int]int, general string) {
	problems, decls = map[int]string{}, map[int]int{}
	m := &Model{}
	for i, u := range units {
		m.Services = append(m.Services, &Service{Name: N(fmt.Sprintf("unit%04d", i)), Versions: []*Version{u.V}})
	}
	m.Link()
	dir, problem := e.GenerateGo(Files(m.Files()))
	defer os.RemoveAll(dir)
	if problem != "" {
		return nil, nil, problem
	}
	for i, s := range m.Services {
		problems[i], decls[i] = checkInterface(dir, s)
	}
	return
}

// checkInterface checks the packages of a service.
func checkInterface(dir string, s *Service) (problem string, count int) {
	check := func(path string, want map[string]goDecl) {
		got, p := goPackage(path)
		if p == "" {
			p = compareDecls(got, want)
		}
		if p != "" && problem == "" {
			problem = p
		}
		count += len(want)
	}
	check(filepath.Join(dir, s.Name.Joined()), wantService(s))
	for _, v := range s.Versions {
		check(filepath.Join(dir, s.Name.Joined(), v.Name.Joined()), wantPackage(v))
	}
	return
}

// withDocs adds documentation to everything in the version.
func withDocs(v *Version) *Version {
	n := 0
	doc := func(what string) string {
		n++
		switch n % 4 {
		case 0:
			return ""
		case 1:
			return fmt.Sprintf("Text %d of the %s.", n, what)
		case 2:
			return fmt.Sprintf("First line %d of the %s\nand the second one.", n, what)
		}
		return fmt.Sprintf("First paragraph %d of the %s.\n\nSecond paragraph, with {{ braces }}, 100%% %%s %%d, /* and */, $x, \"quotes\" and `backquotes`.", n, what)
	}
	for _, t := range v.Types {
		t.Doc = doc("type")
		for _, a := range t.Attrs {
			a.Doc = doc("attribute")
		}
		for _, x := range t.Values {
			x.Doc = doc("value")
		}
	}
	for _, r := range v.Resources {
		r.Doc = doc("resource")
		for _, l := range r.Locators {
			l.Doc = doc("locator")
		}
		for _, m := range r.Methods {
			m.Doc = doc("method")
			for _, p := range m.Params {
				p.Doc = doc("parameter")
			}
		}
	}
	for _, x := range v.Errors {
		x.Doc = doc("error")
	}
	return v
}

func init() {
	properties["P30"] = &Property{
		Rule: "one execution per unit (a service that uses a family of names or kinds of declarations); the exported declarations of all the packages generated for it (names, types of arguments and results, values of constants, documentation) are compared with those calculated from the description of the model; outcomes are the distinct units",
		Assumptions: []string{
			"names of the unit don't collide with those that are part of the public interface of the generated code",
			"documentation is compared without considering white space, because the Go formatter changes it",
			"functions that use types of the JSON library are only for other generated packages, so they aren't compared",
		},
		Run: func(env *Env, r *engine.Report) {
			env.BuildTool()
			thorough := env.Tier == "thorough"
			docs := kindUnits()
			for _, u := range docs {
				withDocs(u.V)
				u.Label += ", with documentation"
			}
			groups := []struct {
				name, bounds string
				units        []*Unit
			}{
				{"words", "all the words of the list in all the roles (attributes and parameters of all the kinds, types, resources, locators, methods, values, errors)", wordUnits(thorough)},
				{"kinds", "all the kinds of attributes, parameters and methods, all the subsets of declarations, all the annotations", kindUnits()},
				{"documentation", "the same with documentation of zero, one, two and three lines in all the declarations", docs},
				{"large models", "models with many things in each dimension", largeUnits(thorough)},
			}
			var wg sync.WaitGroup
			type outcome struct {
				problems map[int]string
				decls    map[int]int
				general  string
			}
			results := make([][]outcome, len(groups))
			const batch = 24
			slots := make(chan bool, 6)
			for g := range groups {
				units := groups[g].units
				results[g] = make([]outcome, (len(units)+batch-1)/batch)
				for b := range results[g] {
					wg.Add(1)
					go func() {
						defer wg.Done()
						slots <- true
						defer func() { <-slots }()
						p, d, general := env.Interfaces(units[b*batch : min(len(units), (b+1)*batch)])
						results[g][b] = outcome{p, d, general}
					}()
				}
			}
			full := models.All["Full"]()
			var fullProblem string
			fullResults := map[int]string{}
			wg.Add(1)
			go func() {
				defer wg.Done()
				dir, problem := env.GenerateGo(Files(full.Files()))
				defer os.RemoveAll(dir)
				if fullProblem = problem; problem == "" {
					for i, s := range full.Services {
						fullResults[i], _ = checkInterface(dir, s)
					}
				}
			}()
			wg.Wait()
			for g := range groups {
				r.Explore(groups[g].name, groups[g].bounds, func(c *engine.Ctx) {
					i := c.Choose("unit", len(groups[g].units))
					x := results[g][i/batch]
					label := groups[g].units[i].Label
					c.Check(x.general == "", "%s: %s", label, x.general)
					c.Check(x.problems[i%batch] == "", "interface generated for '%s' isn't correct: %s", label, x.problems[i%batch])
					c.Outcome(fmt.Sprint(label, x.decls[i%batch]))
				})
			}
			r.Explore("reference model", "all the services of the model used by the other checks", func(c *engine.Ctx) {
				i := c.Choose("service", len(full.Services))
				c.Check(fullProblem == "", "%s", fullProblem)
				c.Check(fullResults[i] == "", "interface generated for service '%s' isn't correct: %s", full.Services[i].Name, fullResults[i])
				c.Outcome(full.Services[i].Name.String())
			})
		},
	}
}
