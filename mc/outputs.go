package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"

	"github.com/openshift-online/ocm-api-metamodel/pkg/concepts"
	"github.com/openshift-online/ocm-api-metamodel/pkg/generators"
	"github.com/openshift-online/ocm-api-metamodel/pkg/generators/docs"
	"github.com/openshift-online/ocm-api-metamodel/pkg/generators/golang"
	"github.com/openshift-online/ocm-api-metamodel/pkg/generators/openapi"
	"github.com/openshift-online/ocm-api-metamodel/pkg/http"
	"github.com/openshift-online/ocm-api-metamodel/pkg/markdown"
	"github.com/openshift-online/ocm-api-metamodel/pkg/reporter"

	"verif/lib/jsonx"
	. "verif/lib/spec"
)

// generate runs the real generators of the given kind ("openapi", "docs", "metrics", "go-openapi" or "go", which is
// all the Go generators, without formatting what they generate) inside this process, in the same way that the command line tool does, and returns the generated files.
func (e *Env) generate(kind string, model *concepts.Model) (files Files, problem string) {
	dir := e.Dir()
	defer os.RemoveAll(dir)
	out := &bytes.Buffer{}
	defer func() {
		if x := recover(); x != nil {
			buf := make([]byte, 2500)
			n := runtime.Stack(buf, false)
			problem = fmt.Sprintf("the %s generator panicked: %v\n%s", kind, x, buf[:n])
		}
	}()
	rep, err := reporter.New().Streams(out, out).Build()
	must(err)
	binding, err := http.NewBindingCalculator().Reporter(rep).Build()
	must(err)
	openapiNames, err := openapi.NewNamesCalculator().Reporter(rep).Build()
	must(err)
	var gen generators.Generator
	var gens []generators.Generator
	add := func(gen generators.Generator, err error) {
		must(err)
		gens = append(gens, gen)
	}
	switch kind {
	case "openapi":
		gen, err = openapi.NewOpenAPIGenerator().Reporter(rep).Model(model).Output(dir).Names(openapiNames).Binding(binding).Build()
	case "docs":
		names, err := markdown.NewNamesCalculator().Reporter(rep).Build()
		must(err)
		gen, err = docs.NewDocsGenerator().Reporter(rep).Model(model).Output(dir).Names(names).Build()
		must(err)
	default:
		packages, err := golang.NewPackagesCalculator().Reporter(rep).Base(Base).Build()
		must(err)
		names, err := golang.NewNamesCalculator().Reporter(rep).Build()
		must(err)
		if kind == "go" {
			types, err := golang.NewTypesCalculator().Reporter(rep).Packages(packages).Names(names).Build()
			must(err)
			add(golang.NewErrorsGenerator().Reporter(rep).Model(model).Output(dir).Packages(packages).Names(names).Build())
			add(golang.NewHelpersGenerator().Reporter(rep).Model(model).Output(dir).Packages(packages).Names(names).Build())
			add(golang.NewTypesGenerator().Reporter(rep).Model(model).Output(dir).Packages(packages).Names(names).Types(types).Binding(binding).Build())
			add(golang.NewBuildersGenerator().Reporter(rep).Model(model).Output(dir).Packages(packages).Names(names).Types(types).Build())
			add(golang.NewClientsGenerator().Reporter(rep).Model(model).Output(dir).Packages(packages).Names(names).Types(types).Binding(binding).Build())
			add(golang.NewJSONSupportGenerator().Reporter(rep).Model(model).Output(dir).Packages(packages).Names(names).Types(types).Binding(binding).Build())
			add(golang.NewMetricsSupportGenerator().Reporter(rep).Model(model).Output(dir).Packages(packages).Names(names).Binding(binding).Build())
		}
		if kind == "metrics" {
			gen, err = golang.NewMetricsSupportGenerator().Reporter(rep).Model(model).Output(dir).Packages(packages).Names(names).Binding(binding).Build()
		} else {
			gen, err = golang.NewOpenAPIGenerator().Reporter(rep).Model(model).Output(dir).Packages(packages).Names(openapiNames).Binding(binding).Build()
		}
		must(err)
	}
	must(err)
	for _, gen := range append(gens, gen) {
		err = gen.Run()
		if err != nil {
			return nil, fmt.Sprintf("the %s generator failed: %v: %s", kind, err, toolLog(out.String()))
		}
	}
	if rep.Errors() > 0 {
		return nil, fmt.Sprintf("the %s generator reported errors: %s", kind, toolLog(out.String()))
	}
	return tree(dir), ""
}

// generateFor reads the model and runs the generator.
func (e *Env) generateFor(kind string, m *Model) (Files, string) {
	r := e.Read(Files(m.Files()))
	if !r.OK() {
		return nil, "the model was rejected: " + r.String()
	}
	return e.generate(kind, r.Model)
}

// --- OpenAPI ------------------------------------------------------------------------------------

// oaSchema is the expected description of a type.
func oaSchema(v *Version, r Ref) string {
	elem := ""
	switch r.Elem {
	case "Boolean":
		elem = "boolean"
	case "Integer":
		elem = "integer/int32"
	case "Long":
		elem = "integer/int64"
	case "Float":
		elem = "number/float"
	case "String":
		elem = "string"
	case "Date":
		elem = "string/date-time"
	case "Interface":
		elem = "object"
	default:
		elem = "#" + N(r.Elem).Public()
	}
	switch r.Shape {
	case List:
		return "[]" + elem
	case Map:
		return "map " + elem
	}
	return elem
}

// oaType converts a schema of a document to the same format. Objects with properties are converted to their
// sorted properties, without descriptions.
func oaType(o *jsonx.Object) string {
	if o == nil {
		return "missing"
	}
	if ref, ok := o.Get("$ref").(string); ok {
		return "#" + strings.TrimPrefix(ref, "#/components/schemas/")
	}
	text, _ := o.Get("type").(string)
	if format, ok := o.Get("format").(string); ok {
		text += "/" + format
	}
	switch {
	case text == "array":
		return "[]" + oaType(o.Obj("items"))
	case o.Has("additionalProperties"):
		return "map " + oaType(o.Obj("additionalProperties"))
	case o.Has("properties"):
		var list []string
		for _, k := range o.Obj("properties").Keys {
			list = append(list, k+" "+oaType(o.Obj("properties", k)))
		}
		sort.Strings(list)
		return "{" + strings.Join(list, ", ") + "}"
	}
	return text
}

func oaDoc(o *jsonx.Object) string {
	text, _ := o.Get("description").(string)
	return ddoc26(text)
}

func ddoc26(text string) string {
	if text == "" {
		return ""
	}
	return " " + strconv.Quote(text)
}

// oaBody is the expected description of a body with the given parameters.
func oaBody(v *Version, m *Method, params []*Param) string {
	if len(params) == 1 && !m.IsAction() {
		return oaSchema(v, params[0].Type)
	}
	var list []string
	for _, p := range params {
		list = append(list, p.BodyName()+" "+oaSchema(v, p.Type))
	}
	sort.Strings(list)
	return "{" + strings.Join(list, ", ") + "}"
}

// route is a method reachable by a path.
type route struct {
	path     string
	locators []*Locator
	method   *Method
}

func routes(v *Version) []route {
	var result []route
	prefix := "/api/" + v.Service.Name.Snake() + "/" + v.Name.Snake()
	var visit func(path string, locators []*Locator, r *Resource)
	visit = func(path string, locators []*Locator, r *Resource) {
		for _, m := range r.Methods {
			p := path
			if s := m.Segment(); s != "" {
				p += "/" + s
			}
			result = append(result, route{p, locators, m})
		}
		for _, l := range r.Locators {
			s := l.Segment()
			if l.Variable {
				s = "{" + s + "_id}"
			}
			visit(path+"/"+s, append(append([]*Locator{}, locators...), l), v.Resource(l.Target))
		}
	}
	visit(prefix, nil, v.Root())
	return result
}

// oaRoutes returns the expected description of the routes of the version. The second value is the description of the
// documentation and the types of the parameters and the bodies.
func oaRoutes(v *Version) (lines, details []string) {
	prefix := "/api/" + v.Service.Name.Snake() + "/" + v.Name.Snake()
	lines = append(lines, "get "+prefix, "get "+prefix+" status 200", "get "+prefix+" status default")
	details = append(details, "get "+prefix+" response 200 #Metadata", "get "+prefix+" response default #Error")
	for _, r := range routes(v) {
		op := strings.ToLower(r.method.Verb()) + " " + r.path
		lines = append(lines, op)
		details = append(details, op+ddoc26(r.method.Doc))
		for _, l := range r.locators {
			if l.Variable {
				lines = append(lines, op+" path "+l.Segment()+"_id")
				details = append(details, op+" path "+l.Segment()+"_id string")
			}
		}
		for _, p := range r.method.Query(v) {
			lines = append(lines, op+" query "+p.QueryName())
			details = append(details, op+" query "+p.QueryName()+" "+oaSchema(v, p.Type)+ddoc26(p.Doc))
		}
		body := func(what string, params []*Param) {
			details = append(details, op+" "+what+" "+oaBody(v, r.method, params))
			if len(params) > 1 || r.method.IsAction() {
				for _, p := range params {
					details = append(details, op+" "+what+" property "+p.BodyName()+ddoc26(p.Doc))
				}
			}
		}
		if params := r.method.Body(v); len(params) > 0 {
			lines = append(lines, op+" request body")
			body("request", params)
		}
		status := r.method.DefaultStatus()
		lines = append(lines, op+" status "+status, op+" status default")
		if params := r.method.Out(); len(params) > 0 {
			body("response "+status, params)
		}
		details = append(details, op+" response default #Error")
	}
	sort.Strings(lines)
	sort.Strings(details)
	return
}

// oaPaths extracts the same descriptions from a document, and checks the consistency of the parameters of paths.
func oaPaths(doc *jsonx.Object) (lines, details []string, problem string) {
	complain := func(format string, args ...any) {
		if problem == "" {
			problem = fmt.Sprintf(format, args...)
		}
	}
	paths := doc.Obj("paths")
	if paths == nil {
		return nil, nil, "there are no paths"
	}
	for _, path := range paths.Keys {
		variables := map[string]bool{}
		for _, s := range strings.Split(path, "/") {
			if strings.HasPrefix(s, "{") && strings.HasSuffix(s, "}") {
				if variables[s] {
					complain("path '%s' has variable '%s' twice", path, s)
				}
				variables[s] = true
			}
		}
		item := paths.Obj(path)
		if item == nil || len(item.Keys) == 0 {
			complain("path '%s' has no methods", path)
			continue
		}
		for _, verb := range item.Keys {
			op := verb + " " + path
			lines = append(lines, op)
			method := item.Obj(verb)
			metadata := method.Obj("responses", "200", "content", "application/json", "schema").Get("$ref") == "#/components/schemas/Metadata"
			if !metadata {
				details = append(details, op+oaDoc(method))
			}
			declared := map[string]bool{}
			params, _ := method.Get("parameters").([]any)
			for _, x := range params {
				p, _ := x.(*jsonx.Object)
				name, _ := p.Get("name").(string)
				where, _ := p.Get("in").(string)
				if where == "path" {
					if !variables["{"+name+"}"] || declared[name] {
						complain("method '%s' declares path parameter '%s' that isn't in the path, or twice", op, name)
					}
					if p.Get("required") != true {
						complain("path parameter '%s' of method '%s' isn't required", name, op)
					}
					declared[name] = true
				} else if p.Get("required") == true {
					complain("query parameter '%s' of method '%s' is required", name, op)
				}
				lines = append(lines, op+" "+where+" "+name)
				details = append(details, op+" "+where+" "+name+" "+oaType(p.Obj("schema"))+oaDoc(p))
			}
			if len(declared) != len(variables) {
				complain("method '%s' doesn't declare all the parameters of the path", op)
			}
			body := func(what string, content *jsonx.Object) {
				schema := content.Obj("application/json", "schema")
				details = append(details, op+" "+what+" "+oaType(schema))
				props := schema.Obj("properties")
				if props != nil {
					for _, k := range props.Keys {
						details = append(details, op+" "+what+" property "+k+oaDoc(props.Obj(k)))
					}
				}
			}
			if request := method.Obj("requestBody"); request != nil {
				lines = append(lines, op+" request body")
				body("request", request.Obj("content"))
			}
			responses := method.Obj("responses")
			if responses == nil {
				continue
			}
			for _, status := range responses.Keys {
				lines = append(lines, op+" status "+status)
				if content := responses.Obj(status, "content"); content != nil {
					body("response "+status, content)
				}
			}
		}
	}
	sort.Strings(lines)
	sort.Strings(details)
	return
}

// oaSchemas returns the expected description of the schemas.
func oaSchemas(v *Version) []string {
	var lines []string
	for _, t := range v.Types {
		name := t.Name.Public()
		lines = append(lines, "schema "+name+ddoc26(t.Doc))
		switch t.Kind {
		case Enum:
			var values []string
			for _, x := range t.Values {
				values = append(values, x.JSONName())
			}
			sort.Strings(values)
			lines = append(lines, fmt.Sprintf("schema %s enum %q", name, values))
		default:
			if t.Kind == Class {
				lines = append(lines, "schema "+name+" property kind string", "schema "+name+" property id string", "schema "+name+" property href string")
			}
			for _, a := range t.Attrs {
				lines = append(lines, "schema "+name+" property "+a.JSONName()+" "+oaSchema(v, a.Type)+ddoc26(a.Doc))
			}
		}
	}
	sort.Strings(lines)
	return lines
}

// oaComponents extracts the description of the schemas of the document, except the predefined ones. Schemas that
// aren't in the given list are ignored unless it is nil.
func oaComponents(v *Version, doc *jsonx.Object) []string {
	var lines []string
	schemas := doc.Obj("components", "schemas")
	if schemas == nil {
		return nil
	}
	for _, name := range schemas.Keys {
		if name == "Metadata" || name == "Error" {
			continue
		}
		class := false
		for _, t := range v.Types {
			if t.Kind == Class && t.Name.Public() == name {
				class = true
			}
		}
		schema := schemas.Obj(name)
		lines = append(lines, "schema "+name+oaDoc(schema))
		if values, ok := schema.Get("enum").([]any); ok {
			var texts []string
			for _, x := range values {
				texts = append(texts, fmt.Sprint(x))
			}
			sort.Strings(texts)
			lines = append(lines, fmt.Sprintf("schema %s enum %q", name, texts))
			if schema.Get("type") != "string" {
				lines = append(lines, "schema "+name+" isn't string")
			}
			continue
		}
		props := schema.Obj("properties")
		if props == nil {
			lines = append(lines, "schema "+name+" has no properties")
			continue
		}
		for _, k := range props.Keys {
			doc := oaDoc(props.Obj(k))
			if class && (k == "kind" || k == "id" || k == "href") {
				doc = ""
			}
			lines = append(lines, "schema "+name+" property "+k+" "+oaType(props.Obj(k))+doc)
		}
	}
	sort.Strings(lines)
	return lines
}

// oaTypes are the types that schemas can have.
var oaTypes = map[string]bool{"object": true, "array": true, "string": true, "integer": true, "number": true, "boolean": true}

// oaReferences checks that all the references of the document resolve, and that all the types are correct.
func oaReferences(doc *jsonx.Object) string {
	schemas := doc.Obj("components", "schemas")
	problem := ""
	var visit func(x any)
	visit = func(x any) {
		switch t := x.(type) {
		case *jsonx.Object:
			if t == nil {
				return
			}
			if ref, ok := t.Get("$ref").(string); ok {
				name, ok := strings.CutPrefix(ref, "#/components/schemas/")
				if !ok || schemas.Obj(name) == nil {
					problem = fmt.Sprintf("reference '%s' doesn't exist", ref)
				}
			}
			if text, ok := t.Get("type").(string); ok && !oaTypes[text] {
				problem = fmt.Sprintf("type '%s' doesn't exist", text)
			}
			if _, ok := t.Get("properties").(*jsonx.Object); ok {
				// In the properties of a schema the value will be another schema:
				if text, ok := t.Get("type").(string); ok && text != "object" {
					problem = fmt.Sprintf("schema with properties has type '%s'", text)
				}
			}
			for _, k := range t.Keys {
				visit(t.Get(k))
			}
		case []any:
			for _, y := range t {
				visit(y)
			}
		}
	}
	visit(doc.Get("paths"))
	visit(schemas)
	return problem
}

// openapiDocs generates and decodes the documents of all the versions of the model.
func (e *Env) openapiDocs(m *Model) (map[string]*jsonx.Object, string) {
	files, problem := e.generateFor("openapi", m)
	if problem != "" {
		return nil, problem
	}
	return decodeDocs(m, files)
}

func decodeDocs(m *Model, files Files) (map[string]*jsonx.Object, string) {
	result := map[string]*jsonx.Object{}
	for _, s := range m.Services {
		for _, v := range s.Versions {
			name := filepath.Join(s.Name.Snake(), v.Name.Snake(), "openapi.json")
			text, ok := files[name]
			if !ok {
				return nil, fmt.Sprintf("file '%s' hasn't been generated, only %v", name, files.names())
			}
			x, err := jsonx.Decode([]byte(text))
			if err != nil {
				return nil, fmt.Sprintf("file '%s' isn't correct: %v", name, err)
			}
			doc, ok := x.(*jsonx.Object)
			if !ok {
				return nil, fmt.Sprintf("file '%s' isn't an object", name)
			}
			result[v.Key()] = doc
		}
	}
	if len(files) != len(result) {
		return nil, fmt.Sprintf("unexpected files: %v", files.names())
	}
	return result, ""
}
