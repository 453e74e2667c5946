// Package spec contains an independent description of API models, used as the reference against
// which the tool is compared. Nothing here uses the code of the tool.
package spec

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// Name is a list of words. Words that are in upper case (with an optional plural 's') are initialisms.
type Name []string

// N creates a name from text like `external_ID`.
func N(text string) Name {
	return strings.Split(text, "_")
}

// Initialism checks if a word is an initialism.
func Initialism(w string) bool {
	return len(w) >= 2 && w[0] >= 'A' && w[0] <= 'Z'
}

// Snake returns the name in snake case.
func (n Name) Snake() string {
	return strings.ToLower(strings.Join(n, "_"))
}

// Joined returns the lower case words without separator.
func (n Name) Joined() string {
	return strings.ToLower(strings.Join(n, ""))
}

// String returns the canonical text of the name.
func (n Name) String() string {
	return strings.Join(n, "_")
}

// Public returns the name in camel case.
func (n Name) Public() string {
	var b strings.Builder
	for _, w := range n {
		b.WriteString(title(w))
	}
	return b.String()
}

// Private returns the Go private name.
func (n Name) Private() string {
	var b strings.Builder
	for i, w := range n {
		if i == 0 {
			b.WriteString(strings.ToLower(w))
		} else {
			b.WriteString(title(w))
		}
	}
	return b.String()
}

func title(w string) string {
	if Initialism(w) || w == "" {
		return w
	}
	return strings.ToUpper(w[:1]) + w[1:]
}

// Ann contains the annotations of a concept.
type Ann struct {
	JSON, HTTP, Go string
	Ref            string

	// Source and canonical text of other annotations:
	Raw     string
	RawDump []string
}

// TypeShape is the shape of a reference to a type.
type TypeShape int

// Shapes of references.
const (
	Plain TypeShape = iota
	List
	Map
)

// Ref is a reference to a type.
type Ref struct {
	Shape TypeShape
	Elem  string // Canonical name of the type, for example `String` or `node_pool`
	Index string // Canonical name of the index type of maps, empty for strings
}

// P, L and M create references.
func P(elem string) Ref { return Ref{Shape: Plain, Elem: elem} }
func L(elem string) Ref { return Ref{Shape: List, Elem: elem} }
func M(elem string) Ref { return Ref{Shape: Map, Elem: elem} }

// TypeKind is the kind of a type.
type TypeKind int

// Kinds.
const (
	Scalar TypeKind = iota
	Enum
	Struct
	Class
)

// Builtin scalars.
var Builtins = []string{"Boolean", "Integer", "Long", "Float", "String", "Date", "Interface"}

// IsBuiltin checks if the name is the name of a built-in type.
func IsBuiltin(elem string) bool {
	for _, b := range Builtins {
		if b == elem {
			return true
		}
	}
	return false
}

// Attr is an attribute.
type Attr struct {
	Name Name
	Type Ref
	Link bool
	Ann  Ann
	Doc  string

	// Version that contains the type, when it isn't the version of the attribute:
	Owner *Version
}

// In returns the version that contains the type of the attribute.
func (a *Attr) In(v *Version) *Version {
	if a.Owner != nil {
		return a.Owner
	}
	return v
}

// JSONName is the name of the JSON field.
func (a *Attr) JSONName() string {
	if a.Ann.JSON != "" {
		return a.Ann.JSON
	}
	return a.Name.Snake()
}

// GoName is the name of the Go getter and setter.
func (a *Attr) GoName() string {
	if a.Ann.Go != "" {
		return a.Ann.Go
	}
	return a.Name.Public()
}

// Value is a value of an enumerated type.
type Value struct {
	Name Name
	Ann  Ann
	Doc  string
}

// JSONName is the text that represents the value.
func (v *Value) JSONName() string {
	if v.Ann.JSON != "" {
		return v.Ann.JSON
	}
	return v.Name.Snake()
}

// Type is a declared type.
type Type struct {
	Name   Name
	Kind   TypeKind
	Attrs  []*Attr
	Values []*Value
	Ann    Ann
	Doc    string

	// Brought indicates that the type isn't declared, but brought by a reference:
	Brought bool
}

// GoName is the name of the Go type.
func (t *Type) GoName() string {
	if t.Ann.Go != "" {
		return t.Ann.Go
	}
	return t.Name.Public()
}

// Param is a parameter of a method.
type Param struct {
	Name    Name
	Type    Ref
	In, Out bool
	Default any
	Ann     Ann
	Doc     string
}

// GoName is the name of the Go getter and setter.
func (p *Param) GoName() string {
	if p.Ann.Go != "" {
		return p.Ann.Go
	}
	return p.Name.Public()
}

// QueryName is the name used in the query of the request.
func (p *Param) QueryName() string {
	if p.Ann.HTTP != "" {
		return p.Ann.HTTP
	}
	return p.BodyName()
}

// BodyName is the name used in JSON bodies.
func (p *Param) BodyName() string {
	if p.Ann.JSON != "" {
		return p.Ann.JSON
	}
	return p.Name.Snake()
}

// Method is a method.
type Method struct {
	Name   Name
	Params []*Param
	Ann    Ann
	Doc    string
}

// Locator is a locator.
type Locator struct {
	Name     Name
	Target   string // Canonical name of the resource
	Variable bool
	VarName  string
	Ann      Ann
	Doc      string
}

// Segment is the segment of the URL.
func (l *Locator) Segment() string {
	if l.Ann.HTTP != "" {
		return l.Ann.HTTP
	}
	return l.Name.Snake()
}

// GoName is the name of the Go method.
func (l *Locator) GoName() string {
	if l.Ann.Go != "" {
		return l.Ann.Go
	}
	return l.Name.Public()
}

// Resource is a resource.
type Resource struct {
	Name     Name
	Methods  []*Method
	Locators []*Locator
	Ann      Ann
	Doc      string
}

// Error is an error category.
type Error struct {
	Name Name
	Code int
	Ann  Ann
	Doc  string
}

// Version is a version of a service.
type Version struct {
	Name      Name
	Types     []*Type
	Resources []*Resource
	Errors    []*Error
	Service   *Service
}

// Service is a service.
type Service struct {
	Name     Name
	Versions []*Version
}

// Model is a model.
type Model struct {
	Services []*Service
}

// Link fills the back references.
func (m *Model) Link() *Model {
	for _, s := range m.Services {
		for _, v := range s.Versions {
			v.Service = s
		}
	}
	return m
}

// Key returns the identifier of the version.
func (v *Version) Key() string {
	return v.Service.Name.Snake() + "/" + v.Name.Snake()
}

// Dir returns the directory of the version in the model.
func (v *Version) Dir() string {
	return v.Service.Name.String() + "/" + v.Name.String()
}

// Type finds a type.
func (v *Version) Type(elem string) *Type {
	for _, t := range v.Types {
		if t.Name.String() == elem {
			return t
		}
	}
	return nil
}

// Resource finds a resource.
func (v *Version) Resource(name string) *Resource {
	for _, r := range v.Resources {
		if r.Name.String() == name {
			return r
		}
	}
	return nil
}

// Root finds the root resource.
func (v *Version) Root() *Resource {
	return v.Resource("root")
}

// IsScalarElem checks if the type is scalar in the sense of the tool: built-in types and enums.
func (v *Version) IsScalarElem(elem string) bool {
	if IsBuiltin(elem) {
		return true
	}
	t := v.Type(elem)
	return t != nil && t.Kind == Enum
}

// IsScalar checks if the reference is to an scalar type.
func (v *Version) IsScalar(r Ref) bool {
	return r.Shape == Plain && v.IsScalarElem(r.Elem)
}

// Kind of method.
var specialMethods = map[string]string{
	"add": "POST", "delete": "DELETE", "async_delete": "DELETE", "get": "GET", "list": "GET",
	"post": "POST", "search": "POST", "update": "PATCH", "async_update": "PATCH",
}

// IsAction checks if the method is an action.
func (m *Method) IsAction() bool {
	_, ok := specialMethods[m.Name.String()]
	return !ok
}

// Verb is the HTTP verb.
func (m *Method) Verb() string {
	if v, ok := specialMethods[m.Name.String()]; ok {
		return v
	}
	return "POST"
}

// DefaultStatus is the status of successful responses.
func (m *Method) DefaultStatus() string {
	switch m.Name.String() {
	case "add", "post":
		return "201"
	case "delete":
		return "204"
	case "async_delete", "async_update":
		return "202"
	}
	return "200"
}

// Segment is the segment added to the URL by actions.
func (m *Method) Segment() string {
	if !m.IsAction() {
		return ""
	}
	if m.Ann.HTTP != "" {
		return m.Ann.HTTP
	}
	return m.Name.Snake()
}

// GoName is the name of the Go method of the client.
func (m *Method) GoName() string {
	if m.Ann.Go != "" {
		return m.Ann.Go
	}
	return m.Name.Public()
}

// In returns the input parameters.
func (m *Method) In() []*Param {
	var r []*Param
	for _, p := range m.Params {
		if p.In {
			r = append(r, p)
		}
	}
	return r
}

// Out returns the output parameters.
func (m *Method) Out() []*Param {
	var r []*Param
	for _, p := range m.Params {
		if p.Out {
			r = append(r, p)
		}
	}
	return r
}

// Query returns the parameters that go in the query.
func (m *Method) Query(v *Version) []*Param {
	var r []*Param
	if m.IsAction() {
		return nil
	}
	for _, p := range m.Params {
		if p.In && v.IsScalar(p.Type) {
			r = append(r, p)
		}
	}
	return r
}

// Body returns the parameters that go in the request body.
func (m *Method) Body(v *Version) []*Param {
	var r []*Param
	for _, p := range m.Params {
		if p.In && (m.IsAction() || !v.IsScalar(p.Type)) {
			r = append(r, p)
		}
	}
	return r
}

// --- Emission of the model language -------------------------------------------------------------

func (a Ann) lines(indent string) string {
	var b strings.Builder
	if a.JSON != "" {
		fmt.Fprintf(&b, "%s@json(name = %q)\n", indent, a.JSON)
	}
	if a.HTTP != "" {
		fmt.Fprintf(&b, "%s@http(name = %q)\n", indent, a.HTTP)
	}
	if a.Go != "" {
		fmt.Fprintf(&b, "%s@go(name = %q)\n", indent, a.Go)
	}
	if a.Ref != "" {
		fmt.Fprintf(&b, "%s@ref(path = %q)\n", indent, a.Ref)
	}
	if a.Raw != "" {
		fmt.Fprintf(&b, "%s%s\n", indent, a.Raw)
	}
	return b.String()
}

func doc(indent, text string) string {
	if text == "" {
		return ""
	}
	var b strings.Builder
	for _, line := range strings.Split(text, "\n") {
		if line == "" {
			fmt.Fprintf(&b, "%s//\n", indent)
		} else {
			fmt.Fprintf(&b, "%s// %s\n", indent, line)
		}
	}
	return b.String()
}

func elemText(elem string) string {
	return N(elem).Public()
}

// Text is the text of the reference.
func (r Ref) Text() string {
	switch r.Shape {
	case List:
		return "[]" + elemText(r.Elem)
	case Map:
		return "[" + r.index() + "]" + elemText(r.Elem)
	}
	return elemText(r.Elem)
}

func (r Ref) index() string {
	if r.Index == "" {
		return "String"
	}
	return elemText(r.Index)
}

// Source generates the source of the type.
func (t *Type) Source() string {
	var b strings.Builder
	b.WriteString(doc("", t.Doc))
	b.WriteString(t.Ann.lines(""))
	switch t.Kind {
	case Enum:
		fmt.Fprintf(&b, "enum %s {\n", t.Name.Public())
		for _, v := range t.Values {
			b.WriteString("\n")
			b.WriteString(doc("\t", v.Doc))
			b.WriteString(v.Ann.lines("\t"))
			fmt.Fprintf(&b, "\t%s\n", v.Name.Public())
		}
	default:
		kw := "struct"
		if t.Kind == Class {
			kw = "class"
		}
		fmt.Fprintf(&b, "%s %s {\n", kw, t.Name.Public())
		for _, a := range t.Attrs {
			if t.Ann.Ref != "" {
				break
			}
			b.WriteString("\n")
			b.WriteString(doc("\t", a.Doc))
			b.WriteString(a.Ann.lines("\t"))
			link := ""
			if a.Link {
				link = "link "
			}
			fmt.Fprintf(&b, "\t%s%s %s\n", link, a.Name.Public(), a.Type.Text())
		}
	}
	b.WriteString("}\n")
	return b.String()
}

// Literal generates the source of a literal.
func Literal(v any) string {
	switch t := v.(type) {
	case bool:
		return strconv.FormatBool(t)
	case int:
		return strconv.Itoa(t)
	case string:
		return strconv.Quote(t)
	}
	panic("bad literal")
}

// Source generates the source of the parameter.
func (p *Param) Source(indent string) string {
	var b strings.Builder
	b.WriteString(doc(indent, p.Doc))
	b.WriteString(p.Ann.lines(indent))
	dir := ""
	if p.In {
		dir += "in "
	}
	if p.Out {
		dir += "out "
	}
	fmt.Fprintf(&b, "%s%s%s %s", indent, dir, p.Name.Public(), p.Type.Text())
	if p.Default != nil {
		fmt.Fprintf(&b, " = %s", Literal(p.Default))
	}
	b.WriteString("\n")
	return b.String()
}

// Source generates the source of the resource.
func (r *Resource) Source() string {
	var b strings.Builder
	b.WriteString(doc("", r.Doc))
	b.WriteString(r.Ann.lines(""))
	fmt.Fprintf(&b, "resource %s {\n", r.Name.Public())
	for _, m := range r.Methods {
		b.WriteString("\n")
		b.WriteString(doc("\t", m.Doc))
		b.WriteString(m.Ann.lines("\t"))
		fmt.Fprintf(&b, "\tmethod %s {\n", m.Name.Public())
		for _, p := range m.Params {
			b.WriteString("\n")
			b.WriteString(p.Source("\t\t"))
		}
		b.WriteString("\t}\n")
	}
	for _, l := range r.Locators {
		b.WriteString("\n")
		b.WriteString(doc("\t", l.Doc))
		b.WriteString(l.Ann.lines("\t"))
		fmt.Fprintf(&b, "\tlocator %s {\n\t\ttarget %s\n", l.Name.Public(), N(l.Target).Public())
		if l.Variable {
			name := l.VarName
			if name == "" {
				name = "ID"
			}
			fmt.Fprintf(&b, "\t\tvariable %s\n", name)
		}
		b.WriteString("\t}\n")
	}
	b.WriteString("}\n")
	return b.String()
}

// Source generates the source of the error.
func (e *Error) Source() string {
	return doc("", e.Doc) + e.Ann.lines("") +
		fmt.Sprintf("error %s {\n\tcode %d\n}\n", e.Name.Public(), e.Code)
}

// Decls generates the source of all the declarations of the version.
func (v *Version) Decls() []string {
	var r []string
	for _, t := range v.Types {
		if !t.Brought {
			r = append(r, t.Source())
		}
	}
	for _, x := range v.Resources {
		r = append(r, x.Source())
	}
	for _, e := range v.Errors {
		r = append(r, e.Source())
	}
	return r
}

// Files generates the files of the model, one per version.
func (m *Model) Files() map[string]string {
	files := map[string]string{}
	for _, s := range m.Services {
		for _, v := range s.Versions {
			files[v.Dir()+"/all.model"] = strings.Join(v.Decls(), "\n")
		}
	}
	return files
}

// SortNames sorts names in the order used by the tool: lexicographically by words.
func CompareNames(a, b Name) int {
	for i := 0; i < len(a) && i < len(b); i++ {
		if c := strings.Compare(a[i], b[i]); c != 0 {
			return c
		}
	}
	return len(a) - len(b)
}

// SortedAttrs returns the attributes sorted by name.
func (t *Type) SortedAttrs() []*Attr {
	r := append([]*Attr{}, t.Attrs...)
	sort.SliceStable(r, func(i, j int) bool { return CompareNames(r[i].Name, r[j].Name) < 0 })
	return r
}
