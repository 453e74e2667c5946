package spec

import (
	"fmt"
	"sort"
	"strings"
)

// RefText is the canonical text of a reference.
func (r Ref) String() string {
	switch r.Shape {
	case List:
		return "[]" + r.Elem
	case Map:
		index := r.Index
		if index == "" {
			index = "String"
		}
		return "[" + index + "]" + r.Elem
	}
	return r.Elem
}

func (a Ann) dump() string {
	var parts []string
	if a.Go != "" {
		parts = append(parts, fmt.Sprintf("go(name=%q)", a.Go))
	}
	if a.HTTP != "" {
		parts = append(parts, fmt.Sprintf("http(name=%q)", a.HTTP))
	}
	if a.JSON != "" {
		parts = append(parts, fmt.Sprintf("json(name=%q)", a.JSON))
	}
	if a.Ref != "" {
		parts = append(parts, fmt.Sprintf("ref(path=%q)", a.Ref))
	}
	parts = append(parts, a.RawDump...)
	if len(parts) == 0 {
		return ""
	}
	sort.Strings(parts)
	return " @" + strings.Join(parts, "@")
}

func ddoc(text string) string {
	if text == "" {
		return ""
	}
	return fmt.Sprintf(" doc=%q", text)
}

// KindNames are the names of the kinds.
var KindNames = map[TypeKind]string{Scalar: "scalar", Enum: "enum", Struct: "struct", Class: "class"}

// Dump generates the canonical text of the model, used to compare it with what was read.
func (m *Model) Dump() []string {
	var lines []string
	for _, s := range m.Services {
		lines = append(lines, fmt.Sprintf("service %s", s.Name.Snake()))
		for _, v := range s.Versions {
			lines = append(lines, v.Dump()...)
		}
	}
	sort.Strings(lines)
	return lines
}

// Dump generates the canonical text of the version.
func (v *Version) Dump() []string {
	p := v.Service.Name.Snake() + "/" + v.Name.Snake()
	lines := []string{fmt.Sprintf("%s version", p)}
	for _, b := range Builtins {
		kind := "scalar"
		if b == "Interface" {
			kind = "interface"
		}
		lines = append(lines, fmt.Sprintf("%s type %s %s", p, strings.ToLower(b), kind))
	}
	maps := map[Ref]bool{}
	use := func(r Ref) string {
		if IsBuiltin(r.Elem) {
			r.Elem = strings.ToLower(r.Elem)
		}
		if r.Shape == Map {
			if r.Index == "String" {
				r.Index = ""
			}
			if IsBuiltin(r.Index) {
				r.Index = strings.ToLower(r.Index)
			}
			maps[r] = true
		}
		return r.String()
	}
	for _, t := range v.Types {
		lines = append(lines, fmt.Sprintf("%s type %s %s%s%s", p, t.Name, KindNames[t.Kind], t.Ann.dump(), ddoc(t.Doc)))
		for _, a := range t.Attrs {
			link := ""
			if a.Link {
				link = " link"
			}
			lines = append(lines, fmt.Sprintf("%s type %s attr %s %s%s%s%s", p, t.Name, a.Name, use(a.Type), link, a.Ann.dump(), ddoc(a.Doc)))
		}
		for _, x := range t.Values {
			lines = append(lines, fmt.Sprintf("%s type %s value %s%s%s", p, t.Name, x.Name, x.Ann.dump(), ddoc(x.Doc)))
		}
	}
	for _, r := range v.Resources {
		lines = append(lines, fmt.Sprintf("%s resource %s%s%s", p, r.Name, r.Ann.dump(), ddoc(r.Doc)))
		for _, m := range r.Methods {
			lines = append(lines, fmt.Sprintf("%s resource %s method %s%s%s", p, r.Name, m.Name, m.Ann.dump(), ddoc(m.Doc)))
			for _, x := range m.Params {
				dir := ""
				if x.In {
					dir += " in"
				}
				if x.Out || !x.In {
					dir += " out"
				}
				dflt := ""
				if x.Default != nil {
					dflt = fmt.Sprintf(" default=%#v", x.Default)
				}
				lines = append(lines, fmt.Sprintf("%s resource %s method %s param %s %s%s%s%s%s", p, r.Name, m.Name, x.Name, use(x.Type), dir, dflt, x.Ann.dump(), ddoc(x.Doc)))
			}
		}
		for _, l := range r.Locators {
			variable := ""
			if l.Variable {
				variable = " variable"
			}
			lines = append(lines, fmt.Sprintf("%s resource %s locator %s target=%s%s%s%s", p, r.Name, l.Name, l.Target, variable, l.Ann.dump(), ddoc(l.Doc)))
		}
	}
	for _, e := range v.Errors {
		lines = append(lines, fmt.Sprintf("%s error %s code=%d%s%s", p, e.Name, e.Code, e.Ann.dump(), ddoc(e.Doc)))
	}
	for ref := range maps {
		lines = append(lines, fmt.Sprintf("%s type %s map", p, ref))
	}
	return lines
}

// Text is the canonical text of the annotations.
func (a Ann) Text() string { return a.dump() }

// Canonical is the text of the reference, with the names of the built-in types in lower case.
func (r Ref) Canonical() string {
	if IsBuiltin(r.Elem) {
		r.Elem = strings.ToLower(r.Elem)
	}
	return r.String()
}
