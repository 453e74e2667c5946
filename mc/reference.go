package main

import (
	"fmt"
	"strconv"
	"strings"

	. "verif/lib/spec"
)

// This file contains a reference implementation of the language: an independent scanner, an
// independent parser and the semantic rules, written from the grammar and from the documentation.

type refToken struct {
	kind string // "id", "int", "str", or the text of the keyword or punctuation
	text string
}

var refKeywords = strings.Fields("attribute class code enum error false in link locator method out parameter resource struct target true value variable")

func isLetter(ch byte) bool { return ch == '_' || ch >= 'a' && ch <= 'z' || ch >= 'A' && ch <= 'Z' }
func isDigit(ch byte) bool  { return ch >= '0' && ch <= '9' }

// refScan splits the text in tokens.
func refScan(text string) ([]refToken, error) {
	var tokens []refToken
	for i := 0; i < len(text); {
		ch := text[i]
		switch {
		case strings.IndexByte(" \t\r\n", ch) >= 0:
			i++
		case strings.HasPrefix(text[i:], "//"):
			for i < len(text) && text[i] != '\r' && text[i] != '\n' {
				i++
			}
		case strings.HasPrefix(text[i:], "/*"):
			end := strings.Index(text[i+2:], "*/")
			if end < 0 {
				return nil, fmt.Errorf("unterminated comment")
			}
			i += end + 4
		case isLetter(ch):
			j := i
			for j < len(text) && (isLetter(text[j]) || isDigit(text[j])) {
				j++
			}
			word := text[i:j]
			kind := "id"
			for _, k := range refKeywords {
				if k == word {
					kind = k
				}
			}
			tokens = append(tokens, refToken{kind, word})
			i = j
		case isDigit(ch):
			j := i
			for j < len(text) && isDigit(text[j]) {
				j++
			}
			tokens = append(tokens, refToken{"int", text[i:j]})
			i = j
		case ch == '"' || ch == '`':
			end := strings.IndexByte(text[i+1:], ch)
			if end < 0 {
				return nil, fmt.Errorf("unterminated string")
			}
			tokens = append(tokens, refToken{"str", text[i : i+end+2]})
			i += end + 2
		case strings.IndexByte("@{}[]()=", ch) >= 0:
			tokens = append(tokens, refToken{string(ch), string(ch)})
			i++
		default:
			return nil, fmt.Errorf("bad character %q", ch)
		}
	}
	return tokens, nil
}

// refParser is a recursive descent parser.
type refParser struct {
	names  map[string]Name
	tokens []refToken
	pos    int
	v      *Version
	bad    []string // Semantic errors detected while parsing

	unknown bool // There are names that aren't in the list of known names
}

type refError string

func (p *refParser) peek() string {
	if p.pos >= len(p.tokens) {
		return ""
	}
	return p.tokens[p.pos].kind
}

func (p *refParser) accept(kind string) bool {
	if p.peek() == kind {
		p.pos++
		return true
	}
	return false
}

func (p *refParser) expect(kind string) string {
	if p.peek() != kind {
		panic(refError(fmt.Sprintf("expected '%s' at token %d", kind, p.pos)))
	}
	p.pos++
	return p.tokens[p.pos-1].text
}

func (p *refParser) name() Name {
	text := p.expect("id")
	n, ok := p.names[text]
	if !ok {
		// Not part of the known names, which only happens with mutations that result in
		// arbitrary text; the characters are kept as an unknown name.
		p.unknown = true
		return Name{"?" + text}
	}
	return n
}

func (p *refParser) elem() string {
	text := p.tokens[min(p.pos, len(p.tokens)-1)].text
	n := p.name()
	if IsBuiltin(text) {
		return text
	}
	return n.String()
}

func (p *refParser) literal() any {
	switch p.peek() {
	case "true":
		p.pos++
		return true
	case "false":
		p.pos++
		return false
	case "int":
		text := p.expect("int")
		n, err := strconv.Atoi(text)
		if err != nil {
			p.bad = append(p.bad, "integer "+text)
		}
		return n
	case "str":
		text := p.expect("str")
		s, err := strconv.Unquote(text)
		if err != nil {
			p.bad = append(p.bad, "string "+text)
		}
		return s
	}
	panic(refError(fmt.Sprintf("expected literal at token %d", p.pos)))
}

func (p *refParser) annotations() Ann {
	var ann Ann
	for p.accept("@") {
		name := p.expect("id")
		values := map[string]any{}
		if p.accept("(") {
			for !p.accept(")") {
				key := p.expect("id")
				p.expect("=")
				values[key] = p.literal()
			}
		}
		var parts []any
		for _, key := range []string{"a", "b", "c", "name", "path"} {
			if v, ok := values[key]; ok {
				parts = append(parts, key, v)
			}
		}
		ann.RawDump = append(ann.RawDump, annDump(name, parts...))
	}
	return ann
}

func (p *refParser) ref() Ref {
	if p.accept("[") {
		if p.accept("]") {
			return Ref{Shape: List, Elem: p.elem()}
		}
		index := p.elem()
		p.expect("]")
		return Ref{Shape: Map, Elem: p.elem(), Index: index}
	}
	return Ref{Elem: p.elem()}
}

func (p *refParser) file() {
	for p.pos < len(p.tokens) {
		ann := p.annotations()
		switch kind := p.peek(); kind {
		case "enum":
			p.pos++
			t := &Type{Kind: Enum, Name: p.name(), Ann: ann}
			p.expect("{")
			for !p.accept("}") {
				a := p.annotations()
				p.accept("value")
				t.Values = append(t.Values, &Value{Name: p.name(), Ann: a})
			}
			p.v.Types = append(p.v.Types, t)
		case "class", "struct":
			p.pos++
			t := &Type{Kind: Struct, Name: p.name(), Ann: ann}
			if kind == "class" {
				t.Kind = Class
			}
			p.expect("{")
			for !p.accept("}") {
				a := &Attr{Ann: p.annotations()}
				if p.accept("link") {
					a.Link = true
				} else {
					p.accept("attribute")
				}
				a.Name = p.name()
				a.Type = p.ref()
				t.Attrs = append(t.Attrs, a)
			}
			p.v.Types = append(p.v.Types, t)
		case "error":
			p.pos++
			e := &Error{Name: p.name(), Ann: ann}
			p.expect("{")
			for !p.accept("}") {
				p.expect("code")
				text := p.expect("int")
				n, err := strconv.Atoi(text)
				if err != nil {
					p.bad = append(p.bad, "code "+text)
				}
				e.Code = n
			}
			p.v.Errors = append(p.v.Errors, e)
		case "resource":
			p.pos++
			r := &Resource{Name: p.name(), Ann: ann}
			p.expect("{")
			for !p.accept("}") {
				p.member(r)
			}
			p.v.Resources = append(p.v.Resources, r)
		default:
			panic(refError(fmt.Sprintf("expected declaration at token %d", p.pos)))
		}
	}
}

func (p *refParser) member(r *Resource) {
	ann := p.annotations()
	if p.accept("locator") {
		l := &Locator{Name: p.name(), Ann: ann}
		p.expect("{")
		for !p.accept("}") {
			if p.accept("variable") {
				p.name()
				l.Variable = true
				continue
			}
			p.expect("target")
			l.Target = p.name().String()
		}
		r.Locators = append(r.Locators, l)
		return
	}
	p.accept("method")
	m := &Method{Name: p.name(), Ann: ann}
	p.expect("{")
	for !p.accept("}") {
		x := &Param{Ann: p.annotations()}
		p.accept("parameter")
		for p.peek() == "in" || p.peek() == "out" {
			if p.accept("in") {
				x.In = true
			} else {
				p.pos++
				x.Out = true
			}
		}
		if !x.In && !x.Out {
			x.Out = true
		}
		x.Name = p.name()
		x.Type = p.ref()
		if p.accept("=") {
			x.Default = p.literal()
		}
		m.Params = append(m.Params, x)
	}
	r.Methods = append(r.Methods, m)
}

// refParse parses the text and adds its declarations to the version. It returns an error if the text
// isn't correct according to the grammar, and the list of semantic errors of literals.
func refParse(v *Version, names map[string]Name, text string) (bad []string, unknown bool, err error) {
	tokens, err := refScan(text)
	if err != nil {
		return nil, false, err
	}
	p := &refParser{names: names, tokens: tokens, v: v}
	defer func() {
		if x := recover(); x != nil {
			e, ok := x.(refError)
			if !ok {
				panic(x)
			}
			err = fmt.Errorf("%s", string(e))
		}
	}()
	p.file()
	return p.bad, p.unknown, nil
}

// refCheck returns the semantic errors of a version.
func refCheck(v *Version) []string {
	var bad []string
	fail := func(format string, args ...any) { bad = append(bad, fmt.Sprintf(format, args...)) }

	// Declarations:
	types := map[string]*Type{}
	for _, t := range v.Types {
		n := t.Name.String()
		if types[n] != nil {
			fail("type %s duplicated", n)
			continue
		}
		for _, b := range Builtins {
			if strings.ToLower(b) == n {
				fail("type %s is built-in", n)
			}
		}
		types[n] = t
	}
	resources := map[string]*Resource{}
	for _, r := range v.Resources {
		if resources[r.Name.String()] != nil {
			fail("resource %s duplicated", r.Name)
			continue
		}
		resources[r.Name.String()] = r
	}
	errors := map[string]bool{}
	for _, e := range v.Errors {
		if errors[e.Name.String()] {
			fail("error %s duplicated", e.Name)
		}
		errors[e.Name.String()] = true
	}

	// References:
	use := func(r Ref) {
		for _, elem := range []string{r.Elem, r.Index} {
			if elem != "" && !IsBuiltin(elem) && types[elem] == nil {
				fail("type %s undefined", elem)
			}
		}
	}
	for _, t := range v.Types {
		for _, a := range t.Attrs {
			use(a.Type)
		}
	}
	for _, r := range v.Resources {
		for _, l := range r.Locators {
			if l.Target == "" {
				fail("locator %s has no target", l.Name)
			} else if resources[l.Target] == nil {
				fail("resource %s undefined", l.Target)
			}
		}
		for _, m := range r.Methods {
			for _, p := range m.Params {
				use(p.Type)
			}
			for _, x := range methodRules(v, m) {
				fail("%s.%s: %s", r.Name, m.Name, x)
			}
		}
	}
	if resources["root"] == nil {
		fail("no root")
	} else {
		// Loops reachable from the root:
		path := map[string]bool{}
		var visit func(n string, depth int)
		loop := false
		visit = func(n string, depth int) {
			if loop {
				return
			}
			if path[n] {
				loop = true
				return
			}
			r := resources[n]
			if r == nil {
				return
			}
			path[n] = true
			for _, l := range r.Locators {
				if l.Target != "" {
					visit(l.Target, depth+1)
				}
			}
			path[n] = false
		}
		visit("root", 0)
		if loop {
			fail("loop")
		}
	}
	return bad
}

// methodRules checks the signature of a method according to the documented rules.
func methodRules(v *Version, m *Method) []string {
	var bad []string
	rule := func(ok bool, format string, args ...any) {
		if !ok {
			bad = append(bad, fmt.Sprintf(format, args...))
		}
	}
	kind := func(p *Param) string {
		switch p.Type.Shape {
		case List:
			return "list"
		case Map:
			return "map"
		}
		if v.IsScalarElem(p.Type.Elem) {
			return "scalar"
		}
		if t := v.Type(p.Type.Elem); t != nil {
			return "struct"
		}
		return "undefined"
	}
	is := func(p *Param, name string) bool { return p.Name.String() == name }
	count := func(kinds ...string) int {
		n := 0
		for _, p := range m.Params {
			for _, k := range kinds {
				if kind(p) == k {
					n++
				}
			}
		}
		return n
	}
	only := func(kinds ...string) {
		rule(count(kinds...) == len(m.Params), "only %v parameters", kinds)
	}
	direction := func(p *Param, in, out bool) {
		rule(p.In == in && p.Out == out, "direction of %s", p.Name)
	}
	paging := func() {
		items := false
		seen := map[string]bool{}
		for _, p := range m.Params {
			n := p.Name.String()
			if n == "items" {
				items = true
			}
			// Only the first parameter with the name is checked:
			if seen[n] {
				continue
			}
			seen[n] = true
			switch n {
			case "page", "size":
				rule(p.Type == Ref{Elem: "Integer"}, "type of %s", n)
				direction(p, true, true)
				want := map[string]int{"page": 1, "size": 100}[n]
				rule(p.Default == want, "default of %s", n)
			case "total":
				rule(p.Type == Ref{Elem: "Integer"}, "type of %s", n)
				direction(p, false, true)
			}
		}
		rule(items, "no items")
		rule(count("list") == 1, "exactly one list")
		for _, p := range m.Params {
			if kind(p) == "list" {
				direction(p, false, true)
				rule(is(p, "items"), "name of list")
			}
		}
	}
	switch m.Name.String() {
	case "add":
		only("scalar", "struct")
		rule(count("struct") == 1, "exactly one struct")
		for _, p := range m.Params {
			if kind(p) == "struct" {
				direction(p, true, true)
				rule(is(p, "body"), "name of struct")
			}
		}
	case "get":
		only("scalar", "struct")
		rule(count("struct") == 1, "exactly one struct")
		for _, p := range m.Params {
			switch kind(p) {
			case "struct":
				direction(p, false, true)
				rule(is(p, "body"), "name of struct")
			case "scalar":
				direction(p, true, false)
			}
		}
	case "update", "async_update":
		only("scalar", "struct", "list")
		rule(count("struct", "list") == 1, "exactly one struct or list")
		for _, p := range m.Params {
			switch kind(p) {
			case "struct", "list":
				direction(p, true, true)
				rule(is(p, "body"), "name of body")
			case "scalar":
				direction(p, true, false)
			}
		}
	case "delete", "async_delete":
		only("scalar")
		for _, p := range m.Params {
			direction(p, true, false)
		}
	case "list":
		only("scalar", "list")
		paging()
	case "search":
		paging()
		bodies := 0
		for _, p := range m.Params {
			k := kind(p)
			if p.Out {
				rule(k == "scalar" || k == "list", "type of output %s", p.Name)
			}
			if p.In {
				rule(k == "scalar" || k == "struct", "type of input %s", p.Name)
				if k == "struct" {
					bodies++
					rule(!p.Out, "direction of body")
					rule(is(p, "body"), "name of body")
				}
			}
		}
		rule(bodies == 1, "exactly one body")
	case "post":
		ins, outs := 0, 0
		for _, p := range m.Params {
			rule(kind(p) == "struct", "type of %s", p.Name)
			if p.In {
				ins++
			}
			if p.Out {
				outs++
			}
		}
		rule(ins <= 1, "at most one input")
		rule(outs == 1, "exactly one output")
	}
	for _, p := range m.Params {
		switch p.Default.(type) {
		case nil:
		case bool:
			rule(p.Type == Ref{Elem: "Boolean"}, "default of %s", p.Name)
		case int:
			rule(p.Type == Ref{Elem: "Integer"}, "default of %s", p.Name)
		case string:
			rule(p.Type == Ref{Elem: "String"}, "default of %s", p.Name)
		}
	}
	return bad
}
