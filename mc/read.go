package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"

	"github.com/openshift-online/ocm-api-metamodel/pkg/concepts"
	"github.com/openshift-online/ocm-api-metamodel/pkg/language"
	"github.com/openshift-online/ocm-api-metamodel/pkg/names"
	"github.com/openshift-online/ocm-api-metamodel/pkg/reporter"
)

// Files is a set of files, indexed by relative name.
type Files map[string]string

// Result is the result of reading a model.
type Result struct {
	Model *concepts.Model
	Err   error
	Log   string
	Panic string
}

// OK returns true if the model was accepted.
func (r *Result) OK() bool { return r.Panic == "" && r.Err == nil && r.Model != nil }

// String describes the result.
func (r *Result) String() string {
	switch {
	case r.Panic != "":
		return "panic: " + r.Panic
	case r.Err != nil:
		return "rejected: " + r.Log
	case r.Model == nil:
		return "no model and no error"
	}
	return "accepted"
}

func writeFiles(dir string, files Files) {
	for name, text := range files {
		path := filepath.Join(dir, name)
		if err := os.MkdirAll(filepath.Dir(path), 0o755); err != nil {
			panic(err)
		}
		if err := os.WriteFile(path, []byte(text), 0o644); err != nil {
			panic(err)
		}
	}
}

// Read writes the files to a scratch directory and reads the model with the real reader.
func (e *Env) Read(files Files) *Result {
	dir := e.Dir()
	defer os.RemoveAll(dir)
	writeFiles(dir, files)
	return readDir(dir)
}

func readDir(dirs ...string) (result *Result) {
	result = &Result{}
	out := &bytes.Buffer{}
	defer func() {
		if x := recover(); x != nil {
			buf := make([]byte, 2500)
			n := runtime.Stack(buf, false)
			result.Panic = fmt.Sprintf("%v\n%s", x, buf[:n])
		}
		var lines []string
		for _, line := range strings.Split(out.String(), "\n") {
			if !strings.Contains(line, "I:") && line != "" {
				lines = append(lines, line)
			}
		}
		result.Log = strings.Join(lines, "; ")
	}()
	rep, err := reporter.New().Streams(out, out).Build()
	if err != nil {
		panic(err)
	}
	result.Model, result.Err = language.NewReader().Reporter(rep).Inputs(dirs).Read()
	return
}

func annText(a concepts.Annotated) string {
	var parts []string
	for _, x := range a.Annotations() {
		var params []string
		for _, name := range []string{"a", "b", "c", "name", "path"} {
			if v := x.FindParameter(name); v != nil {
				params = append(params, fmt.Sprintf("%s=%#v", name, v))
			}
		}
		parts = append(parts, fmt.Sprintf("%s(%s)", x.Name(), strings.Join(params, ",")))
	}
	if len(parts) == 0 {
		return ""
	}
	sort.Strings(parts)
	return " @" + strings.Join(parts, "@")
}

func docText(d string) string {
	if d == "" {
		return ""
	}
	return fmt.Sprintf(" doc=%q", d)
}

func typeText(t *concepts.Type) string {
	if t == nil {
		return "<nil>"
	}
	switch {
	case t.IsList():
		return "[]" + typeText(t.Element())
	case t.IsMap():
		index := "<nil>"
		if t.Index() != nil {
			index = t.Index().Name().String()
		}
		if index == "string" {
			index = "String"
		}
		return "[" + index + "]" + typeText(t.Element())
	}
	return t.Name().String()
}

// Dump generates the canonical text of the model. It also checks the internal consistency of the
// graph of concepts; inconsistencies appear in the result as lines that start with exclamation.
func Dump(m *concepts.Model) []string {
	var lines []string
	add := func(format string, args ...any) { lines = append(lines, fmt.Sprintf(format, args...)) }
	for _, s := range m.Services() {
		add("service %s", s.Name().Snake())
		for _, v := range s.Versions() {
			p := s.Name().Snake() + "/" + v.Name().Snake()
			add("%s version", p)
			if v.Owner() != s {
				add("!%s owner", p)
			}
			checkRef := func(where string, t *concepts.Type, linkOwner *concepts.Version) {
				if t == nil {
					add("!%s %s has no type", p, where)
					return
				}
				// Link attributes that come from referenced classes belong to other version:
				if linkOwner != nil {
					return
				}
				if v.FindType(t.Name()) != t {
					add("!%s %s refers to type %s that isn't part of the version", p, where, t.Name())
				}
				if e := t.Element(); e != nil && v.FindType(e.Name()) != e {
					add("!%s %s refers to element type %s that isn't part of the version", p, where, e.Name())
				}
			}
			lists := map[*concepts.Type]int{}
			for _, t := range v.Types() {
				if t.Owner() != v {
					add("!%s type %s owner", p, t.Name())
				}
				if t.IsList() {
					lists[t.Element()]++
					if t.Element() == nil {
						add("!%s list type %s has no element", p, t.Name())
					} else if t.Name().String() != t.Element().Name().String()+"_list" {
						add("!%s list type %s of %s", p, t.Name(), t.Element().Name())
					}
				}
			}
			for _, t := range v.Types() {
				if t.IsList() {
					continue
				}
				if lists[t] != 1 {
					add("!%s type %s has %d list types", p, t.Name(), lists[t])
				}
				if t.IsMap() {
					add("%s type %s map", p, typeText(t))
					continue
				}
				add("%s type %s %s%s%s", p, t.Name(), kindText(t), annText(t), docText(t.Doc()))
				for _, a := range t.Attributes() {
					link := ""
					if a.Link() {
						link = " link"
					}
					add("%s type %s attr %s %s%s%s%s", p, t.Name(), a.Name(), typeText(a.Type()), link, annText(a), docText(a.Doc()))
					if a.Owner() != t {
						add("!%s type %s attr %s owner", p, t.Name(), a.Name())
					}
					checkRef(fmt.Sprintf("type %s attr %s", t.Name(), a.Name()), a.Type(), a.LinkOwner())
				}
				for _, x := range t.Values() {
					add("%s type %s value %s%s%s", p, t.Name(), x.Name(), annText(x), docText(x.Doc()))
					if x.Type() != t {
						add("!%s type %s value %s owner", p, t.Name(), x.Name())
					}
				}
			}
			for _, r := range v.Resources() {
				add("%s resource %s%s%s", p, r.Name(), annText(r), docText(r.Doc()))
				if r.Owner() != v {
					add("!%s resource %s owner", p, r.Name())
				}
				for _, x := range r.Methods() {
					add("%s resource %s method %s%s%s", p, r.Name(), x.Name(), annText(x), docText(x.Doc()))
					if x.Owner() != r {
						add("!%s resource %s method %s owner", p, r.Name(), x.Name())
					}
					for _, y := range x.Parameters() {
						dir := ""
						if y.In() {
							dir += " in"
						}
						if y.Out() {
							dir += " out"
						}
						dflt := ""
						if y.Default() != nil {
							dflt = fmt.Sprintf(" default=%#v", y.Default())
						}
						add("%s resource %s method %s param %s %s%s%s%s%s", p, r.Name(), x.Name(), y.Name(), typeText(y.Type()), dir, dflt, annText(y), docText(y.Doc()))
						if y.Owner() != x {
							add("!%s resource %s method %s param %s owner", p, r.Name(), x.Name(), y.Name())
						}
						checkRef(fmt.Sprintf("resource %s method %s param %s", r.Name(), x.Name(), y.Name()), y.Type(), nil)
					}
				}
				for _, l := range r.Locators() {
					variable := ""
					if l.Variable() {
						variable = " variable"
					}
					target := "<nil>"
					if l.Target() != nil {
						target = l.Target().Name().String()
						if v.FindResource(l.Target().Name()) != l.Target() {
							add("!%s resource %s locator %s refers to other version", p, r.Name(), l.Name())
						}
					}
					add("%s resource %s locator %s target=%s%s%s%s", p, r.Name(), l.Name(), target, variable, annText(l), docText(l.Doc()))
					if l.Owner() != r {
						add("!%s resource %s locator %s owner", p, r.Name(), l.Name())
					}
				}
			}
			for _, x := range v.Errors() {
				add("%s error %s code=%d%s%s", p, x.Name(), x.Code(), annText(x), docText(x.Doc()))
			}
		}
	}
	sort.Strings(lines)
	return lines
}

// Diff describes the differences between two sorted sets of lines.
func Diff(got, want []string) string {
	g := map[string]int{}
	for _, x := range got {
		g[x]++
	}
	w := map[string]int{}
	for _, x := range want {
		w[x]++
	}
	var out []string
	for _, x := range want {
		if g[x] < w[x] {
			out = append(out, "missing: "+x)
			w[x]--
		}
	}
	for _, x := range want {
		w[x] = 0
	}
	for _, x := range want {
		w[x]++
	}
	for _, x := range got {
		if w[x] < g[x] {
			out = append(out, "unexpected: "+x)
			g[x]--
		}
	}
	return strings.Join(out, "\n")
}

func before(a, b *names.Name) bool {
	x, y := a.Words(), b.Words()
	for i := 0; i < len(x) && i < len(y); i++ {
		if x[i].String() != y[i].String() {
			return x[i].String() < y[i].String()
		}
	}
	return len(x) < len(y)
}

func kindText(t *concepts.Type) string {
	switch t.Kind() {
	case concepts.ScalarType:
		return "scalar"
	case concepts.InterfaceType:
		return "interface"
	case concepts.EnumType:
		return "enum"
	case concepts.StructType:
		return "struct"
	case concepts.ClassType:
		return "class"
	case concepts.ListType:
		return "list"
	case concepts.MapType:
		return "map"
	}
	return "undefined"
}
