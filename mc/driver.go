package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"

	"verif/lib/engine"
	"verif/lib/models"
	. "verif/lib/spec"
)

// driver registers a property that is decided by the driver, compiled with the code generated from the
// given model. Other explorations, done before, can be added.
func driver(id string, quick, thorough string, before func(env *Env, r *engine.Report)) {
	properties[id] = &Property{
		Run: func(env *Env, r *engine.Report) {
			env.BuildTool()
			if before != nil {
				before(env, r)
				if len(r.Violations()) > 0 {
					return
				}
				data, err := json.Marshal(r.Part())
				must(err)
				must(os.WriteFile(filepath.Join(env.Work, "before.json"), data, 0o644))
			}
			model := quick
			if env.Tier == "thorough" {
				model = thorough
			}
			path, problem := env.BuildDriver(model)
			if problem != "" {
				r.Explore("generate and compile", "the reference model", func(c *engine.Ctx) { c.Fail("%s", problem) })
				return
			}
			cmd := exec.Command(path, "-property", id, "-tier", env.Tier, "-work", env.Work)
			// The library used to log errors writes files to the temporary directory:
			cmd.Env = append(os.Environ(), "TMPDIR="+env.Work)
			cmd.Stdout = os.Stdout
			cmd.Stderr = os.Stderr
			err := cmd.Run()
			if err == nil {
				os.Exit(0)
			}
			if exit, ok := err.(*exec.ExitError); ok && exit.ExitCode() == 1 {
				os.Exit(1)
			}
			r.Explore("driver", "the reference model", func(c *engine.Ctx) { c.Fail("the driver failed: %v", err) })
		},
		Rule: "the driver of the generated code",
	}
}

func init() {
	for _, id := range []string{"P11", "P12", "P13", "P14", "P15", "P18", "P19", "P20", "P21", "P22", "P23", "P24"} {
		driver(id, "Full", "Full", nil)
	}
	driver("P16", "Counts", "CountsAll", tooMany)
}

// BuildDriver generates the code of the model, adds the driver and compiles it.
func (e *Env) BuildDriver(name string) (path, problem string) {
	model := models.All[name]()
	dir, problem := e.GenerateGo(Files(model.Files()))
	if problem != "" {
		return
	}
	sources, err := filepath.Glob(filepath.Join(e.Root, "drv", "*.go"))
	must(err)
	drv := filepath.Join(dir, "zzdriver")
	must(os.MkdirAll(drv, 0o755))
	for _, source := range sources {
		data, err := os.ReadFile(source)
		must(err)
		must(os.WriteFile(filepath.Join(drv, filepath.Base(source)), data, 0o644))
	}
	must(os.WriteFile(filepath.Join(drv, "generated.go"), []byte(registry(name, model)), 0o644))
	mod, err := os.ReadFile(filepath.Join(dir, "go.mod"))
	must(err)
	text := string(mod) + "\nrequire verif/lib v0.0.0\nreplace verif/lib => " + filepath.Join(e.Root, "lib") + "\n"
	must(os.WriteFile(filepath.Join(dir, "go.mod"), []byte(text), 0o644))
	path = filepath.Join(e.Work, "driver")
	code, out := e.run(dir, nil, 800*time.Second, "go", "build", "-trimpath", "-o", path, "./zzdriver")
	if code != 0 {
		problem = fmt.Sprintf("code generated for the reference model doesn't compile: %s", tail(out, 3000))
	}
	return
}

// registry generates the source of the registry of the package level identifiers of the generated code.
func registry(name string, model *Model) string {
	var imports, b strings.Builder
	n := 0
	for i, s := range model.Services {
		fmt.Fprintf(&imports, "\ts%d %q\n", i, Base+"/"+s.Name.Joined())
		fmt.Fprintf(&b, "\tservices[%q] = s%d.NewClient\n", s.Name.Snake(), i)
		for _, v := range s.Versions {
			p := fmt.Sprintf("p%d", n)
			n++
			fmt.Fprintf(&imports, "\t%s %q\n", p, Base+"/"+s.Name.Joined()+"/"+v.Name.Joined())
			fmt.Fprintf(&b, "\tversions[%q] = &VersionReg{\n\t\tNewClient: %s.NewClient,\n\t\tMetadata: [2]any{%s.MarshalMetadata, %s.UnmarshalMetadata},\n\t\tOpenAPI: %s.OpenAPI,\n", v.Key(), p, p, p, p)
			if len(v.Errors) > 0 {
				b.WriteString("\t\tErrors: map[string]any{\n")
				for _, x := range v.Errors {
					fmt.Fprintf(&b, "\t\t\t%q: %s.%sError,\n", x.Name.String(), p, x.Name.Public())
				}
				b.WriteString("\t\t},\n")
			}
			b.WriteString("\t\tTypes: map[string]*TypeReg{\n")
			lists := map[string]bool{}
			use := func(r Ref) {
				if r.Shape == List {
					lists[r.Elem] = true
				}
			}
			for _, t := range v.Types {
				for _, a := range t.Attrs {
					use(a.Type)
				}
			}
			for _, r := range v.Resources {
				for _, m := range r.Methods {
					for _, x := range m.Params {
						use(x.Type)
					}
				}
			}
			for _, e := range Builtins {
				if lists[e] {
					fmt.Fprintf(&b, "\t\t\t%q: {MarshalList: %s.Marshal%sList, UnmarshalList: %s.Unmarshal%sList},\n", e, p, e, p, e)
				}
			}
			for _, t := range v.Types {
				g := t.GoName()
				fmt.Fprintf(&b, "\t\t\t%q: {\n", t.Name.String())
				if t.Kind == Enum {
					b.WriteString("\t\t\t\tValues: map[string]any{")
					for _, x := range t.Values {
						fmt.Fprintf(&b, "%q: %s.%s%s, ", x.Name.String(), p, g, x.Name.Public())
					}
					b.WriteString("},\n")
					if lists[t.Name.String()] {
						fmt.Fprintf(&b, "\t\t\t\tMarshalList: %s.Marshal%sList, UnmarshalList: %s.Unmarshal%sList,\n", p, t.Name.Public(), p, t.Name.Public())
					}
				} else {
					fmt.Fprintf(&b, "\t\t\t\tNew: %s.New%s, NewList: %s.New%sList,\n", p, g, p, g)
					fmt.Fprintf(&b, "\t\t\t\tMarshal: %s.Marshal%s, Unmarshal: %s.Unmarshal%s, MarshalList: %s.Marshal%sList, UnmarshalList: %s.Unmarshal%sList,\n", p, g, p, g, p, t.Name.Public(), p, t.Name.Public())
					fmt.Fprintf(&b, "\t\t\t\tNil: (*%s.%s)(nil), NilList: (*%s.%sList)(nil),\n", p, g, p, g)
					fmt.Fprintf(&b, "\t\t\t\tListKind: %s.%sListKind, ListLinkKind: %s.%sListLinkKind, ListNilKind: %s.%sListNilKind,\n", p, g, p, g, p, g)
					if t.Kind == Class {
						fmt.Fprintf(&b, "\t\t\t\tKind: %s.%sKind, LinkKind: %s.%sLinkKind, NilKind: %s.%sNilKind,\n", p, g, p, g, p, g)
					}
				}
				b.WriteString("\t\t\t},\n")
			}
			b.WriteString("\t\t},\n\t}\n")
		}
	}
	return "package main\n\nimport (\n\t\"verif/lib/models\"\n" + imports.String() + ")\n\nfunc init() {\n\tmodel = models.All[\"" + name + "\"]()\n" + b.String() + "}\n"
}
