package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"verif/lib/engine"
	. "verif/lib/spec"
)

// cliModel is the correct model used to check the command line.
func cliModel(service string) *Model {
	m := &Model{Services: []*Service{{Name: N(service), Versions: []*Version{
		{
			Name: N("v1"),
			Types: []*Type{
				mkEnum("color", "red", "blue"),
				mkStruct("leaf", mkAttr("shade", P("color")), mkAttr("dates", M("Date"))),
				mkClass("node", mkAttr("leaf", P("leaf")), mkLink("nodes", L("node"))),
			},
			Resources: []*Resource{
				{Name: N("root"), Locators: []*Locator{mkLoc("nodes", "nodes", false)}},
				{Name: N("nodes"), Methods: []*Method{
					mkMethod("list", mkDflt("page", 1), mkDflt("size", 100), mkOut("total", P("Integer")), mkOut("items", L("node"))),
					mkMethod("add", mkInOut("body", P("node")))},
					Locators: []*Locator{mkLoc("node", "node", true)}},
				{Name: N("node"), Methods: []*Method{mkMethod("get", mkOut("body", P("node"))), mkMethod("paint", mkIn("shade", P("color")))}},
			},
			Errors: []*Error{{Name: N("not_found"), Code: 404}},
		},
		{
			Name:      N("v2"),
			Types:     []*Type{mkStruct("other", mkAttr("name", P("String")))},
			Resources: []*Resource{rootOnly()},
		},
	}}}}
	return m.Link()
}

// goTypes finds the names of the types declared in each package of the directory.
func goTypes(dir string) (map[string]map[string]bool, string) {
	result := map[string]map[string]bool{}
	for name, text := range tree(dir) {
		if filepath.Ext(name) != ".go" {
			continue
		}
		f, err := parser.ParseFile(token.NewFileSet(), name, text, 0)
		if err != nil {
			return nil, err.Error()
		}
		pkg := filepath.Dir(name)
		if result[pkg] == nil {
			result[pkg] = map[string]bool{}
		}
		for _, d := range f.Decls {
			if g, ok := d.(*ast.GenDecl); ok {
				for _, s := range g.Specs {
					if t, ok := s.(*ast.TypeSpec); ok {
						result[pkg][t.Name.Name] = true
					}
				}
			}
		}
	}
	return result, ""
}

// complete checks that the output of the command is complete. It returns the description of what is
// missing.
func complete(command, dir string, models ...*Model) string {
	switch command {
	case "go":
		types, problem := goTypes(dir)
		if problem != "" {
			return problem
		}
		need := func(pkg, name string) string {
			if !types[pkg][name] {
				return fmt.Sprintf("type %s.%s hasn't been generated", pkg, name)
			}
			return ""
		}
		var names [][2]string
		for _, m := range models {
			for _, s := range m.Services {
				names = append(names, [2]string{s.Name.Joined(), "Client"})
				for _, v := range s.Versions {
					pkg := s.Name.Joined() + "/" + v.Name.Joined()
					for _, t := range v.Types {
						names = append(names, [2]string{pkg, t.GoName()})
						if t.Kind != Enum {
							names = append(names, [2]string{pkg, t.GoName() + "Builder"}, [2]string{pkg, t.GoName() + "List"}, [2]string{pkg, t.GoName() + "ListBuilder"})
						}
					}
					for _, r := range v.Resources {
						if r.Name.String() == "root" {
							names = append(names, [2]string{pkg, "Client"})
						} else {
							names = append(names, [2]string{pkg, r.Name.Public() + "Client"})
						}
					}
					names = append(names, [2]string{pkg, "Metadata"}, [2]string{pkg, "MetadataRequest"})
				}
			}
		}
		names = append(names, [2]string{"errors", "Error"})
		for _, n := range names {
			if p := need(n[0], n[1]); p != "" {
				return p
			}
		}
	case "openapi":
		for _, m := range models {
			for _, s := range m.Services {
				for _, v := range s.Versions {
					if data, err := os.ReadFile(filepath.Join(dir, v.Dir(), "openapi.json")); err != nil || len(data) == 0 {
						return fmt.Sprintf("specification of %s hasn't been generated", v.Key())
					}
				}
			}
		}
	case "docs":
		need := []string{"index.md"}
		for _, m := range models {
			for _, s := range m.Services {
				for _, v := range s.Versions {
					for _, t := range v.Types {
						need = append(need, t.Name.Snake()+"_type.md")
					}
					for _, r := range v.Resources {
						need = append(need, r.Name.Snake()+"_resource.md")
					}
				}
			}
		}
		for _, name := range need {
			if data, err := os.ReadFile(filepath.Join(dir, name)); err != nil || len(data) == 0 {
				return fmt.Sprintf("document %s hasn't been generated", name)
			}
		}
	}
	return ""
}

func init() {
	type input struct {
		name   string
		make   func(env *Env) []string // Returns the values of the model option
		models []*Model                // Models that are correct, empty if incorrect
	}
	write := func(env *Env, files Files) string {
		dir := env.Dir()
		writeFiles(dir, files)
		return dir
	}
	with := func(m *Model, name, text string) Files {
		files := Files(m.Files())
		files[name] = text
		return files
	}
	alpha, beta := cliModel("alpha"), cliModel("beta_svc")
	var inputs []input
	bad := func(name, file, text string) {
		inputs = append(inputs, input{name: name, make: func(env *Env) []string {
			return []string{write(env, with(cliModel("alpha"), file, text))}
		}})
	}
	good := func(name, file, text string) {
		inputs = append(inputs, input{name: name, models: []*Model{alpha}, make: func(env *Env) []string {
			return []string{write(env, with(cliModel("alpha"), file, text))}
		}})
	}
	good("correct", "readme.txt", "This isn't part of the model {")
	good("file in service", "alpha/readme.txt", "This isn't part of the model {")
	good("directory in version", "alpha/v1/sub/x.model", "struct X {")
	good("warnings", "alpha/v1/x.model", "resource Xs { method List { out Items []Node } }")
	bad("syntax error", "alpha/v1/zz.model", "struct X {")
	bad("syntax error in first file", "alpha/v1/a.model", "strukt X {}")
	bad("unknown character", "alpha/v1/zz.model", "struct X { A Integer # }")
	bad("trailing text", "alpha/v1/zz.model", "struct X {} }")
	bad("undefined type", "alpha/v1/zz.model", "struct X { A Unknown }")
	bad("undefined resource", "alpha/v1/zz.model", "resource X { locator Y { target Unknown } }")
	bad("duplicated type", "alpha/v1/zz.model", "class Node { }")
	bad("duplicated error", "alpha/v1/zz.model", "error NotFound { code 1 }")
	bad("missing root", "alpha/v3/zz.model", "class Node { }")
	bad("incorrect method", "alpha/v1/zz.model", "resource X { method Add { in Body Node } }")
	bad("incorrect default", "alpha/v1/zz.model", "resource X { method Act { in Y Integer = \"a\" } }")
	bad("loop", "alpha/v3/zz.model", "resource Root { locator Y { target Root } }")
	bad("incorrect second version", "alpha/v2/zz.model", "struct X { A Unknown }")
	var many, manyWarnings strings.Builder
	for i := 0; i < 256; i++ {
		fmt.Fprintf(&many, "struct X%s { A Unknown }\n", nth(i))
		fmt.Fprintf(&manyWarnings, "resource X%s { method List { out Items []Node } }\n", nth(i))
	}
	bad("many errors", "alpha/v1/zz.model", many.String())
	bad("one error per version", "alpha/v2/zz.model", strings.Replace(many.String(), "Unknown", "String", 255))
	good("many warnings", "alpha/v1/zz.model", manyWarnings.String())
	bad("incorrect reference", "alpha/v2/zz.model", "@ref(path = \"alpha/v1/missing\")\nclass Missing { }")
	inputs = append(inputs,
		input{name: "no such directory", make: func(env *Env) []string { return []string{filepath.Join(env.Dir(), "nothing")} }},
		input{name: "file instead of directory", make: func(env *Env) []string {
			dir := write(env, Files{"x.model": "resource Root {}"})
			return []string{filepath.Join(dir, "x.model")}
		}},
		input{name: "two inputs", models: []*Model{alpha, beta}, make: func(env *Env) []string {
			return []string{write(env, Files(alpha.Files())), write(env, Files(beta.Files()))}
		}},
		input{name: "two inputs, second incorrect", make: func(env *Env) []string {
			return []string{write(env, Files(alpha.Files())), write(env, with(beta, "beta_svc/v1/zz.model", "struct X { A Unknown }"))}
		}},
		input{name: "two inputs, first incorrect", make: func(env *Env) []string {
			return []string{write(env, with(beta, "beta_svc/v1/zz.model", "struct X { A Unknown }")), write(env, Files(alpha.Files()))}
		}},
		input{name: "two inputs, first missing", make: func(env *Env) []string {
			return []string{filepath.Join(env.Dir(), "nothing"), write(env, Files(alpha.Files()))}
		}},
		input{name: "two inputs with the same version", make: func(env *Env) []string {
			return []string{write(env, Files(alpha.Files())), write(env, Files(alpha.Files()))}
		}},
		input{name: "two inputs with parts of the same version", models: []*Model{alpha}, make: func(env *Env) []string {
			one, two := Files{}, Files{}
			for _, v := range alpha.Services[0].Versions {
				for i, d := range v.Decls() {
					if i%2 == 0 {
						one[fmt.Sprintf("%s/f%d.model", v.Dir(), i)] = d
					} else {
						two[fmt.Sprintf("%s/f%d.model", v.Dir(), i)] = d
					}
				}
			}
			return []string{write(env, one), write(env, two)}
		}},
	)
	commands := []struct {
		name    string
		args    []string
		options []string
	}{
		{"check", []string{"check"}, []string{"model"}},
		{"go", []string{"generate", "go"}, []string{"model", "base", "output"}},
		{"openapi", []string{"generate", "openapi"}, []string{"model", "output"}},
		{"docs", []string{"generate", "docs"}, []string{"model", "output"}},
	}
	properties["P10"] = &Property{
		Sharded: true,
		Prepare: buildTool,
		Rule:    "one execution of the tool per command, set of options, input and fault; outcomes are the distinct combinations of command, input and result",
		Assumptions: []string{
			"faults are injected replacing output files by directories and output directories by files, and making the formatter unavailable; partial writes of the operating system aren't simulated",
		},
		Run: func(env *Env, r *engine.Report) {
			invoke := func(c *engine.Ctx, dir string, vars []string, args ...string) (int, string) {
				code, out := env.run(dir, vars, 240*time.Second, env.tool(), args...)
				c.Step(1)
				if code < 0 || strings.Contains(out, "goroutine 1 [running]") {
					c.Fail("command %v crashes with code %d: %s", args, code, tail(out, 1500))
				}
				return code, out
			}
			r.Explore("options and inputs", fmt.Sprintf("all the subsets of the options of the four commands with %d inputs, with the output existing or not", len(inputs)), func(c *engine.Ctx) {
				cmd := engine.Pick(c, "command", commands)
				missing := false
				args := append([]string{}, cmd.args...)
				dir := ""
				given := map[string]bool{}
				for _, option := range cmd.options {
					given[option] = c.Flag(option)
					missing = missing || !given[option]
				}
				in := inputs[0]
				if given["model"] {
					if missing {
						in = inputs[[]int{0, 4}[c.Choose("input", 2)]]
					} else {
						in = engine.Pick(c, "input", inputs)
					}
				}
				joined := given["model"] && strings.HasPrefix(in.name, "two") && c.Flag("separated by commas")
				c.Commit()
				dir = env.Module()
				defer os.RemoveAll(dir)
				must(os.MkdirAll(filepath.Join(dir, "out", "old"), 0o755))
				must(os.WriteFile(filepath.Join(dir, "out", "old", "note.txt"), []byte("keep"), 0o644))
				before := tree(dir)
				var sources []Files
				var dirs []string
				if given["model"] {
					dirs = in.make(env)
					for _, x := range dirs {
						sources = append(sources, tree(x))
						defer os.RemoveAll(x)
					}
					if joined {
						args = append(args, "--model", strings.Join(dirs, ","))
					} else {
						for _, x := range dirs {
							args = append(args, "--model", x)
						}
					}
				}
				if given["base"] {
					args = append(args, "--base", Base+"/out")
				}
				if given["output"] {
					args = append(args, "--output", filepath.Join(dir, "out"))
				}
				code, out := invoke(c, dir, nil, args...)
				after := tree(dir)
				what := fmt.Sprintf("command %v with input '%s'", args, in.name)
				want := !missing && len(in.models) > 0
				c.Check((code == 0) == want, "%s: exit code is %d but success should be %v: %s", what, code, want, toolLog(out))
				if !want || cmd.name == "check" {
					c.Check(fmt.Sprint(before) == fmt.Sprint(after), "%s: it shouldn't write anything but there are %v", what, after.names())
				} else {
					problem := complete(cmd.name, filepath.Join(dir, "out"), in.models...)
					c.Check(problem == "", "%s: %s", what, problem)
				}
				if want {
					c.Check(!strings.Contains(out, "E:\x1b"), "%s: errors reported for correct model: %s", what, toolLog(out))
				} else {
					c.Check(strings.Contains(out, "E:\x1b"), "%s: no error reported for incorrect model: %s", what, out)
				}
				c.Check(after["out/old/note.txt"] == "keep", "%s: existing file was modified", what)
				for i, x := range dirs {
					c.Check(fmt.Sprint(tree(x)) == fmt.Sprint(sources[i]), "%s: the model was modified", what)
				}
				c.Outcome(fmt.Sprintf("%s %s %d", cmd.name, in.name, code))
			})

			r.Explore("paths", "absolute and relative paths of the model and of the output, with and without a slash at the end, of directories that exist or that don't exist, for all the commands", func(c *engine.Ctx) {
				cmd := engine.Pick(c, "command", commands)
				model := engine.Pick(c, "model", []string{"model", "./model", "../%s/model", "model/", "/model"})
				output := engine.Pick(c, "output", []string{"out", "./out", "out/", "/out", "new", "new/nested/deep", "/new/nested"})
				if cmd.name == "check" && output != "out" {
					c.Skip()
				}
				c.Commit()
				dir := env.Module()
				defer os.RemoveAll(dir)
				writeFiles(filepath.Join(dir, "model"), Files(alpha.Files()))
				must(os.MkdirAll(filepath.Join(dir, "out"), 0o755))
				resolve := func(path string) string {
					if strings.Contains(path, "%") {
						path = fmt.Sprintf(path, filepath.Base(dir))
					}
					if strings.HasPrefix(path, "/") {
						path = dir + path
					}
					return path
				}
				args := append(append([]string{}, cmd.args...), "--model", resolve(model))
				if cmd.name != "check" {
					args = append(args, "--output", resolve(output))
				}
				where := strings.TrimPrefix(filepath.Clean(output), "/")
				if cmd.name == "go" {
					args = append(args, "--base", Base+"/"+where)
				}
				code, out := invoke(c, dir, nil, args...)
				c.Check(code == 0, "command %v: exit code is %d: %s", args, code, toolLog(out))
				if cmd.name != "check" {
					problem := complete(cmd.name, filepath.Join(dir, where), alpha)
					c.Check(problem == "", "command %v: %s", args, problem)
				}
				for name := range tree(dir) {
					inside := strings.HasPrefix(name, "model/") || name == "go.mod" || cmd.name != "check" && strings.HasPrefix(name, where+"/")
					c.Check(inside, "command %v: file '%s' isn't in the output directory", args, name)
				}
				c.Outcome(fmt.Sprint(cmd.name, model, output))
			})
			r.Explore("large models", "models with 40 things in each dimension, for all the commands", func(c *engine.Ctx) {
				cmd := engine.Pick(c, "command", commands)
				dimension := engine.Pick(c, "dimension", largeDimensions)
				incorrect := c.Flag("incorrect")
				c.Commit()
				m := makeLarge(dimension, 40)
				dir := env.Module()
				defer os.RemoveAll(dir)
				files := Files(m.Files())
				if incorrect {
					files["my_service/v1/zz.model"] = "struct ZzLast { A Unknown }"
				}
				writeFiles(filepath.Join(dir, "model"), files)
				args := append(append([]string{}, cmd.args...), "--model", "model")
				if cmd.name != "check" {
					args = append(args, "--output", "out")
				}
				if cmd.name == "go" {
					args = append(args, "--base", Base+"/out")
				}
				code, out := invoke(c, dir, nil, args...)
				c.Check((code == 0) == !incorrect, "command %v with 40 %s (incorrect: %v): exit code is %d: %s", args, dimension, incorrect, code, toolLog(out))
				if incorrect || cmd.name == "check" {
					_, err := os.Stat(filepath.Join(dir, "out"))
					c.Check(err != nil, "command %v: it shouldn't write anything", args)
				} else {
					problem := complete(cmd.name, filepath.Join(dir, "out"), m)
					c.Check(problem == "", "command %v: %s", args, problem)
				}
				c.Outcome(fmt.Sprint(cmd.name, dimension, incorrect))
			})

			// Names of the files generated by each command, needed to inject faults:
			for _, cmd := range commands[1:] {
				var names []string
				generate := func(dir string, model string) []string {
					args := append(append([]string{}, cmd.args...), "--model", model, "--output", filepath.Join(dir, "out"))
					if cmd.name == "go" {
						args = append(args, "--base", Base+"/out")
					}
					return args
				}
				model := env.Dir()
				writeFiles(model, Files(cliModel("alpha").Files()))
				dir := env.Module()
				env.run(dir, nil, 240*time.Second, env.tool(), generate(dir, model)...)
				seen := map[string]bool{}
				for name := range tree(filepath.Join(dir, "out")) {
					names = append(names, name)
					for x := filepath.Dir(name); x != "."; x = filepath.Dir(x) {
						if !seen[x] {
							seen[x] = true
							names = append(names, x+"/")
						}
					}
				}
				sort.Strings(names)
				names = append(names, "/")
				os.RemoveAll(dir)
				r.Explore("faults of "+cmd.name, "each one of the files and directories of the output can't be created, and each one of the files is in a device that is full", func(c *engine.Ctx) {
					name := engine.Pick(c, "name", names)
					isDir := strings.HasSuffix(name, "/")
					full := !isDir && c.Flag("full")
					c.Commit()
					dir := env.Module()
					defer os.RemoveAll(dir)
					path := filepath.Join(dir, "out", name)
					switch {
					case full:
						must(os.MkdirAll(filepath.Dir(path), 0o755))
						must(os.Symlink("/dev/full", path))
					case isDir:
						must(os.MkdirAll(filepath.Dir(path), 0o755))
						must(os.WriteFile(path, []byte("block"), 0o644))
					default:
						must(os.MkdirAll(path, 0o755))
					}
					args := generate(dir, model)
					code, out := invoke(c, dir, nil, args...)
					c.Check(code != 0, "command %v: exit code is zero but '%s' couldn't be written: %s", args, name, tail(out, 500))
					c.Outcome(fmt.Sprint(cmd.name, " ", name, full))
				})
			}
			r.Explore("formatter", "the formatter isn't available or fails", func(c *engine.Ctx) {
				fails := c.Flag("fails")
				c.Commit()
				model := env.Dir()
				defer os.RemoveAll(model)
				writeFiles(model, Files(cliModel("alpha").Files()))
				dir := env.Module()
				defer os.RemoveAll(dir)
				bin := env.Dir()
				if fails {
					must(os.WriteFile(filepath.Join(bin, "goimports"), []byte("#!/bin/sh\nexit 3\n"), 0o755))
				}
				code, out := invoke(c, dir, []string{"PATH=" + bin}, "generate", "go", "--model", model, "--base", Base+"/out", "--output", filepath.Join(dir, "out"))
				c.Check(code != 0, "exit code is zero but the formatter doesn't work: %s", tail(out, 500))
				c.Outcome(fmt.Sprint(fails))
			})
			r.Explore("unknown commands", "unknown sub-commands and options are rejected", func(c *engine.Ctx) {
				args := engine.Pick(c, "args", [][]string{{"bad"}, {"generate", "go", "--bad"}, {"check", "--bad"}, {"generate", "docs", "--model"}})
				c.Commit()
				code, out := invoke(c, env.Dir(), nil, args...)
				c.Check(code != 0, "command %v should fail: %s", args, out)
			})
		},
	}
}
