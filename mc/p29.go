package main

import (
	"encoding/json"
	"fmt"
	"go/format"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"verif/lib/engine"
	"verif/lib/models"
	. "verif/lib/spec"
)

// The order of the iterations of maps of the tool is controlled: the tool is built with a modified copy of
// the `internal/runtime/maps` package where the random offset of each iteration is taken from a plan, and
// where the number of elements is written to a log. Both are in a file mapped to memory. The first byte of
// the file is the seed of the hash of the maps.
const (
	mapsMax  = 1 << 16
	mapsFile = 1 + 2*mapsMax
)

const mapsHook = `package maps

import "unsafe"

//go:linkname VerifPlan
var VerifPlan unsafe.Pointer

var verifCount uintptr

const verifMax = %d

func verifOffset(m *Map) uint64 {
	if VerifPlan == nil || m.used < 2 {
		return 0
	}
	i := verifCount
	verifCount++
	if i >= verifMax {
		return 0
	}
	size := m.used
	if size > 255 {
		size = 255
	}
	*(*byte)(unsafe.Add(VerifPlan, 1+verifMax+i)) = byte(size)
	return uint64(*(*byte)(unsafe.Add(VerifPlan, 1+i)))
}

func verifSeed() uint64 {
	if VerifPlan == nil {
		return 0
	}
	return uint64(*(*byte)(VerifPlan)) * 0x9e3779b97f4a7c15
}
`

const mapsMain = `package main

import (
	"os"
	"syscall"
	"unsafe"
)

//go:linkname verifPlan internal/runtime/maps.VerifPlan
var verifPlan unsafe.Pointer

func init() {
	name := os.Getenv("VERIF_MAPS")
	if name == "" {
		return
	}
	file, err := os.OpenFile(name, os.O_RDWR, 0)
	if err != nil {
		panic(err)
	}
	data, err := syscall.Mmap(int(file.Fd()), 0, %d, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		panic(err)
	}
	verifPlan = unsafe.Pointer(&data[0])
}
`

func (e *Env) mapsTool() string { return filepath.Join(e.Work, "metamodel-maps") }
func (e *Env) stub() string     { return filepath.Join(e.Work, "stub") }

func replaceCount(text, old, new string, count int) string {
	if strings.Count(text, old) != count {
		fmt.Fprintf(os.Stderr, "can't find '%s' in the source of the runtime\n", old)
		os.Exit(2)
	}
	return strings.ReplaceAll(text, old, new)
}

// BuildMapsTool builds the tool with control of the order of maps.
func (e *Env) BuildMapsTool() {
	dir := filepath.Join(e.Work, "maps")
	must(os.MkdirAll(dir, 0o755))
	_, root := e.run(dir, nil, time.Minute, "go", "env", "GOROOT")
	src := filepath.Join(strings.TrimSpace(root), "src", "internal", "runtime", "maps")
	overlay := map[string]string{}
	add := func(name, place, text string) {
		path := filepath.Join(dir, name)
		must(os.WriteFile(path, []byte(text), 0o644))
		overlay[place] = path
	}
	read := func(name string) string {
		data, err := os.ReadFile(filepath.Join(src, name))
		must(err)
		return string(data)
	}
	text := replaceCount(read("table.go"), "it.entryOffset = rand()", "it.entryOffset = verifOffset(m)", 1)
	text = replaceCount(text, "it.dirOffset = rand()", "it.dirOffset = 0", 1)
	add("table.go", filepath.Join(src, "table.go"), text)
	text = read("map.go")
	text = replaceCount(text, "m.seed = uintptr(rand())", "m.seed = uintptr(verifSeed())", strings.Count(text, "m.seed = uintptr(rand())"))
	add("map.go", filepath.Join(src, "map.go"), text)
	add("hook.go", filepath.Join(src, "zz_verif.go"), fmt.Sprintf(mapsHook, mapsMax))
	add("main.go", filepath.Join(e.Repo, "cmd", "metamodel", "zz_verif.go"), fmt.Sprintf(mapsMain, mapsFile))
	data, err := json.Marshal(map[string]any{"Replace": overlay})
	must(err)
	file := filepath.Join(dir, "overlay.json")
	must(os.WriteFile(file, data, 0o644))
	code, out := e.run(e.Repo, nil, 800*time.Second, "go", "build", "-overlay", file, "-ldflags=-checklinkname=0", "-o", e.mapsTool(), "./cmd/metamodel")
	if code != 0 {
		fmt.Fprintf(os.Stderr, "can't build the tool: %s\n", out)
		os.Exit(2)
	}
	// The formatter does nothing, files are formatted by the check:
	must(os.MkdirAll(e.stub(), 0o755))
	must(os.WriteFile(filepath.Join(e.stub(), "goimports"), []byte("#!/bin/sh\nexit 0\n"), 0o755))
}

// mapsRun is the result of a run of the tool with a plan.
type mapsRun struct {
	code  int
	log   []byte   // Sizes of the maps of the iterations
	lines []string // Sorted messages
	files Files
}

// RunMaps runs the tool with the given seed and offsets for the iterations.
func (e *Env) RunMaps(what string, model string, seed byte, plan func(i int) byte, before func(dir string)) *mapsRun {
	dir := e.Dir()
	defer os.RemoveAll(dir)
	control := filepath.Join(dir, "control")
	data := make([]byte, mapsFile)
	data[0] = seed
	if plan != nil {
		for i := 0; i < mapsMax; i++ {
			data[1+i] = plan(i)
		}
	}
	must(os.WriteFile(control, data, 0o644))
	out := filepath.Join(dir, "out")
	must(os.MkdirAll(out, 0o755))
	if before != nil {
		before(out)
	}
	args := []string{"generate", what, "--model", model, "--output", out}
	switch what {
	case "check":
		args = []string{"check", "--model", model}
	case "go":
		args = append(args, "--base", Base)
	}
	vars := []string{"VERIF_MAPS=" + control, "PATH=" + e.stub() + ":" + os.Getenv("PATH"), "TMPDIR=" + dir}
	r := &mapsRun{}
	var text string
	r.code, text = e.run(dir, vars, 120*time.Second, e.mapsTool(), args...)
	text = strings.ReplaceAll(text, dir, "")
	r.lines = strings.Split(text, "\n")
	sort.Strings(r.lines)
	data, err := os.ReadFile(control)
	must(err)
	r.log = data[1+mapsMax:]
	for len(r.log) > 0 && r.log[len(r.log)-1] == 0 {
		r.log = r.log[:len(r.log)-1]
	}
	r.files = tree(out)
	return r
}

// formatted returns the formatted text, if it is a Go source file.
func formatted(name, text string) string {
	if strings.HasSuffix(name, ".go") {
		data, err := format.Source([]byte(text))
		if err == nil {
			return string(data)
		}
	}
	return text
}

// difference compares two runs.
func (r *mapsRun) difference(o *mapsRun) string {
	if r.code != o.code {
		return fmt.Sprintf("exit code is %d instead of %d: %s", r.code, o.code, tail(strings.Join(r.lines, "\n"), 1000))
	}
	if x, y := fmt.Sprint(r.files.names()), fmt.Sprint(o.files.names()); x != y {
		return fmt.Sprintf("files are %s instead of %s", tail(x, 1000), tail(y, 1000))
	}
	for _, name := range r.files.names() {
		x, y := r.files[name], o.files[name]
		if x == y {
			continue
		}
		x, y = formatted(name, x), formatted(name, y)
		if x != y {
			return fmt.Sprintf("file '%s' is different: %s", name, tail(Diff(strings.Split(x, "\n"), strings.Split(y, "\n")), 1000))
		}
	}
	if x, y := messages(r.lines), messages(o.lines); x != y {
		return fmt.Sprintf("messages are '%s' instead of '%s'", tail(x, 1000), tail(y, 1000))
	}
	return ""
}

// messages returns the messages that aren't information.
func messages(lines []string) string {
	return toolLog(strings.Join(lines, "\n"))
}

// mixedModel is a small model with all the kinds of declarations, and references.
func mixedModel() *Model {
	list, _ := referenceModels()
	m := list[7]
	user := m.Services[1].Versions[0]
	user.Types = append(user.Types, &Type{Name: N("own_enum"), Kind: Enum, Values: []*Value{{Name: N("zz")}, {Name: N("mm")}, {Name: N("aa")}}})
	user.Errors = []*Error{{Name: N("zz_error"), Code: 9}, {Name: N("aa_error"), Code: 12}}
	root := user.Root()
	root.Methods = []*Method{
		{Name: N("do_it"), Params: []*Param{
			param(N("zeta"), P("String"), true, false), param(N("alpha"), L("own_enum"), false, true), param(N("middle"), M("target_class"), true, true),
		}},
		{Name: N("another"), Params: []*Param{param(N("one"), P("own_enum"), true, true), param(N("many"), L("target_class"), false, true)}},
	}
	user.Resources = append(user.Resources, &Resource{Name: N("item"), Methods: []*Method{
		{Name: N("update"), Params: []*Param{param(N("body"), P("target_class"), true, true), param(N("force"), P("Boolean"), true, false)}},
		{Name: N("get"), Params: []*Param{param(N("body"), P("target_class"), false, true)}},
	}})
	root.Locators = append(root.Locators, &Locator{Name: N("item"), Target: "item", Variable: true}, &Locator{Name: N("alt_item"), Target: "item"})
	m.Services[1].Versions = append(m.Services[1].Versions, &Version{Name: N("v2"), Types: common(), Resources: bareRoot(), Errors: []*Error{{Name: N("failed"), Code: 1}}})
	return m.Link()
}

// wrongModel is a model with several errors.
func wrongModel() Files {
	return Files{
		"my_service/v1/one.model":   "class One {\n\tA Missing\n\tB []Absent\n\tlink C Hue\n}\nenum Hue {\n\tRed\n}\n",
		"my_service/v1/two.model":   "resource Root {\n\tlocator Things {\n\t\ttarget Nothing\n\t}\n\tmethod List {\n\t\tin Page Integer\n\t}\n}\n",
		"my_service/v1/three.model": "resource Things {\n\tmethod Add {\n\t\tin Body Unknown\n\t}\n\tmethod Get {\n\t}\n}\n",
		"other_service/v1/a.model":  "struct Two {\n\tA Lost\n}\nstruct Three {\n\tA Two\n}\n",
	}
}

// permutations calls the function with all the permutations of the numbers.
func permutation(c *engine.Ctx, label string, n int) []int {
	rest := make([]int, n)
	for i := range rest {
		rest[i] = i
	}
	var r []int
	for len(rest) > 0 {
		i := c.Choose(label, len(rest))
		r = append(r, rest[i])
		rest = append(append([]int{}, rest[:i]...), rest[i+1:]...)
	}
	return r
}

func permuted[T any](list []T, order []int) []T {
	var r []T
	for _, i := range order {
		r = append(r, list[i])
	}
	return r
}

// plainModel is a small model with several members in each declaration.
func plainModel() *Version {
	return &Version{Name: N("v1"),
		Types: []*Type{
			{Name: N("hue"), Kind: Enum, Values: []*Value{{Name: N("zinc")}, {Name: N("red"), Doc: "Red."}, {Name: N("blue")}}},
			{Name: N("big_thing"), Kind: Class, Attrs: []*Attr{
				attr17(N("zeta"), P("String")), attr17(N("alpha"), L("hue")), {Name: N("middle"), Type: L("big_thing"), Link: true}, attr17(N("next"), M("Integer")),
			}},
			{Name: N("leaf"), Kind: Struct, Attrs: []*Attr{attr17(N("one"), P("big_thing")), attr17(N("another"), P("Boolean"))}},
		},
		Resources: []*Resource{
			{Name: N("root"), Methods: []*Method{
				{Name: N("zap"), Params: []*Param{param(N("zeta"), P("String"), true, false), param(N("alpha"), L("hue"), true, true), param(N("middle"), P("leaf"), false, true)}},
				{Name: N("act")}, {Name: N("run_it"), Doc: "Runs it."},
			}, Locators: []*Locator{{Name: N("zoo"), Target: "leaves"}, {Name: N("area"), Target: "leaves"}, {Name: N("mine"), Target: "leaves", Variable: true}}},
			{Name: N("leaves"), Methods: []*Method{{Name: N("list"), Params: pageParams("leaf")}}},
		},
		Errors: []*Error{{Name: N("zz_error"), Code: 9}, {Name: N("aa_error"), Code: 12}},
	}
}

func init() {
	kinds := []string{"go", "openapi", "docs", "check"}
	properties["P29"] = &Property{
		Sharded: true,
		Prepare: func(env *Env, r *engine.Report) {
			env.BuildMapsTool()
			env.BuildTool()
		},
		Rule: "one execution per run of the command line tool; the order of each iteration of a map inside the tool is a choice, controlled replacing the source of randomness of the runtime; files, exit code and messages are compared with those of the run without deviations; transitions are choices, and outcomes are distinct sequences of map iterations",
		Assumptions: []string{
			"Go sources are compared after formatting them, because the tool formats them in the last step",
			"the order of the messages isn't compared, only the set",
			"orders of maps with more than eight elements are the rotations of the orders given by the explored seeds",
		},
		Run: func(env *Env, r *engine.Report) {
			type base struct {
				label string
				dir   string
				runs  map[string]*mapsRun
			}
			bases := []*base{{label: "mixed"}, {label: "wrong"}, {label: "main"}}
			prepare := func(b *base) {
				if b.dir != "" {
					return
				}
				b.dir = env.Dir()
				switch b.label {
				case "mixed":
					writeFiles(b.dir, Files(mixedModel().Files()))
				case "main":
					writeFiles(b.dir, Files(models.Full().Files()))
				default:
					writeFiles(b.dir, wrongModel())
				}
				b.runs = map[string]*mapsRun{}
			}
			baseline := func(b *base, kind string) *mapsRun {
				prepare(b)
				if b.runs[kind] == nil {
					b.runs[kind] = env.RunMaps(kind, b.dir, 0, nil, nil)
				}
				return b.runs[kind]
			}
			check := func(c *engine.Ctx, b *base, kind string, got *mapsRun) {
				want := baseline(b, kind)
				if b.label != "wrong" {
					c.Check(want.code == 0, "model '%s' was rejected: %s", b.label, tail(strings.Join(want.lines, "\n"), 1000))
				} else {
					c.Check(want.code == 1, "incorrect model was accepted")
				}
				problem := got.difference(want)
				c.Check(problem == "", "model '%s', output '%s': %s", b.label, kind, problem)
			}
			r.Explore("replay", "two runs with the same choices, for all the models and outputs, have the same iterations of maps", func(c *engine.Ctx) {
				b := bases[c.Choose("model", len(bases))]
				kind := kinds[c.Choose("output", len(kinds))]
				c.Commit()
				prepare(b)
				got := env.RunMaps(kind, b.dir, 0, nil, nil)
				check(c, b, kind, got)
				c.Check(string(got.log) == string(baseline(b, kind).log), "the iterations of maps aren't the same")
				c.Check(len(got.log) < mapsMax, "there are too many iterations of maps")
				c.Outcome(fmt.Sprint(b.label, kind, len(got.log)))
			})
			r.Explore("uniform", "the same offset for all the iterations, from 0 to 7, and four seeds, for all the models and outputs", func(c *engine.Ctx) {
				b := bases[c.Choose("model", len(bases))]
				kind := kinds[c.Choose("output", len(kinds))]
				seed := byte(c.Choose("seed", 4))
				offset := byte(c.Choose("offset", 8))
				c.Commit()
				prepare(b)
				got := env.RunMaps(kind, b.dir, seed, func(int) byte { return offset }, nil)
				check(c, b, kind, got)
				c.Outcome(fmt.Sprint(len(got.log), seed, offset))
			})
			count := 2
			if env.Tier == "thorough" {
				count = 3
			}
			r.Explore("deviations", fmt.Sprintf("all the runs where one iteration has a different offset (in the quick tier the first or the last one), for the first %d models and all the outputs", count), func(c *engine.Ctx) {
				b := bases[c.Choose("model", count)]
				kind := kinds[c.Choose("output", len(kinds))]
				want := baseline(b, kind)
				// Iterations done while reading are the same for all the outputs, so they are explored only
				// for the code:
				first := 0
				if kind != "go" {
					if b.label != "wrong" {
						first = len(baseline(b, "check").log)
					}
					if len(want.log) <= first {
						c.Skip()
					}
				}
				at := first + c.Choose("iteration", len(want.log)-first)
				size := int(want.log[at])
				if size > 8 {
					size = 8
				}
				// In the quick tier only the first and last offsets:
				offset := byte(1)
				if env.Tier == "thorough" {
					offset = byte(1 + c.Choose("offset", size-1))
				} else if size > 2 && c.Flag("last") {
					offset = byte(size - 1)
				}
				c.Commit()
				got := env.RunMaps(kind, b.dir, 0, func(i int) byte {
					if i == at {
						return offset
					}
					return 0
				}, nil)
				check(c, b, kind, got)
				c.Check(len(got.log) > at && string(got.log[:at+1]) == string(want.log[:at+1]), "the run didn't follow the plan")
				c.Outcome(fmt.Sprint(b.label, kind, at, offset))
			})

			// Orders and layouts:
			write := func(v *Version, files func(decls []string) Files) string {
				(&Model{Services: []*Service{{Name: N("my_service"), Versions: []*Version{v}}}}).Link()
				dir := env.Dir()
				writeFiles(dir, files(v.Decls()))
				return dir
			}
			one := func(decls []string) Files {
				return Files{"my_service/v1/all.model": strings.Join(decls, "\n")}
			}
			plain := map[string]*mapsRun{}
			plainRun := func(kind string) *mapsRun {
				if plain[kind] == nil {
					dir := write(plainModel(), one)
					plain[kind] = env.RunMaps(kind, dir, 0, nil, nil)
				}
				return plain[kind]
			}
			compare := func(c *engine.Ctx, kind string, v *Version, files func(decls []string) Files) {
				c.Commit()
				dir := write(v, files)
				defer os.RemoveAll(dir)
				want := plainRun(kind)
				c.Check(want.code == 0, "model was rejected: %s", tail(strings.Join(want.lines, "\n"), 1000))
				problem := env.RunMaps(kind, dir, 0, nil, nil).difference(want)
				c.Check(problem == "", "output '%s': %s", kind, problem)
			}
			r.Explore("order of declarations", "all the orders of six declarations", func(c *engine.Ctx) {
				// The order of declarations affects the code of all the generators in the same way:
				kind := kinds[0]
				if env.Tier == "thorough" {
					kind = kinds[c.Choose("output", 3)]
				}
				v := plainModel()
				v.Errors = v.Errors[:1]
				order := permutation(c, "declaration", 6)
				key := "six " + kind
				if plain[key] == nil {
					dir := write(v, one)
					plain[key] = env.RunMaps(kind, dir, 0, nil, nil)
				}
				c.Commit()
				dir := write(v, func(decls []string) Files { return one(permuted(decls, order)) })
				defer os.RemoveAll(dir)
				problem := env.RunMaps(kind, dir, 0, nil, nil).difference(plain[key])
				c.Check(problem == "", "output '%s': %s", kind, problem)
				c.Outcome(fmt.Sprint(kind, order))
			})
			r.Explore("order of members", "all the orders of attributes, values, methods, parameters, locators and errors, of one declaration at a time", func(c *engine.Ctx) {
				kind := kinds[c.Choose("output", 3)]
				v := plainModel()
				switch c.Choose("what", 6) {
				case 0:
					v.Types[0].Values = permuted(v.Types[0].Values, permutation(c, "value", 3))
				case 1:
					v.Types[1].Attrs = permuted(v.Types[1].Attrs, permutation(c, "attribute", 4))
				case 2:
					v.Resources[0].Methods = permuted(v.Resources[0].Methods, permutation(c, "method", 3))
				case 3:
					m := v.Resources[0].Methods[0]
					m.Params = permuted(m.Params, permutation(c, "parameter", 3))
				case 4:
					v.Resources[0].Locators = permuted(v.Resources[0].Locators, permutation(c, "locator", 3))
				case 5:
					v.Errors = permuted(v.Errors, permutation(c, "error", 2))
				}
				compare(c, kind, v, one)
				c.Outcome(fmt.Sprint(kind, v.Decls()))
			})
			r.Explore("layout", "all the distributions of the declarations in up to two files", func(c *engine.Ctx) {
				kind := kinds[c.Choose("output", 3)]
				v := plainModel()
				var where []int
				for i := 0; i < 7; i++ {
					where = append(where, c.Choose("file", 2))
				}
				compare(c, kind, v, func(decls []string) Files {
					files := Files{}
					for i, d := range decls {
						name := []string{"my_service/v1/first.model", "my_service/v1/second.model"}[where[i]]
						files[name] += d + "\n"
					}
					return files
				})
				c.Outcome(fmt.Sprint(kind, where))
			})
			r.Explore("previous output", "the output directory has the result of a previous run, longer files with the same names, or other files", func(c *engine.Ctx) {
				b := bases[c.Choose("model", 3)]
				kind := kinds[c.Choose("output", 3)]
				mode := c.Choose("previous", 3)
				c.Commit()
				if b.label == "wrong" {
					return
				}
				want := baseline(b, kind)
				extra := Files{"zz_other.txt": "other", "zz_dir/zz_other.txt": "other"}
				got := env.RunMaps(kind, b.dir, 0, nil, func(dir string) {
					switch mode {
					case 0:
						writeFiles(dir, want.files)
					case 1:
						longer := Files{}
						for name, text := range want.files {
							longer[name] = text + "// More\n" + text
						}
						writeFiles(dir, longer)
					case 2:
						writeFiles(dir, extra)
					}
				})
				if mode == 2 {
					for name, text := range extra {
						c.Check(got.files[name] == text, "file '%s' that was in the output directory has been modified", name)
						delete(got.files, name)
					}
				}
				check(c, b, kind, got)
				c.Outcome(fmt.Sprint(b.label, kind, mode))
			})
			r.Explore("real tool", "two runs of the unmodified tool, with the real formatter, for the reference model", func(c *engine.Ctx) {
				c.Commit()
				m := Files(mixedModel().Files())
				one, problem := env.GenerateGo(m)
				c.Check(problem == "", "%s", problem)
				two, problem := env.GenerateGo(m)
				c.Check(problem == "", "%s", problem)
				x, y := tree(one), tree(two)
				c.Equal("files", x.names(), y.names())
				for name := range x {
					c.Check(x[name] == y[name], "file '%s' is different", name)
				}
				c.Outcome("real")
			})
		},
	}
}
