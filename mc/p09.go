package main

import (
	"fmt"
	"slices"
	"sort"
	"strings"

	"github.com/openshift-online/ocm-api-metamodel/pkg/concepts"
	"github.com/openshift-online/ocm-api-metamodel/pkg/names"

	"verif/lib/engine"
	. "verif/lib/spec"
)

// refDump generates the text of the types of the version, including the owners of links.
func refDump(v *concepts.Version) []string {
	var lines []string
	add := func(format string, args ...any) { lines = append(lines, fmt.Sprintf(format, args...)) }
	lists := map[string]int{}
	for _, t := range v.Types() {
		if t.IsList() {
			lists[t.Element().Name().String()]++
		}
	}
	for _, t := range v.Types() {
		if t.IsList() || t.IsMap() || t.IsScalar() && !t.IsEnum() {
			continue
		}
		add("type %s %s%s%s", t.Name(), kindText(t), annText(t), docText(t.Doc()))
		if t.Owner() != v {
			add("!type %s has wrong owner", t.Name())
		}
		if lists[t.Name().String()] != 1 {
			add("!type %s has %d list types", t.Name(), lists[t.Name().String()])
		}
		for _, a := range t.Attributes() {
			link := ""
			if a.Link() {
				link = " link"
				if owner := a.LinkOwner(); owner != nil {
					link += " to " + owner.Owner().Name().String() + "/" + owner.Name().String()
				}
			} else if a.LinkOwner() != nil {
				add("!type %s attr %s isn't a link but has link owner", t.Name(), a.Name())
			}
			typ := a.Type()
			if typ.Element() != nil {
				typ = typ.Element()
			}
			if typ.IsStruct() || typ.IsEnum() {
				if a.LinkOwner() == nil {
					if typ.Owner() != v {
						add("!type %s attr %s refers to type %s of other version", t.Name(), a.Name(), typ.Name())
					}
					if found := v.FindType(typ.Name()); found == nil {
						add("!type %s attr %s refers to type %s that doesn't exist", t.Name(), a.Name(), typ.Name())
					} else if found.Kind() != typ.Kind() {
						add("!type %s attr %s refers to type %s with other kind", t.Name(), a.Name(), typ.Name())
					}
				}
			}
			add("type %s attr %s %s%s%s%s", t.Name(), a.Name(), typeText(a.Type()), link, annText(a), docText(a.Doc()))
		}
		for _, x := range t.Values() {
			add("type %s value %s%s%s", t.Name(), x.Name(), annText(x), docText(x.Doc()))
		}
	}
	sort.Strings(lines)
	return lines
}

// refExpected calculates what the version should contain: the local types and the types reachable from
// the referenced ones.
func refExpected(local []*Type, base *Version, targets []string) []string {
	var lines []string
	add := func(format string, args ...any) { lines = append(lines, fmt.Sprintf(format, args...)) }
	explicit := map[string]bool{}
	for _, t := range targets {
		explicit[t] = true
	}
	kinds := map[TypeKind]string{Enum: "enum", Struct: "struct", Class: "class"}
	text := func(t *Type, fromBase bool) {
		add("type %s %s%s%s", t.Name, kinds[t.Kind], t.Ann.Text(), docText(t.Doc))
		for _, a := range t.Attrs {
			link := ""
			if a.Link {
				link = " link"
				if fromBase && !explicit[a.Type.Elem] {
					link += " to " + base.Service.Name.String() + "/" + base.Name.String()
				}
			}
			add("type %s attr %s %s%s%s%s", t.Name, a.Name, a.Type.Canonical(), link, a.Ann.Text(), docText(a.Doc))
		}
		for _, x := range t.Values {
			add("type %s value %s%s%s", t.Name, x.Name, x.Ann.Text(), docText(x.Doc))
		}
	}
	for _, t := range local {
		text(t, false)
	}
	seen := map[string]bool{}
	pending := append([]string{}, targets...)
	for len(pending) > 0 {
		name := pending[0]
		pending = pending[1:]
		if seen[name] || IsBuiltin(name) {
			continue
		}
		seen[name] = true
		t := base.Type(name)
		text(t, true)
		for _, a := range t.Attrs {
			if !a.Link {
				pending = append(pending, a.Type.Elem)
			}
		}
	}
	sort.Strings(lines)
	return lines
}

func init() {
	properties["P09"] = &Property{
		Sharded: true,
		Rule:    "one execution per set of attributes of the referenced class, set of explicit references and arrangement of the files; the types of both versions are compared with a direct calculation of the closure; outcomes are the distinct sets of types",
		Assumptions: []string{
			"the class that refers has the same name as the referenced class, there is one input directory; declarations of the referring version only use types that they declare",
		},
		Run: func(env *Env, r *engine.Report) {
			doc := func(a *Attr, text string) *Attr { a.Doc = text; return a }
			pool := func() []*Attr {
				return []*Attr{
					doc(mkAttr("leaf", P("leaf")), "The leaf."),
					mkAttr("leaves", L("leaf")),
					mkAttr("leaf_map", M("leaf")),
					mkAttr("shades", L("color")),
					mkLink("other", P("other")),
					mkLink("others", L("other")),
					mkAttr("inline", P("other")),
					mkLink("self", P("cluster")),
					mkAttr("parents", L("cluster")),
					mkAttr("tags", L("String")),
				}
			}
			baseTypes := func(attrs []*Attr) []*Type {
				cluster := mkClass("cluster", append([]*Attr{mkAttr("name", P("String"))}, attrs...)...)
				cluster.Doc = "Cluster of the base service."
				color := mkEnum("color", "red", "dark_blue")
				color.Values[0].Doc = "Red."
				color.Values[1].Ann.JSON = "dark-blue"
				leaf := mkStruct("leaf", mkAttr("shade", P("color")), mkAttr("deeps", L("deep")), mkLink("owner", P("other")))
				leaf.Attrs[0].Ann.JSON = "the-shade"
				return []*Type{
					cluster, color, leaf,
					mkStruct("deep", mkAttr("count", P("Integer")), mkAttr("by_name", M("deeper"))),
					mkClass("deeper", mkAttr("created", P("Date")), mkLink("top", P("cluster"))),
					mkClass("other", mkAttr("label", P("String")), mkAttr("only_other", P("only"))),
					mkStruct("only", mkAttr("flag", P("Boolean"))),
					mkStruct("unrelated", mkAttr("some_leaf", P("leaf"))),
				}
			}
			check := func(c *engine.Ctx, m *Model, files Files, local []*Type, base *Version, targets []string, where string, known bool) {
				res := env.Read(files)
				c.Eval(1)
				if !res.OK() {
					if known && res.Panic == "" && strings.Contains(res.Log, "Type 'Other' is already defined") && strings.Count(res.Log, "E:") == 1 {
						c.Known("explicit-after-embedded", "explicit reference to class 'other' after the reference to class 'cluster' that embeds it is rejected: %s\n%s", res, showFiles(files))
					}
					c.Fail("model should be accepted but it was %s\n%s", res, showFiles(files))
				}
				for _, s := range res.Model.Services() {
					for _, v := range s.Versions() {
						got := refDump(v)
						var want []string
						key := s.Name().String() + "/" + v.Name().String()
						switch key {
						case where:
							want = refExpected(local, base, targets)
							c.Outcome(strings.Join(want, "\n"))
						case base.Dir():
							want = refExpected(base.Types, base, nil)
						default:
							c.Fail("unexpected version %s\n%s", key, showFiles(files))
						}
						c.Eval(1)
						if d := Diff(got, want); d != "" {
							c.Fail("types of %s: %s\n%s", key, d, showFiles(files))
						}
					}
				}
			}
			optional := pool()
			if !r.Thorough() {
				optional = optional[:9]
			}
			r.Explore("closure", fmt.Sprintf("all the subsets of %d attributes of the referenced class, with the other class not referenced, referenced before or after", len(optional)), func(c *engine.Ctx) {
				var attrs []*Attr
				embedded := false
				for _, a := range optional {
					if c.Flag(a.Name.String()) {
						attrs = append(attrs, a)
						embedded = embedded || a.Name.String() == "inline"
					}
				}
				explicit := c.Choose("explicit", 3)
				oneFile := r.Thorough() && c.Flag("one file")
				c.Commit()
				base := &Version{Name: N("v1"), Types: baseTypes(attrs), Resources: []*Resource{rootOnly()}}
				bm := &Model{Services: []*Service{{Name: N("base_svc"), Versions: []*Version{base}}}}
				bm.Link()
				files := Files(bm.Files())
				refs := []string{
					"@ref(path = \"/base_svc/v1/cluster\")\nclass Cluster {\n}\n",
					"// Ignored.\n@ref(path = \"/base_svc/v1/other\")\nclass Other {\n}\n",
				}
				targets := []string{"cluster"}
				switch explicit {
				case 0:
					refs = refs[:1]
				case 1:
					targets = append(targets, "other")
				case 2:
					refs[0], refs[1] = refs[1], refs[0]
					targets = append(targets, "other")
				}
				local := []*Type{mkStruct("local", mkAttr("text", P("String")), mkAttr("texts", L("String"))), mkEnum("mode", "fast", "slow")}
				decls := append(refs, local[0].Source(), local[1].Source(), rootOnly().Source())
				if oneFile {
					files["my_svc/v1_alpha1/all.model"] = strings.Join(decls, "\n")
				} else {
					for i, d := range decls {
						files[fmt.Sprintf("my_svc/v1_alpha1/f%d.model", i)] = d
					}
				}
				check(c, bm, files, local, base, targets, "my_svc/v1_alpha1", explicit == 1 && embedded)
			})
			r.Explore("arrangements", "all the orders of the declarations of the referring version in one or several files, when the referenced service is read before or after", func(c *engine.Ctx) {
				service := engine.Pick(c, "service", []string{"aaa_svc", "my_svc"})
				several := c.Flag("several files")
				perm := Perm(c, "next", 5)
				slash := c.Flag("slash")
				c.Commit()
				base := &Version{Name: N("v1"), Types: baseTypes(pool()), Resources: []*Resource{rootOnly()}}
				bm := &Model{Services: []*Service{{Name: N("base_svc"), Versions: []*Version{base}}}}
				bm.Link()
				files := Files(bm.Files())
				path := "base_svc/v1/"
				if slash {
					path = "/" + path
				}
				local := []*Type{mkStruct("local", mkAttr("text", P("String")), mkAttr("modes", L("mode"))), mkEnum("mode", "fast", "slow")}
				root := rootOnly()
				root.Methods = []*Method{mkMethod("act", mkIn("x", P("cluster")), mkOut("y", P("local")))}
				decls := Permuted([]string{
					"@ref(path = \"" + path + "cluster\")\nclass Cluster {\n}\n",
					"@ref(path = \"" + path + "other\")\nclass Other {\n}\n",
					local[0].Source(), local[1].Source(), root.Source(),
				}, perm)
				if several {
					for i, d := range decls {
						files[fmt.Sprintf("%s/v1_alpha1/f%d.model", service, i)] = d
					}
				} else {
					files[service+"/v1_alpha1/all.model"] = strings.Join(decls, "\n")
				}
				check(c, bm, files, local, base, []string{"cluster", "other"}, service+"/v1_alpha1", slices.Index(perm, 0) < slices.Index(perm, 1))
			})
			r.Explore("chains", "a service that refers to a service that refers to other service, for all the subsets of six attributes, in all the orders in which the services can be read", func(c *engine.Ctx) {
				var attrs []*Attr
				embedded := false
				for _, a := range pool()[:8] {
					switch a.Name.String() {
					case "leaf_map", "shades":
						continue
					}
					if c.Flag(a.Name.String()) {
						attrs = append(attrs, a)
						embedded = embedded || a.Name.String() == "inline"
					}
				}
				order := Perm(c, "order", 3)
				c.Commit()
				name := func(i int) string { return []string{"svc_a", "svc_b", "svc_c"}[order[i]] }
				base := &Version{Name: N("v1"), Types: baseTypes(attrs), Resources: []*Resource{rootOnly()}}
				bm := &Model{Services: []*Service{{Name: N(name(0)), Versions: []*Version{base}}}}
				bm.Link()
				files := Files(bm.Files())
				for i := 1; i < 3; i++ {
					files[name(i)+"/v1/all.model"] = rootOnly().Source() + "@ref(path = \"" + name(i-1) + "/v1/cluster\")\nclass Cluster {\n}\n"
				}
				res := env.Read(files)
				if !res.OK() {
					c.Fail("model should be accepted but it was %s\n%s", res, showFiles(files))
				}
				for _, s := range res.Model.Services() {
					want := refExpected(nil, base, []string{"cluster"})
					if s.Name().String() == name(0) {
						want = refExpected(base.Types, base, nil)
					}
					got := refDump(s.Versions()[0])
					if s.Name().String() == name(2) && embedded {
						// The second service has the linked class as well, so it is also
						// correct to point to it:
						for j := range got {
							got[j] = strings.ReplaceAll(got[j], " to "+name(1)+"/v1", " to "+name(0)+"/v1")
						}
					}
					c.Eval(1)
					if d := Diff(got, want); d != "" {
						c.Fail("types of %s: %s\n%s", s.Name(), d, showFiles(files))
					}
				}
				c.Outcome(fmt.Sprint(attrs))
			})
			r.Explore("two references", "references to two classes of the same service, in both orders, with all the subsets of four attributes of each, read before or after the referenced service", func(c *engine.Ctx) {
				cluster := mkClass("cluster", mkAttr("name", P("String")))
				second := mkClass("pool", mkAttr("label", P("String")))
				for _, a := range []*Attr{mkAttr("leaf", P("leaf")), mkAttr("inline", P("other")), mkLink("one_other", P("other")), mkLink("pools", L("pool"))} {
					if c.Flag("cluster " + a.Name.String()) {
						cluster.Attrs = append(cluster.Attrs, a)
					}
				}
				for _, a := range []*Attr{mkAttr("leaves", L("leaf")), mkAttr("inlines", M("other")), mkLink("many_others", L("other")), mkLink("owner_cluster", P("cluster"))} {
					if c.Flag("pool " + a.Name.String()) {
						second.Attrs = append(second.Attrs, a)
					}
				}
				swap := c.Flag("swap")
				several := c.Flag("several files")
				service := engine.Pick(c, "service", []string{"aaa_svc", "my_svc"})
				c.Commit()
				types := baseTypes(nil)
				types[0] = cluster
				// Without links to the referenced classes from the types that they use:
				types = append(types, second)
				base := &Version{Name: N("v1"), Types: types, Resources: []*Resource{rootOnly()}}
				bm := &Model{Services: []*Service{{Name: N("base_svc"), Versions: []*Version{base}}}}
				bm.Link()
				files := Files(bm.Files())
				decls := []string{
					"@ref(path = \"/base_svc/v1/cluster\")\nclass Cluster {\n}\n",
					"@ref(path = \"/base_svc/v1/pool\")\nclass Pool {\n}\n",
					rootOnly().Source(),
				}
				if swap {
					decls[0], decls[1] = decls[1], decls[0]
				}
				if several {
					for i, d := range decls {
						files[fmt.Sprintf("%s/v1_alpha1/f%d.model", service, i)] = d
					}
				} else {
					files[service+"/v1_alpha1/all.model"] = strings.Join(decls, "\n")
				}
				check(c, bm, files, nil, base, []string{"cluster", "pool"}, service+"/v1_alpha1", false)
			})
			r.Explore("two referrers", "two services, or two versions of the same one, that refer to classes of the same service, with all the subsets of six attributes and all the sets of explicit references", func(c *engine.Ctx) {
				var attrs []*Attr
				for _, a := range pool()[:8] {
					switch a.Name.String() {
					case "leaf_map", "shades", "inline":
						continue
					}
					if c.Flag(a.Name.String()) {
						attrs = append(attrs, a)
					}
				}
				sets := [][]string{{"cluster"}, {"other"}, {"cluster", "other"}}
				one := engine.Pick(c, "first", sets)
				two := engine.Pick(c, "second", sets)
				where := engine.Pick(c, "versions", [][2]string{{"aaa_svc/v1", "zzz_svc/v1"}, {"aaa_svc/v1", "aaa_svc/v2"}, {"zzz_svc/v1", "zzz_svc/v2"}})
				c.Commit()
				base := &Version{Name: N("v1"), Types: baseTypes(attrs), Resources: []*Resource{rootOnly()}}
				bm := &Model{Services: []*Service{{Name: N("base_svc"), Versions: []*Version{base}}}}
				bm.Link()
				files := Files(bm.Files())
				want := map[string][]string{base.Dir(): refExpected(base.Types, base, nil)}
				for i, targets := range [][]string{one, two} {
					text := rootOnly().Source()
					for _, t := range targets {
						text += fmt.Sprintf("@ref(path = \"/base_svc/v1/%s\")\nclass %s {\n}\n", t, N(t).Public())
					}
					local := mkStruct("local_"+nth(i), mkAttr("text", P("String")))
					text += local.Source()
					files[where[i]+"/all.model"] = text
					want[where[i]] = refExpected([]*Type{local}, base, targets)
				}
				res := env.Read(files)
				if !res.OK() {
					c.Fail("model should be accepted but it was %s\n%s", res, showFiles(files))
				}
				count := 0
				for _, s := range res.Model.Services() {
					for _, v := range s.Versions() {
						count++
						key := s.Name().String() + "/" + v.Name().String()
						c.Eval(1)
						if d := Diff(refDump(v), want[key]); d != "" {
							c.Fail("types of %s: %s\n%s", key, d, showFiles(files))
						}
					}
				}
				c.Equal("versions", count, 3)
				c.Outcome(fmt.Sprint(want))
			})
			r.Explore("large closures", "a class that uses many types (up to 60), or types with many attributes or values, or nested many times, or with long documentation", func(c *engine.Ctx) {
				dimension := engine.Pick(c, "dimension", []string{"nesting", "types", "attributes", "values", "documentation", "words"})
				n := engine.Pick(c, "size", largeSizes(r.Thorough()))
				service := engine.Pick(c, "service", []string{"aaa_svc", "my_svc"})
				c.Commit()
				base := makeLarge(dimension, n).Services[0].Versions[0]
				cluster := mkClass("cluster", mkAttr("name", P("String")))
				for i, t := range base.Types {
					if i < 4 || dimension != "nesting" && dimension != "types" {
						cluster.Attrs = append(cluster.Attrs, &Attr{Name: append(N("use"), t.Name...), Type: shapes[i%3](t.Name.String())})
					}
				}
				base.Types = append(base.Types, cluster)
				bm := &Model{Services: []*Service{{Name: N("base_svc"), Versions: []*Version{base}}}}
				bm.Link()
				files := Files(bm.Files())
				files[service+"/v1_alpha1/all.model"] = rootOnly().Source() + "@ref(path = \"/base_svc/v1/cluster\")\nclass Cluster {\n}\n"
				check(c, bm, files, nil, base, []string{"cluster"}, service+"/v1_alpha1", false)
			})
			r.Explore("graphs of references", "all the directed graphs of references between three services: loops are rejected and the rest are accepted", func(c *engine.Ctx) {
				var edges [3][3]bool
				for i := range edges {
					for j := range edges[i] {
						edges[i][j] = c.Flag(fmt.Sprintf("%d-%d", i, j))
					}
				}
				c.Commit()
				files := Files{}
				name := func(i int) string { return string(rune('a' + i)) }
				reach := edges
				want := make([]map[string]bool, 3)
				for i := range edges {
					text := rootOnly().Source()
					want[i] = map[string]bool{"own_" + name(i) + "x": true}
					if !edges[i][i] {
						text += "class Own" + strings.ToUpper(name(i)) + "x {\n\tName String\n}\n"
					}
					for j := range edges {
						if edges[i][j] {
							want[i]["own_"+name(j)+"x"] = true
							text += fmt.Sprintf("@ref(path = \"/svc_%s/v1/own_%sx\")\nclass Own%sx {\n}\n", name(j), name(j), strings.ToUpper(name(j)))
						}
					}
					files["svc_"+name(i)+"/v1/all.model"] = text
				}
				for k := range reach {
					for i := range reach {
						for j := range reach {
							reach[i][j] = reach[i][j] || reach[i][k] && reach[k][j]
						}
					}
				}
				loop := reach[0][0] || reach[1][1] || reach[2][2]
				res := env.Read(files)
				c.Eval(1)
				if res.Panic != "" || res.OK() == loop {
					c.Fail("model should be accepted=%v but it was %s\n%s", !loop, res, showFiles(files))
				}
				c.Outcome(fmt.Sprint(loop))
				if loop {
					return
				}
				for i, s := range res.Model.Services() {
					got := map[string]bool{}
					for _, t := range s.Versions()[0].Types() {
						if t.IsClass() {
							got[t.Name().String()] = true
							c.Check(t.FindAttribute(names.ParseUsingCase("Name")) != nil, "class %s of %s has no attribute\n%s", t.Name(), s.Name(), showFiles(files))
						}
					}
					c.Equal("classes", got, want[i])
				}
			})
			r.Explore("incorrect references", "references with services, versions, types and numbers of components that don't exist are rejected", func(c *engine.Ctx) {
				parts := []string{
					engine.Pick(c, "service", []string{"base_svc", "bad_svc", "base", ""}),
					engine.Pick(c, "version", []string{"v1", "v2", ""}),
					engine.Pick(c, "type", []string{"cluster", "other", "missing", "Cluster", ""}),
				}
				n := c.Choose("components", 3) + 1
				prefix := engine.Pick(c, "prefix", []string{"", "/"})
				c.Commit()
				path := prefix + strings.Join(parts[:n], "/")
				if path == "" {
					c.Skip() // An empty path is the same as no reference
				}
				base := &Version{Name: N("v1"), Types: baseTypes(nil), Resources: []*Resource{rootOnly()}}
				bm := &Model{Services: []*Service{{Name: N("base_svc"), Versions: []*Version{base}}}}
				bm.Link()
				files := Files(bm.Files())
				files["my_svc/v1_alpha1/all.model"] = rootOnly().Source() + "@ref(path = \"" + path + "\")\nclass Cluster {\n}\n"
				good := n == 3 && parts[0] == "base_svc" && parts[1] == "v1" && (parts[2] == "cluster" || parts[2] == "other")
				if good && parts[2] == "other" {
					c.Skip() // The names of the classes should be equal
				}
				res := env.Read(files)
				c.Eval(1)
				if res.Panic != "" || res.OK() != good {
					c.Fail("reference '%s' should be %v but it was %s", path, good, res)
				}
				c.Outcome(path)
			})
		},
	}
}
