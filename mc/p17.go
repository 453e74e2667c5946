package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"verif/lib/engine"
	"verif/lib/models"
	. "verif/lib/spec"
)

func attr17(name Name, ref Ref) *Attr { return &Attr{Name: name, Type: ref} }
func param(name Name, ref Ref, in, out bool) *Param {
	return &Param{Name: name, Type: ref, In: in, Out: out}
}

// common returns the types used by all the units.
func common() []*Type {
	return []*Type{
		{Name: N("hue"), Kind: Enum, Values: []*Value{{Name: N("red")}, {Name: N("blue")}}},
		{Name: N("small_leaf"), Kind: Struct, Attrs: []*Attr{attr17(N("title"), P("String"))}},
		{Name: N("big_thing"), Kind: Class, Attrs: []*Attr{attr17(N("title"), P("String"))}},
	}
}

func bareRoot() []*Resource { return []*Resource{{Name: N("root")}} }

var commonElems = []string{"Boolean", "Integer", "Long", "Float", "String", "Date", "Interface", "hue", "small_leaf", "big_thing"}
var scalarElems = []string{"Boolean", "Integer", "Long", "Float", "String", "Date", "hue"}
var bodyElems = []string{"Boolean", "Integer", "Long", "Float", "String", "Date", "hue", "small_leaf", "big_thing"}
var shapes = []func(string) Ref{P, L, M}
var shapeNames = []string{"plain", "list", "map"}

// wordList are names that could conflict with something in the generated code: Go keywords, predeclared
// identifiers, packages, and fields and variables used by the generated code.
var wordList = strings.Fields(`
	break case chan const continue default defer else fallthrough for func go goto if import interface map package
	range return select struct switch type var
	bool byte error float64 int int64 string rune uint64 any true false nil iota append cap clear close complex copy
	delete imag len make max min new panic print println real recover init main
	object iterator stream count value ok result err request response reader writer buffer path transport query
	header status body items index item key keys list link id href kind bitmap field fields text first
	errors helpers http url json jsoniter time io fmt context bytes bufio strings sort net client server metadata
	page size total parameter send impersonate interval predicate builder build empty get set each slice
	uri version service root poll method name data date
	ID HREF URL IDs external_ID multi_AZ CPU API_token my_DNS_name list_of_things v1 a1 x2y example
	send_context new_client marshal unmarshal read write server_version open_API
	bigthing b_igthing smallleaf small_le_af data_base database list_ofthings
`)

// Names that are used by the public interface of the generated code, and that therefore can't be used for
// each role.
var taken = map[string]string{
	"attribute of struct": "copy build empty",
	"attribute of class":  "copy build empty id href kind link ID HREF",
	"input parameter":     "header parameter send send_context impersonate interval predicate status",
	"output parameter":    "header status error",
	"type":                "new open_API client metadata new_client interface string date boolean integer long float",
	"resource":            "new root metadata",
	"locator":             "get poll",
	"method":              "get poll list add update delete post search",
}

func wordsFor(roles ...string) []Name {
	skip := map[string]bool{}
	for _, role := range roles {
		for _, w := range strings.Fields(taken[role]) {
			skip[w] = true
		}
	}
	var r []Name
	seen := map[string]bool{}
	for _, w := range wordList {
		n := N(w)
		if !skip[w] && !seen[n.Snake()] {
			seen[n.Snake()] = true
			r = append(r, n)
		}
	}
	return r
}

func chunks(list []Name, size int) [][]Name {
	var r [][]Name
	for len(list) > size {
		r = append(r, list[:size])
		list = list[size:]
	}
	return append(r, list)
}

// some returns all the names, or one of each total if full is false.
func some(list []Name, first, total int, full bool) []Name {
	if full {
		return list
	}
	var r []Name
	for i, n := range list {
		if i%total == first {
			r = append(r, n)
		}
	}
	return r
}

// resources creates a version with the given resources, reachable from the root.
func withResources(types []*Type, list ...*Resource) *Version {
	root := &Resource{Name: N("root")}
	for _, r := range list {
		root.Locators = append(root.Locators, &Locator{Name: N("at_" + r.Name.String()), Target: r.Name.String()})
	}
	return &Version{Name: N("v1"), Types: types, Resources: append([]*Resource{root}, list...)}
}

func pageParams(elem string) []*Param {
	return []*Param{
		{Name: N("page"), Type: P("Integer"), In: true, Out: true, Default: 1},
		{Name: N("size"), Type: P("Integer"), In: true, Out: true, Default: 100},
		param(N("total"), P("Integer"), false, true), param(N("items"), L(elem), false, true),
	}
}

// wordUnits are the units that use all the words in all the roles. When full is false each word is combined
// with some of the types of attributes and parameters, all of them otherwise.
func wordUnits(full bool) []*Unit {
	pick := func(i, j, total int) bool { return full || i%total == j%total }
	var units []*Unit
	for _, kind := range []TypeKind{Struct, Class} {
		role := "attribute of struct"
		if kind == Class {
			role = "attribute of class"
		}
		for i, e := range commonElems {
			v := &Version{Name: N("v1"), Types: common(), Resources: bareRoot()}
			for j, shape := range shapes {
				for k, part := range chunks(wordsFor(role), 60) {
					t := &Type{Name: N(fmt.Sprintf("holder%d%d", j, k)), Kind: kind}
					for x, n := range part {
						if pick(x, i+3*j, len(commonElems)) {
							t.Attrs = append(t.Attrs, attr17(n, shape(e)))
						}
					}
					v.Types = append(v.Types, t)
				}
			}
			units = append(units, &Unit{Label: fmt.Sprintf("words as %s of type %s", role, e), V: v})
		}
	}
	links := &Version{Name: N("v1"), Types: common(), Resources: bareRoot()}
	for j, shape := range []func(string) Ref{P, L} {
		for k, part := range chunks(wordsFor("attribute of class"), 60) {
			t := &Type{Name: N(fmt.Sprintf("holder%d%d", j, k)), Kind: Class}
			for _, n := range part {
				t.Attrs = append(t.Attrs, &Attr{Name: n, Type: shape("big_thing"), Link: true})
			}
			links.Types = append(links.Types, t)
		}
	}
	units = append(units, &Unit{Label: "words as links", V: links})

	// Parameters:
	body := func(in, out bool) *Param { return param(N("body"), P("big_thing"), in, out) }
	special := map[string]bool{"body": true, "page": true, "size": true, "total": true, "items": true}
	for i, e := range scalarElems {
		var ps []*Param
		for x, n := range wordsFor("input parameter") {
			if !special[n.String()] && pick(x, i, len(scalarElems)) {
				ps = append(ps, param(n, P(e), true, false))
			}
		}
		with := func(list ...*Param) []*Param { return append(list, ps...) }
		units = append(units, &Unit{Label: "words as query parameters of type " + e, V: withResources(common(),
			&Resource{Name: N("big_things"), Methods: []*Method{
				{Name: N("add"), Params: with(body(true, true))},
				{Name: N("list"), Params: with(pageParams("big_thing")...)},
			}},
			&Resource{Name: N("big_thing"), Methods: []*Method{
				{Name: N("get"), Params: with(body(false, true))},
				{Name: N("update"), Params: with(body(true, true))},
				{Name: N("delete"), Params: with()},
			}},
		)})
	}
	for i, e := range bodyElems {
		for j, shape := range shapes {
			var in, out, both []*Param
			at := 3*i + j
			for x, n := range wordsFor("input parameter") {
				if pick(x, at, 27) || pick(x, at+9, 27) {
					in = append(in, param(n, shape(e), true, false))
				}
			}
			for x, n := range wordsFor("output parameter") {
				if pick(x, at, 27) || pick(x, at+9, 27) {
					out = append(out, param(n, shape(e), false, true))
				}
			}
			for x, n := range wordsFor("input parameter", "output parameter") {
				if pick(x, at, 27) || pick(x, at+9, 27) {
					both = append(both, param(n, shape(e), true, true))
				}
			}
			units = append(units, &Unit{Label: fmt.Sprintf("words as parameters of actions of type %s %s", shapeNames[j], e), V: withResources(common(),
				&Resource{Name: N("acts"), Methods: []*Method{
					{Name: N("do_in"), Params: in}, {Name: N("do_out"), Params: out}, {Name: N("do_both"), Params: both},
				}},
			)})
		}
	}

	// Types and resources. The number per package is small because the time needed to format the files of a
	// package is proportional to the square of their number:
	for x, kind := range []TypeKind{Struct, Class, Enum} {
		for p, part := range chunks(some(wordsFor("type"), x, 3, full), 15) {
			types := common()
			holder := &Type{Name: N("holder"), Kind: Class}
			for i, n := range part {
				t := &Type{Name: n, Kind: kind}
				if kind == Enum {
					t.Values = []*Value{{Name: N("first")}, {Name: N("second_one")}}
				} else {
					t.Attrs = []*Attr{attr17(N("title"), P("String")), attr17(N("shade"), P("hue"))}
				}
				types = append(types, t)
				for j, shape := range shapes {
					holder.Attrs = append(holder.Attrs, attr17(N(fmt.Sprintf("attr%d%d", i, j)), shape(n.String())))
				}
				if kind == Class {
					holder.Attrs = append(holder.Attrs, &Attr{Name: N(fmt.Sprintf("link%d", i)), Type: L(n.String()), Link: true})
				}
			}
			units = append(units, &Unit{Label: fmt.Sprintf("words as names of types of kind %s, part %d", KindNames[kind], p),
				V: &Version{Name: N("v1"), Types: append(types, holder), Resources: bareRoot()}})
		}
	}
	for x, kind := range []TypeKind{Struct, Class} {
		for p, part := range chunks(some(wordsFor("type"), x, 2, full), 15) {
			types := common()
			var list []*Resource
			for i, n := range part {
				types = append(types, &Type{Name: n, Kind: kind, Attrs: []*Attr{attr17(N("title"), P("String"))}})
				e := n.String()
				list = append(list, &Resource{Name: N(fmt.Sprintf("res%d", i)), Methods: []*Method{
					{Name: N("add"), Params: []*Param{param(N("body"), P(e), true, true)}},
					{Name: N("list"), Params: pageParams(e)},
					{Name: N("act"), Params: []*Param{param(N("one"), P(e), true, true), param(N("two"), L(e), true, true), param(N("three"), M(e), true, true)}},
				}})
			}
			units = append(units, &Unit{Label: fmt.Sprintf("words as names of types used by methods, of kind %s, part %d", KindNames[kind], p), V: withResources(types, list...)})
		}
	}

	// Resources, locators, methods, values and errors:
	for p, part := range chunks(wordsFor("resource"), 20) {
		var resources []*Resource
		for _, n := range part {
			resources = append(resources, &Resource{Name: n, Methods: someMethods()})
		}
		units = append(units, &Unit{Label: fmt.Sprintf("words as names of resources, part %d", p), V: withResources(common(), resources...)})
	}
	for _, variable := range []bool{false, true} {
		deep := &Resource{Name: N("deep_res"), Methods: someMethods()}
		v := &Version{Name: N("v1"), Types: common(), Resources: []*Resource{
			{Name: N("root")}, {Name: N("child_res"), Methods: someMethods()}, {Name: N("other_res"), Methods: someMethods()}, deep,
		}}
		for _, n := range wordsFor("locator") {
			v.Resources[0].Locators = append(v.Resources[0].Locators, &Locator{Name: n, Target: "child_res", Variable: variable})
			if n.String() != "update" && n.String() != "do_it" {
				deep.Locators = append(deep.Locators, &Locator{Name: n, Target: "other_res", Variable: variable})
			}
		}
		v.Resources[0].Locators = append(v.Resources[0].Locators, &Locator{Name: N("deep"), Target: "deep_res"})
		units = append(units, &Unit{Label: fmt.Sprintf("words as names of locators, variable is %v", variable), V: v})
	}
	acts := &Resource{Name: N("acts"), Methods: []*Method{{Name: N("get"), Params: []*Param{body(false, true)}}}}
	for _, n := range wordsFor("method") {
		acts.Methods = append(acts.Methods, &Method{Name: n, Params: []*Param{param(N("one"), P("Integer"), true, false), param(N("two"), L("small_leaf"), false, true)}})
	}
	units = append(units, &Unit{Label: "words as names of methods", V: withResources(common(), acts)})
	values := &Version{Name: N("v1"), Types: common(), Resources: bareRoot()}
	enum := &Type{Name: N("my_enum"), Kind: Enum}
	values.Types = append(values.Types, enum)
	for i, n := range wordsFor() {
		enum.Values = append(enum.Values, &Value{Name: n})
		values.Errors = append(values.Errors, &Error{Name: n, Code: i + 1})
	}
	units = append(units, &Unit{Label: "words as names of values and errors", V: values})
	return units
}

// someMethods returns methods of all the kinds for a resource.
func someMethods() []*Method {
	return []*Method{
		{Name: N("get"), Params: []*Param{param(N("body"), P("big_thing"), false, true)}},
		{Name: N("update"), Params: []*Param{param(N("body"), P("big_thing"), true, true)}},
		{Name: N("do_it"), Params: []*Param{param(N("one"), P("Integer"), true, false), param(N("two"), L("small_leaf"), false, true)}},
	}
}

// kindUnits are the units that have types and methods with only one attribute or parameter of each kind.
func kindUnits() []*Unit {
	var units []*Unit
	for _, kind := range []TypeKind{Struct, Class} {
		v := &Version{Name: N("v1"), Types: common(), Resources: bareRoot()}
		for i, e := range commonElems {
			for j, shape := range shapes {
				v.Types = append(v.Types, &Type{Name: N(fmt.Sprintf("holder%d%d", i, j)), Kind: kind, Attrs: []*Attr{attr17(N("only"), shape(e))}})
			}
		}
		if kind == Class {
			v.Types = append(v.Types,
				&Type{Name: N("holder_link"), Kind: Class, Attrs: []*Attr{{Name: N("only"), Type: P("big_thing"), Link: true}}},
				&Type{Name: N("holder_links"), Kind: Class, Attrs: []*Attr{{Name: N("only"), Type: L("big_thing"), Link: true}}})
		}
		units = append(units, &Unit{Label: "types of kind " + KindNames[kind] + " with only one attribute", V: v})
		// Recursive types:
		self := &Type{Name: N("node"), Kind: kind}
		peer := &Type{Name: N("peer"), Kind: kind}
		for j, shape := range shapes {
			self.Attrs = append(self.Attrs, attr17(N(fmt.Sprintf("self%d", j)), shape("node")), attr17(N(fmt.Sprintf("peer%d", j)), shape("peer")))
			peer.Attrs = append(peer.Attrs, attr17(N(fmt.Sprintf("node%d", j)), shape("node")))
		}
		units = append(units, &Unit{Label: "recursive types of kind " + KindNames[kind], V: &Version{Name: N("v1"), Types: []*Type{self, peer}, Resources: bareRoot()}})
	}

	// Methods with at most one parameter in addition to the mandatory ones. Each is in a different
	// resource, so that the files don't share imports:
	var optional []*Param
	optional = append(optional, nil)
	for _, e := range scalarElems {
		optional = append(optional, param(N("extra"), P(e), true, false))
	}
	add := func(label string, name string, base []*Param) {
		var list []*Resource
		for i, x := range optional {
			if name == "post" && x != nil {
				continue
			}
			ps := append([]*Param{}, base...)
			if x != nil {
				ps = append(ps, x)
			}
			list = append(list, &Resource{Name: N(fmt.Sprintf("res%d", i)), Methods: []*Method{{Name: N(name), Params: ps}}})
		}
		units = append(units, &Unit{Label: label, V: withResources(common(), list...)})
	}
	for _, e := range []string{"small_leaf", "big_thing"} {
		add("add of "+e, "add", []*Param{param(N("body"), P(e), true, true)})
		add("get of "+e, "get", []*Param{param(N("body"), P(e), false, true)})
		add("update of "+e, "update", []*Param{param(N("body"), P(e), true, true)})
		add("update of list of "+e, "update", []*Param{param(N("body"), L(e), true, true)})
		add("async update of "+e, "async_update", []*Param{param(N("body"), P(e), true, true)})
		add("list of "+e, "list", pageParams(e))
		add("list without pages of "+e, "list", []*Param{param(N("items"), L(e), false, true)})
		add("search of "+e, "search", append(pageParams(e), param(N("body"), P("small_leaf"), true, false)))
		add("post of "+e, "post", []*Param{param(N("request"), P(e), true, false), param(N("response"), P("small_leaf"), false, true)})
		add("post of body "+e, "post", []*Param{param(N("body"), P(e), true, true)})
	}
	for _, e := range []string{"Boolean", "Integer", "Long", "Float", "String", "Date", "hue"} {
		add("list of "+e, "list", pageParams(e))
	}
	add("delete", "delete", nil)
	add("async delete", "async_delete", nil)
	var list []*Resource
	for i, e := range bodyElems {
		for j, shape := range shapes {
			for k, dir := range [][2]bool{{true, false}, {false, true}, {true, true}} {
				list = append(list, &Resource{Name: N(fmt.Sprintf("res%d%d%d", i, j, k)), Methods: []*Method{{Name: N("act"), Params: []*Param{param(N("only"), shape(e), dir[0], dir[1])}}}})
			}
		}
	}
	list = append(list, &Resource{Name: N("nothing"), Methods: []*Method{{Name: N("act")}}}, &Resource{Name: N("empty")})
	units = append(units, &Unit{Label: "actions with one parameter", V: withResources(common(), list...)})

	// All the subsets of the kinds of declarations:
	for bits := 0; bits < 64; bits++ {
		has := func(i int) bool { return bits&(1<<i) != 0 }
		v := &Version{Name: N("v1")}
		root := &Resource{Name: N("root")}
		if has(0) {
			v.Types = append(v.Types, common()[0])
		}
		if has(1) {
			v.Types = append(v.Types, common()[1])
		}
		if has(2) {
			v.Types = append(v.Types, common()[2])
		}
		if has(3) {
			v.Errors = append(v.Errors, &Error{Name: N("failed"), Code: 1})
		}
		v.Resources = []*Resource{root}
		if has(4) {
			root.Methods = []*Method{{Name: N("act"), Params: []*Param{param(N("one"), P("String"), true, true)}}}
		}
		if has(5) {
			v.Resources = append(v.Resources, &Resource{Name: N("child"), Methods: []*Method{{Name: N("delete")}}})
			root.Locators = []*Locator{{Name: N("child"), Target: "child", Variable: true}, {Name: N("fixed"), Target: "child"}}
		}
		units = append(units, &Unit{Label: fmt.Sprintf("declarations %06b", bits), V: v})
	}

	// Types without attributes:
	units = append(units, &Unit{Label: "types without attributes", V: &Version{Name: N("v1"), Resources: bareRoot(), Types: []*Type{
		{Name: N("empty_struct"), Kind: Struct}, {Name: N("empty_class"), Kind: Class},
		{Name: N("user_class"), Kind: Class, Attrs: []*Attr{
			attr17(N("one"), P("empty_struct")), attr17(N("two"), L("empty_class")), attr17(N("three"), M("empty_struct")),
			{Name: N("four"), Type: P("empty_class"), Link: true}, {Name: N("five"), Type: L("empty_class"), Link: true},
		}},
	}}})

	// Annotations:
	ann := func(kind int, name string) Ann {
		switch kind {
		case 1:
			return Ann{Go: "Go" + name}
		case 2:
			return Ann{JSON: "json-" + name + ".$x"}
		case 3:
			return Ann{HTTP: "http-" + name}
		case 4:
			return Ann{Go: "Go" + name, JSON: "json" + name, HTTP: "http" + name}
		}
		return Ann{}
	}
	for kind := 0; kind < 5; kind++ {
		v := &Version{Name: N("v1")}
		for i, k := range []TypeKind{Enum, Struct, Class} {
			t := &Type{Name: N(fmt.Sprintf("type%d", i)), Kind: k, Ann: ann(kind, fmt.Sprintf("Type%d", i))}
			if k == Enum {
				t.Values = []*Value{{Name: N("one"), Ann: ann(kind, "One")}, {Name: N("two")}}
			} else {
				for a, e := range []string{"String", "type0", "type1", "type2"} {
					for b, shape := range shapes {
						name := fmt.Sprintf("attr%d%d", a, b)
						t.Attrs = append(t.Attrs, &Attr{Name: N(name), Type: shape(e), Ann: ann(kind, name)})
					}
				}
			}
			if k == Class {
				t.Attrs = append(t.Attrs,
					&Attr{Name: N("link0"), Type: P("type2"), Link: true, Ann: ann(kind, "Link0")},
					&Attr{Name: N("link1"), Type: L("type2"), Link: true, Ann: ann(kind, "Link1")})
			}
			v.Types = append(v.Types, t)
		}
		p := func(name string, ref Ref, in, out bool) *Param {
			x := param(N(name), ref, in, out)
			x.Ann = ann(kind, name)
			return x
		}
		v.Resources = []*Resource{
			{Name: N("root"), Locators: []*Locator{{Name: N("child"), Target: "child", Ann: ann(kind, "Child")}, {Name: N("var"), Target: "child", Variable: true, Ann: ann(kind, "Var")}}},
			{Name: N("child"), Ann: ann(kind, "Child"), Methods: []*Method{
				{Name: N("get"), Ann: ann(kind, "Get"), Params: []*Param{param(N("body"), P("type2"), false, true), p("flag", P("Boolean"), true, false)}},
				{Name: N("act"), Ann: ann(kind, "Act"), Params: []*Param{p("one", P("type2"), true, true), p("two", L("type1"), true, true), p("three", M("type0"), true, true), p("four", P("String"), true, true)}},
			}},
		}
		if kind == 1 || kind == 4 {
			// Names of types in Go don't affect the rest.
			v.Errors = []*Error{{Name: N("failed"), Code: 5, Ann: Ann{Go: "GoFailed"}}}
		}
		units = append(units, &Unit{Label: fmt.Sprintf("annotations %d", kind), V: v})
	}
	return units
}

// largeUnits are the units with many things in one dimension.
func largeUnits(thorough bool) []*Unit {
	var units []*Unit
	sizes := []int{13, 60}
	if thorough {
		sizes = []int{5, 8, 9, 10, 16, 17, 26, 27, 33, 60}
	}
	for _, dimension := range largeDimensions {
		for _, n := range sizes {
			if dimension == "versions" || dimension == "services" {
				continue
			}
			units = append(units, &Unit{Label: fmt.Sprintf("%d %s", n, dimension), V: makeLarge(dimension, n).Services[0].Versions[0]})
		}
	}
	return units
}

// referenceUnits are the units with references between services.
func referenceUnits() []*Unit {
	var units []*Unit
	base := func(number string, version string) *Service {
		types := common()
		types = append(types,
			&Type{Name: N("target_class"), Kind: Class, Attrs: []*Attr{
				attr17(N("text"), P("String")), attr17(N("leaf"), P("small_leaf")), attr17(N("leaves"), L("small_leaf")), attr17(N("by_name"), M("small_leaf")),
				attr17(N("shade"), P("hue")), attr17(N("shades"), L("hue")), attr17(N("when"), P("Date")),
				attr17(N("inline"), P("big_thing")),
				{Name: N("linked"), Type: P("other_class"), Link: true}, {Name: N("many"), Type: L("other_class"), Link: true},
				{Name: N("to_inline"), Type: P("big_thing"), Link: true},
			}},
			&Type{Name: N("other_class"), Kind: Class, Attrs: []*Attr{attr17(N("name"), P("String"))}},
		)
		v := withResources(types, &Resource{Name: N("target_classes"), Methods: []*Method{{Name: N("list"), Params: pageParams("target_class")}}})
		v.Name = N(version)
		return &Service{Name: N("unitb" + number), Versions: []*Version{v}}
	}
	ref := func(number, version, class string) *Type {
		return &Type{Name: N(class), Kind: Class, Ann: Ann{Ref: "/unitb" + number + "/" + version + "/" + class}}
	}
	for _, version := range []string{"v2", "v2_alpha1"} {
		for bits := 0; bits < 8; bits++ {
			units = append(units, &Unit{Label: fmt.Sprintf("references to %s %03b", version, bits), More: []func(string) *Service{
				func(number string) *Service { return base(number, version) },
				func(number string) *Service {
					types := []*Type{ref(number, version, "target_class")}
					if bits&1 != 0 {
						types = append(types, ref(number, version, "other_class"))
					}
					if bits&2 != 0 {
						types = append(types, &Type{Name: N("local_class"), Kind: Class, Attrs: []*Attr{
							attr17(N("one"), P("target_class")), attr17(N("two"), L("target_class")),
							{Name: N("three"), Type: P("target_class"), Link: true}, {Name: N("four"), Type: L("target_class"), Link: true},
						}})
					}
					var list []*Resource
					if bits&4 != 0 {
						list = append(list, &Resource{Name: N("target_classes"), Methods: []*Method{
							{Name: N("list"), Params: pageParams("target_class")}, {Name: N("add"), Params: []*Param{param(N("body"), P("target_class"), true, true)}},
						}})
					}
					return &Service{Name: N("unit" + number), Versions: []*Version{withResources(types, list...)}}
				},
			}})
		}
	}
	return units
}

// bases are the combinations of module, base package and output directory, relative to the module.
var bases = [][3]string{
	{"example.com/gen", "example.com/gen", "."},
	{"example.com/my-sdk-go", "example.com/my-sdk-go", "."},
	{"example.com/my-sdk-go", "example.com/my-sdk-go/api-go", "api-go"},
	{"sdk", "sdk", "./"},
	{"example.com/x/v2", "example.com/x/v2/internal/my.pkg", "internal/my.pkg"},
	{"example.com/a_b", "example.com/a_b/v1/v1", "./v1/v1/"},
	{"example.com/a_b", "example.com/a_b/errors/helpers", "errors/helpers"},
}

// baseModel is a small model with all the kinds of imports between packages.
func baseModel() *Model {
	service := func(name string) *Service {
		types := append(common(), &Type{Name: N("holder"), Kind: Class, Attrs: []*Attr{
			attr17(N("one"), P("big_thing")), attr17(N("two"), L("small_leaf")), attr17(N("three"), M("hue")), attr17(N("four"), P("Date")),
			{Name: N("five"), Type: L("big_thing"), Link: true},
		}})
		v := withResources(types, &Resource{Name: N("holders"), Methods: append(someMethods(), &Method{Name: N("list"), Params: pageParams("holder")})})
		v.Errors = []*Error{{Name: N("failed"), Code: 1}}
		return &Service{Name: N(name), Versions: []*Version{v}}
	}
	m := &Model{Services: []*Service{service("one_svc"), service("two")}}
	m.Services[0].Versions = append(m.Services[0].Versions, &Version{Name: N("v2_alpha1"), Resources: bareRoot(), Types: []*Type{
		{Name: N("holder"), Kind: Class, Ann: Ann{Ref: "/two/v1/holder"}},
	}})
	return m.Link()
}

// BuildBase generates the code for a base package and compiles it.
func (e *Env) BuildBase(module, base, output string, absolute bool) string {
	model := e.Dir()
	defer os.RemoveAll(model)
	writeFiles(model, Files(baseModel().Files()))
	dir := e.Dir()
	defer os.RemoveAll(dir)
	must(os.WriteFile(filepath.Join(dir, "go.mod"), []byte("module "+module+"\n\ngo 1.24\n"), 0o644))
	if absolute {
		output = filepath.Join(dir, output)
	}
	code, out := e.Tool(dir, "generate", "go", "--model", model, "--base", base, "--output", output)
	if code != 0 {
		return fmt.Sprintf("generation failed with code %d: %s", code, toolLog(out))
	}
	for _, name := range []string{"go.mod", "go.sum"} {
		data, err := os.ReadFile(filepath.Join(e.Root, "drv", "gen."+name))
		must(err)
		must(os.WriteFile(filepath.Join(dir, name), []byte(strings.Replace(string(data), "module "+Base, "module "+module, 1)), 0o644))
	}
	code, out = e.run(dir, nil, 800*time.Second, "go", "list", "./...")
	var got []string
	for _, line := range strings.Fields(out) {
		got = append(got, strings.TrimPrefix(line, base+"/"))
	}
	want := "errors helpers metrics onesvc onesvc/v1 onesvc/v2alpha1 two two/v1"
	if code != 0 || strings.Join(got, " ") != want {
		return fmt.Sprintf("packages are %q, should be %q", got, want)
	}
	code, out = e.run(dir, nil, 800*time.Second, "go", "build", "-gcflags=-e -N -l", "./...")
	if code != 0 {
		return "generated code doesn't compile: " + tail(out, 2000)
	}
	return ""
}

func init() {
	properties["P17"] = &Property{
		Rule: "one execution per unit (a service that uses a family of names or kinds of declarations); the unit is correct if the generator accepts it and the Go compiler accepts all the packages generated for it; outcomes are the distinct units",
		Assumptions: []string{
			"names that are part of the public interface of the generated code are not used for things that generate the same name, like an attribute `Copy` or a parameter `Send` (the lists are in mc/p17.go)",
			"names are different from each other in the same scope",
			"units are compiled together, in different packages",
		},
		Run: func(env *Env, r *engine.Report) {
			env.BuildTool()
			groups := []struct {
				name, bounds string
				units        []*Unit
			}{
				{"words", "all the words of the list in all the roles (attributes and parameters of all the kinds, types, resources, locators, methods, values, errors)", wordUnits(env.Tier == "thorough")},
				{"kinds", "all the kinds of attributes, parameters and methods alone in their files, all the subsets of declarations, all the annotations", kindUnits()},
				{"large models", "models with many things in each dimension", largeUnits(env.Tier == "thorough")},
				{"references", "all the combinations of referenced classes, local uses and methods", referenceUnits()},
			}
			var wg sync.WaitGroup
			type outcome struct {
				problems map[int]string
				general  string
			}
			results := make([][]outcome, len(groups))
			const batch = 24
			slots := make(chan bool, 6)
			for g := range groups {
				units := groups[g].units
				results[g] = make([]outcome, (len(units)+batch-1)/batch)
				for b := range results[g] {
					wg.Add(1)
					go func() {
						defer wg.Done()
						slots <- true
						defer func() { <-slots }()
						p, general := env.Compile(units[b*batch : min(len(units), (b+1)*batch)])
						results[g][b] = outcome{p, general}
					}()
				}
			}
			var mainProblem string
			wg.Add(1)
			go func() {
				defer wg.Done()
				_, mainProblem = env.BuildPackages(models.Full())
			}()
			baseProblems := make([]string, 2*len(bases))
			for i := range baseProblems {
				wg.Add(1)
				go func() {
					defer wg.Done()
					slots <- true
					defer func() { <-slots }()
					x := bases[i/2]
					baseProblems[i] = env.BuildBase(x[0], x[1], x[2], i%2 == 1)
				}()
			}
			wg.Wait()
			r.Explore("base packages", "base packages with all the forms of names, relative and absolute output directories", func(c *engine.Ctx) {
				i := c.Choose("base", len(bases))
				j := c.Choose("absolute", 2)
				c.Check(baseProblems[2*i+j] == "", "code generated for base package '%s' isn't correct: %s", bases[i][1], baseProblems[2*i+j])
				c.Outcome(fmt.Sprint(bases[i], j))
			})
			for g := range groups {
				r.Explore(groups[g].name, groups[g].bounds, func(c *engine.Ctx) {
					i := c.Choose("unit", len(groups[g].units))
					x := results[g][i/batch]
					label := groups[g].units[i].Label
					c.Check(x.general == "", "%s: %s", label, x.general)
					c.Check(x.problems[i%batch] == "", "code generated for '%s' doesn't compile: %s", label, x.problems[i%batch])
					c.Outcome(label)
				})
			}
			r.Explore("reference model", "the model used by the other checks", func(c *engine.Ctx) {
				c.Check(mainProblem == "", "%s", mainProblem)
				c.Outcome("main")
			})
		},
	}
}
