// Package models contains the reference models used by the checks.
package models

import (
	"fmt"
	"strings"

	. "verif/lib/spec"
)

func at(name string, ref Ref) *Attr        { return &Attr{Name: N(name), Type: ref} }
func ln(name string, ref Ref) *Attr        { return &Attr{Name: N(name), Type: ref, Link: true} }
func ann(a *Attr, json, gon string) *Attr  { a.Ann.JSON = json; a.Ann.Go = gon; return a }
func st(name string, attrs ...*Attr) *Type { return &Type{Name: N(name), Kind: Struct, Attrs: attrs} }
func cl(name string, attrs ...*Attr) *Type { return &Type{Name: N(name), Kind: Class, Attrs: attrs} }
func in(name string, ref Ref) *Param       { return &Param{Name: N(name), Type: ref, In: true} }
func out(name string, ref Ref) *Param      { return &Param{Name: N(name), Type: ref, Out: true} }
func inout(name string, ref Ref) *Param    { return &Param{Name: N(name), Type: ref, In: true, Out: true} }
func dflt(p *Param, v any) *Param          { p.Default = v; return p }
func pann(p *Param, json, http, g string) *Param {
	p.Ann = Ann{JSON: json, HTTP: http, Go: g}
	return p
}
func me(name string, params ...*Param) *Method { return &Method{Name: N(name), Params: params} }
func lo(name, target string, variable bool) *Locator {
	return &Locator{Name: N(name), Target: target, Variable: variable}
}

// Elems are all the kinds of elements used in the kinds service.
var Elems = []string{
	"Boolean", "Integer", "Long", "Float", "String", "Date", "Interface",
	"color", "leaf", "thing", "identity_provider",
}

func page() *Param { return dflt(inout("page", P("Integer")), 1) }
func size() *Param { return dflt(inout("size", P("Integer")), 100) }

// Kinds is the version that contains types with attributes of all the possible kinds.
func Kinds() *Version {
	color := &Type{Name: N("color"), Kind: Enum, Values: []*Value{
		{Name: N("red")}, {Name: N("dark_blue")}, {Name: N("light_RGB")},
		{Name: N("extra_green"), Ann: Ann{JSON: "Extra-Green"}},
	}}
	leaf := st("leaf", at("name", P("String")), at("count", P("Integer")))
	thing := cl("thing", at("name", P("String")), at("size", P("Integer")), at("ready", P("Boolean")))
	idp := cl("identity_provider", at("login", P("String")), at("URL", P("String")))
	idp.Ann.Go = "IDP"
	plains := st("plains")
	lists := st("lists")
	maps := st("maps")
	for _, e := range Elems {
		n := strings.ToLower(e)
		plains.Attrs = append(plains.Attrs, at("plain_"+n, P(e)))
		lists.Attrs = append(lists.Attrs, at("list_"+n, L(e)))
		maps.Attrs = append(maps.Attrs, at("map_"+n, M(e)))
	}
	links := cl("links",
		ln("one", P("thing")), ln("many", L("thing")),
		ln("provider", P("identity_provider")), ln("providers", L("identity_provider")),
		at("inline_thing", P("thing")), at("inline_things", L("thing")),
	)
	mixed := cl("mixed",
		at("zeta", P("String")), at("alpha", P("Boolean")), at("number", P("Integer")),
		at("tags", L("String")), at("props", M("String")), at("leaf", P("leaf")),
		ln("owner", P("thing")), ln("things", L("thing")), at("leaves", L("leaf")),
		at("leaf_by_name", M("leaf")), at("shade", P("color")), at("created", P("Date")),
	)
	labels := cl("labels",
		at("type", P("String")), at("default", P("Integer")), at("package", L("String")),
		at("range", M("String")), at("func", P("leaf")), at("select", P("Boolean")),
		at("external_ID", P("String")), at("multi_AZ", P("Boolean")), at("CPU_count", P("Integer")),
		at("DNS", P("leaf")), at("cluster_IDs", L("String")),
		ann(at("creation_timestamp", P("Date")), "created_at", "CreatedAt"),
		ann(at("kebab", P("String")), "kebab-case", ""),
		ann(at("dollar", P("Integer")), "$dollar.value", ""),
		ann(at("renamed", L("leaf")), "", "OtherName"),
		ann(at("upper", M("Integer")), "UPPER", "Upper"),
		ann(ln("members", L("thing")), "memberList", "MemberList"),
	)
	deep := st("deep",
		at("nest", P("nest")), at("nests", L("nest")), at("nest_map", M("nest")),
		at("self", P("deep")), at("selves", L("deep")),
	)
	nest := st("nest", at("mixed", P("mixed")), at("leaves", L("leaf")), at("shades", L("color")),
		at("dates", M("Date")))
	flags := st("flags", at("one", P("Boolean")), at("two", P("Boolean")), at("three", P("Boolean")))
	nothing := st("nothing")
	bare := cl("bare")
	return &Version{
		Name:  N("v1"),
		Types: []*Type{color, leaf, thing, idp, plains, lists, maps, links, mixed, labels, deep, nest, flags, nothing, bare},
		Resources: []*Resource{
			{Name: N("root"), Locators: []*Locator{lo("things", "things", false)}},
			{Name: N("things"), Methods: []*Method{me("get", out("body", P("mixed")))}},
		},
	}
}

// scalarParams returns one parameter for each kind of scalar.
func scalarParams(dir func(string, Ref) *Param, prefix string, elems ...string) []*Param {
	var r []*Param
	for _, e := range elems {
		r = append(r, dir(prefix+strings.ToLower(e), P(e)))
	}
	return r
}

// QueryScalars are the types used for query parameters.
var QueryScalars = []string{"Boolean", "Integer", "Long", "Float", "String", "Date", "color"}

// Routes is the version that contains resources with all the kinds of methods and locators.
func Routes() *Version {
	color := &Type{Name: N("color"), Kind: Enum, Values: []*Value{
		{Name: N("red")}, {Name: N("dark_blue")}, {Name: N("extra_green"), Ann: Ann{JSON: "Extra-Green"}},
	}}
	leaf := st("leaf", at("name", P("String")), at("count", P("Integer")))
	thing := cl("thing", at("name", P("String")), at("size", P("Integer")), at("leaf", P("leaf")),
		ln("owner", P("user")), at("tags", L("String")))
	user := cl("user", at("login", P("String")))
	idp := cl("identity_provider", at("login", P("String")))
	idp.Ann.Go = "IDP"

	root := &Resource{Name: N("root"), Doc: "Root of the tree.",
		Methods: []*Method{
			me("register_thing", in("external_ID", P("String")), in("count", P("Integer")), out("thing", P("thing"))),
			{Name: N("sign_out"), Ann: Ann{HTTP: "logout"}},
		},
		Locators: []*Locator{
			lo("things", "things", false),
			lo("identity_providers", "identity_providers", false),
			{Name: N("special_users"), Target: "users", Ann: Ann{HTTP: "sp-users"}},
			lo("settings", "settings", false),
			lo("tenant", "tenant", true),
			lo("bulk_items", "bulk", false),
			lo("actions", "actions", false),
			lo("alt_things", "things", false),
		},
	}
	things := &Resource{Name: N("things"), Doc: "Collection of things.",
		Methods: []*Method{
			me("add", inout("body", P("thing")), pann(in("dry_run", P("Boolean")), "", "dryRun", ""),
				pann(in("validate", P("String")), "validateOnly", "", "")),
			me("list", append([]*Param{page(), size(), out("total", P("Integer")), out("items", L("thing")),
				in("search", P("String")), in("order", P("String"))},
				scalarParams(in, "q_", QueryScalars...)...)...),
			me("purge_all", in("reason", P("String"))),
		},
		Locators: []*Locator{lo("thing", "thing", true)},
	}
	thingR := &Resource{Name: N("thing"),
		Methods: []*Method{
			me("get", append([]*Param{out("body", P("thing"))}, scalarParams(in, "q_", QueryScalars...)...)...),
			me("update", inout("body", P("thing")), in("force", P("Boolean"))),
			me("delete", scalarParams(in, "q_", QueryScalars...)...),
			{Name: N("restart"), Ann: Ann{HTTP: "do-restart"}, Params: []*Param{
				in("delay", P("Integer")), pann(in("mode", P("color")), "restartMode", "ignored", ""), out("job", P("leaf"))}},
		},
		Locators: []*Locator{
			lo("users", "users", false),
			lo("status", "settings", false),
			{Name: N("sub_thing"), Target: "sub_thing", Variable: true, Ann: Ann{HTTP: "sub"}},
		},
	}
	subThing := &Resource{Name: N("sub_thing"),
		Methods:  []*Method{me("get", out("body", P("leaf"))), me("async_delete", in("soft", P("Boolean")))},
		Locators: []*Locator{lo("users", "users", false)},
	}
	users := &Resource{Name: N("users"),
		Methods:  []*Method{me("list", out("items", L("user"))), me("add", inout("body", P("user")))},
		Locators: []*Locator{lo("user", "user", true)},
	}
	userR := &Resource{Name: N("user"), Methods: []*Method{
		me("get", out("body", P("user"))), me("async_update", inout("body", P("user"))), me("delete")}}
	settings := &Resource{Name: N("settings"), Methods: []*Method{
		me("get", out("body", P("leaf"))), me("update", inout("body", P("leaf")), in("q_date", P("Date"))),
		me("post", in("request", P("leaf")), out("response", P("thing")))}}
	tenant := &Resource{Name: N("tenant"),
		Methods:  []*Method{me("get", out("body", P("user")))},
		Locators: []*Locator{lo("identity_providers", "identity_providers", false)}}
	idps := &Resource{Name: N("identity_providers"),
		Methods: []*Method{
			me("list", page(), size(), out("total", P("Integer")), out("items", L("identity_provider"))),
			me("search", page(), size(), in("body", P("leaf")), out("total", P("Integer")), out("items", L("identity_provider"))),
		},
		Locators: []*Locator{lo("identity_provider", "identity_provider", true)}}
	idpR := &Resource{Name: N("identity_provider"), Methods: []*Method{
		me("get", out("body", P("identity_provider"))), me("update", inout("body", P("identity_provider")))}}
	bulk := &Resource{Name: N("bulk"), Methods: []*Method{
		me("update", inout("body", L("thing"))),
		me("list", page(), size(), out("total", P("Integer")), out("items", L("String"))),
		me("post", out("response", P("leaf"))),
	}}
	var actIn, actOut, actBoth []*Param
	for _, e := range []string{"Boolean", "Integer", "Long", "Float", "String", "Date", "color", "leaf", "thing"} {
		n := strings.ToLower(e)
		actIn = append(actIn, in("p_"+n, P(e)), in("l_"+n, L(e)), in("m_"+n, M(e)))
		actOut = append(actOut, out("p_"+n, P(e)), out("l_"+n, L(e)), out("m_"+n, M(e)))
		actBoth = append(actBoth, inout("p_"+n, P(e)), inout("l_"+n, L(e)), inout("m_"+n, M(e)))
	}
	actions := &Resource{Name: N("actions"), Methods: []*Method{
		me("send_all", actIn...), me("receive_all", actOut...), me("exchange_all", actBoth...),
		me("ping"),
		me("rename", pann(inout("old_name", P("String")), "oldName", "", ""), pann(inout("new_name", P("leaf")), "newName", "", "")),
	}}
	return &Version{
		Name:  N("v1"),
		Types: []*Type{color, leaf, thing, user, idp},
		Resources: []*Resource{root, things, thingR, subThing, users, userR, settings, tenant, idps, idpR,
			bulk, actions},
		Errors: []*Error{
			{Name: N("duplicated_ID"), Code: 1001, Doc: "The identifier is already in use."},
			{Name: N("not_ready"), Code: 7},
		},
	}
}

// Routes2 is a second version of the service.
func Routes2() *Version {
	return &Version{
		Name:  N("v2_beta"),
		Types: []*Type{cl("thing", at("label", P("String")))},
		Resources: []*Resource{
			{Name: N("root"), Locators: []*Locator{lo("things", "things", false)}},
			{Name: N("things"), Methods: []*Method{me("list", page(), size(), out("total", P("Integer")), out("items", L("thing")))}},
		},
	}
}

// Twins is a version where declarations with the same name, or with names that have the same letters, have different
// annotations. The given number selects where the annotations are, so that different versions have them in different
// places.
func Twins(name string, n int) *Version {
	i := n
	// pick returns the text, changed so that it is different each time, or nothing, alternating:
	pick := func(text string) string {
		i++
		if i%2 == 0 {
			return ""
		}
		return fmt.Sprintf("%s-%d.X", text, i)
	}
	names := []string{"one_mode", "onemode", "on_emode"}
	v := &Version{Name: N(name)}
	root := &Resource{Name: N("root")}
	v.Resources = append(v.Resources, root)
	for j, x := range names {
		kind := Class
		if j == 1 {
			kind = Struct
		}
		t := &Type{Name: N(x), Kind: kind}
		for k, y := range append([]string{"title"}, names...) {
			refs := []Ref{P("String"), P("Integer"), L("String"), P(names[(k+j)%3])}
			t.Attrs = append(t.Attrs, ann(at(y, refs[(j+k)%4]), pick("Json"), ""))
		}
		e := &Type{Name: N(x + "_level"), Kind: Enum, Values: []*Value{
			{Name: N("low"), Ann: Ann{JSON: pick("Low")}}, {Name: N("high"), Ann: Ann{JSON: pick("High")}},
		}}
		v.Types = append(v.Types, t, e)
		flag := func(p *Param) *Param { return pann(p, pick("jSon"), pick("hTTp"), "") }
		r := &Resource{Name: N(x), Methods: []*Method{
			me("get", out("body", P(x)), flag(in("flag", P("Boolean"))), flag(in("level", P(x+"_level")))),
			me("delete", flag(in("level", P("String"))), flag(in("flag", P("Integer")))),
			me("update", inout("body", P(x)), in("flag", P("String"))),
			{Name: N("run_it"), Ann: Ann{HTTP: pick("aCt")}, Params: []*Param{flag(in("flag", P("String"))), flag(inout("level", P(x+"_level"))), out("result", P(x))}},
			{Name: N("runit"), Ann: Ann{HTTP: pick("aCt")}, Params: []*Param{flag(inout("flag", P("Integer"))), flag(out("one_mode", P(x))), flag(in("onemode", L(x)))}},
		}}
		v.Resources = append(v.Resources, r)
		root.Locators = append(root.Locators, &Locator{Name: N(x), Target: x, Variable: j == 2, Ann: Ann{HTTP: pick("Loc")}})
		if j > 0 {
			r.Locators = append(r.Locators, &Locator{Name: N("one_mode"), Target: names[j-1], Ann: Ann{HTTP: pick("Loc")}},
				&Locator{Name: N("child"), Target: names[j-1], Variable: true, Ann: Ann{HTTP: pick("Loc")}})
		}
		v.Errors = append(v.Errors, &Error{Name: N(x), Code: 10*n + j})
	}
	return v
}

// Main is the model used by most of the checks of the generated code.
func Main() *Model {
	m := &Model{Services: []*Service{
		{Name: N("kinds_mgmt"), Versions: []*Version{Kinds()}},
		{Name: N("routes_api"), Versions: []*Version{Routes(), Routes2()}},
		{Name: N("twin_mgmt"), Versions: []*Version{Twins("v1", 0), Twins("v2", 1)}},
	}}
	return m.Link()
}

// Refs is a version with classes that refer to classes of the given version.
func Refs(base *Version) *Version {
	v := &Version{Name: N("v3")}
	bring := func(name string, ref string) *Type {
		t := base.Type(name)
		c := &Type{Name: t.Name, Kind: t.Kind, Values: t.Values, Brought: ref == ""}
		c.Ann.Ref = ref
		for _, a := range t.Attrs {
			b := *a
			if b.Link {
				b.Owner = base
			}
			c.Attrs = append(c.Attrs, &b)
		}
		v.Types = append(v.Types, c)
		return c
	}
	bring("mixed", "/kinds_mgmt/v1/mixed")
	bring("leaf", "")
	bring("color", "")
	v.Types = append(v.Types,
		cl("holder", at("mixed", P("mixed")), at("mixes", L("mixed")), ln("linked", P("mixed")), ln("linked_list", L("mixed")),
			at("by_name", M("mixed")), at("label", P("String"))),
		st("plain_holder", at("mixed", P("mixed")), at("mixes", L("mixed")), at("holders", L("holder"))),
	)
	v.Resources = []*Resource{
		{Name: N("root"), Locators: []*Locator{lo("mixes", "mixes", false)}},
		{Name: N("mixes"), Methods: []*Method{
			me("list", page(), size(), out("total", P("Integer")), out("items", L("mixed"))),
			me("add", inout("body", P("mixed"))),
			me("merge_all", in("first", P("mixed")), in("others", L("mixed")), out("result", P("holder"))),
		}, Locators: []*Locator{lo("mixed", "mixed", true)}},
		{Name: N("mixed"), Methods: []*Method{me("get", out("body", P("mixed"))), me("update", inout("body", P("mixed"))), me("delete")}},
	}
	return v
}

// Full is the main model plus a service that refers to another.
func Full() *Model {
	m := Main()
	m.Services = append(m.Services, &Service{Name: N("refs_mgmt"), Versions: []*Version{Refs(m.Services[0].Versions[0])}})
	return m.Link()
}

// All contains all the models, indexed by name.
var All = map[string]func() *Model{
	"Main": Main,
	"Full": Full,
}
