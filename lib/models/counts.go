package models

import (
	"fmt"

	. "verif/lib/spec"
)

// Wide creates a type with the given number of attributes.
func Wide(kind TypeKind, count int) *Type {
	name := fmt.Sprintf("wide%d", count)
	if kind == Class {
		name = fmt.Sprintf("broad%d", count)
	}
	t := &Type{Name: N(name), Kind: kind}
	refs := []Ref{P("Integer"), P("String"), P("Boolean"), L("String"), M("Integer"), P("Date"), P("leaf")}
	for i := 0; i < count; i++ {
		t.Attrs = append(t.Attrs, at(fmt.Sprintf("attr%02d", i), refs[i%len(refs)]))
	}
	return t
}

// WideModel creates a model that contains the given types, plus the ones they need.
func WideModel(types ...*Type) *Model {
	v := &Version{
		Name:      N("v1"),
		Types:     append([]*Type{st("leaf", at("name", P("String")))}, types...),
		Resources: []*Resource{{Name: N("root")}},
	}
	m := &Model{Services: []*Service{{Name: N("counts"), Versions: []*Version{v}}}}
	return m.Link()
}

func counts(all bool) *Model {
	var types []*Type
	for i := 0; i <= 64; i++ {
		if all || i <= 3 || (i >= 27 && i <= 34) || i >= 59 {
			types = append(types, Wide(Struct, i))
		}
		if i <= 61 && (all || i <= 3 || (i >= 27 && i <= 34) || i >= 57) {
			types = append(types, Wide(Class, i))
		}
	}
	return WideModel(types...)
}

func init() {
	All["Counts"] = func() *Model { return counts(false) }
	All["CountsAll"] = func() *Model { return counts(true) }
}
