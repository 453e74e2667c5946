package main

import (
	"verif/lib/spec"
)

// TypeReg contains the package level identifiers generated for a type.
type TypeReg struct {
	New, NewList                                   any
	Marshal, Unmarshal, MarshalList, UnmarshalList any
	Nil, NilList                                   any
	Kind, LinkKind, NilKind                        string
	ListKind, ListLinkKind, ListNilKind            string
	Values                                         map[string]any
}

// VersionReg contains the package level identifiers generated for a version.
type VersionReg struct {
	Types     map[string]*TypeReg
	NewClient any
	Errors    map[string]any
	Metadata  [2]any // Marshal and unmarshal
	OpenAPI   []byte
}

var versions = map[string]*VersionReg{}
var services = map[string]any{}

// model is the model from which the code was generated.
var model *spec.Model

func reg(v *spec.Version, elem string) *TypeReg {
	t := versions[v.Key()].Types[elem]
	if t == nil {
		panic("type " + elem + " isn't registered in " + v.Key())
	}
	return t
}

func version(key string) *spec.Version {
	for _, s := range model.Services {
		for _, v := range s.Versions {
			if v.Key() == key {
				return v
			}
		}
	}
	panic("version " + key)
}
