package main

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"example.com/gen/errors"
	"verif/lib/jsonx"
)

// errFields are the names of the fields of errors, as used in JSON.
var errFields = []string{"status", "id", "href", "code", "reason", "operation_id", "details", "timestamp"}

// AErr is the abstract value of an error: the fields that are present.
type AErr map[string]any

func (a AErr) clone() AErr {
	b := AErr{}
	for k, v := range a {
		b[k] = v
	}
	return b
}

// canon returns the canonical text.
func (a AErr) canon() string {
	var names []string
	for k := range a {
		names = append(names, k)
	}
	sort.Strings(names)
	var b strings.Builder
	for _, k := range names {
		switch x := a[k].(type) {
		case time.Time:
			fmt.Fprintf(&b, "%s=%s;", k, x.UTC().Format(time.RFC3339Nano))
		default:
			fmt.Fprintf(&b, "%s=%s;", k, jsonx.Canon(x))
		}
	}
	return b.String()
}

// json returns the document.
func (a AErr) json() map[string]any {
	doc := map[string]any{"kind": "Error"}
	for k, v := range a {
		if t, ok := v.(time.Time); ok {
			v = t.Format(time.RFC3339)
		}
		doc[k] = v
	}
	return doc
}

// build builds the error.
func (a AErr) builder() *errors.ErrorBuilder {
	b := errors.NewError()
	for _, name := range errFields {
		if v, ok := a[name]; ok {
			setErr(b, name, v)
		}
	}
	return b
}

func setErr(b *errors.ErrorBuilder, name string, v any) {
	var r *errors.ErrorBuilder
	switch name {
	case "status":
		r = b.Status(v.(int))
	case "id":
		r = b.ID(v.(string))
	case "href":
		r = b.HREF(v.(string))
	case "code":
		r = b.Code(v.(string))
	case "reason":
		r = b.Reason(v.(string))
	case "operation_id":
		r = b.OperationID(v.(string))
	case "details":
		r = b.Details(v)
	case "timestamp":
		t := v.(time.Time)
		r = b.Timestamp(&t)
	}
	if r != b {
		panic("setter of the builder doesn't return the builder")
	}
}

// readErr reads an error using all its accessors.
func readErr(e *errors.Error) (AErr, error) {
	if e == nil {
		return nil, fmt.Errorf("error is nil")
	}
	a := AErr{}
	var problem error
	get := func(name string, plain, value any, ok bool, zero bool) {
		if ok {
			a[name] = value
			if jsonx.Canon(plain) != jsonx.Canon(value) {
				problem = fmt.Errorf("accessors of '%s' return '%v' and '%v'", name, plain, value)
			}
			return
		}
		if !zero {
			problem = fmt.Errorf("field '%s' is absent but its value is '%v'/'%v'", name, plain, value)
		}
	}
	status, ok := e.GetStatus()
	get("status", e.Status(), status, ok, e.Status() == 0 && status == 0)
	id, ok := e.GetID()
	get("id", e.ID(), id, ok, e.ID() == "" && id == "")
	href, ok := e.GetHREF()
	get("href", e.HREF(), href, ok, e.HREF() == "" && href == "")
	code, ok := e.GetCode()
	get("code", e.Code(), code, ok, e.Code() == "" && code == "")
	reason, ok := e.GetReason()
	get("reason", e.Reason(), reason, ok, e.Reason() == "" && reason == "")
	op, ok := e.GetOperationID()
	get("operation_id", e.OperationID(), op, ok, e.OperationID() == "" && op == "")
	details, ok := e.GetDetails()
	get("details", e.Details(), details, ok, e.Details() == nil && details == nil)
	stamp, ok := e.GetTimestamp()
	switch {
	case !ok:
		if stamp != nil || e.Timestamp() != nil {
			problem = fmt.Errorf("timestamp is absent but it has a value")
		}
	case stamp == nil || e.Timestamp() == nil || !stamp.Equal(*e.Timestamp()):
		problem = fmt.Errorf("timestamp is present but the accessors return '%v' and '%v'", stamp, e.Timestamp())
	default:
		a["timestamp"] = *stamp
	}
	return a, problem
}

func errText(e *errors.Error) string {
	a, err := readErr(e)
	if err != nil {
		return "inconsistent: " + err.Error()
	}
	return a.canon()
}

// errSamples are the representative values of the fields of errors.
var errSamples = [][]any{
	{401, 0, 500, -1, 999999},
	{"401", "", "a\"b"},
	{"/api/errors/401", "", "ñ"},
	{"CLUSTERS-MGMT-401", "", "a'b%s%d"},
	{"Something failed: 'x' is 100% wrong", "", "line\nline"},
	{"b5d2-0", "", "%!"},
	{map[string]any{"a": []any{1.5, "b", nil, true}}, "text", 0.0, false, []any{}, map[string]any{}},
	{date1, date2, date3},
}

func sortStrings(list []string) { sort.Strings(list) }
