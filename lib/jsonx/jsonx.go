// Package jsonx contains a strict JSON decoder, that rejects duplicated keys and trailing content, and
// functions to compare documents.
package jsonx

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"sort"
	"strings"
)

// Object is an object, with the order of the keys.
type Object struct {
	Keys   []string
	Values map[string]any
}

// Get returns the value of the field, or nil.
func (o *Object) Get(key string) any {
	if o == nil {
		return nil
	}
	return o.Values[key]
}

// Obj returns the value of a field that is an object, or nil.
func (o *Object) Obj(path ...string) *Object {
	for _, key := range path {
		next, ok := o.Get(key).(*Object)
		if !ok {
			return nil
		}
		o = next
	}
	return o
}

// Has checks if the field is present.
func (o *Object) Has(key string) bool {
	if o == nil {
		return false
	}
	_, ok := o.Values[key]
	return ok
}

// Decode decodes exactly one document. The result is nil, bool, json.Number, string, []any or *Object.
func Decode(data []byte) (any, error) {
	if !json.Valid(data) {
		var x any
		err := json.Unmarshal(data, &x)
		return nil, fmt.Errorf("invalid JSON: %v", err)
	}
	d := json.NewDecoder(bytes.NewReader(data))
	d.UseNumber()
	v, err := value(d, "")
	if err != nil {
		return nil, err
	}
	if _, err := d.Token(); err != io.EOF {
		return nil, fmt.Errorf("content after the document")
	}
	return v, nil
}

func value(d *json.Decoder, path string) (any, error) {
	t, err := d.Token()
	if err != nil {
		return nil, err
	}
	delim, ok := t.(json.Delim)
	if !ok {
		return t, nil
	}
	switch delim {
	case '{':
		o := &Object{Values: map[string]any{}}
		for d.More() {
			k, err := d.Token()
			if err != nil {
				return nil, err
			}
			key := k.(string)
			if _, dup := o.Values[key]; dup {
				return nil, fmt.Errorf("duplicated key '%s' in '%s'", key, path)
			}
			v, err := value(d, path+"/"+key)
			if err != nil {
				return nil, err
			}
			o.Keys = append(o.Keys, key)
			o.Values[key] = v
		}
		_, err := d.Token()
		return o, err
	case '[':
		list := []any{}
		for d.More() {
			v, err := value(d, path)
			if err != nil {
				return nil, err
			}
			list = append(list, v)
		}
		_, err := d.Token()
		return list, err
	}
	return nil, fmt.Errorf("unexpected delimiter %v", delim)
}

// Canon returns the canonical text of a document: without spaces and with sorted keys. It accepts
// the result of Decode as well as map[string]any, scalars and slices.
func Canon(v any) string {
	var b strings.Builder
	canon(&b, v)
	return b.String()
}

func canon(b *strings.Builder, v any) {
	switch t := v.(type) {
	case *Object:
		canon(b, t.Values)
	case map[string]any:
		keys := make([]string, 0, len(t))
		for k := range t {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		b.WriteString("{")
		for i, k := range keys {
			if i > 0 {
				b.WriteString(",")
			}
			scalar(b, k)
			b.WriteString(":")
			canon(b, t[k])
		}
		b.WriteString("}")
	case []any:
		b.WriteString("[")
		for i, x := range t {
			if i > 0 {
				b.WriteString(",")
			}
			canon(b, x)
		}
		b.WriteString("]")
	case json.Number:
		number(b, t)
	case int:
		number(b, json.Number(fmt.Sprint(t)))
	case int64:
		number(b, json.Number(fmt.Sprint(t)))
	case float64:
		data, _ := json.Marshal(t)
		number(b, json.Number(data))
	default:
		scalar(b, v)
	}
}

func number(b *strings.Builder, n json.Number) {
	if _, err := n.Int64(); err == nil {
		b.WriteString(n.String())
		return
	}
	f, err := n.Float64()
	if err != nil {
		b.WriteString(n.String())
		return
	}
	if f == 0 {
		b.WriteString("0")
		return
	}
	if f == float64(int64(f)) && f > -1e15 && f < 1e15 {
		fmt.Fprintf(b, "%d", int64(f))
		return
	}
	fmt.Fprintf(b, "%v", f)
}

func scalar(b *strings.Builder, v any) {
	data, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	b.Write(data)
}
