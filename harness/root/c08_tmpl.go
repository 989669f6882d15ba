package openapi_test

import (
	"encoding/json"
	"reflect"
	"regexp"
	"strings"
	"testing"

	"github.com/swaggest/openapi-go/internal/zzh"
	"github.com/swaggest/openapi-go/openapi3"
)

// zzEncodeV30 is the JSON data of an entity, by the reviewed table alone.
func zzEncodeV30(v reflect.Value) interface{} {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			return nil
		}
		return zzEncodeV30(v.Elem())
	case reflect.Bool:
		return v.Bool()
	case reflect.Float64:
		return v.Float()
	case reflect.Int64, reflect.Int:
		return float64(v.Int())
	case reflect.String:
		return v.String()
	case reflect.Slice:
		if v.IsNil() {
			return nil
		}
		l := make([]interface{}, 0, v.Len())
		for i := 0; i < v.Len(); i++ {
			l = append(l, zzEncodeV30(v.Index(i)))
		}
		return l
	case reflect.Map:
		if v.IsNil() {
			return nil
		}
		m := map[string]interface{}{}
		for _, k := range v.MapKeys() {
			m[k.String()] = zzEncodeV30(v.MapIndex(k))
		}
		return m
	}
	t := v.Type()
	e := zzTableV30[t.Name()]
	m := map[string]interface{}{}
	merge := func(v reflect.Value) {
		if x, ok := zzEncodeV30(v).(map[string]interface{}); ok {
			for k, y := range x {
				m[k] = y
			}
		}
	}
	for _, f := range e.fields {
		o := strings.Split(f[1], ",")
		fv := v.FieldByName(f[0])
		if o[0] == "-" {
			continue
		}
		empty := (fv.Kind() == reflect.Ptr || fv.Kind() == reflect.Interface) && fv.IsNil() || (fv.Kind() == reflect.Map || fv.Kind() == reflect.Slice || fv.Kind() == reflect.String) && fv.Len() == 0
		if len(o) > 1 && empty {
			continue
		}
		m[o[0]] = zzEncodeV30(fv)
	}
	for _, u := range e.union {
		if f := v.FieldByName(u); !f.IsNil() {
			x := zzEncodeV30(f)
			if _, ok := x.(map[string]interface{}); !ok {
				return x
			}
			merge(f)
		}
	}
	for _, p := range e.patterns {
		merge(v.FieldByName(p[0]))
	}
	for _, c := range e.consts {
		var x interface{}
		_ = json.Unmarshal([]byte(c[1]), &x)
		m[c[0]] = x
	}

	return m
}

// zzFixV30 makes a generated entity a valid one.
func zzFixV30(r *zzh.R, v reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			zzFixV30(r, v.Elem())
		}
		return
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			zzFixV30(r, v.Index(i))
		}
		return
	case reflect.Map:
		for _, k := range v.MapKeys() {
			c := reflect.New(v.Type().Elem()).Elem()
			c.Set(v.MapIndex(k))
			zzFixV30(r, c)
			v.SetMapIndex(k, c)
		}
		return
	case reflect.Struct:
	default:
		return
	}
	e := zzTableV30[v.Type().Name()]
	for _, p := range e.patterns {
		f := v.FieldByName(p[0])
		for _, k := range f.MapKeys() {
			ok := p[1] == "" || regexp.MustCompile(p[1]).MatchString(k.String())
			for _, n := range e.known {
				ok = ok && n != k.String()
			}
			for _, q := range e.patterns {
				ok = ok && (p[1] != "" || q[1] == "" || !regexp.MustCompile(q[1]).MatchString(k.String()))
			}
			if !ok {
				f.SetMapIndex(k, reflect.Value{})
			}
		}
	}
	iface := func(s string) *interface{} { var i interface{} = s; return &i } //@30
	_ = iface                                                                //@30
	switch x := v.Addr().Interface().(type) {
	case *openapi3.HTTPSecurityScheme: //@30
		x.Bearer, x.NonBearer = nil, nil //@30
		if r.Intn(2) == 0 {              //@30
			x.Scheme, x.Bearer = "bearer", &openapi3.Bearer{} //@30
		} else { //@30
			x.Scheme = r.Pick("basic", "digest", "Bearer", "")                             //@30
			x.NonBearer, x.BearerFormat = &openapi3.NonBearer{Scheme: iface(x.Scheme)}, nil //@30
		} //@30
	case *openapi3.Link: //@30
		if x.OperationID != nil { //@30
			x.OperationRef = nil //@30
		} //@30
	case *openapi3.Header: //@30
		if len(x.Content) == 0 && x.Schema == nil { //@30
			x.Schema = &openapi3.SchemaOrRef{SchemaReference: &openapi3.SchemaReference{Ref: "#/components/schemas/A"}} //@30
		} //@30
		if x.Schema != nil { //@30
			x.Content = nil //@30
		} //@30
	case *openapi3.Parameter: //@30
		if len(x.Content) == 0 && x.Schema == nil { //@30
			x.Schema = &openapi3.SchemaOrRef{SchemaReference: &openapi3.SchemaReference{Ref: "#/components/schemas/A"}} //@30
		} //@30
		if x.Schema != nil { //@30
			x.Content = nil //@30
		} else { //@30
			x.Style, x.Explode, x.AllowReserved, x.Example, x.Examples = nil, nil, nil, nil, nil //@30
		} //@30
		if x.Style != nil { //@30
			switch x.In { //@30
			case "path": //@30
				*x.Style = r.Pick("matrix", "label", "simple") //@30
			case "query": //@30
				*x.Style = r.Pick("form", "spaceDelimited", "pipeDelimited", "deepObject") //@30
			case "header": //@30
				*x.Style = "simple" //@30
			default: //@30
				*x.Style = "form" //@30
			} //@30
		} //@30
		if x.In == "path" { //@30
			t := true         //@30
			x.Required = &t   //@30
		} //@30
	case *openapi3.Header: //@31
		if len(x.Schema) > 0 { //@31
			x.Content = nil //@31
		} else if len(x.Content) == 0 { //@31
			x.Schema = map[string]interface{}{"type": "string"} //@31
		} //@31
	case *openapi3.Example: //@31
		if x.Value != nil { //@31
			x.ExternalValue = nil //@31
		} //@31
	case *openapi3.SecuritySchemeHTTPBearer: //@31
		x.Scheme = r.Pick("bearer", "Bearer", "BEARER") //@31
	case *openapi3.SecuritySchemeHTTP: //@31
		x.Scheme = r.Pick("basic", "digest", "bear") //@31
	}
	for i := 0; i < v.NumField(); i++ {
		if v.Type().Field(i).PkgPath == "" {
			zzFixV30(r, v.Field(i))
		}
	}
}

// zzForgetV30 clears what a decoder derives from other fields.
func zzForgetV30(v reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			zzForgetV30(v.Elem())
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			zzForgetV30(v.Index(i))
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			c := reflect.New(v.Type().Elem()).Elem()
			c.Set(v.MapIndex(k))
			zzForgetV30(c)
			v.SetMapIndex(k, c)
		}
	case reflect.Struct:
		if v.Type().Name() == "NonBearer" {
			v.Set(reflect.Zero(v.Type())) // its scheme is the one of the security scheme
			return
		}
		if v.Type().Name() == "Parameter" {
			for _, n := range []string{"SchemaXORContent", "Location"} {
				if f := v.FieldByName(n); f.IsValid() {
					f.Set(reflect.Zero(f.Type()))
				}
			}
		}
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				zzForgetV30(v.Field(i))
			}
		}
	}
}

func TestVerifC08V30(t *testing.T) {
	var types []reflect.Type
	for _, t := range zzEntitiesV30() {
		switch t.Name() {
		case "NonBearer", "ParameterLocation", "SchemaXORContent": // views of their parent's keys, see Parameter and HTTPSecurityScheme
		default:
			types = append(types, t)
		}
	}
	zzh.Run(t, "C08", "random valid entities of every type (depth 1-6, densities 5-60 %), encoded, compared with an encoder driven by the reviewed table, decoded and compared; distinct = distinct JSON", func(r *zzh.R) {
		used := map[string]int{}
		for round := 0; round < r.N(30000, 500000) && !r.Late(); round++ {
			tp := types[r.Intn(len(types))]
			if r.Intn(4) == 0 {
				tp = reflect.TypeOf(openapi3.Spec{})
			}
			g := zzGen(r, 1+r.Intn(5), r.Intn(55)+5)
			v := reflect.New(tp)
			v.Elem().Set(g.Value(tp, g.MaxDepth))
			zzFixV30(r, v.Elem())
			want := zzEncodeV30(v.Elem())
			wj := zzh.JSON(want)
			if _ = json.Unmarshal([]byte(wj), &want); want == nil || !zzValidV30(tp, want) {
				continue
			}
			used[tp.Name()]++
			r.Case("%s %s", tp.Name(), wj)
			r.Try("panic", func() {
				j, err := json.Marshal(v.Interface())
				if !r.Check(err == nil, "encoding fails", "error %v", err) {
					return
				}
				var got interface{}
				if err := json.Unmarshal(j, &got); err != nil {
					r.Fail("encoding", "not JSON: %v\n%s", err, j)
					return
				}
				if d := zzh.Diff(want, got); d != "" {
					r.Fail("encoding", "%s", d)
					return
				}
				back := reflect.New(tp)
				if err := json.Unmarshal(j, back.Interface()); err != nil {
					r.Fail("decoding fails", "error %v", err)
					return
				}
				zzForgetV30(back.Elem())
				zzForgetV30(v.Elem())
				if d := zzh.Diff(v.Interface(), back.Interface()); d != "" {
					r.Fail("round trip", "%s", d)
				}
			})
		}
		for _, tp := range types {
			if used[tp.Name()] == 0 && tp.Name() != "LinkNot" && tp.Name() != "SchemaXORContentNot" {
				r.Case("%s", tp.Name())
				r.Fail("coverage", "no valid entity of the type was made")
			}
		}
	})
}
