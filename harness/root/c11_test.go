package openapi_test

import (
	"encoding/json"
	"reflect"
	"sort"
	"strings"
	"testing"

	"github.com/swaggest/openapi-go/internal/zzh"
	"github.com/swaggest/openapi-go/openapi3"
	"github.com/swaggest/openapi-go/openapi31"
)

var (
	zzOne11  = []string{"not", "if", "then", "else", "contains", "propertyNames", "additionalItems", "additionalProperties", "unevaluatedItems", "unevaluatedProperties", "contentSchema"}
	zzList11 = []string{"allOf", "anyOf", "oneOf", "prefixItems"}
	zzMap11  = []string{"properties", "patternProperties", "definitions", "$defs", "dependencies", "dependentSchemas"}
)

const zzPrefix11 = "#/components/schemas/"

// zzSubs11 calls f for every schema directly inside the given one.
func zzSubs11(m map[string]interface{}, f func(x interface{}) interface{}) {
	for _, k := range zzOne11 {
		if x, ok := m[k]; ok {
			m[k] = f(x)
		}
	}
	for _, k := range zzList11 {
		if l, ok := m[k].([]interface{}); ok {
			for i := range l {
				l[i] = f(l[i])
			}
		}
	}
	for _, k := range zzMap11 {
		if c, ok := m[k].(map[string]interface{}); ok {
			for n, x := range c {
				if _, list := x.([]interface{}); !list {
					c[n] = f(x)
				}
			}
		}
	}
	switch x := m["items"].(type) {
	case []interface{}:
		for i := range x {
			x[i] = f(x[i])
		}
	case nil:
	default:
		m["items"] = f(x)
	}
}

// zzRefs11 collects the components that a schema refers to.
func zzRefs11(v interface{}, out map[string]bool) {
	m, ok := v.(map[string]interface{})
	if !ok {
		return
	}
	if ref, ok := m["$ref"].(string); ok && strings.HasPrefix(ref, zzPrefix11) {
		out[ref[len(zzPrefix11):]] = true
	}
	zzSubs11(m, func(x interface{}) interface{} { zzRefs11(x, out); return x })
}

func zzReach11(v interface{}, comps map[string]interface{}) map[string]bool {
	seen := map[string]bool{}
	next := map[string]bool{}
	zzRefs11(v, next)
	for len(next) > 0 {
		more := map[string]bool{}
		for n := range next {
			if !seen[n] {
				seen[n] = true
				zzRefs11(comps[n], more)
			}
		}
		for n := range more {
			if seen[n] {
				delete(more, n)
			}
		}
		next = more
	}
	return seen
}

// zzExpect11 says what the conversion of root is to be, given converted components.
func zzExpect11(root interface{}, comps map[string]interface{}) map[string]interface{} {
	reach := zzReach11(root, comps)
	m := zzh.Copy(root).(map[string]interface{})
	if ref, ok := m["$ref"].(string); ok && strings.HasPrefix(ref, zzPrefix11) {
		n := ref[len(zzPrefix11):]
		if !zzReach11(comps[n], comps)[n] {
			m = zzh.Copy(comps[n]).(map[string]interface{})
			delete(reach, n)
		}
	}
	if len(reach) > 0 {
		c := map[string]interface{}{}
		for n := range reach {
			c[n] = comps[n]
		}
		m["components"] = map[string]interface{}{"schemas": c}
	}
	return m
}

// zzNorm11 drops what means nothing.
func zzNorm11(v interface{}) interface{} {
	m, ok := v.(map[string]interface{})
	if !ok {
		return v
	}
	for _, k := range []string{"minLength", "minItems", "minProperties"} {
		if m[k] == 0.0 {
			delete(m, k)
		}
	}
	for _, k := range []string{"allOf", "anyOf", "oneOf", "required", "enum", "examples", "properties", "patternProperties", "definitions", "dependencies"} {
		switch x := m[k].(type) {
		case []interface{}:
			if len(x) == 0 {
				delete(m, k)
			}
		case map[string]interface{}:
			if len(x) == 0 {
				delete(m, k)
			}
		case nil:
			delete(m, k)
		}
	}
	zzSubs11(m, zzNorm11)
	if c, ok := m["components"].(map[string]interface{}); ok {
		if c, ok := c["schemas"].(map[string]interface{}); ok {
			for k, x := range c {
				c[k] = zzNorm11(x)
			}
		}
	}
	return m
}

// zzConv11 turns a schema of OpenAPI 3.0 into a JSON Schema.
func zzConv11(v interface{}) interface{} {
	m, ok := v.(map[string]interface{})
	if !ok {
		return v
	}
	if _, ok := m["$ref"]; ok {
		return map[string]interface{}{"$ref": m["$ref"]}
	}
	if m["nullable"] == true {
		m["type"] = []interface{}{m["type"], "null"}
	}
	for _, s := range []string{"Maximum", "Minimum"} {
		if m["exclusive"+s] == true && m[strings.ToLower(s)] != nil {
			m["exclusive"+s] = m[strings.ToLower(s)]
			delete(m, strings.ToLower(s))
		} else {
			delete(m, "exclusive"+s)
		}
	}
	if x, ok := m["example"]; ok {
		m["examples"] = []interface{}{x}
	}
	for _, k := range []string{"nullable", "example", "discriminator", "xml", "externalDocs"} {
		delete(m, k)
	}
	zzSubs11(m, zzConv11)
	return m
}

func zzNames11(r *zzh.R) []string {
	return []string{"A", "B", "C", "Dd", "Node.x"}[:1+r.Intn(5)]
}

// zzFixSchema11 makes references local, and nullable schemas typed.
func zzFixSchema11(r *zzh.R, v reflect.Value, names []string) {
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			zzFixSchema11(r, v.Elem(), names)
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			zzFixSchema11(r, v.Index(i), names)
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			c := reflect.New(v.Type().Elem()).Elem()
			c.Set(v.MapIndex(k))
			zzFixSchema11(r, c, names)
			v.SetMapIndex(k, c)
		}
	case reflect.Struct:
		switch x := v.Addr().Interface().(type) {
		case *openapi3.SchemaReference:
			x.Ref = zzPrefix11 + names[r.Intn(len(names))]
			if r.Intn(12) == 0 {
				x.Ref = r.Pick("#/definitions/x", "http://example.com/a.json#/components/schemas/A", "#/components/responses/A")
			}
		case *openapi3.Schema:
			if x.Nullable != nil && x.Type == nil {
				x.WithType(openapi3.SchemaTypeString)
			}
		}
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				zzFixSchema11(r, v.Field(i), names)
			}
		}
	}
}

// zzTyped11 drops empty types that the generator makes.
func zzTyped11(v interface{}) interface{} {
	if m, ok := v.(map[string]interface{}); ok {
		if _, ok := m["type"].(map[string]interface{}); ok {
			delete(m, "type")
		}
		zzSubs11(m, zzTyped11)
	}
	return v
}

func zzData11(v interface{}) interface{} {
	var d interface{}
	_ = json.Unmarshal([]byte(zzh.JSON(v)), &d)
	return d
}

func TestVerifC11OpenAPI3(t *testing.T) {
	zzh.Run(t, "C11", "random schemas and 1-5 component schemas with (mutually) recursive references, also every component by reference; the result compared with an independent conversion and closure; distinct = distinct inputs", func(r *zzh.R) {
		tp := reflect.TypeOf(openapi3.SchemaOrRef{})
		for round := 0; round < r.N(8000, 200000) && !r.Late(); round++ {
			names := zzNames11(r)
			make1 := func() openapi3.SchemaOrRef {
				g := zzGen(r, 2+r.Intn(4), 10+r.Intn(20))
				v := reflect.New(tp).Elem()
				v.Set(g.Value(tp, g.MaxDepth))
				zzFixV30(r, v)
				zzFixSchema11(r, v, names)
				return v.Interface().(openapi3.SchemaOrRef)
			}
			sp := openapi3.Spec{}
			comps := map[string]interface{}{}
			for _, n := range names {
				s := make1()
				sp.ComponentsEns().SchemasEns().WithMapOfSchemaOrRefValuesItem(n, s)
				comps[n] = zzNorm11(zzConv11(zzData11(zzEncodeV30(reflect.ValueOf(s)))))
			}
			root := make1()
			if round%3 == 0 {
				root = openapi3.SchemaOrRef{SchemaReference: &openapi3.SchemaReference{Ref: zzPrefix11 + names[0]}}
			}
			src := zzEncodeV30(reflect.ValueOf(root))
			want := zzData11(zzNorm11(zzExpect11(zzConv11(zzData11(src)), comps)))
			r.Case("schema %s components %s", zzh.JSON(src), zzh.JSON(zzEncodeV30(reflect.ValueOf(sp.Components.Schemas))))
			r.Try("panic", func() {
				before := zzh.JSON(sp)
				got := zzNorm11(zzData11(root.ToJSONSchema(&sp)))
				if d := zzh.Diff(want, got); d != "" {
					r.Fail("conversion", "%s\nwant %s\ngot %s", d, zzh.JSON(want), zzh.JSON(got))
				}
				r.Check(before == zzh.JSON(sp), "document changed", "%s", zzh.JSON(sp))
				ref := openapi3.Reflector{Spec: &sp}
				if root.SchemaReference != nil {
					s, found := ref.ResolveJSONSchemaRef(root.SchemaReference.Ref)
					n := strings.TrimPrefix(root.SchemaReference.Ref, zzPrefix11)
					r.Check(found == (comps[n] != nil), "resolve", "found %v", found)
					if found {
						want := zzData11(zzNorm11(zzExpect11(comps[n], comps)))
						if ref, ok := comps[n].(map[string]interface{})["$ref"]; !ok || ref == "" {
							if d := zzh.Diff(want, zzNorm11(zzData11(s))); d != "" {
								r.Fail("resolve", "%s", d)
							}
						}
					}
				}
			})
		}
	})
}

func TestVerifC11OpenAPI31(t *testing.T) {
	zzh.Run(t, "C11", "random schemas and 1-5 component schemas with (mutually) recursive references in every keyword that holds schemas, also every component by reference; the result compared with the source and an independent closure; distinct = distinct inputs", func(r *zzh.R) {
		for round := 0; round < r.N(8000, 200000) && !r.Late(); round++ {
			names := zzNames11(r)
			g := &zzJSGen{R: r, refs: []string{"#/definitions/x", "http://example.com/a.json#/components/schemas/A"}, ext: []string{"x-a", "x-b"}}
			for i := 0; i < 3; i++ {
				for _, n := range names {
					g.refs = append(g.refs, zzPrefix11+n)
				}
			}
			make1 := func() map[string]interface{} {
				for {
					x := zzTyped11(zzData11(g.schema(1 + r.Intn(3))))
					m, ok := x.(map[string]interface{})
					if !ok {
						continue
					}
					zzMore11(r, g, m, 2)
					return m
				}
			}
			sp := openapi31.Spec{}
			comps := map[string]interface{}{}
			for _, n := range names {
				m := make1()
				sp.ComponentsEns().WithSchemasItem(n, m)
				comps[n] = zzNorm11(zzData11(m))
			}
			root := make1()
			if ref, ok := root["$ref"]; ok {
				root = map[string]interface{}{"$ref": ref} // what a root reference with other keywords is to give is not claimed
			}
			if round%3 == 0 {
				root = map[string]interface{}{"$ref": zzPrefix11 + names[0]}
			}
			want := zzData11(zzNorm11(zzExpect11(zzData11(root), comps)))
			r.Case("schema %s components %s", zzh.JSON(root), zzh.JSON(sp.Components.Schemas))
			r.Try("panic", func() {
				before := zzh.JSON(sp)
				got := zzNorm11(zzData11(openapi31.ToJSONSchema(root, &sp)))
				if d := zzh.Diff(want, got); d != "" {
					r.Fail("conversion", "%s\nwant %s\ngot %s", d, zzh.JSON(want), zzh.JSON(got))
				}
				r.Check(before == zzh.JSON(sp), "document changed", "%s", zzh.JSON(sp))
				ref := openapi31.Reflector{Spec: &sp}
				if x, ok := root["$ref"].(string); ok {
					s, found := ref.ResolveJSONSchemaRef(x)
					n := strings.TrimPrefix(x, zzPrefix11)
					r.Check(found == (comps[n] != nil), "resolve", "found %v", found)
					if found {
						if d := zzh.Diff(comps[n], zzNorm11(zzData11(s))); d != "" {
							r.Fail("resolve", "%s", d)
						}
					}
				}
			})
		}
	})
}

// zzMore11 adds keywords that the generator of JSON schemas leaves out.
func zzMore11(r *zzh.R, g *zzJSGen, m map[string]interface{}, depth int) {
	sub := func() interface{} { return zzTyped11(zzData11(g.schema(depth - 1))) }
	if _, ok := m["$ref"]; ok && r.Intn(3) > 0 {
		return
	}
	for n := r.Intn(3); n > 0; n-- {
		switch r.Intn(3) {
		case 0:
			m[zzOne11[r.Intn(len(zzOne11))]] = sub()
		case 1:
			m[zzList11[r.Intn(len(zzList11))]] = []interface{}{sub(), sub()}
		default:
			m[zzMap11[r.Intn(len(zzMap11))]] = map[string]interface{}{"a": sub(), "^b": sub()}
		}
	}
	if depth > 0 {
		var ks []string
		for k := range m {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		zzSubs11(m, func(x interface{}) interface{} {
			if y, ok := x.(map[string]interface{}); ok && r.Intn(2) == 0 {
				zzMore11(r, g, y, depth-1)
			}
			return x
		})
	}
}
