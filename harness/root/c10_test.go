package openapi_test

import (
	"fmt"
	"reflect"
	"strings"
	"testing"

	"github.com/swaggest/jsonschema-go"
	"github.com/swaggest/openapi-go/internal/zzh"
	"github.com/swaggest/openapi-go/openapi3"
)

func TestVerifC10(t *testing.T) {
	zzh.Run(t, "C10", "random JSON schemas (every keyword, nested) converted to OpenAPI 3.0 and compared keyword by keyword; distinct = distinct schemas", func(r *zzh.R) {
		g := &zzJSGen{R: r, refs: []string{"#/components/schemas/A", "#/definitions/B", "http://x/y", ""}, ext: []string{"x-a", "x-", "X-b", "y", "components", "x"}}
		for i := 0; i < r.N(12000, 200000) && !r.Late(); i++ {
			js := g.schema(i % 4)
			if i < 2 {
				js = jsonschema.SchemaOrBool{TypeBoolean: zzP(i == 0)}
			}
			r.Case("%s", zzShowJS(js))
			r.Try("panic", func() {
				before := zzh.Copy(js)
				var os openapi3.SchemaOrRef
				os.FromJSONSchema(js)
				if d := zzConv30(js, os); d != "" {
					r.Fail("conversion", "%s; got %s", d, zzh.JSON(os))
				}
				d := zzh.Diff(js, before)
				r.Check(d == "", "source changed", "the source schema was changed: %s", d)
			})
		}
	})
}

func zzShowJS(js jsonschema.SchemaOrBool) string {
	s := zzh.JSON(js)
	if js.TypeObject != nil && js.TypeObject.Type != nil {
		s += fmt.Sprintf(" type=%s", zzh.JSON(js.TypeObject.Type))
	}
	return s
}

func zzPtrEq(a, b interface{}) bool {
	return zzh.Diff(a, b) == ""
}

func zzNonFalse(b *bool) bool { return b != nil && *b }

func zzConvList(js []jsonschema.SchemaOrBool, os []openapi3.SchemaOrRef) string {
	if len(js) != len(os) {
		return fmt.Sprintf(": %d schemas instead of %d", len(os), len(js))
	}
	for i := range js {
		if d := zzConv30(js[i], os[i]); d != "" {
			return fmt.Sprintf("[%d]%s", i, d)
		}
	}
	return ""
}

// zzConv30 compares a schema with its OpenAPI 3.0 form.
func zzConv30(js jsonschema.SchemaOrBool, os openapi3.SchemaOrRef) string {
	empty := &openapi3.Schema{}
	if js.TypeBoolean != nil {
		if os.Schema == nil || os.SchemaReference != nil {
			return ": boolean schema is not inline"
		}
		if *js.TypeBoolean {
			if !zzPtrEq(os.Schema, empty) {
				return ": true is not the empty schema"
			}
		} else if !zzPtrEq(os.Schema, &openapi3.Schema{Not: &openapi3.SchemaOrRef{Schema: empty}}) {
			return ": false is not the negation of the empty schema"
		}
		return ""
	}
	j := js.TypeObject
	if j.Ref != nil {
		ref := openapi3.SchemaOrRef{SchemaReference: &openapi3.SchemaReference{Ref: *j.Ref}}
		if zzNonFalse(j.Deprecated) {
			o := os.Schema
			if o == nil || os.SchemaReference != nil {
				return ": deprecated reference lost its mark"
			}
			var refs, marks int
			for _, a := range o.AllOf {
				if zzPtrEq(a, ref) {
					refs++
				} else if a.Schema != nil && zzPtrEq(a.Schema, &openapi3.Schema{Deprecated: zzP(true)}) {
					marks++
				} else {
					return ": deprecated reference gained content"
				}
			}
			rest := *o
			rest.AllOf = nil
			if zzNonFalse(rest.Deprecated) {
				marks++
				rest.Deprecated = nil
			}
			if refs != 1 || marks != 1 || !zzPtrEq(&rest, empty) {
				return ": deprecated reference is not the reference and the mark"
			}
			return ""
		}
		if d := zzh.Diff(os, ref); d != "" {
			return ": reference: " + d
		}
		return ""
	}
	o := os.Schema
	if o == nil || os.SchemaReference != nil {
		return ": schema is not inline"
	}
	chk := func(name string, a, b interface{}) string {
		if d := zzh.Diff(a, b); d != "" {
			return "." + name + ": source and result differ: " + d
		}
		return ""
	}
	lower := func(v int64, p *int64) int64 {
		if p == nil {
			return 0
		}
		return *p
	}
	maxV, exMax, minV, exMin := j.Maximum, false, j.Minimum, false
	if j.ExclusiveMaximum != nil {
		if maxV == nil || *j.ExclusiveMaximum <= *maxV {
			maxV, exMax = j.ExclusiveMaximum, true
		}
	}
	if j.ExclusiveMinimum != nil {
		if minV == nil || *j.ExclusiveMinimum >= *minV {
			minV, exMin = j.ExclusiveMinimum, true
		}
	}
	checks := []string{
		chk("title", j.Title, o.Title), chk("description", j.Description, o.Description), chk("format", j.Format, o.Format), chk("pattern", j.Pattern, o.Pattern),
		chk("deprecated", j.Deprecated, o.Deprecated), chk("readOnly", j.ReadOnly, o.ReadOnly), chk("writeOnly", j.WriteOnly, o.WriteOnly),
		chk("uniqueItems", j.UniqueItems, o.UniqueItems), chk("required", j.Required, o.Required), chk("enum", j.Enum, o.Enum), chk("default", j.Default, o.Default),
		chk("multipleOf", j.MultipleOf, o.MultipleOf), chk("maxItems", j.MaxItems, o.MaxItems), chk("maxLength", j.MaxLength, o.MaxLength),
		chk("maxProperties", j.MaxProperties, o.MaxProperties), chk("minItems", j.MinItems, lower(0, o.MinItems)), chk("minLength", j.MinLength, lower(0, o.MinLength)),
		chk("minProperties", j.MinProperties, lower(0, o.MinProperties)),
	}
	if j.Maximum == nil || j.ExclusiveMaximum == nil { // both at once cannot be expressed
		checks = append(checks, chk("maximum", maxV, o.Maximum), chk("exclusiveMaximum", exMax, zzNonFalse(o.ExclusiveMaximum)))
	}
	if j.Minimum == nil || j.ExclusiveMinimum == nil {
		checks = append(checks, chk("minimum", minV, o.Minimum), chk("exclusiveMinimum", exMin, zzNonFalse(o.ExclusiveMinimum)))
	}
	if len(j.Examples) > 0 {
		checks = append(checks, chk("example", &j.Examples[0], o.Example))
	} else {
		checks = append(checks, chk("example", (*interface{})(nil), o.Example))
	}
	null, types := false, map[string]bool{}
	if j.Type != nil {
		ts := j.Type.SliceOfSimpleTypeValues
		if j.Type.SimpleTypes != nil {
			ts = []jsonschema.SimpleType{*j.Type.SimpleTypes}
		}
		for _, t := range ts {
			if t == jsonschema.Null {
				null = true
			} else {
				types[string(t)] = true
			}
		}
	}
	if null != zzNonFalse(o.Nullable) {
		return fmt.Sprintf(".nullable: %v", zzNonFalse(o.Nullable))
	}
	if (o.Type == nil) != (len(types) == 0) || o.Type != nil && !types[string(*o.Type)] {
		return ".type: " + zzh.JSON(o.Type)
	}
	for _, c := range checks {
		if c != "" {
			return c
		}
	}
	sub := func(name string, js *jsonschema.SchemaOrBool, os *openapi3.SchemaOrRef) string {
		if js == nil || os == nil {
			if js == nil && os == nil {
				return ""
			}
			return "." + name + ": lost or invented"
		}
		if d := zzConv30(*js, *os); d != "" {
			return "." + name + d
		}
		return ""
	}
	var items *jsonschema.SchemaOrBool
	if j.Items != nil {
		items = j.Items.SchemaOrBool
	}
	subs := []string{sub("not", j.Not, o.Not), sub("items", items, o.Items)}
	for _, l := range []struct {
		n  string
		js []jsonschema.SchemaOrBool
		os []openapi3.SchemaOrRef
	}{{"allOf", j.AllOf, o.AllOf}, {"anyOf", j.AnyOf, o.AnyOf}, {"oneOf", j.OneOf, o.OneOf}} {
		if d := zzConvList(l.js, l.os); d != "" {
			subs = append(subs, "."+l.n+d)
		}
	}
	if len(j.Properties) != len(o.Properties) {
		return ".properties: lost or invented"
	}
	for k, p := range j.Properties {
		q, ok := o.Properties[k]
		if !ok {
			return ".properties: lost " + k
		}
		subs = append(subs, sub("properties["+k+"]", &p, &q))
	}
	switch {
	case (j.AdditionalProperties == nil) != (o.AdditionalProperties == nil):
		return ".additionalProperties: lost or invented"
	case j.AdditionalProperties == nil:
	case j.AdditionalProperties.TypeBoolean != nil && o.AdditionalProperties.Bool != nil:
		if o.AdditionalProperties.SchemaOrRef != nil || *o.AdditionalProperties.Bool != *j.AdditionalProperties.TypeBoolean {
			return ".additionalProperties: other boolean"
		}
	default:
		if o.AdditionalProperties.Bool != nil {
			return ".additionalProperties: boolean"
		}
		subs = append(subs, sub("additionalProperties", j.AdditionalProperties, o.AdditionalProperties.SchemaOrRef))
	}
	for _, c := range subs {
		if c != "" {
			return c
		}
	}
	ext := map[string]interface{}{}
	for k, v := range j.ExtraProperties {
		if strings.HasPrefix(k, "x-") {
			ext[k] = v
		}
	}
	if len(ext) != len(o.MapOfAnything) || len(ext) > 0 && !reflect.DeepEqual(ext, o.MapOfAnything) {
		return ".extensions: " + zzh.JSON(o.MapOfAnything)
	}
	if o.Discriminator != nil || o.ExternalDocs != nil || o.XML != nil {
		return ": invented keywords"
	}
	return ""
}
