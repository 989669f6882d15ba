package internal

import (
	"context"
	"errors"
	"mime/multipart"
	"reflect"

	"github.com/swaggest/jsonschema-go"
	"github.com/swaggest/openapi-go/internal/vc"
	"github.com/swaggest/refl"
)

// The models below are the assumed contracts of the reflection libraries. They read only the options that the
// verified code really sets: the options run, and what is reported depends on the resulting settings.

// VCProps is the sequence of property events that reflecting a value produces under the given naming options.
func VCProps(i interface{}, tag string, additional []string, mapping map[string]string, noTags, unnamed, skipEmbedded, inline bool) []jsonschema.InterceptPropParams {
	n := len(additional)
	a := vc.If(n > 0, additional[0], "")

	return vc.RelOf[[]jsonschema.InterceptPropParams]("props", i, tag, n, a, mapping, noTags, unnamed, skipEmbedded, inline)
}

// VCDefs are the definitions that reflecting a value collects.
func VCDefs(i interface{}, tag string, mapping map[string]string) map[string]jsonschema.Schema {
	return vc.RelOf[map[string]jsonschema.Schema]("definitions", i, tag, mapping)
}

// VCOwnDefs are the definitions that reflecting a value leaves in its schema when they are not collected.
func VCOwnDefs(i interface{}, tag string, mapping map[string]string) map[string]jsonschema.SchemaOrBool {
	return vc.RelOf[map[string]jsonschema.SchemaOrBool]("ownDefinitions", i, tag, mapping)
}

// VCSchemas is the sequence of schema events that reflecting a value produces.
func VCSchemas(i interface{}, tag string, mapping map[string]string) []jsonschema.InterceptSchemaParams {
	return vc.RelOf[[]jsonschema.InterceptSchemaParams]("schemas", i, tag, mapping)
}

// VCIsFile tells whether a schema event is about a file upload.
func VCIsFile(p jsonschema.InterceptSchemaParams) bool {
	v := p.Value.Interface()

	return vc.TypeIs[*multipart.File](v) || vc.TypeIs[*multipart.FileHeader](v)
}

// VCIsStruct tells whether a field is a schema structure.
func VCIsStruct(f VCTag) bool { return f.V.Type() == reflect.TypeOf(jsonschema.Struct{}) }

// VCSchema is the schema of a value.
func VCSchema(i interface{}, tag string, mapping map[string]string, rootRef, inline bool) *jsonschema.Schema {
	return vc.RelOf[*jsonschema.Schema]("schema", i, tag, mapping, rootRef, inline)
}

// VCNoTags tells whether the default options of a reflector process fields without tags.
func VCNoTags(r *jsonschema.Reflector) bool { return vc.Rel("processWithoutTags", r) }

//vc:model (*github.com/swaggest/jsonschema-go.Reflector).Reflect
func modelReflect(r *jsonschema.Reflector, i interface{}, options ...func(rc *jsonschema.ReflectContext)) (jsonschema.Schema, error) {
	rc := &jsonschema.ReflectContext{DefinitionsPrefix: "#/definitions/", PropertyNameTag: "json"}
	rc.ProcessWithoutTags = VCNoTags(r)

	for _, o := range options {
		o(rc)
	}

	intercept := vc.Field[jsonschema.InterceptPropFunc](rc, "interceptProp")

	if intercept != nil {
		props := VCProps(i, rc.PropertyNameTag, rc.PropertyNameAdditionalTags, rc.PropertyNameMapping, rc.ProcessWithoutTags,
			rc.UnnamedFieldWithTag, rc.SkipEmbeddedMapsSlices, rc.InlineRefs)
		vc.Assume(len(props) >= 0)
		vc.Assume(VCCount(props, 0) == 0)

		for k := range props {
			p := props[k]
			vc.Assume((p.PropertySchema != nil) == p.Processed)
			vc.Assume(VCCount(props, k+1) == VCCount(props, k)+vc.If(p.Processed && len(p.Path) <= 1, 1, 0))

			if err := intercept(p); err != nil {
				if errors.Is(err, jsonschema.ErrSkipProperty) {
					continue
				}

				return jsonschema.Schema{}, err
			}
		}
	}

	if onSchema := vc.Field[jsonschema.InterceptSchemaFunc](rc, "interceptSchema"); onSchema != nil {
		schemas := VCSchemas(i, rc.PropertyNameTag, rc.PropertyNameMapping)
		vc.Assume(len(schemas) >= 0)

		for k := range schemas {
			p := schemas[k]
			s := vc.AnyFresh[jsonschema.Schema]()
			s.ExtraProperties = vc.If(vc.Any[bool](), nil, vc.AnyFresh[map[string]interface{}]())
			p.Schema = &s

			if _, err := onSchema(p); err != nil {
				return jsonschema.Schema{}, err
			}
		}
	}

	if vc.Rel("reflectFails", i, rc.PropertyNameTag, rc.PropertyNameMapping) {
		return jsonschema.Schema{}, errors.New("reflect")
	}

	schema := *VCSchema(i, rc.PropertyNameTag, rc.PropertyNameMapping, rc.RootRef, rc.InlineRefs)
	schema.Definitions = nil

	if !rc.InlineRefs {
		defs := VCDefs(i, rc.PropertyNameTag, rc.PropertyNameMapping)

		if rc.CollectDefinitions != nil {
			for name, def := range defs {
				rc.CollectDefinitions(name, def)
			}
		} else {
			schema.Definitions = VCOwnDefs(i, rc.PropertyNameTag, rc.PropertyNameMapping)
		}
	}

	return schema, nil
}

//vc:model github.com/swaggest/refl.HasTaggedFields
func modelHasTaggedFields(i interface{}, tag string) bool { return VCHasTagged(i, tag) }

// VCHasTagged tells whether a structure has fields with the tag.
func VCHasTagged(i interface{}, tag string) bool { return vc.Rel("hasTagged", i, tag) }

// VCIsSliceOrMap tells whether a value is a slice or a map.
func VCIsSliceOrMap(i interface{}) bool { return vc.Rel("isSliceOrMap", i) }

// VCHasType tells whether a schema type includes t.
func VCHasType(s *jsonschema.Type, t jsonschema.SimpleType) bool { return vc.Rel("hasType", s, t) }

// VCCount is the number of processed top-level properties among the first k.
func VCCount(props []jsonschema.InterceptPropParams, k int) int { return vc.RelInt("topCount", props, k) }

//vc:model (*github.com/swaggest/jsonschema-go.Schema).HasType
func modelHasType(s *jsonschema.Schema, t jsonschema.SimpleType) bool { return VCHasType(s.Type, t) }

//vc:model github.com/swaggest/refl.IsSliceOrMap
func modelIsSliceOrMap(i interface{}) bool { return VCIsSliceOrMap(i) }

//vc:model github.com/swaggest/refl.FindEmbeddedSliceOrMap
func modelFindEmbedded(i interface{}) reflect.Type {
	return VCEmbedded(i)
}

// VCEmbedded is the type of an embedded slice or map, if any.
func VCEmbedded(i interface{}) reflect.Type { return vc.RelOf[reflect.Type]("embeddedSliceOrMap", i) }

// VCTag is a field with its tag.
type VCTag struct {
	V   reflect.Value
	F   reflect.StructField
	Tag string
}

// VCTagged are the tagged fields of a value.
func VCTagged(v reflect.Value, tag string) []VCTag { return vc.RelOf[[]VCTag]("tagged", v, tag) }

//vc:model github.com/swaggest/refl.WalkTaggedFields
func modelWalkTaggedFields(v reflect.Value, f refl.WalkTaggedFieldFn, tagName string) {
	tagged := VCTagged(v, tagName)
	vc.Assume(len(tagged) >= 0)

	for k := range tagged {
		f(tagged[k].V, tagged[k].F, tagged[k].Tag)
	}
}

// VCFields are all fields of a value, at any depth.
func VCFields(v reflect.Value) []VCTag { return vc.RelOf[[]VCTag]("fields", v) }

//vc:model github.com/swaggest/refl.WalkFieldsRecursively
func modelWalkFieldsRecursively(v reflect.Value, f refl.WalkFieldFn) {
	fields := VCFields(v)
	vc.Assume(len(fields) >= 0)

	for k := range fields {
		f(fields[k].V, fields[k].F, nil)
	}
}

//vc:model reflect.New
func modelNew(t reflect.Type) reflect.Value { return vc.RelOf[reflect.Value]("reflect.New", t) }

//vc:model reflect.ValueOf
func modelValueOf(i interface{}) reflect.Value { return vc.RelOf[reflect.Value]("reflect.ValueOf", i) }

//vc:model reflect.TypeOf
func modelTypeOf(i interface{}) reflect.Type { return vc.RelOf[reflect.Type]("reflect.TypeOf", i) }

//vc:model reflect.Zero
func modelZero(t reflect.Type) reflect.Value { return vc.RelOf[reflect.Value]("reflect.Zero", t) }

//vc:model (reflect.Value).Type
func modelType(v reflect.Value) reflect.Type { return vc.RelOf[reflect.Type]("reflect.Type", v) }

//vc:model (reflect.Value).Interface
func modelInterface(v reflect.Value) interface{} {
	return vc.RelOf[interface{}]("reflect.Interface", v)
}

//vc:model (reflect.StructTag).Lookup
func modelLookup(t reflect.StructTag, key string) (string, bool) {
	ok := vc.Rel("tag.has", t, key)

	return vc.If(ok, vc.RelStr("tag.value", t, key), ""), ok
}

//vc:model (reflect.StructTag).Get
func modelGet(t reflect.StructTag, key string) string {
	return vc.If(vc.Rel("tag.has", t, key), vc.RelStr("tag.value", t, key), "")
}

func vcParseErr(bad bool) error {
	if bad {
		return errors.New("parse")
	}

	return nil
}

//vc:model strconv.ParseBool
func modelParseBool(s string) (bool, error) { return vc.Rel("parseBool", s), vcParseErr(vc.Rel("badBool", s)) }

//vc:model strconv.ParseInt
func modelParseInt(s string, base, bits int) (int64, error) {
	return vc.RelOf[int64]("parseInt", s), vcParseErr(vc.Rel("badInt", s))
}

//vc:model strconv.ParseFloat
func modelParseFloat(s string, bits int) (float64, error) {
	return vc.RelOf[float64]("parseFloat", s), vcParseErr(vc.Rel("badFloat", s))
}

//vc:model context.WithValue
func modelWithValue(c context.Context, k, v interface{}) context.Context {
	return vc.RelOf[context.Context]("ctx.with", c, k, v)
}

// The type of a schema is replaced (its type object is not shared with another schema).
//
//vc:model (*github.com/swaggest/jsonschema-go.Schema).AddType
func modelAddType(s *jsonschema.Schema, t jsonschema.SimpleType) {
	if s.Type == nil {
		one := t
		s.Type = &jsonschema.Type{SimpleTypes: &one}

		return
	}
	if s.Type.SimpleTypes != nil {
		if old := *s.Type.SimpleTypes; old != t {
			s.Type = &jsonschema.Type{SliceOfSimpleTypeValues: []jsonschema.SimpleType{old, t}}
		}

		return
	}
	s.Type = vc.If(vc.Any[bool](), nil, vc.AnyFresh[*jsonschema.Type]())
}

//vc:model (*github.com/swaggest/jsonschema-go.Schema).RemoveType
func modelRemoveType(s *jsonschema.Schema, t jsonschema.SimpleType) {
	s.Type = vc.If(vc.Any[bool](), nil, vc.AnyFresh[*jsonschema.Type]())
}

// Marshalling a schema to a map is not modelled beyond its result being new.
//
//vc:model (github.com/swaggest/jsonschema-go.SchemaOrBool).ToSimpleMap
func modelToSimpleMap(s jsonschema.SchemaOrBool) (map[string]interface{}, error) {
	m := vc.AnyFresh[map[string]interface{}]()
	vc.Assume(m != nil && vc.Rel("simpleMap", s, m))

	return m, vcParseErr(vc.Rel("toMapFails", s))
}

// The encoding of a value is a new text that is a function of the value: encLen bytes encAt, the string encText; that of
// an object is enclosed in braces.
//
//vc:model encoding/json.Marshal
func modelMarshal(v interface{}) ([]byte, error) {
	fails := vc.Rel("encodeFails", v)
	if fails {
		return nil, vcParseErr(true)
	}
	r := vc.AnyFresh[[]byte]()
	vc.Assume(vc.Implies(!fails, len(r) >= 1 && len(r) == vc.RelInt("encLen", v) && string(r) == vc.RelStr("encText", v)))
	vc.Assume(vc.Implies(!fails, vc.Forall(func(i int) bool {
		return vc.Implies(0 <= i && i < len(r), r[i] == vc.RelOf[byte]("encAt", v, i))
	})))
	vc.Assume(vc.Implies(!fails && r[0] == '{', len(r) >= 2 && r[len(r)-1] == '}'))

	return r, nil
}

//vc:model bytes.Equal
func modelBytesEqual(a, b []byte) bool { return vc.Any[bool]() }

// Parsing a schema out of its map form: the result is a function of the map.
//
//vc:model (*github.com/swaggest/jsonschema-go.SchemaOrBool).FromSimpleMap
func modelFromSimpleMap(s *jsonschema.SchemaOrBool, m map[string]interface{}) error {
	o := vc.RelOf[*jsonschema.Schema]("fromMap", m)
	vc.Assume(o != nil)
	s.TypeBoolean = nil
	s.TypeObject = o

	return vcParseErr(vc.Rel("fromMapFails", m))
}
