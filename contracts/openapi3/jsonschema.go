package openapi3

import (
	"strings"

	"github.com/swaggest/jsonschema-go"
	"github.com/swaggest/openapi-go/internal/vc"
)

func vcSameStr(a, b *string) bool { return (a == nil) == (b == nil) && vc.Implies(a != nil, *a == *b) }

func vcSameBool(a, b *bool) bool { return (a == nil) == (b == nil) && vc.Implies(a != nil, *a == *b) }

func vcSameFloat(a, b *float64) bool {
	return (a == nil) == (b == nil) && vc.Implies(a != nil, vc.Eq(*a, *b))
}

func vcSameInt(a, b *int64) bool { return (a == nil) == (b == nil) && vc.Implies(a != nil, *a == *b) }

func vcSameAny(a, b *interface{}) bool {
	return (a == nil) == (b == nil) && vc.Implies(a != nil, vc.Eq(*a, *b))
}

// vcConv: os is the OpenAPI 3.0 form of js. The relation is defined by the postcondition of FromJSONSchema, level by level.
func vcConv(js jsonschema.SchemaOrBool, os SchemaOrRef) bool {
	return vc.Rel("conv30", js, os)
}

// vcNew: the objects s points to were made during the call.
func vcNew(s SchemaOrRef) bool {
	return vc.Implies(s.Schema != nil, vc.Fresh(s.Schema)) && vc.Implies(s.SchemaReference != nil, vc.Fresh(s.SchemaReference))
}

func vcPlainRef(s *SchemaOrRef, ref string) bool {
	return s.Schema == nil && s.SchemaReference != nil && s.SchemaReference.Ref == ref
}

//vc:func (*SchemaOrRef).FromJSONSchema
//vc:props C10 C12 C13 C14 C15
func contractFromJSONSchema(s *SchemaOrRef, schema jsonschema.SchemaOrBool) func() {
	vc.Requires("receiver is empty", s.Schema == nil && s.SchemaReference == nil)
	vc.Modifies(s)
	js := schema.TypeObject
	simple := js.Type != nil && js.Type.SimpleTypes != nil
	types := js.Type.SliceOfSimpleTypeValues
	multi := js.Type != nil && js.Type.SimpleTypes == nil && len(types) > 0

	vc.Loop("SliceOfSimpleTypeValues", func(n vc.Done, os *Schema) {
		vc.Invariant("C10.nullable exactly if null was among the types", vc.Iff(os.Nullable != nil, vc.Exists(func(i int) bool {
			return 0 <= i && i < int(n) && types[i] == jsonschema.Null
		})) && vc.Implies(os.Nullable != nil, *os.Nullable))
		vc.Invariant("C10.type is one of the non-null types", vc.Iff(os.Type != nil, vc.Exists(func(i int) bool {
			return 0 <= i && i < int(n) && types[i] != jsonschema.Null
		})) && vc.Implies(os.Type != nil, vc.Exists(func(i int) bool {
			return 0 <= i && i < int(n) && types[i] != jsonschema.Null && string(types[i]) == string(*os.Type)
		})))
	})
	vc.Loop("Properties", func(vis vc.Visited[string], os *Schema) {
		vc.Invariant("C10.properties so far are converted", vc.Forall(func(k string) bool {
			p, ok := os.Properties[k]

			return ok == vis.Has(k) && vc.Implies(ok, vcConv(js.Properties[k], p))
		}))
	})
	vc.Loop("ExtraProperties", func(vis vc.Visited[string], os *Schema) {
		vc.Invariant("C10+C12+C13+C14+C15.extensions are kept in a new map", os.MapOfAnything == nil || vc.Fresh(os.MapOfAnything))
		vc.Invariant("C10.extensions so far are copied", vc.Forall(func(k string) bool {
			v, ok := os.MapOfAnything[k]

			return ok == (vis.Has(k) && strings.HasPrefix(k, "x-")) && vc.Implies(ok, vc.Eq(v, js.ExtraProperties[k]))
		}))
	})

	return func() {
		var empty Schema

		o := s.Schema
		vc.Produce(vcConv(schema, *s))
		vc.Ensure("C10.result is new", vcNew(*s))
		vc.Details()
		vc.Ensure("C10.true is the empty schema", vc.Implies(schema.TypeBoolean != nil && *schema.TypeBoolean,
			s.SchemaReference == nil && o != nil && vc.Eq(*o, empty)))
		vc.Ensure("C10.false is the negation of the empty schema", vc.Implies(schema.TypeBoolean != nil && !*schema.TypeBoolean,
			s.SchemaReference == nil && o != nil && o.Not != nil && o.Not.SchemaReference == nil && o.Not.Schema != nil && vc.Eq(*o.Not.Schema, empty)))
		isObj := schema.TypeBoolean == nil
		deprecatedRef := js.Ref != nil && js.Deprecated != nil && *js.Deprecated
		vc.Ensure("C10+C15.a reference becomes that reference", vc.Implies(isObj && js.Ref != nil && !deprecatedRef, vcPlainRef(s, *js.Ref)))
		vc.Ensure("C10.a deprecated reference keeps the mark", vc.Implies(isObj && deprecatedRef,
			s.SchemaReference == nil && o != nil && len(o.AllOf) == 2 && o.AllOf[0].SchemaReference == nil && o.AllOf[0].Schema != nil &&
				o.AllOf[0].Schema.Deprecated != nil && *o.AllOf[0].Schema.Deprecated && vcPlainRef(&o.AllOf[1], *js.Ref)))
		plain := isObj && js.Ref == nil
		vc.Ensure("C10.a schema stays inline", vc.Implies(plain, s.SchemaReference == nil && o != nil))
		vc.Ensure("C10.title, description, format, pattern", vc.Implies(plain, vcSameStr(o.Title, js.Title) && vcSameStr(o.Description, js.Description) &&
			vcSameStr(o.Format, js.Format) && vcSameStr(o.Pattern, js.Pattern)))
		vc.Ensure("C10.flags", vc.Implies(plain, vcSameBool(o.Deprecated, js.Deprecated) && vcSameBool(o.ReadOnly, js.ReadOnly) &&
			vcSameBool(o.WriteOnly, js.WriteOnly) && vcSameBool(o.UniqueItems, js.UniqueItems)))
		vc.Ensure("C10.required, enum, default", vc.Implies(plain, vc.SameSlice(o.Required, js.Required) && vc.SameSlice(o.Enum, js.Enum) && vcSameAny(o.Default, js.Default)))
		vc.Ensure("C10.first example", vc.Implies(plain, (o.Example != nil) == (len(js.Examples) > 0) && vc.Implies(len(js.Examples) > 0, vc.Eq(*o.Example, js.Examples[0]))))
		vc.Ensure("C10.multipleOf", vc.Implies(plain, vcSameFloat(o.MultipleOf, js.MultipleOf)))
		vc.Ensure("C10.maximum", vc.Implies(plain && !(js.Maximum != nil && js.ExclusiveMaximum != nil),
			vc.Implies(js.ExclusiveMaximum != nil, o.ExclusiveMaximum != nil && *o.ExclusiveMaximum && vcSameFloat(o.Maximum, js.ExclusiveMaximum)) &&
				vc.Implies(js.ExclusiveMaximum == nil, vcFalse(o.ExclusiveMaximum) && vcSameFloat(o.Maximum, js.Maximum))))
		vc.Ensure("C10.minimum", vc.Implies(plain && !(js.Minimum != nil && js.ExclusiveMinimum != nil),
			vc.Implies(js.ExclusiveMinimum != nil, o.ExclusiveMinimum != nil && *o.ExclusiveMinimum && vcSameFloat(o.Minimum, js.ExclusiveMinimum)) &&
				vc.Implies(js.ExclusiveMinimum == nil, vcFalse(o.ExclusiveMinimum) && vcSameFloat(o.Minimum, js.Minimum))))
		vc.Ensure("C10.upper limits", vc.Implies(plain, vcSameInt(o.MaxItems, js.MaxItems) && vcSameInt(o.MaxLength, js.MaxLength) && vcSameInt(o.MaxProperties, js.MaxProperties)))
		vc.Ensure("C10.lower limits", vc.Implies(plain, vcLower(o.MinItems, js.MinItems) && vcLower(o.MinLength, js.MinLength) && vcLower(o.MinProperties, js.MinProperties)))
		vc.Ensure("C10.no type", vc.Implies(plain && !simple && !multi, o.Type == nil && vcFalse(o.Nullable)))
		vc.Ensure("C10.single type", vc.Implies(plain && simple, vc.If(*js.Type.SimpleTypes == jsonschema.Null, o.Type == nil && o.Nullable != nil && *o.Nullable,
			vcFalse(o.Nullable) && o.Type != nil && string(*o.Type) == string(*js.Type.SimpleTypes))))
		vc.Ensure("C10.type list", vc.Implies(plain && multi, vc.Iff(o.Nullable != nil && *o.Nullable, vc.Exists(func(i int) bool {
			return 0 <= i && i < len(types) && types[i] == jsonschema.Null
		})) && vc.Iff(o.Type != nil, vc.Exists(func(i int) bool {
			return 0 <= i && i < len(types) && types[i] != jsonschema.Null
		})) && vc.Implies(o.Type != nil, vc.Exists(func(i int) bool {
			return 0 <= i && i < len(types) && types[i] != jsonschema.Null && string(types[i]) == string(*o.Type)
		}))))
		vc.Ensure("C10.not", vc.Implies(plain, (o.Not != nil) == (js.Not != nil) && vc.Implies(js.Not != nil, vcConv(*js.Not, *o.Not))))
		vc.Ensure("C10.items", vc.Implies(plain, (o.Items != nil) == (js.Items != nil && js.Items.SchemaOrBool != nil) && vc.Implies(o.Items != nil, vcConv(*js.Items.SchemaOrBool, *o.Items))))
		ap := js.AdditionalProperties
		vc.Ensure("C10.additional properties", vc.Implies(plain, (o.AdditionalProperties != nil) == (ap != nil) && vc.Implies(ap != nil,
			vc.If(ap.TypeBoolean != nil, o.AdditionalProperties.SchemaOrRef == nil && vcSameBool(o.AdditionalProperties.Bool, ap.TypeBoolean),
				o.AdditionalProperties.Bool == nil && o.AdditionalProperties.SchemaOrRef != nil && vcConv(*ap, *o.AdditionalProperties.SchemaOrRef)))))
		vc.Ensure("C10.allOf", vc.Implies(plain, vcConvAll(js.AllOf, o.AllOf)))
		vc.Ensure("C10.anyOf", vc.Implies(plain, vcConvAll(js.AnyOf, o.AnyOf)))
		vc.Ensure("C10.oneOf", vc.Implies(plain, vcConvAll(js.OneOf, o.OneOf)))
		vc.Ensure("C10.properties", vc.Implies(plain, vc.Forall(func(k string) bool {
			p, ok := o.Properties[k]
			j, jok := js.Properties[k]

			return ok == jok && vc.Implies(ok, vcConv(j, p))
		})))
		vc.Ensure("C10.extensions", vc.Implies(plain, vc.Forall(func(k string) bool {
			v, ok := o.MapOfAnything[k]
			e, eok := js.ExtraProperties[k]

			return ok == (eok && strings.HasPrefix(k, "x-")) && vc.Implies(ok, vc.Eq(v, e))
		})))
		vc.Ensure("C10.nothing else is stated", vc.Implies(plain, o.Discriminator == nil && o.ExternalDocs == nil && o.XML == nil))
	}
}

func vcFalse(b *bool) bool { return b == nil || !*b }

func vcLower(o *int64, v int64) bool {
	return vc.If(v != 0, o != nil && *o == v, o == nil || *o == 0)
}

func vcConvAll(js []jsonschema.SchemaOrBool, os []SchemaOrRef) bool {
	return len(js) == len(os) && vc.Forall(func(i int) bool { return vc.Implies(0 <= i && i < len(js), vcConv(js[i], os[i])) })
}

//vc:func fromSchemaArray
//vc:props C10
//vc:abstract FromJSONSchema
func contractFromSchemaArray(os *[]SchemaOrRef, js []jsonschema.SchemaOrBool) func() {
	vc.Modifies(os)
	old := len(*os)
	vc.Loop("js", func(n vc.Done, osa []SchemaOrRef) {
		vc.Invariant("C10.converted so far", 0 <= int(n) && len(osa) == len(js) && vc.Forall(func(i int) bool {
			return vc.Implies(0 <= i && i < int(n), vcConv(js[i], osa[i]))
		}))
	})

	return func() {
		vc.Ensure("C10.every element is converted in order", vc.Implies(old == 0, vcConvAll(js, *os)))
	}
}
