package openapi3

import (
	"strings"

	"github.com/swaggest/jsonschema-go"
	"github.com/swaggest/openapi-go/internal/vc"
)

// vcToJS: js is the JSON Schema of s, components aside. The relation is defined by the postcondition of toJSONSchema, level by level.
func vcToJS(s SchemaOrRef, js jsonschema.SchemaOrBool) bool { return vc.Rel("toJS30", s, js) }

// vcMentions: s has a reference to component k, at some depth.
func vcMentions(s SchemaOrRef, k string) bool { return vc.Rel("mentions30", s, k) }

func vcMentionedAmong(ss []SchemaOrRef, k string) bool {
	return vc.Exists(func(i int) bool { return 0 <= i && i < len(ss) && vcMentions(ss[i], k) })
}

// vcLocal: s is a reference to a component schema.
func vcLocal(s *SchemaOrRef) bool {
	return s.SchemaReference != nil && strings.HasPrefix(s.SchemaReference.Ref, componentsSchemas)
}

//vc:func (*SchemaOrRef).toJSONSchema
//vc:props C11
func contractToJSONSchemaCtx(s *SchemaOrRef, ctx toJSONSchemaContext) func(jsonschema.SchemaOrBool) {
	vc.Requires("collecting maps are made", ctx.refsProcessed != nil && ctx.refsCount != nil)
	vc.Modifies(ctx.refsProcessed, ctx.refsCount)
	src, ref := *s, s.SchemaReference
	ss := s.Schema
	old, cnt := vc.Snap(ctx.refsProcessed), vc.Snap(ctx.refsCount)
	now, count := ctx.refsProcessed, ctx.refsCount
	comps := ctx.spec.Components.Schemas.MapOfSchemaOrRefValues
	name := ""
	if ref != nil {
		name = strings.TrimPrefix(ref.Ref, componentsSchemas)
	}
	added := func(n string) bool {
		_, was := old[n]
		_, is := now[n]

		return is && !was
	}
	known := func(k string) bool {
		_, is := now[k]

		return is && count[k] >= cnt[k]+1
	}
	kept := func() bool {
		return vc.Forall(func(k string) bool {
			v, was := old[k]
			w, is := now[k]

			return vc.Implies(was, is && vc.Eq(v, w))
		})
	}
	counted := func() bool { return vc.Forall(func(k string) bool { return count[k] >= cnt[k] }) }
	converted := func() bool {
		return vc.Forall(func(n string) bool { return vc.Implies(added(n), now[n].TypeObject != nil && vcToJS(comps[n], now[n])) })
	}
	closed := func() bool {
		return vc.Forall(func(n, k string) bool { return vc.Implies(added(n) && vcMentions(comps[n], k), known(k)) })
	}
	oneKnown := func(c SchemaOrRef) bool {
		return vc.Forall(func(k string) bool { return vc.Implies(vcMentions(c, k), known(k)) })
	}
	someKnown := func(cs []SchemaOrRef, n int) bool {
		return vc.Forall(func(i int, k string) bool { return vc.Implies(0 <= i && i < n && vcMentions(cs[i], k), known(k)) })
	}
	ap := ss.AdditionalProperties

	// what it means to mention a component
	vc.Define(vc.Forall(func(k string) bool {
		return vc.Implies(vcMentions(src, k), vc.If(ref != nil, vcLocal(s) && k == name, ss != nil && (ss.Not != nil && vcMentions(*ss.Not, k) || ss.Items != nil && vcMentions(*ss.Items, k) ||
			vcMentionedAmong(ss.AllOf, k) || vcMentionedAmong(ss.OneOf, k) || vcMentionedAmong(ss.AnyOf, k) ||
			vc.Exists(func(p string) bool {
				c, ok := ss.Properties[p]

				return ok && vcMentions(c, k)
			}) ||
			ap != nil && ap.Bool == nil && ap.SchemaOrRef != nil && vcMentions(*ap.SchemaOrRef, k))))
	}))

	vc.Loop("AllOf", func(n vc.Done, jso *jsonschema.Schema) {
		vc.Invariant("C11.allOf so far", vcToJSAll(ss.AllOf, jso.AllOf, int(n)))
		vc.Invariant("own list", len(jso.AllOf) == int(n) && (len(jso.AllOf) == 0 || vc.Fresh(jso.AllOf)))
		vc.Invariant("C11.kept", kept())
		vc.Invariant("C11.counted", counted())
		vc.Invariant("C11.stored are conversions", converted())
		vc.Invariant("C11.stored are closed", closed())
		vc.Invariant("C11.mentions so far are stored", someKnown(ss.AllOf, int(n)))
		vc.Invariant("C11.mentions of not are stored", vc.Implies(ss.Not != nil, oneKnown(*ss.Not)))
	})
	vc.Loop("OneOf", func(n vc.Done, jso *jsonschema.Schema) {
		vc.Invariant("C11.oneOf so far", vcToJSAll(ss.OneOf, jso.OneOf, int(n)))
		vc.Invariant("own list", len(jso.OneOf) == int(n) && (len(jso.OneOf) == 0 || vc.Fresh(jso.OneOf)))
		vc.Invariant("C11.kept", kept())
		vc.Invariant("C11.counted", counted())
		vc.Invariant("C11.stored are conversions", converted())
		vc.Invariant("C11.stored are closed", closed())
		vc.Invariant("C11.mentions so far are stored", someKnown(ss.OneOf, int(n)))
		vc.Invariant("C11.mentions of not are stored", vc.Implies(ss.Not != nil, oneKnown(*ss.Not)))
		vc.Invariant("C11.mentions of allOf are stored", someKnown(ss.AllOf, len(ss.AllOf)))
	})
	vc.Loop("AnyOf", func(n vc.Done, jso *jsonschema.Schema) {
		vc.Invariant("C11.anyOf so far", vcToJSAll(ss.AnyOf, jso.AnyOf, int(n)))
		vc.Invariant("own list", len(jso.AnyOf) == int(n) && (len(jso.AnyOf) == 0 || vc.Fresh(jso.AnyOf)))
		vc.Invariant("C11.kept", kept())
		vc.Invariant("C11.counted", counted())
		vc.Invariant("C11.stored are conversions", converted())
		vc.Invariant("C11.stored are closed", closed())
		vc.Invariant("C11.mentions so far are stored", someKnown(ss.AnyOf, int(n)))
		vc.Invariant("C11.mentions of not are stored", vc.Implies(ss.Not != nil, oneKnown(*ss.Not)))
		vc.Invariant("C11.mentions of allOf are stored", someKnown(ss.AllOf, len(ss.AllOf)))
		vc.Invariant("C11.mentions of oneOf are stored", someKnown(ss.OneOf, len(ss.OneOf)))
	})
	vc.Loop("Properties", func(vis vc.Visited[string], jso *jsonschema.Schema) {
		vc.Invariant("own map", jso.Properties == nil || vc.Fresh(jso.Properties))
		vc.Invariant("C11.properties so far", vc.Forall(func(p string) bool {
			j, ok := jso.Properties[p]

			return ok == vis.Has(p) && vc.Implies(ok, vcToJS(ss.Properties[p], j))
		}))
		vc.Invariant("C11.kept", kept())
		vc.Invariant("C11.counted", counted())
		vc.Invariant("C11.stored are conversions", converted())
		vc.Invariant("C11.stored are closed", closed())
		vc.Invariant("C11.mentions so far are stored", vc.Forall(func(p, k string) bool {
			return vc.Implies(vis.Has(p) && vcMentions(ss.Properties[p], k), known(k))
		}))
		vc.Invariant("C11.mentions of not are stored", vc.Implies(ss.Not != nil, oneKnown(*ss.Not)))
		vc.Invariant("C11.mentions of items are stored", vc.Implies(ss.Items != nil, oneKnown(*ss.Items)))
		vc.Invariant("C11.mentions of allOf are stored", someKnown(ss.AllOf, len(ss.AllOf)))
		vc.Invariant("C11.mentions of oneOf are stored", someKnown(ss.OneOf, len(ss.OneOf)))
		vc.Invariant("C11.mentions of anyOf are stored", someKnown(ss.AnyOf, len(ss.AnyOf)))
	})
	vc.Loop("MapOfAnything", func(vis vc.Visited[string], jso *jsonschema.Schema) {
		vc.Invariant("extensions are kept in a new map", jso.ExtraProperties == nil || vc.Fresh(jso.ExtraProperties))
		vc.Invariant("C11.extensions so far", vc.Forall(func(k string) bool {
			v, ok := jso.ExtraProperties[k]

			return ok == vis.Has(k) && vc.Implies(ok, vc.Eq(v, ss.MapOfAnything[k]))
		}))
	})

	return func(r jsonschema.SchemaOrBool) {
		j := r.TypeObject
		vc.Produce(vcToJS(src, r))
		vc.Ensure("C11.result is a new object", j != nil && vc.Fresh(j) && r.TypeBoolean == nil)
		vc.Ensure("C11.definitions collected before are kept", kept())
		vc.Ensure("C11.references are counted", counted())
		vc.Ensure("C11.definitions are conversions of the components", converted())
		vc.Ensure("C11.definitions refer to definitions", closed())
		vc.Ensure("C11.every reference has a definition", oneKnown(src))
		vc.Ensure("C11.a reference that is met again is counted again", vc.Implies(vcLocal(s), vc.Forall(func(n string) bool {
			return vc.Implies(added(n) && vcMentions(comps[n], name), count[name] >= cnt[name]+2)
		})))
		vc.Ensure("C11.a local reference is stored", vc.Implies(vcLocal(s), known(name)))
		vc.Ensure("C11.other references add nothing", vc.Implies(ref != nil && !vcLocal(s), vc.Forall(func(k string) bool {
			return !added(k) && count[k] == cnt[k]
		})))
		vc.Ensure("C11.a reference stays that reference", vc.Implies(ref != nil, j.Ref != nil && *j.Ref == ref.Ref))
		vc.Details()
		plain := ref == nil && ss != nil
		vc.Ensure("C11.not a reference", vc.Implies(plain, j.Ref == nil))
		vc.Ensure("C11.title, description, format, pattern", vc.Implies(plain, vcSameStr(j.Title, ss.Title) && vcSameStr(j.Description, ss.Description) &&
			vcSameStr(j.Format, ss.Format) && vcSameStr(j.Pattern, ss.Pattern)))
		vc.Ensure("C11.flags", vc.Implies(plain, vcSameBool(j.Deprecated, ss.Deprecated) && vcSameBool(j.ReadOnly, ss.ReadOnly) &&
			vcSameBool(j.WriteOnly, ss.WriteOnly) && vcSameBool(j.UniqueItems, ss.UniqueItems)))
		vc.Ensure("C11.required, enum, default", vc.Implies(plain, vc.SameSlice(j.Required, ss.Required) && vc.SameSlice(j.Enum, ss.Enum) && vcSameAny(j.Default, ss.Default)))
		vc.Ensure("C11.example", vc.Implies(plain, len(j.Examples) == vc.If(ss.Example != nil, 1, 0) && vc.Implies(ss.Example != nil, vc.Eq(j.Examples[0], *ss.Example))))
		vc.Ensure("C11.multipleOf", vc.Implies(plain, vcSameFloat(j.MultipleOf, ss.MultipleOf)))
		vc.Ensure("C11.maximum", vc.Implies(plain, vc.If(vcFalse(ss.ExclusiveMaximum), vcSameFloat(j.Maximum, ss.Maximum) && j.ExclusiveMaximum == nil,
			vcSameFloat(j.ExclusiveMaximum, ss.Maximum) && j.Maximum == nil)))
		vc.Ensure("C11.minimum", vc.Implies(plain, vc.If(vcFalse(ss.ExclusiveMinimum), vcSameFloat(j.Minimum, ss.Minimum) && j.ExclusiveMinimum == nil,
			vcSameFloat(j.ExclusiveMinimum, ss.Minimum) && j.Minimum == nil)))
		vc.Ensure("C11.upper limits", vc.Implies(plain, vcSameInt(j.MaxItems, ss.MaxItems) && vcSameInt(j.MaxLength, ss.MaxLength) && vcSameInt(j.MaxProperties, ss.MaxProperties)))
		vc.Ensure("C11.lower limits", vc.Implies(plain, vcAtLeast(j.MinItems, ss.MinItems) && vcAtLeast(j.MinLength, ss.MinLength) && vcAtLeast(j.MinProperties, ss.MinProperties)))
		nullable := !vcFalse(ss.Nullable)
		vc.Ensure("C11.no type", vc.Implies(plain && ss.Type == nil && !nullable, j.Type == nil))
		one := plain && ss.Type != nil && (!nullable || string(*ss.Type) == "null")
		vc.Ensure("C11.type", vc.Implies(one, j.Type != nil))
		vc.Ensure("C11.type", vc.Implies(one, j.Type.SimpleTypes != nil))
		vc.Ensure("C11.type", vc.Implies(one, string(*j.Type.SimpleTypes) == string(*ss.Type)))
		vc.Ensure("C11.type", vc.Implies(one, len(j.Type.SliceOfSimpleTypeValues) == 0))
		two := plain && ss.Type != nil && nullable && string(*ss.Type) != "null"
		vc.Ensure("C11.nullable", vc.Implies(two, j.Type != nil))
		vc.Ensure("C11.nullable", vc.Implies(two, j.Type.SimpleTypes == nil))
		vc.Ensure("C11.nullable", vc.Implies(two, len(j.Type.SliceOfSimpleTypeValues) == 2))
		vc.Ensure("C11.nullable", vc.Implies(two, string(j.Type.SliceOfSimpleTypeValues[0]) == string(*ss.Type)))
		vc.Ensure("C11.nullable", vc.Implies(two, j.Type.SliceOfSimpleTypeValues[1] == jsonschema.Null))
		vc.Ensure("C11.not", vc.Implies(plain, (j.Not != nil) == (ss.Not != nil) && vc.Implies(ss.Not != nil, vcToJS(*ss.Not, *j.Not))))
		vc.Ensure("C11.items", vc.Implies(plain, (j.Items != nil) == (ss.Items != nil) && vc.Implies(ss.Items != nil, j.Items.SchemaOrBool != nil && len(j.Items.SchemaArray) == 0 && vcToJS(*ss.Items, *j.Items.SchemaOrBool))))
		vc.Ensure("C11.additional properties", vc.Implies(plain, (j.AdditionalProperties != nil) == (ap != nil && (ap.Bool != nil || ap.SchemaOrRef != nil)) && vc.Implies(j.AdditionalProperties != nil,
			vc.If(ap.Bool != nil, j.AdditionalProperties.TypeObject == nil && vcSameBool(j.AdditionalProperties.TypeBoolean, ap.Bool), vcToJS(*ap.SchemaOrRef, *j.AdditionalProperties)))))
		vc.Ensure("C11.allOf", vc.Implies(plain, len(j.AllOf) == len(ss.AllOf) && vcToJSAll(ss.AllOf, j.AllOf, len(ss.AllOf))))
		vc.Ensure("C11.anyOf", vc.Implies(plain, len(j.AnyOf) == len(ss.AnyOf) && vcToJSAll(ss.AnyOf, j.AnyOf, len(ss.AnyOf))))
		vc.Ensure("C11.oneOf", vc.Implies(plain, len(j.OneOf) == len(ss.OneOf) && vcToJSAll(ss.OneOf, j.OneOf, len(ss.OneOf))))
		vc.Ensure("C11.properties", vc.Implies(plain, vc.Forall(func(p string) bool {
			x, ok := j.Properties[p]
			y, yok := ss.Properties[p]

			return ok == yok && vc.Implies(ok, vcToJS(y, x))
		})))
		vc.Ensure("C11.extensions", vc.Implies(plain, vc.Forall(func(k string) bool {
			v, ok := j.ExtraProperties[k]
			e, eok := ss.MapOfAnything[k]

			return ok == eok && vc.Implies(ok, vc.Eq(v, e))
		})))
		vc.Ensure("C11.nothing else is stated", vc.Implies(plain, j.If == nil && j.Then == nil && j.Else == nil && j.Const == nil && j.Contains == nil && j.PropertyNames == nil &&
			len(j.PatternProperties) == 0 && len(j.Definitions) == 0 && len(j.Dependencies) == 0 && j.AdditionalItems == nil))
	}
}

func vcToJSAll(ss []SchemaOrRef, js []jsonschema.SchemaOrBool, n int) bool {
	return vc.Forall(func(i int) bool { return vc.Implies(0 <= i && i < n, vcToJS(ss[i], js[i])) })
}

func vcAtLeast(v int64, o *int64) bool { return vc.If(o != nil, v == *o, v == 0) }

//vc:func (*SchemaOrRef).ToJSONSchema
//vc:props C11
//vc:abstract toJSONSchema
func contractToJSONSchema(s *SchemaOrRef, spec *Spec) func(jsonschema.SchemaOrBool) {
	vc.ModifiesAnything()
	comps := spec.Components.Schemas.MapOfSchemaOrRefValues
	src := *s
	name := ""
	if vcLocal(s) {
		name = strings.TrimPrefix(s.SchemaReference.Ref, componentsSchemas)
	}

	return func(r jsonschema.SchemaOrBool) {
		j := r.TypeObject
		all := vc.Dyn[map[string]interface{}](j.ExtraProperties["components"])
		defs := vc.Dyn[map[string]jsonschema.SchemaOrBool](all["schemas"])
		some := j.ExtraProperties["components"] != nil
		has := func(k string) bool {
			_, ok := defs[k]

			return some && ok
		}
		inlined := vc.Rel("toJS30", comps[name], r)
		vc.Ensure("C11.root is converted, or replaced by the component it refers to", vcToJS(src, r) || vcLocal(s) && inlined)
		// some component is referred to
		used := func(k string) bool { return vc.If(vcLocal(s), vcMentions(comps[name], k), vcMentions(src, k)) }
		vc.Ensure("C11.definitions are conversions of the components", vc.Forall(func(u, n string) bool {
			return vc.Implies(used(u) && has(n), vcToJS(comps[n], defs[n]))
		}))
		vc.Ensure("C11.definitions refer to definitions", vc.Forall(func(u, n, k string) bool {
			return vc.Implies(used(u) && has(n) && vcMentions(comps[n], k), has(k))
		}))
		vc.Ensure("C11.every reference has a definition", vc.Implies(!vcLocal(s), vc.Forall(func(k string) bool {
			return vc.Implies(vcMentions(src, k), has(k))
		})))
		vc.Ensure("C11.a root reference has a definition or is replaced", vc.Implies(vcLocal(s), has(name) && vcToJS(src, r) ||
			inlined && vc.Forall(func(k string) bool { return vc.Implies(vcMentions(comps[name], k), has(k)) })))
	}
}
