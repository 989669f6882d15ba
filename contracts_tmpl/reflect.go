package openapi3

import (
	"reflect"

	"github.com/swaggest/jsonschema-go"
	"github.com/swaggest/openapi-go"
	"github.com/swaggest/openapi-go/internal"
	"github.com/swaggest/openapi-go/internal/vc"
)

// vcDoc is the chain of objects that leads to the component schemas.
type vcDoc struct {
	spec *Spec
	comp *Components
	sch  *ComponentsSchemas     //@30
	m    map[string]SchemaOrRef //@30
	m    map[string]map[string]interface{} //@31
}

func vcDocOf(r *Reflector) (d vcDoc) {
	d.spec = r.Spec
	if d.spec == nil {
		return d
	}

	d.comp = d.spec.Components
	if d.comp == nil {
		return d
	}

	d.sch = d.comp.Schemas //@30
	if d.sch == nil { //@30
		return d //@30
	} //@30

	d.m = d.sch.MapOfSchemaOrRefValues //@30
	d.m = d.comp.Schemas //@31

	return d
}

// vcDocModifies: only component schemas may change in the document.
func vcDocModifies(r *Reflector) {
	d := vcDocOf(r)
	noSpec, noComp := d.spec == nil, d.comp == nil
	vc.Modifies(&r.Spec, d.m, vc.If(noSpec, nil, &d.spec.Components), vc.If(noComp, nil, &d.comp.Schemas))
	vc.Modifies(vc.If(d.sch == nil, nil, &d.sch.MapOfSchemaOrRefValues)) //@30
}

func vcHasSchema(r *Reflector, name string) bool {
	_, ok := vcDocOf(r).m[name]

	return ok
}

// vcDocKept: the document's objects on the way to the component schemas are the given ones, or new where there were none,
// and all component schemas are still there.
func vcDocKept(r *Reflector, d vcDoc, before vcDocMap) bool {
	n := vcDocOf(r)

	return vcChainKept(r, d) && vc.Forall(func(k string) bool {
		b, ok := before[k]
		a, still := n.m[k]

		return vc.Implies(ok, still && vc.Eq(a, b))
	})
}

// vcChainKept: the objects on the way to the component schemas are the given ones, or new where there were none.
func vcChainKept(r *Reflector, d vcDoc) bool {
	n := vcDocOf(r)

	return vc.If(d.spec == nil, n.spec == nil || vc.Fresh(n.spec), n.spec == d.spec) &&
		vc.If(d.comp == nil, n.comp == nil || vc.Fresh(n.comp), n.comp == d.comp) &&
		vc.If(d.sch == nil, n.sch == nil || vc.Fresh(n.sch), n.sch == d.sch) && //@30
		vc.If(d.m == nil, n.m == nil || vc.Fresh(n.m), vc.Eq(n.m, d.m))
}

type vcDocMap = map[string]SchemaOrRef //@30
type vcDocMap = map[string]map[string]interface{} //@31

// vcLoopDefs: collecting definitions keeps what is stored and stores the new ones.
func vcLoopDefs(r *Reflector, d vcDoc, before vcDocMap) {
	vc.Loop("defs", func(vis vc.Visited[string]) {
		vc.Invariant("C15.component schemas are kept", vcDocKept(r, d, before))
		vc.Invariant("C15.collected definitions are stored", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k), vcHasSchema(r, k))
		}))
	})
}

// lemmaCollect: what one collected definition does.
func lemmaCollect(r *Reflector, name string, schema jsonschema.Schema) {
	r.collectDefinition()(name, schema)
}

//vc:func lemmaCollect
//vc:props C15
func contractLemmaCollect(r *Reflector, name string, schema jsonschema.Schema) func() {
	d := vcDocOf(r)
	before := vc.Snap(d.m)
	_, taken := before[name]
	vcDocModifies(r)

	return func() {
		n := vcDocOf(r)
		got, ok := n.m[name]
		_ = got
		vc.Ensure("C15.the definition is stored under its name", ok)
		vc.Ensure("C15.a schema is stored, not just a name", vc.Implies(!taken, got.Schema != nil || got.SchemaReference != nil)) //@30
		vc.Ensure("C15.a schema is stored, not just a name", vc.Implies(!taken, got != nil)) //@31
		vc.Ensure("C15.component schemas are kept", vcDocKept(r, d, before))
		vc.Ensure("C15.nothing else is stored", vc.Forall(func(k string) bool {
			_, had := before[k]
			_, has := n.m[k]

			return vc.Implies(has, had || k == name)
		}))
	}
}

// vcTop: the property event of a top-level field.
func vcTop(p jsonschema.InterceptPropParams) bool { return p.Processed && len(p.Path) <= 1 }

func vcFieldValue(p jsonschema.InterceptPropParams) interface{} {
	return reflect.New(p.Field.Type).Interface()
}

func vcTagOf(p jsonschema.InterceptPropParams, key string) string { return p.Field.Tag.Get(key) }

func vcHasTag(p jsonschema.InterceptPropParams, key string) bool {
	_, ok := p.Field.Tag.Lookup(key)

	return ok
}

func vcAsJSON(p jsonschema.InterceptPropParams, in openapi.In) bool {
	v := vcFieldValue(p)

	return vcTagOf(p, "collectionFormat") == "json" || internal.VCHasTagged(v, "json") && !internal.VCHasTagged(v, string(in))
}

func vcIsObject(p jsonschema.InterceptPropParams) bool {
	s := internal.VCSchema(vcFieldValue(p), "json", nil, false, false)

	return internal.VCHasType(s.Type, jsonschema.Object)
}

// vcIsParam: p is the parameter of the field described by q.
func vcIsParam(p *Parameter, q jsonschema.InterceptPropParams, in openapi.In) bool {
	return p != nil && vc.Fresh(p) && p.In == ParameterIn(in) && vc.Implies(!vcHasTag(q, "name"), p.Name == q.Name)
}

func vcIsRequired(p *Parameter, in openapi.In) bool {
	return vc.Implies(in == openapi.InPath, p.Required != nil && *p.Required)
}

func vcStyle(p *Parameter, style string, explode bool) bool {
	return p.Style != nil && string(*p.Style) == style && p.Explode != nil && *p.Explode == explode
}

// vcPlain: the style does not come from field tags.
func vcPlain(q jsonschema.InterceptPropParams) bool { return !vcHasTag(q, "style") && !vcHasTag(q, "explode") }

func vcDeep(q jsonschema.InterceptPropParams, in openapi.In) bool { return vcIsObject(q) && !vcAsJSON(q, in) }

func vcDeepOK(p *Parameter, q jsonschema.InterceptPropParams, in openapi.In) bool {
	return vc.Implies(vcPlain(q) && vcDeep(q, in), vcStyle(p, "deepObject", true))
}

func vcFormatOK(p *Parameter, q jsonschema.InterceptPropParams, in openapi.In, format, style string, explode bool) bool {
	return vc.Implies(vcPlain(q) && !vcDeep(q, in) && vcTagOf(q, "collectionFormat") == format, vcStyle(p, style, explode))
}

func vcNoFormatOK(p *Parameter, q jsonschema.InterceptPropParams, in openapi.In) bool {
	cf := vcTagOf(q, "collectionFormat")

	return vc.Implies(vcPlain(q) && !vcDeep(q, in) && cf != "csv" && cf != "ssv" && cf != "pipes" && cf != "multi",
		p.Style == nil && p.Explode == nil)
}

func vcContentOK(p *Parameter, q jsonschema.InterceptPropParams, in openapi.In) bool {
	mt, ok := p.Content["application/json"]

	return vc.Implies(vcAsJSON(q, in), ok && mt.Schema != nil && p.Schema == nil && vc.Forall(func(k string) bool {
		_, has := p.Content[k]

		return vc.Implies(has, k == "application/json")
	}))
}

func vcSchemaOK(p *Parameter, q jsonschema.InterceptPropParams, in openapi.In) bool {
	return vc.Implies(!vcAsJSON(q, in), p.Content == nil && p.Schema != nil)
}

//vc:func (*Reflector).parseParametersIn
//vc:props C12 C13 C15
func contractParseParametersIn(r *Reflector, o *Operation, oc openapi.OperationContext, c openapi.ContentUnit, in openapi.In, additionalTags []string) func(error) {
	vc.Requires("at most one additional tag", len(additionalTags) <= 1)
	d := vcDocOf(r)
	stored := vc.Snap(d.m)
	before := vc.SnapSlice(o.Parameters)
	base := len(before)
	extm := o.MapOfAnything
	ext := vc.Snap(extm)
	mapping := c.FieldMapping(in)
	props := internal.VCProps(c.Structure, string(in), additionalTags, mapping, false, true, true, false)
	defs := internal.VCDefs(c.Structure, string(in), mapping)
	forbid := internal.VCSchema(c.Structure, string(in), mapping, false, false).AdditionalProperties
	vc.Modifies(&o.Parameters, &o.MapOfAnything, o.MapOfAnything)
	vcDocModifies(r)
	count := func(k int) int { return internal.VCCount(props, k) }

	vc.Loop("props", func(n vc.Done) {
		k := int(n)
		now := o.Parameters
		vc.Invariant("C15.component schemas are kept", vcDocKept(r, d, stored))
		vc.Invariant("C12.one parameter for each top-level field so far*", len(now) == base+count(k) && count(k) >= 0)
		vc.Invariant("C12.counting*", vc.Forall(func(j int) bool {
			return vc.Implies(0 <= j && j < k, 0 <= count(j) && vc.If(vcTop(props[j]), count(j) < count(k), count(j) <= count(k)))
		}))
		vc.Invariant("C12.earlier parameters are kept in order", vc.Forall(func(i int) bool {
			return vc.Implies(0 <= i && i < base, vc.Eq(now[i], before[i]))
		}))
		at := func(j int) *Parameter { return now[base+count(j)].Parameter }
		each := func(f func(j int) bool) bool {
			return vc.Forall(func(j int) bool { return vc.Implies(0 <= j && j < k && vcTop(props[j]), f(j)) })
		}
		vc.Invariant("C12.name and location", each(func(j int) bool { return vcIsParam(at(j), props[j], in) }))
		vc.Invariant("C12.path parameters are required", each(func(j int) bool { return vcIsRequired(at(j), in) }))
		vc.Invariant("C12.objects have deepObject style", each(func(j int) bool { return vcDeepOK(at(j), props[j], in) }))
		vc.Invariant("C12.style of collection format csv", each(func(j int) bool { return vcFormatOK(at(j), props[j], in, "csv", "form", false) }))
		vc.Invariant("C12.style of collection format ssv", each(func(j int) bool { return vcFormatOK(at(j), props[j], in, "ssv", "spaceDelimited", false) }))
		vc.Invariant("C12.style of collection format pipes", each(func(j int) bool { return vcFormatOK(at(j), props[j], in, "pipes", "pipeDelimited", false) }))
		vc.Invariant("C12.style of collection format multi", each(func(j int) bool { return vcFormatOK(at(j), props[j], in, "multi", "form", true) }))
		vc.Invariant("C12.no style without a collection format", each(func(j int) bool { return vcNoFormatOK(at(j), props[j], in) }))
		vc.Invariant("C12.JSON parameters have JSON content", each(func(j int) bool { return vcContentOK(at(j), props[j], in) }))
		vc.Invariant("C12.other parameters have a schema", each(func(j int) bool { return vcSchemaOK(at(j), props[j], in) }))
		vc.Invariant("C12.no duplicates", each(func(j int) bool {
			return vc.Forall(func(i int) bool {
				return vc.Implies(0 <= i && i < base && before[i].Parameter != nil,
					!(before[i].Parameter.Name == at(j).Name && before[i].Parameter.In == at(j).In))
			})
		}))
	})
	vc.Loop("Parameters", func(n vc.Done, p Parameter) {
		vc.Invariant("C12.not found so far", vc.Forall(func(i int) bool {
			e := o.Parameters[i].Parameter

			return vc.Implies(0 <= i && i < int(n), e == nil || !(e.In == p.In && e.Name == p.Name))
		}))
	})
	vcLoopDefs(r, d, stored)

	return func(err error) {
		k := len(props)
		now := o.Parameters
		ok := err == nil && !internal.VCIsSliceOrMap(c.Structure)
		at := func(j int) *Parameter { return now[base+count(j)].Parameter }
		each := func(f func(j int) bool) bool {
			return vc.Implies(ok, vc.Forall(func(j int) bool { return vc.Implies(0 <= j && j < k && vcTop(props[j]), f(j)) }))
		}
		vc.Ensure("C12.one parameter for each top-level field", vc.Implies(ok, len(now) == base+count(k)))
		vc.Ensure("C12.nothing for slices and maps", vc.Implies(internal.VCIsSliceOrMap(c.Structure), vc.Eq(now, before) || vc.SameSlice(now, before)))
		vc.Ensure("C12.earlier parameters are kept in order", len(now) >= base && vc.Forall(func(i int) bool {
			return vc.Implies(0 <= i && i < base, vc.Eq(now[i], before[i]))
		}))
		vc.Ensure("C12.name and location", each(func(j int) bool { return vcIsParam(at(j), props[j], in) }))
		vc.Ensure("C12.path parameters are required", each(func(j int) bool { return vcIsRequired(at(j), in) }))
		vc.Ensure("C12.objects have deepObject style", each(func(j int) bool { return vcDeepOK(at(j), props[j], in) }))
		vc.Ensure("C12.style of collection format csv", each(func(j int) bool { return vcFormatOK(at(j), props[j], in, "csv", "form", false) }))
		vc.Ensure("C12.style of collection format ssv", each(func(j int) bool { return vcFormatOK(at(j), props[j], in, "ssv", "spaceDelimited", false) }))
		vc.Ensure("C12.style of collection format pipes", each(func(j int) bool { return vcFormatOK(at(j), props[j], in, "pipes", "pipeDelimited", false) }))
		vc.Ensure("C12.style of collection format multi", each(func(j int) bool { return vcFormatOK(at(j), props[j], in, "multi", "form", true) }))
		vc.Ensure("C12.no style without a collection format", each(func(j int) bool { return vcNoFormatOK(at(j), props[j], in) }))
		vc.Ensure("C12.JSON parameters have JSON content", each(func(j int) bool { return vcContentOK(at(j), props[j], in) }))
		vc.Ensure("C12.other parameters have a schema", each(func(j int) bool { return vcSchemaOK(at(j), props[j], in) }))
		vc.Ensure("C12.no duplicates", each(func(j int) bool {
			return vc.Forall(func(i int) bool {
				return vc.Implies(0 <= i && i < base && before[i].Parameter != nil,
					!(before[i].Parameter.Name == at(j).Name && before[i].Parameter.In == at(j).In))
			})
		}))
		vc.Ensure("operation extensions keep their place", vc.If(extm == nil, o.MapOfAnything == nil || vc.Fresh(o.MapOfAnything), vc.Eq(o.MapOfAnything, extm)))
		mark := forbid != nil && forbid.TypeBoolean != nil && !*forbid.TypeBoolean
		key := xForbidUnknown + string(in)
		v, has := o.MapOfAnything[key]
		vc.Ensure("C12.unknown parameters are marked forbidden when stated", vc.Implies(ok && mark, has && vc.TypeIs[bool](v) && vc.Dyn[bool](v)))
		vc.Ensure("C12.operation extensions are kept", vc.Implies(ok, vc.Forall(func(x string) bool {
			v, has := o.MapOfAnything[x]
			w, had := ext[x]

			return vc.Implies(!mark || x != key, has == had && vc.Implies(has, vc.Eq(v, w)))
		})))
		vc.Ensure("C15.component schemas are kept", vcDocKept(r, d, stored))
		vc.Ensure("C15.collected definitions are stored", vc.Implies(ok, vc.Forall(func(x string) bool {
			_, is := defs[x]

			return vc.Implies(is, vcHasSchema(r, x))
		})))
	}
}
