// Generated by tools/gen_contracts.py from contracts_tmpl. DO NOT EDIT.

package openapi31

import (
	"net/http"
	"reflect"
	"strings"

	"github.com/swaggest/jsonschema-go"
	"github.com/swaggest/openapi-go"
	"github.com/swaggest/openapi-go/internal"
	"github.com/swaggest/openapi-go/internal/vc"
)

const (
	vcForm      = "application/x-www-form-urlencoded"
	vcMultipart = "multipart/form-data"
	vcJSON      = "application/json"
)

// vcBody is the inline request body of an operation.
func vcBody(o *Operation) *RequestBody { return vc.If(o.RequestBody == nil, nil, o.RequestBody.RequestBody) }

// vcContent is the content of the inline request body of an operation.
func vcContent(o *Operation) map[string]MediaType {
	b := vcBody(o)

	return vc.If(b == nil, nil, b.Content)
}

// vcBodyModifies: only the content of the request body may change in the operation.
func vcBodyModifies(o *Operation) {
	or := o.RequestBody
	b := vcBody(o)
	vc.Modifies(&o.RequestBody, vc.If(or == nil, nil, &or.RequestBody), vc.If(b == nil, nil, &b.Content), vcContent(o))
}

// vcBodyAt is the body of an operation at some moment.
type vcBodyAt struct {
	or *RequestBodyOrReference
	b  *RequestBody
	m  map[string]MediaType
}

func vcBodyOf(o *Operation) vcBodyAt { return vcBodyAt{or: o.RequestBody, b: vcBody(o), m: vcContent(o)} }

// vcBodyKept: the given body is extended, not replaced.
func vcBodyKept(o *Operation, was vcBodyAt) bool {
	now := vcBodyOf(o)

	return vc.If(was.or == nil, now.or == nil || vc.Fresh(now.or), now.or == was.or) &&
		vc.If(was.b == nil, now.b == nil || vc.Fresh(now.b), now.b == was.b) &&
		vc.If(was.m == nil, now.m == nil || vc.Fresh(now.m), vc.Eq(now.m, was.m))
}

// vcBodySame: the body is as it was.
func vcBodySame(o *Operation, was vcBodyAt, before map[string]MediaType) bool {
	now := vcBodyOf(o)

	return now.or == was.or && now.b == was.b && vc.Eq(now.m, was.m) && vcOtherContent(now.m, before, "", true)
}

// vcOtherContent: content of other (or all) media types is as it was.
func vcOtherContent(now, before map[string]MediaType, key string, all bool) bool {
	return vc.Forall(func(k string) bool {
		a, has := now[k]
		b, had := before[k]

		return vc.Implies(all || k != key, has == had && vc.Implies(has, vc.Eq(a, b)))
	})
}

// vcText: a string schema of the format (3.1 marshals the schema: checked by the harness).
func vcStringType(mt MediaType, format string) bool {
	return mt.Schema != nil

}

//vc:func (*Reflector).stringRequestBody
//vc:props C13 C15
func contractStringRequestBody(r *Reflector, o *Operation, mime, format string) func() {
	was := vcBodyOf(o)
	before := vc.Snap(was.m)
	vcBodyModifies(o)

	return func() {
		now, has := vcContent(o)[mime]
		vc.Ensure("the body is extended, not replaced", vcBodyKept(o, was))
		vc.Ensure("C13.content of exactly that media type", has && vcStringType(now, format))
		vc.Ensure("C13.other content is kept", vcOtherContent(vcContent(o), before, mime, false))
	}
}

//vc:func (*Reflector).parseRawRequestBody
//vc:props C13 C15
func contractParseRawRequestBody(r *Reflector, o *Operation, cu openapi.ContentUnit) func() {
	vcDefineNamesType(cu.Structure)
	was := vcBodyOf(o)
	before := vc.Snap(was.m)
	tagged := internal.VCTagged(reflect.ValueOf(cu.Structure), "contentType")
	vcBodyModifies(o)
	done := func(k int) bool {
		return vc.Forall(func(i int) bool {
			mt, has := vcContent(o)[tagged[i].Tag]

			return vc.Implies(0 <= i && i < k, has && vcStringType(mt, ""))
		})
	}
	others := func(k int) bool {
		return vc.Forall(func(x string) bool {
			a, has := vcContent(o)[x]
			b, had := before[x]

			return has == had && vc.Implies(has, vc.Eq(a, b)) || vc.Exists(func(i int) bool {
				return 0 <= i && i < k && tagged[i].Tag == x
			})
		})
	}
	vc.Loop("tagged", func(n vc.Done) {
		vc.Invariant("the body is extended, not replaced", vcBodyKept(o, was))
		vc.Invariant("C13.content of every tagged media type", done(int(n)))
		vc.Invariant("C13.other content is kept", others(int(n)))
		vc.Invariant("C13.no content is removed", vc.Forall(func(x string) bool {
			a, has := vcContent(o)[x]
			b, had := before[x]

			return vc.Implies(had, has && (a.Schema != nil || vc.Eq(a, b)))
		}))
	})

	return func() {
		vc.Ensure("the body is extended, not replaced", vcBodyKept(o, was))
		vc.Ensure("C13.nothing without a structure", vc.Implies(cu.Structure == nil, vcOtherContent(vcContent(o), before, "", true)))
		vc.Ensure("C13.content of every tagged media type", vc.Implies(cu.Structure != nil, done(len(tagged))))
		vc.Ensure("C13.other content is kept", vc.Forall(func(x string) bool {
			a, has := vcContent(o)[x]
			b, had := before[x]

			return vc.Implies(!vcNamesType(cu.Structure, x), has == had && vc.Implies(has, vc.Eq(a, b)))
		}))
		vc.Ensure("C13.no content is removed", vc.Forall(func(x string) bool {
			a, has := vcContent(o)[x]
			b, had := before[x]

			return vc.Implies(had, has && (a.Schema != nil || vc.Eq(a, b)))
		}))
	}
}

// vcBodyRule tells whether a structure has a body of the given tags.
func vcBodyRule(v interface{}, noTags bool, method, tag, also string, mapped bool) bool {
	m := strings.ToUpper(method)
	_, force := v.(openapi.RequestBodyEnforcer)
	_, forceJSON := v.(openapi.RequestJSONBodyEnforcer)
	tagged := internal.VCHasTagged(v, tag) || also != "" && internal.VCHasTagged(v, also)
	form := internal.VCHasTagged(v, "formData") || internal.VCHasTagged(v, "form")
	schema := vcHasStruct(v)
	allowed := force || m != http.MethodGet && m != http.MethodHead && m != http.MethodDelete && m != http.MethodTrace
	any := tagged || mapped || schema || internal.VCIsSliceOrMap(v) || internal.VCEmbedded(v) != nil || noTags

	return allowed && any && vc.If(tag == "json", !form || forceJSON || schema, tagged || mapped)
}

// vcHasStruct tells whether a structure has a schema structure at any depth.
func vcHasStruct(v interface{}) bool { return vc.Rel("hasStruct", v) }

func vcDefineHasStruct(v interface{}) {
	fields := internal.VCFields(reflect.ValueOf(v))
	vc.Assume(vcHasStruct(v) == vc.Exists(func(i int) bool { return 0 <= i && i < len(fields) && internal.VCIsStruct(fields[i]) }))
}

// vcHasFile tells whether reflecting a structure meets a file upload.
func vcHasFile(v interface{}, tag string, mapping map[string]string) bool {
	return vc.Rel("hasFile", v, tag, mapping)
}

func vcDefineHasFile(v interface{}, tag string, mapping map[string]string) {
	schemas := internal.VCSchemas(v, tag, mapping)
	vc.Assume(vcHasFile(v, tag, mapping) == vc.Exists(func(i int) bool { return 0 <= i && i < len(schemas) && internal.VCIsFile(schemas[i]) }))
}

// vcNamesType tells whether a field of a structure names the media type.
func vcNamesType(v interface{}, k string) bool { return vc.Rel("namesType", v, k) }

func vcDefineNamesType(v interface{}) {
	tagged := internal.VCTagged(reflect.ValueOf(v), "contentType")
	vc.Assume(vc.Forall(func(k string) bool {
		return vcNamesType(v, k) == vc.Exists(func(i int) bool { return 0 <= i && i < len(tagged) && tagged[i].Tag == k })
	}))
}

// vcStoredDef: the definition is stored in the component schemas.
func vcStoredDef(r *Reflector, k string, defs map[string]jsonschema.SchemaOrBool) bool {
	got, has := vcDocOf(r).m[k]

	return has && vc.Rel("simpleMap", defs[k], got)
}

func vcNoneRemoved(r *Reflector, before vcDocMap) bool {
	now := vcDocOf(r).m

	return vc.Forall(func(k string) bool {
		_, had := before[k]
		_, has := now[k]

		return vc.Implies(had, has)
	})
}

//vc:func (*Reflector).parseRequestBody
//vc:props C13 C15
func contractParseRequestBody(r *Reflector, o *Operation, oc openapi.OperationContext, cu openapi.ContentUnit, mime, httpMethod string, mapping map[string]string, tag string, additionalTags []string) func(error) {
	vc.Requires("at most one additional tag", len(additionalTags) <= 1)
	v := cu.Structure
	vcDefineHasStruct(v)
	vcDefineHasFile(v, tag, mapping)
	d := vcDocOf(r)
	stored := vc.Snap(d.m)
	was := vcBodyOf(o)
	before := vc.Snap(was.m)
	also := vc.If(len(additionalTags) == 0, "", additionalTags[0])
	vc.Requires("additional tags have a name", len(additionalTags) == 0 || also != "")
	body := vcBodyRule(v, internal.VCNoTags(&r.Reflector), httpMethod, tag, also, len(mapping) != 0)
	key := vc.If(mime == vcForm && vcHasFile(v, tag, mapping), vcMultipart, mime)
	defs := internal.VCOwnDefs(v, tag, mapping)
	fields := internal.VCFields(reflect.ValueOf(v))
	schemas := internal.VCSchemas(v, tag, mapping)
	vcBodyModifies(o)
	vcDocModifies(r)
	vc.Loop("additionalTags", func(n vc.Done, hasTaggedFields bool) {
		vc.Invariant("tagged fields are noticed", hasTaggedFields == (internal.VCHasTagged(v, tag) || int(n) > 0 && internal.VCHasTagged(v, also)) && int(n) <= len(additionalTags))
	})
	vc.Loop("fields", func(n vc.Done, hasJSONSchemaStruct bool) {
		vc.Invariant("a schema structure is noticed", hasJSONSchemaStruct == vc.Exists(func(i int) bool {
			return 0 <= i && i < int(n) && internal.VCIsStruct(fields[i])
		}))
	})
	vc.Loop("schemas", func(n vc.Done, hasFileUpload bool) {
		vc.Invariant("a file upload is noticed", hasFileUpload == vc.Exists(func(i int) bool {
			return 0 <= i && i < int(n) && internal.VCIsFile(schemas[i])
		}))
	})
	chain := func() bool { return vcChainKept(r, d) }
	others := func() bool {
		now := vcDocOf(r).m

		return vc.Forall(func(k string) bool {
			a, has := now[k]
			b, had := stored[k]
			_, is := defs[k]

			return vc.Implies(!is, has == had && vc.Implies(has, vc.Eq(a, b)))
		})
	}
	vc.Loop("definitions", func(vis vc.Visited[string]) {
		vc.Invariant("C15.component schemas keep their place", chain())
		vc.Invariant("C15.definitions so far are stored", vc.Forall(func(k string) bool {
			return vc.Implies(vis.Has(k), vcStoredDef(r, k, defs))
		}))
		vc.Invariant("C15.other component schemas are kept", others())
		vc.Invariant("C15.no component schema is removed", vcNoneRemoved(r, stored))
	})

	return func(err error) {
		ok := err == nil
		now, has := vcContent(o)[key]
		vc.Ensure("the body is extended, not replaced", vcBodyKept(o, was))
		vc.Ensure("C13.no body where it is not allowed", vc.Implies(!body, vcBodySame(o, was, before)))
		vc.Ensure("C13.a body under the right media type", vc.Implies(ok && body, has && now.Schema != nil))
		vc.Ensure("C13.other content is kept", vcOtherContent(vcContent(o), before, key, false))
		vc.Ensure("C15.component schemas keep their place", chain())
		vc.Ensure("C15.all definitions are stored", vc.Implies(ok && body, vc.Forall(func(k string) bool {
			_, is := defs[k]

			return vc.Implies(is, vcStoredDef(r, k, defs))
		})))
		vc.Ensure("C15.other component schemas are kept", others())
		vc.Ensure("C15.no component schema is removed", vcNoneRemoved(r, stored))
	}
}

// vcFormKey is the media type of the form body of a unit.
func vcFormKey(cu openapi.ContentUnit) string {
	return vc.If(vcHasFile(cu.Structure, "formData", cu.FieldMapping(openapi.InFormData)), vcMultipart, vcForm)
}

func vcWantsForm(r *Reflector, cu openapi.ContentUnit, method string) bool {
	ct := cu.ContentType

	return (ct == "" || ct == vcForm || ct == vcMultipart) &&
		vcBodyRule(cu.Structure, internal.VCNoTags(&r.Reflector), method, "formData", "form", len(cu.FieldMapping(openapi.InFormData)) != 0)
}

func vcWantsJSON(r *Reflector, cu openapi.ContentUnit, method string) bool {
	return (cu.ContentType == "" || cu.ContentType == vcJSON) &&
		vcBodyRule(cu.Structure, internal.VCNoTags(&r.Reflector), method, "json", "", false)
}

// vcWantsOther tells whether a unit declares a media type of its own.
func vcWantsOther(cu openapi.ContentUnit) bool {
	ct := cu.ContentType

	return ct != "" && ct != vcJSON && ct != vcForm && ct != vcMultipart
}

// vcWantsRaw tells whether a field of the unit names the media type.
func vcWantsRaw(cu openapi.ContentUnit, k string) bool {
	return cu.ContentType == "" && cu.Structure != nil && vcNamesType(cu.Structure, k)
}

// vcWants tells whether a unit declares a body of the media type.
func vcWants(r *Reflector, cu openapi.ContentUnit, method, k string) bool {
	return vcWantsForm(r, cu, method) && k == vcFormKey(cu) || vcWantsJSON(r, cu, method) && k == vcJSON ||
		vcWantsOther(cu) && k == cu.ContentType || vcWantsRaw(cu, k)
}

//vc:func (*Reflector).parseParameters
//vc:props C12 C13 C15
func contractParseParameters(r *Reflector, o *Operation, oc openapi.OperationContext, cu openapi.ContentUnit) func(error) {
	d := vcDocOf(r)
	stored := vc.Snap(d.m)
	before := vc.SnapSlice(o.Parameters)
	base := len(before)
	ext := o.MapOfAnything
	vc.Modifies(&o.Parameters, &o.MapOfAnything, ext)
	vcDocModifies(r)
	v := cu.Structure
	events := func(in openapi.In, also string) int {
		var tags []string
		if also != "" {
			tags = []string{also}
		}
		props := internal.VCProps(v, string(in), tags, cu.FieldMapping(in), false, true, true, false)

		return internal.VCCount(props, len(props))
	}

	return func(err error) {
		now := o.Parameters
		ok := err == nil && !internal.VCIsSliceOrMap(v)
		vc.Ensure("C12.the parameters of the four locations are added", vc.Implies(ok, len(now) == base+
			events(openapi.InQuery, "form")+events(openapi.InPath, "")+events(openapi.InCookie, "")+events(openapi.InHeader, "")))
		vc.Ensure("C12.earlier parameters are kept in order", len(now) >= base && vc.Forall(func(i int) bool {
			return vc.Implies(0 <= i && i < base, vc.Eq(now[i], before[i]))
		}))
		vc.Ensure("operation extensions keep their place", vc.If(ext == nil, o.MapOfAnything == nil || vc.Fresh(o.MapOfAnything), vc.Eq(o.MapOfAnything, ext)))
		vc.Ensure("component schemas keep their place", vcChainKept(r, d))
		vc.Ensure("C15.component schemas are kept", vcDocKept(r, d, stored))
	}
}

//vc:func (*Reflector).setupRequest
//vc:namerefs
//vc:props C13 C15
func contractSetupRequest(r *Reflector, o *Operation, oc openapi.OperationContext) func(error) {
	vcCtx(oc)
	ctx := vc.Dyn[operationContext](oc).OperationContext
	us, _ := internal.VCUnits(ctx)
	units := vc.SnapSlice(us)
	n := len(units)
	method := internal.VCMethod(ctx)
	d := vcDocOf(r)
	stored := vc.Snap(d.m)
	was := vcBodyOf(o)
	before := vc.Snap(was.m)
	vc.Requires("no customisation", vc.Forall(func(i int) bool {
		return vc.Implies(0 <= i && i < n, units[i].Customize == nil)
	}))
	vcBodyModifies(o)
	vc.Modifies(vc.If(was.b == nil, nil, &was.b.Description))
	vcDocModifies(r)
	vc.Modifies(&o.Parameters, &o.MapOfAnything, o.MapOfAnything)

	// wants is the set of media types that a unit declares
	vc.Assume(vc.Forall(func(i int, x string) bool {
		return vc.Implies(0 <= i && i < n, vc.Rel("wants", i, x) == vcWants(r, units[i], method, x))
	}))
	// wanted: one of the first k units wants the media type
	vc.Define(vc.Forall(func(x string) bool { return !vc.Rel("wanted", x, 0) }))
	vc.Define(vc.Forall(func(x string, k int) bool {
		return vc.Implies(0 <= k && k < n, vc.Rel("wanted", x, k+1) == (vc.Rel("wanted", x, k) || vc.Rel("wants", k, x)))
	}))
	only := func(k int) bool {
		now := vcContent(o)

		return vc.Forall(func(x string) bool {
			a, has := now[x]
			b, had := before[x]

			return has == had && vc.Implies(has, vc.Eq(a, b)) || vc.Rel("wanted", x, k)
		})
	}
	each := func(k int, f func(cu openapi.ContentUnit) bool) bool {
		return vc.Forall(func(i int) bool { return vc.Implies(0 <= i && i < k, f(units[i])) })
	}
	content := func(k string) bool {
		mt, has := vcContent(o)[k]

		return has && mt.Schema != nil
	}
	form := func(ct string) func(cu openapi.ContentUnit) bool {
		return func(cu openapi.ContentUnit) bool {
			return vc.Implies(cu.ContentType == ct && vcWantsForm(r, cu, method), content(vcFormKey(cu)))
		}
	}
	json := func(cu openapi.ContentUnit) bool { return vc.Implies(vcWantsJSON(r, cu, method), content(vcJSON)) }
	other := func(cu openapi.ContentUnit) bool { return vc.Implies(vcWantsOther(cu), content(cu.ContentType)) }
	vc.Loop("Request()", func(n vc.Done) {
		k := int(n)
		vc.Invariant("the body is extended, not replaced", vcBodyKept(o, was))
		vc.Invariant("operation extensions keep their place", vc.If(vc.Old(func() bool { return o.MapOfAnything == nil }),
			o.MapOfAnything == nil || vc.Fresh(o.MapOfAnything), vc.Eq(o.MapOfAnything, vc.Old(func() map[string]interface{} { return o.MapOfAnything }))))
		vc.Invariant("C13.content comes from a unit", only(k))
		vc.Invariant("C13.every form body is registered", each(k, form("")))
		vc.Invariant("C13.every urlencoded body is registered", each(k, form(vcForm)))
		vc.Invariant("C13.every multipart body is registered", each(k, form(vcMultipart)))
		vc.Invariant("C13.every JSON body is registered", each(k, json))
		vc.Invariant("C13.every other body is registered", each(k, other))
		vc.Invariant("C13+C15.component schemas keep their place", vcChainKept(r, d))
		vc.Invariant("C15.no component schema is removed", vcNoneRemoved(r, stored))
	})

	return func(err error) {
		ok := err == nil
		vc.Ensure("the body is extended, not replaced", vcBodyKept(o, was))
		vc.Ensure("C13.content comes from a unit", vc.Implies(ok, only(n)))
		vc.Ensure("C13.every form body is registered", vc.Implies(ok, each(n, form("")) && each(n, form(vcForm)) && each(n, form(vcMultipart))))
		vc.Ensure("C13.every JSON body is registered", vc.Implies(ok, each(n, json)))
		vc.Ensure("C13.every other body is registered", vc.Implies(ok, each(n, other)))
		vc.Ensure("C15.no component schema is removed", vcNoneRemoved(r, stored))
	}
}
