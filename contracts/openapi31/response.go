// Generated by tools/gen_contracts.py from contracts_tmpl. DO NOT EDIT.

package openapi31

import (
	"net/http"
	"strconv"
	"strings"

	"github.com/swaggest/openapi-go"
	"github.com/swaggest/openapi-go/internal"
	"github.com/swaggest/openapi-go/internal/vc"
)

// vcCtx: the context is one of this package; reflecting changes what it tells about the processing.
func vcCtx(oc openapi.OperationContext) {
	vc.Is[operationContext](oc)
	is, in := internal.VCProcessing(vc.Dyn[operationContext](oc).OperationContext)
	vc.Modifies(is, in)
}

func vcContentKept(now, old map[string]MediaType) bool {
	return vc.If(old == nil, now == nil || vc.Fresh(now), vc.Eq(now, old))
}

func vcHeadersKept(now, old map[string]HeaderOrReference) bool {
	return vc.If(old == nil, now == nil || vc.Fresh(now), vc.Eq(now, old))
}

// vcDescription: an earlier description stays.
func vcDescription(resp *Response, desc string) bool { return vc.Implies(desc != "", resp.Description == desc) }

//vc:func (*Reflector).parseJSONResponse
//vc:props C14 C15
func contractParseJSONResponse(r *Reflector, resp *Response, oc openapi.OperationContext, cu openapi.ContentUnit) func(error) {
	d := vcDocOf(r)
	stored := vc.Snap(d.m)
	desc := resp.Description
	content := resp.Content
	before := vc.Snap(content)
	key := vc.If(cu.ContentType == "", "application/json", cu.ContentType)
	defs := internal.VCDefs(cu.Structure, "json", nil)
	vc.Modifies(&resp.Description, &resp.Content, content)
	vcCtx(oc)
	vcDocModifies(r)
	vcLoopDefs(r, d, stored)

	return func(err error) {
		now, has := resp.Content[key]
		old, had := before[key]
		changed := has != had || !vc.Eq(now, old)
		vc.Ensure("C14.an earlier description is kept", vcDescription(resp, desc))
		vc.Ensure("C14.the content is extended, not replaced", vcContentKept(resp.Content, content))
		vc.Ensure("C14.other content is kept", vc.Forall(func(k string) bool {
			a, has := resp.Content[k]
			b, had := before[k]

			return vc.Implies(k != key, has == had && vc.Implies(has, vc.Eq(a, b)))
		}))
		vc.Ensure("C14.earlier content stays", vc.Implies(had, has))
		vc.Ensure("C14.JSON content has a schema", vc.Implies(err == nil && changed, has && now.Schema != nil))
		vc.Ensure("C14.nothing without a structure", vc.Implies(cu.Structure == nil, !changed && resp.Description == desc))
		kept := now
		kept.Schema = old.Schema
		vc.Ensure("C14.other attributes of the content are kept", vc.Implies(had, vc.Eq(kept, old)))
		vc.Ensure("C15.component schemas are kept", vcDocKept(r, d, stored))
		vc.Ensure("C15.collected definitions are stored", vc.Implies(err == nil && changed, vc.Forall(func(x string) bool {
			_, is := defs[x]

			return vc.Implies(is, vcHasSchema(r, x))
		})))
	}
}

//vc:func (*Reflector).parseResponseHeader
//vc:props C14
func contractParseResponseHeader(r *Reflector, resp *Response, oc openapi.OperationContext, cu openapi.ContentUnit) func(error) {
	desc := resp.Description
	headers := resp.Headers
	before := vc.Snap(headers)
	props := internal.VCProps(cu.Structure, "header", nil, cu.FieldMapping(openapi.InHeader), false, false, false, true)
	vc.Modifies(&resp.Description, &resp.Headers, headers)
	vcCtx(oc)
	vc.Loop("props", func(n vc.Done, res map[string]HeaderOrReference) {
		vc.Invariant("C14.headers of the structure", vc.Forall(func(j int) bool {
			h, ok := res[props[j].Name]

			return vc.Implies(0 <= j && j < int(n) && vcTop(props[j]), ok && h.Header != nil)
		}))
		vc.Invariant("C14.a new set of headers", vc.Fresh(res) && res != nil)
	})
	vc.Loop("res", func(vis vc.Visited[string], res map[string]HeaderOrReference) {
		vc.Invariant("C14.collected headers so far", vc.Forall(func(k string) bool {
			a, has := resp.Headers[k]
			b, had := before[k]
			c, is := res[k]

			return vc.If(vis.Has(k), is && has && vc.Eq(a, c), has == had && vc.Implies(has, vc.Eq(a, b)))
		}))
	})

	return func(err error) {
		vc.Ensure("C14.an earlier description is kept", vcDescription(resp, desc))
		vc.Ensure("C14.the headers are extended, not replaced", vcHeadersKept(resp.Headers, headers))
		vc.Ensure("C14.earlier headers stay", vc.Forall(func(k string) bool {
			_, has := resp.Headers[k]
			_, had := before[k]

			return vc.Implies(had, has)
		}))
		vc.Ensure("C14.each top-level header field has its header", vc.Implies(err == nil && cu.Structure != nil, vc.Forall(func(j int) bool {
			h, ok := resp.Headers[props[j].Name]

			return vc.Implies(0 <= j && j < len(props) && vcTop(props[j]), ok && h.Header != nil)
		})))
	}
}

// vcText: a string schema of the format.
func vcText(mt MediaType, format string) bool {
	return mt.Schema != nil

}

//vc:func (*Reflector).ensureResponseContentType
//vc:props C14
func contractEnsureContent(r *Reflector, resp *Response, contentType, format string) func() {
	content := resp.Content
	before := vc.Snap(content)
	_, had := before[contentType]
	vc.Modifies(&resp.Content, content)

	return func() {
		now, has := resp.Content[contentType]
		vc.Ensure("C14.the content is extended, not replaced", vcContentKept(resp.Content, content))
		vc.Ensure("C14.there is content of that type", has)
		vc.Ensure("C14.new content is text of the format", vc.Implies(!had, vcText(now, format)))
		vc.Ensure("C14.other content is kept", vc.Forall(func(k string) bool {
			a, has := resp.Content[k]
			b, had := before[k]

			return vc.Implies(k != contentType || had, has == had && vc.Implies(has, vc.Eq(a, b)))
		}))
	}
}

//vc:func (*Reflector).parseRawResponseBody
//vc:props C14
func contractParseRawResponseBody(r *Reflector, resp *Response, cu openapi.ContentUnit) func() {
	content := resp.Content
	before := vc.Snap(content)
	vc.Modifies(&resp.Content, content)
	stays := func() bool {
		return vc.Forall(func(k string) bool {
			_, has := resp.Content[k]
			_, had := before[k]

			return vc.Implies(had, has)
		})
	}
	vc.Loop("tagged", func(n vc.Done) {
		vc.Invariant("C14.the content is extended, not replaced", vcContentKept(resp.Content, content))
		vc.Invariant("C14.earlier content stays", stays())
	})

	return func() {
		vc.Ensure("C14.the content is extended, not replaced", vcContentKept(resp.Content, content))
		vc.Ensure("C14.earlier content stays", stays())
	}
}

// vcResponses are the registered responses of an operation.
func vcResponses(o *Operation) (def *ResponseOrReference, m map[string]ResponseOrReference) {
	if o.Responses == nil {
		return nil, nil
	}
	return o.Responses.Default, o.Responses.MapOfResponseOrReferenceValues
}

// vcUnitStatus is the status of a unit.
func vcUnitStatus(cu openapi.ContentUnit) int {
	return vc.If(cu.HTTPStatus == 0 && !cu.IsDefault, 200, cu.HTTPStatus)
}

// vcUnitKey is the key of a unit that is not the default one.
func vcUnitKey(cu openapi.ContentUnit) string {
	s := vcUnitStatus(cu)

	return vc.If(s > 0 && s < 6, strconv.Itoa(s)+"XX", strconv.Itoa(s))
}

func vcSameKey(a, b openapi.ContentUnit) bool {
	return a.IsDefault == b.IsDefault && (a.IsDefault || vcUnitKey(a) == vcUnitKey(b))
}

// vcUnitResponse is the response registered for a unit.
func vcUnitResponse(cu openapi.ContentUnit, def *ResponseOrReference, m map[string]ResponseOrReference) *Response {
	return vc.If(cu.IsDefault, vc.If(def == nil, nil, def.Response), m[vcUnitKey(cu)].Response)
}

//vc:func (*Reflector).setupResponse
//vc:namerefs
//vc:props C14 C15
func contractSetupResponse(r *Reflector, o *Operation, oc openapi.OperationContext) func(error) {
	vcCtx(oc)
	ctx := vc.Dyn[operationContext](oc).OperationContext
	_, us := internal.VCUnits(ctx)
	units := vc.SnapSlice(us)
	head := strings.ToUpper(internal.VCMethod(ctx)) == http.MethodHead
	d := vcDocOf(r)
	stored := vc.Snap(d.m)
	def, given := vcResponses(o)
	before := vc.Snap(given)
	var defResp *Response
	if def != nil {
		defResp = def.Response
	}
	was := func(cu openapi.ContentUnit) *Response { return vc.If(cu.IsDefault, defResp, before[vcUnitKey(cu)].Response) }
	n := len(units)
	vc.Requires("no customisation", vc.Forall(func(i int) bool {
		return vc.Implies(0 <= i && i < n, units[i].Customize == nil)
	}))
	vc.Requires("responses are not shared", vc.Forall(func(a, b string) bool {
		return vc.Implies(a != b && before[a].Response != nil, before[a].Response != before[b].Response)
	}))
	vc.Requires("the default response is not shared", vc.Forall(func(a string) bool {
		return vc.Implies(before[a].Response != nil, before[a].Response != defResp)
	}))
	// Any set that has the responses of the units will do, so the smallest does.
	vc.Assume(vc.Forall(func(i int) bool {
		w := was(units[i])

		return vc.Implies(0 <= i && i < n && w != nil, vc.Rel("touched", w) && vc.Rel("touched", w.Headers) && vc.Implies(!head, vc.Rel("touched", w.Content)))
	}))
	vc.ModifiesWhere(func(p *Response) bool { return vc.Rel("touched", p) })
	vc.ModifiesWhere(func(h map[string]HeaderOrReference) bool { return vc.Rel("touched", h) })
	vc.ModifiesWhere(func(c map[string]MediaType) bool { return vc.Rel("touched", c) })
	vcDocModifies(r)
	vc.Modifies(&o.Responses)
	vc.Modifies(&o.Responses.Default, &o.Responses.MapOfResponseOrReferenceValues, given)
	oldResp := o.Responses

	// each, for the response registered for each of the first k units
	each := func(k int, f func(i int, p *Response) bool) bool {
		def, m := vcResponses(o)

		return vc.Forall(func(i int) bool { return vc.Implies(0 <= i && i < k, f(i, vcUnitResponse(units[i], def, m))) })
	}
	last := func(i, k int) bool {
		return vc.Forall(func(j int) bool {
			return vc.Implies(i < j && j < k, !vcSameKey(units[i], units[j]) || units[j].Description == "")
		})
	}
	registered := func(k int) bool {
		_, m := vcResponses(o)

		return each(k, func(i int, p *Response) bool {
			_, has := m[vcUnitKey(units[i])]

			return p != nil && (has || units[i].IsDefault)
		})
	}
	others := func(k int) bool {
		_, m := vcResponses(o)

		return vc.Forall(func(x string) bool {
			a, has := m[x]
			b, had := before[x]

			return has == had && vc.Implies(has, vc.Eq(a, b)) || vc.Exists(func(i int) bool {
				return 0 <= i && i < k && !units[i].IsDefault && vcUnitKey(units[i]) == x
			})
		})
	}
	otherDefault := func(k int) bool {
		now, _ := vcResponses(o)

		return now == def || vc.Exists(func(i int) bool { return 0 <= i && i < k && units[i].IsDefault })
	}
	own := func(k int, isDefault bool) bool {
		return each(k, func(i int, p *Response) bool {
			return vc.Implies(units[i].IsDefault == isDefault && units[i].Description != "" && last(i, k), p.Description == units[i].Description)
		})
	}
	some := func(k int, isDefault bool) bool {
		return each(k, func(i int, p *Response) bool {
			return vc.Implies(units[i].IsDefault == isDefault && http.StatusText(vcUnitStatus(units[i])) != "", p.Description != "")
		})
	}
	// place, for each response and the one that was there before
	place := func(f func(now, was *Response) bool) bool {
		_, m := vcResponses(o)

		return vc.Forall(func(x string) bool { return f(m[x].Response, before[x].Response) })
	}
	placeDefault := func(f func(now, was *Response) bool) bool {
		now, _ := vcResponses(o)

		return vc.Implies(now != nil, f(now.Response, defResp))
	}
	extended := func(now, was *Response) bool { return vc.If(was == nil, now == nil || vc.Fresh(now), now == was) }
	bodyless := func(now, was *Response) bool {
		return vc.Implies(head && now != nil, vc.If(was == nil, now.Content == nil,
			vc.Eq(now.Content, vc.Old(func() map[string]MediaType { return was.Content }))))
	}
	content := func(now, was *Response) bool {
		return vc.Implies(now != nil, vc.If(was == nil, now.Content == nil || vc.Fresh(now.Content),
			vcContentKept(now.Content, vc.Old(func() map[string]MediaType { return was.Content }))))
	}
	headers := func(now, was *Response) bool {
		return vc.Implies(now != nil, vc.If(was == nil, now.Headers == nil || vc.Fresh(now.Headers),
			vcHeadersKept(now.Headers, vc.Old(func() map[string]HeaderOrReference { return was.Headers }))))
	}

	vc.Loop("Response()", func(n vc.Done) {
		k := int(n)
		now, m := vcResponses(o)
		vc.Invariant("C14+C15.component schemas are kept", vcDocKept(r, d, stored))
		vc.Invariant("C14+C15.responses keep their place", o.Responses == oldResp || oldResp == nil && vc.Fresh(o.Responses))
		vc.Invariant("C14+C15.the set of responses is the given one or new", vc.If(given == nil, m == nil || vc.Fresh(m), vc.Eq(m, given)))
		vc.Invariant("C14+C15.the default response is the given one or new", vc.If(def == nil, now == nil || vc.Fresh(now), now == def || vc.Fresh(now)))
		vc.Invariant("C14+C15.later units extend the response", place(extended))
		vc.Invariant("C14+C15.later units extend the default response", placeDefault(extended))
		vc.Invariant("C14+C15.content of responses", place(content))
		vc.Invariant("C14+C15.content of the default response", placeDefault(content))
		vc.Invariant("C14+C15.headers of responses", place(headers))
		vc.Invariant("C14+C15.headers of the default response", placeDefault(headers))
		vc.Invariant("C14+C15.responses are not shared", vc.Forall(func(a, b string) bool {
			return vc.Implies(a != b && m[a].Response != nil, m[a].Response != m[b].Response)
		}))
		vc.Invariant("C14+C15.the default response is not shared", vc.Forall(func(a string) bool {
			return vc.Implies(m[a].Response != nil && now != nil, m[a].Response != now.Response)
		}))
		vc.Invariant("C14.no content for HEAD", place(bodyless))
		vc.Invariant("C14.no default content for HEAD", placeDefault(bodyless))
		vc.Invariant("C14.units are registered", registered(k))
		vc.Invariant("C14.responses under other keys are untouched", others(k))
		vc.Invariant("C14.the default response is untouched", otherDefault(k))
		vc.Invariant("C14.own description", own(k, false))
		vc.Invariant("C14.own default description", own(k, true))
		vc.Invariant("C14.some description", some(k, false))
		vc.Invariant("C14.some default description", some(k, true))
	})

	return func(err error) {
		ok := err == nil
		vc.Ensure("C14.units are registered", vc.Implies(ok, registered(n)))
		vc.Ensure("C14.later units extend the response", place(extended) && placeDefault(extended))
		vc.Ensure("C14.responses under other keys are untouched", vc.Implies(ok, others(n) && otherDefault(n)))
		vc.Ensure("C14.own description", vc.Implies(ok, own(n, false) && own(n, true)))
		vc.Ensure("C14.some description", vc.Implies(ok, some(n, false) && some(n, true)))
		vc.Ensure("C14.no content for HEAD", place(bodyless) && placeDefault(bodyless))
		vc.Ensure("C15.component schemas are kept", vcDocKept(r, d, stored))
	}
}
