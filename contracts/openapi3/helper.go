package openapi3

import (
	"strings"

	"github.com/swaggest/openapi-go"
	"github.com/swaggest/openapi-go/internal/vc"
)

func vcIsIn(in ParameterIn) bool {
	return in == ParameterInPath || in == ParameterInQuery || in == ParameterInHeader || in == ParameterInCookie
}

func vcInlineKey(p ParameterOrRef, name string, in ParameterIn) bool {
	return p.Parameter != nil && p.Parameter.Name == name && p.Parameter.In == in
}

// vcPrefixOK: among the first n parameters no two inline ones share name and location, and path ones have a placeholder.
func vcPrefixOK(ps []ParameterOrRef, n int, pathParams map[string]bool) bool {
	distinct := vc.Forall(func(i, j int) bool {
		return vc.Implies(0 <= i && i < j && j < n && ps[i].Parameter != nil && ps[j].Parameter != nil,
			!(ps[i].Parameter.Name == ps[j].Parameter.Name && ps[i].Parameter.In == ps[j].Parameter.In))
	})
	known := vc.Forall(func(i int) bool {
		return vc.Implies(0 <= i && i < n && ps[i].Parameter != nil && ps[i].Parameter.In == ParameterInPath,
			pathParams[ps[i].Parameter.Name])
	})

	return distinct && known
}

func vcPathParamDeclared(ps []ParameterOrRef, n int, name string) bool {
	return vc.Exists(func(i int) bool { return 0 <= i && i < n && vcInlineKey(ps[i], name, ParameterInPath) })
}

//vc:func (*Operation).validatePathParams
//vc:props C03
func contractValidatePathParams(o *Operation, pathParams map[string]bool) func(error) {
	ps := o.Parameters
	valid := vcValidLocations(ps)
	vc.Requires("path parameter set has no false entries", vc.Forall(func(k string) bool {
		_, ok := pathParams[k]
		return vc.Implies(ok, pathParams[k])
	}))
	vc.Loop("Parameters", func(n vc.Done, errs []string, paramIndex map[string]bool) {
		vc.Invariant("C03.bounds", 0 <= int(n) && int(n) <= len(ps))
		vc.Invariant("C03.no error iff prefix is consistent", vc.Implies(valid,
			vc.Iff(len(errs) == 0, vcPrefixOK(ps, int(n), pathParams))))
		vc.Invariant("C03.index holds the prefix", vc.Implies(valid && len(errs) == 0, vc.Forall(func(i int) bool {
			return vc.Implies(0 <= i && i < int(n) && ps[i].Parameter != nil, paramIndex[ps[i].Parameter.Name+string(ps[i].Parameter.In)])
		})))
		vc.Invariant("C03.index holds only the prefix", vc.Implies(valid && len(errs) == 0, vc.Forall(func(k string) bool {
			return vc.Implies(paramIndex[k], vc.Exists(func(i int) bool {
				return 0 <= i && i < int(n) && ps[i].Parameter != nil && ps[i].Parameter.Name+string(ps[i].Parameter.In) == k
			}))
		})))
	})
	vc.Loop("pathParams", func(vis vc.Visited[string], errs []string, paramIndex map[string]bool) {
		vc.Invariant("C03.no error iff all placeholders so far are declared", vc.Implies(valid, vc.Iff(len(errs) == 0,
			vcPrefixOK(ps, len(ps), pathParams) && vc.Forall(func(k string) bool {
				return vc.Implies(vis.Has(k), vcPathParamDeclared(ps, len(ps), k))
			}))))
	})

	return func(err error) {
		vc.Ensure("C03.accepted exactly when parameters agree with the placeholders", vc.Implies(valid, vc.Iff(err == nil,
			vcPrefixOK(ps, len(ps), pathParams) && vc.Forall(func(k string) bool {
				return vc.Implies(pathParams[k], vcPathParamDeclared(ps, len(ps), k))
			}))))
	}
}

func vcIsMethod(m string) bool {
	return m == "get" || m == "put" || m == "post" || m == "delete" || m == "options" || m == "head" || m == "patch" || m == "trace"
}

func vcIsPlaceholder(path, name string) bool {
	return vc.Exists(func(i int) bool {
		return 0 <= i && i < vc.RelInt("placeholderCount", path) && vc.RelStr("placeholder", path, i) == name
	})
}

// vcParamsAgree: the declared inline path parameters are exactly the placeholders, no inline duplicates.
func vcParamsAgree(ps []ParameterOrRef, path string) bool {
	distinct := vc.Forall(func(i, j int) bool {
		return vc.Implies(0 <= i && i < j && j < len(ps) && ps[i].Parameter != nil && ps[j].Parameter != nil,
			!(ps[i].Parameter.Name == ps[j].Parameter.Name && ps[i].Parameter.In == ps[j].Parameter.In))
	})
	known := vc.Forall(func(i int) bool {
		return vc.Implies(0 <= i && i < len(ps) && ps[i].Parameter != nil && ps[i].Parameter.In == ParameterInPath,
			vcIsPlaceholder(path, ps[i].Parameter.Name))
	})
	declared := vc.Forall(func(i int) bool {
		return vc.Implies(0 <= i && i < vc.RelInt("placeholderCount", path),
			vcPathParamDeclared(ps, len(ps), vc.RelStr("placeholder", path, i)))
	})

	return distinct && known && declared
}

func vcValidLocations(ps []ParameterOrRef) bool {
	return vc.Forall(func(i int) bool {
		return vc.Implies(0 <= i && i < len(ps) && ps[i].Parameter != nil, vcIsIn(ps[i].Parameter.In))
	})
}

func vcLoopPathParams(path string) {
	vc.Loop("pathParams", func(n vc.Done, pathParamsMap map[string]bool) {
		vc.Invariant("C03.placeholder set holds the prefix", vc.Forall(func(i int) bool {
			return vc.Implies(0 <= i && i < int(n), pathParamsMap[vc.RelStr("placeholder", path, i)])
		}))
		vc.Invariant("C03.placeholder set holds only the prefix", vc.Forall(func(k string) bool {
			_, ok := pathParamsMap[k]
			return vc.Implies(ok, pathParamsMap[k] && vc.Exists(func(i int) bool {
				return 0 <= i && i < int(n) && vc.RelStr("placeholder", path, i) == k
			}))
		}))
	})
}

// The setup callbacks are arbitrary code that may change the operation it is given a pointer to.
//
//vc:func (*Spec).SetupOperation
//vc:props C02 C03
//vc:inline
func contractSetupOperation(s *Spec, method, path string, setup []func(*Operation) error) func(error) {
	m := strings.ToLower(method)
	cp := vc.RelStr("cleanPath", path)
	items := s.Paths.MapOfPathItemValues
	before := vc.Snap(items)
	item, itemFound := before[cp]
	opsBefore := vc.Snap(item.MapOfOperationValues)
	vc.Modifies(items, item.MapOfOperationValues, &s.Paths.MapOfPathItemValues)
	vcLoopPathParams(path)

	return func(err error) {
		now := s.Paths.MapOfPathItemValues
		entry, has := now[cp]
		op, hasOp := entry.MapOfOperationValues[m]
		vc.Ensure("C02.entry is stored", vc.Implies(err == nil, vcIsMethod(m) && has && hasOp))
		vc.Ensure("C03.stored operation agrees with the path", vc.Implies(err == nil && vcValidLocations(op.Parameters),
			vcParamsAgree(op.Parameters, path)))
		vc.Ensure("C02.on error nothing changes", vc.Implies(err != nil,
			vc.Eq(now, items) && vc.SameMap(now, before) && vc.SameMap(item.MapOfOperationValues, opsBefore)))
		vc.Ensure("C02.other paths keep their items", vc.Forall(func(p string) bool {
			a, okA := now[p]
			b, okB := before[p]
			return vc.Implies(p != cp, okA == okB && vc.Implies(okA, vc.Eq(a, b)))
		}))
		vc.Ensure("C02.other methods of the path keep their operations", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			a, okA := entry.MapOfOperationValues[k]
			b, okB := opsBefore[k]
			return vc.Implies(k != m, okA == okB && vc.Implies(okA, vc.Eq(a, b)))
		})))
		x, y := entry, item
		x.MapOfOperationValues, y.MapOfOperationValues = nil, nil
		vc.Ensure("C02.path item attributes are kept", vc.Implies(err == nil && itemFound, vc.Eq(x, y)))
	}
}

//vc:func (*Spec).AddOperation
//vc:props C02 C03 C04
func contractAddOperation(s *Spec, method, path string, operation Operation) func(error) {
	m := strings.ToLower(method)
	cp := vc.RelStr("cleanPath", path)
	items := s.Paths.MapOfPathItemValues
	before := vc.Snap(items)
	item, itemFound := before[cp]
	opsBefore := vc.Snap(item.MapOfOperationValues)
	_, exists := opsBefore[m]
	given := operation
	resps := operation.Responses.MapOfResponseOrRefValues
	respsBefore := vc.Snap(resps)
	noResp := len(resps) == 0 && operation.Responses.Default == nil

	valid := vcValidLocations(operation.Parameters)
	vc.Modifies(items, item.MapOfOperationValues, &s.Paths.MapOfPathItemValues, resps)
	vcLoopPathParams(path)

	return func(err error) {
		now := s.Paths.MapOfPathItemValues
		entry, has := now[cp]
		op, hasOp := entry.MapOfOperationValues[m]
		vc.Ensure("C02+C03.succeeds exactly when method is known, entry is free and parameters agree",
			vc.Implies(valid, vc.Iff(err == nil, vcIsMethod(m) && !exists && vcParamsAgree(operation.Parameters, path))))
		vc.Ensure("C02.fails if the entry is taken", vc.Implies(err == nil, vcIsMethod(m) && !exists))
		vc.Ensure("C02.entry is stored", vc.Implies(err == nil, has && hasOp))
		vc.Ensure("C02.on error nothing changes", vc.Implies(err != nil,
			vc.Eq(now, items) && vc.SameMap(now, before) && vc.SameMap(item.MapOfOperationValues, opsBefore)))
		vc.Ensure("C02.other paths keep their items", vc.Forall(func(p string) bool {
			a, okA := now[p]
			b, okB := before[p]
			return vc.Implies(p != cp, okA == okB && vc.Implies(okA, vc.Eq(a, b)))
		}))
		vc.Ensure("C02.other methods of the path keep their operations", vc.Implies(err == nil, vc.Forall(func(k string) bool {
			a, okA := entry.MapOfOperationValues[k]
			b, okB := opsBefore[k]
			return vc.Implies(k != m, okA == okB && vc.Implies(okA, vc.Eq(a, b)))
		})))
		x, y := entry, item
		x.MapOfOperationValues, y.MapOfOperationValues = nil, nil
		vc.Ensure("C02.path item attributes are kept", vc.Implies(err == nil && itemFound, vc.Eq(x, y)))
		vc.Ensure("C02.operations map of the item is kept or new", vc.Implies(err == nil,
			vc.Eq(entry.MapOfOperationValues, item.MapOfOperationValues) || vc.Fresh(entry.MapOfOperationValues)))
		o1, o2 := op, given
		o1.Responses.MapOfResponseOrRefValues, o2.Responses.MapOfResponseOrRefValues = nil, nil
		vc.Ensure("C02+C04.operation is stored as given", vc.Implies(err == nil, vc.Eq(o1, o2)))
		vc.Ensure("C04.given responses are stored as given", vc.Implies(err == nil && !noResp,
			vc.Eq(op.Responses.MapOfResponseOrRefValues, resps) && vc.SameMap(resps, respsBefore)))
		r := op.Responses.MapOfResponseOrRefValues
		vc.Ensure("C04.default response is 204 No Content", vc.Implies(err == nil && noResp,
			vc.Forall(func(k string) bool {
				_, ok := r[k]
				return vc.Iff(ok, k == "204")
			}) && r["204"].ResponseReference == nil && r["204"].Response != nil &&
				vc.Eq(*r["204"].Response, Response{Description: "No Content"})))
	}
}

// ---- document info ----

//vc:func (*Spec).Title
//vc:props C18
func contractTitle(s *Spec) func(string) {
	return func(r string) { vc.Ensure("title is read back", r == s.Info.Title) }
}

//vc:func (*Spec).SetTitle
//vc:props C18
func contractSetTitle(s *Spec, t string) func() {
	vc.Modifies(&s.Info.Title)
	return func() { vc.Ensure("title is stored", s.Info.Title == t) }
}

//vc:func (*Spec).Version
//vc:props C18
func contractVersion(s *Spec) func(string) {
	return func(r string) { vc.Ensure("version is read back", r == s.Info.Version) }
}

//vc:func (*Spec).SetVersion
//vc:props C18
func contractSetVersion(s *Spec, v string) func() {
	vc.Modifies(&s.Info.Version)
	return func() { vc.Ensure("version is stored", s.Info.Version == v) }
}

//vc:func (*Spec).Description
//vc:props C18
func contractDescription(s *Spec) func(string) {
	return func(r string) {
		if s.Info.Description == nil {
			vc.Ensure("absent description is empty", r == "")
		} else {
			vc.Ensure("description is read back", r == *s.Info.Description)
		}
	}
}

//vc:func (*Spec).SetDescription
//vc:props C18
func contractSetDescription(s *Spec, d string) func() {
	vc.Modifies(&s.Info.Description)
	return func() {
		vc.Ensure("description is stored", s.Info.Description != nil && *s.Info.Description == d)
		vc.Ensure("description is a new object", vc.Fresh(s.Info.Description))
	}
}

// ---- security schemes ----

type vcSec struct {
	comps *Components
	old   Components
	kind  *ComponentsSecuritySchemes
	vals  map[string]SecuritySchemeOrRef
	snap  map[string]SecuritySchemeOrRef
}

func vcSecBefore(s *Spec) vcSec {
	var r vcSec
	r.comps = s.Components
	vc.Modifies(&s.Components)
	if s.Components != nil {
		r.old = *s.Components
		vc.Modifies(&s.Components.SecuritySchemes)
		r.kind = s.Components.SecuritySchemes
		if r.kind != nil {
			r.vals = r.kind.MapOfSecuritySchemeOrRefValues
			vc.Modifies(&r.kind.MapOfSecuritySchemeOrRefValues, r.vals)
		}
	}
	r.snap = vc.Snap(r.vals)

	return r
}

func vcSecAfter(s *Spec, b vcSec, name string) SecurityScheme {
	vc.Ensure("components are kept or new", s.Components != nil && (vc.Eq(s.Components, b.comps) || b.comps == nil && vc.Fresh(s.Components)))
	x, y := *s.Components, b.old
	x.SecuritySchemes, y.SecuritySchemes = nil, nil
	vc.Ensure("other component kinds are unchanged", vc.Eq(x, y))
	k := s.Components.SecuritySchemes
	vc.Ensure("security schemes are kept or new", k != nil && (vc.Eq(k, b.kind) || b.kind == nil && vc.Fresh(k)))
	now := k.MapOfSecuritySchemeOrRefValues
	vc.Ensure("other security schemes are unchanged", vc.Forall(func(n string) bool {
		p, okP := now[n]
		q, okQ := b.snap[n]
		return vc.Implies(n != name, okP == okQ && vc.Implies(okP, vc.Eq(p, q)))
	}))
	v, ok := now[name]
	vc.Ensure("scheme is stored inline under the name", ok && v.SecuritySchemeReference == nil && v.SecurityScheme != nil)

	return *v.SecurityScheme
}

func vcStrIs(p *string, v string) bool { return p != nil && *p == v }

//vc:func (*Spec).SetHTTPBasicSecurity
//vc:props C18
func contractSetHTTPBasicSecurity(s *Spec, securityName string, description string) func() {
	b := vcSecBefore(s)
	return func() {
		ss := vcSecAfter(s, b, securityName)
		h := ss.HTTPSecurityScheme
		vc.Ensure("only an HTTP scheme is set", vc.Eq(ss, SecurityScheme{HTTPSecurityScheme: h}) && h != nil)
		vc.Ensure("basic scheme with the description", h.Scheme == "basic" && vcStrIs(h.Description, description))
		vc.Ensure("nothing else is set", vc.Eq(*h, HTTPSecurityScheme{Scheme: h.Scheme, Description: h.Description}))
	}
}

//vc:func (*Spec).SetAPIKeySecurity
//vc:props C18
func contractSetAPIKeySecurity(s *Spec, securityName string, fieldName string, fieldIn openapi.In, description string) func() {
	b := vcSecBefore(s)
	return func() {
		ss := vcSecAfter(s, b, securityName)
		h := ss.APIKeySecurityScheme
		vc.Ensure("only an API key scheme is set", vc.Eq(ss, SecurityScheme{APIKeySecurityScheme: h}) && h != nil)
		vc.Ensure("name, location and description", h.Name == fieldName && string(h.In) == string(fieldIn) && vcStrIs(h.Description, description))
		vc.Ensure("nothing else is set", vc.Eq(*h, APIKeySecurityScheme{Name: h.Name, In: h.In, Description: h.Description}))
	}
}

//vc:func (*Spec).SetHTTPBearerTokenSecurity
//vc:props C18
func contractSetHTTPBearerTokenSecurity(s *Spec, securityName string, format string, description string) func() {
	b := vcSecBefore(s)
	return func() {
		ss := vcSecAfter(s, b, securityName)
		h := ss.HTTPSecurityScheme
		vc.Ensure("only an HTTP scheme is set", vc.Eq(ss, SecurityScheme{HTTPSecurityScheme: h}) && h != nil)
		vc.Ensure("bearer scheme with the description", h.Scheme == "bearer" && vcStrIs(h.Description, description))
		vc.Ensure("bearer format, absent when empty", vc.Implies(format == "", h.BearerFormat == nil) && vc.Implies(format != "", vcStrIs(h.BearerFormat, format)))
		vc.Ensure("nothing else is set", vc.Eq(*h, HTTPSecurityScheme{Scheme: h.Scheme, Description: h.Description, BearerFormat: h.BearerFormat}))
	}
}

// ---- references ----

//vc:func (*ResponseOrRef).SetReference
//vc:props C19
func contractResponseSetReference(r *ResponseOrRef, ref string) func() {
	vc.Modifies(r)
	if r.ResponseReference != nil {
		vc.Modifies(&r.ResponseReference.Ref)
	}
	return func() {
		vc.Ensure("reference is set", r.ResponseReference != nil && r.ResponseReference.Ref == ref)
		vc.Ensure("inline content is discarded", r.Response == nil)
	}
}

//vc:func (*RequestBodyOrRef).SetReference
//vc:props C19
func contractRequestBodySetReference(r *RequestBodyOrRef, ref string) func() {
	vc.Modifies(r)
	if r.RequestBodyReference != nil {
		vc.Modifies(&r.RequestBodyReference.Ref)
	}
	return func() {
		vc.Ensure("reference is set", r.RequestBodyReference != nil && r.RequestBodyReference.Ref == ref)
		vc.Ensure("inline content is discarded", r.RequestBody == nil)
	}
}

// ---- unknown parameters ----

//vc:func (Operation).UnknownParamIsForbidden
//vc:props C17
func contractUnknownParamIsForbidden(o Operation, in ParameterIn) func(bool) {
	return func(r bool) {
		v, ok := o.MapOfAnything["x-forbid-unknown-"+string(in)]
		vc.Ensure("reports the mark of the location", vc.Iff(r, ok && vc.TypeIs[bool](v) && vc.Dyn[bool](v)))
	}
}
