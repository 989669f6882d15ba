package openapi31

import (
	"strings"

	"github.com/swaggest/openapi-go"
	"github.com/swaggest/openapi-go/internal/vc"
)

func vcIsIn(in ParameterIn) bool {
	return in == ParameterInPath || in == ParameterInQuery || in == ParameterInHeader || in == ParameterInCookie
}

func vcInlineKey(p ParameterOrReference, name string, in ParameterIn) bool {
	return p.Parameter != nil && p.Parameter.Name == name && p.Parameter.In == in
}

// vcPrefixOK: among the first n parameters no two inline ones share name and location, and path ones have a placeholder.
func vcPrefixOK(ps []ParameterOrReference, n int, pathParams map[string]bool) bool {
	distinct := vc.Forall(func(i, j int) bool {
		return vc.Implies(0 <= i && i < j && j < n && ps[i].Parameter != nil && ps[j].Parameter != nil,
			!(ps[i].Parameter.Name == ps[j].Parameter.Name && ps[i].Parameter.In == ps[j].Parameter.In))
	})
	known := vc.Forall(func(i int) bool {
		return vc.Implies(0 <= i && i < n && ps[i].Parameter != nil && ps[i].Parameter.In == ParameterInPath,
			pathParams[ps[i].Parameter.Name])
	})

	return distinct && known
}

func vcPathParamDeclared(ps []ParameterOrReference, n int, name string) bool {
	return vc.Exists(func(i int) bool { return 0 <= i && i < n && vcInlineKey(ps[i], name, ParameterInPath) })
}

//vc:func (*Operation).validatePathParams
//vc:props C03
func contractValidatePathParams(o *Operation, pathParams map[string]bool) func(error) {
	ps := o.Parameters
	valid := vcValidLocations(ps)
	vc.Requires("path parameter set has no false entries", vc.Forall(func(k string) bool {
		_, ok := pathParams[k]
		return vc.Implies(ok, pathParams[k])
	}))
	vc.Loop("Parameters", func(n vc.Done, errs []string, paramIndex map[string]bool) {
		vc.Invariant("C03.bounds", 0 <= int(n) && int(n) <= len(ps))
		vc.Invariant("C03.no error iff prefix is consistent", vc.Implies(valid,
			vc.Iff(len(errs) == 0, vcPrefixOK(ps, int(n), pathParams))))
		vc.Invariant("C03.index holds the prefix", vc.Implies(valid && len(errs) == 0, vc.Forall(func(i int) bool {
			return vc.Implies(0 <= i && i < int(n) && ps[i].Parameter != nil, paramIndex[ps[i].Parameter.Name+string(ps[i].Parameter.In)])
		})))
		vc.Invariant("C03.index holds only the prefix", vc.Implies(valid && len(errs) == 0, vc.Forall(func(k string) bool {
			return vc.Implies(paramIndex[k], vc.Exists(func(i int) bool {
				return 0 <= i && i < int(n) && ps[i].Parameter != nil && ps[i].Parameter.Name+string(ps[i].Parameter.In) == k
			}))
		})))
	})
	vc.Loop("pathParams", func(vis vc.Visited[string], errs []string, paramIndex map[string]bool) {
		vc.Invariant("C03.no error iff all placeholders so far are declared", vc.Implies(valid, vc.Iff(len(errs) == 0,
			vcPrefixOK(ps, len(ps), pathParams) && vc.Forall(func(k string) bool {
				return vc.Implies(vis.Has(k), vcPathParamDeclared(ps, len(ps), k))
			}))))
	})

	return func(err error) {
		vc.Ensure("C03.accepted exactly when parameters agree with the placeholders", vc.Implies(valid, vc.Iff(err == nil,
			vcPrefixOK(ps, len(ps), pathParams) && vc.Forall(func(k string) bool {
				return vc.Implies(pathParams[k], vcPathParamDeclared(ps, len(ps), k))
			}))))
	}
}

func vcIsMethod(m string) bool {
	return m == "get" || m == "put" || m == "post" || m == "delete" || m == "options" || m == "head" || m == "patch" || m == "trace"
}

func vcIsPlaceholder(path, name string) bool {
	return vc.Exists(func(i int) bool {
		return 0 <= i && i < vc.RelInt("placeholderCount", path) && vc.RelStr("placeholder", path, i) == name
	})
}

// vcParamsAgree: the declared inline path parameters are exactly the placeholders, no inline duplicates.
func vcParamsAgree(ps []ParameterOrReference, path string) bool {
	distinct := vc.Forall(func(i, j int) bool {
		return vc.Implies(0 <= i && i < j && j < len(ps) && ps[i].Parameter != nil && ps[j].Parameter != nil,
			!(ps[i].Parameter.Name == ps[j].Parameter.Name && ps[i].Parameter.In == ps[j].Parameter.In))
	})
	known := vc.Forall(func(i int) bool {
		return vc.Implies(0 <= i && i < len(ps) && ps[i].Parameter != nil && ps[i].Parameter.In == ParameterInPath,
			vcIsPlaceholder(path, ps[i].Parameter.Name))
	})
	declared := vc.Forall(func(i int) bool {
		return vc.Implies(0 <= i && i < vc.RelInt("placeholderCount", path),
			vcPathParamDeclared(ps, len(ps), vc.RelStr("placeholder", path, i)))
	})

	return distinct && known && declared
}

func vcValidLocations(ps []ParameterOrReference) bool {
	return vc.Forall(func(i int) bool {
		return vc.Implies(0 <= i && i < len(ps) && ps[i].Parameter != nil, vcIsIn(ps[i].Parameter.In))
	})
}

func vcLoopPathParams(path string) {
	vc.Loop("pathParams", func(n vc.Done, pathParamsMap map[string]bool) {
		vc.Invariant("C03.placeholder set holds the prefix", vc.Forall(func(i int) bool {
			return vc.Implies(0 <= i && i < int(n), pathParamsMap[vc.RelStr("placeholder", path, i)])
		}))
		vc.Invariant("C03.placeholder set holds only the prefix", vc.Forall(func(k string) bool {
			_, ok := pathParamsMap[k]
			return vc.Implies(ok, pathParamsMap[k] && vc.Exists(func(i int) bool {
				return 0 <= i && i < int(n) && vc.RelStr("placeholder", path, i) == k
			}))
		}))
	})
}

// vcOpOf is the operation of a path item under a lower-case method.
func vcOpOf(p PathItem, m string) *Operation {
	switch m {
	case "get":
		return p.Get
	case "put":
		return p.Put
	case "post":
		return p.Post
	case "delete":
		return p.Delete
	case "options":
		return p.Options
	case "head":
		return p.Head
	case "patch":
		return p.Patch
	case "trace":
		return p.Trace
	}
	return nil
}

// vcWithOp is p with the operation of one method replaced.
func vcWithOp(p PathItem, m string, op *Operation) PathItem {
	switch m {
	case "get":
		p.Get = op
	case "put":
		p.Put = op
	case "post":
		p.Post = op
	case "delete":
		p.Delete = op
	case "options":
		p.Options = op
	case "head":
		p.Head = op
	case "patch":
		p.Patch = op
	case "trace":
		p.Trace = op
	}
	return p
}

//vc:func (PathItem).Operation
//vc:props C05
//vc:inline
func contractPathItemOperation(p PathItem, method string) func(*Operation, error) {
	m := strings.ToLower(method)
	vc.Requires("method is ASCII", vc.Rel("ascii", method))
	return func(op *Operation, err error) {
		vc.Ensure("exactly the eight methods are accepted", vc.Iff(err == nil, vcIsMethod(m)))
		vc.Ensure("operation of the method", vc.Implies(err == nil, vc.Eq(op, vcOpOf(p, m))))
		vc.Ensure("no operation with an error", vc.Implies(err != nil, op == nil))
	}
}

//vc:func (*PathItem).SetOperation
//vc:props C05
//vc:inline
func contractPathItemSetOperation(p *PathItem, method string, op *Operation) func(error) {
	m := strings.ToLower(method)
	before := *p
	vc.Requires("method is ASCII", vc.Rel("ascii", method))
	vc.Modifies(p)
	return func(err error) {
		vc.Ensure("exactly the eight methods are accepted", vc.Iff(err == nil, vcIsMethod(m)))
		vc.Ensure("exactly the operation of the method is replaced", vc.Implies(err == nil, vc.Eq(*p, vcWithOp(before, m, op))))
		vc.Ensure("no change with an error", vc.Implies(err != nil, vc.Eq(*p, before)))
	}
}

func vcPathsKept(s *Spec, paths *Paths) bool {
	return vc.Eq(s.Paths, paths) || paths == nil && s.Paths != nil && vc.Fresh(s.Paths)
}

func vcItems(s *Spec) map[string]PathItem {
	if s.Paths == nil {
		return nil
	}
	return s.Paths.MapOfPathItemValues
}

func vcPathsFrame(s *Spec) {
	vc.Modifies(&s.Paths)
	if s.Paths != nil {
		vc.Modifies(&s.Paths.MapOfPathItemValues, s.Paths.MapOfPathItemValues)
	}
}

// The setup callbacks are arbitrary code that may change the operation it is given a pointer to.
//
//vc:func (*Spec).SetupOperation
//vc:props C02 C03
//vc:inline
func contractSetupOperation(s *Spec, method, path string, setup []func(*Operation) error) func(error) {
	m := strings.ToLower(method)
	vc.SplitOn(m, "get", "put", "post", "delete", "options", "head", "patch", "trace")
	cp := vc.RelStr("cleanPath", path)
	paths := s.Paths
	items := vcItems(s)
	before := vc.Snap(items)
	item := before[cp]
	old := vcOpOf(item, m)
	vcPathsFrame(s)
	if old != nil {
		vc.Modifies(old)
	}
	vcLoopPathParams(path)

	return func(err error) {
		now := vcItems(s)
		entry, has := now[cp]
		op := vcOpOf(entry, m)
		vc.Ensure("C02.paths object is kept", vcPathsKept(s, paths))
		vc.Ensure("C02.entry is stored", vc.Implies(err == nil, vcIsMethod(m) && has && op != nil))
		vc.Ensure("C02.existing operation object is kept", vc.Implies(err == nil && old != nil, vc.Eq(op, old)))
		vc.Ensure("C03.stored operation agrees with the path", vc.Implies(err == nil && vcValidLocations(op.Parameters),
			vcParamsAgree(op.Parameters, path)))
		vc.Ensure("C02.on error the registered paths and operations are the same", vc.Implies(err != nil, vc.SameMap(now, before)))
		vc.Ensure("C02.other paths keep their items", vc.Forall(func(p string) bool {
			a, okA := now[p]
			b, okB := before[p]
			return vc.Implies(p != cp, okA == okB && vc.Implies(okA, vc.Eq(a, b)))
		}))
		vc.Ensure("C02.only the operation of the method is set", vc.Implies(err == nil, vc.Eq(entry, vcWithOp(item, m, op))))
	}
}

//vc:func (*Spec).AddOperation
//vc:props C02 C03 C04
func contractAddOperation(s *Spec, method, path string, operation Operation) func(error) {
	m := strings.ToLower(method)
	vc.SplitOn(m, "get", "put", "post", "delete", "options", "head", "patch", "trace")
	cp := vc.RelStr("cleanPath", path)
	paths := s.Paths
	items := vcItems(s)
	before := vc.Snap(items)
	item := before[cp]
	exists := vcOpOf(item, m) != nil
	given := operation
	var resps map[string]ResponseOrReference
	var oldResp Responses
	if operation.Responses != nil {
		oldResp = *operation.Responses
		resps = oldResp.MapOfResponseOrReferenceValues
		vc.Modifies(&operation.Responses.MapOfResponseOrReferenceValues, resps)
	}
	respsBefore := vc.Snap(resps)
	noResp := len(resps) == 0 && oldResp.Default == nil
	valid := vcValidLocations(operation.Parameters)
	vcPathsFrame(s)
	vcLoopPathParams(path)

	return func(err error) {
		now := vcItems(s)
		entry, has := now[cp]
		op := vcOpOf(entry, m)
		vc.Ensure("C02.paths object is kept", vcPathsKept(s, paths))
		vc.Ensure("C02+C03.succeeds exactly when method is known, entry is free and parameters agree",
			vc.Implies(valid, vc.Iff(err == nil, vcIsMethod(m) && !exists && vcParamsAgree(operation.Parameters, path))))
		vc.Ensure("C02.fails if the entry is taken", vc.Implies(err == nil, vcIsMethod(m) && !exists))
		vc.Ensure("C02.entry is stored as a new object", vc.Implies(err == nil, has && op != nil && vc.Fresh(op)))
		vc.Ensure("C02.on error nothing changes", vc.Implies(err != nil, vc.SameMap(now, before)))
		vc.Ensure("C02.other paths keep their items", vc.Forall(func(p string) bool {
			a, okA := now[p]
			b, okB := before[p]
			return vc.Implies(p != cp, okA == okB && vc.Implies(okA, vc.Eq(a, b)))
		}))
		vc.Ensure("C02.only the operation of the method is set", vc.Implies(err == nil, vc.Eq(entry, vcWithOp(item, m, op))))
		if err == nil {
			o1, o2 := *op, given
			o1.Responses, o2.Responses = nil, nil
			vc.Ensure("C02+C04.operation is stored as given", vc.Eq(o1, o2))
			vcRespOK(op, given.Responses, oldResp, resps, respsBefore, noResp)
		}
	}
}

func vcRespOK(op *Operation, givenResp *Responses, oldResp Responses, resps, respsBefore map[string]ResponseOrReference, noResp bool) {
	vc.Ensure("C04.there is a responses object", op.Responses != nil)
	r1, r2 := *op.Responses, oldResp
	r := r1.MapOfResponseOrReferenceValues
	vc.Ensure("C04.given responses are stored as given", vc.Implies(!noResp,
		vc.Eq(op.Responses, givenResp) && vc.Eq(r1, r2) && vc.SameMap(resps, respsBefore)))
	r1.MapOfResponseOrReferenceValues, r2.MapOfResponseOrReferenceValues = nil, nil
	vc.Ensure("C04.nothing but the status entry is added", vc.Eq(r1, r2))
	vc.Ensure("C04.default response is 204 No Content", vc.Implies(noResp,
		vc.Forall(func(k string) bool {
			_, ok := r[k]
			return vc.Iff(ok, k == "204")
		}) && r["204"].Reference == nil && r["204"].Response != nil &&
			vc.Eq(*r["204"].Response, Response{Description: "No Content"})))
}

//vc:func (*Spec).AddWebhook
//vc:props C02 C04
func contractAddWebhook(s *Spec, method, name string, operation Operation) func(error) {
	m := strings.ToLower(method)
	vc.SplitOn(m, "get", "put", "post", "delete", "options", "head", "patch", "trace")
	hooks := s.Webhooks
	before := vc.Snap(hooks)
	_, exists := before[name]
	given := operation
	var resps map[string]ResponseOrReference
	var oldResp Responses
	if operation.Responses != nil {
		oldResp = *operation.Responses
		resps = oldResp.MapOfResponseOrReferenceValues
		vc.Modifies(&operation.Responses.MapOfResponseOrReferenceValues, resps)
	}
	respsBefore := vc.Snap(resps)
	noResp := len(resps) == 0 && oldResp.Default == nil
	vc.Modifies(&s.Webhooks, hooks)

	return func(err error) {
		now := s.Webhooks
		entry, has := now[name]
		vc.Ensure("C02.succeeds exactly when method is known and name is free", vc.Iff(err == nil, vcIsMethod(m) && !exists))
		vc.Ensure("C02.on error nothing changes", vc.Implies(err != nil, vc.Eq(now, hooks) && vc.SameMap(now, before)))
		vc.Ensure("C02.other webhooks are kept", vc.Forall(func(p string) bool {
			a, okA := now[p]
			b, okB := before[p]
			return vc.Implies(p != name, okA == okB && vc.Implies(okA, vc.Eq(a, b)))
		}))
		if err == nil {
			vc.Ensure("C02.webhook is stored inline", has && entry.Reference == nil && entry.PathItem != nil && vc.Fresh(entry.PathItem))
			op := vcOpOf(*entry.PathItem, m)
			vc.Ensure("C02.exactly the operation of the method is set", op != nil && vc.Fresh(op) &&
				vc.Eq(*entry.PathItem, vcWithOp(PathItem{}, m, op)))
			o1, o2 := *op, given
			o1.Responses, o2.Responses = nil, nil
			vc.Ensure("C02+C04.operation is stored as given", vc.Eq(o1, o2))
			vcRespOK(op, given.Responses, oldResp, resps, respsBefore, noResp)
		}
	}
}

// ---- document info ----

//vc:func (*Spec).Title
//vc:props C18
func contractTitle(s *Spec) func(string) {
	return func(r string) { vc.Ensure("title is read back", r == s.Info.Title) }
}

//vc:func (*Spec).SetTitle
//vc:props C18
func contractSetTitle(s *Spec, t string) func() {
	vc.Modifies(&s.Info.Title)
	return func() { vc.Ensure("title is stored", s.Info.Title == t) }
}

//vc:func (*Spec).Version
//vc:props C18
func contractVersion(s *Spec) func(string) {
	return func(r string) { vc.Ensure("version is read back", r == s.Info.Version) }
}

//vc:func (*Spec).SetVersion
//vc:props C18
func contractSetVersion(s *Spec, v string) func() {
	vc.Modifies(&s.Info.Version)
	return func() { vc.Ensure("version is stored", s.Info.Version == v) }
}

//vc:func (*Spec).Description
//vc:props C18
func contractDescription(s *Spec) func(string) {
	return func(r string) {
		if s.Info.Description == nil {
			vc.Ensure("absent description is empty", r == "")
		} else {
			vc.Ensure("description is read back", r == *s.Info.Description)
		}
	}
}

//vc:func (*Spec).SetDescription
//vc:props C18
func contractSetDescription(s *Spec, d string) func() {
	vc.Modifies(&s.Info.Description)
	return func() {
		vc.Ensure("description is stored", s.Info.Description != nil && *s.Info.Description == d)
		vc.Ensure("description is a new object", vc.Fresh(s.Info.Description))
	}
}

// ---- security schemes ----

type vcSec struct {
	comps *Components
	old   Components
	vals  map[string]SecuritySchemeOrReference
	snap  map[string]SecuritySchemeOrReference
}

func vcSecBefore(s *Spec) vcSec {
	var r vcSec
	r.comps = s.Components
	vc.Modifies(&s.Components)
	if s.Components != nil {
		r.old = *s.Components
		r.vals = s.Components.SecuritySchemes
		vc.Modifies(&s.Components.SecuritySchemes, r.vals)
	}
	r.snap = vc.Snap(r.vals)

	return r
}

func vcSecAfter(s *Spec, b vcSec, name string) SecurityScheme {
	vc.Ensure("components are kept or new", s.Components != nil && (vc.Eq(s.Components, b.comps) || b.comps == nil && vc.Fresh(s.Components)))
	x, y := *s.Components, b.old
	x.SecuritySchemes, y.SecuritySchemes = nil, nil
	vc.Ensure("other component kinds are unchanged", vc.Eq(x, y))
	now := s.Components.SecuritySchemes
	vc.Ensure("other security schemes are unchanged", vc.Forall(func(n string) bool {
		p, okP := now[n]
		q, okQ := b.snap[n]
		return vc.Implies(n != name, okP == okQ && vc.Implies(okP, vc.Eq(p, q)))
	}))
	v, ok := now[name]
	vc.Ensure("scheme is stored inline under the name", ok && v.Reference == nil && v.SecurityScheme != nil)

	return *v.SecurityScheme
}

func vcStrIs(p *string, v string) bool { return p != nil && *p == v }

//vc:func (*Spec).SetHTTPBasicSecurity
//vc:props C18
func contractSetHTTPBasicSecurity(s *Spec, securityName string, description string) func() {
	b := vcSecBefore(s)
	return func() {
		ss := vcSecAfter(s, b, securityName)
		h := ss.HTTP
		vc.Ensure("only an HTTP scheme with the description is set", vc.Eq(ss, SecurityScheme{HTTP: h, Description: ss.Description}) && h != nil && vcStrIs(ss.Description, description))
		vc.Ensure("basic scheme", vc.Eq(*h, SecuritySchemeHTTP{Scheme: "basic"}))
	}
}

//vc:func (*Spec).SetAPIKeySecurity
//vc:props C18
func contractSetAPIKeySecurity(s *Spec, securityName string, fieldName string, fieldIn openapi.In, description string) func() {
	b := vcSecBefore(s)
	return func() {
		ss := vcSecAfter(s, b, securityName)
		h := ss.APIKey
		vc.Ensure("only an API key scheme with the description is set", vc.Eq(ss, SecurityScheme{APIKey: h, Description: ss.Description}) && h != nil && vcStrIs(ss.Description, description))
		vc.Ensure("name and location", vc.Eq(*h, SecuritySchemeAPIKey{Name: fieldName, In: SecuritySchemeAPIKeyIn(fieldIn)}))
	}
}

//vc:func (*Spec).SetHTTPBearerTokenSecurity
//vc:props C18
func contractSetHTTPBearerTokenSecurity(s *Spec, securityName string, format string, description string) func() {
	b := vcSecBefore(s)
	return func() {
		ss := vcSecAfter(s, b, securityName)
		h := ss.HTTPBearer
		vc.Ensure("only a bearer scheme with the description is set", vc.Eq(ss, SecurityScheme{HTTPBearer: h, Description: ss.Description}) && h != nil && vcStrIs(ss.Description, description))
		vc.Ensure("bearer scheme", vc.Eq(*h, SecuritySchemeHTTPBearer{Scheme: "bearer", BearerFormat: h.BearerFormat}))
		vc.Ensure("bearer format, absent when empty", vc.Implies(format == "", h.BearerFormat == nil) && vc.Implies(format != "", vcStrIs(h.BearerFormat, format)))
	}
}

// ---- references ----

//vc:func (*ResponseOrReference).SetReference
//vc:props C19
func contractResponseSetReference(r *ResponseOrReference, ref string) func() {
	vc.Modifies(r)
	if r.Reference != nil {
		vc.Modifies(&r.Reference.Ref)
	}
	return func() {
		vc.Ensure("reference is set", r.Reference != nil && r.Reference.Ref == ref)
		vc.Ensure("inline content is discarded", r.Response == nil)
	}
}

//vc:func (*RequestBodyOrReference).SetReference
//vc:props C19
func contractRequestBodySetReference(r *RequestBodyOrReference, ref string) func() {
	vc.Modifies(r)
	if r.Reference != nil {
		vc.Modifies(&r.Reference.Ref)
	}
	return func() {
		vc.Ensure("reference is set", r.Reference != nil && r.Reference.Ref == ref)
		vc.Ensure("inline content is discarded", r.RequestBody == nil)
	}
}

// ---- unknown parameters ----

//vc:func (Operation).UnknownParamIsForbidden
//vc:props C17
func contractUnknownParamIsForbidden(o Operation, in ParameterIn) func(bool) {
	return func(r bool) {
		v, ok := o.MapOfAnything["x-forbid-unknown-"+string(in)]
		vc.Ensure("reports the mark of the location", vc.Iff(r, ok && vc.TypeIs[bool](v) && vc.Dyn[bool](v)))
	}
}
