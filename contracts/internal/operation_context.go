package internal

import (
	"github.com/swaggest/openapi-go"
	"github.com/swaggest/openapi-go/internal/vc"
)

//vc:func NewOperationContext
//vc:props C17
func contractNewOperationContext(method, pathPattern string) func(*OperationContext) {
	return func(r *OperationContext) {
		vc.Ensure("C17.a new context", vc.Fresh(r) && r != nil)
		vc.Ensure("C17.method and pattern are stored, all else is empty", vc.Eq(*r, OperationContext{method: method, pathPattern: pathPattern}))
	}
}

//vc:func (*OperationContext).Method
//vc:props C17
func contractMethod(o *OperationContext) func(string) {
	return func(r string) { vc.Ensure("C17.reads the method", r == o.method) }
}

//vc:func (*OperationContext).PathPattern
//vc:props C17
func contractPathPattern(o *OperationContext) func(string) {
	return func(r string) { vc.Ensure("C17.reads the pattern", r == o.pathPattern) }
}

//vc:func (*OperationContext).Request
//vc:props C17
func contractRequest(o *OperationContext) func([]openapi.ContentUnit) {
	return func(r []openapi.ContentUnit) { vc.Ensure("C17.reads the request units", vc.Eq(r, o.req)) }
}

//vc:func (*OperationContext).Response
//vc:props C17
func contractResponse(o *OperationContext) func([]openapi.ContentUnit) {
	return func(r []openapi.ContentUnit) { vc.Ensure("C17.reads the response units", vc.Eq(r, o.resp)) }
}

//vc:func (*OperationContext).IsProcessingResponse
//vc:props C17
func contractIsProcessingResponse(o *OperationContext) func(bool) {
	return func(r bool) { vc.Ensure("C17.reads the flag", r == o.isProcessingResponse) }
}

//vc:func (*OperationContext).ProcessingIn
//vc:props C17
func contractProcessingIn(o *OperationContext) func(openapi.In) {
	return func(r openapi.In) { vc.Ensure("C17.reads the location", r == o.processingIn) }
}

//vc:func (*OperationContext).SetIsProcessingResponse
//vc:props C17
func contractSetIsProcessingResponse(o *OperationContext, is bool) func() {
	vc.Modifies(&o.isProcessingResponse)

	return func() { vc.Ensure("C17.flag is stored", o.isProcessingResponse == is) }
}

//vc:func (*OperationContext).SetProcessingIn
//vc:props C17
func contractSetProcessingIn(o *OperationContext, in openapi.In) func() {
	vc.Modifies(&o.processingIn)

	return func() { vc.Ensure("C17.location is stored", o.processingIn == in) }
}

//vc:func (*OperationContext).SetMethod
//vc:props C17
func contractSetMethod(o *OperationContext, method string) func() {
	vc.Modifies(&o.method)

	return func() { vc.Ensure("C17.method is stored", o.method == method) }
}

//vc:func (*OperationContext).SetPathPattern
//vc:props C17
func contractSetPathPattern(o *OperationContext, pattern string) func() {
	vc.Modifies(&o.pathPattern)

	return func() { vc.Ensure("C17.pattern is stored", o.pathPattern == pattern) }
}

// vcUnit is the unit before any option is applied.
func vcUnit(s interface{}) openapi.ContentUnit {
	_, prep := s.(openapi.ContentUnitPreparer)

	return vc.If(prep, vc.RelOf[openapi.ContentUnit]("apply", s, openapi.ContentUnit{}), openapi.ContentUnit{Structure: s})
}

// vcApplied is the unit after the first n options, applied one after another (defined by primitive recursion on n).
func vcApplied(s interface{}, options []openapi.ContentOption, n int) openapi.ContentUnit {
	return vc.RelOf[openapi.ContentUnit]("applied", s, options, n)
}

func vcDefineApplied(s interface{}, options []openapi.ContentOption) {
	vc.Assume(vc.Eq(vcApplied(s, options, 0), vcUnit(s)))
	vc.Assume(vc.Forall(func(n int) bool {
		return vc.Implies(0 <= n && n < len(options),
			vc.Eq(vcApplied(s, options, n+1), vc.RelOf[openapi.ContentUnit]("apply", options[n], vcApplied(s, options, n))))
	}))
}

func vcAppended(now, before []openapi.ContentUnit, s interface{}, options []openapi.ContentOption) bool {
	n := len(before)

	return len(now) == n+1 && vc.Eq(now[n], vcApplied(s, options, len(options))) && vc.Forall(func(i int) bool {
		return vc.Implies(0 <= i && i < n, vc.Eq(now[i], before[i]))
	})
}

//vc:func (*OperationContext).AddReqStructure
//vc:props C17
//vc:transformers
//vc:inline
func contractAddReqStructure(o *OperationContext, s interface{}, options []openapi.ContentOption) func() {
	vc.Modifies(&o.req)
	before := vc.SnapSlice(o.req)
	vcDefineApplied(s, options)
	vc.Loop("options", func(n vc.Done, c openapi.ContentUnit) {
		vc.Invariant("C17.options so far are applied in order", 0 <= int(n) && int(n) <= len(options) && vc.Eq(c, vcApplied(s, options, int(n))))
	})

	return func() {
		vc.Ensure("C17.exactly the unit is appended, options applied in order", vcAppended(o.req, before, s, options))
	}
}

//vc:func (*OperationContext).AddRespStructure
//vc:props C17
//vc:transformers
//vc:inline
func contractAddRespStructure(o *OperationContext, s interface{}, options []openapi.ContentOption) func() {
	vc.Modifies(&o.resp)
	before := vc.SnapSlice(o.resp)
	vcDefineApplied(s, options)
	vc.Loop("options", func(n vc.Done, c openapi.ContentUnit) {
		vc.Invariant("C17.options so far are applied in order", 0 <= int(n) && int(n) <= len(options) && vc.Eq(c, vcApplied(s, options, int(n))))
	})

	return func() {
		vc.Ensure("C17.exactly the unit is appended, options applied in order", vcAppended(o.resp, before, s, options))
	}
}

// VCProcessing gives the attributes that processing changes.
func VCProcessing(o *OperationContext) (*bool, *openapi.In) {
	return &o.isProcessingResponse, &o.processingIn
}

// VCUnits gives the units of an operation.
func VCUnits(o *OperationContext) (req, resp []openapi.ContentUnit) { return o.req, o.resp }

// VCMethod gives the method of an operation.
func VCMethod(o *OperationContext) string { return o.method }
