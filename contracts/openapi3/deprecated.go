package openapi3

import (
	"github.com/swaggest/openapi-go"
	"github.com/swaggest/openapi-go/internal/vc"
)

// lemmaOpCtx converts the deprecated context form to the current one and back.
func lemmaOpCtx(c OperationContext) OperationContext { return fromOpCtx(toOpCtx(c)) }

func vcSameMapping(now, was map[string]string) bool {
	return vc.If(len(was) == 0, len(now) == 0, vc.Eq(now, was))
}

//vc:func lemmaOpCtx
//vc:props C17
func contractLemmaOpCtx(c OperationContext) func(OperationContext) {
	_, in := c.Input.(openapi.ContentUnitPreparer)
	_, out := c.Output.(openapi.ContentUnitPreparer)
	vc.Requires("structures are plain values", !in && !out)

	return func(r OperationContext) {
		vc.Ensure("C17.operation survives", r.Operation == c.Operation)
		vc.Ensure("C17.method survives", r.HTTPMethod == c.HTTPMethod)
		vc.Ensure("C17.structures survive", vc.Eq(r.Input, c.Input) && vc.Eq(r.Output, c.Output))
		vc.Ensure("C17.status and content type survive", r.HTTPStatus == c.HTTPStatus && r.RespContentType == c.RespContentType)
		vc.Ensure("C17.processing state survives", r.ProcessingIn == c.ProcessingIn && r.ProcessingResponse == c.ProcessingResponse)
		vc.Ensure("C17.header mapping survives", vcSameMapping(r.ReqHeaderMapping, c.ReqHeaderMapping))
		vc.Ensure("C17.query mapping survives", vcSameMapping(r.ReqQueryMapping, c.ReqQueryMapping))
		vc.Ensure("C17.cookie mapping survives", vcSameMapping(r.ReqCookieMapping, c.ReqCookieMapping))
		vc.Ensure("C17.path mapping survives", vcSameMapping(r.ReqPathMapping, c.ReqPathMapping))
		vc.Ensure("C17.form mapping survives", vcSameMapping(r.ReqFormDataMapping, c.ReqFormDataMapping))
		vc.Ensure("C17.response header mapping survives", vcSameMapping(r.RespHeaderMapping, c.RespHeaderMapping))
	}
}
