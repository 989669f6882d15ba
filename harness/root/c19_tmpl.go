package openapi_test

import (
	"net/http"
	"testing"

	openapi "github.com/swaggest/openapi-go"
	"github.com/swaggest/openapi-go/internal/zzh"
	"github.com/swaggest/openapi-go/openapi3"
)

type zzRefBodyV30 struct {
	A string `json:"a"`
	F string `formData:"f"`
	Q string `query:"q"`
}

func TestVerifC19V30(t *testing.T) {
	zzh.Run(t, "C19", "random request bodies and responses given a reference, and reflected units with references; distinct = distinct (content, reference)", func(r *zzh.R) {
		refs := []string{"#/components/responses/a", "", "other.json#/x", "#/components/requestBodies/ö", "a b", "old"}
		for i := 0; i < r.N(4000, 40000) && !r.Late(); i++ {
			g := zzGen(r, 3, 30)
			ref := refs[r.Intn(len(refs))]
			var b openapi3.RequestBodyOrRef
			var p openapi3.ResponseOrRef
			switch r.Intn(4) {
			case 0:
			case 1: // both set
				b.RequestBody = &openapi3.RequestBody{}
				b.RequestBodyReference = &openapi3.RequestBodyReference{Ref: "old"} //@30
				b.Reference = &openapi3.Reference{Ref: "old"}                       //@31
				p.Response = &openapi3.Response{}
				p.ResponseReference = &openapi3.ResponseReference{Ref: "old"} //@30
				p.Reference = &openapi3.Reference{Ref: "old"}                 //@31
			default:
				b = zzh.Of[openapi3.RequestBodyOrRef](g, 3)
				p = zzh.Of[openapi3.ResponseOrRef](g, 3)
			}
			r.Case("SetReference(%q) on %s and %s", ref, zzh.JSON(b), zzh.JSON(p))
			r.Try("panic", func() {
				b.SetReference(ref)
				p.SetReference(ref)
				r.Check(b.RequestBody == nil && p.Response == nil, "inline content", "inline content is kept: %s %s", zzh.JSON(b), zzh.JSON(p))
				br, pr := b.RequestBodyReference, p.ResponseReference //@30
				br, pr := b.Reference, p.Reference                    //@31
				if r.Check(br != nil && pr != nil, "reference", "no reference: %s %s", zzh.JSON(b), zzh.JSON(p)) {
					r.Check(br.Ref == ref && pr.Ref == ref, "reference", "references %q and %q", br.Ref, pr.Ref)
				}
			})
		}
		for i := 0; i < r.N(600, 5000) && !r.Late(); i++ {
			rf := openapi3.NewReflector()
			method := r.Pick(http.MethodPost, http.MethodPut, http.MethodPatch, http.MethodGet)
			reqRef, respRef := r.Pick("", "#/components/requestBodies/b"), r.Pick("", "#/components/responses/r", "r2")
			status := []int{0, 200, 201, 204, 404}[r.Intn(5)]
			var reqs, resp interface{}
			switch r.Intn(3) {
			case 0:
				reqs, resp = zzRefBodyV30{}, zzRefBodyV30{}
			case 1:
				reqs = new(zzRefBodyV30)
			}
			ct := r.Pick("", "text/csv")
			r.Case("unit with reference: %s request %T ref %q, response %d %T ref %q type %q", method, reqs, reqRef, status, resp, respRef, ct)
			r.Try("panic", func() {
				oc, err := rf.NewOperationContext(method, "/p")
				if err != nil {
					r.Fail("context", "%v", err)
					return
				}
				opt := func(ref string, custom func(cor openapi.ContentOrReference)) func(cu *openapi.ContentUnit) {
					return func(cu *openapi.ContentUnit) {
						if custom != nil {
							cu.Customize = custom
						}
						if ref != "" {
							openapi.WithReference(ref)(cu)
						}
					}
				}
				called := 0
				var custom func(cor openapi.ContentOrReference)
				if r.Intn(2) == 0 {
					custom = func(openapi.ContentOrReference) { called++ }
				}
				oc.AddReqStructure(reqs, opt(reqRef, custom), openapi.WithContentType(ct))
				oc.AddRespStructure(resp, openapi.WithHTTPStatus(status), opt(respRef, nil), openapi.WithContentType(ct))
				if err := rf.AddOperation(oc); err != nil {
					r.Fail("added", "AddOperation: %v", err)
					return
				}
				op, ok := zzGetOpV30(zzPathsV30(rf.Spec).MapOfPathItemValues["/p"], map[string]string{"POST": "post", "PUT": "put", "PATCH": "patch", "GET": "get"}[method])
				if !r.Check(ok, "added", "operation is missing") {
					return
				}
				if reqRef != "" && op.RequestBody != nil {
					br := op.RequestBody.RequestBodyReference //@30
					br := op.RequestBody.Reference            //@31
					r.Check(br != nil && br.Ref == reqRef && op.RequestBody.RequestBody == nil, "request reference", "request body %s", zzh.JSON(op.RequestBody))
				}
				if respRef != "" {
					key := map[int]string{0: "200", 200: "200", 201: "201", 204: "204", 404: "404"}[status]
					if resp == nil && status == 0 {
						key = ""
						for k := range op.Responses.MapOfResponseOrRefValues {
							key = k
						}
					}
					p, ok := op.Responses.MapOfResponseOrRefValues[key]
					if r.Check(ok, "response reference", "no response under %q: %s", key, zzh.JSON(op.Responses)) {
						pr := p.ResponseReference //@30
						pr := p.Reference         //@31
						r.Check(pr != nil && pr.Ref == respRef && p.Response == nil, "response reference", "response %s", zzh.JSON(p))
					}
				}
			})
		}
	})
}
