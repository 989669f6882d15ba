package openapi_test

import (
	"context"
	"fmt"
	"reflect"
	"strings"
	"testing"

	"github.com/swaggest/jsonschema-go"
	openapi "github.com/swaggest/openapi-go"
	"github.com/swaggest/openapi-go/internal/zzh"
	"github.com/swaggest/openapi-go/openapi3"
)

func zzLower17(s string) string { return strings.ToLower(s) }

func zzBackground17() context.Context { return context.Background() }

// zzWant17 is a unit that is to be stored.
type zzWant17 struct {
	openapi.ContentUnit
	mapping map[openapi.In]map[string]string
}

func (w zzWant17) diff(u openapi.ContentUnit) string {
	a, b := w.ContentUnit, u
	if !reflect.DeepEqual(a.Structure, b.Structure) {
		return fmt.Sprintf("structure is %v, want %v", b.Structure, a.Structure)
	}
	if a.ContentType != b.ContentType || a.Format != b.Format || a.HTTPStatus != b.HTTPStatus || a.IsDefault != b.IsDefault || a.Description != b.Description {
		return fmt.Sprintf("unit is %+v, want %+v", b, a)
	}
	for _, in := range []openapi.In{"path", "query", "header", "cookie", "formData", "body"} {
		if got, want := u.FieldMapping(in), w.mapping[in]; len(got)+len(want) > 0 && !reflect.DeepEqual(got, want) {
			return fmt.Sprintf("mapping of %s is %v, want %v", in, got, want)
		}
	}
	return ""
}

// zzUnit17 makes a structure with options and the unit that is to be stored.
func zzUnit17(r *zzh.R, str func() string) (unit zzWant17, s interface{}, opts []openapi.ContentOption, desc string) {
	s = zzIn17{ID: r.Intn(5)}
	unit.Structure = s
	unit.mapping = map[openapi.In]map[string]string{}
	switch r.Intn(4) {
	case 0:
		s, unit.Structure = nil, nil
	case 1:
		ct := str()
		s = zzPrep17{CT: ct}
		unit.ContentUnit = openapi.ContentUnit{Structure: map[string]int{ct: 1}, ContentType: ct, HTTPStatus: 299}
	case 2:
		p := &zzOut17{X: str()}
		s, unit.Structure = p, p
	}
	desc = fmt.Sprintf("%T", s)
	for i := r.Intn(6); i > 0; i-- {
		v := str()
		switch r.Intn(6) {
		case 0:
			unit.ContentType = v
			opts = append(opts, openapi.WithContentType(v))
			desc += " type=" + v
		case 1:
			n := r.Intn(600)
			unit.HTTPStatus = n
			opts = append(opts, openapi.WithHTTPStatus(n))
			desc += fmt.Sprint(" status=", n)
		case 2:
			was := unit.Description
			unit.Description = was + v
			opts = append(opts, func(cu *openapi.ContentUnit) { cu.Description += v })
			desc += " description+=" + v
		case 3:
			in := openapi.In(r.Pick("path", "query", "header", "cookie", "formData", "body"))
			m := map[string]string{}
			for j := r.Intn(3); j > 0; j-- {
				m[str()] = str()
			}
			if len(m) > 0 {
				unit.mapping[in] = m
			}
			opts = append(opts, func(cu *openapi.ContentUnit) { cu.SetFieldMapping(in, m) })
			desc += fmt.Sprint(" mapping ", in, m)
		case 4:
			opts = append(opts, func(cu *openapi.ContentUnit) { cu.IsDefault = !cu.IsDefault })
			unit.IsDefault = !unit.IsDefault
			desc += " default"
		default:
			opts = append(opts, func(cu *openapi.ContentUnit) { cu.Format = cu.ContentType + "+" + v })
			unit.Format = unit.ContentType + "+" + v
			desc += " format"
		}
	}
	return unit, s, opts, desc
}

// TestVerifC17Deprecated converts the deprecated form to the current one and back.
func TestVerifC17Deprecated(t *testing.T) {
	zzh.Run(t, "C17", "random deprecated operation contexts given to SetupRequest/SetupResponse and retrieved during reflection; distinct = distinct context", func(r *zzh.R) {
		for round := 0; round < r.N(1500, 20000) && !r.Late(); round++ {
			g := zzGen(r, 3, 25)
			mapping := func(fields ...string) map[string]string {
				if r.Intn(3) == 0 {
					return nil
				}
				m := map[string]string{}
				for _, f := range fields {
					if r.Intn(2) == 0 {
						m[f] = r.Pick("a", "b", "X-C", "long name") + f
					}
				}
				return m
			}
			op := &openapi3.Operation{}
			c := openapi3.OperationContext{
				Operation: op, Input: zzIn17{ID: round}, Output: zzOut17{X: g.Str()}, HTTPMethod: r.Pick("post", "PUT", "get", "DELETE"),
				ReqQueryMapping: mapping("Q", "Other"), ReqPathMapping: mapping("ID"), ReqCookieMapping: mapping("C"), ReqHeaderMapping: mapping("H"),
				ReqFormDataMapping: mapping("Other"), HTTPStatus: 200 + r.Intn(100), RespContentType: r.Pick("", "application/json", "text/plain"),
				RespHeaderMapping: mapping("XH"),
			}
			r.Case("%+v", c)
			seen := 0
			check := func(rc *jsonschema.ReflectContext, resp bool) {
				got, ok := openapi3.OperationCtx(rc)
				if _, cur := openapi.OperationCtx(rc); !cur && !ok { // probing without a context
					return
				}
				if !r.Check(ok, "deprecated form", "OperationCtx found nothing") {
					return
				}
				seen++
				want := c
				cur, _ := openapi.OperationCtx(rc)
				want.ProcessingIn, want.ProcessingResponse = string(cur.ProcessingIn()), cur.IsProcessingResponse()
				for _, p := range []*openapi3.OperationContext{&want, &got} {
					for _, m := range []*map[string]string{&p.ReqQueryMapping, &p.ReqPathMapping, &p.ReqCookieMapping, &p.ReqHeaderMapping, &p.ReqFormDataMapping, &p.RespHeaderMapping} {
						if len(*m) == 0 { // an empty mapping is no mapping
							*m = nil
						}
					}
				}
				r.Check(got.Operation == op, "deprecated form operation", "Operation is not the operation of the context")
				r.Check(want.ProcessingResponse == resp, "deprecated form state", "processing response is %v", want.ProcessingResponse)
				got.Operation, want.Operation = nil, nil
				d := zzh.Diff(got, want)
				r.Check(d == "", "deprecated form", "converted back: %s", d)
			}
			resp := false
			refl := openapi3.NewReflector()
			refl.DefaultOptions = append(refl.DefaultOptions, jsonschema.InterceptSchema(func(p jsonschema.InterceptSchemaParams) (bool, error) {
				if !p.Processed {
					check(p.Context, resp)
				}
				return false, nil
			}))
			r.Try("panic", func() {
				if err := refl.SetupRequest(c); err != nil {
					r.Fail("error", "SetupRequest: %v", err)
				}
				resp = true
				if err := refl.SetupResponse(c); err != nil {
					r.Fail("error", "SetupResponse: %v", err)
				}
				r.Check(seen > 0, "deprecated form", "no schema reflected")
			})
		}
	})
}
