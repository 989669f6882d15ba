package openapi_test

import (
	"encoding/json"
	"errors"
	"fmt"
	"net/http"
	"reflect"
	"strings"
	"testing"

	"github.com/swaggest/jsonschema-go"
	openapi "github.com/swaggest/openapi-go"
	"github.com/swaggest/openapi-go/internal/zzh"
	"github.com/swaggest/openapi-go/openapi3"
)

func zzConv16V30(rf *openapi3.Reflector, s *openapi3.SchemaOrRef) jsonschema.SchemaOrBool { //@30
	return s.ToJSONSchema(rf.Spec) //@30
} //@30

func zzConv16V30(rf *openapi3.Reflector, s map[string]interface{}) jsonschema.SchemaOrBool { //@31
	return openapi3.ToJSONSchema(s, rf.Spec) //@31
} //@31

// zzWantReq16V30 lists the calls a request operation asks for.
func zzWantReq16V30(rf *openapi3.Reflector, op *openapi3.Operation) (w []string) {
	for _, p := range op.Parameters {
		pp := p.Parameter
		req := pp.Required != nil && *pp.Required
		sc := pp.Schema
		if sc == nil {
			if c, ok := pp.Content["application/json"]; ok {
				sc = c.Schema
			}
		}
		if sc == nil {
			w = append(w, zzCall16(openapi.In(pp.In), pp.Name, nil, req, false))

			continue
		}
		s := zzConv16V30(rf, sc)
		w = append(w, zzCall16(openapi.In(pp.In), pp.Name, &s, req, false))
	}
	if op.RequestBody == nil || op.RequestBody.RequestBody == nil {
		return w
	}
	for ct, c := range op.RequestBody.RequestBody.Content {
		if c.Schema == nil {
			continue
		}
		switch ct {
		case "application/json":
			s := zzConv16V30(rf, c.Schema)
			w = append(w, zzCall16(openapi.InBody, "body", &s, false, false))
		case "application/x-www-form-urlencoded":
			s := zzConv16V30(rf, c.Schema)
			obj := zzForm16(s)
			for n, p := range obj.Properties {
				req := false
				for _, x := range obj.Required {
					req = req || x == n
				}
				p := p
				w = append(w, zzCall16(openapi.InFormData, n, &p, req, true))
			}
		}
	}

	return w
}

// zzWantResp16V30 lists the calls a response operation asks for.
func zzWantResp16V30(rf *openapi3.Reflector, op *openapi3.Operation) (w []string) {
	m, d := zzRespsV30(op)
	var resp *openapi3.Response
	for _, v := range m {
		resp = v.Response
	}
	if d != nil {
		resp = d.Response
	}
	if resp == nil {
		return nil
	}
	for n, h := range resp.Headers {
		if h.Header == nil || h.Header.Schema == nil {
			continue
		}
		s := zzConv16V30(rf, h.Header.Schema)
		w = append(w, zzCall16(openapi.InHeader, http.CanonicalHeaderKey(n), &s, h.Header.Required != nil && *h.Header.Required, false))
	}
	for _, c := range resp.Content {
		if c.Schema == nil {
			continue
		}
		s := zzConv16V30(rf, c.Schema)
		w = append(w, zzCall16(openapi.InBody, "body", &s, false, false))
	}

	return w
}

func zzOther16V30(r *zzh.R, rf *openapi3.Reflector) {
	pc, err := rf.NewOperationContext("get", "/other")
	if err == nil {
		pc.AddRespStructure(ZzA15{})
		pc.AddReqStructure(ZzQ15{})
		err = rf.AddOperation(pc)
	}
	if err != nil {
		r.Fail("error", "%v", err)
	}
}

func zzRef16V30(c openapi.ContentOrReference) { c.SetReference("#/components/things/a") }

func TestVerifC16V30(t *testing.T) {
	zzh.Run(t, "C16", "random structure types with fields of all locations, fixed recursive/generic ones, response structures with statuses and default flag, content types, callbacks failing or panicking at a random call, with and without completion function; distinct = distinct case", func(r *zzh.R) {
		for round := 0; round < r.N(4000, 60000) && !r.Late(); round++ {
			method := r.Pick("get", "HEAD", "delete", "POST", "put", "patch", "OPTIONS")
			response := r.Intn(2) == 0
			unit := openapi.ContentUnit{ContentType: r.Pick("", "", "", "", "application/json", "application/x-www-form-urlencoded", "multipart/form-data", "text/plain", "image/png;q=1")}
			desc := method
			path := "/x"
			switch k := r.Intn(4); {
			case response && k > 0:
				unit.Structure = zzStructs14[r.Intn(len(zzStructs14))].v
				if _, ok := unit.Structure.(zzRefH14); ok { // refers to a component that is not there
					continue
				}
			case response:
				unit.Structure = zzResps15[r.Intn(len(zzResps15))]
			case k == 0:
				unit.Structure = append(append(append([]interface{}{}, zzParams15...), zzBodies15...), zzForms16...)[r.Intn(len(zzParams15)+len(zzBodies15)+len(zzForms16))]
			case k == 1:
				unit.Structure = zzStructs13[r.Intn(len(zzStructs13))].v
			default:
				fs := zzFields(r, 1, []string{"form", "formData", "json", "query", "header", "cookie", "path"}, true)
				zzClean16(fs)
				zzClean13(fs)
				for _, f := range zzTagged(fs, nil, "path") {
					if !strings.Contains(path+"/", "/{"+f.name+"}/") {
						path += "/{" + f.name + "}"
					}
				}
				unit.Structure = reflect.New(zzTypeOf(fs)).Interface()
				desc += fmt.Sprintf(" %v", fs)
			}
			if response {
				unit.HTTPStatus = zzStatus14[r.Intn(len(zzStatus14))]
				unit.IsDefault = r.Intn(5) == 0
				method = "GET"
			}
			if r.Intn(15) == 0 {
				unit.Structure = zzBad16[r.Intn(len(zzBad16))]
			}
			if r.Intn(12) == 0 {
				unit.Customize = zzRef16V30
				desc += " reference"
			}
			desc += fmt.Sprintf(" response=%v %T status=%d default=%v ct=%q", response, unit.Structure, unit.HTTPStatus, unit.IsDefault, unit.ContentType)
			failAt := -1
			if r.Intn(3) == 0 {
				failAt = 1 + r.Intn(4)
			}
			panics := failAt > 0 && r.Intn(4) == 0
			withDone := r.Intn(5) > 0
			desc += fmt.Sprintf(" failAt=%d panics=%v done=%v", failAt, panics, withDone)
			r.Case("%s", desc)
			r.Try("panic", func() {
				twin := openapi3.NewReflector()
				zzOther16V30(r, twin)
				oc, err := twin.NewOperationContext(method, path)
				if err != nil {
					r.Fail("context", "%v", err)

					return
				}
				if response {
					oc.AddRespStructure(nil, func(cu *openapi.ContentUnit) { *cu = unit })
				} else {
					oc.AddReqStructure(nil, func(cu *openapi.ContentUnit) { *cu = unit })
				}
				if err := twin.AddOperation(oc); err != nil { // not a valid unit
					rf := openapi3.NewReflector()
					zzOther16V30(r, rf)
					paths, _ := json.Marshal(rf.Spec.Paths)
					dones := 0
					done := func(openapi.OperationContext) { dones++ }
					cb := func(openapi.In, string, *jsonschema.SchemaOrBool, bool) error { return nil }
					if response {
						_ = rf.WalkResponseJSONSchemas(unit, cb, done)
					} else {
						_ = rf.WalkRequestJSONSchemas(method, unit, cb, done)
					}
					r.Check(dones == 1, "completion", "called %d times for an invalid unit", dones)
					if p, _ := json.Marshal(rf.Spec.Paths); string(p) != string(paths) {
						r.Fail("operations", "changed to %s", p)
					}

					return
				}
				twinOp := oc.(openapi3.OperationExposer).Operation()
				var want []string
				if response {
					want = zzWantResp16V30(twin, twinOp)
				} else {
					want = zzWantReq16V30(twin, twinOp)
				}
				rf := openapi3.NewReflector()
				zzOther16V30(r, rf)
				paths, _ := json.Marshal(rf.Spec.Paths)
				var got []string
				dones := 0
				cbErr := errors.New("stop")
				cb := func(in openapi.In, name string, s *jsonschema.SchemaOrBool, required bool) error {
					got = append(got, zzCall16(in, name, s, required, in == openapi.InFormData))
					if s != nil {
						zzDangling16(r, s)
					}
					if len(got) == failAt {
						if panics {
							panic("callback")
						}

						return cbErr
					}

					return nil
				}
				var done func(oc openapi.OperationContext)
				if withDone {
					done = func(oc openapi.OperationContext) {
						dones++
						if oc == nil {
							r.Fail("completion", "no operation context")
						}
					}
				}
				var walkErr error
				panicked := func() (p bool) {
					defer func() {
						if x := recover(); x != nil {
							if x != "callback" {
								panic(x)
							}
							p = true
						}
					}()
					if response {
						walkErr = rf.WalkResponseJSONSchemas(unit, cb, done)
					} else {
						walkErr = rf.WalkRequestJSONSchemas(method, unit, cb, done)
					}

					return false
				}()
				if withDone {
					r.Check(dones == 1, "completion", "called %d times", dones)
				}
				if p, _ := json.Marshal(rf.Spec.Paths); string(p) != string(paths) {
					r.Fail("operations", "changed to %s", p)
				}
				left := map[string]int{}
				for _, w := range want {
					left[w]++
				}
				for _, g := range got {
					left[g]--
					if left[g] < 0 {
						r.Fail("invented", "unexpected call %s; expected %v", zzh.Trunc(g, 250), zzFirst16(want, g))

						return
					}
				}
				switch {
				case failAt > 0 && failAt <= len(want):
					r.Check(len(got) == failAt, "stop", "%d calls, the callback failed at %d", len(got), failAt)
					if panics {
						r.Check(panicked, "stop", "panic of the callback was swallowed")
					} else {
						r.Check(errors.Is(walkErr, cbErr), "stop", "error %v does not wrap the callback's", walkErr)
					}
				default:
					r.Check(walkErr == nil, "error", "%v", walkErr)
					r.Check(len(got) == len(want), "missing", "calls %v, expected %v", got, want)
				}
			})
		}
	})
}
