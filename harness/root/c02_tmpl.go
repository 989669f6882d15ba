package openapi_test

import (
	"fmt"
	"net/http"
	"sort"
	"strings"
	"testing"

	openapi "github.com/swaggest/openapi-go"
	"github.com/swaggest/openapi-go/internal/zzh"
	"github.com/swaggest/openapi-go/openapi3"
)

// V30 plays registrations against a model of the document.

type zzParamV30 struct {
	name, in string
	ref      bool
}

func zzParamsV30(ps []zzParamV30) []openapi3.ParameterOrRef {
	var r []openapi3.ParameterOrRef
	for _, p := range ps {
		if p.ref {
			r = append(r, openapi3.ParameterOrRef{ParameterReference: &openapi3.ParameterReference{Ref: "#/components/parameters/" + p.name}})
			continue
		}
		q := openapi3.Parameter{Name: p.name, In: openapi3.ParameterIn(p.in)}
		if p.in == "path" {
			q.WithRequired(true)
		}
		r = append(r, openapi3.ParameterOrRef{Parameter: &q})
	}
	return r
}

// zzAgreeV30 is the acceptance rule of the parameters.
func zzAgreeV30(ps []zzParamV30, names []string) bool {
	seen := map[string]bool{}
	declared := map[string]bool{}
	want := map[string]bool{}
	for _, n := range names {
		want[n] = true
	}
	for _, p := range ps {
		if p.ref {
			continue
		}
		k := p.in + "\x00" + p.name
		if seen[k] {
			return false
		}
		seen[k] = true
		if p.in == "path" {
			if !want[p.name] {
				return false
			}
			declared[p.name] = true
		}
	}
	return len(declared) == len(want)
}

func zzResponsesV30(kind int) openapi3.Responses {
	var r openapi3.Responses
	resp := func(d string) openapi3.ResponseOrRef {
		return openapi3.ResponseOrRef{Response: &openapi3.Response{Description: d}}
	}
	switch kind {
	case zzRespOne:
		r.WithMapOfResponseOrRefValuesItem("200", resp("fine"))
	case zzRespTwo:
		r.WithMapOfResponseOrRefValuesItem("204", resp("custom no content"))
		r.WithMapOfResponseOrRefValuesItem("5XX", resp("bad"))
	case zzRespDefault:
		r.WithDefault(resp("default"))
	case zzRespRef:
		r.WithMapOfResponseOrRefValuesItem("201", openapi3.ResponseOrRef{ResponseReference: &openapi3.ResponseReference{Ref: "#/components/responses/x"}})
	case zzRespEmptyMap:
		r.MapOfResponseOrRefValues = map[string]openapi3.ResponseOrRef{}
	case zzRespDefaultRef:
		r.WithDefault(openapi3.ResponseOrRef{ResponseReference: &openapi3.ResponseReference{Ref: "#/components/responses/x"}})
	case zzRespEmptyEntry:
		r.WithMapOfResponseOrRefValuesItem("404", openapi3.ResponseOrRef{})
	case zzRespExtOnly:
		r.WithMapOfAnythingItem("x-r", "ext")
	}
	return r
}

func zzWantResponsesV30(kind int) openapi3.Responses {
	r := zzResponsesV30(kind)
	if kind == zzRespNone || kind == zzRespEmptyMap || kind == zzRespExtOnly {
		r.MapOfResponseOrRefValues = map[string]openapi3.ResponseOrRef{"204": {Response: &openapi3.Response{Description: "No Content"}}}
	}
	return r
}

func zzOperationV30(id string, ps []zzParamV30, kind int) openapi3.Operation {
	o := openapi3.Operation{Parameters: zzParamsV30(ps)}
	o.WithID(id).WithTags("t").WithMapOfAnythingItem("x-op", id)
	o.Responses = zzResponsesV30(kind) //@30
	if kind != zzRespNone {            //@31
		rs := zzResponsesV30(kind) //@31
		o.Responses = &rs          //@31
	} //@31
	return o
}

func zzWantOperationV30(id string, ps []zzParamV30, kind int) openapi3.Operation {
	o := zzOperationV30(id, ps, kind)
	rs := zzWantResponsesV30(kind)
	o.Responses = rs  //@30
	o.Responses = &rs //@31
	return o
}

func zzGetOpV30(pi openapi3.PathItem, m string) (*openapi3.Operation, bool) {
	if op, ok := pi.MapOfOperationValues[m]; ok { //@30
		return &op, true //@30
	} //@30
	for k, p := range zzSlotsV31(&pi) { //@31
		if k == m && *p != nil { //@31
			return *p, true //@31
		} //@31
	} //@31
	return nil, false
}

func zzSetOpV30(pi *openapi3.PathItem, m string, op openapi3.Operation) {
	if pi.MapOfOperationValues == nil { //@30
		pi.MapOfOperationValues = map[string]openapi3.Operation{} //@30
	} //@30
	pi.MapOfOperationValues[m] = op //@30
	*zzSlotsV31(pi)[m] = &op        //@31
}

func zzPathsV30(s *openapi3.Spec) *openapi3.Paths {
	return &s.Paths     //@30
	return s.PathsEns() //@31
}

func zzSlotsV31(p *openapi3.PathItem) map[string]**openapi3.Operation { //@31
	return map[string]**openapi3.Operation{"get": &p.Get, "put": &p.Put, "post": &p.Post, "delete": &p.Delete, "options": &p.Options, "head": &p.Head, "patch": &p.Patch, "trace": &p.Trace} //@31
} //@31

func zzStartSpecV30(r *zzh.R, paths []string) *openapi3.Spec {
	s := &openapi3.Spec{Openapi: "3.0.3"}
	s.SetTitle("t")
	for _, p := range paths {
		clean, names := zzTemplate(p)
		if r.Intn(3) > 0 {
			continue
		}
		pi := openapi3.PathItem{}
		pi.WithSummary("sum "+clean).WithMapOfAnythingItem("x-p", clean)
		pi.WithParameters(openapi3.ParameterOrRef{Parameter: &openapi3.Parameter{Name: "q", In: "query"}})
		for i := r.Intn(3); i > 0; i-- {
			var ps []zzParamV30
			have := map[string]bool{}
			for _, n := range names {
				if !have[n] {
					ps = append(ps, zzParamV30{name: n, in: "path"})
					have[n] = true
				}
			}
			zzSetOpV30(&pi, zzMethods[r.Intn(8)], zzOperationV30("old", ps, r.Intn(zzRespKinds)))
		}
		zzPathsV30(s).WithMapOfPathItemValuesItem(clean, pi)
	}
	if r.Intn(4) == 0 {
		zzPathsV30(s).WithMapOfAnythingItem("x-paths", 1)
	}
	if r.Intn(2) == 0 { //@31
		s.WithWebhooksItem("w0", openapi3.PathItemOrRef{Reference: &openapi3.Reference{Ref: "#/x"}}) //@31
	} //@31
	return s
}

func zzSpecDiffV30(got, want *openapi3.Spec) string {
	g, w := *got, *want
	if g.Paths == nil { //@31
		g.Paths = &openapi3.Paths{} //@31
	} //@31
	if w.Paths == nil { //@31
		w.Paths = &openapi3.Paths{} //@31
	} //@31
	return zzh.Diff(g, w)
}

func zzRegistrationV30(r *zzh.R, prop string) {
	paths := []string{"/a", "/a/{id}", "/a/{id:[0-9]+}", "/a/{x}/{y}", "/a/{x:\\d+}/{y:.+}", "/b/{id}/{id}", "", "/{id}", "/a/", "/{idpath}"}
	methods := append([]string{"connect", "", "gets", "x-y"}, zzMethods...)
	paramPool := []zzParamV30{
		{"id", "path", false}, {"id", "query", false}, {"id", "header", false}, {"x", "path", false}, {"y", "path", false}, {"id", "path", true},
		{"x", "query", false}, {"x", "cookie", false}, {"idpath", "path", false}, {"id", "cookie", false}, {"a", "query", false}, {"aquery", "header", false},
	}
	for round := 0; round < r.N(1500, 20000) && !r.Late(); round++ {
		s := zzStartSpecV30(r, paths)
		hist := "start " + zzh.JSON(s)
		for step := 0; step < 5; step++ {
			p := paths[r.Intn(len(paths))]
			m := zzMixCase(r, methods[r.Intn(len(methods))])
			if r.Intn(3) > 0 {
				m = zzMixCase(r, zzMethods[r.Intn(3)])
			}
			clean, names := zzTemplate(p)
			var ps []zzParamV30
			if r.Intn(4) > 0 {
				have := map[string]bool{}
				for _, n := range names {
					if !have[n] {
						ps = append(ps, zzParamV30{name: n, in: "path"})
						have[n] = true
					}
				}
			}
			for n := r.Intn(3); n > 0 && r.Intn(2) == 0; n-- {
				ps = append(ps, paramPool[r.Intn(len(paramPool))])
			}
			if r.Intn(6) == 0 && len(ps) > 0 {
				i := r.Intn(len(ps))
				ps = append(ps[:i:i], ps[i+1:]...)
			}
			r.Shuffle(len(ps), func(i, j int) { ps[i], ps[j] = ps[j], ps[i] })
			kind := r.Intn(zzRespKinds)
			id := fmt.Sprintf("op%d", step)
			op := zzOperationV30(id, ps, kind)
			given := zzh.Copy(op)

			before := zzh.Copy(s)
			lm, known := zzIsMethod(m)
			kindOf := r.Intn(4)
			switch {
			case kindOf == 0: // set up
				hist += fmt.Sprintf("; SetupOperation(%q,%q) params %+v", m, p, ps)
				r.Case("%s", hist)
				fail := r.Intn(4) == 0
				_, existed := zzGetOpV30(zzPathsV30(s).MapOfPathItemValues[clean], lm)
				err := s.SetupOperation(m, p, func(o *openapi3.Operation) error {
					if !existed {
						*o = given
						return nil
					}
					o.WithSummary("setup " + id)
					return nil
				}, func(o *openapi3.Operation) error {
					if fail {
						return fmt.Errorf("setup fails")
					}
					return nil
				})
				after := s
				want := zzh.Copy(before)
				accept := known && !fail && (existed || zzAgreeV30(ps, names))
				if prop == "C03" || prop == "C02" {
					r.Check((err == nil) == accept, "setup outcome", "SetupOperation error %v, want success %v", err, accept)
				}
				if prop != "C02" {
					s = want
					if err == nil {
						s = after
					}
					continue
				}
				if err == nil && known {
					pi := zzPathsV30(want).MapOfPathItemValues[clean]
					if existed {
						o, _ := zzGetOpV30(pi, lm)
						o2 := *o
						o2.WithSummary("setup " + id)
						zzSetOpV30(&pi, lm, o2)
					} else {
						zzSetOpV30(&pi, lm, given)
					}
					zzPathsV30(want).WithMapOfPathItemValuesItem(clean, pi)
				}
				if err != nil && existed { // setup functions changed the existing operation in place: not claimed
					if o, ok := zzGetOpV30(zzPathsV30(after).MapOfPathItemValues[clean], lm); ok {
						pi := zzPathsV30(want).MapOfPathItemValues[clean]
						zzSetOpV30(&pi, lm, *o)
						zzPathsV30(want).MapOfPathItemValues[clean] = pi
					}
				}
				d := zzSpecDiffV30(after, want)
				r.Check(d == "", "setup changes", "after SetupOperation (err %v): %s", err, d)
			case kindOf == 1 && prop != "C03": //@31
				name := r.Pick("w0", "w1", "w2")                                       //@31
				hist += fmt.Sprintf("; AddWebhook(%q,%q) responses %d", m, name, kind) //@31
				r.Case("%s", hist)                                                     //@31
				_, existed := s.Webhooks[name]                                         //@31
				err := s.AddWebhook(m, name, op)                                       //@31
				if prop == "C02" {                                                     //@31
					r.Check((err == nil) == (known && !existed), "webhook outcome", "AddWebhook error %v, known %v existed %v", err, known, existed) //@31
					want := zzh.Copy(before)                                                                                                         //@31
					if err == nil {                                                                                                                  //@31
						pi := openapi3.PathItem{}                                    //@31
						if o, ok := zzGetOpV30(*s.Webhooks[name].PathItem, lm); ok { //@31
							zzSetOpV30(&pi, lm, *o)                                                  //@31
							o2, g2 := *o, given                                                      //@31
							o2.Responses, g2.Responses = nil, nil                                    //@31
							d := zzh.Diff(o2, g2)                                                    //@31
							r.Check(d == "", "webhook operation", "stored webhook operation: %s", d) //@31
						} //@31
						want.WithWebhooksItem(name, openapi3.PathItemOrRef{PathItem: &pi}) //@31
					} //@31
					d := zzSpecDiffV30(s, want)                                                  //@31
					r.Check(d == "", "webhook changes", "after AddWebhook (err %v): %s", err, d) //@31
				} //@31
				if prop == "C04" && err == nil { //@31
					o, ok := zzGetOpV30(*s.Webhooks[name].PathItem, lm)                   //@31
					if r.Check(ok, "webhook stored", "webhook operation is not stored") { //@31
						d := zzh.Diff(*o, zzWantOperationV30(id, ps, kind))               //@31
						r.Check(d == "", "webhook responses", "webhook operation: %s", d) //@31
					} //@31
				} //@31
			default:
				hist += fmt.Sprintf("; AddOperation(%q,%q) params %+v responses %d", m, p, ps, kind)
				r.Case("%s", hist)
				_, existed := zzGetOpV30(zzPathsV30(before).MapOfPathItemValues[clean], lm)
				err := s.AddOperation(m, p, op)
				agree := zzAgreeV30(ps, names)
				accept := known && !existed && agree
				switch prop {
				case "C03":
					if known && !existed {
						r.Check((err == nil) == agree, "parameters accepted", "AddOperation error %v, parameters agree: %v", err, agree)
					}
				case "C02":
					r.Check((err == nil) == accept, "add outcome", "AddOperation error %v, known %v existed %v agree %v", err, known, existed, agree)
					want := zzh.Copy(before)
					if err == nil && known {
						o := zzWantOperationV30(id, ps, kind)
						if got, ok := zzGetOpV30(zzPathsV30(s).MapOfPathItemValues[clean], lm); ok {
							o.Responses = got.Responses // see C04
						}
						pi := zzPathsV30(want).MapOfPathItemValues[clean]
						zzSetOpV30(&pi, lm, o)
						zzPathsV30(want).WithMapOfPathItemValuesItem(clean, pi)
					}
					d := zzSpecDiffV30(s, want)
					r.Check(d == "", "add changes", "after AddOperation (err %v): %s", err, d)
				case "C04":
					if err == nil {
						o, ok := zzGetOpV30(zzPathsV30(s).MapOfPathItemValues[clean], lm)
						if r.Check(ok, "operation stored", "operation is not stored") {
							d := zzh.Diff(*o, zzWantOperationV30(id, ps, kind))
							r.Check(d == "", "responses", "stored operation: %s", d)
						}
					}
				}
			}
		}
	}
}

const zzRegRuleV30 = "random histories of 5 AddOperation/SetupOperation (3.1: AddWebhook) calls on a document with pre-existing path items; distinct = distinct history prefix"

func TestVerifC02V30(t *testing.T) {
	zzh.Run(t, "C02", zzRegRuleV30, func(r *zzh.R) {
		zzRegistrationV30(r, "C02")
		zzReflectorRegistrationV30(r)
	})
}

func TestVerifC03V30(t *testing.T) {
	zzh.Run(t, "C03", zzRegRuleV30, func(r *zzh.R) { zzRegistrationV30(r, "C03"); zzLocationsV30(r) })
}

func TestVerifC04V30(t *testing.T) {
	zzh.Run(t, "C04", zzRegRuleV30, func(r *zzh.R) { zzRegistrationV30(r, "C04"); zzManyV30(r) })
}

// zzLocationsV30 enumerates all parameter lists up to a length over a small pool.
func zzLocationsV30(r *zzh.R) {
	pool := []zzParamV30{{"a", "path", false}, {"b", "path", false}, {"a", "query", false}, {"a", "header", false}, {"a", "path", true}, {"pa", "header", false}, {"a", "cookie", false}}
	max := r.N(4, 5)
	for _, path := range []string{"/", "/{a}", "/{a:[0-9]+}", "/{a}/{b}", "/{a}/{a}", "/{b:x}/{a}", "/{}", "/{c}"} {
		_, names := zzTemplate(path)
		var rec func(ps []zzParamV30)
		rec = func(ps []zzParamV30) {
			r.Case("AddOperation(get, %q) params %+v", path, ps)
			s := &openapi3.Spec{}
			err := s.AddOperation("get", path, zzOperationV30("id", ps, zzRespOne))
			agree := zzAgreeV30(ps, names)
			r.Check((err == nil) == agree, "parameters accepted", "error %v, parameters agree: %v", err, agree)
			if len(ps) < max {
				for _, p := range pool {
					rec(append(ps[:len(ps):len(ps)], p))
				}
			}
		}
		rec(nil)
	}
}

// zzManyV30 adds operations one after another that were built from the same (shared) parts.
func zzManyV30(r *zzh.R) {
	for _, m := range zzMethods {
		for kind := 0; kind < zzRespKinds; kind++ {
			for _, def := range []bool{false, true} {
				r.Case("AddOperation(%s) responses kind %d, with default %v", m, kind, def)
				s := &openapi3.Spec{}
				op := zzOperationV30("id", nil, kind)
				want := zzWantOperationV30("id", nil, kind)
				if def && kind != zzRespNone {
					if kind == zzRespEmptyMap || kind == zzRespExtOnly {
						want = zzOperationV30("id", nil, kind)
					}
					d := openapi3.ResponseOrRef{Response: &openapi3.Response{Description: "dd"}}
					op.Responses.WithDefault(d)
					want.Responses.WithDefault(d)
				}
				err := s.AddOperation(m, "/p", op)
				if !r.Check(err == nil, "rejected", "error %v", err) {
					continue
				}
				o, ok := zzGetOpV30(zzPathsV30(s).MapOfPathItemValues["/p"], m)
				if r.Check(ok, "operation stored", "operation is not stored") {
					d := zzh.Diff(*o, want)
					r.Check(d == "", "responses", "stored operation: %s", d)
				}
			}
		}
	}
}

type zzReqIDV30 struct {
	ID string `path:"id"`
	Q  int    `query:"q"`
}

type zzReqNoneV30 struct {
	Q string `query:"q"`
}

// zzReflectorRegistrationV30 registers through the reflector.
func zzReflectorRegistrationV30(r *zzh.R) {
	type step struct {
		m, p string
		req  interface{}
	}
	for round := 0; round < r.N(300, 3000) && !r.Late(); round++ {
		rf := openapi3.NewReflector()
		s := rf.Spec
		have := map[string]bool{}
		hist := ""
		for i := 0; i < 5; i++ {
			st := step{m: zzMixCase(r, r.Pick("get", "post", "trace", "bogus")), p: r.Pick("/a", "/a/{id}", "/a/{id:[a-z]+}", "/b/{id}")}
			switch r.Intn(3) {
			case 0:
				st.req = zzReqIDV30{}
			case 1:
				st.req = zzReqNoneV30{}
			}
			clean, names := zzTemplate(st.p)
			lm, known := zzIsMethod(st.m)
			hist += fmt.Sprintf("; %s %s %T", st.m, st.p, st.req)
			r.Case("reflector%s", hist)
			before := zzh.Copy(s)
			oc, err := rf.NewOperationContext(st.m, st.p)
			if err == nil {
				oc.SetID(fmt.Sprint("id", i))
				if st.req != nil {
					oc.AddReqStructure(st.req)
				}
				oc.AddRespStructure(nil, openapi.WithHTTPStatus(http.StatusOK))
				err = rf.AddOperation(oc)
			}
			_, isID := st.req.(zzReqIDV30)
			agree := isID == (len(names) > 0)
			key := lm + " " + clean
			accept := known && !have[key] && agree
			r.Check((err == nil) == accept, "reflector outcome", "error %v, known %v existed %v agree %v", err, known, have[key], agree)
			if d := zzh.Diff(zzh.JSON(rf.Spec == s), "true"); d != "" {
				r.Fail("reflector spec", "spec object was replaced")
			}
			if err == nil {
				have[key] = true
				o, ok := zzGetOpV30(zzPathsV30(s).MapOfPathItemValues[clean], lm)
				if r.Check(ok, "reflector stored", "operation %s %s is not stored", lm, clean) {
					r.Check(o.ID != nil && *o.ID == fmt.Sprint("id", i), "reflector stored", "another operation is stored")
				}
			}
			var keys []string
			for p, pi := range zzPathsV30(s).MapOfPathItemValues {
				for _, m := range zzMethods {
					o, ok := zzGetOpV30(pi, m)
					if !ok {
						continue
					}
					keys = append(keys, m+" "+p)
					if old, ok := zzGetOpV30(zzPathsV30(before).MapOfPathItemValues[p], m); ok && m+" "+p != key {
						d := zzh.Diff(*o, *old)
						r.Check(d == "", "reflector other entries", "operation %s %s changed: %s", m, p, d)
					}
				}
			}
			sort.Strings(keys)
			var wantKeys []string
			for k := range have {
				wantKeys = append(wantKeys, k)
			}
			sort.Strings(wantKeys)
			r.Check(strings.Join(keys, ",") == strings.Join(wantKeys, ","), "reflector entries", "operations %v, want %v", keys, wantKeys)
		}
	}
}
