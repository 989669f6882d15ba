package openapi_test

import (
	"fmt"
	"net/http"
	"reflect"
	"strconv"
	"strings"
	"testing"

	openapi "github.com/swaggest/openapi-go"
	"github.com/swaggest/openapi-go/internal/zzh"
	"github.com/swaggest/openapi-go/openapi3"
)

func zzRespsV30(op *openapi3.Operation) (map[string]openapi3.ResponseOrRef, *openapi3.ResponseOrRef) {
	if op.Responses == nil { //@31
		return nil, nil //@31
	} //@31
	return op.Responses.MapOfResponseOrRefValues, op.Responses.Default
}

func TestVerifC14V30(t *testing.T) {
	zzh.Run(t, "C14", "random prior responses, 1-4 response units (12 structures, statuses, default flag, content types, descriptions), all methods; distinct = distinct (method, prior, units)", func(r *zzh.R) {
		for round := 0; round < r.N(5000, 60000) && !r.Late(); round++ {
			g := zzGen(r, 4, 25)
			method := r.Pick("get", "HEAD", "head", "Head", "post", "DELETE", "options", "trace")
			rf := openapi3.NewReflector()
			oc, err := rf.NewOperationContext(method, "/x")
			if err != nil {
				r.Fail("context", "%v", err)

				continue
			}
			op := oc.(openapi3.OperationExposer).Operation()
			prior := openapi3.Responses{}
			if r.Intn(3) == 0 {
				prior = zzh.Of[openapi3.Responses](g, 4)
				p := zzh.Copy(prior)
				op.Responses = p  //@30
				op.Responses = &p //@31
			}
			want := map[string]*openapi3.ResponseOrRef{}
			for k, v := range prior.MapOfResponseOrRefValues {
				v := zzh.Copy(v)
				want[k] = &v
			}
			if prior.Default != nil {
				want["default"] = zzh.Copy(prior.Default)
			}
			in := method + " prior " + zzh.Trunc(zzh.JSON(prior), 200)
			for i := 1 + r.Intn(4); i > 0; i-- {
				st := zzStructs14[r.Intn(len(zzStructs14))]
				unit := openapi.ContentUnit{
					Structure: st.v, HTTPStatus: zzStatus14[r.Intn(len(zzStatus14))], IsDefault: r.Intn(5) == 0,
					ContentType: r.Pick("", "", "", "application/json", "text/plain", "application/json; charset=utf-8", "image/png;q=1"),
					Description: r.Pick("", "", "", "d1", "d2"), Format: r.Pick("", "", "binary"),
				}
				oc.AddRespStructure(nil, func(cu *openapi.ContentUnit) { *cu = unit })
				in += fmt.Sprintf("; %T status=%d default=%v ct=%q desc=%q", st.v, unit.HTTPStatus, unit.IsDefault, unit.ContentType, unit.Description)

				status := unit.HTTPStatus
				if status == 0 && !unit.IsDefault {
					status = 200
				}
				key := strconv.Itoa(status)
				if unit.IsDefault {
					key = "default"
				} else if status > 0 && status < 6 {
					key += "XX"
				}
				w := want[key]
				if w == nil || w.Response == nil {
					w = &openapi3.ResponseOrRef{Response: &openapi3.Response{}}
					want[key] = w
				}
				resp := w.Response
				w.ResponseReference = nil //@30
				w.Reference = nil         //@31
				for _, h := range st.headers {
					if resp.Headers == nil {
						resp.Headers = map[string]openapi3.HeaderOrRef{}
					}
					resp.Headers[h] = openapi3.HeaderOrRef{Header: &openapi3.Header{}} // presence only
				}
				if strings.ToLower(method) != "head" {
					put := func(ct string, always bool) {
						if resp.Content == nil {
							resp.Content = map[string]openapi3.MediaType{}
						}
						mt, ok := resp.Content[ct]
						if !ok || always {
							mt.Schema = nil // not compared
							mt = zzUnknown14V30(mt)
							resp.Content[ct] = mt
						}
					}
					ct := strings.Split(unit.ContentType, ";")[0]
					if st.body {
						if ct == "" {
							put("application/json", true)
						} else {
							put(ct, true)
						}
					} else if ct != "" {
						put(ct, false)
					}
					if st.raw != "" {
						put(st.raw, false)
						if mt, ok := resp.Content[st.raw]; ok { //@31
							resp.Content[st.raw] = zzUnknown14V30(mt) //@31
						} //@31
					}
				}
				if resp.Description == "" {
					resp.Description = st.desc
				}
				if unit.Description != "" {
					resp.Description = unit.Description
				}
				if resp.Description == "" {
					resp.Description = http.StatusText(status)
				}
			}
			r.Case("%s", in)
			r.Try("panic", func() {
				if err := rf.AddOperation(oc); err != nil {
					r.Fail("error", "%v", err)

					return
				}
				got := map[string]*openapi3.ResponseOrRef{}
				m, d := zzRespsV30(op)
				for k, v := range m {
					v := v
					got[k] = &v
				}
				if d != nil {
					got["default"] = d
				}
				for k := range got {
					if want[k] == nil {
						r.Fail("status key", "response registered under %q, expected keys %v", k, reflect.ValueOf(want).MapKeys())
					}
				}
				for k, w := range want {
					g := got[k]
					if g == nil {
						r.Fail("status key", "no response under %q", k)

						continue
					}
					if w.Response == nil || g.Response == nil {
						if d := zzh.Diff(*g, *w); d != "" {
							r.Fail("untouched response", "%s: %s", k, d)
						}

						continue
					}
					a, b := *g.Response, *w.Response
					r.Check(a.Description == b.Description, "description", "%s: %q, want %q", k, a.Description, b.Description)
					r.Check(g.ResponseReference == w.ResponseReference, "reference", "%s: %v", k, g)
					for n := range b.Headers {
						if _, ok := a.Headers[n]; !ok {
							r.Fail("headers", "%s: header %q is missing", k, n)
						}
					}
					for n := range a.Headers {
						if _, ok := b.Headers[n]; !ok {
							r.Fail("headers", "%s: unexpected header %q", k, n)
						}
					}
					for n, mt := range b.Content {
						x, ok := a.Content[n]
						if !ok {
							r.Fail("content", "%s: content %q is missing", k, n)

							continue
						}
						if zzIsUnknown14V30(mt) {
							r.Check(x.Schema != nil, "content schema", "%s: content %q has no schema", k, n)
							mt = zzKnown14V30(mt)
							x.Schema, mt.Schema = nil, nil
						}
						d := zzh.Diff(x, mt)
						r.Check(d == "", "content kept", "%s: content %q: %s", k, n, d)
					}
					for n := range a.Content {
						if _, ok := b.Content[n]; !ok {
							r.Fail("content", "%s: unexpected content %q", k, n)
						}
					}
					a.Description, b.Description, a.Headers, b.Headers, a.Content, b.Content = "", "", nil, nil, nil, nil
					d := zzh.Diff(a, b)
					r.Check(d == "", "response", "%s: %s", k, d)
				}
			})
		}
	})
}

const zzMark14V30 = "zz-unknown"

// zzUnknown14V30 marks a media type whose schema the units define.
func zzUnknown14V30(m openapi3.MediaType) openapi3.MediaType {
	c := map[string]interface{}{zzMark14V30: true}
	for k, v := range m.MapOfAnything {
		c[k] = v
	}
	m.MapOfAnything = c

	return m
}

func zzIsUnknown14V30(m openapi3.MediaType) bool { return m.MapOfAnything[zzMark14V30] != nil }

func zzKnown14V30(m openapi3.MediaType) openapi3.MediaType {
	delete(m.MapOfAnything, zzMark14V30)
	if len(m.MapOfAnything) == 0 {
		m.MapOfAnything = nil
	}

	return m
}
