package openapi_test

import (
	"fmt"
	"reflect"
	"strings"
	"testing"

	openapi "github.com/swaggest/openapi-go"
	"github.com/swaggest/openapi-go/internal/zzh"
	"github.com/swaggest/openapi-go/openapi3"
)

func zzStringV30(m openapi3.MediaType) (t, f string) {
	if m.Schema == nil || m.Schema.Schema == nil || m.Schema.Schema.Type == nil { //@30
		return "", "" //@30
	} //@30
	t = string(*m.Schema.Schema.Type) //@30
	if m.Schema.Schema.Format != nil { //@30
		f = *m.Schema.Schema.Format //@30
	} //@30
	t, _ = m.Schema["type"].(string)   //@31
	f, _ = m.Schema["format"].(string) //@31

	return t, f
}

func TestVerifC13V30(t *testing.T) {
	zzh.Run(t, "C13", "random structure types with json/form/formData/file/contentType/parameter fields and 10 fixed ones (enforcers, slices, maps), all methods, content types, field mappings, prior bodies, 1-3 units; distinct = distinct case", func(r *zzh.R) {
		for round := 0; round < r.N(4000, 60000) && !r.Late(); round++ {
			g := zzGen(r, 3, 25)
			method := r.Pick("get", "GET", "HEAD", "delete", "Trace", "POST", "put", "patch", "OPTIONS")
			rf := openapi3.NewReflector()
			oc, err := rf.NewOperationContext(method, "/x")
			if err != nil {
				r.Fail("context", "%v", err)

				continue
			}
			op := oc.(openapi3.OperationExposer).Operation()
			in := method
			type want struct {
				text   bool
				format string
			}
			wants := map[string]*want{}
			prior := map[string]openapi3.MediaType{}
			if r.Intn(3) == 0 {
				for _, k := range []string{"application/json", "multipart/form-data", "application/x-www-form-urlencoded", "text/plain", "x/y"} {
					if r.Intn(3) == 0 {
						mt := zzh.Of[openapi3.MediaType](g, 3)
						prior[k] = mt
						op.RequestBodyEns().RequestBodyEns().WithContentItem(k, zzh.Copy(mt))
					}
				}
				in += " prior " + zzh.Trunc(zzh.JSON(prior), 200)
			}
			for n, i := 1+r.Intn(5)/3, 0; i < n; i++ {
				labels := []string{"form", "formData", "json", "query", "header"}
				if i > 0 {
					labels = labels[:3] // parameters of different units collide
				}
				unit := openapi.ContentUnit{ContentType: r.Pick("", "", "", "", "application/json", "application/x-www-form-urlencoded", "multipart/form-data", "text/plain", "image/png;q=1"), Format: r.Pick("", "", "binary")}
				var b zzBody13
				var desc string
				if r.Intn(3) == 0 {
					s := zzStructs13[r.Intn(len(zzStructs13))]
					unit.Structure, b = s.v, s.b
					desc = fmt.Sprintf("%T", s.v)
				} else {
					fs := zzFields(r, 1, labels, true)
					zzClean13(fs)
					if r.Intn(5) == 0 {
						fs[0].tags["contentType"] = r.Pick("text/csv", "application/xml")
						if fs[0].embedded == nil {
							b.raw = append(b.raw, fs[0].tags["contentType"])
						}
					}
					var mapping map[string]string
					if f := fs[r.Intn(len(fs))]; r.Intn(6) == 0 && f.embedded == nil {
						mapping = map[string]string{f.name: "mapped"}
						unit.SetFieldMapping(openapi.InFormData, mapping)
					}
					unit.Structure = reflect.New(zzTypeOf(fs)).Interface()
					if r.Intn(2) == 0 {
						unit.Structure = reflect.ValueOf(unit.Structure).Elem().Interface()
					}
					form := zzTagged(fs, mapping, "formData", "form")
					b.form = len(form) > 0
					for _, f := range form {
						b.file = b.file || f.field.kind.file
					}
					b.formTags = len(zzTagged(fs, nil, "formData")) > 0 || len(zzTagged(fs, nil, "form")) > 0
					b.json = len(zzTagged(fs, nil, "json")) > 0
					desc = fmt.Sprintf("%v mapping %v", fs, mapping)
				}
				in += fmt.Sprintf("; unit %s ct=%q format=%q", desc, unit.ContentType, unit.Format)
				oc.AddReqStructure(nil, func(cu *openapi.ContentUnit) { *cu = unit })
				allowed := b.force
				switch strings.ToUpper(method) {
				case "GET", "HEAD", "DELETE", "TRACE":
				default:
					allowed = true
				}
				isForm := b.form && allowed
				isJSON := b.json && allowed && (!b.formTags || b.forceJSON)
				switch unit.ContentType {
				case "":
				case "application/json":
					isForm = false
					b.raw = nil
				case "application/x-www-form-urlencoded", "multipart/form-data":
					isJSON = false
					b.raw = nil
				default:
					isForm, isJSON = false, false
					b.raw = []string{unit.ContentType}
				}
				if isForm {
					ct := "application/x-www-form-urlencoded"
					if b.file {
						ct = "multipart/form-data"
					}
					wants[ct] = &want{}
				}
				if isJSON {
					wants["application/json"] = &want{}
				}
				for _, ct := range b.raw {
					f := ""
					if unit.ContentType != "" {
						f = unit.Format
					}
					wants[ct] = &want{true, f}
				}
			}
			r.Case("%s", in)
			r.Try("panic", func() {
				if err := rf.AddOperation(oc); err != nil {
					r.Check(strings.Contains(err.Error(), "is already defined"), "error", "%v", err)

					return // form fields are query parameters too
				}
				got := map[string]openapi3.MediaType{}
				if op.RequestBody != nil {
					if op.RequestBody.RequestBody == nil {
						r.Fail("body", "the request body is not inline: %s", zzh.JSON(op.RequestBody))

						return
					}
					got = op.RequestBody.RequestBody.Content
					r.Check(len(got) > 0, "body", "a body without content: %s", zzh.JSON(op.RequestBody))
				}
				for k := range got {
					if _, ok := prior[k]; !ok && wants[k] == nil {
						r.Fail("unexpected body", "unexpected request content %q", k)
					}
				}
				for k, w := range wants {
					mt, ok := got[k]
					if !ok || mt.Schema == nil {
						r.Fail("missing body", "no request content or schema for %q: %s", k, zzh.Trunc(zzh.JSON(got), 300))

						continue
					}
					if w.text {
						t, f := zzStringV30(mt)
						r.Check(t == "string" && f == w.format, "text body", "%s: type %q format %q, want string %q", k, t, f, w.format)
					}
				}
				for k, p := range prior {
					if wants[k] == nil {
						d := zzh.Diff(got[k], p)
						r.Check(d == "", "earlier content", "%s: %s", k, d)
					}
				}
			})
		}
	})
}
