package openapi_test

import (
	"fmt"
	"reflect"
	"testing"

	openapi "github.com/swaggest/openapi-go"
	"github.com/swaggest/openapi-go/internal/zzh"
	"github.com/swaggest/openapi-go/openapi3"
)

func zzPriorParamsV30(r *zzh.R) []openapi3.ParameterOrRef {
	var ps []openapi3.ParameterOrRef
	seen := map[string]bool{}
	for i := r.Intn(4); i > 0; i-- {
		if r.Intn(5) == 0 {
			ref := &openapi3.ParameterReference{Ref: "#/components/parameters/p"}
			ps = append(ps, openapi3.ParameterOrRef{ParameterReference: ref}) //@30
			ps = append(ps, openapi3.ParameterOrRef{Reference: ref})          //@31

			continue
		}
		p := openapi3.Parameter{Name: zzParamNames[r.Intn(7)], In: openapi3.ParameterIn(r.Pick("query", "path", "header", "cookie"))}
		if seen[p.Name+string(p.In)] {
			continue
		}
		seen[p.Name+string(p.In)] = true
		p.WithRequired(p.In == "path")
		p.WithDescription("prior " + fmt.Sprint(i))
		ps = append(ps, openapi3.ParameterOrRef{Parameter: &p})
	}

	return ps
}

func zzSchemaTypeV30(s *openapi3.SchemaOrRef) string { //@30
	if s == nil || s.Schema == nil || s.Schema.Type == nil { //@30
		return "" //@30
	} //@30
	return string(*s.Schema.Type) //@30
} //@30

func zzSchemaTypeV30(s map[string]interface{}) string { //@31
	switch t := s["type"].(type) { //@31
	case string: //@31
		return t //@31
	case []interface{}: //@31
		for _, e := range t { //@31
			if e != "null" { //@31
				return fmt.Sprint(e) //@31
			} //@31
		} //@31
	} //@31
	return "" //@31
} //@31

func TestVerifC12V30(t *testing.T) {
	zzh.Run(t, "C12", "random structure types (up to 5 fields per level, 12 field kinds, embedding, tags and mappings for all locations), prior parameters, 1-2 units; distinct = distinct case", func(r *zzh.R) {
		locs := []string{"path", "query", "cookie", "header", "form", "json"}
		for round := 0; round < r.N(2500, 40000) && !r.Late(); round++ {
			prior := zzPriorParamsV30(r)
			method := r.Pick("get", "POST", "put", "delete", "HEAD")
			type want struct {
				zzNamed
				in openapi.In
			}
			var wants []want
			in := method + " prior " + zzh.JSON(prior)
			have := map[string]bool{}
			path := "/x"
			inPath := map[string]bool{}
			addPath := func(n string) {
				if !inPath[n] {
					inPath[n] = true
					path += "/{" + n + "}"
				}
			}
			for _, p := range prior {
				if p.Parameter != nil {
					have[string(p.Parameter.In)+" "+p.Parameter.Name] = true
					if p.Parameter.In == "path" {
						addPath(p.Parameter.Name)
					}
				}
			}
			dup := false
			forbid := map[openapi.In]bool{}
			var units []openapi.ContentUnit
			for n := 1 + r.Intn(5)/4; n > 0; n-- {
				fs := zzFields(r, 1, locs, false)
				unit := openapi.ContentUnit{Structure: reflect.New(zzTypeOf(fs)).Interface(), ContentType: r.Pick("", "", "", "application/json", "text/plain")}
				if r.Intn(2) == 0 {
					unit.Structure = reflect.ValueOf(unit.Structure).Elem().Interface()
				}
				in += fmt.Sprintf("; unit %v ct=%q", fs, unit.ContentType)
				for _, l := range []openapi.In{openapi.InPath, openapi.InQuery, openapi.InCookie, openapi.InHeader} {
					var mapping map[string]string
					if r.Intn(4) == 0 {
						f := fs[r.Intn(len(fs))]
						if f.embedded == nil { // else the embedded fields are the parameters
							mapping = map[string]string{f.name: r.Pick("mapped", "id", "-", "m2")}
							unit.SetFieldMapping(l, mapping)
							in += fmt.Sprintf(" %s:%v", l, mapping)
						}
					}
					if unit.ContentType == "text/plain" {
						continue
					}
					tags := []string{string(l)}
					if l == openapi.InQuery {
						tags = append(tags, "form")
					}
					for _, w := range zzTagged(fs, mapping, tags...) {
						k := string(l) + " " + w.name
						if have[k] {
							dup = true
						}
						have[k] = true
						if l == openapi.InPath {
							addPath(w.name)
						}
						wants = append(wants, want{w, l})
					}
				}
				units = append(units, unit)
			}
			r.Case("%s %s", path, in)
			r.Try("panic", func() {
				rf := openapi3.NewReflector()
				oc, err := rf.NewOperationContext(method, path)
				if err != nil {
					r.Fail("context", "%v", err)

					return
				}
				op := oc.(openapi3.OperationExposer).Operation()
				op.Parameters = zzh.Copy(prior)
				for _, u := range units {
					u := u
					oc.AddReqStructure(nil, func(cu *openapi.ContentUnit) { *cu = u })
				}
				err = rf.AddOperation(oc)
				if dup {
					r.Check(err != nil, "duplicate", "a parameter name is given twice in one location, but no error is returned")

					return
				}
				if err != nil {
					r.Fail("error", "unexpected error: %v", err)

					return
				}
				got := op.Parameters
				if len(got) != len(prior)+len(wants) {
					r.Fail("one to one", "%d parameters, want %d prior and %d new: %s", len(got), len(prior), len(wants), zzh.Trunc(zzh.JSON(got), 400))

					return
				}
				d := zzh.Diff(got[:len(prior)], prior)
				r.Check(len(prior) == 0 || d == "", "prior parameters", "%s", d)
				by := map[string]*openapi3.Parameter{}
				for _, p := range got[len(prior):] {
					if p.Parameter == nil {
						r.Fail("one to one", "a reference was added")

						return
					}
					by[string(p.Parameter.In)+" "+p.Parameter.Name] = p.Parameter
				}
				for _, w := range wants {
					p := by[string(w.in)+" "+w.name]
					if p == nil {
						r.Fail("one to one", "no parameter %q in %s: %s", w.name, w.in, zzh.Trunc(zzh.JSON(got), 400))

						continue
					}
					f := w.field
					req := f.tags["required"] == "true" || w.in == openapi.InPath
					r.Check((p.Required != nil && *p.Required) == req, "required", "%s %q: required is %s", w.in, w.name, zzh.JSON(p.Required))
					if ds, ok := f.tags["description"]; ok {
						r.Check(p.Description != nil && *p.Description == ds, "description", "%s %q: description is %s", w.in, w.name, zzh.JSON(p.Description))
					}
					asJSON := f.tags["collectionFormat"] == "json" || f.kind.jsonTags
					if asJSON {
						_, ok := p.Content["application/json"]
						r.Check(ok && len(p.Content) == 1 && p.Schema == nil && p.Content["application/json"].Schema != nil, "json parameter", "%s %q: %s", w.in, w.name, zzh.JSON(p))
					} else {
						r.Check(len(p.Content) == 0 && p.Schema != nil, "schema", "%s %q: %s", w.in, w.name, zzh.JSON(p))
						if f.kind.schema != "" {
							r.Check(zzSchemaTypeV30(p.Schema) == f.kind.schema, "schema type", "%s %q: %s, want %s", w.in, w.name, zzh.JSON(p.Schema), f.kind.schema)
						}
					}
					style, explode := "", ""
					switch f.tags["collectionFormat"] {
					case "csv":
						style, explode = "form", "false"
					case "ssv":
						style, explode = "spaceDelimited", "false"
					case "pipes":
						style, explode = "pipeDelimited", "false"
					case "multi":
						style, explode = "form", "true"
					}
					if f.kind.object && !asJSON {
						style, explode = "deepObject", "true"
					}
					gs, ge := "", ""
					if p.Style != nil {
						gs = string(*p.Style)
					}
					if p.Explode != nil {
						ge = fmt.Sprint(*p.Explode)
					}
					r.Check(gs == style && ge == explode, "style", "%s %q (%s): style %q explode %q, want %q %q", w.in, w.name, f, gs, ge, style, explode)
				}
				for _, l := range []openapi.In{openapi.InPath, openapi.InQuery, openapi.InCookie, openapi.InHeader} {
					r.Check(oc.UnknownParamsAreForbidden(l) == forbid[l], "unknown parameters", "forbidden in %s: %v", l, !forbid[l])
				}
			})
		}
	})
}
