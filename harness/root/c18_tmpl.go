package openapi_test

import (
	"fmt"
	"testing"

	openapi "github.com/swaggest/openapi-go"
	"github.com/swaggest/openapi-go/internal/zzh"
	"github.com/swaggest/openapi-go/openapi3"
)

func zzSchemesV30(s *openapi3.Spec) map[string]openapi3.SecuritySchemeOrRef {
	if s.Components == nil {
		return nil
	}
	if s.Components.SecuritySchemes == nil { //@30
		return nil //@30
	} //@30
	return s.Components.SecuritySchemes.MapOfSecuritySchemeOrRefValues //@30
	return s.Components.SecuritySchemes                                //@31
}

func zzWithSchemesV30(s *openapi3.Spec, m map[string]openapi3.SecuritySchemeOrRef) {
	if s.Components == nil {
		s.Components = &openapi3.Components{}
	}
	if s.Components.SecuritySchemes == nil { //@30
		s.Components.SecuritySchemes = &openapi3.ComponentsSecuritySchemes{} //@30
	} //@30
	s.Components.SecuritySchemes.MapOfSecuritySchemeOrRefValues = m //@30
	s.Components.SecuritySchemes = m                                //@31
}

// zzSchemeV30 is the scheme to be stored.
func zzSchemeV30(kind int, desc, field, in, format string) openapi3.SecuritySchemeOrRef {
	ss := &openapi3.SecurityScheme{}
	ss.Description = &desc //@31
	switch kind {
	case 0:
		ss.HTTPSecurityScheme = &openapi3.HTTPSecurityScheme{Scheme: "basic", Description: &desc} //@30
		ss.HTTP = &openapi3.SecuritySchemeHTTP{Scheme: "basic"}                                   //@31
	case 1:
		ss.APIKeySecurityScheme = &openapi3.APIKeySecurityScheme{Name: field, In: openapi3.APIKeySecuritySchemeIn(in), Description: &desc} //@30
		ss.APIKey = &openapi3.SecuritySchemeAPIKey{Name: field, In: openapi3.SecuritySchemeAPIKeyIn(in)}                                   //@31
	default:
		h := &openapi3.HTTPSecurityScheme{Scheme: "bearer", Description: &desc} //@30
		h := &openapi3.SecuritySchemeHTTPBearer{Scheme: "bearer"}               //@31
		if format != "" {
			h.BearerFormat = &format
		}
		ss.HTTPSecurityScheme = h //@30
		ss.HTTPBearer = h         //@31
	}
	return openapi3.SecuritySchemeOrRef{SecurityScheme: ss}
}

func TestVerifC18V30(t *testing.T) {
	zzh.Run(t, "C18", "random documents, histories of 6 security declarations and info settings; distinct = distinct history prefix", func(r *zzh.R) {
		for round := 0; round < r.N(1200, 15000) && !r.Late(); round++ {
			g := zzGen(r, 3, 25)
			s := &openapi3.Spec{}
			if r.Intn(4) > 0 {
				s.Info = zzh.Of[openapi3.Info](g, 3)
			}
			if r.Intn(3) > 0 {
				c := zzh.Of[openapi3.Components](g, 4)
				s.Components = &c
			}
			if r.Intn(4) == 0 {
				s.WithSecurity(map[string][]string{"old": {}})
			}
			hist := zzh.Trunc(zzh.JSON(s), 300)
			for step := 0; step < 6; step++ {
				want := zzh.Copy(s)
				var ss openapi.SpecSchema = s
				name := r.Pick("", "auth", "a/b", "old", "näme", "x-auth", "Bearer", "auth ")
				desc := g.Str()
				if r.Intn(2) == 0 {
					field, in, format := g.Str(), r.Pick("header", "query", "cookie"), r.Pick("", "", "JWT", " ", "jwt")
					kind := r.Intn(3)
					hist += fmt.Sprintf("; security %d %q %q %q %q %q", kind, name, desc, field, in, format)
					r.Case("%s", hist)
					r.Try("panic", func() {
						switch kind {
						case 0:
							ss.SetHTTPBasicSecurity(name, desc)
						case 1:
							ss.SetAPIKeySecurity(name, field, openapi.In(in), desc)
						default:
							ss.SetHTTPBearerTokenSecurity(name, format, desc)
						}
						m := map[string]openapi3.SecuritySchemeOrRef{}
						for k, v := range zzSchemesV30(want) {
							m[k] = v
						}
						m[name] = zzSchemeV30(kind, desc, field, in, format)
						zzWithSchemesV30(want, m)
						d := zzh.Diff(*s, *want)
						r.Check(d == "", "security", "document: %s", d)
					})
					continue
				}
				v := g.Str()
				k := r.Intn(3)
				hist += fmt.Sprintf("; info %d %q", k, v)
				r.Case("%s", hist)
				r.Try("panic", func() {
					switch k {
					case 0:
						ss.SetTitle(v)
						want.Info.Title = v
						r.Check(ss.Title() == v, "title", "Title() = %q after SetTitle(%q)", ss.Title(), v)
					case 1:
						ss.SetDescription(v)
						want.Info.Description = &v
						r.Check(ss.Description() == v, "description", "Description() = %q after SetDescription(%q)", ss.Description(), v)
					default:
						ss.SetVersion(v)
						want.Info.Version = v
						r.Check(ss.Version() == v, "version", "Version() = %q after SetVersion(%q)", ss.Version(), v)
					}
					d := zzh.Diff(*s, *want)
					r.Check(d == "", "info", "document: %s", d)
					wd := ""
					if want.Info.Description != nil {
						wd = *want.Info.Description
					}
					r.Check(ss.Title() == want.Info.Title && ss.Description() == wd && ss.Version() == want.Info.Version, "info read",
						"read back %q %q %q", ss.Title(), ss.Description(), ss.Version())
				})
			}
		}
	})
}
