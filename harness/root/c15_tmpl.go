package openapi_test

import (
	"testing"

	"github.com/swaggest/jsonschema-go"
	openapi "github.com/swaggest/openapi-go"
	"github.com/swaggest/openapi-go/internal/zzh"
	"github.com/swaggest/openapi-go/openapi3"
)

// zzPut15V30 puts a schema into the components.
func zzPut15V30(rf *openapi3.Reflector, name, desc string) {
	s := openapi3.Schema{}                                                                            //@30
	s.WithDescription(desc)                                                                           //@30
	rf.SpecEns().ComponentsEns().SchemasEns().WithMapOfSchemaOrRefValuesItem(name, openapi3.SchemaOrRef{Schema: &s}) //@30
	rf.SpecEns().ComponentsEns().WithSchemasItem(name, map[string]interface{}{"description": desc}) //@31
}

func zzReflect15V30(prior []string, reqs, resps []interface{}, method string) (map[string]interface{}, error) {
	rf := openapi3.NewReflector()
	for _, n := range prior {
		zzPut15V30(rf, n, "prior "+n)
	}
	oc, err := rf.NewOperationContext(method, "/x")
	if err != nil {
		return nil, err
	}
	for _, s := range reqs {
		oc.AddReqStructure(s)
	}
	for i, s := range resps {
		oc.AddRespStructure(s, openapi.WithHTTPStatus(200+i))
	}
	if err := rf.AddOperation(oc); err != nil {
		return nil, err
	}

	return zzDoc15(rf.Spec), nil
}

func TestVerifC15V30(t *testing.T) {
	zzh.Run(t, "C15", "named recursive/generic structures as parameters, bodies and responses, prior component schemas with clashing and other names; distinct = distinct case", func(r *zzh.R) {
		_ = jsonschema.String
		for round := 0; round < r.N(1500, 20000) && !r.Late(); round++ {
			method := r.Pick("get", "post", "put")
			var params, bodies, resps []interface{}
			if r.Intn(2) == 0 {
				params = append(params, zzParams15[r.Intn(len(zzParams15))])
			}
			if method != "get" && r.Intn(2) == 0 {
				bodies = append(bodies, zzBodies15[r.Intn(len(zzBodies15))])
			}
			for i := r.Intn(3); i > 0; i-- {
				resps = append(resps, zzResps15[r.Intn(len(zzResps15))])
			}
			desc := method
			desc += " " + zzTypes15(params) + " " + zzTypes15(bodies) + " " + zzTypes15(resps)
			r.Try("panic", func() {
				rest, err := zzReflect15V30(nil, params, resps, method)
				body, err2 := zzReflect15V30(nil, bodies, nil, method)
				if err != nil || err2 != nil {
					r.Case("%s", desc)
					r.Fail("error", "%v %v", err, err2)

					return
				}
				want := map[string]interface{}{}
				var prior []string
				names := []string{"Other"}
				for n := range zzSchemas15(rest) {
					names = append(names, n)
				}
				for n := range zzSchemas15(body) {
					names = append(names, n)
				}
				for _, n := range zzSorted15(names) {
					if r.Intn(4) == 0 {
						prior = append(prior, n)
						want[n] = map[string]interface{}{"description": "prior " + n}
					}
				}
				r.Case("%s prior %v", desc, prior)
				doc, err := zzReflect15V30(prior, append(append([]interface{}{}, params...), bodies...), resps, method)
				if err != nil {
					r.Fail("error", "%v", err)

					return
				}
				for n, s := range zzSchemas15(rest) {
					if _, ok := want[n]; !ok {
						want[n] = s
					}
				}
				for n, s := range zzSchemas15(body) {
					want[n] = s
				}
				got := zzSchemas15(doc)
				for n, s := range want {
					g, ok := got[n]
					if !ok {
						r.Fail("missing", "component schema %s is missing", n)
					} else if d := zzh.Diff(g, s); d != "" {
						r.Fail("changed", "component schema %s: %s", n, d)
					}
				}
				for n := range got {
					if _, ok := want[n]; !ok {
						r.Fail("invented", "component schema %s", n)
					}
				}
				for _, name := range prior { // a prior schema has no references that count
					_ = name
				}
				zzRefs15(doc, func(n string) {
					if _, ok := got[n]; !ok {
						r.Fail("dangling", "%s", n)
					}
				})
			})
		}
	})
}
