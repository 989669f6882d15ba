package openapi_test

import (
	"github.com/swaggest/openapi-go/internal/zzh"
)

// zzGen makes random valid document entities of both versions.
func zzGen(r *zzh.R, depth, density int) *zzh.Gen {
	pick := func(ss ...string) func(g *zzh.Gen, depth int) interface{} {
		return func(g *zzh.Gen, _ int) interface{} { return ss[g.Intn(len(ss))] }
	}
	return &zzh.Gen{
		Rand: r.Rand, MaxDepth: depth, Density: density,
		ByType: map[string]func(g *zzh.Gen, depth int) interface{}{
			"ParameterIn":            pick("path", "query", "header", "cookie"),
			"SchemaType":             pick("array", "boolean", "integer", "number", "object", "string"),
			"EncodingStyle":          pick("form", "spaceDelimited", "pipeDelimited", "deepObject"),
			"PathParameterStyle":     pick("matrix", "label", "simple"),
			"QueryParameterStyle":    pick("form", "spaceDelimited", "pipeDelimited", "deepObject"),
			"ParameterStyle":         pick("form", "spaceDelimited", "pipeDelimited", "deepObject"),
			"APIKeySecuritySchemeIn": pick("header", "query", "cookie"),
			"SecuritySchemeAPIKeyIn": pick("header", "query", "cookie"),
		},
		OneOf: map[string]bool{
			"SchemaOrRef": true, "SchemaAdditionalProperties": true, "ExampleOrRef": true, "ParameterOrRef": true, "RequestBodyOrRef": true,
			"HeaderOrRef": true, "LinkOrRef": true, "ResponseOrRef": true, "CallbackOrRef": true, "SecuritySchemeOrRef": true, "SecurityScheme": true,
			"HTTPSecurityScheme": false,
			"ExampleOrReference": true, "HeaderOrReference": true, "ParameterOrReference": true, "RequestBodyOrReference": true, "LinkOrReference": true,
			"ResponseOrReference": true, "PathItemOrReference": true, "CallbacksOrReference": true, "SecuritySchemeOrReference": true,
		},
		Keys: map[string][]string{
			"PathItem.MapOfOperationValues":            zzMethods,
			"Responses.MapOfResponseOrRefValues":       {"200", "204", "301", "4XX", "5XX", "500"},
			"Responses.MapOfResponseOrReferenceValues": {"200", "204", "301", "4XX", "5XX", "500"},
			"Paths.MapOfPathItemValues":                {"/", "/a", "/a/{id}", "/ä"},
			"Callbacks.AdditionalProperties":           {"{$request.body#/url}", "cb", "http://x"},
			"Callback.AdditionalProperties":            {"{$request.body#/url}", "cb", "http://x"},
		},
		Skip: map[string]bool{"Schema.ReflectType": true, "Parameter.SchemaXORContent": true, "Parameter.Location": true},
	}
}
