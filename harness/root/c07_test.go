package openapi_test

import (
	"sort"

	"github.com/swaggest/openapi-go/internal/zzh"
)

// zzEntity says what an entity is to require and to accept.
type zzEntity struct {
	fields   [][]string // name, key with options
	required []string
	known    []string
	strict   bool
	custom   bool
	object   bool // decoded from objects only
	patterns [][]string // field, key pattern
	consts   [][]string // key, JSON
	union    []string
	also     []string
	not      string
}

func zzKeys07(m map[string]interface{}) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)

	return ks
}

var zzValues07 = []interface{}{"zz", "", 1.0, 1.5, true, false, "path", "query", "bearer", "Bearer", "apiKey", "http", "oauth2", "simple", "form", "matrix"}

// zzMutate07 makes a random change somewhere in the data.
func zzMutate07(r *zzh.R, v interface{}, depth int, table map[string]zzEntity, enums map[string][]string) interface{} {
	switch x := v.(type) {
	case map[string]interface{}:
		ks := zzKeys07(x)
		if depth > 1 && len(ks) > 0 {
			k := ks[r.Intn(len(ks))]
			switch x[k].(type) {
			case map[string]interface{}, []interface{}:
				x[k] = zzMutate07(r, x[k], depth-1, table, enums)

				return x
			}
		}
		switch n := r.Intn(8); {
		case n < 3 && len(ks) > 0:
			delete(x, ks[r.Intn(len(ks))])
		case n < 5:
			x[r.Pick("zz", "x-zz", "X-zz", "a-x-b", "$ref", "schema", "content", "operationId", "operationRef", "scheme", "bearerFormat", "default", "get", "/zz", "200", "2XX", "6XX", "99", "2000", "head ", "type", "in", "required", "style", "openapis", "example")] = zzValues07[r.Intn(len(zzValues07))]
		case n < 6 && len(ks) > 0:
			x[ks[r.Intn(len(ks))]] = []interface{}{map[string]interface{}{}, []interface{}{}, map[string]interface{}{"$ref": "#/a"}}[r.Intn(3)]
		case len(ks) > 0:
			x[ks[r.Intn(len(ks))]] = zzValues07[r.Intn(len(zzValues07))]
		}
	case []interface{}:
		if len(x) > 0 {
			i := r.Intn(len(x))
			x[i] = zzMutate07(r, x[i], depth-1, table, enums)
		}
	case string:
		return zzValues07[r.Intn(len(zzValues07))]
	}

	return v
}
