package openapi_test

import (
	"reflect"
	"sort"

	"github.com/swaggest/openapi-go/openapi3"
)

// zzEntitiesV30 lists the entity types reachable from a document (and the unreachable ones).
func zzEntitiesV30() []reflect.Type {
	seen := map[reflect.Type]bool{}
	var add func(t reflect.Type)
	add = func(t reflect.Type) {
		switch t.Kind() {
		case reflect.Ptr, reflect.Slice, reflect.Map:
			add(t.Elem())
			return
		case reflect.Struct:
		default:
			return
		}
		if seen[t] || t.PkgPath() != reflect.TypeOf(openapi3.Spec{}).PkgPath() {
			return
		}
		seen[t] = true
		for i := 0; i < t.NumField(); i++ {
			add(t.Field(i).Type)
		}
	}
	add(reflect.TypeOf(openapi3.Spec{}))
	add(reflect.TypeOf(openapi3.LinkNot{}))             //@30
	add(reflect.TypeOf(openapi3.SchemaXORContentNot{})) //@30
	add(reflect.TypeOf(openapi3.EncodingAllOf0{}))      //@31
	add(reflect.TypeOf(openapi3.Examples{}))            //@31
	var r []reflect.Type
	for t := range seen {
		r = append(r, t)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].Name() < r[j].Name() })
	return r
}
