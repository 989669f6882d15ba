package openapi_test

import (
	"github.com/swaggest/jsonschema-go"
	"github.com/swaggest/openapi-go/internal/zzh"
)

// zzJSGen makes random JSON schemas.
type zzJSGen struct {
	*zzh.R
	refs []string
	ext  []string // keys of extra properties
}

func zzP[T any](v T) *T { return &v }

func (g *zzJSGen) maybe(n int) bool { return g.Intn(n) == 0 }

func (g *zzJSGen) strp() *string {
	return zzP(g.Pick("", "a", "b", "some text", "^x+$", "näme", "date-time"))
}

func (g *zzJSGen) num() *float64 { return zzP(float64(g.Intn(41)-20) / 4) }

func (g *zzJSGen) int64p() *int64 { return zzP(int64(g.Intn(5))) }

func (g *zzJSGen) any() interface{} {
	return []interface{}{nil, "s", "", 1.5, 0.0, true, false, []interface{}{"x", 1.0}, map[string]interface{}{"k": "v"}}[g.Intn(9)]
}

func (g *zzJSGen) list(depth int) []jsonschema.SchemaOrBool {
	if !g.maybe(5) || depth <= 0 {
		return nil
	}
	l := make([]jsonschema.SchemaOrBool, g.Intn(4))
	for i := range l {
		l[i] = g.schema(depth - 1)
	}
	return l
}

var zzTypes = []jsonschema.SimpleType{jsonschema.Array, jsonschema.Boolean, jsonschema.Integer, jsonschema.Null, jsonschema.Number, jsonschema.Object, jsonschema.String}

func (g *zzJSGen) schema(depth int) jsonschema.SchemaOrBool {
	if g.maybe(8) {
		return jsonschema.SchemaOrBool{TypeBoolean: zzP(g.maybe(2))}
	}
	s := &jsonschema.Schema{}
	r := jsonschema.SchemaOrBool{TypeObject: s}
	if g.maybe(7) && len(g.refs) > 0 {
		s.Ref = zzP(g.refs[g.Intn(len(g.refs))])
		if g.maybe(3) {
			s.Deprecated = zzP(g.maybe(2))
		}
		if g.maybe(3) { // siblings of a reference carry no meaning
			s.Title = g.strp()
		}
		return r
	}
	set := func(f func()) {
		if g.maybe(6) {
			f()
		}
	}
	set(func() { s.Title = g.strp() })
	set(func() { s.Description = g.strp() })
	set(func() { s.Default = zzP(g.any()) })
	set(func() { s.ReadOnly = zzP(g.maybe(2)) })
	set(func() { s.WriteOnly = zzP(g.maybe(2)) })
	set(func() { s.Deprecated = zzP(g.maybe(2)) })
	set(func() { s.MultipleOf = g.num() })
	set(func() { s.Maximum = g.num() })
	set(func() { s.ExclusiveMaximum = g.num() })
	set(func() { s.Minimum = g.num() })
	set(func() { s.ExclusiveMinimum = g.num() })
	set(func() { s.MaxLength = g.int64p() })
	set(func() { s.MinLength = int64(g.Intn(4)) })
	set(func() { s.Pattern = g.strp() })
	set(func() { s.MaxItems = g.int64p() })
	set(func() { s.MinItems = int64(g.Intn(4)) })
	set(func() { s.UniqueItems = zzP(g.maybe(2)) })
	set(func() { s.MaxProperties = g.int64p() })
	set(func() { s.MinProperties = int64(g.Intn(4)) })
	set(func() { s.Format = g.strp() })
	set(func() {
		s.Required = []string{"a", "b", "c"}[:g.Intn(4)]
	})
	set(func() {
		for i := g.Intn(3); i > 0; i-- {
			s.Enum = append(s.Enum, g.any())
		}
	})
	set(func() {
		for i := g.Intn(3); i > 0; i-- {
			s.Examples = append(s.Examples, g.any())
		}
	})
	switch g.Intn(4) {
	case 0:
		s.Type = &jsonschema.Type{SimpleTypes: zzP(zzTypes[g.Intn(len(zzTypes))])}
	case 1:
		s.Type = &jsonschema.Type{}
		for i := g.Intn(4); i > 0; i-- {
			s.Type.SliceOfSimpleTypeValues = append(s.Type.SliceOfSimpleTypeValues, zzTypes[g.Intn(len(zzTypes))])
		}
	}
	s.AllOf, s.AnyOf, s.OneOf = g.list(depth), g.list(depth), g.list(depth)
	if depth > 0 {
		set(func() { s.Not = zzP(g.schema(depth - 1)) })
		set(func() { s.AdditionalProperties = zzP(g.schema(depth - 1)) })
		set(func() { s.Items = &jsonschema.Items{SchemaOrBool: zzP(g.schema(depth - 1))} })
		if g.maybe(3) {
			s.Properties = map[string]jsonschema.SchemaOrBool{}
			for i := g.Intn(4); i > 0; i-- {
				s.Properties[g.Pick("a", "b", "c", "", "x-p")] = g.schema(depth - 1)
			}
		}
	}
	set(func() {
		s.ExtraProperties = map[string]interface{}{}
		for i := g.Intn(4); i > 0; i-- {
			s.ExtraProperties[g.ext[g.Intn(len(g.ext))]] = g.any()
		}
	})
	return r
}
