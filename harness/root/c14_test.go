package openapi_test

import "github.com/swaggest/jsonschema-go"

// zzStruct14 is a response structure with what it is to contribute.
type zzStruct14 struct {
	v       interface{}
	body    bool
	headers []string
	raw     string
	desc    string
}

type (
	zzJSON14 struct {
		A int `json:"a"`
	}
	zzJSONDesc14 struct {
		_ struct{} `description:"from schema"`
		A int      `json:"a"`
	}
	zzHeaderDesc14 struct {
		_ struct{} `description:"of headers"`
		H string   `header:"X-H" json:"-"`
	}
	zzBoth14 struct {
		B  string `json:"b"`
		XA string `header:"X-A" json:"-"`
		XB int    `header:"X-B" json:"-"`
	}
	zzRaw14 struct {
		_ struct{} `contentType:"text/csv"`
	}
	zzRawHeader14 struct {
		_  struct{} `contentType:"application/pdf"`
		XA string   `header:"X-A"`
	}
	zzEmbed14 struct {
		zzBoth14
		C bool `json:"c"`
	}
	zzEmpty14 struct{}
	zzRef14   string
	zzRefH14  struct {
		R zzRef14 `header:"X-R"`
	}
)

// JSONSchema exposes a reference.
func (zzRef14) JSONSchema() (jsonschema.Schema, error) {
	s := jsonschema.Schema{}
	s.WithRef("#/components/schemas/Foo")

	return s, nil
}

var zzStatus14 = []int{0, 0, 200, 200, 201, 204, 404, 500, 1, 2, 4, 5, 6, 100, 599}

var zzStructs14 = []zzStruct14{
	{v: nil}, {v: zzEmpty14{}},
	{v: zzJSON14{}, body: true}, {v: new(zzJSON14), body: true},
	{v: zzJSONDesc14{}, body: true, desc: "from schema"},
	{v: zzHeaderDesc14{}, headers: []string{"X-H"}, desc: "of headers"},
	{v: zzBoth14{}, body: true, headers: []string{"X-A", "X-B"}},
	{v: new(zzRaw14), raw: "text/csv"}, {v: zzRawHeader14{}, raw: "application/pdf", headers: []string{"X-A"}},
	{v: zzEmbed14{}, body: true, headers: []string{"X-A", "X-B"}},
	{v: zzRefH14{}, headers: []string{"X-R"}},
	{v: []zzJSON14{}, body: true}, {v: map[string]int{}, body: true}, {v: "", body: true},
}
