package openapi_test

import (
	"mime/multipart"

	"github.com/swaggest/jsonschema-go"
)

// zzBody13 says what bodies a structure describes.
type zzBody13 struct {
	form, file, formTags, json bool
	force, forceJSON           bool
	raw                        []string
}

type zzForce13 struct {
	X int `json:"x"`
}

func (zzForce13) ForceRequestBody() {}

type zzForceForm13 struct {
	X int `formData:"x"`
	Y int `json:"y"`
}

func (zzForceForm13) ForceRequestBody() {}

type zzForceJSON13 struct {
	X int `form:"x"`
	Y int `json:"y"`
}

func (zzForceJSON13) ForceJSONRequestBody() {}

type zzForceBoth13 struct {
	X int            `form:"x"`
	F multipart.File `form:"f"`
	Y int            `json:"y"`
}

func (*zzForceBoth13) ForceRequestBody() {}

func (*zzForceBoth13) ForceJSONRequestBody() {}

type zzFile13 struct {
	F *multipart.FileHeader `formData:"f"`
}

type zzFileJSON13 struct {
	F multipart.File `json:"f"`
	G int            `json:"g"`
}

type zzFileOther13 struct {
	X int            `formData:"x"`
	F multipart.File `json:"f"`
}

type zzSchema13 struct {
	jsonschema.Struct
	X int `query:"x"`
}

var zzStructs13 = []struct {
	v interface{}
	b zzBody13
}{
	{nil, zzBody13{}},
	{zzForce13{}, zzBody13{json: true, force: true}},
	{&zzForce13{}, zzBody13{json: true, force: true}},
	{zzForceForm13{}, zzBody13{form: true, formTags: true, json: true, force: true}},
	{new(zzForceJSON13), zzBody13{form: true, formTags: true, json: true, forceJSON: true}},
	{new(zzForceBoth13), zzBody13{form: true, file: true, formTags: true, json: true, force: true, forceJSON: true}},
	{zzFile13{}, zzBody13{form: true, file: true, formTags: true}},
	{zzFileJSON13{}, zzBody13{json: true}},
	{new(zzFileOther13), zzBody13{form: true, formTags: true, json: true}},
	{[]int{}, zzBody13{json: true}},
	{[]zzJSONObj{}, zzBody13{json: true}},
	{map[string]zzJSONObj{}, zzBody13{json: true}},
	{struct{ X int }{}, zzBody13{}},
}

// zzClean13 leaves only body names that say clearly whether the field belongs to the body.
func zzClean13(fs []zzStructField) {
	for _, f := range fs {
		for _, l := range []string{"form", "formData", "json"} {
			if n, ok := f.tags[l]; ok && (n == "" || n[0] == ',' || n[0] == '-' && l != "json") {
				f.tags[l] = "n"
			}
		}
		zzClean13(f.embedded)
	}
}
