package openapi_test

import (
	"fmt"
	"mime/multipart"
	"reflect"
	"strings"
	"time"

	"github.com/swaggest/openapi-go/internal/zzh"
)

type zzJSONObj struct {
	X int    `json:"x"`
	Y string `json:"y,omitempty"`
}

type zzQueryObj struct {
	X int `query:"x" json:"x" path:"x" header:"x" cookie:"x"`
}

type zzPlainObj struct {
	X int
}

type zzRec struct {
	Value string            `json:"value"`
	Subs  []*zzRec          `json:"subs"`
	Named map[string]*zzRec `json:"named"`
}

type zzFieldKind struct {
	t        reflect.Type
	schema   string
	object   bool
	jsonTags bool
	file     bool
}

var zzFieldKinds = []zzFieldKind{
	{t: reflect.TypeOf(""), schema: "string"},
	{t: reflect.TypeOf(0), schema: "integer"},
	{t: reflect.TypeOf(true), schema: "boolean"},
	{t: reflect.TypeOf(1.5), schema: "number"},
	{t: reflect.TypeOf(new(int)), schema: "integer"},
	{t: reflect.TypeOf([]string{}), schema: "array"},
	{t: reflect.TypeOf([]zzPlainObj{}), schema: "array"},
	{t: reflect.TypeOf([]zzRec{}), schema: "array"},
	{t: reflect.TypeOf(map[string]*zzRec{}), object: true},
	{t: reflect.TypeOf(time.Time{}), schema: "string"},
	{t: reflect.TypeOf(map[string]int{}), object: true},
	{t: reflect.TypeOf(zzJSONObj{}), object: true, jsonTags: true},
	{t: reflect.TypeOf(&zzJSONObj{}), object: true, jsonTags: true},
	{t: reflect.TypeOf(zzQueryObj{}), object: true},
}

var zzFileKinds = []zzFieldKind{
	{t: reflect.TypeOf((*multipart.File)(nil)).Elem(), file: true},
	{t: reflect.TypeOf((*multipart.FileHeader)(nil)), file: true},
	{t: reflect.TypeOf([]multipart.File{}), file: true},
	{t: reflect.TypeOf([]*multipart.FileHeader{}), file: true},
}

// zzStructField is a field of a generated structure.
type zzStructField struct {
	name     string // of the field
	kind     zzFieldKind
	tags     map[string]string
	embedded []zzStructField
}

func (f zzStructField) String() string {
	t := ""
	for _, k := range zzTagOrder {
		if v, ok := f.tags[k]; ok {
			t += fmt.Sprintf(" %s:%q", k, v)
		}
	}
	if f.embedded != nil {
		return fmt.Sprintf("%s{%v}%s", f.name, f.embedded, t)
	}

	return fmt.Sprintf("%s %s%s", f.name, f.kind.t, t)
}

var zzTagOrder = []string{"path", "query", "cookie", "header", "form", "formData", "json", "required", "description", "deprecated", "collectionFormat", "additionalProperties", "contentType"}

func (f zzStructField) tag() reflect.StructTag {
	t := ""
	for _, k := range zzTagOrder {
		if v, ok := f.tags[k]; ok {
			t += fmt.Sprintf(" %s:%q", k, v)
		}
	}

	return reflect.StructTag(strings.TrimSpace(t))
}

var zzParamNames = []string{"id", "a-b", "X-Trace", "n.m", "q", "id2", "naïve", "", "-", "x,omitempty", ",omitempty", "Id"}

// zzFields makes the fields of a random structure.
func zzFields(r *zzh.R, depth int, locs []string, files bool) []zzStructField {
	var fs []zzStructField
	for i := r.Intn(5); i >= 0; i-- {
		f := zzStructField{name: fmt.Sprintf("F%d%d", depth, i), tags: map[string]string{}, kind: zzFieldKinds[r.Intn(len(zzFieldKinds))]}
		if files && r.Intn(5) == 0 {
			f.kind = zzFileKinds[r.Intn(len(zzFileKinds))]
		}
		if depth > 0 && r.Intn(8) == 0 {
			f.name = fmt.Sprintf("E%d%d", depth, i)
			f.embedded = zzFields(r, depth-1, locs, files)
			fs = append(fs, f)

			continue
		}
		for _, l := range locs {
			if r.Intn(3) == 0 {
				n := zzParamNames[r.Intn(len(zzParamNames))]
				if r.Intn(2) == 0 {
					n = fmt.Sprintf("p%d%d", depth, i)
				}
				f.tags[l] = n
			}
		}
		if r.Intn(4) == 0 {
			f.tags["required"] = r.Pick("true", "true", "false")
		}
		if r.Intn(4) == 0 {
			f.tags["description"] = r.Pick("about it", "other")
		}
		if r.Intn(6) == 0 {
			f.tags["deprecated"] = "true"
		}
		switch {
		case f.kind.schema == "array" && r.Intn(2) == 0:
			f.tags["collectionFormat"] = r.Pick("csv", "ssv", "pipes", "multi", "json", "tsv")
		case r.Intn(10) == 0:
			f.tags["collectionFormat"] = "json"
		}
		fs = append(fs, f)
	}

	return fs
}

func zzTypeOf(fs []zzStructField) reflect.Type {
	var sf []reflect.StructField
	for _, f := range fs {
		t := f.kind.t
		if f.embedded != nil {
			t = zzTypeOf(f.embedded)
		}
		sf = append(sf, reflect.StructField{Name: f.name, Type: t, Tag: f.tag(), Anonymous: f.embedded != nil})
	}

	return reflect.StructOf(sf)
}

// zzNamed is a field under its name in a location.
type zzNamed struct {
	name  string
	field zzStructField
}

// zzTagged lists the fields that belong to a location given by its tags.
func zzTagged(fs []zzStructField, mapping map[string]string, tags ...string) (r []zzNamed) {
	for _, f := range fs {
		if f.embedded != nil {
			r = append(r, zzTagged(f.embedded, mapping, tags...)...)

			continue
		}
		tag, ok := mapping[f.name]
		for _, t := range tags {
			if !ok {
				tag, ok = f.tags[t]
			}
		}
		if !ok || tag == "-" {
			continue
		}
		n := strings.Split(tag, ",")[0]
		if n == "" {
			n = f.name
		}
		r = append(r, zzNamed{n, f})
	}

	return r
}
