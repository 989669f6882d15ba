package openapi_test

import (
	"encoding/json"
	"fmt"
	"strings"

	"github.com/swaggest/jsonschema-go"
	openapi "github.com/swaggest/openapi-go"
	"github.com/swaggest/openapi-go/internal/zzh"
)

const zzLocal16 = "#/components/schemas/"

func zzData16(s *jsonschema.SchemaOrBool) interface{} {
	var v interface{}
	j, err := json.Marshal(s)
	if err != nil {
		panic(err)
	}
	if err := json.Unmarshal(j, &v); err != nil {
		panic(err)
	}

	return v
}

// zzCall16 describes a call; the schemas that come along with a form property are left out.
func zzCall16(in openapi.In, name string, s *jsonschema.SchemaOrBool, required, form bool) string {
	d := "-"
	if s != nil {
		v := zzData16(s)
		if m, ok := v.(map[string]interface{}); ok && form {
			delete(m, "components")
		}
		d = zzh.JSON(v)
	}

	return fmt.Sprintf("%s %q %v %s", in, name, required, d)
}

// zzForm16 is the object schema of a form.
func zzForm16(s jsonschema.SchemaOrBool) *jsonschema.Schema {
	for i := 0; i < 10 && s.TypeObject.Ref != nil; i++ {
		c, _ := s.TypeObject.ExtraProperties["components"].(map[string]interface{})
		m, _ := c["schemas"].(map[string]jsonschema.SchemaOrBool)
		n, ok := m[strings.TrimPrefix(*s.TypeObject.Ref, zzLocal16)]
		if !ok || n.TypeObject == nil {
			break
		}
		s = n
	}

	return s.TypeObject
}

// zzDangling16 checks that the local references of a schema can be resolved within it.
func zzDangling16(r *zzh.R, s *jsonschema.SchemaOrBool) {
	v := zzData16(s)
	m, _ := v.(map[string]interface{})
	c, _ := m["components"].(map[string]interface{})
	ss, _ := c["schemas"].(map[string]interface{})
	zzRefs15(v, func(n string) {
		if _, ok := ss[n]; !ok {
			r.Fail("dangling", "%s in %s", n, zzh.Trunc(zzh.JSON(v), 300))
		}
	})
}

// zzClean16 leaves plain names of parameters only.
func zzClean16(fs []zzStructField) {
	for i, f := range fs {
		for l, n := range f.tags {
			switch l {
			case "path", "query", "header", "cookie", "form", "formData":
				if strings.ContainsAny(n, ",") || n == "" || n == "-" || l == "path" {
					f.tags[l] = fmt.Sprintf("n%d%s", i, f.name)
				}
			}
		}
		zzClean16(f.embedded)
	}
}

type (
	ZzS16 struct {
		Name string `formData:"name" required:"true"`
		Next *ZzS16 `formData:"next" json:"next"`
	}
	ZzT16 struct {
		Name string          `form:"name"`
		Sub  ZzS16           `form:"sub" json:"sub"`
		M    map[string]ZzA15 `form:"m" required:"true"`
	}
)

var zzForms16 = []interface{}{ZzS16{}, ZzT16{}, new(ZzS16)}

// zzFirst16 leaves the expected calls that look alike.
func zzFirst16(want []string, got string) (r []string) {
	for _, w := range want {
		if strings.Join(strings.Fields(w)[:2], " ") == strings.Join(strings.Fields(got)[:2], " ") {
			r = append(r, w)
		}
	}

	return r
}

// zzBad16 are structures that can not be reflected.
var zzBad16 = []interface{}{
	struct {
		A chan int `json:"a"`
	}{},
	struct {
		A chan int `query:"a"`
	}{},
	struct {
		A func() `header:"a"`
		B string `json:"b"`
	}{},
	struct {
		A chan int `formData:"a"`
	}{},
	map[chan int]string{},
}
