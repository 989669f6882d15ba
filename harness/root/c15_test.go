package openapi_test

import (
	"fmt"
	"sort"
	"encoding/json"
	"strings"
)

type (
	ZzA15 struct {
		N string           `json:"n"`
		B *ZzB15           `json:"b"`
		C []ZzC15          `json:"c"`
		D map[string]ZzD15 `json:"d"`
	}
	ZzB15 struct {
		A *ZzA15 `json:"a"` // recursive
		E ZzE15  `json:"e"`
	}
	ZzC15 struct {
		X int `json:"x"`
	}
	ZzD15 struct {
		C *ZzC15 `json:"c"`
		S *ZzD15 `json:"s"`
	}
	ZzE15      struct{ Y string }
	ZzP15[T any] struct {
		Items []T `json:"items"`
	}
	ZzQ15 struct {
		F ZzC15            `query:"f"`
		G ZzA15            `query:"g" collectionFormat:"json"`
		H string           `header:"h"`
		I map[string]ZzE15 `query:"i"`
	}
	ZzI15 struct {
		X int `query:"x"`
	}
	ZzR15 struct {
		ZzI15
		K ZzB15 `query:"k"`
	}
	ZzF15 struct {
		Name string  `formData:"name"`
		Sub  ZzG15   `formData:"sub"`
		Subs []ZzG15 `formData:"subs"`
	}
	ZzG15 struct {
		V string `formData:"v" json:"v"`
		W ZzC15  `formData:"w"`
	}
	ZzH15 struct {
		H string `header:"X-H"`
		A ZzA15  `json:"a"`
	}
)

var (
	zzParams15 = []interface{}{ZzQ15{}, ZzR15{}, nil, new(ZzQ15)}
	zzBodies15 = []interface{}{ZzA15{}, new(ZzB15), []ZzD15{}, map[string]ZzC15{}, ZzP15[ZzA15]{}, ZzP15[ZzP15[ZzD15]]{}, ZzF15{}, nil}
	zzResps15  = []interface{}{ZzA15{}, ZzB15{}, []ZzC15{}, map[string]ZzD15{}, ZzP15[ZzC15]{}, ZzP15[ZzP15[ZzB15]]{}, new(ZzD15), "str", nil, ZzH15{}}
)

// zzDoc15 is the document as plain data.
func zzDoc15(v interface{}) map[string]interface{} {
	var m map[string]interface{}
	j, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	if err := json.Unmarshal(j, &m); err != nil {
		panic(err)
	}

	return m
}

func zzSchemas15(doc map[string]interface{}) map[string]interface{} {
	c, _ := doc["components"].(map[string]interface{})
	s, _ := c["schemas"].(map[string]interface{})

	return s
}

// zzRefs15 collects the local schema references of a document.
func zzRefs15(v interface{}, f func(name string)) {
	switch v := v.(type) {
	case map[string]interface{}:
		for k, x := range v {
			if s, ok := x.(string); ok && k == "$ref" && strings.HasPrefix(s, "#/") {
				f(strings.TrimPrefix(s, "#/components/schemas/"))
			}
			zzRefs15(x, f)
		}
	case []interface{}:
		for _, x := range v {
			zzRefs15(x, f)
		}
	}
}

func zzTypes15(vs []interface{}) string {
	var ss []string
	for _, v := range vs {
		ss = append(ss, fmt.Sprintf("%T", v))
	}

	return "[" + strings.Join(ss, " ") + "]"
}

func zzSorted15(ss []string) []string {
	seen := map[string]bool{}
	var r []string
	for _, s := range ss {
		if !seen[s] {
			seen[s] = true
			r = append(r, s)
		}
	}
	sort.Strings(r)

	return r
}
