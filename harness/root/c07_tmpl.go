package openapi_test

import (
	"encoding/json"
	"reflect"
	"regexp"
	"strings"
	"testing"

	"github.com/swaggest/openapi-go/internal/zzh"
	"github.com/swaggest/openapi-go/openapi3"
)

// zzValidV30 says whether data is to be accepted as a value of the type; the oracle is the reviewed table.
func zzValidV30(t reflect.Type, data interface{}) bool {
	switch t.Kind() {
	case reflect.Ptr:
		return data == nil || zzValidV30(t.Elem(), data)
	case reflect.Interface:
		return true
	case reflect.Bool:
		_, ok := data.(bool)
		return ok
	case reflect.Float64:
		_, ok := data.(float64)
		return ok
	case reflect.Int64:
		f, ok := data.(float64)
		return ok && f == float64(int64(f))
	case reflect.String:
		s, ok := data.(string)
		if allowed, is := zzEnumsV30[t.Name()]; is && ok {
			ok = false
			for _, a := range allowed {
				ok = ok || a == s
			}
		}
		return ok
	case reflect.Slice:
		l, ok := data.([]interface{})
		for _, x := range l {
			ok = ok && zzValidNullV30(t.Elem(), x)
		}
		return ok
	case reflect.Map:
		m, ok := data.(map[string]interface{})
		for _, x := range m {
			ok = ok && zzValidNullV30(t.Elem(), x)
		}
		return ok
	}
	e := zzTableV30[t.Name()]
	if e.not != "" && zzValidV30(zzTypeByNameV30[e.not], data) {
		return false
	}
	if len(e.union) > 0 {
		switch t.Name() { // a 3.1 object with $ref is a reference, whatever else it has
		case "ExampleOrReference", "LinkOrReference", "PathItemOrReference", "ResponseOrReference":
			f, _ := t.FieldByName("Reference")
			if zzValidV30(f.Type.Elem(), data) {
				return true
			}
		}
		n := 0
		for _, u := range e.union {
			f, _ := t.FieldByName(u)
			if zzValidV30(f.Type.Elem(), data) {
				n++
			}
		}
		if n != 1 {
			return false
		}
		if len(e.known) == 0 && len(e.required) == 0 {
			return true
		}
	}
	m, ok := data.(map[string]interface{})
	if !ok {
		// Maps, Bearer and the like do not look at anything but objects.
		return !e.object && len(e.required) == 0
	}
	for _, k := range e.required {
		if _, ok := m[k]; !ok {
			return false
		}
	}
	for _, c := range e.consts {
		if v, ok := m[c[0]]; ok && zzh.JSON(v) != c[1] {
			return false
		}
	}
	switch t.Name() {
	case "Example": //@31
		_, a := m["value"]         //@31
		_, b := m["externalValue"] //@31
		if a && b {                //@31
			return false //@31
		} //@31
	case "Header": //@31
		_, a := m["schema"]  //@31
		_, b := m["content"] //@31
		if a == b {          //@31
			return false //@31
		} //@31
	case "NonBearer":
		_, ok := m["bearerFormat"]
		return !ok && m["scheme"] != "bearer"
	case "SecuritySchemeHTTP":
		s, _ := m["scheme"].(string)
		if strings.ToLower(s) == "bearer" {
			return false
		}
	case "SecuritySchemeHTTPBearer":
		s, _ := m["scheme"].(string)
		if strings.ToLower(s) != "bearer" {
			return false
		}
	}
	known := map[string]bool{}
	for _, k := range e.known {
		known[k] = true
	}
	for _, f := range e.fields {
		n := strings.Split(f[1], ",")[0]
		if n == "-" {
			continue
		}
		sf, ok := t.FieldByName(f[0])
		if !ok {
			continue // reported by the round trip
		}
		if v, ok := m[n]; ok && !zzValidNullV30(sf.Type, v) {
			return false
		}
	}
	for _, a := range e.also {
		f, _ := t.FieldByName(a)
		if !zzValidV30(f.Type, data) {
			return false
		}
	}
	for k, v := range m {
		if known[k] {
			continue
		}
		isConst := false
		for _, c := range e.consts {
			isConst = isConst || c[0] == k
		}
		if isConst {
			continue
		}
		matched := false
		for _, p := range e.patterns {
			if p[1] == "" && matched || p[1] != "" && !regexp.MustCompile(p[1]).MatchString(k) {
				continue
			}
			matched = true
			sf, ok := t.FieldByName(p[0])
			if ok && !zzValidNullV30(sf.Type.Elem(), v) {
				return false
			}
		}
		if !matched && e.strict {
			return false
		}
	}

	return true
}

func zzValidNullV30(t reflect.Type, data interface{}) bool {
	if data == nil && (t.Kind() != reflect.Struct || !zzTableV30[t.Name()].custom) {
		_, enum := zzEnumsV30[t.Name()]
		return !enum
	}

	return zzValidV30(t, data)
}

var zzTypeByNameV30 = func() map[string]reflect.Type {
	m := map[string]reflect.Type{}
	for _, t := range zzEntitiesV30() {
		m[t.Name()] = t
	}

	return m
}()

func TestVerifC07V30(t *testing.T) {
	types := zzEntitiesV30()
	zzh.Run(t, "C07", "random valid entities of every type, their JSON with 1-3 random changes at any depth (key removed, added, renamed, value replaced by another type or text); distinct = distinct JSON", func(r *zzh.R) {
		for round := 0; round < r.N(50000, 600000) && !r.Late(); round++ {
			tp := types[r.Intn(len(types))]
			if r.Intn(3) == 0 {
				tp = reflect.TypeOf(openapi3.Spec{})
			}
			g := zzGen(r, 2+r.Intn(5), 25)
			v := g.Value(tp, g.MaxDepth)
			j, err := json.Marshal(v.Interface())
			if err != nil {
				continue // the round trip tells
			}
			var data interface{}
			if err := json.Unmarshal(j, &data); err != nil {
				continue
			}
			for i := 1 + r.Intn(3); i > 0; i-- {
				data = zzMutate07(r, data, 1+r.Intn(g.MaxDepth+2), zzTableV30, zzEnumsV30)
			}
			if data == nil {
				continue
			}
			j, _ = json.Marshal(data)
			r.Case("%s %s", tp.Name(), j)
			want := zzValidV30(tp, data)
			p := reflect.New(tp)
			r.Try("panic", func() {
				err := json.Unmarshal(j, p.Interface())
				if err == nil && !want {
					r.Fail("accepted", "a malformed %s was decoded", tp.Name())
				}
				if err != nil && want {
					r.Fail("rejected", "a well-formed %s was rejected: %v", tp.Name(), err)
				}
			})
		}
	})
}

func TestVerifC07EnumsV30(t *testing.T) {
	zzh.Run(t, "C07", "all enumerations with allowed and other values, encoded and decoded; distinct = distinct (type, value)", func(r *zzh.R) {
		seen := map[reflect.Type]bool{}
		var enums []reflect.Type
		var visit func(t reflect.Type)
		visit = func(t reflect.Type) {
			switch t.Kind() {
			case reflect.Ptr, reflect.Slice, reflect.Map:
				visit(t.Elem())
			case reflect.String:
				if _, ok := zzEnumsV30[t.Name()]; ok && !seen[t] {
					seen[t] = true
					enums = append(enums, t)
				}
			}
		}
		for _, t := range zzEntitiesV30() {
			for i := 0; i < t.NumField(); i++ {
				visit(t.Field(i).Type)
			}
		}
		var all []string
		for _, vs := range zzEnumsV30 {
			all = append(all, vs...)
		}
		all = append(all, "", "zz", "Query", "PATH", "querY", " form", "null", "file", "any")
		for _, t := range enums {
			for _, s := range all {
				allowed := false
				for _, a := range zzEnumsV30[t.Name()] {
					allowed = allowed || a == s
				}
				r.Case("%s %q", t.Name(), s)
				p := reflect.New(t)
				err := json.Unmarshal([]byte(zzh.JSON(s)), p.Interface())
				r.Check((err == nil) == allowed, "decoding", "error %v, allowed %v", err, allowed)
				r.Check(err != nil || p.Elem().String() == s, "decoding", "%q", p.Elem().String())
				e := reflect.New(t).Elem()
				e.SetString(s)
				j, err := json.Marshal(e.Interface())
				r.Check((err == nil) == allowed, "encoding", "error %v, allowed %v", err, allowed)
				r.Check(err != nil || string(j) == zzh.JSON(s), "encoding", "%s", j)
			}
			for _, j := range []string{"1", "{}", "[]", "true"} {
				r.Case("%s %s", t.Name(), j)
				r.Check(json.Unmarshal([]byte(j), reflect.New(t).Interface()) != nil, "decoding", "accepted")
			}
		}
	})
}

func TestVerifC07KeysV30(t *testing.T) {
	types := zzEntitiesV30()
	zzh.Run(t, "C07", "for every entity type and each of its required keys, constant keys and (if it forbids others) foreign keys: valid entities with that key removed, changed or added; distinct = distinct JSON", func(r *zzh.R) {
		for _, tp := range types {
			e := zzTableV30[tp.Name()]
			for round := 0; round < r.N(12, 100); round++ {
				g := zzGen(r, 1+r.Intn(4), r.Intn(60)+20)
				v := reflect.New(tp)
				v.Elem().Set(g.Value(tp, g.MaxDepth))
				zzFixV30(r, v.Elem())
				wj := zzh.JSON(zzEncodeV30(v.Elem()))
				try := func(key string, change func(m map[string]interface{})) {
					var data map[string]interface{}
					if json.Unmarshal([]byte(wj), &data) != nil || !zzValidV30(tp, data) {
						return
					}
					change(data)
					if zzValidV30(tp, data) {
						return
					}
					j := zzh.JSON(data)
					r.Case("%s %s", tp.Name(), j)
					r.Try("panic", func() {
						r.Check(json.Unmarshal([]byte(j), reflect.New(tp).Interface()) != nil, "accepted: "+key, "a malformed %s was decoded", tp.Name())
					})
				}
				for _, k := range e.required {
					try("without a required key", func(m map[string]interface{}) { delete(m, k) })
				}
				for _, c := range e.consts {
					for _, x := range []interface{}{"zz", 1.0, nil, "oauth"} {
						try("with another constant", func(m map[string]interface{}) { m[c[0]] = x })
					}
				}
				if e.strict {
					for _, k := range []string{"zz", "X-zz", "xzz", "x", "$ref", "x_zz", " x-zz", "a-x-b", "description", "name", "summary", "example"} {
						try("with a foreign key", func(m map[string]interface{}) {
							if _, ok := m[k]; !ok {
								m[k] = "zz"
							}
						})
					}
				}
			}
		}
	})
}
