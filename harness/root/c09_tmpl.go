package openapi_test

import (
	"encoding/json"
	"fmt"
	"reflect"
	"testing"

	"github.com/swaggest/openapi-go/internal/zzh"
	"github.com/swaggest/openapi-go/openapi3"
	"gopkg.in/yaml.v2"
)

func TestVerifC09V30(t *testing.T) {
	zzh.Run(t, "C09", "random valid specifications (some with one random change) written as YAML in block and flow styles with unquoted numeric and boolean keys at every level, as JSON, and encoded by MarshalYAML; distinct = distinct texts", func(r *zzh.R) {
		for round := 0; round < r.N(4000, 60000) && !r.Late(); round++ {
			g := zzGen(r, 2+r.Intn(4), r.Intn(45)+5)
			var s openapi3.Spec
			v := reflect.ValueOf(&s).Elem()
			v.Set(g.Value(v.Type(), g.MaxDepth))
			zzFixV30(r, v)
			if r.Intn(2) == 0 {
				if s.MapOfAnything == nil {
					s.MapOfAnything = map[string]interface{}{}
				}
				s.MapOfAnything["x-nest"] = zzNest09(r, 5)
			}
			wj := zzh.JSON(zzEncodeV30(v))
			var data interface{}
			_ = json.Unmarshal([]byte(wj), &data)
			valid := zzValidV30(v.Type(), data)
			if round%3 == 0 {
				data = zzMutate07(r, data, 1+r.Intn(5), zzTableV30, zzEnumsV30)
			}
			wj = zzh.JSON(data)
			y := zzWrite09(r, data, 0, round%5 == 0)
			if round%7 == 0 {
				y = wj
			}
			r.Case("%s", y)
			r.Try("panic", func() {
				var a, b openapi3.Spec
				errA := a.UnmarshalYAML([]byte(y))
				errB := b.UnmarshalJSON([]byte(wj))
				if (errA == nil) != (errB == nil) {
					r.Fail("decoding", "as YAML: %v, as JSON: %v", errA, errB)
					return
				}
				if errA == nil {
					if d := zzh.Diff(&a, &b); d != "" {
						r.Fail("decoding", "as YAML and as JSON: %s", d)
					}
				}
			})
			if !valid {
				continue
			}
			r.Case("encoding %s", zzh.JSON(zzEncodeV30(v)))
			r.Try("panic", func() {
				j, err := json.Marshal(s)
				if err != nil {
					return // C08
				}
				y, err := s.MarshalYAML()
				if !r.Check(err == nil, "encoding", "error %v", err) {
					return
				}
				var ms yaml.MapSlice
				if err := yaml.Unmarshal(y, &ms); err != nil {
					r.Fail("encoding", "not YAML: %v\n%s", err, y)
					return
				}
				want, err := zzTopKeys09(j)
				if err != nil {
					r.Fail("encoding", "%v", err)
					return
				}
				var got []string
				for _, i := range ms {
					got = append(got, fmt.Sprint(i.Key))
				}
				if !reflect.DeepEqual(want, got) {
					r.Fail("order", "sections %v, in JSON %v", got, want)
				}
				var jd interface{}
				_ = json.Unmarshal(j, &jd)
				if d := zzh.Diff(jd, zzData09(ms)); d != "" {
					r.Fail("encoding", "JSON and YAML: %s", d)
				}
				var back openapi3.Spec
				if err := back.UnmarshalYAML(y); err != nil {
					r.Fail("round trip", "error %v", err)
					return
				}
				zzForgetV30(reflect.ValueOf(&back))
				zzForgetV30(reflect.ValueOf(&s))
				if d := zzh.Diff(&s, &back); d != "" {
					r.Fail("round trip", "%s", d)
				}
			})
		}
	})
}
