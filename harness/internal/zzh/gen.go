package zzh

import (
	"fmt"
	"math/rand"
	"reflect"
	"strings"
)

// Gen makes random values of document entity types.
type Gen struct {
	*rand.Rand
	// MaxDepth bounds the nesting.
	MaxDepth int
	// ByType overrides the generation of types by their name.
	ByType map[string]func(g *Gen, depth int) interface{}
	// OneOf lists types of which exactly one field is set.
	OneOf map[string]bool
	// Keys gives the keys of map fields, by "Type.Field".
	Keys map[string][]string
	// Skip lists fields to leave alone, by "Type.Field".
	Skip map[string]bool
	// Density is the chance (of 100) for an optional field to be set.
	Density int
}

var genStrings = []string{"", "a", "b", "some text", "näme", "x-y", "/p/{id}", "https://example.com/?a=b&c=<d>", "\"quoted\"", "null", "true", "12", "3.5", "line1\nline2", "~", " ", "#", "日本", "a: b", "- x", "1e3", "0x1f", "yes"}

// Str makes a string.
func (g *Gen) Str() string { return genStrings[g.Intn(len(genStrings))] }

// Any makes a JSON value as encoding/json would decode it.
func (g *Gen) Any(depth int) interface{} {
	n := 6
	if depth <= 0 {
		n = 4
	}
	switch g.Intn(n) {
	case 0:
		return g.Str()
	case 1:
		return float64(g.Intn(2000)-1000) / 4
	case 2:
		return g.Intn(2) == 0
	case 3:
		return g.Str() + "s"
	case 4:
		m := map[string]interface{}{}
		for i := g.Intn(3); i > 0; i-- {
			m[g.Str()] = g.Any(depth - 1)
		}
		return m
	default:
		l := make([]interface{}, 0, 2)
		for i := g.Intn(3); i > 0; i-- {
			l = append(l, g.Any(depth-1))
		}
		return l
	}
}

// Value makes a value of type t.
func (g *Gen) Value(t reflect.Type, depth int) reflect.Value {
	v := reflect.New(t).Elem()
	if f := g.ByType[t.Name()]; f != nil && t.Name() != "" {
		v.Set(reflect.ValueOf(f(g, depth)).Convert(t))
		return v
	}
	switch t.Kind() {
	case reflect.String:
		v.SetString(g.Str())
	case reflect.Bool:
		v.SetBool(g.Intn(2) == 0)
	case reflect.Int, reflect.Int64:
		v.SetInt(int64(g.Intn(200) - 20))
		if g.Intn(12) == 0 {
			v.SetInt(int64(1)<<53 + 1)
		}
	case reflect.Float64:
		v.SetFloat(float64(g.Intn(2000)-1000) / 8)
	case reflect.Interface:
		if t.NumMethod() == 0 {
			v.Set(reflect.ValueOf(g.Any(2)))
		}
	case reflect.Ptr:
		p := reflect.New(t.Elem())
		p.Elem().Set(g.Value(t.Elem(), depth))
		v.Set(p)
	case reflect.Slice:
		n := 1 + g.Intn(2)
		s := reflect.MakeSlice(t, 0, n)
		for i := 0; i < n; i++ {
			s = reflect.Append(s, g.Value(t.Elem(), depth-1))
		}
		v.Set(s)
	case reflect.Map:
		v.Set(g.mapOf(t, depth, nil))
	case reflect.Struct:
		g.fill(v, t, depth)
	}
	return v
}

func (g *Gen) mapOf(t reflect.Type, depth int, keys []string) reflect.Value {
	m := reflect.MakeMap(t)
	for i := 1 + g.Intn(2); i > 0; i-- {
		k := g.Str()
		if keys != nil {
			k = keys[g.Intn(len(keys))]
		}
		m.SetMapIndex(reflect.ValueOf(k).Convert(t.Key()), g.Value(t.Elem(), depth-1))
	}
	return m
}

func (g *Gen) fill(v reflect.Value, t reflect.Type, depth int) {
	set := func(i int) {
		f := t.Field(i)
		if f.PkgPath != "" || g.Skip[t.Name()+"."+f.Name] {
			return
		}
		if f.Type.Kind() == reflect.Map {
			keys := g.Keys[t.Name()+"."+f.Name]
			if keys == nil && f.Name == "MapOfAnything" {
				keys = []string{"x-a", "x-b", "x-Foo", "x-" + g.Str()}
			}
			v.Field(i).Set(g.mapOf(f.Type, depth, keys))
			return
		}
		v.Field(i).Set(g.Value(f.Type, depth-1))
	}
	if g.OneOf[t.Name()] {
		var ptrs []int
		for i := 0; i < t.NumField(); i++ {
			if t.Field(i).Type.Kind() == reflect.Ptr && t.Field(i).Tag.Get("json") == "-" {
				ptrs = append(ptrs, i)
			} else if t.Field(i).Type.Kind() != reflect.Ptr || g.Intn(2) == 0 {
				set(i)
			}
		}
		k := ptrs[g.Intn(len(ptrs))]
		if depth <= 0 { // prefer the smallest alternative
			for _, i := range ptrs {
				if n := t.Field(i).Type.Elem(); strings.HasSuffix(n.Name(), "Reference") || n.Kind() != reflect.Struct {
					k = i
				}
			}
		}
		set(k)
		return
	}
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		tag := f.Tag.Get("json")
		optional := f.Type.Kind() == reflect.Ptr || strings.Contains(tag, "omitempty") || tag == "-"
		if optional && (g.Intn(100) >= g.Density || depth <= 0 && !leaf(f.Type)) {
			continue
		}
		set(i)
	}
}

func leaf(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Ptr:
		return leaf(t.Elem())
	case reflect.Struct, reflect.Slice, reflect.Map:
		return false
	}
	return true
}

// Of makes a value of type T.
func Of[T any](g *Gen, depth int) T {
	var t T
	return g.Value(reflect.TypeOf(&t).Elem(), depth).Interface().(T)
}

// Trunc shortens a text.
func Trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + fmt.Sprintf("…(%d bytes)", len(s))
	}
	return s
}
