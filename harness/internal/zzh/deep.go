package zzh

import (
	"fmt"
	"reflect"
)

// Copy makes a deep copy (exported and unexported fields of structs are only copied when settable; functions and
// channels are shared).
func Copy[T any](v T) T {
	seen := map[uintptr]reflect.Value{}
	out := reflect.New(reflect.TypeOf(&v).Elem()).Elem()
	out.Set(deepCopy(reflect.ValueOf(&v).Elem(), seen))
	return out.Interface().(T)
}

func deepCopy(v reflect.Value, seen map[uintptr]reflect.Value) reflect.Value {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return v
		}
		if c, ok := seen[v.Pointer()]; ok && c.Type() == v.Type() {
			return c
		}
		c := reflect.New(v.Type().Elem())
		seen[v.Pointer()] = c
		c.Elem().Set(deepCopy(v.Elem(), seen))
		return c
	case reflect.Interface:
		if v.IsNil() {
			return v
		}
		c := reflect.New(v.Type()).Elem()
		c.Set(deepCopy(v.Elem(), seen))
		return c
	case reflect.Map:
		if v.IsNil() {
			return v
		}
		c := reflect.MakeMapWithSize(v.Type(), v.Len())
		for _, k := range v.MapKeys() {
			c.SetMapIndex(k, deepCopy(v.MapIndex(k), seen))
		}
		return c
	case reflect.Slice:
		if v.IsNil() {
			return v
		}
		c := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		for i := 0; i < v.Len(); i++ {
			c.Index(i).Set(deepCopy(v.Index(i), seen))
		}
		return c
	case reflect.Array:
		c := reflect.New(v.Type()).Elem()
		for i := 0; i < v.Len(); i++ {
			c.Index(i).Set(deepCopy(v.Index(i), seen))
		}
		return c
	case reflect.Struct:
		c := reflect.New(v.Type()).Elem()
		c.Set(v)
		for i := 0; i < v.NumField(); i++ {
			if c.Field(i).CanSet() && v.Type().Field(i).IsExported() {
				c.Field(i).Set(deepCopy(v.Field(i), seen))
			}
		}
		return c
	}
	return v
}

// Diff describes the first difference between two values, "" if there is none. A nil map or slice equals an empty one.
func Diff(a, b interface{}) string {
	return diff(reflect.ValueOf(a), reflect.ValueOf(b), "", 0)
}

func diff(a, b reflect.Value, path string, depth int) string {
	if depth > 200 {
		return ""
	}
	if !a.IsValid() || !b.IsValid() {
		if a.IsValid() != b.IsValid() {
			return path + ": one is nil"
		}
		return ""
	}
	if a.Type() != b.Type() {
		return fmt.Sprintf("%s: types %s and %s", path, a.Type(), b.Type())
	}
	switch a.Kind() {
	case reflect.Ptr, reflect.Interface:
		if a.IsNil() || b.IsNil() {
			if a.IsNil() != b.IsNil() {
				return fmt.Sprintf("%s: nil and non-nil: %s and %s", path, show(a), show(b))
			}
			return ""
		}
		if a.Kind() == reflect.Ptr && a.Pointer() == b.Pointer() {
			return ""
		}
		return diff(a.Elem(), b.Elem(), path, depth+1)
	case reflect.Map:
		for _, k := range a.MapKeys() {
			p := fmt.Sprintf("%s[%v]", path, k.Interface())
			bv := b.MapIndex(k)
			if !bv.IsValid() {
				return p + ": missing in second, first has " + show(a.MapIndex(k))
			}
			if d := diff(a.MapIndex(k), bv, p, depth+1); d != "" {
				return d
			}
		}
		for _, k := range b.MapKeys() {
			if !a.MapIndex(k).IsValid() {
				return fmt.Sprintf("%s[%v]: only in second: %s", path, k.Interface(), show(b.MapIndex(k)))
			}
		}
		return ""
	case reflect.Slice, reflect.Array:
		if a.Len() != b.Len() {
			return fmt.Sprintf("%s: lengths %d and %d: %s and %s", path, a.Len(), b.Len(), show(a), show(b))
		}
		for i := 0; i < a.Len(); i++ {
			if d := diff(a.Index(i), b.Index(i), fmt.Sprintf("%s[%d]", path, i), depth+1); d != "" {
				return d
			}
		}
		return ""
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if d := diff(a.Field(i), b.Field(i), path+"."+a.Type().Field(i).Name, depth+1); d != "" {
				return d
			}
		}
		return ""
	case reflect.Func:
		if a.IsNil() != b.IsNil() || !a.IsNil() && a.Pointer() != b.Pointer() {
			return path + ": functions differ"
		}
		return ""
	case reflect.Bool:
		if a.Bool() != b.Bool() {
			return fmt.Sprintf("%s: %v and %v", path, a.Bool(), b.Bool())
		}
		return ""
	case reflect.String:
		if a.String() != b.String() {
			return fmt.Sprintf("%s: %q and %q", path, a.String(), b.String())
		}
		return ""
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if a.Int() != b.Int() {
			return fmt.Sprintf("%s: %v and %v", path, a.Int(), b.Int())
		}
		return ""
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		if a.Uint() != b.Uint() {
			return fmt.Sprintf("%s: %v and %v", path, a.Uint(), b.Uint())
		}
		return ""
	case reflect.Float32, reflect.Float64:
		if a.Float() != b.Float() {
			return fmt.Sprintf("%s: %v and %v", path, a.Float(), b.Float())
		}
		return ""
	}
	return ""
}

func show(v reflect.Value) string {
	if !v.IsValid() || !v.CanInterface() {
		return "?"
	}
	s := JSON(v.Interface())
	if len(s) > 300 {
		s = s[:300] + "…"
	}
	return s
}
