package openapi_test

import (
	"reflect"
	"strings"
	"testing"

	"github.com/swaggest/openapi-go/internal/zzh"
	_ "github.com/swaggest/openapi-go/openapi3"
)

func TestVerifC06V30(t *testing.T) {
	zzh.Run(t, "C06", "every With*/Ens method of every entity on random prior values; distinct = distinct (method, arguments, prior value)", func(r *zzh.R) {
		for round := 0; round < r.N(12, 300) && !r.Late(); round++ {
			for _, et := range zzEntitiesV30() {
				pt := reflect.PtrTo(et)
				for mi := 0; mi < pt.NumMethod(); mi++ {
					m := pt.Method(mi)
					if strings.HasPrefix(m.Name, "With") || strings.HasSuffix(m.Name, "Ens") {
						zzBuilderV30(r, et, m, round)
					}
				}
			}
		}
	})
}

func zzBuilderV30(r *zzh.R, et reflect.Type, m reflect.Method, round int) {
	g := zzGen(r, 2, []int{0, 35, 100}[round%3])
	e := reflect.New(et)
	if round%4 > 0 {
		e.Elem().Set(g.Value(et, 3))
	}
	before := reflect.New(et)
	before.Elem().Set(reflect.ValueOf(zzh.Copy(e.Elem().Interface())))
	if strings.HasSuffix(m.Name, "Ens") && !strings.HasPrefix(m.Name, "With") {
		f := strings.TrimSuffix(m.Name, "Ens")
		if _, ok := et.FieldByName(f); !ok {
			return
		}
		r.Case("%s.%s on %s", et.Name(), m.Name, zzh.JSON(e.Interface()))
		r.Try("panic", func() {
			old := e.Elem().FieldByName(f)
			oldNil, oldPtr := old.IsNil(), old.Pointer()
			res := m.Func.Call([]reflect.Value{e})[0]
			fv := e.Elem().FieldByName(f)
			r.Check(!res.IsNil() && fv.Pointer() == res.Pointer(), m.Name, "%s.%s does not return the field", et.Name(), m.Name)
			if !oldNil {
				r.Check(fv.Pointer() == oldPtr, m.Name, "%s.%s replaced an existing value", et.Name(), m.Name)
			} else if fv.Kind() == reflect.Ptr && !fv.IsNil() {
				before.Elem().FieldByName(f).Set(reflect.New(fv.Type().Elem()))
			}
			d := zzh.Diff(e.Elem().Interface(), before.Elem().Interface())
			r.Check(d == "", m.Name, "%s.%s: %s", et.Name(), m.Name, d)
		})
		return
	}
	f := strings.TrimPrefix(m.Name, "With")
	args := []reflect.Value{e}
	if field, ok := et.FieldByName(f); ok && m.Type.NumIn() == 2 {
		if m.Type.IsVariadic() {
			for i := r.Intn(3); i > 0; i-- {
				args = append(args, g.Value(m.Type.In(1).Elem(), 2))
			}
		} else {
			args = append(args, g.Value(m.Type.In(1), 2))
		}
		r.Case("%s.%s(%s) on %s", et.Name(), m.Name, zzShowArgs(args), zzh.JSON(e.Interface()))
		r.Try("panic", func() {
			res := m.Func.Call(args)[0]
			r.Check(res.Pointer() == e.Pointer(), m.Name, "%s.%s does not return its receiver", et.Name(), m.Name)
			w := before.Elem().FieldByName(f)
			switch {
			case m.Type.IsVariadic():
				s := reflect.MakeSlice(field.Type, 0, 2)
				w.Set(reflect.Append(s, args[1:]...))
			case field.Type == m.Type.In(1):
				w.Set(args[1])
			default:
				p := reflect.New(field.Type.Elem())
				p.Elem().Set(args[1])
				w.Set(p)
			}
			d := zzh.Diff(e.Elem().Interface(), before.Elem().Interface())
			r.Check(d == "", m.Name, "%s.%s(%s): %s", et.Name(), m.Name, zzShowArgs(args), d)
		})
		return
	}
	f = strings.TrimSuffix(f, "Item")
	field, ok := et.FieldByName(f)
	if !ok || field.Type.Kind() != reflect.Map || m.Type.NumIn() != 3 {
		return
	}
	key := g.Str()
	if old := e.Elem().FieldByName(f); old.Len() > 0 && r.Intn(2) == 0 {
		key = old.MapKeys()[0].String()
	}
	args = append(args, reflect.ValueOf(key), g.Value(m.Type.In(2), 2))
	r.Case("%s.%s(%s) on %s", et.Name(), m.Name, zzShowArgs(args), zzh.JSON(e.Interface()))
	r.Try("panic", func() {
		res := m.Func.Call(args)[0]
		r.Check(res.Pointer() == e.Pointer(), m.Name, "%s.%s does not return its receiver", et.Name(), m.Name)
		w := before.Elem().FieldByName(f)
		if w.IsNil() {
			w.Set(reflect.MakeMap(w.Type()))
		}
		w.SetMapIndex(args[1], args[2])
		d := zzh.Diff(e.Elem().Interface(), before.Elem().Interface())
		r.Check(d == "", m.Name, "%s.%s(%s): %s", et.Name(), m.Name, zzShowArgs(args), d)
	})
}
