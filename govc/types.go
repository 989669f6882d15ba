package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"
)

var (
	structSorts = map[string]*Sort{}
	fieldIDs    = map[string]int{}
	tagIDs      = map[string]int{}
	tagTypes    = map[string]types.Type{}
	tagByID     = map[int]string{}
)

func qual(p *types.Package) string { return p.Path() }

// typeKey identifies types up to the conversions that keep the value representation.
func typeKey(t types.Type) string {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Name()
	case *types.Struct:
		return structKey(u)
	case *types.Slice:
		return "[]" + typeKey(u.Elem())
	case *types.Map:
		return "map[" + typeKey(u.Key()) + "]" + typeKey(u.Elem())
	case *types.Interface:
		return "iface"
	case *types.Signature:
		return "func"
	case *types.Pointer:
		return "*" + types.TypeString(u.Elem(), qual)
	}
	return types.TypeString(t, qual)
}

var structKeyMemo = map[*types.Struct]string{}

func structKey(s *types.Struct) string {
	if k, ok := structKeyMemo[s]; ok {
		return k
	}
	var b strings.Builder
	b.WriteString("struct{")
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		b.WriteString(f.Name() + " " + types.TypeString(f.Type(), qual) + ";")
	}
	b.WriteString("}")
	structKeyMemo[s] = b.String()
	return b.String()
}

type unsupported struct{ msg string }

func fail(f string, a ...interface{}) { panic(unsupported{fmt.Sprintf(f, a...)}) }

func vcType(t types.Type) (string, *types.Named) {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil || !strings.HasSuffix(n.Obj().Pkg().Path(), "internal/vc") {
		return "", nil
	}
	return n.Obj().Name(), n
}

func sortOf(t types.Type) *Sort {
	if n, nt := vcType(t); n == "Visited" {
		return arrSort(sortOf(nt.TypeArgs().At(0)), sBool)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return sBool
		case u.Info()&types.IsInteger != 0:
			return sInt
		case u.Info()&types.IsString != 0:
			return sStr
		case u.Info()&(types.IsFloat|types.IsComplex) != 0:
			return sF64
		case u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil:
			return sRef
		}
	case *types.Pointer, *types.Map, *types.Chan:
		return sRef
	case *types.Slice:
		return sSlice
	case *types.Interface:
		return sIface
	case *types.Signature:
		return sFunc
	case *types.Struct:
		return structSort(u, t)
	case *types.Array:
		return arrSort(sInt, sortOf(u.Elem()))
	}
	fail("no sort for type %s", t)
	return nil
}

func structSort(u *types.Struct, t types.Type) *Sort {
	k := structKey(u)
	if s, ok := structSorts[k]; ok {
		return s
	}
	name := "anon"
	if n, ok := t.(*types.Named); ok {
		name = n.Obj().Name()
		if p := n.Obj().Pkg(); p != nil {
			name = p.Name() + "_" + name
		}
	}
	s := &Sort{name: fmt.Sprintf("T%d_%s", len(structSorts), sanitize(name))}
	structSorts[k] = s
	dt := &Datatype{name: s.name}
	for i := 0; i < u.NumFields(); i++ {
		dt.fields = append(dt.fields, DTField{name: sanitize(u.Field(i).Name()), sort: sortOf(u.Field(i).Type())})
	}
	s.dt = dt
	return s
}

func fieldID(u *types.Struct, i int) int {
	k := fmt.Sprintf("%s#%d", structKey(u), i)
	if id, ok := fieldIDs[k]; ok {
		return id
	}
	id := len(fieldIDs) + 1
	fieldIDs[k] = id
	return id
}

var zeroF64 = mkConst("f64!0", sF64)

func zeroOf(t types.Type) *Term {
	if n, _ := vcType(t); n == "Visited" {
		return zeroSort(sortOf(t))
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		s := sortOf(t)
		var a []*Term
		for i := 0; i < u.NumFields(); i++ {
			a = append(a, zeroOf(u.Field(i).Type()))
		}
		return mkCtor(s, a...)
	case *types.Array:
		return mkConstArr(sortOf(t), zeroOf(u.Elem()))
	}
	return zeroSort(sortOf(t))
}

func zeroSort(s *Sort) *Term {
	switch s {
	case sBool:
		return tFalse
	case sInt:
		return mkInt(0)
	case sStr:
		return mkStr("")
	case sF64:
		return zeroF64
	case sRef:
		return tNull
	case sSlice:
		return nilSlice
	case sIface:
		return tNilIface
	case sFunc:
		return tNilFunc
	}
	if s.dt != nil {
		var a []*Term
		for _, f := range s.dt.fields {
			a = append(a, zeroSort(f.sort))
		}
		return mkCtor(s, a...)
	}
	if s.key != nil {
		return mkConstArr(s, zeroSort(s.val))
	}
	fail("no zero for sort %s", s.name)
	return nil
}

var nilSlice = mkSlice(tNull, mkInt(0))

func constTerm(t types.Type, v constant.Value) *Term {
	if v == nil {
		return zeroOf(t)
	}
	switch sortOf(t) {
	case sBool:
		return mkBool(constant.BoolVal(v))
	case sInt:
		if i, ok := constant.Int64Val(constant.ToInt(v)); ok {
			return mkInt(i)
		}
		fail("big int constant %s", v)
	case sStr:
		return mkStr(constant.StringVal(v))
	case sF64:
		if constant.Sign(v) == 0 {
			return zeroF64
		}
		return mkConst("f64!"+sanitize(v.ExactString()), sF64)
	}
	fail("constant of type %s", t)
	return nil
}

func boxName(t types.Type) string {
	k := types.TypeString(t, qual)
	n := "T_" + sanitize(k)
	if _, ok := tagIDs[n]; !ok {
		tagIDs[n] = len(tagIDs) + 1
		tagTypes[n] = t
		tagByID[tagIDs[n]] = n
	}
	return n
}

func mkBox(t types.Type, v *Term) *Term {
	n := boxName(t)
	if v.op == OApp && v.name == "unbox!"+n && v.args[0].op != OIte {
		// box(unbox(i)) is i only if the tag fits; keep
		_ = n
	}
	r := mkApp("box!"+n, sIface, v)
	return r
}

func tagOf(i *Term) *Term {
	if i == tNilIface {
		return mkInt(0)
	}
	if i.op == OApp && strings.HasPrefix(i.name, "box!") {
		return mkInt(int64(tagIDs[strings.TrimPrefix(i.name, "box!")]))
	}
	if i.op == OIte {
		return mkIte(i.args[0], tagOf(i.args[1]), tagOf(i.args[2]))
	}
	return mkApp("tag", sInt, i)
}

func mkUnbox(t types.Type, i *Term) *Term {
	n := boxName(t)
	if i.op == OApp && i.name == "box!"+n {
		return i.args[0]
	}
	if i.op == OIte {
		return mkIte(i.args[0], mkUnbox(t, i.args[1]), mkUnbox(t, i.args[2]))
	}
	if i == tNilIface || i.op == OApp && strings.HasPrefix(i.name, "box!") {
		return zeroOf(t) // only used under a failing tag test
	}
	r := mkApp("unbox!"+n, sortOf(t), i)
	if r.bound[0] < 0 {
		if b := boundOf(i); b.ok {
			r.bound = [2]int{b.b, b.n}
		}
	}
	return r
}
