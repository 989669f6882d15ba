package main

// Decoding: a model of encoding/json.Unmarshal by its static target type, of compiled patterns and of
// package-level key lists.
//
//	ok!T(data)            data decodes into a T (the definition for a T with UnmarshalJSON: that method accepts it)
//	jnull(data)           data is the literal null
//	jdom, jvals(data)     keys and raw values of a JSON object
//	jfield!K!T(data, old) what is left in a field with key K
//	into!T(data, old)     what is left in a T
//
// data is taken to be immutable while it is decoded.

import (
	"go/constant"
	"go/types"
	"reflect"
	"regexp/syntax"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// initLists finds package-level slices of constants and compiled patterns.
func (e *Engine) initGlobal(i *ssa.Store, g *ssa.Global) {
	switch v := i.Val.(type) {
	case *ssa.Convert:
		if c, ok := v.X.(*ssa.Const); ok && isRawMessage(v.Type()) && c.Value != nil && c.Value.Kind() == constant.String {
			e.texts[g] = constant.StringVal(c.Value)
		}
	case *ssa.Call:
		f := v.Call.StaticCallee()
		if f != nil && f.String() == "regexp.MustCompile" {
			if c, ok := v.Call.Args[0].(*ssa.Const); ok {
				e.patterns[g] = constant.StringVal(c.Value)
			}
		}
	case *ssa.Slice:
		a, ok := v.X.(*ssa.Alloc)
		if !ok || v.Low != nil || v.High != nil {
			return
		}
		n := a.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		vals := make([]*ssa.Const, n)
		for _, r := range *a.Referrers() {
			ia, ok := r.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			ix, ok := ia.Index.(*ssa.Const)
			if !ok {
				return
			}
			for _, r2 := range *ia.Referrers() {
				if s, ok := r2.(*ssa.Store); ok {
					c, ok := s.Val.(*ssa.Const)
					if !ok {
						return
					}
					k, _ := constant.Int64Val(ix.Value)
					vals[k] = c
				}
			}
		}
		for _, c := range vals {
			if c == nil || c.Value == nil {
				return
			}
		}
		e.lists[g] = vals
	}
}

// rawLit is a constant JSON text (its bytes are not written).
func rawLit(s *Term) *Term { return mkApp("rawlit", sSlice, s) }

// listGlobal gives a package-level slice of constants as a slice of its own.
func (e *Engine) listGlobal(x *Exec, st *State, g *ssa.Global) *Term {
	vals, ok := e.lists[g]
	if !ok {
		return nil
	}
	el := g.Type().(*types.Pointer).Elem().Underlying().(*types.Slice).Elem()
	x.assumps["elements of package-level lists of constants are not written after initialisation"] = true
	r := x.alloc(st)
	k := ghost(arrKey(el), r)
	row := mkConstArr(k.sort.val, zeroOf(el))
	for i, c := range vals {
		row = mkStore(row, mkInt(int64(i)), constTerm(el, c.Value))
	}
	st.mem[k.name] = mkStore(x.memGet(st, k), r, row)
	return mkSlice(r, mkInt(int64(len(vals))))
}

var patternOf = map[*Term]string{}

// matchTerm tells that pattern matches s; a pattern that is a plain prefix is one.
func matchTerm(pattern string, s *Term) *Term {
	if re, err := syntax.Parse(pattern, syntax.Perl); err == nil {
		re = re.Simplify()
		if re.Op == syntax.OpBeginText {
			return tTrue
		}
		if re.Op == syntax.OpEmptyMatch {
			return tTrue
		}
		if re.Op == syntax.OpConcat && len(re.Sub) == 2 && re.Sub[0].Op == syntax.OpBeginText &&
			re.Sub[1].Op == syntax.OpLiteral && re.Sub[1].Flags&syntax.FoldCase == 0 {
			return pred2("str.hasprefix", s, mkStr(string(re.Sub[1].Rune)), strings.HasPrefix)
		}
	}
	return mkApp("rematch", sBool, mkStr(pattern), s)
}

func isRawMessage(t types.Type) bool {
	switch s := types.TypeString(types.Unalias(t), nil); s {
	case "encoding/json.RawMessage", "encoding/json/jsontext.Value":
		return true
	}
	return types.TypeString(t, nil) == "encoding/json.RawMessage"
}

func isRawMap(t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	return ok && isRawMessage(m.Elem())
}

func (x *Exec) hasDecoder(t types.Type) bool {
	ms := x.E.prog.MethodSets.MethodSet(types.NewPointer(t))
	for i := 0; i < ms.Len(); i++ {
		if n := ms.At(i).Obj().Name(); n == "UnmarshalJSON" || n == "UnmarshalText" {
			return true
		}
	}
	return false
}

func jsonNull(data *Term) *Term { return mkApp("jnull", sBool, data) }

// jsonOK tells that data decodes into a t.
func (x *Exec) jsonOK(t types.Type, data *Term) *Term {
	if isRawMap(t) {
		return mkApp("ok!object", sBool, data)
	}
	if p, ok := t.(*types.Pointer); ok {
		return mkOr(jsonNull(data), x.jsonOK(p.Elem(), data))
	}
	return mkApp("ok!"+sanitize(types.TypeString(t, qual)), sBool, data)
}

func jsonDom(data *Term) *Term { return mkApp("jdom", arrSort(sStr, sBool), data) }

func jsonVals(data *Term) *Term { return mkApp("jvals", arrSort(sStr, sSlice), data) }

func jsonField(t types.Type, key string, data, old *Term) *Term {
	return mkApp("jfield!"+sanitize(key)+"!"+sanitize(types.TypeString(t, qual)), sortOf(t), data, old)
}

func jsonInto(t types.Type, data, old *Term) *Term {
	return mkApp("into!"+sanitize(types.TypeString(t, qual)), sortOf(t), data, old)
}

// unmarshal models encoding/json.Unmarshal.
func (x *Exec) unmarshal(st *State, data, target *Term) ([]*Term, *State) {
	if !(target.op == OApp && strings.HasPrefix(target.name, "box!")) {
		fail("json.Unmarshal into a target of unknown type")
	}
	pt, ok := tagTypes[strings.TrimPrefix(target.name, "box!")].(*types.Pointer)
	if !ok {
		fail("json.Unmarshal into a value")
	}
	t, a := pt.Elem(), target.args[0]
	if x.spec > 0 {
		fail("json.Unmarshal in a specification")
	}
	st = st.clone()
	x.assumps["encoding/json.Unmarshal decodes each field by its own key, calls UnmarshalJSON methods, and is a function of the text and of what the target holds"] = true
	x.newBase(st)
	okT := x.jsonOK(t, data)
	err := x.fresh(st, "jsonerr", sIface)
	x.fact(st, mkEq(mkEq(err, tNilIface), okT))
	set := func(a *Term, ft types.Type, v *Term) {
		x.store(st, a, ft, mkIte(okT, v, x.fresh(st, "undecoded", sortOf(ft))))
	}
	u, isStruct := t.Underlying().(*types.Struct)
	switch {
	case isRawMap(t):
		mt := t.Underlying().(*types.Map)
		r := x.alloc(st)
		dk, vk := ghost(domKey(mt), r), ghost(mvalKey(mt), r)
		st.mem[dk.name] = mkStore(x.memGet(st, dk), r, jsonDom(data))
		st.mem[vk.name] = mkStore(x.memGet(st, vk), r, jsonVals(data))
		old := x.load(st, a, t)
		if old != tNull {
			fail("json.Unmarshal into a map that is not nil")
		}
		x.store(st, a, t, mkIte(okT, r, old))
	case isPtrTo(t):
		el := t.(*types.Pointer).Elem()
		old := x.load(st, a, t)
		if x.simp(st.pc, old) != tNull {
			fail("json.Unmarshal into a pointer that may hold an object: %v", old)
		}
		r := x.alloc(st)
		x.store(st, r, el, jsonInto(el, data, zeroOf(el)))
		half := x.fresh(st, "undecoded", sBool)
		x.store(st, a, t, mkIte(okT, mkIte(jsonNull(data), tNull, r), mkIte(half, r, tNull)))
	case isStruct && !x.hasDecoder(t):
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			if f.Embedded() {
				fail("json.Unmarshal into a struct with embedded fields")
			}
			key := strings.Split(reflect.StructTag(u.Tag(i)).Get("json"), ",")[0]
			if key == "-" || !f.Exported() {
				continue
			}
			if key == "" {
				key = f.Name()
			}
			fa := fld(a, u, i)
			set(fa, f.Type(), jsonField(f.Type(), key, data, x.load(st, fa, f.Type())))
		}
	default:
		set(a, t, jsonInto(t, data, x.load(st, a, t)))
	}
	x.used["model of encoding/json.Unmarshal"] = true
	return []*Term{err}, st
}

func isPtrTo(t types.Type) bool {
	_, ok := t.(*types.Pointer)
	return ok
}

// jsonIntrinsic evaluates the decoding vocabulary of package vc.
func (x *Exec) jsonIntrinsic(f *ssa.Function, name string, args []*Term) (*Term, bool) {
	targ := func() types.Type { return f.TypeArgs()[0] }
	switch name {
	case "Decodes":
		return x.jsonOK(targ(), args[0]), true
	case "DecodesObject":
		return mkApp("ok!object", sBool, args[0]), true
	case "Null":
		return jsonNull(args[0]), true
	case "HasKey":
		return mkAnd(mkApp("ok!object", sBool, args[0]), mkSelect(jsonDom(args[0]), args[1])), true
	case "KeyValue":
		return mkSelect(jsonVals(args[0]), args[1]), true
	case "KeyText":
		return mkApp("jtext", sStr, mkSelect(jsonVals(args[0]), args[1])), true
	case "FieldValue":
		if args[0].op != OStrLit {
			fail("vc.FieldValue needs a literal key")
		}
		return jsonField(targ(), args[0].name, args[1], args[2]), true
	case "Decoded":
		return jsonInto(targ(), args[0], zeroOf(targ())), true
	case "Matches":
		if args[0].op != OStrLit {
			fail("vc.Matches needs a literal pattern")
		}
		return matchTerm(args[0].name, args[1]), true
	}
	return nil, false
}
