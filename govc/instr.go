package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (fr *frame) set(st *State, v ssa.Value, t *Term) { st.env[fr.inf.idx[v]] = Val{t: t} }

func (x *Exec) zeroInit(st *State, r *Term, t types.Type) {
	lg, fo := x.log, x.frameOn
	x.frameOn = false
	x.log = nil
	x.store(st, r, t, zeroOf(t))
	x.log, x.frameOn = lg, fo
}

func (fr *frame) instr(ins ssa.Instruction, st *State) *State {
	x := fr.x
	switch i := ins.(type) {
	case *ssa.Alloc:
		r := x.alloc(st)
		x.zeroInit(st, r, i.Type().Underlying().(*types.Pointer).Elem())
		fr.set(st, i, r)
	case *ssa.BinOp:
		fr.set(st, i, x.binop(st, i.Op, i.X.Type(), x.simp(st.pc, fr.term(st, i.X)), x.simp(st.pc, fr.term(st, i.Y))))
	case *ssa.UnOp:
		switch i.Op {
		case token.MUL:
			a := x.simp(st.pc, fr.term(st, i.X))
			if g, ok := i.X.(*ssa.Global); ok {
				if v := x.E.constGlobal(x, st, g); v != nil {
					fr.set(st, i, v)
					return st
				}
			}
			x.deref(st, a)
			fr.set(st, i, x.simp(st.pc, x.load(st, a, i.Type())))
		case token.NOT:
			fr.set(st, i, mkNot(fr.term(st, i.X)))
		case token.SUB:
			if sortOf(i.Type()) == sInt {
				fr.set(st, i, mkSub(mkInt(0), fr.term(st, i.X)))
			} else {
				fr.set(st, i, mkApp("fneg", sF64, fr.term(st, i.X)))
			}
		default:
			fail("unop %s", i.Op)
		}
	case *ssa.Call:
		rs, st2 := x.call(fr, st, i.Common())
		st = st2
		res := i.Common().Signature().Results()
		switch res.Len() {
		case 0:
		case 1:
			st.env[fr.inf.idx[i]] = Val{t: x.simp(st.pc, rs[0])}
		default:
			v := Val{}
			for _, r := range rs {
				v.tup = append(v.tup, Val{t: x.simp(st.pc, r)})
			}
			st.env[fr.inf.idx[i]] = v
		}
	case *ssa.ChangeInterface:
		fr.set(st, i, fr.term(st, i.X))
	case *ssa.ChangeType:
		fr.set(st, i, fr.term(st, i.X))
	case *ssa.Convert:
		fr.set(st, i, x.convert(i.X.Type(), i.Type(), fr.term(st, i.X), st))
	case *ssa.Defer:
		d := deferred{call: &i.Call}
		for _, a := range i.Call.Args {
			d.args = append(d.args, fr.term(st, a))
		}
		if !i.Call.IsInvoke() {
			if _, ok := i.Call.Value.(*ssa.Builtin); ok {
				fail("deferred builtin")
			}
		}
		d.fn = fr.val(st, i.Call.Value)
		st.defers = append(st.defers, d)
	case *ssa.RunDefers:
		ds := st.defers
		st.defers = nil
		for k := len(ds) - 1; k >= 0; k-- {
			_, st = x.callValue(fr, st, ds[k].call, ds[k].fn.t, ds[k].args)
		}
	case *ssa.Extract:
		v := fr.val(st, i.Tuple)
		st.env[fr.inf.idx[i]] = v.tup[i.Index]
	case *ssa.Field:
		fr.set(st, i, mkSel(fr.term(st, i.X), i.Field))
	case *ssa.FieldAddr:
		a := fr.term(st, i.X)
		x.deref(st, a)
		fr.set(st, i, fld(a, i.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct), i.Field))
	case *ssa.IndexAddr:
		a, idx := fr.term(st, i.X), fr.term(st, i.Index)
		switch u := i.X.Type().Underlying().(type) {
		case *types.Slice:
			x.boundsFact(st, idx, slLen(a))
			fr.set(st, i, mkElt(slArr(a), idx, arrKey(u.Elem()).name))
		case *types.Pointer:
			ar := u.Elem().Underlying().(*types.Array)
			fr.set(st, i, mkElt(a, idx, arrKey(ar.Elem()).name))
		default:
			fail("indexaddr on %s", i.X.Type())
		}
	case *ssa.Index:
		switch u := i.X.Type().Underlying().(type) {
		case *types.Array:
			fr.set(st, i, mkSelect(fr.term(st, i.X), fr.term(st, i.Index)))
		case *types.Basic:
			fr.set(st, i, mkApp("str.byte", sInt, fr.term(st, i.X), fr.term(st, i.Index)))
		default:
			fail("index on %s", u)
		}
	case *ssa.Lookup:
		if mt, ok := i.X.Type().Underlying().(*types.Map); ok {
			m, k := x.simp(st.pc, fr.term(st, i.X)), x.simp(st.pc, fr.term(st, i.Index))
			has := mkSelect(x.dom(st, m, mt), k)
			var v *Term
			if has == tFalse {
				v = zeroOf(mt.Elem())
			} else {
				v = mkIte(has, mkSelect(x.mvals(st, m, mt), k), zeroOf(mt.Elem()))
			}
			if i.CommaOk {
				st.env[fr.inf.idx[i]] = Val{tup: []Val{{t: x.simp(st.pc, v)}, {t: x.simp(st.pc, has)}}}
			} else {
				fr.set(st, i, x.simp(st.pc, v))
			}
		} else {
			fr.set(st, i, mkApp("str.byte", sInt, fr.term(st, i.X), fr.term(st, i.Index)))
		}
	case *ssa.MakeClosure:
		var bs []*Term
		for _, b := range i.Bindings {
			bs = append(bs, fr.term(st, b))
		}
		fr.set(st, i, cloTerm(i.Fn.(*ssa.Function), bs))
	case *ssa.MakeInterface:
		fr.set(st, i, mkBox(i.X.Type(), fr.term(st, i.X)))
	case *ssa.MakeMap:
		r := x.alloc(st)
		mt := i.Type().Underlying().(*types.Map)
		k := ghost(domKey(mt), r)
		st.mem[k.name] = mkStore(x.memGet(st, k), r, mkConstArr(k.sort.val, tFalse))
		fr.set(st, i, r)
	case *ssa.MakeSlice:
		r := x.alloc(st)
		el := i.Type().Underlying().(*types.Slice).Elem()
		k := ghost(arrKey(el), r)
		st.mem[k.name] = mkStore(x.memGet(st, k), r, mkConstArr(k.sort.val, zeroOf(el)))
		fr.set(st, i, mkSlice(r, fr.term(st, i.Len)))
	case *ssa.MapUpdate:
		m := x.simp(st.pc, fr.term(st, i.Map))
		x.deref(st, m)
		x.mapUpdate(st, m, i.Map.Type().Underlying().(*types.Map), fr.term(st, i.Key), fr.term(st, i.Value))
	case *ssa.Range:
		mt, ok := i.X.Type().Underlying().(*types.Map)
		if !ok {
			fail("range over %s", i.X.Type())
		}
		x.base++ // unique id
		s := arrSort(sortOf(mt.Key()), sBool)
		k := getKey("G", fmt.Sprintf("visited#%p", i), s)
		st.mem[k.name] = mkConstArr(s, tFalse)
		st.env[fr.inf.idx[i]] = Val{it: &iterVal{m: fr.term(st, i.X), mt: mt, key: k.name}}
	case *ssa.Next:
		fr.next(i, st)
	case *ssa.Slice:
		fr.slice(i, st)
	case *ssa.Store:
		a := fr.term(st, i.Addr)
		x.deref(st, a)
		x.store(st, a, i.Addr.Type().Underlying().(*types.Pointer).Elem(), fr.term(st, i.Val))
	case *ssa.TypeAssert:
		fr.typeAssert(i, st)
	default:
		fail("instruction %T (%s) in %s", ins, ins, fr.fn)
	}
	return st
}

func (x *Exec) boundsFact(st *State, idx, ln *Term) {
	if x.spec > 0 {
		return
	}
	c := mkAnd(mkLe(mkInt(0), idx), mkLt(idx, ln))
	if c != tTrue {
		if x.contract != nil && x.contract.NoPanic {
			x.oblige(st, "bounds@"+x.where(), x.contract.Props, c)
		}
		x.fact(st, c)
	}
}

func (fr *frame) next(i *ssa.Next, st *State) {
	x := fr.x
	it := st.env[fr.inf.idx[i.Iter]].it
	if it == nil {
		fail("next on unknown iterator")
	}
	d := x.dom(st, it.m, it.mt)
	vk := memNames[it.key]
	vis := x.memGet(st, vk)
	ks := sortOf(it.mt.Key())
	zero := Val{tup: []Val{{t: tFalse}, {t: zeroSort(ks)}, {t: zeroOf(it.mt.Elem())}}}
	if d.op == OConstArr && d.args[0] == tFalse || it.m == tNull {
		st.env[fr.inf.idx[i]] = zero
		return
	}
	// finitely known domain: deterministic enumeration of one order would be unsound; stay symbolic
	ok := mkFresh("next_ok", sBool)
	k := x.fresh(st, "next_k", ks)
	if kb := boundOf(d); kb.ok {
		k.bound = [2]int{kb.b, kb.n}
	}
	v := mkSelect(x.mvals(st, it.m, it.mt), k)
	x.fact(st, mkImp(ok, mkAnd(mkSelect(d, k), mkNot(mkSelect(vis, k)))))
	q := mkBVar("k", ks)
	if it.weak {
		st.mem[it.key] = mkIte(ok, mkStore(vis, k, tTrue), vis)
		if x.log != nil {
			*x.log = append(*x.log, write{it.key, nil, false})
		}
		if it.lose { // what is still there at the end has been there all the time
			x.fact(st, mkImp(mkNot(ok), mkForall([]*Term{q}, mkImp(mkSelect(d, q), mkSelect(vis, q)))))
		}
		st.env[fr.inf.idx[i]] = Val{tup: []Val{{t: ok}, {t: k}, {t: v}}}
		return
	}
	x.fact(st, mkImp(mkNot(ok), mkForall([]*Term{q}, mkImp(mkSelect(d, q), mkSelect(vis, q)))))
	x.fact(st, mkForall([]*Term{q}, mkImp(mkSelect(vis, q), mkSelect(d, q))))
	st.mem[it.key] = mkIte(ok, mkStore(vis, k, tTrue), vis)
	if x.log != nil {
		*x.log = append(*x.log, write{it.key, nil, false})
	}
	st.env[fr.inf.idx[i]] = Val{tup: []Val{{t: ok}, {t: k}, {t: v}}}
}

// subslice shares the backing array only when it starts at its beginning; otherwise it is a copy
// (assumed: no element is written through one of two overlapping slices and read through the other).
func (fr *frame) subslice(st *State, i *ssa.Slice, el types.Type, arr, lo, hi *Term) {
	x := fr.x
	if lo == mkInt(0) {
		fr.set(st, i, mkSlice(arr, hi))
		return
	}
	x.assumps["elements are not written through overlapping slices"] = true
	k := arrKey(el)
	row := mkShift(mkSelect(x.memGet(st, ghost(k, arr)), arr), lo)
	r := x.alloc(st)
	nk := ghost(k, r)
	st.mem[nk.name] = mkStore(x.memGet(st, nk), r, row)
	fr.set(st, i, mkSlice(r, mkSub(hi, lo)))
}

func (fr *frame) slice(i *ssa.Slice, st *State) {
	x := fr.x
	a := fr.term(st, i.X)
	lo := mkInt(0)
	if i.Low != nil {
		lo = fr.term(st, i.Low)
	}
	switch u := i.X.Type().Underlying().(type) {
	case *types.Slice:
		hi := slLen(a)
		if i.High != nil {
			hi = fr.term(st, i.High)
		}
		if lo == mkInt(0) && i.High == nil {
			fr.set(st, i, a)
			return
		}
		fr.subslice(st, i, u.Elem(), slArr(a), lo, hi)
	case *types.Pointer:
		n := u.Elem().Underlying().(*types.Array).Len()
		hi := mkInt(n)
		if i.High != nil {
			hi = fr.term(st, i.High)
		}
		fr.subslice(st, i, u.Elem().Underlying().(*types.Array).Elem(), a, lo, hi)
	case *types.Basic:
		var hi *Term
		if i.High != nil {
			hi = fr.term(st, i.High)
		} else {
			hi = x.strLen(a)
		}
		fr.set(st, i, mkStrSub(a, lo, hi))
	default:
		fail("slice of %s", u)
	}
}

func (fr *frame) typeAssert(i *ssa.TypeAssert, st *State) {
	x := fr.x
	v := fr.term(st, i.X)
	if d, ok := x.dyn[v]; ok {
		v = d
	}
	ok := x.hasType(v, i.AssertedType)
	var r *Term
	if types.IsInterface(i.AssertedType) {
		r = v
	} else {
		r = mkUnbox(i.AssertedType, v)
	}
	if i.CommaOk {
		z := zeroOf(i.AssertedType)
		st.env[fr.inf.idx[i]] = Val{tup: []Val{{t: mkIte(ok, r, z)}, {t: ok}}}
		return
	}
	if x.spec == 0 {
		x.fact(st, ok)
	}
	fr.set(st, i, r)
}

// hasType is the condition that interface value v holds (or implements) t.
func (x *Exec) hasType(v *Term, t types.Type) *Term {
	if v.op == OIte {
		return mkIte(v.args[0], x.hasType(v.args[1], t), x.hasType(v.args[2], t))
	}
	if v == tNilIface {
		return tFalse
	}
	if it, ok := t.Underlying().(*types.Interface); ok {
		if v.op == OApp && strings.HasPrefix(v.name, "box!") {
			ct := tagTypes[strings.TrimPrefix(v.name, "box!")]
			return mkBool(types.Implements(ct, it))
		}
		return mkAnd(mkNot(mkEq(v, tNilIface)), mkApp("impl!"+sanitize(types.TypeString(t, qual)), sBool, tagOf(v)))
	}
	boxName(t)
	return mkEq(tagOf(v), mkInt(int64(tagIDs[boxName(t)])))
}

func (x *Exec) binop(st *State, op token.Token, t types.Type, a, b *Term) *Term {
	s := a.sort
	switch op {
	case token.EQL, token.NEQ:
		var e *Term
		switch {
		case s == sSlice:
			if a == nilSlice {
				a, b = b, a
			}
			if b != nilSlice {
				fail("slice comparison")
			}
			e = mkEq(slArr(a), tNull)
		default:
			e = mkEq(a, b)
		}
		if op == token.NEQ {
			return mkNot(e)
		}
		return e
	}
	switch s {
	case sInt:
		switch op {
		case token.ADD:
			return mkAdd(a, b)
		case token.SUB:
			return mkSub(a, b)
		case token.MUL:
			return mkMul(a, b)
		case token.LSS:
			return mkLt(a, b)
		case token.LEQ:
			return mkLe(a, b)
		case token.GTR:
			return mkLt(b, a)
		case token.GEQ:
			return mkLe(b, a)
		}
		return mkApp("iop!"+opName(op), sInt, a, b)
	case sStr:
		switch op {
		case token.ADD:
			return mkConcat(a, b)
		case token.LSS:
			return mkApp("str.lt", sBool, a, b)
		case token.GTR:
			return mkApp("str.lt", sBool, b, a)
		}
	case sF64:
		switch op {
		case token.LSS:
			return mkApp("flt", sBool, a, b)
		case token.GTR:
			return mkApp("flt", sBool, b, a)
		case token.LEQ:
			return mkApp("fle", sBool, a, b)
		case token.GEQ:
			return mkApp("fle", sBool, b, a)
		}
		return mkApp("fop!"+opName(op), sF64, a, b)
	case sBool:
		switch op {
		case token.AND, token.LAND:
			return mkAnd(a, b)
		case token.OR, token.LOR:
			return mkOr(a, b)
		}
	}
	fail("binop %s on %s", op, t)
	return nil
}

func opName(op token.Token) string {
	switch op {
	case token.ADD:
		return "add"
	case token.SUB:
		return "sub"
	case token.MUL:
		return "mul"
	case token.QUO:
		return "div"
	case token.REM:
		return "rem"
	case token.AND:
		return "and"
	case token.OR:
		return "or"
	case token.SHL:
		return "shl"
	case token.SHR:
		return "shr"
	}
	return fmt.Sprintf("op%d", int(op))
}

func (x *Exec) convert(from, to types.Type, v *Term, st *State) *Term {
	fs, ts := sortOf(from), sortOf(to)
	if fs == ts {
		return v
	}
	switch {
	case fs == sStr && ts == sSlice && isRawMessage(to) && v.op == OStrLit: // texts of package-level constants
		return rawLit(v)
	case fs == sStr && ts == sSlice:
		r := x.alloc(st)
		k := ghost(arrKey(to.Underlying().(*types.Slice).Elem()), r)
		st.mem[k.name] = mkStore(x.memGet(st, k), r, mkApp("str.bytes", k.sort.val, v))
		n := x.strLen(v)
		if v.op == OStrLit && len(v.name) <= 16 && k.sort.val != nil {
			row := mkApp("str.bytes", k.sort.val, v)
			for i := 0; i < len(v.name); i++ {
				x.fact(st, mkEq(mkSelect(row, mkInt(int64(i))), mkInt(int64(v.name[i]))))
			}
		}
		return mkSlice(r, n)
	case fs == sSlice && ts == sStr && isRawMessage(from) && v.op == OApp && v.name == "rawlit":
		return v.args[0]
	case fs == sSlice && ts == sStr && isRawMessage(from):
		return mkApp("jtext", sStr, v)
	case fs == sSlice && ts == sStr:
		k := arrKey(from.Underlying().(*types.Slice).Elem())
		row := mkSelect(x.memGet(st, k), slArr(v))
		if row.op == OApp && row.name == "str.bytes" && slLen(v) == x.strLen(row.args[0]) {
			return row.args[0]
		}
		return mkApp("str.of", sStr, row, slLen(v))
	case fs == sInt && ts == sStr:
		return mkApp("str.rune", sStr, v)
	case fs == sInt && ts == sF64:
		return mkApp("i2f", sF64, v)
	case fs == sF64 && ts == sInt:
		return mkApp("f2i", sInt, v)
	}
	fail("convert %s to %s", from, to)
	return nil
}
