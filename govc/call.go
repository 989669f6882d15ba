package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (x *Exec) call(fr *frame, st *State, c *ssa.CallCommon) ([]*Term, *State) {
	x.callers = append(x.callers, callSite{fr, st.env, c})
	defer func() { x.callers = x.callers[:len(x.callers)-1] }()
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return x.builtin(fr, st, b, c)
	}
	var args []*Term
	for _, a := range c.Args {
		args = append(args, x.simp(st.pc, fr.term(st, a)))
	}
	if c.IsInvoke() {
		return x.callValue(fr, st, c, fr.term(st, c.Value), args)
	}
	if f := c.StaticCallee(); f != nil {
		var binds []*Term
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			for _, b := range mc.Bindings {
				binds = append(binds, fr.term(st, b))
			}
		}
		return x.callFunc(f, args, binds, st)
	}
	return x.callValue(fr, st, c, fr.term(st, c.Value), args)
}

// callValue calls a function value or an interface method.
func (x *Exec) callValue(fr *frame, st *State, c *ssa.CallCommon, v *Term, args []*Term) ([]*Term, *State) {
	if !c.IsInvoke() {
		if f, ok := c.Value.(*ssa.Function); ok {
			return x.callFunc(f, args, nil, st)
		}
	}
	if d, ok := x.dyn[v]; ok {
		v = d
	}
	if v.op == OIte {
		s1, s2 := st.clone(), st.clone()
		s1.pc = mkAnd(st.pc, v.args[0])
		s2.pc = mkAnd(st.pc, mkNot(v.args[0]))
		if s1.pc == tFalse {
			return x.callValue(fr, st, c, v.args[2], args)
		}
		if s2.pc == tFalse {
			return x.callValue(fr, st, c, v.args[1], args)
		}
		r1, s1 := x.callValue(fr, s1, c, v.args[1], args)
		r2, s2 := x.callValue(fr, s2, c, v.args[2], args)
		conds := relConds([]*Term{s1.pc, s2.pc})
		if s1.pc == tFalse {
			return r2, s2
		}
		if s2.pc == tFalse {
			return r1, s1
		}
		out := x.merge([]*State{s1, s2}).clone()
		rs := make([]*Term, len(r1))
		for i := range rs {
			rs[i] = mkIte(conds[0], r1[i], r2[i])
		}
		return rs, out
	}
	if c.IsInvoke() {
		if v.op == OApp && strings.HasPrefix(v.name, "box!") {
			ct := tagTypes[strings.TrimPrefix(v.name, "box!")]
			f := x.E.prog.LookupMethod(ct, c.Method.Pkg(), c.Method.Name())
			if f == nil {
				fail("no method %s on %s", c.Method.Name(), ct)
			}
			return x.callFunc(f, append([]*Term{v.args[0]}, args...), nil, st)
		}
		if v == tNilIface {
			out := st.clone()
			out.pc = tFalse
			return x.zeroResults(c.Signature()), out
		}
		return x.callIface(st, c, v, args)
	}
	if v.op == OApp && strings.HasPrefix(v.name, "clo!") {
		return x.callFunc(closures[v.name], args, v.args, st)
	}
	if v == tNilFunc {
		out := st.clone()
		out.pc = tFalse
		return x.zeroResults(c.Signature()), out
	}
	return x.callUnknown(st, c.Signature(), "callback", v, args)
}

func (x *Exec) zeroResults(s *types.Signature) []*Term {
	var r []*Term
	for i := 0; i < s.Results().Len(); i++ {
		r = append(r, zeroOf(s.Results().At(i).Type()))
	}
	return r
}

// callIface calls a method of an interface value of unknown dynamic type.
func (x *Exec) callIface(st *State, c *ssa.CallCommon, v *Term, args []*Term) ([]*Term, *State) {
	name := fmt.Sprintf("(%s).%s", types.TypeString(c.Value.Type(), qual), c.Method.Name())
	if con := x.E.ifaceContracts[name]; con != nil {
		return x.apply(con, append([]*Term{v}, args...), st)
	}
	if r, s, ok := x.ifaceModel(st, name, c, v, args); ok {
		return r, s
	}
	x.assumps["callee behind interface "+name+" changes only objects passed by pointer"] = true
	return x.callUnknown(st, c.Signature(), name, v, args)
}

// callUnknown: a user-supplied function may change what it is given a pointer to, and returns anything.
func (x *Exec) callUnknown(st *State, sig *types.Signature, what string, v *Term, args []*Term) ([]*Term, *State) {
	st = st.clone()
	x.assumps["user callbacks only change the objects they are given pointers to"] = true
	x.newBase(st)
	for i, a := range args {
		var t types.Type
		if i < sig.Params().Len() {
			t = sig.Params().At(i).Type()
		} else {
			continue
		}
		if p, ok := t.Underlying().(*types.Pointer); ok {
			if x.contract.Transform && sig.Params().Len() == 1 {
				x.assumps["user options are functions of the unit they are given (relation apply)"] = true
				old := x.load(st, a, p.Elem())
				x.store(st, a, p.Elem(), mkApp("rel!apply!"+sanitize(v.sort.name)+"!"+sanitize(old.sort.name), old.sort, v, old))
				continue
			}
			x.havocObj(st, a, p.Elem())
		}
		if types.IsInterface(t) && a.op == OApp && strings.HasPrefix(a.name, "box!") {
			if p, ok := tagTypes[strings.TrimPrefix(a.name, "box!")].(*types.Pointer); ok {
				x.havocObj(st, a.args[0], p.Elem())
			}
		}
	}
	var rs []*Term
	for i := 0; i < sig.Results().Len(); i++ {
		rs = append(rs, x.fresh(st, "cb", sortOf(sig.Results().At(i).Type())))
	}
	x.trace(st, v, args, rs)
	return rs, st
}

func (x *Exec) havocObj(st *State, a *Term, t types.Type) {
	if u, ok := t.Underlying().(*types.Struct); ok && !underElt(a) && a.op != OIte {
		for i := 0; i < u.NumFields(); i++ {
			x.havocObj(st, fld(a, u, i), u.Field(i).Type())
		}
		return
	}
	x.store(st, a, t, x.fresh(st, "havoc", sortOf(t)))
}

func fnName(f *ssa.Function) string {
	if o := f.Origin(); o != nil {
		return o.String()
	}
	return f.String()
}

func (x *Exec) callFunc(f *ssa.Function, args, binds []*Term, st *State) ([]*Term, *State) {
	name := fnName(f)
	pkg := ""
	if f.Pkg != nil {
		pkg = f.Pkg.Pkg.Path()
	} else if o := f.Origin(); o != nil && o.Pkg != nil {
		pkg = o.Pkg.Pkg.Path()
	} else if ob := f.Object(); ob != nil && ob.Pkg() != nil {
		pkg = ob.Pkg().Path()
	}
	if strings.HasSuffix(pkg, "internal/vc") {
		return x.intrinsic(f, name[strings.LastIndex(name, ".")+1:], args, st)
	}
	if m, ok := x.E.models[name]; ok && (len(x.stack) == 0 || x.stack[len(x.stack)-1] != m) {
		x.used["model "+name] = true
		return x.run(m, args, binds, st)
	}
	if x.spec == 0 {
		if con := x.E.contracts[name]; con != nil && !con.Generic {
			return x.apply(con, args, st)
		}
	} else if con := x.E.contracts[name]; con != nil && con.Pure {
		return x.apply(con, args, st)
	}
	if r, s, ok := x.extern(st, f, name, args); ok {
		return r, s
	}
	if f.Blocks != nil && x.E.inlineable(pkg, f) {
		x.inlined[name] = true
		return x.run(f, args, binds, st)
	}
	fail("call to %s has neither contract nor model", name)
	return nil, nil
}

// apply replaces a call by the callee's contract.
func (x *Exec) apply(con *Contract, args []*Term, st *State) ([]*Term, *State) {
	x.used[con.Name] = true
	x.audit(st, "before call "+con.Name)
	defer func() { x.audit(st, "after call "+con.Name) }()
	st = st.clone()
	sc := &specCtx{mode: "call", contract: con, guard: st.pc, where: x.where()}
	posts, out := x.runSpec(sc, con.Fn, args, nil, st)
	x.carry(st, out)
	x.newBase(st)
	if sc.modAny {
		if x.frameOn && x.spec == 0 && !x.modAny {
			x.oblige(st, "frame@call "+con.Name, x.contract.Props, tFalse)
		}
		x.havocAll(st)
	}
	pre := st.clone()
	for _, m := range sc.mods {
		if m.set != nil {
			fail("a call of %s, which modifies a set of objects", con.Name)
		}
		k := memNames[m.key]
		v := x.fresh(st, "mod", k.sort.val)
		if m.addr == tNull { // a nil map or slice has nothing to change
			continue
		}
		if !strings.HasPrefix(m.key, "D!") && !strings.HasPrefix(m.key, "V!") && !strings.HasPrefix(m.key, "A!") {
			if m.cond == nil {
				x.write(st, k, m.addr, v)
			} else {
				x.under(m.cond, func() { x.write(st, k, m.addr, mkIte(m.cond, v, mkSelect(x.memGet(st, k), m.addr))) })
			}
			continue
		}
		nul := mkEq(m.addr, tNull)
		if m.cond != nil {
			nul = mkOr(nul, mkNot(m.cond))
		}
		x.under(mkNot(nul), func() { x.write(st, k, m.addr, mkIte(nul, mkSelect(x.memGet(st, k), m.addr), v)) })
	}
	sig := con.Target
	var rs []*Term
	for i := 0; i < sig.Results().Len(); i++ {
		r := x.fresh(st, "res_"+shortName(con.Name), sortOf(sig.Results().At(i).Type()))
		rs = append(rs, r)
	}
	if len(posts) == 1 && posts[0].op == OApp && strings.HasPrefix(posts[0].name, "clo!") {
		sc2 := &specCtx{mode: "call-post", contract: con, guard: st.pc, old: pre}
		pf := closures[posts[0].name]
		if len(pf.Params) != len(rs) {
			fail("postcondition of %s has %d parameters for %d results", con.Name, len(pf.Params), len(rs))
		}
		_, out2 := x.runSpec(sc2, pf, rs, posts[0].args, st)
		x.carry(st, out2)
	}
	return rs, st
}

func shortName(s string) string {
	if i := strings.LastIndexByte(s, '.'); i >= 0 {
		return s[i+1:]
	}
	return s
}

// carry keeps the specification-side objects made while evaluating a specification.
func (x *Exec) carry(st, out *State) {
	for k, v := range out.mem {
		if strings.HasPrefix(k, "S!") {
			st.mem[k] = v
		}
	}
}

func (x *Exec) havocAll(st *State) {
	keep := map[string]*Term{}
	for k, v := range st.mem {
		if strings.HasPrefix(k, "S!") || strings.HasPrefix(k, "G!") {
			keep[k] = v
		}
	}
	if x.log != nil {
		for k := range memNames {
			if !strings.HasPrefix(k, "S!") && !strings.HasPrefix(k, "G!") {
				*x.log = append(*x.log, write{k, nil, false})
			}
		}
	}
	st.mem = keep
	st.epoch = x.newEpoch(st)
}

func (x *Exec) trace(st *State, v *Term, args, rs []*Term) {
	x.nspec++
	// ghost call counter and log, available to specifications as vc.Calls
	ck := getKey("G", "calls!"+sanitize(v.sort.name), arrSort(v.sort, sInt))
	cur := x.memGet(st, ck)
	if x.log != nil {
		*x.log = append(*x.log, write{ck.name, nil, false})
	}
	st.mem[ck.name] = mkStore(cur, v, mkAdd(mkSelect(cur, v), mkInt(1)))
}

// ---- builtins ----

func (x *Exec) builtin(fr *frame, st *State, b *ssa.Builtin, c *ssa.CallCommon) ([]*Term, *State) {
	arg := func(i int) *Term { return fr.term(st, c.Args[i]) }
	one := func(t *Term) ([]*Term, *State) { return []*Term{t}, st }
	switch b.Name() {
	case "len", "cap":
		switch u := c.Args[0].Type().Underlying().(type) {
		case *types.Slice:
			if b.Name() == "cap" {
				cp := x.fresh(st, "cap", sInt)
				x.fact(st, mkLe(slLen(arg(0)), cp))
				return one(cp)
			}
			return one(slLen(arg(0)))
		case *types.Map:
			return one(mkCard(x.dom(st, arg(0), u)))
		case *types.Basic:
			return one(x.strLen(arg(0)))
		case *types.Array:
			return one(mkInt(u.Len()))
		case *types.Pointer:
			return one(mkInt(u.Elem().Underlying().(*types.Array).Len()))
		}
	case "append":
		return x.appendSlice(st, c.Args[0].Type().Underlying().(*types.Slice).Elem(), arg(0), arg(1), c.Args[1].Type())
	case "delete":
		mt := c.Args[0].Type().Underlying().(*types.Map)
		m, k := arg(0), arg(1)
		d := x.dom(st, m, mt)
		if m == tNull {
			return nil, st
		}
		// deleting from a nil map is a no-op, as is deleting an absent key
		x.deleting = true
		defer func() { x.deleting = false }()
		if m.op == OIte {
			eachLeaf(m, func(c, l *Term) {
				if l == tNull {
					return
				}
				d := x.dom(st, l, mt)
				x.under(c, func() { x.write(st, ghost(domKey(mt), l), l, mkStore(d, k, mkAnd(mkNot(c), mkSelect(d, k)))) })
			})
			return nil, st
		}
		x.write(st, ghost(domKey(mt), m), m, mkStore(d, k, tFalse))
		return nil, st
	case "print", "println":
		return nil, st
	case "ssa:wrapnilchk":
		x.deref(st, arg(0))
		return one(arg(0))
	case "copy":
		fail("copy")
	}
	fail("builtin %s on %s", b.Name(), c.Args[0].Type())
	return nil, nil
}

func (x *Exec) appendSlice(st *State, el types.Type, s, t *Term, tt types.Type) ([]*Term, *State) {
	if sortOf(tt) == sStr {
		r := x.fresh(st, "appended", sSlice)
		return []*Term{r}, st
	}
	n := slLen(t)
	if n == mkInt(0) {
		return []*Term{s}, st
	}
	st = st.clone()
	k := arrKey(el)
	rk := ghost(k, slArr(s))
	rowS := mkConstArr(k.sort.val, zeroOf(el))
	if s != nilSlice {
		rowS = mkSelect(x.memGet(st, rk), slArr(s))
	}
	rowT := mkSelect(x.memGet(st, ghost(k, slArr(t))), slArr(t))
	ln := slLen(s)
	var row *Term
	if n.op == OInt && n.ival.Int64() <= 64 {
		row = rowS
		for i := int64(0); i < n.ival.Int64(); i++ {
			row = mkStore(row, mkAdd(ln, mkInt(i)), mkSelect(rowT, mkInt(i)))
		}
	} else {
		row = mkCat(rowS, ln, rowT)
	}
	r := x.alloc(st)
	nk := ghost(k, r)
	st.mem[nk.name] = mkStore(x.memGet(st, nk), r, row)
	res := mkSlice(r, mkAdd(ln, n))
	if n.op != OInt {
		res = mkIte(mkEq(n, mkInt(0)), s, res)
	}
	x.assumps["append never writes into spare capacity shared with another live slice"] = true
	return []*Term{res}, st
}

func mkShift(row, off *Term) *Term {
	n := "shift!" + sanitize(row.sort.val.name)
	srt := row.sort
	funAxioms[n] = func(p *printer) []string {
		return []string{fmt.Sprintf("(assert (forall ((a %s) (o Int) (i Int)) (! (= (select (%s a o) i) (select a (+ o i))) :pattern ((select (%s a o) i)))))", srt.name, n, n)}
	}
	return mkApp(n, srt, row, off)
}

func mkCat(a, la, b *Term) *Term {
	n := "cat!" + sanitize(a.sort.val.name)
	srt := a.sort
	funAxioms[n] = func(p *printer) []string {
		return []string{fmt.Sprintf("(assert (forall ((a %s) (l Int) (b %s) (i Int)) (! (= (select (%s a l b) i) (ite (< i l) (select a i) (select b (- i l)))) :pattern ((select (%s a l b) i)))))", srt.name, srt.name, n, n)}
	}
	return mkApp(n, srt, a, la, b)
}
