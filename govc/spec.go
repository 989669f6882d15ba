package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// intrinsic evaluates the functions of package vc.
func (x *Exec) intrinsic(f *ssa.Function, name string, args []*Term, st *State) ([]*Term, *State) {
	if i := strings.IndexByte(name, '['); i >= 0 {
		name = name[:i]
	}
	one := func(t *Term) ([]*Term, *State) { return []*Term{t}, st }
	none := []*Term(nil)
	sc := x.sctx
	lit := func(t *Term) string {
		if t.op != OStrLit {
			fail("vc.%s needs a literal name", name)
		}
		return t.name
	}
	guarded := func(t *Term) *Term { return mkImp(mkAnd(sc.guard, st.pc), t) }
	if t, ok := x.jsonIntrinsic(f, name, args); ok {
		return one(t)
	}
	switch name {
	case "Requires":
		switch sc.mode {
		case "verify":
			x.facts = appendFact(x.facts, guarded(args[1]))
			x.assume(guarded(args[1]))
		case "call":
			x.spec--
			x.obligePC(mkAnd(sc.guard, st.pc), "pre "+sc.contract.Name+": "+lit(args[0])+" @"+sc.where, x.contract.Props, args[1])
			x.spec++
			x.facts = appendFact(x.facts, guarded(args[1]))
		}
		return none, st
	case "Ensure":
		switch sc.mode {
		case "post":
			n := lit(args[0])
			x.obligePC(mkAnd(sc.guard, st.pc), "ensures "+n, x.props(n), args[1])
		case "call-post":
			if x.binder == 0 {
				if st.pc == tTrue {
					newObjects(args[1])
				}
				x.facts = appendFact(x.facts, guarded(args[1]))
			}
		default:
			fail("vc.Ensure outside a postcondition")
		}
		return none, st
	case "Produce": // granted by the contract of a verified producer, assumed by its callers
		if sc.mode == "call-post" && x.binder == 0 {
			x.facts = appendFact(x.facts, guarded(args[0]))
		}
		return none, st
	case "Details": // the rest of the postcondition is not used where the contract is applied abstractly
		if sc.mode == "call-post" && (x.contract == sc.contract || x.contract.Abstract[sc.contract.Name[strings.LastIndexByte(sc.contract.Name, '.')+1:]]) {
			st = st.clone()
			st.pc = tFalse
		}
		return none, st
	case "Invariant":
		if sc.mode != "loop" {
			fail("vc.Invariant outside a loop specification")
		}
		sc.invs = append(sc.invs, namedTerm{lit(args[0]), mkImp(st.pc, args[1])})
		return none, st
	case "Modifies":
		for _, b := range x.variadic(st, args[0]) {
			x.modItems(sc, st, b)
		}
		return none, st
	case "SplitOn":
		if sc.mode == "verify" {
			s := split{args[0], x.variadicOf(st, args[1], typeKey(types.Typ[types.String]), sStr)}
			if n := len(x.splits); n < len(x.caseSel) {
				if c := x.caseSel[n]; c < len(s.vals) {
					x.assumed[s.t] = s.vals[c]
					x.facts = appendFact(x.facts, mkEq(s.t, s.vals[c]))
					x.caseName += " [" + s.vals[c].name + "]"
				} else {
					for _, v := range s.vals {
						x.assumed[mkEq(s.t, v)] = tFalse
						x.facts = appendFact(x.facts, mkNot(mkEq(s.t, v)))
					}
					x.caseName += " [other]"
				}
				x.simps = map[*Term]*simpCtx{}
			}
			x.splits = append(x.splits, s)
		}
		return none, st
	case "ModifiesWhere":
		c := args[0]
		if c.op == OApp && strings.HasPrefix(c.name, "box!") {
			c = c.args[0]
		}
		if !(c.op == OApp && strings.HasPrefix(c.name, "clo!")) {
			fail("vc.ModifiesWhere needs a function literal")
		}
		fn := closures[c.name]
		v := mkBVar("o", sRef)
		x.binder++
		rs, _ := x.run(fn, []*Term{v}, c.args, st.withPC(tTrue))
		x.binder--
		sub := &specCtx{}
		x.modItem(sub, v, fn.Params[0].Type())
		for _, m := range sub.mods {
			var path []int
			for a := m.addr; a != v; a = a.args[0] {
				path = append([]int{a.n}, path...)
			}
			sc.mods = append(sc.mods, modItem{key: m.key, set: &modSet{v, rs[0], path}})
		}
		return none, st
	case "Old":
		c := args[0]
		fn := closures[c.name]
		if fn == nil {
			fail("vc.Old needs a function literal")
		}
		old := sc.old
		if old == nil {
			old = x.entry
		}
		n := st.clone()
		n.epoch, n.mem = old.epoch, map[string]*Term{}
		for k, t := range old.mem {
			n.mem[k] = t
		}
		for k, t := range st.mem {
			if strings.HasPrefix(k, "S!") || strings.HasPrefix(k, "G!") {
				n.mem[k] = t
			}
		}
		n.pc = tTrue
		rs, _ := x.run(fn, nil, c.args, n)
		return rs, st
	case "ModifiesAnything":
		sc.modAny = true
		return none, st
	case "NoPanic":
		return none, st
	case "Loop":
		if sc.mode == "verify" {
			c := args[1]
			if !(c.op == OApp && strings.HasPrefix(c.name, "clo!") || c.op == OApp && strings.HasPrefix(c.name, "box!")) {
				fail("vc.Loop needs a function literal")
			}
			if strings.HasPrefix(c.name, "box!") {
				c = c.args[0]
			}
			x.loops = append(x.loops, &loopSpec{key: lit(args[0]), fn: closures[c.name], binds: c.args})
		}
		return none, st
	case "Is": // vc.Is[T](v): precondition that the dynamic type of v is T
		t := f.TypeArgs()[0]
		v := args[0]
		switch sc.mode {
		case "verify":
			u := x.fresh(st, "dyn", sortOf(t))
			u.bound = [2]int{0, 0}
			b := mkBox(t, u)
			x.dyn[v] = b
			x.facts = appendFact(x.facts, mkEq(v, b))
		case "call":
			x.obligePC(mkAnd(sc.guard, st.pc), "pre "+sc.contract.Name+": dynamic type @"+sc.where, x.contract.Props, x.hasType(v, t))
		}
		return none, st
	case "Dyn": // value of dynamic type T inside interface v
		t := f.TypeArgs()[0]
		v := args[0]
		if d, ok := x.dyn[v]; ok {
			v = d
		}
		return one(mkUnbox(t, v))
	case "TypeIs":
		v := args[0]
		if d, ok := x.dyn[v]; ok {
			v = d
		}
		return one(x.hasType(v, f.TypeArgs()[0]))
	case "Assume":
		x.fact(st, args[0])
		return none, st
	case "Define":
		if sc.mode == "verify" {
			x.fact(st, args[0])
		}
		return none, st
	case "Any":
		t := x.fresh(st, "any", sortOf(f.Signature.Results().At(0).Type()))
		return one(t)
	case "AnyFresh": // a value whose references are new objects
		if sortOf(f.Signature.Results().At(0).Type()) == sSlice { // not nil
			r := x.alloc(st)
			n := x.fresh(st, "anylen", sInt)
			x.fact(st, mkLe(mkInt(0), n))
			k := ghost(arrKey(f.Signature.Results().At(0).Type().Underlying().(*types.Slice).Elem()), r)
			st.mem[k.name] = mkStore(x.memGet(st, k), r, x.fresh(st, "anyrow", k.sort.val))
			return one(mkSlice(r, n))
		}
		b := x.newBase(st)
		t := x.fresh(st, "anyfresh", sortOf(f.Signature.Results().At(0).Type()))
		t.lob = b
		x.newBase(st)
		t.bound = [2]int{st.ab, st.an}
		return one(t)
	case "Implies":
		return one(mkImp(args[0], args[1]))
	case "Iff":
		return one(mkEq(args[0], args[1]))
	case "If":
		return one(mkIte(args[0], args[1], args[2]))
	case "Eq":
		return one(mkEq(args[0], args[1]))
	case "Fresh":
		return one(x.freshCond(st, args[0]))
	case "Rel", "RelStr", "RelInt", "RelBytes", "RelOf":
		var as []*Term
		for _, b := range x.variadic(st, args[1]) {
			if b.op == OApp && strings.HasPrefix(b.name, "box!") {
				b = b.args[0]
			}
			as = append(as, b)
		}
		s := sBool
		if name != "Rel" {
			s = sortOf(f.Signature.Results().At(0).Type())
		}
		n := "rel!" + lit(args[0])
		for _, a := range as {
			n += "!" + sanitize(a.sort.name)
		}
		return one(mkApp(n, s, as...))
	case "Field": // a field by name, for models of other packages
		b := args[0]
		if !(b.op == OApp && strings.HasPrefix(b.name, "box!")) {
			fail("vc.Field needs a pointer")
		}
		u := tagTypes[strings.TrimPrefix(b.name, "box!")].Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == lit(args[1]) {
				return one(x.load(st, fld(b.args[0], u, i), u.Field(i).Type()))
			}
		}
		fail("vc.Field: no field %s", lit(args[1]))
	case "Has": // Visited.Has
		return one(mkSelect(args[0], args[1]))
	case "Snap":
		mt := f.Signature.Results().At(0).Type().Underlying().(*types.Map)
		r := x.alloc(st)
		dk, vk := ghost(domKey(mt), r), ghost(mvalKey(mt), r)
		d, v := x.dom(st, args[0], mt), x.mvals(st, args[0], mt)
		st.mem[dk.name] = mkStore(x.memGet(st, dk), r, d)
		st.mem[vk.name] = mkStore(x.memGet(st, vk), r, v)
		return one(r)
	case "SnapSlice":
		el := f.Signature.Results().At(0).Type().Underlying().(*types.Slice).Elem()
		r := x.alloc(st)
		k := ghost(arrKey(el), r)
		row := mkSelect(x.memGet(st, ghost(arrKey(el), slArr(args[0]))), slArr(args[0]))
		st.mem[k.name] = mkStore(x.memGet(st, k), r, row)
		return one(mkSlice(r, slLen(args[0])))
	case "SameMap", "SameSlice":
		// same contents
		if name == "SameMap" {
			mt := f.Signature.Params().At(0).Type().Underlying().(*types.Map)
			d1, d2 := x.dom(st, args[0], mt), x.dom(st, args[1], mt)
			q := mkBVar("k", sortOf(mt.Key()))
			v1, v2 := x.mvals(st, args[0], mt), x.mvals(st, args[1], mt)
			if d1 == d2 && v1 == v2 {
				return one(tTrue)
			}
			return one(mkAnd(mkForall([]*Term{q}, mkEq(mkSelect(d1, q), mkSelect(d2, q))),
				mkForall([]*Term{q}, mkImp(mkSelect(d1, q), mkEq(mkSelect(v1, q), mkSelect(v2, q))))))
		}
		el := f.Signature.Params().At(0).Type().Underlying().(*types.Slice).Elem()
		row := func(s *Term) *Term {
			return mkSelect(x.memGet(st, ghost(arrKey(el), slArr(s))), slArr(s))
		}
		q := mkBVar("i", sInt)
		a, b := args[0], args[1]
		return one(mkAnd(mkEq(slLen(a), slLen(b)), mkForall([]*Term{q}, mkImp(mkAnd(mkLe(mkInt(0), q), mkLt(q, slLen(a))),
			mkEq(mkSelect(row(a), q), mkSelect(row(b), q))))))
	case "SameRow": // identical backing contents and bounds (no quantifier)
		return one(mkEq(args[0], args[1]))
	case "Forall", "Exists":
		c := args[0]
		if c.op == OApp && strings.HasPrefix(c.name, "box!") {
			c = c.args[0]
		}
		if !(c.op == OApp && strings.HasPrefix(c.name, "clo!")) {
			fail("vc.%s needs a function literal", name)
		}
		fn := closures[c.name]
		var vs []*Term
		for _, p := range fn.Params {
			vs = append(vs, mkBVar(p.Name(), sortOf(p.Type())))
		}
		x.binder++
		rs, _ := x.run(fn, vs, c.args, st.withPC(tTrue))
		x.binder--
		if name == "Forall" {
			return one(mkForall(vs, rs[0]))
		}
		return one(mkExists(vs, rs[0]))
	case "Calls":
		v := args[0]
		if v.op == OApp && strings.HasPrefix(v.name, "box!") {
			v = v.args[0]
		}
		ck := getKey("G", "calls!"+sanitize(v.sort.name), arrSort(v.sort, sInt))
		return one(mkSelect(x.memGet(st, ck), v))
	}
	fail("unknown intrinsic vc.%s", name)
	return nil, nil
}

func appendFact(fs []*Term, t *Term) []*Term {
	if t == tTrue {
		return fs
	}
	return append(fs, t)
}

// variadic lists the elements of a slice of known length.
func (x *Exec) variadic(st *State, s *Term) []*Term { return x.variadicOf(st, s, "iface", sIface) }

func (x *Exec) variadicOf(st *State, s *Term, el string, es *Sort) []*Term {
	n := slLen(s)
	if n.op != OInt {
		fail("variadic specification argument of unknown length")
	}
	var r []*Term
	a := slArr(s)
	if a == tNull {
		return nil
	}
	k := getKey("A", el, arrSort(sRef, arrSort(sInt, es)))
	k = ghost(k, a)
	row := mkSelect(x.memGet(st, k), a)
	for i := int64(0); i < n.ival.Int64(); i++ {
		r = append(r, mkSelect(row, mkInt(i)))
	}
	return r
}

func (x *Exec) modItems(sc *specCtx, st *State, b *Term) {
	if b.op != OApp || !strings.HasPrefix(b.name, "box!") {
		fail("vc.Modifies needs pointers or maps")
	}
	t := tagTypes[strings.TrimPrefix(b.name, "box!")]
	x.modItem(sc, b.args[0], t)
}

func (x *Exec) modItem(sc *specCtx, v *Term, t types.Type) {
	if v.op == OIte {
		for i, c := range []*Term{v.args[0], mkNot(v.args[0])} {
			sub := &specCtx{}
			x.modItem(sub, v.args[i+1], t)
			for _, m := range sub.mods {
				if m.cond == nil {
					m.cond = tTrue
				}
				m.cond = mkAnd(c, m.cond)
				sc.mods = append(sc.mods, m)
			}
		}
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		if v != tNull {
			x.modLoc(sc, v, u.Elem())
		}
	case *types.Map:
		sc.mods = append(sc.mods, modItem{key: domKey(u).name, addr: v}, modItem{key: mvalKey(u).name, addr: v})
	case *types.Slice:
		sc.mods = append(sc.mods, modItem{key: arrKey(u.Elem()).name, addr: slArr(v)})
	default:
		fail("vc.Modifies of %s", t)
	}
}

func (x *Exec) modLoc(sc *specCtx, a *Term, t types.Type) {
	if underElt(a) {
		for a.op == OFld {
			a = a.args[0]
		}
		sc.mods = append(sc.mods, modItem{key: a.name, addr: a.args[0]})
		return
	}
	if u, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < u.NumFields(); i++ {
			x.modLoc(sc, fld(a, u, i), u.Field(i).Type())
		}
		return
	}
	sc.mods = append(sc.mods, modItem{key: leafKey(t).name, addr: a})
}

func (x *Exec) freshCond(st *State, b *Term) *Term {
	v := b
	if b.op == OApp && strings.HasPrefix(b.name, "box!") {
		v = b.args[0]
	}
	if x.sctx.mode == "call-post" && v.op == OConst && v.sort == sRef && v.lob == 0 && v.seq > 0 && x.sctx.guard != nil {
		// a result of the call being applied: its object is new to the caller
		if v.bound[0] > 0 {
			return sinceCall(v)
		}
	}
	switch v.sort {
	case sRef:
		return x.isFresh(v, x.freshBase())
	case sSlice:
		return x.isFresh(slArr(v), x.freshBase())
	}
	fail("vc.Fresh of %s", v.sort.name)
	return nil
}

// sinceCall tells that v was allocated at or after base v.bound[0].
func sinceCall(v *Term) *Term {
	n := fmt.Sprintf("freshsince!%d", v.bound[0])
	lim := v.bound[0]
	if _, ok := funAxioms[n]; !ok {
		funAxioms[n] = func(p *printer) []string {
			return []string{fmt.Sprintf("(assert (forall ((r Ref)) (! (= (%s r) (>= (root r) %d000000000000)) :pattern ((%s r)))))", n, lim, n)}
		}
	}
	return mkApp(n, sBool, v)
}

// newObjects notes the results that a postcondition says, without condition, to be new.
func newObjects(t *Term) {
	for _, c := range conjuncts(t) {
		if c.op == OApp && strings.HasPrefix(c.name, "freshsince!") && c.args[0].op == OConst {
			c.args[0].lob = c.args[0].bound[0]
		}
	}
}

func (x *Exec) freshBase() int { return 0 }

// assume lets the simplifier use the atoms of a precondition.
func (x *Exec) assume(t *Term) {
	for _, c := range conjuncts(t) {
		if c.bv {
			continue
		}
		switch {
		case c.op == ONot:
			if len(c.args[0].args) > 0 && c.args[0].op != OForall && c.args[0].op != OExists {
				x.assumed[c.args[0]] = tFalse
			}
		case c.op == OEq:
			a, b := c.args[0], c.args[1]
			if isLit(a) || a == tNull || a == nilSlice {
				a, b = b, a
			}
			if (isLit(b) || b == tNull || b == nilSlice) && !isLit(a) && a != tNull {
				x.assumed[a] = b
			}
			x.assumed[c] = tTrue
		case c.op == OApp || c.op == OSelect:
			x.assumed[c] = tTrue
		}
	}
	x.simps = map[*Term]*simpCtx{}
}
