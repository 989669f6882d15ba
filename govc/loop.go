package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const maxUnroll = 64

func (fr *frame) loop(h *ssa.BasicBlock, incs []inc) map[*ssa.BasicBlock][]inc {
	x := fr.x
	body := fr.inf.loops[h]
	inBody := func(b *ssa.BasicBlock) bool { return body[b] }
	entry := fr.enter(h, incs)
	exits := map[*ssa.BasicBlock][]inc{}
	for i := 0; i < maxUnroll; i++ {
		if !fr.constDecision(h, entry) {
			break
		}
		latches, ex := fr.region(map[*ssa.BasicBlock][]inc{h: {{nil, entry}}}, inBody, h)
		for to, is := range ex {
			exits[to] = append(exits[to], is...)
		}
		if len(latches) == 0 {
			return exits
		}
		entry = fr.enter(h, latches)
	}
	if x.spec > 0 {
		fail("unbounded loop in specification function %s", fr.fn)
	}

	ord := x.loopOrd
	x.loopOrd++
	seq := freshSeq
	startBase := x.newBase(entry)
	_ = startBase
	keys := fr.loopKeys(h, ord)
	if n := fr.nthMapLoop(h, keys, ord); n > 1 {
		keys = append([]string{fmt.Sprintf("%s#%d", keys[0], n)}, keys...)
	}
	ls := x.findLoop(fr, h, keys, entry)
	label := keys[0]
	if ls != nil {
		label = ls.key
	}

	type wkey struct {
		key  string
		addr *Term
	}
	W, gains := map[wkey]bool{}, map[string]bool{}
	var wlist []wkey
	var head *State
	for it := 0; ; it++ {
		head = entry.clone()
		hb := x.newBase(head)
		for _, w := range wlist {
			k := memNames[w.key]
			if w.addr == nil {
				head.mem[w.key] = x.freshMem(head, k)
				continue
			}
			head.mem[w.key] = mkStore(x.memGet(head, k), w.addr, x.fresh(head, "loop", k.sort.val))
		}
		fr.havocPhis(h, head)
		// dry run to collect writes
		nf, no, lo, nr := len(x.facts), len(x.obls), x.loopOrd, len(fr.rets)
		saveLog, saveMax := x.log, x.base
		_ = saveMax
		log := []write{}
		x.log = &log
		x.dry++
		d := head.clone()
		fr.region(map[*ssa.BasicBlock][]inc{h: {{nil, d}}}, inBody, h)
		x.dry--
		x.log = saveLog
		x.facts, x.obls, x.loopOrd, fr.rets = x.facts[:nf], x.obls[:no], lo, fr.rets[:nr]
		changed := false
		add := func(w wkey) {
			if w.addr != nil && W[wkey{w.key, nil}] || W[w] {
				return
			}
			if w.addr == nil {
				var l []wkey
				for _, o := range wlist {
					if o.key != w.key {
						l = append(l, o)
					}
				}
				wlist = l
			}
			W[w] = true
			wlist = append(wlist, w)
			changed = true
		}
		var classify func(key string, a *Term)
		classify = func(key string, a *Term) {
			if a == nil {
				add(wkey{key, nil})
				return
			}
			if a.op == OIte {
				classify(key, a.args[1])
				classify(key, a.args[2])
				return
			}
			r := rootOf(a)
			if b, _, ok := allocIdx(r); ok && b >= hb || r.lob >= hb {
				return
			}
			if variant(a, seq, map[*Term]bool{}) || it > 6 {
				add(wkey{key, nil})
				return
			}
			add(wkey{key, a})
		}
		for _, w := range log {
			if !w.del {
				gains[w.key] = true
			}
			classify(w.key, w.addr)
		}
		if !changed {
			break
		}
	}
	// writes happen in the enclosing loops' logs, too
	if x.log != nil {
		for _, w := range wlist {
			*x.log = append(*x.log, write{w.key, w.addr, false})
		}
	}
	// iterators whose map is changed inside
	for _, ins := range h.Instrs {
		if n, ok := ins.(*ssa.Next); ok {
			v := head.env[fr.inf.idx[n.Iter]]
			if v.it != nil {
				for _, w := range wlist {
					if w.key == domKey(v.it.mt).name && (w.addr == nil && !x.untouchable(w.key, v.it.m) || w.addr != nil && mkEq(w.addr, v.it.m) != tFalse) {
						c := *v.it
						c.weak, c.lose = true, !gains[w.key]
						head.env[fr.inf.idx[n.Iter]] = Val{it: &c}
					}
				}
			}
		}
	}

	// invariants
	x.audit(entry, "before loop "+label)
	if ls != nil && x.dry == 0 {
		for _, inv := range x.evalInv(fr, h, ls, entry) {
			x.oblige(entry, "loop "+label+": "+invName(inv.name)+" holds on entry", x.props(inv.name), inv.t)
		}
	}
	for _, w := range wlist {
		if w.addr == nil {
			x.frameFact(head, memNames[w.key])
		}
	}
	fr.autoFacts(h, head, entry)
	if ls != nil {
		for _, inv := range x.evalInv(fr, h, ls, head) {
			n := len(x.facts)
			x.fact(head, inv.t)
			if len(x.facts) > n {
				x.factInv[n] = invName(inv.name)
			}
		}
	}
	x.audit(head, "after loop "+label)
	latches, ex := fr.region(map[*ssa.BasicBlock][]inc{h: {{nil, head}}}, inBody, h)
	for i, l := range latches {
		if i == 0 {
			x.audit(head, "before latches of "+label)
		}
		x.audit(l.st, "after one turn of "+label)
	}
	if ls != nil && len(latches) > 0 && x.dry == 0 {
		// One proof per latch keeps the conditions small.
		var each []inc
		for _, l := range latches {
			for _, a := range x.alternatives(l.st) {
				each = append(each, inc{l.from, a})
			}
		}
		for _, l := range each {
			s := fr.enter(h, []inc{l})
			for _, inv := range x.evalInv(fr, h, ls, s) {
				x.oblige(s, "loop "+label+": "+invName(inv.name)+" preserved", x.props(inv.name), inv.t)
			}
		}
	}
	for to, is := range ex {
		exits[to] = append(exits[to], is...)
	}
	return exits
}

func invName(n string) string { return n }

// variant is true if t mentions a constant made after seq.
func variant(t *Term, seq int, seen map[*Term]bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	if t.seq > seq {
		return true
	}
	if t.op == OConst && strings.Contains(t.name, "!e") {
		return true
	}
	for _, a := range t.args {
		if variant(a, seq, seen) {
			return true
		}
	}
	return false
}

// constDecision is true if the loop condition folds to a constant in st.
func (fr *frame) constDecision(h *ssa.BasicBlock, st *State) bool {
	iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	x := fr.x
	nf, no := len(x.facts), len(x.obls)
	saveLog := x.log
	x.log = nil
	x.dry++
	c := st.clone()
	var cond *Term
	for _, ins := range h.Instrs[:len(h.Instrs)-1] {
		switch ins.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		default:
			c = fr.instr(ins, c)
		}
	}
	cond = fr.term(c, iff.Cond)
	x.dry--
	x.log = saveLog
	x.facts, x.obls = x.facts[:nf], x.obls[:no]
	return cond == tTrue || cond == tFalse
}

func (fr *frame) havocPhis(h *ssa.BasicBlock, st *State) {
	for _, ins := range h.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		st.env[fr.inf.idx[p]] = Val{t: fr.x.fresh(st, "phi_"+p.Comment, sortOf(p.Type()))}
	}
}

// autoFacts assumes invariants that hold by construction of counting loops.
func (fr *frame) autoFacts(h *ssa.BasicBlock, st, entry *State) {
	for _, ins := range h.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		if sortOf(p.Type()) != sInt {
			continue
		}
		v := st.env[fr.inf.idx[p]].t
		// all latch edges are p + positive constant
		up := true
		for i, e := range p.Edges {
			if !h.Dominates(h.Preds[i]) {
				continue
			}
			b, ok := e.(*ssa.BinOp)
			if !ok || b.Op.String() != "+" || b.X != ssa.Value(p) {
				up = false
				break
			}
			c, ok := b.Y.(*ssa.Const)
			if !ok || c.Int64() < 0 {
				up = false
				break
			}
		}
		if up {
			fr.x.fact(st, mkLe(entry.env[fr.inf.idx[p]].t, v))
		}
		if p.Comment == "rangeindex" {
			if ln := fr.rangeLen(h, p, st); ln != nil {
				fr.x.fact(st, mkLe(mkAdd(v, mkInt(1)), ln))
			}
		}
	}
}

// rangeLen finds the bound of a range-index loop (a value computed before the loop).
func (fr *frame) rangeLen(h *ssa.BasicBlock, p *ssa.Phi, st *State) *Term {
	for _, ins := range h.Instrs {
		b, ok := ins.(*ssa.BinOp)
		if !ok || b.Op.String() != "<" {
			continue
		}
		if inc, ok := b.X.(*ssa.BinOp); ok && inc.X == ssa.Value(p) {
			return fr.val(st, b.Y).t
		}
	}
	return nil
}

// loopKeys gives names for a loop: what it ranges over, then its ordinal.
// nthMapLoop counts the loops over maps with the same key up to h.
func (fr *frame) nthMapLoop(h *ssa.BasicBlock, keys []string, ord int) int {
	n := 0
	for _, b := range fr.inf.order {
		for _, ins := range b.Instrs {
			if _, ok := ins.(*ssa.Next); ok {
				if k := fr.loopKeys(b, ord); len(k) > 0 && len(keys) > 0 && k[0] == keys[0] {
					n++
				}
			}
		}
		if b == h {
			break
		}
	}
	return n
}

func (fr *frame) loopKeys(h *ssa.BasicBlock, ord int) []string {
	var ks []string
	// debug adds the name of a variable holding the value.
	debug := func(v ssa.Value) {
		for _, b := range fr.fn.Blocks {
			for _, ins := range b.Instrs {
				if d, ok := ins.(*ssa.DebugRef); ok && d.X == v && d.Object() != nil {
					ks = append(ks, d.Object().Name())
					return
				}
			}
		}
	}
	add := func(v ssa.Value) {
		for depth := 0; v != nil && depth < 6; depth++ {
			switch u := v.(type) {
			case *ssa.UnOp:
				v = u.X
				continue
			case *ssa.FieldAddr:
				ks = append(ks, u.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct).Field(u.Field).Name())
				return
			case *ssa.Field:
				ks = append(ks, u.X.Type().Underlying().(*types.Struct).Field(u.Field).Name())
				return
			case *ssa.Parameter:
				ks = append(ks, u.Name())
				return
			case *ssa.FreeVar:
				ks = append(ks, u.Name())
				return
			case *ssa.Alloc:
				ks = append(ks, u.Comment)
				return
			case *ssa.Phi:
				ks = append(ks, u.Comment)
				return
			case *ssa.ChangeType:
				v = u.X
				continue
			case *ssa.Call:
				if c := u.Call.StaticCallee(); c != nil {
					ks = append(ks, c.Name()+"()")
				} else if u.Call.IsInvoke() {
					ks = append(ks, u.Call.Method.Name()+"()")
				}
				debug(u)
				return
			}
			debug(v)
			return
		}
	}
	for _, ins := range h.Instrs {
		switch i := ins.(type) {
		case *ssa.Next:
			if r, ok := i.Iter.(*ssa.Range); ok {
				add(r.X)
			}
		case *ssa.BinOp:
			if inc, ok := i.X.(*ssa.BinOp); ok && i.Op.String() == "<" {
				if p, ok := inc.X.(*ssa.Phi); ok && p.Comment == "rangeindex" {
					if c, ok := i.Y.(*ssa.Call); ok && len(c.Call.Args) == 1 {
						add(c.Call.Args[0])
					}
				}
			}
		}
	}
	ks = append(ks, fmt.Sprintf("#%d", ord))
	return ks
}

// findLoop selects the loop specification: by what the loop ranges over, then by ordinal, then by variables.
func (x *Exec) findLoop(fr *frame, h *ssa.BasicBlock, keys []string, st *State) *loopSpec {
	try := func(l *loopSpec) bool {
		_, ok := x.bindLoop(fr, h, l, st)
		return ok
	}
	for _, k := range keys {
		for _, l := range x.loops {
			if l.key == k && try(l) {
				return l
			}
		}
	}
	for _, l := range x.loops {
		if !l.used && try(l) && fr.kindOf(h) == x.kindOfSpec(l) {
			return l
		}
	}
	if len(x.loops) > 0 {
		dbg("no loop spec for %v in %s", keys, fr.fn)
	}
	return nil
}

func (fr *frame) kindOf(h *ssa.BasicBlock) string {
	for _, ins := range h.Instrs {
		if n, ok := ins.(*ssa.Next); ok {
			return "map " + typeKey(n.Iter.(*ssa.Range).X.Type().Underlying().(*types.Map).Key())
		}
	}
	return "idx"
}

func (x *Exec) kindOfSpec(l *loopSpec) string {
	for _, p := range l.fn.Params {
		if n, nt := vcType(p.Type()); n == "Visited" {
			return "map " + typeKey(nt.TypeArgs().At(0))
		}
	}
	return "idx"
}

func (x *Exec) bindLoop(fr *frame, h *ssa.BasicBlock, l *loopSpec, st *State) ([]*Term, bool) {
	var args []*Term
	for _, p := range l.fn.Params {
		t := fr.bindVar(h, p.Name(), p.Type(), st, false)
		for i := len(x.callers) - 1; i >= 0 && t == nil; i-- {
			t = x.callers[i].bindVar(p.Name(), p.Type(), st)
		}
		if t == nil {
			t = fr.bindVar(h, p.Name(), p.Type(), st, true)
		}
		if t == nil {
			dbg("loop %s: cannot bind %s %s", l.key, p.Name(), p.Type())
			return nil, false
		}
		args = append(args, t)
	}
	return args, true
}

func (fr *frame) bindVar(h *ssa.BasicBlock, name string, t types.Type, st *State, anyName bool) *Term {
	if n, _ := vcType(t); n == "Done" {
		for _, ins := range h.Instrs {
			if p, ok := ins.(*ssa.Phi); ok && p.Comment == "rangeindex" {
				return mkAdd(st.env[fr.inf.idx[p]].t, mkInt(1))
			}
		}
		// a counting loop: the integer phi starting at 0 with step 1
		for _, ins := range h.Instrs {
			if p, ok := ins.(*ssa.Phi); ok && sortOf(p.Type()) == sInt {
				return st.env[fr.inf.idx[p]].t
			}
		}
		return nil
	} else if n == "Visited" {
		for _, ins := range h.Instrs {
			if nx, ok := ins.(*ssa.Next); ok {
				it := st.env[fr.inf.idx[nx.Iter]].it
				if it != nil && memNames[it.key].sort == sortOf(t) {
					return fr.x.memGet(st, memNames[it.key])
				}
			}
		}
		return nil
	}
	same := func(u types.Type) bool { return types.Identical(u, t) }
	// phis of this header
	for _, ins := range h.Instrs {
		if p, ok := ins.(*ssa.Phi); ok && p.Comment == name && same(p.Type()) {
			return st.env[fr.inf.idx[p]].t
		}
	}
	for _, p := range fr.fn.Params {
		if p.Name() == name && same(p.Type()) {
			return st.env[fr.inf.idx[p]].t
		}
	}
	type cand struct {
		v    ssa.Value
		addr bool
	}
	var best, unique *cand
	nu := map[ssa.Value]bool{}
	consider := func(nm string, v ssa.Value, addr bool, ty types.Type) {
		if !same(ty) {
			return
		}
		idx, ok := fr.inf.idx[v]
		if !ok || st.env[idx].t == nil {
			return
		}
		if ins, ok := v.(ssa.Instruction); ok {
			if !ins.Block().Dominates(h) {
				return
			}
		}
		c := &cand{v, addr}
		if nm == name && (best == nil || !best.addr || addr) {
			best = c // a variable in memory over the values once assigned to it
		}
		if !nu[v] {
			nu[v] = true
			unique = c
		}
	}
	for _, ins := range h.Instrs {
		if p, ok := ins.(*ssa.Phi); ok {
			consider(p.Comment, p, false, p.Type())
		}
	}
	for _, fv := range fr.fn.FreeVars {
		if pt, ok := fv.Type().Underlying().(*types.Pointer); ok {
			consider(fv.Name(), fv, true, pt.Elem())
		}
	}
	for _, b := range fr.inf.order {
		for _, ins := range b.Instrs {
			if a, ok := ins.(*ssa.Alloc); ok && a.Comment != "" {
				consider(a.Comment, a, true, a.Type().Underlying().(*types.Pointer).Elem())
			}
			if d, ok := ins.(*ssa.DebugRef); ok && d.Object() != nil && !d.IsAddr {
				if _, isVar := d.Object().(*types.Var); isVar {
					consider(d.Object().Name(), d.X, false, d.X.Type())
				}
			}
		}
	}
	c := best
	if c == nil && anyName && len(nu) == 1 {
		c = unique // the only value of that type in scope
	}
	if c == nil {
		return nil
	}
	v := st.env[fr.inf.idx[c.v]].t
	if c.addr {
		return fr.x.load(st, v, t)
	}
	return v
}

// bindVar finds a variable of a calling function.
func (cs callSite) bindVar(name string, t types.Type, st *State) *Term {
	fr := cs.fr
	same := func(u types.Type) bool { return types.Identical(u, t) }
	for _, p := range fr.fn.Params {
		if p.Name() == name && same(p.Type()) {
			return cs.env[fr.inf.idx[p]].t
		}
	}
	for _, fv := range fr.fn.FreeVars {
		if pt, ok := fv.Type().Underlying().(*types.Pointer); ok && fv.Name() == name && same(pt.Elem()) {
			return fr.x.load(st, cs.env[fr.inf.idx[fv]].t, t)
		}
	}
	var r *Term
	for _, b := range fr.inf.order {
		for _, ins := range b.Instrs {
			if a, ok := ins.(*ssa.Alloc); ok && a.Comment == name && same(a.Type().Underlying().(*types.Pointer).Elem()) {
				if v := cs.env[fr.inf.idx[a]].t; v != nil {
					r = fr.x.load(st, v, t)
				}
			}
			if d, ok := ins.(*ssa.DebugRef); ok && d.Object() != nil && !d.IsAddr && d.Object().Name() == name && same(d.X.Type()) {
				if i, ok := fr.inf.idx[d.X]; ok && cs.env[i].t != nil {
					r = cs.env[i].t
				}
			}
		}
	}

	return r
}

func (x *Exec) evalInv(fr *frame, h *ssa.BasicBlock, l *loopSpec, st *State) []namedTerm {
	args, ok := x.bindLoop(fr, h, l, st)
	if !ok {
		fail("loop %s: variables cannot be bound", l.key)
	}
	l.used = true
	sc := &specCtx{mode: "loop", contract: x.contract, guard: tTrue}
	x.runSpec(sc, l.fn, args, l.binds, st)
	return sc.invs
}

// runSpec evaluates specification code in a state without changing it.
func (x *Exec) runSpec(sc *specCtx, fn *ssa.Function, args, binds []*Term, st *State) ([]*Term, *State) {
	old, lg, fo := x.sctx, x.log, x.frameOn
	x.sctx, x.log, x.frameOn = sc, nil, false
	x.spec++
	defer func() {
		x.spec--
		x.sctx, x.log, x.frameOn = old, lg, fo
	}()
	return x.run(fn, args, binds, st.withPC(tTrue))
}

func (x *Exec) props(name string) []string {
	if len(name) > 3 && name[0] == 'C' && name[1] >= '0' && name[1] <= '9' {
		if i := strings.IndexByte(name, '.'); i > 0 {
			return strings.Split(name[:i], "+")
		}
	}
	return x.contract.Props
}

func sortedKeys[V any](m map[string]V) []string {
	r := make([]string, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// frameFact: objects that existed on entry and may not be modified are as they were (every write is checked for that).
func (x *Exec) frameFact(st *State, k *memKey) {
	if !x.frameOn || x.modAny || strings.HasPrefix(k.name, "S!") || strings.HasPrefix(k.name, "G!") || x.binder > 0 {
		return
	}
	r := mkBVar("r", sRef)
	cond := []*Term{mkNot(mkApp("isfresh", sBool, r))}
	for _, m := range x.mods {
		if m.key == k.name {
			cond = append(cond, mkNot(m.coversAny(r)))
		}
	}
	cur := mkSelect(x.memGet(st, k), r)
	old := mkSelect(x.memGet(&State{epoch: "0"}, k), r)
	x.facts = append(x.facts, mkForall([]*Term{r}, mkImp(mkAnd(cond...), mkEq(cur, old)), cur))
}

// untouchable: the frame condition forbids changing a.
func (x *Exec) untouchable(key string, a *Term) bool {
	if !x.frameOn || x.modAny || x.isFresh(a, 0) != tFalse {
		return false
	}
	for _, m := range x.mods {
		if m.key == key && m.covers(a) != tFalse {
			return false
		}
	}
	return true
}
