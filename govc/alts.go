package main

import "golang.org/x/tools/go/ssa"

// A state that joins several returns of a function remembers them: a later branch on whether the call failed takes the
// state of the returns that did, instead of a join of all of them.

type alt struct {
	pc  *Term
	eqs map[*Term]*Term // joined term -> its value in this alternative
}

type alts struct {
	base map[*Term]bool // conjuncts of the path condition of the join
	list []alt
}

const maxAlts = 6

func newAlts(out *State, sts []*State, vm []*Term, vs [][]*Term) *alts {
	a := &alts{base: map[*Term]bool{}}
	for _, c := range conjuncts(out.pc) {
		a.base[c] = true
	}
	for i, s := range sts {
		e := map[*Term]*Term{}
		for k, m := range out.mem {
			if v, ok := s.mem[k]; ok && v != m && m.op == OIte {
				e[m] = v
			}
		}
		for j, m := range vm {
			if v := vs[i][j]; v != m && m.op == OIte {
				e[m] = v
			}
		}
		a.list = append(a.list, alt{s.pc, e})
	}
	return a
}

// pick is the state in one of its alternatives.
func (x *Exec) pick(st *State, a alt) (*State, func(*Term) *Term) {
	n := st.clone()
	n.alts = nil
	n.pc = a.pc
	for _, c := range conjuncts(st.pc) {
		if !st.alts.base[c] {
			n.pc = mkAnd(n.pc, c)
		}
	}
	memo := map[*Term]*Term{}
	sub := func(t *Term) *Term {
		if t == nil {
			return t
		}
		return subst(t, a.eqs, memo)
	}
	for k, v := range n.mem {
		n.mem[k] = sub(v)
	}
	var val func(v Val) Val
	val = func(v Val) Val {
		v.t = sub(v.t)
		if v.tup != nil {
			v.tup = append([]Val(nil), v.tup...)
			for i := range v.tup {
				v.tup[i] = val(v.tup[i])
			}
		}
		return v
	}
	for i := range n.env {
		n.env[i] = val(n.env[i])
	}
	return n, sub
}

// alternatives of a state: itself if there are none.
func (x *Exec) alternatives(st *State) []*State {
	if st.alts == nil {
		return []*State{st}
	}
	var r []*State
	for _, a := range st.alts.list {
		n, _ := x.pick(st, a)
		if n.pc != tFalse {
			r = append(r, n)
		}
	}
	return r
}

// join merges alternatives and remembers them.
func (x *Exec) join(sts []*State) *State {
	if len(sts) == 1 {
		return sts[0]
	}
	out := x.merge(sts)
	env := out.env
	var vm []*Term
	vs := make([][]*Term, len(sts))
	for i := range env {
		if env[i].t == nil {
			continue
		}
		ok := true
		for _, s := range sts {
			if i >= len(s.env) || s.env[i].t == nil {
				ok = false
			}
		}
		if !ok {
			continue
		}
		vm = append(vm, env[i].t)
		for j, s := range sts {
			vs[j] = append(vs[j], s.env[i].t)
		}
	}
	if len(sts) <= maxAlts {
		out.alts = newAlts(out, sts, vm, vs)
	}
	return out
}

// branch decides a condition in the alternatives of the state; ok is false if it is the same in all of them.
func (fr *frame) branch(st *State, v ssa.Value) (t, f *State, ok bool) {
	x := fr.x
	if st.alts == nil || x.spec > 0 {
		return nil, nil, false
	}
	var ts, fs []*State
	decided := false
	for _, a := range st.alts.list {
		n, _ := x.pick(st, a)
		if n.pc == tFalse {
			continue
		}
		if b, ok := v.(*ssa.BinOp); ok {
			n = fr.instr(b, n)
		}
		c := x.simp(n.pc, fr.term(n, v))
		decided = decided || c == tTrue || c == tFalse
		if tp := mkAnd(n.pc, c); tp != tFalse {
			s := n.clone()
			s.pc = tp
			ts = append(ts, s)
		}
		if fp := mkAnd(n.pc, mkNot(c)); fp != tFalse {
			n.pc = fp
			fs = append(fs, n)
		}
	}
	if !decided {
		return nil, nil, false
	}
	if len(ts) > 0 {
		t = x.join(ts)
	}
	if len(fs) > 0 {
		f = x.join(fs)
	}
	return t, f, true
}

// joinRets merges the returns of a function that returns an error: failures in one, other returns apart.
func (x *Exec) joinRets(fn *ssa.Function, live []ret) []ret {
	n := fn.Signature.Results().Len()
	if x.spec > 0 || n == 0 || sortOf(fn.Signature.Results().At(n-1).Type()) != sIface || fn.Signature.Results().At(n-1).Type().String() != "error" {
		return nil
	}
	var all []ret
	for _, r := range live {
		if r.st.alts == nil {
			all = append(all, r)
			continue
		}
		for _, a := range r.st.alts.list {
			s, sub := x.pick(r.st, a)
			if s.pc == tFalse {
				continue
			}
			vs := make([]*Term, len(r.vs))
			for i, v := range r.vs {
				vs[i] = sub(v)
			}
			all = append(all, ret{s, vs})
		}
	}
	var errs, oks []ret
	for _, r := range all {
		r.vs = append([]*Term(nil), r.vs...)
		e := x.simp(r.st.pc, r.vs[n-1])
		nilness := x.simp(r.st.pc, mkEq(e, tNilIface))
		if nilness == tTrue {
			e = tNilIface
		}
		r.vs[n-1] = e
		if nilness == tFalse {
			errs = append(errs, r)
		} else {
			oks = append(oks, r)
		}
	}
	if len(errs) > 1 {
		st, vs := x.mergeRets(errs, n)
		errs = []ret{{st, vs}}
	}
	r := append(oks, errs...)
	if len(r) > maxAlts {
		if len(errs) == 0 {
			return nil
		}
		st, vs := x.mergeRets(oks, n)
		r = append([]ret{{st, vs}}, errs...)
	}
	return r
}

func (x *Exec) mergeRets(live []ret, n int) (*State, []*Term) {
	var sts []*State
	var pcs []*Term
	for _, r := range live {
		sts = append(sts, r.st)
		pcs = append(pcs, r.st.pc)
	}
	out := x.merge(sts)
	if len(live) == 1 {
		out = out.clone()
	}
	vs := make([]*Term, n)
	conds := relConds(pcs)
	for i := range vs {
		v := live[len(live)-1].vs[i]
		for j := len(live) - 2; j >= 0; j-- {
			v = mkIte(conds[j], live[j].vs[i], v)
		}
		vs[i] = v
	}
	return out, vs
}
