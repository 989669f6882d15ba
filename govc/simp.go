package main

// Simplification of terms under a path condition: conjuncts of the path condition are replaced by true (false when
// negated), and constants that the assumed facts define under (part of) the path condition by their definitions.

type def struct {
	fact *Term
	cond []*Term
	c, t *Term
}

type simpCtx struct {
	ndefs int
	m     map[*Term]*Term
	memo  map[*Term]*Term
}

func (x *Exec) scanDefs() {
	for ; x.defUpto < len(x.facts); x.defUpto++ {
		f := x.facts[x.defUpto]
		var cond []*Term
		b := f
		for b.op == OImp {
			cond = append(cond, conjuncts(b.args[0])...)
			b = b.args[1]
		}
		for _, e := range conjuncts(b) {
			if e.op != OEq {
				continue
			}
			p, q := e.args[0], e.args[1]
			if p.sort == sFunc || p.sort == sIface {
				continue
			}
			isC := func(t *Term) bool { return t.op == OConst && t.seq > 0 && !isLit(t) && t != tNull }
			switch {
			case isC(p) && !occurs(p, q) && p.seq > maxSeq(q):
				x.defs = append(x.defs, def{f, cond, p, q})
			case isC(q) && !occurs(q, p) && q.seq > maxSeq(p):
				x.defs = append(x.defs, def{f, cond, q, p})
			}
		}
	}
}

// maxSeq is the age of the newest constant in t: definitions only go from newer to older constants.
var seqMemo = map[*Term]int{}

func maxSeq(t *Term) int {
	if s, ok := seqMemo[t]; ok {
		return s
	}
	s := 0
	if t.op == OConst {
		s = t.seq
	}
	for _, a := range t.args {
		if n := maxSeq(a); n > s {
			s = n
		}
	}
	seqMemo[t] = s
	return s
}

func (x *Exec) simp(pc, t *Term) *Term {
	if t == nil || len(t.args) == 0 && t.op != OConst || x.binder > 0 {
		return t
	}
	x.scanDefs()
	c := x.simps[pc]
	if c == nil || c.ndefs != len(x.defs) {
		c = &simpCtx{ndefs: len(x.defs), m: map[*Term]*Term{}, memo: map[*Term]*Term{}}
		in := map[*Term]bool{}
		add := func(k *Term) {
			in[k] = true
			if k.op == ONot {
				c.m[k.args[0]] = tFalse
			} else if !isLit(k) {
				c.m[k] = tTrue
			}
		}
		for _, k := range conjuncts(pc) {
			add(k)
		}
		for k, v := range x.assumed {
			c.m[k] = v
		}
		for _, d := range x.defs {
			ok := true
			for _, k := range d.cond {
				if !in[k] {
					ok = false
				}
			}
			if ok {
				if _, dup := c.m[d.c]; !dup {
					c.m[d.c] = d.t
				}
			}
		}
		x.simps[pc] = c
	}
	if len(c.m) == 0 {
		return t
	}
	for i := 0; i < 4; i++ {
		r := subst(t, c.m, c.memo)
		if r == t {
			break
		}
		t = r
	}
	return t
}

func (x *Exec) simpGoal(pc, g *Term) *Term {
	if g.op == OImp {
		a := x.simp(pc, g.args[0])
		return mkImp(a, x.simpGoal(mkAnd(pc, a), g.args[1]))
	}
	return x.simp(pc, g)
}

func (x *Exec) simpVal(pc *Term, v Val) Val {
	if v.t != nil {
		v.t = x.simp(pc, v.t)
	}
	for i := range v.tup {
		v.tup[i] = x.simpVal(pc, v.tup[i])
	}
	return v
}
