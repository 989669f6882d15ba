package main

import (
	"fmt"
	"strings"
	"sync"
)

// Proving an obligation path by path: the disjunctions of its path condition are enumerated, then the conditions that
// its goal still depends on. Each case is a separate query in which the decided conditions are constants.

const maxCases = 96

type pathCase struct {
	hyps []*Term
	goal *Term
}

// flatten adds the conjuncts of h.
func flatten(h *Term, out []*Term) []*Term {
	switch {
	case h == tTrue:
		return out
	case h.op == OAnd:
		for _, a := range h.args {
			out = flatten(a, out)
		}
		return out
	case h.op == ONot && h.args[0].op == OOr:
		for _, a := range h.args[0].args {
			out = flatten(mkNot(a), out)
		}
		return out
	case h.op == ONot && h.args[0].op == OImp:
		return flatten(mkNot(h.args[0].args[1]), flatten(h.args[0].args[0], out))
	}
	return append(out, h)
}

// disjuncts of a hypothesis, nil if there is no choice.
func disjuncts(h *Term) []*Term {
	switch {
	case h.op == OOr:
		return h.args
	case h.op == ONot && h.args[0].op == OAnd:
		var r []*Term
		for _, a := range h.args[0].args {
			r = append(r, mkNot(a))
		}
		return r
	case h.op == OImp:
		return []*Term{mkNot(h.args[0]), h.args[1]}
	case h.op == OIte && h.sort == sBool:
		return []*Term{mkAnd(h.args[0], h.args[1]), mkAnd(mkNot(h.args[0]), h.args[2])}
	case h.op == ONot && h.args[0].op == OIte:
		a := h.args[0].args
		return []*Term{mkAnd(a[0], mkNot(a[1])), mkAnd(mkNot(a[0]), mkNot(a[2]))}
	}
	return nil
}

func atomOf(h *Term) (*Term, *Term) {
	if h.op == ONot {
		return h.args[0], tFalse
	}
	return h, tTrue
}

// normalise applies the units among the hypotheses to everything.
func (c *pathCase) normalise() bool {
	for round := 0; round < 4; round++ {
		var flat []*Term
		for _, h := range c.hyps {
			flat = flatten(h, flat)
		}
		m := map[*Term]*Term{}
		var units, rest []*Term
		seen := map[*Term]bool{}
		for _, h := range flat {
			if h == tFalse {
				return false
			}
			if seen[h] {
				continue
			}
			seen[h] = true
			a, v := atomOf(h)
			if disjuncts(h) == nil && a.op != OForall && a.op != OExists && !a.bv {
				if old, ok := m[a]; ok && old != v {
					return false
				}
				m[a] = v
				if h.op == OEq && (isLit(h.args[0]) != isLit(h.args[1])) {
					x, l := h.args[0], h.args[1]
					if isLit(x) {
						x, l = l, x
					}
					if _, ok := m[x]; !ok {
						m[x] = l
					}
				}
				units = append(units, h)
				continue
			}
			rest = append(rest, h)
		}
		memo := map[*Term]*Term{}
		ch := false
		c.hyps = append([]*Term(nil), units...)
		for _, h := range rest {
			n := rewrite(h, m, memo)
			ch = ch || n != h
			if n == tFalse {
				return false
			}
			c.hyps = append(c.hyps, n)
		}
		g := skolemize(rewrite(c.goal, m, memo))
		ch = ch || g != c.goal
		c.goal = g
		for c.goal.op == OImp {
			c.hyps = append(c.hyps, c.goal.args[0])
			c.goal = c.goal.args[1]
			ch = true
		}
		if !ch {
			break
		}
	}
	return c.goal != tTrue
}

// choice finds a condition the term depends on: which element of an updated array is read.
func choice(t *Term) *Term {
	seen := map[*Term]bool{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if seen[t] || len(t.args) == 0 {
			return nil
		}
		seen[t] = true
		if t.op == OSelect && t.args[0].op == OStore && t.args[1].sort != sRef {
			if e := mkEq(t.args[0].args[1], t.args[1]); !e.bv && e != tTrue && e != tFalse {
				return e
			}
		}
		for _, a := range t.args {
			if r := rec(a); r != nil {
				return r
			}
		}
		return nil
	}
	return rec(t)
}

// rewrite is subst that also decides reads of updated arrays by known (dis)equalities of indices.
func rewrite(t *Term, m map[*Term]*Term, memo map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.args) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	args := make([]*Term, len(t.args))
	ch := false
	for i, a := range t.args {
		args[i] = rewrite(a, m, memo)
		ch = ch || args[i] != a
	}
	r := t
	if ch {
		r = rebuild(t, args)
	}
	for r.op == OSelect && r.args[0].op == OStore {
		v, ok := m[mkEq(r.args[0].args[1], r.args[1])]
		if !ok {
			break
		}
		if v == tTrue {
			r = r.args[0].args[2]
		} else if v == tFalse {
			r = mkSelect(r.args[0].args[0], r.args[1])
		} else {
			break
		}
	}
	memo[t] = r
	return r
}

// skolemize replaces the variables of a universal goal by new constants.
func skolemize(g *Term) *Term {
	for g.op == OForall {
		m := map[*Term]*Term{}
		for _, v := range g.args[1:] {
			m[v] = mkConst("sk!"+strings.TrimPrefix(v.name, "?"), v.sort)
		}
		g = g.args[0]
		if g.op == OPat {
			g = g.args[0]
		}
		g = subst(g, m, map[*Term]*Term{})
	}
	return g
}

// enumerate the cases of a goal; nil if there are too many.
func pathCases(facts []*Term, goal *Term) ([]*pathCase, bool) {
	start := &pathCase{nil, goal}
	for _, f := range facts {
		for _, h := range flatten(f, nil) {
			if a, _ := atomOf(h); disjuncts(h) == nil && a.op != OForall && a.op != OExists && !a.bv {
				start.hyps = append(start.hyps, h)
			}
		}
	}
	work := []*pathCase{start}
	var out []*pathCase
	steps := 0
	for len(work) > 0 {
		if steps++; steps > 8*maxCases {
			return nil, false
		}
		c := work[len(work)-1]
		work = work[:len(work)-1]
		if !c.normalise() {
			continue
		}
		with := func(h ...*Term) {
			work = append(work, &pathCase{append(append([]*Term(nil), c.hyps...), h...), c.goal})
		}
		split := false
		if a := choice(c.goal); a != nil {
			with(a)
			with(mkNot(a))
			split = true
		}
		if !split {
			if c.goal.op == OAnd {
				for _, g := range goalParts(c.goal) {
					work = append(work, &pathCase{c.hyps, g})
				}
				continue
			}
			out = append(out, c)
		}
		if len(out)+len(work) > maxCases {
			return nil, false
		}
	}
	return out, true
}

// provePaths proves an obligation path by path.
func provePaths(fname string, facts []*Term, o *Obl, timeoutMS int) {
	bigLock.Lock()
	cases, ok := pathCases(facts, o.Goal)
	bigLock.Unlock()
	if !ok {
		return
	}
	subs := make([]*Obl, len(cases))
	var wg sync.WaitGroup
	for i, c := range cases {
		bigLock.Lock()
		var units []*Term
		m := map[*Term]*Term{}
		for _, h := range c.hyps {
			if a, v := atomOf(h); disjuncts(h) == nil && a.op != OForall && a.op != OExists {
				m[a] = v
				units = append(units, h)
			}
		}
		memo := map[*Term]*Term{}
		f := append([]*Term(nil), c.hyps...)
		for _, t := range facts {
			f = append(f, rewrite(t, m, memo))
		}
		bigLock.Unlock()
		subs[i] = &Obl{Func: o.Func, Name: fmt.Sprintf("%s/path%d", o.Name, i), Goal: c.goal, NFacts: len(f)}
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			race(fname, f, subs[i], timeoutMS)
		}(i)
	}
	wg.Wait()
	var solvers []string
	for _, s := range subs {
		o.Time += s.Time
		if s.Status != "proved" {
			if o.Msg == "" || s.Status == "failed" {
				o.Msg = fmt.Sprintf("on %s of %d paths: %s", strings.TrimPrefix(s.Name, o.Name+"/"), len(subs), s.Status)
			}
			if s.Status == "failed" && s.Model != "" {
				o.Model = s.Model
			}
			solvers = nil
			o.Solver = s.Solver
			return
		}
		if !strings.Contains(strings.Join(solvers, " "), s.Solver) {
			solvers = append(solvers, s.Solver)
		}
	}
	o.Status, o.Solver, o.Msg, o.Model = "proved", "paths:"+strings.Join(solvers, " "), "", ""
}
