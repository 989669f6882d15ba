package main

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"time"
)

// printer turns terms into SMT-LIB text, emitting declarations and shared definitions on the way.
type printer struct {
	out      *strings.Builder
	emit     bool
	declared map[string]bool
	defs     map[*Term]string
	refs     map[*Term]int
	nlit     int
	axioms   map[string]bool
}

func newPrinter(emit bool) *printer {
	p := &printer{out: &strings.Builder{}, emit: emit, declared: map[string]bool{}, defs: map[*Term]string{}, refs: map[*Term]int{}, axioms: map[string]bool{}}
	if emit {
		for _, n := range []string{"tag", "strid", "sarr", "slen"} {
			p.declared[n] = true
		}
		p.out.WriteString(prelude)
	}
	return p
}

const prelude = `(set-option :auto_config false)
(set-option :smt.mbqi true)
(declare-sort Str 0)
(declare-sort F64 0)
(declare-sort Iface 0)
(declare-sort Func 0)
(declare-datatypes ((Path 0)) (((pnil) (pf (pfb Path) (pfi Int)) (pe (peb Path) (pei Int)))))
(declare-datatypes ((Ref 0)) (((ref (root Int) (path Path)))))
(declare-datatypes ((Slice 0)) (((mkslice (sarr Ref) (slen Int)))))
(define-fun null () Ref (ref 0 pnil))
(define-fun mkfld ((r Ref) (i Int)) Ref (ref (root r) (pf (path r) i)))
(define-fun mkelt ((r Ref) (i Int)) Ref (ref (root r) (pe (path r) i)))
(declare-fun strid (Str) Int)
(declare-fun tag (Iface) Int)
(declare-const nilIface Iface)
(assert (= (tag nilIface) 0))
(assert (forall ((i Iface)) (! (=> (= (tag i) 0) (= i nilIface)) :pattern ((tag i)))))
(declare-const nilFunc Func)
`

const preludeCVC = `(set-logic ALL)
`

func (p *printer) line(s string) {
	if p.emit {
		p.out.WriteString(s)
		p.out.WriteByte('\n')
	}
}

func (p *printer) declSort(s *Sort) {
	if !p.emit {
		return
	}
	if s.key != nil {
		p.declSort(s.key)
		p.declSort(s.val)
		return
	}
	if s.dt == nil || p.declared["sort "+s.name] {
		return
	}
	p.declared["sort "+s.name] = true
	for _, f := range s.dt.fields {
		p.declSort(f.sort)
	}
	var b strings.Builder
	fmt.Fprintf(&b, "(declare-datatypes ((%s 0)) (((mk!%s", s.name, s.name)
	for i, f := range s.dt.fields {
		fmt.Fprintf(&b, " (%s %s)", selName(s, i), f.sort.name)
	}
	b.WriteString("))))")
	p.line(b.String())
}

func selName(s *Sort, i int) string {
	return fmt.Sprintf("%s!%d!%s", s.name, i, s.dt.fields[i].name)
}

func (p *printer) declare(name string, args []*Term, s *Sort) {
	if !p.emit || p.declared[name] {
		return
	}
	p.declared[name] = true
	p.declSort(s)
	var as []string
	for _, a := range args {
		p.declSort(a.sort)
		as = append(as, a.sort.name)
	}
	p.line(fmt.Sprintf("(declare-fun %s (%s) %s)", name, strings.Join(as, " "), s.name))
}

// count walks the DAG below t counting references.
func (p *printer) count(t *Term) {
	p.refs[t]++
	if p.refs[t] > 1 {
		return
	}
	for _, a := range t.args {
		p.count(a)
	}
}

// term returns the text of a closed term, defining shared subterms first.
func (p *printer) term(t *Term) string {
	if p.emit {
		p.count(t)
	}
	return p.closed(t)
}

func (p *printer) closed(t *Term) string {
	if n, ok := p.defs[t]; ok {
		return n
	}
	// iterative post-order over closed subterms to bound recursion text
	s := p.node(t, p.closedOrBound(nil))
	if p.emit && !t.bv && len(t.args) > 0 && len(s) > 60 && (p.refs[t] > 1 || len(s) > 400) {
		n := fmt.Sprintf("t!%d", t.id)
		p.declSort(t.sort)
		p.line(fmt.Sprintf("(define-fun %s () %s %s)", n, t.sort.name, s))
		p.defs[t] = n
		return n
	}
	return s
}

func (p *printer) closedOrBound(lets map[*Term]string) func(*Term) string {
	return func(a *Term) string {
		if lets != nil {
			if n, ok := lets[a]; ok {
				return n
			}
		}
		if !a.bv {
			return p.closed(a)
		}
		return p.node(a, p.closedOrBound(lets))
	}
}

func (p *printer) inline(t *Term, depth int) string {
	return p.node(t, func(a *Term) string {
		if depth > 6 {
			return "…"
		}
		return p.inline(a, depth+1)
	})
}

func (p *printer) node(t *Term, rec func(*Term) string) string {
	app := func(op string, args ...*Term) string {
		var b strings.Builder
		b.WriteByte('(')
		b.WriteString(op)
		for _, a := range args {
			b.WriteByte(' ')
			b.WriteString(rec(a))
		}
		b.WriteByte(')')
		return b.String()
	}
	switch t.op {
	case OConst:
		if t != tNull && t != tNilIface && t != tNilFunc {
			p.declare(t.name, nil, t.sort)
			if p.emit && !p.axioms["ax "+t.name] {
				p.axioms["ax "+t.name] = true
				p.constAxioms(t)
			}
		}
		return t.name
	case OBVar:
		return t.name
	case OTrue:
		return "true"
	case OFalse:
		return "false"
	case OInt:
		if t.ival.Sign() < 0 {
			return "(- " + strings.TrimPrefix(t.ival.String(), "-") + ")"
		}
		return t.ival.String()
	case OStrLit:
		if !p.emit {
			return fmt.Sprintf("%q", t.name)
		}
		n := fmt.Sprintf("lit!%d", t.id)
		if !p.declared[n] {
			p.declared[n] = true
			c := t.name
			if len(c) > 60 {
				c = c[:60]
			}
			p.line(fmt.Sprintf("(declare-const %s Str) ; %q", n, c))
			p.line(fmt.Sprintf("(assert (= (strid %s) %d))", n, t.id))
		}
		return n
	case OApp:
		p.declare(t.name, t.args, t.sort)
		p.appAxioms(t)
		if len(t.args) == 0 {
			return t.name
		}
		if p.emit && !t.bv {
			switch t.name {
			case "sarr", "slen":
				p.sliceWF(t.args[0], rec(t.args[0]))
			}
		}
		s := app(t.name, t.args...)
		p.refBound(t, s)
		return s
	case OAnd:
		return app("and", t.args...)
	case OOr:
		return app("or", t.args...)
	case ONot:
		return app("not", t.args...)
	case OImp:
		return app("=>", t.args...)
	case OIte:
		return app("ite", t.args...)
	case OEq:
		return app("=", t.args...)
	case OAdd:
		return app("+", t.args...)
	case OSub:
		return app("-", t.args...)
	case OMul:
		return app("*", t.args...)
	case OLt:
		return app("<", t.args...)
	case OLe:
		return app("<=", t.args...)
	case OSelect:
		s := app("select", t.args...)
		p.refBound(t, s)
		return s
	case OStore:
		return app("store", t.args...)
	case OConstArr:
		p.declSort(t.sort)
		return app("(as const "+t.sort.name+")", t.args...)
	case OCtor:
		p.declSort(t.sort)
		if len(t.args) == 0 {
			return "mk!" + t.sort.name
		}
		return app("mk!"+t.sort.name, t.args...)
	case OSel:
		s := t.args[0].sort
		p.declSort(s)
		r := app(selName(s, t.n), t.args...)
		p.refBound(t, r)
		return r
	case ONewRef:
		return fmt.Sprintf("(ref %s pnil)", newRefID(t))
	case OFld:
		return fmt.Sprintf("(mkfld %s %d)", rec(t.args[0]), t.n)
	case OElt:
		return app("mkelt", t.args...)
	case OMkSlice:
		return app("mkslice", t.args...)
	case OForall, OExists:
		q := "forall"
		if t.op == OExists {
			q = "exists"
		}
		var vs []string
		for _, v := range t.args[1:] {
			p.declSort(v.sort)
			vs = append(vs, fmt.Sprintf("(%s %s)", v.name, v.sort.name))
		}
		return fmt.Sprintf("(%s (%s) %s)", q, strings.Join(vs, " "), p.letBody(t.args[0], t.args[1:], rec))
	case OPat:
		var ps []string
		for _, a := range t.args[1:] {
			ps = append(ps, ":pattern ("+rec(a)+")")
		}
		return "(! " + rec(t.args[0]) + " " + strings.Join(ps, " ") + ")"
	}
	panic(fmt.Sprintf("print op %d", t.op))
}

// letBody prints a quantifier body with let-bindings for shared subterms over the new variables.
func (p *printer) letBody(t *Term, vars []*Term, outer func(*Term) string) string {
	if !p.emit {
		return outer(t)
	}
	isNew := func(a *Term) bool {
		for _, v := range vars {
			if a.bvs[v] {
				return true
			}
		}
		return false
	}
	cnt := map[*Term]int{}
	var order []*Term
	inPat := map[*Term]bool{}
	var walk func(a *Term)
	walk = func(a *Term) {
		if !isNew(a) || a.op == OBVar {
			return
		}
		cnt[a]++
		if cnt[a] > 1 {
			return
		}
		if a.op == OForall || a.op == OExists {
			// shared nodes below that do not mention the nested variables may still be let-bound here; keep simple: descend
			for _, x := range a.args[:1] {
				walk(x)
			}
			order = append(order, a)
			return
		}
		if a.op == OPat {
			walk(a.args[0])
			for _, x := range a.args[1:] {
				inPat[x] = true
			}
			return
		}
		for _, x := range a.args {
			walk(x)
		}
		order = append(order, a)
	}
	walk(t)
	lets := map[*Term]string{}
	var rec func(a *Term) string
	rec = func(a *Term) string {
		if n, ok := lets[a]; ok {
			return n
		}
		if !isNew(a) {
			return outer(a)
		}
		return p.node(a, rec)
	}
	scoped := map[*Term]bool{}
	for _, v := range vars {
		scoped[v] = true
	}
	var heads []string
	noPat := t
	pats := []*Term(nil)
	if t.op == OPat {
		noPat = t.args[0]
		pats = t.args[1:]
	}
	var patTxt []string
	for _, a := range pats {
		patTxt = append(patTxt, ":pattern ("+rec(a)+")")
	}
	for _, a := range order {
		if cnt[a] < 2 || len(a.args) == 0 {
			continue
		}
		// only nodes whose bound vars are all visible here
		ok := true
		for v := range a.bvs {
			if scoped[v] {
				continue
			}
			if !p.visible(v, t, a) {
				ok = false
				break
			}
		}
		if !ok {
			continue
		}
		s := rec(a)
		if len(s) < 40 {
			continue
		}
		n := fmt.Sprintf("l!%d", a.id)
		heads = append(heads, fmt.Sprintf("(let ((%s %s)) ", n, s))
		lets[a] = n
	}
	body := rec(noPat)
	r := strings.Join(heads, "") + body + strings.Repeat(")", len(heads))
	if len(patTxt) > 0 {
		r = "(! " + r + " " + strings.Join(patTxt, " ") + ")"
	}
	return r
}

// visible tells whether variable v of a is bound outside of t (and so in scope at t).
func (p *printer) visible(v, t, a *Term) bool { return t.bvs[v] }

func (p *printer) sliceWF(t *Term, s string) {
	k := fmt.Sprintf("wf %d", t.id)
	if t.op == OConst || p.axioms[k] {
		return
	}
	p.axioms[k] = true
	if len(s) > 80 {
		if _, ok := p.defs[t]; !ok {
			n := fmt.Sprintf("t!%d", t.id)
			p.line(fmt.Sprintf("(define-fun %s () Slice %s)", n, s))
			p.defs[t] = n
			s = n
		}
	}
	p.line(fmt.Sprintf("(assert (and (<= 0 (slen %s)) (=> (= (sarr %s) null) (= (slen %s) 0))))", s, s, s))
}

// refBound states the allocation bound of a loaded reference.
func (p *printer) refBound(t *Term, s string) {
	if !p.emit || t.bv || t.sort != sRef {
		return
	}
	b := boundOf(t)
	k := fmt.Sprintf("rb %d", t.id)
	if !b.ok || p.axioms[k] {
		return
	}
	p.axioms[k] = true
	p.line(fmt.Sprintf("(assert (< (root %s) %s))", s, boundNum([2]int{b.b, b.n})))
}

func (p *printer) appAxioms(t *Term) {
	if !p.emit {
		return
	}
	if strings.HasPrefix(t.name, "box!") || strings.HasPrefix(t.name, "unbox!") {
		n := strings.TrimPrefix(strings.TrimPrefix(t.name, "un"), "box!")
		if p.axioms["box "+n] {
			return
		}
		p.axioms["box "+n] = true
		s := t.sort
		if strings.HasPrefix(t.name, "box!") {
			s = t.args[0].sort
		}
		p.declSort(s)
		b, u := "box!"+n, "unbox!"+n
		if !p.declared[b] {
			p.declared[b] = true
			p.line(fmt.Sprintf("(declare-fun %s (%s) Iface)", b, s.name))
		}
		if !p.declared[u] {
			p.declared[u] = true
			p.line(fmt.Sprintf("(declare-fun %s (Iface) %s)", u, s.name))
		}
		id := tagIDs[n]
		p.line(fmt.Sprintf("(assert (forall ((x %s)) (! (and (= (%s (%s x)) x) (= (tag (%s x)) %d)) :pattern ((%s x)))))", s.name, u, b, b, id, b))
		p.line(fmt.Sprintf("(assert (forall ((i Iface)) (! (=> (= (tag i) %d) (= (%s (%s i)) i)) :pattern ((%s i)))))", id, b, u, u))
		return
	}
	if ax, ok := funAxioms[t.name]; ok && !p.axioms["fun "+t.name] {
		p.axioms["fun "+t.name] = true
		for _, l := range ax(p) {
			p.line(l)
		}
	}
}

// funAxioms: UF name -> axioms (text).
var funAxioms = map[string]func(p *printer) []string{}

// constAxioms emits well-formedness facts of constants.
func (p *printer) constAxioms(t *Term) {
	if strings.HasPrefix(t.name, "D!") {
		p.line(fmt.Sprintf("(assert (= (select %s null) ((as const %s) false)))", t.name, t.sort.val.name))
	}
	switch t.sort {
	case sRef:
		if t.lob > 0 {
			p.line(fmt.Sprintf("(assert (>= (root %s) %d000000000000))", t.name, t.lob))
		}
		if t.bound[0] >= 0 {
			p.line(fmt.Sprintf("(assert (< (root %s) %s))", t.name, boundNum(t.bound)))
		}
	case sSlice:
		p.line(fmt.Sprintf("(assert (and (<= 0 (slen %s)) (=> (= (sarr %s) null) (= (slen %s) 0))))", t.name, t.name, t.name))
		if t.bound[0] >= 0 {
			p.line(fmt.Sprintf("(assert (< (root (sarr %s)) %s))", t.name, boundNum(t.bound)))
		}
	}
}

func boundNum(b [2]int) string {
	t := mk(ONewRef, sRef, fmt.Sprint(b[0]), b[1], nil)
	return newRefID(t).String()
}

// ---- obligations and solving ----

// Obl is a proof obligation.
type Obl struct {
	Func   string
	Name   string
	Props  []string
	Goal   *Term // already includes path condition
	NFacts int
	Facts  []*Term // when explicit
	Cover  bool    // reachability check: must be sat/unknown
	Msg    string  // pre-failed obligations (engine errors)

	Status string // proved, failed, unknown, error
	Solver string
	Model  string
	Time   float64
}

var solverBin = map[string][]string{
	"z3-new": {"z3-new", "-in"},
	"z3":     {"z3", "-in"},
	"cvc5":   {"cvc5", "--incremental", "--lang=smt2", "--produce-models"},
}

var dumpDir = os.Getenv("GOVC_DUMP")

// solveAll discharges the obligations of one function given its fact list.
func solveAll(fname string, facts []*Term, obls []*Obl, splits []split, timeoutMS int, factInv map[int]string) {
	bigLock.Lock()
	p := newPrinter(true)
	var todo []*Obl
	nf := 0
	sort.SliceStable(obls, func(i, j int) bool { return obls[i].NFacts < obls[j].NFacts })
	for _, o := range obls {
		if o.Status != "" {
			continue
		}
		for nf < o.NFacts {
			p.line("(assert " + p.term(facts[nf]) + ")")
			nf++
		}
		if o.Goal == tTrue && !o.Cover {
			o.Status, o.Solver = "proved", "simplifier"
			continue
		}
		g := o.Goal
		if !o.Cover {
			g = mkNot(g)
		}
		gt := p.term(g)
		p.line("(push 1)")
		p.line("(assert " + gt + ")")
		p.line("(check-sat)")
		p.line("(pop 1)")
		todo = append(todo, o)
	}
	bigLock.Unlock()
	if len(todo) == 0 {
		return
	}
	script := p.out.String()
	if dumpDir != "" {
		_ = os.MkdirAll(dumpDir, 0o755)
		_ = os.WriteFile(dumpDir+"/"+sanitize(fname)+".smt2", []byte(script), 0o644)
	}
	runScript(script, todo, "z3-new", timeoutMS)
	// retry leftovers one by one, the solvers racing
	var left []*Obl
	for _, o := range todo {
		if o.Status != "proved" && !o.Cover {
			left = append(left, o)
		}
	}
	var wg sync.WaitGroup
	for i, o := range left {
		if i >= maxRetry {
			break
		}
		wg.Add(1)
		go func(o *Obl) {
			defer wg.Done()
			bigLock.Lock()
			var slim []*Term
			if len(factInv) > 0 {
				slim = slimFacts(facts[:o.NFacts], factInv, o.Name)
			}
			many := len(splits) > 0 || len(goalParts(o.Goal)) > 1
			bigLock.Unlock()
			if slim != nil {
				nf := o.NFacts
				o.NFacts = len(slim)
				race(fname, slim, o, timeoutMS)
				if o.Status != "proved" {
					provePaths(fname, slim, o, timeoutMS)
				}
				o.NFacts = nf
				if o.Status == "proved" {
					o.Solver = "slim:" + o.Solver
					return
				}
				o.Status, o.Msg, o.Model = "", "", ""
			}
			if many {
				raceSplit(fname, facts[:o.NFacts], o, splits, timeoutMS)
			} else {
				race(fname, facts, o, timeoutMS*2)
			}
			if o.Status != "proved" {
				provePaths(fname, facts[:o.NFacts], o, timeoutMS)
			}
		}(o)
	}
	wg.Wait()
	for _, o := range todo {
		if o.Status == "" {
			o.Status = "unknown"
		}
	}
}

const maxRetry = 40

// slimFacts leaves out the loop invariants that are not about the same thing as the obligation, by name: an invariant
// whose name ends with * is about everything.
func slimFacts(facts []*Term, inv map[int]string, name string) []*Term {
	var r []*Term
	for i, f := range facts {
		n, ok := inv[i]
		if ok && !strings.HasSuffix(n, "*") && !strings.Contains(name, n) {
			continue
		}
		r = append(r, f)
	}
	if len(r) == len(facts) {
		return nil
	}
	return r
}

// goalParts splits a goal.
func goalParts(g *Term) []*Term {
	pre := tTrue
	for g.op == OImp {
		pre = mkAnd(pre, g.args[0])
		g = g.args[1]
	}
	if g.op != OAnd {
		return []*Term{mkImp(pre, g)}
	}
	var r []*Term
	for _, a := range g.args {
		for _, c := range goalParts(a) {
			r = append(r, mkImp(pre, c))
		}
	}
	return r
}

// raceSplit proves an obligation by cases.
func raceSplit(fname string, facts []*Term, o *Obl, splits []split, timeoutMS int) {
	type cs struct {
		m   map[*Term]*Term
		add []*Term
		n   string
	}
	cases := []cs{{map[*Term]*Term{}, nil, ""}}
	bigLock.Lock()
	for _, s := range splits {
		var next []cs
		for _, c := range cases {
			clone := func() cs {
				m := map[*Term]*Term{}
				for k, v := range c.m {
					m[k] = v
				}
				return cs{m, append([]*Term(nil), c.add...), c.n}
			}
			other := clone()
			other.n += "/other"
			for _, v := range s.vals {
				k := clone()
				k.m[s.t] = v
				k.add = append(k.add, mkEq(s.t, v))
				k.n += "/" + v.String()
				next = append(next, k)
				other.m[mkEq(s.t, v)] = tFalse
				other.add = append(other.add, mkNot(mkEq(s.t, v)))
			}
			next = append(next, other)
		}
		cases = next
	}
	var subs []*Obl
	var fs [][]*Term
	for _, c := range cases {
		memo := map[*Term]*Term{}
		f := append([]*Term(nil), c.add...)
		for _, t := range facts {
			f = append(f, subst(t, c.m, memo))
		}
		for i, g := range goalParts(subst(o.Goal, c.m, memo)) {
			fs = append(fs, f)
			n := c.n
			if i > 0 {
				n += fmt.Sprintf("/%d", i)
			}
			subs = append(subs, &Obl{Func: o.Func, Name: o.Name + n, Goal: g, NFacts: len(f)})
		}
	}
	bigLock.Unlock()
	var wg sync.WaitGroup
	for i := range subs {
		if subs[i].Goal == tTrue {
			subs[i].Status, subs[i].Solver = "proved", "simplifier"
			continue
		}
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			race(fname, fs[i], subs[i], timeoutMS*2)
		}(i)
	}
	wg.Wait()
	o.Status, o.Solver = "proved", "cases:"
	for _, s := range subs {
		o.Time += s.Time
		if !strings.Contains(o.Solver, s.Solver) {
			o.Solver += s.Solver + " "
		}
		if s.Status != "proved" {
			o.Msg += fmt.Sprintf("case %s: %s; ", strings.TrimPrefix(s.Name, o.Name), s.Status)
			if o.Status != "failed" {
				o.Status = s.Status
			}
			if o.Model == "" {
				o.Model = s.Model
			}
		}
	}
	o.Solver = strings.TrimSpace(o.Solver)
}

var retrySem = make(chan bool, 6)

// started and lastCall bound a whole run: a check has to answer in time, and what is undecided by then counts as not
// proved.
var started = time.Now()

const lastCall = 700 * time.Second

func race(fname string, facts []*Term, o *Obl, timeoutMS int) {
	retrySem <- true
	defer func() { <-retrySem }()
	if time.Since(started) > lastCall {
		o.Status, o.Msg = "unknown", "out of time"
		return
	}
	type res struct {
		o *Obl
		s string
	}
	names := []string{"z3-new", "cvc5", "z3"}
	ch := make(chan res, len(names))
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	for _, s := range names {
		bigLock.Lock()
		single := singleScript(facts[:o.NFacts], o, s)
		bigLock.Unlock()
		if dumpDir != "" {
			_ = os.WriteFile(dumpDir+"/"+sanitize(fname+"__"+o.Name)+"."+s+".smt2", []byte(single), 0o644)
		}
		go func(s string) {
			o2 := &Obl{Func: o.Func, Name: o.Name, Goal: o.Goal}
			runScriptCtx(ctx, single, []*Obl{o2}, s, timeoutMS)
			ch <- res{o2, s}
		}(s)
	}
	for range names {
		r := <-ch
		o.Time += r.o.Time
		if r.o.Status == "proved" {
			o.Status, o.Solver, o.Model = "proved", r.s, ""
			return
		}
		if r.o.Status == "failed" && r.s == "z3-new" {
			o.Status, o.Solver, o.Model = "failed", r.s, r.o.Model
			return
		}
		if r.o.Model != "" && o.Model == "" {
			o.Model = r.o.Model
		}
		if r.o.Status == "failed" {
			o.Status, o.Solver = "failed", r.s
		} else if o.Status == "" {
			o.Status = "unknown"
		}
	}
}

// propagate rewrites hypotheses (whose conjunction is to be refuted) with the unit facts among them.
func propagate(hyps []*Term) []*Term {
	var units []*Term
	isUnit := map[*Term]bool{}
	for round := 0; round < 6; round++ {
		var flat []*Term
		var add func(t *Term)
		seen := map[*Term]bool{}
		add = func(t *Term) {
			if t.op == OAnd {
				for _, a := range t.args {
					add(a)
				}
				return
			}
			if t.op == ONot && t.args[0].op == OOr {
				for _, a := range t.args[0].args {
					add(mkNot(a))
				}
				return
			}
			if t.op == ONot && t.args[0].op == OImp {
				add(t.args[0].args[0])
				add(mkNot(t.args[0].args[1]))
				return
			}
			if t == tTrue || seen[t] {
				return
			}
			seen[t] = true
			flat = append(flat, t)
		}
		for _, h := range hyps {
			add(h)
		}
		m := map[*Term]*Term{}
		var rest []*Term
		for _, t := range flat {
			if t == tFalse {
				return []*Term{tFalse}
			}
			if isUnit[t] || t.op == OForall || t.op == OExists || t.op == OPat {
				rest = append(rest, t)
				continue
			}
			switch {
			case t.op == ONot:
				a := t.args[0]
				if a.op == OForall || a.op == OExists || len(m) > 400 {
					rest = append(rest, t)
					continue
				}
				if _, ok := m[a]; !ok {
					m[a] = tFalse
					units, isUnit[t] = append(units, t), true
					continue
				}
			case t.op == OEq && (isLit(t.args[0]) || isLit(t.args[1])):
				a, b := t.args[0], t.args[1]
				if isLit(a) {
					a, b = b, a
				}
				if _, ok := m[a]; !ok && !isLit(a) {
					m[a] = b
					units, isUnit[t] = append(units, t), true
					continue
				}
			case t.op == OEq && (t.args[0].op == OConst && !isLit(t.args[0]) && !occurs(t.args[0], t.args[1]) || t.args[1].op == OConst && !isLit(t.args[1]) && !occurs(t.args[1], t.args[0])):
				a, b := t.args[0], t.args[1]
				if !(a.op == OConst && !occurs(a, b)) {
					a, b = b, a
				}
				if a.seq > 0 && a.seq <= maxSeq(b) && b.op != OConst {
					a, b = b, a // keep the older constant
				}
				if _, ok := m[a]; !ok {
					// no chains within one round
					clash := false
					for k := range m {
						if occurs(k, b) {
							clash = true
						}
					}
					for _, v := range m {
						if occurs(a, v) {
							clash = true
						}
					}
					if !clash {
						m[a] = b
						units, isUnit[t] = append(units, t), true
						continue
					}
				}
			case t.sort == sBool && t.op != OOr && t.op != OImp && t.op != OIte:
				if _, ok := m[t]; !ok {
					m[t] = tTrue
					units, isUnit[t] = append(units, t), true
					continue
				}
			}
			rest = append(rest, t)
		}
		if len(m) == 0 {
			hyps = rest
			break
		}
		memo := map[*Term]*Term{}
		hyps = hyps[:0:0]
		for _, t := range rest {
			if t2 := subst(t, m, memo); isUnit[t] {
				isUnit[t2] = true
				hyps = append(hyps, t2)
			} else {
				hyps = append(hyps, t2)
			}
		}
		hyps = append(hyps, units...)
		units = units[:0]
	}
	return hyps
}

func occurs(a, t *Term) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if t == a {
			return true
		}
		if seen[t] || t.id < a.id {
			return false
		}
		seen[t] = true
		for _, x := range t.args {
			if rec(x) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

func singleScript(facts []*Term, o *Obl, solver string) string {
	p := newPrinter(true)
	hyps := propagate(append(append([]*Term(nil), facts...), mkNot(o.Goal)))
	for _, f := range hyps {
		p.line("(assert " + p.term(f) + ")")
	}
	p.line("(check-sat)")
	if solver != "cvc5" {
		p.line("(get-model)")
	}
	s := p.out.String()
	if solver == "cvc5" {
		s = strings.Replace(s, "(set-option :auto_config false)\n(set-option :smt.mbqi true)\n", preludeCVC, 1)
	}
	return s
}

func runScript(script string, todo []*Obl, solver string, timeoutMS int) {
	runScriptCtx(context.Background(), script, todo, solver, timeoutMS)
}

func runScriptCtx(parent context.Context, script string, todo []*Obl, solver string, timeoutMS int) {
	cmd := solverBin[solver]
	args := append([]string{}, cmd[1:]...)
	pre := ""
	if strings.HasPrefix(solver, "z3") {
		pre = fmt.Sprintf("(set-option :timeout %d)\n", timeoutMS)
	} else {
		args = append(args, fmt.Sprintf("--tlimit-per=%d", timeoutMS))
	}
	total := time.Duration(timeoutMS)*time.Millisecond*time.Duration(len(todo)) + 20*time.Second
	ctx, cancel := context.WithTimeout(parent, total)
	defer cancel()
	c := exec.CommandContext(ctx, cmd[0], args...)
	c.Stdin = strings.NewReader(pre + script)
	var out bytes.Buffer
	c.Stdout = &out
	c.Stderr = &out
	t0 := time.Now()
	_ = c.Run()
	dt := time.Since(t0).Seconds() / float64(len(todo))
	lines := strings.Split(out.String(), "\n")
	i := 0
	for ln := 0; ln < len(lines); ln++ {
		l := strings.TrimSpace(lines[ln])
		var st string
		switch {
		case l == "unsat":
			st = "proved"
		case l == "sat":
			st = "failed"
		case l == "unknown" || l == "timeout":
			st = "unknown"
		case strings.HasPrefix(l, "(error"):
			if strings.Contains(l, "model is not available") {
				continue
			}
			for _, o := range todo[i:] {
				o.Msg = "solver error: " + l
			}
			if os.Getenv("GOVC_DEBUG") != "" {
				fmt.Fprintln(os.Stderr, solver, l)
			}
			continue
		default:
			if i > 0 && len(todo) == 1 && len(todo[0].Model) < 20000 {
				todo[0].Model += lines[ln] + "\n"
			}
			continue
		}
		if i < len(todo) {
			todo[i].Status, todo[i].Solver, todo[i].Time = st, solver, dt
			i++
		}
	}
}
