package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Val is a symbolic Go value: one term, a tuple, or a map iterator.
type Val struct {
	t   *Term
	tup []Val
	it  *iterVal
}

type iterVal struct {
	m    *Term
	mt   *types.Map
	key  string // ghost memory key of the visited set
	weak bool   // the map may gain or lose keys during the iteration
	lose bool   // it may only lose keys
}

type deferred struct {
	call *ssa.CallCommon
	fn   Val
	args []*Term
}

// State is the symbolic state along one (merged) path.
type State struct {
	pc     *Term
	mem    map[string]*Term
	epoch  string
	ab, an int
	env    []Val
	defers []deferred
	alts   *alts
}

func (s *State) clone() *State {
	n := *s
	n.mem = make(map[string]*Term, len(s.mem)+4)
	for k, v := range s.mem {
		n.mem[k] = v
	}
	n.env = append([]Val{}, s.env...)
	n.defers = append([]deferred{}, s.defers...)
	return &n
}

// fork shares nothing mutable but avoids copying env (used for spec evaluation).
func (s *State) withPC(pc *Term) *State {
	n := s.clone()
	n.pc = pc
	return n
}

type memKey struct {
	name string
	sort *Sort
}

var (
	memKeys  = map[string]*memKey{} // semantic key -> info
	memNames = map[string]*memKey{} // short name -> info
)

func getKey(prefix, sem string, s *Sort) *memKey {
	full := prefix + ":" + sem
	if k, ok := memKeys[full]; ok {
		return k
	}
	k := &memKey{name: fmt.Sprintf("%s!%d", prefix, len(memKeys)), sort: s}
	memKeys[full] = k
	memNames[k.name] = k
	return k
}

func leafKey(t types.Type) *memKey { return getKey("L", typeKey(t), arrSort(sRef, sortOf(t))) }
func arrKey(t types.Type) *memKey {
	return getKey("A", typeKey(t), arrSort(sRef, arrSort(sInt, sortOf(t))))
}
func domKey(m *types.Map) *memKey {
	return getKey("D", typeKey(m), arrSort(sRef, arrSort(sortOf(m.Key()), sBool)))
}
func mvalKey(m *types.Map) *memKey {
	return getKey("V", typeKey(m), arrSort(sRef, arrSort(sortOf(m.Key()), sortOf(m.Elem()))))
}

type write struct {
	key  string
	addr *Term // nil: whole
	del  bool  // removes a key of a map
}

// modItem is one modifiable location of a frame condition.
type modItem struct {
	key  string
	addr *Term
	set  *modSet
	cond *Term // when the location is meant (nil: always)
}

// modSet is a set of modifiable objects: those v with cond; path leads from the object to the location.
type modSet struct {
	v, cond *Term
	path    []int
}

// covers is the condition under which the location at addr is modifiable.
func (m modItem) covers(addr *Term) *Term {
	if m.set == nil {
		return mkEq(m.addr, addr)
	}
	for i := len(m.set.path) - 1; i >= 0; i-- {
		if addr.op != OFld || addr.n != m.set.path[i] {
			return tFalse
		}
		addr = addr.args[0]
	}
	return subst(m.set.cond, map[*Term]*Term{m.set.v: addr}, map[*Term]*Term{})
}

// coversAny is covers for a bound variable.
func (m modItem) coversAny(r *Term) *Term {
	if m.set == nil {
		return mkEq(m.addr, r)
	}
	b := r
	for range m.set.path {
		b = mkApp("fldbase", sRef, b)
	}
	a := b
	for _, f := range m.set.path {
		a = mkFld(a, f)
	}
	return mkAnd(mkEq(a, r), subst(m.set.cond, map[*Term]*Term{m.set.v: b}, map[*Term]*Term{}))
}

// Exec verifies one function.
type Exec struct {
	E        *Engine
	top      *ssa.Function
	contract *Contract
	facts    []*Term
	obls     []*Obl
	binder   int
	spec     int // >0 while evaluating specification code
	dry      int
	log      *[]write
	mods     []modItem
	modAny   bool
	entry    *State
	splits   []split
	caseSel  []int // chosen case of each split
	caseName string
	defs     []def
	defUpto  int
	simps    map[*Term]*simpCtx
	assumed  map[*Term]*Term
	frameOn  bool
	deleting bool // a builtin delete is under way
	depth    int
	stack    []*ssa.Function
	callers  []callSite
	loopOrd  int
	loops    []*loopSpec
	factInv  map[int]string
	dyn      map[*Term]*Term
	sctx     *specCtx
	inlined  map[string]bool
	used     map[string]bool // contracts/models used
	assumps  map[string]bool
	nobl     map[string]int
	pos      token.Pos
	base     int // next base index
	nspec    int
	naudit   int
	guard    *Term // condition of the write in progress (addresses that are conditional)
}

// under runs f with an extra condition on the writes it makes.
func (x *Exec) under(c *Term, f func()) {
	old := x.guard
	if old != nil {
		c = mkAnd(old, c)
	}
	x.guard = c
	f()
	x.guard = old
}

type loopSpec struct {
	key   string
	fn    *ssa.Function
	binds []*Term
	used  bool
}

// specCtx receives the effects of specification intrinsics.
type specCtx struct {
	mode     string // "verify-pre", "call-pre", "verify-post", "call-post", "loop-assume", "loop-check"
	contract *Contract
	guard    *Term // path condition under which the spec is evaluated
	mods     []modItem
	modAny   bool
	where    string
	nfacts   int
	invs     []namedTerm
	old      *State // the state that vc.Old reads
}

type namedTerm struct {
	name string
	t    *Term
}

func (x *Exec) memGet(st *State, k *memKey) *Term {
	if t, ok := st.mem[k.name]; ok {
		return t
	}
	t := mkConst(k.name+"!"+st.epoch, k.sort)
	if t.bound[0] < 0 {
		t.bound = epochBound[st.epoch]
	}
	return t
}

var epochBound = map[string][2]int{"0": {0, 0}}

func (x *Exec) newBase(st *State) int {
	x.base++
	st.ab, st.an = x.base, 0
	return x.base
}

// freshMem is an unconstrained memory for key k.
func (x *Exec) freshMem(st *State, k *memKey) *Term {
	freshSeq++
	c := mkConst(fmt.Sprintf("%s!h%d", k.name, freshSeq), k.sort)
	c.seq = freshSeq
	c.bound = [2]int{st.ab, st.an}
	return c
}

// specBase marks objects allocated by specification code; they live in memory the program never touches.
const specBase = 900000

func isSpecRef(a *Term) bool {
	b, _, ok := allocIdx(rootOf(a))
	return ok && b >= specBase
}

// ghost maps a memory key to its specification-side twin when the address is a specification object.
func ghost(k *memKey, a *Term) *memKey {
	if !isSpecRef(a) {
		return k
	}
	return getKey("S", k.name, k.sort)
}

func (x *Exec) alloc(st *State) *Term {
	if x.spec > 0 {
		x.nspec++
		return mkNewRef(specBase, x.nspec)
	}
	r := mkNewRef(st.ab, st.an)
	st.an++
	return r
}

func (x *Exec) fresh(st *State, name string, s *Sort) *Term {
	t := mkFresh(name, s)
	t.bound = [2]int{st.ab, st.an}
	return t
}

func (x *Exec) fact(st *State, t *Term) {
	x.factPC(st.pc, t)
}

func (x *Exec) factPC(pc, t *Term) {
	if x.binder > 0 || t == tTrue {
		return
	}
	f := mkImp(pc, t)
	if f == tTrue || f.bv {
		return
	}
	x.facts = append(x.facts, f)
}

func (x *Exec) oblige(st *State, name string, props []string, goal *Term) {
	x.obligePC(st.pc, name, props, goal)
}

func (x *Exec) obligePC(pc *Term, name string, props []string, goal *Term) {
	if x.dry > 0 || x.binder > 0 {
		return
	}
	name += x.caseName
	goal = x.simpGoal(pc, goal)
	x.nobl[name]++
	n := name
	if c := x.nobl[name]; c > 1 {
		n = fmt.Sprintf("%s#%d", name, c)
	}
	x.obls = append(x.obls, &Obl{Func: x.contract.Name, Name: n, Props: props, Goal: mkImp(pc, goal), NFacts: len(x.facts)})
}

// mapLeaves rewrites the leaves of a tree (DAG) of ITEs.
func mapLeaves(t *Term, f func(*Term) *Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := memo[t]; ok {
			return r
		}
		var r *Term
		if t.op == OIte {
			r = mkIte(t.args[0], rec(t.args[1]), rec(t.args[2]))
		} else {
			r = f(t)
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

// eachLeaf visits every distinct leaf of a DAG of ITEs once, with the condition under which it is the value.
func eachLeaf(t *Term, f func(c, l *Term)) {
	conds := map[*Term]*Term{t: tTrue}
	pend := []*Term{t}
	add := func(l, c *Term) {
		if c == tFalse {
			return
		}
		if o, ok := conds[l]; ok {
			conds[l] = mkOr(o, c)
			return
		}
		conds[l] = c
		pend = append(pend, l)
	}
	type leaf struct{ c, l *Term }
	var leaves []leaf
	for len(pend) > 0 {
		m := 0 // the newest term: no pending term has it as a subterm
		for i := range pend {
			if pend[i].id > pend[m].id {
				m = i
			}
		}
		n := pend[m]
		pend = append(pend[:m], pend[m+1:]...)
		if n.op != OIte {
			leaves = append(leaves, leaf{conds[n], n})
			continue
		}
		c := conds[n]
		add(n.args[1], mkAnd(c, n.args[0]))
		add(n.args[2], mkAnd(c, mkNot(n.args[0])))
	}
	for _, l := range leaves {
		f(l.c, l.l)
	}
}

type split struct {
	t    *Term
	vals []*Term
}

// ---- memory ----

var fieldByID = map[int]int{}

func fld(r *Term, st *types.Struct, i int) *Term {
	id := fieldID(st, i)
	fieldByID[id] = i
	return mkFld(r, id)
}

func underElt(a *Term) bool {
	for {
		switch a.op {
		case OFld:
			a = a.args[0]
		case OElt:
			return true
		default:
			return false
		}
	}
}

func (x *Exec) loadUnderElt(st *State, a *Term) *Term {
	if a.op == OFld {
		v := x.loadUnderElt(st, a.args[0])
		return mkSel(v, fieldByID[a.n])
	}
	k := ghost(memNames[a.name], a)
	return mkSelect(mkSelect(x.memGet(st, k), a.args[0]), a.args[1])
}

func (x *Exec) load(st *State, a *Term, t types.Type) *Term {
	if a.op == OIte {
		return mapLeaves(a, func(l *Term) *Term { return x.load(st, l, t) })
	}
	if underElt(a) {
		return x.loadUnderElt(st, a)
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		s := sortOf(t)
		args := make([]*Term, u.NumFields())
		for i := range args {
			args[i] = x.load(st, fld(a, u, i), u.Field(i).Type())
		}
		return mkCtor(s, args...)
	case *types.Array:
		return mkSelect(x.memGet(st, ghost(arrKey(u.Elem()), a)), a)
	}
	return mkSelect(x.memGet(st, ghost(leafKey(t), a)), a)
}

func (x *Exec) write(st *State, k *memKey, addr, v *Term) {
	if x.log != nil && !strings.HasPrefix(k.name, "S!") {
		*x.log = append(*x.log, write{k.name, addr, x.deleting})
	}
	if x.frameOn && x.spec == 0 {
		x.frameCheck(st, k.name, addr)
	}
	st.mem[k.name] = mkStore(x.memGet(st, k), addr, v)
}

func (x *Exec) isFresh(a *Term, base int) *Term {
	r := rootOf(a)
	if b, _, ok := allocIdx(r); ok {
		return mkBool(b >= base)
	}
	if r.op == OIte {
		return mapLeaves(r, func(l *Term) *Term { return x.isFresh(l, base) })
	}
	if r.lob > 0 && r.lob >= base {
		return tTrue
	}
	if b := boundOf(r); b.ok && b.b == 0 && b.n == 0 && base == 0 {
		return tFalse
	}
	return mkApp("isfresh", sBool, r)
}

func init() {
	funAxioms["fldbase"] = func(p *printer) []string {
		return []string{"(assert (forall ((r Ref)) (! (= (fldbase r) (ref (root r) (pfb (path r)))) :pattern ((fldbase r)))))"}
	}
	funAxioms["isfresh"] = func(p *printer) []string {
		return []string{"(assert (forall ((r Ref)) (! (= (isfresh r) (>= (root r) 1)) :pattern ((isfresh r)))))"}
	}
}

func (x *Exec) allowed(key string, addr *Term) *Term {
	if x.modAny {
		return tTrue
	}
	c := x.isFresh(addr, 0)
	if c == tTrue {
		return c
	}
	cs := []*Term{c}
	for _, m := range x.mods {
		if m.key == key {
			cs = append(cs, m.covers(addr))
		}
	}
	return mkOr(cs...)
}

func (x *Exec) frameCheck(st *State, key string, addr *Term) {
	if strings.HasPrefix(key, "G!") {
		return
	}
	c := x.allowed(key, addr)
	if c == tTrue {
		return
	}
	if x.guard != nil {
		c = mkImp(x.guard, c)
	}
	if os.Getenv("GOVC_DEBUG") != "" {
		fmt.Fprintln(os.Stderr, "frame", x.where(), key, addr, "=>", c)
	}
	x.oblige(st, "frame@"+x.where(), x.contract.Props, c)
}

func (x *Exec) store(st *State, a *Term, t types.Type, v *Term) {
	if a.op == OIte {
		eachLeaf(a, func(c, l *Term) {
			x.under(c, func() { x.store(st, l, t, mkIte(c, v, x.load(st, l, t))) })
		})
		return
	}
	if underElt(a) {
		x.storeUnderElt(st, a, v)
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			x.store(st, fld(a, u, i), u.Field(i).Type(), mkSel(v, i))
		}
		return
	case *types.Array:
		x.write(st, ghost(arrKey(u.Elem()), a), a, v)
		return
	}
	x.write(st, ghost(leafKey(t), a), a, v)
}

func (x *Exec) storeUnderElt(st *State, a, v *Term) {
	if a.op == OFld {
		old := x.loadUnderElt(st, a.args[0])
		i := fieldByID[a.n]
		args := make([]*Term, len(old.sort.dt.fields))
		for j := range args {
			args[j] = mkSel(old, j)
		}
		args[i] = v
		x.storeUnderElt(st, a.args[0], mkCtor(old.sort, args...))
		return
	}
	k := ghost(memNames[a.name], a)
	row := mkSelect(x.memGet(st, k), a.args[0])
	x.write(st, k, a.args[0], mkStore(row, a.args[1], v))
}

func (x *Exec) dom(st *State, m *Term, mt *types.Map) *Term {
	if m == tNull {
		return mkConstArr(domKey(mt).sort.val, tFalse)
	}
	if m.op == OIte {
		return mapLeaves(m, func(l *Term) *Term { return x.dom(st, l, mt) })
	}
	return mkSelect(x.memGet(st, ghost(domKey(mt), m)), m)
}

func (x *Exec) mvals(st *State, m *Term, mt *types.Map) *Term {
	if m.op == OIte {
		return mapLeaves(m, func(l *Term) *Term { return x.mvals(st, l, mt) })
	}
	return mkSelect(x.memGet(st, ghost(mvalKey(mt), m)), m)
}

func (x *Exec) mapUpdate(st *State, m *Term, mt *types.Map, k, v *Term) {
	if m.op == OIte {
		eachLeaf(m, func(c, l *Term) {
			if l != tNull {
				x.under(c, func() { x.mapUpdateIf(st, l, mt, k, v, c) })
			}
		})
		return
	}
	x.mapUpdateIf(st, m, mt, k, v, tTrue)
}

func (x *Exec) mapUpdateIf(st *State, m *Term, mt *types.Map, k, v, c *Term) {
	if m == tNull {
		return
	}
	d, vs := x.dom(st, m, mt), x.mvals(st, m, mt)
	x.write(st, ghost(domKey(mt), m), m, mkStore(d, k, mkOr(c, mkSelect(d, k))))
	x.write(st, ghost(mvalKey(mt), m), m, mkStore(vs, k, mkIte(c, v, mkSelect(vs, k))))
}

func mkCard(d *Term) *Term {
	if d.op == OConstArr && d.args[0] == tFalse {
		return mkInt(0)
	}
	if d.op == OIte {
		return mapLeaves(d, mkCard)
	}
	n := "card!" + sanitize(d.sort.key.name)
	ks := d.sort
	funAxioms[n] = func(p *printer) []string {
		return []string{fmt.Sprintf("(assert (forall ((d %s)) (! (and (>= (%s d) 0) (= (= (%s d) 0) (= d ((as const %s) false)))) :pattern ((%s d)))))", ks.name, n, n, ks.name, n)}
	}
	// a store of true makes it positive
	if d.op == OStore && d.args[2] == tTrue {
		return mkAdd(mkApp("cardm1!"+n, sInt, d), mkInt(1))
	}
	return mkApp(n, sInt, d)
}

// ---- merging ----

func (x *Exec) merge(sts []*State) *State {
	var live []*State
	for _, s := range sts {
		if s.pc != tFalse {
			live = append(live, s)
		}
	}
	if len(live) == 0 {
		return sts[0]
	}
	if len(live) == 1 {
		return live[0]
	}
	pcs := make([]*Term, len(live))
	for i, s := range live {
		pcs[i] = s.pc
	}
	conds := relConds(pcs)
	out := &State{pc: mkOr(pcs...), mem: map[string]*Term{}, epoch: live[0].epoch}
	sameEpoch := true
	for _, s := range live {
		if s.epoch != out.epoch {
			sameEpoch = false
		}
		if s.ab > out.ab || s.ab == out.ab && s.an > out.an {
			out.ab, out.an = s.ab, s.an
		}
	}
	keys := map[string]bool{}
	for _, s := range live {
		for k := range s.mem {
			keys[k] = true
		}
	}
	if !sameEpoch {
		for k := range memNames {
			keys[k] = true
		}
		x.assumps["epoch join"] = true
		out.epoch = x.newEpoch(out)
	}
	ks := make([]string, 0, len(keys))
	for k := range keys {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		mk := memNames[k]
		v := x.memGet(live[len(live)-1], mk)
		for i := len(live) - 2; i >= 0; i-- {
			v = mkIte(conds[i], x.memGet(live[i], mk), v)
		}
		out.mem[k] = v
	}
	n := len(live[0].env)
	out.env = make([]Val, n)
	for i := 0; i < n; i++ {
		vs := make([]Val, len(live))
		for j, s := range live {
			if i < len(s.env) {
				vs[j] = s.env[i]
			}
		}
		out.env[i] = mergeVals(conds, vs)
	}
	out.defers = live[0].defers
	for _, s := range live[1:] {
		if len(s.defers) != len(out.defers) {
			fail("conditional defer")
		}
	}
	return out
}

// relConds strips the common conjuncts of path conditions.
func relConds(pcs []*Term) []*Term {
	common := map[*Term]bool{}
	for _, c := range conjuncts(pcs[0]) {
		common[c] = true
	}
	for _, p := range pcs[1:] {
		m := map[*Term]bool{}
		for _, c := range conjuncts(p) {
			if common[c] {
				m[c] = true
			}
		}
		common = m
	}
	r := make([]*Term, len(pcs))
	for i, p := range pcs {
		var cs []*Term
		for _, c := range conjuncts(p) {
			if !common[c] {
				cs = append(cs, c)
			}
		}
		r[i] = mkAnd(cs...)
	}
	return r
}

func mergeVals(conds []*Term, vs []Val) Val {
	// drop undefined
	var d []Val
	var c []*Term
	for i, v := range vs {
		if v.t != nil || v.tup != nil || v.it != nil {
			d = append(d, v)
			c = append(c, conds[i])
		}
	}
	if len(d) == 0 {
		return Val{}
	}
	if d[0].it != nil {
		return d[0]
	}
	if d[0].tup != nil {
		out := Val{tup: make([]Val, len(d[0].tup))}
		for i := range out.tup {
			var e []Val
			for _, v := range d {
				e = append(e, v.tup[i])
			}
			out.tup[i] = mergeVals(c, e)
		}
		return out
	}
	r := d[len(d)-1].t
	for i := len(d) - 2; i >= 0; i-- {
		r = mkIte(c[i], d[i].t, r)
	}
	return Val{t: r}
}

func (x *Exec) newEpoch(st *State) string {
	e := fmt.Sprintf("e%d", len(epochBound))
	epochBound[e] = [2]int{st.ab, st.an}
	return e
}

// ---- frames ----

type fnInfo struct {
	idx   map[ssa.Value]int
	n     int
	order []*ssa.BasicBlock
	rpo   map[*ssa.BasicBlock]int
	loops map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool // header -> body blocks
}

var fnInfos = map[*ssa.Function]*fnInfo{}

func info(fn *ssa.Function) *fnInfo {
	if f, ok := fnInfos[fn]; ok {
		return f
	}
	f := &fnInfo{idx: map[ssa.Value]int{}, rpo: map[*ssa.BasicBlock]int{}, loops: map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}}
	add := func(v ssa.Value) {
		f.idx[v] = f.n
		f.n++
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				add(v)
			}
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			if !seen[b.Succs[i]] {
				dfs(b.Succs[i])
			}
		}
		post = append(post, b)
	}
	if len(fn.Blocks) > 0 {
		dfs(fn.Blocks[0])
	}
	for i := len(post) - 1; i >= 0; i-- {
		f.rpo[post[i]] = len(f.order)
		f.order = append(f.order, post[i])
	}
	for _, b := range f.order {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				body := f.loops[s]
				if body == nil {
					body = map[*ssa.BasicBlock]bool{s: true}
					f.loops[s] = body
				}
				stack := []*ssa.BasicBlock{b}
				for len(stack) > 0 {
					c := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if body[c] {
						continue
					}
					body[c] = true
					stack = append(stack, c.Preds...)
				}
			} else if f.rpo[s] <= f.rpo[b] && seen[s] {
				// irreducible edge
				f.loops[nil] = map[*ssa.BasicBlock]bool{s: true}
			}
		}
	}
	fnInfos[fn] = f
	return f
}

type frame struct {
	x    *Exec
	fn   *ssa.Function
	inf  *fnInfo
	rets []ret
	prev *frame
}

// callSite is an active call.
type callSite struct {
	fr  *frame
	env []Val
	c   *ssa.CallCommon
}

type ret struct {
	st *State
	vs []*Term
}

type inc struct {
	from *ssa.BasicBlock
	st   *State
}

func (x *Exec) where() string {
	if len(x.stack) == 0 {
		return "?"
	}
	w := x.stack[len(x.stack)-1].Name()
	if x.pos.IsValid() && os.Getenv("GOVC_DEBUG") != "" {
		w += fmt.Sprintf(":%d", x.E.prog.Fset.Position(x.pos).Line)
	}
	return w
}

// run executes fn symbolically; the returned state has pc false when no path returns.
func (x *Exec) run(fn *ssa.Function, args, binds []*Term, st *State) ([]*Term, *State) {
	if fn.Blocks == nil {
		fail("no body for %s", fn)
	}
	n := 0
	for _, s := range x.stack {
		if s == fn {
			n++
		}
	}
	if n > 0 && !((x.spec > 0 || x.E.isModel[fn]) && n < 3) {
		fail("recursive call of %s without contract", fn)
	}
	if len(x.stack) > 60 {
		fail("inlining too deep at %s", fn)
	}
	x.stack = append(x.stack, fn)
	defer func() { x.stack = x.stack[:len(x.stack)-1] }()

	inf := info(fn)
	if inf.loops[nil] != nil {
		fail("irreducible control flow in %s", fn)
	}
	fr := &frame{x: x, fn: fn, inf: inf}
	in := st.clone()
	in.env = make([]Val, inf.n)
	in.defers = nil
	if len(args) != len(fn.Params) {
		fail("arity of %s: %d args", fn, len(args))
	}
	for i, p := range fn.Params {
		in.env[inf.idx[p]] = Val{t: args[i]}
	}
	for i, p := range fn.FreeVars {
		in.env[inf.idx[p]] = Val{t: binds[i]}
	}
	pend := map[*ssa.BasicBlock][]inc{fn.Blocks[0]: {{nil, in}}}
	fr.region(pend, func(*ssa.BasicBlock) bool { return true }, nil)

	nres := fn.Signature.Results().Len()
	var live []ret
	for _, r := range fr.rets {
		if r.st.pc != tFalse {
			live = append(live, r)
		}
	}
	if len(live) == 0 {
		out := st.clone()
		out.pc = tFalse
		vs := make([]*Term, nres)
		for i := range vs {
			vs[i] = zeroOf(fn.Signature.Results().At(i).Type())
		}
		return vs, out
	}
	for _, r := range live {
		r.st.env = nil
		r.st.defers = nil
	}
	groups := x.joinRets(fn, live)
	if groups != nil {
		live = groups
	}
	out, vs := x.mergeRets(live, nres)
	if len(live) > 1 {
		out.alts = nil
		if groups != nil {
			var sts []*State
			var rs [][]*Term
			for _, r := range live {
				sts = append(sts, r.st)
				rs = append(rs, r.vs)
			}
			out.alts = newAlts(out, sts, vs, rs)
		}
	}
	out.env = st.env
	out.defers = st.defers
	return vs, out
}

// region executes the blocks of a region in reverse postorder.
func (fr *frame) region(pend map[*ssa.BasicBlock][]inc, in func(*ssa.BasicBlock) bool, hdr *ssa.BasicBlock) (latches []inc, exits map[*ssa.BasicBlock][]inc) {
	exits = map[*ssa.BasicBlock][]inc{}
	route := func(from, to *ssa.BasicBlock, st *State) {
		if st.pc == tFalse {
			return
		}
		switch {
		case hdr != nil && to == hdr:
			latches = append(latches, inc{from, st})
		case in(to):
			pend[to] = append(pend[to], inc{from, st})
		default:
			exits[to] = append(exits[to], inc{from, st})
		}
	}
	for _, b := range fr.inf.order {
		if !in(b) {
			continue
		}
		incs := pend[b]
		if len(incs) == 0 {
			continue
		}
		delete(pend, b)
		if fr.inf.loops[b] != nil && b != hdr {
			ex := fr.loop(b, incs)
			var tos []*ssa.BasicBlock
			for to := range ex {
				tos = append(tos, to)
			}
			sort.Slice(tos, func(i, j int) bool { return tos[i].Index < tos[j].Index })
			for _, to := range tos {
				for _, i := range ex[to] {
					route(i.from, to, i.st)
				}
			}
			continue
		}
		var st *State
		if b == hdr {
			st = incs[0].st // phis already set by loop
		} else {
			st = fr.enter(b, incs)
		}
		fr.block(b, st, route)
	}
	return latches, exits
}

// enter evaluates phis per incoming edge and merges.
func (fr *frame) enter(b *ssa.BasicBlock, incs []inc) *State {
	var sts []*State
	for _, i := range incs {
		s := i.st
		if len(incs) > 1 || hasPhi(b) {
			s = i.st.clone()
		}
		fr.setPhis(b, i.from, s)
		sts = append(sts, s)
	}
	st := fr.x.merge(sts).clone()
	if fr.x.contract != nil && fr.x.contract.NameRefs && fr.x.spec == 0 && fr.x.binder == 0 && len(incs) > 1 {
		fr.nameRefs(b, st)
	}
	return st
}

// nameRefs gives joined references a name, so that writes through them are not taken apart by case.
func (fr *frame) nameRefs(b *ssa.BasicBlock, st *State) {
	for _, i := range b.Instrs {
		p, ok := i.(*ssa.Phi)
		if !ok {
			return
		}
		v := st.env[fr.inf.idx[p]].t
		if v == nil || v.op != OIte || v.sort != sRef {
			continue
		}
		c := fr.x.fresh(st, "ref_"+p.Comment, sRef)
		eachLeaf(v, func(k, l *Term) { fr.x.fact(st, mkImp(k, mkEq(c, l))) })
		st.env[fr.inf.idx[p]] = Val{t: c}
	}
}

func hasPhi(b *ssa.BasicBlock) bool {
	_, ok := b.Instrs[0].(*ssa.Phi)
	return ok
}

func (fr *frame) setPhis(b, from *ssa.BasicBlock, s *State) {
	pi := -1
	for i, p := range b.Preds {
		if p == from {
			pi = i
			break
		}
	}
	var vals []Val
	var phis []*ssa.Phi
	for _, i := range b.Instrs {
		p, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		vals = append(vals, fr.val(s, p.Edges[pi]))
		phis = append(phis, p)
	}
	for i, p := range phis {
		s.env[fr.inf.idx[p]] = vals[i]
	}
}

func (fr *frame) block(b *ssa.BasicBlock, st *State, route func(from, to *ssa.BasicBlock, st *State)) {
	for _, ins := range b.Instrs {
		if st.pc == tFalse {
			return
		}
		if p := ins.Pos(); p.IsValid() {
			fr.x.pos = p
		}
		switch i := ins.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.Jump:
			route(b, b.Succs[0], st)
			return
		case *ssa.If:
			c := fr.x.simp(st.pc, fr.term(st, i.Cond))
			if ts, fs, ok := fr.branch(st, i.Cond); ok {
				if ts != nil {
					route(b, b.Succs[0], ts)
				}
				if fs != nil {
					route(b, b.Succs[1], fs)
				}
				return
			}
			t := mkAnd(st.pc, c)
			f := mkAnd(st.pc, mkNot(c))
			if t == tFalse {
				st.pc = f
				route(b, b.Succs[1], st)
				return
			}
			if f == tFalse {
				st.pc = t
				route(b, b.Succs[0], st)
				return
			}
			s2 := st.clone()
			st.pc, s2.pc = t, f
			route(b, b.Succs[0], st)
			route(b, b.Succs[1], s2)
			return
		case *ssa.Return:
			var vs []*Term
			for _, r := range i.Results {
				vs = append(vs, fr.term(st, r))
			}
			fr.rets = append(fr.rets, ret{st, vs})
			return
		case *ssa.Panic:
			fr.x.onPanic(st)
			return
		default:
			st = fr.instr(ins, st)
		}
	}
}

func (x *Exec) onPanic(st *State) {
	if x.spec == 0 && x.contract != nil && x.contract.NoPanic {
		x.oblige(st, "no-panic@"+x.where(), x.contract.Props, tFalse)
	}
}

func (fr *frame) term(st *State, v ssa.Value) *Term {
	r := fr.val(st, v)
	if r.t == nil {
		fail("value %s of %s in %s has no term", v.Name(), v, fr.fn)
	}
	return r.t
}

func globalRef(g *ssa.Global) *Term {
	k := "glob:" + g.String()
	id, ok := fieldIDs[k]
	if !ok {
		id = len(fieldIDs) + 1
		fieldIDs[k] = id
		globByID[id] = g
	}
	c := mkConst("globals", sRef)
	c.bound = [2]int{0, 0}
	return mkFld(c, id)
}

var globByID = map[int]*ssa.Global{}

var closures = map[string]*ssa.Function{}

func cloTerm(fn *ssa.Function, binds []*Term) *Term {
	n := "clo!" + sanitize(fn.String())
	for i := 0; closures[n] != nil && closures[n] != fn; i++ {
		n = fmt.Sprintf("clo!%s!%d", sanitize(fn.String()), i)
	}
	closures[n] = fn
	return mkApp(n, sFunc, binds...)
}

func (fr *frame) val(st *State, v ssa.Value) Val {
	switch c := v.(type) {
	case *ssa.Const:
		return Val{t: constTerm(c.Type(), c.Value)}
	case *ssa.Global:
		return Val{t: globalRef(c)}
	case *ssa.Function:
		return Val{t: cloTerm(c, nil)}
	case *ssa.Builtin:
		fail("builtin value %s", c)
	}
	i, ok := fr.inf.idx[v]
	if !ok {
		fail("unknown value %s", v)
	}
	return st.env[i]
}

func nonNil(a *Term) bool {
	switch a.op {
	case OFld, OElt, ONewRef:
		return true
	}
	return a.lob > 0
}

func (x *Exec) deref(st *State, a *Term) {
	if nonNil(a) || x.spec > 0 {
		return
	}
	c := mkNot(mkEq(a, tNull))
	if c == tTrue {
		return
	}
	if x.contract != nil && x.contract.NoPanic {
		x.oblige(st, "nil-deref@"+x.where(), x.contract.Props, c)
	}
	x.fact(st, c)
}

func dbg(f string, a ...interface{}) {
	if os.Getenv("GOVC_DEBUG") != "" {
		fmt.Fprintf(os.Stderr, f+"\n", a...)
	}
}
