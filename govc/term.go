package main

// Hash-consed SMT terms with local simplification.

import (
	"fmt"
	"math/big"
	"strconv"
	"strings"
)

// Sort is an SMT sort.
type Sort struct {
	name     string
	key, val *Sort     // arrays
	dt       *Datatype // struct sorts
}

// Datatype is a single-constructor SMT datatype for a Go struct.
type Datatype struct {
	name   string
	fields []DTField
}

// DTField is a selector.
type DTField struct {
	name string
	sort *Sort
}

var (
	sBool  = &Sort{name: "Bool"}
	sInt   = &Sort{name: "Int"}
	sStr   = &Sort{name: "Str"}
	sF64   = &Sort{name: "F64"}
	sRef   = &Sort{name: "Ref"}
	sSlice = &Sort{name: "Slice"}
	sIface = &Sort{name: "Iface"}
	sFunc  = &Sort{name: "Func"}
)

var arrSorts = map[string]*Sort{}

func arrSort(k, v *Sort) *Sort {
	n := "(Array " + k.name + " " + v.name + ")"
	if s, ok := arrSorts[n]; ok {
		return s
	}
	s := &Sort{name: n, key: k, val: v}
	arrSorts[n] = s
	return s
}

// Op is a term constructor.
type Op int

// Term operators.
const (
	OConst Op = iota
	OBVar
	OTrue
	OFalse
	OInt
	OStrLit
	OApp
	OAnd
	OOr
	ONot
	OImp
	OIte
	OEq
	OAdd
	OSub
	OMul
	OLt
	OLe
	OSelect
	OStore
	OConstArr
	OCtor // struct datatype
	OSel  // struct selector, ival = field index
	ONewRef
	OFld // interior reference, ival = field id
	OElt // interior reference to slice element
	OMkSlice
	OForall
	OExists
	OPat // pattern annotation, args[0] body, rest patterns (only directly under quantifier)
)

// Term is a hash-consed term.
type Term struct {
	id    int
	op    Op
	sort  *Sort
	args  []*Term
	name  string
	ival  *big.Int
	n     int
	bv    bool // contains bound variable
	bvs   map[*Term]bool
	seq   int    // creation order of fresh constants (0 otherwise)
	lob   int    // for Ref consts known fresh: root >= base lob (0 = unknown)
	bound [2]int // for Ref consts etc: root < base[bound[0]] + bound[1]; bound[0] < 0 means unknown
}

var (
	termTable = map[string]*Term{}
	termList  []*Term
)

func key(op Op, sort *Sort, name string, n int, ival *big.Int, args []*Term) string {
	var b strings.Builder
	b.WriteString(strconv.Itoa(int(op)))
	b.WriteByte('|')
	b.WriteString(sort.name)
	b.WriteByte('|')
	b.WriteString(name)
	b.WriteByte('|')
	b.WriteString(strconv.Itoa(n))
	if ival != nil {
		b.WriteByte('#')
		b.WriteString(ival.String())
	}
	for _, a := range args {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(a.id))
	}
	return b.String()
}

func mk(op Op, sort *Sort, name string, n int, ival *big.Int, args ...*Term) *Term {
	k := key(op, sort, name, n, ival, args)
	if t, ok := termTable[k]; ok {
		return t
	}
	t := &Term{id: len(termList), op: op, sort: sort, args: args, name: name, n: n, ival: ival, bound: [2]int{-1, 0}}
	if op == OBVar {
		t.bvs = map[*Term]bool{t: true}
	}
	for _, a := range args {
		if len(a.bvs) == 0 {
			continue
		}
		if t.bvs == nil {
			t.bvs = map[*Term]bool{}
		}
		for v := range a.bvs {
			t.bvs[v] = true
		}
	}
	if op == OForall || op == OExists {
		// last args are bound vars
		for _, v := range args[1:] {
			delete(t.bvs, v)
		}
	}
	t.bv = len(t.bvs) > 0
	termTable[k] = t
	termList = append(termList, t)
	return t
}

var (
	tTrue  = mk(OTrue, sBool, "", 0, nil)
	tFalse = mk(OFalse, sBool, "", 0, nil)
)

func mkBool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

func mkInt(i int64) *Term { return mk(OInt, sInt, "", 0, big.NewInt(i)) }

func mkBig(i *big.Int) *Term { return mk(OInt, sInt, "", 0, new(big.Int).Set(i)) }

func mkStr(s string) *Term { return mk(OStrLit, sStr, s, 0, nil) }

var freshSeq int

var freshN = map[string]int{}

func resetTerms() {
	freshN = map[string]int{}
}

func sanitize(s string) string {
	var b strings.Builder
	for _, c := range s {
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' {
			b.WriteRune(c)
			continue
		}
		// characters that tell one type from another stay apart
		switch c {
		case '*', '.':
			b.WriteRune(c)
		case '[':
			b.WriteByte('<')
		case ']':
			b.WriteByte('>')
		case '/':
			b.WriteByte('^')
		default:
			b.WriteByte('_')
		}
	}
	return b.String()
}

func mkFresh(name string, s *Sort) *Term {
	name = sanitize(name)
	freshN[name]++
	t := mk(OConst, s, fmt.Sprintf("%s!f%d", name, freshN[name]), 0, nil)
	freshSeq++
	t.seq = freshSeq
	return t
}

func mkConst(name string, s *Sort) *Term { return mk(OConst, s, name, 0, nil) }

func mkBVar(name string, s *Sort) *Term {
	name = sanitize(name)
	freshN["?"+name]++
	return mk(OBVar, s, fmt.Sprintf("?%s!%d", name, freshN["?"+name]), 0, nil)
}

func mkApp(name string, s *Sort, args ...*Term) *Term {
	return mk(OApp, s, name, 0, nil, args...)
}

func isLit(t *Term) bool {
	return t.op == OTrue || t.op == OFalse || t.op == OInt || t.op == OStrLit
}

func mkNot(a *Term) *Term {
	switch a.op {
	case OTrue:
		return tFalse
	case OFalse:
		return tTrue
	case ONot:
		return a.args[0]
	}
	return mk(ONot, sBool, "", 0, nil, a)
}

func flat(op Op, ts []*Term, out []*Term, seen map[*Term]bool) []*Term {
	for _, t := range ts {
		if t.op == op {
			out = flat(op, t.args, out, seen)
			continue
		}
		if !seen[t] {
			seen[t] = true
			out = append(out, t)
		}
	}
	return out
}

func mkAnd(ts ...*Term) *Term {
	seen := map[*Term]bool{}
	l := flat(OAnd, ts, nil, seen)
	var r []*Term
	for _, t := range l {
		if t == tFalse {
			return tFalse
		}
		if t == tTrue {
			continue
		}
		if seen[mkNot(t)] {
			return tFalse
		}
		r = append(r, t)
	}
	if len(r) == 0 {
		return tTrue
	}
	if len(r) == 1 {
		return r[0]
	}
	return mk(OAnd, sBool, "", 0, nil, r...)
}

func conjuncts(t *Term) []*Term {
	if t.op == OAnd {
		return t.args
	}
	if t == tTrue {
		return nil
	}
	return []*Term{t}
}

func mkOr(ts ...*Term) *Term {
	seen := map[*Term]bool{}
	l := flat(OOr, ts, nil, seen)
	var r []*Term
	for _, t := range l {
		if t == tTrue {
			return tTrue
		}
		if t == tFalse {
			continue
		}
		if seen[mkNot(t)] {
			return tTrue
		}
		r = append(r, t)
	}
	if len(r) == 0 {
		return tFalse
	}
	if len(r) == 1 {
		return r[0]
	}
	// Factor conjunctions: (P & a) | (P & !a) = P, also common factors.
	return factorOr(r)
}

func factorOr(r []*Term) *Term {
	if len(r) <= 24 {
		sets := make([]map[*Term]bool, len(r))
		for i, t := range r {
			sets[i] = map[*Term]bool{}
			for _, c := range conjuncts(t) {
				sets[i][c] = true
			}
		}
		changed := false
		for again := true; again; {
			again = false
		outer:
			for i := 0; i < len(sets); i++ {
				for j := 0; j < len(sets); j++ {
					if i == j {
						continue
					}
					// subsumption: sets[i] subset of sets[j] -> drop j
					sub := true
					for c := range sets[i] {
						if !sets[j][c] {
							sub = false
							break
						}
					}
					if sub {
						sets = append(sets[:j], sets[j+1:]...)
						r = append(append([]*Term{}, r[:j]...), r[j+1:]...)
						again, changed = true, true
						break outer
					}
					// complementary merge: j contains !c where rest of i subset of j
					for c := range sets[i] {
						nc := mkNot(c)
						if !sets[j][nc] {
							continue
						}
						rest := true
						for c2 := range sets[i] {
							if c2 != c && !sets[j][c2] {
								rest = false
								break
							}
						}
						if rest { // (R&c) | (R&!c&S) = (R&c) | (R&S)
							ns := map[*Term]bool{}
							for c2 := range sets[j] {
								if c2 != nc {
									ns[c2] = true
								}
							}
							sets[j] = ns
							// rebuild r[j] preserving order
							var cs []*Term
							for _, c2 := range conjuncts(r[j]) {
								if c2 != nc {
									cs = append(cs, c2)
								}
							}
							r = append([]*Term{}, r...)
							r[j] = mkAnd(cs...)
							if r[j] == tTrue {
								return tTrue
							}
							again, changed = true, true
							break outer
						}
					}
				}
			}
		}
		_ = changed
	}
	if len(r) == 1 {
		return r[0]
	}
	// common factor
	common := map[*Term]bool{}
	for _, c := range conjuncts(r[0]) {
		common[c] = true
	}
	for _, t := range r[1:] {
		m := map[*Term]bool{}
		for _, c := range conjuncts(t) {
			if common[c] {
				m[c] = true
			}
		}
		common = m
	}
	if len(common) > 0 {
		var p, rest []*Term
		for _, c := range conjuncts(r[0]) {
			if common[c] {
				p = append(p, c)
			}
		}
		for _, t := range r {
			var cs []*Term
			for _, c := range conjuncts(t) {
				if !common[c] {
					cs = append(cs, c)
				}
			}
			rest = append(rest, mkAnd(cs...))
		}
		p = append(p, mkOr(rest...))
		return mkAnd(p...)
	}
	return mk(OOr, sBool, "", 0, nil, r...)
}

func mkImp(a, b *Term) *Term {
	if a == tTrue {
		return b
	}
	if a == tFalse || b == tTrue || a == b {
		return tTrue
	}
	if b == tFalse {
		return mkNot(a)
	}
	if a.op == OAnd {
		for _, c := range a.args {
			if c == b {
				return tTrue
			}
		}
	}
	if b.op == OImp {
		return mkImp(mkAnd(a, b.args[0]), b.args[1])
	}
	return mk(OImp, sBool, "", 0, nil, a, b)
}

type triKey struct{ a, b, c *Term }

var iteMemo = map[triKey]*Term{}

func mkIte(c, a, b *Term) *Term {
	k := triKey{c, a, b}
	if r, ok := iteMemo[k]; ok {
		return r
	}
	r := mkIte1(c, a, b)
	iteMemo[k] = r
	return r
}

func mkIte1(c, a, b *Term) *Term {
	if c == tTrue {
		return a
	}
	if c == tFalse {
		return b
	}
	if a == b {
		return a
	}
	if c.op == ONot {
		return mkIte(c.args[0], b, a)
	}
	if a.op == OIte && a.args[0] == c {
		a = a.args[1]
	}
	if b.op == OIte && b.args[0] == c {
		b = b.args[2]
	}
	if a == b {
		return a
	}
	if a.sort == sBool {
		if a == tTrue {
			return mkOr(c, b)
		}
		if a == tFalse {
			return mkAnd(mkNot(c), b)
		}
		if b == tTrue {
			return mkOr(mkNot(c), a)
		}
		if b == tFalse {
			return mkAnd(c, a)
		}
	}
	// ite(c, ite(d, x, y), y) -> ite(c&d, x, y)
	if a.op == OIte && a.args[2] == b {
		return mkIte(mkAnd(c, a.args[0]), a.args[1], b)
	}
	if b.op == OIte && b.args[1] == a {
		return mkIte(mkOr(c, b.args[0]), a, b.args[2])
	}
	// struct values: push into fields
	if a.op == OCtor && b.op == OCtor && a.sort == b.sort {
		args := make([]*Term, len(a.args))
		for i := range a.args {
			args[i] = mkIte(c, a.args[i], b.args[i])
		}
		return mkCtor(a.sort, args...)
	}
	if a.op == OMkSlice && b.op == OMkSlice {
		return mkSlice(mkIte(c, a.args[0], b.args[0]), mkIte(c, a.args[1], b.args[1]))
	}
	// store normalisation: ite(c, store(m,i,v), m) -> store(m, i, ite(c, v, m[i]))
	if a.op == OStore && a.args[0] == b {
		return mkStore(b, a.args[1], mkIte(c, a.args[2], mkSelect(b, a.args[1])))
	}
	if b.op == OStore && b.args[0] == a {
		return mkStore(a, b.args[1], mkIte(c, mkSelect(a, b.args[1]), b.args[2]))
	}
	if a.op == OStore && b.op == OStore && a.args[1] == b.args[1] {
		return mkStore(mkIte(c, a.args[0], b.args[0]), a.args[1], mkIte(c, a.args[2], b.args[2]))
	}
	return mk(OIte, a.sort, "", 0, nil, c, a, b)
}

// ---- references ----
//
// A reference is (root, path). Objects that exist on entry have root <= 0 (0 is nil), the n-th object allocated
// relative to base b has root b*1e12+n+1; objects allocated by callees (b-th call) have roots in
// [b*1e12, (b+1)*1e12) with b the base created by the call, above every root handed out before it.

var tNull = mk(OConst, sRef, "null", 0, nil)

func init() { tNull.bound = [2]int{0, 0} }

const baseStep = 1000000000000

// mkNewRef builds the n-th object allocated relative to base index b.
func mkNewRef(b, n int) *Term {
	return mk(ONewRef, sRef, strconv.Itoa(b), n, nil)
}

func newRefID(t *Term) *big.Int {
	b, _ := strconv.Atoi(t.name)
	r := new(big.Int).Mul(big.NewInt(int64(b)), big.NewInt(baseStep))
	return r.Add(r, big.NewInt(int64(t.n)+1))
}

func mkFld(r *Term, fid int) *Term {
	if r.op == OIte {
		return mkIte(r.args[0], mkFld(r.args[1], fid), mkFld(r.args[2], fid))
	}
	return mk(OFld, sRef, "", fid, nil, r)
}

// mkElt is the address of element idx of backing array r; key names the array memory.
func mkElt(r, idx *Term, key string) *Term {
	if r.op == OIte {
		return mkIte(r.args[0], mkElt(r.args[1], idx, key), mkElt(r.args[2], idx, key))
	}
	return mk(OElt, sRef, key, 0, nil, r, idx)
}

func rootOf(r *Term) *Term {
	for r.op == OFld || r.op == OElt {
		r = r.args[0]
	}
	return r
}

// allocIdx gives (base,n) for a syntactically fresh root.
func allocIdx(r *Term) (int, int, bool) {
	if r.op == ONewRef {
		b, _ := strconv.Atoi(r.name)
		return b, r.n, true
	}
	return 0, 0, false
}

type bnd struct {
	b, n int
	ok   bool
}

func maxBnd(x, y bnd) bnd {
	if !x.ok || !y.ok {
		return bnd{}
	}
	if x.b > y.b || x.b == y.b && x.n > y.n {
		return x
	}
	return y
}

var bndMemo = map[*Term]bnd{}

// boundOf gives (b,n) such that every root inside t is < base_b + n (n-th allocation excluded).
func boundOf(t *Term) bnd {
	if r, ok := bndMemo[t]; ok {
		return r
	}
	r := boundRaw(t)
	bndMemo[t] = r
	return r
}

func boundRaw(r *Term) bnd {
	for r.op == OFld || r.op == OElt {
		r = r.args[0]
	}
	if r.bound[0] >= 0 {
		return bnd{r.bound[0], r.bound[1], true}
	}
	if b, n, ok := allocIdx(r); ok {
		return bnd{b, n + 1, true}
	}
	switch r.op {
	case OIte:
		return maxBnd(boundOf(r.args[1]), boundOf(r.args[2]))
	case OSel:
		return boundOf(r.args[0])
	case OSelect:
		return boundSel(r.args[0], r.args[1])
	case OStore:
		return maxBnd(boundOf(r.args[0]), boundOf(r.args[2]))
	case OConstArr:
		return boundOf(r.args[0])
	case OMkSlice:
		return boundOf(r.args[0])
	case OApp:
		if strings.HasPrefix(r.name, "box!") {
			return boundOf(r.args[0])
		}
		if strings.HasPrefix(r.name, "rel!") && !strings.HasPrefix(r.name, "rel!apply!") {
			return bnd{0, 0, true} // abstract values existed before
		}
		if strings.HasPrefix(r.name, "clo!") {
			x := bnd{0, 0, true}
			for _, a := range r.args {
				x = maxBnd(x, boundOf(a))
			}
			return x
		}
	case OCtor:
		x := bnd{0, 0, true}
		for _, a := range r.args {
			x = maxBnd(x, boundOf(a))
		}
		return x
	}
	if r == tNilIface || r == tNilFunc {
		return bnd{0, 0, true}
	}
	if noRefs(r.sort) {
		return bnd{0, 0, true}
	}
	return bnd{}
}

func noRefs(s *Sort) bool {
	switch s {
	case sBool, sInt, sStr, sF64:
		return true
	}
	return false
}

// boundSel bounds the value at index i of array term a. A memory array only bounds
// what it holds at addresses that existed when the array constant was introduced.
func boundSel(a, i *Term) bnd {
	k := [2]*Term{a, i}
	if r, ok := bselMemo[k]; ok {
		return r
	}
	r := boundSel1(a, i)
	bselMemo[k] = r
	return r
}

var bselMemo = map[[2]*Term]bnd{}

func boundSel1(a, i *Term) bnd {
	switch a.op {
	case OStore:
		return maxBnd(boundSel(a.args[0], i), boundOf(a.args[2]))
	case OIte:
		return maxBnd(boundSel(a.args[1], i), boundSel(a.args[2], i))
	case OConstArr:
		return boundOf(a.args[0])
	}
	x := boundOf(a)
	if !x.ok {
		return x
	}
	if a.sort.key == sRef {
		// An address that came into existence later than the array constant holds what
		// was there when the address did: later writes are stores or new constants.
		return maxBnd(x, boundOf(i))
	}
	return x
}

// defDistinctRoots is true if the roots of a and b are syntactically known to differ.
func defDistinctRoots(a, b *Term) bool {
	ra, rb := rootOf(a), rootOf(b)
	if ra == rb {
		return false
	}
	try := func(x, y *Term) bool {
		bx, nx, ok := allocIdx(x)
		if !ok {
			return false
		}
		if by, ny, ok := allocIdx(y); ok {
			return bx != by || nx != ny
		}
		b := boundOf(y)
		if !b.ok {
			return false
		}
		return b.b < bx || b.b == bx && b.n <= nx
	}
	if ra.lob > 0 {
		if b := boundOf(rb); b.ok && b.b < ra.lob {
			return true
		}
	}
	if rb.lob > 0 {
		if b := boundOf(ra); b.ok && b.b < rb.lob {
			return true
		}
	}
	return try(ra, rb) || try(rb, ra)
}

func pathShape(r *Term) (base *Term, steps []*Term) {
	for r.op == OFld || r.op == OElt {
		steps = append(steps, r)
		r = r.args[0]
	}
	return r, steps
}

func eqRef(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if defDistinctRoots(a, b) {
		return tFalse
	}
	if a.op == OIte && (isSimpleRef(b) || isSimpleRef(rootOf(b))) {
		return mkIte(a.args[0], mkEq(a.args[1], b), mkEq(a.args[2], b))
	}
	if b.op == OIte && (isSimpleRef(a) || isSimpleRef(rootOf(a))) {
		return mkIte(b.args[0], mkEq(a, b.args[1]), mkEq(a, b.args[2]))
	}
	// last steps
	isStep := func(t *Term) bool { return t.op == OFld || t.op == OElt }
	if isStep(a) && isStep(b) {
		if a.op != b.op {
			return tFalse
		}
		if a.op == OFld {
			if a.n != b.n {
				return tFalse
			}
			return eqRef(a.args[0], b.args[0])
		}
		return mkAnd(mkEq(a.args[1], b.args[1]), eqRef(a.args[0], b.args[0]))
	}
	// path vs empty path
	if isStep(a) && (b.op == ONewRef || b == tNull) || isStep(b) && (a.op == ONewRef || a == tNull) {
		return tFalse
	}
	return nil
}

func isSimpleRef(t *Term) bool {
	return t == tNull || t.op == ONewRef
}

var eqMemo = map[[2]*Term]*Term{}

// newErr is an error value made by errors.New or fmt.Errorf, with the errors it wraps.
type newErr struct{ wraps []*Term }

// newErrs: each of them differs from every other error, nil, and the values of concrete error types.
var newErrs = map[*Term]*newErr{}

// errIs is errors.Is.
func errIs(e, t *Term) *Term {
	if e.op == OIte {
		return mkIte(e.args[0], errIs(e.args[1], t), errIs(e.args[2], t))
	}
	if e == tNilIface {
		return mkEq(e, t)
	}
	if n := newErrs[e]; n != nil {
		r := []*Term{mkEq(e, t)}
		for _, w := range n.wraps {
			r = append(r, errIs(w, t))
		}
		return mkOr(r...)
	}
	return mkOr(mkEq(e, t), mkApp("err.wraps", sBool, e, t))
}

func mkEq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	k := [2]*Term{a, b}
	if r, ok := eqMemo[k]; ok {
		return r
	}
	r := mkEq1(a, b)
	eqMemo[k] = r
	return r
}

func mkEq1(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("mkEq sorts %s %s: %s / %s", a.sort.name, b.sort.name, a, b))
	}
	if isLit(a) && isLit(b) {
		return tFalse
	}
	if a.sort == sBool {
		if a == tTrue {
			return b
		}
		if b == tTrue {
			return a
		}
		if a == tFalse {
			return mkNot(b)
		}
		if b == tFalse {
			return mkNot(a)
		}
	}
	if a.sort == sRef {
		if t := eqRef(a, b); t != nil {
			return t
		}
	}
	if a.op == OCtor && b.op == OCtor {
		var cs []*Term
		for i := range a.args {
			cs = append(cs, mkEq(a.args[i], b.args[i]))
		}
		return mkAnd(cs...)
	}
	if a.sort == sSlice && a.op == OMkSlice && b.op == OMkSlice {
		var cs []*Term
		for i := range a.args {
			cs = append(cs, mkEq(a.args[i], b.args[i]))
		}
		return mkAnd(cs...)
	}
	if a.op == OIte && isLit(b) && (isLit(a.args[1]) || isLit(a.args[2])) {
		return mkIte(a.args[0], mkEq(a.args[1], b), mkEq(a.args[2], b))
	}
	if b.op == OIte && isLit(a) && (isLit(b.args[1]) || isLit(b.args[2])) {
		return mkIte(b.args[0], mkEq(a, b.args[1]), mkEq(a, b.args[2]))
	}
	if a.sort == sIface {
		if na, nb := newErrs[a] != nil, newErrs[b] != nil; na && (nb || b == tNilIface || strings.HasPrefix(b.name, "box!")) ||
			nb && (a == tNilIface || strings.HasPrefix(a.name, "box!")) {
			return tFalse
		}
		if (a == tNilIface && strings.HasPrefix(b.name, "box!")) || (b == tNilIface && strings.HasPrefix(a.name, "box!")) {
			return tFalse
		}
		if a.op == OApp && b.op == OApp && strings.HasPrefix(a.name, "box!") && strings.HasPrefix(b.name, "box!") {
			if a.name != b.name {
				return tFalse
			}
			return mkEq(a.args[0], b.args[0])
		}
		shaped := func(t *Term) bool {
			return t == tNilIface || newErrs[t] != nil || t.op == OApp && strings.HasPrefix(t.name, "box!")
		}
		if b.op == OIte && a.op != OIte && shaped(a) {
			a, b = b, a
		}
		if a.op == OIte && shaped(b) {
			return mkIte(a.args[0], mkEq(a.args[1], b), mkEq(a.args[2], b))
		}
		if b.op == OIte && a == tNilIface {
			return mkIte(b.args[0], mkEq(a, b.args[1]), mkEq(a, b.args[2]))
		}
	}
	if a.sort == sFunc {
		if a.name == "nilFunc" && strings.HasPrefix(b.name, "clo!") || b.name == "nilFunc" && strings.HasPrefix(a.name, "clo!") {
			return tFalse
		}
		if a.op == OIte && b.name == "nilFunc" {
			return mkIte(a.args[0], mkEq(a.args[1], b), mkEq(a.args[2], b))
		}
		if b.op == OIte && a.name == "nilFunc" {
			return mkIte(b.args[0], mkEq(a, b.args[1]), mkEq(a, b.args[2]))
		}
	}
	if a.sort == sInt {
		// linear with same base
		if x, c := linear(a); true {
			if y, d := linear(b); x == y && x != nil {
				return mkBool(c.Cmp(d) == 0)
			}
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk(OEq, sBool, "", 0, nil, a, b)
}

var tNilFunc = mk(OConst, sFunc, "nilFunc", 0, nil)

var tNilIface = mk(OConst, sIface, "nilIface", 0, nil)

func linear(t *Term) (*Term, *big.Int) {
	if t.op == OInt {
		return nil, t.ival
	}
	if t.op == OAdd && len(t.args) == 2 && t.args[1].op == OInt {
		return t.args[0], t.args[1].ival
	}
	return t, big.NewInt(0)
}

func mkAdd(a, b *Term) *Term {
	x, c := linear(a)
	y, d := linear(b)
	s := new(big.Int).Add(c, d)
	if x == nil && y == nil {
		return mkBig(s)
	}
	var base *Term
	switch {
	case x == nil:
		base = y
	case y == nil:
		base = x
	default:
		base = mk(OAdd, sInt, "", 0, nil, x, y)
		if s.Sign() == 0 {
			return base
		}
	}
	if s.Sign() == 0 {
		return base
	}
	return mk(OAdd, sInt, "", 0, nil, base, mkBig(s))
}

func mkSub(a, b *Term) *Term {
	if b.op == OInt {
		return mkAdd(a, mkBig(new(big.Int).Neg(b.ival)))
	}
	if a == b {
		return mkInt(0)
	}
	x, c := linear(a)
	y, d := linear(b)
	if x == y {
		return mkBig(new(big.Int).Sub(c, d))
	}
	return mk(OSub, sInt, "", 0, nil, a, b)
}

func mkMul(a, b *Term) *Term {
	if a.op == OInt && b.op == OInt {
		return mkBig(new(big.Int).Mul(a.ival, b.ival))
	}
	return mk(OMul, sInt, "", 0, nil, a, b)
}

func mkLt(a, b *Term) *Term {
	x, c := linear(a)
	y, d := linear(b)
	if x == y {
		return mkBool(c.Cmp(d) < 0)
	}
	return mk(OLt, sBool, "", 0, nil, a, b)
}

func mkLe(a, b *Term) *Term {
	x, c := linear(a)
	y, d := linear(b)
	if x == y {
		return mkBool(c.Cmp(d) <= 0)
	}
	return mk(OLe, sBool, "", 0, nil, a, b)
}

// ---- arrays ----

type selKey struct{ a, i *Term }

var selMemo = map[selKey]*Term{}

func mkSelect(a, i *Term) *Term {
	if a.sort.key == nil {
		panic("select on non-array " + a.sort.name)
	}
	k := selKey{a, i}
	if t, ok := selMemo[k]; ok {
		return t
	}
	t := selectRaw(a, i)
	selMemo[k] = t
	return t
}

func selectRaw(a, i *Term) *Term {
	switch a.op {
	case OStore:
		switch mkEq(a.args[1], i) {
		case tTrue:
			return a.args[2]
		case tFalse:
			return mkSelect(a.args[0], i)
		}
	case OIte:
		return mkIte(a.args[0], mkSelect(a.args[1], i), mkSelect(a.args[2], i))
	case OConstArr:
		return a.args[0]
	}
	return mk(OSelect, a.sort.val, "", 0, nil, a, i)
}

func mkStore(a, i, v *Term) *Term {
	if a.sort.val != v.sort {
		panic(fmt.Sprintf("store sorts: %s into %s", v.sort.name, a.sort.name))
	}
	if a.op == OStore && a.args[1] == i {
		return mkStore(a.args[0], i, v)
	}
	if v.op == OSelect && v.args[0] == a && v.args[1] == i {
		return a
	}
	return mk(OStore, a.sort, "", 0, nil, a, i, v)
}

func mkConstArr(s *Sort, v *Term) *Term { return mk(OConstArr, s, "", 0, nil, v) }

// ---- structs ----

func mkCtor(s *Sort, args ...*Term) *Term {
	if len(args) != len(s.dt.fields) {
		panic("ctor arity " + s.name)
	}
	for i, a := range args {
		if a.sort != s.dt.fields[i].sort {
			panic(fmt.Sprintf("ctor %s field %s: %s vs %s", s.name, s.dt.fields[i].name, a.sort.name, s.dt.fields[i].sort.name))
		}
	}
	// eta: all args are selectors of same term
	if len(args) > 0 && args[0].op == OSel && args[0].args[0].sort == s {
		base := args[0].args[0]
		ok := true
		for i, a := range args {
			if a.op != OSel || a.n != i || a.args[0] != base {
				ok = false
				break
			}
		}
		if ok {
			return base
		}
	}
	return mk(OCtor, s, "", 0, nil, args...)
}

func mkSel(t *Term, i int) *Term {
	if t.op == OCtor {
		return t.args[i]
	}
	if t.op == OIte {
		return mkIte(t.args[0], mkSel(t.args[1], i), mkSel(t.args[2], i))
	}
	return mk(OSel, t.sort.dt.fields[i].sort, t.sort.dt.fields[i].name, i, nil, t)
}

// ---- slices ----

func mkSlice(arr, ln *Term) *Term {
	return mk(OMkSlice, sSlice, "", 0, nil, arr, ln)
}

var sliceSel = []string{"sarr", "slen"}

type slKey struct {
	t *Term
	i int
}

var slMemo = map[slKey]*Term{}

func slPart(t *Term, i int) *Term {
	if t.op == OMkSlice {
		return t.args[i]
	}
	k := slKey{t, i}
	if r, ok := slMemo[k]; ok {
		return r
	}
	r := slPart1(t, i)
	slMemo[k] = r
	return r
}

func slPart1(t *Term, i int) *Term {
	if t.op == OIte {
		return mkIte(t.args[0], slPart(t.args[1], i), slPart(t.args[2], i))
	}
	s := sInt
	if i == 0 {
		s = sRef
	}
	r := mkApp(sliceSel[i], s, t)
	if i == 0 && r.bound[0] < 0 {
		if b := boundOf(t); b.ok {
			r.bound = [2]int{b.b, b.n}
		}
	}
	return r
}

func slArr(t *Term) *Term { return slPart(t, 0) }
func slLen(t *Term) *Term { return slPart(t, 1) }

// ---- quantifiers ----

func mkQuant(op Op, vars []*Term, body *Term, pats ...*Term) *Term {
	if body == tTrue || body == tFalse {
		return body
	}
	used := false
	for _, v := range vars {
		if body.bvs[v] {
			used = true
		}
	}
	if !used {
		return body
	}
	if len(pats) > 0 {
		body = mk(OPat, sBool, "", 0, nil, append([]*Term{body}, pats...)...)
	}
	return mk(op, sBool, "", 0, nil, append([]*Term{body}, vars...)...)
}

func mkForall(vars []*Term, body *Term, pats ...*Term) *Term {
	return mkQuant(OForall, vars, body, pats...)
}
func mkExists(vars []*Term, body *Term, pats ...*Term) *Term {
	return mkQuant(OExists, vars, body, pats...)
}

func (t *Term) String() string {
	p := newPrinter(false)
	s := p.inline(t, 0)
	if len(s) > 400 {
		s = s[:400] + "…"
	}
	return s
}

// subst replaces terms (memoized), rebuilding with simplification.
func subst(t *Term, m map[*Term]*Term, memo map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.args) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	args := make([]*Term, len(t.args))
	ch := false
	for i, a := range t.args {
		args[i] = subst(a, m, memo)
		if args[i] != a {
			ch = true
		}
	}
	r := t
	if ch {
		r = rebuild(t, args)
	}
	memo[t] = r
	return r
}

func rebuild(t *Term, a []*Term) *Term {
	switch t.op {
	case OAnd:
		return mkAnd(a...)
	case OOr:
		return mkOr(a...)
	case ONot:
		return mkNot(a[0])
	case OImp:
		return mkImp(a[0], a[1])
	case OIte:
		return mkIte(a[0], a[1], a[2])
	case OEq:
		return mkEq(a[0], a[1])
	case OAdd:
		r := a[0]
		for _, x := range a[1:] {
			r = mkAdd(r, x)
		}
		return r
	case OSub:
		return mkSub(a[0], a[1])
	case OMul:
		return mkMul(a[0], a[1])
	case OLt:
		return mkLt(a[0], a[1])
	case OLe:
		return mkLe(a[0], a[1])
	case OSelect:
		return mkSelect(a[0], a[1])
	case OStore:
		return mkStore(a[0], a[1], a[2])
	case OConstArr:
		return mkConstArr(t.sort, a[0])
	case OCtor:
		return mkCtor(t.sort, a...)
	case OSel:
		return mkSel(a[0], t.n)
	case OFld:
		return mkFld(a[0], t.n)
	case OElt:
		return mkElt(a[0], a[1], t.name)
	case OMkSlice:
		return mkSlice(a[0], a[1])
	}
	return mk(t.op, t.sort, t.name, t.n, t.ival, a...)
}
