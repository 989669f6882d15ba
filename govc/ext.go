package main

// Models of the standard library functions the verified code calls. Each is an assumed contract:
// an uninterpreted function with the axioms written here, folded on constants by running the real function.

import (
	"fmt"
	"go/types"
	"net/http"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func allLit(ts ...*Term) bool {
	for _, t := range ts {
		if t.op != OStrLit {
			return false
		}
	}
	return true
}

func (x *Exec) strLen(s *Term) *Term {
	if s.op == OStrLit {
		return mkInt(int64(len(s.name)))
	}
	if s.op == OIte {
		return mkIte(s.args[0], x.strLen(s.args[1]), x.strLen(s.args[2]))
	}
	return mkApp("str.length", sInt, s)
}

func emptyLit() *Term { return mkStr("") }

func init() {
	funAxioms["str.length"] = func(p *printer) []string {
		e := p.term(emptyLit())
		return []string{"(assert (forall ((s Str)) (! (and (>= (str.length s) 0) (= (= (str.length s) 0) (= s " + e + "))) :pattern ((str.length s)))))"}
	}
	funAxioms["str.cat"] = func(p *printer) []string {
		for _, n := range []string{"catL", "catR", "inSuffix"} {
			p.declared[n] = true
		}
		e := p.term(emptyLit())
		r := []string{
			"(declare-fun catL (Str Str) Str)", "(declare-fun catR (Str Str) Str)", "(declare-fun inSuffix (Str) Str)",
			"(assert (forall ((a Str) (b Str)) (! (and (= (catR a (str.cat a b)) b) (= (catL (str.cat a b) b) a)) :pattern ((str.cat a b)))))",
			"(assert (forall ((a Str) (b Str)) (! (= (= (str.cat a b) " + e + ") (and (= a " + e + ") (= b " + e + "))) :pattern ((str.cat a b)))))",
		}
		// No parameter location is a suffix of another one: name+location determines both (lemma "in-suffix").
		var or []string
		for _, l := range []string{"path", "query", "header", "cookie"} {
			or = append(or, "(= b "+p.term(mkStr(l))+")")
		}
		r = append(r, "(assert (forall ((a Str) (b Str)) (! (=> (or "+strings.Join(or, " ")+") (= (inSuffix (str.cat a b)) b)) :pattern ((str.cat a b)))))")
		return r
	}
	for _, n := range []string{"lower", "upper"} {
		n := n
		funAxioms["str."+n] = func(p *printer) []string {
			r := []string{fmt.Sprintf("(assert (forall ((s Str)) (! (= (str.%s (str.%s s)) (str.%s s)) :pattern ((str.%s s)))))", n, n, n, n)}
			for _, m := range []string{"get", "put", "post", "delete", "options", "head", "patch", "trace"} {
				a, b := m, strings.ToUpper(m)
				if n == "lower" {
					a, b = b, a
				}
				r = append(r, fmt.Sprintf("(assert (= (str.%s %s) %s))", n, p.term(mkStr(a)), p.term(mkStr(b))))
			}
			return r
		}
	}
	// ASCII strings: changing the case twice is changing it once.
	funAxioms["rel!ascii!Str"] = func(p *printer) []string {
		c := mkConst("ax!a", sStr)
		p.term(mkApp("str.lower", sStr, c))
		p.term(mkApp("str.upper", sStr, c))
		return []string{"(assert (forall ((s Str)) (! (=> (rel!ascii!Str s) (and (= (str.upper (str.lower s)) (str.upper s)) (= (str.lower (str.upper s)) (str.lower s)))) :pattern ((rel!ascii!Str s)))))"}
	}
}

func mkConcat(a, b *Term) *Term {
	if allLit(a, b) {
		return mkStr(a.name + b.name)
	}
	if a.op == OStrLit && a.name == "" {
		return b
	}
	if b.op == OStrLit && b.name == "" {
		return a
	}
	if a.op == OIte && b.op == OStrLit {
		return mkIte(a.args[0], mkConcat(a.args[1], b), mkConcat(a.args[2], b))
	}
	if b.op == OIte && a.op == OStrLit {
		return mkIte(b.args[0], mkConcat(a, b.args[1]), mkConcat(a, b.args[2]))
	}
	if a.op == OApp && a.name == "str.cat" {
		return mkConcat(a.args[0], mkConcat(a.args[1], b))
	}
	if a.op == OStrLit && b.op == OApp && b.name == "str.cat" && b.args[0].op == OStrLit {
		return mkConcat(mkStr(a.name+b.args[0].name), b.args[1])
	}
	return mkApp("str.cat", sStr, a, b)
}

func mkStrSub(a, lo, hi *Term) *Term {
	if a.op == OStrLit && lo.op == OInt && hi.op == OInt {
		l, h := lo.ival.Int64(), hi.ival.Int64()
		if 0 <= l && l <= h && h <= int64(len(a.name)) {
			return mkStr(a.name[l:h])
		}
	}
	return mkApp("str.sub", sStr, a, lo, hi)
}

// str1 applies a unary string function.
func str1(n string, a *Term, f func(string) string) *Term {
	if a.op == OStrLit {
		return mkStr(f(a.name))
	}
	if a.op == OIte {
		return mkIte(a.args[0], str1(n, a.args[1], f), str1(n, a.args[2], f))
	}
	if a.op == OApp && a.name == n && (n == "str.lower" || n == "str.upper") {
		return a
	}
	return mkApp(n, sStr, a)
}

func pred2(n string, a, b *Term, f func(a, b string) bool) *Term {
	if allLit(a, b) {
		return mkBool(f(a.name, b.name))
	}
	if a.op == OIte && b.op == OStrLit {
		return mkIte(a.args[0], pred2(n, a.args[1], b, f), pred2(n, a.args[2], b, f))
	}
	if n == "str.hasprefix" && a.op == OApp && a.name == "str.cat" && allLit(a.args[0], b) && len(a.args[0].name) >= len(b.name) {
		return mkBool(strings.HasPrefix(a.args[0].name, b.name))
	}
	return mkApp(n, sBool, a, b)
}

func trimPrefix(a, b *Term) *Term {
	if allLit(a, b) {
		return mkStr(strings.TrimPrefix(a.name, b.name))
	}
	if a.op == OIte && b.op == OStrLit {
		return mkIte(a.args[0], trimPrefix(a.args[1], b), trimPrefix(a.args[2], b))
	}
	if a.op == OApp && a.name == "str.cat" && allLit(a.args[0], b) && strings.HasPrefix(a.args[0].name, b.name) {
		return mkConcat(mkStr(a.args[0].name[len(b.name):]), a.args[1])
	}
	return mkApp("str.trimprefix", sStr, a, b)
}

func init() {
	funAxioms["str.trimprefix"] = func(p *printer) []string {
		p.term(mkApp("str.hasprefix", sBool, emptyLit(), emptyLit()))
		return []string{"(assert (forall ((a Str) (b Str)) (! (=> (not (str.hasprefix a b)) (= (str.trimprefix a b) a)) :pattern ((str.trimprefix a b)))))"}
	}
	catAx := func(p *printer) []string {
		p.term(mkApp("str.cat", sStr, mkConst("ax!a", sStr), mkConst("ax!b", sStr)))
		p.term(mkApp("str.trimprefix", sStr, mkConst("ax!a", sStr), mkConst("ax!b", sStr)))
		return []string{
			"(assert (forall ((a Str) (b Str)) (! (and (str.hasprefix (str.cat a b) a) (= (str.trimprefix (str.cat a b) a) b)) :pattern ((str.cat a b)))))",
			"(assert (forall ((a Str) (b Str)) (! (=> (str.hasprefix a b) (= a (str.cat b (str.trimprefix a b)))) :pattern ((str.hasprefix a b)))))",
		}
	}
	funAxioms["str.hasprefix"] = catAx
}

// newErr is a non-nil error made by the callee.
func (x *Exec) newErr(st *State, name string) *Term {
	e := x.fresh(st, name, sIface)
	x.factPC(tTrue, mkNot(mk(OEq, sBool, "", 0, nil, e, tNilIface)))
	newErrs[e] = &newErr{}
	return e
}

func (x *Exec) extern(st *State, f *ssa.Function, name string, args []*Term) ([]*Term, *State, bool) {
	ok := func(ts ...*Term) ([]*Term, *State, bool) {
		x.used["model of "+name] = true
		return ts, st, true
	}
	switch name {
	case "encoding/json.Unmarshal":
		r, s := x.unmarshal(st, args[0], args[1])
		return r, s, true
	case "(*regexp.Regexp).MatchString":
		p, known := patternOf[args[0]]
		if !known {
			fail("a pattern that is not a constant")
		}
		return ok(matchTerm(p, args[1]))
	case "strings.ToLower":
		return ok(str1("str.lower", args[0], strings.ToLower))
	case "strings.ToUpper":
		return ok(str1("str.upper", args[0], strings.ToUpper))
	case "strings.Title": //nolint
		return ok(str1("str.title", args[0], strings.Title)) //nolint
	case "strings.TrimSpace":
		return ok(str1("str.trimspace", args[0], strings.TrimSpace))
	case "net/http.CanonicalHeaderKey":
		return ok(str1("str.canonheader", args[0], http.CanonicalHeaderKey))
	case "strings.HasPrefix":
		return ok(pred2("str.hasprefix", args[0], args[1], strings.HasPrefix))
	case "strings.HasSuffix":
		return ok(pred2("str.hassuffix", args[0], args[1], strings.HasSuffix))
	case "strings.Contains":
		return ok(pred2("str.contains", args[0], args[1], strings.Contains))
	case "strings.EqualFold":
		return ok(pred2("str.equalfold", args[0], args[1], strings.EqualFold))
	case "strings.TrimPrefix":
		return ok(trimPrefix(args[0], args[1]))
	case "strings.TrimSuffix":
		if allLit(args...) {
			return ok(mkStr(strings.TrimSuffix(args[0].name, args[1].name)))
		}
		return ok(mkApp("str.trimsuffix", sStr, args...))
	case "strings.Replace":
		return ok(mkApp("str.replace", sStr, args...))
	case "strings.ReplaceAll":
		return ok(mkApp("str.replaceall", sStr, args...))
	case "strings.Index":
		if allLit(args...) {
			return ok(mkInt(int64(strings.Index(args[0].name, args[1].name))))
		}
		return ok(mkApp("str.index", sInt, args...))
	case "strings.Join":
		row := mkSelect(x.memGet(st, ghost(arrKey(types.Typ[types.String]), slArr(args[0]))), slArr(args[0]))
		return ok(mkApp("str.join", sStr, row, slLen(args[0]), args[1]))
	case "strings.Split":
		k := arrKey(types.Typ[types.String])
		st = st.clone()
		r := x.alloc(st)
		nk := ghost(k, r)
		st.mem[nk.name] = mkStore(x.memGet(st, nk), r, mkApp("str.split", k.sort.val, args[0], args[1]))
		n := mkApp("str.splitlen", sInt, args[0], args[1])
		x.factPC(tTrue, mkLe(mkInt(1), n))
		x.used["model of "+name] = true
		return []*Term{mkSlice(r, n)}, st, true
	case "strconv.Itoa":
		if args[0].op == OInt {
			return ok(mkStr(strconv.Itoa(int(args[0].ival.Int64()))))
		}
		if args[0].op == OIte {
			return ok(mapIte(args[0], func(t *Term) *Term {
				if t.op == OInt {
					return mkStr(t.ival.String())
				}
				return mkApp("str.itoa", sStr, t)
			}))
		}
		return ok(mkApp("str.itoa", sStr, args[0]))
	case "net/http.StatusText":
		return ok(mapIte(args[0], func(t *Term) *Term {
			if t.op == OInt {
				return mkStr(http.StatusText(int(t.ival.Int64())))
			}
			return mkApp("http.statustext", sStr, t)
		}))
	case "errors.New":
		return ok(x.newErr(st, "errnew"))
	case "fmt.Errorf":
		e := x.newErr(st, "errorf")
		if args[0].op == OStrLit && strings.Contains(args[0].name, "%w") && slLen(args[1]).op == OInt {
			// the operand of %w
			n, i := 0, 0
			s := args[0].name
			vs := x.variadic(st, args[1])
			for i < len(s)-1 {
				if s[i] == '%' {
					if s[i+1] == '%' {
						i += 2
						continue
					}
					j := i + 1
					for j < len(s) && strings.IndexByte("+-# 0123456789.", s[j]) >= 0 {
						j++
					}
					if j < len(s) && s[j] == 'w' && n < len(vs) {
						newErrs[e].wraps = append(newErrs[e].wraps, vs[n])
					}
					n++
					i = j
				}
				i++
			}
		}
		return ok(e)
	case "fmt.Sprintf", "fmt.Sprint":
		return ok(x.fresh(st, "sprintf", sStr))
	case "github.com/swaggest/refl.PopulateFieldsFromTags":
		rs, s := x.populate(st, f, args)
		return rs, s, true
	case "errors.Is":
		return ok(errIs(args[0], args[1]))
	}
	return nil, nil, false
}

func mapIte(t *Term, f func(*Term) *Term) *Term {
	if t.op == OIte {
		return mkIte(t.args[0], mapIte(t.args[1], f), mapIte(t.args[2], f))
	}
	return f(t)
}

func init() {
	funAxioms["str.itoa"] = func(p *printer) []string {
		p.declared["itoa!inv"] = true
		r := []string{
			"(declare-fun itoa!inv (Str) Int)",
			"(assert (forall ((i Int)) (! (= (itoa!inv (str.itoa i)) i) :pattern ((str.itoa i)))))",
		}
		// known values (numbers) and strings that are no numbers
		for _, i := range []int{0, 1, 2, 3, 4, 5, 200, 204} {
			r = append(r, fmt.Sprintf("(assert (= (str.itoa %d) %s))", i, p.term(mkStr(strconv.Itoa(i)))))
		}
		for _, s := range []string{"1XX", "2XX", "3XX", "4XX", "5XX", "default", ""} {
			r = append(r, fmt.Sprintf("(assert (forall ((i Int)) (! (not (= (str.itoa i) %s)) :pattern ((str.itoa i)))))", p.term(mkStr(s))))
		}
		return r
	}
	funAxioms["http.statustext"] = func(p *printer) []string {
		return nil
	}
}

// ifaceModel models methods of standard interfaces.
func (x *Exec) ifaceModel(st *State, name string, c *ssa.CallCommon, v *Term, args []*Term) ([]*Term, *State, bool) {
	switch name {
	case "(error).Error":
		return []*Term{mkApp("err.msg", sStr, v)}, st, true
	case "(context.Context).Value":
		return []*Term{mkApp("ctx.value", sIface, v, args[0])}, st, true
	case "(fmt.Stringer).String":
		return []*Term{mkApp("iface.string", sStr, v)}, st, true
	}
	return nil, nil, false
}

// populate unrolls refl.PopulateFieldsFromTags over the statically known structure: its reflective loop visits
// each field and reads the tag named after it with the real Read…Tag function.
func (x *Exec) populate(st *State, f *ssa.Function, args []*Term) ([]*Term, *State) {
	b := args[0]
	if b.op != OApp || !strings.HasPrefix(b.name, "box!") || slLen(args[2]) != mkInt(0) {
		fail("PopulateFieldsFromTags of unknown structure")
	}
	u := tagTypes[strings.TrimPrefix(b.name, "box!")].Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
	readers := map[string]string{"**string": "ReadStringPtrTag", "*string": "ReadStringTag", "**int64": "ReadIntPtrTag", "*int64": "ReadIntTag",
		"**float64": "ReadFloatPtrTag", "*float64": "ReadFloatTag", "**bool": "ReadBoolPtrTag", "*bool": "ReadBoolTag"}
	var bad []*Term
	for i := 0; i < u.NumFields(); i++ {
		r := readers[types.TypeString(types.NewPointer(u.Field(i).Type()), qual)]
		if r == "" {
			continue
		}
		n := u.Field(i).Name()
		g := f.Pkg.Func(r)
		rs, s := x.callFunc(g, []*Term{args[1], mkStr(strings.ToLower(n[:1]) + n[1:]), fld(b.args[0], u, i)}, nil, st)
		st = s
		if len(rs) == 1 {
			bad = append(bad, mkNot(mkEq(rs[0], tNilIface)))
		}
	}
	x.used["refl.PopulateFieldsFromTags unrolled over the fields of the structure"] = true
	return []*Term{mkIte(mkOr(bad...), x.newErr(st, "tags"), tNilIface)}, st
}
