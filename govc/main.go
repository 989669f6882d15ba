// Command govc verifies Go functions against contracts by generating proof obligations from their SSA form.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"
)

// Result is the report on one function.
type Result struct {
	Func     string   `json:"func"`
	Props    []string `json:"props"`
	Obls     []OblRep `json:"obligations"`
	Inlined  []string `json:"inlined,omitempty"`
	Used     []string `json:"uses,omitempty"`
	Assumps  []string `json:"assumptions,omitempty"`
	Facts    int      `json:"facts"`
	ExecTime float64  `json:"exec_s"`
}

// OblRep is the report on one obligation.
type OblRep struct {
	Name   string   `json:"name"`
	Props  []string `json:"props"`
	Status string   `json:"status"`
	Solver string   `json:"solver,omitempty"`
	Time   float64  `json:"time_s"`
	Cover  bool     `json:"cover,omitempty"`
	Msg    string   `json:"msg,omitempty"`
	Model  string   `json:"model,omitempty"`
}

// Report is the output file.
type Report struct {
	Property string    `json:"property"`
	Problems []Problem `json:"problems"`
	Results  []Result  `json:"results"`
	LoadTime float64   `json:"load_s"`
	Wall     float64   `json:"wall_s"`
	Trusted  []string  `json:"trusted"`
}

// verifyAll runs a function once, or once per case of its case splits.
var auditMode = os.Getenv("GOVC_AUDIT") != ""

// audit records a reachability question (GOVC_AUDIT only).
func (x *Exec) audit(st *State, name string) {
	if !auditMode || x.dry > 0 || x.binder > 0 || x.spec > 0 || st.pc == tFalse {
		return
	}
	x.naudit++
	x.obls = append(x.obls, &Obl{Func: x.contract.Name, Name: fmt.Sprintf("audit: %s @%s", name, x.where()), Props: x.contract.Props, Goal: st.pc, NFacts: len(x.facts), Cover: true})
}

func (e *Engine) verifyAll(c *Contract) (xs []*Exec, dt float64) {
	x, d := e.verify(c, nil)
	if len(x.splits) == 0 {
		return []*Exec{x}, d
	}
	sel := make([]int, len(x.splits))
	dims := x.splits
	for {
		y, d2 := e.verify(c, append([]int(nil), sel...))
		xs = append(xs, y)
		d += d2
		i := 0
		for i < len(sel) {
			sel[i]++
			if sel[i] <= len(dims[i].vals) {
				break
			}
			sel[i] = 0
			i++
		}
		if i == len(sel) {
			return xs, d
		}
	}
}

func (e *Engine) verify(c *Contract, caseSel []int) (x *Exec, dt float64) {
	t0 := time.Now()
	x = &Exec{factInv: map[int]string{}, caseSel: caseSel, simps: map[*Term]*simpCtx{}, assumed: map[*Term]*Term{}, E: e, top: c.Body, contract: c, dyn: map[*Term]*Term{}, inlined: map[string]bool{}, used: map[string]bool{}, assumps: map[string]bool{}, nobl: map[string]int{}}
	defer func() {
		dt = time.Since(t0).Seconds()
		if r := recover(); r != nil {
			msg := fmt.Sprint(r)
			if u, ok := r.(unsupported); ok {
				msg = u.msg
			} else {
				msg += "\n" + string(debug.Stack())
			}
			p := x.posString()
			x.obls = append(x.obls, &Obl{Func: c.Name, Name: "engine", Props: c.Props, Status: "error", Msg: "outside the verifier's reach: " + msg + " (near " + p + ")", NFacts: len(x.facts)})
		}
	}()
	st := &State{pc: tTrue, mem: map[string]*Term{}, epoch: "0"}
	var args []*Term
	for i, p := range c.Body.Params {
		a := mkFresh("arg_"+p.Name(), sortOf(p.Type()))
		a.bound = [2]int{0, 0}
		args = append(args, a)
		if i == 0 && c.Body.Signature.Recv() != nil && a.sort == sRef {
			x.facts = append(x.facts, mkNot(mkEq(a, tNull)))
		}
	}
	sc := &specCtx{mode: "verify", contract: c, guard: tTrue}
	posts, out := x.runSpec(sc, c.Fn, args, nil, st)
	x.carry(st, out)
	x.mods, x.modAny = sc.mods, sc.modAny
	x.entry = st.clone()
	x.obls = append(x.obls, &Obl{Func: c.Name, Name: "cover: preconditions satisfiable" + x.caseName, Props: c.Props, Goal: tTrue, NFacts: len(x.facts), Cover: true})
	x.frameOn = true
	rs, end := x.run(c.Body, args, nil, st)
	x.frameOn = false
	nf := len(x.facts)
	if end.pc == tFalse {
		x.obls = append(x.obls, &Obl{Func: c.Name, Name: "cover: function returns", Props: c.Props, Status: "failed", Msg: "no path returns", NFacts: nf})
		return
	}
	x.obls = append(x.obls, &Obl{Func: c.Name, Name: "cover: function returns" + x.caseName, Props: c.Props, Goal: end.pc, NFacts: nf, Cover: true})
	if len(posts) == 1 {
		if posts[0].op != OApp || !strings.HasPrefix(posts[0].name, "clo!") {
			fail("contract of %s does not return a closure", c.Name)
		}
		pf := closures[posts[0].name]
		if len(pf.Params) != len(rs) {
			fail("postcondition of %s has %d parameters for %d results", c.Name, len(pf.Params), len(rs))
		}
		if end.alts == nil {
			x.runSpec(&specCtx{mode: "post", contract: c, guard: end.pc}, pf, rs, posts[0].args, end)
			return
		}
		for _, a := range end.alts.list {
			s, sub := x.pick(end, a)
			if s.pc == tFalse {
				continue
			}
			vs := make([]*Term, len(rs))
			for i, r := range rs {
				vs[i] = sub(r)
			}
			x.runSpec(&specCtx{mode: "post", contract: c, guard: s.pc}, pf, vs, posts[0].args, s)
		}
	}
	for _, l := range x.loops {
		if !l.used {
			dbg("%s: loop specification %q unused", c.Name, l.key)
		}
	}
	return
}

func (x *Exec) posString() string {
	if !x.pos.IsValid() {
		return "?"
	}
	return x.E.prog.Fset.Position(x.pos).String()
}

func hasProp(ps []string, p string) bool {
	for _, q := range ps {
		if q == p {
			return true
		}
	}
	return false
}

var bigLock sync.Mutex

var caseSem = make(chan bool, 8)

func main() {
	repo := flag.String("repo", "/repo", "repository")
	dir := flag.String("contracts", "/verif/contracts", "contract files")
	prop := flag.String("prop", "", "property to decide (default: all)")
	only := flag.String("func", "", "only functions whose name contains this")
	out := flag.String("out", "", "report file")
	timeout := flag.Int("timeout", 5000, "solver timeout per obligation (ms)")
	jobs := flag.Int("j", 8, "parallel solvers")
	verbose := flag.Bool("v", false, "verbose")
	list := flag.Bool("list", false, "list contracts")
	flag.Parse()

	t0 := time.Now()
	e, err := load(*repo, *dir)
	if err != nil {
		fmt.Fprintln(os.Stderr, "govc:", err)
		os.Exit(3)
	}
	rep := Report{Property: *prop, LoadTime: time.Since(t0).Seconds()}
	for _, p := range e.problems {
		if *prop == "" || len(p.Props) == 0 || hasProp(p.Props, *prop) {
			fmt.Fprintln(os.Stderr, "problem:", p.Msg)
			rep.Problems = append(rep.Problems, p)
		}
	}
	if *list {
		for _, c := range e.list {
			fmt.Println(c.Name, c.Props, map[bool]string{true: "trusted"}[c.Trusted])
		}
		return
	}
	var wg sync.WaitGroup
	sem := make(chan bool, *jobs)
	var mu sync.Mutex
	var leftovers []leftover
	for _, c := range e.list {
		if *only != "" && !strings.Contains(c.Name, *only) || *prop != "" && !hasProp(c.Props, *prop) {
			continue
		}
		if c.Trusted {
			rep.Trusted = append(rep.Trusted, c.Name+": "+c.Note)
			continue
		}
		c := c
		wg.Add(1)
		sem <- true
		go func() {
			defer wg.Done()
			bigLock.Lock()
			xs, dt := e.verifyAll(c)
			bigLock.Unlock()
			var obls []*Obl
			x := xs[0]
			var cw sync.WaitGroup
			var again []leftover
			oss := make([][]*Obl, len(xs))
			for i, x := range xs {
				var os []*Obl
				for _, o := range x.obls {
					if *prop == "" || hasProp(o.Props, *prop) {
						os = append(os, o)
					}
				}
				oss[i] = os
				cw.Add(1)
				go func() {
					defer cw.Done()
					if len(xs) > 1 {
						caseSem <- true
						defer func() { <-caseSem }()
					}
					solveAll(c.Name+x.caseName, x.facts, os, nil, *timeout, x.factInv)
				}()
			}
			cw.Wait()
			for i, os := range oss {
				obls = append(obls, os...)
				for _, o := range os {
					if o.Status == "unknown" && !o.Cover && !strings.HasPrefix(o.Name, "audit: ") {
						again = append(again, leftover{c.Name + xs[i].caseName, xs[i], o, nil})
					}
				}
			}
			<-sem
			r := Result{Func: c.Name, Props: c.Props, Facts: len(x.facts), ExecTime: dt, Inlined: sortedKeys(x.inlined), Used: sortedKeys(x.used), Assumps: sortedKeys(x.assumps)}
			before := ""
			for _, o := range obls {
				st := o.Status
				if strings.HasPrefix(o.Name, "audit: after ") && st == "proved" && before != "proved" {
					fmt.Printf("  AUDIT %s: unreachable %s (before: %s)\n", c.Name, o.Name, before)
				}
				if strings.HasPrefix(o.Name, "audit: ") {
					before = st
					continue
				}
				if o.Cover {
					switch st {
					case "proved":
						st = "unreachable"
					default:
						st = "covered"
					}
				}
				r.Obls = append(r.Obls, OblRep{Name: o.Name, Props: o.Props, Status: st, Solver: o.Solver, Time: o.Time, Cover: o.Cover, Msg: o.Msg, Model: o.Model})
			}
			for i := range again {
				for j := range r.Obls {
					if r.Obls[j].Name == again[i].o.Name && r.Obls[j].Status == "unknown" && r.Obls[j].Msg == again[i].o.Msg {
						again[i].rep = &r.Obls[j]
					}
				}
			}
			mu.Lock()
			leftovers = append(leftovers, again...)
			rep.Results = append(rep.Results, r)
			mu.Unlock()
		}()
	}
	wg.Wait()
	patience(leftovers, *timeout*5)
	sort.Slice(rep.Results, func(i, j int) bool { return rep.Results[i].Func < rep.Results[j].Func })
	rep.Wall = time.Since(t0).Seconds()
	total, good := 0, 0
	for _, r := range rep.Results {
		okc := 0
		for _, o := range r.Obls {
			total++
			if o.Status == "proved" || o.Status == "covered" {
				good++
				okc++
				if *verbose {
					fmt.Printf("  ok   %-60s %s %.2fs\n", o.Name, o.Solver, o.Time)
				}
			} else {
				fmt.Printf("  FAIL %s: %s [%s %s] %s\n", r.Func, o.Name, o.Status, o.Solver, o.Msg)
			}
		}
		if *verbose || okc < len(r.Obls) {
			fmt.Printf("%s: %d/%d obligations, exec %.2fs, %d facts\n", r.Func, okc, len(r.Obls), r.ExecTime, r.Facts)
		}
	}
	fmt.Printf("%d/%d obligations discharged, %d functions, load %.1fs, wall %.1fs\n", good, total, len(rep.Results), rep.LoadTime, rep.Wall)
	if *out != "" {
		b, _ := json.MarshalIndent(rep, "", " ")
		_ = os.WriteFile(*out, b, 0o644)
	}
	if good < total || len(rep.Problems) > 0 {
		os.Exit(1)
	}
}
