package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Contract is a function contract found in the contract files.
type Contract struct {
	Name      string
	Fn        *ssa.Function // the specification function
	Body      *ssa.Function // the contracted function
	Props     []string
	Target    *types.Signature
	NoPanic   bool
	NameRefs  bool // give joined references names
	Pure      bool
	Transform bool            // callbacks taking one object are functions of it
	Abstract  map[string]bool // callees whose contracts are applied up to vc.Details only
	Generic   bool            // callers execute the body instead
	Trusted   bool            // body not verified
	Note      string
	File      string
}

// Problem is a contract that does not fit the code.
type Problem struct {
	Msg   string   `json:"msg"`
	Props []string `json:"props"`
}

// fileProps lists the properties of the contracts of a file.
func fileProps(file string) []string {
	b, _ := os.ReadFile(file)
	var r []string
	for _, l := range strings.Split(string(b), "\n") {
		if t := strings.TrimPrefix(l, "//vc:props"); t != l {
			r = append(r, strings.Fields(t)...)
		}
	}
	return r
}

// Engine holds the loaded program.
type Engine struct {
	prog           *ssa.Program
	pkgs           []*packages.Package
	contracts      map[string]*Contract
	ifaceContracts map[string]*Contract
	models         map[string]*ssa.Function
	isModel        map[*ssa.Function]bool
	list           []*Contract
	problems       []Problem
	stored         map[*ssa.Global]int
	constMemo      map[*ssa.Global]*ssa.Const
	patterns       map[*ssa.Global]string
	texts          map[*ssa.Global]string
	lists          map[*ssa.Global][]*ssa.Const
	funcs          map[string]*ssa.Function
}

const modPath = "github.com/swaggest/openapi-go"

var depRoots = []string{"github.com/swaggest/jsonschema-go", "github.com/swaggest/refl"}

func load(repo, dir string) (*Engine, error) {
	overlay := map[string][]byte{}
	origin := map[string]string{}
	err := filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return err
		}
		rel, _ := filepath.Rel(dir, p)
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		d, f := filepath.Split(rel)
		if d != "internal/vc/" {
			f = "zz_vc_" + f
		}
		t := filepath.Join(repo, d, f)
		overlay[t] = b
		origin[t] = p
		return nil
	})
	if err != nil {
		return nil, err
	}
	e := &Engine{contracts: map[string]*Contract{}, ifaceContracts: map[string]*Contract{}, models: map[string]*ssa.Function{}, isModel: map[*ssa.Function]bool{}, stored: map[*ssa.Global]int{}, funcs: map[string]*ssa.Function{}}
	env := append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local")
	for try := 0; ; try++ {
		cfg := &packages.Config{
			Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
				packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedExportFile,
			Dir: repo, Env: env, Overlay: overlay,
		}
		cfg.Mode &^= packages.NeedDeps
		pkgs, err := packages.Load(cfg, append([]string{modPath, modPath + "/openapi3", modPath + "/openapi31", modPath + "/internal", modPath + "/internal/vc"}, depRoots...)...)
		if err != nil {
			return nil, err
		}
		bad := map[string]string{}
		var hard []string
		packages.Visit(pkgs, nil, func(p *packages.Package) {
			for _, er := range p.Errors {
				f := strings.SplitN(er.Pos, ":", 2)[0]
				if _, ok := origin[f]; ok && !strings.HasSuffix(f, "/vc.go") {
					if bad[f] == "" {
						bad[f] = er.Error()
					}
				} else {
					hard = append(hard, er.Error())
				}
			}
		})
		if len(bad) == 0 && len(hard) > 0 {
			return nil, fmt.Errorf("load: %s", strings.Join(hard, "; "))
		}
		if len(bad) == 0 {
			e.pkgs = pkgs
			break
		}
		if try > 8 {
			return nil, fmt.Errorf("load: contract files keep failing: %v", bad)
		}
		for f, m := range bad {
			e.problems = append(e.problems, Problem{"contract file " + origin[f] + " does not fit the code: " + m, fileProps(origin[f])})
			delete(overlay, f)
		}
	}
	prog, _ := ssautil.Packages(e.pkgs, ssa.GlobalDebug|ssa.InstantiateGenerics)
	prog.Build()
	e.prog = prog
	e.scanStores()
	for _, p := range e.pkgs {
		sp := prog.Package(p.Types)
		for _, f := range p.Syntax {
			fn := p.Fset.Position(f.Pos()).Filename
			if _, ok := origin[fn]; !ok {
				continue
			}
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Doc == nil {
					continue
				}
				if err := e.addDecl(p, sp, fd, origin[fn]); err != nil {
					e.problems = append(e.problems, Problem{err.Error(), declProps(fd)})
				}
			}
		}
	}
	sort.Slice(e.list, func(i, j int) bool { return e.list[i].Name < e.list[j].Name })
	return e, nil
}

func qualify(pkg, n string) string {
	if strings.Contains(n, "/") || !strings.HasPrefix(n, "(") && strings.Contains(n, ".") {
		return n
	}
	if i := strings.IndexByte(n, ')'); i > 0 && strings.Contains(n[:i], ".") {
		return n
	}
	switch {
	case strings.HasPrefix(n, "(*"):
		return "(*" + pkg + "." + n[2:]
	case strings.HasPrefix(n, "("):
		return "(" + pkg + "." + n[1:]
	}
	return pkg + "." + n
}

func declProps(fd *ast.FuncDecl) []string {
	for _, l := range fd.Doc.List {
		if t := strings.TrimPrefix(l.Text, "//vc:props"); t != l.Text {
			return strings.Fields(t)
		}
	}
	return nil
}

func (e *Engine) addDecl(p *packages.Package, sp *ssa.Package, fd *ast.FuncDecl, file string) error {
	c := &Contract{File: file}
	kind, target := "", ""
	for _, l := range fd.Doc.List {
		t := strings.TrimPrefix(l.Text, "//vc:")
		if t == l.Text {
			continue
		}
		w := strings.Fields(t)
		switch w[0] {
		case "func", "model", "iface":
			kind, target = w[0], qualify(p.PkgPath, w[1])
		case "props":
			c.Props = w[1:]
		case "trusted":
			c.Trusted = true
			c.Note = strings.TrimSpace(strings.TrimPrefix(t, "trusted"))
		case "inline":
			c.Generic = true
		case "pure":
			c.Pure = true
		case "transformers":
			c.Transform = true
		case "abstract":
			c.Abstract = map[string]bool{}
			for _, n := range w[1:] {
				c.Abstract[n] = true
			}
		case "namerefs":
			c.NameRefs = true
		case "nopanic":
			c.NoPanic = true
		default:
			return fmt.Errorf("%s: unknown directive %s", file, t)
		}
	}
	if kind == "" {
		return nil
	}
	c.Name = target
	c.Fn = sp.Func(fd.Name.Name)
	if c.Fn == nil {
		return fmt.Errorf("%s: no SSA for %s", file, fd.Name.Name)
	}
	switch kind {
	case "model":
		e.models[target] = c.Fn
		e.isModel[c.Fn] = true
		return nil
	case "iface":
		c.Trusted = true
		i := strings.LastIndexByte(target, '.')
		tn := strings.Trim(target[:i], "()")
		j := strings.LastIndexByte(tn, '.')
		var obj types.Object
		for _, q := range e.prog.AllPackages() {
			if q.Pkg.Path() == tn[:j] {
				obj = q.Pkg.Scope().Lookup(tn[j+1:])
			}
		}
		if obj == nil {
			return fmt.Errorf("%s: no interface %s", file, tn)
		}
		it := obj.Type().Underlying().(*types.Interface)
		for k := 0; k < it.NumMethods(); k++ {
			if it.Method(k).Name() == target[i+1:] {
				c.Target = it.Method(k).Type().(*types.Signature)
			}
		}
		if c.Target == nil {
			return fmt.Errorf("%s: no method %s", file, target)
		}
		e.ifaceContracts[target] = c
		return nil
	}
	f := e.lookup(target)
	if f == nil {
		return fmt.Errorf("contract for %s: the function does not exist", target)
	}
	c.Body = f
	c.Target = f.Signature
	want := f.Params
	if f.Blocks == nil { // external: parameters from the signature
		want = nil
	} else {
		if len(want) != len(c.Fn.Params) {
			return fmt.Errorf("contract for %s: %d parameters instead of %d", target, len(c.Fn.Params), len(want))
		}
		for i := range want {
			if !types.Identical(want[i].Type(), c.Fn.Params[i].Type()) {
				return fmt.Errorf("contract for %s: parameter %d has type %s", target, i, want[i].Type())
			}
		}
	}
	if e.contracts[target] != nil {
		return fmt.Errorf("second contract for %s", target)
	}
	e.contracts[target] = c
	e.list = append(e.list, c)
	return nil
}

func (e *Engine) lookup(name string) *ssa.Function {
	if len(e.funcs) == 0 {
		for f := range ssautil.AllFunctions(e.prog) {
			if f.Synthetic == "" || e.funcs[f.String()] == nil {
				e.funcs[f.String()] = f
			}
		}
		// methods of all named types, used or not
		for _, p := range e.prog.AllPackages() {
			for _, m := range p.Members {
				switch t := m.(type) {
				case *ssa.Function:
					e.funcs[t.String()] = t
				case *ssa.Type:
					for _, ty := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
						ms := e.prog.MethodSets.MethodSet(ty)
						for i := 0; i < ms.Len(); i++ {
							fo, ok := ms.At(i).Obj().(*types.Func)
							if !ok {
								continue
							}
							if f := e.prog.FuncValue(fo); f != nil {
								e.funcs[f.String()] = f
							}
						}
					}
				}
			}
		}
	}
	return e.funcs[name]
}

// scanStores counts the writes to each package-level variable outside initialisation.
func (e *Engine) scanStores() {
	e.constMemo = map[*ssa.Global]*ssa.Const{}
	e.texts = map[*ssa.Global]string{}
	e.patterns, e.lists = map[*ssa.Global]string{}, map[*ssa.Global][]*ssa.Const{}
	for f := range ssautil.AllFunctions(e.prog) {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				for _, op := range ins.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					switch i := ins.(type) {
					case *ssa.UnOp, *ssa.DebugRef:
					case *ssa.Store:
						if i.Addr == g && f.Name() == "init" && f.Synthetic != "" {
							if c, ok := i.Val.(*ssa.Const); ok {
								e.constMemo[g] = c
								continue
							}
							e.initGlobal(i, g)
							continue
						}
						e.stored[g]++
					default:
						e.stored[g]++
					}
				}
			}
		}
	}
}

// constGlobal gives the value of a package-level variable that is only written by its initialiser.
func (e *Engine) constGlobal(x *Exec, st *State, g *ssa.Global) *Term {
	if e.stored[g] > 0 {
		return nil
	}
	t := g.Type().(*types.Pointer).Elem()
	if c := e.constMemo[g]; c != nil {
		return constTerm(c.Type(), c.Value)
	}
	if s, ok := e.texts[g]; ok {
		x.assumps["bytes of package-level constant texts are not written after initialisation"] = true
		return rawLit(mkStr(s))
	}
	if l := e.listGlobal(x, st, g); l != nil {
		return l
	}
	// set once at initialisation: a fixed value
	c := mkConst("global!"+sanitize(g.String()), sortOf(t))
	if c.bound[0] < 0 {
		c.bound = [2]int{0, 0}
	}
	if p, ok := e.patterns[g]; ok {
		patternOf[c] = p
	}
	return c
}

func (e *Engine) inlineable(pkg string, f *ssa.Function) bool {
	if strings.HasPrefix(pkg, modPath) {
		return true
	}
	for _, d := range depRoots {
		if pkg == d {
			return true
		}
	}
	return false
}
