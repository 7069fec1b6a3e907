package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/wearelumenai/distclus"

// Prog is the resolved program under analysis.
type Prog struct {
	pkgs  []*packages.Package
	ssa   *ssa.Program
	byPkg map[string]*ssa.Package
	li    map[*ssa.Function]map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
	fset  *token.FileSet
	funcs []*ssa.Function
	al    map[*ssa.Function]*Alias
	li0   *Conc
	root  string
	files int

	storedFields map[*types.Var]bool
}

func loadProg(root string) (*Prog, error) {
	env := []string{}
	for _, kv := range os.Environ() {
		if !strings.HasPrefix(kv, "GOFLAGS=") {
			env = append(env, kv)
		}
	}
	env = append(env, "GOFLAGS=-mod=readonly", "GOWORK=off")
	cfg := &packages.Config{Dir: root, Mode: packages.LoadSyntax | packages.NeedModule, Env: env}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	if len(pkgs) == 0 {
		return nil, fmt.Errorf("no package loaded from %s", root)
	}
	p := &Prog{pkgs: pkgs, byPkg: map[string]*ssa.Package{}, li: map[*ssa.Function]map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}, root: root}
	for _, pk := range pkgs {
		for _, e := range pk.Errors {
			return nil, fmt.Errorf("%s: %v", pk.PkgPath, e)
		}
		p.files += len(pk.Syntax)
	}
	prog, sp := ssautil.Packages(pkgs, ssa.BuilderMode(0))
	prog.Build()
	p.ssa = prog
	p.fset = prog.Fset
	for i, s := range sp {
		if s == nil {
			return nil, fmt.Errorf("no SSA for %s", pkgs[i].PkgPath)
		}
		p.byPkg[strings.TrimPrefix(strings.TrimPrefix(pkgs[i].PkgPath, modPath), "/")] = s
	}
	seen := map[*ssa.Function]bool{}
	for f := range ssautil.AllFunctions(prog) {
		if f.Pkg != nil && p.lib(f) && !seen[f] && len(f.Blocks) > 0 {
			seen[f] = true
			p.funcs = append(p.funcs, f)
		}
	}
	sort.Slice(p.funcs, func(i, j int) bool {
		a, b := p.funcs[i], p.funcs[j]
		if a.String() != b.String() {
			return a.String() < b.String()
		}
		return a.Pos() < b.Pos()
	})
	return p, nil
}

func (p *Prog) inModule(f *ssa.Function) bool {
	for g := f; g != nil; g = g.Parent() {
		if g.Pkg != nil {
			return strings.HasPrefix(g.Pkg.Pkg.Path(), modPath)
		}
		if g.Object() != nil && g.Object().Pkg() != nil {
			return strings.HasPrefix(g.Object().Pkg().Path(), modPath)
		}
	}
	return f.Synthetic != "" // wrappers
}

// lib: library code, the shared test helpers excluded
func (p *Prog) lib(f *ssa.Function) bool {
	for g := f; g != nil; g = g.Parent() {
		if g.Pkg != nil {
			path := g.Pkg.Pkg.Path()
			return strings.HasPrefix(path, modPath) && !strings.Contains(path, "/internal/")
		}
	}
	return false
}

func (p *Prog) methodOf(t types.Type, m *types.Func) *ssa.Function {
	ms := p.ssa.MethodSets.MethodSet(t)
	sel := ms.Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	return p.ssa.MethodValue(sel)
}

// Func finds a function: "core.Par", "core.Algo.Play" (pointer or value receiver)
func (p *Prog) Func(name string) *ssa.Function {
	parts := strings.Split(name, ".")
	pk := p.byPkg[parts[0]]
	if pk == nil {
		return nil
	}
	if len(parts) == 2 {
		return pk.Func(parts[1])
	}
	tn, ok := pk.Members[parts[1]].(*ssa.Type)
	if !ok {
		return nil
	}
	for _, t := range []types.Type{tn.Type(), types.NewPointer(tn.Type())} {
		ms := p.ssa.MethodSets.MethodSet(t)
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() == parts[2] {
				f := p.ssa.MethodValue(ms.At(i))
				// declared method rather than its wrapper
				if f != nil && f.Synthetic == "" {
					return f
				}
				if f != nil && t == tn.Type() {
					continue
				}
				if f != nil {
					return f
				}
			}
		}
	}
	return nil
}

func (p *Prog) Type(name string) types.Type {
	parts := strings.Split(name, ".")
	pk := p.byPkg[parts[0]]
	if pk == nil {
		return nil
	}
	if tn, ok := pk.Members[parts[1]].(*ssa.Type); ok {
		return tn.Type()
	}
	return nil
}

func (p *Prog) Global(name string) *ssa.Global {
	parts := strings.Split(name, ".")
	pk := p.byPkg[parts[0]]
	if pk == nil {
		return nil
	}
	g, _ := pk.Members[parts[1]].(*ssa.Global)
	return g
}

// ConstVal gives the value of a package constant
func (p *Prog) ConstVal(name string) *Term {
	parts := strings.Split(name, ".")
	pk := p.byPkg[parts[0]]
	if pk == nil {
		return nil
	}
	if c, ok := pk.Members[parts[1]].(*ssa.NamedConst); ok {
		return constTerm(c.Value)
	}
	return nil
}

func (p *Prog) pos(x token.Pos) string {
	if !x.IsValid() {
		return "?"
	}
	ps := p.fset.Position(x)
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(ps.Filename, p.root+"/"), ps.Line)
}

func headerPos(b *ssa.BasicBlock) token.Pos {
	if b == nil {
		return token.NoPos
	}
	for _, in := range b.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	return b.Parent().Pos()
}

// loops gives natural loops: header -> body
func (p *Prog) loops(f *ssa.Function) map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool {
	if r, ok := p.li[f]; ok {
		return r
	}
	r := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	for _, b := range f.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				body := r[s]
				if body == nil {
					body = map[*ssa.BasicBlock]bool{s: true}
					r[s] = body
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if body[x] {
						continue
					}
					body[x] = true
					work = append(work, x.Preds...)
				}
			}
		}
	}
	p.li[f] = r
	return r
}

// errorGlobals: package variables initialised once with a new error and never assigned again
func (p *Prog) errorGlobals() map[*ssa.Global]bool {
	r := map[*ssa.Global]bool{}
	bad := map[*ssa.Global]bool{}
	for f := range ssautil.AllFunctions(p.ssa) {
		if !p.inModule(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				g, ok := st.Addr.(*ssa.Global)
				if !ok {
					continue
				}
				c, isCall := st.Val.(*ssa.Call)
				if f.Name() == "init" && isCall && c.Call.StaticCallee() != nil && strings.HasSuffix(c.Call.StaticCallee().String(), "errors.New") {
					if r[g] {
						bad[g] = true
					}
					r[g] = true
				} else {
					bad[g] = true
				}
			}
		}
	}
	for g := range bad {
		delete(r, g)
	}
	return r
}

// monitored types: structs that hold a mutex; mutable: fields stored outside of constructors
func (p *Prog) monitored() (map[string]bool, map[*types.Var]bool) {
	mon := map[string]bool{}
	for _, pk := range p.byPkg {
		for _, m := range pk.Members {
			t, ok := m.(*ssa.Type)
			if !ok {
				continue
			}
			s, ok := t.Type().Underlying().(*types.Struct)
			if !ok {
				continue
			}
			for _, x := range flatFields(s) {
				switch typKey(x.Type()) {
				case "sync.Mutex", "sync.RWMutex", "*sync.Mutex", "*sync.RWMutex":
					mon[typKey(t.Type())] = true
				}
			}
		}
	}
	mut := map[*types.Var]bool{}
	for f := range ssautil.AllFunctions(p.ssa) {
		if !p.inModule(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				var a ssa.Value = st.Addr
				var chain []*ssa.FieldAddr
				for {
					fa, ok := a.(*ssa.FieldAddr)
					if !ok {
						break
					}
					chain = append([]*ssa.FieldAddr{fa}, chain...)
					a = fa.X
				}
				if len(chain) == 0 {
					// the fields of a group, stored together through a pointer
					if t := st.Val.Type(); grouping(t) {
						for _, v := range flatFields(structOf(t)) {
							mut[v] = true
						}
					}
					continue
				}
				if _, fresh := a.(*ssa.Alloc); fresh {
					continue
				}
				varOf := func(fa *ssa.FieldAddr) *types.Var { return structOf(fa.X.Type()).Field(fa.Field) }
				for len(chain) > 1 && grouping(varOf(chain[0]).Type()) {
					chain = chain[1:]
				}
				v := varOf(chain[0])
				mut[v] = true
				if grouping(v.Type()) {
					for _, v := range flatFields(structOf(v.Type())) {
						mut[v] = true
					}
				}
			}
		}
	}
	return mon, mut
}

func (p *Prog) NewExec(opts Options) *Exec {
	e := &Exec{P: p, opts: opts}
	e.mon, e.mutable = p.monitoredCached()
	e.errGlobals = p.errGlobalsCached()
	return e
}

var monC map[string]bool
var mutC map[*types.Var]bool
var egC map[*ssa.Global]bool

func (p *Prog) monitoredCached() (map[string]bool, map[*types.Var]bool) {
	if monC == nil {
		monC, mutC = p.monitored()
	}
	return monC, mutC
}
func (p *Prog) errGlobalsCached() map[*ssa.Global]bool {
	if egC == nil {
		egC = p.errorGlobals()
	}
	return egC
}

// params makes symbolic arguments
func params(fn *ssa.Function) []*Term {
	var r []*Term
	for _, p := range fn.Params {
		r = append(r, U.mk("param", p.Name(), nil, p.Type()))
	}
	return r
}
