package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const memExplanation = "static analysis: points-to analysis (field sensitive, context sensitive, to a fixpoint) of the SSA form of the current source, started from each operation with abstract objects for everything its arguments reach; the memory it may write and the memory its results may reach are compared with what existed before the call"

var memAssumptions = []string{
	"spaces, distributions, initializers and finishing conditions are those of the repository: calls through their interfaces go to every implementation of the library",
	"functions of other modules that are listed as pure only read their arguments; any other is taken to write and return everything they reach",
}

func init() {
	rulesByID["C05"] = &Rule{run: ruleC05, assumptions: append(memAssumptions, concAssumptions...), explanation: memExplanation + ": writes into published centroids and figures; store of both in one critical section"}
	rulesByID["C20"] = &Rule{run: ruleC20, assumptions: memAssumptions, explanation: memExplanation + ": writes into arguments, and sharing between results and arguments"}
}

// ---- the types of the library ----

// libTypes lists the named types declared by a package of the library, by name
func (p *Prog) libTypes(pkg string) []*types.Named {
	var r []*types.Named
	pk := p.byPkg[pkg]
	if pk == nil {
		return nil
	}
	var ns []string
	for n := range pk.Members {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	for _, n := range ns {
		if t, ok := pk.Members[n].(*ssa.Type); ok {
			if nt, ok := t.Type().(*types.Named); ok {
				r = append(r, nt)
			}
		}
	}
	return r
}

func (p *Prog) libPkgs() []string {
	var r []string
	for k := range p.byPkg {
		if !strings.HasPrefix(k, "internal") {
			r = append(r, k)
		}
	}
	sort.Strings(r)
	return r
}

// iface gives an interface type of the library
func (p *Prog) iface(name string) *types.Interface {
	t := p.Type(name)
	if t == nil {
		return nil
	}
	i, _ := t.Underlying().(*types.Interface)
	return i
}

// implementing lists the types of the library, or pointers to them, that implement an interface
func (p *Prog) implementing(name string) []types.Type {
	it := p.iface(name)
	var r []types.Type
	if it == nil {
		return nil
	}
	for _, k := range p.libPkgs() {
		for _, t := range p.libTypes(k) {
			if types.IsInterface(t) {
				continue
			}
			for _, x := range []types.Type{t, types.NewPointer(t)} {
				if types.Implements(x, it) {
					r = append(r, x)
					break
				}
			}
		}
	}
	return r
}

// methods lists the declared methods of a type, exported ones only if asked for
func (p *Prog) methods(t types.Type, onlyExported bool) []*ssa.Function {
	var r []*ssa.Function
	if _, ok := t.Underlying().(*types.Pointer); !ok {
		t = types.NewPointer(t)
	}
	ms := p.ssa.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		f := p.ssa.MethodValue(ms.At(i))
		if f == nil {
			continue
		}
		if o, ok := ms.At(i).Obj().(*types.Func); ok {
			if onlyExported && !o.Exported() {
				continue
			}
			if g := p.ssa.FuncValue(o); g != nil {
				f = g
			}
		}
		if len(f.Blocks) > 0 && p.lib(f) {
			r = append(r, f)
		}
	}
	return r
}

// exportedFns lists the exported functions of a package
func (p *Prog) exportedFns(pkg string) []*ssa.Function {
	var r []*ssa.Function
	pk := p.byPkg[pkg]
	if pk == nil {
		return nil
	}
	for _, m := range pk.Members {
		if f, ok := m.(*ssa.Function); ok && f.Object() != nil && f.Object().Exported() && len(f.Blocks) > 0 {
			r = append(r, f)
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].Name() < r[j].Name() })
	return r
}

// effects runs the points-to analysis of a function and reports what it could not follow
func (r *Report) effects(fn *ssa.Function) *Alias {
	a := r.p.aliasOf(fn)
	r.fn(fn)
	for u := range a.unknown {
		r.bad("undecided", short(fn.String()), r.p.pos(fn.Pos()), u)
	}
	r.paths += len(a.fns)
	r.states += len(a.objs)
	return a
}

// under tells whether an object is what a parameter is, or something reached from it
func under(name, param string) bool {
	if name == param {
		return true
	}
	return strings.HasPrefix(name, param) && len(name) > len(param) && (name[len(param)] == '.' || name[len(param)] == '[')
}

func recvName(fn *ssa.Function) string {
	if fn.Signature.Recv() == nil || len(fn.Params) == 0 {
		return ""
	}
	return fn.Params[0].Name()
}

// ---- C20 ----

func ruleC20(r *Report) {
	r.need("pure", 60)
	r.need("fresh", 8)
	elemPkgs := map[string]bool{}
	// spaces
	for _, t := range r.p.implementing("core.Space") {
		if n, ok := t.(*types.Named); ok {
			elemPkgs[strings.TrimPrefix(strings.TrimPrefix(n.Obj().Pkg().Path(), modPath), "/")] = true
		} else if pt, ok := t.(*types.Pointer); ok {
			elemPkgs[strings.TrimPrefix(strings.TrimPrefix(pt.Elem().(*types.Named).Obj().Pkg().Path(), modPath), "/")] = true
		}
		for _, f := range r.p.methods(t, true) {
			switch f.Name() {
			case "Copy", "Combine", "PointCopy", "PointCombine":
				r.fresh(f)
			}
		}
	}
	r.check(len(elemPkgs) >= 3, "anchor", "spaces", "", "fewer than three spaces")
	var pkgs []string
	for k := range elemPkgs {
		pkgs = append(pkgs, k)
	}
	sort.Strings(pkgs)
	done := map[*ssa.Function]bool{}
	pure := func(f *ssa.Function) {
		if !done[f] {
			done[f] = true
			r.pure(f)
		}
	}
	for _, k := range pkgs {
		for _, f := range r.p.exportedFns(k) {
			pure(f)
		}
		for _, t := range r.p.libTypes(k) {
			if !types.IsInterface(t) {
				for _, f := range r.p.methods(t, true) {
					pure(f)
				}
			}
		}
	}
	// clustering operations, initializers, strategies
	if t := r.p.Type("core.Clust"); t != nil {
		for _, f := range r.p.methods(t, true) {
			pure(f)
		}
	}
	for _, n := range []string{"core.DBA", "core.WeightedDBA", "kmeans.WeightedChoice", "kmeans.PPIter"} {
		if f := r.p.Func(n); f != nil {
			pure(f)
			if strings.HasSuffix(n, "DBA") {
				r.fresh(f)
			}
		} else {
			r.bad("anchor", n, "", "function not found")
		}
	}
	n := 0
	for _, f := range r.p.initializers() {
		pure(f)
		n++
	}
	r.check(n >= 3, "anchor", "initializers", "", "fewer than three initializers")
	for _, in := range []string{"kmeans.Strategy", "mcmc.Strategy", "mcmc.Distrib"} {
		ts := r.p.implementing(in)
		r.check(len(ts) > 0, "anchor", in, "", "no implementation")
		for _, t := range ts {
			for _, f := range r.p.methods(t, true) {
				pure(f)
			}
		}
	}
	for _, n := range []string{"mcmc.CenterStore.GetCenters", "mcmc.CenterStore.SetCenters"} {
		if f := r.p.Func(n); f != nil {
			pure(f)
		}
	}
	// implementations and controller: elements are never written
	for _, t := range append(r.p.implementing("core.Impl"), r.p.implementing("core.OCCtrl")...) {
		for _, f := range r.p.methods(t, true) {
			if done[f] {
				continue
			}
			done[f] = true
			a := r.effects(f)
			bad := false
			for _, w := range a.Writes() {
				if isElementData(w) {
					bad = true
					r.bad("elements", short(f.String())+"/"+fnShort(w.fn)+"/"+w.kind, w.pos, fmt.Sprintf("%s may modify an element it was given: %s of %s%s", short(f.String()), w.kind, w.l.o.name, w.l.path))
				}
			}
			if !bad {
				r.ok("elements", short(f.String()))
			}
		}
	}
	// what is built from data does not write into it
	for _, k := range r.p.libPkgs() {
		for _, f := range r.p.exportedFns(k) {
			for _, p := range f.Params {
				if s, ok := p.Type().Underlying().(*types.Slice); ok && !done[f] && typKey(s.Elem()) == modPath+"/core.Elemt" {
					done[f] = true
					r.pure(f)
				}
			}
		}
	}
}

func fnShort(f *ssa.Function) string { return short(f.String()) }

// initializers lists the functions that can be used as initializers
func (p *Prog) initializers() []*ssa.Function {
	t := p.Type("core.Initializer")
	if t == nil {
		return nil
	}
	sig, ok := t.Underlying().(*types.Signature)
	if !ok {
		return nil
	}
	var r []*ssa.Function
	for _, f := range p.funcs {
		if f.Signature.Recv() == nil && f.Parent() == nil && types.Identical(types.NewSignatureType(nil, nil, nil, f.Signature.Params(), f.Signature.Results(), false), types.NewSignatureType(nil, nil, nil, sig.Params(), sig.Results(), false)) {
			r = append(r, f)
		}
	}
	return r
}

// isElementData: a write into the coordinates of vectors or series given by the caller
func isElementData(w *awrite) bool {
	if strings.HasPrefix(w.kind, "map") || strings.HasPrefix(w.kind, "delete") {
		return false // elements are vectors and series, never maps
	}
	if !strings.HasSuffix(w.l.path, "[]") && w.l.path != "" || w.elem == nil {
		return strings.HasPrefix(w.kind, "call of")
	}
	switch u := w.elem.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsFloat != 0 && strings.HasSuffix(w.l.path, "[]")
	case *types.Slice:
		b, ok := u.Elem().Underlying().(*types.Basic)
		return ok && b.Info()&types.IsFloat != 0 && strings.HasSuffix(w.l.path, "[]")
	}
	return false
}

// pure: nothing the caller gave is written, but fields of the receiver itself
func (r *Report) pure(f *ssa.Function) {
	a := r.effects(f)
	bad := false
	recv := ""
	if f.Signature.Recv() != nil {
		if _, ok := f.Signature.Recv().Type().Underlying().(*types.Pointer); ok {
			recv = recvName(f)
		}
	}
	for _, w := range a.Writes() {
		// own state of the receiver: its fields, its maps, or those of a distribution it wraps
		if recv != "" && under(w.l.o.name, recv) && !isElementData(w) && !isElementSlice(w) {
			continue
		}
		if _, ok := typeOfObj(w.l.o).(*types.Named); ok && w.l.path != "" && strings.HasPrefix(w.l.path, ".") && isState(w.l.o, a) {
			continue
		}
		bad = true
		r.bad("pure", short(f.String())+"/"+fnShort(w.fn)+"/"+w.kind, w.pos, fmt.Sprintf("%s may modify its arguments: %s of %s%s", short(f.String()), w.kind, w.l.o.name, w.l.path))
	}
	if !bad {
		r.ok("pure", short(f.String()))
	}
}

func typeOfObj(o *aobj) types.Type { return o.typ }

// isState: the object is not data but a collaborator with a state of its own (a distribution, a configuration)
func isState(o *aobj, a *Alias) bool {
	n, ok := o.typ.(*types.Named)
	return ok && types.IsInterface(n) && n.Obj().Name() == "Distrib"
}

// isElementSlice: a write into a list of elements or of labels
func isElementSlice(w *awrite) bool {
	return w.elem != nil && strings.HasSuffix(w.l.path, "[]") && w.kind != "map update" && typKey(w.elem) == modPath+"/core.Elemt"
}

// fresh: the results reach nothing that existed before the call
func (r *Report) fresh(f *ssa.Function) {
	a := r.effects(f)
	bad := false
	for i := 0; i < f.Signature.Results().Len(); i++ {
		if isErrorType(f.Signature.Results().At(i).Type()) {
			continue
		}
		for _, l := range sortedLocs(a.reach(a.Results(f, i))) {
			if (l.o.arg || strings.HasPrefix(a.keyOf(l.o), "glob:")) && !bad {
				bad = true
				r.bad("fresh", short(f.String()), r.p.pos(f.Pos()), fmt.Sprintf("the result of %s may share memory with %s%s", short(f.String()), l.o.name, l.path))
			}
		}
	}
	if !bad {
		r.ok("fresh", short(f.String()))
	}
}

func (a *Alias) keyOf(o *aobj) string {
	for k, x := range a.objs {
		if x == o {
			return k
		}
	}
	return ""
}

// ---- C05 ----

func ruleC05(r *Report) {
	r.need("published", 3)
	r.need("accessor", 1)
	r.need("controller", 10)
	r.need("together", 1)
	// an accessor gives a copy of the figures, which are updated in place
	for _, t := range r.p.implementing("core.OCCtrl") {
		for _, f := range r.p.methods(t, true) {
			for i := 0; i < f.Signature.Results().Len(); i++ {
				if typKey(f.Signature.Results().At(i).Type()) != modPath+"/core.RuntimeFigures" {
					continue
				}
				a := r.effects(f)
				bad := ""
				for _, l := range sortedLocs(a.reach(a.Results(f, i))) {
					if l.o.arg {
						bad = l.o.name + l.path
					}
				}
				r.check(bad == "", "accessor", short(f.String()), r.p.pos(f.Pos()), "figures that are still updated are handed out: "+bad)
			}
		}
	}
	// implementations
	ts := r.p.implementing("core.Impl")
	for _, t := range ts {
		r.published(t)
	}
	// controller: what was published is not written
	ro := r.p.conc().roles
	if ro.cent == nil || ro.figures == nil || ro.run == nil {
		r.bad("anchor", "core.Algo", "", "the fields of the centroids and figures, or the run, are not found")
		return
	}
	var fns []*ssa.Function
	for _, t := range r.p.implementing("core.OCCtrl") {
		fns = append(fns, r.p.methods(t, false)...)
	}
	for _, f := range fns {
		a := r.effects(f)
		recv := recvName(f)
		bad := false
		for _, w := range a.Writes() {
			if under(w.l.o.name, recv+"."+ro.cent.Name()) {
				bad = true
				r.bad("controller", short(f.String())+"/"+fnShort(w.fn), w.pos, fmt.Sprintf("%s may write into published centroids: %s of %s%s", short(f.String()), w.kind, w.l.o.name, w.l.path))
			}
		}
		if !bad {
			r.ok("controller", short(f.String()))
		}
	}
	// centroids and figures are replaced in one critical section
	r.roots([]*Root{ro.run})
	for _, st := range ro.run.ends() {
		evs := st.trace.Events()
		for i, ev := range evs {
			if ev.Kind != "store" || ev.Field != ro.cent && ev.Field != ro.figures {
				continue
			}
			other, name := ro.figures, "figures"
			if ev.Field == ro.figures {
				other, name = ro.cent, "centroids"
			}
			ok := false
			for j, e2 := range evs {
				if j != i && e2.Kind == "store" && e2.Field == other && sameSection(ev, e2) {
					ok = true
				}
			}
			r.check(ok, "together", ev.Field.Name()+" in "+fnName(ev), r.p.pos(ev.Pos), "the "+name+" of the iteration are not replaced in the same critical section")
		}
	}
}

// sameSection tells whether two events happen while one lock is held without interruption for writing
func sameSection(a, b *Event) bool {
	for _, x := range a.Held {
		for _, y := range b.Held {
			if x.Addr == y.Addr && x.Epoch == y.Epoch && x.Pos == y.Pos && !x.Read && !y.Read {
				return true
			}
		}
	}
	return false
}

// published checks that an implementation never writes into the centroids it gave to the controller
func (r *Report) published(t types.Type) {
	fns := r.p.methods(t, true)
	name := short(types.TypeString(t, nil))
	var init, iter *ssa.Function
	for _, f := range fns {
		switch f.Name() {
		case "Init":
			init = f
		case "Iterate":
			iter = f
		}
	}
	if init == nil || iter == nil {
		r.bad("anchor", name, "", "Init or Iterate not found")
		return
	}
	// names are relative to the receiver
	rel := func(f *ssa.Function, o *aobj) string {
		if rn := recvName(f); under(o.name, rn) {
			return "recv" + strings.TrimPrefix(o.name, rn)
		}
		return o.name
	}
	pub := map[string]bool{}
	edges := map[string]map[string]bool{}
	link := func(x, y string) {
		for _, p := range [][2]string{{x, y}, {y, x}} {
			if edges[p[0]] == nil {
				edges[p[0]] = map[string]bool{}
			}
			edges[p[0]][p[1]] = true
		}
	}
	for _, f := range fns {
		a := r.effects(f)
		reached := locset{}
		if f == init || f == iter {
			reached = a.reach(a.Results(f, 0))
		}
		for l := range reached {
			if l.o.arg {
				pub[rel(f, l.o)] = true
			}
		}
		for k, s := range a.slots {
			if !k.o.arg || !under(k.o.name, recvName(f)) {
				continue
			}
			child := rel(f, k.o) + k.path
			for l := range s {
				// retained objects that are published, and paths that lead to one object
				if _, ok := reached[aloc{l.o, l.path}]; ok && !l.o.arg {
					pub[child] = true
				}
				if l.o.arg && rel(f, l.o) != child {
					link(child, rel(f, l.o))
				}
			}
		}
	}
	// the same object under several names
	for changed := true; changed; {
		changed = false
		for x, ys := range edges {
			if !pub[x] {
				continue
			}
			for y := range ys {
				if !pub[y] {
					pub[y] = true
					changed = true
				}
			}
		}
	}
	for _, f := range fns {
		bad := false
		for _, w := range r.effects(f).Writes() {
			n := rel(f, w.l.o)
			if pub[n] && strings.HasSuffix(w.l.path, "]") {
				bad = true
				r.bad("published", short(f.String())+"/"+fnShort(w.fn), w.pos, fmt.Sprintf("%s may write into centroids that were published: %s of %s%s", short(f.String()), w.kind, w.l.o.name, w.l.path))
			}
		}
		if !bad {
			r.ok("published", short(f.String()))
		}
	}
}

func isErrorType(t types.Type) bool { return types.Identical(t, types.Universe.Lookup("error").Type()) }
