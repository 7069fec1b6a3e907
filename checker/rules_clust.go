package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const seqExplanation = "static analysis: the functions are interpreted abstractly on the SSA form of the current source, for symbolic arguments of any value and length (loops are summarised by closed forms or by their arbitrary iteration, callees of the module are inlined); the results, as terms over the arguments, are compared with the terms the property prescribes"

var seqAssumptions = []string{
	"the Go runtime and the gonum and rand packages behave as documented",
	"floating point rounding is ignored: expressions are compared over the reals",
	"spaces are deterministic: two calls of Dist with the same arguments return the same value",
	"slices given as different arguments do not overlap",
}

func init() {
	rulesByID["C15"] = &Rule{run: ruleC15, assumptions: seqAssumptions, explanation: seqExplanation + ": label, centroid and distance of the least distance"}
	rulesByID["C16"] = &Rule{run: ruleC16, assumptions: seqAssumptions, explanation: seqExplanation + ": arbitrary iteration of the accumulation loops"}
	rulesByID["C17"] = &Rule{run: ruleC17, assumptions: seqAssumptions, explanation: seqExplanation + ": arbitrary iteration of the accumulation loops"}
	rulesByID["C18"] = &Rule{run: ruleC18, assumptions: seqAssumptions, explanation: seqExplanation + ": arbitrary iteration of the partition loop, synchronization on every path, footprint of the workers"}
	rulesByID["C19"] = &Rule{run: ruleC19, assumptions: seqAssumptions, explanation: seqExplanation + ": partial and merged reductions of the parallel operations, k-means step"}
}

// symRun is the analysis of one function for symbolic arguments
type symRun struct {
	r     *Report
	name  string
	fn    *ssa.Function
	a     []*Term
	e     *Exec
	paths []*Path
}

// sym analyses a function for symbolic arguments
func (r *Report) sym(name string, opt Options) *symRun {
	fn := r.p.Func(name)
	if fn == nil || len(fn.Blocks) == 0 {
		r.bad("anchor", name, "", "function not found")
		return nil
	}
	return r.symFn(name, fn, opt, nil)
}

// symIf analyses a function for the symbolic arguments that satisfy some facts
func (r *Report) symIf(name string, opt Options, facts func(a []*Term) []*Term) *symRun {
	fn := r.p.Func(name)
	if fn == nil || len(fn.Blocks) == 0 {
		r.bad("anchor", name, "", "function not found")
		return nil
	}
	return r.symFn(name, fn, opt, func(st *State) {
		for _, l := range facts(params(fn)) {
			st.facts = st.facts.Add(l)
		}
	})
}

func (r *Report) symFn(name string, fn *ssa.Function, opt Options, init func(*State)) *symRun {
	s := &symRun{r: r, name: name, fn: fn, a: params(fn), e: r.p.NewExec(opt)}
	s.paths = s.e.Run(fn, s.a, nil, init)
	r.fn(fn)
	r.saw(s.e)
	for _, u := range s.e.undecided {
		r.bad("undecided", name, r.p.pos(fn.Pos()), u)
	}
	n := 0
	for _, pa := range s.paths {
		if pa.Kind == "return" {
			n++
		}
	}
	if n == 0 {
		r.bad("undecided", name, r.p.pos(fn.Pos()), "no path returns")
	}
	return s
}

// returns gives the paths that return
func (s *symRun) returns() []*Path {
	var r []*Path
	if s == nil {
		return nil
	}
	for _, pa := range s.paths {
		if pa.Kind == "return" {
			r = append(r, pa)
		}
	}
	return r
}

func (s *symRun) pos() string { return s.r.p.pos(s.fn.Pos()) }

// at is the element of a slice, as found at the beginning
func at(sl, i *Term) *Term {
	root, off := sliceRoot(sl)
	var et types.Type
	if sl.Typ != nil {
		et = elemTypeOf(sl.Typ)
	}
	return mkElem(root, Add(off, i), "", et)
}

func loadOf(addr *Term) *Term { return U.mk("load", "", nil, elemTypeOf(addr.Typ), addr) }

// isCall matches a call of an interface method
func isCall(t *Term, name string) ([]*Term, bool) {
	if t != nil && t.Op == "call" && t.Aux == name {
		return t.Args, true
	}
	return nil, false
}

// isDist matches the distance between two elements, in any order
func isDist(t, space, a, b *Term) bool {
	x, ok := isCall(t, "Space.Dist")
	return ok && x[0] == space && ((x[1] == a && x[2] == b) || (x[1] == b && x[2] == a))
}

var probe = U.mk("probe", "k", nil, types.Typ[types.Int])

// nearestOf matches the label (argmin) or distance (minof) of the nearest centroid of an element
func nearestOf(t *Term, op string, e, space, clust *Term, f *Facts) bool {
	if t == nil || t.Op != op || t.Args[1] != mkLen(clust) {
		return false
	}
	if op == "argmin" && t.Aux != "-1" && !f.Entails(Lt(Num(0), mkLen(clust))) {
		return false
	}
	return isDist(apply(t.Args[0], probe), space, e, at(clust, probe))
}

// content gives the elements of a slice allocated by the analysed function, as a function of the index
func content(st *State, sl, n *Term) func(*Term) *Term { return contentPath(st, sl, n, "") }

func contentPath(st *State, sl, n *Term, path string) func(*Term) *Term {
	root, off := sliceRoot(sl)
	var found []layer
	for k, ls := range st.regs {
		if k.Op == "region" && k.Args[0] == root && k.Aux == path {
			found = ls
		}
	}
	if root.Op == "appendslice" && len(found) == 0 && path == "" && st.facts.Entails(Eq(mkLen(root.Args[0]), Num(0))) {
		if x := root.Args[1]; len(regionsOf(st, x)) == 0 {
			return func(i *Term) *Term { return at(x, Add(off, i)) }
		} else {
			return contentPath(st, x, n, path)
		}
	}
	if root.Op != "makeslice" || !off.IsInt(0) {
		return nil
	}
	if len(found) == 0 {
		z := elemTypeOf(root.Typ)
		return func(i *Term) *Term { return zeroOf(z) }
	}
	l := found[len(found)-1] // hides the layers below, covering all
	if l.kind != "range" {
		return nil
	}
	if !same(st.facts, l.a, Num(0)) || !same(st.facts, l.b, n) {
		return nil
	}
	return func(i *Term) *Term { return apply(l.val, i) }
}

// same tells whether two numbers are known to be equal
func same(f *Facts, a, b *Term) bool {
	return a == b || EqReal(a, b) || f.Entails(Eq(a, b))
}

func regionsOf(st *State, root *Term) []layer {
	var r []layer
	for k, ls := range st.regs {
		if k.Op == "region" && k.Args[0] == root {
			r = append(r, ls...)
		}
	}
	return r
}

// ---- C15 ----

func ruleC15(r *Report) {
	r.need("nearest", 9)
	// core.Clust.Assign(elemt, space)
	some := func(a []*Term) []*Term { return []*Term{Lt(Num(0), mkLen(loadOf(a[0])))} }
	none := func(a []*Term) []*Term { return []*Term{Eq(mkLen(loadOf(a[0])), Num(0))} }
	cases := []func(a []*Term) []*Term{some, none}
	for _, c := range cases {
		if s := r.symIf("core.Clust.Assign", Options{}, c); s != nil {
			r.assign(s, s.a[1], s.a[2], func(*Path) *Term { return loadOf(s.a[0]) })
		}
	}
	if s := r.sym("core.Algo.Predict", Options{}); s != nil {
		space := loadOf(r.fieldAddr(s.a[0], "space"))
		r.assign(s, s.a[1], space, func(pa *Path) *Term {
			// the centroids are read once
			var c *Term
			for _, ev := range pa.St.trace.Events() {
				if ev.Kind == "load" && ev.Name == "centroids" {
					if c != nil && c != ev.Res {
						return nil
					}
					c = ev.Res
				}
			}
			return c
		})
	}
	for _, n := range []string{"core.Clust.MapLabel", "core.Clust.ParMapLabel"} {
		for _, c := range cases {
			s := r.symIf(n, Options{}, func(a []*Term) []*Term {
				l := c(a)
				if len(a) > 3 {
					l = append(l, Le(Num(1), a[3]))
				}
				return l
			})
			if s == nil {
				continue
			}
			clust, elemts, space := loadOf(s.a[0]), s.a[1], s.a[2]
			for _, pa := range s.returns() {
				f := pa.St.facts
				for i, x := range pa.Res {
					op := []string{"argmin", "minof"}[i]
					what := []string{"labels", "distances"}[i]
					r.check(same(f, mkLen(x), mkLen(elemts)), "length", n+"/"+what, s.pos(), "there is not one result for each element")
					empty := f.Entails(Eq(mkLen(clust), Num(0)))
					if f.Entails(Eq(mkLen(elemts), Num(0))) || empty && i == 1 {
						continue
					}
					c := content(pa.St, x, mkLen(elemts))
					if c == nil {
						r.bad("nearest", n+"/"+what, s.pos(), "the results are not those of the nearest centroid at every position: "+layersString(pa.St, x))
						continue
					}
					v := c(probe)
					r.check(nearestOf(v, op, at(elemts, probe), space, clust, f) || empty && f.Entails(Eq(v, Num(-1))), "nearest", n+"/"+what, s.pos(), "the result at a position is not that of the nearest centroid of the element at this position: "+clip(v.String(), 200))
				}
			}
		}
	}
}

func layersString(st *State, x *Term) string {
	root, _ := sliceRoot(x)
	s := clip(x.String(), 60)
	for _, l := range regionsOf(st, root) {
		s += " " + l.kind
		for _, t := range []*Term{l.a, l.b, l.val} {
			if t != nil {
				s += " " + clip(t.String(), 120)
			}
		}
	}
	return s
}

func (r *Report) fieldAddr(ptr *Term, name string) *Term {
	st := structOf(elemTypeOf(ptr.Typ))
	for i := 0; st != nil && i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return mkFieldAddr(ptr, ptr.Typ, i)
		}
	}
	for i := 0; st != nil && i < st.NumFields(); i++ {
		if grouping(st.Field(i).Type()) {
			if a := r.fieldAddr(mkFieldAddr(ptr, ptr.Typ, i), name); a.Op != "missing" {
				return a
			}
		}
	}
	// a role found by its type
	return U.mk("missing", name, nil, nil)
}

func (r *Report) assign(s *symRun, elemt, space *Term, clustOf func(*Path) *Term) {
	for _, pa := range s.returns() {
		clust := clustOf(pa)
		if clust == nil {
			r.bad("nearest", s.name, s.pos(), "the centroids are read more than once")
			continue
		}
		f := pa.St.facts
		c, label, dist := pa.Res[0], pa.Res[1], pa.Res[2]
		none := f.Entails(Lt(label, Num(0))) || f.Entails(Eq(mkLen(clust), Num(0)))
		if f.Entails(Eq(mkLen(clust), Num(0))) {
			r.check(f.Entails(Eq(label, Num(-1))) || nearestOf(label, "argmin", elemt, space, clust, f), "nearest", s.name+"/label", s.pos(), "without centroids the label is not -1")
		} else {
			r.check(nearestOf(label, "argmin", elemt, space, clust, f), "nearest", s.name+"/label", s.pos(), "the label is not that of the nearest centroid: "+clip(label.String(), 200))
			r.check(none || nearestOf(dist, "minof", elemt, space, clust, f) || isDist(dist, space, elemt, at(clust, label)), "nearest", s.name+"/distance", s.pos(), "the distance is not that of the nearest centroid: "+clip(dist.String(), 200))
		}
		switch {
		case none:
			r.check(c == Nil, "nearest", s.name+"/none", s.pos(), "a centroid is returned though there is none: "+clip(c.String(), 200))
		case f.Entails(Le(Num(0), label)):
			r.check(c == at(clust, label), "nearest", s.name+"/centroid", s.pos(), "the centroid is not that of the label: "+clip(c.String(), 200))
		default:
			r.bad("nearest", s.name+"/centroid", s.pos(), "the centroid is not chosen by the label: "+clip(c.String(), 200))
		}
	}
}

// ---- accumulation loops ----

// redSpec is what an accumulation loop must compute
type redSpec struct {
	name  string
	clust *Term
	n     *Term               // number of elements
	elem  func(k *Term) *Term // element of an iteration
	label func(k, t *Term, f *Facts) bool
	loss  func(k, d *Term, f *Facts) bool // distance of an iteration; nil for means
	norm  *Term
	space *Term
}

// accumulation checks that the loop that fills sums and cards computes the reduction. st is the state after it.
func (r *Report) accumulation(rule string, e *Exec, st *State, sums, cards *Term, sp *redSpec, skip ...*LoopInst) bool {
	fn := sp.name
	fail := func(what, msg string) bool {
		r.bad(rule, fn+"/"+what, r.p.pos(r.p.anyPos(fn)), msg)
		return false
	}
	var L *LoopInst
	for _, in := range e.insts {
		if in.Par || len(skip) > 0 && in == skip[0] {
			continue
		}
		if in.Regs[regionTerm(sums)] || in.Regs[regionTerm(cards)] {
			if L != nil && L != in {
				return fail("loop", "the results are written by more than one loop")
			}
			L = in
		}
	}
	if L == nil {
		return fail("loop", "no loop accumulates the results: "+layersString(st, sums))
	}
	for _, x := range []*Term{sums, cards} {
		if x.Op != "makeslice" || !same(L.Entry.facts, mkLen(x), mkLen(sp.clust)) {
			return fail("fresh", "the results are not new slices with one entry for each centroid: "+clip(x.String(), 200))
		}
		if len(regionsOf(L.Entry, x)) > 0 {
			return fail("zero", "the accumulation does not start from zero: "+layersString(L.Entry, x))
		}
		ls := regionsOf(st, x)
		if len(ls) != 1 || ls[0].kind != "havoc" || ls[0].ver != L.ID {
			return fail("after", "the results are changed after their accumulation: "+layersString(st, x))
		}
	}
	if L.N == nil || !same(L.Entry.facts, L.N, sp.n) {
		return fail("count", fmt.Sprintf("the accumulation does not visit every element once: %v iterations for %v elements", L.N, sp.n))
	}
	for _, x := range L.Exits {
		if !exhausted(x, L) {
			return fail("count", "the accumulation may end before the last element")
		}
	}
	for _, b := range L.Backs {
		f := b.St.facts
		ps, ok1 := points(b.St, sums, L)
		pc, ok2 := points(b.St, cards, L)
		if !ok1 || !ok2 || len(ps) != 1 || len(pc) != 1 {
			return fail("step", "an element does not contribute exactly once to its cluster: "+layersString(b.St, sums)+" / "+layersString(b.St, cards))
		}
		s, c := ps[0], pc[0]
		if !same(f, s.a, c.a) || !sp.label(L.K, s.a, f) && !sp.label(L.K, c.a, f) {
			return fail("cluster", "an element does not contribute to its own cluster: "+clip(s.a.String(), 200)+" / "+clip(c.a.String(), 200))
		}
		cur := mkElem(cards, c.a, L.ID, nil)
		old := mkElem(sums, s.a, L.ID, nil)
		f = f.Add(Le(Num(0), cur)) // by induction: cardinalities start from zero and grow by one
		if !same(f, c.val, AddN(cur, 1)) {
			return fail("cardinality", "the cardinality does not grow by one for each member: "+clip(c.val.String(), 200))
		}
		if sp.loss != nil {
			d := Sub(s.val, old)
			if d.Op != "pow" || d.Args[1] != sp.norm || !sp.loss(L.K, d.Args[0], f) {
				return fail("loss", "the loss does not grow by the distance of the member raised to the norm: "+clip(d.String(), 300))
			}
			continue
		}
		el := sp.elem(L.K)
		first := f.Entails(Eq(cur, Num(0))) || f.Entails(Eq(old, Nil))
		x, isCopy := isCall(s.val, "Space.Copy")
		y, isComb := isCall(s.val, "Space.Combine")
		switch {
		case isCopy:
			if !first || x[0] != sp.space || x[1] != el {
				return fail("first", "the average is replaced by a copy though it has members, or is not the copy of the member: "+clip(s.val.String(), 300))
			}
		case isComb:
			if first {
				return fail("first", "the first member of a cluster is not copied")
			}
			if !f.Entails(Lt(Num(0), cur)) && !f.Entails(Not(Eq(cur, Num(0)))) && !f.Entails(Not(Eq(old, Nil))) {
				return fail("first", "the first member of a cluster is not distinguished from the others")
			}
			if y[0] != sp.space || !combines(f, y[1:], old, cur, el, Num(1)) {
				return fail("average", "the average is not combined with the member, weighted by the cardinality and one: "+clip(s.val.String(), 300))
			}
		default:
			return fail("average", "the average is not a copy nor a combination: "+clip(s.val.String(), 300))
		}
	}
	r.ok(rule, fn)
	r.loops++
	return true
}

func combines(f *Facts, y []*Term, a, wa, b, wb *Term) bool {
	return y[0] == a && same(f, y[1], wa) && y[2] == b && same(f, y[3], wb) ||
		y[0] == b && same(f, y[1], wb) && y[2] == a && same(f, y[3], wa)
}

// anyPos is the position of a function given by name
func (p *Prog) anyPos(name string) token.Pos {
	if f := p.Func(name); f != nil {
		return f.Pos()
	}
	return 0
}

func regionTerm(root *Term) *Term {
	var typ types.Type
	if root.Typ != nil {
		typ = elemTypeOf(root.Typ)
	}
	return U.mk("region", "", nil, typ, root)
}

// exhausted tells that an exit of a loop is taken at its last iteration
func exhausted(st *State, L *LoopInst) bool {
	evs := st.trace.Events()
	for i := len(evs) - 1; i >= 0; i-- {
		if evs[i].Kind == "loopexit" && evs[i].Inst == L {
			return evs[i].Name == "exhausted"
		}
	}
	// the exits of the instance precede the event
	return L.N != nil && len(L.Exits) == 1
}

// points gives the cells of a slice written by an iteration, over the slice left by the previous ones
func points(st *State, root *Term, L *LoopInst) ([]layer, bool) {
	ls := regionsOf(st, root)
	for len(ls) > 1 && ls[0].kind == "havoc" && ls[0].ver != L.ID {
		ls = ls[1:] // what was left by the enclosing loops
	}
	if len(ls) == 0 || ls[0].kind != "havoc" || ls[0].ver != L.ID {
		return nil, false
	}
	for _, l := range ls[1:] {
		if l.kind != "point" {
			return nil, false
		}
	}
	return ls[1:], true
}

func elemSpec(elemts, start *Term) func(k *Term) *Term {
	return func(k *Term) *Term { return at(elemts, Add(start, k)) }
}

// reductionSpecs gives the reductions of the elements from start on
func reductionSpec(name string, clust, elemts, labels, space, norm, start, n *Term) *redSpec {
	sp := &redSpec{name: name, clust: clust, n: n, space: space, norm: norm, elem: elemSpec(elemts, start)}
	if labels != nil {
		sp.label = func(k, t *Term, f *Facts) bool { return t == at(labels, Add(start, k)) }
	} else {
		sp.label = func(k, t *Term, f *Facts) bool { return nearestOf(t, "argmin", sp.elem(k), space, clust, f) }
	}
	if norm != nil {
		sp.loss = func(k, d *Term, f *Facts) bool {
			if labels != nil {
				return isDist(d, space, sp.elem(k), at(clust, at(labels, Add(start, k))))
			}
			if nearestOf(d, "minof", sp.elem(k), space, clust, f) {
				return true
			}
			x, ok := isCall(d, "Space.Dist")
			if !ok || x[0] != space {
				return false
			}
			for _, i := range []int{1, 2} {
				if x[i] == sp.elem(k) {
					o := x[3-i]
					if o.Op == "elem" && len(o.Args) == 2 && at(clust, o.Args[1]) == o && nearestOf(o.Args[1], "argmin", sp.elem(k), space, clust, f) {
						return true
					}
				}
			}
			return false
		}
	}
	return sp
}

// reductionFn describes the signature of a reduction
type reductionFn struct {
	name   string
	labels bool
	loss   bool
	par    bool
}

var reductionFns = []reductionFn{
	{"core.Clust.ReduceDBA", false, false, false},
	{"core.Clust.ReduceDBAForLabels", true, false, false},
	{"core.Clust.ReduceLoss", false, true, false},
	{"core.Clust.ReduceLossForLabels", true, true, false},
	{"core.Clust.ParReduceDBA", false, false, true},
	{"core.Clust.ParReduceDBAForLabels", true, false, true},
	{"core.Clust.ParReduceLoss", false, true, true},
	{"core.Clust.ParReduceLossForLabels", true, true, true},
}

type redArgs struct{ clust, elemts, labels, space, norm, degree *Term }

// given are the cases of interest: there are clusters, and workers
func (d reductionFn) given(a []*Term) []*Term {
	x := d.args(a)
	l := []*Term{Lt(Num(0), mkLen(x.clust))}
	if x.degree != nil {
		l = append(l, Le(Num(1), x.degree))
	}
	return l
}

func (d reductionFn) args(a []*Term) redArgs {
	x := redArgs{clust: loadOf(a[0]), elemts: a[1]}
	i := 2
	if d.labels {
		x.labels = a[i]
		i++
	}
	x.space = a[i]
	i++
	if d.loss {
		x.norm = a[i]
		i++
	}
	if d.par {
		x.degree = a[i]
	}
	return x
}

func (r *Report) sequential(loss bool) {
	for _, d := range reductionFns {
		if d.par || d.loss != loss {
			continue
		}
		s := r.symIf(d.name, Options{}, d.given)
		if s == nil {
			continue
		}
		a := d.args(s.a)
		for _, pa := range s.returns() {
			r.accumulation("reduction", s.e, pa.St, pa.Res[0], pa.Res[1], reductionSpec(d.name, a.clust, a.elemts, a.labels, a.space, a.norm, Num(0), mkLen(a.elemts)))
		}
	}
}

// parallel checks the partial reductions (rule partial) and their merge (rule merge) of a parallel reduction
func (r *Report) parallel(loss, partial, merge bool) {
	for _, d := range reductionFns {
		if !d.par || d.loss != loss {
			continue
		}
		s := r.symIf(d.name, Options{}, d.given)
		if s == nil {
			continue
		}
		r.parallelFn(s, d, d.args(s.a), func(pa *Path) (*Term, *Term) { return pa.Res[0], pa.Res[1] }, partial, merge)
	}
}

// partition is the results of the workers, as named in a worker
type partition struct{ osums, ocard *Term }

func (r *Report) parallelFn(s *symRun, d reductionFn, a redArgs, res func(*Path) (*Term, *Term), partial, merge bool) bool {
	good := true
	for _, pa := range s.returns() {
		sums, cards := res(pa)
		f := pa.St.facts
		par := parOf(pa.St)
		if par == nil {
			r.bad("partial", s.name+"/par", s.pos(), "the reduction is not made in parallel once")
			return false
		}
		if partial {
			r.check(same(f, par.Size, mkLen(a.elemts)), "partial", s.name+"/size", s.pos(), "the partitions do not cover the elements: "+par.Size.String())
			r.check(same(f, par.Degree, a.degree), "partial", s.name+"/degree", s.pos(), "the degree of parallelism is not the one required: "+par.Degree.String())
		}
		// results with the previous centroid for empty clusters
		st := pa.St
		if !d.loss && !d.labels {
			if sums, st, _ = r.filled(s, pa, sums, cards, a.clust); sums == nil {
				good = false
				continue
			}
		}
		if f.Entails(Eq(a.degree, Num(0))) {
			continue // no worker
		}
		good = r.merged(s, st, par, d, a, sums, cards, partial, merge) && good
	}
	return good
}

// parOf finds the parallel processing of a path
func parOf(st *State) *LoopInst {
	var par *LoopInst
	for _, ev := range st.trace.Events() {
		if ev.Kind == "par" {
			if par != nil && par != ev.Inst {
				return nil
			}
			par = ev.Inst
		}
	}
	return par
}

// merged checks that sums and cards merge the partial results of all workers
func (r *Report) merged(s *symRun, st *State, par *LoopInst, d reductionFn, a redArgs, sums, cards *Term, partial, merge bool) bool {
	fail := func(what, msg string) bool {
		rule := "merge"
		if !merge {
			rule = "partial"
		}
		r.bad(rule, s.name+"/"+what, s.pos(), msg)
		return false
	}
	if rs, rc := isPartOf(sums, par), isPartOf(cards, par); rs != nil && rc != nil && st.facts.Entails(Eq(par.Degree, Num(1))) {
		// a single partition
		if !same(st.facts, rs, Num(0)) || !same(st.facts, rc, Num(0)) {
			return fail("first", "the results are not those of the partition")
		}
		if partial {
			for _, b := range par.Backs {
				if !r.accumulation("partial", s.e, b.St, sums.Ref.(*Term), cards.Ref.(*Term), reductionSpec(s.name, a.clust, a.elemts, a.labels, a.space, a.norm, par.Start, Sub(par.End, par.Start))) {
					return false
				}
			}
		}
		return true
	}
	O, inPlace := loopOfVar(s.e, sums), false
	if O == nil && isPartOf(sums, par) != nil && isPartOf(cards, par) != nil {
		// the results of the first worker gather those of the others
		for _, in := range s.e.insts {
			if !in.Par && in.Regs[regionTerm(sums)] && in.Regs[regionTerm(cards)] && within(st, in) && (O == nil || order(st, in) < order(st, O)) {
				O, inPlace = in, true
			}
		}
	}
	if O == nil || !inPlace && O != loopOfVar(s.e, cards) {
		return fail("loop", "the results are not merged by one loop over the partitions: "+clip(sums.String(), 200)+" / "+clip(cards.String(), 200))
	}
	var vs, vc *LoopVar
	for _, v := range O.Vars {
		if v.Var == sums {
			vs = v
		}
		if v.Var == cards {
			vc = v
		}
	}
	if inPlace {
		vs, vc = &LoopVar{Init: sums, Var: sums}, &LoopVar{Init: cards, Var: cards}
	}
	if vs == nil || vc == nil {
		return fail("loop", "the merged results are not those of the last iteration")
	}
	for _, x := range O.Exits {
		if !exhausted(x, O) {
			return fail("count", "the merge may end before the last partition")
		}
	}
	// partial result of the worker whose results are merged by an iteration: either from the first iteration on, or after a first one taken apart
	first := 0
	if vs.Init != Nil && isPartOf(vs.Init, par) != nil {
		first = 1
		if isPartOf(vs.Init, par) != Num(0) || isPartOf(vc.Init, par) != Num(0) {
			return fail("first", "the merge does not start with the first partition: "+clip(vs.Init.String(), 200))
		}
	} else if vs.Init != Nil {
		return fail("first", "the merge starts with something else than a partition: "+clip(vs.Init.String(), 200))
	}
	idx := AddN(O.K, int64(first))
	if O.N == nil || !same(O.Entry.facts, AddN(O.N, int64(first)), par.Degree) {
		return fail("count", fmt.Sprintf("the merge does not visit every partition once: %v iterations for %v partitions", O.N, par.Degree))
	}
	var part *partition
	firsts, merges := 0, 0
	for _, b := range O.Backs {
		f := b.St.facts
		ns, nc := b.Next[vs], b.Next[vc]
		if inPlace {
			ns, nc = sums, cards
		}
		isFirst := first == 0 && (f.Entails(Eq(vs.Var, Nil)) || f.Entails(Eq(vc.Var, Nil)) || f.Entails(Eq(O.K, Num(0))))
		var ms, mc *Term
		if isFirst {
			// takes the part, or a copy of it
			ms, mc = partial0(b.St, ns), partial0(b.St, nc)
			if ms == nil || mc == nil || isPartOf(ms, par) == nil || isPartOf(mc, par) == nil {
				return fail("first", "the merge does not start from the first partition: "+layersString(b.St, ns)+" / "+layersString(b.St, nc))
			}
			if !same(f, isPartOf(ms, par), idx) || !same(f, isPartOf(mc, par), idx) {
				return fail("first", "the merge starts from the part of another rank")
			}
			if !f.Entails(Eq(O.K, Num(0))) && !nonNil(ns) && !nonNil(nc) {
				return fail("first", "the merge may start several times")
			}
			firsts++
		} else {
			if first == 0 && !f.Entails(Not(Eq(vs.Var, Nil))) && !f.Entails(Not(Eq(vc.Var, Nil))) && !f.Entails(Lt(Num(0), O.K)) {
				return fail("first", "the first partition is not distinguished from the others")
			}
			if ns != vs.Var || nc != vc.Var {
				return fail("step", "a partition replaces the results merged so far: "+clip(ns.String(), 200))
			}
			var ok bool
			ms, mc, ok = r.mergeStep(s, O, b, par, d, a.space, vs.Var, vc.Var, idx, fail)
			if !ok {
				return false
			}
			merges++
		}
		p := &partition{osums: ms.Ref.(*Term), ocard: mc.Ref.(*Term)}
		if part == nil {
			part = p
		} else if *part != *p {
			return fail("step", "partitions are not merged by their own results")
		}
	}
	if first == 0 && firsts == 0 || merges == 0 {
		return fail("step", "partitions are not merged")
	}
	if first == 1 {
		if part.osums != vs.Init.Ref.(*Term) || part.ocard != vc.Init.Ref.(*Term) {
			return fail("first", "the merge does not start from the results of the first partition")
		}
	}
	// the results are not changed by anything else
	for _, x := range []*Term{sums, cards} {
		for _, l := range regionsOf(st, x) {
			if l.kind != "havoc" || l.ver != O.ID {
				return fail("after", "the results are changed after the merge: "+layersString(st, x))
			}
		}
	}
	if merge {
		r.ok("merge", s.name)
	}
	if partial {
		if len(par.Backs) == 0 {
			return fail("worker", "no worker ends")
		}
		n := Sub(par.End, par.Start)
		for _, b := range par.Backs {
			if !r.accumulation("partial", s.e, b.St, part.osums, part.ocard, reductionSpec(s.name, a.clust, a.elemts, a.labels, a.space, a.norm, par.Start, n)) {
				return false
			}
		}
	}
	return true
}

// isPartOf gives the rank of the worker that allocated an object
func isPartOf(t *Term, par *LoopInst) *Term {
	if t == nil || t.Op != "pobj" || !par.local(t.Ref.(*Term)) {
		return nil
	}
	return t.Args[0]
}

// partial0 gives the slice a value is, or is a copy of
func partial0(st *State, v *Term) *Term {
	if v == nil || v.Op != "makeslice" && v.Op != "appendslice" {
		return v
	}
	c := content(st, v, mkLen(v))
	if c == nil {
		return nil
	}
	x := c(probe)
	if x.Op != "elem" || x.Args[1] != probe || !same(st.facts, mkLen(v), mkLen(x.Args[0])) {
		return nil
	}
	return x.Args[0]
}

func loopOfVar(e *Exec, t *Term) *LoopInst {
	for _, in := range e.insts {
		for _, v := range in.Vars {
			if v.Var != nil && v.Var == t {
				return in
			}
		}
	}
	return nil
}

// mergeStep checks one iteration of a merge: every cluster is merged with that of the part
func (r *Report) mergeStep(s *symRun, O *LoopInst, b *Back, par *LoopInst, d reductionFn, space, sums, cards, idx *Term, fail func(a, b string) bool) (*Term, *Term, bool) {
	bad := func(what, msg string) (*Term, *Term, bool) { return nil, nil, fail(what, msg) }
	// the loop over the clusters that changes a slice
	clusters := func(x *Term) *LoopInst {
		var I *LoopInst
		for _, in := range s.e.insts {
			if !in.Par && in.Regs[regionTerm(x)] && in != O && order(b.St, in) > order(b.St, O) {
				if I != nil {
					fail("step", "clusters are merged by more than one loop")
					return nil
				}
				I = in
			}
		}
		if I == nil {
			fail("step", "the results of a partition are dropped: no loop over the clusters")
			return nil
		}
		for _, e := range I.Exits {
			if !exhausted(e, I) {
				fail("clusters", "the merge of a partition may end before the last cluster")
				return nil
			}
		}
		return I
	}
	is, ic := clusters(sums), clusters(cards)
	if is == nil || ic == nil {
		return nil, nil, false
	}
	// own is the slice of the part read at the cluster
	own := func(I *LoopInst, t *Term) *Term {
		if t != nil && t.Op == "elem" && t.Args[1] == I.K && isPartOf(t.Args[0], par) == idx {
			return t.Args[0]
		}
		return nil
	}
	// merged length of a loop
	all := func(I *LoopInst, x, part *Term) bool {
		f := I.Entry.facts
		return I.N != nil && (same(f, I.N, mkLen(x)) || same(f, I.N, mkLen(part)) || same(f, I.N, mkLen(sums)) || same(f, I.N, mkLen(cards)))
	}
	if d.loss {
		var parts [2]*Term
		for i, x := range []*Term{sums, cards} {
			I := []*LoopInst{is, ic}[i]
			for _, ib := range I.Backs {
				ps, ok := points(ib.St, x, I)
				if !ok || len(ps) != 1 || ps[0].a != I.K {
					return bad("clusters", "a cluster is not merged once with its own part: "+layersString(ib.St, x))
				}
				o := own(I, Sub(ps[0].val, mkElem(x, I.K, I.ID, nil)))
				if o == nil || parts[i] != nil && parts[i] != o {
					return bad("clusters", "losses or cardinalities are not added: "+clip(ps[0].val.String(), 300))
				}
				parts[i] = o
			}
			if parts[i] == nil || !all(I, x, parts[i]) {
				return bad("clusters", fmt.Sprintf("not every cluster is merged: %v", I.N))
			}
		}
		return parts[0], parts[1], true
	}
	if is != ic {
		return bad("clusters", "averages and cardinalities are merged apart")
	}
	I := is
	var ms, mc *Term
	// the slices of the part
	for _, ib := range I.Backs {
		note := func(t *Term) {
			Any(t, func(x *Term) bool {
				if o := own(I, x); o != nil {
					if et := elemTypeOf(o.Ref.(*Term).Typ); et != nil && isIntType(et) {
						mc = o
					} else {
						ms = o
					}
				}
				return false
			})
		}
		for _, x := range []*Term{sums, cards} {
			for _, l := range regionsOf(ib.St, x) {
				if l.kind == "point" {
					note(l.val)
				}
			}
		}
	}
	if ms == nil || mc == nil {
		return bad("clusters", "clusters are never merged")
	}
	for _, ib := range I.Backs {
		f := ib.St.facts
		ps, ok1 := points(ib.St, sums, I)
		pc, ok2 := points(ib.St, cards, I)
		if !ok1 || !ok2 || len(ps) > 1 || len(pc) > 1 {
			return bad("clusters", "a cluster is not merged once: "+layersString(ib.St, sums))
		}
		N, A := mkElem(cards, I.K, I.ID, nil), mkElem(sums, I.K, I.ID, nil)
		P, B := mkElem(mc, I.K, "", nil), mkElem(ms, I.K, "", nil)
		f = f.Add(Le(Num(0), N)).Add(Le(Num(0), P)) // cardinalities
		an, av := N, A
		if len(ps) == 1 {
			av = ps[0].val
		}
		if len(pc) == 1 {
			an = pc[0].val
		}
		if len(ps) == 1 && ps[0].a != I.K || len(pc) == 1 && pc[0].a != I.K {
			return bad("clusters", "a cluster is merged with another one")
		}
		if !same(f, an, Add(N, P)) {
			return bad("clusters", "the cardinalities of a cluster and of its part are not added: "+clip(an.String(), 200))
		}
		none := func(n, v *Term) bool { return f.Entails(Eq(n, Num(0))) || f.Entails(Eq(v, Nil)) }
		some := func(n, v *Term) bool {
			return f.Entails(Not(Eq(n, Num(0)))) || f.Entails(Lt(Num(0), n)) || f.Entails(Not(Eq(v, Nil)))
		}
		if av == A {
			if !none(P, B) {
				return bad("clusters", "a cluster of a partition is dropped though it may have members")
			}
			continue
		}
		if av == B {
			if !none(N, A) {
				return bad("clusters", "a cluster with members is replaced by that of a partition")
			}
			continue
		}
		y, ok := isCall(av, "Space.Combine")
		if !ok || y[0] != space || !combines(f, y[1:], A, N, B, P) {
			return bad("clusters", "clusters are not combined with their own cardinalities: "+clip(av.String(), 300))
		}
		if !some(N, A) || !some(P, B) {
			return bad("clusters", "empty clusters are combined")
		}
	}
	if !all(I, sums, ms) {
		return bad("clusters", fmt.Sprintf("not every cluster is merged: %v", I.N))
	}
	return ms, mc, true
}

// within tells whether a loop was run on a path
func within(st *State, in *LoopInst) bool {
	for _, ev := range st.trace.Events() {
		if ev.Kind == "loopenter" && ev.Inst == in {
			return true
		}
	}
	return false
}

// filled checks the completion of centroids: empty clusters keep their previous centroid.
// It gives the averages before it, and the state in which they were known.
func (r *Report) filled(s *symRun, pa *Path, res, cards, clust *Term) (*Term, *State, *LoopInst) {
	fail := func(what, msg string) (*Term, *State, *LoopInst) {
		r.bad("empty", s.name+"/"+what, s.pos(), msg)
		return nil, nil, nil
	}
	// the last loop run on the results
	var L *LoopInst
	for _, in := range s.e.insts {
		if !in.Par && in.Regs[regionTerm(res)] && within(pa.St, in) && (L == nil || order(pa.St, in) > order(pa.St, L)) {
			L = in
		}
	}
	if L == nil {
		return fail("loop", "empty clusters do not keep their centroid: "+layersString(pa.St, res))
	}
	// the cardinalities and the averages have one entry for each cluster: see the accumulation
	if L.N == nil || !same(L.Entry.facts, L.N, mkLen(clust)) && !same(L.Entry.facts, L.N, mkLen(res)) && (cards == nil || !same(L.Entry.facts, L.N, mkLen(cards))) {
		return fail("count", fmt.Sprintf("not every cluster is completed: %v", L.N))
	}
	for _, x := range L.Exits {
		if !exhausted(x, L) {
			return fail("count", "the completion may end before the last cluster")
		}
	}
	ls := regionsOf(pa.St, res)
	if len(ls) == 0 || ls[len(ls)-1].kind != "havoc" || ls[len(ls)-1].ver != L.ID {
		return fail("after", "the centroids are changed after their completion: "+layersString(pa.St, res))
	}
	before := regionsOf(L.Entry, res)
	k := L.K
	// src holds the averages: the results themselves when they are completed in place
	var src *Term
	for _, b := range L.Backs {
		for _, l := range regionsOf(b.St, res)[min(len(before)+1, len(regionsOf(b.St, res))):] {
			if l.kind == "point" && l.val.Op == "elem" && l.val.Args[1] == k && l.val.Args[0] != at(clust, k).Args[0] && l.val.Args[0] != res {
				if src != nil && src != l.val.Args[0] {
					return fail("step", "the centroids come from several slices")
				}
				src = l.val.Args[0]
			}
		}
	}
	inPlace := src == nil
	// the results may be filled with the previous centroids beforehand
	prefilled := false
	if inPlace {
		src = res
	} else if len(before) > 0 {
		if f, ok := feasible(L.Entry.facts, Le(Num(0), k), Lt(k, mkLen(clust)), Lt(k, mkLen(res))); ok {
			cs, known := s.cellCases(L.Entry, f, res, k)
			prefilled = known && len(cs) > 0
			for _, c := range cs {
				prefilled = prefilled && same(c.f, c.val, at(clust, k))
			}
		}
		if !prefilled {
			return fail("step", "the centroids come from several slices")
		}
	}
	if cards == nil {
		cards = r.companion(s, src)
	}
	keeps, takes := 0, 0
	for _, b := range L.Backs {
		f := b.St.facts
		all := regionsOf(b.St, res)
		if len(all) < len(before)+1 || len(all) > len(before)+2 || all[len(before)].kind != "havoc" || all[len(before)].ver != L.ID {
			return fail("step", "a cluster is not completed once: "+layersString(b.St, res))
		}
		own := lastElem(b.St, src, k)
		if inPlace {
			own = mkElem(src, k, L.ID, nil)
		}
		members, none := f.Entails(Not(Eq(own, Nil))), f.Entails(Eq(own, Nil))
		if c := lastElem(b.St, cards, k); c != nil {
			members = members || f.Entails(Lt(Num(0), c)) || f.Entails(Not(Eq(c, Num(0))))
			none = none || f.Entails(Le(c, Num(0)))
		}
		if len(all) == len(before)+1 {
			if prefilled {
				if !none {
					return fail("keep", "a cluster with members keeps its previous centroid")
				}
				keeps++
				continue
			}
			if !inPlace || !members {
				return fail("step", "an empty cluster is left without centroid")
			}
			takes++
			continue
		}
		pt := all[len(before)+1]
		switch {
		case pt.kind != "point" || pt.a != k:
			return fail("step", "a cluster is completed with another one: "+layersString(b.St, res))
		case pt.val == at(clust, k):
			if !none {
				return fail("keep", "a cluster with members keeps its previous centroid")
			}
			keeps++
		case pt.val == own:
			if !members {
				return fail("step", "an empty cluster does not keep its previous centroid")
			}
			takes++
		default:
			return fail("step", "the centroid of a cluster is neither its average nor its previous one: "+clip(pt.val.String(), 200))
		}
	}
	if keeps == 0 || takes == 0 {
		return fail("keep", "averages or previous centroids are never taken")
	}
	if !inPlace && !same(pa.St.facts, mkLen(res), mkLen(clust)) && !same(pa.St.facts, mkLen(res), mkLen(src)) {
		return fail("count", "there is not one centroid for each cluster: "+mkLen(res).String())
	}
	r.ok("empty", s.name)
	return src, L.Entry, L
}

// lastElem is the element of a slice as left by a state, nil when it is not known
func lastElem(st *State, sl, k *Term) *Term {
	if sl == nil {
		return nil
	}
	ls := regionsOf(st, sl)
	if len(ls) == 0 {
		return mkElem(sl, k, "", nil)
	}
	if l := ls[len(ls)-1]; l.kind == "havoc" {
		return mkElem(sl, k, l.ver, nil)
	}
	return nil
}

func order(st *State, in *LoopInst) int {
	for i, ev := range st.trace.Events() {
		if ev.Kind == "loopenter" && ev.Inst == in {
			return i
		}
	}
	return -1
}

// ---- C16, C17 ----

func ruleC16(r *Report) {
	r.need("reduction", 2)
	r.need("merge", 2)
	r.need("fold", 2)
	r.sequential(false)
	r.parallel(false, false, true)
	r.dba("core.DBA", false)
	r.dba("core.WeightedDBA", true)
}

func ruleC17(r *Report) {
	r.need("reduction", 2)
	r.need("merge", 3)
	r.need("total", 2)
	r.sequential(true)
	r.parallel(true, false, true)
	r.total("core.Clust.TotalLoss", reductionFn{"", false, true, false})
	r.total("core.Clust.ParTotalLoss", reductionFn{"", false, true, true})
}

// total checks that a total loss sums the losses of a reduction
func (r *Report) total(name string, d reductionFn) {
	s := r.symIf(name, Options{}, d.given)
	if s == nil {
		return
	}
	d.name = name
	a := d.args(s.a)
	for _, pa := range s.returns() {
		t := pa.Res[0]
		if t.Op != "sum" || !t.Args[1].IsInt(0) {
			r.bad("total", name, s.pos(), "the total is not the sum of the losses of all clusters: "+clip(t.String(), 200))
			continue
		}
		x := apply(t.Args[0], probe)
		if x.Op != "elem" || x.Args[1] != probe || !same(pa.St.facts, t.Args[2], mkLen(x.Args[0])) {
			r.bad("total", name, s.pos(), "the total is not the sum of the losses of all clusters: "+clip(t.String(), 200))
			continue
		}
		losses := x.Args[0]
		if losses.Op == "nil" && pa.St.facts.Entails(Eq(a.degree, Num(0))) {
			continue
		}
		cards := r.companion(s, losses)
		if cards == nil {
			r.bad("total", name, s.pos(), "no cardinalities go with the losses")
			continue
		}
		good := true
		if d.par {
			good = r.parallelFn(s, d, a, func(*Path) (*Term, *Term) { return losses, cards }, true, true)
		} else {
			good = r.accumulation("reduction", s.e, pa.St, losses, cards, reductionSpec(name, a.clust, a.elemts, nil, a.space, a.norm, Num(0), mkLen(a.elemts)))
		}
		if good {
			r.ok("total", name)
		}
	}
}

// companion finds the slice accumulated by the same loop
func (r *Report) companion(s *symRun, x *Term) *Term {
	if in := loopOfVar(s.e, x); in != nil {
		var found *Term
		for _, v := range in.Vars {
			if v.Var != x && v.Init == Nil && v.Class == "lv" && elemTypeOf(v.Typ) != nil && isIntType(elemTypeOf(v.Typ)) && changesOnce(v, in) {
				found = v.Var
			}
		}
		return found
	}
	for _, in := range s.e.insts {
		if in.Regs[regionTerm(x)] {
			for reg := range in.Regs {
				if reg.Args[0] != x {
					return reg.Args[0]
				}
			}
		}
	}
	return nil
}

// changesOnce tells that a variable keeps its value in an iteration
func changesOnce(v *LoopVar, in *LoopInst) bool {
	for _, b := range in.Backs {
		if b.Next[v] == v.Var {
			return true
		}
	}
	return false
}

// dba checks the average of a list
func (r *Report) dba(name string, weighted bool) {
	s := r.sym(name, Options{})
	if s == nil {
		return
	}
	elemts := s.a[0]
	var weights *Term
	space := s.a[1]
	if weighted {
		weights, space = s.a[1], s.a[2]
	}
	weight := func(i *Term) *Term {
		if weighted {
			return at(weights, i)
		}
		return Num(1)
	}
	n := mkLen(elemts)
	for _, pa := range s.returns() {
		f := pa.St.facts
		fail := func(what, msg string) { r.bad("fold", name+"/"+what, s.pos(), msg) }
		if pa.Res[1] != Nil {
			r.check(f.Entails(Eq(n, Num(0))) && f.Entails(Not(Eq(pa.Res[1], Nil))), "error", name, s.pos(), "an error is returned though there are elements")
			continue
		}
		v := pa.Res[0]
		if !f.Entails(Lt(Num(0), n)) {
			fail("empty", "no error is returned without elements")
			continue
		}
		if x, ok := isCall(v, "Space.Copy"); ok && f.Entails(Eq(n, Num(1))) {
			r.check(x[0] == space && x[1] == at(elemts, Num(0)), "fold", name, s.pos(), "the average of one element is not its copy")
			continue
		}
		L := loopOfVar(s.e, v)
		if L == nil {
			fail("loop", "the average is not accumulated over the elements: "+clip(v.String(), 200))
			continue
		}
		var va *LoopVar
		for _, x := range L.Vars {
			if x.Var == v {
				va = x
			}
		}
		first := int64(0)
		if x, ok := isCall(va.Init, "Space.Copy"); ok {
			first = 1
			if x[0] != space || x[1] != at(elemts, Num(0)) {
				fail("first", "the average does not start with the copy of the first element: "+clip(va.Init.String(), 200))
				continue
			}
		}
		idx := AddN(L.K, first)
		bad := L.N == nil || !same(L.Entry.facts, AddN(L.N, first), n)
		for _, x := range L.Exits {
			bad = bad || !exhausted(x, L)
		}
		if bad {
			fail("count", fmt.Sprintf("not every element is averaged once: %v iterations", L.N))
			continue
		}
		good := true
		// the weight accumulated so far: a closed form, or a variable of the loop
		sofar := func(w *Term, f *Facts) bool {
			if !weighted && same(f, w, idx) {
				return true
			}
			if weighted && w == mkSum(mkLam(weight(L.K), L.K), Num(0), idx) {
				return true
			}
			for _, x := range L.Vars {
				if x.Var != w || x.Class != "lv" {
					continue
				}
				init := weight(Num(0))
				if first == 0 {
					init = Num(0)
				}
				if !same(L.Entry.facts, x.Init, init) {
					return false
				}
				for _, b := range L.Backs {
					if !same(b.St.facts, b.Next[x], Add(w, weight(idx))) {
						return false
					}
				}
				return true
			}
			return false
		}
		for _, b := range L.Backs {
			nv := b.Next[va]
			bf := b.St.facts
			if x, ok := isCall(nv, "Space.Copy"); ok && first == 0 && bf.Entails(Eq(L.K, Num(0))) {
				if x[0] != space || x[1] != at(elemts, Num(0)) && x[1] != at(elemts, L.K) {
					good = false
					fail("first", "the average does not start with the copy of the first element")
				}
				continue
			}
			x, ok := isCall(nv, "Space.Combine")
			if first == 0 && !bf.Entails(Lt(Num(0), L.K)) {
				ok = false
			}
			if !ok || x[0] != space {
				good = false
				fail("step", "an element is not combined with the average: "+clip(nv.String(), 200))
				continue
			}
			e := at(elemts, idx)
			if !(x[1] == va.Var && sofar(x[2], bf) && x[3] == e && same(bf, x[4], weight(idx))) &&
				!(x[3] == va.Var && sofar(x[4], bf) && x[1] == e && same(bf, x[2], weight(idx))) {
				good = false
				fail("step", "the average is not combined with the element, weighted by the total weight so far and that of the element: "+clip(nv.String(), 300))
			}
		}
		if good {
			r.ok("fold", name)
		}
	}
}

// ---- C19 ----

func ruleC19(r *Report) {
	r.need("partial", 4)
	r.need("merge", 4)
	r.need("empty", 3)
	r.parallel(false, true, true)
	r.parallel(true, true, true)
	r.need("step", 2)
	// k-means steps: Iterate(space, centroids, data)
	given := func(a []*Term) []*Term { return []*Term{Lt(Num(0), mkLen(a[2]))} }
	if s := r.symIf("kmeans.SeqStrategy.Iterate", Options{}, given); s != nil {
		space, clust, data := s.a[1], s.a[2], s.a[3]
		for _, pa := range s.returns() {
			res := pa.Res[0]
			cards := r.companion(s, res)
			src, st, fill := r.filled(s, pa, res, cards, clust)
			if src == nil {
				continue
			}
			if cards == nil {
				cards = r.companion(s, src)
			}
			if cards == nil {
				r.bad("step", s.name, s.pos(), "the averages are not accumulated with cardinalities")
				continue
			}
			if r.accumulation("reduction", s.e, st, src, cards, reductionSpec(s.name, clust, data, nil, space, nil, Num(0), mkLen(data)), fill) && r.check(same(pa.St.facts, mkLen(res), mkLen(clust)), "count", s.name, s.pos(), "the step does not return as many centroids as it was given") {
				r.ok("step", s.name)
			}
		}
	}
	parGiven := func(a []*Term) []*Term {
		l := given(a)
		if _, ok := a[0].Typ.Underlying().(*types.Pointer); ok {
			l = append(l, Le(Num(1), loadOf(r.fieldAddr(a[0], "Degree"))))
		} else {
			for i, st := 0, structOf(a[0].Typ); st != nil && i < st.NumFields(); i++ {
				if st.Field(i).Name() == "Degree" {
					l = append(l, Le(Num(1), mkField(a[0], a[0].Typ, i)))
				}
			}
		}
		return l
	}
	if s := r.symIf("kmeans.ParStrategy.Iterate", Options{}, parGiven); s != nil {
		space, clust, data := s.a[1], s.a[2], s.a[3]
		d := reductionFn{s.name, false, false, true}
		for _, pa := range s.returns() {
			par := parOf(pa.St)
			if par == nil {
				r.bad("step", s.name, s.pos(), "the step is not made in parallel once")
				continue
			}
			cards := r.parCards(s, pa, par)
			if cards == nil {
				r.bad("step", s.name, s.pos(), "the averages are not accumulated with cardinalities")
				continue
			}
			one := *s
			one.paths = []*Path{pa}
			if r.parallelFn(&one, d, redArgs{clust: clust, elemts: data, space: space, degree: par.Degree}, func(*Path) (*Term, *Term) { return pa.Res[0], cards }, true, true) {
				r.ok("step", s.name)
			}
		}
	}
	if s := r.sym("kmeans.Impl.Iterate", Options{}); s != nil {
		for _, pa := range s.returns() {
			n := 0
			for _, ev := range pa.St.trace.Events() {
				if ev.Kind == "invoke" && ev.Name == "Strategy.Iterate" {
					n++
					a := ev.Args
					_, ok1 := isCall(a[0], "OCModel.Space")
					_, ok2 := isCall(a[1], "OCModel.Centroids")
					r.check(ok1 && ok2 && fromCall(a[2], "Buffer.Data") && pa.Res[0] == ev.Res, "step", s.name, s.pos(), "the iteration is not the step of the strategy on the space, the centroids and the data")
				}
			}
			r.check(n == 1, "step", s.name+"/once", s.pos(), fmt.Sprintf("an iteration makes %d steps", n))
		}
	}
}

// fromCall matches a result of an opaque call
func fromCall(t *Term, name string) bool {
	return t != nil && (t.Op == "res" || t.Op == "call") && (t.Aux == name || strings.HasPrefix(t.Aux, name+"#") || strings.HasPrefix(t.Aux, name+"."))
}

// parCards finds the cardinalities merged with the averages that complete the results
func (r *Report) parCards(s *symRun, pa *Path, par *LoopInst) *Term {
	for reg := range pa.St.regs {
		if o := reg.Args[0]; isPartOf(o, par) != nil && isIntType(elemTypeOf(o.Ref.(*Term).Typ)) {
			return o
		}
	}
	for _, in := range s.e.insts {
		// the only worker
		if in.Par && in == par && pa.St.facts.Entails(Eq(par.Degree, Num(1))) {
			for reg := range par.Regs {
				for _, l := range pa.St.regs[reg] {
					if l.kind == "range" {
						if o := apply(l.val, Num(0)); isPartOf(o, par) != nil && isIntType(elemTypeOf(o.Ref.(*Term).Typ)) {
							return o
						}
					}
				}
			}
		}
	}
	for _, in := range s.e.insts {
		if in.Par {
			continue
		}
		for _, v := range in.Vars {
			if v.Class == "lv" && v.Init == Nil && v.Typ != nil && elemTypeOf(v.Typ) != nil && isIntType(elemTypeOf(v.Typ)) && changesOnce(v, in) && within(pa.St, in) {
				return v.Var
			}
		}
	}
	return nil
}
