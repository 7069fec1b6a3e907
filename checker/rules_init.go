package main

import (
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rulesByID["C24"] = &Rule{run: ruleC24, assumptions: append([]string{"weights are not negative (distances are not)", "the numbers are reals (rounding is ignored, except that a draw may pass the last weight)"}, seqAssumptions...), explanation: seqExplanation + ": every cell of the centroids returned by each initializer, and the position returned by a weighted draw"}
}

// notNil: known to be a real error
func (p *Prog) notNil(f *Facts, t *Term) bool {
	return t != nil && (f.Entails(Not(Eq(t, Nil))) || t.Op == "errnew" || t.Op == "mkiface" || t.Op == "load" && t.Aux == "errglobal")
}

func ruleC24(r *Report) {
	r.need("refused", 3)
	r.need("count", 3)
	r.need("centroid", 4)
	r.need("draw", 3)
	r.need("step", 1)
	r.need("name", 3)
	r.names()
	r.initializer("kmeans.GivenInitializer", "given")
	r.initializer("kmeans.RandInitializer", "rand")
	r.initializer("kmeans.PPInitializer", "pp")
	r.ppStep()
	r.weighted()
}

var initNames = map[string]string{"given": "GivenInitializer", "pp": "PPInitializer", "rand": "RandInitializer"}

// names: each name gives its initializer
func (r *Report) names() {
	s := r.sym("kmeans.CreateInitializer", Options{})
	if s == nil {
		return
	}
	fnOf := func(t *Term) string {
		if t != nil && (t.Op == "fn" || t.Op == "closure") {
			return t.Aux[strings.LastIndex(t.Aux, ".")+1:]
		}
		return ""
	}
	lower := func(t *Term) bool {
		return t.Op == "res" && strings.Contains(t.Aux, "strings.ToLower") || t.Op == "call" && t.Aux == "strings.ToLower"
	}
	found := map[string]bool{}
	for _, pa := range s.returns() {
		res := unface(pa.Res[0])
		if res.Op == "mapget" && len(res.Args) == 2 {
			if !lower(res.Args[1]) {
				r.bad("name", "CreateInitializer", s.pos(), "initializers are not found whatever the case of their name")
			}
			for k, v := range r.p.globalMap(res.Args[0]) {
				found[k] = true
				r.check(initNames[k] == v, "name", k, s.pos(), "this name does not give its initializer but "+v)
			}
			continue
		}
		for _, l := range pa.St.facts.all() {
			if l.Op != "eq" {
				continue
			}
			for i, a := range l.Args {
				if a.Op == "str" && lower(l.Args[1-i]) {
					found[a.Aux] = true
					r.check(initNames[a.Aux] == fnOf(res), "name", a.Aux, s.pos(), "this name does not give its initializer but "+fnOf(res))
				}
			}
		}
	}
	for n := range initNames {
		if !found[n] {
			r.bad("name", n, s.pos(), "this name does not give its initializer")
		}
	}
}

// initializer checks the centroids of an initializer
func (r *Report) initializer(name, kind string) {
	short := name[strings.Index(name, ".")+1:]
	s := r.sym(name, Options{Opaque: r.p.opaque("kmeans.PPIter", "kmeans.WeightedChoice")})
	if s == nil {
		return
	}
	k, elemts, space, src := s.a[0], s.a[1], s.a[2], s.a[3]
	n := mkLen(elemts)
	success := false
	for _, pa := range s.returns() {
		f, tr := pa.St.facts, trail(r.p, pa.St, 20)
		clust, err := pa.Res[0], pa.Res[1]
		_, less := feasible(f, Lt(n, k))
		_, none := feasible(f, Lt(k, Num(1)))
		both := false
		if g, ok := feasible(f, Le(Num(1), k)); ok {
			_, both = feasible(g, Le(k, n))
		}
		if !both || (less || none) && !r.p.notNil(f, err) {
			r.check(r.p.notNil(f, err), "refused", short, s.pos(), "fewer elements than centroids, or no centroid at all, are accepted", tr...)
			r.check(clust == Nil, "refused", short+"/centroids", s.pos(), "centroids are returned with the error", tr...)
			continue
		}
		g, ok := feasible(f, Eq(err, Nil))
		if r.p.notNil(f, err) || !ok {
			// only a draw may fail
			failed := false
			for _, ev := range pa.St.trace.Events() {
				failed = failed || ev.Kind == "loopexit" || strings.HasSuffix(ev.Name, "PPIter")
			}
			r.check(kind == "pp" && failed, "refused", short+"/spurious", s.pos(), "possible numbers of centroids and elements are refused", tr...)
			continue
		}
		success = true
		f = g
		r.check(same(f, mkLen(clust), k), "count", short, s.pos(), "does not return k centroids", tr...)
		i := U.mk("probe", "i", nil, types.Typ[types.Int])
		g, ok = feasible(f, Le(Num(0), i), Lt(i, k))
		if !ok {
			continue
		}
		cs, known := s.cellCases(pa.St, g, clust, i)
		if !known {
			r.bad("centroid", short, s.pos(), "the centroids are not understood", tr...)
			continue
		}
		for _, c := range cs {
			if r.p.notNil(c.f, err) {
				continue
			}
			msg := s.initCell(pa, c, kind, i, elemts, space, src, clust, err)
			r.check(msg == "", "centroid", short, s.pos(), msg, tr...)
		}
	}
	if !success {
		r.bad("count", short, s.pos(), "never succeeds")
	}
}

// initCell checks one centroid
func (s *symRun) initCell(pa *Path, c elemCase, kind string, i, elemts, space, src, clust, err *Term) string {
	if kind == "pp" && !c.f.Entails(Eq(i, Num(0))) {
		return s.ppCell(pa, c, i, elemts, space, src, clust, err)
	}
	a, ok := isCall(c.val, "Space.Copy")
	if !ok || a[0] != space {
		return "a centroid is not a copy of an element: " + clip(c.val.String(), 80)
	}
	e := a[1]
	if kind == "given" {
		if !sameElem(c.f, e, at(elemts, i)) {
			return "a centroid is not the element at its position"
		}
		return ""
	}
	if e.Op != "elem" || e.Aux != "" {
		return "a centroid is not a copy of an element: " + clip(e.String(), 80)
	}
	root, off := sliceRoot(elemts)
	if e.Args[0] != root || !off.IsInt(0) {
		return "a centroid is not a copy of an element"
	}
	j := e.Args[1]
	st := pa.St
	if c.back != nil {
		st = c.back.St
	}
	if kind == "pp" {
		if !s.drawn(st, j, mkLen(elemts), src) {
			return "the first centroid is not drawn among all elements"
		}
		return ""
	}
	// a permutation
	if j.Op == "elem" && j.Args[1] == i {
		for _, ev := range eventsOf(pa.St, "draw", "Perm") {
			if ev.Recv == src && ev.Res == j.Args[0] && ev.Args[0] == mkLen(elemts) {
				return ""
			}
		}
	}
	if !s.drawn(st, j, mkLen(elemts), src) {
		return "the position is not drawn among all elements"
	}
	if c.back == nil {
		return "the positions may be the same"
	}
	// positions already taken are refused, and taken ones are remembered
	m := c.inst.at(c.k)
	for _, l := range c.back.St.facts.all() {
		if l.Op != "not" {
			continue
		}
		t := pairedWith(c.back.St, l.Args[0])
		if len(t.Args) < 2 || Subst(t.Args[1], m) != j {
			continue
		}
		switch t.Op {
		case "maphas", "mapget":
			if s.remembers(c.inst, c.back, t.Args[0], t.Args[1], t.Op == "mapget") {
				return ""
			}
		case "elem":
			if s.marks(c.inst, c.back, t.Args[0], t.Args[1]) {
				return ""
			}
		}
	}
	return "the positions may be the same"
}

// pairedWith resolves a condition kept in a variable, that always tells whether the map has the value of another one
func pairedWith(st *State, t *Term) *Term {
	if t.Op != "lv" {
		return t
	}
	for _, ev := range st.trace.Events() {
		in := ev.Inst
		if in == nil || ev.Kind != "loopexit" {
			continue
		}
		for _, v := range in.Vars {
			if v.Var != t || len(v.Init.Args) != 2 || v.Init.Op != "maphas" && v.Init.Op != "mapget" {
				continue
			}
			for _, w := range in.Vars {
				if w.Init != v.Init.Args[1] || w.Var == nil || w.Var.Op != "lv" {
					continue
				}
				ok := true
				for _, b := range in.Backs {
					n := b.Next[v]
					ok = ok && n.Op == v.Init.Op && n.Args[0] == v.Init.Args[0] && n.Args[1] == b.Next[w]
				}
				if ok {
					return U.mk(v.Init.Op, v.Init.Aux, nil, v.Init.Typ, v.Init.Args[0], w.Var)
				}
			}
		}
	}
	return t
}

// remembers: the iteration adds the key to the map, made by the function and from which nothing is removed
func (s *symRun) remembers(in *LoopInst, b *Back, m, key *Term, value bool) bool {
	if m.Op != "makemap" || in.local(m) {
		return false
	}
	for _, x := range in.Backs {
		for _, ev := range x.St.trace.Events() {
			if ev.Kind == "mapset" && ev.Recv == m && ev.Name == "delete" {
				return false
			}
		}
	}
	for _, ev := range b.St.trace.Events() {
		if ev.Kind == "mapset" && ev.Recv == m && ev.Args[0] == key {
			return !value || len(ev.Args) == 2 && ev.Args[1] == True
		}
	}
	return false
}

// marks: the iteration sets the cell of a slice of booleans, that no iteration clears
func (s *symRun) marks(in *LoopInst, b *Back, sl, key *Term) bool {
	if sl.Op != "makeslice" || in.local(sl) {
		return false
	}
	for _, x := range in.Backs {
		w, ok := in.written(x, sl)
		if !ok || w != nil && w.val != True {
			return false
		}
	}
	w, _ := in.written(b, sl)
	return w != nil && w.a == key
}

// drawn: an integer drawn uniformly below n, from the generator
func (s *symRun) drawn(st *State, j, n, src *Term) bool {
	is := func(st *State, t *Term) bool {
		for _, ev := range eventsOf(st, "draw", "Intn") {
			if ev.Res == t && ev.Recv == src && len(ev.Args) == 1 && ev.Args[0] == n {
				return true
			}
		}
		return false
	}
	if is(st, j) {
		return true
	}
	// drawn again until it suits
	for _, ev := range st.trace.Events() {
		in := ev.Inst
		if in == nil || ev.Kind != "loopexit" || j.Op != "lv" && j.Op != "lvat" {
			continue
		}
		for _, v := range in.Vars {
			if v.Var == nil || v.Var.Op != "lv" || v.Var.Aux != j.Aux {
				continue
			}
			if !is(in.Entry, v.Init) && !is(st, v.Init) {
				return false
			}
			for _, b := range in.Backs {
				if !is(b.St, b.Next[v]) {
					return false
				}
			}
			return true
		}
	}
	return false
}

// ppCell: a further centroid is drawn given those before it
func (s *symRun) ppCell(pa *Path, c elemCase, i, elemts, space, src, clust, err *Term) string {
	if c.back == nil {
		return "the further centroids are not drawn one by one"
	}
	m := c.inst.at(c.k)
	for _, ev := range callsTo(c.back.St, "kmeans.PPIter") {
		if Subst(resultOf(ev, 0), m) != c.val {
			continue
		}
		if ev.Args[1] != elemts || ev.Args[2] != space || ev.Args[3] != src {
			return "a centroid is not drawn among the elements, from the generator"
		}
		// the centroids before it
		root, _ := sliceRoot(clust)
		got, off := sliceRoot(ev.Args[0])
		if got != root || !off.IsInt(0) || !c.back.St.facts.Entails(Eq(mkLen(ev.Args[0]), c.raw)) {
			return "a centroid is not drawn given exactly those before it"
		}
		// its error is not lost
		e := resultOf(ev, 1)
		if c.back.St.facts.Entails(Eq(e, Nil)) {
			return ""
		}
		for _, v := range c.inst.Vars {
			if v.Var != err || c.back.Next[v] != e {
				continue
			}
			all := true
			for _, b := range c.inst.Backs {
				all = all && b.St.facts.Entails(Eq(v.Var, Nil))
			}
			if all {
				return ""
			}
		}
		return "the failure of a draw is lost"
	}
	return "a further centroid is not drawn by a k-means++ step: " + clip(c.val.String(), 80)
}

// ppStep checks the weights of a k-means++ step
func (r *Report) ppStep() {
	s := r.sym("kmeans.PPIter", Options{Opaque: r.p.opaque("kmeans.WeightedChoice", "core.Clust.ParMapLabel", "core.Clust.MapLabel")})
	if s == nil {
		return
	}
	clust, elemts, space, src := s.a[0], s.a[1], s.a[2], s.a[3]
	for _, pa := range s.returns() {
		f, tr := pa.St.facts, trail(r.p, pa.St, 20)
		evs := callsTo(pa.St, "kmeans.WeightedChoice")
		if len(evs) != 1 || evs[0].Args[1] != src {
			r.bad("step", "PPIter", s.pos(), "not exactly one weighted draw from the generator", tr...)
			continue
		}
		ev := evs[0]
		r.check(r.stepWeights(s, pa, ev.Args[0], clust, elemts, space), "step", "PPIter/weights", r.p.pos(ev.Pos), "the elements are not drawn in proportion of their distances to the centroids already drawn", tr...)
		idx, e := resultOf(ev, 0), resultOf(ev, 1)
		if r.p.notNil(f, pa.Res[1]) || f.Entails(Not(Eq(e, Nil))) {
			r.check(f.Entails(Not(Eq(e, Nil))), "step", "PPIter/error", s.pos(), "fails although the draw succeeded", tr...)
			r.check(pa.Res[1] == e || r.p.notNil(f, pa.Res[1]), "step", "PPIter/failure", s.pos(), "the failure of the draw is lost", tr...)
			continue
		}
		r.check(pa.Res[1] == e || f.Entails(Eq(e, Nil)), "step", "PPIter/failure", s.pos(), "the failure of the draw is lost", tr...)
		a, ok := isCall(pa.Res[0], "Space.Copy")
		r.check(ok && a[0] == space && sameElem(f, a[1], at(elemts, idx)), "step", "PPIter/element", s.pos(), "not a copy of the element drawn", tr...)
	}
}

func (r *Report) stepWeights(s *symRun, pa *Path, w, clust, elemts, space *Term) bool {
	for _, ev := range pa.St.trace.Events() {
		if ev.Kind == "extcall" && strings.HasSuffix(ev.Name, "MapLabel") && w == resultOf(ev, 1) {
			c, split := s.e.load(pa.St.clone(), ev.Args[0], elemTypeOf(ev.Args[0].Typ))
			return len(regionsAt(pa.St, w)) == 0 && split == nil && c == clust && ev.Args[1] == elemts && ev.Args[2] == space
		}
	}
	i := U.mk("probe", "i", nil, types.Typ[types.Int])
	f, ok := feasible(pa.St.facts, Le(Num(0), i), Lt(i, mkLen(elemts)))
	if !ok || !same(f, mkLen(w), mkLen(elemts)) {
		return false
	}
	cs, ok := s.cellCases(pa.St, f, w, i)
	for _, c := range cs {
		ok = ok && nearestOf(c.val, "minof", at(elemts, i), space, clust, c.f)
	}
	return ok && len(cs) > 0
}

// weighted checks the position returned by a weighted draw
func (r *Report) weighted() {
	s := r.sym("kmeans.WeightedChoice", Options{Cands: func(st *State, in *LoopInst) []*Term {
		var out []*Term
		for _, v := range in.Vars {
			if v.Var != nil && v.Var.Op == "lv" && isFloat(v.Typ) {
				out = append(out, Le(Num(0), v.Var))
			}
		}
		return out
	}})
	if s == nil {
		return
	}
	weights, src := s.a[0], s.a[1]
	n := mkLen(weights)
	sum := sumOver(n, func(k *Term) *Term { return at(weights, k) })
	for _, pa := range s.returns() {
		tr := trail(r.p, pa.St, 20)
		f, ok := feasible(pa.St.facts, Le(Num(0), sum))
		if !ok {
			continue
		}
		idx, err := pa.Res[0], pa.Res[1]
		if r.p.notNil(f, err) {
			r.check(f.Entails(Le(sum, Num(0))), "draw", "error", s.pos(), "fails although a weight is positive", tr...)
			continue
		}
		if !r.check(err == Nil && f.Entails(Lt(Num(0), sum)), "draw", "null", s.pos(), "succeeds although all weights may be null", tr...) {
			continue
		}
		// one draw, scaled to the sum of the weights
		var u *Event
		draws := 0
		for _, ev := range eventsOf(pa.St, "draw", "") {
			draws++
			u = ev
		}
		if draws != 1 || u.Res.Op != "rand01" || u.Recv != src {
			r.bad("draw", "uniform", s.pos(), "not exactly one uniform draw from the generator", tr...)
			continue
		}
		cursor := Mul(u.Res, sum)
		var done *LoopInst
		exit := ""
		for _, ev := range pa.St.trace.Events() {
			if ev.Kind == "loopexit" && drawLoop(ev.Inst, weights, cursor) {
				done, exit = ev.Inst, ev.Name
			}
		}
		if done == nil {
			r.bad("draw", "proportion", s.pos(), "the weights are not passed one after the other until they add up to more than the draw", tr...)
			continue
		}
		w := at(weights, done.K)
		if exit == "exhausted" {
			// the draw was rounded beyond the last weight: the last positive one
			ok := false
			for _, v := range done.Vars {
				if v.Var != idx {
					continue
				}
				ok = true
				for _, b := range done.Backs {
					g := b.St.facts
					if b.Next[v] == done.K {
						ok = ok && g.Entails(Lt(Num(0), w))
					} else {
						ok = ok && b.Next[v] == v.Var && g.Entails(Le(w, Num(0)))
					}
				}
			}
			r.check(ok || f.Entails(Lt(Num(0), at(weights, idx))), "draw", "last", s.pos(), "may return the position of a null weight when the draw is rounded beyond the last one", tr...)
			continue
		}
		g := prefixes(done, f, w)
		S := prefixOf(done)
		r.check(idx == done.K && g.Entails(Lt(cursor, Add(S, w))), "draw", "position", s.pos(), "the position returned is not the first one where the weights add up to more than the draw", tr...)
		r.check(g.Entails(Lt(Num(0), w)) || f.Entails(Lt(Num(0), w)), "draw", "positive", s.pos(), "may return the position of a null weight", tr...)
	}
}

func isFloat(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

// prefixOf: the sum of the weights before the current position
func prefixOf(in *LoopInst) *Term {
	return U.mk("probe", "prefix "+in.ID, nil, types.Typ[types.Float64])
}

// prefixes writes the facts of an iteration with the sum of the weights before the current one
func prefixes(in *LoopInst, f *Facts, w *Term) *Facts {
	S := prefixOf(in)
	m := map[*Term]*Term{}
	for _, v := range in.Vars {
		if v.Var == nil || v.Var.Op != "lv" || !isFloat(v.Typ) {
			continue
		}
		sign := 0
		for _, b := range in.Backs {
			d := Sub(b.Next[v], v.Var)
			g := b.St.facts.Add(Le(Num(0), w))
			switch {
			case EqReal(d, w) && sign >= 0:
				sign = 1
			case EqReal(d, Sub(Num(0), w)) && sign <= 0:
				sign = -1
			case EqReal(d, Num(0)) && g.Entails(Le(w, Num(0))):
			default:
				sign = 2
			}
			if sign == 2 {
				break
			}
		}
		switch sign {
		case 1:
			m[v.Var] = Add(v.Init, S)
		case -1:
			m[v.Var] = Sub(v.Init, S)
		}
	}
	out := f
	for _, l := range f.all() {
		if x := Subst(l, m); x != l {
			out = out.Add(x)
		}
	}
	return out.Add(Le(Num(0), w)).Add(Le(Num(0), S))
}

// drawLoop: a loop over all weights, that goes on as long as they do not add up to more than the draw
func drawLoop(in *LoopInst, weights, cursor *Term) bool {
	if in == nil || in.Par || len(in.Backs) == 0 {
		return false
	}
	w, S := at(weights, in.K), prefixOf(in)
	for _, b := range in.Backs {
		g := prefixes(in, b.St.facts, w)
		if !g.Entails(Le(w, Num(0))) && !g.Entails(Le(Add(S, w), cursor)) {
			return false
		}
	}
	return in.N == mkLen(weights)
}

// globalMap reads the entries that the initialization of the packages puts in a map of functions
func (p *Prog) globalMap(t *Term) map[string]string {
	out := map[string]string{}
	if t.Op != "load" || t.Args[0].Op != "global" {
		return out
	}
	g, ok := t.Args[0].Ref.(*ssa.Global)
	if !ok {
		return out
	}
	for _, fn := range p.allFns() {
		var made ssa.Value
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok && st.Addr == g {
					made = st.Val
				}
			}
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				mu, ok := in.(*ssa.MapUpdate)
				if !ok {
					continue
				}
				m := mu.Map
				if u, ok := m.(*ssa.UnOp); ok && u.X == g {
					made = m
				}
				if m != made {
					continue
				}
				k, ok := mu.Key.(*ssa.Const)
				v := mu.Value
				for {
					if c, ok := v.(*ssa.ChangeType); ok {
						v = c.X
						continue
					}
					break
				}
				name := "another function"
				if f, ok := v.(*ssa.Function); ok {
					name = f.Name()
				}
				if ok && k.Value != nil && k.Value.Kind() == constant.String {
					out[constant.StringVal(k.Value)] = name
				} else {
					out["?"] = name
				}
			}
		}
	}
	return out
}

// allFns: the functions of the module, and the initialization of its packages
func (p *Prog) allFns() []*ssa.Function {
	out := append([]*ssa.Function{}, p.funcs...)
	seen := map[*ssa.Function]bool{}
	for _, f := range out {
		seen[f] = true
	}
	for _, pk := range p.byPkg {
		if f := pk.Func("init"); f != nil && !seen[f] {
			out = append(out, f)
		}
	}
	return out
}
