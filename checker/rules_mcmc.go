package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	inv := "the current state has as many centers as its k, 1 <= k <= MaxK and k <= number of data, and the centers kept for a k number k (three step weights are configured): established by Init (C13, C24), and kept by each iteration (checked here)"
	rulesByID["C25"] = &Rule{run: ruleC25, assumptions: append([]string{inv, "a buffer never shrinks (C14)"}, seqAssumptions...), explanation: seqExplanation + ": proposed number of clusters, proposed centers and their store"}
	rulesByID["C26"] = &Rule{run: ruleC26, assumptions: append([]string{inv, "the numbers are reals (rounding is ignored)"}, seqAssumptions...), explanation: seqExplanation + ": acceptance condition and the state after an accepted or rejected proposal"}
}

// leavesOf lists the addresses of the fields of an object, those of nested structs included
func leavesOf(ptr *Term) []*Term {
	var out []*Term
	st := structOf(elemTypeOf(ptr.Typ))
	for i := 0; st != nil && i < st.NumFields(); i++ {
		a := mkFieldAddr(ptr, ptr.Typ, i)
		if isStructType(st.Field(i).Type()) {
			out = append(out, leavesOf(a)...)
		} else {
			out = append(out, a)
		}
	}
	return out
}

// leavesThrough lists the leaves of a struct, those of the unexported structs it points to included
func leavesThrough(ptr *Term, depth int) []*Term {
	var out []*Term
	for _, a := range leavesOf(ptr) {
		out = append(out, a)
		if t := elemTypeOf(a.Typ); depth < 3 && isPtr(t) && grouping(elemTypeOf(t)) {
			out = append(out, leavesThrough(loadOf(a), depth+1)...)
		}
	}
	return out
}

// now reads in a state the location that a path through pointers leads to
func (s *symRun) now(st *State, path *Term) *Term {
	if a := s.follow(st, path); a != nil {
		return s.value(st, a)
	}
	return nil
}

func (s *symRun) follow(st *State, path *Term) *Term {
	if path.Op != "fieldaddr" {
		return path
	}
	b := path.Args[0]
	var nb *Term
	if b.Op == "load" {
		nb = s.now(st, b.Args[0])
	} else {
		nb = s.follow(st, b)
	}
	if nb == b || nb == nil {
		if nb == nil {
			return nil
		}
		return path
	}
	if nb.Typ == nil || structOf(elemTypeOf(nb.Typ)) == nil {
		return nil
	}
	return mkFieldAddr(nb, nb.Typ, path.Ref.(FieldRef).I)
}

// value reads a location in a state
func (s *symRun) value(st *State, addr *Term) *Term {
	v, split := s.e.load(st.clone(), addr, elemTypeOf(addr.Typ))
	if split != nil {
		return nil
	}
	return v
}

func (p *Prog) opaque(names ...string) map[string]bool {
	m := map[string]bool{}
	for _, n := range names {
		if f := p.Func(n); f != nil {
			m[f.String()] = true
		}
	}
	return m
}

func eventsOf(st *State, kind, name string) []*Event {
	var out []*Event
	for _, ev := range st.trace.Events() {
		if ev.Kind == kind && (name == "" || ev.Name == name) {
			out = append(out, ev)
		}
	}
	return out
}

func callsTo(st *State, name string) []*Event {
	var out []*Event
	for _, ev := range st.trace.Events() {
		if (ev.Kind == "extcall" || ev.Kind == "invoke") && (ev.Name == name || strings.HasSuffix(ev.Name, "/"+name)) {
			out = append(out, ev)
		}
	}
	return out
}

// mcmc is the analysis of the MCMC implementation
type mcmc struct {
	r    *Report
	ini  *symRun
	it   *symRun
	k    *Term // addresses of the state, in the iteration
	cen  *Term
	loss *Term
	pdf  *Term
	dim  *Term
	acc  *Term // the count of acceptations
	confs
}

type confs struct{ model, conf, cent, space *Term }

// modelOf finds how a routine reads its model
func (r *Report) modelOf(s *symRun) confs {
	var c confs
	c.model = s.a[1]
	for _, pa := range s.returns() {
		for _, ev := range pa.St.trace.Events() {
			if ev.Kind != "invoke" || ev.Recv != c.model {
				continue
			}
			switch ev.Name {
			case "OCModel.Conf":
				c.conf = ev.Res
			case "OCModel.Centroids":
				c.cent = ev.Res
			case "OCModel.Space":
				c.space = ev.Res
			}
		}
	}
	return c
}

// confGetter reads the configuration of the model, as *T
func (r *Report) confGetter(s *symRun, conf *Term, typ string) func(string) *Term {
	var ptr *Term
	for _, pa := range s.returns() {
		visit := func(t *Term) bool {
			if t.Op == "assert" && t.Args[0] == conf {
				ptr = t
			}
			return false
		}
		for _, ev := range pa.St.trace.Events() {
			for _, a := range append(append([]*Term{}, ev.Args...), ev.Recv) {
				if a != nil && ptr == nil {
					Any(a, visit)
				}
			}
		}
		for _, l := range pa.St.facts.all() {
			if ptr == nil {
				Any(l, visit)
			}
		}
	}
	if ptr == nil || ptr.Typ == nil || structOf(elemTypeOf(ptr.Typ)) == nil {
		return nil
	}
	return ptrGetter(r, ptr)
}

func (r *Report) newMcmc() *mcmc {
	m := &mcmc{r: r}
	opt := Options{Opaque: r.p.opaque("kmeans.WeightedChoice", "kmeans.PPIter")}
	m.ini = r.sym("mcmc.Impl.Init", opt)
	m.it = r.sym("mcmc.Impl.Iterate", opt)
	if m.ini == nil || m.it == nil {
		return nil
	}
	m.confs = r.modelOf(m.it)
	if m.conf == nil || m.cent == nil || m.space == nil {
		r.bad("anchor", "mcmc.Impl.Iterate", m.it.pos(), "the iteration does not read the configuration, the space and the centroids of its model")
		return nil
	}
	return m
}

// pdfOf: the density of a state
func pdfOf(distrib, c, n *Term) func(k *Term) *Term {
	return nil
}

// initial checks the state left by Init, and finds where it is kept
func (m *mcmc) initial(check bool) bool {
	r, s := m.r, m.ini
	cf := r.modelOf(s)
	ptr, to := s.a[0], m.it.a[0]
	found := false
	for _, pa := range s.returns() {
		f := pa.St.facts
		if len(pa.Res) != 2 || f.Entails(Not(Eq(pa.Res[1], Nil))) {
			continue
		}
		clust := pa.Res[0]
		losses := callsTo(pa.St, "Strategy.Loss")
		var data *Term
		for _, ev := range callsTo(pa.St, "Buffer.Data") {
			data = ev.Res
		}
		if len(losses) == 0 || data == nil {
			if check {
				r.bad("initial", "Init/loss", s.pos(), "the loss of the initial centroids is not computed", trail(r.p, pa.St, 20)...)
			}
			continue
		}
		ls := losses[len(losses)-1]
		if check {
			r.check(ls.Args[1] == cf.space && same2(ls.Args[2], clust) && m.sameData(pa.St, ls.Args[3]), "initial", "Init/loss", r.p.pos(ls.Pos), "the initial loss is not that of the initial centroids over the data", trail(r.p, pa.St, 20)...)
		}
		get := r.confGetter(s, cf.conf, "mcmc.Conf")
		var k0 *Term
		if get != nil {
			k0 = get("InitK")
		}
		set := func(dst **Term, addr *Term) {
			a := Subst(addr, map[*Term]*Term{ptr: to})
			if *dst == nil {
				*dst = a
			}
		}
		var k, cen, loss, pdf, dim *Term
		for _, a := range leavesThrough(ptr, 0) {
			v := m.ini.now(pa.St, a)
			if v == nil || v == loadOf(a) {
				continue
			}
			switch {
			case v == ls.Res:
				loss = a
			case v == clust:
				cen = a
			case v == k0 || v == mkLen(clust):
				k = a
			case v.Op == "call" && v.Aux == "Space.Dim":
				dim = a
				if check {
					r.check(v.Args[0] == cf.space && v.Args[1] == clust, "initial", "Init/dimension", s.pos(), "the dimension is not that of the initial centroids in the space")
				}
			case m.isPdf(pa.St, f, v, clust, data):
				pdf = a
			}
		}
		if loss != nil {
			set(&m.loss, loss)
		}
		if cen != nil {
			set(&m.cen, cen)
		}
		if k != nil {
			set(&m.k, k)
		}
		if pdf != nil {
			set(&m.pdf, pdf)
		}
		if dim != nil {
			set(&m.dim, dim)
		}
		if check {
			r.check(loss != nil, "initial", "Init/state loss", s.pos(), "the loss of the initial centroids is not kept", trail(r.p, pa.St, 20)...)
			r.check(pdf != nil, "initial", "Init/state density", s.pos(), "the density of the initial centroids is not kept", trail(r.p, pa.St, 20)...)
			r.check(k != nil || cen != nil, "initial", "Init/state k", s.pos(), "the number of initial centroids is not kept", trail(r.p, pa.St, 20)...)
			r.check(dim != nil, "initial", "Init/state dimension", s.pos(), "the dimension of the centroids is not kept", trail(r.p, pa.St, 20)...)
		}
		found = true
	}
	if !found {
		r.bad("initial", "Init", s.pos(), "no path of Init succeeds")
		return false
	}
	if m.k == nil && m.cen == nil || m.loss == nil || m.pdf == nil || m.dim == nil {
		if !check {
			r.bad("anchor", "mcmc.Impl.Init", s.pos(), "Init does not leave the initial state (k, loss, density, dimension)")
		}
		return false
	}
	return true
}

func same2(a, b *Term) bool { return a == b }

// sameData: the data of the buffer, as last read or read again
func (m *mcmc) sameData(st *State, t *Term) bool {
	for _, ev := range callsTo(st, "Buffer.Data") {
		if ev.Res == t {
			return true
		}
	}
	return false
}

// isPdf: the sum of the densities of the centers, each around itself
func (m *mcmc) isPdf(st *State, f *Facts, v, clust, data *Term) bool {
	n := mkLen(data)
	one := func(x *Term, k *Term) bool {
		a, ok := isCall(x, "Distrib.Pdf")
		return ok && a[1] == at(clust, k) && a[2] == at(clust, k) && (a[3] == n || m.isDataLen(st, a[3]))
	}
	if v.Op == "sum" {
		return v.Args[1].IsInt(0) && same(f, v.Args[2], mkLen(clust)) && one(apply(v.Args[0], probe), probe)
	}
	return v.IsInt(0) && f.Entails(Le(mkLen(clust), Num(0)))
}

func (m *mcmc) isDataLen(st *State, t *Term) bool {
	for _, ev := range callsTo(st, "Buffer.Data") {
		if t == mkLen(ev.Res) {
			return true
		}
	}
	return false
}

// k0: the current number of clusters
func (m *mcmc) k0() *Term {
	if m.k != nil {
		return loadOf(m.k)
	}
	return mkLen(loadOf(m.cen))
}

// invariant gives the facts that hold between two iterations, for the paths of the iteration
func (m *mcmc) invariant(pa *Path, get func(string) *Term) (*Facts, bool) {
	f := pa.St.facts
	k0 := m.k0()
	lits := []*Term{Le(Num(1), k0), Le(k0, get("MaxK")), Eq(mkLen(m.cent), k0)}
	if m.cen != nil {
		lits = append(lits, Eq(mkLen(loadOf(m.cen)), k0))
	}
	for _, ev := range pa.St.trace.Events() {
		switch {
		case ev.Kind == "invoke" && ev.Name == "Buffer.Data":
			lits = append(lits, Le(k0, mkLen(ev.Res)))
		case ev.Kind == "mapget" && isClustMap(ev.Recv):
			lits = append(lits, Eq(mkLen(ev.Res), ev.Args[0]))
		case ev.Kind == "extcall" && strings.HasSuffix(ev.Name, "kmeans.WeightedChoice"):
			// one of the three weights (C24)
			i := resultOf(ev, 0)
			lits = append(lits, Le(Num(0), i), Le(i, Num(2)))
		}
	}
	return feasible(f, lits...)
}

// isClustMap: a map from a number of clusters to centers
func isClustMap(t *Term) bool {
	if t == nil || t.Typ == nil {
		return false
	}
	mt, ok := t.Typ.Underlying().(*types.Map)
	if !ok {
		return false
	}
	n, ok := mt.Elem().(*types.Named)
	return ok && n.Obj().Name() == "Clust"
}

// proposal is what an iteration proposes
type mcmcProp struct {
	st      *State
	f       *Facts
	ev      *Event // Strategy.Iterate
	centers *Term  // its result
	n       *Term  // number of data
	data    *Term
	loss    *Event
}

func (m *mcmc) proposal(pa *Path, f *Facts, rule string) *mcmcProp {
	r := m.r
	evs := callsTo(pa.St, "Strategy.Iterate")
	if len(evs) != 1 {
		r.bad(rule, "Iterate/proposal", m.it.pos(), "an iteration does not compute exactly one proposal", trail(r.p, pa.St, 20)...)
		return nil
	}
	ev := evs[0]
	q := &mcmcProp{st: pa.St, f: f, ev: ev, centers: ev.Res, data: ev.Args[3]}
	q.n = mkLen(q.data)
	if !m.sameData(pa.St, q.data) || ev.Args[1] != m.space {
		r.bad(rule, "Iterate/proposal", r.p.pos(ev.Pos), "the proposal is not computed on the data of the buffer in the space of the model", trail(r.p, pa.St, 20)...)
		return nil
	}
	return q
}

// ---- C25 ----

func ruleC25(r *Report) {
	m := r.newMcmc()
	if m == nil || !m.initial(false) {
		return
	}
	get := r.confGetter(m.it, m.conf, "mcmc.Conf")
	if get == nil {
		r.bad("anchor", "mcmc.Impl.Iterate", m.it.pos(), "the configuration is not read")
		return
	}
	r.need("bounds", 20)
	r.need("centers", 20)
	r.need("draw-k", 1)
	k0 := m.k0()
	for _, pa := range m.it.returns() {
		f, ok := m.invariant(pa, get)
		if !ok {
			continue
		}
		q := m.proposal(pa, f, "proposal")
		if q == nil {
			continue
		}
		// the centers given to the alteration
		arg := q.ev.Args[2]
		k1 := mkLen(arg)
		where := r.p.pos(q.ev.Pos)
		name := "k " + clip(stripSeq(k1.String()), 60)
		tr := trail(r.p, pa.St, 30)
		r.check(f.Entails(Le(Num(1), k1)), "bounds", name+"/>= 1", where, "fewer than one center may be proposed", tr...)
		r.check(f.Entails(Le(k1, get("MaxK"))), "bounds", name+"/<= MaxK", where, "more than MaxK centers may be proposed", tr...)
		r.check(f.Entails(Le(k1, q.n)), "bounds", name+"/<= data", where, "more centers than data may be proposed", tr...)
		r.check(f.Entails(Le(k1, Add(k0, Num(1)))) && f.Entails(Le(Sub(k0, Num(1)), k1)), "bounds", name+"/one step", where, "the number of centers may change by more than one", tr...)
		for _, ev := range callsTo(pa.St, "kmeans.WeightedChoice") {
			r.check(ev.Args[0] == get("ProbaK"), "draw-k", "ProbaK", r.p.pos(ev.Pos), "the step is not drawn with the configured weights", tr...)
		}
		if len(callsTo(pa.St, "kmeans.WeightedChoice")) != 1 {
			r.bad("draw-k", "once", where, "the step is not drawn once", tr...)
		}
		// what is altered
		i := U.mk("probe", "i", nil, types.Typ[types.Int])
		g, ok := feasible(f, Le(Num(0), i), Lt(i, k1))
		if !ok {
			continue
		}
		xs, msg := m.altered(q, g, arg, i)
		if msg != "" {
			r.bad("centers", name, where, msg, tr...)
			continue
		}
		for _, x := range xs {
			msg := m.expected(pa, x, i, k1, q)
			r.check(msg == "", "centers", name, where, msg, tr...)
		}
	}
	m.store()
	m.counts()
}

// altered gives the centers that are altered to make the proposal
func (m *mcmc) altered(q *mcmcProp, f *Facts, arg, i *Term) ([]elemCase, string) {
	cs, ok := m.it.cellCases(q.st, f, arg, i)
	if !ok {
		return nil, "the altered centers are not understood"
	}
	var out []elemCase
	for _, c := range cs {
		var sample *Event
		st := q.st
		if c.back != nil {
			st = c.back.St
		}
		for _, ev := range callsTo(st, "Distrib.Sample") {
			v := ev.Res
			if c.back != nil {
				v = Subst(v, map[*Term]*Term{c.inst.K: c.k})
			}
			if v == c.val {
				sample = ev
			}
		}
		if sample == nil {
			return nil, "a proposed center is not altered by the distribution: " + clip(c.val.String(), 80)
		}
		a := sample.Args
		mu, t := a[0], a[1]
		if c.back != nil {
			mu = Subst(mu, map[*Term]*Term{c.inst.K: c.k})
		}
		if !m.isDataLen(q.st, t) {
			return nil, "the alteration does not use the number of data as time"
		}
		xs, ok := m.it.expand(q.st, elemCase{f: c.f, val: mu})
		if !ok {
			return nil, "the centers to alter are not understood: " + clip(mu.String(), 80)
		}
		out = append(out, xs...)
	}
	if len(out) == 0 {
		return nil, "the altered centers are not understood"
	}
	return out, ""
}

// expected: the centers for k1 clusters are those kept, or the current ones with one added, one removed or unchanged
func (m *mcmc) expected(pa *Path, x elemCase, i, k1 *Term, q *mcmcProp) string {
	f := x.f
	k0 := m.k0()
	v := x.val
	// kept
	var kept, asked *Event
	for _, ev := range eventsOf(pa.St, "mapget", "") {
		if isClustMap(ev.Recv) && f.Entails(Eq(ev.Args[0], k1)) {
			asked = ev
			if f.Entails(U.mk("maphas", "", nil, types.Typ[types.Bool], ev.Recv, ev.Args[0])) {
				kept = ev
			}
		}
	}
	if kept != nil {
		if sameElem(f, v, at(kept.Res, i)) {
			return ""
		}
		return "the centers kept for this k are not used"
	}
	if asked == nil {
		return "the centers kept for this k are not looked for"
	}
	copied := func(j *Term) bool {
		c, ok := isCall(v, "Space.Copy")
		return ok && c[0] == m.space && sameElem(f, c[1], at(m.cent, j))
	}
	switch {
	case f.Entails(Eq(k1, k0)):
		if sameElem(f, v, at(m.cent, i)) || copied(i) {
			return ""
		}
		return "the current centers are not used although their number does not change"
	case f.Entails(Eq(k1, Add(k0, Num(1)))):
		if f.Entails(Lt(i, k0)) {
			if copied(i) || sameElem(f, v, at(m.cent, i)) {
				return ""
			}
			return "a current center is lost or moved when one is added"
		}
		for _, ev := range callsTo(pa.St, "kmeans.PPIter") {
			if v == resultOf(ev, 0) {
				switch {
				case !f.Entails(Eq(resultOf(ev, 1), Nil)):
					return "a center is added although none could be drawn"
				case ev.Args[0] != m.cent || !m.sameData(pa.St, ev.Args[1]) || ev.Args[2] != m.space:
					return "the added center is not drawn among the data, given the current centers"
				}
				return ""
			}
		}
		return "the added center is not drawn by a k-means++ step"
	case f.Entails(Eq(k1, Sub(k0, Num(1)))):
		// one position is removed
		for _, ev := range eventsOf(pa.St, "draw", "Intn") {
			d := ev.Res
			if !f.Entails(Eq(ev.Args[0], k0)) {
				continue
			}
			g := f
			if g.Entails(Lt(i, d)) && (copied(i) || sameElem(g, v, at(m.cent, i))) {
				return ""
			}
			if g.Entails(Le(d, i)) && (copied(Add(i, Num(1))) || sameElem(g, v, at(m.cent, Add(i, Num(1))))) {
				return ""
			}
		}
		return "the remaining centers are not the current ones without one drawn at random: " + clip(v.String(), 80)
	}
	return "the number of centers is not the current one, nor one more, nor one less"
}

// store: centers are kept under their number
func (m *mcmc) store() {
	r := m.r
	n := 0
	for _, fn := range r.p.funcs {
		if !r.p.lib(fn) {
			continue
		}
		hit := false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if mu, ok := in.(*ssa.MapUpdate); ok && isClustMap(&Term{Typ: mu.Map.Type()}) {
					hit = true
				}
			}
		}
		if !hit || fn.Parent() != nil {
			continue
		}
		n++
		s := r.symFn(fnShort(fn), fn, Options{Opaque: r.p.opaque("kmeans.WeightedChoice", "kmeans.PPIter")}, nil)
		for _, pa := range s.returns() {
			for _, ev := range eventsOf(pa.St, "mapset", "") {
				if isClustMap(ev.Recv) {
					r.check(ev.Facts.Entails(Eq(ev.Args[0], mkLen(ev.Args[1]))), "store", fnShort(fn), r.p.pos(ev.Pos), "centers are kept under another number than theirs")
				}
			}
		}
	}
	if n == 0 {
		r.bad("store", "none", "", "no accepted centers are kept for their number")
	}
}

// counts: the strategies return as many centers as they are given
func (m *mcmc) counts() {
	r := m.r
	r.need("strategy", 2)
	for _, t := range r.p.implementing("mcmc.Strategy") {
		for _, fn := range r.p.methods(t, true) {
			if fn.Name() != "Iterate" {
				continue
			}
			opt := Options{Cands: func(st *State, in *LoopInst) []*Term {
				var out []*Term
				for _, v := range in.Vars {
					if v.Typ == nil {
						continue
					}
					if _, ok := v.Typ.Underlying().(*types.Slice); ok {
						out = append(out, Eq(mkLen(v.Var), mkLen(v.Init)))
					}
				}
				return out
			}}
			// the reductions return as many centroids as they are given (C16, C17, C18)
			opt.Opaque = r.p.opaque("core.Clust.ReduceDBA", "core.Clust.ParReduceDBA")
			opt.CallFacts = func(e *Exec, st *State, ev *Event) []*Term {
				if ev.Kind != "extcall" || !strings.HasSuffix(ev.Name, "ReduceDBA") {
					return nil
				}
				clust, split := e.load(st, ev.Args[0], elemTypeOf(ev.Args[0].Typ))
				if split != nil {
					return nil
				}
				return []*Term{Eq(mkLen(resultOf(ev, 0)), mkLen(clust))}
			}
			s := r.symFn(fnShort(fn), fn, opt, nil)
			clust := s.a[3]
			for _, pa := range s.returns() {
				f := pa.St.facts
				f, ok := feasible(f, Le(Num(1), mkLen(clust)))
				if len(pa.Res) != 1 || !ok {
					continue
				}
				r.check(same(f, mkLen(pa.Res[0]), mkLen(clust)), "strategy", fnShort(fn), s.pos(), "does not return as many centers as it was given: "+clip(pa.Res[0].String(), 80), trail(r.p, pa.St, 20)...)
			}
		}
	}
}

// ---- C26 ----

func ruleC26(r *Report) {
	m := r.newMcmc()
	if m == nil {
		return
	}
	r.need("initial", 5)
	if !m.initial(true) {
		return
	}
	get := r.confGetter(m.it, m.conf, "mcmc.Conf")
	if get == nil {
		r.bad("anchor", "mcmc.Impl.Iterate", m.it.pos(), "the configuration is not read")
		return
	}
	r.need("rule", 20)
	r.need("accepted", 10)
	r.need("rejected", 10)
	m.findAcc()
	if m.acc == nil {
		r.bad("anchor", "mcmc.Impl.Iterate/acceptations", m.it.pos(), "the number of acceptations is not exposed as a figure")
		return
	}
	var uniform *Term
	for _, pa := range m.it.returns() {
		f, ok := m.invariant(pa, get)
		if !ok {
			continue
		}
		q := m.proposal(pa, f, "proposal")
		if q == nil {
			continue
		}
		tr := trail(r.p, pa.St, 40)
		where := m.it.pos()
		// loss and density of the proposal
		losses := callsTo(pa.St, "Strategy.Loss")
		var l1 *Event
		for _, ev := range losses {
			if ev.Args[2] == q.centers {
				l1 = ev
			}
		}
		if l1 == nil || l1.Args[1] != m.space || !m.sameData(pa.St, l1.Args[3]) {
			r.bad("proposal", "loss", where, "the loss of the proposed centers over the data is not computed", tr...)
			continue
		}
		// the uniform draw
		var u *Event
		for _, ev := range eventsOf(pa.St, "draw", "") {
			if strings.HasPrefix(ev.Res.Op, "uniform") || strings.HasPrefix(ev.Res.Op, "rand01") {
				if u != nil {
					u = nil
					break
				}
				u = ev
			}
		}
		if u == nil {
			r.bad("rule", "draw", where, "not exactly one uniform number is drawn to accept or reject", tr...)
			continue
		}
		if strings.HasPrefix(u.Res.Op, "uniform") {
			uniform = u.Res
		}
		p1 := m.density(pa.St, f, q)
		k0, k1 := m.k0(), mkLen(q.ev.Args[2])
		dim := loadOf(m.dim)
		lambda := Mul(get("Amp"), mkSqrt(Mul(Add(dim, Num(3)), Inv(q.n))))
		// sizes that are the same number
		eq := map[*Term]*Term{mkLen(m.cent): k0}
		if m.cen != nil && m.k != nil {
			eq[mkLen(loadOf(m.cen))] = k0
		}
		for _, ev := range eventsOf(pa.St, "mapget", "") {
			if isClustMap(ev.Recv) {
				eq[mkLen(ev.Res)] = ev.Args[0]
			}
		}
		k1 = Subst(k1, eq)
		same1 := []*Term{k1}
		ks := []*Term{Num(1), k0, AddN(k0, 1), AddN(k0, -1), get("MaxK"), q.n}
		for _, ev := range eventsOf(pa.St, "mapget", "") {
			if isClustMap(ev.Recv) {
				ks = append(ks, ev.Args[0])
			}
		}
		for _, t := range ks {
			if t != k1 && f.Entails(Eq(t, k1)) {
				same1 = append(same1, t)
			}
		}
		eq[mkLen(q.centers)] = k1
		norm := func(t *Term) *Term { return Subst(t, eq) }
		rule := map[*Term]int{}
		var accept *Term
		for _, k1 := range same1 {
			E := Add(Add(Mul(lambda, Sub(loadOf(m.loss), l1.Res)), Mul(mkLog(Mul(Num(2), get("B"))), Mul(dim, Sub(k0, k1)))), Sub(loadOf(m.pdf), p1))
			accept = norm(Lt(u.Res, mkExp(E)))
			rule[accept], rule[norm(Not(Lt(u.Res, mkExp(E))))] = 1, -1
		}
		accepted := 0
		other := ""
		for _, l := range f.all() {
			if !Contains(l, u.Res) {
				continue
			}
			n := norm(l)
			if rule[n] != 0 {
				accepted = rule[n]
			} else if Any(l, func(t *Term) bool { return t.Op == "exp" }) {
				// the bounds of the draw are known facts
				other = n.String()
			}
		}
		if accepted == 0 {
			r.bad("rule", "condition", where, "the proposal is not accepted or rejected by the Metropolis-Hastings rule: "+clip(other, 500)+" instead of "+clip(accept.String(), 500), tr...)
			continue
		}
		r.ok("rule", "condition")
		cur := func(a *Term) *Term { return m.it.now(pa.St, a) }
		var sets []*Event
		for _, ev := range eventsOf(pa.St, "mapset", "") {
			if isClustMap(ev.Recv) {
				sets = append(sets, ev)
			}
		}
		if accepted > 0 {
			r.check(pa.Res[0] == q.centers, "accepted", "centroids", where, "an accepted proposal is not returned", tr...)
			if m.k != nil {
				r.check(same(f, norm(cur(m.k)), norm(k1)), "accepted", "k", where, "k is not that of the accepted proposal", tr...)
			}
			if m.cen != nil {
				r.check(cur(m.cen) == q.centers, "accepted", "centers", where, "the centers of the state are not those of the accepted proposal", tr...)
			}
			r.check(cur(m.loss) == l1.Res, "accepted", "loss", where, "the loss of the state is not that of the accepted proposal", tr...)
			r.check(cur(m.pdf) == p1, "accepted", "density", where, "the density of the state is not that of the accepted proposal", tr...)
			r.check(eqUnder(f, cur(m.acc), Add(loadOf(m.acc), Num(1))), "accepted", "count", where, "an acceptation is not counted once", tr...)
			r.check(len(sets) == 1 && sets[0].Args[1] == q.centers && same(f, norm(sets[0].Args[0]), norm(k1)), "accepted", "store", where, "the accepted centers are not kept for their number", tr...)
			continue
		}
		r.check(pa.Res[0] == m.cent, "rejected", "centroids", where, "a rejected proposal changes the centroids", tr...)
		for n, a := range map[string]*Term{"k": m.k, "centers": m.cen, "loss": m.loss, "density": m.pdf, "count": m.acc} {
			if a != nil {
				r.check(cur(a) == loadOf(a), "rejected", n, where, "a rejected proposal changes the "+n+" of the state", tr...)
			}
		}
		r.check(len(sets) == 0, "rejected", "store", where, "rejected centers are kept", tr...)
		r.check(cur(m.dim) == loadOf(m.dim), "rejected", "dimension", where, "the dimension changes", tr...)
	}
	m.unit(uniform)
	m.losses()
}

// density: the density of the proposed centers
func (m *mcmc) density(st *State, f *Facts, q *mcmcProp) *Term {
	n := mkLen(q.centers)
	if f.Entails(Le(n, Num(0))) {
		return Num(0)
	}
	var d *Term
	for _, ev := range q.st.trace.Events() {
		for _, t := range append(append([]*Term{}, ev.Args...), ev.Res) {
			if t != nil && d == nil {
				Any(t, func(x *Term) bool {
					if a, ok := isCall(x, "Distrib.Pdf"); ok && d == nil {
						d = a[0]
					}
					return d != nil
				})
			}
		}
	}
	if d == nil {
		for _, l := range f.all() {
			Any(l, func(x *Term) bool {
				if a, ok := isCall(x, "Distrib.Pdf"); ok && d == nil {
					d = a[0]
				}
				return d != nil
			})
		}
	}
	if d == nil {
		return U.mk("missing", "density", nil, types.Typ[types.Float64])
	}
	sig := m.pdfSig()
	if sig == nil {
		return U.mk("missing", "density", nil, types.Typ[types.Float64])
	}
	return sumOver(n, func(k *Term) *Term {
		return U.mk("call", "Distrib.Pdf", nil, types.Typ[types.Float64], d, at(q.centers, k), at(q.centers, k), q.n)
	})
}

func (m *mcmc) pdfSig() types.Type { return types.Typ[types.Float64] }

// findAcc finds the counter exposed as the figure of acceptations
func (m *mcmc) findAcc() {
	name := m.r.p.ConstVal("mcmc.Acceptations")
	for _, pa := range m.it.returns() {
		for _, ev := range eventsOf(pa.St, "mapset", "") {
			if len(ev.Args) == 2 && ev.Args[0] == name {
				for _, a := range leavesThrough(m.it.a[0], 0) {
					if ev.Args[1] == loadOf(a) {
						m.acc = a
					}
				}
			}
		}
	}
}

// unit: the draw is uniform between 0 and 1, as built by every constructor
func (m *mcmc) unit(u *Term) {
	if u == nil {
		return
	}
	r := m.r
	lo := fieldOfUniform(u, "Min")
	hi := fieldOfUniform(u, "Max")
	check := func(where string, a, b *Term) {
		r.check(a != nil && b != nil && a.IsInt(0) && b.IsInt(1), "unit", where, "", "the draw is not uniform between 0 and 1")
	}
	if lo == nil || hi == nil {
		r.bad("unit", "draw", "", "the bounds of the uniform draw are not known")
		return
	}
	if lo.Op != "load" || hi.Op != "load" {
		check("draw", lo, hi)
		return
	}
	// fields of the implementation: set by its constructors, never changed
	n := 0
	t := elemTypeOf(m.it.a[0].Typ)
	for _, fn := range r.p.funcs {
		if fn.Parent() != nil || !r.p.lib(fn) || fn.Signature.Results().Len() == 0 || len(fn.Blocks) == 0 {
			continue
		}
		if !types.Identical(fn.Signature.Results().At(0).Type(), t) {
			continue
		}
		s := r.symFn(fnShort(fn), fn, Options{}, nil)
		for _, pa := range s.returns() {
			n++
			rd := func(addr *Term) *Term { return readPath(pa.Res[0], t, addr, m.it.a[0]) }
			check(fnShort(fn), rd(lo.Args[0]), rd(hi.Args[0]))
		}
	}
	if n == 0 {
		r.bad("unit", "constructors", "", "no constructor of the implementation was found")
	}
	for _, s := range []*symRun{m.it, m.ini} {
		for _, pa := range s.returns() {
			for _, x := range []*Term{lo, hi} {
				a := Subst(x.Args[0], map[*Term]*Term{m.it.a[0]: s.a[0]})
				r.check(s.value(pa.St, a) == loadOf(a), "unit", s.name, s.pos(), "the bounds of the uniform draw change")
			}
		}
	}
}

func fieldOfUniform(u *Term, name string) *Term {
	if len(u.Args) == 0 {
		return nil
	}
	return fieldNamed(u.Args[0], name)
}

// readPath reads in a struct value the field that has the given address in an object
func readPath(v *Term, t types.Type, addr, obj *Term) *Term {
	if addr == obj {
		return v
	}
	if addr.Op != "fieldaddr" {
		return nil
	}
	base := readPath(v, t, addr.Args[0], obj)
	if base == nil {
		return nil
	}
	ref := addr.Ref.(FieldRef)
	return mkField(base, ref.T, ref.I)
}

// losses: the loss of a strategy is the total loss of the given centers
func (m *mcmc) losses() {
	r := m.r
	r.need("loss", 2)
	opt := Options{Opaque: r.p.opaque("core.Clust.TotalLoss", "core.Clust.ParTotalLoss")}
	for _, t := range r.p.implementing("mcmc.Strategy") {
		for _, fn := range r.p.methods(t, true) {
			if fn.Name() != "Loss" {
				continue
			}
			s := r.symFn(fnShort(fn), fn, opt, nil)
			norm := getter(s.a[1])("Norm")
			for _, pa := range s.returns() {
				good := false
				for _, ev := range pa.St.trace.Events() {
					if ev.Kind == "extcall" && strings.Contains(ev.Name, "TotalLoss") && ev.Res == pa.Res[0] {
						c := ev.Args[0]
						if ev.Recv != nil {
							c = ev.Recv
						}
						if c.Typ != nil {
							if _, ok := c.Typ.Underlying().(*types.Pointer); ok {
								c = s.value(pa.St, c)
							}
						}
						good = c == s.a[3] && ev.Args[1] == s.a[4] && ev.Args[2] == s.a[2] && ev.Args[3] == norm
					}
				}
				r.check(good, "loss", fnShort(fn), s.pos(), "is not the total loss of the given centers over the given data, with the configured norm", trail(r.p, pa.St, 20)...)
			}
		}
	}
}
