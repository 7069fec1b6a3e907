package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rulesByID["C28"] = &Rule{run: ruleC28, assumptions: append([]string{
		"the numbers are reals (rounding is ignored), distances are not negative, and the first distance ever met is not null",
		"an iteration starts with at least one center and as many counts as centers: both are what initialization and every iteration are shown to leave"}, seqAssumptions...),
		explanation: seqExplanation + ": every path of the streaming implementation's Push, Init and Iterate, with the state it starts from and the one it leaves"}
}

// streamState is the state of the streaming implementation, found by its types
type streamState struct {
	impl                           types.Type
	queue, clust, cards, count, mx string
}

func (r *Report) streamState(ptr types.Type) (ss streamState, ok bool) {
	st := structOf(elemTypeOf(ptr))
	if st == nil {
		return ss, false
	}
	ss.impl = elemTypeOf(ptr)
	for _, f := range flatFields(st) {
		switch t := f.Type().Underlying().(type) {
		case *types.Chan:
			ss.queue = f.Name()
		case *types.Slice:
			if b, isB := t.Elem().Underlying().(*types.Basic); isB && b.Info()&types.IsInteger != 0 {
				ss.cards = f.Name()
			} else if _, isI := t.Elem().Underlying().(*types.Interface); isI {
				ss.clust = f.Name()
			}
		case *types.Basic:
			if t.Info()&types.IsInteger != 0 {
				ss.count = f.Name()
			} else if t.Info()&types.IsFloat != 0 {
				ss.mx = f.Name()
			}
		}
	}
	return ss, ss.queue != "" && ss.clust != "" && ss.cards != "" && ss.count != "" && ss.mx != ""
}

// cells of the state before and after a path
type streamCells struct {
	clust0, cards0, count0, mx0, queue *Term
	clust, cards, count, mx            *Term
}

func (ss streamState) cells(s *symRun, pa *Path) (c streamCells, ok bool) {
	recv := s.a[0]
	f := func(n string) *Term { return loadOf(s.r.fieldAddr(recv, n)) }
	c.clust0, c.cards0, c.count0, c.mx0, c.queue = f(ss.clust), f(ss.cards), f(ss.count), f(ss.mx), f(ss.queue)
	v := func(n string) *Term { return s.value(pa.St, s.r.fieldAddr(recv, n)) }
	c.clust, c.cards, c.count, c.mx = v(ss.clust), v(ss.cards), v(ss.count), v(ss.mx)
	return c, c.clust != nil && c.cards != nil && c.count != nil && c.mx != nil && v(ss.queue) == c.queue
}

// unchanged: the path leaves the state as it was
func (c streamCells) unchanged(s *symRun, st *State) bool {
	return c.clust == c.clust0 && c.cards == c.cards0 && c.count == c.count0 && c.mx == c.mx0 && len(regionsAt(st, c.clust0)) == 0 && len(regionsAt(st, c.cards0)) == 0
}

// cellIs: a cell of a slice always has this value
func (s *symRun) cellIs(st *State, f *Facts, sl, i *Term, eq func(f *Facts, v *Term) bool) bool {
	cs, ok := s.cellCases(st, f, sl, i)
	for _, c := range cs {
		ok = ok && eq(c.f, c.val)
	}
	return ok && len(cs) > 0
}

// grown: the element was added to the centers, with a count of one
func (c streamCells) grown(s *symRun, st *State, f *Facts, e *Term) bool {
	n := mkLen(c.clust0)
	if !same(f, mkLen(c.clust), AddN(n, 1)) || !same(f, mkLen(c.cards), AddN(n, 1)) {
		return false
	}
	i := U.mk("probe", "i", nil, types.Typ[types.Int])
	g, ok := feasible(f, Le(Num(0), i), Lt(i, n))
	if ok && !(s.cellIs(st, g, c.clust, i, func(f *Facts, v *Term) bool { return sameElem(f, v, at(c.clust0, i)) }) &&
		s.cellIs(st, g, c.cards, i, func(f *Facts, v *Term) bool { return sameElem(f, v, at(c.cards0, i)) })) {
		return false
	}
	return s.cellIs(st, f, c.clust, n, func(f *Facts, v *Term) bool { return v == e }) &&
		s.cellIs(st, f, c.cards, n, func(f *Facts, v *Term) bool { return same(f, v, Num(1)) })
}

// updated: the element was averaged into its nearest center
func (c streamCells) updated(s *symRun, st *State, f *Facts, e, label, space *Term) bool {
	n := mkLen(c.clust0)
	if label == nil || !same(f, mkLen(c.clust), n) || !same(f, mkLen(c.cards), n) {
		return false
	}
	i := U.mk("probe", "i", nil, types.Typ[types.Int])
	g, ok := feasible(f, Le(Num(0), i), Lt(i, n), Not(Eq(i, label)))
	if ok && !(s.cellIs(st, g, c.clust, i, func(f *Facts, v *Term) bool { return sameElem(f, v, at(c.clust0, i)) }) &&
		s.cellIs(st, g, c.cards, i, func(f *Facts, v *Term) bool { return sameElem(f, v, at(c.cards0, i)) })) {
		return false
	}
	return s.cellIs(st, f, c.clust, label, func(f *Facts, v *Term) bool {
		y, ok := isCall(v, "Space.Combine")
		return ok && y[0] == space && combines(f, y[1:], at(c.clust0, label), at(c.cards0, label), e, Num(1))
	}) && s.cellIs(st, f, c.cards, label, func(f *Facts, v *Term) bool { return same(f, v, AddN(at(c.cards0, label), 1)) })
}

// settings substitutes the fields of the implementation that never change by what its constructor puts there
func (r *Report) settings(recv *Term, built *Term) func(*Term) *Term {
	m := map[*Term]*Term{}
	st := structOf(elemTypeOf(recv.Typ))
	if built != nil && built.Op == "struct" && st != nil && len(built.Args) == st.NumFields() {
		for i := 0; i < st.NumFields(); i++ {
			if r.p.neverStored(st.Field(i)) {
				expand(m, mkFieldAddr(recv, recv.Typ, i), built.Args[i])
			}
		}
	}
	return func(t *Term) *Term {
		if t == nil {
			return nil
		}
		return Subst(t, m)
	}
}

func expand(m map[*Term]*Term, addr, val *Term) {
	t, ok := elemTypeOf(addr.Typ).Underlying().(*types.Struct)
	if !ok {
		m[loadOf(addr)] = val
		return
	}
	for i := 0; i < t.NumFields(); i++ {
		expand(m, mkFieldAddr(addr, addr.Typ, i), mkField(val, elemTypeOf(addr.Typ), i))
	}
}

// neverStored: a field that is only written in an object that the writing function has just allocated
func (p *Prog) neverStored(v *types.Var) bool {
	if p.storedFields == nil {
		p.storedFields = map[*types.Var]bool{}
		var mark func(a ssa.Value)
		mark = func(a ssa.Value) {
			if fa, ok := a.(*ssa.FieldAddr); ok {
				if t := structOf(elemTypeOf(fa.X.Type())); t != nil {
					if _, fresh := fa.X.(*ssa.Alloc); !fresh {
						p.storedFields[t.Field(fa.Field)] = true
					}
				}
				mark(fa.X)
			}
		}
		for _, fn := range p.allFns() {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					switch x := in.(type) {
					case *ssa.Store:
						mark(x.Addr)
					case *ssa.FieldAddr:
						// an address given away may be written to
						for _, ref := range *x.Referrers() {
							switch y := ref.(type) {
							case *ssa.UnOp, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.DebugRef:
							case *ssa.Store:
								if y.Val == x {
									mark(x)
								}
							default:
								mark(x)
							}
						}
					}
				}
			}
		}
	}
	return !p.storedFields[v]
}

func ruleC28(r *Report) {
	r.need("new", 2)
	r.need("push", 2)
	r.need("init", 2)
	r.need("nothing", 1)
	r.need("once", 1)
	r.need("kind", 3)
	r.need("count", 1)
	r.need("max", 2)
	r.need("result", 1)
	r.need("figure", 1)
	s := r.sym("streaming.NewImpl", Options{})
	if s == nil {
		return
	}
	var built *Term
	for _, pa := range s.returns() {
		if built != nil && built != pa.Res[0] {
			r.bad("new", "NewImpl", s.pos(), "the new implementation depends on the path")
		}
		built = pa.Res[0]
		r.newStream(s, pa)
	}
	push, ini, it := r.sym("streaming.Impl.Push", Options{}), r.sym("streaming.Impl.Init", Options{}), r.sym("streaming.Impl.Iterate", Options{})
	if push == nil || ini == nil || it == nil {
		return
	}
	ss, ok := r.streamState(push.a[0].Typ)
	if !ok {
		r.bad("new", "Impl", s.pos(), "the queue, the centers, their counts, the number of elements and the maximal distance are not found")
		return
	}
	for _, pa := range push.returns() {
		r.streamPush(push, ss, pa)
	}
	for _, pa := range ini.returns() {
		r.streamInit(ini, ss, pa)
	}
	conf := r.settings(it.a[0], built)
	for _, pa := range it.returns() {
		r.streamIterate(it, ss, pa, s.a[0], conf)
	}
}

// newStream: the initial elements are queued in a buffer of the configured size
func (r *Report) newStream(s *symRun, pa *Path) {
	conf, elemts := s.a[0], s.a[1]
	f, tr := pa.St.facts, trail(r.p, pa.St, 20)
	var ch *Term
	Any(pa.Res[0], func(t *Term) bool {
		if t.Op == "makechan" {
			ch = t
		}
		return false
	})
	if ch == nil {
		r.bad("new", "NewImpl/queue", s.pos(), "no queue", tr...)
		return
	}
	r.check(same(f, ch.Args[0], fieldNamed(conf, "BufferSize")), "new", "NewImpl/size", s.pos(), "the queue has not the configured size", tr...)
	n := 0
	for _, ev := range pa.St.trace.Events() {
		if ev.Kind == "send" {
			r.bad("new", "NewImpl/extra", r.p.pos(ev.Pos), "an element is queued twice, or one that was not given", tr...)
		}
		if ev.Kind != "loopexit" || ev.Inst == nil {
			continue
		}
		in := ev.Inst
		for _, b := range in.Backs {
			var sent []*Event
			for _, e := range b.St.trace.Events() {
				if e.Kind == "send" && e.Recv == ch && order(b.St, in) < indexOf(b.St, e) {
					sent = append(sent, e)
				}
			}
			if len(sent) == 0 {
				r.bad("new", "NewImpl/elements", s.pos(), "an initial element may not be queued", tr...)
				continue
			}
			r.check(len(sent) == 1 && sameElem(b.St.facts, sent[0].Args[0], at(elemts, in.K)) && in.N != nil && same(b.St.facts, in.N, mkLen(elemts)) && exhausted(pa.St, in), "new", "NewImpl/elements", r.p.pos(sent[0].Pos), "the initial elements are not queued one by one, in order", tr...)
			n++
		}
	}
	if _, some := feasible(f, Lt(Num(0), mkLen(elemts))); n == 0 && some {
		r.bad("new", "NewImpl/none", s.pos(), "the initial elements are not queued", tr...)
	}
}

func indexOf(st *State, ev *Event) int {
	for i, e := range st.trace.Events() {
		if e == ev {
			return i
		}
	}
	return -1
}

// queueOps gives what a path does with the queue; false when it may block
func (c streamCells) queueOps(pa *Path) (send, recv []*Event, ok bool) {
	ok = true
	for _, ev := range pa.St.trace.Events() {
		switch ev.Kind {
		case "send":
			send = append(send, ev)
		case "recv":
			recv = append(recv, ev)
		default:
			continue
		}
		sel := len(ev.Args) > 0 && ev.Args[len(ev.Args)-1] == True
		ok = ok && ev.Recv == c.queue && sel
	}
	return
}

func (r *Report) streamPush(s *symRun, ss streamState, pa *Path) {
	f, tr := pa.St.facts, trail(r.p, pa.St, 20)
	c, ok := ss.cells(s, pa)
	r.check(ok && c.unchanged(s, pa.St), "push", "Push/state", s.pos(), "a push changes the centers or their counts", tr...)
	send, recv, ok := c.queueOps(pa)
	r.check(ok && len(recv) == 0 && len(send) <= 1, "push", "Push/block", s.pos(), "a push may block, or touches the queue otherwise than by adding its element once", tr...)
	err := pa.Res[0]
	if len(send) == 1 {
		r.check(send[0].Args[0] == s.a[1], "push", "Push/element", s.pos(), "another element is queued", tr...)
		r.check(f.Entails(Eq(err, Nil)), "push", "Push/accepted", s.pos(), "an error is returned although the element is queued", tr...)
		return
	}
	r.check(r.p.notNil(f, err), "push", "Push/full", s.pos(), "an element is lost without an error", tr...)
}

func (r *Report) streamInit(s *symRun, ss streamState, pa *Path) {
	c, ok := ss.cells(s, pa)
	tr := trail(r.p, pa.St, 20)
	if !ok {
		r.bad("init", "Init/state", s.pos(), "the state left is not known", tr...)
		return
	}
	n := mkLen(c.clust0)
	f, feas := feasible(pa.St.facts, Eq(mkLen(c.cards0), n), Le(Num(0), n), Le(Num(0), c.mx0))
	if !feas {
		return
	}
	send, recv, ok := c.queueOps(pa)
	r.check(ok && len(send) == 0 && len(recv) <= 1, "init", "Init/queue", s.pos(), "initialization may block, or takes more than one element", tr...)
	clust, err := pa.Res[0], pa.Res[1]
	if len(recv) == 0 {
		r.check(r.p.notNil(f, err) && c.unchanged(s, pa.St), "init", "Init/empty", s.pos(), "no error, or another state, when there is no element", tr...)
		return
	}
	e := recv[0].Res
	r.check(f.Entails(Eq(err, Nil)), "init", "Init/error", s.pos(), "an error is returned although there was an element", tr...)
	r.check(c.grown(s, pa.St, f, e), "init", "Init/center", s.pos(), "the first element does not become a center with a count of one", tr...)
	r.check(same(f, c.mx, c.mx0) && same(f, c.count, c.count0), "init", "Init/figures", s.pos(), "the maximal distance or the number of elements changes", tr...)
	r.check(same(f, mkLen(clust), Num(1)) && s.cellIs(pa.St, f, clust, Num(0), func(f *Facts, v *Term) bool { return v == e }), "init", "Init/result", s.pos(), "the centroids are not the first element", tr...)
}

func (r *Report) streamIterate(s *symRun, ss streamState, pa *Path, given *Term, conf func(*Term) *Term) {
	c, ok := ss.cells(s, pa)
	tr := trail(r.p, pa.St, 30)
	if !ok {
		r.bad("once", "Iterate/state", s.pos(), "the state left is not known", tr...)
		return
	}
	n := mkLen(c.clust0)
	f, feas := feasible(pa.St.facts, Eq(mkLen(c.cards0), n), Le(Num(1), n), Le(Num(0), c.mx0))
	if !feas {
		return
	}
	send, recv, ok := c.queueOps(pa)
	r.check(ok && len(send) == 0 && len(recv) <= 1, "once", "Iterate/queue", s.pos(), "an iteration may block, or takes more than one element", tr...)
	clust, figures, err := pa.Res[0], pa.Res[1], pa.Res[2]
	r.check(f.Entails(Eq(err, Nil)), "result", "Iterate/error", s.pos(), "an iteration fails", tr...)
	shown := false
	for _, ev := range pa.St.trace.Events() {
		if ev.Kind == "mapset" && ev.Recv == figures && ev.Args[0].Op == "str" && ev.Args[0].Aux == "maxDistance" {
			shown = same(f, ev.Args[1], c.mx)
		}
	}
	r.check(shown, "figure", "Iterate", s.pos(), "the maximal distance is not exposed", tr...)
	if len(recv) == 0 {
		r.check(c.unchanged(s, pa.St), "nothing", "Iterate", s.pos(), "the state changes without an element", tr...)
		r.check(clust == Nil, "nothing", "Iterate/result", s.pos(), "centroids are returned without an element", tr...)
		return
	}
	if len(recv) != 1 {
		return
	}
	e := recv[0].Res
	// distance to the nearest center
	var label, dist, space *Term
	for _, ev := range eventsOf(pa.St, "invoke", "OCModel.Space") {
		space = ev.Res
	}
	see := func(t *Term) {
		Any(t, func(x *Term) bool {
			if nearestOf(x, "argmin", e, space, c.clust0, f) {
				label = x
			}
			if nearestOf(x, "minof", e, space, c.clust0, f) {
				dist = x
			}
			return false
		})
	}
	for _, l := range f.all() {
		see(l)
	}
	for _, ev := range pa.St.trace.Events() {
		for _, a := range ev.Args {
			if a != nil {
				see(a)
			}
		}
	}
	if dist == nil {
		r.bad("kind", "Iterate/distance", s.pos(), "the element is not compared with its nearest center", tr...)
		return
	}
	lits := []*Term{Le(Num(0), dist)}
	if label != nil {
		lits = append(lits, Le(Num(0), label), Lt(label, n))
	}
	if f, feas = feasible(f, lits...); !feas {
		return
	}
	// the first distance becomes the maximal distance
	for _, first := range []bool{true, false} {
		mx, g, ok := c.mx0, f, false
		if first {
			mx = dist
			g, ok = feasible(f, Eq(c.mx0, Num(0)), Lt(Num(0), dist))
		} else {
			g, ok = feasible(f, Lt(Num(0), c.mx0))
		}
		if !ok {
			continue
		}
		r.streamCase(s, pa, c, g, e, label, dist, mx, space, given, conf, tr)
	}
	r.check(same(f, c.count, AddN(c.count0, 1)), "count", "Iterate", s.pos(), "the number of elements does not grow by one", tr...)
	// the result is a copy of the centers
	i := U.mk("probe", "j", nil, types.Typ[types.Int])
	res := same(f, mkLen(clust), mkLen(c.clust)) && clust != c.clust && clust != c.clust0
	if g, ok := feasible(f, Le(Num(0), i), Lt(i, mkLen(clust))); ok && res {
		cs, ok := s.cellCases(pa.St, g, clust, i)
		res = ok && len(cs) > 0
		for _, x := range cs {
			res = res && s.cellIs(pa.St, x.f, c.clust, i, func(f *Facts, v *Term) bool { return sameElem(f, v, x.val) })
		}
	}
	r.check(res, "result", "Iterate", s.pos(), "the centroids returned are not a copy of the centers", tr...)
}

// streamCase checks what becomes of an element, given the maximal distance it is compared with
func (r *Report) streamCase(s *symRun, pa *Path, c streamCells, f *Facts, e, label, dist, mx, space, given *Term, conf func(*Term) *Term, tr []string) {
	for _, l := range f.all() {
		if m := conf(l); m != l {
			f = f.Add(m)
		}
	}
	after, ratio := fieldNamed(given, "OutAfter"), fieldNamed(given, "OutRatio")
	rel := Div(dist, mx)
	if mx == dist {
		rel = Num(1)
	}
	out := f.Entails(Le(after, c.count0)) && f.Entails(Lt(ratio, rel))
	in := f.Entails(Lt(c.count0, after)) || f.Entails(Le(rel, ratio))
	grown := c.grown(s, pa.St, f, e)
	if out {
		r.check(grown, "kind", "Iterate/outlier", s.pos(), "an outlier does not become a center of its own", tr...)
		r.check(same(f, c.mx, mx), "max", "Iterate/outlier", s.pos(), "the maximal distance is changed by an outlier", tr...)
		return
	}
	if !in {
		r.bad("kind", "Iterate/condition", s.pos(), "the element may be an outlier or not: it is not decided by OutAfter and OutRatio", tr...)
		return
	}
	switch {
	case f.Entails(Le(dist, mx)):
		r.check(same(f, c.mx, mx), "max", "Iterate/lower", s.pos(), "the maximal distance is changed by a lower distance", tr...)
	case f.Entails(Lt(mx, dist)):
		r.check(same(f, c.mx, dist), "max", "Iterate/greater", s.pos(), "the maximal distance is not the greatest one", tr...)
	default:
		lo, up := f.Add(Le(dist, mx)), f.Add(Lt(mx, dist))
		r.check(same(lo, c.mx, mx) && same(up, c.mx, dist), "max", "Iterate/any", s.pos(), "the maximal distance is not the greatest one", tr...)
	}
	var draws []*Event
	for _, ev := range pa.St.trace.Events() {
		if (ev.Kind == "extcall" || ev.Kind == "draw") && strings.Contains(ev.Name, "Rand") {
			draws = append(draws, ev)
		}
	}
	if len(draws) != 1 {
		r.bad("kind", "Iterate/draw", s.pos(), "not exactly one threshold is drawn", tr...)
		return
	}
	ev := draws[0]
	normal := strings.HasSuffix(ev.Name, "distuv.Normal).Rand") && len(ev.Args) == 1
	if normal {
		a := conf(ev.Args[0])
		normal = a.Op == "struct" && len(a.Args) == 3 && a.Args[0] == fieldNamed(given, "Mu") && a.Args[1] == fieldNamed(given, "Sigma") && unface(a.Args[2]) == fieldNamed(given, "RGen")
	}
	r.check(normal, "kind", "Iterate/normal", r.p.pos(ev.Pos), "the threshold is not drawn from the configured normal distribution", tr...)
	t := ev.Res
	switch {
	case f.Entails(Lt(t, rel)):
		r.check(grown, "kind", "Iterate/new", s.pos(), "an element far from every center does not become a center of its own", tr...)
	case f.Entails(Le(rel, t)):
		r.check(c.updated(s, pa.St, f, e, label, space), "kind", "Iterate/update", s.pos(), "the element is not averaged into its nearest center, weighted by the count of that center", tr...)
	default:
		r.bad("kind", "Iterate/threshold", s.pos(), "the element is not compared with the threshold", tr...)
	}
}
