package main

import (
	"fmt"
	"go/types"
	"strings"
)

var dtwAssumptions = append(append([]string{}, seqAssumptions...),
	"series are not empty, the window is not negative, and distances between points are finite")

func init() {
	rulesByID["C22"] = &Rule{run: ruleC22, assumptions: dtwAssumptions,
		explanation: seqExplanation + "; the matrix of the accumulated costs is followed through its layout: positions are proved to be distinct and in range, every pair of the window to be filled once, after its predecessors, with the recurrence; the path is proved to go to a least predecessor at every step"}
}

func ruleC22(r *Report) {
	r.need("window", 4)
	r.need("layout", 3)
	r.need("filled", 3)
	r.need("recurrence", 3)
	r.need("path", 3)
	r.need("distance", 3)
	if m := r.costMatrix(); m != nil {
		m.check()
	}
	r.dtwDistance()
}

// costMatrix is the matrix that is built from two series
type costMatrix struct {
	r         *Report
	s         *symRun
	get       *symRun
	pa        *Path
	st        *State
	f         *Facts
	res       *Term // the matrix
	root      *Term // where the costs are
	l1, l2, w *Term
	tr        []string
}

func (r *Report) costMatrix() *costMatrix {
	s := r.symIf("dtw.NewCumCostMatrix", Options{}, func(a []*Term) []*Term {
		return []*Term{Le(Num(1), mkLen(a[0])), Le(Num(1), mkLen(a[1])), Le(Num(0), a[3])}
	})
	get := r.sym("dtw.CumCostMatrix.Get", Options{})
	if s == nil || get == nil {
		return nil
	}
	if len(s.a) != 4 || len(get.a) != 3 {
		r.bad("anchor", "dtw.NewCumCostMatrix", s.pos(), "the arguments are not two series, a space and a window")
		return nil
	}
	return &costMatrix{r: r, s: s, get: get, l1: mkLen(s.a[0]), l2: mkLen(s.a[1]), w: s.a[3]}
}

// cell is what Get returns under some facts: a cost of the matrix, or nothing (infinity)
type costCell struct {
	lits []*Term
	idx  *Term
}

// at gives what Get returns at a pair of positions
func (m *costMatrix) at(i, j *Term) []costCell {
	sub := map[*Term]*Term{m.get.a[1]: i, m.get.a[2]: j}
	recv := m.get.a[0]
	eval := func(t *Term) *Term {
		t = Subst(t, sub)
		if structOf(recv.Typ) != nil && !isPtr(recv.Typ) {
			return Subst(t, map[*Term]*Term{recv: m.res})
		}
		ld := map[*Term]*Term{}
		Any(t, func(x *Term) bool {
			if x.Op == "load" && x.Args[0].Op == "fieldaddr" && x.Args[0].Args[0] == recv {
				if ref, ok := x.Args[0].Ref.(FieldRef); ok {
					ld[x] = mkField(m.res, m.res.Typ, ref.I)
				}
			}
			return false
		})
		return Subst(t, ld)
	}
	var out []costCell
	for _, pa := range m.get.returns() {
		c := costCell{}
		for _, l := range pa.St.facts.all() {
			c.lits = append(c.lits, eval(l))
		}
		v := eval(pa.Res[0])
		switch {
		case v.Op == "inf" && v.Aux == "1":
		case v.Op == "elem" && v.Args[0] == m.root:
			c.idx = v.Args[1]
		default:
			c.idx = U.mk("missing", v.String(), nil, v.Typ)
		}
		out = append(out, c)
	}
	return out
}

// inside are the facts of a pair that is in the window and in the matrix
func (m *costMatrix) inside(f *Facts, i, j *Term) []*Term {
	l := []*Term{Le(Num(0), i), Lt(i, m.l1), Le(Num(0), j), Lt(j, m.l2)}
	if !f.Entails(Eq(m.w, Num(0))) {
		l = append(l, Le(Sub(i, j), m.w), Le(Sub(j, i), m.w))
	}
	return l
}

func (m *costMatrix) bad(rule, what, msg string, args ...interface{}) {
	m.r.bad(rule, what, m.s.pos(), fmt.Sprintf(msg, args...), m.tr...)
}

func (m *costMatrix) check() {
	for _, pa := range m.s.returns() {
		for _, free := range []bool{true, false} {
			lit := Eq(m.w, Num(0))
			if !free {
				lit = Lt(Num(0), m.w)
			}
			f, ok := feasible(pa.St.facts, lit)
			if !ok {
				continue
			}
			m.pa, m.st, m.f, m.tr = pa, pa.St, f, trail(m.r.p, pa.St, 15)
			m.checkPath(free)
		}
	}
}

func (m *costMatrix) checkPath(free bool) {
	m.res = unface(m.pa.Res[0])
	if m.res.Op == "alloc" || m.res.Op == "pobj" {
		st := structOf(elemTypeOf(m.res.Typ))
		var args []*Term
		for i := 0; st != nil && i < st.NumFields(); i++ {
			v := m.s.value(m.st, mkFieldAddr(m.res, m.res.Typ, i))
			if v == nil {
				v = U.mk("missing", st.Field(i).Name(), nil, st.Field(i).Type())
			}
			args = append(args, v)
		}
		m.res = U.mk("struct", typKey(elemTypeOf(m.res.Typ)), elemTypeOf(m.res.Typ), elemTypeOf(m.res.Typ), args...)
	}
	st := structOf(m.res.Typ)
	if m.res.Op != "struct" || st == nil {
		m.bad("layout", "matrix", "the matrix is not known: %s", clip(m.res.String(), 100))
		return
	}
	m.root = nil
	var path *Term
	for i := 0; i < st.NumFields(); i++ {
		switch typKey(st.Field(i).Type()) {
		case "[]float64":
			m.root = m.res.Args[i]
		case "[]dtw.Ends", "[]" + modPath + "/dtw.Ends":
			path = m.res.Args[i]
		}
	}
	if m.root == nil || m.root.Op != "makeslice" || path == nil {
		m.bad("layout", "matrix", "the costs or the path are not found")
		return
	}
	m.window(free)
	if m.layout() {
		m.fill()
	}
	m.warp(path)
}

// window: Get gives infinity outside of the window, and only there
func (m *costMatrix) window(free bool) {
	i := U.mk("param", "@i", nil, m.l1.Typ)
	j := U.mk("param", "@j", nil, m.l1.Typ)
	in, ok := feasible(m.f, m.inside(m.f, i, j)...)
	if !ok {
		return
	}
	for _, c := range m.at(i, j) {
		if c.idx == nil {
			_, some := feasible(in, c.lits...)
			m.r.check(!some, "window", "inside", m.get.pos(), "the cost of a pair in the window is infinite", m.tr...)
			continue
		}
		if free {
			m.r.ok("window", "unbounded")
			continue
		}
		for _, out := range []*Term{Lt(m.w, Sub(i, j)), Lt(m.w, Sub(j, i))} {
			g, some := feasible(m.f, Le(Num(0), i), Lt(i, m.l1), Le(Num(0), j), Lt(j, m.l2), out)
			if some {
				_, some = feasible(g, c.lits...)
			}
			m.r.check(!some, "window", "outside", m.get.pos(), "the cost of a pair outside of the window is not infinite", m.tr...)
		}
	}
}

// stride is the size of a row, from the number of the costs
func (m *costMatrix) stride() *Term {
	r := Num(0)
	for _, mo := range polyOf(m.root.Args[0]).ms {
		has := false
		t := Rat(mo.c)
		for _, x := range mo.atoms {
			switch {
			case x.a == m.l1 && !has:
				has = true
				t = Mul(t, PowInt(x.a, int(x.p)-1))
			default:
				t = Mul(t, PowInt(x.a, int(x.p)))
			}
		}
		if has {
			r = Add(r, t)
		}
	}
	return r
}

// layout: pairs of the window have different positions, in range
func (m *costMatrix) layout() bool {
	i := U.mk("param", "@i", nil, m.l1.Typ)
	j := U.mk("param", "@j", nil, m.l1.Typ)
	k := U.mk("param", "@k", nil, m.l1.Typ)
	S := m.stride()
	good := true
	is := func(ok bool, what, msg string) {
		good = m.r.check(ok, "layout", what, m.get.pos(), msg, m.tr...) && good
	}
	in, ok := feasible(m.f, m.inside(m.f, i, j)...)
	if !ok {
		return true
	}
	for _, c := range m.at(i, j) {
		if c.idx == nil {
			continue
		}
		f, ok := feasible(in, c.lits...)
		if !ok {
			continue
		}
		col := Sub(c.idx, Mul(i, S))
		is(f.Entails(Le(Num(0), col)), "row", "the position of a pair may be before its row")
		is(f.Entails(Lt(col, S)), "row", "the position of a pair may be after its row: "+clip(col.String(), 100)+" for rows of "+clip(S.String(), 60))
		// other pairs of the row
		other, ok := feasible(f, m.inside(f, i, k)...)
		if !ok {
			continue
		}
		for _, d := range m.at(i, k) {
			if d.idx == nil {
				continue
			}
			g, ok := feasible(other, d.lits...)
			if !ok {
				continue
			}
			for _, l := range []*Term{Lt(j, k), Lt(k, j)} {
				h, ok := feasible(g, l)
				if ok {
					_, ok = feasible(h, Eq(c.idx, d.idx))
				}
				is(!ok, "distinct", "two pairs of a row have the same position")
			}
		}
	}
	n := m.root.Args[0]
	is(m.f.Entails(Le(Mul(m.l1, S), n)), "size", "the number of costs is not that of the rows: "+clip(n.String(), 100))
	return good
}

// inner is a loop that fills a row, as found on a path of the loop over the rows
type costFill struct {
	outer, inner *LoopInst
	st           *State // after the row
}

// writesTo gives the positions written by an iteration
func writesTo(st *State, root *Term, ids ...string) (l []layer, ok bool) {
	ls := regionsOf(st, root)
	ok = true
	for i := len(ls) - 1; i >= 0; i-- {
		switch ls[i].kind {
		case "point":
			l = append(l, ls[i])
		case "havoc":
			return l, ok
		default:
			return l, false
		}
	}
	return l, ok
}

// fill: every pair of the window is filled, after its predecessors, with the recurrence
func (m *costMatrix) fill() {
	n := 0
	for _, ev := range m.st.trace.Events() {
		if ev.Kind != "loopexit" || ev.Inst == nil || !m.writes(ev.Inst) {
			continue
		}
		n++
		if n > 1 {
			m.bad("filled", "twice", "the costs are computed twice")
			return
		}
		m.rows(ev.Inst, exhausted(m.st, ev.Inst))
	}
	if n == 0 {
		m.bad("filled", "none", "the costs are not computed")
	}
}

// writes: the loop may write costs
func (m *costMatrix) writes(L *LoopInst) bool {
	for _, b := range L.Backs {
		if ls := regionsOf(b.St, m.root); len(ls) > len(regionsOf(L.Entry, m.root)) {
			for _, l := range ls {
				if l.kind == "point" || l.kind == "range" {
					return true
				}
				if l.kind == "havoc" && l.ver != L.ID {
					return true
				}
			}
		}
	}
	return false
}

func (m *costMatrix) rows(L *LoopInst, all bool) {
	r := m.r
	a := L.K
	r.check(all && L.N != nil && same(m.f, L.N, m.l1), "filled", "rows", m.s.pos(), "the costs of some points of the first series are not computed", m.tr...)
	j := U.mk("param", "@j", nil, m.l1.Typ)
	for _, b := range L.Backs {
		f := b.St.facts
		for _, l := range []*Term{Eq(m.w, Num(0)), Lt(Num(0), m.w)} {
			if m.f.Entails(l) {
				f = f.Add(l)
			}
		}
		tr := trail(r.p, b.St, 12)
		in, some := feasible(f, m.inside(f, a, j)...)
		if !some {
			continue
		}
		var row *Event
		many := false
		for _, ev := range b.St.trace.Events() {
			if ev.Kind == "loopexit" && ev.Inst != nil && ev.Inst != L && indexOf(b.St, ev) > order(b.St, L) && m.writes(ev.Inst) {
				many = many || row != nil
				row = ev
			}
		}
		if row == nil || many {
			r.bad("filled", "row", m.s.pos(), "a row is not computed once", tr...)
			continue
		}
		R := row.Inst
		// the position in the second series
		var col *Term
		for _, bb := range R.Backs {
			if c := m.column(bb, a); c != nil {
				if col != nil && col != c {
					r.bad("filled", "columns", m.s.pos(), "the positions of a row are not known", tr...)
				}
				col = c
			}
		}
		if col == nil || R.N == nil || !exhausted(b.St, R) {
			r.bad("filled", "columns", m.s.pos(), "the positions of a row are not known", tr...)
			continue
		}
		lo := Sub(col, R.K)
		r.check(!Contains(lo, R.K), "filled", "order", m.s.pos(), "the positions of a row are not computed one after the other", tr...)
		for _, out := range []*Term{Lt(j, lo), Le(Add(lo, R.N), j)} {
			_, miss := feasible(in, out)
			r.check(!miss, "filled", "window", m.s.pos(), "the cost of a pair of the window is not computed", tr...)
		}
		for _, bb := range R.Backs {
			m.step(bb, R, a, col)
		}
	}
}

// column gives the position in the second series of the cost computed by an iteration
func (m *costMatrix) column(b *Back, a *Term) *Term {
	ls, ok := writesTo(b.St, m.root)
	if !ok || len(ls) == 0 {
		return nil
	}
	var c *Term
	Any(ls[0].val, func(t *Term) bool {
		if x, ok := isCall(t, "PointSpace.PointDist"); ok && len(x) == 3 {
			for k := 1; k <= 2; k++ {
				if x[k].Op == "elem" && x[k].Args[0] == m.s.a[1] {
					c = x[k].Args[1]
				}
			}
		}
		return false
	})
	return c
}

// pointDist: the distance between the two points, in any order
func (m *costMatrix) pointDist(t, a, b *Term) bool {
	x, ok := isCall(t, "PointSpace.PointDist")
	if !ok || len(x) != 3 || x[0] != m.s.a[2] {
		return false
	}
	p, q := at(m.s.a[0], a), at(m.s.a[1], b)
	return x[1] == p && x[2] == q || x[1] == q && x[2] == p
}

// versions of the elements of the matrix found in terms
func (m *costMatrix) version(ts ...*Term) string {
	v := ""
	for _, t := range ts {
		Any(t, func(x *Term) bool {
			if x.Op == "elem" && x.Args[0] == m.root {
				v = x.Aux
			}
			return false
		})
	}
	return v
}

// read is a cost of the matrix; costs of the window are finite
func (m *costMatrix) read(idx *Term, ver string) *Term {
	return mkElem(m.root, idx, ver, elemTypeOf(m.root.Typ))
}

// leaves enumerates what may be known of the costs at some pairs
func (m *costMatrix) leaves(f *Facts, ver string, pairs [][2]*Term, do func(f *Facts, vals []*Term)) {
	var rec func(f *Facts, k int, vals []*Term)
	rec = func(f *Facts, k int, vals []*Term) {
		if k == len(pairs) {
			do(f, vals)
			return
		}
		for _, c := range m.at(pairs[k][0], pairs[k][1]) {
			g, ok := feasible(f, c.lits...)
			if !ok {
				continue
			}
			var v *Term
			if c.idx != nil {
				v = m.read(c.idx, ver)
				if g, ok = feasible(g, m.finite(g, v)...); !ok {
					continue
				}
			}
			rec(g, k+1, append(append([]*Term{}, vals...), v))
		}
	}
	rec(f, 0, nil)
}

// finite: the infinities met in the facts are greater than a cost
func (m *costMatrix) finite(f *Facts, v *Term) (l []*Term) {
	seen := map[*Term]bool{}
	for _, x := range f.all() {
		Any(x, func(t *Term) bool {
			if t.Op == "inf" && t.Aux == "1" && !seen[t] {
				seen[t] = true
				l = append(l, Lt(v, t))
			}
			return false
		})
	}
	return
}

// borders splits a case on the borders of the matrix
func borders(f *Facts, a, b *Term, do func(f *Facts, top, left bool)) {
	for _, top := range []bool{true, false} {
		for _, left := range []bool{true, false} {
			x, y := Eq(a, Num(0)), Eq(b, Num(0))
			if !top {
				x = Lt(Num(0), a)
			}
			if !left {
				y = Lt(Num(0), b)
			}
			if g, ok := feasible(f, x, y); ok {
				do(g, top, left)
			}
		}
	}
}

func preds(a, b *Term, top, left bool) (l [][2]*Term) {
	p, q := Sub(a, Num(1)), Sub(b, Num(1))
	if !top && !left {
		l = append(l, [2]*Term{p, q})
	}
	if !top {
		l = append(l, [2]*Term{p, b})
	}
	if !left {
		l = append(l, [2]*Term{a, q})
	}
	return
}

// step checks the cost computed by an iteration
func (m *costMatrix) step(b *Back, R *LoopInst, a, col *Term) {
	r := m.r
	f := b.St.facts
	tr := trail(r.p, b.St, 12)
	for _, l := range []*Term{Eq(m.w, Num(0)), Lt(Num(0), m.w)} {
		if m.f.Entails(l) {
			f = f.Add(l)
		}
	}
	f, ok := feasible(f, m.inside(f, a, col)...)
	ls, known := writesTo(b.St, m.root)
	if !known || len(ls) > 1 {
		r.bad("filled", "step", m.s.pos(), "an iteration does not compute one cost", tr...)
		return
	}
	if !ok {
		// outside of the matrix or of the window
		r.check(len(ls) == 0, "filled", "outside", m.s.pos(), "the cost of a pair outside of the window is computed", tr...)
		return
	}
	if len(ls) == 0 {
		r.bad("filled", "skipped", m.s.pos(), "the cost of a pair of the window is not computed", tr...)
		return
	}
	for _, c := range m.at(a, col) {
		g, ok := feasible(f, c.lits...)
		if ok {
			r.check(c.idx != nil && same(g, c.idx, ls[0].a), "filled", "position", m.s.pos(), "a cost is not stored where it is read: "+clip(ls[0].a.String(), 100), tr...)
		}
	}
	v := ls[0].val
	var d *Term
	Any(v, func(t *Term) bool {
		if m.pointDist(t, a, col) {
			d = t
		}
		return d != nil
	})
	if d == nil {
		r.bad("recurrence", "distance", m.s.pos(), "the cost does not have the distance of the points: "+clip(v.String(), 160), tr...)
		return
	}
	M := Sub(v, d)
	ver := m.version(append(f.all(), M)...)
	borders(f, a, col, func(f *Facts, top, left bool) {
		ps := preds(a, col, top, left)
		if len(ps) == 0 {
			r.check(same(f, M, Num(0)), "recurrence", "origin", m.s.pos(), "the cost of the first pair is not its distance: "+clip(v.String(), 160), tr...)
			return
		}
		m.leaves(f, ver, ps, func(f *Facts, vals []*Term) {
			M := M
			if len(ps) == 1 {
				// positions known to be 0 may be written so
				at0 := map[*Term]*Term{}
				if top {
					at0[a] = Num(0)
				}
				if left {
					at0[R.K] = Sub(R.K, col)
				}
				M = Subst(M, at0)
				for i, v := range vals {
					if v != nil {
						vals[i] = Subst(v, at0)
					}
				}
			}
			m.least(f, M, vals, "recurrence", "the cost is not the distance plus the least of the costs of the predecessors", tr)
		})
	})
}

// least: a value is the least of some costs (nil when infinite)
func (m *costMatrix) least(f *Facts, M *Term, vals []*Term, rule, msg string, tr []string) {
	is, le := false, true
	for _, v := range vals {
		if v != nil {
			is = is || same(f, M, v)
			le = le && f.Entails(Le(M, v))
		}
	}
	m.r.check(is, rule, "predecessor", m.s.pos(), msg+": "+clip(M.String(), 120), tr...)
	m.r.check(le, rule, "least", m.s.pos(), msg+": "+clip(M.String(), 120), tr...)
}

// warp: the path goes from the last pair back to the origin, each time to a least predecessor
func (m *costMatrix) warp(path *Term) {
	r := m.r
	if path.Op != "append" {
		m.bad("path", "end", "the path does not end with the origin: %s", clip(path.String(), 100))
		return
	}
	var L *LoopInst
	var pv *LoopVar
	for _, ev := range m.st.trace.Events() {
		if ev.Kind != "loopexit" || ev.Inst == nil {
			continue
		}
		for _, v := range ev.Inst.Vars {
			if v.Var != nil && Contains(path.Args[0], v.Var) {
				L, pv = ev.Inst, v
			}
		}
	}
	if L == nil {
		m.bad("path", "loop", "the path is not followed")
		return
	}
	ends := func(t *Term) (x, y *Term) {
		if t.Op != "struct" || structOf(t.Typ) == nil {
			return nil, nil
		}
		return fieldNamed(t, "End0"), fieldNamed(t, "End1")
	}
	r.check(pv.Init != nil && m.f.Entails(Eq(mkLen(pv.Init), Num(0))), "path", "start", m.s.pos(), "the path is not empty at the beginning", m.tr...)
	// last pair: the origin
	lx, ly := (*Term)(nil), (*Term)(nil)
	if len(path.Args) == 2 && path.Args[0] == pv.Var {
		lx, ly = ends(path.Args[1])
	}
	var iv, jv *LoopVar
	varOf := func(t *Term) *LoopVar {
		for _, v := range L.Vars {
			if v.Var == t {
				return v
			}
		}
		return nil
	}
	for _, b := range L.Backs {
		n := b.Next[pv]
		tr := trail(r.p, b.St, 12)
		f := b.St.facts
		if n == nil || n.Op != "append" || len(n.Args) != 2 || n.Args[0] != pv.Var {
			r.bad("path", "step", m.s.pos(), "a step of the path does not add one pair", tr...)
			continue
		}
		x, y := ends(n.Args[1])
		if x == nil {
			r.bad("path", "step", m.s.pos(), "the pair added to the path is not known", tr...)
			continue
		}
		vi := varOf(x)
		vj := varOf(y)
		if vi == nil || vj == nil || iv != nil && (vi != iv || vj != jv) {
			r.bad("path", "step", m.s.pos(), "the pair added to the path is not the current one: "+clip(n.Args[1].String(), 100), tr...)
			continue
		}
		iv, jv = vi, vj
		f, ok := feasible(f, Le(Num(0), x), Lt(x, m.l1), Le(Num(0), y), Lt(y, m.l2))
		if !ok {
			continue
		}
		_, zero := feasible(f, Eq(x, Num(0)), Eq(y, Num(0)))
		r.check(!zero, "path", "origin", m.s.pos(), "the path goes on from the origin", tr...)
		nx, ny := b.Next[vi], b.Next[vj]
		ver := m.version(f.all()...)
		borders(f, x, y, func(f *Facts, top, left bool) {
			ps := preds(x, y, top, left)
			to := -1
			for k, p := range ps {
				if same(f, p[0], nx) && same(f, p[1], ny) {
					to = k
				}
			}
			if len(ps) == 0 {
				return
			}
			if !r.check(to >= 0, "path", "predecessor", m.s.pos(), "a step of the path does not go to a predecessor", tr...) || len(ps) == 1 {
				return
			}
			m.leaves(f, ver, ps, func(f *Facts, vals []*Term) {
				if vals[to] == nil {
					for _, v := range vals {
						r.check(v == nil, "path", "least", m.s.pos(), "the path leaves the window", tr...)
					}
					return
				}
				m.least(f, vals[to], vals, "path", "a step of the path does not go to a least predecessor", tr)
			})
		})
	}
	if iv == nil {
		return
	}
	r.check(same(m.f, iv.Init, Sub(m.l1, Num(1))) && same(m.f, jv.Init, Sub(m.l2, Num(1))), "path", "last", m.s.pos(), "the path does not start from the last pair", m.tr...)
	end, ok := feasible(m.f, Le(Num(0), iv.Var), Le(Num(0), jv.Var))
	r.check(ok && lx != nil && end.Entails(Eq(lx, Num(0))) && end.Entails(Eq(ly, Num(0))), "path", "first", m.s.pos(), "the path does not end at the origin", m.tr...)
	r.check(ok && end.Entails(Eq(iv.Var, Num(0))) && end.Entails(Eq(jv.Var, Num(0))), "path", "reached", m.s.pos(), "the path stops before the origin", m.tr...)
}

// called gives the calls to a function that is not followed
func (r *Report) called(st *State, name string) (l []*Event) {
	f := r.p.Func(name)
	for _, ev := range st.trace.Events() {
		if f != nil && ev.Kind == "extcall" && ev.Name == f.String() {
			l = append(l, ev)
		}
	}
	return
}

// dtwDistance: the distance is the cost of the last pair, the series being shortened first
func (r *Report) dtwDistance() {
	opaque := r.p.opaque("dtw.NewCumCostMatrix", "dtw.CumCostMatrix.Get", "dtw.CumCostMatrix.Path", "dtw.ShrinkLongest")
	s := r.sym("dtw.NewDTWWindow", Options{Opaque: opaque})
	d := r.sym("dtw.Space.Dist", Options{Opaque: opaque})
	p := r.sym("dtw.CumCostMatrix.Path", Options{})
	if s == nil || d == nil || p == nil {
		return
	}
	// costs checks that a result is the cost of the last pair of a matrix, which is returned
	costs := func(q *symRun, pa *Path, v *Term) *Event {
		tr := trail(r.p, pa.St, 15)
		ms, gs := r.called(pa.St, "dtw.NewCumCostMatrix"), r.called(pa.St, "dtw.CumCostMatrix.Get")
		if len(ms) != 1 {
			r.bad("distance", "matrix", q.pos(), "the costs are not computed once", tr...)
			return nil
		}
		m := ms[0]
		for _, g := range gs {
			if v != g.Res && v != resultOf(g, 0) || len(g.Args) != 3 {
				continue
			}
			r.check(r.matrixAt(q, pa.St, g.Args[0]) == resultOf(m, 0), "distance", "other", r.p.pos(g.Pos), "the distance is read in another matrix", tr...)
			last := same(g.Facts, g.Args[1], Sub(mkLen(m.Args[0]), Num(1))) && same(g.Facts, g.Args[2], Sub(mkLen(m.Args[1]), Num(1)))
			r.check(last, "distance", "last", r.p.pos(g.Pos), "the distance is not the cost of the last pair", tr...)
			return m
		}
		r.bad("distance", "value", q.pos(), "the distance is not the cost of the last pair: "+clip(v.String(), 100), tr...)
		return nil
	}
	for _, pa := range s.returns() {
		tr := trail(r.p, pa.St, 15)
		for _, n := range []string{"Dist", "Path"} {
			q := r.sym("dtw.DTW."+n, Options{})
			if q == nil {
				continue
			}
			for _, pb := range q.returns() {
				v := Subst(pb.Res[0], map[*Term]*Term{q.a[0]: unface(pa.Res[0])})
				if n == "Dist" {
					if m := costs(s, pa, v); m != nil {
						r.check(sameArgs(m.Args, s.a), "distance", "arguments", r.p.pos(m.Pos), "the costs are not those of the series, with the space and the window", tr...)
					}
					continue
				}
				ok := false
				for _, c := range r.called(pa.St, "dtw.CumCostMatrix.Path") {
					ok = ok || v == c.Res || v == resultOf(c, 0)
				}
				r.check(ok, "path", "given", q.pos(), "the path is not that of the costs: "+clip(v.String(), 100))
			}
		}
	}
	for _, pa := range p.returns() {
		v := pa.Res[0]
		r.check((v.Op == "load" || v.Op == "field") && strings.HasSuffix(typKey(v.Typ), "dtw.Ends"), "path", "kept", p.pos(), "the path is not the one that was computed: "+clip(v.String(), 100))
	}
	for _, pa := range d.returns() {
		if m := costs(d, pa, pa.Res[0]); m != nil {
			r.shortened(d, pa, m, "distance")
		}
	}
}

func sameArgs(a, b []*Term) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// matrixAt gives the matrix given to one of its methods, by address or not
func (r *Report) matrixAt(q *symRun, st *State, t *Term) *Term {
	if !isPtr(t.Typ) {
		return t
	}
	return q.value(st, t)
}

// shortened: the time warping is computed on the given series, once resized to the window
func (r *Report) shortened(d *symRun, pa *Path, w *Event, rule string) {
	sh := r.called(pa.St, "dtw.ShrinkLongest")
	if len(sh) != 1 {
		r.bad(rule, "resized", d.pos(), "the series are not resized once", trail(r.p, pa.St, 15)...)
		return
	}
	tr := trail(r.p, pa.St, 15)
	x, y := asSeries(d.a[1]), asSeries(d.a[2+(len(d.a)-3)/2])
	inner, window := (*Term)(nil), (*Term)(nil)
	st := structOf(d.a[0].Typ)
	for i := 0; st != nil && i < st.NumFields(); i++ {
		v := mkField(d.a[0], d.a[0].Typ, i)
		if isPtr(d.a[0].Typ) {
			v = loadOf(mkFieldAddr(d.a[0], d.a[0].Typ, i))
		}
		switch {
		case strings.HasSuffix(typKey(st.Field(i).Type()), "dtw.PointSpace"):
			inner = v
		case typKey(st.Field(i).Type()) == "int":
			window = v
		}
	}
	a := sh[0].Args
	r.check(len(a) == 4 && a[0] == x && a[1] == y && a[2] == inner && a[3] == window, rule, "series", r.p.pos(sh[0].Pos), "other series are resized", tr...)
	b := w.Args
	r.check(len(b) == 4 && b[0] == resultOf(sh[0], 0) && b[1] == resultOf(sh[0], 1) && b[2] == inner && b[3] == window, rule, "resized", r.p.pos(w.Pos), "the time warping is not that of the resized series", tr...)
}

func asSeries(t *Term) *Term {
	if t.Typ != nil && typKey(t.Typ) == "[][]float64" {
		return t
	}
	s := seriesType
	return U.mk("assert", "[][]float64", s, s, t)
}

var seriesType = types.NewSlice(floatSlice)

func init() {
	rulesByID["C23"] = &Rule{run: ruleC23, assumptions: append(append([]string{}, dtwAssumptions...),
		"the weights of an average are not negative and not both null; a series that is resized has two points at least; a call to Interpolate gives increasing positions from 0, one for each point, and a positive factor"),
		explanation: seqExplanation + "; the cells of the series are enumerated through the loops that fill them, for any position"}
}

func ruleC23(r *Report) {
	r.need("average", 5)
	r.need("interpolate", 4)
	r.need("resize", 3)
	r.need("shrink", 4)
	r.need("space", 3)
	r.seriesAverage()
	r.interpolation()
	r.resizing()
	r.shrinking()
	r.seriesCombine()
}

// pointCombine: a value is the combination of two points with weights
func pointCombine(f *Facts, v, space, a, wa, b, wb *Term) bool {
	y, ok := isCall(v, "PointSpace.PointCombine")
	return ok && len(y) == 5 && y[0] == space && combines(f, y[1:], a, wa, b, wb)
}

// seriesAverage: the average interpolates the combinations of the pairs of the path
func (r *Report) seriesAverage() {
	news := r.sym("dtw.NewDTWWindow", Options{Opaque: r.p.opaque("dtw.NewCumCostMatrix", "dtw.CumCostMatrix.Get", "dtw.CumCostMatrix.Path")})
	s := r.symIf("dtw.DTW.DBA", Options{Opaque: r.p.opaque("dtw.Interpolate")}, func(a []*Term) []*Term {
		return []*Term{Le(Num(0), a[1]), Le(Num(0), a[2]), Le(Num(1), Add(a[1], a[2]))}
	})
	if news == nil || s == nil {
		return
	}
	for _, pn := range news.returns() {
		x, y, space := news.a[0], news.a[1], news.a[2]
		paths := r.called(pn.St, "dtw.CumCostMatrix.Path")
		sub := map[*Term]*Term{s.a[0]: unface(pn.Res[0])}
		for _, pa := range s.returns() {
			tr := trail(r.p, pa.St, 15)
			is := r.called(pa.St, "dtw.Interpolate")
			if len(is) != 1 || pa.Res[0] != resultOf(is[0], 0) || len(is[0].Args) != 4 {
				r.bad("average", "interpolated", s.pos(), "the average is not interpolated", tr...)
				continue
			}
			a, f := is[0].Args, pa.St.facts
			pos := r.p.pos(is[0].Pos)
			r.check(same(f, a[2], Add(s.a[1], s.a[2])), "average", "factor", pos, "the interpolation is not by the sum of the weights", tr...)
			r.check(Subst(a[3], sub) == space, "average", "space", pos, "the points are interpolated in another space", tr...)
			var own, path *Term
			st := structOf(s.a[0].Typ)
			for k := 0; st != nil && k < st.NumFields(); k++ {
				v := mkField(s.a[0], s.a[0].Typ, k)
				if isPtr(s.a[0].Typ) {
					v = loadOf(mkFieldAddr(s.a[0], s.a[0].Typ, k))
				}
				for _, c := range paths {
					if Subst(v, sub) == resultOf(c, 0) {
						own, path = v, resultOf(c, 0)
					}
				}
			}
			if path == nil {
				r.bad("average", "path", pos, "the path is not kept", tr...)
				continue
			}
			n := mkLen(path)
			r.check(same(f, mkLen(a[0]), mkLen(own)) && same(f, mkLen(a[1]), mkLen(own)), "average", "length", pos, "the number of points is not that of the path", tr...)
			i := U.mk("probe", "i", nil, s.a[1].Typ)
			g, ok := feasible(f, Le(Num(0), i), Lt(i, mkLen(a[0])))
			if !ok {
				continue
			}
			pair := at(path, Sub(Sub(n, Num(1)), i))
			e0, e1 := fieldNamed(pair, "End0"), fieldNamed(pair, "End1")
			if e0 == nil || e1 == nil {
				r.bad("average", "pairs", pos, "the pairs of the path are not known", tr...)
				continue
			}
			r.check(s.cellIs(pa.St, g, a[0], i, func(f *Facts, v *Term) bool {
				return pointCombine(f, Subst(v, sub), space, at(x, e0), s.a[1], at(y, e1), s.a[2])
			}), "average", "points", pos, "a point is not the combination of a pair of the path, from the origin, with the weights", tr...)
			r.check(s.cellIs(pa.St, g, a[1], i, func(f *Facts, v *Term) bool {
				return same(f, Subst(v, sub), Add(Mul(e0, s.a[1]), Mul(e1, s.a[2])))
			}), "average", "positions", pos, "the position of a point is not that of its pair, with the weights", tr...)
		}
	}
}

// resizing: a series is resized by the interpolation of its points
func (r *Report) resizing() {
	s := r.symIf("dtw.Resize", Options{Opaque: r.p.opaque("dtw.Interpolate")}, func(a []*Term) []*Term {
		return []*Term{Le(Num(2), mkLen(a[0])), Le(Num(1), a[1])}
	})
	if s == nil {
		return
	}
	for _, pa := range s.returns() {
		tr := trail(r.p, pa.St, 15)
		is := r.called(pa.St, "dtw.Interpolate")
		if len(is) != 1 || pa.Res[0] != resultOf(is[0], 0) || len(is[0].Args) != 4 {
			r.bad("resize", "interpolated", s.pos(), "the series is not interpolated", tr...)
			continue
		}
		a, f := is[0].Args, pa.St.facts
		n := mkLen(s.a[0])
		pos := r.p.pos(is[0].Pos)
		r.check(a[0] == s.a[0] && a[3] == s.a[2], "resize", "series", pos, "the points of the series are not those that are interpolated, in its space", tr...)
		r.check(same(f, a[2], Sub(n, Num(1))), "resize", "factor", pos, "the interpolation does not give the size", tr...)
		i := U.mk("probe", "i", nil, s.a[1].Typ)
		g, ok := feasible(f, Le(Num(0), i), Lt(i, n))
		r.check(ok && same(f, mkLen(a[1]), n) && s.cellIs(pa.St, g, a[1], i, func(f *Facts, v *Term) bool {
			return same(f, v, Mul(i, Sub(s.a[1], Num(1))))
		}), "resize", "positions", pos, "the positions of the points are not regular up to the size", tr...)
	}
}

// shrinking: the longest series is resized when it is longer than the other one by more than the window
func (r *Report) shrinking() {
	s := r.sym("dtw.ShrinkLongest", Options{Opaque: r.p.opaque("dtw.Resize")})
	if s == nil {
		return
	}
	x, y, space, w := s.a[0], s.a[1], s.a[2], s.a[3]
	for _, pa := range s.returns() {
		tr := trail(r.p, pa.St, 15)
		resized := func(f *Facts, v, z, n *Term) bool {
			for _, c := range r.called(pa.St, "dtw.Resize") {
				if v == resultOf(c, 0) && len(c.Args) == 3 {
					return c.Args[0] == z && same(f, c.Args[1], n) && c.Args[2] == space
				}
			}
			return false
		}
		for _, k := range []struct {
			name string
			lits []*Term
			ok   func(f *Facts) bool
		}{
			{"unbounded", []*Term{Eq(w, Num(0))}, func(f *Facts) bool { return pa.Res[0] == x && pa.Res[1] == y }},
			{"within", []*Term{Le(Num(1), w), Le(mkLen(x), Add(mkLen(y), w)), Le(mkLen(y), Add(mkLen(x), w))}, func(f *Facts) bool { return pa.Res[0] == x && pa.Res[1] == y }},
			{"first", []*Term{Le(Num(1), w), Lt(Add(mkLen(y), w), mkLen(x))}, func(f *Facts) bool {
				return resized(f, pa.Res[0], x, Add(mkLen(y), w)) && pa.Res[1] == y
			}},
			{"second", []*Term{Le(Num(1), w), Lt(Add(mkLen(x), w), mkLen(y))}, func(f *Facts) bool {
				return pa.Res[0] == x && resized(f, pa.Res[1], y, Add(mkLen(x), w))
			}},
		} {
			if f, ok := feasible(pa.St.facts, k.lits...); ok {
				r.check(k.ok(f), "shrink", k.name, s.pos(), "the longest series is not resized to the shortest one plus the window: "+clip(pa.Res[0].String(), 60)+", "+clip(pa.Res[1].String(), 60), tr...)
			}
		}
	}
}

// seriesCombine: the combination of two series is their weighted average
func (r *Report) seriesCombine() {
	s := r.sym("dtw.Space.Combine", Options{Opaque: r.p.opaque("dtw.NewDTWWindow", "dtw.DTW.DBA", "dtw.ShrinkLongest")})
	if s == nil {
		return
	}
	for _, pa := range s.returns() {
		tr := trail(r.p, pa.St, 15)
		ws, ds := r.called(pa.St, "dtw.NewDTWWindow"), r.called(pa.St, "dtw.DTW.DBA")
		if len(ws) != 1 || len(ds) != 1 || len(ds[0].Args) != 3 {
			r.bad("space", "average", s.pos(), "the average is not computed once", tr...)
			continue
		}
		a := ds[0].Args
		r.check(unface(pa.Res[0]) == resultOf(ds[0], 0), "space", "value", s.pos(), "the combination of two series is not their average: "+clip(pa.Res[0].String(), 100), tr...)
		r.check(r.matrixAt(s, pa.St, a[0]) == resultOf(ws[0], 0) && a[1] == s.a[2] && a[2] == s.a[4], "space", "weights", r.p.pos(ds[0].Pos), "the average does not have the weights of the series", tr...)
		r.shortened(s, pa, ws[0], "space")
	}
}

// interpolation: the points are those of the series at the multiples of the factor, or between their neighbours
func (r *Report) interpolation() {
	s := r.symIf("dtw.Interpolate", Options{}, func(a []*Term) []*Term {
		return []*Term{Le(Num(1), mkLen(a[0])), Eq(mkLen(a[0]), mkLen(a[1])), Le(Num(1), a[2]), Eq(at(a[1], Num(0)), Num(0)),
			Le(Num(0), at(a[1], Sub(mkLen(a[0]), Num(1))))}
	})
	if s == nil {
		return
	}
	x, idx, shrink, space := s.a[0], s.a[1], s.a[2], s.a[3]
	for _, pa := range s.returns() {
		tr := trail(r.p, pa.St, 15)
		v, f := pa.Res[0], pa.St.facts
		n := AddN(mkIDiv(at(idx, Sub(mkLen(x), Num(1))), shrink), 1)
		r.check(same(f, mkLen(v), n), "interpolate", "length", s.pos(), "the length of the series is not that of the positions: "+clip(mkLen(v).String(), 100), tr...)
		i := U.mk("probe", "i", nil, shrink.Typ)
		f, ok := feasible(f, Le(Num(0), i), Lt(i, mkLen(v)))
		if !ok {
			continue
		}
		root, _ := sliceRoot(v)
		cs, ok := s.cellCases(pa.St, f, v, i)
		if !ok || len(cs) == 0 {
			r.bad("interpolate", "points", s.pos(), "the points of the series are not known", tr...)
			continue
		}
		for _, c := range cs {
			f, val, pos := c.f, c.val, Mul(i, shrink)
			if f.Entails(Eq(i, Num(0))) {
				pos = Num(0)
			}
			if c.back != nil {
				// as the iteration sees it
				w, ok := c.inst.written(c.back, root)
				if !ok || w == nil {
					r.bad("interpolate", "points", s.pos(), "the points of the series are not known", tr...)
					continue
				}
				f, val, pos = r.before(c.inst, c.back, idx, w.a, shrink), w.val, Mul(w.a, shrink)
				tr = trail(r.p, c.back.St, 12)
			}
			r.check(r.between(f, val, x, idx, pos, space), "interpolate", "points", s.pos(), "a point is neither that of its position nor between those of its neighbours: "+clip(val.String(), 200), tr...)
		}
	}
}

// between: a point is that of a position, or is interpolated between its neighbours
func (r *Report) between(f *Facts, v, x, idx, pos, space *Term) bool {
	if v.Op == "elem" && v.Args[0] == x {
		return same(f, at(idx, v.Args[1]), pos)
	}
	y, ok := isCall(v, "PointSpace.PointCombine")
	if !ok || len(y) != 5 || y[1].Op != "elem" || y[3].Op != "elem" {
		return false
	}
	for _, j := range []*Term{y[1].Args[1], y[3].Args[1]} {
		h := Sub(j, Num(1))
		p, q := at(idx, h), at(idx, j)
		if pointCombine(f, v, space, at(x, h), Sub(q, pos), at(x, j), Sub(pos, p)) &&
			f.Entails(Le(p, pos)) && f.Entails(Le(pos, q)) && (f.Entails(Lt(p, pos)) || f.Entails(Lt(pos, q))) {
			return true
		}
	}
	return false
}

// before adds to the facts of an iteration that the positions at or just before some variables are before its own position.
// This is proved by induction, for this loop and for the loops inside it.
func (r *Report) before(L *LoopInst, b *Back, idx, n, shrink *Term) *Facts {
	type cand struct {
		v *LoopVar
		d int64
	}
	pos := Mul(n, shrink)
	positive := Le(n, pos) // the factor is positive
	holds := map[cand]bool{}
	shifts := []int64{-1, 0}
	all := func(in *LoopInst) {
		for _, v := range in.Vars {
			if v.Var != nil && v.Init != nil && (v.Var.Typ == nil || isInteger(v.Var.Typ)) {
				for _, d := range shifts {
					holds[cand{v, d}] = true
				}
			}
		}
	}
	inner := func(b *Back) (l []*LoopInst) {
		from := order(b.St, L)
		for _, ev := range b.St.trace.Events() {
			if ev.Kind == "loopexit" && ev.Inst != nil && ev.Inst != L && indexOf(b.St, ev) > from {
				l = append(l, ev.Inst)
			}
		}
		return
	}
	all(L)
	for _, b := range L.Backs {
		for _, in := range inner(b) {
			all(in)
		}
	}
	is := func(t *Term, d int64, x *Term) *Term { return Lt(at(idx, AddN(t, d)), x) }
	known := func(f *Facts, ins ...*LoopInst) *Facts {
		f = f.Add(positive)
		for _, in := range ins {
			for _, v := range in.Vars {
				for _, d := range shifts {
					if holds[cand{v, d}] {
						f = f.Add(is(v.Var, d, pos))
					}
				}
			}
		}
		return f
	}
	first := Subst(pos, map[*Term]*Term{L.K: Num(0)})
	next := Subst(pos, map[*Term]*Term{L.K: AddN(L.K, 1)})
	for changed := true; changed; {
		changed = false
		each := func(in *LoopInst, init, next *Term, entry *Facts, end func(b *Back) *Facts) {
			for _, v := range in.Vars {
				for _, d := range shifts {
					if !holds[cand{v, d}] {
						continue
					}
					ok := entry.Entails(is(v.Init, d, init))
					for _, b := range in.Backs {
						ok = ok && b.Next[v] != nil && end(b).Entails(is(b.Next[v], d, next))
					}
					if !ok {
						delete(holds, cand{v, d})
						changed = true
					}
				}
			}
		}
		each(L, first, next, L.Entry.facts, func(b *Back) *Facts { return known(b.St.facts, append(inner(b), L)...) })
		for _, b := range L.Backs {
			for _, in := range inner(b) {
				each(in, pos, pos, known(in.Entry.facts, L), func(b *Back) *Facts { return known(b.St.facts, L, in) })
			}
		}
	}
	return known(b.St.facts, append(inner(b), L)...)
}

func isInteger(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
