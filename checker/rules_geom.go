package main

import "go/types"

var floatSlice = types.NewSlice(types.Typ[types.Float64])

func init() {
	rulesByID["C21"] = &Rule{run: ruleC21, assumptions: append([]string{"both vectors have the same number of coordinates"}, seqAssumptions...), explanation: seqExplanation + ": distances, combinations, copies and dimensions of the vector spaces"}
}

// eqUnder tells whether two terms are equal over the reals, knowing the facts
func eqUnder(f *Facts, a, b *Term) bool {
	if a == b || a != nil && b != nil && EqReal(a, b) {
		return true
	}
	if a == nil || b == nil || !isNumeric(a) || !isNumeric(b) {
		return false
	}
	return f.Entails(Eq(a, b))
}

// formula checks that a result is the prescribed one
func (r *Report) formula(rule, construct, pos string, f *Facts, got, want *Term, what string) bool {
	return r.check(eqUnder(f, got, want), rule, construct, pos, what+": "+clip(termStr(got), 300)+" instead of "+clip(termStr(want), 200))
}

func termStr(t *Term) string {
	if t == nil {
		return "nothing"
	}
	return t.String()
}

// sumOver is the sum of a function of the index over all positions before n
func sumOver(n *Term, body func(k *Term) *Term) *Term {
	return mkSum(mkLam(body(probe), probe), Num(0), n)
}

// ---- C21 ----

func ruleC21(r *Report) {
	r.need("distance", 4)
	r.need("combination", 4)
	r.need("dimension", 4)
	dot := func(x, y, n *Term) *Term {
		return sumOver(n, func(k *Term) *Term { return Mul(at(x, k), at(y, k)) })
	}
	for _, sp := range []string{"euclid", "cosinus"} {
		for _, m := range []string{"Dist", "PointDist"} {
			name := sp + ".Space." + m
			s := r.vecSym(name, 1, 2)
			for _, pa := range s.returns() {
				x, y := s.vecs[0], s.vecs[1]
				n := mkLen(x)
				var want *Term
				if sp == "euclid" {
					want = mkSqrt(sumOver(n, func(k *Term) *Term { return PowInt(Sub(at(x, k), at(y, k)), 2) }))
				} else {
					want = Sub(Num(1), Mul(dot(x, y, n), Inv(Mul(mkSqrt(dot(x, x, n)), mkSqrt(dot(y, y, n))))))
				}
				m := map[*Term]*Term{mkLen(y): n}
				r.formula("distance", name, s.pos(), pa.St.facts, Subst(pa.Res[0], m), want, "the distance is not that of the space")
			}
		}
		for _, m := range []string{"Combine", "PointCombine"} {
			name := sp + ".Space." + m
			s := r.vecSym(name, 1, 3)
			for _, pa := range s.returns() {
				x, y, w1, w2 := s.vecs[0], s.vecs[1], s.a[2], s.a[4]
				want := Mul(Add(Mul(at(x, probe), w1), Mul(at(y, probe), w2)), Inv(Add(w1, w2)))
				r.coordinates("combination", name, s, pa, x, want, "the combination is not the weighted average")
			}
		}
		for _, m := range []string{"Copy", "PointCopy"} {
			name := sp + ".Space." + m
			s := r.vecSym(name, 1)
			for _, pa := range s.returns() {
				r.coordinates("copy", name, s, pa, s.vecs[0], at(s.vecs[0], probe), "the copy has other coordinates")
			}
		}
		name := sp + ".Space.Dim"
		for _, empty := range []bool{false, true} {
			s := r.symIf(name, Options{}, func(a []*Term) []*Term {
				if empty {
					return []*Term{Eq(mkLen(a[1]), Num(0))}
				}
				return []*Term{Lt(Num(0), mkLen(a[1]))}
			})
			for _, pa := range s.returns() {
				want := Num(0)
				if !empty {
					want = mkLen(asVec(at(s.a[1], Num(0))))
				}
				r.formula("dimension", name, s.pos(), pa.St.facts, pa.Res[0], want, "the dimension is not that of the data")
			}
		}
	}
}

// vecRun is the analysis of an operation on vectors
type vecRun struct {
	*symRun
	vecs []*Term
}

func (s *vecRun) returns() []*Path {
	if s == nil {
		return nil
	}
	return s.symRun.returns()
}

// asVec is an element seen as a vector
func asVec(t *Term) *Term {
	if t.Typ != nil && typKey(t.Typ) == "[]float64" {
		return t
	}
	return U.mk("assert", "[]float64", floatSlice, floatSlice, t)
}

// vecSym analyses a function whose given arguments are vectors of the same length
func (r *Report) vecSym(name string, idx ...int) *vecRun {
	vs := func(a []*Term) (v []*Term) {
		for _, i := range idx {
			if i < len(a) {
				v = append(v, asVec(a[i]))
			}
		}
		return
	}
	s := r.symIf(name, Options{}, func(a []*Term) (l []*Term) {
		v := vs(a)
		for i := 1; i < len(v); i++ {
			l = append(l, Eq(mkLen(v[i]), mkLen(v[0])))
		}
		return
	})
	if s == nil {
		return nil
	}
	return &vecRun{s, vs(s.a)}
}

// coordinates checks every coordinate of a new vector
func (r *Report) coordinates(rule, name string, s *vecRun, pa *Path, x, want *Term, msg string) {
	f := pa.St.facts
	got := pa.Res[0]
	if got.Op == "mkiface" {
		got = got.Args[0]
	}
	r.check(eqUnder(f, mkLen(got), mkLen(x)), rule, name+"/length", s.pos(), "the result has another number of coordinates: "+clip(got.String(), 200))
	if f.Entails(Eq(mkLen(x), Num(0))) {
		return
	}
	c := content(pa.St, got, mkLen(x))
	if c == nil {
		r.bad(rule, name, s.pos(), msg+" at every coordinate: "+layersString(pa.St, got))
		return
	}
	r.formula(rule, name, s.pos(), f, c(probe), want, msg)
}
