package main

import (
	"go/types"
	"math"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rulesByID["C27"] = &Rule{run: ruleC27, assumptions: append(append([]string{}, seqAssumptions...),
		"a builder does not use the distribution it builds", "gonum samples the standard normal and chi-squared distributions it is asked for"),
		explanation: seqExplanation + "; the initialization of the late distribution is followed on every path with the lock, the flag and the stores that guard it; the density and the samples of the Student distribution are compared as formulas"}
}

func ruleC27(r *Report) {
	r.need("once", 4)
	r.need("forward", 4)
	r.need("dirac", 2)
	r.need("density", 2)
	r.need("sample", 2)
	r.late()
	r.dirac()
	r.student()
}

// ---- late distribution ----

// lateUse is a path of an operation of the late distribution
type lateUse struct {
	s    *symRun
	st   *State
	name string
	// the builder call, its place and the section (lock, unlock) it is in
	call     *Event
	lock     *Term
	from, to int
	once     bool // the once of the path is Done here
	done     bool
}

func (r *Report) late() {
	fn := r.p.Func("mcmc.NewLateDistrib")
	if fn == nil {
		r.bad("anchor", "mcmc.NewLateDistrib", "", "function not found")
		return
	}
	t, _ := structOf(elemTypeOf(fn.Signature.Results().At(0).Type())), 0
	if t == nil {
		r.bad("anchor", "mcmc.LateDistrib", "", "the late distribution is not a structure")
		return
	}
	build, dist := -1, -1
	for i := 0; i < t.NumFields(); i++ {
		if typKey(t.Field(i).Type()) == "mcmc.DistribBuilder" || isFunc(t.Field(i).Type()) {
			build = i
		} else if isIfaceNamed(t.Field(i).Type(), "mcmc.Distrib") {
			dist = i
		}
	}
	if build < 0 || dist < 0 {
		r.bad("anchor", "mcmc.LateDistrib", r.p.pos(fn.Pos()), "the builder or the built distribution is not found")
		return
	}
	r.check(r.p.neverStored(t.Field(build)), "once", "builder", r.p.pos(fn.Pos()), "the builder is replaced after the construction")
	var uses []*lateUse
	stores := map[*ssa.Function]bool{}
	for _, m := range []string{"Sample", "Pdf"} {
		name := "mcmc.LateDistrib." + m
		s := r.sym(name, Options{})
		if s == nil {
			return
		}
		for _, pa := range s.returns() {
			if u := r.lateUse(s, pa, build, dist, m); u != nil {
				uses = append(uses, u)
			}
			for _, ev := range pa.St.trace.Events() {
				if ev.Fn != nil {
					stores[ev.Fn] = true
				}
			}
		}
		r.lateFails(name, m, t, build)
	}
	r.lateGuard(fn, uses, t, build, dist)
	// no other code touches the builder, the distribution or the flag
	for _, g := range r.p.allFns() {
		if g == fn || stores[g] || !r.p.inModule(g) {
			continue
		}
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if fa, ok := in.(*ssa.FieldAddr); ok && structOf(elemTypeOf(fa.X.Type())) == t {
					r.bad("once", "elsewhere "+short(g.String()), r.p.pos(fa.Pos()), "another function uses the fields of the late distribution")
				}
			}
		}
	}
}

func isFunc(t types.Type) bool {
	_, ok := t.Underlying().(*types.Signature)
	return ok
}

// isLoadOf: a value read in a field of the receiver
func isLoadOf(v, recv *Term, i int) bool {
	return v != nil && v.Op == "load" && v.Args[0] == mkFieldAddr(recv, recv.Typ, i)
}

func (r *Report) lateUse(s *symRun, pa *Path, build, dist int, m string) *lateUse {
	st := pa.St
	tr := trail(r.p, st, 20)
	recv := s.a[0]
	u := &lateUse{s: s, st: st, name: m, from: -1, to: -1}
	ok := true
	for i, ev := range st.trace.Events() {
		switch ev.Kind {
		case "dyncall":
			if !isLoadOf(ev.Recv, recv, build) {
				r.bad("once", m+"/call", r.p.pos(ev.Pos), "an unknown function is called", tr...)
				continue
			}
			if u.call != nil {
				r.bad("once", m+"/twice", r.p.pos(ev.Pos), "the builder is called twice", tr...)
				ok = false
			}
			u.call = ev
			r.check(len(ev.Args) == 1 && inTerms(s.a[1:], unface(ev.Args[0])), "once", m+"/element", r.p.pos(ev.Pos), "the builder is not called with an element that is seen", tr...)
			for _, h := range ev.Held {
				if !h.Read && Contains(h.Addr, recv) {
					u.lock = h.Addr
				}
			}
		case "once":
			u.once, u.lock, u.from = true, ev.Recv, i
		case "oncedone":
			u.once, u.done, u.lock, u.from = true, true, ev.Recv, i
		}
	}
	// what is forwarded
	var fw []*Event
	for _, ev := range eventsOf(st, "invoke", "") {
		if strings.HasPrefix(ev.Name, "Distrib.") {
			fw = append(fw, ev)
		}
	}
	if len(fw) != 1 || fw[0].Name != "Distrib."+m {
		r.bad("forward", m+"/call", s.pos(), "the call is not forwarded once", tr...)
		return nil
	}
	same := len(fw[0].Args) == len(s.a)-1
	for i := 1; same && i < len(s.a); i++ {
		same = fw[0].Args[i-1] == s.a[i]
	}
	r.check(same, "forward", m+"/arguments", r.p.pos(fw[0].Pos), "the arguments are not forwarded unchanged", tr...)
	r.check(pa.Res[0] == fw[0].Res || pa.Res[0] == resultOf(fw[0], 0), "forward", m+"/result", r.p.pos(fw[0].Pos), "the result is not returned unchanged", tr...)
	to := fw[0].Recv
	r.check(isLoadOf(to, recv, dist) || u.call != nil && to == u.call.Res, "forward", m+"/target", r.p.pos(fw[0].Pos), "the call is not forwarded to the distribution that was built", tr...)
	if !ok {
		return nil
	}
	return u
}

func inTerms(l []*Term, t *Term) bool {
	for _, x := range l {
		if x == t {
			return true
		}
	}
	return false
}

// lateGuard: the builder is called under a lock, when a flag says that it was not, and the flag is set before the lock is released
func (r *Report) lateGuard(ctor *ssa.Function, uses []*lateUse, t *types.Struct, build, dist int) {
	var lock *Term
	once := false
	for i, u := range uses {
		if u.once {
			if i > 0 && lock != u.lock {
				r.bad("once", u.name+"/lock", u.s.pos(), "the operations do not use the same lock")
			}
			once, lock = true, u.lock
		}
	}
	if once {
		for _, u := range uses {
			tr := trail(r.p, u.st, 20)
			r.check(u.once && u.lock == lock, "once", u.name+"/guard", u.s.pos(), "the distribution is used without its initialization", tr...)
			r.check((u.call != nil) != u.done, "once", u.name+"/calls", u.s.pos(), "the builder is not called by the initialization, or is called again", tr...)
			if u.call != nil {
				r.check(u.from < indexOf(u.st, u.call), "once", u.name+"/section", u.s.pos(), "the builder is called outside of the initialization", tr...)
				v := u.s.value(u.st, mkFieldAddr(u.s.a[0], u.s.a[0].Typ, dist))
				r.check(v == u.call.Res, "once", u.name+"/stored", u.s.pos(), "the distribution is not what the builder returned", tr...)
			}
		}
		return
	}
	type polarity struct {
		i     int
		built bool
	}
	// built tells whether facts say that the distribution is built, or not, as seen in the flag
	lit := func(v *Term, i int, want bool) *Term {
		if isIface(t.Field(i).Type()) || isPtr(t.Field(i).Type()) {
			if want {
				return Not(Eq(v, Nil))
			}
			return Eq(v, Nil)
		}
		if want {
			return v
		}
		return Not(v)
	}
	why := "nothing guards the builder"
	var at string
	var tr []string
	guard := func(pl polarity) bool {
		for _, u := range uses {
			at, tr = u.s.pos(), trail(r.p, u.st, 20)
			addr := mkFieldAddr(u.s.a[0], u.s.a[0].Typ, pl.i)
			evs := u.st.trace.Events()
			// sections of the path
			var read *Event
			from, to := -1, -1
			for i, ev := range evs {
				if ev.Kind == "lock" && (lock == nil || ev.Recv == lock) && Contains(ev.Recv, u.s.a[0]) {
					from, to = i, len(evs)
					for j := i; j < len(evs); j++ {
						if evs[j].Kind == "unlock" && evs[j].Recv == ev.Recv {
							to = j
							break
						}
					}
					lock = ev.Recv
					break
				}
			}
			if from < 0 {
				why = "the distribution is used without taking the lock that protects its initialization"
				return false
			}
			for i, ev := range evs {
				if ev.Kind == "load" && ev.Recv == addr {
					if i < from || i > to {
						if pl.i != dist || i < from {
							why = "the flag is read without the lock"
							return false
						}
						continue
					}
					read = ev
					if u.call != nil && i < indexOf(u.st, u.call) || u.call == nil {
						break
					}
				}
			}
			if read == nil {
				why = "the flag is not read before the initialization"
				return false
			}
			if u.call == nil {
				if !u.st.facts.Entails(lit(read.Res, pl.i, pl.built)) {
					why = "the distribution may not be initialized"
					return false
				}
				for i, ev := range evs {
					if ev.Kind == "store" && Contains(ev.Recv, u.s.a[0]) && i >= 0 {
						why = "the late distribution is changed although it is initialized"
						return false
					}
				}
				for i, ev := range evs {
					if ev.Kind == "load" && ev.Recv == mkFieldAddr(u.s.a[0], u.s.a[0].Typ, dist) && i < from {
						why = "the distribution is read without the lock"
						return false
					}
				}
				continue
			}
			k := indexOf(u.st, u.call)
			if k < from || k > to || indexOf(u.st, read) > k {
				why = "the builder is called without the lock, or before the flag is read"
				return false
			}
			if !u.call.Facts.Entails(lit(read.Res, pl.i, !pl.built)) {
				why = "the builder may be called again"
				return false
			}
			var flag, val *Event
			for i, ev := range evs {
				if ev.Kind != "store" {
					continue
				}
				if ev.Recv == addr {
					if i < k || i > to {
						why = "the flag is set before the distribution is built, or without the lock"
						return false
					}
					flag = ev
				}
				if ev.Recv == mkFieldAddr(u.s.a[0], u.s.a[0].Typ, dist) {
					if i < k || i > to {
						why = "the distribution is not stored under the lock"
						return false
					}
					val = ev
				}
			}
			if val == nil || val.Res != u.call.Res && val.Args[0] != u.call.Res {
				why = "the distribution that is built is not stored"
				return false
			}
			if flag == nil || !u.st.facts.Entails(lit(flag.Args[0], pl.i, pl.built)) {
				if pl.i != dist {
					why = "the flag is not set when the distribution is built"
					return false
				}
				why = "a builder that returns nothing is called again"
				return false
			}
		}
		return true
	}
	found := false
	for i := 0; i < t.NumFields() && !found; i++ {
		ft := t.Field(i).Type()
		b, isB := ft.Underlying().(*types.Basic)
		for _, built := range []bool{true, false} {
			if isB && b.Kind() == types.Bool || built && (isIface(ft) || isPtr(ft)) {
				keep, keepAt, keepTr := why, at, tr
				if guard(polarity{i, built}) {
					found = r.newUnbuilt(ctor, i, built, lit)
					break
				}
				if !built || i == dist && keep != "nothing guards the builder" {
					why, at, tr = keep, keepAt, keepTr
				}
			}
		}
	}
	calls := map[string]int{}
	for _, u := range uses {
		if u.call != nil {
			calls[u.name]++
		}
	}
	r.check(calls["Sample"] > 0 && calls["Pdf"] > 0, "once", "first use", r.p.pos(ctor.Pos()), "an operation does not initialize the distribution")
	r.check(found, "once", "guard", at, why, tr...)
	if found {
		r.ok("once", "lock")
	}
}

func isIface(t types.Type) bool {
	_, ok := t.Underlying().(*types.Interface)
	return ok
}

func isPtr(t types.Type) bool {
	_, ok := t.Underlying().(*types.Pointer)
	return ok
}

// newUnbuilt: a new late distribution is not built
func (r *Report) newUnbuilt(ctor *ssa.Function, i int, built bool, lit func(*Term, int, bool) *Term) bool {
	s := r.symFn("mcmc.NewLateDistrib", ctor, Options{}, nil)
	ok := true
	for _, pa := range s.returns() {
		obj := unface(pa.Res[0])
		v := s.value(pa.St, mkFieldAddr(obj, obj.Typ, i))
		ok = ok && r.check(v != nil && pa.St.facts.Entails(lit(v, i, !built)), "once", "new", s.pos(), "a new late distribution is believed to be built")
		st := structOf(elemTypeOf(obj.Typ))
		for j := 0; j < st.NumFields(); j++ {
			if isFunc(st.Field(j).Type()) {
				v := s.value(pa.St, mkFieldAddr(obj, obj.Typ, j))
				ok = ok && r.check(v == s.a[0], "once", "new builder", s.pos(), "the builder is not the one that is given")
			}
		}
	}
	return ok
}

// lateFails: a builder that panics leaves neither a lock nor a flag
func (r *Report) lateFails(name, m string, t *types.Struct, build int) {
	s := r.sym(name, Options{MayPanic: func(ev *Event) bool { return ev.Kind == "dyncall" }})
	if s == nil {
		return
	}
	for _, pa := range s.paths {
		if pa.Kind != "panic" || len(eventsOf(pa.St, "userpanic", "")) == 0 {
			continue
		}
		tr := trail(r.p, pa.St, 20)
		r.check(len(pa.St.held) == 0, "once", m+"/released", s.pos(), "a builder that panics leaves the lock held", tr...)
		for _, ev := range eventsOf(pa.St, "store", "") {
			if Contains(ev.Recv, s.a[0]) {
				r.bad("once", m+"/failed", r.p.pos(ev.Pos), "the distribution is believed to be built although the builder panicked", tr...)
			}
		}
	}
}

// ---- Dirac ----

func (r *Report) dirac() {
	if s := r.sym("mcmc.Dirac.Sample", Options{}); s != nil {
		for _, pa := range s.returns() {
			r.check(pa.Res[0] == s.a[1], "dirac", "sample", s.pos(), "the sample is not the argument: "+clip(pa.Res[0].String(), 100))
		}
	}
	if s := r.sym("mcmc.Dirac.Pdf", Options{}); s != nil {
		for _, pa := range s.returns() {
			r.check(eqUnder(pa.St.facts, pa.Res[0], Num(1)), "dirac", "density", s.pos(), "the density is not 1: "+clip(pa.Res[0].String(), 100))
		}
	}
}

// ---- Student ----

// studentLaw is the law of a Student distribution, as built
type studentLaw struct {
	pos      string
	st       *State
	s        *symRun
	v        *Term // the distribution
	nu, d    *Term
	chi2     *Term
	normal   *Term
	chi2Type types.Type
}

func (r *Report) student() {
	s := r.sym("mcmc.NewMultivT", Options{})
	if s == nil {
		return
	}
	conf := s.a[0]
	dim, nu := fieldNamed(conf, "Dim"), fieldNamed(conf, "Nu")
	n := 0
	for _, pa := range s.returns() {
		f, tr := pa.St.facts, trail(r.p, pa.St, 20)
		v := unface(pa.Res[0])
		l := &studentLaw{pos: s.pos(), st: pa.St, s: s, v: v, d: dim}
		l.normal, l.chi2 = r.studentParts(pa, v, s)
		if l.normal == nil || l.chi2 == nil {
			r.bad("sample", "parts", s.pos(), "the normal and chi-squared distributions are not found", tr...)
			continue
		}
		l.nu = s.value(pa.St, mkFieldAddr(l.chi2, l.chi2.Typ, 0))
		if st := structOf(elemTypeOf(l.chi2.Typ)); st != nil {
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == "K" {
					l.nu = s.value(pa.St, mkFieldAddr(l.chi2, l.chi2.Typ, i))
				}
			}
		}
		if l.nu == nil {
			r.bad("sample", "degrees", s.pos(), "the degrees of freedom are not known", tr...)
			continue
		}
		r.check(same(f, l.nu, nu) || f.Entails(Eq(nu, Num(0))) && f.Entails(Lt(Num(0), l.nu)), "sample", "degrees", s.pos(), "the degrees of freedom are not those of the configuration: "+clip(l.nu.String(), 60), tr...)
		n++
		var scale *Term
		if sc := r.studentPdf(l); sc != nil {
			scale = sc
		}
		if scale != nil {
			r.studentSample(l, scale)
		}
	}
	if n == 0 {
		r.bad("density", "none", s.pos(), "no distribution is built")
	}
}

// studentParts finds the standard normal and the chi-squared distributions
func (r *Report) studentParts(pa *Path, v *Term, s *symRun) (normal, chi2 *Term) {
	st := structOf(v.Typ)
	for i := 0; st != nil && i < st.NumFields(); i++ {
		x := mkField(v, v.Typ, i)
		switch {
		case strings.HasSuffix(typKey(st.Field(i).Type()), "distuv.ChiSquared"):
			chi2 = x
		case strings.HasSuffix(typKey(st.Field(i).Type()), "distmv.Normal"):
			normal = x
		}
	}
	if normal == nil {
		return nil, nil
	}
	for _, ev := range eventsOf(pa.St, "extcall", "") {
		if !strings.HasSuffix(ev.Name, "distmv.NewNormal") || resultOf(ev, 0) != normal {
			continue
		}
		f := pa.St.facts
		conf := s.a[0]
		dim := fieldNamed(conf, "Dim")
		mu, sigma := ev.Args[0], unface(ev.Args[1])
		tr := trail(r.p, pa.St, 20)
		full := func(sl *Term, n int64, what string) {
			c := content(pa.St, sl, dim)
			if f.Entails(Le(dim, Num(0))) {
				return
			}
			r.check(c != nil && same(f, mkLen(sl), dim) && eqUnder(f, c(probe), Num(n)), "sample", "normal/"+what, r.p.pos(ev.Pos), "the normal distribution is not the standard one", tr...)
		}
		full(mu, 0, "mean")
		ok := false
		for _, dv := range eventsOf(pa.St, "extcall", "") {
			if strings.HasSuffix(dv.Name, "mat.NewDiagDense") && dv.Res == sigma {
				ok = true
				r.check(same(f, dv.Args[0], dim), "sample", "normal/size", r.p.pos(dv.Pos), "the covariance has another size", tr...)
				full(dv.Args[1], 1, "covariance")
			}
		}
		r.check(ok, "sample", "normal/diagonal", r.p.pos(ev.Pos), "the covariance is not a known diagonal", tr...)
		return normal, chi2
	}
	return nil, nil
}

// eval replaces a distribution by what was built in a term of one of its methods
func (l *studentLaw) eval(t, recv *Term) *Term {
	t = Subst(t, map[*Term]*Term{recv: l.v})
	m := map[*Term]*Term{}
	Any(t, func(x *Term) bool {
		if x.Op == "load" {
			if v := l.s.value(l.st, x.Args[0]); v != nil {
				m[x] = v
			}
		}
		return false
	})
	return Subst(t, m)
}

func floatNum(x float64) *Term {
	q := new(big.Rat)
	q.SetFloat64(x)
	return Rat(q)
}

// studentPdf checks the density, and gives the product of the degrees of freedom by the squared scale
func (r *Report) studentPdf(l *studentLaw) *Term {
	s := r.sym("mcmc.MultivT.Pdf", Options{})
	if s == nil {
		return nil
	}
	x, y := asVec(s.a[1]), asVec(s.a[2])
	var scale *Term
	for _, pa := range s.returns() {
		tr := trail(r.p, pa.St, 15)
		got := l.eval(pa.Res[0], s.a[0])
		var n *Term
		Any(got, func(t *Term) bool {
			if t.Op == "sum" {
				n = t.Args[2]
			}
			return n != nil
		})
		if n == nil {
			if pa.St.facts.Entails(Eq(mkLen(x), Num(0))) {
				continue
			}
			r.bad("density", "distance", s.pos(), "the density does not depend on the distance: "+clip(got.String(), 200), tr...)
			return nil
		}
		r.check(n == mkLen(x) || n == mkLen(y) || n == l.d, "density", "dimensions", s.pos(), "some dimensions are not counted", tr...)
		// the coefficient of the distance in the logarithm
		sq := sumOver(n, func(k *Term) *Term { return PowInt(at(x, k), 2) })
		unit := map[*Term]*Term{}
		var inv *Term
		Any(got, func(t *Term) bool {
			if t.Op == "sum" {
				unit[t] = Num(0)
				if t == sq {
					unit[t] = Num(1)
				}
			}
			return false
		})
		Any(got, func(t *Term) bool {
			if t.Op == "log" && Any(t, func(x *Term) bool { return x.Op == "sum" }) {
				inv = Sub(Subst(t.Args[0], unit), Num(1))
			}
			return inv != nil
		})
		if inv == nil || inv.IsInt(0) {
			r.bad("density", "distance", s.pos(), "the density is not that of a Student distribution: "+clip(got.String(), 200), tr...)
			return nil
		}
		S := Inv(inv)
		q := sumOver(n, func(k *Term) *Term { return PowInt(Sub(at(x, k), at(y, k)), 2) })
		half := Rat(big.NewRat(1, 2))
		p := Mul(Add(l.d, l.nu), half)
		gam := func(t *Term) *Term { return U.mk("gamma", "", nil, types.Typ[types.Float64], t) }
		want := Sub(Sub(mkLog(Mul(gam(p), Inv(gam(Mul(l.nu, half))))), Mul(Mul(l.d, half), mkLog(Mul(floatNum(math.Pi), S)))),
			Mul(p, mkLog(Add(Num(1), Mul(q, inv)))))
		r.formula("density", "MultivT.Pdf", s.pos(), pa.St.facts, got, want, "the density is not that of a Student distribution")
		bad := Any(S, func(t *Term) bool { return t == x || t == y || t == s.a[1] || t == s.a[2] })
		r.check(!bad, "density", "scale", s.pos(), "the scale depends on the point: "+clip(S.String(), 80), tr...)
		if scale != nil && scale != S {
			r.bad("density", "scales", s.pos(), "the density has several scales", tr...)
		}
		scale = Subst(S, map[*Term]*Term{s.a[3]: timeTerm})
	}
	return scale
}

var timeTerm = U.mk("param", "time", nil, types.Typ[types.Int])

// studentSample checks that samples have the scale of the density
func (r *Report) studentSample(l *studentLaw, scale *Term) {
	s := r.sym("mcmc.MultivT.Sample", Options{})
	if s == nil {
		return
	}
	mu := asVec(s.a[1])
	for _, pa := range s.returns() {
		st, tr := pa.St, trail(r.p, pa.St, 15)
		var normal, chi *Event
		for _, ev := range eventsOf(st, "extcall", "") {
			switch {
			case strings.HasSuffix(ev.Name, "distmv.Normal).Rand") && l.eval(ev.Args[0], s.a[0]) == l.normal:
				if normal != nil {
					r.bad("sample", "normal", r.p.pos(ev.Pos), "several normal samples", tr...)
				}
				normal = ev
			case strings.HasSuffix(ev.Name, "distuv.ChiSquared).Rand"):
				a := ev.Args[0]
				k := fieldNamed(a, "K")
				if a.Typ != nil && isPtr(a.Typ) {
					k = l.nu
					if l.eval(a, s.a[0]) != l.chi2 {
						k = nil
					}
				}
				r.check(k != nil && l.eval(k, s.a[0]) == l.nu && chi == nil, "sample", "chi", r.p.pos(ev.Pos), "the chi-squared sample is not that of the distribution", tr...)
				chi = ev
			}
		}
		if normal == nil || chi == nil {
			r.bad("sample", "draws", s.pos(), "a sample is not drawn from the normal and chi-squared distributions", tr...)
			continue
		}
		got := unface(pa.Res[0])
		z := resultOf(normal, 0)
		if z == nil || normal.Res.Op != "tuple" {
			z = normal.Res
		}
		c := everywhere(st, got, []*Term{mkLen(z), mkLen(mu), mkLen(got)})
		if c == nil {
			r.bad("sample", "coordinates", s.pos(), "the coordinates of the sample are not known: "+layersString(st, got), tr...)
			continue
		}
		zk := plain(c(probe), z)
		at0 := at(z, probe)
		k := Subst(Sub(zk, at(mu, probe)), map[*Term]*Term{at0: Num(1)})
		k = l.eval(k, s.a[0])
		lin := l.eval(Sub(zk, at(mu, probe)), s.a[0])
		r.check(eqUnder(st.facts, lin, Mul(k, at0)) && !Contains(k, probe) && !Contains(k, mu) && !Contains(k, z), "sample", "MultivT.Sample", s.pos(), "a coordinate is not its mean plus a multiple of a normal draw: "+clip(zk.String(), 200), tr...)
		v := Mul(Mul(PowInt(k, 2), chi.Res), Num(1))
		v = Subst(v, map[*Term]*Term{s.a[2]: timeTerm})
		if !EqReal(v, scale) {
			cs := func(t *Term) string { return strings.ReplaceAll(Mul(t, Inv(l.nu)).String(), " ", "") }
			r.bad("sample", "variance "+cs(v)+" for a density of "+cs(scale), s.pos(), "the samples have not the scale of the density", tr...)
			continue
		}
		r.ok("sample", "variance")
	}
}

// plain drops the versions of the elements of a vector
func plain(t, vec *Term) *Term {
	m := map[*Term]*Term{}
	Any(t, func(x *Term) bool {
		if x.Op == "elem" && x.Args[0] == vec {
			m[x] = at(vec, x.Args[1])
		}
		return false
	})
	return Subst(t, m)
}

// everywhere gives the elements of a slice written at every index before one of the bounds
func everywhere(st *State, sl *Term, bounds []*Term) func(*Term) *Term {
	root, off := sliceRoot(sl)
	for k, ls := range st.regs {
		if k.Op == "region" && k.Args[0] == root && k.Aux == "" && len(ls) > 0 {
			l := ls[len(ls)-1]
			if l.kind != "range" || !off.IsInt(0) || !same(st.facts, l.a, Num(0)) {
				return nil
			}
			for _, b := range bounds {
				if same(st.facts, l.b, b) {
					return func(i *Term) *Term { return apply(l.val, i) }
				}
			}
		}
	}
	return nil
}
