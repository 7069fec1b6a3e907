package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rulesByID["C30"] = &Rule{run: ruleC30, assumptions: append(append([]string{}, seqAssumptions...),
		"the initializer, the distribution, the space and the generator are given by the user and may be shared"),
		explanation: seqExplanation + "; the fields of every new or copied algorithm and implementation are compared with what was asked for; an alias analysis shows that nothing reached from a copied implementation is written in place by the methods of the original"}
}

func ruleC30(r *Report) {
	r.need("new", 8)
	r.need("copy", 4)
	r.need("wiring", 12)
	r.need("rebuilt", 12)
	r.need("separate", 4)
	r.newAlgo()
	r.copyAlgo()
	for _, pk := range []string{"kmeans", "mcmc", "streaming"} {
		r.wiring(pk)
		r.copyImpl(pk)
	}
	r.separate()
}

// ---- a new algorithm ----

func isSync(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && (n.Obj().Pkg().Path() == "sync" || n.Obj().Pkg().Path() == "sync/atomic")
}

func isIfaceNamed(t types.Type, name string) bool {
	return typKey(t) == modPath+"/"+name
}

// newAlgo: a new algorithm has what it is given, and nothing else than new locks, channels, figures and null counters
func (r *Report) newAlgo() {
	s := r.sym("core.NewAlgo", Options{})
	if s == nil {
		return
	}
	given := map[string]*Term{"core.Conf": s.a[0], "core.Impl": s.a[1], "core.Space": s.a[2]}
	n := 0
	for _, pa := range s.returns() {
		n++
		r.algoFields(s, pa, "new", unface(pa.Res[0]), given)
	}
	if n == 0 {
		r.bad("new", "none", s.pos(), "no algorithm is built")
	}
}

// algoFields: the fields of a new algorithm are what is given, or new
func (r *Report) algoFields(s *symRun, pa *Path, rule string, obj *Term, given map[string]*Term) {
	tr := trail(r.p, pa.St, 20)
	st := structOf(elemTypeOf(obj.Typ))
	if obj.Op != "alloc" && obj.Op != "pobj" || st == nil {
		r.bad(rule, "object", s.pos(), "the algorithm is not a new object", tr...)
		return
	}
	for i := 0; i < st.NumFields(); i++ {
		fl := st.Field(i)
		if isSync(fl.Type()) {
			continue
		}
		v := s.value(pa.St, mkFieldAddr(obj, obj.Typ, i))
		name := "field " + fl.Name()
		want := (*Term)(nil)
		for k, g := range given {
			if isIfaceNamed(fl.Type(), k) {
				want = g
			}
		}
		switch {
		case v == nil:
			r.bad(rule, name, s.pos(), "value not known", tr...)
		case want != nil:
			r.check(v == want || pa.St.facts.Entails(Eq(v, want)), rule, name, s.pos(), "the algorithm is not built on what it is given: "+clip(v.String(), 80), tr...)
		case isIfaceNamed(fl.Type(), "core.OCStatus"):
			r.check(pa.St.facts.Entails(Eq(ocValue(v), r.p.status("Created"))) && pa.St.facts.Entails(Eq(ocError(v), Nil)), rule, name, s.pos(), "a new algorithm is not in status Created", tr...)
		default:
			r.check(newValue(v, fl.Type()), rule, name, s.pos(), "a new algorithm has a field that is not new: "+clip(v.String(), 80), tr...)
		}
	}
}

// newValue: zero, or allocated by the analysed function
func newValue(v *Term, t types.Type) bool {
	switch v.Op {
	case "makechan", "makemap", "alloc":
		return true
	case "makeslice":
		return true
	case "struct":
		for i, a := range v.Args {
			st := structOf(t)
			if st == nil || !newValue(a, st.Field(i).Type()) {
				return false
			}
		}
		return true
	}
	return v == zeroOf(t)
}

// ---- a copied algorithm ----

func (r *Report) copyAlgo() {
	s := r.sym("core.Algo.Copy", Options{})
	if s == nil {
		return
	}
	conf, space := s.a[1], s.a[2]
	n := 0
	for _, pa := range s.returns() {
		f, tr := pa.St.facts, trail(r.p, pa.St, 20)
		cs := eventsOf(pa.St, "invoke", "Impl.Copy")
		if len(cs) != 1 {
			r.bad("copy", "impl", s.pos(), "the implementation is not copied once", tr...)
			continue
		}
		own := cs[0].Recv.Op == "load" && Contains(cs[0].Recv, s.a[0])
		r.check(own, "copy", "original", r.p.pos(cs[0].Pos), "another implementation is copied", tr...)
		m := unface(cs[0].Args[0])
		r.check(holds(m, "core.Conf", conf) && holds(m, "core.Space", space), "copy", "requested", r.p.pos(cs[0].Pos), "the implementation is not copied for the requested configuration and space", tr...)
		if f.Entails(Eq(pa.Res[0], Nil)) {
			r.check(f.Entails(Not(Eq(resultOf(cs[0], 1), Nil))), "copy", "none", s.pos(), "no algorithm although the implementation is copied", tr...)
			continue
		}
		n++
		r.algoFields(s, pa, "copy", unface(pa.Res[0]), map[string]*Term{"core.Conf": conf, "core.Impl": resultOf(cs[0], 0), "core.Space": space})
	}
	if n == 0 {
		r.bad("copy", "none", s.pos(), "no algorithm is built")
	}
}

// holds: a model made of a value of this type
func holds(m *Term, typ string, v *Term) bool {
	st := structOf(m.Typ)
	if m.Op != "struct" || st == nil {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if isIfaceNamed(st.Field(i).Type(), typ) {
			return m.Args[i] == v
		}
	}
	return false
}

// ---- the implementations ----

// asked compares the parameters of a configuration with those asked for: equal, or null and replaced by a default
func (r *Report) asked(s *symRun, pa *Path, rule, name string, ptr *Term, want func(string) *Term) {
	for _, l := range leavesOf(ptr) {
		q := want(l.Aux)
		v := s.value(pa.St, l)
		if q.Op == "missing" || v == nil {
			r.bad(rule, name+"/conf", s.pos(), "a parameter of the configuration is not known: "+l.Aux)
			continue
		}
		ok := v == q || pa.St.facts.Entails(Eq(v, q))
		if !ok && q.Typ != nil {
			ok = pa.St.facts.Entails(Eq(q, zeroOf(q.Typ)))
			if _, sl := q.Typ.Underlying().(*types.Slice); sl {
				ok = ok || pa.St.facts.Entails(Eq(mkLen(q), Num(0)))
			}
		}
		r.check(ok, rule, name+"/conf "+l.Aux, s.pos(), "a parameter is not the one asked for", trail(r.p, pa.St, 15)...)
	}
}

type implWant struct {
	conf        func(string) *Term // parameters asked for
	data        func(*Term) bool   // what the buffer is filled with
	list        *Term              // what the queue is filled with
	initializer *Term
	distrib     *Term
	recv        *Term // original
}

// implFields compares the fields of a new implementation with what it is built for
func (r *Report) implFields(s *symRun, pa *Path, rule, name string, ptr *Term, w implWant) {
	tr := trail(r.p, pa.St, 15)
	f := pa.St.facts
	t := elemTypeOf(ptr.Typ)
	st := structOf(t)
	if st == nil || ptr.Op != "alloc" && ptr.Op != "pobj" {
		r.bad(rule, name+"/impl", s.pos(), "the implementation is not a new object: "+clip(ptr.String(), 60), tr...)
		return
	}
	for i := 0; i < st.NumFields(); i++ {
		fl := st.Field(i)
		addr := mkFieldAddr(ptr, ptr.Typ, i)
		what := name + "/" + fl.Name()
		if isStructType(fl.Type()) {
			if strings.HasSuffix(typKey(fl.Type()), ".Conf") {
				r.asked(s, pa, rule, what, addr, w.conf)
			}
			for _, l := range leavesOf(addr) {
				v := s.value(pa.St, l)
				r.check(v != nil && (w.recv == nil || !Contains(v, w.recv)), rule, what, s.pos(), "part of the original is kept", tr...)
			}
			continue
		}
		v := s.value(pa.St, addr)
		if v == nil {
			r.bad(rule, what, s.pos(), "value not known", tr...)
			continue
		}
		switch {
		case isIfaceNamed(fl.Type(), "core.Buffer"):
			var call *Event
			for _, ev := range callsTo(pa.St, "core.NewDataBuffer") {
				if ev.Res == v {
					call = ev
				}
			}
			r.check(call != nil && w.data != nil && w.data(call.Args[0]), rule, what, s.pos(), "the implementation has not a new buffer filled with the data", tr...)
			if call != nil {
				r.check(same(f, call.Args[1], w.conf("FrameSize")), rule, what+"/size", s.pos(), "the buffer has not the size asked for", tr...)
			}
		case w.initializer != nil && isIfaceNamed(fl.Type(), "core.Initializer"):
			r.check(v == w.initializer, rule, what, s.pos(), "the initializer is another one", tr...)
		case w.distrib != nil && isIfaceNamed(fl.Type(), "mcmc.Distrib"):
			r.check(v == w.distrib, rule, what, s.pos(), "the distribution is another one", tr...)
		default:
			if _, ok := fl.Type().Underlying().(*types.Chan); ok && w.list != nil {
				r.check(v.Op == "makechan", rule, what, s.pos(), "the queue is not a new one", tr...)
				r.queued(s, pa, rule, what, v, w.list)
				continue
			}
			r.check(w.recv == nil || !Contains(v, w.recv), rule, what, s.pos(), "part of the original is kept: "+clip(v.String(), 60), tr...)
		}
	}
}

// queued: the elements of a list are sent in order to a channel
func (r *Report) queued(s *symRun, pa *Path, rule, what string, ch, list *Term) {
	tr := trail(r.p, pa.St, 20)
	_, some := feasible(pa.St.facts, Lt(Num(0), mkLen(list)))
	n := 0
	for _, ev := range pa.St.trace.Events() {
		if ev.Kind != "loopexit" || ev.Inst == nil {
			continue
		}
		in := ev.Inst
		sends := map[*Back]int{}
		for _, b := range in.Backs {
			for _, e := range b.St.trace.Events() {
				if e.Kind == "send" && e.Recv == ch && order(b.St, in) < indexOf(b.St, e) {
					n++
					sends[b]++
					ok := sameElem(b.St.facts, e.Args[0], at(list, in.K)) && in.N != nil && same(b.St.facts, in.N, mkLen(list)) && exhausted(pa.St, in)
					r.check(ok, rule, what+"/elements", r.p.pos(e.Pos), "the elements are not queued one by one, in order", tr...)
				}
			}
		}
		for _, b := range in.Backs {
			r.check(len(sends) == 0 || sends[b] == 1, rule, what+"/every", s.pos(), "an element is not queued, or queued twice", trail(r.p, b.St, 15)...)
		}
	}
	r.check(n > 0 || !some, rule, what+"/queued", s.pos(), "the elements are not queued", tr...)
}

// wiring: the algorithm of a package is built on the configuration, data and collaborators it is given
func (r *Report) wiring(pk string) {
	fn := r.p.Func(pk + ".NewAlgo")
	if fn == nil {
		r.bad("anchor", pk+".NewAlgo", "", "function not found")
		return
	}
	s := r.symFn(pk+".NewAlgo", fn, Options{Opaque: r.p.opaque("core.NewAlgo", "core.NewDataBuffer")}, nil)
	w := implWant{}
	var conf, space, data *Term
	for i, p := range fn.Params {
		switch a := s.a[i]; {
		case isIfaceNamed(p.Type(), pk+".Conf"):
			conf = a
		case isIfaceNamed(p.Type(), "core.Space"):
			space = a
		case isIfaceNamed(p.Type(), "core.Initializer"):
			w.initializer = a
		case isIfaceNamed(p.Type(), "mcmc.Distrib"):
			w.distrib = a
		case p.Type().String() == "[]"+modPath+"/core.Elemt" || p.Type().String() == "[]"+"interface{}" && data == nil && !fn.Signature.Variadic():
			data = a
		}
	}
	if data == nil {
		for i, p := range fn.Params {
			if _, ok := p.Type().Underlying().(*types.Slice); ok && data == nil {
				data = s.a[i]
			}
		}
	}
	if conf == nil || space == nil || data == nil {
		r.bad("anchor", pk+".NewAlgo", s.pos(), "its configuration, space and data are not found")
		return
	}
	w.conf = getter(conf)
	w.data = func(t *Term) bool { return t == data }
	w.list = data
	n := 0
	for _, pa := range s.returns() {
		tr := trail(r.p, pa.St, 15)
		news := callsTo(pa.St, "core.NewAlgo")
		if len(news) != 1 || pa.Res[0] != resultOf(news[0], 0) && pa.Res[0] != news[0].Res {
			r.bad("wiring", pk+"/algo", s.pos(), "no algorithm is built, or another one is returned", tr...)
			continue
		}
		n++
		a := news[0].Args
		r.check(a[2] == space, "wiring", pk+"/space", s.pos(), "the algorithm is built on another space", tr...)
		c := unface(a[0])
		if structOf(elemTypeOf(c.Typ)) == nil {
			r.bad("wiring", pk+"/conf", s.pos(), "the configuration is not known", tr...)
		} else {
			r.asked(s, pa, "wiring", pk, c, w.conf)
		}
		r.implFields(s, pa, "wiring", pk, unface(a[1]), w)
	}
	if n == 0 {
		r.bad("wiring", pk+"/none", s.pos(), "no algorithm is built")
	}
}

// copyImpl: an implementation is copied for the configuration of the model it is given, with the data of the original
func (r *Report) copyImpl(pk string) {
	s := r.sym(pk+".Impl.Copy", Options{Opaque: r.p.opaque("core.NewDataBuffer")})
	if s == nil {
		return
	}
	m := r.modelOf(s)
	recv := s.a[0]
	var conf func(string) *Term
	if m.conf != nil {
		conf = r.confGetter(s, m.conf, pk+".Conf")
	}
	if conf == nil {
		r.bad("rebuilt", pk+"/conf", s.pos(), "the configuration of the model is not read")
		return
	}
	w := implWant{conf: conf, recv: recv}
	st := structOf(elemTypeOf(recv.Typ))
	for i := 0; i < st.NumFields(); i++ {
		v := loadOf(mkFieldAddr(recv, recv.Typ, i))
		switch t := st.Field(i).Type(); {
		case isIfaceNamed(t, "core.Initializer"):
			w.initializer = v
		case isIfaceNamed(t, "mcmc.Distrib"):
			w.distrib = v
		case isIfaceNamed(t, "core.Clust"):
			w.list = v
		}
	}
	n := 0
	for _, pa := range s.returns() {
		f, tr := pa.St.facts, trail(r.p, pa.St, 15)
		if !f.Entails(Eq(pa.Res[1], Nil)) {
			r.check(r.p.notNil(f, pa.Res[1]), "rebuilt", pk+"/error", s.pos(), "whether the copy succeeds is not known", tr...)
			continue
		}
		n++
		w.data = func(t *Term) bool {
			for _, ev := range eventsOf(pa.St, "invoke", "Buffer.Data") {
				if t == ev.Res || t == resultOf(ev, 0) {
					return Contains(ev.Recv, recv)
				}
			}
			return false
		}
		r.implFields(s, pa, "rebuilt", pk, unface(pa.Res[0]), w)
	}
	if n == 0 {
		r.bad("rebuilt", pk+"/none", s.pos(), "no implementation is built")
	}
}

// ---- storage ----

// separate: nothing reached from a copied implementation is written by the methods of the original, or the other way round
func (r *Report) separate() {
	for _, t := range r.p.implementing("core.Impl") {
		var copyFn *ssa.Function
		written := map[string]string{}
		name := short(types.TypeString(t, nil))
		for _, fn := range r.p.methods(t, true) {
			if fn.Name() == "Copy" {
				copyFn = fn
				continue
			}
			for _, w := range r.effects(fn).Writes() {
				if rn := recvName(fn); rn != "" && under(w.l.o.name, rn) {
					written[strings.TrimPrefix(w.l.o.name, rn)] = w.pos
				}
			}
		}
		if copyFn == nil {
			r.bad("separate", name, "", "no copy")
			continue
		}
		a := r.effects(copyFn)
		rn := recvName(copyFn)
		n := 0
		for _, l := range sortedLocs(a.reach(a.Results(copyFn, 0))) {
			if !l.o.arg || !under(l.o.name, rn) {
				continue
			}
			path := strings.TrimPrefix(l.o.name, rn)
			if r.collaborator(t, path) {
				continue
			}
			n++
			where, bad := written[path]
			if !bad && l.o.typ != nil {
				switch l.o.typ.Underlying().(type) {
				case *types.Chan, *types.Map:
					bad, where = true, r.p.pos(copyFn.Pos())
				}
			}
			r.check(!bad, "separate", name+path, r.p.pos(copyFn.Pos()), "the copy shares this memory with the original, which writes it at "+where)
		}
		for _, w := range a.Writes() {
			if under(w.l.o.name, rn) && !r.collaborator(t, strings.TrimPrefix(w.l.o.name, rn)) {
				r.bad("separate", name+"/write", w.pos, "the copy writes in the original: "+w.l.o.name)
			}
		}
		r.ok("separate", name)
	}
}

// collaborator: reached through a field given by the user
func (r *Report) collaborator(t types.Type, path string) bool {
	st := structOf(t)
	if p, ok := t.(*types.Pointer); ok {
		st = structOf(p.Elem())
	}
	for i := 0; st != nil && i < st.NumFields(); i++ {
		fl := st.Field(i)
		if !under(path, "."+fl.Name()) {
			continue
		}
		if isIfaceNamed(fl.Type(), "core.Initializer") || isIfaceNamed(fl.Type(), "mcmc.Distrib") {
			return true
		}
	}
	return strings.HasSuffix(path, ".RGen") || strings.HasSuffix(path, ".Src")
}
