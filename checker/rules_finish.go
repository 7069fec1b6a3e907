package main

import (
	"fmt"
	"go/types"
)

func init() {
	rulesByID["C11"] = &Rule{run: ruleC11, assumptions: append(append([]string{}, seqAssumptions...),
		"the figures of the model are the counters of the algorithm (C10)"),
		explanation: seqExplanation + "; before every iteration of the run, each path is shown to have refuted the budget and the user's condition on figures read since the previous iteration, and each way out of the loop to be justified"}
}

// truth tells what the facts say of a boolean: 1, -1 or 0
func truth(f *Facts, t *Term) int {
	switch {
	case t == True || f.Entails(t):
		return 1
	case t == False || f.Entails(Not(t)):
		return -1
	}
	return 0
}

// after lists the events of a path that follow the last entry in a loop
func after(st *State, in *LoopInst) []*Event {
	evs := st.trace.Events()
	for i := len(evs) - 1; i >= 0; i-- {
		if evs[i].Kind == "loopenter" && evs[i].Inst == in {
			return evs[i+1:]
		}
	}
	return nil
}

// wayOut is the last loop left on a path, and how
func wayOut(st *State, loops map[*LoopInst]bool) (*LoopInst, string) {
	var in *LoopInst
	kind := ""
	for _, ev := range st.trace.Events() {
		if ev.Kind == "loopexit" && loops[ev.Inst] {
			in, kind = ev.Inst, ev.Name
		}
	}
	return in, kind
}

// atEnd lists the values a boolean may have when a loop is exhausted, with the facts of each
func atEnd(res *Term, in *LoopInst, f *Facts) (vals []*Term, fs []*Facts, first bool) {
	for _, v := range in.Vars {
		if v.Var != res {
			continue
		}
		vals, fs = append(vals, v.Init), append(fs, in.Entry.facts)
		for i := range in.Backs {
			vals, fs = append(vals, in.Backs[i].Next[v]), append(fs, in.Backs[i].St.facts)
		}
		return vals, fs, true
	}
	return []*Term{res}, []*Facts{f}, false
}

// member is what a path says of one condition of a list: 1 holds, -1 does not
func (r *Report) member(s *symRun, st *State, evs []*Event, m, model *Term) int {
	f := st.facts
	if m == Nil || f.Entails(Eq(m, Nil)) {
		return -1
	}
	for _, ev := range evs {
		if ev.Kind == "invoke" && ev.Name == "Finishing.IsFinished" && ev.Recv == m {
			if len(ev.Args) != 1 || ev.Args[0] != model {
				r.bad("combine", s.name+"/model", s.r.p.pos(ev.Pos), "a condition is evaluated on another model")
			}
			return truth(f, ev.Res)
		}
	}
	return 0
}

// combined: stop is the value of a member that decides (true for or, false for and)
func (r *Report) combined(name string, stop int) {
	s := r.sym(name, Options{})
	if s == nil || len(s.a) != 2 {
		return
	}
	list := mkField(s.a[0], s.a[0].Typ, 0)
	loops := map[*LoopInst]bool{}
	for _, in := range s.e.insts {
		uses := false
		for _, b := range in.Backs {
			m := r.member(s, b.St, after(b.St, in), at(list, in.K), s.a[1])
			if m != 0 {
				uses = true
				r.check(m == -stop || latch(r, s, in, list, stop) != nil, "combine", s.name+"/continue", s.pos(), "goes on after a member that decides")
			}
		}
		for _, ev := range after2(s, in) {
			if ev.Kind == "invoke" && ev.Recv == at(list, in.K) {
				uses = true
			}
		}
		if !uses {
			continue
		}
		loops[in] = true
		for _, b := range in.Backs {
			if latch(r, s, in, list, stop) != nil {
				break
			}
			r.check(r.member(s, b.St, after(b.St, in), at(list, in.K), s.a[1]) != 0, "combine", s.name+"/skip", s.pos(), "a member of the list is not evaluated")
		}
	}
	r.need("combine", 6)
	for _, pa := range s.returns() {
		f := pa.St.facts
		res := pa.Res[0]
		in, how := wayOut(pa.St, loops)
		empty := f.Entails(Eq(mkLen(list), Num(0)))
		switch {
		case in == nil || empty:
			if !empty {
				r.bad("combine", s.name+"/none", s.pos(), "returns without evaluating the members")
			} else if stop == 1 {
				r.check(truth(f, res) == -1, "combine", s.name+"/empty", s.pos(), "holds without member")
			} else {
				r.ok("combine", s.name+"/empty")
			}
		case how == "exhausted":
			r.check(in.N != nil && (in.N == mkLen(list) || f.Entails(Eq(in.N, mkLen(list)))), "combine", s.name+"/all", s.pos(), "not all members are evaluated")
			if v := latch(r, s, in, list, stop); v != nil && res == v.Var {
				r.ok("combine", s.name+"/end")
				continue
			}
			vals, fs, first := atEnd(res, in, f)
			for i, v := range vals {
				if first && i == 0 && stop == -1 {
					continue // an empty list: either
				}
				g := fs[i]
				if !first && stop == -1 {
					if h, ok := g.Assume(Lt(Num(0), mkLen(list))); ok {
						g = h
					}
				}
				r.check(truth(g, v) == -stop, "combine", s.name+"/end", s.pos(), "the result is not that of the members when none decides")
			}
		default:
			m := r.member(s, pa.St, after(pa.St, in), at(list, in.K), s.a[1])
			if v := latch(r, s, in, list, stop); v != nil && m == 0 {
				m = truth(f, v.Var)
			}
			r.check(m == stop, "combine", s.name+"/stop", s.pos(), "stops at a member that does not decide")
			r.check(truth(f, res) == stop, "combine", s.name+"/decided", s.pos(), "the result is not that of the member that decides")
		}
	}
}

// latch is the variable of a loop that keeps the value of the last member, and ends the loop when it decides
func latch(r *Report, s *symRun, in *LoopInst, list *Term, stop int) *LoopVar {
	for _, v := range in.Vars {
		if v.Var == nil || v.Typ == nil || !isBool(v.Typ) || truth(in.Entry.facts, v.Init) != -stop {
			continue
		}
		ok := len(in.Backs) > 0
		for _, b := range in.Backs {
			n := b.Next[v]
			m := r.member(s, b.St, after(b.St, in), at(list, in.K), s.a[1])
			same := n != nil && (n == resOf2(after(b.St, in), at(list, in.K)) || m != 0 && truth(b.St.facts, n) == m)
			ok = ok && same && truth(b.St.facts, v.Var) == -stop
		}
		if ok {
			return v
		}
	}
	return nil
}

func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func resOf2(evs []*Event, recv *Term) *Term {
	for _, ev := range evs {
		if ev.Kind == "invoke" && ev.Recv == recv {
			return ev.Res
		}
	}
	return nil
}

// after2 lists the events of the returning paths that follow the entry in a loop
func after2(s *symRun, in *LoopInst) []*Event {
	var out []*Event
	for _, pa := range s.returns() {
		out = append(out, after(pa.St, in)...)
	}
	return out
}

// budget: the iteration budget of a configuration for some figures
func budget(iter, perData, iterations, pushed *Term) []*Term {
	var out []*Term
	on := Or(Lt(Num(0), iter), Lt(Num(0), perData))
	for _, it := range []*Term{mkTrunc(iterations), iterations} {
		for _, pd := range []*Term{mkTrunc(pushed), pushed} {
			out = append(out, And(on, Le(Add(iter, Mul(pd, perData)), it)))
		}
	}
	return out
}

func mkTrunc(t *Term) *Term {
	if t.Op == "num" {
		return t
	}
	return U.mk("trunc", "", nil, types.Typ[types.Int], t)
}

// figureReads lists the values read from the figures under a name
func figureReads(evs []*Event, name string, from func(m *Term) bool) []*Term {
	var out []*Term
	for _, ev := range evs {
		if ev.Kind == "mapget" && len(ev.Args) == 1 && ev.Args[0].Op == "str" && ev.Args[0].Aux == name && ev.Res != nil {
			v := ev.Res
			if from(v) {
				out = append(out, v)
			}
		}
	}
	return out
}

func ruleC11(r *Report) {
	r.combined("core.AndFinishing.IsFinished", -1)
	r.combined("core.OrFinishing.IsFinished", 1)
	r.absent()
	r.iterFinishing()
	r.statusFinishing()
	r.finishingStructs()
	r.runBudget()
}

func (r *Report) absent() {
	s := r.sym("core.IsFinished", Options{})
	if s == nil {
		return
	}
	for _, pa := range s.returns() {
		m := r.member(s, pa.St, pa.St.trace.Events(), s.a[0], s.a[1])
		r.check(m != 0 && truth(pa.St.facts, pa.Res[0]) == m || m == 0 && resOf(pa.St, "Finishing.IsFinished", s.a[0]) == pa.Res[0], "combine", s.name, s.pos(), "an absent condition does not hold, another one holds when it says so")
	}
}

func resOf(st *State, name string, recv *Term) *Term {
	for _, ev := range st.trace.Events() {
		if ev.Kind == "invoke" && ev.Name == name && ev.Recv == recv {
			return ev.Res
		}
	}
	return nil
}

func (r *Report) iterFinishing() {
	s := r.sym("core.IterFinishing.IsFinished", Options{})
	if s == nil {
		return
	}
	iter, per := fieldNamed(s.a[0], "Iter"), fieldNamed(s.a[0], "IterPerData")
	for _, pa := range s.returns() {
		evs := pa.St.trace.Events()
		of := func(m *Term) bool {
			return Any(m, func(t *Term) bool { return isInvokeOn(evs, t, "OCModel.RuntimeFigures", s.a[1]) })
		}
		its, pds := figureReads(evs, "iterations", of), figureReads(evs, "pushedData", of)
		f := pa.St.facts
		res := pa.Res[0]
		ok := false
		if refutes(f, Or(Lt(Num(0), iter), Lt(Num(0), per))) {
			ok = truth(f, res) == -1
		}
		for _, it := range its {
			for _, pd := range pds {
				for _, b := range budget(iter, per, it, pd) {
					if refutes(f, And(res, Not(b))) && refutes(f, And(Not(res), b)) {
						ok = true
					}
				}
			}
		}
		r.check(ok, "budget", s.name, s.pos(), "the iteration budget is not iterations >= Iter + pushedData x IterPerData, when one is configured: "+clip(res.String(), 200))
	}
	r.need("budget", 2)
}

func isInvokeOn(evs []*Event, t *Term, name string, recv *Term) bool {
	for _, ev := range evs {
		if ev.Kind == "invoke" && ev.Name == name && ev.Recv == recv && ev.Res == t {
			return true
		}
	}
	return false
}

func fieldNamed(v *Term, name string) *Term {
	st := structOf(v.Typ)
	for i := 0; st != nil && i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return mkField(v, v.Typ, i)
		}
	}
	return U.mk("missing", name, nil, types.Typ[types.Int])
}

func (r *Report) statusFinishing() {
	s := r.sym("core.StatusFinishing.IsFinished", Options{})
	if s == nil {
		return
	}
	list, flag := fieldNamed(s.a[0], "Status"), fieldNamed(s.a[0], "Error")
	for _, pa := range s.returns() {
		st := resOf(pa.St, "OCModel.Status", s.a[1])
		if st == nil {
			r.bad("status", s.name, s.pos(), "the status of the model is not read")
			continue
		}
		e := And(flag, Not(Eq(ocError(st), Nil)))
		f, res := pa.St.facts, pa.Res[0]
		loops := map[*LoopInst]bool{}
		for _, in := range s.e.insts {
			for _, b := range in.Backs {
				if b.St.facts.Entails(Not(Eq(at(list, in.K), ocValue(st)))) {
					loops[in] = true
				}
			}
			for _, b := range in.Backs {
				if loops[in] {
					r.check(b.St.facts.Entails(Not(Eq(at(list, in.K), ocValue(st)))), "status", s.name+"/continue", s.pos(), "goes on after the status was found")
				}
			}
		}
		in, how := wayOut(pa.St, loops)
		empty := f.Entails(Eq(mkLen(list), Num(0)))
		switch {
		case in == nil && !empty:
			r.check(f.Entails(e) || refutes(f, Not(e)), "status", s.name+"/error", s.pos(), "decides without looking at the statuses")
			r.check(truth(f, res) == 1, "status", s.name+"/error", s.pos(), "an error does not finish although asked for")
		case in == nil || how == "exhausted":
			if in != nil {
				r.check(in.N != nil && (in.N == mkLen(list) || f.Entails(Eq(in.N, mkLen(list)))), "status", s.name+"/all", s.pos(), "not all statuses are compared")
			}
			vals, fs := []*Term{res}, []*Facts{f}
			if in != nil {
				vals, fs, _ = atEnd(res, in, f)
			}
			for i, v := range vals {
				g := fs[i]
				if truth(g, v) == 1 {
					r.check(refutes(g, Not(e)) || refutes(f, Not(e)), "status", s.name+"/error", s.pos(), "finishes without matching status nor error")
				} else if truth(g, v) == -1 {
					r.check(refutes(g, e) || refutes(f, e), "status", s.name+"/none", s.pos(), "an error does not finish although asked for")
				} else {
					r.check(refutes(g, And(v, Not(e))) && refutes(g, And(Not(v), e)), "status", s.name+"/none", s.pos(), "without matching status the result is not that of the error")
				}
			}
		default:
			eq := f.Entails(Eq(at(list, in.K), ocValue(st)))
			r.check(eq, "status", s.name+"/stop", s.pos(), "stops at a status that does not match")
			r.check(truth(f, res) == 1, "status", s.name+"/decided", s.pos(), "a matching status does not finish")
		}
	}
	r.need("status", 4)
}

// finishingStructs: the constructors keep what they are given
func (r *Report) finishingStructs() {
	for name, fields := range map[string][]string{
		"core.NewAndFinishing":    {"Finishings"},
		"core.NewOrFinishing":     {"Finishings"},
		"core.NewIterFinishing":   {"Iter", "IterPerData"},
		"core.NewStatusFinishing": {"Error", "Status"},
	} {
		s := r.sym(name, Options{})
		if s == nil {
			continue
		}
		for _, pa := range s.returns() {
			v := unface(pa.Res[0])
			for i, fld := range fields {
				got := fieldNamed(v, fld)
				ok := got == s.a[i] || pa.St.facts.Entails(Eq(got, s.a[i]))
				if !ok && got.Typ != nil && s.a[i].Typ != nil {
					if _, sl := s.a[i].Typ.Underlying().(*types.Slice); sl {
						ok = sameElems(pa.St, got, s.a[i])
					}
				}
				r.check(ok, "keep", name+"/"+fld, s.pos(), "the condition is not built on what is given: "+clip(got.String(), 100))
			}
		}
	}
	r.need("keep", 6)
}

// runBudget: the conditions evaluated by the run
func (r *Report) runBudget() {
	c := r.conc()
	if !c.ready() {
		return
	}
	p := r.p
	run := c.theRun()
	r.roots([]*Root{run})
	for _, u := range run.E.undecided {
		r.bad("undecided", run.Name, p.pos(run.Fn.Pos()), u)
	}
	for _, x := range c.roots {
		if x.Fn == c.roles.run.Fn {
			continue
		}
		x.each(func(ev *Event) {
			if ev.Kind == "invoke" && ev.Name == "Impl.Iterate" {
				r.bad("iterate", x.Name, p.pos(ev.Pos), "iterates out of the run")
			}
		})
	}
	conf := r.ctrlConf(run)
	if conf == nil {
		r.bad("anchor", "run/conf", p.pos(run.Fn.Pos()), "the configuration of the algorithm is not read by the run")
		return
	}
	r.need("iterate", 4)
	r.need("leave", 3)
	k := &finCheck{r: r, c: c, run: run, iter: conf("Iter"), per: conf("IterPerData"), fin: conf("Finishing")}
	loops := map[*LoopInst]bool{}
	for _, in := range run.E.insts {
		for _, b := range in.Backs {
			for _, ev := range after(b.St, in) {
				if ev.Kind == "invoke" && ev.Name == "Impl.Iterate" {
					loops[in] = true
				}
			}
		}
	}
	if len(loops) == 0 {
		r.bad("iterate", "run", p.pos(run.Fn.Pos()), "the run does not iterate")
	}
	for _, st := range run.ends() {
		var seg []*Event
		for _, ev := range st.trace.Events() {
			if ev.Kind == "loopenter" && loops[ev.Inst] {
				seg = nil
				continue
			}
			if ev.Kind == "invoke" && ev.Name == "Impl.Iterate" {
				k.iterates(st, ev, seg)
				seg = nil
			}
			seg = append(seg, ev)
		}
	}
	for in := range loops {
		for _, b := range in.Backs {
			did := false
			for _, ev := range after(b.St, in) {
				if ev.Kind == "invoke" && ev.Name == "Impl.Iterate" || ev.Kind == "recv" && role(ev) == c.roles.statusCh {
					did = true
				}
			}
			r.check(did, "iterate", "run/skip", p.pos(run.Fn.Pos()), "goes on without iterating although nothing was asked", trail(p, b.St, 25)...)
			for _, v := range in.Vars {
				if !ownError(v) {
					continue
				}
				n := b.Next[v]
				ok := n == nil || n == v.Var || n == Nil || b.St.facts.Entails(Eq(n, Nil)) || k.isErr(b.St, n)
				r.check(ok, "leave", "run/error", p.pos(run.Fn.Pos()), "the run fails although the implementation did not: "+clip(fmt.Sprint(n), 80))
			}
		}
		for _, st := range run.ends() {
			out := false
			for _, ev := range after(st, in) {
				out = out || ev.Kind == "loopexit" && ev.Inst == in
			}
			if out {
				why := k.leaves(st, in)
				r.check(why != "", "leave", "run/"+why, p.pos(run.Fn.Pos()), "leaves the run although no condition holds", trail(p, st, 30)...)
			}
		}
	}
}

// ctrlConf reads the control parameters of the configuration of the algorithm
func (r *Report) ctrlConf(run *Root) func(string) *Term {
	var base *Term
	find := func(t *Term) bool {
		if t.Op == "call" && t.Aux == "Conf.Ctrl" && len(t.Args) > 0 && t.Args[0].Op == "load" && t.Args[0].Args[0].Op == "fieldaddr" {
			base = t
			return true
		}
		return false
	}
	for _, st := range run.ends() {
		for _, l := range st.facts.all() {
			if base == nil {
				Any(l, find)
			}
		}
	}
	if base == nil {
		return nil
	}
	return ptrGetter(r, base)
}

type finCheck struct {
	r   *Report
	c   *Conc
	run *Root

	iter, per, fin *Term
}

// read tells whether a value was read from the figures of the algorithm by these events
func (k *finCheck) read(evs []*Event) func(m *Term) bool {
	loaded := map[*Term]bool{}
	for _, ev := range evs {
		if ev.Kind == "load" && ev.Field == k.c.roles.figures && ev.Res != nil {
			loaded[ev.Res] = true
		}
	}
	return func(m *Term) bool { return Any(m, func(t *Term) bool { return loaded[t] }) }
}

// over is the budget on the figures read by these events, in its readings
func (k *finCheck) over(evs []*Event) []*Term {
	var out []*Term
	from := k.read(evs)
	for _, it := range figureReads(evs, "iterations", from) {
		for _, pd := range figureReads(evs, "pushedData", from) {
			out = append(out, budget(k.iter, k.per, it, pd)...)
		}
	}
	return out
}

func (k *finCheck) status(evs []*Event) *Term {
	var v *Term
	for _, ev := range evs {
		if s := k.c.statusOf(ev); s != nil {
			v = s
		}
	}
	return v
}

// user tells what the user's condition said during these events
func (k *finCheck) user(f *Facts, evs []*Event) int {
	if f.Entails(Eq(k.fin, Nil)) {
		return -1
	}
	v := 0
	for _, ev := range evs {
		if ev.Kind == "invoke" && ev.Name == "Finishing.IsFinished" && ev.Recv == k.fin && k.current(ev, evs) {
			v = truth(f, ev.Res)
		}
	}
	return v
}

// current tells whether a condition is evaluated on the algorithm itself, or on what was just read from it
func (k *finCheck) current(ev *Event, evs []*Event) bool {
	if len(ev.Args) != 1 {
		return false
	}
	m := ev.Args[0]
	if u := unface(m); isParam(u) || u.Op == "param" || u.Op == "load" {
		return true
	}
	loaded := map[*Term]bool{}
	for _, e := range evs {
		if e.Kind == "load" && e.Field != nil && e.Res != nil {
			loaded[e.Res] = true
		}
	}
	stale := Any(m, func(t *Term) bool {
		return t.Op == "load" && len(t.Aux) > 0 && !loaded[t]
	})
	return !stale
}

func isParam(t *Term) bool { return t.Op == "param" || t.Op == "free" }

func (k *finCheck) iterates(st *State, ev *Event, seg []*Event) {
	r, p := k.r, k.r.p
	f := ev.Facts
	v := k.status(seg)
	r.check(v != nil && f.Entails(Eq(v, p.status("Running"))), "iterate", "run/status", p.pos(ev.Pos), "iterates although the algorithm may not be running", trail(p, st, 25)...)
	ok := refutes(f, Or(Lt(Num(0), k.iter), Lt(Num(0), k.per)))
	for _, b := range k.over(seg) {
		ok = ok || refutes(f, b)
	}
	r.check(ok, "iterate", "run/budget", p.pos(ev.Pos), "iterates although the budget on the current figures may be exhausted", trail(p, st, 25)...)
	r.check(k.user(f, seg) == -1, "iterate", "run/user", p.pos(ev.Pos), "iterates although the user's condition may hold on the current model", trail(p, st, 25)...)
}

// isErr tells whether a value is the error of an iteration of this path
func (k *finCheck) isErr(st *State, n *Term) bool {
	for _, ev := range st.trace.Events() {
		if ev.Kind == "invoke" && ev.Name == "Impl.Iterate" && resultOf(ev, 2) == n {
			return true
		}
	}
	return false
}

// leaves gives the reason why a path leaves the loop
func (k *finCheck) leaves(st *State, in *LoopInst) string {
	f := st.facts
	evs := after(st, in)
	for i, ev := range evs {
		if ev.Kind == "loopexit" && ev.Inst == in {
			evs = evs[:i+1]
			break
		}
	}
	for _, ev := range evs {
		if ev.Kind == "panic" || ev.Kind == "userpanic" || ev.Kind == "loopexit" && ev.Name == "panic" {
			return "panic"
		}
	}
	for _, v := range in.Vars {
		if ownError(v) && v.Var != nil && f.Entails(Not(Eq(v.Var, Nil))) {
			return "error"
		}
	}
	n := -1
	for i, ev := range evs {
		if ev.Kind == "invoke" && ev.Name == "Impl.Iterate" {
			n = i
			if e := resultOf(ev, 2); e != nil && f.Entails(Not(Eq(e, Nil))) {
				return "error"
			}
		}
	}
	evs = evs[n+1:]
	if v := k.status(evs); v != nil && f.Entails(Not(Eq(v, k.r.p.status("Running")))) {
		return "status"
	}
	for _, b := range k.over(evs) {
		if refutes(f, Not(b)) {
			return "budget"
		}
	}
	if k.user(f, evs) == 1 {
		return "user"
	}
	return ""
}

// sameElems: a slice, or a copy of it made by the analysed function
func sameElems(st *State, got, want *Term) bool {
	a, ao := sliceRoot(got)
	b, bo := sliceRoot(want)
	if a == b && ao == bo {
		return true
	}
	c := content(st, got, mkLen(want))
	return c != nil && c(probe) == at(want, probe)
}

// ownError: an error the analysed function keeps in a variable of its own
func ownError(v *LoopVar) bool {
	return v.Typ != nil && isErrorType(v.Typ) && (v.Cell == nil || rootOf(v.Cell).Op == "alloc")
}
