package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rulesByID["C12"] = &Rule{run: ruleC12, assumptions: append([]string{
		"waiting polls its condition: what is decided is what ends it, not how long the last poll took"}, concAssumptions...),
		explanation: concExplanation + ": decision table of Wait, every way out of the polling loop, and the life of the interruption timer (armed, disabled, re-checked under the locks) on every path that starts or ends a run"}
}

func ruleC12(r *Report) {
	c := r.conc()
	if !c.ready() {
		r.bad("anchor", "controller", "", "the controller is not found")
		return
	}
	r.need("wait", 5)
	r.need("poll", 3)
	r.need("timer", 4)
	r.need("arm", 2)
	r.need("disarm", 2)
	r.need("interrupt", 3)
	r.waitTable(c)
	r.polling()
	t := r.timer(c)
	if t == nil {
		return
	}
	r.arming(c, t)
	r.disarming(c, t)
}

// ctlSym analyses a function of the controller
func (r *Report) ctlSym(c *Conc, fn *ssa.Function, opaque ...string) *symRun {
	o := c.options(fn)
	o.Opaque = map[string]bool{}
	for n, v := range c.opaqueFor(fn) {
		o.Opaque[n] = v
	}
	for n := range r.p.opaque(opaque...) {
		o.Opaque[n] = true
	}
	s := &symRun{r: r, name: short(fn.String()), fn: fn, a: params(fn), e: r.p.NewExec(o)}
	s.e.guards = c.guards
	s.paths = s.e.Run(fn, s.a, nil, nil)
	r.fn(fn)
	r.saw(s.e)
	for _, u := range s.e.undecided {
		r.bad("undecided", s.name, r.p.pos(fn.Pos()), u)
	}
	return s
}

// ---- Wait ----

func (r *Report) waitTable(c *Conc) {
	fn := r.p.Func("core.Algo.Wait")
	if fn == nil {
		r.bad("anchor", "core.Algo.Wait", "", "function not found")
		return
	}
	s := r.ctlSym(c, fn, "core.WaitTimeout")
	algo, fin, dur := s.a[0], s.a[1], s.a[2]
	for _, pa := range s.returns() {
		y := c.ctl(pa.St, pa.Res)
		res, tr := pa.Res[0], trail(r.p, pa.St, 20)
		waits := callsTo(pa.St, "core.WaitTimeout")
		if y.s0 == nil {
			r.bad("wait", "status", s.pos(), "the status is not read", tr...)
			continue
		}
		for _, n := range statusNames {
			f, ok := y.can(r.p.status(n))
			if !ok || n == "Initializing" {
				continue
			}
			switch n {
			case "Running":
				never, may := r.neverFinishes(f, pa.St, fin, dur)
				switch {
				case !may:
					good := len(waits) == 1 && len(waits[0].Args) == 3 && waits[0].Args[0] == fin && waits[0].Args[1] == dur && unface(waits[0].Args[2]) == algo && res == resultOf(waits[0], 0)
					r.check(good, "wait", "Running", s.pos(), "does not wait for the given condition or duration of this algorithm", tr...)
				case never:
					r.check(len(waits) == 0 && r.p.errIs(res, "ErrNeverFinish"), "wait", "never", s.pos(), "waits for an algorithm that can not finish", tr...)
				default:
					r.bad("wait", "never", s.pos(), "whether the algorithm may finish is not decided by the condition, the duration and the configuration", tr...)
				}
			case "Idle":
				r.check(len(waits) == 0 && r.p.errIs(res, "ErrIdle"), "wait", n, s.pos(), "waits for an idle algorithm", tr...)
			case "Created":
				r.check(len(waits) == 0 && r.p.errIs(res, "ErrNotRunning"), "wait", n, s.pos(), "waits for an algorithm that is not started", tr...)
			default:
				r.check(len(waits) == 0 && f.Entails(Eq(res, Nil)), "wait", n, s.pos(), "waits, or fails, although the algorithm is not running", tr...)
			}
		}
	}
}

// neverFinishes: nothing can end the run; may tells whether this is possible
func (r *Report) neverFinishes(f *Facts, st *State, fin, dur *Term) (never, may bool) {
	lits := []*Term{Eq(fin, Nil), Le(dur, Num(0))}
	var ctrl *Term
	for _, ev := range eventsOf(st, "invoke", "Conf.Ctrl") {
		ctrl = ev.Res
	}
	if ctrl != nil {
		g := ptrGetter(r, ctrl)
		lits = append(lits, Eq(g("Finishing"), Nil), Le(g("Timeout"), Num(0)), Eq(g("Iter"), Num(0)), Eq(g("IterPerData"), Num(0)))
	}
	never = ctrl != nil
	may = true
	for _, l := range lits {
		never = never && f.Entails(l)
		if f.Entails(Not(l)) {
			may = false
		}
	}
	return never, may
}

// ---- polling ----

func (r *Report) polling() {
	s := r.sym("core.WaitTimeout", Options{Opaque: r.p.opaque("core.StatusFinishing.IsFinished"), LiveModel: true})
	if s == nil {
		return
	}
	fin, dur, ocm := s.a[0], s.a[1], s.a[2]
	// the evaluations of the condition
	cond := func(st *State, f *Facts, from int) (evs []*Event, good bool) {
		good = true
		for i, ev := range st.trace.Events() {
			if i < from || !strings.HasSuffix(ev.Name, "IsFinished") || ev.Kind != "invoke" && ev.Kind != "extcall" {
				continue
			}
			evs = append(evs, ev)
			if ev.Kind == "invoke" {
				good = good && ev.Recv == fin && unface(ev.Args[0]) == ocm
				continue
			}
			good = good && f.Entails(Eq(fin, Nil)) && len(ev.Args) == 2 && unface(ev.Args[1]) == ocm && r.notRunning(s, st, f, ev.Args[0])
		}
		return
	}
	// elapsed: the clock passed the duration; elapsed tells when this is known
	elapsed := func(st *State, f *Facts, from int) (yes, no bool) {
		var start *Term
		no = true
		for i, ev := range st.trace.Events() {
			if ev.Kind != "now" {
				continue
			}
			if start == nil || i < from {
				if start == nil {
					start = ev.Res
				}
				continue
			}
			end := ev.Res
			no = false
			for _, l := range f.all() {
				if later(l, start, end, dur, false) {
					yes = true
				}
				if later(l, start, end, dur, true) {
					no = true
				}
			}
		}
		if f.Entails(Le(dur, Num(0))) {
			return false, true
		}
		return yes && f.Entails(Lt(Num(0), dur)), no
	}
	n := 0
	for _, pa := range s.returns() {
		f, tr := pa.St.facts, trail(r.p, pa.St, 20)
		from := loopStart(pa.St)
		evs, good := cond(pa.St, f, 0)
		r.check(good, "poll", "condition", s.pos(), "the condition waited for is not the one given, or by default that the algorithm is not running", tr...)
		res := pa.Res[0]
		if len(evs) == 0 {
			r.bad("poll", "evaluated", s.pos(), "returns without evaluating the condition", tr...)
			continue
		}
		last := evs[len(evs)-1]
		met := f.Entails(last.Res)
		yes, _ := elapsed(pa.St, f, from)
		if r.p.errIs(res, "ErrTimeout") && yes {
			r.ok("poll", "timeout")
			continue
		}
		if met {
			// the error of a status read after the condition was met
			ok := false
			for _, ev := range pa.St.trace.Events() {
				if ev.Kind == "invoke" && ev.Name == "OCModel.Status" && ev.Recv == ocm && indexOf(pa.St, ev) > indexOf(pa.St, last) && res == ocError(ev.Res) {
					ok = true
				}
			}
			r.check(ok, "poll", "met", s.pos(), "the status error is not returned once the condition is met", tr...)
			continue
		}
		r.bad("poll", "end", s.pos(), "ends although the condition is not met and the duration has not elapsed", tr...)
	}
	for _, in := range s.e.insts {
		for _, b := range in.Backs {
			f, tr := b.St.facts, trail(r.p, b.St, 20)
			from := loopStartOf(b.St, in)
			evs, good := cond(b.St, f, from)
			if len(evs) == 0 {
				if len(eventsOf(b.St, "sleep", "")) == 0 {
					continue
				}
				r.bad("poll", "evaluated", s.pos(), "waits again without evaluating the condition", tr...)
				continue
			}
			n++
			r.check(good, "poll", "condition", s.pos(), "the condition waited for is not the one given, or by default that the algorithm is not running", tr...)
			r.check(f.Entails(Not(evs[len(evs)-1].Res)), "poll", "missed", s.pos(), "waits although the condition is met", tr...)
			_, no := elapsed(b.St, f, from)
			r.check(no, "poll", "overdue", s.pos(), "waits although the duration may have elapsed", tr...)
			for i, ev := range b.St.trace.Events() {
				if i >= from && ev.Kind == "sleep" {
					d := ev.Args[0]
					r.check(f.Entails(Le(d, Num(1000000000))), "poll", "step", r.p.pos(ev.Pos), "more than one second between two evaluations of the condition", tr...)
				}
			}
		}
	}
	if n == 0 {
		r.bad("poll", "loop", s.pos(), "the condition is not polled")
	}
}

// notRunning: a status condition met exactly when the algorithm is ready, idle or finished, as far as they are visible
func (r *Report) notRunning(s *symRun, st *State, f *Facts, t *Term) bool {
	if t.Op != "struct" {
		return false
	}
	for _, a := range t.Args {
		if a.Typ == nil {
			continue
		}
		if _, ok := a.Typ.Underlying().(*types.Slice); !ok {
			continue
		}
		n, ok := mkLen(a).Const()
		if !ok || !n.IsInt() {
			return false
		}
		has := map[string]bool{}
		for i := int64(0); i < n.Num().Int64(); i++ {
			cs, ok := s.cellCases(st, f, a, Num(i))
			if !ok || len(cs) != 1 {
				return false
			}
			for _, name := range statusNames {
				if cs[0].val == r.p.status(name) {
					has[name] = true
				}
			}
		}
		return has["Ready"] && has["Idle"] && has["Finished"] && !has["Running"]
	}
	return false
}

// later matches a fact that says that at least a duration separates two times, or that it does not
func later(l, start, end, dur *Term, neg bool) bool {
	if neg {
		return later(Not(l), start, end, dur, false)
	}
	limit := func(t *Term) bool {
		return t.Op == "call" && strings.HasSuffix(t.Aux, "Time).Add") && t.Args[0] == start && t.Args[1] == dur
	}
	if l.Op == "call" && len(l.Args) == 2 {
		switch {
		case strings.HasSuffix(l.Aux, "Time).After"):
			return l.Args[0] == end && limit(l.Args[1])
		case strings.HasSuffix(l.Aux, "Time).Before"):
			return limit(l.Args[0]) && l.Args[1] == end
		}
	}
	var diff *Term
	Any(l, func(t *Term) bool {
		if t.Op == "call" && strings.HasSuffix(t.Aux, "Time).Sub") && t.Args[0] == end && t.Args[1] == start {
			diff = t
		}
		return false
	})
	return diff != nil && (l == Lt(dur, diff) || l == Le(dur, diff))
}

func loopStart(st *State) int {
	from := 0
	for i, ev := range st.trace.Events() {
		if ev.Kind == "loopenter" {
			from = i
		}
	}
	return from
}

func loopStartOf(st *State, in *LoopInst) int {
	from := 0
	for i, ev := range st.trace.Events() {
		if ev.Kind == "loopenter" && ev.Inst == in {
			from = i
		}
	}
	if from == 0 {
		return loopStart(st)
	}
	return from
}

// ---- timer ----

// timerType is the type of the interruption timers
type timerType struct {
	enabled *types.Var // what Disable resets
	field   *types.Var // where the controller keeps the timer of its run
	iface   types.Type
}

// timer checks that a new timer sleeps for its duration, then interrupts when it is enabled
func (r *Report) timer(c *Conc) *timerType {
	s := r.sym("core.InterruptionTimeout", Options{})
	if s == nil {
		return nil
	}
	dur, cb := s.a[0], s.a[1]
	t := &timerType{iface: s.fn.Signature.Results().At(0).Type()}
	for _, f := range flatFields(c.roles.st) {
		if types.Identical(f.Type(), t.iface) {
			t.field = f
		}
	}
	if t.field == nil {
		r.bad("timer", "field", s.pos(), "the controller keeps no timer")
		return nil
	}
	for _, pa := range s.returns() {
		tr := trail(r.p, pa.St, 20)
		obj := unface(pa.Res[0])
		gos := eventsOf(pa.St, "go", "")
		if len(gos) != 1 || obj.Op != "alloc" {
			r.bad("timer", "start", s.pos(), "a timer does not start exactly one routine", tr...)
			return nil
		}
		// accessors
		ms := r.p.ssa.MethodSets.MethodSet(obj.Typ)
		method := func(n string) *ssa.Function {
			for i := 0; i < ms.Len(); i++ {
				if ms.At(i).Obj().Name() == n {
					return r.p.ssa.MethodValue(ms.At(i))
				}
			}
			return nil
		}
		if en := method("Enabled"); en != nil {
			e := r.symFn("Enabled", en, Options{}, nil)
			for _, q := range e.returns() {
				x := q.Res[0]
				ok := x.Op == "load" && x.Args[0].Op == "fieldaddr" && x.Args[0].Args[0] == e.a[0]
				if r.check(ok, "timer", "Enabled", e.pos(), "not the state of the timer") {
					t.enabled = x.Args[0].Ref.(FieldRef).Var()
				}
			}
		}
		if t.enabled == nil {
			r.bad("timer", "Enabled", s.pos(), "the state of the timer is not found")
			return nil
		}
		if di := method("Disable"); di != nil {
			e := r.symFn("Disable", di, Options{}, nil)
			for _, q := range e.returns() {
				r.check(lastStored(q.St, t.enabled) == False, "timer", "Disable", e.pos(), "the timer is not disabled")
			}
		}
		en := r.fieldAddr(obj, t.enabled.Name())
		r.check(s.value(gos[0].Snap, en) == True, "timer", "new", s.pos(), "a new timer is not enabled when its routine starts", tr...)
		// routine
		root := c.goRoot(nil, gos[0])
		if root == nil {
			r.bad("timer", "routine", s.pos(), "the routine is not known", tr...)
			return nil
		}
		e := r.p.NewExec(Options{})
		st := c.goState(root, e)
		state := U.mk("probe", "enabled", nil, types.Typ[types.Bool])
		st.cells[en] = state
		e.RunFrom(st, root.Fn, root.Args, root.Free)
		r.fn(root.Fn)
		r.saw(e)
		for _, u := range e.undecided {
			r.bad("undecided", "timer", s.pos(), u)
		}
		fired := false
		for _, q := range e.paths {
			f, tr := q.St.facts, trail(r.p, q.St, 20)
			slept, calls, ok := false, 0, true
			for _, ev := range q.St.trace.Events() {
				switch ev.Kind {
				case "sleep":
					slept = slept || ev.Args[0] == dur
				case "dyncall":
					calls++
					ok = ok && slept && ev.Recv == cb && len(ev.Args) == 1 && r.p.errIs(ev.Args[0], "ErrTimeout")
				}
			}
			r.check(ok && calls <= 1, "timer", "fire", s.pos(), "the interruption is not called once, with the timeout error, after the duration", tr...)
			fired = fired || calls > 0
			if !f.Entails(Not(state)) {
				r.check(calls == 1, "timer", "enabled", s.pos(), "an enabled timer does not interrupt", tr...)
			}
		}
		r.check(fired, "timer", "elapsed", s.pos(), "a timer never interrupts", tr...)
	}
	return t
}

// lastStored gives the last value a path writes to a field
func lastStored(st *State, v *types.Var) *Term {
	var out *Term
	for _, ev := range st.trace.Events() {
		if ev.Kind == "store" && ev.Field == v {
			out = ev.Args[0]
		}
	}
	return out
}

// disabled gives the timer that an event disables
func (t *timerType) disabled(ev *Event) *Term {
	if ev.Kind == "invoke" && strings.HasSuffix(ev.Name, ".Disable") {
		return ev.Recv
	}
	if ev.Kind == "store" && ev.Field == t.enabled && ev.Recv.Op == "fieldaddr" && len(ev.Args) > 0 && ev.Args[0] != True {
		return ev.Recv.Args[0]
	}
	return nil
}

// arming: a run starts with the timer of its configuration, and no older one
func (r *Report) arming(c *Conc, t *timerType) {
	for _, x := range c.roots {
		starts := false
		for _, p := range x.E.paths {
			starts = starts || len(c.ctl(p.St, p.Res).starts) > 0
		}
		if !starts {
			// only runs and their starts touch the timer
			if c.roles.run != nil && x.Fn == c.roles.run.Fn {
				continue
			}
			x.each(func(ev *Event) {
				if d := t.disabled(ev); d != nil && d.Op != "alloc" && !(d.Op == "param" && x.Fn.Name() == "Disable") {
					r.bad("arm", x.Name+"/other", r.p.pos(ev.Pos), "a timer is disabled by an operation that neither starts nor ends a run")
				}
			})
			continue
		}
		if x.Kind == "go" {
			r.bad("arm", x.Name, r.p.pos(x.Fn.Pos()), "a routine starts runs")
			continue
		}
		r.armRoot(c, t, x.Fn)
	}
}

func (r *Report) armRoot(c *Conc, t *timerType, fn *ssa.Function) {
	s := r.ctlSym(c, fn, "core.InterruptionTimeout")
	for _, pa := range s.returns() {
		y := c.ctl(pa.St, pa.Res)
		if len(y.starts) == 0 {
			for _, ev := range pa.St.trace.Events() {
				if t.disabled(ev) != nil || strings.HasSuffix(ev.Name, "InterruptionTimeout") && ev.Kind == "extcall" {
					r.bad("arm", s.name+"/nostart", r.p.pos(ev.Pos), "a timer is changed although no run starts", trail(r.p, pa.St, 20)...)
				}
			}
			continue
		}
		f, tr := pa.St.facts, trail(r.p, pa.St, 30)
		start := indexOf(pa.St, y.starts[0])
		// the timer of the previous run
		var old *Term
		var dis []*Term
		for i, ev := range pa.St.trace.Events() {
			if ev.Kind == "load" && ev.Field == t.field && old == nil {
				old = ev.Res
			}
			if d := t.disabled(ev); d != nil {
				r.check(i < start, "arm", s.name+"/late", r.p.pos(ev.Pos), "a timer is disabled once the run is started", tr...)
				dis = append(dis, d)
			}
		}
		gone := old != nil && f.Entails(Eq(old, Nil))
		for _, d := range dis {
			gone = gone || old != nil && d == old
		}
		r.check(gone, "disarm", s.name+"/previous", s.pos(), "the timer of the previous run is not disabled when a run starts", tr...)
		// the timer of this run
		var ctrl *Term
		for _, ev := range eventsOf(pa.St, "invoke", "Conf.Ctrl") {
			ctrl = ev.Res
		}
		if ctrl == nil {
			r.bad("arm", s.name, s.pos(), "the configured timeout is not read", tr...)
			continue
		}
		timeout := ptrGetter(r, ctrl)("Timeout")
		arms := callsTo(pa.St, "core.InterruptionTimeout")
		kept := lastStored(pa.St, t.field)
		switch {
		case f.Entails(Le(timeout, Num(0))):
			r.check(len(arms) == 0, "arm", s.name+"/none", s.pos(), "a timer is armed without a configured timeout", tr...)
		case f.Entails(Lt(Num(0), timeout)):
			if !r.check(len(arms) == 1 && arms[0].Args[0] == timeout, "arm", s.name+"/one", s.pos(), "the configured timeout is not armed for the run", tr...) {
				continue
			}
			tm := resultOf(arms[0], 0)
			for _, d := range dis {
				r.check(d != tm, "arm", s.name+"/disabled", s.pos(), "the timer of the run is disabled at once", tr...)
			}
			r.check(kept == tm, "arm", s.name+"/kept", s.pos(), "the timer of the run is not kept, to be disabled when another run starts", tr...)
			given := false
			for _, a := range y.starts[0].Args {
				given = given || a == tm
			}
			r.check(given, "arm", s.name+"/given", s.pos(), "the run does not know its timer", tr...)
			r.interruption(c, s, pa, arms[0].Args[1], tm, tr)
		default:
			r.bad("arm", s.name, s.pos(), "a run starts with a timer or not: it is not decided by the configured timeout", tr...)
		}
	}
}

// interruption: an elapsed timer that is still enabled, under the locks that decide on the status, interrupts the run
func (r *Report) interruption(c *Conc, s *symRun, pa *Path, cb, tm *Term, tr []string) {
	fn, _ := cb.Ref.(*ssa.Function)
	var x *Root
	if fn != nil {
		x = c.rootFn(unwrap(fn))
	}
	if x == nil {
		r.bad("interrupt", s.name, s.pos(), "what an elapsed timer does is not known", tr...)
		return
	}
	// what the closure captured, once the run is started
	captured := map[*Term]*Term{}
	for i, fv := range x.Fn.FreeVars {
		if i < len(cb.Args) {
			a := cb.Args[i]
			t := U.mk("param", "free:"+x.Fn.String()+"."+fv.Name(), nil, fv.Type())
			captured[t] = a
			if elemTypeOf(a.Typ) != nil {
				if v := s.value(pa.St, a); v != nil {
					captured[loadOf(t)] = v
				}
			}
		}
	}
	for _, p := range x.E.paths {
		f, ptr := p.St.facts, trail(r.p, p.St, 20)
		y := c.ctl(p.St, p.Res)
		var check *Event
		for _, ev := range p.St.trace.Events() {
			if ev.Kind == "invoke" && strings.HasSuffix(ev.Name, ".Enabled") && Subst(ev.Recv, captured) == tm {
				check = ev
			}
		}
		if !r.check(check != nil, "interrupt", "enabled", r.p.pos(x.Fn.Pos()), "an elapsed timer does not check that it is still enabled: it may interrupt another run", ptr...) {
			continue
		}
		i := y.at(check)
		acts := append(append([]*Event{}, y.stores...), y.sends...)
		if f.Entails(Not(check.Res)) {
			r.check(len(acts) == 0, "interrupt", "disabled", r.p.pos(x.Fn.Pos()), "a disabled timer interrupts", ptr...)
			continue
		}
		r.check(f.Entails(check.Res), "interrupt", "ignored", r.p.pos(x.Fn.Pos()), "an elapsed timer interrupts even when it is disabled", ptr...)
		for _, ev := range acts {
			j := y.at(ev)
			r.check(i < j && c.keepsSpawnLock(y, i, j), "interrupt", "atomic", r.p.pos(ev.Pos), "another run may start between the check of the timer and the interruption", ptr...)
		}
		for _, n := range []string{"Ready", "Running", "Idle"} {
			if _, ok := y.can(r.p.status(n)); !ok {
				continue
			}
			ok := len(acts) > 0
			for _, ev := range acts {
				var e *Term
				if ev.Kind == "send" {
					e = ocError(ev.Args[0])
				} else {
					e = ocError(ev.Res)
				}
				ok = ok && e == x.Args[0]
			}
			r.check(ok, "interrupt", n, r.p.pos(x.Fn.Pos()), "an enabled timer does not interrupt with its error", ptr...)
		}
	}
}

// disarming: the end of a run disables its timer
func (r *Report) disarming(c *Conc, t *timerType) {
	n := 0
	for _, x := range c.roots {
		if c.roles.run == nil || x.Fn != c.roles.run.Fn {
			continue
		}
		var tm *Term
		for i, a := range x.Args {
			if types.Identical(x.Fn.Params[i].Type(), t.iface) {
				tm = a
			}
		}
		if tm == nil {
			r.bad("disarm", "run", r.p.pos(x.Fn.Pos()), "the run does not know its timer")
			continue
		}
		if tm == Nil {
			continue
		}
		n++
		for _, p := range x.E.paths {
			done, f, tr := -1, p.St.facts, trail(r.p, p.St, 20)
			for i, ev := range p.St.trace.Events() {
				if d := t.disabled(ev); d != nil {
					ok := d == tm || d == unface(tm)
					r.check(ok, "disarm", "run/other", r.p.pos(ev.Pos), "the run disables another timer", tr...)
					if ok && done < 0 {
						done = i
					}
				}
				if done >= 0 && ev.Kind == "invoke" && strings.HasPrefix(ev.Name, "Impl.") {
					r.bad("disarm", "run/early", r.p.pos(ev.Pos), "the timer is disabled although the run goes on", tr...)
				}
			}
			r.check(done >= 0 || f.Entails(Eq(tm, Nil)), "disarm", "run/end", r.p.pos(x.Fn.Pos()), "a run ends without disabling its timer: the timer may interrupt what follows", tr...)
		}
	}
	if n == 0 {
		r.bad("disarm", "run", "", "no run with a timer")
	}
}
