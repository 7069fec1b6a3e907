package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rulesByID["C09"] = &Rule{run: ruleC09, assumptions: append(append([]string{}, concAssumptions...),
		"a panic of user code is any value different from nil",
		"the status notifier, which is not part of the implementation, does not panic"),
		explanation: concExplanation + "; user calls have a second, panicking outcome, which is followed through the deferred functions to the end of each path; go routines are enumerated from the go statements of the library"}
}

func ruleC09(r *Report) {
	c := r.conc()
	if !c.ready() {
		r.bad("anchor", "controller", "", "the controller is not found")
		return
	}
	r.need("init", 4)
	r.need("run", 3)
	r.need("stops", 1)
	r.need("contained", 4)
	r.need("reported", 4)
	r.need("routine", 4)
	r.need("worker", 2)
	r.need("swallow", 6)
	r.need("raised", 2)
	for _, n := range []string{"Init", "Play"} {
		r.initFailures(c, n)
	}
	r.runFailures(c)
	r.forwarded("Push", "Impl.Push", 0)
	r.forwarded("Copy", "Impl.Copy", 1)
	r.waited(c)
	c.batchTable(r)
	r.batched(c)
	r.routines(c)
	r.workerPanics()
	r.implementations()
	r.recovers(c)
}

// carries: an error made from the reason of a panic
func carries(st *State, t, reason *Term) bool {
	if t == nil || reason == nil {
		return false
	}
	if Contains(t, reason) {
		return true
	}
	for _, ev := range st.trace.Events() {
		if ev.Kind != "errnew" || ev.Res != t {
			continue
		}
		for _, a := range ev.Args {
			if Contains(a, reason) {
				return true
			}
		}
	}
	return false
}

// failed: the last change of status is Finished with this failure
func (c *Conc) failed(y *ctlPath, after int, is func(e *Term) bool) string {
	var last *Event
	for i, ev := range y.evs {
		if i > after && ev.Kind == "store" && ev.Field == c.roles.status {
			last = ev
		}
	}
	if last == nil {
		return "the status does not change after a failure"
	}
	if !y.st.facts.Entails(Eq(ocValue(last.Res), c.p.status("Finished"))) {
		return "the algorithm is not finished by a failure"
	}
	if !is(ocError(last.Res)) {
		return "the status does not carry the failure"
	}
	return ""
}

func (r *Report) initFailures(c *Conc, name string) {
	fn := r.p.Func("core.Algo." + name)
	if fn == nil {
		r.bad("anchor", "core.Algo."+name, "", "function not found")
		return
	}
	o := c.options(fn)
	o.MayPanic = func(ev *Event) bool { return ev.Kind == "invoke" && ev.Name == "Impl.Init" }
	s := &symRun{r: r, name: short(fn.String()), fn: fn, a: params(fn), e: r.p.NewExec(o)}
	s.e.guards = c.guards
	s.paths = s.e.Run(fn, s.a, nil, nil)
	r.fn(fn)
	r.saw(s.e)
	for _, u := range s.e.undecided {
		r.bad("undecided", s.name, r.p.pos(fn.Pos()), u)
	}
	n := 0
	for _, pa := range s.paths {
		y := c.ctl(pa.St, pa.Res)
		tr := trail(r.p, pa.St, 25)
		if pa.Kind == "panic" {
			if ups := eventsOf(pa.St, "userpanic", ""); len(ups) > 0 {
				r.bad("contained", name, r.p.pos(ups[0].Pos), "a panic of the initialization escapes to the caller", tr...)
			}
			continue
		}
		if pa.Kind != "return" {
			continue
		}
		res := pa.Res[len(pa.Res)-1]
		f := pa.St.facts
		ups := eventsOf(pa.St, "userpanic", "Impl.Init")
		if len(ups) == 0 && len(y.inits) == 0 {
			continue
		}
		n++
		var is func(e *Term) bool
		at := 0
		switch {
		case len(ups) > 0:
			r.ok("contained", name)
			reason := ups[0].Args[0]
			at = indexOf(pa.St, ups[0])
			is = func(e *Term) bool { return carries(pa.St, e, reason) }
		default:
			ev := y.inits[len(y.inits)-1]
			at = indexOf(pa.St, ev)
			err := resultOf(ev, 1)
			switch {
			case err == nil || !f.Entails(Eq(err, Nil)) && !f.Entails(Not(Eq(err, Nil))):
				r.bad("init", name+"/look", r.p.pos(ev.Pos), "the error of the initialization is not looked at", tr...)
				continue
			case f.Entails(Eq(err, Nil)):
				r.ok("init", name+"/success")
				continue
			}
			is = func(e *Term) bool { return e == err || f.Entails(Eq(e, err)) }
		}
		msg := c.failed(y, at, is)
		r.check(msg == "", "init", name+"/status", s.pos(), msg, tr...)
		r.check(is(res), "init", name+"/result", s.pos(), "the failure of the initialization is not returned", tr...)
		good := len(y.sends)+len(y.starts) == 0
		for i, ev := range y.evs {
			good = good && !(i > at && ev.Kind == "store" && ev.Field == c.roles.cent)
		}
		r.check(good, "init", name+"/goes-on", s.pos(), "goes on after a failed initialization", tr...)
	}
	if n == 0 {
		r.bad("init", name, s.pos(), "does not initialize the implementation")
	}
}

func (r *Report) runFailures(c *Conc) {
	run := c.theRun()
	p := r.p
	r.roots([]*Root{run})
	r.saw(run.E)
	for _, u := range run.E.undecided {
		r.bad("undecided", run.Name, p.pos(run.Fn.Pos()), u)
	}
	iterates := func(evs []*Event) []*Event {
		var out []*Event
		for _, ev := range evs {
			if ev.Kind == "invoke" && ev.Name == "Impl.Iterate" {
				out = append(out, ev)
			}
		}
		return out
	}
	for _, in := range run.E.insts {
		for _, b := range in.Backs {
			for _, ev := range iterates(after(b.St, in)) {
				e := resultOf(ev, 2)
				r.check(e != nil && b.St.facts.Entails(Eq(e, Nil)) || carried(b, in, e), "stops", "run", p.pos(ev.Pos), "the run goes on after a failed iteration", trail(p, b.St, 25)...)
			}
		}
	}
	for _, pa := range run.E.paths {
		st := pa.St
		y := c.ctl(st, nil)
		tr := trail(p, st, 30)
		ups := eventsOf(st, "userpanic", "")
		if pa.Kind == "panic" {
			if len(ups) > 0 {
				r.bad("contained", "run", p.pos(ups[0].Pos), "a panic of the implementation kills the process", tr...)
			}
			continue
		}
		its := iterates(y.evs)
		for _, ev := range ups {
			r.ok("contained", "run/"+ev.Name)
			msg := c.failed(y, indexOf(st, ev), func(e *Term) bool { return carries(st, e, ev.Args[0]) })
			r.check(msg == "", "run", "panic/"+ev.Name, p.pos(ev.Pos), msg, tr...)
		}
		if len(ups) > 0 || len(its) == 0 {
			continue
		}
		ev := its[len(its)-1]
		e := resultOf(ev, 2)
		f := st.facts
		switch {
		case e == nil:
			r.bad("run", "error/look", p.pos(ev.Pos), "the error of an iteration is not looked at", tr...)
		case f.Entails(Eq(e, Nil)):
		default:
			// not known to be a success
			msg := c.failed(y, indexOf(st, ev), func(x *Term) bool { return x == e || f.Entails(Eq(x, e)) })
			r.check(msg == "", "run", "error", p.pos(ev.Pos), msg, tr...)
		}
	}
	// a failure carried by a variable of the loop
	loops := map[*LoopInst]bool{}
	for _, in := range run.E.insts {
		for _, b := range in.Backs {
			if len(iterates(after(b.St, in))) > 0 {
				loops[in] = true
			}
		}
	}
	for in := range loops {
		for _, v := range in.Vars {
			if !ownError(v) || v.Var == nil || !varies(in, v) {
				continue
			}
			for _, st := range run.ends() {
				f, may := feasible(st.facts, Not(Eq(v.Var, Nil)))
				if !entered(st, in) || !may {
					continue
				}
				left := false
				for _, ev := range after(st, in) {
					left = left || ev.Kind == "loopexit" && ev.Inst == in
				}
				if !left || len(iterates(after(st, in))) > 0 {
					continue
				}
				y := c.ctl(st, nil)
				if len(eventsOf(st, "userpanic", "")) > 0 {
					continue
				}
				msg := c.failed(y, -1, func(x *Term) bool { return x == v.Var || f.Entails(Eq(x, v.Var)) })
				r.check(msg == "", "run", "error/carried", p.pos(run.Fn.Pos()), msg, trail(p, st, 30)...)
			}
		}
	}
	if len(loops) == 0 {
		r.bad("run", "loop", p.pos(run.Fn.Pos()), "the run does not iterate")
	}
}

func entered(st *State, in *LoopInst) bool {
	for _, ev := range st.trace.Events() {
		if ev.Kind == "loopenter" && ev.Inst == in {
			return true
		}
	}
	return false
}

// varies: a variable that an iteration may set to a failure
func varies(in *LoopInst, v *LoopVar) bool {
	for _, b := range in.Backs {
		if n := b.Next[v]; n != nil && n != v.Var && n != Nil && !b.St.facts.Entails(Eq(n, Nil)) {
			return true
		}
	}
	return false
}

// carried: a failure kept by a variable of the loop, which no further turn accepts
func carried(b *Back, in *LoopInst, e *Term) bool {
	for _, v := range in.Vars {
		if !ownError(v) || v.Var == nil || b.Next[v] != e {
			continue
		}
		ok := true
		for _, o := range in.Backs {
			ok = ok && o.St.facts.Entails(Eq(v.Var, Nil))
		}
		if ok {
			return true
		}
	}
	return false
}

// forwarded: an operation returns the error of the implementation it calls
func (r *Report) forwarded(name, callee string, i int) {
	s := r.sym("core.Algo."+name, Options{Opaque: r.p.opaque("core.NewAlgo", "core.Algo.playReady")})
	if s == nil {
		return
	}
	for _, pa := range s.returns() {
		f, tr := pa.St.facts, trail(r.p, pa.St, 20)
		evs := eventsOf(pa.St, "invoke", callee)
		if len(evs) != 1 {
			r.bad("reported", name, s.pos(), "the implementation is not called once", tr...)
			continue
		}
		e, res := resultOf(evs[0], i), pa.Res[len(pa.Res)-1]
		r.check(e != nil && (res == e || f.Entails(Eq(res, e))), "reported", name, r.p.pos(evs[0].Pos), "the error of the implementation is not returned", tr...)
		if name == "Copy" && !f.Entails(Eq(e, Nil)) {
			r.check(f.Entails(Eq(pa.Res[0], Nil)) || pa.Res[0] == Nil, "reported", "Copy/algo", s.pos(), "an algorithm is returned although the copy failed", tr...)
		}
	}
}

// waited: the end of a wait gives the error of the status, whatever it is
func (r *Report) waited(c *Conc) {
	fn := r.p.Func("core.Algo.Wait")
	if fn == nil {
		r.bad("anchor", "core.Algo.Wait", "", "function not found")
		return
	}
	w := r.ctlSym(c, fn, "core.WaitTimeout")
	for _, pa := range w.returns() {
		waits := callsTo(pa.St, "core.WaitTimeout")
		if len(waits) == 0 {
			continue
		}
		res := resultOf(waits[len(waits)-1], 0)
		r.check(res == pa.Res[0] || pa.St.facts.Entails(Eq(res, pa.Res[0])), "reported", "Wait", w.pos(), "the result of the wait is not returned", trail(r.p, pa.St, 20)...)
	}
	s := r.sym("core.WaitTimeout", Options{Opaque: r.p.opaque("core.StatusFinishing.IsFinished"), LiveModel: true})
	if s == nil {
		return
	}
	for _, pa := range s.returns() {
		res := pa.Res[0]
		if r.p.errIs(res, "ErrTimeout") {
			continue
		}
		ok := false
		for _, ev := range eventsOf(pa.St, "invoke", "OCModel.Status") {
			ok = ok || res == ocError(ev.Res)
		}
		r.check(ok, "reported", "WaitTimeout", s.pos(), "the error of the status is not returned after a wait", trail(r.p, pa.St, 20)...)
	}
}

// routines: the go routines of the library, and what they call
func (r *Report) routines(c *Conc) {
	par := r.p.Func("core.Par")
	known := map[*ssa.Function]bool{}
	for _, x := range c.roots {
		if x.Kind == "go" {
			known[x.Fn] = true
		}
	}
	for _, fn := range r.p.allFns() {
		if !r.p.lib(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				g, ok := in.(*ssa.Go)
				if !ok {
					continue
				}
				if fn == par {
					r.ok("routine", "core.Par")
					continue
				}
				callee := g.Call.StaticCallee()
				if callee == nil {
					if m, ok := g.Call.Value.(*ssa.MakeClosure); ok {
						callee = m.Fn.(*ssa.Function)
					}
				}
				if callee != nil {
					callee = unwrap(callee)
				}
				r.check(callee != nil && known[callee], "routine", short(fn.String()), r.p.pos(g.Pos()), "a go routine that is not analysed")
			}
		}
	}
	for _, x := range c.roots {
		if x.Kind != "go" || x.Fn == c.roles.run.Fn {
			continue
		}
		x.each(func(ev *Event) {
			if ev.Kind == "invoke" && implementation(ev.Name) {
				r.bad("routine", x.Name+"/"+ev.Name, r.p.pos(ev.Pos), "implementation code is called by a go routine whose panics are not recovered")
			}
		})
	}
}

func implementation(name string) bool {
	for _, p := range []string{"Impl.", "Finishing.", "Space.", "Distrib.", "OnlineClust.", "OCCtrl."} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

// workerPanics: a panic in a worker is raised by Par in the go routine of its caller
func (r *Report) workerPanics() {
	fn := r.p.Func("core.Par")
	if fn == nil {
		r.bad("anchor", "core.Par", "", "function not found")
		return
	}
	kept := map[*Term]bool{} // the variables and slices where workers keep the reason of their panic
	workers := r.parWorkers(fn)
	for _, w := range workers {
		for _, pa := range w.paths {
			tr := trail(r.p, pa.St, 20)
			ups := eventsOf(pa.St, "userpanic", "")
			if pa.Kind == "panic" {
				r.bad("worker", "escape", w.pos, "a panic in a worker kills the process", tr...)
				continue
			}
			if len(ups) == 0 {
				continue
			}
			ok := false
			for _, k := range w.writes(pa.St) {
				if Contains(k.val, ups[0].Args[0]) {
					ok = true
					kept[k.root] = true
					r.check(k.own, "worker", "shared", w.pos, "the reason of a panic is kept where another worker may write", tr...)
				}
			}
			r.check(ok, "worker", "kept", w.pos, "the reason of a panic in a worker is lost", tr...)
		}
	}
	if len(kept) == 0 {
		r.bad("worker", "none", r.p.pos(fn.Pos()), "workers do not recover from panics")
		return
	}
	for _, w := range workers {
		for _, pa := range w.paths {
			if pa.Kind == "panic" || len(eventsOf(pa.St, "userpanic", "")) > 0 {
				continue
			}
			for _, k := range w.writes(pa.St) {
				if kept[k.root] {
					r.check(k.val == Nil || pa.St.facts.Entails(Eq(k.val, Nil)), "worker", "quiet", w.pos, "a worker that did not panic gives a reason", trail(r.p, pa.St, 20)...)
				}
			}
		}
	}
	r.raised(fn, kept)
}

// parWorker is a go routine of Par
type parWorker struct {
	pos    string
	entry  map[*Term]*Term // variables it captures
	shared map[*Term]bool
	paths  []*Path
}

type workerWrite struct {
	root, val *Term // variable or region of a slice, value
	own       bool  // in a cell of its own, or under a lock
}

// writes lists what a worker leaves in the variables and slices it shares
func (w *parWorker) writes(st *State) []workerWrite {
	var out []workerWrite
	locked := len(eventsOf(st, "lock", "")) > 0
	for a, v := range st.cells {
		if old, ok := w.entry[a]; ok && old != v || !ok && w.shared[rootOf(a)] {
			out = append(out, workerWrite{a, v, locked})
		}
	}
	var rank *Term
	for _, ev := range st.trace.Events() {
		if ev.Kind == "dyncall" && len(ev.Args) == 3 {
			rank = ev.Args[2]
		}
	}
	for reg, ls := range st.regs {
		for _, l := range ls {
			if l.kind == "point" {
				out = append(out, workerWrite{reg, l.val, l.a == rank || locked})
			}
		}
	}
	return out
}

// parWorkers analyses the go routines of Par, whose process may panic
func (r *Report) parWorkers(fn *ssa.Function) []*parWorker {
	s := r.symFn("core.Par", fn, Options{NoPar: true}, nil)
	var out []*parWorker
	seen := map[*Term]bool{}
	visit := func(st *State) {
		for _, ev := range eventsOf(st, "go", "") {
			if ev.Name == "?" || ev.Snap == nil {
				r.bad("worker", "unknown", r.p.pos(ev.Pos), "the function of a worker is not known")
				continue
			}
			if seen[ev.Res] {
				continue
			}
			seen[ev.Res] = true
			e := r.p.NewExec(Options{NoPar: true, MayPanic: func(ev *Event) bool { return ev.Kind == "dyncall" }})
			w := &parWorker{pos: r.p.pos(ev.Pos), entry: map[*Term]*Term{}, shared: map[*Term]bool{}}
			share := func(t *Term) {
				Any(t, func(x *Term) bool {
					if x.Op == "alloc" {
						w.shared[x] = true
					}
					return false
				})
			}
			for _, t := range append(append([]*Term{}, ev.Args...), ev.Res.Args...) {
				share(t)
			}
			n := &State{cells: map[*Term]*Term{}, regs: map[*Term][]layer{}, maps: map[*Term][]mlayer{}, nid: ev.Snap.nid}
			for a, v := range ev.Snap.cells {
				if rootOf(a).Op == "alloc" {
					n.cells[a], w.entry[a] = v, v
					share(v)
				}
			}
			w.paths = e.RunFrom(n, ev.Res.Ref.(*ssa.Function), ev.Args, ev.Res.Args)
			r.saw(e)
			for _, u := range e.undecided {
				r.bad("undecided", "core.Par/worker", w.pos, u)
			}
			out = append(out, w)
		}
	}
	for _, pa := range s.paths {
		visit(pa.St)
	}
	for _, in := range s.e.insts {
		for _, b := range in.Backs {
			visit(b.St)
		}
	}
	return out
}

// raised: once its workers are done, Par looks at every place where they may have kept a reason
func (r *Report) raised(fn *ssa.Function, kept map[*Term]bool) {
	const ver = "workers"
	s := r.symFn("core.Par", fn, Options{NoPar: true, Hook: func(e *Exec, st *State, ev *Event) {
		if ev.Kind != "wgWait" {
			return
		}
		for k := range kept {
			if k.Op != "region" {
				st.cells[k] = U.mk("raced", "", nil, elemTypeOf(k.Typ), k)
				continue
			}
			st.regs[k] = append(append([]layer{}, st.regs[k]...), layer{kind: "havoc", ver: ver})
		}
	}}, func(st *State) { st.facts = st.facts.Add(Le(Num(1), params(fn)[2])) })
	of := func(k *Term) func(t *Term) bool {
		return func(t *Term) bool {
			return t.Op == "raced" && t.Args[0] == k || k.Op == "region" && isCell(t, k)
		}
	}
	raises := 0
	for _, pa := range s.paths {
		f, tr := pa.St.facts, trail(r.p, pa.St, 20)
		waited := -1
		for i, ev := range pa.St.trace.Events() {
			if ev.Kind == "wgWait" {
				waited = i
			}
		}
		if pa.Kind == "panic" {
			for _, ev := range eventsOf(pa.St, "panic", "") {
				for k := range kept {
					if len(ev.Args) > 0 && Any(ev.Args[0], of(k)) {
						raises++
					}
				}
			}
			continue
		}
		if pa.Kind != "return" {
			continue
		}
		for k := range kept {
			if k.Op != "region" {
				r.check(f.Entails(Eq(pa.St.cells[k], Nil)), "raised", "variable", s.pos(), "returns although a worker panicked", tr...)
				continue
			}
			ok := f.Entails(Eq(mkLen(k.Args[0]), Num(0)))
			for i, ev := range pa.St.trace.Events() {
				if i > waited && waited >= 0 && ev.Kind == "loopexit" && ev.Name == "exhausted" {
					ok = ok || r.scans(ev.Inst, f, k)
				}
			}
			r.check(ok, "raised", "slice", s.pos(), "returns although a worker may have panicked", tr...)
		}
	}
	r.check(raises > 0, "raised", "panic", s.pos(), "the panic of a worker is not raised again with its reason")
}

// scans: every turn of a loop over a slice found no reason in its cell
func (r *Report) scans(in *LoopInst, f *Facts, k *Term) bool {
	n := mkLen(k.Args[0])
	if in.N == nil || in.N != n && !f.Entails(Eq(in.N, n)) || len(in.Backs) == 0 {
		return false
	}
	for _, b := range in.Backs {
		ok := false
		for _, l := range b.St.facts.all() {
			Any(l, func(t *Term) bool {
				if isCell(t, k) && Contains(t, in.K) && b.St.facts.Entails(Eq(t, Nil)) {
					ok = true
				}
				return false
			})
		}
		if !ok {
			return false
		}
	}
	return true
}

// implementations of the library: an error they meet is an error they return
func (r *Report) implementations() {
	errT := types.Universe.Lookup("error").Type()
	for _, t := range r.p.implementing("core.Impl") {
		for _, fn := range r.p.methods(t, true) {
			switch fn.Name() {
			case "Init", "Iterate", "Push", "Copy":
			default:
				continue
			}
			name := short(fn.String())
			s := r.symFn(name, fn, Options{}, nil)
			for _, pa := range s.returns() {
				for _, ev := range pa.St.trace.Events() {
					if ev.Kind != "invoke" && ev.Kind != "dyncall" && ev.Kind != "extcall" || ev.Res == nil {
						continue
					}
					for _, e := range errorsOf(ev.Res, errT) {
						f, may := feasible(pa.St.facts, Not(Eq(e, Nil)))
						if !may || ev.Kind == "invoke" && r.neverFails(ev.Name) {
							continue
						}
						res := pa.Res[len(pa.Res)-1]
						r.check(res == e || r.p.notNil(f, res), "swallow", name+"/"+ev.Name, r.p.pos(ev.Pos), "an error is dropped", trail(r.p, pa.St, 20)...)
					}
				}
				r.ok("swallow", name)
			}
		}
	}
}

func errorsOf(t *Term, errT types.Type) []*Term {
	if t.Op == "tuple" {
		var out []*Term
		for _, x := range t.Args {
			out = append(out, errorsOf(x, errT)...)
		}
		return out
	}
	if t.Typ != nil && types.Identical(t.Typ, errT) {
		return []*Term{t}
	}
	return nil
}

// recovers: the panics are recovered by the controller and by Par, and nowhere else
func (r *Report) recovers(c *Conc) {
	ok := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || ok[f] || !r.p.lib(f) {
			return
		}
		ok[f] = true
		for _, g := range staticOut(f) {
			visit(g)
		}
	}
	visit(c.roles.run.Fn)
	for _, n := range []string{"core.Algo.Init", "core.Algo.Play", "core.Par"} {
		visit(r.p.Func(n))
	}
	for _, f := range r.p.allFns() {
		if !r.p.lib(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if x, is := in.(ssa.CallInstruction); is {
					if bi, is := x.Common().Value.(*ssa.Builtin); is && bi.Name() == "recover" {
						r.check(ok[f], "recover", short(f.String()), r.p.pos(in.Pos()), "panics are recovered out of the controller")
					}
				}
			}
		}
	}
}

// neverFails: an interface of the library of which no implementation gives an error for this method
func (r *Report) neverFails(name string) bool {
	i := strings.LastIndex(name, ".")
	if i < 0 || r.p.iface("core."+name[:i]) == nil {
		return false
	}
	n := 0
	for _, t := range r.p.implementing("core." + name[:i]) {
		for _, fn := range r.p.methods(t, true) {
			if fn.Name() != name[i+1:] {
				continue
			}
			s := r.symFn(short(fn.String()), fn, Options{}, nil)
			n++
			for _, pa := range s.returns() {
				if !pa.St.facts.Entails(Eq(pa.Res[len(pa.Res)-1], Nil)) {
					return false
				}
			}
		}
	}
	return n > 0
}

// batched: a batch succeeds only when the status has no error once the run is over
func (r *Report) batched(c *Conc) {
	x := c.rootFn(r.p.Func("core.Algo.Batch"))
	wait := r.p.Func("core.Algo.Wait")
	if x == nil || wait == nil {
		r.bad("anchor", "core.Algo.Batch", "", "function not found")
		return
	}
	for _, pa := range x.E.paths {
		if pa.Kind != "return" {
			continue
		}
		for _, ev := range eventsOf(pa.St, "extcall", wait.String()) {
			f, may := feasible(pa.St.facts, Eq(ev.Res, Nil), Eq(pa.Res[0], Nil))
			if !may || r.p.notNil(pa.St.facts, pa.Res[0]) {
				continue
			}
			e := c.statusErrorAfter(pa.St, ev, f)
			r.check(e != nil && (pa.Res[0] == e || f.Entails(Eq(e, Nil))), "reported", "Batch", r.p.pos(ev.Pos), "succeeds although the run may have failed before the wait", trail(r.p, pa.St, 20)...)
		}
	}
}

// isCell: a cell of a slice read in a region
func isCell(t, reg *Term) bool {
	if !isTyped(t, reg.Typ) {
		return false
	}
	for t.Op == "field" {
		t = t.Args[0]
	}
	return t.Op == "elem" && t.Args[0] == reg.Args[0]
}

func isTyped(t *Term, typ types.Type) bool {
	return typ == nil || t.Typ != nil && types.Identical(t.Typ, typ)
}
