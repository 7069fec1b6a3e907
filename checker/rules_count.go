package main

import (
	"go/types"
	"strings"
)

func init() {
	rulesByID["C10"] = &Rule{run: ruleC10, assumptions: concAssumptions,
		explanation: concExplanation + "; every critical section of every operation is replayed: the counters change by one for accepted pushes and successful iterations, and the exposed figures agree with them when the lock is released"}
	rulesByID["C31"] = &Rule{run: ruleC31, assumptions: concAssumptions,
		explanation: concExplanation + "; on each path of Push, a start is shown to imply, and its absence to refute, the condition on the elements accepted before"}
}

// counters: the fields behind the figures of the controller
type counters struct {
	c       *Conc
	iters   *types.Var
	pushed  *types.Var
	model   map[string]bool // locks of the figures
	private map[string]bool // keys of the controller
}

var counterKeys = []string{"iterations", "pushedData"}

func (c *Conc) counters() *counters {
	k := &counters{c: c, private: map[string]bool{}}
	find := func(key string) *types.Var {
		votes := map[*types.Var]int{}
		n := 0
		for _, x := range c.roots {
			for _, st := range x.ends() {
				last := map[*types.Var]*Term{}
				for _, ev := range st.trace.Events() {
					if ev.Field != nil && ev.Field != c.roles.figures && ev.Field != c.roles.status && (ev.Kind == "load" || ev.Kind == "store") && isIntType(ev.Field.Type()) {
						last[ev.Field] = ev.Res
					}
					if ev.Kind == "mapset" && len(ev.Args) == 2 && ev.Args[0].Op == "str" && ev.Args[0].Aux == key && ev.Args[1].Op != "num" {
						n++
						for f, v := range last {
							if v == ev.Args[1] {
								votes[f]++
							}
						}
					}
				}
			}
		}
		var best *types.Var
		for f, v := range votes {
			if v*2 > n && (best == nil || v > votes[best]) {
				best = f
			}
		}
		return best
	}
	k.iters, k.pushed = find("iterations"), find("pushedData")
	for _, s := range []string{"iterations", "pushedData", "duration", "lastDataTime"} {
		k.private[s] = true
	}
	return k
}

func (k *counters) key(f *types.Var) string {
	switch f {
	case nil:
		return ""
	case k.iters:
		return "iterations"
	case k.pushed:
		return "pushedData"
	}
	return ""
}

// isModelLock tells whether a lock guards the figures
func (k *counters) isModelLock(addr *Term) bool {
	for l := range k.c.guards[k.c.roles.figures] {
		if n := lockName(addr); n == l.Name() || strings.HasSuffix(n, "."+l.Name()) {
			return true
		}
	}
	return false
}

// figureState replays the figures and the counters along a path
type figureState struct {
	k     *counters
	fig   *Term
	cur   map[string]*Term
	ent   map[*Term]map[string]*Term
	wrong map[string]*Event
}

func (k *counters) newState() *figureState {
	s := &figureState{k: k}
	s.reset()
	return s
}

func (s *figureState) reset() {
	s.fig = nil
	s.cur = map[string]*Term{}
	s.ent = map[*Term]map[string]*Term{}
	s.wrong = map[string]*Event{}
}

// entry is what a map is known to hold
func (s *figureState) entry(m *Term, key string) *Term {
	if e := s.ent[m]; e != nil && e[key] != nil {
		return e[key]
	}
	if m != nil && m.Op == "makemap" {
		if e := s.ent[m]; e != nil && e["?"] != nil {
			return nil
		}
		return Num(0)
	}
	return nil
}

func (s *figureState) agree(f *Facts, key string, ev *Event) {
	e, c := s.entry(s.fig, key), s.cur[key]
	if e != nil && c != nil && (e == c || EqReal(e, c) || f.Entails(Eq(e, c))) {
		delete(s.wrong, key)
		return
	}
	s.wrong[key] = ev
}

// step follows one event
func (s *figureState) step(f *Facts, ev *Event) {
	ro := s.k.c.roles
	if key := s.k.key(ev.Field); key != "" && !freshRoot(objOf(ev.Recv)) {
		switch ev.Kind {
		case "load":
			s.cur[key] = ev.Res
		case "store":
			s.cur[key] = ev.Res
			s.agree(f, key, ev)
		}
		return
	}
	if ev.Field == ro.figures && !freshRoot(objOf(ev.Recv)) {
		switch ev.Kind {
		case "load":
			s.fig = ev.Res
		case "store":
			s.fig = ev.Res
			for _, key := range counterKeys {
				s.agree(f, key, ev)
			}
		}
		return
	}
	if ev.Kind == "mapset" {
		if s.ent[ev.Recv] == nil {
			s.ent[ev.Recv] = map[string]*Term{}
		}
		key := "?"
		if len(ev.Args) > 0 && ev.Args[0].Op == "str" {
			key = ev.Args[0].Aux
		}
		if len(ev.Args) == 2 {
			s.ent[ev.Recv][key] = ev.Args[1]
		} else {
			s.ent[ev.Recv][key] = nil
		}
		if ev.Recv != s.fig {
			return
		}
		if key == "?" {
			for _, k := range counterKeys {
				s.wrong[k] = ev
			}
		}
		for _, k := range counterKeys {
			if k == key {
				s.agree(f, key, ev)
			}
		}
	}
}

func ruleC10(r *Report) {
	c := r.conc()
	if !c.ready() {
		return
	}
	k := c.counters()
	if k.iters == nil || k.pushed == nil || k.iters == k.pushed {
		r.bad("anchor", "counters", "", "the counters of iterations and pushed data were not found")
		return
	}
	p := r.p
	run := c.theRun()
	roots := []*Root{run}
	for _, x := range c.roots {
		if x.Fn != c.roles.run.Fn {
			roots = append(roots, x)
		}
	}
	r.roots(roots)
	r.need("exposed", 4)
	r.need("iterations", 4)
	r.need("pushed", 3)
	r.need("reset", 2)
	r.need("own", 2)
	for _, x := range roots {
		for _, u := range x.E.undecided {
			r.bad("undecided", x.Name, p.pos(x.Fn.Pos()), u)
		}
		for _, st := range x.ends() {
			k.exposed(r, x, st)
			if x.Fn == c.roles.run.Fn {
				k.counted(r, x, st)
			} else {
				k.others(r, x, st)
			}
			k.maps(r, x, st)
		}
	}
	k.accessor(r)
	k.created(r)
}

// exposed: when the lock is released the figures are the counters
func (k *counters) exposed(r *Report, x *Root, st *State) {
	s := k.newState()
	wrote := false
	check := func(where string) {
		for _, key := range counterKeys {
			if ev := s.wrong[key]; ev != nil {
				r.bad("exposed", fnName(ev)+"/"+key, r.p.pos(ev.Pos), "the figure "+key+" and its counter differ when "+where, trail(r.p, st, 25)...)
			}
		}
		if wrote && len(s.wrong) == 0 {
			r.ok("exposed", x.Name)
		}
		wrote = false
		s.reset()
	}
	var loops []*LoopInst
	before := []map[string]*Event{} // what was wrong when they were entered
	for _, ev := range st.trace.Events() {
		if ev.Kind == "unlock" && k.isModelLock(ev.Recv) {
			check("the lock is released")
			continue
		}
		if ev.Kind == "loopenter" {
			loops = append(loops, ev.Inst)
			m := map[string]*Event{}
			for key, w := range s.wrong {
				m[key] = w
			}
			before = append(before, m)
		}
		if n := len(loops); ev.Kind == "loopexit" && n > 0 {
			loops, before = loops[:n-1], before[:n-1]
		}
		if ev.Kind == "store" && (k.key(ev.Field) != "" || ev.Field == k.c.roles.figures) {
			wrote = true
		}
		s.step(st.facts, ev)
	}
	for _, h := range st.held {
		// an iteration of a loop inside of the critical section: it only answers for what it changed
		if n := len(loops); n > 0 && k.isModelLock(h.Addr) {
			for key, w := range before[n-1] {
				if s.wrong[key] == w {
					delete(s.wrong, key)
				}
			}
			wrote = false
			break
		}
	}
	check("the operation ends")
}

// plusOne tells whether a store adds one to the value read in the same critical section
func plusOne(evs []*Event, i int) bool { return plus(evs, i, 1) }

// plus tells whether a store adds n to the value read in the same critical section
func plus(evs []*Event, i int, n int64) bool {
	ev := evs[i]
	for j := i - 1; j >= 0; j-- {
		ld := evs[j]
		if ld.Kind == "store" && ld.Field == ev.Field {
			return false
		}
		if ld.Kind == "load" && ld.Field == ev.Field {
			return sameSection(ld, ev) && ev.Res != nil && Sub(ev.Res, ld.Res).IsInt(n)
		}
	}
	return false
}

// counted: the run counts the iterations that returned centroids, once
func (k *counters) counted(r *Report, x *Root, st *State) {
	p := r.p
	evs := st.trace.Events()
	var it *Event
	n := 0
	panics := false
	f := st.facts
	flush := func() {
		if it == nil {
			return
		}
		cl, er := resultOf(it, 0), resultOf(it, 2)
		good := cl != nil && er != nil && f.Entails(Eq(er, Nil)) && f.Entails(Not(Eq(cl, Nil)))
		none := panics || er != nil && f.Entails(Not(Eq(er, Nil))) || cl != nil && f.Entails(Eq(cl, Nil))
		switch {
		case good:
			r.check(n == 1, "iterations", "run/success", p.pos(it.Pos), "an iteration that returned centroids is not counted exactly once", trail(p, st, 25)...)
		case none:
			r.check(n == 0, "iterations", "run/none", p.pos(it.Pos), "counts an iteration that failed or did not return centroids", trail(p, st, 25)...)
		default:
			r.bad("iterations", "run/blind", p.pos(it.Pos), "goes on without looking at what the iteration returned", trail(p, st, 25)...)
		}
		it = nil
	}
	for i, ev := range evs {
		switch {
		case ev.Kind == "invoke" && ev.Name == "Impl.Iterate":
			flush()
			it, n, panics = ev, 0, false
		case ev.Kind == "userpanic" && ev.Name == "Impl.Iterate":
			panics = true
		case ev.Kind == "store" && ev.Field == k.pushed:
			r.bad("pushed", "run", p.pos(ev.Pos), "the run changes the count of pushed data")
		case ev.Kind == "store" && ev.Field == k.iters:
			r.check(it != nil, "iterations", "run/out", p.pos(ev.Pos), "counts without iterating", trail(p, st, 25)...)
			r.check(plusOne(evs, i), "iterations", "run/one", p.pos(ev.Pos), "an iteration does not count for one", trail(p, st, 25)...)
			n++
		}
	}
	flush()
}

// others: pushes count when they are accepted, and a restart resets
func (k *counters) others(r *Report, x *Root, st *State) {
	p, f := r.p, st.facts
	evs := st.trace.Events()
	y := k.c.ctl(st, nil)
	var push *Event
	n := 0
	flush := func() {
		if push == nil {
			return
		}
		er := resultOf(push, 0)
		switch {
		case er != nil && f.Entails(Eq(er, Nil)):
			r.check(n == 1, "pushed", x.Name+"/accepted", p.pos(push.Pos), "an accepted push is not counted exactly once", trail(p, st, 25)...)
		case er != nil && f.Entails(Not(Eq(er, Nil))):
			r.check(n == 0, "pushed", x.Name+"/refused", p.pos(push.Pos), "counts a refused push", trail(p, st, 25)...)
		default:
			r.bad("pushed", x.Name+"/blind", p.pos(push.Pos), "counts without looking at the result of the push", trail(p, st, 25)...)
		}
	}
	zero := map[*types.Var]bool{}
	for i, ev := range evs {
		if ev.Kind == "invoke" && ev.Name == "Impl.Push" {
			flush()
			push, n = ev, 0
			continue
		}
		if ev.Kind == "invoke" && ev.Name == "Impl.Init" {
			if y.s0 != nil {
				if _, ok := f.Assume(Eq(y.s0, p.status("Finished"))); ok {
					r.check(zero[k.iters] && zero[k.pushed], "reset", x.Name, p.pos(ev.Pos), "a finished algorithm restarts without resetting its counters", trail(p, st, 25)...)
				}
			}
			continue
		}
		if ev.Kind != "store" || k.key(ev.Field) == "" || freshRoot(objOf(ev.Recv)) {
			continue
		}
		if ev.Res != nil && ev.Res.IsInt(0) {
			r.check(y.s0 != nil && f.Entails(Eq(y.s0, p.status("Finished"))), "reset", x.Name+"/"+k.key(ev.Field), p.pos(ev.Pos), "resets a counter although the algorithm is not finished", trail(p, st, 25)...)
			zero[ev.Field] = true
			continue
		}
		zero[ev.Field] = false
		if ev.Field == k.iters {
			r.bad("iterations", x.Name, p.pos(ev.Pos), "counts iterations out of the run", trail(p, st, 25)...)
			continue
		}
		r.check(push != nil, "pushed", x.Name+"/out", p.pos(ev.Pos), "counts without pushing", trail(p, st, 25)...)
		r.check(plusOne(evs, i), "pushed", x.Name+"/one", p.pos(ev.Pos), "a push does not count for one", trail(p, st, 25)...)
		n++
	}
	flush()
}

// maps: the figures of the implementation are exposed with those of the controller
func (k *counters) maps(r *Report, x *Root, st *State) {
	p, f := r.p, st.facts
	ro := k.c.roles
	y := k.c.ctl(st, nil)
	var it *Event
	var fig *Term
	for _, ev := range st.trace.Events() {
		switch {
		case ev.Kind == "invoke" && ev.Name == "Impl.Iterate":
			it = ev
		case ev.Kind == "load" && ev.Field == ro.figures:
			fig = ev.Res
		case ev.Kind == "store" && ev.Field == ro.figures && !freshRoot(objOf(ev.Recv)):
			fig = ev.Res
			own := (*Term)(nil)
			if it != nil {
				own = resultOf(it, 1)
			}
			ok := false
			switch {
			case own != nil && ev.Res == own:
				ok = true
			case own != nil && ev.Res.Op == "makemap":
				ok = f.Entails(Eq(own, Nil)) || copiesMap(st, ev.Res, own)
			case own == nil && ev.Res.Op == "makemap":
				ok = y.s0 != nil && f.Entails(Eq(y.s0, p.status("Finished")))
			}
			r.check(ok, "own", fnName(ev), p.pos(ev.Pos), "the figures of the implementation are dropped", trail(p, st, 25)...)
		case ev.Kind == "mapset" && (ev.Recv == fig && fig != nil || it != nil && ev.Recv == resultOf(it, 1)):
			ok := len(ev.Args) == 2 && ev.Args[0].Op == "str" && k.private[ev.Args[0].Aux]
			r.check(ok, "own", fnName(ev)+"/key", p.pos(ev.Pos), "a figure of the implementation is replaced or removed", trail(p, st, 25)...)
		}
	}
}

// copiesMap tells whether a new map holds all the entries of another one, except the private keys set later
func copiesMap(st *State, m, src *Term) bool {
	for _, l := range st.maps[m] {
		if l.kind == "all" {
			v := apply(l.val, probe)
			return v.Op == "mapget" && v.Args[0] == src && v.Args[1] == probe
		}
	}
	return false
}

// accessor: RuntimeFigures gives all the entries
func (k *counters) accessor(r *Report) {
	r.need("accessor", 2)
	fn := r.p.Func("core.Algo.RuntimeFigures")
	x := k.c.rootFn(fn)
	if x == nil {
		r.bad("anchor", "core.Algo.RuntimeFigures", "", "the accessor of the figures was not analysed")
		return
	}
	for _, pa := range x.E.paths {
		if pa.Kind != "return" {
			continue
		}
		var fig *Term
		for _, ev := range pa.St.trace.Events() {
			if ev.Kind == "load" && ev.Field == k.c.roles.figures {
				fig = ev.Res
			}
		}
		res := pa.Res[0]
		ok := fig != nil && (res == fig || len(pa.St.maps[res]) == 1 && copiesMap(pa.St, res, fig) || pa.St.facts.Entails(Eq(fig, Nil)) && res.Op == "makemap" && len(pa.St.maps[res]) == 0)
		r.check(ok, "accessor", "core.Algo", r.p.pos(fn.Pos()), "the figures given are not those of the algorithm", trail(r.p, pa.St, 15)...)
	}
	if s := r.sym("core.NewSimpleOCModel", Options{}); s != nil {
		for _, pa := range s.returns() {
			v := unface(pa.Res[0])
			ok := false
			for i, a := range s.a {
				if t, is := s.fn.Params[i].Type().(*types.Named); is && t.Obj().Name() == "RuntimeFigures" {
					st := structOf(v.Typ)
					for j := 0; st != nil && j < st.NumFields(); j++ {
						ok = ok || mkField(v, v.Typ, j) == a
					}
				}
			}
			r.check(ok, "accessor", "core.NewSimpleOCModel", s.pos(), "the model does not keep the figures it is given")
		}
	}
}

// created: a new algorithm has counted nothing
func (k *counters) created(r *Report) {
	s := r.sym("core.NewAlgo", Options{})
	if s == nil {
		return
	}
	r.need("created", 3)
	for _, pa := range s.returns() {
		for _, f := range []*types.Var{k.iters, k.pushed} {
			v := s.fieldOf(pa.St, pa.Res[0], f.Name())
			r.check(v != nil && v.IsInt(0), "created", f.Name(), s.pos(), "a new algorithm has already counted")
		}
		m := s.fieldOf(pa.St, pa.Res[0], k.c.roles.figures.Name())
		ok := m != nil && m.Op == "makemap"
		for _, l := range pa.St.maps[m] {
			if l.kind != "point" || !(l.val != nil && l.val.IsInt(0)) {
				ok = false
			}
		}
		r.check(ok, "created", "figures", s.pos(), "a new algorithm has figures")
	}
}

func ruleC31(r *Report) {
	c := r.conc()
	if !c.ready() {
		return
	}
	k := c.counters()
	p := r.p
	fn := p.Func("core.Algo.Push")
	x := c.rootFn(fn)
	if x == nil {
		r.bad("anchor", "core.Algo.Push", "", "Push was not analysed")
		return
	}
	r.roots([]*Root{x})
	for _, u := range x.E.undecided {
		r.bad("undecided", x.Name, p.pos(fn.Pos()), u)
	}
	r.need("start", 2)
	r.need("wait", 2)
	r.need("count", 2)
	r.need("refused", 1)
	conf := r.ctrlConf(x)
	if conf == nil {
		r.bad("anchor", "conf", p.pos(fn.Pos()), "the configuration is not read by Push")
		return
	}
	dpi := conf("DataPerIter")
	// the counter: compared with DataPerIter
	var cnt *types.Var
	for _, pa := range x.E.paths {
		for _, l := range pa.St.facts.all() {
			if !Contains(l, dpi) {
				continue
			}
			for _, ev := range pa.St.trace.Events() {
				if ev.Kind == "load" && ev.Field != nil && ev.Field != k.pushed && isIntType(ev.Field.Type()) && ev.Res != nil && ev.Res.Op == "load" && Contains(l, ev.Res) {
					cnt = ev.Field
				}
			}
		}
	}
	if cnt == nil {
		r.bad("anchor", "counter", p.pos(fn.Pos()), "the counter compared with DataPerIter was not found")
		return
	}
	ctrl := map[string]bool{}
	for _, f := range p.ctrlFns() {
		ctrl[f.String()] = true
	}
	for _, pa := range x.E.paths {
		if pa.Kind != "return" {
			continue
		}
		st, f := pa.St, pa.St.facts
		evs := st.trace.Events()
		y := c.ctl(st, pa.Res)
		var push *Event
		var reads []*Term // statuses read
		var nd *Term
		var last *Event
		stores, wrong := 0, ""
		zero := false
		open := false // the last store is not visible yet
		blind := (*Event)(nil)
		var touched *Event
		for i, ev := range evs {
			switch {
			case ev.Kind == "invoke" && ev.Name == "Impl.Push":
				push = ev
			case ev.Kind == "extcall" && ctrl[ev.Name]:
				blind = ev
			case ev.Kind == "unlock":
				open = false
			case ev.Kind == "store" && ev.Field == cnt:
				// what a critical section leaves
				if !open {
					stores++
				}
				last, open = ev, true
				wrong = ""
				if zero = ev.Res.IsInt(0); !zero && !plusOne(evs, i) && !(stores == 1 && nd != nil && same(f, ev.Res, AddN(nd, 1))) {
					wrong = "counts " + clip(ev.Res.String(), 60)
				}
			case ev.Kind == "load" && ev.Field == cnt && nd == nil:
				nd = ev.Res
			}
			if ev.Kind == "store" && ev.Field != nil && !freshRoot(objOf(ev.Recv)) && touched == nil {
				touched = ev
			}
			if v := c.statusOf(ev); v != nil && ev.Kind == "load" {
				reads = append(reads, v)
			}
		}
		if push == nil {
			r.bad("refused", "Push", p.pos(fn.Pos()), "the element is not given to the implementation", trail(p, st, 25)...)
			continue
		}
		if blind != nil {
			r.bad("start", "Push", p.pos(blind.Pos), "starts the algorithm whatever its status: it may have been stopped since Push looked at it", trail(p, st, 25)...)
		}
		acts := len(y.starts)+len(y.sends)+len(y.stores)+len(y.inits) > 0
		er := resultOf(push, 0)
		res := pa.Res[len(pa.Res)-1]
		if f.Entails(Not(Eq(er, Nil))) {
			r.check(touched == nil && !acts, "refused", "Push/state", p.pos(push.Pos), "a refused push changes the algorithm", trail(p, st, 25)...)
			r.check(res == er, "refused", "Push/error", p.pos(push.Pos), "the error of a refused push is not returned", trail(p, st, 25)...)
			continue
		}
		ready := p.status("Ready")
		want := And(Lt(Num(0), dpi), True)
		if nd != nil {
			want = And(want, Le(dpi, nd))
		}
		if acts {
			r.check(y.s0 != nil && f.Entails(Eq(y.s0, ready)), "start", "Push/ready", p.pos(push.Pos), "starts an algorithm that may not be ready", trail(p, st, 25)...)
			r.check(nd != nil && refutes(f, Not(want)), "start", "Push/enough", p.pos(push.Pos), "starts although fewer elements than DataPerIter were accepted before since the last start", trail(p, st, 25)...)
			r.check(zero && stores == 1, "count", "Push/restart", p.pos(push.Pos), "starts without counting again from zero", trail(p, st, 25)...)
			r.check(len(y.starts) == 1, "start", "Push/run", p.pos(push.Pos), "does not start a run", trail(p, st, 25)...)
			continue
		}
		all := want
		for _, v := range reads {
			all = And(all, Eq(v, ready))
		}
		r.check(refutes(f, all), "wait", "Push", p.pos(push.Pos), "does not start a ready algorithm although DataPerIter elements were accepted before", trail(p, st, 25)...)
		if zero {
			// decided to start, and found that the algorithm was no longer waiting
			w := want
			if len(reads) > 0 {
				w = And(w, Eq(reads[0], ready))
			}
			r.check(refutes(f, Not(w)) && len(reads) > 1, "count", "Push/zero", p.pos(last.Pos), "counts again from zero without start", trail(p, st, 25)...)
		} else {
			r.check(stores == 1 && wrong == "", "count", "Push", p.pos(push.Pos), "an accepted element is not counted exactly once: "+wrong, trail(p, st, 25)...)
		}
	}
	// nothing else counts
	for _, o := range c.roots {
		if o == x {
			continue
		}
		o.eachStore(cnt, func(evs []*Event, i int) {
			if ev := evs[i]; !plus(evs, i, 0) {
				r.bad("count", o.Name, p.pos(ev.Pos), "changes the count of the elements accepted since the last start")
			}
		})
	}
	if s := r.sym("core.NewAlgo", Options{}); s != nil {
		for _, pa := range s.returns() {
			v := s.fieldOf(pa.St, pa.Res[0], cnt.Name())
			r.check(v != nil && v.IsInt(0), "count", "NewAlgo", s.pos(), "a new algorithm has already counted elements")
		}
	}
}
