package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var concAssumptions = []string{
	"the Go runtime, sync, time and rand packages behave as documented",
	"implementations, spaces and notifiers outside of the repository do not call control operations from within Init, Iterate, Push, Dist or IsFinished",
	"two values of the same struct type reached through different parameters may be the same object",
}

const concExplanation = "static analysis: every exported operation, escaping callback and go routine that touches a mutex is interpreted abstractly on the SSA form of the current source (all paths, loops to a fixpoint, callees of the module inlined, calls into user code forked into return and panic); the obligations below are read from the resulting event traces"

func init() {
	rulesByID["C01"] = &Rule{run: ruleC01, assumptions: concAssumptions, explanation: concExplanation + ": locks released at every end"}
	rulesByID["C02"] = &Rule{run: ruleC02, assumptions: concAssumptions, explanation: concExplanation + ": acquisitions under locks, lock order graph"}
	rulesByID["C03"] = &Rule{run: ruleC03, assumptions: concAssumptions, explanation: concExplanation + ": waits and callbacks under locks"}
	rulesByID["C04"] = &Rule{run: ruleC04, assumptions: concAssumptions, explanation: concExplanation + ": locksets of every access to the mutable fields of types with a mutex"}
}

// panicRoots analyses the roots again, with calls into user code that may panic
func (c *Conc) panicRoots() []*Root {
	var out []*Root
	for _, r := range c.roots {
		n := *r
		o := c.options(r.Fn)
		o.MayPanic = userCall
		c.runRoot(&n, o)
		out = append(out, &n)
	}
	return out
}

func (r *Report) roots(rs []*Root) {
	for _, x := range rs {
		r.fn(x.Fn)
		r.saw(x.E)
		for _, u := range x.E.undecided {
			r.bad("undecided", x.Name, r.p.pos(x.Fn.Pos()), u)
		}
	}
}

func ruleC01(r *Report) {
	c := r.p.conc()
	rs := c.panicRoots()
	r.roots(rs)
	r.need("released", 20)
	r.need("lock-sites", 15)
	sites := map[token.Pos]string{}
	for _, x := range rs {
		for _, p := range x.E.paths {
			switch p.Kind {
			case "return", "panic":
				if len(p.St.held) == 0 {
					r.ok("released", x.Name+" ("+p.Kind+")")
					continue
				}
				for _, h := range p.St.held {
					r.bad("released", x.Name+"/"+lockName(h.Addr)+"/"+p.Kind, r.p.pos(h.Pos),
						fmt.Sprintf("%s still holds %s, taken here, when it ends by %s", x.Name, lockName(h.Addr), p.Kind), trail(r.p, p.St, 30)...)
				}
			default:
				r.bad("undecided", x.Name, r.p.pos(x.Fn.Pos()), p.Why)
			}
		}
		for _, in := range x.E.insts {
			r.check(!in.HeldBad, "loop-balance", x.Name+"/"+short(in.Fn.String()), r.p.pos(headerPos(in.Header)), "an iteration of this loop does not release the locks it takes")
		}
		x.each(func(ev *Event) {
			switch ev.Kind {
			case "badunlock":
				r.bad("unlock-held", x.Name+"/"+lockName(ev.Recv), r.p.pos(ev.Pos), "unlocks "+lockName(ev.Recv)+", which is not held (or held in the other mode)")
			case "lock", "rlock":
				sites[ev.Pos] = lockName(ev.Recv)
			}
		})
	}
	if par := r.p.Func("core.Par"); par != nil {
		for _, w := range r.parWorkers(par) {
			for _, pa := range w.paths {
				for _, h := range pa.St.held {
					r.bad("released", "core.Par/worker", r.p.pos(h.Pos), "a worker ends with a lock", trail(r.p, pa.St, 20)...)
				}
				for _, ev := range pa.St.trace.Events() {
					if ev.Kind == "lock" || ev.Kind == "rlock" {
						sites[ev.Pos] = lockName(ev.Recv)
					}
				}
			}
		}
	}
	// every lock site of the library was reached by the analysis
	for _, f := range r.p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				op := lockOp(ci.Common().StaticCallee())
				if op != "lock" && op != "rlock" {
					continue
				}
				if _, ok := in.(*ssa.Call); !ok {
					r.bad("lock-sites", short(f.String()), r.p.pos(ci.Pos()), "lock taken by a deferred call or a go routine")
					continue
				}
				_, seen := sites[ci.Pos()]
				r.check(seen, "lock-sites", short(f.String()), r.p.pos(ci.Pos()), "this lock site is not reached by any analysed entry point")
			}
		}
	}
}

type lockEdge struct{ from, to string }

func ruleC02(r *Report) {
	c := r.p.conc()
	rs := c.roots
	r.roots(rs)
	r.need("reacquire", 20)
	r.need("order", 3)
	edges := map[lockEdge]string{}
	callee := map[string]*summary{}
	for _, x := range rs {
		x.each(func(ev *Event) {
			switch ev.Kind {
			case "lock", "rlock":
				good := true
				for _, h := range ev.Held {
					if h.Addr == ev.Recv {
						good = false
						r.bad("reacquire", x.Name+"/"+lockName(ev.Recv), r.p.pos(ev.Pos), fmt.Sprintf("takes %s, which it already holds since %s", lockName(ev.Recv), r.p.pos(h.Pos)), stackString(r.p, ev)...)
					} else {
						edges[lockEdge{lockName(h.Addr), lockName(ev.Recv)}] = r.p.pos(ev.Pos)
					}
				}
				if good {
					r.ok("reacquire", x.Name+"/"+lockName(ev.Recv))
				}
			case "invoke", "dyncall", "extcall":
				if len(ev.Held) == 0 {
					return
				}
				fns := c.eventCallees(ev)
				if len(fns) == 0 {
					return
				}
				key := ev.Kind + ev.Name
				if ev.Kind == "dyncall" {
					key += fmt.Sprint(ev.Recv.Typ)
				}
				s := callee[key]
				if s == nil {
					s = c.summaryOf(fns...)
					callee[key] = s
				}
				var ls []string
				for l := range s.locks {
					ls = append(ls, l)
				}
				sort.Strings(ls)
				good := true
				for _, l := range ls {
					for _, h := range ev.Held {
						hn := lockName(h.Addr)
						if hn == l {
							good = false
							r.bad("reacquire", x.Name+"/"+ev.Name+"/"+l, r.p.pos(ev.Pos), fmt.Sprintf("%s is called with %s held, and may take it (%s)", ev.Name, l, r.p.pos(s.locks[l])))
						} else {
							edges[lockEdge{hn, l}] = r.p.pos(ev.Pos)
						}
					}
				}
				if good {
					r.ok("reacquire", x.Name+"/"+ev.Name)
				}
			}
		})
	}
	// order: no cycle
	next := map[string][]string{}
	for e := range edges {
		next[e.from] = append(next[e.from], e.to)
	}
	reach := func(a, b string) bool {
		seen := map[string]bool{}
		work := []string{a}
		for len(work) > 0 {
			x := work[len(work)-1]
			work = work[:len(work)-1]
			if x == b {
				return true
			}
			if seen[x] {
				continue
			}
			seen[x] = true
			work = append(work, next[x]...)
		}
		return false
	}
	var es []lockEdge
	for e := range edges {
		es = append(es, e)
	}
	sort.Slice(es, func(i, j int) bool { return es[i].from+es[i].to < es[j].from+es[j].to })
	for _, e := range es {
		r.check(!reach(e.to, e.from), "order", e.from+" > "+e.to, edges[e], fmt.Sprintf("%s is taken while %s is held here, and elsewhere in the opposite order: two go routines may wait for each other", e.to, e.from))
	}
}

// need: the locks a go routine may take before it serves a channel, and those it waits for
type needInfo struct {
	locks map[string]string
	all   string // calls user code that may take any lock
}

func (c *Conc) peers(rl string, dir string) []*Root {
	key := rl + "/" + dir
	if out, ok := c.peersOf[key]; ok {
		return out
	}
	out := c.findPeers(rl, dir)
	if c.peersOf == nil {
		c.peersOf = map[string][]*Root{}
	}
	c.peersOf[key] = out
	return out
}

func (c *Conc) findPeers(rl string, dir string) []*Root {
	var out []*Root
	for _, r := range c.roots {
		if r.Kind != "go" {
			continue
		}
		found := false
		r.each(func(ev *Event) {
			if (ev.Kind == dir || (dir == "recv" && ev.Kind == "recv") || (dir == "send" && ev.Kind == "close")) && role(ev) == rl && (ev.Kind == dir || ev.Kind == "close") {
				found = true
			}
		})
		if found {
			out = append(out, r)
		}
	}
	return out
}

// serves tells whether a root has the given operation on a channel
func (r *Root) serves(rl, dir string) bool {
	if r.served == nil {
		r.served = map[string]bool{}
		r.each(func(ev *Event) {
			switch ev.Kind {
			case "send", "recv", "close":
				r.served[role(ev)+"/"+ev.Kind] = true
			}
		})
	}
	return r.served[rl+"/"+dir]
}

// needsOf collects what a peer may need before it serves the channel rl
func (c *Conc) needsOf(x, g *Root, rl string, seen map[string]bool, n *needInfo) {
	key := g.key() + "/" + rl
	if seen[key] {
		return
	}
	seen[key] = true
	// selects that also serve the channel do not delay it
	serving := map[ssa.Instruction]bool{}
	g.each(func(ev *Event) {
		if ev.Sel != nil && (ev.Kind == "recv" || ev.Kind == "send") && role(ev) == rl {
			serving[ev.Sel] = true
		}
	})
	g.each(func(ev *Event) {
		switch ev.Kind {
		case "lock", "rlock":
			n.locks[lockName(ev.Recv)] = c.p.pos(ev.Pos) + " (" + g.Name + ")"
		case "dyncall":
			if ev.Recv != nil && ev.Recv.Typ != nil && isNotifierSig(ev.Recv.Typ) {
				n.all = c.p.pos(ev.Pos) + " (" + g.Name + " calls the status notifier)"
			}
		case "send", "recv":
			if !ev.Block || role(ev) == rl || (ev.Sel != nil && serving[ev.Sel]) {
				return
			}
			dir := "recv"
			if ev.Kind == "recv" {
				dir = "send"
			}
			if x.serves(role(ev), dir) {
				return // waits for the very operation that waits for it: their hand-shake
			}
			for _, p := range c.peers(role(ev), dir) {
				if p != g {
					c.needsOf(x, p, role(ev), seen, n)
				}
			}
		}
		if ev.Kind == "invoke" || ev.Kind == "extcall" || ev.Kind == "dyncall" {
			fns := c.eventCallees(ev)
			if len(fns) > 0 {
				s := c.summaryOf(fns...)
				for l := range s.locks {
					n.locks[l] = c.p.pos(ev.Pos) + " (" + g.Name + " calls " + ev.Name + ")"
				}
				if s.notify {
					n.all = c.p.pos(ev.Pos)
				}
			}
		}
	})
}

func ruleC03(r *Report) {
	c := r.p.conc()
	r.roots(c.roots)
	r.need("wait", 3)
	r.need("callback", 2)
	ro := c.roles
	if ro.run == nil || ro.statusCh == "" || ro.notifCh == "" || ro.ackCh == "" {
		r.bad("coverage", "roles", "", "the run go routine or its channels were not found")
	}
	for _, x := range c.roots {
		needs := map[string]*needInfo{}
		x.each(func(ev *Event) {
			switch ev.Kind {
			case "dyncall":
				if ev.Recv != nil && ev.Recv.Typ != nil && isNotifierSig(ev.Recv.Typ) {
					r.check(len(ev.Held) == 0, "callback", x.Name+"/StatusNotifier", r.p.pos(ev.Pos), "the status notifier is called with "+heldNames(ev.Held)+" held", stackString(r.p, ev)...)
				} else if !strings.Contains(x.Name, "LateDistrib") {
					r.check(len(ev.Held) == 0, "callback", x.Name+"/"+ev.Name, r.p.pos(ev.Pos), "a callback is called with "+heldNames(ev.Held)+" held", stackString(r.p, ev)...)
				}
			case "invoke":
				if strings.HasPrefix(ev.Name, "Finishing.") {
					r.check(len(ev.Held) == 0, "callback", x.Name+"/"+ev.Name, r.p.pos(ev.Pos), "a finishing condition is evaluated with "+heldNames(ev.Held)+" held", stackString(r.p, ev)...)
				} else if len(ev.Held) > 0 {
					r.blockingCallee(c, x, ev)
				}
			case "extcall":
				if len(ev.Held) > 0 {
					r.blockingCallee(c, x, ev)
				}
			case "wgWait", "sleep":
				// sleeping only delays
			case "send", "recv":
				if !ev.Block || len(ev.Held) == 0 {
					return
				}
				dir := "recv"
				if ev.Kind == "recv" {
					dir = "send"
				}
				rl := role(ev)
				ps := c.peers(rl, dir)
				if len(ps) == 0 {
					r.bad("wait", x.Name+"/"+ev.Kind+" "+rl, r.p.pos(ev.Pos), "waits on a channel that no go routine serves, with "+heldNames(ev.Held)+" held")
					return
				}
				for _, g := range ps {
					if g == x {
						continue
					}
					n := needs[g.key()+"/"+rl]
					if n == nil {
						n = &needInfo{locks: map[string]string{}}
						c.needsOf(x, g, rl, map[string]bool{}, n)
						needs[g.key()+"/"+rl] = n
					}
					good := true
					for _, h := range ev.Held {
						if w, ok := n.locks[lockName(h.Addr)]; ok {
							good = false
							r.bad("wait", x.Name+"/"+ev.Kind+" "+rl+"/"+lockName(h.Addr), r.p.pos(ev.Pos), fmt.Sprintf("waits for %s with %s held, which %s may need first: %s", g.Name, lockName(h.Addr), g.Name, w), stackString(r.p, ev)...)
						}
					}
					if n.all != "" {
						good = false
						r.bad("wait", x.Name+"/"+ev.Kind+" "+rl+"/notifier", r.p.pos(ev.Pos), fmt.Sprintf("waits for %s with %s held, but it may itself wait for user code that needs the lock: %s", g.Name, heldNames(ev.Held), n.all), stackString(r.p, ev)...)
					}
					if good {
						r.ok("wait", x.Name+"/"+ev.Kind+" "+rl+" with "+heldNames(ev.Held)+" ("+g.Name+")")
					}
				}
			}
		})
	}
}

func (r *Report) blockingCallee(c *Conc, x *Root, ev *Event) {
	fns := c.eventCallees(ev)
	if len(fns) == 0 {
		return
	}
	s := c.summaryOf(fns...)
	var bs []string
	for b := range s.blocks {
		bs = append(bs, b)
	}
	sort.Strings(bs)
	for _, b := range bs {
		r.bad("callee-wait", x.Name+"/"+ev.Name+"/"+b, r.p.pos(ev.Pos), fmt.Sprintf("%s is called with %s held, and may wait on %s (%s)", ev.Name, heldNames(ev.Held), b, r.p.pos(s.blocks[b])))
	}
	r.check(!s.notify, "callee-callback", x.Name+"/"+ev.Name, r.p.pos(ev.Pos), ev.Name+" is called with locks held, and may call the status notifier")
}

func ruleC04(r *Report) {
	c := r.p.conc()
	r.roots(c.roots)
	r.need("guarded", 30)
	type acc struct {
		a     access
		locks map[*types.Var]bool
	}
	byField := map[*types.Var][]acc{}
	var order []*types.Var
	for _, x := range c.roots {
		for _, a := range c.accesses(x) {
			if freshRoot(a.obj) && !(x.given(a.obj) && c.hasMutex(a.fld)) {
				continue
			}
			if _, ok := byField[a.fld]; !ok {
				order = append(order, a.fld)
			}
			byField[a.fld] = append(byField[a.fld], acc{a, locksOn(a.ev, a.obj, a.write)})
		}
	}
	sort.Slice(order, func(i, j int) bool { return order[i].Pos() < order[j].Pos() })
	for _, f := range order {
		as := byField[f]
		written := false
		for _, a := range as {
			if a.a.write {
				written = true
			}
		}
		if !written {
			r.ok("immutable", f.Name())
			continue
		}
		var cand map[*types.Var]bool
		for _, a := range as {
			if cand == nil {
				cand = map[*types.Var]bool{}
				for l := range a.locks {
					cand[l] = true
				}
				continue
			}
			for l := range cand {
				if !a.locks[l] {
					delete(cand, l)
				}
			}
		}
		if len(cand) > 0 {
			for _, a := range as {
				r.ok("guarded", f.Name()+" in "+fnName(a.a.ev))
			}
			continue
		}
		if why := c.handOff(r, f); why == "" {
			for _, a := range as {
				r.ok("handed-over", f.Name()+" in "+fnName(a.a.ev))
			}
			continue
		} else if c.isChanField(f) {
			a := as[0]
			for _, y := range as {
				if y.a.write {
					a = y
				}
			}
			r.bad("handed-over", f.Name(), r.p.pos(a.a.ev.Pos), "field "+f.Name()+" is neither accessed under one lock nor handed over: "+why)
			continue
		}
		if flag := c.publishedOnce(f); flag != "" {
			for _, a := range as {
				r.ok("published-once", f.Name()+" in "+fnName(a.a.ev)+" (flag "+flag+")")
			}
			continue
		}
		// blame the accesses without the lock most used
		count := map[*types.Var]int{}
		for _, a := range as {
			for l := range a.locks {
				count[l]++
			}
		}
		var best *types.Var
		for l, n := range count {
			if best == nil || n > count[best] || (n == count[best] && l.Name() < best.Name()) {
				best = l
			}
		}
		for _, a := range as {
			if best != nil && a.locks[best] {
				r.ok("guarded", f.Name()+" in "+fnName(a.a.ev))
				continue
			}
			kind := "read"
			if a.a.write {
				kind = "written"
			}
			lock := "any lock"
			if best != nil {
				lock = best.Name()
				if a.a.write {
					lock += " (exclusively)"
				}
			}
			r.bad("guarded", f.Name()+"/"+fnName(a.a.ev), r.p.pos(a.a.ev.Pos), fmt.Sprintf("field %s is %s here without %s held (entry point %s; held: %s)", f.Name(), kind, lock, a.a.root.Name, heldNames(a.a.ev.Held)), stackString(r.p, a.a.ev)...)
		}
	}
	// fields of those types are not accessed by code outside of the entry points
	r.coverFields(c)
	r.bufferRaces(c)
}

func (c *Conc) isChanField(f *types.Var) bool {
	_, ok := f.Type().Underlying().(*types.Chan)
	return ok
}

// handOff decides whether a channel field is handed over instead of locked; "" when it is.
// Either it is written once, in the critical section that leaves status Created, before any reader is started; or it is
// written by the run before its first receive (or by the operation that starts the run, before it does), and its other
// users read it only after a request was sent to the run, under the lock held by the operation that starts runs.
func (c *Conc) handOff(r *Report, f *types.Var) string {
	if !c.isChanField(f) {
		return "not a channel"
	}
	ro := c.roles
	if ro.run == nil || ro.status == nil {
		return "no run"
	}
	created := c.p.ConstVal("core.Created")
	once, byRun := true, true
	why := ""
	for _, x := range c.roots {
		for _, st := range x.ends() {
			evs := st.trace.Events()
			for i, ev := range evs {
				if ev.Field != f || freshRoot(objOf(ev.Recv)) {
					continue
				}
				if ev.Kind == "store" {
					// once: status known to be Created, under the status lock
					v := c.statusAt(evs, i, objOf(ev.Recv))
					if v == nil || !ev.Facts.Entails(Eq(v, created)) || !c.holds(ev, ro.status) {
						once = false
					}
					okRun := false
					if x.Fn == ro.run.Fn {
						okRun = true
						for _, e2 := range evs[:i] {
							if e2.Kind == "recv" {
								okRun = false
							}
						}
					} else {
						for _, e2 := range evs[i:] {
							if e2.Kind == "go" && e2.Name == ro.run.Fn.String() && sameHeld(ev.Held, e2.Held) {
								okRun = true
							}
							if e2.Kind == "unlock" {
								break
							}
						}
					}
					if !okRun {
						byRun = false
					}
				} else if x.Kind != "go" {
					if !c.holds(ev, ro.status) {
						once = false
					}
					sent := false
					for _, e2 := range evs[:i] {
						if e2.Kind == "send" && role(e2) == ro.statusCh {
							sent = true
						}
					}
					if !sent {
						byRun = false
						why = "read at " + c.p.pos(ev.Pos) + " before a request was sent to the run"
					}
					if !c.holdsSpawnLock(ev) {
						byRun = false
						why = "read at " + c.p.pos(ev.Pos) + " without the lock held where runs are started"
					}
				}
			}
		}
	}
	if once || byRun {
		return ""
	}
	if why == "" {
		why = "it is written after its readers may be running"
	}
	return why
}

// statusAt gives the last known status value before an event
func (c *Conc) statusAt(evs []*Event, i int, obj *Term) *Term {
	for j := i - 1; j >= 0; j-- {
		ev := evs[j]
		if ev.Field == c.roles.status && objOf(ev.Recv) == obj {
			if v := c.statusOf(ev); v != nil {
				return v
			}
		}
	}
	return nil
}

// statusValue: the Value of an OCStatus, or the value itself
func statusValue(t *Term) *Term {
	if t.Typ != nil && typKey(t.Typ) == modPath+"/core.OCStatus" {
		return mkField(t, t.Typ, 0)
	}
	if t.Op == "struct" {
		return t.Args[0]
	}
	return t
}

// holds a guard of the field
func (c *Conc) holds(ev *Event, f *types.Var) bool {
	for _, h := range ev.Held {
		if h.Addr.Op == "fieldaddr" && c.guards[f][h.Addr.Ref.(FieldRef).Var()] {
			return true
		}
	}
	return false
}

func sameHeld(a, b []Held) bool {
	for _, x := range a {
		ok := false
		for _, y := range b {
			if x.Addr == y.Addr {
				ok = true
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

// holdsSpawnLock: holds, exclusively, a lock that every operation holds when it starts a run, until its request is answered
func (c *Conc) holdsSpawnLock(ev *Event) bool {
	var common map[string]bool
	for _, x := range c.roots {
		x.each(func(e *Event) {
			if e.Kind == "go" && e.Name == c.roles.run.Fn.String() {
				m := map[string]bool{}
				for _, h := range e.Held {
					if !h.Read {
						m[lockName(h.Addr)] = true
					}
				}
				if common == nil {
					common = m
				} else {
					for k := range common {
						if !m[k] {
							delete(common, k)
						}
					}
				}
			}
		})
	}
	for _, h := range ev.Held {
		if !h.Read && common[lockName(h.Addr)] {
			return true
		}
	}
	return false
}

// coverFields: every access to a mutable field of a type with a mutex, on an object not allocated in place, was analysed
func (r *Report) coverFields(c *Conc) {
	mon, mut := r.p.monitoredCached()
	seen := map[token.Pos]bool{}
	for _, x := range c.roots {
		x.each(func(ev *Event) { seen[ev.Pos] = true })
	}
	var dead func(f *ssa.Function) bool
	called := map[*ssa.Function]bool{}
	for _, f := range r.p.funcs {
		for _, g := range staticOut(f) {
			called[g] = true
			called[unwrap(g)] = true
		}
	}
	dead = func(f *ssa.Function) bool { return !exported(f) && f.Parent() == nil && !called[f] }
	for _, f := range r.p.funcs {
		if dead(f) || f.Synthetic != "" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok || !mon[typKey(elemTypeOf(fa.X.Type()))] {
					continue
				}
				v := structOf(elemTypeOf(fa.X.Type())).Field(fa.Field)
				if !mut[v] {
					continue
				}
				if _, fresh := fa.X.(*ssa.Alloc); fresh {
					continue
				}
				hit := false
				var visit func(x ssa.Value)
				visit = func(x ssa.Value) {
					for _, ref := range *x.Referrers() {
						if seen[ref.Pos()] {
							hit = true
						}
						switch y := ref.(type) {
						case *ssa.FieldAddr:
							visit(y)
						case *ssa.UnOp:
							visit(y)
						case *ssa.Call, *ssa.Defer, *ssa.Go:
							// address passed on
						}
					}
				}
				visit(fa)
				if !hit {
					// address passed to a function that was inlined
					for _, ref := range *fa.Referrers() {
						if _, ok := ref.(ssa.CallInstruction); ok {
							hit = true
						}
					}
				}
				r.check(hit, "reached", v.Name()+" in "+short(f.String()), r.p.pos(fa.Pos()), "this access is not reached by any analysed entry point")
			}
		}
	}
}

// heldField is a field of a type
type heldField struct {
	typ types.Type
	fld *types.Var
}

// holder is the exported type that holds the values of a type of the same package: the type itself, or the one with a field for it
func (c *Conc) holder(t types.Type) string {
	n, ok := deref(t).(*types.Named)
	if !ok || n.Obj().Exported() || n.Obj().Pkg() == nil {
		return typShort(t)
	}
	sc := n.Obj().Pkg().Scope()
	for _, name := range sc.Names() {
		tn, ok := sc.Lookup(name).(*types.TypeName)
		if !ok || !tn.Exported() {
			continue
		}
		st, ok := tn.Type().Underlying().(*types.Struct)
		if !ok {
			continue
		}
		for i := 0; i < st.NumFields(); i++ {
			ft := st.Field(i).Type()
			if types.Identical(deref(ft), n) {
				return typShort(tn.Type())
			}
			in, ok := ft.Underlying().(*types.Interface)
			if fn, named := ft.(*types.Named); ok && named && fn.Obj().Pkg() == n.Obj().Pkg() && in.NumMethods() > 0 && (types.Implements(n, in) || types.Implements(types.NewPointer(n), in)) {
				return typShort(tn.Type())
			}
		}
	}
	return typShort(t)
}

// bufferRaces: what an implementation shares between its pushes, done by any go routine, and the run
func (r *Report) bufferRaces(c *Conc) {
	it := r.p.Type("core.Impl")
	if it == nil {
		r.bad("coverage", "core.Impl", "", "interface core.Impl not found")
		return
	}
	iface := it.Underlying().(*types.Interface)
	impls := map[string]map[string]*ssa.Function{}
	for i := 0; i < iface.NumMethods(); i++ {
		for _, f := range c.implementers(it, iface.Method(i)) {
			if f.Signature.Recv() == nil {
				continue
			}
			k := typKey(f.Signature.Recv().Type())
			if impls[k] == nil {
				impls[k] = map[string]*ssa.Function{}
			}
			impls[k][iface.Method(i).Name()] = f
		}
	}
	var names []string
	for k := range impls {
		names = append(names, k)
	}
	sort.Strings(names)
	r.need("unsynchronized", 3)
	mon, _ := r.p.monitoredCached()
	for _, k := range names {
		ms := impls[k]
		if ms["Push"] == nil || ms["Iterate"] == nil {
			continue
		}
		r.fn(ms["Push"])
		r.fn(ms["Iterate"])
		pw, pr := c.fieldUses(mon, ms["Push"])
		iw, _ := c.fieldUses(mon, ms["Iterate"], ms["Init"])
		bad := map[heldField]token.Pos{}
		for f, pos := range pw {
			bad[f] = pos
		}
		for f, pos := range iw {
			if _, ok := pr[f]; ok {
				bad[f] = pos
			}
		}
		var hs []heldField
		for f := range bad {
			hs = append(hs, f)
		}
		sort.Slice(hs, func(i, j int) bool { return hs[i].fld.Pos() < hs[j].fld.Pos() })
		// a construct is named after the exported type that holds it and its type: it keeps its name when the code is reorganised
		var fs []string
		seen := map[string]int{}
		for _, h := range hs {
			f := typShort(h.typ) + "." + h.fld.Name()
			fs = append(fs, f)
			key := c.holder(h.typ) + "/" + types.TypeString(h.fld.Type(), func(p *types.Package) string { return p.Name() })
			seen[key]++
			if seen[key] > 1 {
				key += fmt.Sprintf("#%d", seen[key])
			}
			r.bad("unsynchronized", key, r.p.pos(bad[h]), fmt.Sprintf("%s: field %s is written without lock, while a concurrent push or the run may use it", short(k), f))
		}
		if len(fs) == 0 {
			r.ok("unsynchronized", short(k))
		} else {
			r.ok("unsynchronized", short(k)+" (reported: "+strings.Join(fs, ", ")+")")
		}
	}
}

// fieldUses lists the struct fields, of objects not allocated in place, written and read by the functions and what they reach
func (c *Conc) fieldUses(mon map[string]bool, fns ...*ssa.Function) (w, rd map[heldField]token.Pos) {
	w, rd = map[heldField]token.Pos{}, map[heldField]token.Pos{}
	for f := range c.reach(fns...) {
		if !c.p.lib(f) && f.Synthetic == "" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				if _, fresh := baseOf(fa).(*ssa.Alloc); fresh {
					continue
				}
				t := elemTypeOf(fa.X.Type())
				if mon[typKey(t)] || !strings.HasPrefix(typKey(t), modPath) {
					continue
				}
				name := heldField{t, structOf(t).Field(fa.Field)}
				for _, ref := range *fa.Referrers() {
					switch x := ref.(type) {
					case *ssa.Store:
						if x.Addr == fa {
							w[name] = x.Pos()
						}
					case *ssa.UnOp:
						rd[name] = x.Pos()
						for _, r2 := range *x.Referrers() {
							if mu, ok := r2.(*ssa.MapUpdate); ok && mu.Map == x {
								w[name] = mu.Pos()
							}
							if ix, ok := r2.(*ssa.IndexAddr); ok && ix.X == x {
								for _, r3 := range *ix.Referrers() {
									if st, ok := r3.(*ssa.Store); ok && st.Addr == ix {
										w[name] = st.Pos()
									}
								}
							}
						}
					}
				}
			}
		}
	}
	return
}

// reach over-approximates the functions reached from some, the model accessors excluded
func (c *Conc) reach(fns ...*ssa.Function) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	work := append([]*ssa.Function{}, fns...)
	for len(work) > 0 {
		f := work[len(work)-1]
		work = work[:len(work)-1]
		if f == nil || seen[f] || !c.p.inModule(f) {
			continue
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				com := ci.Common()
				if com.IsInvoke() && declaringOf(com) == "OCModel" {
					continue
				}
				work = append(work, c.chaCallees(f, com)...)
				for _, a := range com.Args {
					switch y := a.(type) {
					case *ssa.Function:
						work = append(work, unwrap(y))
					case *ssa.MakeClosure:
						work = append(work, unwrap(y.Fn.(*ssa.Function)))
					}
				}
			}
		}
	}
	return seen
}

func declaringOf(com *ssa.CallCommon) string {
	if n, ok := com.Value.Type().(*types.Named); ok {
		return declaringIface(n, com.Method)
	}
	return ""
}

// publishedOnce: the field is only written in the critical section that sets a flag found unset, and each access without
// the lock follows a critical section that found or left the flag set. It returns the flag.
func (c *Conc) publishedOnce(f *types.Var) string {
	flags := map[*types.Var]bool{}
	for g, ls := range c.guards {
		if b, ok := g.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool && len(ls) > 0 && g.Pkg() == f.Pkg() {
			flags[g] = true
		}
	}
	var names []*types.Var
	for g := range flags {
		names = append(names, g)
	}
	sort.Slice(names, func(i, j int) bool { return names[i].Pos() < names[j].Pos() })
	for k := 0; k < 2*len(names); k++ {
		g, set := names[k/2], True
		is := func(v *Term) *Term { return v }
		if k%2 == 1 {
			set, is = False, Not
		}
		ok, stores := true, 0
		for _, x := range c.roots {
			for _, st := range x.ends() {
				evs := st.trace.Events()
				for i, ev := range evs {
					if ev.Field == g && ev.Kind == "store" && !freshRoot(objOf(ev.Recv)) && ev.Args[0] != set {
						ok = false
					}
					if ev.Field != f || freshRoot(objOf(ev.Recv)) {
						continue
					}
					obj := objOf(ev.Recv)
					locked := false
					for _, h := range ev.Held {
						if h.Addr.Op == "fieldaddr" && objOf(h.Addr) == obj && c.guards[g][h.Addr.Ref.(FieldRef).Var()] {
							locked = true
						}
					}
					known := c.flagAt(evs, i, g, obj)
					if ev.Kind == "store" {
						stores++
						if !locked || known == nil || !ev.Facts.Entails(Not(is(known))) || !c.flagSetBeforeUnlock(evs, i, g, obj, set) {
							ok = false
						}
					} else if !locked && (known == nil || !ev.Facts.Entails(is(known))) {
						ok = false
					}
				}
			}
		}
		if ok && stores > 0 {
			return g.Name()
		}
	}
	return ""
}

// flagAt gives the last value seen of a flag before an event
func (c *Conc) flagAt(evs []*Event, i int, g *types.Var, obj *Term) *Term {
	for j := i - 1; j >= 0; j-- {
		if evs[j].Field == g && objOf(evs[j].Recv) == obj && c.holds(evs[j], g) {
			return evs[j].Res
		}
	}
	return nil
}

func (c *Conc) flagSetBeforeUnlock(evs []*Event, i int, g *types.Var, obj, set *Term) bool {
	for _, ev := range evs[i:] {
		if ev.Field == g && ev.Kind == "store" && objOf(ev.Recv) == obj && ev.Args[0] == set {
			return true
		}
		if ev.Kind == "unlock" && objOf(ev.Recv) == obj {
			return false
		}
	}
	return false
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}
