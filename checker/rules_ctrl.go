package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rulesByID["C06"] = &Rule{run: ruleC06, assumptions: concAssumptions, explanation: concExplanation + ": decision table of each control operation against the status read under the status lock"}
	rulesByID["C07"] = &Rule{run: ruleC07, assumptions: concAssumptions, explanation: concExplanation + ": pairing of status writes and notifications, token conservation of the notification queue"}
	rulesByID["C08"] = &Rule{run: ruleC08, assumptions: concAssumptions, explanation: concExplanation + ": request/answer automaton over every path of the run, with panics of user code"}
}

// ---- helpers ----

// statusOf gives the status value seen by a load, or left by a store, of the status field
func (c *Conc) statusOf(ev *Event) *Term {
	if ev.Field == nil || ev.Field != c.roles.status || ev.Res == nil {
		return nil
	}
	if ev.Kind == "store" {
		return statusValue(ev.Res)
	}
	if ev.Recv.Args[0].Op == "fieldaddr" {
		if ev.Recv.Aux == "Value" {
			return ev.Res
		}
		return nil
	}
	return statusValue(ev.Res)
}

func ocValue(t *Term) *Term { return ocField(t, 0) }
func ocError(t *Term) *Term { return ocField(t, 1) }
func ocField(t *Term, i int) *Term {
	if t.Op == "struct" {
		return t.Args[i]
	}
	if t.Typ != nil && structOf(t.Typ) != nil {
		return mkField(t, t.Typ, i)
	}
	return U.mk("undef", "status", nil, nil)
}

// errIs tells whether a value is the given package error
func (p *Prog) errIs(t *Term, name string) bool {
	g := p.Global("core." + name)
	return g != nil && t != nil && t.Op == "load" && t.Aux == "errglobal" && t.Args[0].Op == "global" && t.Args[0].Ref == g
}

func (p *Prog) errName(t *Term) string {
	if t != nil && t.Op == "load" && t.Aux == "errglobal" {
		return t.Args[0].Ref.(*ssa.Global).Name()
	}
	if t == nil {
		return "none"
	}
	return clip(t.String(), 60)
}

var statusNames = []string{"Created", "Initializing", "Ready", "Running", "Idle", "Finished"}

func (p *Prog) status(n string) *Term { return p.ConstVal("core." + n) }

// ctlPath is what one path of a control operation does
type ctlPath struct {
	st      *State
	res     []*Term
	evs     []*Event
	s0      *Term // status decided on
	s0i     int
	stores  []*Event
	sends   []*Event // requests to the run
	acks    []*Event
	starts  []*Event // go run
	gos     []*Event
	inits   []*Event
	notifs  []*Event
	modelSt []*Event
}

func (c *Conc) ctl(st *State, res []*Term) *ctlPath {
	ro := c.roles
	x := &ctlPath{st: st, res: res, evs: st.trace.Events(), s0i: -1}
	var last *Term
	lasti := -1
	for i, ev := range x.evs {
		switch ev.Kind {
		case "load":
			acted := len(x.stores)+len(x.sends)+len(x.starts) > 0
			if v := c.statusOf(ev); v != nil && !freshRoot(objOf(ev.Recv)) {
				if x.s0 == nil {
					x.s0, x.s0i = v, i
				}
				if !acted {
					last, lasti = v, i
				}
			}
		case "store":
			if ev.Field != nil && ev.Field == ro.status && !freshRoot(objOf(ev.Recv)) {
				x.stores = append(x.stores, ev)
			}
		case "send":
			switch role(ev) {
			case ro.statusCh:
				x.sends = append(x.sends, ev)
			case ro.notifCh:
				x.notifs = append(x.notifs, ev)
			}
		case "recv":
			if role(ev) == ro.ackCh {
				x.acks = append(x.acks, ev)
			}
		case "go":
			if ro.run != nil && ev.Name == ro.run.Fn.String() {
				x.starts = append(x.starts, ev)
			} else {
				x.gos = append(x.gos, ev)
			}
		case "invoke":
			if ev.Name == "Impl.Init" {
				x.inits = append(x.inits, ev)
			}
		}
	}
	// what is decided on: the first status read, or read again before the first act
	if len(x.stores)+len(x.sends)+len(x.starts) > 0 && last != nil && last != x.s0 {
		x.s0, x.s0i = last, lasti
	}
	return x
}

// collapse drops the intermediate stores of the fields of one status assignment
func (c *Conc) finalStores(x *ctlPath) []*Event {
	var r []*Event
	for i, ev := range x.stores {
		if i+1 < len(x.stores) && ev.Recv.Args[0].Op == "fieldaddr" && adjacentStores(x.evs, ev, x.stores[i+1]) {
			continue
		}
		r = append(r, ev)
	}
	return r
}

func adjacentStores(evs []*Event, a, b *Event) bool {
	on := false
	for _, e := range evs {
		if e == a {
			on = true
			continue
		}
		if e == b {
			return on
		}
		if on && e.Kind != "store" && e.Kind != "load" {
			return false
		}
	}
	return false
}

func (x *ctlPath) can(s *Term) (*Facts, bool) {
	if x.s0 == nil {
		return x.st.facts, true
	}
	return x.st.facts.Assume(Eq(x.s0, s))
}

// index of an event in the path
func (x *ctlPath) at(ev *Event) int {
	for i, e := range x.evs {
		if e == ev {
			return i
		}
	}
	return -1
}

// keeps: a lock guarding the status is held without interruption between two events
func (c *Conc) keepsStatusLock(x *ctlPath, i, j int) bool {
	if i < 0 {
		return false
	}
	for k := i; k <= j; k++ {
		if !c.holds(x.evs[k], c.roles.status) {
			return false
		}
	}
	return true
}

// keepsSpawnLock: the lock under which runs are started is held without interruption
func (c *Conc) keepsSpawnLock(x *ctlPath, i, j int) bool {
	if i < 0 {
		return false
	}
	for k := i; k <= j; k++ {
		if !c.holdsSpawnLockC(x.evs[k]) {
			return false
		}
	}
	return true
}

var spawnLockC map[string]bool

func (c *Conc) spawnLocks() map[string]bool {
	if spawnLockC != nil {
		return spawnLockC
	}
	var common map[string]bool
	for _, x := range c.roots {
		x.each(func(e *Event) {
			if e.Kind == "go" && c.roles.run != nil && e.Name == c.roles.run.Fn.String() {
				m := map[string]bool{}
				for _, h := range e.Held {
					if !h.Read {
						m[lockName(h.Addr)] = true
					}
				}
				if common == nil {
					common = m
				} else {
					for k := range common {
						if !m[k] {
							delete(common, k)
						}
					}
				}
			}
		})
	}
	if common == nil {
		common = map[string]bool{}
	}
	spawnLockC = common
	return common
}

func (c *Conc) holdsSpawnLockC(ev *Event) bool {
	m := c.spawnLocks()
	for _, h := range ev.Held {
		if !h.Read && m[lockName(h.Addr)] {
			return true
		}
	}
	return false
}

func (r *Report) conc() *Conc {
	c := r.p.conc()
	if c.roles.status == nil || c.roles.cent == nil || c.roles.figures == nil {
		r.bad("coverage", "fields", "", "the status, centroids or figures field of core.Algo was not found")
	}
	if c.roles.run == nil || c.roles.statusCh == "" || c.roles.notifCh == "" || c.roles.ackCh == "" {
		r.bad("coverage", "run", "", "the run go routine or its channels were not found")
	}
	return c
}

func (c *Conc) ready() bool {
	ro := c.roles
	return ro.status != nil && ro.run != nil && ro.statusCh != "" && ro.notifCh != "" && ro.ackCh != "" && ro.cent != nil && ro.figures != nil
}

// ---- C06 ----

// tableOf gives the decision table a root must follow
func (c *Conc) tableOf(x *Root) string {
	for _, n := range []string{"Init", "Play", "Pause", "Stop", "Push"} {
		if x.Fn == c.p.Func("core.Algo."+n) {
			return n
		}
	}
	return ""
}

func ruleC06(r *Report) {
	c := r.conc()
	if !c.ready() {
		return
	}
	r.roots(c.roots)
	for _, n := range []string{"Init", "Play", "Pause", "Stop"} {
		r.need("table-"+n, 5)
	}
	for _, x := range c.roots {
		if x.Fn == c.roles.run.Fn {
			continue
		}
		tab := c.tableOf(x)
		for _, p := range x.E.paths {
			if p.Kind != "return" {
				continue
			}
			y := c.ctl(p.St, p.Res)
			acts := len(y.stores)+len(y.sends)+len(y.starts) > 0
			if tab == "" {
				if !acts {
					continue
				}
				if x.Kind == "call" {
					r.bad("other-transition", x.Name, r.p.pos(x.Fn.Pos()), "this operation changes the status or controls the run, which only Init, Play, Pause and Stop may do", trail(r.p, p.St, 20)...)
					continue
				}
				// a callback of the controller: only an interruption
				c.table(r, x, "Interrupt", y)
				continue
			}
			c.table(r, x, tab, y)
		}
	}
	c.batchTable(r)
	c.runTransitions(r)
}

// table checks one path against the transitions of an operation, for each status in which the path can be taken
func (c *Conc) table(r *Report, x *Root, tab string, y *ctlPath) {
	p := r.p
	where := p.pos(x.Fn.Pos())
	for _, s := range statusNames {
		if s == "Initializing" {
			continue // never visible when the status lock is free
		}
		f, ok := y.can(p.status(s))
		if !ok {
			continue
		}
		msg := c.tableCase(tab, s, f, y)
		r.check(msg == "", "table-"+tab, x.Name+" in status "+s, where, tab+" in status "+s+": "+msg, trail(p, y.st, 25)...)
	}
	// the status is decided on under the lock, which is kept until the status changes or a run starts
	acts := append(append([]*Event{}, y.stores...), y.starts...)
	for _, ev := range acts {
		r.check(c.keepsStatusLock(y, y.s0i, y.at(ev)), "atomic", x.Name+"/"+ev.Kind, p.pos(ev.Pos), "the status lock is not held from the decision to this change")
	}
	for _, ev := range append(append([]*Event{}, y.sends...), y.acks...) {
		r.check(c.keepsSpawnLock(y, y.s0i, y.at(ev)), "serialized", x.Name+"/"+ev.Kind+" "+role(ev), p.pos(ev.Pos), "another control operation may start, stop or pause the run between the decision and this request")
	}
}

func (c *Conc) tableCase(tab, s string, f *Facts, y *ctlPath) string {
	p := c.p
	stores := c.finalStores(y)
	var err *Term
	if len(y.res) > 0 {
		err = y.res[len(y.res)-1]
	}
	retIs := func(name string) string {
		if err == nil {
			return ""
		}
		if p.errIs(err, name) {
			return ""
		}
		return "returns " + p.errName(err) + " instead of " + name
	}
	retNil := func() string {
		if err == nil || err == Nil || f.Entails(Eq(err, Nil)) {
			return ""
		}
		return "returns " + p.errName(err) + " instead of no error"
	}
	noop := func(name string) string {
		if len(stores) > 0 {
			return "changes the status at " + p.pos(stores[0].Pos)
		}
		if len(y.sends) > 0 {
			return "sends a request to the run at " + p.pos(y.sends[0].Pos)
		}
		if len(y.starts) > 0 {
			return "starts a run at " + p.pos(y.starts[0].Pos)
		}
		if len(y.inits) > 0 {
			return "initializes the implementation at " + p.pos(y.inits[0].Pos)
		}
		return retIs(name)
	}
	req := func(want string) string {
		if len(y.sends) != 1 {
			return fmt.Sprintf("sends %d requests to the run instead of one", len(y.sends))
		}
		v := ocValue(y.sends[0].Args[0])
		if !f.Entails(Eq(v, p.status(want))) {
			return "requests status " + clip(v.String(), 40) + " instead of " + want
		}
		if want != "Finished" && !f.Entails(Eq(ocError(y.sends[0].Args[0]), Nil)) {
			return "requests a status with an error"
		}
		if len(y.acks) != 1 || y.at(y.acks[0]) < y.at(y.sends[0]) {
			return "does not wait for the answer of the run"
		}
		return ""
	}
	// initialization part; failed tells whether it failed
	initPart := func() (msg string, failed bool) {
		if len(y.inits) != 1 {
			return fmt.Sprintf("initializes the implementation %d times instead of once", len(y.inits)), false
		}
		ie := resultOf(y.inits[0], 1)
		if ie == nil {
			return "the result of the initialization is not used", false
		}
		isNil, notNil := f.Entails(Eq(ie, Nil)), f.Entails(Not(Eq(ie, Nil)))
		if !isNil && !notNil {
			return "does not look at the error of the initialization", false
		}
		if len(stores) != 2 {
			return fmt.Sprintf("changes the status %d times instead of twice", len(stores)), notNil
		}
		if !f.Entails(Eq(ocValue(stores[0].Res), p.status("Initializing"))) {
			return "does not become Initializing first", notNil
		}
		if y.at(stores[0]) > y.at(y.inits[0]) || y.at(stores[1]) < y.at(y.inits[0]) {
			return "the status changes do not surround the initialization", notNil
		}
		want := "Ready"
		if notNil {
			want = "Finished"
		}
		if !f.Entails(Eq(ocValue(stores[1].Res), p.status(want))) {
			return "the initialization does not lead to " + want, notNil
		}
		if notNil && ocError(stores[1].Res) != ie && !f.Entails(Eq(ocError(stores[1].Res), ie)) {
			return "the status does not carry the error of the initialization", true
		}
		if isNil && !f.Entails(Eq(ocError(stores[1].Res), Nil)) {
			return "the status carries an error after a successful initialization", false
		}
		if notNil && err != nil && err != ie && !f.Entails(Eq(err, ie)) {
			return "the error of the initialization is not returned", true
		}
		return "", notNil
	}
	switch tab {
	case "Init":
		if s != "Created" && s != "Finished" {
			return noop("ErrAlreadyCreated")
		}
		msg, failed := initPart()
		if msg != "" {
			return msg
		}
		if len(y.sends)+len(y.starts) > 0 {
			return "controls the run"
		}
		if !failed {
			return retNil()
		}
		return ""
	case "Push":
		// may start a waiting algorithm (when: C31), nothing else
		if s != "Ready" || len(y.starts)+len(y.sends)+len(stores)+len(y.inits) == 0 {
			err = nil
			return noop("")
		}
		err = nil
		return c.tableCase("Play", s, f, &ctlPath{st: y.st, evs: y.evs, s0: y.s0, s0i: y.s0i, stores: y.stores, sends: y.sends, acks: y.acks, starts: y.starts, gos: y.gos, inits: y.inits, notifs: y.notifs, modelSt: y.modelSt})
	case "Play":
		switch s {
		case "Running":
			return noop("ErrRunning")
		case "Idle":
			if len(stores)+len(y.starts)+len(y.inits) > 0 {
				return "does more than resuming the run"
			}
			if m := req("Running"); m != "" {
				return m
			}
			return retNil()
		case "Created", "Finished":
			msg, failed := initPart()
			if msg != "" {
				return msg
			}
			if failed {
				if len(y.sends)+len(y.starts) > 0 {
					return "runs after a failed initialization"
				}
				return ""
			}
		case "Ready":
			if len(stores)+len(y.inits) > 0 {
				return "changes the status itself"
			}
		}
		if len(y.starts) != 1 {
			return fmt.Sprintf("starts %d runs instead of one", len(y.starts))
		}
		if m := req("Running"); m != "" {
			return m
		}
		if y.at(y.sends[0]) < y.at(y.starts[0]) {
			return "sends its request before the run is started"
		}
		return retNil()
	case "Pause":
		if s != "Running" {
			return noop("ErrNotRunning")
		}
		if len(stores)+len(y.starts)+len(y.inits) > 0 {
			return "does more than asking the run to pause"
		}
		if m := req("Idle"); m != "" {
			return m
		}
		ok := U.mk("recvok", y.acks[0].Res.Aux, nil, types.Typ[types.Bool])
		switch {
		case f.Entails(ok):
			return retNil()
		case f.Entails(Not(ok)):
			return retIs("ErrNotRunning")
		}
		return "does not look at the answer of the run"
	case "Stop", "Interrupt":
		switch s {
		case "Ready":
			if len(stores) != 1 || len(y.sends)+len(y.starts) > 0 {
				return "does not finish the algorithm directly"
			}
			if !f.Entails(Eq(ocValue(stores[0].Res), p.status("Finished"))) {
				return "does not set the status to Finished"
			}
			if tab == "Stop" && !f.Entails(Eq(ocError(stores[0].Res), Nil)) {
				return "sets an error although the algorithm is stopped normally"
			}
			return retNil()
		case "Running", "Idle":
			if len(stores)+len(y.starts) > 0 {
				return "does more than asking the run to stop"
			}
			if m := req("Finished"); m != "" {
				return m
			}
			if tab == "Stop" && !f.Entails(Eq(ocError(y.sends[0].Args[0]), Nil)) {
				return "requests an error although the algorithm is stopped normally"
			}
			// returns the error of the status once stopped
			if err != nil {
				for _, ev := range y.evs[y.at(y.acks[0]):] {
					if ev.Kind == "load" && ev.Field == c.roles.status && (ev.Res == err || ev.Res.Op == "struct" && ocError(ev.Res) == err) {
						return ""
					}
				}
				return "does not return the error of the final status"
			}
			return ""
		}
		return noop("ErrNotAlive")
	}
	return "no table"
}

// resultOf gives one component of the result of a call event
func resultOf(ev *Event, i int) *Term {
	if ev.Res == nil {
		return nil
	}
	if ev.Res.Op == "tuple" {
		if i < len(ev.Res.Args) {
			return ev.Res.Args[i]
		}
		return nil
	}
	if i == 0 {
		return ev.Res
	}
	return nil
}

// batchTable: Batch stops, plays, waits without condition nor limit, then stops
func (c *Conc) batchTable(r *Report) {
	fn := r.p.Func("core.Algo.Batch")
	x := c.rootFn(fn)
	if x == nil {
		r.bad("table-Batch", "Batch", "", "core.Algo.Batch not analysed")
		return
	}
	r.need("table-Batch", 3)
	name := func(ev *Event) string {
		for n, f := range r.p.ctrlFns() {
			if f.String() == ev.Name {
				return n
			}
		}
		return ""
	}
	for _, p := range x.E.paths {
		var seq []string
		var evs []*Event
		for _, ev := range p.St.trace.Events() {
			if ev.Kind == "extcall" {
				if n := name(ev); n != "" {
					seq = append(seq, n)
					evs = append(evs, ev)
				}
			}
		}
		f := p.St.facts
		msg := ""
		switch strings.Join(seq, " ") {
		case "Stop Play":
			if !f.Entails(Not(Eq(evs[1].Res, Nil))) {
				msg = "does not wait although it was started"
			} else if p.Res[0] != evs[1].Res {
				msg = "does not return the error of Play"
			}
		case "Stop Play Wait", "Stop Play Wait Stop":
			w := evs[2]
			if !f.Entails(Eq(evs[1].Res, Nil)) {
				msg = "waits although Play failed"
			} else if w.Args[1] != Nil || !f.Entails(Le(w.Args[2], Num(0))) {
				msg = "waits for something else than the end of the run"
			} else if f.Entails(Eq(w.Res, Nil)) {
				// the run may have failed before the wait
				failure := c.statusErrorAfter(p.St, w, f)
				if failure != nil && f.Entails(Not(Eq(failure, Nil))) {
					if p.Res[0] != failure && !f.Entails(Eq(p.Res[0], failure)) {
						msg = "does not return the error of its run"
					}
				} else if len(evs) == 3 {
					msg = "does not stop although the run succeeded"
				} else if !f.Entails(Eq(p.Res[0], Nil)) {
					msg = "returns an error although the run succeeded"
				}
			} else if !f.Entails(Not(Eq(w.Res, Nil))) {
				msg = "does not look at the error of Wait"
			} else if p.Res[0] != w.Res && !f.Entails(Eq(p.Res[0], w.Res)) {
				msg = "does not return the error of Wait"
			}
		default:
			msg = "calls " + strings.Join(seq, ", ")
		}
		r.check(msg == "", "table-Batch", strings.Join(seq, " "), r.p.pos(fn.Pos()), msg, trail(r.p, p.St, 20)...)
	}
}

// statusErrorAfter: the error of the last status read after an event
func (c *Conc) statusErrorAfter(st *State, after *Event, f *Facts) *Term {
	var out *Term
	seen := false
	for _, ev := range st.trace.Events() {
		if ev == after {
			seen = true
		}
		if !seen || ev.Kind != "load" || ev.Field != c.roles.status || ev.Res == nil || ev.Res.Typ == nil {
			continue
		}
		if structOf(ev.Res.Typ) != nil {
			out = ocError(ev.Res)
		} else if types.Identical(ev.Res.Typ, types.Universe.Lookup("error").Type()) {
			out = ev.Res
		}
	}
	return out
}

// ---- the run ----

// recvStatusFacts: what the operations may request in each status, as checked by C06
func (c *Conc) recvStatusFacts(addr *Term) func(st *State, rl string, v *Term) []*Term {
	p := c.p
	return func(st *State, rl string, v *Term) []*Term {
		if rl != c.roles.statusCh || v.Typ == nil || structOf(v.Typ) == nil {
			return nil
		}
		val := ocValue(v)
		err := ocError(v)
		one := func(ns ...string) []*Term {
			var t *Term = False
			for _, n := range ns {
				t = Or(t, Eq(val, p.status(n)))
			}
			return []*Term{t, Or(Eq(err, Nil), Eq(val, p.status("Finished")))}
		}
		cur := st.cells[addr]
		if cur != nil {
			switch {
			case st.facts.Entails(Eq(cur, p.status("Ready"))):
				if !c.heldStatus(st) {
					return one("Running")
				}
			case st.facts.Entails(Eq(cur, p.status("Running"))):
				return one("Idle", "Finished")
			case st.facts.Entails(Eq(cur, p.status("Idle"))):
				return one("Running", "Finished")
			}
		}
		return one("Running", "Idle", "Finished")
	}
}

func (c *Conc) heldStatus(st *State) bool {
	for _, h := range st.held {
		if h.Addr.Op == "fieldaddr" && c.guards[c.roles.status][h.Addr.Ref.(FieldRef).Var()] {
			return true
		}
	}
	return false
}

// statusAddr: address of the status value of the run's algorithm
func (c *Conc) statusAddr() *Term {
	run := c.roles.run
	var addr *Term
	run.each(func(ev *Event) {
		if ev.Field == c.roles.status && addr == nil {
			a := ev.Recv
			for a.Args[0].Op == "fieldaddr" {
				a = a.Args[0]
			}
			addr = a
		}
	})
	if addr == nil {
		return nil
	}
	return mkFieldAddr(addr, types.NewPointer(c.roles.status.Type()), 0)
}

// runModel analyses the run started in status Ready, alone to write the status, with the requests the operations may send
func (c *Conc) runModel() *Root {
	run := *c.roles.run
	run.visited, run.served = nil, nil
	// an argument that depends on the place where the run is started is any value
	run.Args = append([]*Term{}, run.Args...)
	generic := params(run.Fn)
	for i := range run.Args {
		for _, x := range c.roots {
			if x.Fn == run.Fn && i < len(x.Args) && x.Args[i] != run.Args[i] {
				run.Args[i] = generic[i]
			}
		}
	}
	addr := c.statusAddr()
	o := c.options(run.Fn)
	o.MayPanic = func(ev *Event) bool {
		return ev.Kind == "invoke" && (ev.Name == "Impl.Iterate" || ev.Name == "Finishing.IsFinished")
	}
	o.Stable = map[string]bool{c.roles.status.Name(): true}
	if addr != nil {
		o.RecvFacts = c.recvStatusFacts(addr)
	}
	e := c.p.NewExec(o)
	e.guards = c.guards
	run.E = e
	st := c.goState(&run, e)
	if addr != nil {
		st.cells[addr] = c.p.status("Ready")
	}
	e.RunFrom(st, run.Fn, run.Args, run.Free)
	return &run
}

var runModelC *Root

func (c *Conc) theRun() *Root {
	if runModelC == nil {
		runModelC = c.runModel()
	}
	return runModelC
}

// runTransitions: the run only sets a requested status, Ready at its end, or Finished with its error
func (c *Conc) runTransitions(r *Report) {
	run := c.theRun()
	r.saw(run.E)
	for _, u := range run.E.undecided {
		r.bad("undecided", run.Name, r.p.pos(run.Fn.Pos()), u)
	}
	r.need("run-transition", 4)
	p := r.p
	for _, st := range run.ends() {
		y := c.ctl(st, nil)
		var lastReq, cur *Term
		for i, ev := range y.evs {
			if ev.Kind == "recv" && role(ev) == c.roles.statusCh {
				lastReq = ev.Res
			}
			if ev.Field != c.roles.status || ev.Kind != "store" {
				if v := c.statusOf(ev); v != nil {
					cur = v
				}
				continue
			}
			// last store of an assignment only
			skip := false
			for _, e2 := range y.evs[i+1:] {
				if e2.Kind == "store" && e2.Field == c.roles.status {
					skip = true
				}
				if e2.Kind != "load" {
					break
				}
			}
			if skip {
				continue
			}
			v, er := ocValue(ev.Res), ocError(ev.Res)
			f := ev.Facts
			msg := ""
			switch {
			case lastReq != nil && (ocValue(lastReq) == v || f.Entails(Eq(ocValue(lastReq), v))) && (ocError(lastReq) == er || f.Entails(Eq(ocError(lastReq), er))):
			case f.Entails(Eq(v, p.status("Finished"))) && f.Entails(Not(Eq(er, Nil))):
				switch {
				case er.Op == "load" && er.Args[0].Op == "global":
					msg = "the run fails with " + er.String() + ", which is neither requested nor the failure of an iteration"
				case cur != nil && f.Entails(Eq(cur, p.status("Finished"))):
					msg = "the run fails after it has finished"
				}
			case f.Entails(Eq(v, p.status("Ready"))) && cur != nil && f.Entails(Eq(cur, p.status("Running"))) && f.Entails(Eq(er, Nil)):
			default:
				msg = fmt.Sprintf("the run sets status %s (error %s), which was not requested and is not its end", clip(v.String(), 50), clip(er.String(), 50))
			}
			r.check(msg == "", "run-transition", fnName(ev)+"/"+clip(stripSeq(v.String()), 30), p.pos(ev.Pos), msg, trail(p, st, 25)...)
			cur = v
		}
	}
}

// ---- C07 ----

func ruleC07(r *Report) {
	c := r.conc()
	if !c.ready() {
		return
	}
	r.roots(c.roots)
	r.need("notified", 10)
	p := r.p
	roots := []*Root{}
	for _, x := range c.roots {
		if x.Fn != c.roles.run.Fn {
			roots = append(roots, x)
		}
	}
	roots = append(roots, c.theRun())
	for _, x := range roots {
		var sts []*State
		for _, pa := range x.E.paths {
			sts = append(sts, pa.St)
		}
		for _, in := range x.E.insts {
			for _, b := range in.Backs {
				sts = append(sts, b.St)
			}
		}
		for _, st := range sts {
			c.notified(r, x, st)
		}
	}
	// who may send or close notifications, and create their channel
	c.notifChannelRules(r)
	c.queueRules(r)
	_ = p
}

func (c *Conc) notified(r *Report, x *Root, st *State) {
	p := r.p
	y := c.ctl(st, nil)
	finals := map[*Event]bool{}
	for _, ev := range c.finalStores(y) {
		finals[ev] = true
	}
	var open *Event // status change not notified yet
	openAt := -1
	pending := 0
	for i, ev := range y.evs {
		switch {
		case ev.Kind == "recv" && role(ev) == c.roles.statusCh:
			pending = 1
		case (ev.Kind == "send" || ev.Kind == "close") && role(ev) == c.roles.ackCh:
			if open != nil {
				r.bad("notified", x.Name+"/"+fnName(open), p.pos(open.Pos), "the requester is released before this status change is handed to the notifier", trail(p, st, 25)...)
			}
			pending = 0
		case ev.Kind == "store" && finals[ev]:
			if open != nil {
				r.bad("notified", x.Name+"/"+fnName(open), p.pos(open.Pos), "this status change is not handed to the notifier before the next one", trail(p, st, 25)...)
			}
			open, openAt = ev, i
		case ev.Kind == "send" && role(ev) == c.roles.notifCh:
			if open == nil {
				r.bad("notified", x.Name+"/"+fnName(ev)+"/extra", p.pos(ev.Pos), "a status is handed to the notifier although it did not just change", trail(p, st, 25)...)
				continue
			}
			v := ev.Args[0]
			same := func(a, b *Term) bool { return a == b || ev.Facts.Entails(Eq(a, b)) }
			if !same(ocValue(v), ocValue(open.Res)) || !same(ocError(v), ocError(open.Res)) {
				r.bad("notified", x.Name+"/"+fnName(ev)+"/value", p.pos(ev.Pos), "the status handed to the notifier is not the new status", trail(p, st, 25)...)
			}
			// nobody else can change the status in between
			if !c.keepsStatusLock(y, openAt, i) && !(pending == 1 && x.Fn == c.roles.run.Fn) {
				r.bad("ordered", x.Name+"/"+fnName(ev), p.pos(ev.Pos), "another status change may be handed to the notifier before this one, which happened first", trail(p, st, 25)...)
			} else {
				r.ok("notified", x.Name+"/"+fnName(open))
			}
			open = nil
		}
	}
	if open != nil {
		// the path may end in the loop body just after: still a missing notification
		r.bad("notified", x.Name+"/"+fnName(open), p.pos(open.Pos), "this status change is not handed to the notifier", trail(p, st, 25)...)
	}
}

func (c *Conc) notifChannelRules(r *Report) {
	p := r.p
	created := p.status("Created")
	var loop *Root
	r.need("notif-channel", 2)
	for _, x := range c.roots {
		for _, st := range x.ends() {
			evs := st.trace.Events()
			for i, ev := range evs {
				if ev.Kind == "close" && role(ev) == c.roles.notifCh {
					r.bad("notif-channel", x.Name+"/close", p.pos(ev.Pos), "the notification channel is closed: later status changes panic")
				}
				if ev.Kind == "store" && ev.Field != nil && ev.Name == c.roles.notifCh && !freshRoot(objOf(ev.Recv)) {
					v := c.statusAt(evs, i, objOf(ev.Recv))
					good := v != nil && ev.Facts.Entails(Eq(v, created)) && c.holds(ev, c.roles.status)
					// one goroutine that receives from it
					n := 0
					for _, e2 := range evs[i:] {
						if e2.Kind == "go" {
							if g := c.receiver(e2); g != nil {
								loop = g
								n++
							}
						}
					}
					r.check(good && n == 1, "notif-channel", x.Name+"/create", p.pos(ev.Pos), "the notification channel must be created once, when leaving Created, with exactly one go routine that receives from it", trail(p, st, 15)...)
				}
				if ev.Kind == "recv" && role(ev) == c.roles.notifCh && x.Kind != "go" {
					r.bad("notif-channel", x.Name+"/recv", p.pos(ev.Pos), "notifications are received outside of their go routine")
				}
				if ev.Kind == "dyncall" && ev.Recv != nil && ev.Recv.Typ != nil && isNotifierSig(ev.Recv.Typ) && x.Kind != "go" {
					r.bad("notif-channel", x.Name+"/direct", p.pos(ev.Pos), "the notifier is called outside of the notification go routines")
				}
			}
		}
	}
	if loop == nil {
		// the channel may be created with the algorithm: then its loop is started once too
		r.bad("notif-channel", "loop", "", "no go routine receives notifications")
	}
}

// receiver tells whether a go statement starts a root that receives notifications
func (c *Conc) receiver(ev *Event) *Root {
	for _, g := range c.roots {
		if g.Kind == "go" && g.Fn.String() == ev.Name {
			ok := false
			g.each(func(e *Event) {
				if e.Kind == "recv" && role(e) == c.roles.notifCh {
					ok = true
				}
			})
			if ok {
				return g
			}
		}
	}
	return nil
}

// queueRules: what the notification go routines receive is handed over once, in order
func (c *Conc) queueRules(r *Report) {
	r.need("queue", 2)
	p := r.p
	calls := 0
	for _, g := range c.roots {
		if g.Kind != "go" || g.Fn == c.roles.run.Fn {
			continue
		}
		isLoop := false
		g.each(func(ev *Event) {
			if ev.Kind == "recv" && ev.Recv.Typ != nil {
				if ch, ok := ev.Recv.Typ.Underlying().(*types.Chan); ok && typKey(ch.Elem()) == modPath+"/core.OCStatus" && role(ev) != c.roles.statusCh {
					isLoop = true
				}
			}
		})
		if !isLoop {
			continue
		}
		r.fn(g.Fn)
		nb := 0
		for _, in := range g.E.insts {
			for _, b := range in.Backs {
				nb++
				msg, called := c.iterationConserves(in, b)
				if called {
					calls++
				}
				r.check(msg == "", "queue", g.Name+"/"+short(in.Fn.String()), p.pos(headerPos(in.Header)), msg, trail(p, b.St, 20)...)
			}
		}
		if nb == 0 {
			r.bad("queue", g.Name, p.pos(g.Fn.Pos()), "the go routine does not receive notifications repeatedly")
		}
		// an end of the go routine only when its channel is closed
		for _, pa := range g.E.paths {
			evs := pa.St.trace.Events()
			ok := false
			for i := len(evs) - 1; i >= 0; i-- {
				if evs[i].Kind == "recv" {
					rk := U.mk("recvok", evs[i].Res.Aux, nil, types.Typ[types.Bool])
					ok = pa.St.facts.Entails(Not(rk))
					break
				}
			}
			r.check(ok, "queue-end", g.Name, p.pos(g.Fn.Pos()), "the notification go routine may end while its channel is open", trail(p, pa.St, 15)...)
		}
	}
	if calls == 0 {
		r.bad("queue", "notifier", "", "no notification go routine calls the status notifier")
	}
}

// iterationConserves: one iteration of a notification loop moves one status: received and queued last, received and handed
// to the notifier, or taken first from the queue and sent on.
func (c *Conc) iterationConserves(in *LoopInst, b *Back) (string, bool) {
	var recv, sent *Event
	var recvs, sends int
	var called []*Event
	notifierNil := false
	evs := b.St.trace.Events()
	if in.Enter-1 < len(evs) && in.Enter > 0 {
		evs = evs[in.Enter-1:]
	}
	for _, ev := range evs {
		switch ev.Kind {
		case "recv":
			recv = ev
			recvs++
		case "send":
			sent = ev
			sends++
		case "dyncall":
			if ev.Recv != nil && ev.Recv.Typ != nil && isNotifierSig(ev.Recv.Typ) {
				called = append(called, ev)
			}
		}
	}
	// queue variable: a slice of statuses carried by the loop
	var q *LoopVar
	for _, v := range in.Vars {
		if v.Typ == nil {
			continue
		}
		if sl, ok := v.Typ.Underlying().(*types.Slice); ok && typKey(sl.Elem()) == modPath+"/core.OCStatus" {
			if q != nil {
				return "two queues of statuses", false
			}
			q = v
		}
	}
	if recvs+sends != 1 {
		return fmt.Sprintf("an iteration receives %d statuses and sends %d", recvs, sends), false
	}
	if recv != nil {
		ok := U.mk("recvok", recv.Res.Aux, nil, types.Typ[types.Bool])
		_ = ok
		if q == nil || q.Class == "inv" {
			// handed to the notifier at once
			for _, l := range b.St.facts.all() {
				if l.Op == "eq" || l.Op == "not" {
					if Any(l, func(t *Term) bool { return t.Typ != nil && t.Op == "load" && isNotifierSigSafe(t.Typ) }) && b.St.facts.Entails(l) {
						for _, t := range notifierTerms(l) {
							if b.St.facts.Entails(Eq(t, Nil)) {
								notifierNil = true
							}
						}
					}
				}
			}
			if notifierNil {
				if len(called) != 0 {
					return "calls an absent notifier", false
				}
				return "", false
			}
			if len(called) != 1 {
				return fmt.Sprintf("the notifier is called %d times for one status", len(called)), false
			}
			if called[0].Args[1] != recv.Res && !sameStatus(called[0].Args[1], recv.Res) {
				return "the notifier is not called with the status received", true
			}
			return "", true
		}
		if len(called) > 0 {
			return "the notifier is called by the go routine that must receive statuses without delay", true
		}
		next := b.Next[q]
		if next == nil || next.Op != "append" || next.Args[0] != q.Var || len(next.Args) != 2 || !sameStatus(next.Args[1], recv.Res) {
			return "the status received is not queued last: queue becomes " + clip(fmt.Sprint(next), 120), false
		}
		return "", false
	}
	if q == nil {
		return "a status that was not received is sent", false
	}
	next := b.Next[q]
	root, off := sliceRoot(next)
	if root != q.Var || !b.St.facts.Entails(Eq(off, Num(1))) || !b.St.facts.Entails(Eq(mkLen(next), AddN(mkLen(q.Var), -1))) {
		return "the first status of the queue is not removed once sent: queue becomes " + clip(fmt.Sprint(next), 120), false
	}
	first := mkElem(q.Var, Num(0), "", elemTypeOf(q.Typ))
	v := sent.Args[0]
	if !sameStatus(v, first) {
		return "the status sent is not the first of the queue: " + clip(v.String(), 120), false
	}
	if !b.St.facts.Entails(Le(Num(1), mkLen(q.Var))) {
		return "a status is sent although the queue may be empty", false
	}
	return "", false
}

func isNotifierSigSafe(t types.Type) bool {
	_, ok := t.Underlying().(*types.Signature)
	return ok && isNotifierSig(t)
}

func notifierTerms(l *Term) []*Term {
	var r []*Term
	Any(l, func(t *Term) bool {
		if t.Typ != nil && isNotifierSigSafe(t.Typ) {
			r = append(r, t)
		}
		return false
	})
	return r
}

func sameStatus(a, b *Term) bool {
	return a == b || (ocValue(a) == ocValue(b) && ocError(a) == ocError(b))
}

// ---- C08 ----

func ruleC08(r *Report) {
	c := r.conc()
	if !c.ready() {
		return
	}
	run := c.theRun()
	r.roots([]*Root{run})
	r.need("answered", 10)
	r.need("final", 5)
	p := r.p
	// nobody else serves the channels of the run
	for _, x := range c.roots {
		if x.Fn == c.roles.run.Fn {
			continue
		}
		x.each(func(ev *Event) {
			if (ev.Kind == "send" || ev.Kind == "close") && role(ev) == c.roles.ackCh {
				r.bad("own-channel", x.Name+"/ack", p.pos(ev.Pos), "another operation answers in place of the run")
			}
			if ev.Kind == "recv" && role(ev) == c.roles.statusCh {
				r.bad("own-channel", x.Name+"/request", p.pos(ev.Pos), "another operation takes the requests of the run")
			}
		})
	}
	a := &runAuto{c: c, run: run, addr: c.statusAddr(), heads: map[*LoopInst]map[runHead]bool{}}
	// what holds at the head of the loops of the run: least fixed point over its paths
	for n := 0; a.changed || n == 0; n++ {
		a.changed = false
		if n > 50 {
			r.bad("undecided", "run", p.pos(run.Fn.Pos()), "the states of the run do not stabilize")
			return
		}
		a.all(nil)
	}
	a.all(r)
}

// runAuto follows the requests, the answers and the status along the paths of the run
type runAuto struct {
	c       *Conc
	run     *Root
	addr    *Term
	heads   map[*LoopInst]map[runHead]bool
	changed bool
}

// runHead is what is known at the head of a loop
type runHead struct {
	status  string
	pending string // requested status not answered yet
	stop    bool   // asked to stop
	closed  bool
	open    bool // final status published without lock and without waiting operation
}

type runPos struct {
	runHead
	cur    *Term
	pendEv *Event
	openAt int // event since which another run may start unless the lock is kept, -1
	f      *Facts
	st     *State
}

func (a *runAuto) names(f *Facts, v *Term) []string {
	var r []string
	for _, s := range statusNames {
		if s == "Initializing" && !f.Entails(Eq(v, a.c.p.status(s))) {
			continue
		}
		if _, ok := f.Assume(Eq(v, a.c.p.status(s))); ok {
			r = append(r, s)
		}
	}
	return r
}

func (a *runAuto) all(r *Report) {
	p := a.c.p
	for _, pa := range a.run.E.paths {
		if pa.Kind == "panic" {
			if r != nil {
				r.bad("answered", "panic", p.pos(a.run.Fn.Pos()), "a panic leaves the run", trail(p, pa.St, 25)...)
			}
			continue
		}
		if pa.Kind == "return" {
			a.follow(r, pa.St, nil)
		}
	}
	for _, in := range a.run.E.insts {
		for _, b := range in.Backs {
			a.follow(r, b.St, in)
		}
	}
}

// follow runs the automaton over one path, to the end of the run or to the head of a loop
func (a *runAuto) follow(r *Report, st *State, back *LoopInst) {
	evs := st.trace.Events()
	a.step(r, st, back, evs, 0, runPos{cur: a.c.p.status("Ready"), openAt: -1, f: st.facts, st: st})
}

func (a *runAuto) step(r *Report, st *State, back *LoopInst, evs []*Event, i int, q runPos) {
	c, p := a.c, a.c.p
	fail := func(rule, key string, ev *Event, m string) {
		if r != nil {
			r.bad(rule, key, p.pos(ev.Pos), m, trail(p, st, 40)...)
		}
	}
	for ; i < len(evs); i++ {
		ev := evs[i]
		switch {
		case ev.Kind == "loopenter" && ev.Inst != nil:
			cur := q.cur
			if v := ev.Inst.statusVar(a.addr); v != nil {
				cur = v.Var
			}
			a.reach(ev.Inst, q)
			hs := a.heads[ev.Inst]
			for h := range hs {
				f, ok := q.f.Assume(Eq(cur, p.status(h.status)))
				if !ok {
					continue
				}
				n := runPos{runHead: h, cur: cur, openAt: -1, f: f, st: st}
				if h.open {
					n.openAt = i
				}
				if h.pending != "" {
					n.pendEv = ev
				}
				a.step(r, st, back, evs, i+1, n)
			}
			return
		case ev.Kind == "store" && ev.Field == c.roles.status:
			q.cur = statusValue(ev.Res)
			if q.pending == "" && !q.closed {
				for _, n := range a.names(q.f, q.cur) {
					if n != "Running" && n != "Idle" {
						q.openAt = i
					}
				}
			}
		case ev.Kind == "recv" && role(ev) == c.roles.ackCh:
			if !q.closed {
				return // only the run writes on the channel, which is open: nothing to receive
			}
		case ev.Kind == "recv" && role(ev) == c.roles.statusCh:
			if q.pending != "" {
				// operations are serialized (C06): while one waits for its answer there is no other request
				if ev.Block {
					fail("answered", "run/twice", ev, "waits for a request before it answered the previous one")
				}
				return
			}
			v := ocValue(ev.Res)
			for _, n := range a.names(q.f, v) {
				f, ok := q.f.Assume(Eq(v, p.status(n)))
				if !ok {
					continue
				}
				m := q
				m.f, m.pending, m.pendEv, m.openAt = f, n, ev, -1
				if q.openAt >= 0 {
					// the run is over for other operations: this one waits for its end
					m.openAt = q.openAt
				}
				m.stop = q.stop || n == "Finished"
				a.step(r, st, back, evs, i+1, m)
			}
			return
		case ev.Kind == "send" && role(ev) == c.roles.ackCh:
			if q.pending == "" {
				fail("answered", "run/nobody", ev, "acknowledges although no operation waits: the run blocks for ever")
			} else if !q.f.Entails(Eq(q.cur, p.status(q.pending))) {
				fail("answered", "run/early", ev, "acknowledges a request before the requested status is set")
			}
			if q.closed {
				fail("answered", "run/closed", ev, "answers on a closed channel: panics")
			}
			if q.pending == "Finished" {
				q.openAt = i
			}
			q.pending, q.pendEv = "", nil
		case ev.Kind == "close" && role(ev) == c.roles.ackCh:
			if q.closed {
				fail("answered", "run/close", ev, "closes the answer channel twice: panics")
			}
			q.closed = true
			if q.openAt >= 0 {
				y := &ctlPath{evs: evs}
				if q.open || !c.keepsStatusLock(y, q.openAt, i) {
					fail("atomic-end", "run", ev, "an operation may start another run between the final status and the release of the waiting operation")
				} else if r != nil {
					r.ok("atomic-end", "run")
				}
			}
			if !c.holds(ev, c.roles.status) {
				fail("atomic-end", "run/close", ev, "the answer channel is closed without the status lock: the next run may already have replaced it")
			}
			q.pending, q.pendEv = "", nil
		case ev.Kind == "invoke" && ev.Name == "Impl.Iterate":
			if q.pending != "" {
				fail("answered", "run/iterates", ev, "iterates while an operation waits for its answer")
			}
			if _, ok := q.f.Assume(Eq(q.cur, p.status("Idle"))); ok {
				fail("answered", "run/idle", ev, "iterates while the algorithm is idle")
			}
		}
	}
	if back != nil {
		a.reach(back, q)
		if r != nil {
			r.ok("answered", "iteration")
		}
		return
	}
	if len(evs) == 0 {
		return
	}
	end := evs[len(evs)-1]
	if q.pending != "" {
		fail("answered", "run/pending", q.pendEv, "this request is never answered")
	}
	if !q.closed {
		fail("answered", "run/end", end, "the run ends without releasing an operation that waits for it")
	} else if r != nil && q.pending == "" {
		r.ok("answered", "run")
	}
	if r != nil {
		ok := q.f.Entails(Not(Eq(q.cur, p.status("Running")))) && q.f.Entails(Not(Eq(q.cur, p.status("Idle"))))
		r.check(ok, "final", "run/alive", p.pos(a.run.Fn.Pos()), "the run may end in status Running or Idle", trail(p, st, 40)...)
		if q.stop {
			r.check(q.f.Entails(Eq(q.cur, p.status("Finished"))), "final", "run/stop", p.pos(a.run.Fn.Pos()), "the run was asked to stop and does not end Finished", trail(p, st, 40)...)
		}
	}
}

// reach adds the states in which the head of a loop is reached
func (a *runAuto) reach(in *LoopInst, q runPos) {
	for _, n := range a.names(q.f, q.cur) {
		h := q.runHead
		h.status = n
		h.open = q.openAt >= 0
		m := a.heads[in]
		if m == nil {
			m = map[runHead]bool{}
			a.heads[in] = m
		}
		if !m[h] {
			m[h] = true
			a.changed = true
		}
	}
}

// statusVar is the variable of a loop that stands for the status
func (in *LoopInst) statusVar(addr *Term) *LoopVar {
	for _, v := range in.Vars {
		if v.Cell != nil && v.Cell == addr && v.Var != nil {
			return v
		}
	}
	return nil
}
