package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Root is one entry point of the concurrent program: an exported operation, an escaping callback or a go routine.
type Root struct {
	Name  string
	Fn    *ssa.Function
	Kind  string // call, callback, go
	E     *Exec
	Spawn *Event // for go routines
	From  *Root
	Args  []*Term
	Free  []*Term

	visited []*Event        // each event once
	served  map[string]bool // operations on channels
}

// Conc is the concurrent part of the program.
type Conc struct {
	p      *Prog
	roots  []*Root
	guards map[*types.Var]map[*types.Var]bool
	sync   map[*types.Var]syncUse
	locky  map[*ssa.Function]bool
	sumC   map[*ssa.Function]*summary
	roles  *algoRoles

	peersOf map[string][]*Root
}

type syncUse struct{ stores, loads int }

// algoRoles: the fields of core.Algo, found by their types and uses
type algoRoles struct {
	T        types.Type
	st       *types.Struct
	status   *types.Var
	cent     *types.Var
	figures  *types.Var
	statusCh string // channel on which the run receives requests
	notifCh  string // channel of notifications
	ackCh    string
	run      *Root
}

func stripSeq(s string) string {
	var sb strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] == '#' {
			j := i + 1
			for j < len(s) && s[j] >= '0' && s[j] <= '9' {
				j++
			}
			i = j - 1
			continue
		}
		sb.WriteByte(s[i])
	}
	return sb.String()
}

// lockOp tells whether the static callee is an operation on a mutex
func lockOp(f *ssa.Function) string {
	if f == nil {
		return ""
	}
	switch f.String() {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock":
		return "lock"
	case "(*sync.RWMutex).RLock":
		return "rlock"
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock":
		return "unlock"
	case "(*sync.RWMutex).RUnlock":
		return "runlock"
	}
	return ""
}

// staticOut lists the functions of the module a function calls or references
func staticOut(f *ssa.Function) []*ssa.Function {
	var r []*ssa.Function
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				if g, ok := (*op).(*ssa.Function); ok {
					r = append(r, g)
				}
			}
			if mc, ok := in.(*ssa.MakeClosure); ok {
				r = append(r, mc.Fn.(*ssa.Function))
			}
		}
	}
	return r
}

// target of a bound method or thunk wrapper
func unwrap(f *ssa.Function) *ssa.Function {
	if f.Synthetic == "" || len(f.Blocks) == 0 {
		return f
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok {
				if g := c.Call.StaticCallee(); g != nil {
					return g
				}
			}
		}
	}
	return f
}

func baseOf(fa *ssa.FieldAddr) ssa.Value {
	var x ssa.Value = fa
	for {
		f, ok := x.(*ssa.FieldAddr)
		if !ok {
			return x
		}
		x = f.X
	}
}

func (c *Conc) findLocky() {
	mon, _ := c.p.monitoredCached()
	c.locky = map[*ssa.Function]bool{}
	all := map[*ssa.Function]bool{}
	for _, f := range c.p.funcs {
		all[f] = true
		for _, g := range f.AnonFuncs {
			all[g] = true
		}
	}
	callers := map[*ssa.Function][]*ssa.Function{}
	var work []*ssa.Function
	for f := range all {
		direct := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case ssa.CallInstruction:
					if lockOp(x.Common().StaticCallee()) != "" {
						direct = true
					}
				case *ssa.MakeClosure:
					if lockOp(unwrap(x.Fn.(*ssa.Function))) != "" {
						direct = true
					}
				case *ssa.FieldAddr:
					if mon[typKey(elemTypeOf(x.X.Type()))] {
						if _, fresh := baseOf(x).(*ssa.Alloc); !fresh {
							direct = true
						}
					}
				}
			}
		}
		for _, g := range staticOut(f) {
			callers[g] = append(callers[g], f)
			if u := unwrap(g); u != g {
				callers[u] = append(callers[u], f)
			}
		}
		if direct {
			c.locky[f] = true
			work = append(work, f)
		}
	}
	for len(work) > 0 {
		f := work[len(work)-1]
		work = work[:len(work)-1]
		for _, g := range callers[f] {
			if !c.locky[g] {
				c.locky[g] = true
				work = append(work, g)
			}
		}
	}
}

// escaping lists the functions and closures whose value is taken, other than to call, defer or start them
func (c *Conc) escaping() map[*ssa.Function]bool {
	r := map[*ssa.Function]bool{}
	for _, f := range c.p.funcs {
		fs := append([]*ssa.Function{f}, f.AnonFuncs...)
		for _, g := range fs {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					var callee ssa.Value
					if ci, ok := in.(ssa.CallInstruction); ok && !ci.Common().IsInvoke() {
						callee = ci.Common().Value
					}
					if mc, ok := in.(*ssa.MakeClosure); ok {
						fn := mc.Fn.(*ssa.Function)
						esc := false
						for _, ref := range *mc.Referrers() {
							ci, ok := ref.(ssa.CallInstruction)
							if ok && ci.Common().Value == mc {
								isArg := false
								for _, a := range ci.Common().Args {
									if a == mc {
										isArg = true
									}
								}
								if !isArg {
									continue
								}
							}
							if ok {
								if cal := ci.Common().StaticCallee(); cal != nil && cal == c.p.Func("core.Par") {
									continue
								}
								if c.borrowed(ci, mc, 0) {
									continue
								}
							}
							esc = true
						}
						if esc {
							r[unwrap(fn)] = true
						}
						continue
					}
					for _, op := range in.Operands(nil) {
						h, ok := (*op).(*ssa.Function)
						if !ok || *op == callee {
							continue
						}
						if ci, is := in.(ssa.CallInstruction); is && c.borrowed(ci, h, 0) {
							continue
						}
						r[unwrap(h)] = true
					}
				}
			}
		}
	}
	return r
}

// borrowed tells whether a call passes a function to functions of the module that only call it before they return
func (c *Conc) borrowed(ci ssa.CallInstruction, v ssa.Value, depth int) bool {
	g := ci.Common().StaticCallee()
	if _, started := ci.(*ssa.Go); started || g == nil || depth > 4 || !c.p.lib(g) || len(g.Params) != len(ci.Common().Args) || ci.Common().Value == v {
		return false
	}
	for i, a := range ci.Common().Args {
		if a != v {
			continue
		}
		for _, ref := range *g.Params[i].Referrers() {
			ci, ok := ref.(ssa.CallInstruction)
			if !ok {
				return false
			}
			if _, started := ci.(*ssa.Go); started {
				return false
			}
			passed := false
			for _, b := range ci.Common().Args {
				passed = passed || b == g.Params[i]
			}
			if passed && !c.borrowed(ci, g.Params[i], depth+1) {
				return false
			}
		}
	}
	return true
}

func exported(f *ssa.Function) bool {
	return f.Object() != nil && f.Object().Exported()
}

var ctrlOps = []string{"Init", "Play", "Pause", "Wait", "Stop", "Push", "Batch", "Copy", "Predict"}

func (p *Prog) ctrlFns() map[string]*ssa.Function {
	r := map[string]*ssa.Function{}
	for _, n := range ctrlOps {
		if f := p.Func("core.Algo." + n); f != nil {
			r[n] = f
		}
	}
	return r
}

func (c *Conc) opaqueFor(fn *ssa.Function) map[string]bool {
	m := map[string]bool{}
	for _, f := range c.p.ctrlFns() {
		if f != fn {
			m[f.String()] = true
		}
	}
	return m
}

// statusRange: a status is one of the constants, and never Initializing when the status lock is free
func (c *Conc) statusFacts(addr, v *Term) []*Term {
	if addr.Op != "fieldaddr" || addr.Aux != "Value" || v.Typ == nil || typKey(v.Typ) != modPath+"/core.ClustStatus" {
		return nil
	}
	fr := addr.Args[0]
	if fr.Op != "fieldaddr" || typKey(elemTypeOf(fr.Args[0].Typ)) != modPath+"/core.Algo" {
		return nil
	}
	return []*Term{Le(Num(0), v), Le(v, Num(5)), Not(Eq(v, c.p.ConstVal("core.Initializing")))}
}

func userCall(ev *Event) bool {
	switch ev.Kind {
	case "invoke":
		return strings.HasPrefix(ev.Name, "Impl.") || strings.HasPrefix(ev.Name, "Finishing.") || strings.HasPrefix(ev.Name, "Space.")
	case "dyncall":
		return true
	}
	return false
}

func (c *Conc) options(fn *ssa.Function) Options {
	o := Options{Opaque: c.opaqueFor(fn), LoadFacts: c.statusFacts, SharedAlloc: false}
	top := fn
	for top.Parent() != nil {
		top = top.Parent()
	}
	o.NoPar = top == c.p.Func("core.Par")
	return o
}

func (c *Conc) runRoot(r *Root, opts Options) {
	e := c.p.NewExec(opts)
	e.guards = c.guards
	r.E = e
	if r.Kind != "go" {
		e.Run(r.Fn, r.Args, r.Free, nil)
		return
	}
	st := c.goState(r, e)
	e.RunFrom(st, r.Fn, r.Args, r.Free)
}

// goState: what a new go routine knows of the memory of its creator: the captured variables
func (c *Conc) goState(r *Root, e *Exec) *State {
	st := &State{cells: map[*Term]*Term{}, regs: map[*Term][]layer{}, maps: map[*Term][]mlayer{}}
	snap := r.Spawn.Snap
	if snap != nil {
		for a, v := range snap.cells {
			if rootOf(a).Op == "alloc" {
				st.cells[a] = v
			}
		}
		st.nid = snap.nid
	}
	return st
}

func rootName(f *ssa.Function) string { return short(f.String()) }

// buildConc analyses every root, twice: without guards, then with the inferred ones
func buildConc(p *Prog) *Conc {
	c := &Conc{p: p, sumC: map[*ssa.Function]*summary{}}
	c.findLocky()
	esc := c.escaping()
	var entry []*Root
	seen := map[*ssa.Function]bool{}
	add := func(f *ssa.Function, kind string) {
		if seen[f] || !c.p.lib(f) || !c.locky[f] || f.Synthetic != "" || len(f.Blocks) == 0 {
			return
		}
		seen[f] = true
		entry = append(entry, &Root{Name: rootName(f), Fn: f, Kind: kind, Args: params(f)})
	}
	for _, f := range p.funcs {
		if exported(f) && f.Parent() == nil {
			add(f, "call")
		}
	}
	var es []*ssa.Function
	for f := range esc {
		es = append(es, f)
	}
	sort.Slice(es, func(i, j int) bool { return es[i].String() < es[j].String() })
	for _, f := range es {
		add(f, "callback")
	}
	for pass := 0; pass < 2; pass++ {
		c.roots = nil
		queue := append([]*Root{}, entry...)
		done := map[string]bool{}
		for len(queue) > 0 {
			r := queue[0]
			queue = queue[1:]
			n := *r
			c.runRoot(&n, c.options(n.Fn))
			c.roots = append(c.roots, &n)
			for _, ev := range n.E.spawned {
				g := c.goRoot(&n, ev)
				if g == nil || done[g.key()] {
					continue
				}
				done[g.key()] = true
				queue = append(queue, g)
			}
		}
		if pass == 0 {
			c.guards = c.inferGuards()
		}
	}
	c.findRoles()
	return c
}

func (r *Root) key() string {
	var sb strings.Builder
	sb.WriteString(r.Fn.String())
	for _, a := range r.Args {
		sb.WriteString("|" + stripSeq(a.String()))
	}
	return sb.String()
}

func (c *Conc) goRoot(from *Root, ev *Event) *Root {
	if ev.Name == "?" {
		return nil
	}
	fn := ev.Res.Ref.(*ssa.Function)
	if len(fn.Blocks) == 0 {
		return nil
	}
	// an argument known to be nil is nil, however it was read
	args := append([]*Term{}, ev.Args...)
	for i, a := range args {
		if a.Op == "load" && ev.Facts != nil && ev.Facts.Entails(Eq(a, Nil)) {
			args[i] = Nil
		}
	}
	return &Root{Name: "go " + rootName(fn), Fn: fn, Kind: "go", Spawn: ev, From: from, Args: args, Free: ev.Res.Args}
}

// ends lists the final states of a root, and the ends of the iterations of its loops
func (r *Root) ends() []*State {
	var out []*State
	for _, p := range r.E.paths {
		out = append(out, p.St)
	}
	for _, in := range r.E.insts {
		for _, b := range in.Backs {
			out = append(out, b.St)
		}
	}
	return out
}

// each visits every event of a root once
func (r *Root) each(f func(ev *Event)) {
	if r.visited == nil {
		r.visited = []*Event{}
		r.collect(func(ev *Event) { r.visited = append(r.visited, ev) })
	}
	for _, ev := range r.visited {
		f(ev)
	}
}

// eachStore visits the stores to a field of an object that others may know, with what came before
func (r *Root) eachStore(fld *types.Var, f func(evs []*Event, i int)) {
	seen := map[*Event]bool{}
	for _, st := range r.ends() {
		evs := st.trace.Events()
		for i, ev := range evs {
			if ev.Kind == "store" && ev.Field == fld && !seen[ev] && !freshRoot(objOf(ev.Recv)) {
				seen[ev] = true
				f(evs, i)
			}
		}
	}
}

func (r *Root) collect(f func(ev *Event)) {
	seen := map[*Event]bool{}
	for _, st := range r.ends() {
		for n := st.trace; n != nil; n = n.prev {
			if seen[n.ev] {
				break
			}
			seen[n.ev] = true
			f(n.ev)
		}
	}
}

// access to a monitored field, or to the content of a map or slice it holds
type access struct {
	fld   *types.Var
	obj   *Term
	write bool
	ev    *Event
	root  *Root
}

// mapField: the monitored field a map or slice value was loaded from
func (c *Conc) heldIn(e *Exec, v *Term) (*types.Var, *Term) {
	for v != nil {
		if v.Op == "load" && len(v.Args) == 1 && v.Args[0].Op == "fieldaddr" {
			if fr, ok := e.monitoredField(v.Args[0]); ok {
				return fr.Var(), objOf(v.Args[0])
			}
		}
		return nil, nil
	}
	return nil, nil
}

func (c *Conc) accesses(r *Root) []access {
	var out []access
	r.each(func(ev *Event) {
		switch ev.Kind {
		case "load", "store":
			if ev.Field != nil {
				out = append(out, access{ev.Field, objOf(ev.Recv), ev.Kind == "store", ev, r})
			}
			if ev.Kind == "store" && ev.Field == nil && ev.Recv.Op == "indexaddr" {
				root, _ := sliceRoot(ev.Recv.Args[0])
				if f, o := c.heldIn(r.E, root); f != nil {
					out = append(out, access{f, o, true, ev, r})
				}
			}
		case "mapset", "mapget", "mapnext", "mapend":
			if f, o := c.heldIn(r.E, ev.Recv); f != nil {
				out = append(out, access{f, o, ev.Kind == "mapset", ev, r})
			}
		}
	})
	return out
}

// locksOn lists the locks of the object held at an event
func locksOn(ev *Event, obj *Term, write bool) map[*types.Var]bool {
	r := map[*types.Var]bool{}
	for _, h := range ev.Held {
		if h.Addr.Op != "fieldaddr" || objOf(h.Addr) != obj {
			continue
		}
		if write && h.Read {
			continue
		}
		r[h.Addr.Ref.(FieldRef).Var()] = true
	}
	return r
}

// inferGuards: the locks held, exclusively, at every write of a field
func (c *Conc) inferGuards() map[*types.Var]map[*types.Var]bool {
	g := map[*types.Var]map[*types.Var]bool{}
	for _, r := range c.roots {
		for _, a := range c.accesses(r) {
			if !a.write || freshRoot(a.obj) {
				continue
			}
			ls := locksOn(a.ev, a.obj, true)
			if cur, ok := g[a.fld]; !ok {
				g[a.fld] = ls
			} else {
				for l := range cur {
					if !ls[l] {
						delete(cur, l)
					}
				}
			}
		}
	}
	// a field written under several locks is guarded by the ones every other access uses too
	for f, ls := range g {
		if len(ls) < 2 {
			continue
		}
		best := map[*types.Var]bool{}
		for l := range ls {
			best[l] = true
		}
		for _, r := range c.roots {
			for _, a := range c.accesses(r) {
				if a.fld != f || freshRoot(a.obj) {
					continue
				}
				h := locksOn(a.ev, a.obj, false)
				for l := range best {
					if !h[l] {
						delete(best, l)
					}
				}
			}
		}
		if len(best) > 0 {
			g[f] = best
		}
	}
	return g
}

func (c *Conc) root(name string) *Root {
	for _, r := range c.roots {
		if r.Name == name {
			return r
		}
	}
	return nil
}

func (c *Conc) rootFn(f *ssa.Function) *Root {
	for _, r := range c.roots {
		if r.Fn == f && r.Kind != "go" {
			return r
		}
	}
	return nil
}

// role names the channel of an event
func role(ev *Event) string {
	if ev.Name != "" {
		return ev.Name
	}
	if ev.Recv == nil {
		return ""
	}
	switch ev.Recv.Op {
	case "makechan":
		return stripSeq(ev.Recv.Aux)
	case "param":
		return "param:" + ev.Recv.Aux
	}
	return stripSeq(ev.Recv.String())
}

func (c *Conc) findRoles() {
	ro := &algoRoles{T: c.p.Type("core.Algo")}
	c.roles = ro
	if ro.T == nil {
		return
	}
	ro.st, _ = ro.T.Underlying().(*types.Struct)
	if ro.st == nil {
		return
	}
	only := func(key string) *types.Var {
		var f *types.Var
		for _, x := range flatFields(ro.st) {
			if typKey(x.Type()) == key {
				if f != nil {
					return nil
				}
				f = x
			}
		}
		return f
	}
	ro.status = only(modPath + "/core.OCStatus")
	ro.cent = only(modPath + "/core.Clust")
	ro.figures = only(modPath + "/core.RuntimeFigures")
	for _, r := range c.roots {
		if r.Kind != "go" {
			continue
		}
		iter := false
		r.each(func(ev *Event) {
			if ev.Kind == "invoke" && ev.Name == "Impl.Iterate" {
				iter = true
			}
		})
		if iter {
			ro.run = r
		}
	}
	if ro.run == nil {
		return
	}
	isStatus := func(t types.Type) bool {
		ch, ok := t.Underlying().(*types.Chan)
		return ok && typKey(ch.Elem()) == modPath+"/core.OCStatus"
	}
	ro.run.each(func(ev *Event) {
		switch ev.Kind {
		case "recv":
			if ev.Recv.Typ != nil && isStatus(ev.Recv.Typ) {
				ro.statusCh = role(ev)
			}
		case "send":
			if ev.Recv.Typ != nil && isStatus(ev.Recv.Typ) {
				ro.notifCh = role(ev)
			} else {
				ro.ackCh = role(ev)
			}
		}
	})
}

var concC *Conc

func (p *Prog) conc() *Conc {
	if concC == nil {
		concC = buildConc(p)
	}
	return concC
}

// ---- summaries of code reached through interfaces and function values ----

// summary of what a function may do, over an over-approximated call graph
type summary struct {
	locks   map[string]token.Pos // class of lock acquired
	blocks  map[string]token.Pos // channel operations that may wait
	notify  bool                 // may call the status notifier
	control bool
}

// chaCallees over-approximates the callees of a call
func (c *Conc) chaCallees(f *ssa.Function, call *ssa.CallCommon) []*ssa.Function {
	if g := call.StaticCallee(); g != nil {
		return []*ssa.Function{g}
	}
	if call.IsInvoke() {
		return c.implementers(call.Value.Type(), call.Method)
	}
	if _, ok := call.Value.(*ssa.Builtin); ok {
		return nil
	}
	return c.bySignature(call.Value.Type())
}

func (c *Conc) implementers(it types.Type, m *types.Func) []*ssa.Function {
	iface, ok := it.Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var r []*ssa.Function
	var names []string
	for k := range c.p.byPkg {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		if strings.HasPrefix(k, "internal") {
			continue
		}
		pk := c.p.byPkg[k]
		var ms []string
		for n := range pk.Members {
			ms = append(ms, n)
		}
		sort.Strings(ms)
		for _, n := range ms {
			t, ok := pk.Members[n].(*ssa.Type)
			if !ok || types.IsInterface(t.Type()) {
				continue
			}
			for _, tt := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
				if types.Implements(tt, iface) {
					if g := c.p.methodOf(tt, m); g != nil {
						r = append(r, unwrap(g))
					}
					break
				}
			}
		}
	}
	return r
}

func (c *Conc) bySignature(t types.Type) []*ssa.Function {
	sig, ok := t.Underlying().(*types.Signature)
	if !ok {
		return nil
	}
	var r []*ssa.Function
	for f := range c.escaping() {
		s := f.Signature
		if s.Recv() != nil {
			s = types.NewSignatureType(nil, nil, nil, s.Params(), s.Results(), s.Variadic())
		}
		if types.Identical(types.NewSignatureType(nil, nil, nil, s.Params(), s.Results(), s.Variadic()), types.NewSignatureType(nil, nil, nil, sig.Params(), sig.Results(), sig.Variadic())) {
			r = append(r, f)
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].String() < r[j].String() })
	return r
}

func isNotifierSig(t types.Type) bool {
	sig, ok := t.Underlying().(*types.Signature)
	if !ok || sig.Params().Len() != 2 {
		return false
	}
	return typKey(sig.Params().At(0).Type()) == modPath+"/core.OnlineClust" && typKey(sig.Params().At(1).Type()) == modPath+"/core.OCStatus"
}

func lockClassOfValue(v ssa.Value) string {
	if fa, ok := v.(*ssa.FieldAddr); ok {
		t := elemTypeOf(fa.X.Type())
		if s := structOf(t); s != nil {
			return typShort(t) + "." + s.Field(fa.Field).Name()
		}
	}
	return v.String()
}

func typShort(t types.Type) string {
	k := typKey(t)
	return k[strings.LastIndex(k, ".")+1:]
}

func (c *Conc) summaryOf(fns ...*ssa.Function) *summary {
	s := &summary{locks: map[string]token.Pos{}, blocks: map[string]token.Pos{}}
	type item struct {
		f  *ssa.Function
		tr string // parameters known to be true or false
	}
	seen := map[item]bool{}
	var work []item
	for _, f := range fns {
		work = append(work, item{f: f})
	}
	for len(work) > 0 {
		it := work[len(work)-1]
		f := it.f
		work = work[:len(work)-1]
		if f == nil || seen[it] {
			continue
		}
		seen[it] = true
		if !c.p.inModule(f) {
			continue
		}
		for _, b := range reachableBlocks(f, it.tr) {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Go:
					// the creator does not wait for it here
					continue
				case ssa.CallInstruction:
					com := x.Common()
					op := lockOp(com.StaticCallee())
					if op == "lock" || op == "rlock" {
						s.locks[lockClassOfValue(com.Args[0])] = x.Pos()
						continue
					}
					if com.StaticCallee() == nil && !com.IsInvoke() && isNotifierSig(com.Value.Type()) {
						s.notify = true
					}
					for _, g := range c.chaCallees(f, com) {
						work = append(work, item{g, knownArgs(g, com, f, it.tr)})
					}
					// functions handed over may be called
					for _, a := range com.Args {
						switch y := a.(type) {
						case *ssa.Function:
							work = append(work, item{f: unwrap(y)})
						case *ssa.MakeClosure:
							work = append(work, item{f: unwrap(y.Fn.(*ssa.Function))})
						}
					}
				case *ssa.Send:
					s.blocks[chanClass(x.Chan)] = x.Pos()
				case *ssa.UnOp:
					if x.Op == token.ARROW {
						s.blocks[chanClass(x.X)] = x.Pos()
					}
				case *ssa.Select:
					if x.Blocking {
						for _, ss := range x.States {
							s.blocks[chanClass(ss.Chan)] = x.Pos()
						}
					}
				}
			}
		}
	}
	return s
}

// boolOf gives the value of a condition, knowing some parameters: 't', 'f' or '?'
func boolOf(v ssa.Value, f *ssa.Function, tr string) byte {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.Bool {
			if constant.BoolVal(x.Value) {
				return 't'
			}
			return 'f'
		}
	case *ssa.Parameter:
		for i, p := range f.Params {
			if p == x && i < len(tr) {
				return tr[i]
			}
		}
	case *ssa.UnOp:
		if x.Op == token.NOT {
			switch boolOf(x.X, f, tr) {
			case 't':
				return 'f'
			case 'f':
				return 't'
			}
		}
	}
	return '?'
}

// knownArgs: the boolean arguments of a call that are known
func knownArgs(g *ssa.Function, com *ssa.CallCommon, f *ssa.Function, tr string) string {
	r := ""
	off := len(g.Params) - len(com.Args)
	if off < 0 || off > 1 {
		return ""
	}
	for i := range g.Params {
		if i < off {
			r += "?"
		} else {
			r += string(boolOf(com.Args[i-off], f, tr))
		}
	}
	return r
}

// reachableBlocks: the blocks of a function that known parameters do not exclude
func reachableBlocks(f *ssa.Function, tr string) []*ssa.BasicBlock {
	if !strings.ContainsAny(tr, "tf") || len(f.Blocks) == 0 {
		return f.Blocks
	}
	seen := map[*ssa.BasicBlock]bool{}
	var r []*ssa.BasicBlock
	var rec func(b *ssa.BasicBlock)
	rec = func(b *ssa.BasicBlock) {
		if b == nil || seen[b] {
			return
		}
		seen[b] = true
		r = append(r, b)
		if i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			switch boolOf(i.Cond, f, tr) {
			case 't':
				rec(b.Succs[0])
				return
			case 'f':
				rec(b.Succs[1])
				return
			}
		}
		for _, s := range b.Succs {
			rec(s)
		}
	}
	rec(f.Blocks[0])
	rec(f.Recover)
	return r
}

func chanClass(v ssa.Value) string {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		if fa, ok := u.X.(*ssa.FieldAddr); ok {
			return lockClassOfValue(fa)
		}
	}
	return "channel of " + v.Parent().String()
}

// calleesOf an event whose code was not analysed in place
func (c *Conc) eventCallees(ev *Event) []*ssa.Function {
	switch ev.Kind {
	case "invoke":
		i := strings.LastIndex(ev.Name, ".")
		it := c.p.Type("core." + ev.Name[:i])
		for _, pk := range []string{"core", "kmeans", "mcmc", "streaming", "dtw"} {
			if it == nil {
				it = c.p.Type(pk + "." + ev.Name[:i])
			}
		}
		if it == nil {
			return nil
		}
		iface, ok := it.Underlying().(*types.Interface)
		if !ok {
			return nil
		}
		for k := 0; k < iface.NumMethods(); k++ {
			if iface.Method(k).Name() == ev.Name[i+1:] {
				return c.implementers(it, iface.Method(k))
			}
		}
	case "dyncall":
		if ev.Recv != nil && ev.Recv.Typ != nil {
			return c.bySignature(ev.Recv.Typ)
		}
	case "extcall":
		for _, f := range c.p.ctrlFns() {
			if f.String() == ev.Name {
				return []*ssa.Function{f}
			}
		}
	}
	return nil
}

func evWhere(p *Prog, ev *Event) string { return p.pos(ev.Pos) }

func heldNames(hs []Held) string {
	var r []string
	for _, h := range hs {
		n := lockName(h.Addr)
		if h.Read {
			n += "(R)"
		}
		r = append(r, n)
	}
	return strings.Join(r, ",")
}

func fnName(ev *Event) string { return short(ev.Fn.String()) }

var _ = fmt.Sprint

// given is true for the objects that the code which started the go routine x shares with it
func (x *Root) given(obj *Term) bool {
	if x.Kind != "go" {
		return false
	}
	for _, l := range [][]*Term{x.Args, x.Free} {
		for _, t := range l {
			if t != nil && Contains(t, obj) {
				return true
			}
		}
	}
	return false
}

// hasMutex is true for the fields of types that carry a mutex of their own: their values are meant to be shared
func (c *Conc) hasMutex(f *types.Var) bool {
	for _, pkg := range c.p.pkgs {
		sc := pkg.Types.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok {
				continue
			}
			st, ok := tn.Type().Underlying().(*types.Struct)
			if !ok {
				continue
			}
			mine, mutex := false, false
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i) == f {
					mine = true
				}
				if s := st.Field(i).Type().String(); s == "sync.Mutex" || s == "sync.RWMutex" {
					mutex = true
				}
			}
			if mine {
				return mutex
			}
		}
	}
	return false
}
