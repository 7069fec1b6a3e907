package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rulesByID["C29"] = &Rule{run: ruleC29, assumptions: append(append([]string{}, seqAssumptions...),
		"gonum distributions draw from the source they are given, and from a global one when they are given none",
		"the number of processors of the machine is a parameter (the degree of parallelism), not a source of randomness"),
		explanation: "every function of the library is enumerated with its type-checked SSA form: calls of global or external sources of randomness, origin of every generator that is used, given or stored, sources of the distributions that are built, flow of clock readings, iterations over maps and selects; the constructors, initializations and iterations are interpreted abstractly and every generator they store or draw from is compared with the configured one"}
}

func ruleC29(r *Report) {
	r.need("global", 30)
	r.need("origin", 8)
	r.need("source", 3)
	r.need("default", 4)
	r.need("wired", 4)
	r.need("drawn", 4)
	r.need("clock", 5)
	fns := r.randFns()
	for _, fn := range fns {
		r.fn(fn)
		r.noGlobal(fn)
		r.origins(fn)
		r.sources(fn)
		r.clockUse(fn)
		r.mapOrder(fn)
		r.selects(fn)
	}
	r.madeGens(fns)
	r.wired()
	r.drawn()
}

// randFns are the functions of the library, closures included
func (r *Report) randFns() []*ssa.Function {
	var l []*ssa.Function
	seen := map[*ssa.Function]bool{}
	for _, fn := range r.p.allFns() {
		if !seen[fn] && r.p.lib(fn) && len(fn.Blocks) > 0 {
			seen[fn] = true
			l = append(l, fn)
		}
	}
	sort.Slice(l, func(i, j int) bool { return l[i].String() < l[j].String() })
	return l
}

func pkgPathOf(fn *ssa.Function) string {
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path()
	}
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	return ""
}

func isRandPkg(p string) bool {
	return p == "math/rand" || p == "math/rand/v2" || p == "golang.org/x/exp/rand"
}

// isGen: a generator or a source of random numbers
func isGen(t types.Type) bool {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil || !isRandPkg(n.Obj().Pkg().Path()) {
		return false
	}
	switch n.Obj().Name() {
	case "Rand", "Source", "Source64", "LockedSource", "PCGSource", "PCG", "ChaCha8":
		return true
	}
	return false
}

// external functions a value refers to
func refs(in ssa.Instruction) []*ssa.Function {
	var l []*ssa.Function
	for _, op := range in.Operands(nil) {
		if g, ok := (*op).(*ssa.Function); ok {
			l = append(l, g)
		}
	}
	return l
}

// noGlobal: no source of randomness other than a generator
func (r *Report) noGlobal(fn *ssa.Function) {
	bad := false
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			for _, g := range refs(in) {
				p, name := pkgPathOf(g), g.Name()
				why := ""
				switch {
				case isRandPkg(p) && g.Signature.Recv() == nil:
					if name != "New" && name != "NewSource" && name != "init" {
						why = "draws from the global generator"
					}
				case strings.HasPrefix(p, "crypto/") || p == "hash/maphash" || p == "os" || p == "syscall" || strings.HasPrefix(p, "net"):
					why = "is a source of randomness that is not the generator"
				case p == "runtime" && name != "NumCPU" && name != "GOMAXPROCS" && name != "Gosched" && name != "KeepAlive" && name != "GC":
					why = "depends on the execution"
				}
				if why != "" && name != "init" {
					bad = true
					r.bad("global", fnName2(fn)+"/"+short(g.String()), r.p.pos(posOf(in, fn)), short(g.String())+" "+why)
				}
			}
		}
	}
	if !bad {
		r.ok("global", fnName2(fn))
	}
}

func fnName2(fn *ssa.Function) string { return short(fn.String()) }

func posOf(in ssa.Instruction, fn *ssa.Function) token.Pos {
	if in.Pos().IsValid() {
		return in.Pos()
	}
	return fn.Pos()
}

// ---- origin of the generators ----

// genOrigin follows a generator back to where the function gets it: what is wrong with it, if anything
func (r *Report) genOrigin(v ssa.Value, seen map[ssa.Value]bool) string {
	if seen[v] {
		return ""
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Parameter, *ssa.FreeVar, *ssa.Field:
		return ""
	case *ssa.Const:
		if x.IsNil() {
			return "no generator"
		}
	case *ssa.MakeInterface:
		return r.genOrigin(x.X, seen)
	case *ssa.ChangeInterface:
		return r.genOrigin(x.X, seen)
	case *ssa.ChangeType:
		return r.genOrigin(x.X, seen)
	case *ssa.TypeAssert:
		return r.genOrigin(x.X, seen)
	case *ssa.Extract:
		return r.genOrigin(x.Tuple, seen)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if w := r.genOrigin(e, seen); w != "" {
				return w
			}
		}
		return ""
	case *ssa.UnOp:
		if x.Op == token.MUL {
			switch a := x.X.(type) {
			case *ssa.FieldAddr, *ssa.FreeVar, *ssa.Parameter:
				return ""
			case *ssa.Alloc:
				for _, ref := range *a.Referrers() {
					if st, ok := ref.(*ssa.Store); ok && st.Addr == a {
						if w := r.genOrigin(st.Val, seen); w != "" && w != "no generator" {
							return w
						}
					}
				}
				return ""
			case *ssa.Global:
				return "a global generator"
			}
		}
	case *ssa.Call:
		if g := x.Call.StaticCallee(); g != nil {
			if isRandPkg(pkgPathOf(g)) && (g.Name() == "New" || g.Name() == "NewSource") {
				return "" // checked by the rule on default generators
			}
			if r.p.lib(g) {
				return "" // its results are checked there
			}
		}
	}
	return "a generator of unknown origin"
}

// origins checks every generator that is used, given, stored or returned
func (r *Report) origins(fn *ssa.Function) {
	use := func(v ssa.Value, in ssa.Instruction, what string) {
		if !isGen(v.Type()) {
			return
		}
		w := r.genOrigin(v, map[ssa.Value]bool{})
		if _, ok := v.(*ssa.MakeInterface); !ok && !isGen(v.Type()) {
			return
		}
		r.check(w == "", "origin", fnName2(fn)+"/"+what, r.p.pos(posOf(in, fn)), w+" is "+what)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case ssa.CallInstruction:
				if g := x.Common().StaticCallee(); g != nil && g.Name() == "NewSource" || ignoresGen(x) {
					continue
				}
				for _, a := range x.Common().Args {
					use(a, in, "given to a call")
				}
			case *ssa.Store:
				if al, ok := x.Addr.(*ssa.Alloc); ok && !al.Heap {
					continue
				}
				use(x.Val, in, "stored")
			case *ssa.Return:
				for _, a := range x.Results {
					use(a, in, "returned")
				}
			}
		}
	}
}

// ignoresGen: the function called has no use for its generator
func ignoresGen(c ssa.CallInstruction) bool {
	g := c.Common().StaticCallee()
	if g == nil || len(g.Blocks) == 0 {
		return false
	}
	for _, p := range g.Params {
		if isGen(p.Type()) && len(*p.Referrers()) > 0 {
			return false
		}
	}
	return true
}

// sources: every distribution that is built has a source
func (r *Report) sources(fn *ssa.Function) {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			fa, isF := in.(*ssa.FieldAddr)
			if isF {
				// a field that holds a distribution, when it is filled field by field
				if !sourced(elemTypeOf(fa.Type())) {
					continue
				}
				part := false
				for _, ref := range *fa.Referrers() {
					if f2, ok := ref.(*ssa.FieldAddr); ok && written(f2) {
						part = true
					}
				}
				if part {
					r.hasSource(fn, fa, fa.Referrers(), posOf(in, fn))
				}
				continue
			}
			al, ok := in.(*ssa.Alloc)
			if !ok || !sourced(elemTypeOf(al.Type())) {
				continue
			}
			whole := false
			for _, ref := range *al.Referrers() {
				if st, ok := ref.(*ssa.Store); ok && st.Addr == al {
					_, zero := st.Val.(*ssa.Const)
					whole = whole || !zero
				}
			}
			if !whole {
				r.hasSource(fn, al, al.Referrers(), al.Pos())
			}
		}
	}
}

// sourced: an external structure with an exported source of randomness
func sourced(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil || strings.HasPrefix(n.Obj().Pkg().Path(), modPath) || isRandPkg(n.Obj().Pkg().Path()) {
		return false
	}
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Exported() && isGen(st.Field(i).Type()) {
			return true
		}
	}
	return false
}

func written(a ssa.Value) bool {
	for _, ref := range *a.Referrers() {
		if st, ok := ref.(*ssa.Store); ok && st.Addr == a {
			return true
		}
	}
	return false
}

func (r *Report) hasSource(fn *ssa.Function, v ssa.Value, refs *[]ssa.Instruction, pos token.Pos) {
	st := structOf(elemTypeOf(v.Type()))
	ok := false
	for _, ref := range *refs {
		if fa, is := ref.(*ssa.FieldAddr); is && isGen(st.Field(fa.Field).Type()) && written(fa) {
			ok = true
		}
	}
	ok = ok || r.givenLater(v, refs)
	r.check(ok, "source", fnName2(fn)+"/"+typKey(elemTypeOf(v.Type())), r.p.pos(pos), "a distribution is built without source: it draws from a global generator")
}

// givenLater: the distribution is only copied to places where it is given a source
func (r *Report) givenLater(v ssa.Value, refs *[]ssa.Instruction) bool {
	n := 0
	for _, ref := range *refs {
		ld, ok := ref.(*ssa.UnOp)
		if !ok || ld.Op != token.MUL {
			continue
		}
		for _, use := range *ld.Referrers() {
			if _, dbg := use.(*ssa.DebugRef); dbg {
				continue
			}
			st, ok := use.(*ssa.Store)
			if !ok || st.Val != ld || st.Addr.Referrers() == nil {
				return false
			}
			t := structOf(elemTypeOf(v.Type()))
			src := false
			for _, x := range *st.Addr.Referrers() {
				if fa, is := x.(*ssa.FieldAddr); is && isGen(t.Field(fa.Field).Type()) && written(fa) {
					src = true
				}
			}
			if !src {
				return false
			}
			n++
		}
	}
	return n > 0
}

// ---- default generators ----

// madeGens: a generator is only made when none is configured, and then becomes the configured one
func (r *Report) madeGens(fns []*ssa.Function) {
	var todo []*ssa.Function
	queued := map[*ssa.Function]bool{}
	add := func(fn *ssa.Function) {
		if !queued[fn] {
			queued[fn] = true
			todo = append(todo, fn)
		}
	}
	callers := func(g *ssa.Function) (l []*ssa.Function) {
		for _, fn := range fns {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					for _, x := range refs(in) {
						if x == g {
							l = append(l, fn)
						}
					}
				}
			}
		}
		return
	}
	for _, fn := range fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, g := range refs(in) {
					if isRandPkg(pkgPathOf(g)) && g.Signature.Recv() == nil && g.Name() == "New" {
						add(fn)
					}
				}
			}
		}
	}
	for len(todo) > 0 {
		fn := todo[0]
		todo = todo[1:]
		if o := fn.Object(); o != nil && !o.Exported() && returnsGen(fn) {
			// judged where it is called
			l := callers(fn)
			for _, g := range l {
				add(g)
			}
			if len(l) > 0 {
				continue
			}
		}
		s := r.symFn(fnName2(fn), fn, Options{}, nil)
		n := 0
		for _, pa := range s.returns() {
			tr := trail(r.p, pa.St, 20)
			for i, ev := range pa.St.trace.Events() {
				if ev.Kind != "extcall" || !strings.HasSuffix(ev.Name, "rand.New") {
					continue
				}
				n++
				g := resultOf(ev, 0)
				if ev.Res != nil && ev.Res.Op != "tuple" {
					g = ev.Res
				}
				var to *Event
				many := false
				for _, e := range pa.St.trace.Events()[i:] {
					if e.Kind == "store" && unface(e.Args[0]) == g && e.Recv.Op == "fieldaddr" {
						many = many || to != nil
						to = e
					}
				}
				ok := to != nil && !many && genMissing(ev.Facts, to.Recv)
				r.check(ok, "default", fnName2(fn), r.p.pos(ev.Pos), "a generator is made although one may be configured, or does not become the configured one", tr...)
			}
		}
		r.check(n > 0, "default", fnName2(fn)+"/reached", r.p.pos(fn.Pos()), "the generator that is made is not followed")
		// and a configured generator is kept
		for _, pa := range s.returns() {
			for _, ev := range pa.St.trace.Events() {
				if ev.Kind == "store" && ev.Recv.Op == "fieldaddr" && isGen(elemTypeOf(ev.Recv.Typ)) {
					v := unface(ev.Args[0])
					made := false
					for _, e := range eventsOf(pa.St, "extcall", "") {
						made = made || strings.HasSuffix(e.Name, "rand.New") && (e.Res == v || resultOf(e, 0) == v)
					}
					if !made {
						r.check(isGen(v.Typ) && v != Nil, "default", fnName2(fn)+"/kept", r.p.pos(ev.Pos), "a configured generator is replaced", trail(r.p, pa.St, 20)...)
					}
				}
			}
		}
	}
}

func returnsGen(fn *ssa.Function) bool {
	rs := fn.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		if isGen(rs.At(i).Type()) {
			return true
		}
	}
	return false
}

// genMissing: the facts say that there is no generator in a field
func genMissing(f *Facts, addr *Term) bool {
	ref, ok := addr.Ref.(FieldRef)
	if !ok {
		return false
	}
	for _, l := range f.all() {
		for i, x := range l.Args {
			if len(l.Args) != 2 || l.Args[1-i] != Nil || !f.Entails(Eq(x, Nil)) {
				continue
			}
			if x.Op == "load" {
				x = x.Args[0]
			}
			switch q := x.Ref.(type) {
			case FieldRef:
				if x == addr || q.Var() == ref.Var() {
					return true
				}
			case *types.Var:
				if x.Op == "field" && q.Name() == ref.Name() {
					return true
				}
			}
		}
	}
	return false
}

// ---- generators that are stored and drawn from ----

// gensOf gives the generators that events carry
func gensOf(evs []*Event, kinds ...string) map[*Term]*Event {
	out := map[*Term]*Event{}
	for _, ev := range evs {
		ok := false
		for _, k := range kinds {
			ok = ok || ev.Kind == k
		}
		if !ok || ev.Kind == "extcall" && (strings.HasSuffix(ev.Name, "rand.New") || strings.HasSuffix(ev.Name, "rand.NewSource")) {
			continue
		}
		var visit func(t *Term)
		visit = func(t *Term) {
			t = unface(t)
			if t.Typ != nil && isGen(t.Typ) {
				out[t] = ev
				return
			}
			if t.Op == "struct" {
				for i, a := range t.Args {
					if st := structOf(t.Typ); st != nil && (isGen(st.Field(i).Type()) || isStructType(st.Field(i).Type())) {
						if a == Nil || a == zeroOf(st.Field(i).Type()) && isGen(st.Field(i).Type()) {
							if ev.Kind == "draw" {
								out[Nil] = ev
							}
							continue
						}
						visit(a)
					}
				}
			}
		}
		for _, a := range ev.Args {
			visit(a)
		}
		if ev.Recv != nil && ev.Kind != "store" {
			visit(ev.Recv)
		}
	}
	return out
}

// wired: everything that is built has the configured generator, or the one made because there was none
func (r *Report) wired() {
	for _, name := range []string{"kmeans.NewAlgo", "mcmc.NewAlgo", "streaming.NewAlgo", "mcmc.NewSeqImpl", "mcmc.NewParImpl", "streaming.NewImpl", "mcmc.NewMultivT"} {
		s := r.sym(name, Options{Opaque: r.p.opaque("core.NewAlgo", "core.NewDataBuffer")})
		if s == nil {
			continue
		}
		var given *Term
		for _, a := range s.a {
			if g := fieldNamed(a, "RGen"); g.Op != "missing" {
				given = g
			}
		}
		if given == nil {
			r.bad("anchor", name, s.pos(), "the configured generator is not found")
			continue
		}
		for _, pa := range s.returns() {
			f, tr := pa.St.facts, trail(r.p, pa.St, 20)
			none := f.Entails(Eq(given, Nil))
			var made []*Term
			for _, ev := range eventsOf(pa.St, "extcall", "") {
				if strings.HasSuffix(ev.Name, "rand.New") {
					made = append(made, ev.Res)
				}
			}
			r.check(len(made) <= 1, "wired", name+"/made", s.pos(), "several generators are made", tr...)
			gens := gensOf(pa.St.trace.Events(), "store", "extcall", "dyncall", "invoke", "draw")
			for g, ev := range gens {
				ok := g == given || none && len(made) > 0 && g == made[0]
				r.check(ok, "wired", name, r.p.pos(ev.Pos), "a generator is not the configured one: "+clip(g.String(), 80), tr...)
			}
			if len(gens) == 0 && name != "kmeans.NewAlgo" {
				r.bad("wired", name+"/none", s.pos(), "no generator is given to what is built", tr...)
			}
		}
	}
}

// drawn: initializations and iterations draw from the generator of their configuration, or from those given to what they use
func (r *Report) drawn() {
	var fns []*ssa.Function
	for _, t := range r.p.implementing("core.Impl") {
		for _, fn := range r.p.methods(t, true) {
			if n := fn.Name(); n == "Init" || n == "Iterate" || n == "Push" {
				fns = append(fns, fn)
			}
		}
	}
	for _, in := range []string{"mcmc.Strategy", "kmeans.Strategy"} {
		for _, t := range r.p.implementing(in) {
			for _, fn := range r.p.methods(t, true) {
				fns = append(fns, fn)
			}
		}
	}
	for _, fn := range fns {
		if !r.p.lib(fn) || len(fn.Blocks) == 0 {
			continue
		}
		s := r.symFn(fnName2(fn), fn, Options{}, nil)
		seen := map[*Event]bool{}
		for _, pa := range s.paths {
			made := map[*Term]bool{Nil: true}
			for _, ev := range eventsOf(pa.St, "extcall", "") {
				if strings.HasSuffix(ev.Name, "rand.New") {
					made[ev.Res] = true
				}
			}
			for g, ev := range gensOf(pa.St.trace.Events(), "draw", "dyncall", "invoke", "extcall") {
				if !seen[ev] {
					seen[ev] = true
					r.check(!made[g], "drawn", fnName2(fn), r.p.pos(ev.Pos), "a number is drawn from a generator that is not the configured one", trail(r.p, pa.St, 20)...)
				}
			}
		}
		if len(seen) == 0 {
			r.ok("drawn", fnName2(fn)+"/none")
		}
	}
}

// ---- clock, maps and selects ----

// clockUse: readings of the clock only reach comparisons, waits, figures, dates and the seeds of default generators
func (r *Report) clockUse(fn *ssa.Function) {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			g := c.Call.StaticCallee()
			if g == nil {
				continue
			}
			p := pkgPathOf(g)
			now := p == "time" && g.Signature.Recv() == nil && (g.Name() == "Now" || g.Name() == "Since" || g.Name() == "Until")
			cpu := p == "runtime" && (g.Name() == "NumCPU" || g.Name() == "GOMAXPROCS")
			if !now && !cpu {
				continue
			}
			f := &clockFlow{r: r, seen: map[ssa.Value]bool{}, cpu: cpu}
			f.follow(c)
			what := "a reading of the clock"
			if cpu {
				what = "the number of processors"
			}
			r.check(f.why == "", "clock", fnName2(fn)+"/"+g.Name(), r.p.pos(posOf(in, fn)), what+" enters a computed value: "+f.why)
		}
	}
}

type clockFlow struct {
	r    *Report
	seen map[ssa.Value]bool
	cpu  bool
	why  string
}

func (f *clockFlow) fail(in ssa.Instruction, what string) {
	if f.why == "" {
		f.why = what + " (" + f.r.p.pos(posOf(in, in.Parent())) + ")"
	}
}

func (f *clockFlow) follow(v ssa.Value) {
	if f.seen[v] || v.Referrers() == nil {
		return
	}
	f.seen[v] = true
	for _, ref := range *v.Referrers() {
		switch x := ref.(type) {
		case *ssa.DebugRef, *ssa.If, *ssa.RunDefers:
		case *ssa.BinOp:
			switch x.Op {
			case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
				if f.cpu {
					f.fail(ref, "it decides")
				} else if p := f.r.pkgOf(ref); p != "core" {
					f.fail(ref, "it decides in a computation")
				}
			default:
				f.follow(x)
			}
		case *ssa.Convert, *ssa.ChangeType, *ssa.Phi, *ssa.UnOp, *ssa.Extract, *ssa.MakeInterface, *ssa.Field:
			f.follow(ref.(ssa.Value))
		case *ssa.MapUpdate:
			if !strings.HasSuffix(typKey(x.Map.Type()), "core.RuntimeFigures") || f.cpu {
				f.fail(ref, "stored in a map")
			}
		case *ssa.Return:
			f.result(x, v)
		case *ssa.Store:
			if x.Val == v {
				f.store(x)
			}
		case ssa.CallInstruction:
			f.call(x, v)
		case *ssa.MakeClosure:
			g := x.Fn.(*ssa.Function)
			for i, b := range x.Bindings {
				if b == v {
					f.follow(g.FreeVars[i])
				}
			}
		case *ssa.FieldAddr:
			f.follow(x)
		default:
			f.fail(ref, "used")
		}
	}
}

func (r *Report) pkgOf(in ssa.Instruction) string {
	if p := in.Parent().Pkg; p != nil {
		return p.Pkg.Name()
	}
	if o := in.Parent().Origin(); o != nil && o.Pkg != nil {
		return o.Pkg.Pkg.Name()
	}
	return ""
}

func (f *clockFlow) store(x *ssa.Store) {
	switch a := x.Addr.(type) {
	case *ssa.Alloc:
		f.follow(a)
	case *ssa.FreeVar:
		f.follow(a)
	case *ssa.FieldAddr:
		b, isB := x.Val.Type().Underlying().(*types.Basic)
		switch {
		case f.cpu && isB && b.Info()&types.IsInteger != 0: // a degree of parallelism
		case !f.cpu && f.r.pkgOf(x) == "core" && !isGen(x.Val.Type()): // a date
			if isB && b.Info()&types.IsFloat != 0 {
				f.fail(x, "stored as a number")
			}
		default:
			f.fail(x, "stored")
		}
	default:
		f.fail(x, "stored")
	}
}

func (f *clockFlow) call(x ssa.CallInstruction, v ssa.Value) {
	c := x.Common()
	if c.IsInvoke() {
		if c.Value != v || typKey(c.Value.Type()) != "context.Context" {
			f.fail(x, "given to an unknown function")
		}
		return
	}
	if bi, ok := c.Value.(*ssa.Builtin); ok {
		if val, is := x.(ssa.Value); is && (bi.Name() == "min" || bi.Name() == "max") {
			f.follow(val)
			return
		}
		f.fail(x, "given to "+bi.Name())
		return
	}
	g := c.StaticCallee()
	if g == nil {
		f.fail(x, "given to an unknown function")
		return
	}
	p := pkgPathOf(g)
	switch {
	case p == "time":
		if val, ok := x.(ssa.Value); ok {
			f.follow(val)
		}
	case isRandPkg(p) && g.Name() == "NewSource" && !f.cpu: // the seed of a default generator
	case f.r.p.lib(g) && len(g.Blocks) > 0:
		for i, a := range c.Args {
			if a != v || i >= len(g.Params) {
				continue
			}
			if f.cpu {
				// a degree of parallelism
				if b, ok := g.Params[i].Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
					f.fail(x, "given to "+short(g.String()))
				}
				continue
			}
			f.follow(g.Params[i])
		}
	case p == "math" && !f.cpu && f.r.pkgOf(x) == "core":
		if val, ok := x.(ssa.Value); ok {
			f.follow(val)
		}
	case p == "fmt" && !f.cpu && f.r.pkgOf(x) == "core":
	default:
		f.fail(x, "given to "+short(g.String()))
	}
}

// result: what a function returns reaches its callers
func (f *clockFlow) result(x *ssa.Return, v ssa.Value) {
	fn := x.Parent()
	for _, g := range f.r.randFns() {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok || c.Call.StaticCallee() != fn {
					continue
				}
				if len(x.Results) == 1 {
					f.follow(c)
					continue
				}
				for _, ref := range *c.Referrers() {
					if e, ok := ref.(*ssa.Extract); ok && e.Index < len(x.Results) && x.Results[e.Index] == v {
						f.follow(e)
					}
				}
			}
		}
	}
}

// mapOrder: iterations over maps do not depend on the order
func (r *Report) mapOrder(fn *ssa.Function) {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			rg, ok := in.(*ssa.Range)
			if !ok {
				continue
			}
			if _, isMap := rg.X.Type().Underlying().(*types.Map); !isMap {
				continue
			}
			why := r.ordered(rg)
			r.check(why == "", "order", fnName2(fn)+"/map", r.p.pos(posOf(in, fn)), "an iteration over a map depends on its order: "+why)
		}
	}
}

// ordered tells why an iteration over a map depends on the order, if it may
func (r *Report) ordered(rg *ssa.Range) string {
	fn := rg.Parent()
	var next *ssa.Next
	for _, ref := range *rg.Referrers() {
		if n, ok := ref.(*ssa.Next); ok {
			next = n
		}
	}
	if next == nil {
		return ""
	}
	body := r.p.loops(fn)[next.Block()]
	key := func(v ssa.Value) bool {
		e, ok := v.(*ssa.Extract)
		return ok && e.Tuple == next && e.Index == 1
	}
	for _, b := range fn.Blocks {
		if !body[b] {
			continue
		}
		for _, in := range b.Instrs {
			if why := r.orderedBy(in, key, body, 0); why != "" {
				return why
			}
			switch x := in.(type) {
			case *ssa.Return:
				return "an effect in the loop"
			case *ssa.Phi:
				// a value carried from an iteration to the next: a count of integers only
				if b != next.Block() {
					continue
				}
				if bt, ok := x.Type().Underlying().(*types.Basic); !ok || bt.Info()&types.IsInteger == 0 {
					return "a value is carried between the iterations"
				}
				for i, e := range x.Edges {
					if body[b.Preds[i]] {
						if op, ok := e.(*ssa.BinOp); !(e == x || ok && op.Op == token.ADD && (op.X == x || op.Y == x)) {
							return "a value is carried between the iterations"
						}
					}
				}
			}
		}
		for i, s := range b.Succs {
			if c, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
				if v, ok := c.Cond.(*ssa.Const); ok && constant.BoolVal(v.Value) == (i == 1) {
					continue // never taken
				}
			}
			if !body[s] && b != next.Block() {
				return "the loop is left early"
			}
		}
	}
	return ""
}

// orderedBy tells why an instruction has an effect that depends on the order of the keys, if it may
func (r *Report) orderedBy(in ssa.Instruction, key func(v ssa.Value) bool, body map[*ssa.BasicBlock]bool, depth int) string {
	switch x := in.(type) {
	case *ssa.MapUpdate:
		if !key(x.Key) {
			return "a map is updated at another key"
		}
	case *ssa.Store:
		a := x.Addr
		for {
			if fa, ok := a.(*ssa.FieldAddr); ok {
				a = fa.X
			} else if ia, ok := a.(*ssa.IndexAddr); ok {
				a = ia.X
			} else {
				break
			}
		}
		if al, ok := a.(*ssa.Alloc); !ok || !body[al.Block()] {
			return "an effect in the loop"
		}
	case *ssa.UnOp:
		if x.Op == token.ARROW {
			return "an effect in the loop"
		}
	case *ssa.Send, *ssa.Go, *ssa.Defer, *ssa.Select:
		return "an effect in the loop"
	case *ssa.Call:
		if bi, ok := x.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "len" || bi.Name() == "delete" && key(x.Call.Args[1])) {
			return ""
		}
		g := x.Call.StaticCallee()
		if g == nil || !r.p.inModule(g) || len(g.Blocks) == 0 || depth > 3 || len(g.FreeVars) > 0 {
			return "a call in the loop"
		}
		// a function that does no more than the loop may
		inner := func(v ssa.Value) bool {
			for i, p := range g.Params {
				if v == p && i < len(x.Call.Args) {
					return key(x.Call.Args[i])
				}
			}
			return false
		}
		all := map[*ssa.BasicBlock]bool{}
		for _, b := range g.Blocks {
			all[b] = true
		}
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if _, ok := in.(*ssa.Panic); ok {
					return "a call in the loop"
				}
				if why := r.orderedBy(in, inner, all, depth+1); why != "" {
					return why
				}
			}
		}
	}
	return ""
}

// selects: no computation takes one of several values that are ready
func (r *Report) selects(fn *ssa.Function) {
	if fn.Pkg != nil && fn.Pkg.Pkg.Name() == "core" || fn.Parent() != nil && fn.Parent().Pkg != nil && fn.Parent().Pkg.Pkg.Name() == "core" {
		return // control: the properties of the runs
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Select); ok {
				r.check(len(s.States) <= 1, "order", fnName2(fn)+"/select", r.p.pos(posOf(in, fn)), "a value is chosen among those that are ready")
			}
		}
	}
}
