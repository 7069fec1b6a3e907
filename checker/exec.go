package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strconv"

	"golang.org/x/tools/go/ssa"
)

// Options of an analysis.
type Options struct {
	MayPanic    func(ev *Event) bool // calls that may panic
	Stable      map[string]bool      // monitored fields that only the analysed routine writes
	SharedAlloc bool                 // objects allocated here are shared too
	Opaque      map[string]bool      // functions kept as uninterpreted calls (by full name)
	RecvFacts   func(st *State, role string, v *Term) []*Term
	LoadFacts   func(addr, v *Term) []*Term
	Cands       func(st *State, inst *LoopInst) []*Term
	CallFacts   func(e *Exec, st *State, ev *Event) []*Term // what is known of the result of a call that is not followed
	MaxStates   int
	LiveModel   bool // successive reads of an unknown model may differ
	NoPar       bool // analyse the body of core.Par instead of its contract
	Hook        func(e *Exec, st *State, ev *Event)
}

// Path is one complete partition of a root.
type Path struct {
	Kind  string // return, panic, stuck
	Res   []*Term
	St    *State
	Why   string
	Panic *Term
}

// Exec is an analysis of one root.
type Exec struct {
	P          *Prog
	mon        map[string]bool
	mutable    map[*types.Var]bool
	guards     map[*types.Var]map[*types.Var]bool
	errGlobals map[*ssa.Global]bool
	opts       Options
	paths      []*Path
	dry        int
	states     int
	spawned    []*Event
	undecided  []string
	insts      []*LoopInst
}

func (e *Exec) give(st *State, why string) {
	if e.dry == 0 {
		e.paths = append(e.paths, &Path{Kind: "stuck", St: st, Why: why})
	}
	e.undecided = append(e.undecided, why)
}

// Run analyses fn with the given arguments.
func (e *Exec) Run(fn *ssa.Function, args []*Term, free []*Term, init func(*State)) []*Path {
	st := &State{cells: map[*Term]*Term{}, regs: map[*Term][]layer{}, maps: map[*Term][]mlayer{}}
	if init != nil {
		init(st)
	}
	e.pushFrame(st, fn, args, free, nil)
	e.explore(st)
	return e.paths
}

// RunFrom continues with a prepared state.
func (e *Exec) RunFrom(st *State, fn *ssa.Function, args, free []*Term) []*Path {
	e.pushFrame(st, fn, args, free, nil)
	e.explore(st)
	return e.paths
}

func (e *Exec) explore(st *State) []*State {
	var captured []*State
	work := []*State{st}
	for len(work) > 0 {
		s := work[len(work)-1]
		work = work[:len(work)-1]
		e.states++
		max := e.opts.MaxStates
		if max == 0 {
			max = 400000
		}
		if e.states > max {
			e.give(s, "too many states")
			return captured
		}
		outs := e.advance(s)
		for _, o := range outs {
			if o.cap != "" {
				captured = append(captured, o)
			} else {
				work = append(work, o)
			}
		}
	}
	return captured
}

func (e *Exec) pushFrame(st *State, fn *ssa.Function, args, free []*Term, instr ssa.Instruction) *Frame {
	f := &Frame{fn: fn, env: map[ssa.Value]*Term{}, instr: instr, free: free}
	for i, p := range fn.Params {
		if i < len(args) {
			f.env[p] = args[i]
		}
	}
	for i, fv := range fn.FreeVars {
		if i < len(free) {
			f.env[fv] = free[i]
		} else {
			f.env[fv] = U.mk("param", "free:"+fn.String()+"."+fv.Name(), nil, fv.Type())
		}
	}
	f.block = fn.Blocks[0]
	st.frames = append(st.frames, f)
	return f
}

func (e *Exec) val(st *State, v ssa.Value) *Term {
	switch x := v.(type) {
	case *ssa.Const:
		return constTerm(x)
	case *ssa.Global:
		return U.mk("global", x.String(), x, x.Type())
	case *ssa.Function:
		return U.mk("fn", x.String(), x, x.Type())
	case *ssa.Builtin:
		return U.mk("builtin", x.Name(), x, x.Type())
	}
	t, ok := st.top().env[v]
	if !ok {
		return U.mk("undef", fmt.Sprintf("%s.%s", v.Parent(), v.Name()), nil, v.Type())
	}
	return t
}

func fork(st *State, lit *Term) []*State {
	var r []*State
	if f, ok := st.facts.Assume(lit); ok {
		n := st.clone()
		n.facts = f
		r = append(r, n)
	}
	if f, ok := st.facts.Assume(Not(lit)); ok {
		n := st.clone()
		n.facts = f
		r = append(r, n)
	}
	return r
}

// advance runs until a fork, a capture or the end of the path
func (e *Exec) advance(st *State) []*State {
	if st.pend != nil {
		p := st.pend
		st.pend = nil
		if outs, stop := e.jump(st, p.from, p.to); stop {
			return outs
		}
	}
	for {
		if outs, stop := e.checkLoopDepth(st); stop {
			return outs
		}
		if st.unw {
			st.unw = false
			if outs, stop := e.unwind(st); stop {
				return outs
			}
			continue
		}
		f := st.top()
		if f.pc >= len(f.block.Instrs) {
			e.give(st, "fell off block")
			return nil
		}
		in := f.block.Instrs[f.pc]
		outs, stop := e.step(st, f, in)
		if stop {
			return outs
		}
	}
}

// checkLoopDepth: unwinding may have left loops
func (e *Exec) checkLoopDepth(st *State) ([]*State, bool) {
	if n := len(st.loops); n > 0 && st.loops[n-1].depth >= len(st.frames) {
		st.loops = st.loops[:n-1]
		st.cap = "exit"
		return []*State{st}, true
	}
	return nil, false
}

func (e *Exec) jump(st *State, from, to *ssa.BasicBlock) ([]*State, bool) {
	f := st.top()
	if n := len(st.loops); n > 0 && st.loops[n-1].depth == len(st.frames)-1 {
		lc := st.loops[n-1]
		if to == lc.inst.Header {
			// back edge: compute next phi values
			lc.inst.collectBack(e, st, from)
			st.cap = "back"
			return []*State{st}, true
		}
		if !lc.inst.Body[to] {
			st.loops = st.loops[:n-1]
			st.pend = &pendJump{from, to}
			st.cap = "exit"
			return []*State{st}, true
		}
	}
	li := e.P.loops(f.fn)
	if body, ok := li[to]; ok {
		if f.unroll[to] && body[from] {
			// concrete unrolling in progress
		} else {
			if f.unroll != nil {
				delete(f.unroll, to)
			}
			return e.enterLoop(st, from, to, body), true
		}
	}
	e.phis(st, f, from, to)
	f.prev, f.block = from, to
	f.pc = firstNonPhi(to)
	return nil, false
}

func firstNonPhi(b *ssa.BasicBlock) int {
	for i, in := range b.Instrs {
		if _, ok := in.(*ssa.Phi); !ok {
			return i
		}
	}
	return len(b.Instrs)
}

func predIndex(from, to *ssa.BasicBlock) int {
	for i, p := range to.Preds {
		if p == from {
			return i
		}
	}
	return 0
}

func (e *Exec) phis(st *State, f *Frame, from, to *ssa.BasicBlock) {
	idx := predIndex(from, to)
	var vals []*Term
	var ps []*ssa.Phi
	for _, in := range to.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		ps = append(ps, p)
		vals = append(vals, e.val(st, p.Edges[idx]))
	}
	for i, p := range ps {
		f.env[p] = vals[i]
	}
}

func (e *Exec) step(st *State, f *Frame, in ssa.Instruction) ([]*State, bool) {
	set := func(v ssa.Value, t *Term) { f.env[v] = t }
	switch x := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		set(x, U.mk("alloc", fmt.Sprintf("%s.%s#%d", x.Parent(), x.Name(), st.fresh()), x, x.Type()))
	case *ssa.BinOp:
		a, b := e.val(st, x.X), e.val(st, x.Y)
		set(x, e.binop(st, x.Op, a, b, x.X.Type(), x.Type()))
		if (x.Op == token.QUO || x.Op == token.REM) && isIntType(x.X.Type()) {
			if st.facts.Entails(Le(Num(0), a)) && st.facts.Entails(Le(Num(1), b)) {
				q := mkIDiv(a, b)
				r := Sub(a, Mul(b, q))
				st.facts = st.facts.Add(Le(Num(0), r)).Add(Lt(r, b)).Add(Le(Num(0), q))
			}
		}
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			v, split := e.load(st, e.val(st, x.X), x.Type())
			if split != nil {
				return fork(st, split), true
			}
			addr := e.val(st, x.X)
			set(x, v)
			e.noteLoad(st, x, addr, v)
		case token.NOT:
			set(x, Not(e.val(st, x.X)))
		case token.SUB:
			set(x, Neg(e.val(st, x.X)))
		case token.ARROW:
			return e.recv(st, f, x)
		default:
			set(x, U.mk("unop", x.Op.String(), nil, x.Type(), e.val(st, x.X)))
		}
	case *ssa.ChangeInterface:
		set(x, e.val(st, x.X))
	case *ssa.ChangeType:
		set(x, e.val(st, x.X))
	case *ssa.Convert:
		set(x, e.convert(e.val(st, x.X), x.X.Type(), x.Type()))
	case *ssa.MakeInterface:
		v := e.val(st, x.X)
		set(x, U.mk("mkiface", typKey(x.X.Type()), x.X.Type(), x.Type(), v))
	case *ssa.MakeClosure:
		fn := x.Fn.(*ssa.Function)
		var bs []*Term
		for _, b := range x.Bindings {
			bs = append(bs, e.val(st, b))
		}
		set(x, U.mk("closure", fn.String(), fn, x.Type(), bs...))
	case *ssa.MakeChan:
		set(x, U.mk("makechan", fmt.Sprintf("%s.%s#%d", x.Parent(), x.Name(), st.fresh()), x, x.Type(), e.val(st, x.Size)))
	case *ssa.MakeMap:
		set(x, U.mk("makemap", fmt.Sprintf("%s.%s#%d", x.Parent(), x.Name(), st.fresh()), x, x.Type()))
	case *ssa.MakeSlice:
		set(x, U.mk("makeslice", fmt.Sprintf("%s.%s#%d", x.Parent(), x.Name(), st.fresh()), x, x.Type(), e.val(st, x.Len), e.val(st, x.Cap)))
	case *ssa.FieldAddr:
		base := e.val(st, x.X)
		set(x, mkFieldAddr(base, x.X.Type(), x.Field))
	case *ssa.Field:
		set(x, mkField(e.val(st, x.X), x.X.Type(), x.Field))
	case *ssa.IndexAddr:
		base, idx := e.val(st, x.X), e.val(st, x.Index)
		set(x, mkIndexAddr(base, idx, x.Type()))
		if idx.Op != "num" {
			// outside a short array, the execution stops here
			var n *Term
			if pt, ok := x.X.Type().Underlying().(*types.Pointer); ok {
				if at, ok := pt.Elem().Underlying().(*types.Array); ok {
					n = Num(at.Len())
				}
			} else if l := mkLen(base); l.Op == "num" && base.Op == "slice" && base.Args[0].Op == "alloc" {
				n = l
			}
			if n != nil {
				st.facts = st.facts.Add(Le(Num(0), idx)).Add(Lt(idx, n))
			}
		}
	case *ssa.Index:
		set(x, U.mk("elem", "", nil, x.Type(), e.val(st, x.X), e.val(st, x.Index)))
	case *ssa.Lookup:
		m, k := e.val(st, x.X), e.val(st, x.Index)
		if _, ok := x.X.Type().Underlying().(*types.Map); ok {
			vt := x.X.Type().Underlying().(*types.Map).Elem()
			v, ok, split := e.mapGet(st, m, k, vt)
			if split != nil {
				return fork(st, split), true
			}
			st.emit(&Event{Kind: "mapget", Pos: x.Pos(), Recv: m, Args: []*Term{k}, Res: v})
			if x.CommaOk {
				set(x, tuple(v, ok))
			} else {
				set(x, v)
			}
		} else {
			set(x, U.mk("elem", "", nil, x.Type(), m, k))
		}
	case *ssa.Extract:
		t := e.val(st, x.Tuple)
		if t.Op == "tuple" {
			set(x, t.Args[x.Index])
		} else {
			set(x, U.mk("extract", strconv.Itoa(x.Index), nil, x.Type(), t))
		}
	case *ssa.Slice:
		base := e.val(st, x.X)
		if b, ok := x.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			set(x, U.mk("substr", fmt.Sprint(st.fresh()), nil, x.Type(), base))
			break
		}
		lo, hi := Num(0), mkLen(base)
		if x.Low != nil {
			lo = e.val(st, x.Low)
		}
		if x.High != nil {
			hi = e.val(st, x.High)
		}
		s := mkSlice(base, lo, hi)
		if s.Op == "slice" && s.Typ != nil {
			if _, ok := s.Typ.Underlying().(*types.Pointer); ok {
				s.Typ = x.Type()
			}
		}
		set(x, s)
	case *ssa.TypeAssert:
		return e.typeAssert(st, f, x)
	case *ssa.Range:
		set(x, U.mk("iter", fmt.Sprintf("%s.%s#%d", x.Parent(), x.Name(), st.fresh()), x, x.Type(), e.val(st, x.X)))
	case *ssa.Next:
		return e.next(st, f, x)
	case *ssa.Store:
		a, v := e.val(st, x.Addr), e.val(st, x.Val)
		e.store(st, a, v, x.Val.Type())
		e.noteStore(st, x.Pos(), a, v)
		e.hook(st)
	case *ssa.MapUpdate:
		m, k, v := e.val(st, x.Map), e.val(st, x.Key), e.val(st, x.Value)
		e.mapSet(st, m, k, v)
		st.emit(&Event{Kind: "mapset", Pos: x.Pos(), Recv: m, Args: []*Term{k, v}})
		e.hook(st)
	case *ssa.Send:
		c, v := e.val(st, x.Chan), e.val(st, x.X)
		st.emit(&Event{Kind: "send", Pos: x.Pos(), Name: e.chanRole(st, c), Recv: c, Args: []*Term{v}, Block: true})
		e.hook(st)
	case *ssa.Select:
		return e.sel(st, f, x)
	case *ssa.Go:
		return e.goStmt(st, f, x)
	case *ssa.Defer:
		d := deferred{call: x}
		e.resolveDefer(st, x, &d)
		f.defers = append(f.defers, d)
	case *ssa.RunDefers:
		if n := len(f.defers); n > 0 {
			d := f.defers[n-1]
			f.defers = f.defers[:n-1]
			return e.runDefer(st, f, d)
		}
	case *ssa.Panic:
		v := e.val(st, x.X)
		st.emit(&Event{Kind: "panic", Pos: x.Pos(), Args: []*Term{v}})
		st.panic = v
		return e.unwind(st)
	case *ssa.Call:
		return e.call(st, f, x)
	case *ssa.If:
		c := e.val(st, x.Cond)
		t, fl := f.block.Succs[0], f.block.Succs[1]
		if c == True || st.facts.Entails(c) {
			return e.jump(st, f.block, t)
		}
		if c == False || st.facts.Entails(Not(c)) {
			return e.jump(st, f.block, fl)
		}
		var outs []*State
		n := st.clone()
		n.facts = st.facts.Add(Not(c))
		n.pend = &pendJump{f.block, fl}
		outs = append(outs, n)
		st.facts = st.facts.Add(c)
		st.pend = &pendJump{f.block, t}
		outs = append(outs, st)
		return outs, true
	case *ssa.Jump:
		return e.jump(st, f.block, f.block.Succs[0])
	case *ssa.Return:
		var rs []*Term
		for _, r := range x.Results {
			rs = append(rs, e.val(st, r))
		}
		return e.doReturn(st, rs)
	default:
		e.give(st, fmt.Sprintf("unsupported instruction %T in %s", in, f.fn))
		return nil, true
	}
	f.pc++
	return nil, false
}

func (e *Exec) hook(st *State) {
	if e.opts.Hook != nil && e.dry == 0 {
		e.opts.Hook(e, st, st.trace.ev)
	}
}

func (e *Exec) noteLoad(st *State, x *ssa.UnOp, addr, v *Term) {
	fr, at, ok := e.monitoredAddr(addr)
	if !ok {
		return
	}
	if t := fr.Var().Type(); at == addr && grouping(t) {
		pt := types.NewPointer(t)
		for i := 0; i < structOf(t).NumFields(); i++ {
			e.noteLoad(st, x, mkFieldAddr(addr, pt, i), mkField(v, t, i))
		}
		return
	}
	st.emit(&Event{Kind: "load", Pos: x.Pos(), Recv: addr, Name: fr.Name(), Res: v, Field: fr.Var()})
}

// noteStore emits a store, completed with the new value of the whole field when it is monitored
func (e *Exec) noteStore(st *State, pos token.Pos, addr, v *Term) {
	fr, at, ok := e.monitoredAddr(addr)
	if !ok {
		st.emit(&Event{Kind: "store", Pos: pos, Recv: addr, Args: []*Term{v}})
		return
	}
	if t := fr.Var().Type(); at == addr && grouping(t) {
		pt := types.NewPointer(t)
		for i := 0; i < structOf(t).NumFields(); i++ {
			e.noteStore(st, pos, mkFieldAddr(addr, pt, i), mkField(v, t, i))
		}
		return
	}
	st.emit(&Event{Kind: "store", Pos: pos, Recv: addr, Args: []*Term{v}, Name: fr.Name(), Field: fr.Var(), Res: e.peek(st, at, fr.Var().Type())})
}

// peek reads the known content of a location without side effect
func (e *Exec) peek(st *State, addr *Term, typ types.Type) *Term {
	if isStructType(typ) {
		s := structOf(typ)
		args := make([]*Term, s.NumFields())
		pt := types.NewPointer(typ)
		for i := range args {
			args[i] = e.peek(st, mkFieldAddr(addr, pt, i), s.Field(i).Type())
		}
		return mkStruct(typ, args)
	}
	if v, ok := st.cells[addr]; ok {
		return v
	}
	if freshRoot(rootOf(addr)) {
		return zeroOf(typ)
	}
	return U.mk("load", "", nil, typ, addr)
}

func tuple(ts ...*Term) *Term { return U.mk("tuple", "", nil, nil, ts...) }

func (e *Exec) doReturn(st *State, rs []*Term) ([]*State, bool) {
	f := st.top()
	var r *Term
	switch len(rs) {
	case 0:
		r = tuple()
	case 1:
		r = rs[0]
	default:
		r = tuple(rs...)
	}
	if len(st.frames) == 1 {
		if len(st.loops) > 0 {
			// leaving through loops: handled by captures of the enclosing loops
			st.loops = st.loops[:0]
		}
		st.emit(&Event{Kind: "return", Pos: f.block.Instrs[len(f.block.Instrs)-1].Pos(), Args: rs})
		if e.dry == 0 {
			e.paths = append(e.paths, &Path{Kind: "return", Res: rs, St: st})
		}
		return nil, true
	}
	st.frames = st.frames[:len(st.frames)-1]
	if f.capt {
		st.ret = r
		st.cap = "ret"
		return []*State{st}, true
	}
	if f.isDef {
		if st.top().unw {
			return e.unwind(st)
		}
		return nil, false // RunDefers is executed again
	}
	caller := st.top()
	if v, ok := f.instr.(ssa.Value); ok && f.instr != nil {
		caller.env[v] = r
	}
	caller.pc++
	return nil, false
}

// unwind runs the deferred calls of the top frame, then leaves it
func (e *Exec) unwind(st *State) ([]*State, bool) {
	for {
		f := st.top()
		f.unw = true
		if n := len(f.defers); n > 0 {
			d := f.defers[n-1]
			f.defers = f.defers[:n-1]
			return e.runDefer(st, f, d)
		}
		if st.panic == nil {
			// recovered in this frame: return named results
			if f.fn.Recover != nil {
				if n := len(st.loops); n > 0 && st.loops[n-1].depth == len(st.frames)-1 {
					st.loops = st.loops[:n-1]
					st.pend = &pendJump{f.block, f.fn.Recover}
					st.cap = "exit"
					return []*State{st}, true
				}
				f.unw = false
				f.prev, f.block, f.pc = f.block, f.fn.Recover, 0
				return nil, false
			}
			var rs []*Term
			res := f.fn.Signature.Results()
			for i := 0; i < res.Len(); i++ {
				rs = append(rs, zeroOf(res.At(i).Type()))
			}
			return e.doReturn(st, rs)
		}
		if len(st.frames) == 1 {
			if e.dry == 0 {
				e.paths = append(e.paths, &Path{Kind: "panic", St: st, Panic: st.panic})
			}
			return nil, true
		}
		if f.capt {
			// panic escapes a captured call: end of path
			if e.dry == 0 {
				e.paths = append(e.paths, &Path{Kind: "panic", St: st, Panic: st.panic})
			}
			return nil, true
		}
		st.frames = st.frames[:len(st.frames)-1]
		if n := len(st.loops); n > 0 && st.loops[n-1].depth >= len(st.frames) {
			// leaves loops of the popped frame
			st.loops = st.loops[:n-1]
			st.cap = "exit"
			st.pend = nil
			st.unw = true // unwinding must continue
			return []*State{st}, true
		}
	}
}

func (e *Exec) resolveDefer(st *State, x *ssa.Defer, d *deferred) {
	c := x.Call
	if c.IsInvoke() {
		d.fn = e.val(st, c.Value)
		d.inv = c.Method.Name()
	} else {
		d.fn = e.val(st, c.Value)
	}
	for _, a := range c.Args {
		d.args = append(d.args, e.val(st, a))
	}
}

func (e *Exec) runDefer(st *State, f *Frame, d deferred) ([]*State, bool) {
	return e.doCall(st, f, &callSite{common: d.call.Common(), fn: d.fn, args: d.args, pos: d.call.Pos(), isDefer: true})
}

func (e *Exec) binop(st *State, op token.Token, a, b *Term, xt, rt types.Type) *Term {
	num := isNumType(xt)
	switch op {
	case token.ADD:
		if num {
			return Add(a, b)
		}
		if a.Op == "str" && b.Op == "str" {
			return Str(a.Aux + b.Aux)
		}
	case token.SUB:
		if num {
			return Sub(a, b)
		}
	case token.MUL:
		if num {
			return Mul(a, b)
		}
	case token.QUO:
		if num {
			if isIntType(xt) {
				return mkIDiv(a, b)
			}
			return Div(a, b)
		}
	case token.REM:
		return mkIRem(a, b)
	case token.EQL:
		return Eq(a, b)
	case token.NEQ:
		return Not(Eq(a, b))
	case token.LSS:
		if num {
			return Lt(a, b)
		}
	case token.LEQ:
		if num {
			return Le(a, b)
		}
	case token.GTR:
		if num {
			return Lt(b, a)
		}
	case token.GEQ:
		if num {
			return Le(b, a)
		}
	}
	return U.mk("binop", op.String(), nil, rt, a, b)
}

func mkIDiv(a, b *Term) *Term {
	ca, ok1 := a.Const()
	cb, ok2 := b.Const()
	if ok1 && ok2 && cb.Sign() != 0 && ca.IsInt() && cb.IsInt() {
		q := ca.Num().Int64() / cb.Num().Int64()
		return Num(q)
	}
	if b.IsInt(1) {
		return a
	}
	return U.mk("idiv", "", nil, types.Typ[types.Int], a, b)
}

func mkIRem(a, b *Term) *Term {
	ca, ok1 := a.Const()
	cb, ok2 := b.Const()
	if ok1 && ok2 && cb.Sign() != 0 && ca.IsInt() && cb.IsInt() {
		return Num(ca.Num().Int64() % cb.Num().Int64())
	}
	return Sub(a, Mul(b, mkIDiv(a, b)))
}

func (e *Exec) convert(v *Term, from, to types.Type) *Term {
	if isNumType(from) && isNumType(to) {
		if isIntType(to) && !isIntType(from) && !isIntTerm(v) {
			return U.mk("trunc", "", nil, to, v)
		}
		if narrower(from, to) && v.poly == nil || narrower(from, to) && !isConst(v) {
			return U.mk("narrow", typKey(to.Underlying()), nil, to, v)
		}
		if isNumeric(v) {
			return v
		}
	}
	if v.Op == "nil" {
		return v
	}
	return U.mk("conv", typKey(to), to, to, v)
}

func isConst(v *Term) bool {
	_, ok := v.Const()
	return ok
}

// narrower: the conversion may lose a part of the number
func narrower(from, to types.Type) bool {
	f, ok1 := from.Underlying().(*types.Basic)
	t, ok2 := to.Underlying().(*types.Basic)
	if !ok1 || !ok2 {
		return false
	}
	sz := types.SizesFor("gc", "amd64")
	return isIntType(t) == isIntType(f) && sz.Sizeof(t) < sz.Sizeof(f) || isIntType(f) && t.Kind() == types.Float32
}

func (e *Exec) typeAssert(st *State, f *Frame, x *ssa.TypeAssert) ([]*State, bool) {
	v := e.val(st, x.X)
	iface := types.IsInterface(x.AssertedType)
	done := func(st *State, val, ok *Term) {
		if x.CommaOk {
			st.top().env[x] = tuple(val, ok)
		} else {
			st.top().env[x] = val
		}
		st.top().pc++
	}
	if v.Op == "mkiface" {
		dyn := v.Ref.(types.Type)
		match := false
		if iface {
			match = types.Implements(dyn, x.AssertedType.Underlying().(*types.Interface))
		} else {
			match = types.Identical(dyn, x.AssertedType)
		}
		if match {
			if iface {
				done(st, v, True)
			} else {
				done(st, v.Args[0], True)
			}
			return nil, false
		}
		if x.CommaOk {
			done(st, zeroOf(x.AssertedType), False)
			return nil, false
		}
		st.emit(&Event{Kind: "panic", Pos: x.Pos(), Name: "type assertion"})
		st.panic = U.mk("rtpanic", "assert", nil, nil)
		return e.unwind(st)
	}
	var val *Term
	if iface {
		val = v
	} else {
		val = U.mk("assert", typKey(x.AssertedType), x.AssertedType, x.AssertedType, v)
	}
	if !x.CommaOk {
		done(st, val, True)
		return nil, false
	}
	is := U.mk("istype", typKey(x.AssertedType), x.AssertedType, types.Typ[types.Bool], v)
	if st.facts.Entails(is) {
		done(st, val, True)
		return nil, false
	}
	var outs []*State
	n := st.clone()
	n.facts = n.facts.Add(is)
	done(n, val, True)
	outs = append(outs, n)
	st.facts = st.facts.Add(Not(is))
	done(st, zeroOf(x.AssertedType), False)
	return append(outs, st), true
}

func (e *Exec) next(st *State, f *Frame, x *ssa.Next) ([]*State, bool) {
	it := e.val(st, x.Iter)
	if x.IsString || it.Op != "iter" {
		n := st.clone()
		n.top().env[x] = tuple(False, U.mk("res", "strk"+strconv.Itoa(st.fresh()), nil, types.Typ[types.Int]), U.mk("res", "strv"+strconv.Itoa(st.fresh()), nil, types.Typ[types.Int32]))
		n.top().pc++
		st.top().env[x] = tuple(True, U.mk("res", "strk"+strconv.Itoa(st.fresh()), nil, types.Typ[types.Int]), U.mk("res", "strv"+strconv.Itoa(st.fresh()), nil, types.Typ[types.Int32]))
		st.top().pc++
		return []*State{n, st}, true
	}
	m := it.Args[0]
	mt := x.Iter.(*ssa.Range).X.Type().Underlying().(*types.Map)
	// end
	n := st.clone()
	n.top().env[x] = tuple(False, zeroOf(mt.Key()), zeroOf(mt.Elem()))
	n.top().pc++
	n.emit(&Event{Kind: "mapend", Pos: x.Pos(), Recv: m})
	// one more key
	k := U.mk("mapkey", fmt.Sprintf("%s.%d", x.Name(), st.fresh()), nil, mt.Key(), it)
	v, ok, split := e.mapGet(st, m, k, mt.Elem())
	if split != nil {
		// unknown key against explicit entries: treat the value as unknown
		v = U.mk("mapget", "it"+strconv.Itoa(st.fresh()), nil, mt.Elem(), m, k)
		ok = True
	}
	if ok != True && ok != nil {
		st.facts = st.facts.Add(ok)
	}
	st.top().env[x] = tuple(True, k, v)
	st.emit(&Event{Kind: "mapnext", Pos: x.Pos(), Recv: m, Args: []*Term{k, v}})
	st.top().pc++
	return []*State{n, st}, true
}

// chanRole names a channel by the field that holds it
func (e *Exec) chanRole(st *State, c *Term) string {
	if c.Op == "load" && c.Args[0].Op == "fieldaddr" {
		return c.Args[0].Aux
	}
	// a new channel stored in a field
	var names []string
	for a, v := range st.cells {
		if v == c && a.Op == "fieldaddr" {
			names = append(names, a.Aux)
		}
	}
	sort.Strings(names)
	if len(names) > 0 {
		return names[0]
	}
	return ""
}

func (e *Exec) recv(st *State, f *Frame, x *ssa.UnOp) ([]*State, bool) {
	c := e.val(st, x.X)
	role := e.chanRole(st, c)
	et := c.Typ
	if ch, ok := x.X.Type().Underlying().(*types.Chan); ok {
		et = ch.Elem()
	}
	v := U.mk("recv", fmt.Sprintf("%s#%d@%s", role, st.fresh(), e.curSite(st)), nil, et)
	st.emit(&Event{Kind: "recv", Pos: x.Pos(), Name: role, Recv: c, Res: v, Block: true})
	e.recvFacts(st, role, v)
	e.hook(st)
	if x.CommaOk {
		ok := U.mk("recvok", v.Aux, nil, types.Typ[types.Bool])
		f.env[x] = tuple(v, ok)
	} else {
		f.env[x] = v
	}
	f.pc++
	return nil, false
}

func (e *Exec) recvFacts(st *State, role string, v *Term) {
	if e.opts.RecvFacts != nil {
		for _, l := range e.opts.RecvFacts(st, role, v) {
			st.facts = st.facts.Add(l)
		}
	}
}

func (e *Exec) sel(st *State, f *Frame, x *ssa.Select) ([]*State, bool) {
	var outs []*State
	nrecv := 0
	for _, s := range x.States {
		if s.Dir == types.RecvOnly {
			nrecv++
		}
	}
	base := st.fresh()
	mkTuple := func(st *State, idx int) *Term {
		args := []*Term{Num(int64(idx))}
		ok := True
		var rs []*Term
		for i, s := range x.States {
			if s.Dir != types.RecvOnly {
				continue
			}
			et := s.Chan.Type().Underlying().(*types.Chan).Elem()
			if i == idx {
				role := e.chanRole(st, e.val(st, s.Chan))
				v := U.mk("recv", fmt.Sprintf("%s#%d.%d@%s", role, base, i, e.curSite(st)), nil, et)
				ok = U.mk("recvok", v.Aux, nil, types.Typ[types.Bool])
				rs = append(rs, v)
			} else {
				rs = append(rs, zeroOf(et))
			}
		}
		args = append(args, ok)
		args = append(args, rs...)
		return tuple(args...)
	}
	for i, s := range x.States {
		c := e.val(st, s.Chan)
		if c == Nil {
			continue
		}
		n := st.clone()
		t := mkTuple(n, i)
		n.top().env[x] = t
		role := e.chanRole(n, c)
		if s.Dir == types.RecvOnly {
			var v *Term
			k := 2
			for j := 0; j < i; j++ {
				if x.States[j].Dir == types.RecvOnly {
					k++
				}
			}
			v = t.Args[k]
			n.emit(&Event{Kind: "recv", Pos: s.Pos, Name: role, Recv: c, Res: v, Args: []*Term{Bool(!x.Blocking)}, Sel: x, Block: x.Blocking})
			e.recvFacts(n, role, v)
		} else {
			n.emit(&Event{Kind: "send", Pos: s.Pos, Name: role, Recv: c, Args: []*Term{e.val(n, s.Send), Bool(!x.Blocking)}, Sel: x, Block: x.Blocking})
		}
		e.hook(n)
		n.trace.ev.Name = role
		n.top().pc++
		outs = append(outs, n)
	}
	if !x.Blocking {
		st.top().env[x] = mkTuple(st, -1)
		st.emit(&Event{Kind: "default", Pos: x.Pos()})
		st.top().pc++
		outs = append(outs, st)
	}
	return outs, true
}
