package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type callSite struct {
	common  *ssa.CallCommon
	instr   ssa.Instruction // nil for deferred calls
	fn      *Term
	args    []*Term
	pos     token.Pos
	isDefer bool
	isGo    bool
}

func (e *Exec) call(st *State, f *Frame, x *ssa.Call) ([]*State, bool) {
	cs := &callSite{common: x.Common(), instr: x, pos: x.Pos(), fn: e.val(st, x.Call.Value)}
	for _, a := range x.Call.Args {
		cs.args = append(cs.args, e.val(st, a))
	}
	return e.doCall(st, f, cs)
}

// resolve finds the concrete callee; args are completed with receiver and bindings
func (e *Exec) resolve(cs *callSite) (fn *ssa.Function, args, free []*Term) {
	if cs.common.IsInvoke() {
		recv := cs.fn
		if recv.Op == "mkiface" {
			t := recv.Ref.(types.Type)
			m := cs.common.Method
			if g := e.P.methodOf(t, m); g != nil {
				return g, append([]*Term{recv.Args[0]}, cs.args...), nil
			}
		}
		return nil, nil, nil
	}
	switch cs.fn.Op {
	case "fn":
		return cs.fn.Ref.(*ssa.Function), cs.args, nil
	case "closure":
		f := cs.fn.Ref.(*ssa.Function)
		if g := unwrap(f); strings.HasPrefix(f.Synthetic, "bound method") && len(cs.fn.Args) == 1 && g.Signature.Recv() != nil && types.Identical(g.Signature.Recv().Type(), cs.fn.Args[0].Typ) {
			// a method value
			return g, append([]*Term{cs.fn.Args[0]}, cs.args...), nil
		}
		return f, cs.args, cs.fn.Args
	}
	return nil, nil, nil
}

func (e *Exec) finish(st *State, cs *callSite, r *Term) ([]*State, bool) {
	if cs.isDefer {
		if st.top().unw {
			return e.unwind(st)
		}
		return nil, false // RunDefers again
	}
	f := st.top()
	if v, ok := cs.instr.(ssa.Value); ok {
		f.env[v] = r
	}
	f.pc++
	return nil, false
}

func resultType(c *ssa.CallCommon) types.Type {
	sig := c.Signature()
	if sig == nil {
		return nil
	}
	switch sig.Results().Len() {
	case 0:
		return nil
	case 1:
		return sig.Results().At(0).Type()
	}
	return sig.Results()
}

// opaque makes a fresh result for an unknown call
func (e *Exec) opaque(st *State, cs *callSite, name string) *Term {
	sig := cs.common.Signature()
	n := st.fresh()
	mk := func(i int) *Term {
		return U.mk("res", fmt.Sprintf("%s#%d.%d@%s", name, n, i, e.curSite(st)), nil, sig.Results().At(i).Type())
	}
	switch sig.Results().Len() {
	case 0:
		return tuple()
	case 1:
		return mk(0)
	}
	var rs []*Term
	for i := 0; i < sig.Results().Len(); i++ {
		rs = append(rs, mk(i))
	}
	return tuple(rs...)
}

func (e *Exec) doCall(st *State, f *Frame, cs *callSite) ([]*State, bool) {
	if b, ok := cs.common.Value.(*ssa.Builtin); ok && !cs.common.IsInvoke() {
		return e.builtin(st, f, cs, b.Name())
	}
	fn, args, free := e.resolve(cs)
	if fn != nil {
		full := fn.String()
		if fn.Origin() != nil {
			full = fn.Origin().String()
		}
		if r, outs, ok := e.model(st, f, cs, full, fn, args); ok {
			if outs != nil {
				return outs, true
			}
			return e.finish(st, cs, r)
		}
		if !e.opts.Opaque[full] && len(fn.Blocks) > 0 && e.P.inModule(fn) {
			depth, same := 0, 0
			for _, fr := range st.frames {
				depth++
				if fr.fn == fn {
					same++
				}
			}
			if same >= 2 || depth > 40 {
				st.emit(&Event{Kind: "recursion", Pos: cs.pos, Name: full, Args: args})
				return e.finish(st, cs, e.opaque(st, cs, full))
			}
			g := e.pushFrame(st, fn, args, free, cs.instr)
			g.isDef = cs.isDefer
			g.panick = cs.isDefer && f.unw
			return nil, false
		}
		return e.unknown(st, f, cs, "extcall", full, nil, args)
	}
	if cs.common.IsInvoke() {
		name := ifaceName(cs.common) + "." + cs.common.Method.Name()
		return e.invoke(st, f, cs, name)
	}
	return e.unknown(st, f, cs, "dyncall", dynName(cs), cs.fn, cs.args)
}

func dynName(cs *callSite) string {
	t := cs.fn
	if t.Op == "load" && t.Args[0].Op == "fieldaddr" {
		return t.Args[0].Aux
	}
	if t.Op == "field" || t.Op == "param" {
		return t.Aux
	}
	return typKey(cs.common.Value.Type())
}

func ifaceName(c *ssa.CallCommon) string {
	t := c.Value.Type()
	if n, ok := t.(*types.Named); ok {
		// the interface that declares the method
		if r := declaringIface(n, c.Method); r != "" {
			return r
		}
		return n.Obj().Name()
	}
	return typKey(t)
}

func declaringIface(n *types.Named, m *types.Func) string {
	if sig, ok := m.Type().(*types.Signature); ok && sig.Recv() != nil {
		if r, ok := sig.Recv().Type().(*types.Named); ok {
			return r.Obj().Name()
		}
	}
	return ""
}

var pureIface = map[string]bool{
	"Space.Dist": true, "Space.Combine": true, "Space.Copy": true, "Space.Dim": true,
	"PointSpace.PointDist": true, "PointSpace.PointCombine": true, "PointSpace.PointCopy": true,
	"Distrib.Pdf": true,
	"Conf.Ctrl":   true,
	"error.Error": true,
}

func (e *Exec) invoke(st *State, f *Frame, cs *callSite, name string) ([]*State, bool) {
	if pureIface[name] {
		r := U.mk("call", name, nil, resultType(cs.common), append([]*Term{cs.fn}, cs.args...)...)
		st.emit(&Event{Kind: "invoke", Pos: cs.pos, Name: name, Recv: cs.fn, Args: cs.args, Res: r})
		e.hook(st)
		return e.afterUser(st, cs, r)
	}
	if strings.HasPrefix(name, "OCModel.") && !(e.opts.LiveModel && (name == "OCModel.Status" || name == "OCModel.RuntimeFigures" || name == "OCModel.Centroids")) {
		// a model is read through its accessors: stable within an analysis
		r := U.mk("call", name, nil, resultType(cs.common), cs.fn)
		st.emit(&Event{Kind: "invoke", Pos: cs.pos, Name: name, Recv: cs.fn, Args: cs.args, Res: r})
		return e.finish(st, cs, r)
	}
	return e.unknown(st, f, cs, "invoke", name, cs.fn, cs.args)
}

// afterUser finishes a call into user code, which may panic
func (e *Exec) afterUser(st *State, cs *callSite, r *Term) ([]*State, bool) {
	ev := st.trace.ev
	if e.opts.MayPanic != nil && e.opts.MayPanic(ev) {
		n := st.clone()
		n.panic = U.mk("recovered", "panic of "+ev.Name+"@"+e.curSite(st), nil, nil)
		n.emit(&Event{Kind: "userpanic", Pos: cs.pos, Name: ev.Name, Args: []*Term{n.panic}})
		n.unw = true
		outs := []*State{n}
		o2, stop := e.finish(st, cs, r)
		if stop {
			return append(outs, o2...), true
		}
		return append(outs, st), true
	}
	return e.finish(st, cs, r)
}

func (e *Exec) unknown(st *State, f *Frame, cs *callSite, kind, name string, recv *Term, args []*Term) ([]*State, bool) {
	r := e.opaque(st, cs, name)
	st.emit(&Event{Kind: kind, Pos: cs.pos, Name: name, Recv: recv, Args: args, Res: r})
	e.hook(st)
	if kind == "extcall" && (strings.HasSuffix(name, "/rand.New") || strings.HasSuffix(name, "/rand.NewSource")) {
		st.facts = st.facts.Add(Not(Eq(Nil, r)))
	}
	if e.opts.CallFacts != nil {
		for _, l := range e.opts.CallFacts(e, st, st.trace.ev) {
			st.facts = st.facts.Add(l)
		}
	}
	// external code may write through the slices and pointers it receives
	if kind == "extcall" && !pureExt(name) {
		for i, a := range args {
			if fn := cs.common.StaticCallee(); fn == nil || !e.P.readsOnly(fn, i) {
				e.havocReach(st, a, name)
			}
		}
	}
	return e.afterUser(st, cs, r)
}

// readsOnly tells that a function of the module never writes into what its i-th parameter leads to
func (p *Prog) readsOnly(fn *ssa.Function, i int) bool {
	if !p.inModule(fn) || len(fn.Blocks) == 0 || i >= len(fn.Params) {
		return false
	}
	a := p.aliasOf(fn)
	for _, w := range a.Writes() {
		if under(w.l.o.name, fn.Params[i].Name()) {
			return false
		}
	}
	return len(a.unknown) == 0
}

func pureExt(name string) bool {
	for _, p := range []string{"math.", "fmt.", "errors.", "strings.", "strconv.", "time.", "runtime.", "(time.", "(*time.", "sort.Search",
		"gonum.org/v1/gonum", "(gonum.org", "(*gonum.org", "golang.org/x/exp/rand", "(*golang.org/x/exp/rand", "github.com/gonum/floats.Sum", "golang.org/x/exp/errors"} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

func (e *Exec) havocReach(st *State, a *Term, why string) {
	root, _ := sliceRoot(a)
	ver := "x" + strconv.Itoa(st.fresh())
	for r := range st.regs {
		if r.Args[0] == root {
			st.regs[r] = append(st.regs[r], layer{kind: "havoc", ver: ver})
		}
	}
	if a.Typ != nil {
		if _, ok := a.Typ.Underlying().(*types.Slice); ok {
			k := U.mk("region", "", nil, elemTypeOf(a.Typ), root)
			if len(st.regs[k]) == 0 {
				st.regs[k] = []layer{{kind: "havoc", ver: ver}}
			}
		}
	}
}

func (e *Exec) builtin(st *State, f *Frame, cs *callSite, name string) ([]*State, bool) {
	a := cs.args
	var r *Term = tuple()
	switch name {
	case "len":
		if _, ok := cs.common.Args[0].Type().Underlying().(*types.Map); ok {
			if a[0].Op == "makemap" && len(st.maps[a[0]]) == 0 {
				r = Num(0)
			} else {
				r = U.mk("len", strconv.Itoa(len(st.maps[a[0]])), nil, types.Typ[types.Int], a[0])
			}
		} else {
			r = mkLen(a[0])
		}
	case "cap":
		if a[0].Op == "makeslice" {
			r = a[0].Args[1]
		} else if a[0].Op == "makechan" {
			r = a[0].Args[0]
		} else {
			r = U.mk("cap", "", nil, types.Typ[types.Int], a[0])
		}
	case "append":
		s := a[0]
		if len(a) == 1 {
			r = s
			break
		}
		root, off := sliceRoot(a[1])
		if root.Op == "alloc" && off.IsInt(0) {
			// variadic literal
			n, ok := mkLen(a[1]).Const()
			if ok && n.IsInt() && n.Num().Int64() <= 16 {
				args := []*Term{s}
				et := elemTypeOf(cs.common.Args[0].Type())
				good := true
				for i := int64(0); i < n.Num().Int64(); i++ {
					v, split := e.load(st, mkIndexAddr(a[1], Num(i), types.NewPointer(et)), et)
					if split != nil {
						good = false
						break
					}
					args = append(args, v)
				}
				if good {
					added := args[1:]
					if s.Op == "append" {
						args = append(append([]*Term{}, s.Args...), added...)
					}
					r = U.mk("append", "", nil, cs.common.Args[0].Type(), args...)
					e.moveRegion(st, s, r, added)
					st.emit(&Event{Kind: "append", Pos: cs.pos, Recv: s, Args: args[1:], Res: r})
					break
				}
			}
		}
		if a[1] == Nil {
			r = s
			break
		}
		r = U.mk("appendslice", "", nil, cs.common.Args[0].Type(), s, a[1])
		e.moveRegion(st, s, r, nil)
		st.emit(&Event{Kind: "append", Pos: cs.pos, Recv: s, Args: a[1:], Res: r})
	case "copy":
		n := mkMin(mkLen(a[0]), mkLen(a[1]))
		for _, c := range []*Term{mkLen(a[0]), mkLen(a[1])} {
			o := mkLen(a[0])
			if c == o {
				o = mkLen(a[1])
			}
			if n.Op == "min" && st.facts.Entails(Le(c, o)) {
				n = c
			}
		}
		r = n
		if e.copyInto(st, a[0], a[1], n) {
			st.emit(&Event{Kind: "copy", Pos: cs.pos, Recv: a[0], Args: []*Term{a[1], n}})
		} else {
			e.copyLayers(st, a[0], a[1], n)
			st.emit(&Event{Kind: "copy", Pos: cs.pos, Recv: a[0], Args: []*Term{a[1], n}})
		}
		e.hook(st)
	case "delete":
		ls := st.maps[a[0]]
		st.maps[a[0]] = append(append([]mlayer{}, ls...), mlayer{kind: "delete", key: a[1]})
		st.emit(&Event{Kind: "mapset", Pos: cs.pos, Recv: a[0], Args: []*Term{a[1]}, Name: "delete"})
	case "close":
		st.emit(&Event{Kind: "close", Pos: cs.pos, Name: e.chanRole(st, a[0]), Recv: a[0]})
		e.hook(st)
	case "recover":
		r = Nil
		if f.isDef && f.panick && st.panic != nil {
			r = st.panic
			if r.Op != "mkiface" {
				r = U.mk("recovered", "value "+strconv.Itoa(r.id), nil, nil, r)
			}
			st.panic = nil
		}
	case "print", "println":
	case "min", "max":
		r = U.mk("call", name, nil, resultType(cs.common), a...)
	case "ssa:wrapnilchk":
		r = a[0]
	default:
		r = e.opaque(st, cs, name)
	}
	return e.finish(st, cs, r)
}

// moveRegion: the contents known of s at the time of the append belong to the result
func (e *Exec) moveRegion(st *State, s, r *Term, added []*Term) {
	root, off := sliceRoot(s)
	if !off.IsInt(0) || r.Op != "append" {
		return
	}
	for k, ls := range st.regs {
		if k.Args[0] != root || len(ls) == 0 {
			continue
		}
		nl := append([]layer{}, ls...)
		for i, v := range added {
			nl = append(nl, layer{kind: "point", a: AddN(mkLen(s), int64(i)), val: pathOf(v, k.Aux)})
		}
		st.regs[U.mk("region", k.Aux, nil, k.Typ, r)] = nl
	}
}

// contentLam gives the content of a slice as a function of the index
func (e *Exec) contentLam(st *State, s *Term, lo, hi *Term) *Term {
	et := elemTypeOf(s.Typ)
	if et == nil {
		return nil
	}
	f := U.mk("fv", fmt.Sprintf("c%d", st.fresh()), nil, types.Typ[types.Int])
	facts := st.facts.Add(Le(lo, f)).Add(Lt(f, hi))
	tmp := *st
	tmp.facts = facts
	v, split := e.load(&tmp, mkIndexAddr(s, f, types.NewPointer(et)), et)
	if split != nil {
		return nil
	}
	return mkLam(v, f)
}

func (e *Exec) copyInto(st *State, dst, src, n *Term) bool {
	et := elemTypeOf(dst.Typ)
	if et == nil || isStructType(et) {
		return false
	}
	if src.Typ != nil {
		if b, ok := src.Typ.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			return false
		}
	}
	root, off := sliceRoot(dst)
	lam := e.contentLam(st, src, Num(0), n)
	if lam == nil {
		return false
	}
	// index i of the root holds src[i-off]
	f := U.mk("fv", fmt.Sprintf("d%d", st.fresh()), nil, types.Typ[types.Int])
	body := apply(lam, Sub(f, off))
	key := U.mk("region", "", nil, et, root)
	st.regs[key] = append(append([]layer{}, st.regs[key]...), layer{kind: "range", a: off, b: Add(off, n), val: mkLam(body, f)})
	return true
}

// copied is the source of a copy that is not a plain range of elements, as it was when it was copied
type copied struct {
	st          *State
	src         *Term
	lo, hi, off *Term
}

func (e *Exec) copyLayers(st *State, dst, src, n *Term) {
	et := elemTypeOf(dst.Typ)
	if et == nil || isStructType(et) || src.Typ == nil || elemTypeOf(src.Typ) == nil {
		e.havocReach(st, dst, "copy")
		return
	}
	root, off := sliceRoot(dst)
	before := st.clone()
	e.havocReach(st, dst, "copy")
	if ls := regionsAt(st, root); len(ls) > 0 {
		ls[len(ls)-1].from = &copied{st: before, src: src, lo: off, hi: Add(off, n), off: off}
	}
}

// ---- go statements ----

func (e *Exec) goStmt(st *State, f *Frame, x *ssa.Go) ([]*State, bool) {
	cs := &callSite{common: x.Common(), instr: x, pos: x.Pos(), fn: e.val(st, x.Call.Value), isGo: true}
	for _, a := range x.Call.Args {
		cs.args = append(cs.args, e.val(st, a))
	}
	fn, args, free := e.resolve(cs)
	ev := &Event{Kind: "go", Pos: x.Pos(), Args: args}
	if fn != nil {
		ev.Name = fn.String()
		ev.Res = U.mk("closure", fn.String(), fn, nil, free...)
		st.emit(ev)
		snap := st.clone()
		ev.Snap = snap
		if e.dry == 0 {
			e.spawned = append(e.spawned, ev)
		}
	} else {
		ev.Name = "?"
		ev.Recv = cs.fn
		ev.Args = cs.args
		st.emit(ev)
		if e.dry == 0 {
			e.spawned = append(e.spawned, ev)
		}
	}
	e.hook(st)
	f.pc++
	return nil, false
}

// ---- models of library functions ----

func (e *Exec) model(st *State, f *Frame, cs *callSite, full string, fn *ssa.Function, a []*Term) (*Term, []*State, bool) {
	fl := types.Typ[types.Float64]
	unit := tuple()
	ev := func(kind, name string, recv *Term, args ...*Term) *Event {
		x := st.emit(&Event{Kind: kind, Pos: cs.pos, Name: name, Recv: recv, Args: args})
		return x
	}
	switch full {
	case "math.Sqrt":
		return mkSqrt(a[0]), nil, true
	case "math.Exp":
		return mkExp(a[0]), nil, true
	case "math.Log":
		return mkLog(a[0]), nil, true
	case "math.Pow":
		if c, ok := a[1].Const(); ok {
			if c.IsInt() && c.Num().IsInt64() && c.Num().Int64() >= -4 && c.Num().Int64() <= 4 {
				return PowInt(a[0], int(c.Num().Int64())), nil, true
			}
			if h := new(big.Rat).Mul(c, big.NewRat(2, 1)); h.IsInt() && h.Num().IsInt64() && h.Num().Int64() >= -7 && h.Num().Int64() <= 7 {
				return PowInt(mkSqrt(a[0]), int(h.Num().Int64())), nil, true
			}
		}
		return U.mk("pow", "", nil, fl, a[0], a[1]), nil, true
	case "math.Inf":
		return U.mk("inf", a[0].String(), nil, fl), nil, true
	case "math.Gamma":
		return U.mk("gamma", "", nil, fl, a[0]), nil, true
	case "math.Lgamma":
		return tuple(mkLog(U.mk("gamma", "", nil, fl, a[0])), Num(1)), nil, true
	case "math.Abs", "math.Max", "math.Min", "math.Floor", "math.Ceil", "math.Round", "math.Trunc", "math.Hypot", "math.Log1p", "math.Expm1", "math.IsNaN", "math.IsInf":
		if full == "math.Log1p" {
			return mkLog(AddN(a[0], 1)), nil, true
		}
		if full == "math.Hypot" {
			return mkSqrt(Add(Mul(a[0], a[0]), Mul(a[1], a[1]))), nil, true
		}
		if (full == "math.Max" || full == "math.Min") && !cs.isDefer {
			// exact: fork on the order
			c := Le(a[0], a[1])
			if full == "math.Min" {
				c = Le(a[1], a[0])
			}
			if st.facts.Entails(c) {
				return a[1], nil, true
			}
			if st.facts.Entails(Not(c)) {
				return a[0], nil, true
			}
			return nil, fork(st, c), true
		}
		return U.mk("call", full, nil, resultType(cs.common), a...), nil, true
	case "errors.New", "fmt.Errorf", "golang.org/x/exp/errors/fmt.Errorf":
		r := U.mk("errnew", fmt.Sprintf("%s#%d@%s", full, st.fresh(), e.curSite(st)), nil, types.Universe.Lookup("error").Type())
		// remember the operands: what the error reports
		st.emit(&Event{Kind: "errnew", Pos: cs.pos, Name: full, Args: e.variadic(st, a), Res: r})
		return r, nil, true
	case "strings.ToLower":
		return U.mk("call", full, nil, types.Typ[types.String], a...), nil, true
	case "runtime.NumCPU", "runtime.GOMAXPROCS":
		r := U.mk("call", full, nil, types.Typ[types.Int])
		st.facts = st.facts.Add(Le(Num(1), r))
		return r, nil, true
	case "time.Now":
		r := U.mk("res", fmt.Sprintf("now#%d@%s", st.fresh(), e.curSite(st)), nil, fn.Signature.Results().At(0).Type())
		ev("now", full, nil).Res = r
		return r, nil, true
	case "time.Since":
		now := U.mk("res", fmt.Sprintf("now#%d@%s", st.fresh(), e.curSite(st)), nil, fn.Signature.Params().At(0).Type())
		ev("now", full, nil).Res = now
		return U.mk("call", "(time.Time).Sub", nil, resultType(cs.common), now, a[0]), nil, true
	case "time.Until":
		now := U.mk("res", fmt.Sprintf("now#%d@%s", st.fresh(), e.curSite(st)), nil, fn.Signature.Params().At(0).Type())
		return U.mk("call", "(time.Time).Sub", nil, resultType(cs.common), a[0], now), nil, true
	case "(time.Time).Before":
		return U.mk("call", "(time.Time).After", nil, resultType(cs.common), a[1], a[0]), nil, true
	case "time.Sleep":
		ev("sleep", full, nil, a...)
		return unit, nil, true
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).RLock":
		read := strings.HasSuffix(full, "RLock")
		k := "lock"
		if read {
			k = "rlock"
		}
		x := ev(k, lockName(a[0]), a[0])
		_ = x
		e.acquire(st, a[0])
		st.held = append(st.held, Held{Addr: a[0], Read: read, Pos: cs.pos})
		e.hook(st)
		return unit, nil, true
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RUnlock":
		read := strings.HasSuffix(full, "RUnlock")
		k := "unlock"
		if read {
			k = "runlock"
		}
		ev(k, lockName(a[0]), a[0])
		ok := false
		for i := len(st.held) - 1; i >= 0; i-- {
			if st.held[i].Addr == a[0] && st.held[i].Read == read {
				st.held = append(append([]Held{}, st.held[:i]...), st.held[i+1:]...)
				ok = true
				break
			}
		}
		if !ok {
			ev("badunlock", lockName(a[0]), a[0])
		}
		e.hook(st)
		return unit, nil, true
	case "(*sync.Once).Do":
		// first call: runs the function with the once held; other calls: already done
		ran := U.mk("oncedone", e.curSite(st), nil, types.Typ[types.Bool], a[0])
		n := st.clone()
		n.facts = n.facts.Add(ran)
		n.emit(&Event{Kind: "oncedone", Pos: cs.pos, Recv: a[0]})
		e.finish(n, cs, unit)
		st.facts = st.facts.Add(Not(ran))
		st.emit(&Event{Kind: "once", Pos: cs.pos, Recv: a[0]})
		sub := &callSite{common: cs.common, instr: cs.instr, fn: a[1], args: nil, pos: cs.pos, isDefer: cs.isDefer}
		var g *ssa.Function
		var free []*Term
		switch a[1].Op {
		case "fn":
			g = a[1].Ref.(*ssa.Function)
		case "closure":
			g, free = a[1].Ref.(*ssa.Function), a[1].Args
		}
		if g != nil && len(g.Blocks) > 0 {
			fr := e.pushFrame(st, g, nil, free, cs.instr)
			fr.isDef = cs.isDefer
			fr.panick = cs.isDefer && f.unw
			return nil, []*State{n, st}, true
		}
		outs, stop := e.unknown(st, f, sub, "dyncall", "once", a[1], nil)
		if !stop {
			outs = []*State{st}
		}
		return nil, append(outs, n), true
	case "(*sync.WaitGroup).Add", "(*sync.WaitGroup).Done", "(*sync.WaitGroup).Wait":
		ev("wg"+full[strings.LastIndex(full, ".")+1:], full, a[0], a[1:]...)
		e.hook(st)
		return unit, nil, true
	case "(*golang.org/x/exp/rand.Rand).Intn", "(*golang.org/x/exp/rand.Rand).Int63n", "(*golang.org/x/exp/rand.Rand).Int31n":
		r := U.mk("intn", fmt.Sprintf("#%d@%s", st.fresh(), e.curSite(st)), nil, types.Typ[types.Int], a[1])
		x := ev("draw", "Intn", a[0], a[1:]...)
		x.Res = r
		e.hook(st)
		return r, nil, true
	case "(*golang.org/x/exp/rand.Rand).Float64":
		r := U.mk("rand01", fmt.Sprintf("#%d@%s", st.fresh(), e.curSite(st)), nil, fl)
		x := ev("draw", "Float64", a[0], a[1:]...)
		x.Res = r
		return r, nil, true
	case "(gonum.org/v1/gonum/stat/distuv.Uniform).Rand":
		r := U.mk("uniform", fmt.Sprintf("#%d@%s", st.fresh(), e.curSite(st)), nil, fl, a[0])
		x := ev("draw", "Uniform", a[0], a[1:]...)
		x.Res = r
		return r, nil, true
	case "github.com/gonum/floats.Sum", "gonum.org/v1/gonum/floats.Sum":
		n := mkLen(a[0])
		lam := e.contentLam(st, a[0], Num(0), n)
		if lam != nil {
			return mkSum(lam, Num(0), n), nil, true
		}
		return U.mk("res", fmt.Sprintf("floats.Sum#%d", st.fresh()), nil, fl), nil, true
	case "github.com/wearelumenai/distclus/core.Par":
		if !e.opts.NoPar {
			if outs, ok := e.par(st, f, cs, a); ok {
				return nil, outs, true
			}
		}
	case "sort.Ints", "sort.Float64s":
		e.havocReach(st, a[0], full)
		return unit, nil, true
	}
	if strings.HasPrefix(full, "(time.Time).") || strings.HasPrefix(full, "(time.Duration).") {
		return U.mk("call", full, nil, resultType(cs.common), a...), nil, true
	}
	if strings.HasPrefix(full, "(*sync/atomic.") || strings.HasPrefix(full, "sync/atomic.") {
		r := e.opaque(st, cs, full)
		ev("atomic", full, a[0], a[1:]...).Res = r
		return r, nil, true
	}
	return nil, nil, false
}

// variadic lists the operands of a variadic argument
func (e *Exec) variadic(st *State, a []*Term) []*Term {
	var r []*Term
	for _, x := range a {
		root, off := sliceRoot(x)
		if root.Op == "alloc" {
			if n, ok := mkLen(x).Const(); ok && n.IsInt() {
				et := elemTypeOf(x.Typ)
				for i := int64(0); i < n.Num().Int64(); i++ {
					v, split := e.load(st, mkIndexAddr(root, AddN(off, i), nil), et)
					if split == nil {
						r = append(r, v)
					}
				}
				continue
			}
		}
		r = append(r, x)
	}
	return r
}

func lockName(a *Term) string {
	if a.Op == "fieldaddr" {
		fr := a.Ref.(FieldRef)
		return fr.Owner() + "." + a.Aux
	}
	return a.String()
}
