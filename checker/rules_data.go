package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rulesByID["C14"] = &Rule{run: ruleC14, assumptions: append([]string{"one goroutine at a time stores into a buffer (C04 lists the known exceptions)"}, seqAssumptions...), explanation: seqExplanation + ": content and window of a new buffer, one step of each window strategy under its inductive invariant, every path of push and application"}
}

// ---- C14 ----

// ring is the representation of a window found in a new buffer
type ring struct {
	t         types.Type // dynamic type of the strategy
	size, pos *types.Var // nil for an unbounded buffer
	zeroOK    bool       // the position of a full window may be its size
}

func ruleC14(r *Report) {
	r.need("new", 3)
	r.need("step", 2)
	r.need("apply", 1)
	r.need("push", 3)
	fn := r.p.Func("core.NewDataBuffer")
	if fn == nil {
		r.bad("anchor", "core.NewDataBuffer", "", "function not found")
		return
	}
	bt, _ := r.p.Type("core.DataBuffer").(*types.Named)
	if bt == nil {
		r.bad("anchor", "core.DataBuffer", "", "type not found")
		return
	}
	dataF, stratF, pipeF := bufferFields(bt)
	if dataF == "" || stratF == "" || pipeF == "" {
		r.bad("anchor", "core.DataBuffer", "", "the data, the strategy and the channel of the buffer are not recognised")
		return
	}
	rings := map[string]*ring{}
	var order []string
	cases := []string{"larger", "smaller", "unbounded"}
	for i, name := range cases {
		name := name
		s := r.symIf("core.NewDataBuffer", Options{}, func(a []*Term) []*Term {
			n := mkLen(a[0])
			return [][]*Term{{Lt(n, a[1])}, {Le(Num(1), a[1]), Le(a[1], n)}, {Le(a[1], Num(0))}}[i]
		})
		for _, pa := range s.returns() {
			st, f := pa.St, pa.St.facts
			data, size := s.a[0], s.a[1]
			bad := func(msg string) { r.bad("new", "core.NewDataBuffer/"+name, s.pos(), msg) }
			buf := unface(pa.Res[0])
			if buf.Op != "alloc" || typKey(elemTypeOf(buf.Typ)) != typKey(bt) {
				bad("the result is not a new DataBuffer")
				continue
			}
			d := s.fieldOf(st, buf, dataF)
			want := func(k *Term) *Term { return at(data, k) }
			n := mkLen(data)
			if i == 1 {
				n = size
				want = func(k *Term) *Term { return at(data, Add(Sub(mkLen(data), size), k)) }
			}
			if !eqUnder(f, mkLen(d), n) {
				bad(fmt.Sprintf("a new buffer holds %v elements instead of %v", mkLen(d), n))
				continue
			}
			if !f.Entails(Eq(n, Num(0))) {
				c := content(st, d, n)
				if c == nil || !sameElem(f, c(probe), want(probe)) {
					got := layersString(st, d)
					if c != nil {
						got = c(probe).String()
					}
					bad("a new buffer holds other elements: " + clip(got, 300))
					continue
				}
			}
			ch := s.fieldOf(st, buf, pipeF)
			if ch == nil || ch.Op != "makechan" {
				bad("the channel of the buffer is not created with it")
				continue
			}
			str := s.fieldOf(st, buf, stratF)
			if str == nil || str.Op != "mkiface" {
				bad("the window strategy of a new buffer is not known")
				continue
			}
			rg := &ring{t: str.Ref.(types.Type)}
			k := typKey(rg.t)
			obj := unface(str)
			if i < 2 {
				rg.size, rg.pos, rg.zeroOK = r.ringFields(s, st, obj, f, size, n, i == 1)
				if rg.size == nil || rg.pos == nil {
					bad("the size and the position of the window are not recognised, or do not follow the data")
					continue
				}
			} else {
				k = "unbounded " + k
			}
			if o := rings[k]; o != nil {
				if o.size != rg.size || o.pos != rg.pos {
					bad("windows are represented differently")
					continue
				}
				o.zeroOK = o.zeroOK || rg.zeroOK
			} else {
				rings[k] = rg
				order = append(order, k)
			}
			r.ok("new", "core.NewDataBuffer/"+name)
		}
	}
	// the buffer shares nothing with the data it is built from
	al := r.effects(fn)
	shared := false
	for _, l := range sortedLocs(al.reach(al.Results(fn, -1))) {
		if l.o.arg && l.o.name == fn.Params[0].Name() {
			shared = true
		}
	}
	r.check(!shared, "fresh", "core.NewDataBuffer", r.p.pos(fn.Pos()), "the buffer shares the storage of the data it is built from")
	r.pure(fn)
	for _, k := range order {
		r.step(rings[k])
	}
	r.bufferPush(bt, dataF, stratF, pipeF)
	r.bufferApply(bt, dataF, stratF, pipeF)
	if s := r.sym("core.DataBuffer.Data", Options{}); s != nil {
		for _, pa := range s.returns() {
			r.check(pa.Res[0] == loadOf(r.fieldAddr(s.a[0], dataF)), "data", s.name, s.pos(), "the data of the buffer are not returned")
		}
	}
	for _, k := range []string{"kmeans", "mcmc"} {
		r.implBuffer(k)
	}
}

// bufferFields recognises the fields of a buffer by their types
func bufferFields(t *types.Named) (data, strategy, pipe string) {
	st := structOf(t)
	for i := 0; st != nil && i < st.NumFields(); i++ {
		f := st.Field(i)
		set := func(p *string) {
			if *p != "" {
				*p = "?"
			} else {
				*p = f.Name()
			}
		}
		switch f.Type().Underlying().(type) {
		case *types.Slice:
			set(&data)
		case *types.Chan:
			set(&pipe)
		case *types.Interface:
			set(&strategy)
		}
	}
	return
}

// sameElem: the same element of the same slice
func sameElem(f *Facts, a, b *Term) bool {
	if a == b {
		return true
	}
	return a.Op == "elem" && b.Op == "elem" && a.Aux == b.Aux && a.Args[0] == b.Args[0] && f.Entails(Eq(a.Args[1], b.Args[1]))
}

func unface(t *Term) *Term {
	for t != nil && t.Op == "mkiface" {
		t = t.Args[0]
	}
	return t
}

// fieldOf reads a field of an object in a state
func (s *symRun) fieldOf(st *State, ptr *Term, name string) *Term {
	a := s.r.fieldAddr(ptr, name)
	if a.Op == "missing" {
		return nil
	}
	v, split := s.e.load(st.clone(), a, elemTypeOf(a.Typ))
	if split != nil {
		return nil
	}
	return v
}

// ringFields recognises the size and position of a window by their values in a new buffer of n elements
func (r *Report) ringFields(s *symRun, st *State, obj *Term, f *Facts, size, n *Term, full bool) (sz, pos *types.Var, zeroOK bool) {
	t := structOf(elemTypeOf(obj.Typ))
	if t == nil {
		t = structOf(obj.Typ)
	}
	var ints []*types.Var
	vals := map[*types.Var]*Term{}
	for i := 0; t != nil && i < t.NumFields(); i++ {
		if isIntType(t.Field(i).Type()) {
			v := s.fieldOf(st, obj, t.Field(i).Name())
			if v == nil {
				return nil, nil, false
			}
			ints = append(ints, t.Field(i))
			vals[t.Field(i)] = v
		} else {
			return nil, nil, false
		}
	}
	if len(ints) != 2 {
		return nil, nil, false
	}
	try := func(a, b *types.Var) bool {
		if !eqUnder(f, vals[a], size) {
			return false
		}
		return eqUnder(f, vals[b], n) || full && f.Entails(Eq(vals[b], Num(0)))
	}
	a, b := ints[0], ints[1]
	if try(a, b) && try(b, a) {
		// both are the size of a full window: told apart by their use
		a, b = r.byUse(s, obj, a, b)
		return a, b, true
	}
	if try(b, a) {
		a, b = b, a
	} else if !try(a, b) {
		return nil, nil, false
	}
	return a, b, !f.Entails(Lt(vals[b], size))
}

// byUse: the position is the field that the strategy writes
func (r *Report) byUse(s *symRun, obj *Term, a, b *types.Var) (sz, pos *types.Var) {
	n, _ := elemTypeOf(obj.Typ).(*types.Named)
	if n == nil {
		return a, b
	}
	wr := map[string]bool{}
	for _, m := range r.p.methods(types.NewPointer(n), false) {
		for _, w := range r.effects(m).Writes() {
			wr[strings.TrimPrefix(w.l.path, ".")] = true
		}
	}
	if wr[a.Name()] && !wr[b.Name()] {
		return b, a
	}
	return a, b
}

// entered tells whether a method of a type is called, or may be, from elsewhere than its other methods
func (p *Prog) entered(t types.Type, m *ssa.Function) bool {
	own := map[*ssa.Function]bool{}
	for _, o := range p.methods(t, false) {
		own[o] = true
		for _, g := range o.AnonFuncs {
			own[g] = true
		}
	}
	for _, f := range p.funcs {
		for _, g := range append([]*ssa.Function{f}, f.AnonFuncs...) {
			if own[g] || g.Synthetic != "" {
				continue
			}
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().IsInvoke() && ci.Common().Method.Name() == m.Name() {
						if it, ok := ci.Common().Value.Type().Underlying().(*types.Interface); ok && types.Implements(t, it) {
							return true
						}
					}
					for _, op := range in.Operands(nil) {
						if h, ok := (*op).(*ssa.Function); ok && (h == m || unwrap(h) == m) {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

// step checks one step of a window strategy under its invariant: 0 <= position <= size, at most size elements, and position = number of elements while there are fewer
func (r *Report) step(rg *ring) {
	var fn *ssa.Function
	for _, m := range r.p.methods(rg.t, false) {
		if !r.p.entered(rg.t, m) {
			continue // a part of another
		}
		if fn != nil {
			r.bad("step", typKey(rg.t), "", "the window strategy has several methods")
			return
		}
		fn = m
	}
	if fn == nil || fn.Signature.Params().Len() != 2 || fn.Signature.Results().Len() != 1 {
		r.bad("step", short(typKey(rg.t)), "", "the step of the window strategy is not recognised")
		return
	}
	name := short(typKey(rg.t)) + "." + fn.Name()
	if rg.size == nil {
		s := r.symFn(name, fn, Options{}, nil)
		for _, pa := range s.returns() {
			r.appended(name, s, pa, s.a[1], s.a[2])
		}
		return
	}
	try := func(strict bool) (bad []string, oks int) {
		for c := 0; c < 3; c++ {
			if c == 2 && strict {
				continue
			}
			var p, n, d *Term
			s := r.symFn(name, fn, Options{}, func(st *State) {
				a := params(fn)
				p, n, d = loadOf(r.fieldAddr(a[0], rg.pos.Name())), loadOf(r.fieldAddr(a[0], rg.size.Name())), a[1]
				l := []*Term{Le(Num(1), n), Le(Num(0), p)}
				switch c {
				case 0: // room left
					l = append(l, Lt(mkLen(d), n), Eq(p, mkLen(d)))
				case 1: // full
					l = append(l, Eq(mkLen(d), n), Lt(p, n))
				case 2: // full, position at the end
					l = append(l, Eq(mkLen(d), n), Eq(p, n))
				}
				for _, x := range l {
					st.facts = st.facts.Add(x)
				}
			})
			for _, pa := range s.paths {
				st, f := pa.St, pa.St.facts
				what := []string{"a window that is not full", "a full window", "a full window at its end"}[c]
				if pa.Kind != "return" {
					bad = append(bad, "a push may panic into "+what)
					continue
				}
				x := pa.Res[0]
				p2, n2 := s.fieldOf(st, s.a[0], rg.pos.Name()), s.fieldOf(st, s.a[0], rg.size.Name())
				if n2 != n {
					bad = append(bad, "a push changes the size of the window")
				}
				if c == 0 {
					if ok := s.appendOK(st, x, d, s.a[2], f); !ok {
						bad = append(bad, "a push into "+what+" does not append the element: "+clip(x.String(), 200))
					}
					if !f.Entails(Eq(p2, AddN(mkLen(d), 1))) && !(f.Entails(Eq(p2, Num(0))) && f.Entails(Eq(AddN(mkLen(d), 1), n))) {
						bad = append(bad, "the position does not follow the data of "+what+": "+clip(p2.String(), 100))
					}
					if strict && !f.Entails(Lt(p2, n)) {
						bad = append(bad, "the position may reach the size")
					}
					oks++
					continue
				}
				q := p
				if c == 2 {
					q = Num(0)
				}
				ls := regionsOf(st, d)
				if x != d || len(ls) != 1 || ls[0].kind != "point" || !f.Entails(Eq(ls[0].a, q)) || ls[0].val != s.a[2] {
					bad = append(bad, "a push into "+what+" does not replace the oldest element: "+clip(x.String()+" "+layersString(st, d), 300))
				}
				if !f.Entails(Eq(p2, AddN(q, 1))) && !(f.Entails(Eq(p2, Num(0))) && f.Entails(Eq(AddN(q, 1), n))) {
					bad = append(bad, "the position does not advance by one in "+what+": "+clip(p2.String(), 100))
				}
				if strict && !f.Entails(Lt(p2, n)) {
					bad = append(bad, "the position may reach the size")
				}
				oks++
			}
		}
		return
	}
	bad, n := try(true)
	if rg.zeroOK || len(bad) > 0 {
		bad, n = try(false)
	}
	for _, b := range bad {
		r.bad("step", name, r.p.pos(fn.Pos()), b)
	}
	if len(bad) == 0 && n > 0 {
		r.ok("step", name)
	}
}

// appendOK: x is d followed by e
func (s *symRun) appendOK(st *State, x, d, e *Term, f *Facts) bool {
	if x.Op == "append" && len(x.Args) == 2 && x.Args[0] == d && x.Args[1] == e {
		return len(regionsOf(st, d)) == 0 && len(regionsOf(st, x)) <= 1
	}
	if !eqUnder(f, mkLen(x), AddN(mkLen(d), 1)) {
		return false
	}
	et := elemTypeOf(d.Typ)
	ld := func(i *Term, l ...*Term) *Term {
		t := st.clone()
		for _, y := range l {
			t.facts = t.facts.Add(y)
		}
		v, split := s.e.load(t, mkIndexAddr(x, i, types.NewPointer(et)), et)
		if split != nil {
			return nil
		}
		return v
	}
	return ld(mkLen(d)) == e && ld(probe, Le(Num(0), probe), Lt(probe, mkLen(d))) == at(d, probe)
}

func (r *Report) appended(name string, s *symRun, pa *Path, d, e *Term) {
	r.check(s.appendOK(pa.St, pa.Res[0], d, e, pa.St.facts), "step", name, s.pos(), "a push does not append the element after the others: "+clip(pa.Res[0].String(), 200))
}

// strategyCall matches a call of the window strategy of a buffer
func strategyCall(ev *Event, strat *Term) bool {
	return (ev.Kind == "invoke" || ev.Kind == "call") && ev.Recv == strat
}

// bufferPush: stored by the strategy or sent, once
func (r *Report) bufferPush(bt *types.Named, dataF, stratF, pipeF string) {
	name := "core.DataBuffer.Push"
	for _, running := range []bool{false, true} {
		s := r.symIf(name, Options{}, func(a []*Term) []*Term {
			if running {
				return []*Term{a[2]}
			}
			return []*Term{Not(a[2])}
		})
		for _, pa := range s.returns() {
			b := s.a[0]
			data, strat, pipe := loadOf(r.fieldAddr(b, dataF)), loadOf(r.fieldAddr(b, stratF)), loadOf(r.fieldAddr(b, pipeF))
			sends, steps := 0, 0
			var last *Term
			for _, ev := range pa.St.trace.Events() {
				switch {
				case ev.Kind == "send" && ev.Recv == pipe:
					sends++
					r.check(len(ev.Args) > 0 && ev.Args[0] == s.a[1], "push", name+"/staged", r.p.pos(ev.Pos), "another element is staged")
				case strategyCall(ev, strat):
					steps++
					last = ev.Res
					r.check(len(ev.Args) == 2 && ev.Args[0] == data && ev.Args[1] == s.a[1], "push", name+"/stored", r.p.pos(ev.Pos), "another element, or into other data, is stored")
				}
			}
			after := s.fieldOf(pa.St, b, dataF)
			if running {
				r.check(sends == 1 && steps == 0 && after == data, "push", name+"/running", s.pos(), fmt.Sprintf("a push while running stages the element %d times and stores it %d times", sends, steps))
			} else {
				r.check(sends == 0 && steps == 1 && after == last, "push", name+"/direct", s.pos(), fmt.Sprintf("a direct push stages the element %d times and stores it %d times, or the data are not those returned by the strategy", sends, steps))
			}
			r.check(pa.Res[0] == Nil, "push", name+"/error", s.pos(), "an accepted push returns an error")
		}
	}
}

// bufferApply: every staged element is received and stored once, until none is left
func (r *Report) bufferApply(bt *types.Named, dataF, stratF, pipeF string) {
	name := "core.DataBuffer.Apply"
	s := r.sym(name, Options{})
	if s == nil {
		return
	}
	b := s.a[0]
	strat, pipe := loadOf(r.fieldAddr(b, stratF)), loadOf(r.fieldAddr(b, pipeF))
	dataA := r.fieldAddr(b, dataF)
	var L *LoopInst
	bad := func(pos, msg string) { r.bad("apply", name, pos, msg) }
	for _, in := range s.e.insts {
		if L != nil {
			bad(s.pos(), "several loops")
			return
		}
		L = in
	}
	if L == nil || len(L.Backs) == 0 {
		bad(s.pos(), "the staged elements are not applied in a loop")
		return
	}
	n := 0
	var dv *LoopVar
	for _, v := range L.Vars {
		if v.Cell == dataA {
			dv = v
		}
	}
	if dv == nil || dv.Var == nil {
		bad(s.pos(), "the loop does not store into the data")
		return
	}
	for _, bk := range L.Backs {
		var got *Term
		recvs, steps := 0, 0
		var last *Term
		for i, ev := range bk.St.trace.Events() {
			if i <= L.Enter && ev.Kind != "recv" && !strategyCall(ev, strat) {
				continue
			}
			switch {
			case ev.Kind == "recv":
				recvs++
				if ev.Recv != pipe {
					bad(r.p.pos(ev.Pos), "something else is received")
				}
				got = ev.Res
			case strategyCall(ev, strat):
				steps++
				last = ev.Res
				if len(ev.Args) != 2 || ev.Args[0] != dv.Var || got == nil || ev.Args[1] != got {
					bad(r.p.pos(ev.Pos), "the element stored is not the one received, or not into the current data")
				}
			}
		}
		if recvs != 1 || steps != 1 || bk.Next[dv] != last {
			bad(s.pos(), fmt.Sprintf("an iteration receives %d elements and stores %d, or does not keep the result", recvs, steps))
		}
		n++
	}
	for _, pa := range s.returns() {
		drained := false
		f := pa.St.facts
		for _, ev := range pa.St.trace.Events() {
			switch {
			case ev.Kind == "default":
				drained = true
			case ev.Kind == "recv":
				// the channel is closed
				ok := false
				for _, l := range f.all() {
					if l.Op == "not" && l.Args[0].Op == "recvok" {
						ok = true
					}
				}
				if ok {
					drained = true
				} else {
					bad(r.p.pos(ev.Pos), "an element is received and not stored")
				}
			case strategyCall(ev, strat):
				bad(r.p.pos(ev.Pos), "an element is stored out of the loop")
			}
		}
		r.check(drained, "apply", name+"/drained", s.pos(), "the application may end while elements are staged")
	}
	if n > 0 {
		r.ok("apply", name)
	}
}

// implBuffer: an implementation pushes each element once to its buffer, staged when a run may be using it, and applies the staged ones
func (r *Report) implBuffer(pk string) {
	name := pk + ".Impl.Push"
	core := r.p.byPkg["core"]
	val := func(n string) *Term {
		if c, ok := core.Members[n].(*ssa.NamedConst); ok {
			return constTerm(c.Value)
		}
		r.bad("anchor", "core."+n, "", "status not found")
		return Num(-1)
	}
	if s := r.sym(name, Options{}); s != nil {
		for _, pa := range s.returns() {
			n := 0
			for _, ev := range pa.St.trace.Events() {
				if ev.Kind != "invoke" || ev.Name != "Buffer.Push" {
					continue
				}
				n++
				r.check(ev.Args[0] == s.a[1], "push", name+"/element", r.p.pos(ev.Pos), "another element is pushed")
				r.check(pa.Res[0] == ev.Res, "push", name+"/error", r.p.pos(ev.Pos), "the error of the buffer is not returned")
				// staged if and only if alive
				var v *Term
				for _, e2 := range pa.St.trace.Events() {
					if e2.Kind == "invoke" && e2.Name == "OCModel.Status" {
						if v != nil {
							r.bad("push", name+"/status", r.p.pos(e2.Pos), "the status is read twice")
						}
						v = mkField(e2.Res, e2.Res.Typ, 0)
					}
				}
				if v == nil {
					r.bad("push", name+"/status", r.p.pos(ev.Pos), "the push does not depend on the status")
					continue
				}
				for _, x := range []struct {
					s    string
					want *Term
				}{{"Ready", True}, {"Running", True}, {"Idle", True}, {"Created", False}, {"Finished", False}} {
					f, ok := pa.St.facts.Assume(Eq(v, val(x.s)))
					if !ok {
						continue
					}
					got := ev.Args[1]
					fine := f.Entails(got)
					if x.want == False {
						fine = f.Entails(Not(got))
					}
					r.check(fine, "push", name+"/"+x.s, r.p.pos(ev.Pos), "an element pushed to an algorithm that is "+x.s+" is staged or stored at the wrong moment")
				}
			}
			r.check(n == 1, "push", name, s.pos(), fmt.Sprintf("an element is pushed %d times", n))
		}
	}
	for _, m := range []string{"Init", "Iterate"} {
		name := pk + ".Impl." + m
		s := r.sym(name, Options{})
		for _, pa := range s.returns() {
			applied, used := 0, false
			for _, ev := range pa.St.trace.Events() {
				if ev.Kind == "invoke" && ev.Name == "Buffer.Apply" {
					applied++
					if m == "Init" && used {
						r.bad("apply", name, r.p.pos(ev.Pos), "the data are used before the staged elements are applied")
					}
				}
				if ev.Kind == "invoke" && ev.Name == "Buffer.Data" {
					used = true
				}
			}
			r.check(applied >= 1, "apply", name, s.pos(), "the staged elements are not applied")
		}
	}
}
