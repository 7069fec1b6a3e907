package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// LoopVar is a value carried by a loop: a phi or a memory cell.
type LoopVar struct {
	Phi   *ssa.Phi
	Cell  *Term
	Init  *Term
	Class string // inv, iv, consts, lv
	Step  *Term
	Set   []*Term
	Var   *Term // value at the head of the arbitrary iteration
	Typ   types.Type
}

// Back is an iteration that reaches the head again.
type Back struct {
	St   *State
	Next map[*LoopVar]*Term
}

// LoopInst is one analysed loop entry.
type LoopInst struct {
	ID      string
	Fn      *ssa.Function
	Header  *ssa.BasicBlock
	Body    map[*ssa.BasicBlock]bool
	Entry   *State
	K       *Term
	Vars    []*LoopVar
	Regs    map[*Term]bool
	Maps    map[*Term]bool
	Backs   []*Back
	Exits   []*State
	N       *Term // trip count when the loop runs to exhaustion
	Guard   *Term
	Cands   []*Term
	Par     bool
	Start   *Term
	End     *Term
	Rank    *Term
	Size    *Term
	Degree  *Term
	Node    *TNode // loop enter node
	HeldBad bool
	Enter   int
}

func allocSeq(t *Term) int {
	i := strings.LastIndex(t.Aux, "#")
	if i < 0 {
		return -1
	}
	n, err := strconv.Atoi(t.Aux[i+1:])
	if err != nil {
		return -1
	}
	return n
}

func (inst *LoopInst) local(t *Term) bool {
	r := rootOf(t)
	switch r.Op {
	case "alloc", "makeslice", "makemap", "makechan":
		return allocSeq(r) > inst.Entry.nid
	}
	return false
}

// variant: depends on the loop's own variables
func (inst *LoopInst) variant(t *Term) bool {
	if !t.vars {
		return false
	}
	return Any(t, func(x *Term) bool {
		if x == inst.K || x == inst.Start || x == inst.End || x == inst.Rank {
			return true
		}
		return x.Op == "lv" && strings.HasPrefix(x.Aux, inst.ID+"/")
	})
}

// variantNoK: depends on loop variables other than the counter
func (inst *LoopInst) variantNoK(t *Term) bool {
	return Any(t, func(x *Term) bool {
		if x.Op == "lv" && strings.HasPrefix(x.Aux, inst.ID+"/") {
			return true
		}
		if x != inst.K && seqOf(x) > inst.Entry.nid {
			return true // created by the iteration
		}
		return (x.Op == "elem" || x.Op == "mapget" || x.Op == "maphas") && x.Aux == inst.ID
	})
}

// seqOf: the order in which a value was created by the analysed path; -1 when it depends on the others only
func seqOf(t *Term) int {
	switch t.Op {
	case "res", "intn", "uniform", "rand01", "alloc", "makeslice", "makemap", "makechan", "recv", "recvok", "lv", "K":
	default:
		return -1
	}
	i := strings.IndexByte(t.Aux, '#')
	if i < 0 {
		return -1
	}
	n := -1
	for i++; i < len(t.Aux) && t.Aux[i] >= '0' && t.Aux[i] <= '9'; i++ {
		if n < 0 {
			n = 0
		}
		n = 10*n + int(t.Aux[i]-'0')
	}
	return n
}

func (inst *LoopInst) collectBack(e *Exec, st *State, from *ssa.BasicBlock) {
	b := &Back{St: st, Next: map[*LoopVar]*Term{}}
	idx := predIndex(from, inst.Header)
	for _, v := range inst.Vars {
		if v.Phi != nil {
			b.Next[v] = e.val(st, v.Phi.Edges[idx])
		} else {
			b.Next[v] = e.loadCell(st, v.Cell, v.Typ)
		}
	}
	if len(st.held) != len(inst.Entry.held) {
		inst.HeldBad = true
	} else {
		for i := range st.held {
			if st.held[i].Addr != inst.Entry.held[i].Addr {
				inst.HeldBad = true
			}
		}
	}
	inst.Backs = append(inst.Backs, b)
}

func lvTerm(id, name string, t types.Type) *Term {
	if isStructType(t) {
		s := structOf(t)
		var as []*Term
		for i := 0; i < s.NumFields(); i++ {
			as = append(as, lvTerm(id, name+"."+s.Field(i).Name(), s.Field(i).Type()))
		}
		return mkStruct(t, as)
	}
	return U.mk("lv", id+"/"+name, nil, t)
}

func (v *LoopVar) name() string {
	if v.Phi != nil {
		n := v.Phi.Comment
		return n + "." + v.Phi.Name()
	}
	return "cell" + strconv.Itoa(v.Cell.id)
}

func isConstVal(t *Term) bool {
	switch t.Op {
	case "num", "true", "false", "nil", "str":
		return true
	}
	return false
}

// headers builds the states at the loop head for the current classification
func (inst *LoopInst) headers(e *Exec) []*State {
	base := inst.Entry.clone()
	for r := range inst.Regs {
		base.regs[r] = append(append([]layer{}, base.regs[r]...), layer{kind: "havoc", ver: inst.ID})
	}
	for m := range inst.Maps {
		base.maps[m] = append(append([]mlayer{}, base.maps[m]...), mlayer{kind: "havoc", ver: inst.ID})
	}
	states := []*State{base}
	total := 1
	for _, v := range inst.Vars {
		if v.Class == "consts" {
			total *= len(v.Set)
			if total > 8 {
				v.Class = "lv"
			}
		}
	}
	setv := func(st *State, v *LoopVar, t *Term) {
		if v.Phi != nil {
			st.top().env[v.Phi] = t
		} else {
			e.store(st, v.Cell, t, v.Typ)
		}
	}
	for _, v := range inst.Vars {
		switch v.Class {
		case "inv":
			v.Var = v.Init
		case "iv":
			v.Var = Add(v.Init, Mul(v.Step, inst.K))
		case "lv":
			v.Var = lvTerm(inst.ID, v.name(), v.Typ)
		case "drop":
			for _, st := range states {
				delete(st.cells, v.Cell)
			}
			v.Var = nil
			continue
		case "consts":
			v.Var = nil
			var next []*State
			for _, st := range states {
				for _, c := range v.Set {
					n := st.clone()
					setv(n, v, c)
					next = append(next, n)
				}
			}
			states = next
			continue
		}
		for _, st := range states {
			setv(st, v, v.Var)
		}
	}
	for _, st := range states {
		st.facts = st.facts.Add(Le(Num(0), inst.K))
		for _, c := range inst.Cands {
			st.facts = st.facts.Add(c)
		}
		f := st.top()
		f.block = inst.Header
		f.pc = firstNonPhi(inst.Header)
		st.loops = append(st.loops, LoopCtx{inst, len(st.frames) - 1})
		st.emit(&Event{Kind: "loopenter", Inst: inst, Pos: headerPos(inst.Header)})
		inst.Enter = st.trace.n
	}
	return states
}

func (e *Exec) runBody(inst *LoopInst) {
	inst.Backs = nil
	inst.Exits = nil
	inst.HeldBad = false
	for _, h := range inst.headers(e) {
		for _, c := range e.explore(h) {
			if c.cap == "exit" {
				inst.Exits = append(inst.Exits, c)
			}
		}
	}
}

// reclassify updates the classification from the iterations found; true when it changed
func (inst *LoopInst) reclassify(e *Exec, pass int) bool {
	changed := false
	for _, v := range inst.Vars {
		var nexts []*Term
		for _, b := range inst.Backs {
			nexts = append(nexts, b.Next[v])
		}
		if len(nexts) == 0 {
			continue
		}
		same := func(t *Term) bool {
			for i, n := range nexts {
				if n != t && !inst.Backs[i].St.facts.Entails(Eq(n, t)) {
					return false
				}
			}
			return true
		}
		tryConsts := func(set []*Term) bool {
			m := map[*Term]bool{}
			for _, c := range set {
				if !isConstVal(c) {
					return false
				}
				m[c] = true
			}
			for _, n := range nexts {
				if n.Op == "load" && n.Aux == "errglobal" {
				} else if !isConstVal(n) {
					return false
				}
				if !m[n] {
					m[n] = true
					set = append(set, n)
				}
			}
			if len(set) > 4 {
				return false
			}
			v.Class, v.Set = "consts", set
			return true
		}
		switch v.Class {
		case "inv":
			if same(v.Init) {
				continue
			}
			changed = true
			if isNumeric(v.Init) && nexts[0] != nil {
				step := Sub(nexts[0], v.Init)
				if _, ok := step.Const(); ok && same(Add(v.Init, step)) {
					v.Class, v.Step = "iv", step
					continue
				}
			}
			if tryConsts([]*Term{v.Init}) {
				continue
			}
			v.Class = "lv"
		case "iv":
			if same(Add(v.Var, v.Step)) {
				continue
			}
			changed = true
			v.Class = "lv"
		case "consts":
			n := len(v.Set)
			if tryConsts(v.Set) {
				if len(v.Set) != n {
					changed = true
				}
				continue
			}
			changed = true
			v.Class = "lv"
		}
	}
	// memory
	known := map[*Term]bool{}
	for _, v := range inst.Vars {
		if v.Cell != nil {
			known[v.Cell] = true
		}
	}
	for _, b := range inst.Backs {
		for a, val := range b.St.cells {
			if known[a] || inst.local(a) || inst.variant(a) {
				continue
			}
			typ := elemTypeOf(a.Typ)
			init, ok := inst.Entry.cells[a]
			if !ok {
				if e.volatile(inst.Entry, a) {
					known[a] = true
					inst.Vars = append(inst.Vars, &LoopVar{Cell: a, Class: "drop", Typ: typ})
					changed = true
					continue
				}
				init = e.loadCell(inst.Entry.clone(), a, typ)
			}
			if init == val {
				continue
			}
			if e.volatile(inst.Entry, a) {
				known[a] = true
				inst.Vars = append(inst.Vars, &LoopVar{Cell: a, Class: "drop", Typ: typ})
				changed = true
				continue
			}
			known[a] = true
			v := &LoopVar{Cell: a, Init: init, Class: "inv", Typ: typ, Var: init}
			inst.Vars = append(inst.Vars, v)
			changed = true
			// classify at once from this iteration
			b.Next[v] = val
			for _, o := range inst.Backs {
				if o.Next[v] == nil {
					o.Next[v] = e.loadCell(o.St.clone(), a, typ)
				}
			}
		}
		// cells of the entry that disappeared are volatile: nothing to do
		for r, ls := range b.St.regs {
			if inst.Regs[r] || inst.local(r.Args[0]) || inst.variant(r.Args[0]) {
				continue
			}
			if !sameLayers(ls, inst.Entry.regs[r]) {
				inst.Regs[r] = true
				changed = true
			}
		}
		for m, ls := range b.St.maps {
			if inst.Maps[m] || inst.local(m) || inst.variant(m) {
				continue
			}
			if !sameMLayers(ls, inst.Entry.maps[m]) {
				inst.Maps[m] = true
				changed = true
			}
		}
	}
	return changed
}

func sameLayers(a, b []layer) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func sameMLayers(a, b []mlayer) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (e *Exec) enterLoop(st *State, from, to *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) []*State {
	f := st.top()
	e.phis(st, f, from, to)
	f.prev, f.block, f.pc = from, to, firstNonPhi(to)
	id := fmt.Sprintf("%s.%d#%d", f.fn.String(), to.Index, st.fresh())
	inst := &LoopInst{ID: id, Fn: f.fn, Header: to, Body: body, Entry: st, Regs: map[*Term]bool{}, Maps: map[*Term]bool{}}
	inst.K = U.mk("K", id, nil, types.Typ[types.Int])
	for _, in := range to.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		inst.Vars = append(inst.Vars, &LoopVar{Phi: p, Init: f.env[p], Class: "inv", Typ: p.Type(), Var: f.env[p]})
	}
	e.dry++
	savedStates := e.undecided
	for pass := 0; ; pass++ {
		e.runBody(inst)
		if !inst.reclassify(e, pass) {
			break
		}
		if pass > 40 {
			e.dry--
			e.give(st, "loop does not stabilize in "+f.fn.String())
			return nil
		}
	}
	// short constant loops are unrolled
	inst.findGuard()
	if inst.N != nil {
		if n, ok := inst.N.Const(); ok && n.IsInt() && n.Sign() >= 0 && n.Num().Int64() <= 8 && inst.hasCounterPhi() {
			e.dry--
			e.undecided = savedStates
			if f.unroll == nil {
				f.unroll = map[*ssa.BasicBlock]bool{}
			}
			f.unroll[to] = true
			return []*State{st}
		}
	}
	// inductive facts about the remaining variables
	inst.candidates(e)
	if len(inst.Cands) > 0 {
		for pass := 0; pass < 12; pass++ {
			e.runBody(inst)
			var keep []*Term
			for _, c := range inst.Cands {
				ok := true
				for _, b := range inst.Backs {
					if !b.St.facts.Entails(inst.shift(c, b)) {
						ok = false
						break
					}
				}
				if ok {
					keep = append(keep, c)
				}
			}
			if len(keep) == len(inst.Cands) {
				break
			}
			inst.Cands = keep
		}
	}
	e.dry--
	e.undecided = savedStates
	e.runBody(inst)
	inst.findGuard()
	if e.dry == 0 {
		e.insts = append(e.insts, inst)
	}
	var outs []*State
	for _, x := range inst.Exits {
		x.cap = ""
		outs = append(outs, inst.finish(e, x)...)
	}
	return outs
}

func (inst *LoopInst) hasCounterPhi() bool {
	for _, v := range inst.Vars {
		if v.Class == "iv" {
			return true
		}
	}
	return false
}

// shift rewrites a fact about the head values into the same fact about the next head values
func (inst *LoopInst) shift(c *Term, b *Back) *Term {
	m := map[*Term]*Term{inst.K: AddN(inst.K, 1)}
	for _, v := range inst.Vars {
		if v.Class == "lv" && v.Var != nil {
			if v.Var.Op == "lv" {
				m[v.Var] = b.Next[v]
			} else if v.Var.Op == "struct" {
				for i, a := range v.Var.Args {
					if a.Op == "lv" {
						m[a] = mkField(b.Next[v], v.Typ, i)
					}
				}
			}
		}
	}
	return Subst(c, m)
}

// atEntry rewrites a fact about the head values into the same fact about the initial values
func (inst *LoopInst) atEntry(c *Term) *Term {
	m := map[*Term]*Term{inst.K: Num(0)}
	for _, v := range inst.Vars {
		if v.Class == "lv" && v.Var != nil {
			if v.Var.Op == "lv" {
				m[v.Var] = v.Init
			} else if v.Var.Op == "struct" {
				for i, a := range v.Var.Args {
					if a.Op == "lv" {
						m[a] = mkField(v.Init, v.Typ, i)
					}
				}
			}
		}
	}
	return Subst(c, m)
}

func (inst *LoopInst) candidates(e *Exec) {
	var cs []*Term
	var lvs []*LoopVar
	for _, v := range inst.Vars {
		if v.Class == "lv" && v.Var.Op == "lv" && isNumType(v.Typ) {
			lvs = append(lvs, v)
		}
	}
	for _, v := range lvs {
		if isIntType(v.Typ) {
			cs = append(cs, Le(v.Init, v.Var), Le(v.Var, v.Init), Le(Num(0), v.Var), Le(v.Var, AddN(inst.K, 0)), Le(Num(-1), v.Var))
			cs = append(cs, Le(v.Var, Add(v.Init, inst.K)), Eq(v.Var, Add(v.Init, inst.K)))
		}
	}
	// slices that grow with the loop
	for _, v := range inst.Vars {
		if v.Class == "lv" && v.Var.Op == "lv" {
			if _, ok := v.Typ.Underlying().(*types.Slice); ok {
				cs = append(cs, Eq(mkLen(v.Var), Add(mkLen(v.Init), inst.K)), Le(mkLen(v.Init), mkLen(v.Var)), Le(mkLen(v.Var), mkLen(v.Init)), Eq(mkLen(v.Var), mkLen(v.Init)))
			}
		}
	}
	// guards, relaxed by one
	seen := map[*Term]bool{}
	addGuard := func(l *Term) {
		if l.Op != "le0" || seen[l] || !inst.variant(l) {
			return
		}
		seen[l] = true
		p := polyOf(l.Args[0])
		if !allIntAtoms(p) {
			return
		}
		cs = append(cs, l, Le(AddN(l.Args[0], -1), Num(0)))
	}
	for _, b := range inst.Backs {
		for x := b.St.facts; x != nil && x != inst.Entry.facts; x = x.prev {
			addGuard(x.lit)
		}
	}
	if e.opts.Cands != nil {
		cs = append(cs, e.opts.Cands(inst.Entry, inst)...)
	}
	// keep those that hold at entry
	for _, c := range cs {
		if c == True || c == False {
			continue
		}
		if inst.Entry.facts.Entails(inst.atEntry(c)) {
			inst.Cands = append(inst.Cands, c)
		}
	}
	if len(inst.Cands) > 40 {
		inst.Cands = inst.Cands[:40]
	}
}

// findGuard recognises the trip count
func (inst *LoopInst) findGuard() {
	inst.Guard, inst.N = nil, nil
	if len(inst.Backs) == 0 {
		return
	}
	first := inst.Backs[0].St.facts
	for x := first; x != nil && x != inst.Entry.facts; x = x.prev {
		l := x.lit
		if l.Op != "le0" {
			continue
		}
		p := l.Args[0]
		rest := Sub(p, inst.K)
		if inst.variant(rest) || inst.variantNoK(rest) || !Contains(p, inst.K) {
			continue
		}
		all := true
		for _, b := range inst.Backs[1:] {
			if !b.St.facts.lits()[l] {
				all = false
			}
		}
		if !all {
			continue
		}
		n := Not(l)
		ex := false
		for _, s := range inst.Exits {
			if s.facts.lits()[n] || s.facts.Entails(n) {
				ex = true
			}
		}
		if !ex {
			continue
		}
		inst.Guard = l
		inst.N = Sub(Num(1), rest)
		return
	}
	// no textual occurrence: the guard may be implied
	for _, s := range inst.Exits {
		for x := s.facts; x != nil && x != inst.Entry.facts; x = x.prev {
			if x.lit.Op != "le0" {
				continue
			}
			l := Not(x.lit)
			if l.Op != "le0" {
				continue
			}
			rest := Sub(l.Args[0], inst.K)
			if inst.variant(rest) || inst.variantNoK(rest) || !Contains(l.Args[0], inst.K) {
				continue
			}
			all := true
			for _, b := range inst.Backs {
				if !b.St.facts.Entails(l) {
					all = false
				}
			}
			if all {
				inst.Guard = l
				inst.N = Sub(Num(1), rest)
				return
			}
		}
	}
}

// finish turns a raw exit state into the states after the loop
func (inst *LoopInst) finish(e *Exec, x *State) []*State {
	if x.panic != nil || x.unw {
		x.emit(&Event{Kind: "loopexit", Inst: inst, Name: "panic"})
		return []*State{x}
	}
	exhausted := inst.Guard != nil && x.facts.Entails(Not(inst.Guard))
	var outs []*State
	if exhausted {
		if x.facts.Entails(Le(Num(0), inst.N)) {
			outs = append(outs, inst.close(e, x, inst.N, true))
		} else {
			if f, ok := x.facts.Assume(Le(inst.N, Num(0))); ok {
				n := x.clone()
				n.facts = f
				if f2, ok := n.facts.Assume(Eq(inst.K, Num(0))); ok {
					n.facts = f2
					outs = append(outs, inst.close(e, n, Num(0), true))
				}
			}
			if f, ok := x.facts.Assume(Le(Num(1), inst.N)); ok {
				x.facts = f
				outs = append(outs, inst.close(e, x, inst.N, true))
			}
		}
	} else {
		outs = append(outs, inst.close(e, x, inst.K, false))
	}
	return outs
}

func (inst *LoopInst) close(e *Exec, x *State, k *Term, exhausted bool) *State {
	m := map[*Term]*Term{}
	if k != inst.K {
		m[inst.K] = k
	}
	// accumulators
	for _, v := range inst.Vars {
		if v.Class != "lv" || v.Var == nil || v.Var.Op != "lv" || len(inst.Backs) == 0 {
			continue
		}
		if isNumType(v.Typ) {
			var f *Term
			ok := true
			for _, b := range inst.Backs {
				d := Sub(b.Next[v], v.Var)
				if f == nil {
					f = d
				} else if f != d {
					ok = false
				}
			}
			if ok && f != nil && !inst.variantNoK(f) {
				m[v.Var] = Add(v.Init, mkSum(mkLam(f, inst.K), Num(0), k))
			}
		}
	}
	inst.argmins(e, k, exhausted, m)
	grown := map[*Term][]layer{}
	for _, v := range inst.Vars {
		inst.grow(e, v, x, k, m, grown)
	}
	n := x
	if len(m) > 0 {
		n = substState(x, m)
	}
	for r, ls := range grown {
		n.regs[r] = ls
	}
	// regions written once per iteration
	for r := range inst.Regs {
		if ls, ok := inst.closeRegion(e, r, n, k, m); ok {
			n.regs[r] = ls
		}
	}
	if exhausted || true {
		for mm := range inst.Maps {
			if ls, ok := inst.closeMap(e, mm, n); ok {
				n.maps[mm] = ls
			}
		}
	}
	name := "break"
	if exhausted {
		name = "exhausted"
	}
	n.emit(&Event{Kind: "loopexit", Inst: inst, Name: name, Res: k})
	return n
}

// skipped is the one iteration, among the k first, which does not extend a slice that every other one extends
func (inst *LoopInst) skipped(v *LoopVar, x *State, k *Term) *Term {
	var d *Term
	for _, b := range inst.Backs {
		if b.Next[v] != v.Var {
			continue
		}
		if d == nil {
			for _, l := range b.St.facts.all() {
				if l.Op != "eq0" || !Contains(l, inst.K) {
					continue
				}
				for _, c := range []*Term{Sub(inst.K, l.Args[0]), Add(inst.K, l.Args[0])} {
					if !Contains(c, inst.K) && !inst.variant(c) {
						d = c
					}
				}
			}
		}
		if d == nil || !b.St.facts.Entails(Eq(inst.K, d)) {
			return nil
		}
	}
	if d == nil || !x.facts.Entails(Le(Num(0), d)) || !x.facts.Entails(Lt(d, k)) {
		return nil
	}
	for _, b := range inst.Backs {
		if b.Next[v] != v.Var && !b.St.facts.Entails(Not(Eq(inst.K, d))) {
			return nil
		}
	}
	return d
}

// grow summarises a slice to which every iteration appends one value
func (inst *LoopInst) grow(e *Exec, v *LoopVar, x *State, k *Term, m map[*Term]*Term, grown map[*Term][]layer) {
	if v.Class != "lv" || v.Var == nil || v.Var.Op != "lv" || len(inst.Backs) == 0 {
		return
	}
	et := elemTypeOf(v.Typ)
	if _, ok := v.Typ.Underlying().(*types.Slice); !ok || et == nil || isStructType(et) {
		return
	}
	if k.IsInt(0) {
		m[v.Var] = v.Init
		return
	}
	if v.Init == Nil && !x.facts.Entails(Le(Num(1), k)) {
		return
	}
	var val *Term
	skip := inst.skipped(v, x, k)
	for _, b := range inst.Backs {
		nx := b.Next[v]
		if skip != nil && nx == v.Var {
			continue
		}
		if nx == nil || nx.Op != "append" || len(nx.Args) != 2 || nx.Args[0] != v.Var || val != nil && val != nx.Args[1] {
			return
		}
		val = nx.Args[1]
	}
	if val == nil || inst.variantNoK(val) {
		return
	}
	n0 := mkLen(v.Init)
	f := U.mk("fv", "g"+strconv.Itoa(val.bv+7000), nil, types.Typ[types.Int])
	var ls []layer
	if !n0.IsInt(0) {
		lam := e.contentLam(inst.Entry.clone(), v.Init, Num(0), n0)
		if lam == nil {
			return
		}
		ls = append(ls, layer{kind: "range", a: Num(0), b: n0, val: lam})
	}
	n := Add(n0, k)
	if skip == nil {
		ls = append(ls, layer{kind: "range", a: n0, b: n, val: mkLam(Subst(val, map[*Term]*Term{inst.K: Sub(f, n0)}), f)})
	} else {
		n = AddN(n, -1)
		at := Add(n0, skip)
		ls = append(ls, layer{kind: "range", a: n0, b: at, val: mkLam(Subst(val, map[*Term]*Term{inst.K: Sub(f, n0)}), f)})
		ls = append(ls, layer{kind: "range", a: at, b: n, val: mkLam(Subst(val, map[*Term]*Term{inst.K: AddN(Sub(f, n0), 1)}), f)})
	}
	g := U.mk("makeslice", "grown:"+inst.ID+"/"+v.Var.Aux, nil, v.Typ, n, n)
	m[v.Var] = g
	grown[U.mk("region", "", nil, et, g)] = ls
}

func substState(x *State, m map[*Term]*Term) *State {
	memo := map[*Term]*Term{}
	s := func(t *Term) *Term {
		if t == nil || !t.vars {
			return t
		}
		return substMemo(t, m, memo)
	}
	n := x
	for _, f := range n.frames {
		for v, t := range f.env {
			f.env[v] = s(t)
		}
		for i := range f.defers {
			f.defers[i].fn = s(f.defers[i].fn)
			as := make([]*Term, len(f.defers[i].args))
			for j, a := range f.defers[i].args {
				as[j] = s(a)
			}
			f.defers[i].args = as
		}
	}
	cells := map[*Term]*Term{}
	for a, v := range n.cells {
		cells[s(a)] = s(v)
	}
	n.cells = cells
	regs := map[*Term][]layer{}
	for r, ls := range n.regs {
		nl := make([]layer, len(ls))
		for i, l := range ls {
			nl[i] = layer{kind: l.kind, a: s(l.a), b: s(l.b), val: s(l.val), ver: l.ver}
		}
		regs[s(r)] = nl
	}
	n.regs = regs
	maps := map[*Term][]mlayer{}
	for r, ls := range n.maps {
		nl := make([]mlayer, len(ls))
		for i, l := range ls {
			nl[i] = mlayer{kind: l.kind, key: s(l.key), val: s(l.val), ok: s(l.ok), ver: l.ver}
		}
		maps[s(r)] = nl
	}
	n.maps = maps
	var facts *Facts
	for _, l := range x.facts.all() {
		facts = facts.Add(s(l))
	}
	n.facts = facts
	return n
}

// closeRegion summarises a region of which every iteration writes exactly one index
func (inst *LoopInst) closeRegion(e *Exec, r *Term, n *State, k *Term, m map[*Term]*Term) ([]layer, bool) {
	if len(inst.Backs) == 0 {
		return nil, false
	}
	ent := inst.Entry.regs[r]
	var idx, val *Term
	for _, b := range inst.Backs {
		ls := b.St.regs[r]
		if len(ls) != len(ent)+2 || ls[len(ent)].kind != "havoc" || ls[len(ent)+1].kind != "point" {
			return nil, false
		}
		p := ls[len(ent)+1]
		if idx == nil {
			idx, val = p.a, p.val
		} else if idx != p.a || val != p.val {
			return nil, false
		}
	}
	root, _ := sliceRoot(r.Args[0])
	// in place update
	self := mkElem(root, idx, inst.ID, nil)
	if Any(val, func(t *Term) bool { return t.Op == "elem" && t.Aux == inst.ID && t.Args[0] == root && t.Args[1] == idx }) {
		tmp := inst.Entry.clone()
		tmp.facts = inst.Backs[0].St.facts
		old, split := e.load(tmp, addPathIf(mkIndexAddr(root, idx, nil), r.Aux), r.Typ)
		if split != nil {
			return nil, false
		}
		sub := map[*Term]*Term{}
		Any(val, func(t *Term) bool {
			if t.Op == "elem" && t.Aux == inst.ID && t.Args[0] == root && t.Args[1] == idx {
				sub[t] = old
			}
			return false
		})
		_ = self
		val = Subst(val, sub)
	}
	if inst.variantNoK(val) || inst.variantNoK(idx) {
		return nil, false
	}
	up := Sub(idx, inst.K)
	f := U.mk("fv", "r"+strconv.Itoa(val.bv+5000), nil, types.Typ[types.Int])
	var la layer
	switch {
	case !inst.variant(up):
		la = layer{kind: "range", a: up, b: Add(up, k), val: mkLam(Subst(val, map[*Term]*Term{inst.K: Sub(f, up)}), f)}
	case !inst.variant(Add(idx, inst.K)):
		c := Add(idx, inst.K)
		la = layer{kind: "range", a: AddN(Sub(c, k), 1), b: AddN(c, 1), val: mkLam(Subst(val, map[*Term]*Term{inst.K: Sub(c, f)}), f)}
	default:
		return nil, false
	}
	// the exit iteration may have written as well
	ls := n.regs[r]
	if len(ls) < len(ent)+1 {
		return nil, false
	}
	res := append([]layer{}, ent...)
	if !Eq(la.a, la.b).isTrue() {
		res = append(res, la)
	}
	res = append(res, ls[len(ent)+1:]...)
	return res, true
}

func addPathIf(a *Term, path string) *Term {
	if path == "" {
		return a
	}
	return addPath(a, path)
}

func (t *Term) isTrue() bool { return t == True }

// closeMap recognises the copy of a map
func (inst *LoopInst) closeMap(e *Exec, mm *Term, n *State) ([]mlayer, bool) {
	ent := inst.Entry.maps[mm]
	if len(inst.Backs) != 1 || len(ent) != 0 || mm.Op != "makemap" {
		return nil, false
	}
	ls := inst.Backs[0].St.maps[mm]
	if len(ls) != 2 || ls[1].kind != "point" {
		return nil, false
	}
	key, val := ls[1].key, ls[1].val
	if key.Op != "mapkey" || inst.variantNoK(val) {
		return nil, false
	}
	src := key.Args[0].Args[0]
	// all exits by exhaustion of the map
	evs := n.trace.Events()
	last := ""
	for i := len(evs) - 1; i >= inst.Enter; i-- {
		if evs[i].Kind == "mapend" && evs[i].Recv == src {
			last = "end"
			break
		}
	}
	if last == "" {
		return nil, false
	}
	f := U.mk("fv", "m", nil, key.Typ)
	_, has, split := e.mapGet(inst.Entry.clone(), src, f, val.Typ)
	if split != nil || has == nil {
		return nil, false
	}
	lv := Subst(val, map[*Term]*Term{key: f})
	return []mlayer{{kind: "all", val: mkLam(lv, f), ok: mkLam(has, f)}}, true
}

// argmins recognises (label, minimum) pairs
func (inst *LoopInst) argmins(e *Exec, k *Term, exhausted bool, m map[*Term]*Term) {
	if !exhausted || len(inst.Backs) < 2 {
		return
	}
	for _, l := range inst.Vars {
		if l.Class != "lv" || l.Var.Op != "lv" || !isIntType(l.Typ) {
			continue
		}
		for _, mn := range inst.Vars {
			if mn == l || mn.Class != "lv" || mn.Var.Op != "lv" || !isNumType(mn.Typ) || isIntType(mn.Typ) {
				continue
			}
			inst.argmin(e, l, mn, k, m)
		}
	}
}

func (inst *LoopInst) argmin(e *Exec, l, mn *LoopVar, k *Term, m map[*Term]*Term) {
	var d, li *Term
	for _, b := range inst.Backs {
		if b.Next[l] == l.Var && b.Next[mn] == mn.Var {
			continue
		}
		if d == nil {
			d, li = b.Next[mn], b.Next[l]
		} else if d != b.Next[mn] || li != b.Next[l] {
			return
		}
	}
	if d == nil || inst.variantNoK(d) || inst.variantNoK(li) {
		return
	}
	// index as a function of the counter
	up := true
	off := Sub(li, inst.K)
	if inst.variant(off) {
		up = false
		off = Add(li, inst.K)
		if inst.variant(off) {
			return
		}
	}
	j := U.mk("fv", "j"+strconv.Itoa(d.bv), nil, types.Typ[types.Int])
	var D *Term // distance as a function of the label
	if up {
		D = mkLam(Subst(d, map[*Term]*Term{inst.K: Sub(j, off)}), j)
	} else {
		D = mkLam(Subst(d, map[*Term]*Term{inst.K: Sub(off, j)}), j)
	}
	better, worse := Lt(d, mn.Var), Le(mn.Var, d)
	if !up {
		better, worse = Le(d, mn.Var), Lt(mn.Var, d)
	}
	neg, _ := l.Init.Const()
	sentinel := neg != nil && neg.Sign() < 0
	for _, b := range inst.Backs {
		f := b.St.facts
		update := b.Next[l] != l.Var || b.Next[mn] != mn.Var
		isFirst := (sentinel && f.Entails(Lt(l.Var, Num(0)))) || (sentinel && f.Entails(Eq(inst.K, Num(0))))
		notFirst := !sentinel || f.Entails(Le(Num(0), l.Var)) || f.Entails(Le(Num(1), inst.K))
		if update {
			if !isFirst && !(f.Entails(better) && notFirst) {
				return
			}
		} else if !(f.Entails(worse) && notFirst) {
			return
		}
	}
	var n *Term
	switch {
	case up && sentinel && off.IsInt(0):
		n = k
	case up && !sentinel && off.IsInt(1) && l.Init.IsInt(0) && mn.Init == apply(D, Num(0)):
		n = AddN(k, 1)
	case !up && sentinel && inst.N != nil && off == AddN(inst.N, -1):
		n = k
	default:
		return
	}
	tag := "none"
	if sentinel {
		tag = l.Init.String()
	}
	m[l.Var] = U.mk("argmin", tag, nil, types.Typ[types.Int], D, n)
	m[mn.Var] = U.mk("minof", mn.Init.String(), nil, types.Typ[types.Float64], D, n)
}

// par applies the contract of core.Par: the process runs over consecutive ranges covering [0, size)
func (e *Exec) par(st *State, f *Frame, cs *callSite, a []*Term) ([]*State, bool) {
	var fn *ssa.Function
	var free []*Term
	switch a[0].Op {
	case "fn":
		fn = a[0].Ref.(*ssa.Function)
	case "closure":
		fn, free = a[0].Ref.(*ssa.Function), a[0].Args
	}
	if fn == nil || len(fn.Blocks) == 0 || cs.isDefer {
		return nil, false
	}
	id := fmt.Sprintf("par.%s#%d", fn.String(), st.fresh())
	it := types.Typ[types.Int]
	inst := &LoopInst{ID: id, Fn: fn, Entry: st, Par: true, Regs: map[*Term]bool{}, Maps: map[*Term]bool{}, Size: a[1], Degree: a[2]}
	inst.K = U.mk("K", id, nil, it)
	inst.Start = U.mk("lv", id+"/start", nil, it)
	inst.End = U.mk("lv", id+"/end", nil, it)
	inst.Rank = U.mk("lv", id+"/rank", nil, it)
	run := func() {
		inst.Backs = nil
		base := inst.Entry.clone()
		for r := range inst.Regs {
			base.regs[r] = append(append([]layer{}, base.regs[r]...), layer{kind: "havoc", ver: inst.ID})
		}
		for m := range inst.Maps {
			base.maps[m] = append(append([]mlayer{}, base.maps[m]...), mlayer{kind: "havoc", ver: inst.ID})
		}
		for _, v := range inst.Vars {
			v.Var = lvTerm(inst.ID, v.name(), v.Typ)
			e.store(base, v.Cell, v.Var, v.Typ)
		}
		base.facts = base.facts.Add(Le(Num(0), inst.Start)).Add(Le(inst.Start, inst.End)).Add(Le(inst.End, inst.Size)).Add(Le(Num(0), inst.Rank)).Add(Lt(inst.Rank, inst.Degree))
		base.emit(&Event{Kind: "parenter", Inst: inst, Pos: cs.pos, Args: a})
		inst.Enter = base.trace.n
		g := e.pushFrame(base, fn, []*Term{inst.Start, inst.End, inst.Rank}, free, nil)
		g.capt = true
		for _, c := range e.explore(base) {
			if c.cap == "ret" {
				c.cap = ""
				b := &Back{St: c, Next: map[*LoopVar]*Term{}}
				for _, v := range inst.Vars {
					b.Next[v] = e.loadCell(c, v.Cell, v.Typ)
				}
				inst.Backs = append(inst.Backs, b)
			}
		}
	}
	e.dry++
	saved := e.undecided
	for pass := 0; pass < 10; pass++ {
		run()
		changed := false
		for _, b := range inst.Backs {
			for c, v := range b.St.cells {
				if inst.local(c) || inst.variant(c) {
					continue
				}
				known := false
				for _, lv := range inst.Vars {
					known = known || lv.Cell == c
				}
				if known {
					continue
				}
				typ := elemTypeOf(c.Typ)
				init := e.loadCell(inst.Entry.clone(), c, typ)
				if init != v {
					inst.Vars = append(inst.Vars, &LoopVar{Cell: c, Init: init, Class: "lv", Typ: typ})
					changed = true
				}
			}
			for r, ls := range b.St.regs {
				if !inst.Regs[r] && !inst.local(r.Args[0]) && !inst.variant(r.Args[0]) && !sameLayers(ls, inst.Entry.regs[r]) {
					inst.Regs[r] = true
					changed = true
				}
			}
			for m, ls := range b.St.maps {
				if !inst.Maps[m] && !inst.local(m) && !inst.variant(m) && !sameMLayers(ls, inst.Entry.maps[m]) {
					inst.Maps[m] = true
					changed = true
				}
			}
		}
		if !changed {
			break
		}
	}
	e.dry--
	e.undecided = saved
	run()
	if e.dry == 0 {
		e.insts = append(e.insts, inst)
	}
	n := inst.Entry.clone()
	for r := range inst.Regs {
		if ls, ok := inst.closePar(r, n); ok {
			n.regs[r] = ls
		} else {
			n.regs[r] = append(append([]layer{}, n.regs[r]...), layer{kind: "havoc", ver: inst.ID + ".out"})
		}
	}
	for m := range inst.Maps {
		n.maps[m] = append(append([]mlayer{}, n.maps[m]...), mlayer{kind: "havoc", ver: inst.ID + ".out"})
	}
	for _, v := range inst.Vars {
		e.store(n, v.Cell, lvTerm(inst.ID+".out", v.name(), v.Typ), v.Typ)
	}
	// keep the body in the trace
	n.emit(&Event{Kind: "par", Inst: inst, Pos: cs.pos, Args: a})
	outs, stop := e.finish(n, cs, tuple())
	if stop {
		return outs, true
	}
	return []*State{n}, true
}

func (inst *LoopInst) closePar(r *Term, n *State) ([]layer, bool) {
	ent := inst.Entry.regs[r]
	var one *layer
	for _, b := range inst.Backs {
		ls := b.St.regs[r]
		if len(ls) != len(ent)+2 || ls[len(ent)].kind != "havoc" {
			return nil, false
		}
		l := ls[len(ent)+1]
		if one == nil {
			one = &l
		} else if *one != l {
			return nil, false
		}
	}
	if one == nil || inst.variantPar(one.val) {
		return nil, false
	}
	res := append([]layer{}, ent...)
	switch one.kind {
	case "range":
		if one.a != inst.Start || one.b != inst.End || inst.variant(one.val) {
			return nil, false
		}
		return append(res, layer{kind: "range", a: Num(0), b: inst.Size, val: one.val}), true
	case "point":
		if one.a != inst.Rank {
			return nil, false
		}
		f := U.mk("fv", "p"+strconv.Itoa(one.val.bv), nil, types.Typ[types.Int])
		ps := U.mk("parstart", inst.ID, nil, types.Typ[types.Int], f)
		pe := U.mk("parend", inst.ID, nil, types.Typ[types.Int], f)
		v := Subst(inst.rankObjects(one.val, f), map[*Term]*Term{inst.Start: ps, inst.End: pe, inst.Rank: f})
		return append(res, layer{kind: "range", a: Num(0), b: inst.Degree, val: mkLam(v, f)}), true
	}
	return nil, false
}

// rankObjects names the objects allocated by one worker after its rank: their contents are not known
func (inst *LoopInst) rankObjects(v, f *Term) *Term {
	m := map[*Term]*Term{}
	Any(v, func(x *Term) bool {
		switch x.Op {
		case "alloc", "makeslice", "makemap", "makechan":
			if inst.local(x) && m[x] == nil {
				m[x] = U.mk("pobj", x.Op+":"+x.Aux, x, x.Typ, append([]*Term{f}, x.Args...)...)
			}
		}
		return false
	})
	return Subst(v, m)
}

// variantPar: depends on values other ranks may change
func (inst *LoopInst) variantPar(t *Term) bool {
	return Any(t, func(x *Term) bool {
		if x.Op == "lv" && strings.HasPrefix(x.Aux, inst.ID+"/") && x != inst.Start && x != inst.End && x != inst.Rank {
			return true
		}
		return (x.Op == "elem" || x.Op == "mapget" || x.Op == "maphas") && x.Aux == inst.ID
	})
}
