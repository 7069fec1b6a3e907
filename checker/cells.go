package main

import "strings"

// elemCase is one possible value of a cell of a slice, under the given facts.
// When it was written by a loop, inst is the loop, k the iteration that wrote it and back the end of that iteration.
type elemCase struct {
	f    *Facts
	val  *Term
	inst *LoopInst
	back *Back
	k    *Term
	raw  *Term // the position written, as the iteration computed it
}

// cellCases lists the values that a cell of a slice may have in a state; false when this is not known.
func (s *symRun) cellCases(st *State, f *Facts, sl, i *Term) ([]elemCase, bool) {
	root, off := sliceRoot(sl)
	return s.cellsIn(regionsAt(st, root), st, f, root, Add(off, i))
}

// regionsAt gives the writes to whole elements of a slice or array, the oldest first
func regionsAt(st *State, root *Term) []layer {
	for k, ls := range st.regs {
		if k.Op == "region" && k.Args[0] == root && k.Aux == "" {
			return ls
		}
	}
	return nil
}

func feasible(f *Facts, ls ...*Term) (*Facts, bool) {
	for _, l := range ls {
		if f.Entails(Not(l)) {
			return nil, false
		}
		f = f.Add(l)
	}
	return f, true
}

func (s *symRun) cellsIn(ls []layer, st *State, f *Facts, root, idx *Term) ([]elemCase, bool) {
	if len(ls) == 0 {
		switch root.Op {
		case "makeslice", "alloc":
			return []elemCase{{f: f, val: zeroOf(elemTypeOf(root.Typ))}}, true
		case "append":
			n := mkLen(root.Args[0])
			var out []elemCase
			if g, ok := feasible(f, Lt(idx, n)); ok {
				cs, ok := s.cellCases(st, g, root.Args[0], idx)
				if !ok {
					return nil, false
				}
				out = append(out, cs...)
			}
			if g, ok := feasible(f, Eq(idx, n)); ok && len(root.Args) == 2 {
				out = append(out, elemCase{f: g, val: root.Args[1]})
			}
			return out, true
		case "appendslice":
			n := mkLen(root.Args[0])
			var out []elemCase
			if g, ok := feasible(f, Lt(idx, n)); ok {
				cs, ok := s.cellCases(st, g, root.Args[0], idx)
				if !ok {
					return nil, false
				}
				out = append(out, cs...)
			}
			if g, ok := feasible(f, Le(n, idx)); ok {
				cs, ok := s.cellCases(st, g, root.Args[1], Sub(idx, n))
				if !ok {
					return nil, false
				}
				out = append(out, cs...)
			}
			return out, true
		}
		if root.Op == "lv" {
			for _, ev := range st.trace.Events() {
				if in := ev.Inst; in != nil && !in.Par && strings.HasPrefix(root.Aux, in.ID+"/") {
					return s.appendCells(in, st, f, root, idx)
				}
			}
		}
		return []elemCase{{f: f, val: mkElem(root, idx, "", elemTypeOf(root.Typ))}}, true
	}
	l, rest := ls[len(ls)-1], ls[:len(ls)-1]
	switch l.kind {
	case "point":
		var out []elemCase
		if g, ok := feasible(f, Eq(idx, l.a)); ok {
			out = append(out, elemCase{f: g, val: l.val})
		}
		if g, ok := feasible(f, Not(Eq(idx, l.a))); ok {
			cs, ok := s.cellsIn(rest, st, g, root, idx)
			if !ok {
				return nil, false
			}
			out = append(out, cs...)
		}
		return out, true
	case "range":
		var out []elemCase
		if g, ok := feasible(f, Le(l.a, idx), Lt(idx, l.b)); ok {
			out = append(out, elemCase{f: g, val: apply(l.val, idx)})
		}
		for _, lit := range []*Term{Lt(idx, l.a), Le(l.b, idx)} {
			if g, ok := feasible(f, lit); ok {
				cs, ok := s.cellsIn(rest, st, g, root, idx)
				if !ok {
					return nil, false
				}
				out = append(out, cs...)
			}
		}
		return out, true
	case "havoc":
		if c := l.from; c != nil {
			var out []elemCase
			if g, ok := feasible(f, Le(c.lo, idx), Lt(idx, c.hi)); ok {
				cs, ok := s.cellCases(c.st, g, c.src, Sub(idx, c.off))
				if !ok {
					return nil, false
				}
				out = append(out, cs...)
			}
			for _, lit := range []*Term{Lt(idx, c.lo), Le(c.hi, idx)} {
				if g, ok := feasible(f, lit); ok {
					cs, ok := s.cellsIn(rest, st, g, root, idx)
					if !ok {
						return nil, false
					}
					out = append(out, cs...)
				}
			}
			return out, true
		}
		// identifiers are unique along a path
		for _, ev := range st.trace.Events() {
			if in := ev.Inst; in != nil && in.ID == l.ver && !in.Par {
				return s.loopCells(in, st, f, root, idx)
			}
		}
	}
	return nil, false
}

// appendCells lists the values of a cell of a slice extended by one element by each iteration of a loop
func (s *symRun) appendCells(in *LoopInst, st *State, f *Facts, root, idx *Term) ([]elemCase, bool) {
	if len(in.Backs) == 0 {
		return nil, false
	}
	// the iterations run: all of them, or those before the exit
	ran := in.K
	if in.N != nil && exhausted(st, in) {
		ran = in.N
	}
	var v *LoopVar
	for _, x := range in.Vars {
		if x.Var == root {
			v = x
		}
	}
	if v == nil {
		return nil, false
	}
	n0 := mkLen(v.Init)
	var out []elemCase
	if g, ok := feasible(f, Lt(idx, n0)); ok {
		cs, ok := s.cellCases(in.Entry, g, v.Init, idx)
		if !ok {
			return nil, false
		}
		out = append(out, cs...)
	}
	k := Sub(idx, n0)
	var lits0 []*Term
	for _, b := range in.Backs {
		if b.Next[v] == root {
			// the iteration that adds this element is not known
			k = U.mk("probe", "iteration "+in.ID, nil, idx.Typ)
			lits0 = []*Term{Eq(Subst(mkLen(root), in.at(k)), idx), Le(n0, idx), Lt(idx, mkLen(root))}
			break
		}
	}
	for _, b := range in.Backs {
		next := b.Next[v]
		if next == root {
			continue
		}
		if next.Op != "append" || len(next.Args) != 2 || next.Args[0] != root {
			return nil, false
		}
		m := in.at(k)
		lits := append([]*Term{Le(Num(0), k), Lt(k, ran)}, lits0...)
		for _, l := range b.St.facts.all() {
			lits = append(lits, Subst(l, m))
		}
		if g, ok := feasible(f, lits...); ok {
			out = append(out, elemCase{f: g, val: Subst(next.Args[1], m), inst: in, back: b, k: k, raw: mkLen(root)})
		}
	}
	return out, true
}

// loopCells lists the values of a cell left by a loop that ran to its end
func (s *symRun) loopCells(in *LoopInst, st *State, f *Facts, root, idx *Term) ([]elemCase, bool) {
	if v := in.cursor(root); v != nil {
		return s.cursorCells(in, v, st, f, root, idx)
	}
	if in.N == nil || !exhausted(st, in) || len(in.Backs) == 0 {
		return nil, false
	}
	var out []elemCase
	before := f
	for n, b := range in.Backs {
		ls := regionsAt(b.St, root)
		for len(ls) > 0 && !(ls[0].kind == "havoc" && ls[0].ver == in.ID) {
			ls = ls[1:]
		}
		if len(ls) != 2 || ls[1].kind != "point" {
			return nil, false
		}
		c := ls[1].a
		// the iteration that writes the cell
		var k *Term
		switch {
		case !Contains(Sub(c, in.K), in.K):
			k = Sub(idx, Sub(c, in.K))
		case !Contains(Add(c, in.K), in.K):
			k = Sub(Add(c, in.K), idx)
		default:
			return nil, false
		}
		lits := []*Term{Le(Num(0), k), Lt(k, in.N)}
		g, ok := feasible(f, lits...)
		if n == 0 {
			// outside the range of the loop: what was there before
			for _, lit := range lits {
				if h, ok := feasible(before, Not(lit)); ok {
					cs, ok := s.cellsIn(regionsAt(in.Entry, root), in.Entry, h, root, idx)
					if !ok {
						return nil, false
					}
					out = append(out, cs...)
				}
				before = before.Add(lit)
			}
		}
		if !ok {
			continue
		}
		m := in.at(k)
		var more []*Term
		for _, l := range b.St.facts.all() {
			more = append(more, Subst(l, m))
		}
		if g, ok = feasible(g, more...); !ok {
			continue
		}
		out = append(out, elemCase{f: g, val: Subst(ls[1].val, m), inst: in, back: b, k: k, raw: c})
	}
	return out, true
}

// expand lists the values of an element that was itself read from a slice filled by a loop
func (s *symRun) expand(st *State, c elemCase) ([]elemCase, bool) {
	v := c.val
	if v.Op != "elem" {
		return []elemCase{c}, true
	}
	root := v.Args[0]
	ls := regionsAt(st, root)
	if len(ls) == 0 && root.Op != "append" && root.Op != "appendslice" && root.Op != "makeslice" {
		return []elemCase{c}, true
	}
	if v.Aux != "" && (len(ls) == 0 || ls[len(ls)-1].ver != v.Aux) {
		return nil, false
	}
	cs, ok := s.cellsIn(ls, st, c.f, root, v.Args[1])
	if !ok {
		return nil, false
	}
	var out []elemCase
	for _, x := range cs {
		ys, ok := s.expand(st, x)
		if !ok {
			return nil, false
		}
		out = append(out, ys...)
	}
	return out, true
}

// at gives the variables of a loop in its k-th iteration
func (in *LoopInst) at(k *Term) map[*Term]*Term {
	m := map[*Term]*Term{}
	for _, v := range in.Vars {
		if v.Var != in.K && v.Var.Op == "lv" {
			m[v.Var] = U.mk("lvat", v.Var.Aux, nil, v.Var.Typ, k)
		}
	}
	m[in.K] = k
	return m
}

// written gives the cell of a slice that an iteration writes: nil when none, false when more than one
func (in *LoopInst) written(b *Back, root *Term) (*layer, bool) { return in.writtenPath(b, root, "") }

// writtenPath is for one field of the cells
func (in *LoopInst) writtenPath(b *Back, root *Term, path string) (*layer, bool) {
	var ls []layer
	for k, l := range b.St.regs {
		if k.Op == "region" && k.Args[0] == root && k.Aux == path {
			ls = l
		}
	}
	for len(ls) > 0 && !(ls[0].kind == "havoc" && ls[0].ver == in.ID) {
		ls = ls[1:]
	}
	switch {
	case len(ls) == 1:
		return nil, true
	case len(ls) == 2 && ls[1].kind == "point":
		return &ls[1], true
	}
	return nil, false
}

// cursor finds the variable that gives the next cell to write: it moves by one exactly when that cell is written
func (in *LoopInst) cursor(root *Term) *LoopVar {
	for _, v := range in.Vars {
		if v.Var == nil || v.Var.Op != "lv" {
			continue
		}
		n := 0
		for _, b := range in.Backs {
			w, ok := in.written(b, root)
			switch {
			case !ok:
			case w == nil && b.Next[v] == v.Var:
				n++
			case w != nil && w.a == v.Var && b.Next[v] == AddN(v.Var, 1):
				n++
			}
		}
		if n > 0 && n == len(in.Backs) {
			return v
		}
	}
	return nil
}

func (s *symRun) cursorCells(in *LoopInst, v *LoopVar, st *State, f *Facts, root, idx *Term) ([]elemCase, bool) {
	var out []elemCase
	for _, lit := range []*Term{Lt(idx, v.Init), Le(v.Var, idx)} {
		if h, ok := feasible(f, lit); ok {
			cs, ok := s.cellsIn(regionsAt(in.Entry, root), in.Entry, h, root, idx)
			if !ok {
				return nil, false
			}
			out = append(out, cs...)
		}
	}
	for _, b := range in.Backs {
		w, _ := in.written(b, root)
		if w == nil {
			continue
		}
		// the iteration is not known
		m := in.at(U.mk("probe", "iteration "+in.ID, nil, idx.Typ))
		m[v.Var] = idx
		lits := []*Term{Le(v.Init, idx), Lt(idx, v.Var)}
		for _, l := range b.St.facts.all() {
			lits = append(lits, Subst(l, m))
		}
		if g, ok := feasible(f, lits...); ok {
			out = append(out, elemCase{f: g, val: Subst(w.val, m), inst: in, back: b, k: m[in.K], raw: w.a})
		}
	}
	return out, true
}
