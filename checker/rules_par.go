package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// ---- C18 ----

func ruleC18(r *Report) {
	r.need("range", 4)
	r.need("worker", 1)
	r.need("wait", 1)
	r.need("footprint", 6)
	fn := r.p.Func("core.Par")
	if fn == nil {
		r.bad("anchor", "core.Par", "", "function not found")
		return
	}
	a := params(fn)
	process, size, degree := a[0], a[1], a[2]
	s := r.symFn("core.Par", fn, Options{NoPar: true}, func(st *State) {
		q, m := mkIDiv(size, degree), mkIRem(size, degree)
		st.facts = st.facts.Add(Le(Num(0), size)).Add(Le(Num(1), degree)).Add(Le(Num(0), q)).Add(Le(Num(0), m)).Add(Lt(m, degree))
	})
	for _, pa := range s.returns() {
		r.parPath(s, pa, process, size, degree)
	}
	r.footprints()
}

type launch struct {
	ev   *Event
	st   *State
	loop *LoopInst
}

// parPath follows the workers launched along a path of Par
func (r *Report) parPath(s *symRun, pa *Path, process, size, degree *Term) {
	fail := func(rule, what, msg string) { r.bad(rule, "core.Par/"+what, s.pos(), msg) }
	pos, cnt, added := Num(0), Num(0), Num(0)
	f := pa.St.facts
	var wg *Term
	waited := false
	var last []launch
	for _, ev := range pa.St.trace.Events() {
		switch ev.Kind {
		case "wgAdd":
			wg = ev.Recv
			added = Add(added, ev.Args[0])
		case "wgWait":
			waited = true
			if wg == nil || ev.Recv != wg {
				fail("wait", "group", "it does not wait for its workers")
				return
			}
			if !same(f, added, degree) || !same(f, cnt, added) {
				fail("wait", "count", fmt.Sprintf("it waits for %v of %v workers", added, cnt))
				return
			}
		case "go":
			l := launch{ev, pa.St, nil}
			last = append(last, l)
			start, end, rank, ok := r.worker(s, l, process, wg)
			if !ok {
				return
			}
			if waited {
				fail("wait", "late", "a worker is started after the wait")
				return
			}
			if !same(f, start, pos) || !same(f, rank, cnt) {
				fail("range", "chain", fmt.Sprintf("a partition starts at %v, the previous one ended at %v", start, pos))
				return
			}
			pos, cnt = end, AddN(cnt, 1)
		case "loopenter":
			L := ev.Inst
			var ls []launch
			adds := 0
			for _, b := range L.Backs {
				n := 0
				for _, e2 := range loopEvents(L, b.St) {
					if e2.Kind == "go" {
						ls = append(ls, launch{e2, b.St, L})
						n++
						if waited {
							fail("wait", "late", "a worker is started after the wait")
						}
					}
					if e2.Kind == "wgAdd" && e2.Args[0] == Num(1) && n == 0 {
						adds++
						wg = e2.Recv
					}
				}
				if n > 1 {
					fail("range", "twice", "several workers are started for one partition")
					return
				}
			}
			if len(ls) == 0 {
				continue
			}
			if len(ls) != len(L.Backs) || adds != 0 && adds != len(L.Backs) {
				fail("range", "skip", "some partitions are not started")
				return
			}
			if L.N == nil {
				fail("range", "count", "the number of workers is not known")
				return
			}
			for _, x := range L.Exits {
				if !exhausted(x, L) {
					fail("range", "count", "partitions may be dropped")
					return
				}
			}
			p2, ok := r.launchLoop(s, L, ls, pos, cnt, size, process, wg)
			if !ok {
				return
			}
			pos = p2
			cnt = Add(cnt, L.N)
			if adds > 0 {
				added = Add(added, L.N)
			}
			last = append(last, ls...)
		}
	}
	if len(last) == 0 {
		fail("range", "none", "no worker is started")
		return
	}
	if !waited {
		fail("wait", "none", "it returns before its workers")
		return
	}
	r.ok("wait", "core.Par")
	r.check(same(f, pos, size), "range", "core.Par/end", s.pos(), fmt.Sprintf("the last partition ends at %v, not at the size", pos))
	r.check(same(f, cnt, degree), "range", "core.Par/ranks", s.pos(), fmt.Sprintf("there are %v partitions, not degree", cnt))
	_ = types.Typ
}

// loopEvents gives the events of an iteration
func loopEvents(L *LoopInst, st *State) []*Event {
	evs := st.trace.Events()
	if L.Enter < len(evs) {
		return evs[L.Enter:]
	}
	return nil
}

// next is the value of an expression at the next iteration
func (L *LoopInst) next(t *Term, b *Back) *Term {
	m := map[*Term]*Term{L.K: AddN(L.K, 1)}
	for _, v := range L.Vars {
		if v.Var != nil && v.Var.Op == "lv" && b.Next[v] != nil {
			m[v.Var] = b.Next[v]
		}
	}
	return Subst(t, m)
}

func (L *LoopInst) first(t *Term) *Term {
	m := map[*Term]*Term{L.K: Num(0)}
	for _, v := range L.Vars {
		if v.Var != nil && v.Var.Op == "lv" {
			m[v.Var] = v.Init
		}
	}
	return Subst(t, m)
}

func planRoot(start *Term) (root *Term) {
	Any(start, func(x *Term) bool {
		if x.Op == "elem" && freshRoot(rootOf(x.Args[0])) {
			root = x.Args[0]
		}
		return root != nil
	})
	return
}

// planned gives the loop that wrote the partitions that a loop starts workers on, in its order
func planned(st *State, L *LoopInst, start *Term) *LoopInst {
	root := planRoot(start)
	if root == nil {
		return nil
	}
	for _, ev := range st.trace.Events() {
		if ev.Kind != "loopenter" || ev.Inst == L {
			continue
		}
		found := false
		Any(start, func(x *Term) bool {
			found = found || x.Op == "elem" && x.Args[0] == root && x.Args[1] == L.K && x.Aux == ev.Inst.ID
			return false
		})
		if found {
			return ev.Inst
		}
	}
	return nil
}

// launchLoop checks the partitions started by a loop, and gives the end of the last one
func (r *Report) launchLoop(s *symRun, L *LoopInst, ls []launch, pos, cnt, size, process, wg *Term) (*Term, bool) {
	fail := func(what, msg string) (*Term, bool) {
		r.bad("range", "core.Par/"+what, s.pos(), msg)
		return nil, false
	}
	var start *Term
	ends := map[*Back]*Term{}
	for i, l := range ls {
		st, end, rank, ok := r.worker(s, l, process, wg)
		if !ok {
			return nil, false
		}
		b := L.Backs[i]
		if start != nil && start != st {
			return fail("start", "partitions start differently")
		}
		start = st
		ends[b] = end
		if !same(b.St.facts, rank, Add(cnt, L.K)) {
			return fail("rank", "the rank of a worker is not its position: "+rank.String())
		}
	}
	if pl := planned(ls[0].st, L, start); pl != nil && len(L.Backs) == 1 {
		// partitions computed before the workers start
		end, root := ends[L.Backs[0]], planRoot(start)
		ends = map[*Back]*Term{}
		var st0 *Term
		for _, b := range pl.Backs {
			m := map[*Term]*Term{L.K: pl.K}
			ok := true
			cells := func(t *Term) {
				Any(t, func(x *Term) bool {
					path, e := "", x
					for e.Op == "field" {
						path, e = "."+e.Aux+path, e.Args[0]
					}
					if e.Op != "elem" || e.Args[0] != root || m[x] != nil {
						return false
					}
					w, is := pl.writtenPath(b, root, path)
					if is && w != nil && same(b.St.facts, w.a, pl.K) {
						m[x] = w.val
					} else if path != "" {
						ok = false
					}
					return false
				})
			}
			cells(start)
			cells(end)
			if !ok {
				return fail("plan", "the partitions are not computed one by one")
			}
			v := Subst(start, m)
			if st0 != nil && st0 != v {
				return fail("start", "partitions start differently")
			}
			st0 = v
			ends[b] = Subst(end, m)
		}
		if pl.N == nil || !same(L.Entry.facts, pl.N, L.N) {
			return fail("plan", "there are not as many partitions as workers")
		}
		start, L = st0, pl
	}
	if e := L.first(start); !same(L.Entry.facts, e, pos) {
		return fail("first", fmt.Sprintf("the first partition starts at %v instead of %v", e, pos))
	}
	r.ok("range", "core.Par/first")
	for _, b := range L.Backs {
		if n := L.next(start, b); !same(b.St.facts, n, ends[b]) {
			return fail("chain", fmt.Sprintf("a partition ends at %v and the next one starts at %v", ends[b], n))
		}
	}
	r.ok("range", "core.Par/chain")
	if !Any(start, func(x *Term) bool { return x.Op == "lv" }) {
		// closed form of the rank
		inc := Sub(Subst(start, map[*Term]*Term{L.K: AddN(L.K, 1)}), start)
		if !L.Entry.facts.Add(Le(Num(0), L.K)).Entails(Le(Num(0), inc)) {
			return fail("order", "a partition may end before it starts")
		}
		return Subst(start, map[*Term]*Term{L.K: L.N}), true
	}
	if start.Op != "lv" {
		return fail("start", "the starts of the partitions can not be followed: "+start.String())
	}
	// sum of the lengths, by phases of the rank around a threshold
	var sum []*Back
	for _, b := range L.Backs {
		if ends[b] != size {
			sum = append(sum, b)
		} else if !b.St.facts.Entails(Le(start, size)) && len(L.Backs) == 1 {
			return fail("order", "a partition may end before it starts")
		}
	}
	clamped := len(sum) < len(L.Backs)
	cs := map[*Term]bool{}
	for _, b := range sum {
		for _, l := range b.St.facts.all() {
			if c := thresholdOf(l, L.K); c != nil && !L.variant(c) && c != L.N && AddN(c, 1) != L.N && !c.IsInt(0) && !c.IsInt(-1) {
				cs[c] = true
			}
		}
	}
	ent := L.Entry.facts
	total := func(c *Term) (*Term, *Term, bool) { // totals when the threshold is within the ranks, and beyond
		vals := map[*Term]*Term{}
		for _, v := range L.Vars {
			if v.Var != nil && v.Var.Op == "lv" && v.Var != start {
				vals[v.Var] = v.Init
			}
		}
		phases := []*Term{Lt(L.K, c), Eq(L.K, c), Lt(c, L.K)}
		var incs [3]*Term
		for i, ph := range phases {
			deltas := map[*Term]*Term{}
			for _, b := range sum {
				if b.St.facts.infeasible(ph) {
					continue
				}
				inc := Subst(Sub(ends[b], start), vals)
				if incs[i] != nil && incs[i] != inc || L.variant(inc) {
					return nil, nil, false
				}
				incs[i] = inc
				if !ent.Entails(Le(Num(0), inc)) {
					return nil, nil, false
				}
				for _, v := range L.Vars {
					if vals[v.Var] == nil {
						continue
					}
					d := Subst(Sub(b.Next[v], v.Var), vals)
					if deltas[v.Var] != nil && deltas[v.Var] != d || L.variant(d) || i != 1 && !d.IsInt(0) {
						return nil, nil, false
					}
					deltas[v.Var] = d
				}
			}
			for x, d := range deltas {
				vals[x] = Add(vals[x], d)
			}
		}
		var in, out *Term
		if incs[0] != nil {
			out = Mul(L.N, incs[0])
		}
		if incs[0] != nil && incs[1] != nil {
			in = Add(Mul(c, incs[0]), incs[1])
			if incs[2] != nil {
				in = Add(in, Mul(incs[2], Sub(AddN(L.N, -1), c)))
			} else if !ent.Entails(Eq(c, AddN(L.N, -1))) {
				in = nil
			}
		}
		return in, out, true
	}
	if len(cs) == 0 {
		cs[L.N] = true
	}
	for c := range cs {
		in, out, ok := total(c)
		if !ok || !ent.Entails(Le(Num(0), c)) {
			continue
		}
		fi, fo := ent.Add(Lt(c, L.N)), ent.Add(Le(L.N, c))
		if (ent.infeasible(Lt(c, L.N)) || in != nil && same(fi, in, Sub(size, pos))) && (ent.infeasible(Le(L.N, c)) || out != nil && same(fo, out, Sub(size, pos))) {
			if clamped {
				r.notes = append(r.notes, "core.Par: a partition cut at the size leaves the next ones empty")
			}
			r.ok("range", "core.Par/sum")
			return size, true
		}
		if ent.infeasible(Le(L.N, c)) && in != nil && !clamped {
			return Add(pos, in), true
		}
	}
	return fail("sum", "the lengths of the partitions do not add up to the size")
}

// thresholdOf gives c when a fact compares the counter with c
func thresholdOf(l, k *Term) *Term {
	if l.Op == "not" {
		l = l.Args[0]
	}
	if l.Op != "eq0" && l.Op != "le0" && l.Op != "lt0" {
		return nil
	}
	t := l.Args[0]
	for _, m := range polyOf(t).ms {
		if len(m.atoms) == 1 && m.atoms[0].a == k && m.atoms[0].p == 1 && m.c.IsInt() {
			switch m.c.Num().Int64() {
			case 1:
				return Sub(k, t)
			case -1:
				return Add(k, t)
			}
		}
	}
	return nil
}

// worker analyses a go routine of Par: it runs the process once on its range, then tells that it is done
func (r *Report) worker(s *symRun, l launch, process, wg *Term) (start, end, rank *Term, ok bool) {
	fail := func(what, msg string) (*Term, *Term, *Term, bool) {
		r.bad("worker", "core.Par/"+what, r.p.pos(l.ev.Pos), msg)
		return nil, nil, nil, false
	}
	if l.ev.Name == "?" || l.ev.Snap == nil {
		return fail("unknown", "the function of a worker is not known")
	}
	fn := l.ev.Res.Ref.(*ssa.Function)
	e := r.p.NewExec(Options{NoPar: true, MayPanic: func(ev *Event) bool { return ev.Kind == "dyncall" }})
	st := &State{cells: map[*Term]*Term{}, regs: map[*Term][]layer{}, maps: map[*Term][]mlayer{}, nid: l.ev.Snap.nid}
	for a, v := range l.ev.Snap.cells {
		if rootOf(a).Op == "alloc" {
			st.cells[a] = v
		}
	}
	// variables that the loop changes while the worker runs
	moving := map[*Term]bool{}
	if l.loop != nil {
		for _, v := range l.loop.Vars {
			if v.Cell != nil {
				moving[v.Cell] = true
				st.cells[v.Cell] = U.mk("moving", v.name(), nil, v.Typ)
			}
		}
	}
	paths := e.RunFrom(st, fn, l.ev.Args, l.ev.Res.Args)
	r.fn(fn)
	r.saw(e)
	for _, u := range e.undecided {
		return fail("undecided", u)
	}
	for _, pa := range paths {
		calls, dones := 0, 0
		for _, ev := range pa.St.trace.Events() {
			switch ev.Kind {
			case "dyncall":
				if ev.Recv != process {
					continue
				}
				calls++
				if dones > 0 {
					return fail("order", "a worker tells that it is done before its process ends")
				}
				if calls > 1 {
					return fail("twice", "a worker runs its process several times")
				}
				for _, x := range ev.Args {
					if Any(x, func(y *Term) bool { return y.Op == "moving" }) {
						return fail("shared", "the range of a worker changes while it runs")
					}
				}
				if start != nil && (start != ev.Args[0] || end != ev.Args[1] || rank != ev.Args[2]) {
					return fail("range", "the range of a worker is not known")
				}
				start, end, rank = ev.Args[0], ev.Args[1], ev.Args[2]
			case "wgDone":
				dones++
				if wg == nil || ev.Recv != wg {
					return fail("group", "a worker tells that it is done to another group")
				}
			}
		}
		if calls != 1 {
			return fail("skip", "a worker does not run its process")
		}
		if dones != 1 {
			return fail("done", fmt.Sprintf("a worker tells %d times that it is done", dones))
		}
	}
	if start == nil {
		return fail("skip", "a worker does not run its process")
	}
	r.ok("worker", "core.Par")
	return start, end, rank, true
}

// footprints checks what the processes given to Par write
func (r *Report) footprints() {
	par := r.p.Func("core.Par")
	n := map[*ssa.Function]bool{}
	for _, f := range r.p.funcs {
		if !r.p.lib(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok && c.Common().StaticCallee() == par {
					top := f
					for top.Parent() != nil {
						top = top.Parent()
					}
					n[top] = true
				}
			}
		}
	}
	for _, f := range r.p.funcs {
		if !n[f] {
			continue
		}
		s := r.symFn(rootName(f), f, Options{}, nil)
		found := false
		for _, in := range s.e.insts {
			if in.Par {
				found = true
				r.footprint(s, in)
			}
		}
		if !found {
			r.bad("footprint", rootName(f), s.pos(), "the process given to Par is not known")
		}
	}
}

func (r *Report) footprint(s *symRun, par *LoopInst) {
	name := s.name
	for _, v := range par.Vars {
		r.bad("footprint", name+"/"+cellName(v.Cell), s.pos(), "workers write the same variable: "+v.Cell.String())
	}
	for m := range par.Maps {
		r.bad("footprint", name+"/map", s.pos(), "workers write the same map: "+m.String())
	}
	for reg := range par.Regs {
		n := len(par.Entry.regs[reg]) + 1
		for _, b := range par.Backs {
			ls := b.St.regs[reg]
			if len(ls) < n {
				continue
			}
			for _, l := range ls[n:] {
				r.check(r.ownLayer(s, par, b.St.facts, reg, l, 0), "footprint", name+"/"+cellName(reg.Args[0])+reg.Aux, s.pos(), "a worker writes outside of its range and of its rank: "+layersString(b.St, reg.Args[0]))
			}
		}
	}
	// what a worker calls may write its own data only: elements reached through interfaces are C20
}

func cellName(t *Term) string {
	t = rootOf(t)
	if t.Op == "param" {
		return t.Aux
	}
	return stripSeq(t.Op)
}

func (r *Report) ownLayer(s *symRun, par *LoopInst, f *Facts, reg *Term, l layer, depth int) bool {
	switch l.kind {
	case "point":
		return same(f, l.a, par.Rank) || f.Entails(Le(par.Start, l.a)) && f.Entails(Lt(l.a, par.End))
	case "range":
		return f.Entails(Le(par.Start, l.a)) && f.Entails(Le(l.b, par.End)) || same(f, l.a, par.Rank) && same(f, l.b, AddN(par.Rank, 1))
	case "havoc":
		for _, in := range s.e.insts {
			if in.ID != l.ver || depth > 5 {
				continue
			}
			n := len(in.Entry.regs[reg]) + 1
			for _, b := range in.Backs {
				ls := b.St.regs[reg]
				if len(ls) < n {
					continue
				}
				for _, x := range ls[n:] {
					if !r.ownLayer(s, par, b.St.facts, reg, x, depth+1) {
						return false
					}
				}
			}
			return true
		}
	}
	return false
}
