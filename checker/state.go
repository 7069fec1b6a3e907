package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Event is something observable that happens on a path.
type Event struct {
	Kind  string
	Pos   token.Pos
	Fn    *ssa.Function
	Stack []*ssa.Function
	Name  string // method, function, field, channel role
	Recv  *Term
	Args  []*Term
	Res   *Term
	Held  []Held
	Facts *Facts
	Inst  *LoopInst
	Exit  *State
	Snap  *State     // goroutine start
	Mem   *State     // memory snapshot, when useful
	Field *types.Var // monitored field accessed
	Sel   *ssa.Select
	Block bool // channel operation that may wait
}

// TNode is a node of a persistent trace.
type TNode struct {
	prev *TNode
	ev   *Event
	n    int
}

// Held is a lock held.
type Held struct {
	Addr  *Term
	Read  bool
	Pos   token.Pos
	Epoch int
}

type layer struct {
	kind string // point, range, havoc
	a, b *Term  // idx | lo, hi
	val  *Term  // value | lambda of the absolute index
	ver  string
	from *copied // for havoc: what was copied there
}

type mlayer struct {
	kind    string // point, delete, havoc, all
	key     *Term
	val, ok *Term // for all: lambdas of the key
	ver     string
}

type deferred struct {
	call *ssa.Defer
	fn   *Term
	args []*Term
	stat *ssa.Function
	inv  string
}

// Frame is an activation record.
type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]*Term
	block  *ssa.BasicBlock
	prev   *ssa.BasicBlock
	pc     int
	defers []deferred
	instr  ssa.Instruction // call instruction of the caller frame, nil for root
	isDef  bool            // runs a deferred call
	panick bool            // deferred call run while panicking
	unw    bool            // the frame is being unwound
	unroll map[*ssa.BasicBlock]bool
	capt   bool // return is captured (sub run)
	free   []*Term
}

// LoopCtx is an active loop.
type LoopCtx struct {
	inst  *LoopInst
	depth int
}

// State is an abstract state of one trace partition.
type State struct {
	frames []*Frame
	cells  map[*Term]*Term
	regs   map[*Term][]layer
	maps   map[*Term][]mlayer
	facts  *Facts
	trace  *TNode
	held   []Held
	panic  *Term
	nid    int
	loops  []LoopCtx
	cap    string // back, exit, ret
	ret    *Term
	unw    bool
	pend   *pendJump
}

type pendJump struct{ from, to *ssa.BasicBlock }

func (st *State) top() *Frame { return st.frames[len(st.frames)-1] }

func (st *State) clone() *State {
	n := *st
	n.frames = make([]*Frame, len(st.frames))
	for i, f := range st.frames {
		g := *f
		g.env = make(map[ssa.Value]*Term, len(f.env)+4)
		for k, v := range f.env {
			g.env[k] = v
		}
		g.defers = append([]deferred{}, f.defers...)
		if f.unroll != nil {
			g.unroll = map[*ssa.BasicBlock]bool{}
			for k, v := range f.unroll {
				g.unroll[k] = v
			}
		}
		n.frames[i] = &g
	}
	n.cells = make(map[*Term]*Term, len(st.cells)+4)
	for k, v := range st.cells {
		n.cells[k] = v
	}
	n.regs = make(map[*Term][]layer, len(st.regs)+4)
	for k, v := range st.regs {
		n.regs[k] = v
	}
	n.maps = make(map[*Term][]mlayer, len(st.maps)+4)
	for k, v := range st.maps {
		n.maps[k] = v
	}
	n.held = append([]Held{}, st.held...)
	n.loops = append([]LoopCtx{}, st.loops...)
	return &n
}

func (st *State) fresh() int {
	st.nid++
	return st.nid
}

func (st *State) emit(e *Event) *Event {
	f := st.top()
	if e.Fn == nil {
		e.Fn = f.fn
	}
	for _, fr := range st.frames {
		e.Stack = append(e.Stack, fr.fn)
	}
	e.Held = append([]Held{}, st.held...)
	e.Facts = st.facts
	n := 0
	if st.trace != nil {
		n = st.trace.n
	}
	st.trace = &TNode{prev: st.trace, ev: e, n: n + 1}
	return e
}

// Events lists the trace from its start.
func (t *TNode) Events() []*Event {
	if t == nil {
		return nil
	}
	r := make([]*Event, t.n)
	for x := t; x != nil; x = x.prev {
		r[x.n-1] = x.ev
	}
	return r
}

// ---- addresses ----

type loc struct {
	cell *Term // plain cell
	reg  *Term // region
	idx  *Term
	typ  types.Type
	root *Term
	path string
}

func elemTypeOf(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Pointer:
		if a, ok := u.Elem().Underlying().(*types.Array); ok {
			return a.Elem()
		}
		return u.Elem()
	case *types.Array:
		return u.Elem()
	}
	return nil
}

func locOf(a *Term) loc {
	typ := elemTypeOf(a.Typ)
	path := ""
	x := a
	for x.Op == "fieldaddr" {
		path = "." + x.Aux + path
		x = x.Args[0]
	}
	if x.Op == "indexaddr" {
		root, off := sliceRoot(x.Args[0])
		return loc{reg: U.mk("region", path, nil, typ, root), idx: Add(off, x.Args[1]), typ: typ, root: root, path: path}
	}
	return loc{cell: a, typ: typ, root: x}
}

// rootOf gives the object an address or reference value belongs to
func rootOf(a *Term) *Term {
	for {
		switch a.Op {
		case "fieldaddr", "indexaddr", "slice":
			a = a.Args[0]
		case "region":
			a = a.Args[0]
		default:
			return a
		}
	}
}

// freshRoot tells whether the object was allocated during this analysis
func freshRoot(t *Term) bool {
	switch t.Op {
	case "alloc", "makeslice", "makemap", "makechan":
		return true
	case "mkiface":
		return freshRoot(rootOf(t.Args[0]))
	}
	return false
}

func isStructType(t types.Type) bool {
	return t != nil && flattenable(t)
}

// load reads a location. split is a literal to decide first.
func (e *Exec) load(st *State, addr *Term, typ types.Type) (val, split *Term) {
	if isStructType(typ) {
		s := structOf(typ)
		args := make([]*Term, s.NumFields())
		pt := types.NewPointer(typ)
		for i := range args {
			v, sp := e.load(st, mkFieldAddr(addr, pt, i), s.Field(i).Type())
			if sp != nil {
				return nil, sp
			}
			args[i] = v
		}
		return mkStruct(typ, args), nil
	}
	l := locOf(addr)
	if l.cell != nil {
		return e.loadCell(st, addr, typ), nil
	}
	return e.loadRegion(st, l, typ)
}

func (e *Exec) loadCell(st *State, addr *Term, typ types.Type) *Term {
	if e.volatile(st, addr) {
		if !e.protected(st, addr) {
			v := U.mk("load", "v"+strconv.Itoa(st.fresh())+"@"+e.curSite(st), nil, typ, addr)
			e.loadFacts(st, addr, v)
			return v
		}
	}
	if v, ok := st.cells[addr]; ok {
		return v
	}
	var v *Term
	root := rootOf(addr)
	switch {
	case addr.Op == "alloc" || (root.Op == "alloc" && addr.Op == "fieldaddr"):
		v = zeroOf(typ)
	case addr.Op == "global" && e.errGlobals[addr.Ref.(*ssa.Global)]:
		v = U.mk("load", "errglobal", nil, typ, addr)
	case e.volatile(st, addr):
		v = U.mk("load", "s"+strconv.Itoa(st.fresh())+"@"+e.curSite(st), nil, typ, addr)
		st.cells[addr] = v
		e.loadFacts(st, addr, v)
	default:
		// pointer field of an opaque struct value spilled to memory is handled by stores; otherwise initial content
		v = U.mk("load", "", nil, typ, addr)
	}
	return v
}

func (e *Exec) regionBase(st *State, l loc, idx *Term, typ types.Type) (val, split *Term) {
	root := l.root
	switch root.Op {
	case "makeslice", "alloc", "zero":
		return zeroOf(typ), nil
	case "nil":
		return zeroOf(typ), nil
	case "append":
		n := mkLen(root.Args[0])
		for i := 1; i < len(root.Args); i++ {
			c := Eq(idx, AddN(n, int64(i-1)))
			if st.facts.Entails(c) {
				v := root.Args[i]
				return pathOf(v, l.path), nil
			}
			if !st.facts.Entails(Not(c)) {
				return nil, c
			}
		}
		return e.load(st, elemAddr(root.Args[0], idx, l.path), typ)
	case "appendslice":
		n := mkLen(root.Args[0])
		c := Lt(idx, n)
		if st.facts.Entails(c) {
			return e.load(st, elemAddr(root.Args[0], idx, l.path), typ)
		}
		if st.facts.Entails(Not(c)) {
			return e.load(st, elemAddr(root.Args[1], Sub(idx, n), l.path), typ)
		}
		return nil, c
	}
	el := mkElem(root, idx, "", elemOfPath(root, l, typ))
	return pathOf(el, l.path), nil
}

func elemAddr(s, idx *Term, path string) *Term {
	a := mkIndexAddr(s, idx, nil)
	if path != "" {
		a = addPath(a, path)
	}
	return a
}

func addPath(a *Term, path string) *Term {
	for _, name := range splitPath(path) {
		st := structOf(elemTypeOf(a.Typ))
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == name {
				a = mkFieldAddr(a, types.NewPointer(elemTypeOf(a.Typ)), i)
				break
			}
		}
	}
	return a
}

func splitPath(p string) []string {
	var r []string
	cur := ""
	for _, c := range p {
		if c == '.' {
			if cur != "" {
				r = append(r, cur)
			}
			cur = ""
			continue
		}
		cur += string(c)
	}
	if cur != "" {
		r = append(r, cur)
	}
	return r
}

func pathOf(v *Term, path string) *Term {
	for _, name := range splitPath(path) {
		t := v.Typ
		st := structOf(t)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == name {
				v = mkField(v, t, i)
				break
			}
		}
	}
	return v
}

func elemOfPath(root *Term, l loc, typ types.Type) types.Type {
	if l.path == "" {
		return typ
	}
	if t := elemTypeOf(root.Typ); t != nil {
		return t
	}
	return typ
}

func mkIndexAddr(s, idx *Term, typ types.Type) *Term {
	if typ == nil {
		if et := elemTypeOf(s.Typ); et != nil {
			typ = types.NewPointer(et)
		}
	}
	if s.Op == "slice" {
		return mkIndexAddr(s.Args[0], Add(s.Args[1], idx), typ)
	}
	return U.mk("indexaddr", "", nil, typ, s, idx)
}

func (e *Exec) loadRegion(st *State, l loc, typ types.Type) (val, split *Term) {
	ls := st.regs[l.reg]
	for i := len(ls) - 1; i >= 0; i-- {
		la := ls[i]
		switch la.kind {
		case "point":
			c := Eq(l.idx, la.a)
			if st.facts.Entails(c) {
				return la.val, nil
			}
			if !st.facts.Entails(Not(c)) {
				return nil, c
			}
		case "range":
			c1 := Le(la.a, l.idx)
			c2 := Lt(l.idx, la.b)
			in1, in2 := st.facts.Entails(c1), st.facts.Entails(c2)
			if in1 && in2 {
				return apply(la.val, l.idx), nil
			}
			if st.facts.Entails(Not(c1)) || st.facts.Entails(Not(c2)) {
				continue
			}
			if !in1 {
				return nil, c1
			}
			return nil, c2
		case "havoc":
			el := mkElem(l.root, l.idx, la.ver, elemOfPath(l.root, l, typ))
			return pathOf(el, l.path), nil
		}
	}
	return e.regionBase(st, l, l.idx, typ)
}

// store writes a location
func (e *Exec) store(st *State, addr, val *Term, typ types.Type) {
	if isStructType(typ) {
		s := structOf(typ)
		pt := types.NewPointer(typ)
		for i := 0; i < s.NumFields(); i++ {
			e.store(st, mkFieldAddr(addr, pt, i), mkField(val, typ, i), s.Field(i).Type())
		}
		return
	}
	l := locOf(addr)
	if l.cell != nil {
		st.cells[addr] = val
		return
	}
	e.storeRegion(st, l, val)
}

func (e *Exec) storeRegion(st *State, l loc, val *Term) {
	ls := st.regs[l.reg]
	n := make([]layer, 0, len(ls)+1)
	for _, la := range ls {
		if la.kind == "point" && st.facts.Entails(Eq(la.a, l.idx)) {
			continue
		}
		n = append(n, la)
	}
	n = append(n, layer{kind: "point", a: l.idx, val: val})
	st.regs[l.reg] = n
	// writes through a sub slice of appended data are not tracked back to the origin
}

// ---- maps ----

func (e *Exec) mapGet(st *State, m, key *Term, vt types.Type) (val, ok, split *Term) {
	ls := st.maps[m]
	for i := len(ls) - 1; i >= 0; i-- {
		la := ls[i]
		switch la.kind {
		case "point", "delete":
			c := Eq(key, la.key)
			if st.facts.Entails(c) {
				if la.kind == "delete" {
					return zeroOf(vt), False, nil
				}
				return la.val, True, nil
			}
			if !st.facts.Entails(Not(c)) {
				return nil, nil, c
			}
		case "havoc":
			return U.mk("mapget", la.ver, nil, vt, m, key), U.mk("maphas", la.ver, nil, types.Typ[types.Bool], m, key), nil
		case "all":
			return apply(la.val, key), apply(la.ok, key), nil
		}
	}
	if m.Op == "makemap" || m == Nil {
		return zeroOf(vt), False, nil
	}
	return U.mk("mapget", "", nil, vt, m, key), U.mk("maphas", "", nil, types.Typ[types.Bool], m, key), nil
}

func (e *Exec) mapSet(st *State, m, key, val *Term) {
	ls := st.maps[m]
	n := make([]mlayer, 0, len(ls)+1)
	for _, la := range ls {
		if (la.kind == "point" || la.kind == "delete") && st.facts.Entails(Eq(la.key, key)) {
			continue
		}
		n = append(n, la)
	}
	st.maps[m] = append(n, mlayer{kind: "point", key: key, val: val})
}

// ---- shared (monitored) fields ----

// monitoredField gives the field of a type with its own mutex that an address belongs to
func (e *Exec) monitoredField(addr *Term) (FieldRef, bool) {
	fr, _, ok := e.monitoredAddr(addr)
	return fr, ok
}

// monitoredAddr gives that field and its address. Structs that only group fields are looked into
func (e *Exec) monitoredAddr(addr *Term) (FieldRef, *Term, bool) {
	if addr.Op != "fieldaddr" {
		return FieldRef{}, nil, false
	}
	chain := []*Term{addr}
	for chain[0].Args[0].Op == "fieldaddr" {
		chain = append([]*Term{chain[0].Args[0]}, chain...)
	}
	if !e.mon[typKey(chain[0].Ref.(FieldRef).T)] {
		return FieldRef{}, nil, false
	}
	for len(chain) > 1 && grouping(chain[0].Ref.(FieldRef).Var().Type()) {
		chain = chain[1:]
	}
	return chain[0].Ref.(FieldRef), chain[0], true
}

// grouping tells whether a type only groups fields of the struct it belongs to
func grouping(t types.Type) bool {
	if _, ok := t.Underlying().(*types.Struct); !ok {
		return false
	}
	n, ok := t.(*types.Named)
	return !ok || !n.Obj().Exported() && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), modPath)
}

// flatFields lists the fields of a struct, those that are grouped included
func flatFields(st *types.Struct) (l []*types.Var) {
	for i := 0; st != nil && i < st.NumFields(); i++ {
		f := st.Field(i)
		if grouping(f.Type()) {
			l = append(l, flatFields(f.Type().Underlying().(*types.Struct))...)
			continue
		}
		l = append(l, f)
	}
	return
}

func objOf(addr *Term) *Term {
	b := addr
	for b.Op == "fieldaddr" {
		b = b.Args[0]
	}
	return b
}

func (e *Exec) volatile(st *State, addr *Term) bool {
	fr, ok := e.monitoredField(addr)
	if !ok {
		return false
	}
	if freshRoot(objOf(addr)) && !e.opts.SharedAlloc {
		return false
	}
	v := fr.Var()
	if !e.mutable[v] || e.opts.Stable[v.Name()] {
		return false
	}
	if e.guards != nil && len(e.guards[v]) == 0 {
		return false
	}
	return true
}

// protected: a lock guarding the field is held
func (e *Exec) protected(st *State, addr *Term) bool {
	fr, _ := e.monitoredField(addr)
	obj := objOf(addr)
	for _, h := range st.held {
		if h.Addr.Op != "fieldaddr" || objOf(h.Addr) != obj {
			continue
		}
		if e.guards == nil || e.guards[fr.Var()][h.Addr.Ref.(FieldRef).Var()] {
			return true
		}
	}
	return false
}

// acquire forgets what other go routines may have changed
func (e *Exec) acquire(st *State, lock *Term) {
	if lock.Op != "fieldaddr" {
		return
	}
	obj := objOf(lock)
	lv := lock.Ref.(FieldRef).Var()
	for a := range st.cells {
		if a.Op != "fieldaddr" || objOf(a) != obj || !e.volatile(st, a) {
			continue
		}
		fr, _ := e.monitoredField(a)
		if e.guards != nil {
			if !e.guards[fr.Var()][lv] {
				continue
			}
		}
		if e.protected(st, a) { // by another lock, already held
			continue
		}
		delete(st.cells, a)
	}
}

func (e *Exec) curSite(st *State) string {
	f := st.top()
	return fmt.Sprintf("%s.%d.%d", f.fn.String(), f.block.Index, f.pc)
}

// loadFacts adds the invariant of a shared field to what is known of its value
func (e *Exec) loadFacts(st *State, addr, v *Term) {
	if e.opts.LoadFacts != nil {
		for _, l := range e.opts.LoadFacts(addr, v) {
			st.facts = st.facts.Add(l)
		}
	}
}
