package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Points-to analysis of an entry function: which memory that existed before the call may be written by it,
// and which may be reached from its results. It is flow-insensitive, field-sensitive, and tells calls apart
// by their last call sites. Interface calls on unknown values go to every implementation of the library.

// aobj is an abstract object: allocated by the analysed code, or given by the arguments (arg)
type aobj struct {
	id   int
	name string
	typ  types.Type // type of the object, dynamic type of the value for a box
	arg  bool
	box  bool // struct stored in an interface
	fn   *ssa.Function
	clos *ssa.MakeClosure
	ctx  string
	deep int
}

type aloc struct {
	o    *aobj
	path string
}

type vkey struct {
	ctx  string
	v    interface{} // ssa.Value or *ssa.Function for results
	path string
}

type locset map[aloc]bool

type awrite struct {
	pos  string
	fn   *ssa.Function
	l    aloc
	kind string
	elem types.Type // type of what is written
}

type Alias struct {
	p       *Prog
	vars    map[vkey]locset
	slots   map[aloc]locset
	objs    map[string]*aobj
	writes  map[string]*awrite
	visited map[string]bool
	fns     map[*ssa.Function]bool
	unknown map[string]bool
	changed bool
	nid     int
	calls   int
}

const ctxDepth = 3

func (p *Prog) newAlias() *Alias {
	return &Alias{p: p, vars: map[vkey]locset{}, slots: map[aloc]locset{}, objs: map[string]*aobj{}, writes: map[string]*awrite{}, fns: map[*ssa.Function]bool{}, unknown: map[string]bool{}}
}

// leaves gives the paths of a type that hold references, with their types
func refLeaves(t types.Type) map[string]types.Type {
	r := map[string]types.Type{}
	addLeaves(r, "", t, 0)
	return r
}

func addLeaves(r map[string]types.Type, pre string, t types.Type, d int) {
	if t == nil || d > 8 {
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Interface, *types.Signature:
		r[pre] = t
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			addLeaves(r, pre+"."+u.Field(i).Name(), u.Field(i).Type(), d+1)
		}
	case *types.Array:
		addLeaves(r, pre+"[]", u.Elem(), d+1)
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			addLeaves(r, fmt.Sprintf("%s#%d", pre, i), u.At(i).Type(), d+1)
		}
	case *types.Basic:
		if u.Kind() == types.UnsafePointer {
			r[pre] = t
		}
	}
}

func (a *Alias) obj(key string, mk func() *aobj) *aobj {
	if o := a.objs[key]; o != nil {
		return o
	}
	o := mk()
	a.nid++
	o.id = a.nid
	a.objs[key] = o
	return o
}

// Arg makes an object given by the caller
func (a *Alias) Arg(name string, t types.Type) *aobj {
	return a.obj("arg:"+name, func() *aobj { return &aobj{name: name, typ: t, arg: true} })
}

func (a *Alias) set(m locset, ls ...aloc) {
	for _, l := range ls {
		if !m[l] {
			m[l] = true
			a.changed = true
		}
	}
}

func (a *Alias) v(k vkey) locset {
	m := a.vars[k]
	if m == nil {
		m = locset{}
		a.vars[k] = m
	}
	return m
}

func (a *Alias) slot(l aloc) locset {
	m := a.slots[l]
	if m == nil {
		m = locset{}
		a.slots[l] = m
	}
	return m
}

func (a *Alias) copyTo(dst locset, src locset) {
	for l := range src {
		a.set(dst, l)
	}
}

// get gives what a value may refer to
func (a *Alias) get(ctx string, v ssa.Value, path string) locset {
	switch v := v.(type) {
	case *ssa.Const:
		return nil
	case *ssa.Function:
		return locset{aloc{a.obj("fn:"+v.String(), func() *aobj { return &aobj{name: short(v.String()), fn: v, typ: v.Type()} }), ""}: true}
	case *ssa.Global:
		return locset{aloc{a.obj("glob:"+v.String(), func() *aobj { return &aobj{name: short(v.String()), typ: v.Type().(*types.Pointer).Elem()} }), ""}: true}
	case *ssa.Builtin:
		return nil
	}
	return a.v(vkey{ctx, v, path})
}

// load gives what a location holds
func (a *Alias) load(l aloc, path string, t types.Type) locset {
	k := aloc{l.o, l.path + path}
	m := a.slot(k)
	if l.o.arg {
		c := l.o
		if l.o.deep < 7 {
			name := l.o.name + l.path + path
			c = a.obj("arg:"+name, func() *aobj { return &aobj{name: name, typ: t, arg: true, deep: l.o.deep + 1} })
		}
		a.set(m, aloc{c, ""})
	}
	return m
}

func (a *Alias) copyVal(ctx string, dst interface{}, dpre string, src ssa.Value, spre string, t types.Type) {
	for p := range refLeaves(t) {
		a.copyTo(a.v(vkey{ctx, dst, dpre + p}), a.get(ctx, src, spre+p))
	}
}

// loadVal copies what locations hold into a value
func (a *Alias) loadVal(ctx string, dst interface{}, dpre string, from locset, path string, t types.Type) {
	for p, lt := range refLeaves(t) {
		for l := range from {
			a.copyTo(a.v(vkey{ctx, dst, dpre + p}), a.load(l, path+p, lt))
		}
	}
}

func (a *Alias) storeVal(ctx string, to locset, path string, src ssa.Value, t types.Type) {
	for p := range refLeaves(t) {
		s := a.get(ctx, src, p)
		for l := range to {
			a.copyTo(a.slot(aloc{l.o, l.path + path + p}), s)
		}
	}
}

func (a *Alias) write(in ssa.Instruction, to locset, path, kind string, elem types.Type) {
	for l := range to {
		l = aloc{l.o, l.path + path}
		k := fmt.Sprintf("%p/%d/%s", in, l.o.id, l.path)
		if a.writes[k] == nil {
			a.writes[k] = &awrite{pos: a.p.pos(in.Pos()), fn: in.Parent(), l: l, kind: kind, elem: elem}
		}
	}
}

func (a *Alias) alloc(ctx string, v ssa.Value, t types.Type) aloc {
	in := v.(ssa.Instruction)
	k := fmt.Sprintf("new:%s:%p", ctx, in)
	return aloc{a.obj(k, func() *aobj {
		return &aobj{name: fmt.Sprintf("new %s at %s", typShort(t), a.p.pos(v.Pos())), typ: t, ctx: ctx}
	}), ""}
}

// Run analyses a function for the given arguments: argument i is the object named by its parameter
func (a *Alias) Run(fn *ssa.Function) { a.RunAll(fn) }

// RunAll analyses several functions called, any number of times, in any order
func (a *Alias) RunAll(fns ...*ssa.Function) {
	for n := 0; n < 200; n++ {
		a.changed = false
		a.visited = map[string]bool{}
		for _, pk := range a.p.byPkg {
			if f := pk.Func("init"); f != nil && !strings.Contains(pk.Pkg.Path(), "/internal/") {
				a.fnIn(f, "init")
			}
		}
		for _, fn := range fns {
			for _, p := range fn.Params {
				a.param("", fn, p, p.Name())
			}
			a.fnIn(fn, "")
		}
		if !a.changed {
			return
		}
	}
	a.unknown["the points-to analysis does not end"] = true
}

func (a *Alias) param(ctx string, fn *ssa.Function, p *ssa.Parameter, name string) {
	for path, t := range refLeaves(p.Type()) {
		a.set(a.v(vkey{ctx, p, path}), aloc{a.Arg(name+path, t), ""})
	}
	for i, fv := range fn.FreeVars {
		for path, t := range refLeaves(fv.Type()) {
			a.set(a.v(vkey{ctx, fv, path}), aloc{a.Arg(fmt.Sprintf("%s:free%d", fn.Name(), i)+path, t), ""})
		}
	}
}

func (a *Alias) fnIn(fn *ssa.Function, ctx string) {
	k := fn.String() + "@" + ctx
	if a.visited[k] {
		return
	}
	a.visited[k] = true
	a.fns[fn] = true
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			a.instr(fn, ctx, in)
		}
	}
}

func (a *Alias) instr(fn *ssa.Function, ctx string, in ssa.Instruction) {
	switch x := in.(type) {
	case *ssa.Alloc:
		a.set(a.v(vkey{ctx, x, ""}), a.alloc(ctx, x, x.Type().(*types.Pointer).Elem()))
	case *ssa.MakeSlice:
		a.set(a.v(vkey{ctx, x, ""}), a.alloc(ctx, x, x.Type()))
	case *ssa.MakeMap:
		a.set(a.v(vkey{ctx, x, ""}), a.alloc(ctx, x, x.Type()))
	case *ssa.MakeChan:
		a.set(a.v(vkey{ctx, x, ""}), a.alloc(ctx, x, x.Type()))
	case *ssa.MakeClosure:
		l := a.alloc(ctx, x, x.Type())
		l.o.clos = x
		a.set(a.v(vkey{ctx, x, ""}), l)
		for i, b := range x.Bindings {
			a.storeVal(ctx, locset{l: true}, fmt.Sprintf(".fv%d", i), b, b.Type())
		}
	case *ssa.MakeInterface:
		t := x.X.Type()
		if ls := refLeaves(t); len(ls) == 1 && ls[""] != nil {
			a.copyVal(ctx, x, "", x.X, "", t)
			break
		}
		l := a.alloc(ctx, x, t)
		l.o.box = true
		a.set(a.v(vkey{ctx, x, ""}), l)
		a.storeVal(ctx, locset{l: true}, "", x.X, t)
	case *ssa.ChangeInterface:
		a.copyVal(ctx, x, "", x.X, "", x.Type())
	case *ssa.ChangeType:
		a.copyVal(ctx, x, "", x.X, "", x.Type())
	case *ssa.Convert:
		if ls := refLeaves(x.Type()); ls[""] != nil && len(refLeaves(x.X.Type())) == 0 {
			a.set(a.v(vkey{ctx, x, ""}), a.alloc(ctx, x, x.Type()))
			break
		}
		a.copyVal(ctx, x, "", x.X, "", x.Type())
	case *ssa.SliceToArrayPointer:
		a.copyVal(ctx, x, "", x.X, "", x.Type())
	case *ssa.TypeAssert:
		pre := ""
		if x.CommaOk {
			pre = "#0"
		}
		t := x.AssertedType
		if ls := refLeaves(t); len(ls) == 1 && ls[""] != nil {
			for l := range a.get(ctx, x.X, "") {
				if l.o.box && !types.IsInterface(t) {
					continue
				}
				if !l.o.arg && l.path == "" && !types.IsInterface(t) && !a.mayBe(l.o, t) {
					continue
				}
				a.set(a.v(vkey{ctx, x, pre}), l)
			}
		} else {
			a.loadVal(ctx, x, pre, a.get(ctx, x.X, ""), "", t)
		}
	case *ssa.Field:
		st := x.X.Type().Underlying().(*types.Struct)
		a.copyVal(ctx, x, "", x.X, "."+st.Field(x.Field).Name(), x.Type())
	case *ssa.Index:
		if _, ok := x.X.Type().Underlying().(*types.Array); ok {
			a.copyVal(ctx, x, "", x.X, "[]", x.Type())
		}
	case *ssa.FieldAddr:
		st := structOf(x.X.Type())
		for l := range a.get(ctx, x.X, "") {
			a.set(a.v(vkey{ctx, x, ""}), aloc{l.o, l.path + "." + st.Field(x.Field).Name()})
		}
	case *ssa.IndexAddr:
		for l := range a.get(ctx, x.X, "") {
			a.set(a.v(vkey{ctx, x, ""}), aloc{l.o, l.path + "[]"})
		}
	case *ssa.Slice:
		if _, ok := x.Type().Underlying().(*types.Slice); ok {
			a.copyTo(a.v(vkey{ctx, x, ""}), a.get(ctx, x.X, ""))
		}
	case *ssa.UnOp:
		switch x.Op.String() {
		case "*":
			a.loadVal(ctx, x, "", a.get(ctx, x.X, ""), "", x.Type())
		case "<-":
			pre, t := "", x.Type()
			if x.CommaOk {
				pre, t = "#0", t.(*types.Tuple).At(0).Type()
			}
			a.loadVal(ctx, x, pre, a.get(ctx, x.X, ""), "[]", t)
		}
	case *ssa.Store:
		to := a.get(ctx, x.Addr, "")
		a.storeVal(ctx, to, "", x.Val, x.Val.Type())
		a.write(x, to, "", "store", x.Val.Type())
	case *ssa.MapUpdate:
		to := a.get(ctx, x.Map, "")
		a.storeVal(ctx, to, "[]", x.Value, x.Value.Type())
		a.storeVal(ctx, to, "[k]", x.Key, x.Key.Type())
		a.write(x, to, "[]", "map update", x.Value.Type())
	case *ssa.Lookup:
		if m, ok := x.X.Type().Underlying().(*types.Map); ok {
			pre := ""
			if x.CommaOk {
				pre = "#0"
			}
			a.loadVal(ctx, x, pre, a.get(ctx, x.X, ""), "[]", m.Elem())
		}
	case *ssa.Range:
		a.copyTo(a.v(vkey{ctx, x, ""}), a.get(ctx, x.X, ""))
	case *ssa.Next:
		if !x.IsString {
			tt := x.Type().(*types.Tuple)
			from := a.v(vkey{ctx, x.Iter, ""})
			a.loadVal(ctx, x, "#1", from, "[k]", tt.At(1).Type())
			a.loadVal(ctx, x, "#2", from, "[]", tt.At(2).Type())
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			a.copyVal(ctx, x, "", e, "", x.Type())
		}
	case *ssa.Select:
		n := 2
		for _, s := range x.States {
			if s.Dir == types.RecvOnly {
				a.loadVal(ctx, x, fmt.Sprintf("#%d", n), a.get(ctx, s.Chan, ""), "[]", s.Chan.Type().Underlying().(*types.Chan).Elem())
				n++
			} else {
				a.storeVal(ctx, a.get(ctx, s.Chan, ""), "[]", s.Send, s.Send.Type())
			}
		}
	case *ssa.Send:
		a.storeVal(ctx, a.get(ctx, x.Chan, ""), "[]", x.X, x.X.Type())
	case *ssa.Extract:
		a.copyVal(ctx, x, "", x.Tuple, fmt.Sprintf("#%d", x.Index), x.Type())
	case *ssa.Return:
		for i, r := range x.Results {
			pre := ""
			if len(x.Results) > 1 {
				pre = fmt.Sprintf("#%d", i)
			}
			a.copyVal(ctx, fn, pre, r, "", r.Type())
		}
	case *ssa.Call:
		a.call(ctx, x, x, &x.Call)
	case *ssa.Go:
		a.call(ctx, x, nil, &x.Call)
	case *ssa.Defer:
		a.call(ctx, x, nil, &x.Call)
	}
}

// mayBe tells whether an interface holding a reference to an object may be asserted to a type
func (a *Alias) mayBe(o *aobj, t types.Type) bool {
	if o.typ == nil || o.fn != nil || o.clos != nil {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return types.Identical(o.typ, u.Elem())
	case *types.Slice:
		s, ok := o.typ.Underlying().(*types.Slice)
		if !ok {
			_, ok := o.typ.Underlying().(*types.Array)
			return ok
		}
		return types.Identical(s.Elem(), u.Elem())
	}
	return true
}

func nextCtx(ctx string, in ssa.Instruction) string {
	parts := strings.Split(ctx, ",")
	if ctx == "" {
		parts = nil
	}
	parts = append(parts, fmt.Sprintf("%p", in))
	if len(parts) > ctxDepth {
		parts = parts[len(parts)-ctxDepth:]
	}
	return strings.Join(parts, ",")
}

func (a *Alias) call(ctx string, in ssa.Instruction, res ssa.Value, c *ssa.CallCommon) {
	a.calls++
	if c.IsInvoke() {
		for _, l := range sortedLocs(a.get(ctx, c.Value, "")) {
			var fs []*ssa.Function
			switch {
			case l.o.arg || l.o.typ == nil:
				fs = a.p.light().implementers(c.Value.Type(), c.Method)
			case l.o.box:
				if f := a.p.methodOf(l.o.typ, c.Method); f != nil {
					fs = append(fs, unwrap(f))
				}
			default:
				t := types.Type(types.NewPointer(l.o.typ))
				if l.path != "" { // a part of an object
					fs = a.p.light().implementers(c.Value.Type(), c.Method)
					break
				}
				if _, ok := l.o.typ.Underlying().(*types.Interface); ok {
					fs = a.p.light().implementers(c.Value.Type(), c.Method)
					break
				}
				f := a.p.methodOf(t, c.Method)
				if f == nil {
					f = a.p.methodOf(l.o.typ, c.Method)
				}
				if f != nil {
					fs = append(fs, unwrap(f))
				}
			}
			for _, f := range fs {
				if !a.p.lib(f) || len(f.Blocks) == 0 {
					continue
				}
				cc := nextCtx(ctx, in)
				recv := f.Params[0]
				if ls := refLeaves(recv.Type()); len(ls) == 1 && ls[""] != nil {
					a.set(a.v(vkey{cc, recv, ""}), l)
				} else {
					a.loadVal(cc, recv, "", locset{l: true}, "", recv.Type())
				}
				a.bind(ctx, cc, in, res, f, f.Params[1:], c.Args)
			}
		}
		return
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		a.builtin(ctx, in, res, b.Name(), c.Args)
		return
	}
	if f := c.StaticCallee(); f != nil {
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			a.closure(ctx, in, res, mc, ctx, c.Args)
			return
		}
		a.static(ctx, in, res, f, c.Args)
		return
	}
	for _, l := range sortedLocs(a.get(ctx, c.Value, "")) {
		switch {
		case l.o.fn != nil:
			a.static(ctx, in, res, l.o.fn, c.Args)
		case l.o.clos != nil:
			a.closure(ctx, in, res, l.o.clos, l.o.ctx, c.Args)
		case l.o.arg:
			for _, f := range a.p.light().bySignature(c.Value.Type()) {
				cc := nextCtx(ctx, in)
				for _, fv := range f.FreeVars {
					for path, t := range refLeaves(fv.Type()) {
						a.set(a.v(vkey{cc, fv, path}), aloc{a.Arg(l.o.name+".free"+path, t), ""})
					}
				}
				a.static(ctx, in, res, f, c.Args)
			}
		}
	}
}

func sortedLocs(s locset) []aloc {
	var r []aloc
	for l := range s {
		r = append(r, l)
	}
	sort.Slice(r, func(i, j int) bool {
		if r[i].o.id != r[j].o.id {
			return r[i].o.id < r[j].o.id
		}
		return r[i].path < r[j].path
	})
	return r
}

func (a *Alias) closure(ctx string, in ssa.Instruction, res ssa.Value, mc *ssa.MakeClosure, mctx string, args []ssa.Value) {
	f := mc.Fn.(*ssa.Function)
	cc := nextCtx(ctx, in)
	for i, fv := range f.FreeVars {
		a.copyVal2(mctx, cc, fv, mc.Bindings[i], fv.Type())
	}
	a.bind(ctx, cc, in, res, f, f.Params, args)
}

func (a *Alias) copyVal2(sctx, dctx string, dst interface{}, src ssa.Value, t types.Type) {
	for p := range refLeaves(t) {
		a.copyTo(a.v(vkey{dctx, dst, p}), a.get(sctx, src, p))
	}
}

func (a *Alias) static(ctx string, in ssa.Instruction, res ssa.Value, f *ssa.Function, args []ssa.Value) {
	f = unwrapBound(f)
	if len(f.Blocks) == 0 || !a.p.lib(f) && f.Synthetic == "" {
		a.external(ctx, in, res, f, args)
		return
	}
	a.bind(ctx, nextCtx(ctx, in), in, res, f, f.Params, args)
}

func unwrapBound(f *ssa.Function) *ssa.Function { return f }

func (a *Alias) bind(ctx, cc string, in ssa.Instruction, res ssa.Value, f *ssa.Function, ps []*ssa.Parameter, args []ssa.Value) {
	for i, p := range ps {
		if i < len(args) {
			a.copyVal2(ctx, cc, p, args[i], p.Type())
		}
	}
	a.fnIn(f, cc)
	if res != nil {
		for p := range refLeaves(res.Type()) {
			a.copyTo(a.v(vkey{ctx, res, p}), a.v(vkey{cc, f, p}))
		}
	}
}

func (a *Alias) builtin(ctx string, in ssa.Instruction, res ssa.Value, name string, args []ssa.Value) {
	switch name {
	case "append":
		if res == nil {
			return
		}
		to := locset{}
		t := res.Type()
		for l := range a.get(ctx, args[0], "") {
			to[l] = true
		}
		if !noCapacity(args[0]) {
			a.write(in, to, "[]", "append", elemTypeOf(t))
			a.copyTo(a.v(vkey{ctx, res, ""}), to)
		}
		n := a.alloc(ctx, res, t)
		a.set(a.v(vkey{ctx, res, ""}), n)
		et := elemTypeOf(t)
		for p, lt := range refLeaves(et) {
			d := a.slot(aloc{n.o, n.path + "[]" + p})
			for l := range to {
				a.copyTo(d, a.load(l, "[]"+p, lt))
			}
			if len(args) > 1 {
				for l := range a.get(ctx, args[1], "") {
					src := a.load(l, "[]"+p, lt)
					a.copyTo(d, src)
					for k := range to {
						a.copyTo(a.slot(aloc{k.o, k.path + "[]" + p}), src)
					}
				}
			}
		}
	case "copy":
		to := a.get(ctx, args[0], "")
		et := elemTypeOf(args[0].Type())
		a.write(in, to, "[]", "copy", et)
		for p, lt := range refLeaves(et) {
			for l := range a.get(ctx, args[1], "") {
				src := a.load(l, "[]"+p, lt)
				for k := range to {
					a.copyTo(a.slot(aloc{k.o, k.path + "[]" + p}), src)
				}
			}
		}
	case "delete":
		a.write(in, a.get(ctx, args[0], ""), "[]", "delete", nil)
	case "clear":
		a.write(in, a.get(ctx, args[0], ""), "[]", "clear", elemTypeOf(args[0].Type()))
	case "ssa:wrapnilchk":
		if res != nil {
			a.copyVal(ctx, res, "", args[0], "", res.Type())
		}
	}
}

// noCapacity: x[i:i:i] has no room to grow in place
func noCapacity(v ssa.Value) bool {
	s, ok := v.(*ssa.Slice)
	if !ok || s.Max == nil {
		c, ok := v.(*ssa.Const)
		return ok && c.IsNil()
	}
	return s.High == s.Max || sameConst(s.High, s.Max)
}

func sameConst(a, b ssa.Value) bool {
	x, ok1 := a.(*ssa.Const)
	y, ok2 := b.(*ssa.Const)
	return ok1 && ok2 && x.Value != nil && y.Value != nil && x.Value.ExactString() == y.Value.ExactString()
}

// pureExternal: functions of other modules which only read what they are given
func pureExternal(f *ssa.Function) bool {
	pk := ""
	if f.Pkg != nil {
		pk = f.Pkg.Pkg.Path()
	} else if o := f.Object(); o != nil && o.Pkg() != nil {
		pk = o.Pkg().Path()
	}
	switch pk {
	case "math", "errors", "fmt", "time", "sync", "sync/atomic", "strings", "strconv", "runtime", "math/bits", "unicode", "golang.org/x/exp/errors/fmt", "golang.org/x/exp/errors", "log", "os", "context", "gonum.org/v1/gonum/stat/distuv", "gonum.org/v1/gonum/mat":
		return true
	case "golang.org/x/exp/rand":
		return f.Name() != "Shuffle" && f.Name() != "Read"
	case "github.com/gonum/floats", "gonum.org/v1/gonum/floats":
		switch f.Name() {
		case "Sum", "Dot", "Norm", "Distance", "Max", "Min", "MaxIdx", "MinIdx", "Prod", "Count", "Equal", "EqualApprox", "HasNaN", "Same", "NearestIdx", "LogSumExp":
			return true
		}
	case "sort":
		return strings.HasPrefix(f.Name(), "Search") || strings.HasSuffix(f.Name(), "AreSorted")
	}
	return false
}

// external: a function whose code is not analysed
func (a *Alias) external(ctx string, in ssa.Instruction, res ssa.Value, f *ssa.Function, args []ssa.Value) {
	fresh := func(path string, t types.Type) {
		l := a.alloc(ctx, res, t)
		if path != "" {
			o := l.o
			l = aloc{a.obj(fmt.Sprintf("ext:%d:%s", o.id, path), func() *aobj { return &aobj{name: "result of " + short(f.String()), typ: nil} }), ""}
		}
		a.set(a.v(vkey{ctx, res, path}), l)
	}
	name := f.String()
	if strings.Contains(name, "distmv.") || pureExternal(f) {
		if strings.HasSuffix(name, ").Rand") && strings.Contains(name, "distmv.") && len(args) > 1 {
			to := a.get(ctx, args[len(args)-1], "")
			a.write(in, to, "[]", "call of "+short(name), nil)
			if res != nil {
				a.copyTo(a.v(vkey{ctx, res, ""}), to)
			}
		}
		// results of a type of the caller may be the arguments (sync.Map, append-like): none is used
		if res != nil {
			for p, t := range refLeaves(res.Type()) {
				fresh(p, t)
			}
		}
		// callbacks (sync.Once.Do)
		for _, x := range args {
			if sig, ok := x.Type().Underlying().(*types.Signature); ok && sig.Params().Len() == 0 {
				for _, l := range sortedLocs(a.get(ctx, x, "")) {
					if l.o.fn != nil {
						a.static(ctx, in, nil, l.o.fn, nil)
					} else if l.o.clos != nil {
						a.closure(ctx, in, nil, l.o.clos, l.o.ctx, nil)
					}
				}
			}
		}
		return
	}
	// anything may be written, or returned
	all := locset{}
	for _, x := range args {
		for p := range refLeaves(x.Type()) {
			for l := range a.reach(a.get(ctx, x, p)) {
				all[l] = true
			}
		}
	}
	a.write(in, all, "", "call of "+short(name), nil)
	if res != nil {
		for p, t := range refLeaves(res.Type()) {
			fresh(p, t)
			a.copyTo(a.v(vkey{ctx, res, p}), all)
		}
	}
}

// reach gives everything that can be reached from some locations
func (a *Alias) reach(from locset) locset {
	r := locset{}
	var add func(l aloc)
	add = func(l aloc) {
		if r[l] {
			return
		}
		r[l] = true
		for k, s := range a.slots {
			if k.o == l.o && strings.HasPrefix(k.path, l.path) {
				for x := range s {
					add(x)
				}
			}
		}
	}
	for l := range from {
		add(l)
	}
	return r
}

// Results gives what the results of the entry function may refer to, result i (or all, for -1)
func (a *Alias) Results(fn *ssa.Function, i int) locset {
	r := locset{}
	rs := fn.Signature.Results()
	for k := 0; k < rs.Len(); k++ {
		if i >= 0 && k != i {
			continue
		}
		pre := ""
		if rs.Len() > 1 {
			pre = fmt.Sprintf("#%d", k)
		}
		for p := range refLeaves(rs.At(k).Type()) {
			for l := range a.v(vkey{"", fn, pre + p}) {
				r[l] = true
			}
		}
	}
	return r
}

// Writes lists the writes into memory given by the caller
func (a *Alias) Writes() []*awrite {
	var r []*awrite
	for _, w := range a.writes {
		if w.l.o.arg {
			r = append(r, w)
		}
	}
	sort.Slice(r, func(i, j int) bool {
		if r[i].pos != r[j].pos {
			return r[i].pos < r[j].pos
		}
		return r[i].l.o.name+r[i].l.path < r[j].l.o.name+r[j].l.path
	})
	return r
}

// aliasOf analyses a function once
func (p *Prog) aliasOf(fn *ssa.Function) *Alias {
	if p.al == nil {
		p.al = map[*ssa.Function]*Alias{}
	}
	if p.al[fn] == nil {
		a := p.newAlias()
		a.Run(fn)
		p.al[fn] = a
	}
	return p.al[fn]
}

// light gives access to the call graph by types, without the analysis of the concurrent part
func (p *Prog) light() *Conc {
	if p.li0 == nil {
		p.li0 = &Conc{p: p}
	}
	return p.li0
}
