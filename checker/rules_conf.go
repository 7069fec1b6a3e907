package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rulesByID["C13"] = &Rule{run: ruleC13, assumptions: append([]string{"configuration values are not NaN"}, seqAssumptions...), explanation: seqExplanation + ": every path of the constructors and of the verifications"}
}

// want is a constraint on a configuration, or a default value
type confSpec struct {
	pkg    string
	own    []constraint       // constraints of the configuration type itself
	defs   map[string]confDef // defaults
	extern []constraint       // constraints of the constructor
}

type constraint struct {
	text string
	lit  func(get func(string) *Term, fn *ssa.Function) *Term
}

type confDef struct {
	num   string // a number
	nums  []int64
	fresh bool // any value that is not nil
	call  string
}

func atLeast(field string, n int64) constraint {
	return constraint{fmt.Sprintf("%s >= %d", field, n), func(get func(string) *Term, _ *ssa.Function) *Term { return Le(Num(n), get(field)) }}
}

var ctrlConstraints = []constraint{atLeast("Iter", 0), atLeast("IterPerData", 0), atLeast("DataPerIter", 0), atLeast("IterFreq", 0), atLeast("Timeout", 0)}

func confSpecs() []confSpec {
	// a limit left at zero is its default
	orDefault := func(x *Term, d int64, rel func(y *Term) *Term) *Term {
		return Or(And(Eq(x, Num(0)), rel(Num(d))), And(Not(Eq(x, Num(0))), rel(x)))
	}
	return []confSpec{
		{pkg: "kmeans", own: []constraint{atLeast("K", 1)},
			defs: map[string]confDef{"RGen": {fresh: true}, "NumCPU": {call: "runtime.NumCPU"}}},
		{pkg: "mcmc", own: []constraint{atLeast("InitK", 1), {"MaxK >= InitK", func(get func(string) *Term, _ *ssa.Function) *Term {
			return orDefault(get("MaxK"), 16, func(m *Term) *Term { return Le(get("InitK"), m) })
		}}},
			defs: map[string]confDef{"RGen": {fresh: true}, "NumCPU": {call: "runtime.NumCPU"}, "ProbaK": {nums: []int64{1, 8, 1}}, "Norm": {num: "2"}, "MaxK": {num: "16"}, "B": {num: "1"}}},
		{pkg: "streaming", own: []constraint{{"OutAfter >= 2", func(get func(string) *Term, _ *ssa.Function) *Term {
			return Or(Eq(get("OutAfter"), Num(0)), Le(Num(2), get("OutAfter")))
		}}},
			extern: []constraint{{"BufferSize >= initial data", func(get func(string) *Term, fn *ssa.Function) *Term {
				for i, p := range fn.Params {
					if s, ok := p.Type().Underlying().(*types.Slice); ok && typKey(s.Elem()) == modPath+"/core.Elemt" {
						n := mkLen(params(fn)[i])
						return orDefault(get("BufferSize"), 100, func(m *Term) *Term { return Le(n, m) })
					}
				}
				return False
			}}},
			defs: map[string]confDef{"RGen": {fresh: true}, "BufferSize": {num: "100"}, "Mu": {num: "1/2"}, "OutRatio": {num: "2"}, "OutAfter": {num: "5"}, "Sigma": {num: "1/10"}}},
		{pkg: "template"},
	}
}

// getter reads the fields of a configuration as they were given
func getter(conf *Term) func(string) *Term {
	return func(name string) *Term {
		t := conf.Typ
		s := structOf(t)
		for i := 0; s != nil && i < s.NumFields(); i++ {
			if s.Field(i).Name() == name {
				return mkField(conf, t, i)
			}
			if s.Field(i).Anonymous() {
				in := mkField(conf, t, i)
				is := structOf(s.Field(i).Type())
				for j := 0; is != nil && j < is.NumFields(); j++ {
					if is.Field(j).Name() == name {
						return mkField(in, s.Field(i).Type(), j)
					}
				}
			}
		}
		return U.mk("missing", name, nil, types.Typ[types.Int])
	}
}

// ptrGetter reads the fields of a configuration behind a pointer, as they were given
func ptrGetter(r *Report, ptr *Term) func(string) *Term {
	return func(name string) *Term {
		a := r.fieldAddr(ptr, name)
		if a.Op != "missing" {
			return loadOf(a)
		}
		s := structOf(elemTypeOf(ptr.Typ))
		for i := 0; s != nil && i < s.NumFields(); i++ {
			if s.Field(i).Anonymous() {
				if b := r.fieldAddr(mkFieldAddr(ptr, ptr.Typ, i), name); b.Op != "missing" {
					return loadOf(b)
				}
			}
		}
		return U.mk("missing", name, nil, types.Typ[types.Int])
	}
}

// constrained: accepted means valid, refused means invalid
func (r *Report) constrained(name, pos string, f *Facts, accepted bool, cs []constraint, get func(string) *Term, fn *ssa.Function) {
	if accepted {
		for _, c := range cs {
			l := c.lit(get, fn)
			r.check(l == True || f.Entails(l) || refutes(f, Not(l)), "verify", name+"/"+c.text, pos, "a configuration that breaks "+c.text+" is accepted")
		}
		return
	}
	var ls []*Term
	for _, c := range cs {
		ls = append(ls, c.lit(get, fn))
	}
	l := True
	for _, x := range ls {
		l = And(l, x)
	}
	r.check(refutes(f, l), "verify", name+"/refused", pos, "a valid configuration may be refused")
}

// refutes tells whether a boolean combination of literals contradicts the facts
func refutes(f *Facts, l *Term) bool {
	switch {
	case l == False:
		return true
	case l == True:
		return false
	case l.Op == "and":
		// case analysis on the disjunctions among the conjuncts
		return refuteAll(f, l.Args)
	}
	return refuteAll(f, []*Term{l})
}

func refuteAll(f *Facts, ls []*Term) bool {
	for i, l := range ls {
		if l.Op == "and" {
			n := append(append([]*Term{}, ls[:i]...), ls[i+1:]...)
			return refuteAll(f, append(n, l.Args...))
		}
		if l.Op == "not" && l.Args[0].Op == "and" {
			n := append(append([]*Term{}, ls[:i]...), ls[i+1:]...)
			for _, c := range l.Args[0].Args {
				if !refuteAll(f, append(append([]*Term{}, n...), Not(c))) {
					return false
				}
			}
			return true
		}
	}
	for _, l := range ls {
		if l == True {
			continue
		}
		var ok bool
		if f, ok = f.Assume(l); !ok {
			return true
		}
	}
	return false
}

func ruleC13(r *Report) {
	r.need("verify", 40)
	r.need("default", 60)
	for _, sp := range confSpecs() {
		name := sp.pkg + ".NewAlgo"
		s := r.sym(name, Options{})
		if s == nil {
			continue
		}
		var conf *Term
		for i, p := range s.fn.Params {
			if n, ok := p.Type().(*types.Named); ok && n.Obj().Name() == "Conf" {
				conf = s.a[i]
			}
		}
		if conf == nil {
			r.bad("anchor", name, s.pos(), "no configuration among the arguments")
			continue
		}
		get := getter(conf)
		all := append(append(append([]constraint{}, ctrlConstraints...), sp.own...), sp.extern...)
		for _, pa := range s.paths {
			f := pa.St.facts
			switch pa.Kind {
			case "return":
				r.constrained(name, s.pos(), f, true, all, get, s.fn)
				algo := pa.Res[0]
				c := unface(s.fieldOf(pa.St, algo, "conf"))
				if c == nil || c.Op != "alloc" || typKey(elemTypeOf(c.Typ)) != typKey(conf.Typ) {
					r.bad("default", name+"/conf", s.pos(), "the algorithm is not built on the configuration")
					continue
				}
				v, split := s.e.load(pa.St.clone(), c, conf.Typ)
				if split != nil {
					r.bad("default", name+"/conf", s.pos(), "the configuration of the algorithm is not known")
					continue
				}
				r.defaults(name, s.pos(), s, pa.St, f, v, conf, sp.defs)
			case "panic":
				r.constrained(name, s.pos(), f, false, all, get, s.fn)
			default:
				r.bad("undecided", name, s.pos(), pa.Kind+" "+pa.Why)
			}
		}
		// the verification and the defaults by themselves
		if sp.own == nil {
			continue
		}
		vn := sp.pkg + ".Conf.Verify"
		if v := r.sym(vn, Options{}); v != nil {
			for _, pa := range v.returns() {
				f := pa.St.facts
				r.constrained(vn, v.pos(), f, pa.Res[0] == Nil || f.Entails(Eq(Nil, pa.Res[0])), sp.own, ptrGetter(r, v.a[0]), v.fn)
			}
		}
	}
	vn := "core.CtrlConf.Verify"
	if v := r.sym(vn, Options{}); v != nil {
		for _, pa := range v.returns() {
			f := pa.St.facts
			r.constrained(vn, v.pos(), f, pa.Res[0] == Nil || f.Entails(Eq(Nil, pa.Res[0])), ctrlConstraints, ptrGetter(r, v.a[0]), v.fn)
		}
	}
	// any other configuration
	if s := r.sym("core.NewAlgo", Options{}); s != nil {
		for _, pa := range s.returns() {
			f := pa.St.facts
			set, ok := false, false
			for _, ev := range pa.St.trace.Events() {
				if ev.Kind != "invoke" || ev.Recv != s.a[0] {
					continue
				}
				switch ev.Name {
				case "Conf.SetDefaultValues":
					set = true
				case "Conf.Verify":
					if set && (ev.Res == Nil || f.Entails(Eq(Nil, ev.Res))) {
						ok = true
					}
				}
			}
			r.check(ok, "verify", s.name+"/any", s.pos(), "an algorithm is built on a configuration that is not verified, with its defaults")
			r.check(s.fieldOf(pa.St, pa.Res[0], "conf") == s.a[0], "default", s.name+"/conf", s.pos(), "the algorithm is not built on the configuration")
		}
	}
}

// defaults checks every parameter of the configuration of the algorithm
func (r *Report) defaults(name, pos string, s *symRun, st *State, f *Facts, v, given *Term, defs map[string]confDef) {
	t := given.Typ
	str := structOf(t)
	for i := 0; i < str.NumFields(); i++ {
		fd := str.Field(i)
		got, was := mkField(v, t, i), mkField(given, t, i)
		d, has := defs[fd.Name()]
		c := name + "/" + fd.Name()
		if isStructType(fd.Type()) && !has {
			r.defaults(name, pos, s, st, f, got, was, defs)
			continue
		}
		if !has {
			r.check(got == was, "default", c, pos, "a parameter without default is changed: "+clip(got.String(), 100))
			continue
		}
		var zero *Term
		switch fd.Type().Underlying().(type) {
		case *types.Slice:
			zero = Eq(mkLen(was), Num(0))
		case *types.Pointer:
			zero = Eq(Nil, was)
		default:
			zero = Eq(was, Num(0))
		}
		switch {
		case f.Entails(Not(zero)):
			r.check(got == was, "default", c, pos, "a parameter that was set is changed: "+clip(got.String(), 100))
		case f.Entails(zero):
			r.check(r.isDefault(s, st, f, got, d), "default", c, pos, "a parameter left at zero does not receive its default: "+clip(got.String(), 100))
		default:
			r.bad("default", c, pos, "the default does not depend on the parameter being zero: "+clip(got.String(), 100))
		}
	}
}

func (r *Report) isDefault(s *symRun, st *State, f *Facts, got *Term, d confDef) bool {
	switch {
	case d.fresh:
		return got != Nil && f.Entails(Not(Eq(Nil, got)))
	case d.call != "":
		return strings.HasPrefix(got.String(), "call:"+d.call)
	case d.nums != nil:
		if !f.Entails(Eq(mkLen(got), Num(int64(len(d.nums))))) {
			return false
		}
		et := elemTypeOf(got.Typ)
		for i, n := range d.nums {
			v, split := s.e.load(st.clone(), mkIndexAddr(got, Num(int64(i)), types.NewPointer(et)), et)
			if split != nil || v != Num(n) {
				return false
			}
		}
		return true
	}
	c, ok := got.Const()
	if !ok {
		return false
	}
	w, _ := new(big.Rat).SetString(d.num)
	x, _ := c.Float64()
	y, _ := w.Float64()
	return x == y
}
