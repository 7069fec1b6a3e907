package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Term is a hash-consed value number: two occurrences of the same term denote the same value.
type Term struct {
	id   int
	Op   string
	Aux  string
	Ref  interface{} // ssa object or other payload identified by Aux
	Args []*Term
	Typ  types.Type
	poly *Poly // Op == "poly" / "num"
	bv   int   // 1 + highest bound variable occurring in the term
	vars bool  // contains a loop variable
}

// Universe holds all terms.
type Universe struct {
	byKey map[string]*Term
	n     int
}

var U = &Universe{byKey: map[string]*Term{}}

func typKey(t types.Type) string {
	if t == nil {
		return ""
	}
	return types.TypeString(t, nil)
}

func (u *Universe) mk(op, aux string, ref interface{}, typ types.Type, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(aux)
	for _, a := range args {
		sb.WriteByte('|')
		sb.WriteString(strconv.Itoa(a.id))
	}
	if op == "param" && typ != nil {
		sb.WriteByte(':') // parameters of several functions may have the same name
		sb.WriteString(typ.String())
	}
	key := sb.String()
	if t, ok := u.byKey[key]; ok {
		return t
	}
	u.n++
	t := &Term{id: u.n, Op: op, Aux: aux, Ref: ref, Args: args, Typ: typ}
	if op == "bv" {
		t.bv, _ = strconv.Atoi(aux)
		t.bv++
	}
	if op == "lv" || op == "K" {
		t.vars = true
	}
	for _, a := range args {
		if a.bv > t.bv {
			t.bv = a.bv
		}
		t.vars = t.vars || a.vars
	}
	u.byKey[key] = t
	return t
}

// ---- polynomials (Laurent, rational coefficients) ----

type atomPow struct {
	a *Term
	p int
}

type mono struct {
	c     *big.Rat
	atoms []atomPow
}

// Poly is a sum of monomials in canonical order.
type Poly struct {
	ms []mono
}

func monoKey(as []atomPow) string {
	var sb strings.Builder
	for _, a := range as {
		sb.WriteString(strconv.Itoa(a.a.id))
		sb.WriteByte('^')
		sb.WriteString(strconv.Itoa(a.p))
		sb.WriteByte(' ')
	}
	return sb.String()
}

func normPoly(ms []mono) *Poly {
	m := map[string]*mono{}
	var keys []string
	for i := range ms {
		k := monoKey(ms[i].atoms)
		if x, ok := m[k]; ok {
			x.c = new(big.Rat).Add(x.c, ms[i].c)
		} else {
			cp := ms[i]
			m[k] = &cp
			keys = append(keys, k)
		}
	}
	sort.Slice(keys, func(i, j int) bool {
		a, b := m[keys[i]].atoms, m[keys[j]].atoms
		if len(a) == 0 || len(b) == 0 {
			return len(a) > len(b)
		}
		return keys[i] < keys[j]
	})
	p := &Poly{}
	for _, k := range keys {
		if m[k].c.Sign() != 0 {
			p.ms = append(p.ms, *m[k])
		}
	}
	return p
}

func (p *Poly) key() string {
	var sb strings.Builder
	for _, m := range p.ms {
		sb.WriteString(m.c.RatString())
		sb.WriteByte('*')
		sb.WriteString(monoKey(m.atoms))
		sb.WriteByte('+')
	}
	return sb.String()
}

func (p *Poly) isConst() (*big.Rat, bool) {
	if len(p.ms) == 0 {
		return new(big.Rat), true
	}
	if len(p.ms) == 1 && len(p.ms[0].atoms) == 0 {
		return p.ms[0].c, true
	}
	return nil, false
}

func polyOf(t *Term) *Poly {
	if t.poly != nil {
		return t.poly
	}
	return &Poly{ms: []mono{{c: big.NewRat(1, 1), atoms: []atomPow{{t, 1}}}}}
}

func mkPoly(p *Poly) *Term {
	if len(p.ms) == 1 && len(p.ms[0].atoms) == 1 && p.ms[0].atoms[0].p == 1 && p.ms[0].c.Cmp(big.NewRat(1, 1)) == 0 {
		return p.ms[0].atoms[0].a
	}
	op := "poly"
	if _, ok := p.isConst(); ok {
		op = "num"
	}
	key := op + "|" + p.key()
	if t, ok := U.byKey[key]; ok {
		return t
	}
	U.n++
	t := &Term{id: U.n, Op: op, Aux: p.key(), poly: p}
	for _, m := range p.ms {
		for _, a := range m.atoms {
			if a.a.bv > t.bv {
				t.bv = a.a.bv
			}
			t.vars = t.vars || a.a.vars
		}
	}
	U.byKey[key] = t
	return t
}

func Num(n int64) *Term { return Rat(big.NewRat(n, 1)) }
func Rat(r *big.Rat) *Term {
	if r.Sign() == 0 {
		return mkPoly(&Poly{})
	}
	return mkPoly(&Poly{ms: []mono{{c: r}}})
}

func (t *Term) Const() (*big.Rat, bool) {
	if t.Op == "num" {
		return t.poly.isConst()
	}
	return nil, false
}

func (t *Term) IsInt(n int64) bool {
	c, ok := t.Const()
	return ok && c.Cmp(big.NewRat(n, 1)) == 0
}

func addPoly(a, b *Poly, k int64) *Poly {
	ms := append([]mono{}, a.ms...)
	kr := big.NewRat(k, 1)
	for _, m := range b.ms {
		ms = append(ms, mono{c: new(big.Rat).Mul(m.c, kr), atoms: m.atoms})
	}
	return normPoly(ms)
}

func mulAtoms(a, b []atomPow) []atomPow {
	var r []atomPow
	i, j := 0, 0
	for i < len(a) || j < len(b) {
		switch {
		case j >= len(b) || (i < len(a) && a[i].a.id < b[j].a.id):
			r = append(r, a[i])
			i++
		case i >= len(a) || b[j].a.id < a[i].a.id:
			r = append(r, b[j])
			j++
		default:
			if s := a[i].p + b[j].p; s != 0 {
				r = append(r, atomPow{a[i].a, s})
			}
			i++
			j++
		}
	}
	return r
}

func mulPoly(a, b *Poly) *Poly {
	acc := &Poly{}
	var ms []mono
	for _, x := range a.ms {
		for _, y := range b.ms {
			c := new(big.Rat).Mul(x.c, y.c)
			atoms := mulAtoms(x.atoms, y.atoms)
			// merge exponentials, reduce square roots
			q := simplifyMono(mono{c: c, atoms: atoms})
			ms = append(ms, q.ms...)
		}
	}
	acc = normPoly(ms)
	return acc
}

func simplifyMono(m mono) *Poly {
	var exps []*Term
	var rest []atomPow
	var sq []atomPow
	for _, a := range m.atoms {
		switch {
		case a.a.Op == "exp":
			exps = append(exps, Mul(Num(int64(a.p)), a.a.Args[0]))
		case a.a.Op == "sqrt" && (a.p >= 2 || a.p <= -2):
			sq = append(sq, a)
		default:
			rest = append(rest, a)
		}
	}
	if len(exps) < 2 && len(sq) == 0 && !(len(exps) == 1 && anyPow(m.atoms, "exp")) {
		return &Poly{ms: []mono{m}}
	}
	out := &Poly{ms: []mono{{c: m.c, atoms: rest}}}
	if len(exps) > 0 {
		s := Num(0)
		for _, e := range exps {
			s = Add(s, e)
		}
		out = mulPoly(out, polyOf(mkExp(s)))
	}
	for _, a := range sq {
		half := a.p / 2
		r := a.p - 2*half
		base := a.a.Args[0]
		out = mulPoly(out, polyOf(PowInt(base, half)))
		if r != 0 {
			out = mulPoly(out, &Poly{ms: []mono{{c: big.NewRat(1, 1), atoms: []atomPow{{a.a, r}}}}})
		}
	}
	return out
}

func anyPow(as []atomPow, op string) bool {
	for _, a := range as {
		if a.a.Op == op && a.p != 1 {
			return true
		}
	}
	return false
}

func Add(a, b *Term) *Term { return mkPoly(addPoly(polyOf(a), polyOf(b), 1)) }
func Sub(a, b *Term) *Term { return mkPoly(addPoly(polyOf(a), polyOf(b), -1)) }
func Mul(a, b *Term) *Term { return mkPoly(mulPoly(polyOf(a), polyOf(b))) }
func Neg(a *Term) *Term    { return Mul(Num(-1), a) }
func AddN(a *Term, n int64) *Term {
	return Add(a, Num(n))
}

// Inv is the multiplicative inverse (real arithmetic).
func Inv(a *Term) *Term {
	p := polyOf(a)
	if len(p.ms) == 1 {
		m := p.ms[0]
		r := mono{c: new(big.Rat).Inv(m.c)}
		for _, x := range m.atoms {
			r.atoms = append(r.atoms, atomPow{x.a, -x.p})
		}
		return mkPoly(simplifyMono(r))
	}
	if len(p.ms) == 0 {
		return U.mk("inv", "", nil, types.Typ[types.Float64], a)
	}
	// normalise the leading coefficient
	lc := p.ms[0].c
	n := Mul(Rat(new(big.Rat).Inv(lc)), a)
	den := U.mk("den", "", nil, types.Typ[types.Float64], n)
	return mkPoly(&Poly{ms: []mono{{c: new(big.Rat).Inv(lc), atoms: []atomPow{{den, -1}}}}})
}

func Div(a, b *Term) *Term { return Mul(a, Inv(b)) }

func PowInt(a *Term, n int) *Term {
	if n < 0 {
		return Inv(PowInt(a, -n))
	}
	r := Num(1)
	for i := 0; i < n; i++ {
		r = Mul(r, a)
	}
	return r
}

func mkExp(a *Term) *Term {
	if a.IsInt(0) {
		return Num(1)
	}
	return U.mk("exp", "", nil, types.Typ[types.Float64], a)
}

func mkSqrt(a *Term) *Term {
	p := polyOf(a)
	if len(p.ms) == 0 {
		return a
	}
	if len(p.ms) == 1 {
		m := p.ms[0]
		r := Num(1)
		if m.c.Cmp(big.NewRat(1, 1)) != 0 {
			r = U.mk("sqrt", "", nil, types.Typ[types.Float64], Rat(m.c))
		}
		for _, x := range m.atoms {
			s := U.mk("sqrt", "", nil, types.Typ[types.Float64], x.a)
			r = Mul(r, PowInt(s, x.p))
		}
		return r
	}
	return U.mk("sqrt", "", nil, types.Typ[types.Float64], a)
}

// logRat splits the logarithm of a positive rational over its small factors
func logRat(c *big.Rat) *Term {
	lg := func(x *big.Int) *Term {
		return U.mk("log", "", nil, types.Typ[types.Float64], Rat(new(big.Rat).SetInt(x)))
	}
	if c.Sign() <= 0 {
		return U.mk("log", "", nil, types.Typ[types.Float64], Rat(c))
	}
	r := Num(0)
	one := big.NewInt(1)
	split := func(n *big.Int, sign int64) {
		n = new(big.Int).Set(n)
		for p := int64(2); p < 1000 && n.Cmp(one) > 0; p++ {
			q, m := new(big.Int), new(big.Int)
			for k := big.NewInt(p); ; {
				if q.QuoRem(n, k, m); m.Sign() != 0 {
					break
				}
				n.Set(q)
				r = Add(r, Mul(Num(sign), lg(k)))
			}
		}
		if n.Cmp(one) > 0 {
			r = Add(r, Mul(Num(sign), lg(n)))
		}
	}
	split(c.Num(), 1)
	split(c.Denom(), -1)
	return r
}

func mkLog(a *Term) *Term {
	p := polyOf(a)
	if len(p.ms) == 1 {
		m := p.ms[0]
		r := Num(0)
		if m.c.Cmp(big.NewRat(1, 1)) != 0 {
			r = logRat(m.c)
		}
		for _, x := range m.atoms {
			var l *Term
			switch x.a.Op {
			case "exp":
				l = x.a.Args[0]
			case "sqrt":
				l = Mul(Rat(big.NewRat(1, 2)), mkLog(x.a.Args[0]))
			case "den":
				l = mkLog(x.a.Args[0])
			default:
				l = U.mk("log", "", nil, types.Typ[types.Float64], x.a)
			}
			r = Add(r, Mul(Num(int64(x.p)), l))
		}
		return r
	}
	return U.mk("log", "", nil, types.Typ[types.Float64], a)
}

// EqReal tells whether two numeric terms are equal in real arithmetic, clearing denominators.
func EqReal(a, b *Term) bool {
	if a == b {
		return true
	}
	d := Sub(a, b)
	for iter := 0; iter < 8; iter++ {
		if d.IsInt(0) {
			return true
		}
		var den *Term
		pow := 0
		for _, m := range polyOf(d).ms {
			for _, x := range m.atoms {
				if x.a.Op == "den" && x.p < 0 && (den == nil || (den == x.a && -x.p > pow)) {
					den, pow = x.a, -x.p
				}
			}
		}
		if den == nil {
			return false
		}
		var sum = Num(0)
		for _, m := range polyOf(d).ms {
			k := pow
			var atoms []atomPow
			for _, x := range m.atoms {
				if x.a == den {
					k += x.p
				} else {
					atoms = append(atoms, x)
				}
			}
			t := mkPoly(&Poly{ms: []mono{{c: m.c, atoms: atoms}}})
			sum = Add(sum, Mul(t, PowInt(den.Args[0], k)))
		}
		d = sum
	}
	return d.IsInt(0)
}

// ---- integers ----

func isIntType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isNumType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&(types.IsInteger|types.IsFloat) != 0
}

func isIntTerm(t *Term) bool {
	if t.poly != nil {
		for _, m := range t.poly.ms {
			if !m.c.IsInt() {
				return false
			}
			for _, a := range m.atoms {
				if a.p < 0 || !isIntTerm(a.a) {
					return false
				}
			}
		}
		return true
	}
	return isIntType(t.Typ)
}

// ---- booleans ----

var (
	True  = U.mk("true", "", nil, types.Typ[types.Bool])
	False = U.mk("false", "", nil, types.Typ[types.Bool])
	Nil   = U.mk("nil", "", nil, types.Typ[types.UntypedNil])
)

func Bool(b bool) *Term {
	if b {
		return True
	}
	return False
}

func scalePoly(p *Poly, abs bool) *Term {
	if len(p.ms) == 0 {
		return mkPoly(p)
	}
	lc := new(big.Rat).Set(p.ms[0].c)
	if _, ok := p.isConst(); !ok && len(p.ms[0].atoms) == 0 && len(p.ms) > 1 {
		lc = new(big.Rat).Set(p.ms[1].c)
	}
	if abs {
		lc.Abs(lc)
	}
	return mkPoly(mulPoly(p, &Poly{ms: []mono{{c: new(big.Rat).Inv(lc)}}}))
}

// scaleInt gives integer coprime coefficients; returns the poly and whether all atoms are ints
func scaleIntLe(p *Poly) *Term {
	// p <= 0 over integers: divide by gcd of non constant coefs, floor the constant
	l := big.NewInt(1)
	for _, m := range p.ms {
		g := new(big.Int).GCD(nil, nil, l, m.c.Denom())
		l = new(big.Int).Div(new(big.Int).Mul(l, m.c.Denom()), g)
	}
	var g *big.Int
	ms := []mono{}
	for _, m := range p.ms {
		c := new(big.Rat).Mul(m.c, new(big.Rat).SetInt(l))
		ms = append(ms, mono{c: c, atoms: m.atoms})
		if len(m.atoms) > 0 {
			n := new(big.Int).Abs(c.Num())
			if g == nil {
				g = n
			} else {
				g = new(big.Int).GCD(nil, nil, g, n)
			}
		}
	}
	if g == nil || g.Sign() == 0 {
		return mkPoly(normPoly(ms))
	}
	for i := range ms {
		q := new(big.Rat).Quo(ms[i].c, new(big.Rat).SetInt(g))
		if len(ms[i].atoms) == 0 && !q.IsInt() {
			// sum + q <= 0 with sum integer  =>  sum <= floor(-q)  => sum + ceil(q) <= 0
			neg := new(big.Rat).Neg(q)
			fl := new(big.Int).Div(neg.Num(), neg.Denom())
			q = new(big.Rat).SetInt(new(big.Int).Neg(fl))
		}
		ms[i].c = q
	}
	return mkPoly(normPoly(ms))
}

func allIntAtoms(p *Poly) bool {
	for _, m := range p.ms {
		for _, a := range m.atoms {
			if a.p < 0 || !isIntTerm(a.a) {
				return false
			}
		}
	}
	return true
}

// Le is a <= b
func Le(a, b *Term) *Term {
	p := addPoly(polyOf(a), polyOf(b), -1)
	if c, ok := p.isConst(); ok {
		return Bool(c.Sign() <= 0)
	}
	if allIntAtoms(p) {
		return U.mk("le0", "", nil, types.Typ[types.Bool], scaleIntLe(p))
	}
	return U.mk("le0", "", nil, types.Typ[types.Bool], scalePoly(p, true))
}

// Lt is a < b
func Lt(a, b *Term) *Term {
	p := addPoly(polyOf(a), polyOf(b), -1)
	if c, ok := p.isConst(); ok {
		return Bool(c.Sign() < 0)
	}
	if allIntAtoms(p) {
		l := big.NewInt(1)
		for _, m := range p.ms {
			g := new(big.Int).GCD(nil, nil, l, m.c.Denom())
			l = new(big.Int).Div(new(big.Int).Mul(l, m.c.Denom()), g)
		}
		q := mulPoly(p, &Poly{ms: []mono{{c: new(big.Rat).SetInt(l)}}})
		return Le(AddN(mkPoly(q), 1), Num(0))
	}
	return U.mk("lt0", "", nil, types.Typ[types.Bool], scalePoly(p, true))
}

func isNumeric(t *Term) bool { return t.poly != nil || isNumType(t.Typ) }

// nonNil tells that a term can not be nil
func nonNil(t *Term) bool {
	switch t.Op {
	case "alloc", "fieldaddr", "indexaddr", "makemap", "makechan", "closure", "fn", "mkiface", "global", "errnew", "bound", "makeslice", "recovered", "pobj":
		return true
	case "load":
		return t.Aux == "errglobal"
	case "append":
		return len(t.Args) > 1
	case "appendslice", "slice":
		return nonNil(t.Args[0])
	}
	return false
}

// Eq is a == b
func Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if isNumeric(a) && isNumeric(b) {
		p := addPoly(polyOf(a), polyOf(b), -1)
		if c, ok := p.isConst(); ok {
			return Bool(c.Sign() == 0)
		}
		return U.mk("eq0", "", nil, types.Typ[types.Bool], scalePoly(p, false))
	}
	if a.Op == "true" || a.Op == "false" {
		a, b = b, a
	}
	if b == True {
		return a
	}
	if b == False {
		return Not(a)
	}
	if (a == Nil && nonNil(b)) || (b == Nil && nonNil(a)) {
		return False
	}
	if a.Op == "str" && b.Op == "str" {
		return Bool(a.Aux == b.Aux)
	}
	if a.Op == "load" && b.Op == "load" && a.Aux == "errglobal" && b.Aux == "errglobal" {
		return Bool(a == b)
	}
	if (a.Op == "alloc" && b.Op == "alloc") || (a.Op == "makechan" && b.Op == "makechan") {
		return Bool(a == b)
	}
	if a.Op == "struct" && b.Op == "struct" && len(a.Args) == len(b.Args) {
		r := True
		for i := range a.Args {
			r = And(r, Eq(a.Args[i], b.Args[i]))
		}
		return r
	}
	if a.id > b.id {
		a, b = b, a
	}
	return U.mk("eq", "", nil, types.Typ[types.Bool], a, b)
}

func And(a, b *Term) *Term {
	if a == True {
		return b
	}
	if b == True {
		return a
	}
	if a == False || b == False {
		return False
	}
	if a == b {
		return a
	}
	return U.mk("and", "", nil, types.Typ[types.Bool], a, b)
}

func Or(a, b *Term) *Term { return Not(And(Not(a), Not(b))) }

// Not negates a boolean; comparisons assume no NaN
func Not(a *Term) *Term {
	switch a.Op {
	case "true":
		return False
	case "false":
		return True
	case "not":
		return a.Args[0]
	case "le0":
		return Lt(Num(0), a.Args[0])
	case "lt0":
		return Le(Num(0), a.Args[0])
	}
	return U.mk("not", "", nil, types.Typ[types.Bool], a)
}

// ---- misc constructors ----

func Str(s string) *Term { return U.mk("str", s, nil, types.Typ[types.String]) }

func constTerm(c *ssa.Const) *Term {
	if c.Value == nil {
		return zeroOf(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return Bool(constant.BoolVal(c.Value))
	case constant.String:
		return Str(constant.StringVal(c.Value))
	case constant.Int, constant.Float:
		v := constant.ToFloat(c.Value)
		if v.Kind() == constant.Float || v.Kind() == constant.Int {
			num := constant.Num(v)
			den := constant.Denom(v)
			n, ok1 := new(big.Int).SetString(num.ExactString(), 10)
			d, ok2 := new(big.Int).SetString(den.ExactString(), 10)
			if ok1 && ok2 {
				return Rat(new(big.Rat).SetFrac(n, d))
			}
			f, _ := constant.Float64Val(v)
			r := new(big.Rat)
			if r.SetFloat64(f) != nil {
				return Rat(r)
			}
		}
	}
	return U.mk("const", c.Value.ExactString(), nil, c.Type())
}

func zeroOf(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsNumeric != 0:
			return Num(0)
		case u.Info()&types.IsBoolean != 0:
			return False
		case u.Info()&types.IsString != 0:
			return Str("")
		}
		return Nil
	case *types.Struct:
		if flattenable(t) {
			args := make([]*Term, u.NumFields())
			for i := range args {
				args[i] = zeroOf(u.Field(i).Type())
			}
			return mkStruct(t, args)
		}
		return U.mk("zero", typKey(t), nil, t)
	case *types.Array:
		return U.mk("zero", typKey(t), nil, t)
	}
	return Nil
}

// structs of these packages are opaque scalars
func flattenable(t types.Type) bool {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		switch n.Obj().Pkg().Path() {
		case "sync", "time", "sync/atomic", "reflect":
			return false
		}
	}
	return s.NumFields() <= 64
}

func mkStruct(t types.Type, args []*Term) *Term {
	// eta: struct(field(x,0),...,field(x,n)) = x
	if len(args) > 0 && args[0].Op == "field" {
		x := args[0].Args[0]
		ok := true
		for i, a := range args {
			if a.Op != "field" || a.Args[0] != x || a.Aux != fieldName(t, i) {
				ok = false
				break
			}
		}
		if ok && types.Identical(x.Typ, t) {
			return x
		}
	}
	return U.mk("struct", typKey(t), t, t, args...)
}

func fieldName(t types.Type, i int) string {
	return structOf(t).Field(i).Name()
}

func structOf(t types.Type) *types.Struct {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, _ := t.Underlying().(*types.Struct)
	return s
}

func mkField(x *Term, t types.Type, i int) *Term {
	if x.Op == "struct" {
		return x.Args[i]
	}
	if x.Op == "zero" {
		return zeroOf(structOf(t).Field(i).Type())
	}
	return U.mk("field", fieldName(t, i), structOf(t).Field(i), structOf(t).Field(i).Type(), x)
}

func mkFieldAddr(base *Term, ptr types.Type, i int) *Term {
	st := structOf(ptr)
	el := ptr.Underlying().(*types.Pointer).Elem()
	return U.mk("fieldaddr", st.Field(i).Name(), FieldRef{el, i}, types.NewPointer(st.Field(i).Type()), base)
}

// FieldRef identifies a struct field
type FieldRef struct {
	T types.Type
	I int
}

func (f FieldRef) Name() string { return structOf(f.T).Field(f.I).Name() }
func (f FieldRef) Var() *types.Var {
	return structOf(f.T).Field(f.I)
}
func (f FieldRef) Owner() string {
	if n, ok := f.T.(*types.Named); ok {
		return n.Obj().Name()
	}
	return "struct"
}

func mkLen(t *Term) *Term {
	switch t.Op {
	case "nil":
		return Num(0)
	case "makeslice":
		return t.Args[0]
	case "pobj":
		if strings.HasPrefix(t.Aux, "makeslice:") {
			return t.Args[1]
		}
	case "slice":
		return Sub(t.Args[2], t.Args[1])
	case "append":
		return AddN(mkLen(t.Args[0]), int64(len(t.Args)-1))
	case "appendslice":
		return Add(mkLen(t.Args[0]), mkLen(t.Args[1]))
	case "str":
		return Num(int64(len(t.Aux)))
	case "alloc": // pointer to array
		if p, ok := t.Typ.Underlying().(*types.Pointer); ok {
			if a, ok := p.Elem().Underlying().(*types.Array); ok {
				return Num(a.Len())
			}
		}
	case "mkconv":
		return mkLen(t.Args[0])
	}
	return U.mk("len", "", nil, types.Typ[types.Int], t)
}

// root and base offset of a slice term
func sliceRoot(t *Term) (root, off *Term) {
	off = Num(0)
	for {
		if t.Op == "slice" {
			off = Add(off, t.Args[1])
			t = t.Args[0]
			continue
		}
		return t, off
	}
}

func mkSlice(x, lo, hi *Term) *Term {
	if x == Nil {
		return Nil
	}
	if x.Op == "slice" {
		base := x.Args[1]
		return mkSlice(x.Args[0], Add(base, lo), Add(base, hi))
	}
	if lo.IsInt(0) && hi == mkLen(x) && x.Op != "alloc" {
		return x
	}
	return U.mk("slice", "", nil, x.Typ, x, lo, hi)
}

func mkMin(a, b *Term) *Term {
	if d, ok := Sub(a, b).Const(); ok {
		if d.Sign() <= 0 {
			return a
		}
		return b
	}
	if a.id > b.id {
		a, b = b, a
	}
	return U.mk("min", "", nil, types.Typ[types.Int], a, b)
}

// ---- traversal ----

// Subst replaces terms (atoms) by others.
func Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	return substMemo(t, m, memo)
}

func substMemo(t *Term, m map[*Term]*Term, memo map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if r, ok := memo[t]; ok {
		return r
	}
	r := t
	if t.poly != nil {
		changed := false
		for _, mo := range t.poly.ms {
			for _, a := range mo.atoms {
				if substMemo(a.a, m, memo) != a.a {
					changed = true
				}
			}
		}
		if changed {
			s := Num(0)
			for _, mo := range t.poly.ms {
				x := Rat(mo.c)
				for _, a := range mo.atoms {
					x = Mul(x, PowInt(substMemo(a.a, m, memo), a.p))
				}
				s = Add(s, x)
			}
			r = s
		}
	} else if len(t.Args) > 0 {
		args := make([]*Term, len(t.Args))
		changed := false
		for i, a := range t.Args {
			args[i] = substMemo(a, m, memo)
			if args[i] != a {
				changed = true
			}
		}
		if changed {
			r = rebuild(t, args)
		}
	}
	memo[t] = r
	return r
}

func rebuild(t *Term, args []*Term) *Term {
	switch t.Op {
	case "le0":
		return Le(args[0], Num(0))
	case "lt0":
		return Lt(args[0], Num(0))
	case "eq0":
		return Eq(args[0], Num(0))
	case "eq":
		return Eq(args[0], args[1])
	case "not":
		return Not(args[0])
	case "and":
		return And(args[0], args[1])
	case "sqrt":
		return mkSqrt(args[0])
	case "log":
		return mkLog(args[0])
	case "exp":
		return mkExp(args[0])
	case "den":
		p := polyOf(args[0])
		if len(p.ms) <= 1 {
			return args[0]
		}
		return Inv(Inv(args[0]))
	case "len":
		return mkLen(args[0])
	case "slice":
		return mkSlice(args[0], args[1], args[2])
	case "min":
		return mkMin(args[0], args[1])
	case "struct":
		return mkStruct(t.Typ, args)
	case "field":
		if args[0].Op == "struct" || args[0].Op == "zero" {
			st := structOf(args[0].Typ)
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == t.Aux {
					return mkField(args[0], args[0].Typ, i)
				}
			}
		}
	case "elem":
		return mkElem(args[0], args[1], t.Aux, t.Typ)
	case "sum":
		return mkSum(args[0], args[1], args[2])
	}
	return U.mk(t.Op, t.Aux, t.Ref, t.Typ, args...)
}

func mkElem(root, idx *Term, ver string, typ types.Type) *Term {
	return U.mk("elem", ver, nil, typ, root, idx)
}

// Contains tells whether t contains x
func Contains(t, x *Term) bool {
	return Any(t, func(y *Term) bool { return x == y })
}

// Any tells whether a sub-term satisfies p
func Any(t *Term, p func(*Term) bool) bool {
	seen := map[*Term]bool{}
	var rec func(*Term) bool
	rec = func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if p(t) {
			return true
		}
		for _, a := range t.Args {
			if rec(a) {
				return true
			}
		}
		if t.poly != nil {
			for _, m := range t.poly.ms {
				for _, a := range m.atoms {
					if a.a != t && rec(a.a) {
						return true
					}
				}
			}
		}
		return false
	}
	return rec(t)
}

func BV(n int) *Term { return U.mk("bv", strconv.Itoa(n), nil, types.Typ[types.Int]) }

// abstract replaces variable k by a bound variable; returns the body and the bound variable used
func abstractVar(body, k *Term) (*Term, *Term) {
	b := BV(body.bv)
	return Subst(body, map[*Term]*Term{k: b}), b
}

// mkLam builds a function of k
func mkLam(body, k *Term) *Term {
	b, v := abstractVar(body, k)
	return U.mk("lam", "", nil, body.Typ, v, b)
}

// apply a lambda
func apply(lam, arg *Term) *Term {
	return Subst(lam.Args[1], map[*Term]*Term{lam.Args[0]: arg})
}

// mkSum is the sum of lam(k), lo <= k < hi
func mkSum(lam, lo, hi *Term) *Term {
	if d, ok := Sub(hi, lo).Const(); ok && d.Sign() <= 0 {
		return Num(0)
	}
	// shift to start at 0
	if !lo.IsInt(0) {
		f := U.mk("fv", strconv.Itoa(lam.bv+1000), nil, types.Typ[types.Int])
		body := apply(lam, Add(lo, f))
		return mkSum(mkLam(body, f), Num(0), Sub(hi, lo))
	}
	// reflect: canonical direction
	f := U.mk("fv", strconv.Itoa(lam.bv+1000), nil, types.Typ[types.Int])
	refl := mkLam(apply(lam, Sub(AddN(hi, -1), f)), f)
	if termLess(refl, lam) {
		lam = refl
	}
	// linearity: constant factors out
	body := lam.Args[1]
	p := polyOf(body)
	v := lam.Args[0]
	if len(p.ms) == 0 {
		return Num(0)
	}
	if len(p.ms) > 1 || p.ms[0].c.Cmp(big.NewRat(1, 1)) != 0 || hasFreeFactor(p.ms[0], v) {
		total := Num(0)
		for _, m := range p.ms {
			coef := Rat(m.c)
			rest := Num(1)
			for _, a := range m.atoms {
				x := PowInt(a.a, a.p)
				if Contains(a.a, v) {
					rest = Mul(rest, x)
				} else {
					coef = Mul(coef, x)
				}
			}
			if rest.IsInt(1) {
				total = Add(total, Mul(coef, hi))
				continue
			}
			f2 := U.mk("fv", strconv.Itoa(lam.bv+2000), nil, types.Typ[types.Int])
			l2 := mkLam(Subst(rest, map[*Term]*Term{v: f2}), f2)
			total = Add(total, Mul(coef, U.mk("sum", "", nil, types.Typ[types.Float64], l2, lo, hi)))
		}
		return total
	}
	return U.mk("sum", "", nil, types.Typ[types.Float64], lam, lo, hi)
}

func hasFreeFactor(m mono, v *Term) bool {
	n := 0
	for _, a := range m.atoms {
		if !Contains(a.a, v) {
			return true
		}
		n++
	}
	return n == 0
}

func termLess(a, b *Term) bool {
	sa, sb := a.String(), b.String()
	if len(sa) != len(sb) {
		return len(sa) < len(sb)
	}
	return sa < sb
}

// ---- printing ----

func (t *Term) String() string {
	return t.str(0)
}

func (t *Term) str(d int) string {
	if t == nil {
		return "<nil>"
	}
	if d > 12 {
		return "…"
	}
	if t.poly != nil {
		if len(t.poly.ms) == 0 {
			return "0"
		}
		var parts []string
		for _, m := range t.poly.ms {
			var fs []string
			if m.c.Cmp(big.NewRat(1, 1)) != 0 || len(m.atoms) == 0 {
				fs = append(fs, m.c.RatString())
			}
			for _, a := range m.atoms {
				s := a.a.str(d + 1)
				if a.p != 1 {
					s += "^" + strconv.Itoa(a.p)
				}
				fs = append(fs, s)
			}
			parts = append(parts, strings.Join(fs, "*"))
		}
		if len(parts) == 1 {
			return parts[0]
		}
		return "(" + strings.Join(parts, " + ") + ")"
	}
	switch t.Op {
	case "true", "false", "nil":
		return t.Op
	case "str":
		return strconv.Quote(t.Aux)
	case "param", "alloc", "lv", "K", "fv", "bv", "res", "makemap", "makechan", "closure", "fn":
		s := t.Op + ":" + t.Aux
		if t.Op == "param" {
			s = t.Aux
		}
		return s
	case "fieldaddr":
		return "&" + t.Args[0].str(d+1) + "." + t.Aux
	case "field":
		return t.Args[0].str(d+1) + "." + t.Aux
	case "elem":
		v := t.Aux
		if v != "" {
			v = "{" + v + "}"
		}
		return t.Args[0].str(d+1) + v + "[" + t.Args[1].str(d+1) + "]"
	case "load":
		v := t.Aux
		a := t.Args[0].str(d + 1)
		if v != "" && v != "errglobal" {
			a += "@" + v
		}
		return "*" + a
	case "le0":
		return "(" + t.Args[0].str(d+1) + " <= 0)"
	case "lt0":
		return "(" + t.Args[0].str(d+1) + " < 0)"
	case "eq0":
		return "(" + t.Args[0].str(d+1) + " == 0)"
	case "eq":
		return "(" + t.Args[0].str(d+1) + " == " + t.Args[1].str(d+1) + ")"
	case "not":
		return "!" + t.Args[0].str(d+1)
	case "global":
		return t.Aux
	}
	var as []string
	for _, a := range t.Args {
		as = append(as, a.str(d+1))
	}
	aux := t.Aux
	if t.Op == "struct" {
		if i := strings.LastIndex(aux, "/"); i >= 0 {
			aux = aux[i+1:]
		}
	}
	if aux != "" {
		aux = ":" + aux
	}
	return fmt.Sprintf("%s%s(%s)", t.Op, aux, strings.Join(as, ", "))
}
