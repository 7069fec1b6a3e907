package main

import (
	"math/big"
	"sort"
)

// Facts is a persistent conjunction of boolean terms known to hold at a program point.
type Facts struct {
	prev  *Facts
	lit   *Term
	cache map[*Term]bool
	set   map[*Term]bool
	depth int // nested case splits
}

func (f *Facts) all() []*Term {
	var r []*Term
	for x := f; x != nil; x = x.prev {
		r = append(r, x.lit)
	}
	// oldest first
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return r
}

func (f *Facts) level() int {
	if f == nil {
		return 0
	}
	return f.depth
}

func (f *Facts) lits() map[*Term]bool {
	if f == nil {
		return map[*Term]bool{}
	}
	if f.set == nil {
		f.set = map[*Term]bool{}
		for x := f; x != nil; x = x.prev {
			f.set[x.lit] = true
		}
	}
	return f.set
}

// Assume adds a literal; ok is false when it contradicts the facts.
func (f *Facts) Assume(lit *Term) (*Facts, bool) {
	switch lit.Op {
	case "true":
		return f, true
	case "false":
		return f, false
	case "and":
		g, ok := f.Assume(lit.Args[0])
		if !ok {
			return f, false
		}
		return g.Assume(lit.Args[1])
	}
	if f.lits()[lit] {
		return f, true
	}
	if f.Entails(Not(lit)) {
		return f, false
	}
	return &Facts{prev: f, lit: lit, depth: f.level()}, true
}

// Add without check
func (f *Facts) Add(lit *Term) *Facts {
	switch lit.Op {
	case "true":
		return f
	case "and":
		return f.Add(lit.Args[0]).Add(lit.Args[1])
	}
	if f.lits()[lit] {
		return f
	}
	return &Facts{prev: f, lit: lit, depth: f.level()}
}

var emptyCache = map[*Term]bool{}

// Entails tells whether the literal follows from the facts.
func (f *Facts) Entails(lit *Term) bool {
	switch lit.Op {
	case "true":
		return true
	case "and":
		return f.Entails(lit.Args[0]) && f.Entails(lit.Args[1])
	}
	cache := emptyCache
	if f != nil {
		if f.cache == nil {
			f.cache = map[*Term]bool{}
		}
		cache = f.cache
	}
	if r, ok := cache[lit]; ok {
		return r
	}
	if f == nil && len(cache) > 100000 {
		emptyCache = map[*Term]bool{}
		cache = emptyCache
	}
	cache[lit] = false // recursion guard
	r := f.entails(lit)
	if !r && f != nil && f.depth < 2 {
		r = f.byCases(lit) || f.byMin(lit)
	}
	cache[lit] = r
	return r
}

// byCases splits the known disjunctions that speak of the same things
func (f *Facts) byCases(lit *Term) bool {
	var want map[*Term]bool
	for x := f; x != nil; x = x.prev {
		if x.lit.Op != "not" || x.lit.Args[0].Op != "and" {
			continue
		}
		a, b := x.lit.Args[0].Args[0], x.lit.Args[0].Args[1]
		if f.lits()[Not(a)] || f.lits()[Not(b)] {
			continue
		}
		if want == nil {
			want = map[*Term]bool{}
			leaves(lit, want)
		}
		have := map[*Term]bool{}
		leaves(x.lit, have)
		ok := false
		for t := range have {
			if want[t] {
				ok = true
			}
		}
		if !ok {
			continue
		}
		all := true
		for _, c := range []*Term{Not(a), Not(b)} {
			if f.entails(Not(c)) {
				continue
			}
			g := &Facts{prev: f, lit: c, depth: f.depth + 1}
			if c.Op == "and" {
				g = &Facts{prev: &Facts{prev: f, lit: c.Args[0], depth: f.depth + 1}, lit: c.Args[1], depth: f.depth + 1}
			}
			if !g.Entails(lit) && !g.Entails(Not(c)) {
				all = false
				break
			}
		}
		if all {
			return true
		}
	}
	return false
}

// byMin splits on the minimums a literal speaks of
func (f *Facts) byMin(lit *Term) bool {
	want := map[*Term]bool{}
	leaves(lit, want)
	for t := range want {
		if t.Op != "min" {
			continue
		}
		all := true
		for i, a := range t.Args {
			b := t.Args[1-i]
			if f.entails(Lt(b, a)) {
				continue
			}
			le, eq := Le(a, b), Eq(t, a)
			g := &Facts{prev: &Facts{prev: f, lit: le, depth: f.depth + 1}, lit: eq, depth: f.depth + 1}
			if le == True {
				g = &Facts{prev: f, lit: eq, depth: f.depth + 1}
			}
			if !g.Entails(lit) {
				all = false
				break
			}
		}
		if all {
			return true
		}
	}
	return false
}

// leaves collects the non logical sub terms of a condition
func leaves(t *Term, m map[*Term]bool) {
	switch t.Op {
	case "not", "and", "eq", "eq0", "le0", "lt0":
		for _, a := range t.Args {
			leaves(a, m)
		}
		return
	}
	if pl := polyOf(t); t.Op != "num" {
		for _, mo := range pl.ms {
			for _, a := range mo.atoms {
				m[a.a] = true
			}
		}
		return
	}
	if !isConstLike(t) {
		m[t] = true
	}
}

func isConstLike(t *Term) bool {
	return t == Nil || nonNil(t) || t.Op == "str" || t.Op == "num" || t.Op == "true" || t.Op == "false"
}

func distinctConst(a, b *Term) bool {
	if a == b {
		return false
	}
	if a == Nil {
		return nonNil(b)
	}
	if b == Nil {
		return nonNil(a)
	}
	e := Eq(a, b)
	return e == False
}

func (f *Facts) entails(lit *Term) bool {
	lits := f.lits()
	if lits[lit] {
		return true
	}
	n := Not(lit)
	if lits[n] {
		return false
	}
	// negated conjunction: not(and(a,b)) holds if not a or not b
	if lit.Op == "not" && lit.Args[0].Op == "and" {
		return f.Entails(Not(lit.Args[0].Args[0])) || f.Entails(Not(lit.Args[0].Args[1]))
	}
	switch lit.Op {
	case "le0", "lt0", "eq0":
		return f.linear(lit)
	case "not":
		a := lit.Args[0]
		if a.Op == "eq0" {
			return f.linear(lit)
		}
		if a.Op == "eq" {
			x, y := a.Args[0], a.Args[1]
			for l := range lits {
				if l.Op != "eq" {
					continue
				}
				for _, s := range [][2]*Term{{x, y}, {y, x}} {
					for i := 0; i < 2; i++ {
						if l.Args[i] == s[0] && isConstLike(l.Args[1-i]) && isConstLike(s[1]) && distinctConst(l.Args[1-i], s[1]) {
							return true
						}
					}
				}
			}
		}
	}
	// rewrite with equalities
	if m := f.eqSubst(); len(m) > 0 {
		l2 := Subst(lit, m)
		if l2 != lit {
			if l2 == True {
				return true
			}
			if l2 == False {
				return false
			}
			if lits[l2] {
				return true
			}
			for l := range lits {
				if l.Op == "eq" {
					continue
				}
				if Subst(l, m) == l2 {
					return true
				}
			}
		}
	}
	return false
}

// eqSubst orients non numeric equalities
func (f *Facts) eqSubst() map[*Term]*Term {
	m := map[*Term]*Term{}
	for x := f; x != nil; x = x.prev {
		if x.lit.Op == "eq" {
			a, b := x.lit.Args[0], x.lit.Args[1]
			if isConstLike(a) {
				a, b = b, a
			}
			if isConstLike(a) {
				continue
			}
			m[a] = b
		}
	}
	return m
}

// ---- linear arithmetic over monomials (polyhedra domain, Fourier-Motzkin projection) ----

type linC struct {
	c      map[string]*big.Rat // coefficients
	k      *big.Rat
	strict bool
	eq     bool
}

type linSys struct {
	cs   []*linC
	ne   []*linC
	vars map[string]mono
	seen map[*Term]bool
}

func (s *linSys) fromPoly(p *Poly) *linC {
	c := &linC{c: map[string]*big.Rat{}, k: new(big.Rat)}
	for _, m := range p.ms {
		if len(m.atoms) == 0 {
			c.k = m.c
			continue
		}
		k := monoKey(m.atoms)
		c.c[k] = m.c
		if _, ok := s.vars[k]; !ok {
			s.vars[k] = m
			for _, a := range m.atoms {
				s.lemmas(a.a)
			}
		}
	}
	return c
}

func (s *linSys) addLit(l *Term) {
	switch l.Op {
	case "le0":
		s.cs = append(s.cs, s.fromPoly(polyOf(l.Args[0])))
	case "lt0":
		c := s.fromPoly(polyOf(l.Args[0]))
		c.strict = true
		s.cs = append(s.cs, c)
	case "eq0":
		c := s.fromPoly(polyOf(l.Args[0]))
		c.eq = true
		s.cs = append(s.cs, c)
	case "and":
		s.addLit(l.Args[0])
		s.addLit(l.Args[1])
	case "not":
		if l.Args[0].Op == "eq0" {
			s.ne = append(s.ne, s.fromPoly(polyOf(l.Args[0].Args[0])))
		}
	}
}

// lemmas adds what is known of an atom whatever the path
func (s *linSys) lemmas(a *Term) {
	if s.seen[a] {
		return
	}
	s.seen[a] = true
	for _, l := range atomLemmas(a) {
		s.addLit(l)
	}
}

func atomLemmas(a *Term) []*Term {
	switch a.Op {
	case "len", "cap":
		return []*Term{Le(Num(0), a)}
	case "K":
		return []*Term{Le(Num(0), a)}
	case "min":
		return []*Term{Le(a, a.Args[0]), Le(a, a.Args[1])}
	case "argmin":
		// label in [-1, n)
		return []*Term{Le(Num(-1), a), Lt(a, mkMax0(a.Args[1]))}
	case "max0":
		return []*Term{Le(Num(0), a), Le(a.Args[0], a)}
	case "intn":
		return []*Term{Le(Num(0), a), Lt(a, a.Args[0])}
	case "sqrt":
		return []*Term{Le(Num(0), a)}
	case "rand01":
		return []*Term{Le(Num(0), a), Lt(a, Num(1))}
	}
	return nil
}

func mkMax0(n *Term) *Term {
	if n.Op == "len" || n.Op == "K" {
		return n
	}
	if c, ok := n.Const(); ok {
		if c.Sign() < 0 {
			return Num(0)
		}
		return n
	}
	return U.mk("max0", "", nil, n.Typ, n)
}

func (f *Facts) linear(goal *Term) bool {
	switch goal.Op {
	case "eq0":
		p := goal.Args[0]
		return f.Entails(Le(p, Num(0))) && f.Entails(Le(Num(0), p))
	case "not": // disequality
		p := goal.Args[0].Args[0]
		return f.infeasible(Eq(p, Num(0)))
	}
	return f.infeasible(Not(goal))
}

func (f *Facts) infeasible(extra ...*Term) bool {
	s := &linSys{vars: map[string]mono{}, seen: map[*Term]bool{}}
	for _, e := range extra {
		s.addLit(e)
	}
	goalVars := map[string]bool{}
	for v := range s.vars {
		goalVars[v] = true
	}
	// relevant facts: connected component
	var pend []*Term
	for x := f; x != nil; x = x.prev {
		switch x.lit.Op {
		case "le0", "lt0", "eq0":
			pend = append(pend, x.lit)
		case "not":
			if x.lit.Args[0].Op == "eq0" {
				pend = append(pend, x.lit)
			}
		}
	}
	for changed := true; changed; {
		changed = false
		var rest []*Term
		for _, l := range pend {
			p := l.Args[0]
			if l.Op == "not" {
				p = p.Args[0]
			}
			hit := false
			for _, m := range polyOf(p).ms {
				if len(m.atoms) > 0 {
					if _, ok := s.vars[monoKey(m.atoms)]; ok {
						hit = true
						break
					}
				}
			}
			if hit {
				s.addLit(l)
				changed = true
			} else {
				rest = append(rest, l)
			}
		}
		pend = rest
	}
	if s.infeasible() {
		return true
	}
	// disequalities: P != 0 excludes P = 0; tighten integer bounds
	if len(s.ne) > 0 && len(s.ne) <= 12 {
		for round := 0; round < len(s.ne); round++ {
			progress := false
			for i, d := range s.ne {
				if d == nil {
					continue
				}
				pos := &linC{c: neg(d.c), k: new(big.Rat).Neg(d.k), strict: true} // -P < 0
				ng := &linC{c: d.c, k: d.k, strict: true}
				ip := s.with(pos).infeasible()
				in := s.with(ng).infeasible()
				if ip && in {
					return true
				}
				if ip {
					s.cs = append(s.cs, s.tighten(ng))
					s.ne[i] = nil
					progress = true
				} else if in {
					s.cs = append(s.cs, s.tighten(pos))
					s.ne[i] = nil
					progress = true
				}
			}
			if !progress {
				break
			}
			if s.infeasible() {
				return true
			}
		}
	}
	return false
}

func neg(c map[string]*big.Rat) map[string]*big.Rat {
	r := map[string]*big.Rat{}
	for k, v := range c {
		r[k] = new(big.Rat).Neg(v)
	}
	return r
}

// tighten strict integer constraints with integer coefficients
func (s *linSys) tighten(c *linC) *linC {
	if !c.strict {
		return c
	}
	for k, v := range c.c {
		if !v.IsInt() {
			return c
		}
		for _, a := range s.vars[k].atoms {
			if a.p < 0 || !isIntTerm(a.a) {
				return c
			}
		}
	}
	if !c.k.IsInt() {
		return c
	}
	return &linC{c: c.c, k: new(big.Rat).Add(c.k, big.NewRat(1, 1))}
}

func (s *linSys) with(c *linC) *linSys {
	return &linSys{cs: append(append([]*linC{}, s.cs...), s.tighten(c)), vars: s.vars, seen: s.seen}
}

func (s *linSys) infeasible() bool {
	var eqs, ins []*linC
	for _, c := range s.cs {
		if c.eq {
			eqs = append(eqs, c)
		} else {
			ins = append(ins, c)
		}
	}
	// gaussian elimination
	for len(eqs) > 0 {
		e := eqs[0]
		eqs = eqs[1:]
		var v string
		for k, x := range e.c {
			if x.Sign() != 0 && (v == "" || k < v) {
				v = k
			}
		}
		if v == "" {
			if e.k.Sign() != 0 {
				return true
			}
			continue
		}
		subst := func(c *linC) *linC {
			x, ok := c.c[v]
			if !ok || x.Sign() == 0 {
				return c
			}
			r := new(big.Rat).Quo(x, e.c[v])
			n := &linC{c: map[string]*big.Rat{}, k: new(big.Rat).Sub(c.k, new(big.Rat).Mul(r, e.k)), strict: c.strict, eq: c.eq}
			for k, y := range c.c {
				n.c[k] = y
			}
			for k, y := range e.c {
				z := n.c[k]
				if z == nil {
					z = new(big.Rat)
				}
				w := new(big.Rat).Sub(z, new(big.Rat).Mul(r, y))
				if w.Sign() == 0 {
					delete(n.c, k)
				} else {
					n.c[k] = w
				}
			}
			delete(n.c, v)
			return n
		}
		for i := range eqs {
			eqs[i] = subst(eqs[i])
		}
		for i := range ins {
			ins[i] = subst(ins[i])
		}
	}
	for {
		// constant constraints
		var live []*linC
		for _, c := range ins {
			for k, x := range c.c {
				if x.Sign() == 0 {
					delete(c.c, k)
				}
			}
			if len(c.c) == 0 {
				if c.k.Sign() > 0 || (c.strict && c.k.Sign() == 0) {
					return true
				}
				continue
			}
			live = append(live, c)
		}
		ins = dedupe(live)
		if len(ins) == 0 {
			return false
		}
		if len(ins) > 600 {
			return false
		}
		pos, ng := map[string]int{}, map[string]int{}
		for _, c := range ins {
			for k, x := range c.c {
				if x.Sign() > 0 {
					pos[k]++
				} else {
					ng[k]++
				}
			}
		}
		best, cost := "", -1
		var names []string
		for k := range pos {
			names = append(names, k)
		}
		for k := range ng {
			if pos[k] == 0 {
				names = append(names, k)
			}
		}
		sort.Strings(names)
		for _, k := range names {
			c := pos[k] * ng[k]
			if cost < 0 || c < cost {
				best, cost = k, c
			}
		}
		var next, ps, ns []*linC
		for _, c := range ins {
			x, ok := c.c[best]
			switch {
			case !ok:
				next = append(next, c)
			case x.Sign() > 0:
				ps = append(ps, c)
			default:
				ns = append(ns, c)
			}
		}
		if len(next)+len(ps)*len(ns) > 600 {
			return false // too many combinations: undecided
		}
		for _, p := range ps {
			for _, n := range ns {
				a := new(big.Rat).Neg(n.c[best])
				b := p.c[best]
				r := &linC{c: map[string]*big.Rat{}, k: new(big.Rat).Add(new(big.Rat).Mul(a, p.k), new(big.Rat).Mul(b, n.k)), strict: p.strict || n.strict}
				for k, x := range p.c {
					r.c[k] = new(big.Rat).Mul(a, x)
				}
				for k, x := range n.c {
					y := new(big.Rat).Mul(b, x)
					if z, ok := r.c[k]; ok {
						y.Add(y, z)
					}
					r.c[k] = y
				}
				delete(r.c, best)
				next = append(next, r)
			}
		}
		ins = next
	}
}

func dedupe(cs []*linC) []*linC {
	best := map[string]*linC{}
	var order []string
	for _, c := range cs {
		var ks []string
		for k := range c.c {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		lead := new(big.Rat).Abs(c.c[ks[0]])
		key := ""
		for _, k := range ks {
			key += k + ":" + new(big.Rat).Quo(c.c[k], lead).RatString() + ";"
		}
		k := new(big.Rat).Quo(c.k, lead)
		o, ok := best[key]
		if !ok {
			best[key] = c
			order = append(order, key)
			continue
		}
		var okLead *big.Rat
		okLead = new(big.Rat).Abs(o.c[ks[0]])
		k2 := new(big.Rat).Quo(o.k, okLead)
		if cmp := k.Cmp(k2); cmp > 0 || (cmp == 0 && c.strict) {
			best[key] = c
		}
	}
	var r []*linC
	for _, k := range order {
		r = append(r, best[k])
	}
	return r
}
