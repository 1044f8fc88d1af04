package main

import (
	"go/types"
	"sort"
)

// Facts is the set of predicates known to hold on a path. It is immutable.
type Facts struct {
	m   map[*Term]bool // boolean terms known to be true
	key string
}

var noFacts = &Facts{m: map[*Term]bool{}}

func (f *Facts) has(t *Term) bool { return f.m[t] }

func (f *Facts) with(t *Term) *Facts {
	if f.m[t] {
		return f
	}
	if b, ok := t.boolConst(); ok && b {
		return f
	}
	n := make(map[*Term]bool, len(f.m)+1)
	for k := range f.m {
		n[k] = true
	}
	n[t] = true
	return &Facts{m: n}
}

// filter keeps the facts for which keep holds.
func (f *Facts) filter(keep func(*Term) bool) *Facts {
	n := make(map[*Term]bool, len(f.m))
	for k := range f.m {
		if keep(k) {
			n[k] = true
		}
	}
	if len(n) == len(f.m) {
		return f
	}
	return &Facts{m: n}
}

func (f *Facts) sorted() []*Term {
	r := make([]*Term, 0, len(f.m))
	for k := range f.m {
		r = append(r, k)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].id < r[j].id })
	return r
}

// Tri is a three-valued truth.
type Tri int

const (
	Unknown Tri = iota
	True
	False
)

func tri(b bool) Tri {
	if b {
		return True
	}
	return False
}

func (t Tri) not() Tri {
	switch t {
	case True:
		return False
	case False:
		return True
	}
	return Unknown
}

// eval decides a predicate from the facts.
func (f *Facts) eval(t *Term) Tri {
	if b, ok := t.boolConst(); ok {
		return tri(b)
	}
	if f.m[t] {
		return True
	}
	if f.m[tNot(t)] {
		return False
	}
	switch t.Op {
	case ONot:
		return f.eval(t.Args[0]).not()
	case OLe:
		l := toLin(t.Args[0])
		if f.entailsLe(l) {
			return True
		}
		if f.entailsLe(lin{k: 1}.addMul(l, -1)) {
			return False
		}
	case OEqZ:
		l := toLin(t.Args[0])
		// excluded by a different constant or by bounds
		neg := lin{}.addMul(l, -1)
		a := f.entailsLe(l)
		b := f.entailsLe(neg)
		if a && b {
			return True
		}
		one := lin{k: 1}
		if f.entailsLe(l.addMul(one, 1)) || f.entailsLe(neg.addMul(one, 1)) {
			return False
		}
	case OEq:
		return f.evalEq(t.Args[0], t.Args[1])
	case OIsType:
		x := t.Args[0]
		for k := range f.m {
			if k.Op == OIsType && k.Args[0] == x && k != t {
				_, i1 := under(k.T).(*types.Interface)
				_, i2 := under(t.T).(*types.Interface)
				if !i1 && !i2 && !types.Identical(k.T, t.T) {
					return False
				}
				if !i1 && i2 {
					return tri(types.Implements(k.T, under(t.T).(*types.Interface)))
				}
			}
			if k.Op == OEq && (k.Args[0] == x && k.Args[1].isNil() || k.Args[1] == x && k.Args[0].isNil()) {
				return False
			}
			if k.Op == ONot && k.Args[0].Op == OIsType && k.Args[0].Args[0] == x {
				// not an interface that the type implements
				if it, ok := under(k.Args[0].T).(*types.Interface); ok {
					if _, i2 := under(t.T).(*types.Interface); !i2 && types.Implements(t.T, it) {
						return False
					}
				}
			}
		}
	}
	return Unknown
}

func (f *Facts) evalEq(a, b *Term) Tri {
	if a == b {
		return True
	}
	if isErrVar(a) && isErrVar(b) {
		return False
	}
	// nil tests of values with a known type
	x, c := a, b
	if x.isConst() {
		x, c = c, x
	}
	for k := range f.m {
		switch k.Op {
		case OIsType:
			if k.Args[0] == x && c.isNil() {
				return False
			}
		case OEq:
			var other *Term
			if k.Args[0] == x {
				other = k.Args[1]
			} else if k.Args[1] == x {
				other = k.Args[0]
			} else {
				continue
			}
			if other == c {
				return True
			}
			if distinct(other, c) {
				return False
			}
		case OEqZ, OLe:
			// len(x) == 0 or > 0 for strings
		}
	}
	if c.isConst() && c.C != nil {
		if s, ok := c.strConst(); ok {
			// different length
			if r := f.eval(tEqInt(tLen(x), tInt(int64(len(s))))); r == False {
				return False
			}
		}
	}
	if c.isNil() && x.T != nil {
		switch under(x.T).(type) {
		case *types.Slice, *types.Map:
			// a longer than empty slice is not nil
			if f.entailsLe(lin{k: 1}.addMul(toLin(tLen(x)), -1)) {
				return False
			}
		}
	}
	return Unknown
}

// distinct values
func distinct(a, b *Term) bool {
	if a == b {
		return false
	}
	if a.isConst() && b.isConst() {
		if a.C == nil || b.C == nil {
			return (a.C == nil) != (b.C == nil)
		}
		return a.C.ExactString() != b.C.ExactString()
	}
	if a.isNil() && definitelyNonNil(b) || b.isNil() && definitelyNonNil(a) {
		return true
	}
	if (a.Op == OObj || a.Op == OGlobal) && (b.Op == OObj || b.Op == OGlobal) {
		return true
	}
	return false
}

// assume adds a predicate; ok is false if it contradicts the facts.
func (f *Facts) assume(t *Term) (*Facts, bool) {
	switch f.eval(t) {
	case True:
		return f, true
	case False:
		return f, false
	}
	if t.Op == OBin && t.S == "&&" {
		g, ok := f.assume(t.Args[0])
		if !ok {
			return f, false
		}
		return g.assume(t.Args[1])
	}
	f = f.with(t)
	if f.contradictsBits(t) {
		return f, false
	}
	if t.Op == OEq {
		// equal texts have the same length
		for i, a := range t.Args {
			if str, ok := a.strConst(); ok && !t.Args[1-i].isConst() {
				return f.assume(tEqInt(tLen(t.Args[1-i]), tInt(int64(len(str)))))
			}
		}
	}
	return f, true
}

// ---- linear entailment (elimination of variables, the relational numeric domain)

type ineq struct { // sum c*x + k <= 0
	k int64
	m map[*Term]int64
}

const fmMaxIneqs = 400

// entailsLe: do the facts imply l <= 0 ?
func (f *Facts) entailsLe(l lin) bool {
	if len(l.m) == 0 {
		return l.k <= 0
	}
	// quick test by ranges
	if hi, ok := linHi(l); ok && hi <= 0 {
		return true
	}
	// collect the inequalities which are connected with l
	var base []ineq
	var eqs []ineq
	for k := range f.m {
		switch k.Op {
		case OLe:
			x := toLin(k.Args[0])
			base = append(base, ineq{x.k, x.m})
		case OEqZ:
			x := toLin(k.Args[0])
			eqs = append(eqs, ineq{x.k, x.m})
		case ONot:
			// x != 0 together with a bound
			if k.Args[0].Op == OEqZ {
				x := toLin(k.Args[0].Args[0])
				if hi, ok := linHi(x); ok && hi <= 0 {
					base = append(base, ineq{x.k + 1, x.m})
				}
				n := lin{}.addMul(x, -1)
				if hi, ok := linHi(n); ok && hi <= 0 {
					base = append(base, ineq{n.k + 1, n.m})
				}
			}
		}
	}
	for _, e := range eqs {
		base = append(base, e)
		n := lin{}.addMul(lin{e.k, e.m}, -1)
		base = append(base, ineq{n.k, n.m})
	}
	neg := lin{k: 1}.addMul(l, -1)
	work := []ineq{{neg.k, neg.m}}
	vars := map[*Term]bool{}
	for a := range neg.m {
		vars[a] = true
	}
	used := make([]bool, len(base))
	for changed := true; changed; {
		changed = false
		for i, b := range base {
			if used[i] {
				continue
			}
			hit := false
			for a := range b.m {
				if vars[a] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				work = append(work, b)
				for a := range b.m {
					vars[a] = true
				}
				changed = true
			}
		}
	}
	for a := range vars {
		lo, hi, okLo, okHi := typeRange(a)
		if okLo {
			work = append(work, ineq{lo, map[*Term]int64{a: -1}})
		}
		if okHi {
			work = append(work, ineq{-hi, map[*Term]int64{a: 1}})
		}
		// x & y <= x for non-negative x
		if a.Op == OBin && (a.S == ">>" || a.S == "/") {
			if lo, _, ok, _ := typeRange(a.Args[0]); ok && lo >= 0 {
				d := toLin(a).addMul(toLin(a.Args[0]), -1)
				work = append(work, ineq{d.k, d.m})
			}
		}
		if c, ok := divBy(a); ok {
			// c*a <= x
			if lo, _, ok, _ := typeRange(a.Args[0]); ok && lo >= 0 {
				d := lin{}.addMul(toLin(a), c).addMul(toLin(a.Args[0]), -1)
				work = append(work, ineq{d.k, d.m})
			}
		}
	}
	return infeasible(work)
}

func divBy(a *Term) (int64, bool) {
	if a.Op != OBin || len(a.Args) != 2 {
		return 0, false
	}
	c, ok := a.Args[1].intConst()
	if !ok {
		return 0, false
	}
	if a.S == "/" && c > 1 {
		return c, true
	}
	if a.S == ">>" && c > 0 && c < 40 {
		return 1 << uint(c), true
	}
	return 0, false
}

func linHi(l lin) (int64, bool) {
	s := l.k
	for a, c := range l.m {
		lo, hi, okLo, okHi := typeRange(a)
		if c > 0 {
			if !okHi || hi > 1<<40 || c > 1<<20 {
				return 0, false
			}
			s += c * hi
		} else {
			if !okLo || lo < -(1<<40) || c < -(1<<20) {
				return 0, false
			}
			s += c * lo
		}
	}
	return s, true
}

const coefMax = int64(1) << 30

func infeasible(work []ineq) bool {
	for steps := 0; steps < 40; steps++ {
		// constant contradictions
		var rest []ineq
		for _, w := range work {
			if len(w.m) == 0 {
				if w.k > 0 {
					return true
				}
				continue
			}
			rest = append(rest, w)
		}
		work = rest
		if len(work) == 0 {
			return false
		}
		// pick the variable with the fewest combinations
		pos, negc := map[*Term]int{}, map[*Term]int{}
		for _, w := range work {
			for a, c := range w.m {
				if c > 0 {
					pos[a]++
				} else {
					negc[a]++
				}
			}
		}
		var best *Term
		bestCost := 1 << 30
		for _, w := range work {
			for a := range w.m {
				cost := pos[a] * negc[a]
				if cost < bestCost || cost == bestCost && best != nil && a.id < best.id {
					bestCost, best = cost, a
				}
			}
		}
		var ps, ns, next []ineq
		for _, w := range work {
			c := w.m[best]
			switch {
			case c > 0:
				ps = append(ps, w)
			case c < 0:
				ns = append(ns, w)
			default:
				next = append(next, w)
			}
		}
		if len(ps)*len(ns)+len(next) > fmMaxIneqs {
			return false
		}
		for _, p := range ps {
			for _, n := range ns {
				cp, cn := p.m[best], -n.m[best]
				g := gcd(cp, cn)
				fp, fn := cn/g, cp/g
				if fp > coefMax || fn > coefMax {
					return false
				}
				r := lin{k: p.k * fp, m: map[*Term]int64{}}
				bad := false
				for a, c := range p.m {
					r.m[a] += c * fp
				}
				r.k += n.k * fn
				for a, c := range n.m {
					r.m[a] += c * fn
				}
				gg := int64(0)
				for a, c := range r.m {
					if c == 0 {
						delete(r.m, a)
						continue
					}
					if c > coefMax || c < -coefMax {
						bad = true
					}
					gg = gcd(gg, c)
				}
				if bad {
					continue
				}
				if gg > 1 {
					for a := range r.m {
						r.m[a] /= gg
					}
					r.k = -floorDiv(-r.k, gg)
				}
				next = append(next, ineq{r.k, r.m})
			}
		}
		work = next
	}
	return false
}
