package main

import (
	"fmt"
	"go/types"
)

// Bit provenance domain: which bit of which input byte every bit of an
// integer comes from.

type bit struct {
	k    byte // 0, 1: constant; 'b': bit n of the byte off of base; 's': bit n of the symbol base; '?': unknown
	base *Term
	off  *Term
	n    int
}

func (b bit) String() string {
	switch b.k {
	case 0:
		return "0"
	case 1:
		return "1"
	case 'b':
		return fmt.Sprintf("%s[%s].%d", b.base, b.off, b.n)
	case 's':
		return fmt.Sprintf("%s.%d", b.base, b.n)
	}
	return "?"
}

type bitv [64]bit

var unknownBits = func() (v bitv) {
	for i := range v {
		v[i].k = '?'
	}
	return
}()

func constBits(n int64) (v bitv) {
	for i := range v {
		v[i].k = byte(n >> uint(i) & 1)
	}
	return
}

// byteBits is the little endian number of n bytes.
func byteBits(base, off *Term, n int) (v bitv) {
	b, o := sliceParts(base)
	for i := 0; i < n; i++ {
		at := tAdd(tAdd(o, off), tInt(int64(i)))
		for j := 0; j < 8; j++ {
			v[i*8+j] = bit{'b', b, at, j}
		}
	}
	return
}

// extend makes the value of the low bits of a type.
func (v bitv) extend(t types.Type) bitv {
	w, signed := intBits(t)
	for i := w; i < 64; i++ {
		v[i] = bit{}
		if signed {
			v[i] = v[w-1]
		}
	}
	return v
}

func (v bitv) shl(n int) (r bitv) {
	for i := 63; i >= n; i-- {
		r[i] = v[i-n]
	}
	return
}

func (v bitv) sar(n int) (r bitv) {
	for i := range r {
		if i+n < 64 {
			r[i] = v[i+n]
		} else {
			r[i] = v[63]
		}
	}
	return
}

func isByte(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// bitsOf an integer term; the bits of its (infinite) two's complement value.
func bitsOf(t *Term) bitv {
	switch t.Op {
	case OConst:
		if n, ok := t.intConst(); ok {
			return constBits(n)
		}
	case OBytes:
		return byteBits(t.Args[0], t.Args[1], int(t.I))
	case OInit:
		if a := t.Args[0]; a.Op == OIndexAddr && isByte(t.T) {
			return byteBits(a.Args[0], a.Args[1], 1)
		}
	case OIndex:
		if isByte(t.T) {
			return byteBits(t.Args[0], t.Args[1], 1)
		}
	case OConv:
		if t.T != nil && isInt(t.T) && t.Args[0].T != nil && isInt(t.Args[0].T) {
			return bitsOf(t.Args[0]).extend(t.T)
		}
	case OLin:
		// a sum of terms without common bits
		sum := constBits(t.K)
		for i, a := range t.Args {
			c := t.Coef[i]
			n := 0
			for c > 1 && c&1 == 0 {
				c >>= 1
				n++
			}
			if c != 1 {
				return unknownBits
			}
			sum = orBits(sum, bitsOf(a).shl(n), true)
		}
		return sum
	case OBin:
		if t.T == nil || !isInt(t.T) {
			return unknownBits
		}
		a := bitsOf(t.Args[0])
		switch t.S {
		case "&":
			b := bitsOf(t.Args[1])
			return mapBits(a, b, func(x, y bit) bit {
				switch {
				case x.k == 0 || y.k == 0:
					return bit{}
				case x.k == 1:
					return y
				case y.k == 1 || x == y:
					return x
				}
				return bit{k: '?'}
			}).extend(t.T)
		case "|":
			return orBits(a, bitsOf(t.Args[1]), false).extend(t.T)
		case "^":
			return mapBits(a, bitsOf(t.Args[1]), func(x, y bit) bit {
				switch {
				case x.k == 0:
					return y
				case y.k == 0:
					return x
				case x.k == 1 && y.k == 1:
					return bit{}
				}
				return bit{k: '?'}
			}).extend(t.T)
		case "&^":
			return mapBits(a, bitsOf(t.Args[1]), func(x, y bit) bit {
				switch {
				case x.k == 0 || y.k == 1:
					return bit{}
				case y.k == 0:
					return x
				}
				return bit{k: '?'}
			}).extend(t.T)
		case "<<":
			if n, ok := t.Args[1].intConst(); ok && n >= 0 && n < 64 {
				return a.shl(int(n)).extend(t.T)
			}
		case ">>":
			if n, ok := t.Args[1].intConst(); ok && n >= 0 && n < 64 {
				if w, signed := intBits(t.T); w == 64 && !signed {
					r := a.sar(int(n))
					for i := 64 - int(n); i < 64; i++ {
						r[i] = bit{}
					}
					return r
				}
				return a.sar(int(n))
			}
		case "/", "%":
			// of a number without sign by a power of two
			if n, ok := t.Args[1].intConst(); ok && n > 0 && n&(n-1) == 0 && a[63].k == 0 {
				k := 0
				for 1<<uint(k) < n {
					k++
				}
				if t.S == "/" {
					return a.sar(k)
				}
				for i := k; i < 64; i++ {
					a[i] = bit{}
				}
				return a
			}
		}
	}
	if t.T != nil && isInt(t.T) && (t.Op == OSym || t.Op == OInit || t.Op == OField || t.Op == OMapGet) {
		var v bitv
		for i := range v {
			v[i] = bit{k: 's', base: t, n: i}
		}
		return v.extend(t.T)
	}
	return unknownBits
}

func mapBits(a, b bitv, f func(x, y bit) bit) (r bitv) {
	for i := range a {
		r[i] = f(a[i], b[i])
	}
	return
}

func orBits(a, b bitv, disjoint bool) bitv {
	bad := false
	r := mapBits(a, b, func(x, y bit) bit {
		switch {
		case x.k == 0:
			return y
		case y.k == 0:
			return x
		case disjoint:
			bad = true
		case x.k == 1 || y.k == 1:
			return bit{k: 1}
		case x == y:
			return x
		}
		return bit{k: '?'}
	})
	if bad {
		return unknownBits
	}
	return r
}

// bitFacts: what the path tells about the bits of the input.
type bitFacts struct {
	env   map[bit]byte
	facts []*Term
}

func (s *State) bitFacts() *bitFacts {
	q := &bitFacts{env: map[bit]byte{}}
	for f := range s.facts.m {
		switch {
		case f.Op == OEqZ, f.Op == OLe, f.Op == ONot && f.Args[0].Op == OEqZ:
			q.facts = append(q.facts, f)
		}
	}
	q.learn()
	return q
}

// masked is the number whose bits a comparison of a bit operation is about.
func masked(f *Term) *Term {
	if f.Op == ONot {
		f = f.Args[0]
	}
	if f.Op != OEqZ && f.Op != OLe {
		return nil
	}
	l := toLin(f.Args[0])
	if len(l.m) != 1 {
		return nil
	}
	var a *Term
	for x := range l.m {
		a = x
	}
	op := false
	for a.Op == OConv || a.Op == OBin {
		if a.Op == OBin {
			switch a.S {
			case "&", "|", "^", "&^", "<<", ">>", "/", "%":
			default:
				return nil
			}
			if !a.Args[1].isConst() {
				return nil
			}
			op = true
		}
		a = a.Args[0]
	}
	if !op {
		return nil
	}
	return a
}

// contradictsBits: do the facts about the bits of the same number exclude each other?
func (f *Facts) contradictsBits(t *Term) bool {
	a := masked(t)
	if a == nil {
		return false
	}
	q := &bitFacts{env: map[bit]byte{}}
	for g := range f.m {
		if masked(g) == a {
			q.facts = append(q.facts, g)
		}
	}
	if len(q.facts) < 2 {
		return false
	}
	q.learn()
	for _, g := range q.facts {
		if q.evalFact(g, nil) == False {
			return true
		}
	}
	return false
}

func (q *bitFacts) learn() {
	for again, n := true, 0; again && n < 5; n++ {
		again = false
		for _, f := range q.facts {
			t := f
			if f.Op == ONot {
				t = f.Args[0]
			}
			l := toLin(t.Args[0])
			if len(l.m) != 1 {
				continue
			}
			var a *Term
			for x := range l.m {
				a = x
			}
			v := q.subst(bitsOf(a))
			free := -1
			n := 0
			for i, b := range v {
				if b.k > 1 {
					n++
					free = i
				}
			}
			if f.Op == OEqZ && l.k%l.m[a] == 0 {
				want := constBits(-l.k / l.m[a])
				for i, b := range v {
					if b.k == 'b' || b.k == 's' {
						q.env[b] = want[i].k
						again = true
					}
				}
				continue
			}
			if n == 0 || n > 64 {
				continue
			}
			// the same bit may occur several times (sign extension)
			one := v[free]
			same := one.k == 'b' || one.k == 's'
			for _, b := range v {
				if b.k > 1 && b != one {
					same = false
				}
			}
			if !same {
				continue
			}
			for c := byte(0); c < 2; c++ {
				if q.evalFact(f, map[bit]byte{one: c}) == False {
					q.env[one] = 1 - c
					again = true
					break
				}
			}
		}
	}
}

func (q *bitFacts) subst(v bitv) bitv {
	for i, b := range v {
		if b.k == 'b' || b.k == 's' {
			if c, ok := q.env[b]; ok {
				v[i] = bit{k: c}
			}
		}
	}
	return v
}

// evalFact decides a comparison with additionally assumed bits.
func (q *bitFacts) evalFact(f *Term, as map[bit]byte) Tri {
	if f.Op == ONot {
		return q.evalFact(f.Args[0], as).not()
	}
	if f.Op != OEqZ && f.Op != OLe {
		if b, ok := f.boolConst(); ok {
			return tri(b)
		}
		return Unknown
	}
	l := toLin(f.Args[0])
	min, max := l.k, l.k
	for a, c := range l.m {
		v := q.subst(bitsOf(a))
		lo, hi := int64(0), int64(0)
		for i, b := range v {
			if x, ok := as[b]; ok && b.k > 1 {
				b = bit{k: x}
			}
			switch {
			case b.k == 1:
				lo |= 1 << uint(i)
				hi |= 1 << uint(i)
			case b.k != 0 && i >= 62:
				return Unknown
			case b.k != 0:
				hi |= 1 << uint(i)
			}
		}
		if f.Op == OEqZ && len(l.m) == 1 && l.k%c == 0 {
			want := -l.k / c
			if want&^hi != 0 || lo&^want != 0 {
				return False
			}
		}
		if lo < 0 || hi > 1<<40 || c > 1<<20 || c < -(1<<20) {
			if lo != hi {
				return Unknown
			}
		}
		if c > 0 {
			min += c * lo
			max += c * hi
		} else {
			min += c * hi
			max += c * lo
		}
	}
	if f.Op == OLe {
		if max <= 0 {
			return True
		}
		if min > 0 {
			return False
		}
		return Unknown
	}
	if min == 0 && max == 0 {
		return True
	}
	if min > 0 || max < 0 {
		return False
	}
	return Unknown
}

// value of a bit vector, if the path determines it.
func (q *bitFacts) value(v bitv) (int64, bool) {
	v = q.subst(v)
	n := int64(0)
	for i, b := range v {
		if b.k > 1 {
			return 0, false
		}
		n |= int64(b.k) << uint(i)
	}
	return n, true
}

// canBe: may the bits have the value on this path?
func (q *bitFacts) canBe(v bitv, n int64) bool {
	as := map[bit]byte{}
	for i, b := range q.subst(v) {
		w := byte(n >> uint(i) & 1)
		switch b.k {
		case 0, 1:
			if b.k != w {
				return false
			}
		case 'b', 's':
			if c, had := as[b]; had && c != w {
				return false
			}
			as[b] = w
		}
	}
	for _, f := range q.facts {
		if q.evalFact(f, as) == False {
			return false
		}
	}
	return true
}

// evalWith decides a condition under assumed bits.
func (q *bitFacts) evalWith(f *Term, v bitv, n int64) Tri {
	as := map[bit]byte{}
	for i, b := range v {
		if b.k == 'b' || b.k == 's' {
			as[b] = byte(n >> uint(i) & 1)
		}
	}
	return q.evalFact(f, as)
}

// same tells whether two bit vectors are equal on this path.
func (q *bitFacts) same(a, b bitv) bool {
	a, b = q.subst(a), q.subst(b)
	for i := range a {
		if a[i] != b[i] || a[i].k == '?' {
			return false
		}
	}
	return true
}
