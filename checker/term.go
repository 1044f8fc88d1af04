package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Op is the kind of an abstract value.
type Op int

const (
	OConst     Op = iota // C (nil C and T = nil of the type)
	OSym                 // unknown value, named S, created at Site
	OObj                 // address of an allocated object, named S
	OGlobal              // address of a package variable
	OFunc                // function value
	OClosure             // Args: bindings
	OFieldAddr           // Args[0] base address, I field
	OIndexAddr           // Args[0] base, Args[1] index
	OInit                // unknown contents of the address Args[0] (epoch S)
	OField               // field I of the struct value Args[0]
	OIndex               // element Args[1] of array/string value Args[0]
	OLin                 // linear combination of Args with Coef, plus K
	OBin                 // other binary operation S
	OUn                  // other unary operation S
	OLen
	OCap
	OSlice  // Args: base, lo, [hi]
	OBytes  // little endian number of I bytes of Args[0] at offset Args[1]
	OConv   // conversion to T
	OIface  // Args[0] as interface value, concrete type T
	OAssert // concrete value of type T in the interface Args[0]
	OIsType // bool: Args[0] holds T
	OTuple
	OCall   // pure function S of Args
	OMapGet // Args: map, key (epoch S)
	OMapHas
	OMapSlot // address of a map entry
	OAppend  // Args: slice, elems...
	OAppendS // Args: slice, slice
	OCat     // string concatenation
	OStruct  // struct value, Args fields
	OArray   // array value
	OLe      // Args[0] (linear) <= 0
	OEqZ     // Args[0] (linear) == 0
	OEq      // Args[0] == Args[1], other types
	OCmp     // float or string comparison S
	ONot
	OZero // zero value of the aggregate type T
)

// Term is a hash-consed abstract value.
type Term struct {
	Op   Op
	Args []*Term
	Coef []int64
	K    int64
	S    string
	I    int64
	C    constant.Value
	T    types.Type
	G    ssa.Value // OGlobal, OFunc, OClosure
	Site *Site     // OSym, OObj
	id   int
	syms *symset // symbols and objects contained
}

// Site says where a symbol was created.
type Site struct {
	Frame *FrameCtx
	Instr ssa.Instruction
	Block *ssa.BasicBlock
	What  string
	Args  []*Term // arguments of the call which made it
}

type symset struct{ ids []*Term }

var (
	interned = map[string]*Term{}
	nterms   int
	typeIDs  = map[string]int{}
)

func typeKey(t types.Type) string {
	if t == nil {
		return "-"
	}
	s := types.TypeString(t, nil)
	id, ok := typeIDs[s]
	if !ok {
		id = len(typeIDs) + 1
		typeIDs[s] = id
	}
	return strconv.Itoa(id)
}

func mk(t Term) *Term {
	var b strings.Builder
	b.WriteString(strconv.Itoa(int(t.Op)))
	b.WriteByte('|')
	switch t.Op {
	case OConst:
		if t.C != nil {
			b.WriteString(strconv.Itoa(int(t.C.Kind())))
			b.WriteByte(':')
			b.WriteString(t.C.ExactString())
			if t.C.Kind() != constant.Int && t.C.Kind() != constant.Bool && t.C.Kind() != constant.String {
				b.WriteString(typeKey(t.T))
			}
		} else {
			b.WriteString("nil")
		}
	case OGlobal, OFunc, OClosure:
		fmt.Fprintf(&b, "%p", t.G)
	case OIface, OAssert, OIsType, OConv, OZero, OStruct, OArray:
		b.WriteString(typeKey(t.T))
	}
	b.WriteByte('|')
	b.WriteString(t.S)
	b.WriteByte('|')
	b.WriteString(strconv.FormatInt(t.I, 10))
	for i, a := range t.Args {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(a.id))
		if t.Coef != nil {
			b.WriteByte('*')
			b.WriteString(strconv.FormatInt(t.Coef[i], 10))
		}
	}
	if t.Op == OLin {
		b.WriteByte('+')
		b.WriteString(strconv.FormatInt(t.K, 10))
	}
	k := b.String()
	if x, ok := interned[k]; ok {
		return x
	}
	nterms++
	x := t
	x.id = nterms
	p := &x
	interned[k] = p
	return p
}

// contained symbols
func (t *Term) symbols() []*Term {
	if t.syms != nil {
		return t.syms.ids
	}
	var res []*Term
	switch {
	case t.Op == OSym || t.Op == OObj:
		res = []*Term{t}
	case len(t.Args) == 1:
		res = t.Args[0].symbols()
	case len(t.Args) > 1:
		seen := map[*Term]bool{}
		for _, a := range t.Args {
			for _, s := range a.symbols() {
				if !seen[s] {
					seen[s] = true
					res = append(res, s)
				}
			}
		}
	}
	t.syms = &symset{res}
	return res
}

// contains reports whether x is a subterm of t.
func (t *Term) contains(x *Term) bool {
	if t == x {
		return true
	}
	if t.id < x.id {
		return false
	}
	for _, a := range t.Args {
		if a.contains(x) {
			return true
		}
	}
	return false
}

// anySub visits subterms.
func (t *Term) anySub(f func(*Term) bool) bool {
	if f(t) {
		return true
	}
	for _, a := range t.Args {
		if a.anySub(f) {
			return true
		}
	}
	return false
}

func isInt(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func under(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	return t.Underlying()
}

func isBasic(t types.Type, info types.BasicInfo) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&info != 0
}

// mathInt: arithmetic is treated as exact (no overflow assumed).
func mathInt(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	if !ok {
		return false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt, types.UntypedRune:
		return true
	}
	return false
}

// intBits of unsigned or narrow types: size, signed.
func intBits(t types.Type) (int, bool) {
	b, ok := under(t).(*types.Basic)
	if !ok {
		return 64, true
	}
	switch b.Kind() {
	case types.Int8:
		return 8, true
	case types.Int16:
		return 16, true
	case types.Int32:
		return 32, true
	case types.Uint8:
		return 8, false
	case types.Uint16:
		return 16, false
	case types.Uint32:
		return 32, false
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false
	}
	return 64, true
}

func tInt(n int64) *Term {
	return mk(Term{Op: OConst, C: constant.MakeInt64(n), T: types.Typ[types.Int]})
}
func tBool(b bool) *Term {
	return mk(Term{Op: OConst, C: constant.MakeBool(b), T: types.Typ[types.Bool]})
}
func tStr(s string) *Term {
	return mk(Term{Op: OConst, C: constant.MakeString(s), T: types.Typ[types.String]})
}
func tNil(t types.Type) *Term { return mk(Term{Op: OConst, T: t}) }

func (t *Term) isConst() bool { return t.Op == OConst }
func (t *Term) isNil() bool   { return t.Op == OConst && t.C == nil }
func (t *Term) boolConst() (val, ok bool) {
	if t.Op == OConst && t.C != nil && t.C.Kind() == constant.Bool {
		return constant.BoolVal(t.C), true
	}
	return false, false
}
func (t *Term) intConst() (int64, bool) {
	if t.Op == OConst && t.C != nil && t.C.Kind() == constant.Int {
		return constant.Int64Val(t.C)
	}
	return 0, false
}
func (t *Term) strConst() (string, bool) {
	if t.Op == OConst && t.C != nil && t.C.Kind() == constant.String {
		return constant.StringVal(t.C), true
	}
	return "", false
}

// zeroOf makes the zero value of a type.
func zeroOf(t types.Type) *Term {
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return tBool(false)
		case u.Info()&types.IsInteger != 0:
			return tInt(0)
		case u.Info()&types.IsString != 0:
			return tStr("")
		case u.Info()&types.IsFloat != 0:
			return mk(Term{Op: OConst, C: constant.ToFloat(constant.MakeInt64(0)), T: types.Typ[types.Float64]})
		}
		return tNil(t)
	case *types.Struct:
		args := make([]*Term, u.NumFields())
		for i := range args {
			args[i] = zeroOf(u.Field(i).Type())
		}
		return mk(Term{Op: OStruct, T: t, Args: args})
	case *types.Array:
		return mk(Term{Op: OZero, T: t})
	}
	return tNil(t)
}

// ---- linear arithmetic

type lin struct {
	k int64
	m map[*Term]int64
}

func toLin(t *Term) lin {
	if n, ok := t.intConst(); ok {
		return lin{k: n}
	}
	if t.Op == OLin {
		m := make(map[*Term]int64, len(t.Args))
		for i, a := range t.Args {
			m[a] = t.Coef[i]
		}
		return lin{k: t.K, m: m}
	}
	return lin{m: map[*Term]int64{t: 1}}
}

func (l lin) addMul(o lin, c int64) lin {
	r := lin{k: l.k + c*o.k, m: make(map[*Term]int64, len(l.m)+len(o.m))}
	for a, x := range l.m {
		r.m[a] = x
	}
	for a, x := range o.m {
		r.m[a] += c * x
		if r.m[a] == 0 {
			delete(r.m, a)
		}
	}
	return r
}

func (l lin) term() *Term {
	if len(l.m) == 0 {
		return tInt(l.k)
	}
	args := make([]*Term, 0, len(l.m))
	for a := range l.m {
		args = append(args, a)
	}
	sort.Slice(args, func(i, j int) bool { return args[i].id < args[j].id })
	if len(args) == 1 && l.k == 0 && l.m[args[0]] == 1 {
		return args[0]
	}
	co := make([]int64, len(args))
	for i, a := range args {
		co[i] = l.m[a]
	}
	return mk(Term{Op: OLin, Args: args, Coef: co, K: l.k, T: types.Typ[types.Int]})
}

func tAdd(a, b *Term) *Term { return toLin(a).addMul(toLin(b), 1).term() }
func tSub(a, b *Term) *Term { return toLin(a).addMul(toLin(b), -1).term() }
func tMulK(a *Term, c int64) *Term {
	return lin{}.addMul(toLin(a), c).term()
}

// tLe is the predicate a <= b over integers.
func tLe(a, b *Term) *Term {
	l := toLin(tSub(a, b))
	return leZero(l)
}

func gcd(a, b int64) int64 {
	if a < 0 {
		a = -a
	}
	if b < 0 {
		b = -b
	}
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

func leZero(l lin) *Term {
	if len(l.m) == 0 {
		return tBool(l.k <= 0)
	}
	g := int64(0)
	for _, c := range l.m {
		g = gcd(g, c)
	}
	if g > 1 {
		n := lin{m: map[*Term]int64{}}
		for a, c := range l.m {
			n.m[a] = c / g
		}
		// sum + k <= 0  <=>  sum/g <= floor(-k/g)
		n.k = -floorDiv(-l.k, g)
		l = n
	}
	return mk(Term{Op: OLe, Args: []*Term{l.term()}, T: types.Typ[types.Bool]})
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

func tLt(a, b *Term) *Term { return tLe(tAdd(a, tInt(1)), b) }

func tEqInt(a, b *Term) *Term {
	l := toLin(tSub(a, b))
	if len(l.m) == 0 {
		return tBool(l.k == 0)
	}
	g := int64(0)
	for _, c := range l.m {
		g = gcd(g, c)
	}
	if g > 1 {
		if l.k%g != 0 {
			return tBool(false)
		}
		n := lin{k: l.k / g, m: map[*Term]int64{}}
		for a, c := range l.m {
			n.m[a] = c / g
		}
		l = n
	}
	// canonical sign
	t := l.term()
	n := lin{}.addMul(l, -1).term()
	if t.Op == OLin {
		if firstCoef(t) < 0 {
			t = n
		}
	}
	return mk(Term{Op: OEqZ, Args: []*Term{t}, T: types.Typ[types.Bool]})
}

func firstCoef(t *Term) int64 {
	if t.Op == OLin {
		return t.Coef[0]
	}
	return 1
}

func tNot(t *Term) *Term {
	if b, ok := t.boolConst(); ok {
		return tBool(!b)
	}
	if t.Op == ONot {
		return t.Args[0]
	}
	if t.Op == OLe {
		// !(l <= 0)  <=>  -l + 1 <= 0
		l := lin{k: 1}.addMul(toLin(t.Args[0]), -1)
		return leZero(l)
	}
	return mk(Term{Op: ONot, Args: []*Term{t}, T: types.Typ[types.Bool]})
}

// concrete, comparable-by-identity values
func definitelyNonNil(t *Term) bool {
	switch t.Op {
	case OObj, OGlobal, OFunc, OClosure, OIface, OFieldAddr, OIndexAddr:
		return true
	case OSlice:
		return definitelyNonNil(t.Args[0])
	case OAppend:
		return len(t.Args) > 1
	case OCall:
		return isErrVar(t)
	}
	return false
}

func tEq(a, b *Term, ty types.Type) *Term {
	if a == b && !isBasic(ty, types.IsFloat) {
		return tBool(true)
	}
	if isInt(ty) {
		return tEqInt(a, b)
	}
	if a.Op == OConst && b.Op == OConst {
		if a.C == nil || b.C == nil {
			return tBool(a.C == nil && b.C == nil)
		}
		if a.C.Kind() == b.C.Kind() || (a.C.Kind() != constant.String && a.C.Kind() != constant.Bool && b.C.Kind() != constant.String && b.C.Kind() != constant.Bool) {
			return tBool(constant.Compare(a.C, token.EQL, b.C))
		}
	}
	if bv, ok := a.boolConst(); ok {
		if bv {
			return b
		}
		return tNot(b)
	}
	if bv, ok := b.boolConst(); ok {
		if bv {
			return a
		}
		return tNot(a)
	}
	if isBasic(ty, types.IsString) {
		if s, ok := a.strConst(); ok && s == "" {
			return tEqInt(tLen(b), tInt(0))
		}
		if s, ok := b.strConst(); ok && s == "" {
			return tEqInt(tLen(a), tInt(0))
		}
	}
	if a.isNil() && definitelyNonNil(b) || b.isNil() && definitelyNonNil(a) {
		return tBool(false)
	}
	if a.Op == OIface && b.Op == OIface {
		if !types.Identical(a.T, b.T) {
			return tBool(false)
		}
		if types.Comparable(a.T) {
			return tEq(a.Args[0], b.Args[0], a.T)
		}
	}
	if (a.Op == OObj || a.Op == OGlobal) && (b.Op == OObj || b.Op == OGlobal) && a != b {
		return tBool(false)
	}
	if isErrVar(a) && isErrVar(b) {
		return tBool(false)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk(Term{Op: OEq, Args: []*Term{a, b}, T: types.Typ[types.Bool]})
}

func tLen(x *Term) *Term {
	switch x.Op {
	case OConst:
		if x.C == nil {
			return tInt(0)
		}
		if s, ok := x.strConst(); ok {
			return tInt(int64(len(s)))
		}
	case OSlice:
		hi := sliceHi(x)
		return tSub(hi, x.Args[1])
	case OAppend:
		return tAdd(tLen(x.Args[0]), tInt(int64(len(x.Args)-1)))
	case OAppendS:
		return tAdd(tLen(x.Args[0]), tLen(x.Args[1]))
	case OCat:
		return tAdd(tLen(x.Args[0]), tLen(x.Args[1]))
	case OZero:
		if a, ok := under(x.T).(*types.Array); ok {
			return tInt(a.Len())
		}
	case OObj, OGlobal:
		if p, ok := under(x.T).(*types.Pointer); ok {
			if a, ok := under(p.Elem()).(*types.Array); ok {
				return tInt(a.Len())
			}
		}
	case OConv:
		// string <-> []byte conversions keep the length
		if isBytesOrString(x.T) && x.Args[0].T != nil && isBytesOrString(x.Args[0].T) {
			return tLen(x.Args[0])
		}
	}
	if x.T != nil {
		if p, ok := under(x.T).(*types.Pointer); ok {
			if a, ok := under(p.Elem()).(*types.Array); ok {
				return tInt(a.Len())
			}
		}
		if a, ok := under(x.T).(*types.Array); ok {
			return tInt(a.Len())
		}
	}
	return mk(Term{Op: OLen, Args: []*Term{x}, T: types.Typ[types.Int]})
}

func isBytesOrString(t types.Type) bool {
	if isBasic(t, types.IsString) {
		return true
	}
	if s, ok := under(t).(*types.Slice); ok {
		b, ok := under(s.Elem()).(*types.Basic)
		return ok && b.Kind() == types.Byte
	}
	return false
}

func sliceHi(x *Term) *Term {
	if len(x.Args) > 2 {
		return x.Args[2]
	}
	return tLen(x.Args[0])
}

// tSlice normalises base[lo:hi]; hi may be nil.
func tSlice(base, lo, hi *Term, ty types.Type) *Term {
	if base.Op == OSlice {
		off := base.Args[1]
		nlo := tAdd(off, lo)
		var nhi *Term
		if hi != nil {
			nhi = tAdd(off, hi)
		} else if len(base.Args) > 2 {
			nhi = base.Args[2]
		}
		return tSlice(base.Args[0], nlo, nhi, ty)
	}
	if hi != nil && hi == tLen(base) {
		hi = nil
	}
	if s, ok := base.strConst(); ok {
		l, ok1 := lo.intConst()
		h := int64(len(s))
		ok2 := true
		if hi != nil {
			h, ok2 = hi.intConst()
		}
		if ok1 && ok2 && l >= 0 && l <= h && h <= int64(len(s)) {
			return tStr(s[l:h])
		}
	}
	if n, ok := lo.intConst(); ok && n == 0 && hi == nil {
		if base.T != nil {
			if _, isPtr := under(base.T).(*types.Pointer); !isPtr {
				return base
			}
		}
	}
	args := []*Term{base, lo}
	if hi != nil {
		args = append(args, hi)
	}
	return mk(Term{Op: OSlice, Args: args, T: ty})
}

// sliceParts gives the underlying base and offset of a slice value.
func sliceParts(x *Term) (*Term, *Term) {
	if x.Op == OSlice {
		return x.Args[0], x.Args[1]
	}
	return x, tInt(0)
}

func tBytes(x *Term, off *Term, n int64) *Term {
	b, o := sliceParts(x)
	var ty types.Type
	switch n {
	case 1:
		ty = types.Typ[types.Uint8]
	case 2:
		ty = types.Typ[types.Uint16]
	case 4:
		ty = types.Typ[types.Uint32]
	default:
		ty = types.Typ[types.Uint64]
	}
	return mk(Term{Op: OBytes, Args: []*Term{b, tAdd(o, off)}, I: n, T: ty})
}

func tCall(name string, ty types.Type, args ...*Term) *Term {
	return mk(Term{Op: OCall, S: name, Args: args, T: ty})
}

func tIface(x *Term, concrete types.Type) *Term {
	return mk(Term{Op: OIface, Args: []*Term{x}, T: concrete})
}

func tTuple(args ...*Term) *Term { return mk(Term{Op: OTuple, Args: args}) }

func tIsType(x *Term, t types.Type) *Term {
	if x.isNil() {
		return tBool(false)
	}
	if x.Op == OIface {
		if i, ok := under(t).(*types.Interface); ok {
			return tBool(types.Implements(x.T, i))
		}
		return tBool(types.Identical(x.T, t))
	}
	return mk(Term{Op: OIsType, Args: []*Term{x}, T: t})
}

func tAssert(x *Term, t types.Type) *Term {
	if x.Op == OIface {
		if _, ok := under(t).(*types.Interface); ok {
			return x
		}
		return x.Args[0]
	}
	if _, ok := under(t).(*types.Interface); ok {
		return x
	}
	return mk(Term{Op: OAssert, Args: []*Term{x}, T: t})
}

// typeRange gives bounds of an integer term, if any.
func typeRange(t *Term) (lo, hi int64, okLo, okHi bool) {
	if n, ok := t.intConst(); ok {
		return n, n, true, true
	}
	switch t.Op {
	case OLen, OCap:
		return 0, 0, true, false
	case OBytes:
		if t.I < 8 {
			return 0, 1<<(8*uint(t.I)) - 1, true, true
		}
		return 0, 0, true, false
	case OBin:
		if t.S == "&" {
			if c, ok := t.Args[1].intConst(); ok && c >= 0 {
				return 0, c, true, true
			}
			if c, ok := t.Args[0].intConst(); ok && c >= 0 {
				return 0, c, true, true
			}
		}
		if t.S == "%" {
			if c, ok := t.Args[1].intConst(); ok && c > 0 {
				l, _, ok1, _ := typeRange(t.Args[0])
				if ok1 && l >= 0 {
					return 0, c - 1, true, true
				}
				return -(c - 1), c - 1, true, true
			}
		}
		if t.S == ">>" || t.S == "/" {
			l, h, ok1, ok2 := typeRange(t.Args[0])
			if ok1 && l >= 0 {
				return 0, h, true, ok2
			}
		}
	}
	if t.T != nil && isInt(t.T) {
		n, signed := intBits(t.T)
		if !signed {
			if n < 64 {
				return 0, 1<<uint(n) - 1, true, true
			}
			return 0, 0, true, false
		}
		if n < 64 {
			return -(1 << uint(n-1)), 1<<uint(n-1) - 1, true, true
		}
	}
	return 0, 0, false, false
}

func tConv(x *Term, from, to types.Type) *Term {
	if from == nil || to == nil {
		return mk(Term{Op: OConv, Args: []*Term{x}, T: to})
	}
	fu, tu := under(from), under(to)
	if types.Identical(fu, tu) {
		return x
	}
	if isInt(from) && isInt(to) {
		if n, ok := x.intConst(); ok {
			bits, signed := intBits(to)
			if bits < 64 {
				if signed {
					n = n << uint(64-bits) >> uint(64-bits)
				} else {
					n = n & (1<<uint(bits) - 1)
				}
			}
			return tInt(n)
		}
		fb, fs := intBits(from)
		tb, ts := intBits(to)
		// value preserving?
		lo, hi, okLo, okHi := typeRange(x)
		fits := false
		if ts {
			min, max := int64(-1)<<uint(tb-1), int64(1)<<uint(tb-1)-1
			fits = okLo && lo >= min && (okHi && hi <= max || tb == 64 && (fs || fb < 64))
			if fb < tb || tb == 64 && fs {
				fits = true
			}
		} else {
			if fb < tb && !fs {
				fits = true
			} else if tb == 64 {
				fits = okLo && lo >= 0
			} else {
				fits = okLo && lo >= 0 && okHi && hi <= int64(1)<<uint(tb)-1
			}
		}
		if tb == 64 && ts && fb == 64 && !fs {
			// uint64 -> int64: exact for anything that is a length or offset
			if x.Op == OConv && len(x.Args) == 1 && x.Args[0].T != nil && isInt(x.Args[0].T) {
				if b, s := intBits(x.Args[0].T); b == 64 && s {
					return x.Args[0]
				}
			}
			if l, _, ok, _ := typeRange(x); ok && l >= 0 && (x.Op == OLen || x.Op == OCap) {
				return x
			}
		}
		if fits {
			return x
		}
		return mk(Term{Op: OConv, Args: []*Term{x}, T: to})
	}
	if x.Op == OConst && x.C != nil {
		if isBasic(to, types.IsFloat) && (x.C.Kind() == constant.Int || x.C.Kind() == constant.Float) {
			return mk(Term{Op: OConst, C: constant.ToFloat(x.C), T: types.Typ[types.Float64]})
		}
		if isBasic(to, types.IsString) && x.C.Kind() == constant.String {
			return x
		}
		if isBasic(to, types.IsBoolean) {
			return x
		}
	}
	if x.isNil() {
		return tNil(to)
	}
	if isBasic(from, types.IsString) && isBasic(to, types.IsString) {
		return x
	}
	if _, ok := fu.(*types.Basic); !ok {
		if _, ok := tu.(*types.Basic); !ok {
			return x // struct, slice, pointer, func of identical underlying types
		}
	}
	return mk(Term{Op: OConv, Args: []*Term{x}, T: to, S: typeKey(from)})
}

func (t *Term) String() string { return t.str(0) }

func (t *Term) str(d int) string {
	if t == nil {
		return "<none>"
	}
	if d > 12 {
		return "…"
	}
	a := func(i int) string { return t.Args[i].str(d + 1) }
	all := func() string {
		var s []string
		for i := range t.Args {
			s = append(s, a(i))
		}
		return strings.Join(s, ", ")
	}
	switch t.Op {
	case OConst:
		if t.C == nil {
			return "nil"
		}
		return t.C.String()
	case OSym:
		return t.S
	case OObj:
		return "&" + t.S
	case OGlobal:
		return "&" + t.G.Name()
	case OFunc:
		return t.G.Name()
	case OClosure:
		return "closure " + t.G.Name()
	case OFieldAddr:
		return a(0) + "." + fieldName(t)
	case OIndexAddr:
		return a(0) + "[" + a(1) + "]"
	case OInit:
		return "*" + a(0)
	case OField:
		return a(0) + ".#" + strconv.FormatInt(t.I, 10)
	case OIndex:
		return a(0) + "[" + a(1) + "]"
	case OLin:
		var s []string
		for i, x := range t.Args {
			switch t.Coef[i] {
			case 1:
				s = append(s, x.str(d+1))
			case -1:
				s = append(s, "-"+x.str(d+1))
			default:
				s = append(s, fmt.Sprintf("%d*%s", t.Coef[i], x.str(d+1)))
			}
		}
		if t.K != 0 {
			s = append(s, strconv.FormatInt(t.K, 10))
		}
		return "(" + strings.Join(s, " + ") + ")"
	case OBin:
		return "(" + a(0) + " " + t.S + " " + a(1) + ")"
	case OUn:
		return t.S + a(0)
	case OLen:
		return "len(" + a(0) + ")"
	case OCap:
		return "cap(" + a(0) + ")"
	case OSlice:
		h := ""
		if len(t.Args) > 2 {
			h = a(2)
		}
		return a(0) + "[" + a(1) + ":" + h + "]"
	case OBytes:
		return fmt.Sprintf("LE%d(%s @%s)", t.I*8, a(0), a(1))
	case OConv:
		return types.TypeString(t.T, nopkg) + "(" + a(0) + ")"
	case OIface:
		return "iface<" + types.TypeString(t.T, nopkg) + ">(" + a(0) + ")"
	case OAssert:
		return a(0) + ".(" + types.TypeString(t.T, nopkg) + ")"
	case OIsType:
		return a(0) + " is " + types.TypeString(t.T, nopkg)
	case OTuple:
		return "(" + all() + ")"
	case OCall:
		return t.S + "(" + all() + ")"
	case OMapGet:
		return a(0) + "{" + a(1) + "}"
	case OMapHas:
		return a(1) + " in " + a(0)
	case OMapSlot:
		return a(0) + "{" + a(1) + "}"
	case OAppend, OAppendS:
		return "append(" + all() + ")"
	case OCat:
		return a(0) + "+" + a(1)
	case OStruct:
		return "{" + all() + "}"
	case OLe:
		return a(0) + " <= 0"
	case OEqZ:
		return a(0) + " == 0"
	case OEq:
		return a(0) + " == " + a(1)
	case OCmp:
		return a(0) + " " + t.S + " " + a(1)
	case ONot:
		return "!(" + a(0) + ")"
	case OZero:
		return "zero"
	}
	return "?"
}

func nopkg(p *types.Package) string { return p.Name() }

func fieldName(t *Term) string {
	if t.Args[0].T != nil {
		ty := under(t.Args[0].T)
		if p, ok := ty.(*types.Pointer); ok {
			ty = under(p.Elem())
		}
		if s, ok := ty.(*types.Struct); ok && int(t.I) < s.NumFields() {
			return s.Field(int(t.I)).Name()
		}
	}
	return "#" + strconv.FormatInt(t.I, 10)
}
