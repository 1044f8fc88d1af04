package main

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// FrameCtx identifies an activation by its chain of call sites.
type FrameCtx struct {
	Fn     *ssa.Function
	Parent *FrameCtx
	Call   ssa.Instruction // in Parent
	Depth  int
	id     int
}

func (f *FrameCtx) String() string {
	if f == nil {
		return ""
	}
	if f.Parent == nil {
		return shortName(f.Fn)
	}
	return f.Parent.String() + " > " + shortName(f.Fn)
}

// callerOf tells whether f is g or an (indirect) caller of g; blk gets the
// block of f in which the chain to g leaves f.
func (g *FrameCtx) within(f *FrameCtx) (ssa.Instruction, bool) {
	var leave ssa.Instruction
	for x := g; x != nil; x = x.Parent {
		if x == f {
			return leave, true
		}
		leave = x.Call
	}
	return nil, false
}

// Frame is the run time part of an activation.
type Frame struct {
	ctx    *FrameCtx
	regs   map[ssa.Value]*Term
	defers []deferred
	parent *Frame
	// why the deferred functions are running
	panicking bool
	recovered bool
	draining  bool // running the deferred calls after a recovered panic
	panicAt   ssa.Instruction
	retBlk    *ssa.BasicBlock // where to continue after the current call
	retIdx    int
}

type deferred struct {
	call *ssa.CallCommon
	fn   *Term
	args []*Term
	at   ssa.Instruction
}

// State is an abstract state at a program point. Frames are copied on write.
type State struct {
	mem   map[*Term]*Term // address => value
	epoch map[string]*Term
	esc   map[*Term]string // objects known elsewhere => classes stored to through other names since
	unk   map[*Term]*Term  // objects with contents changed by unknown code => epoch
	ghost map[string]*Term
	facts *Facts
	fr    *Frame
	trail *Trail
	steps int
	dead  bool // not followed any further
}

// Trail records the decisions which led here.
type Trail struct {
	up  *Trail
	msg string
	pos string
	n   int
}

func (s *State) note(pos, msg string) {
	n := 0
	if s.trail != nil {
		n = s.trail.n + 1
	}
	s.trail = &Trail{s.trail, msg, pos, n}
}

func (t *Trail) lines(max int) []string {
	var r []string
	for x := t; x != nil && len(r) < max; x = x.up {
		r = append(r, x.pos+": "+x.msg)
	}
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return r
}

func cloneFrame(f *Frame) *Frame {
	if f == nil {
		return nil
	}
	n := *f
	n.regs = make(map[ssa.Value]*Term, len(f.regs)+4)
	for k, v := range f.regs {
		n.regs[k] = v
	}
	n.defers = append([]deferred(nil), f.defers...)
	n.parent = cloneFrame(f.parent)
	return &n
}

func (s *State) clone() *State {
	n := &State{facts: s.facts, trail: s.trail, steps: s.steps}
	n.mem = make(map[*Term]*Term, len(s.mem)+8)
	for k, v := range s.mem {
		n.mem[k] = v
	}
	n.epoch = make(map[string]*Term, len(s.epoch))
	for k, v := range s.epoch {
		n.epoch[k] = v
	}
	n.unk = make(map[*Term]*Term, len(s.unk))
	for k, v := range s.unk {
		n.unk[k] = v
	}
	if len(s.esc) > 0 {
		n.esc = make(map[*Term]string, len(s.esc))
		for k, v := range s.esc {
			n.esc[k] = v
		}
	}
	n.ghost = make(map[string]*Term, len(s.ghost))
	for k, v := range s.ghost {
		n.ghost[k] = v
	}
	n.fr = cloneFrame(s.fr)
	return n
}

func (s *State) assume(t *Term) bool {
	f, ok := s.facts.assume(t)
	if ok {
		s.facts = f
	}
	return ok
}

func (s *State) is(t *Term) bool    { return s.facts.eval(t) == True }
func (s *State) isNot(t *Term) bool { return s.facts.eval(t) == False }

// nilness of a pointer, slice, map, func or interface value.
func (s *State) nilness(t *Term) Tri {
	if t.isNil() {
		return True
	}
	if definitelyNonNil(t) {
		return False
	}
	ty := t.T
	if t.Op == OIface {
		return False
	}
	return s.facts.eval(tEq(t, tNil(ty), nil))
}

// ---- memory

func rootOf(a *Term) *Term {
	for a.Op == OFieldAddr || a.Op == OIndexAddr || a.Op == OSlice || a.Op == OMapSlot {
		a = a.Args[0]
	}
	return a
}

// pointee type of an address term.
func pointee(a *Term) types.Type {
	switch a.Op {
	case OMapSlot:
		if a.Args[0].T != nil {
			if m, ok := under(a.Args[0].T).(*types.Map); ok {
				return m.Elem()
			}
		}
		return nil
	}
	if a.T == nil {
		return nil
	}
	if p, ok := under(a.T).(*types.Pointer); ok {
		return p.Elem()
	}
	return nil
}

func tFieldAddr(base *Term, i int, ty types.Type) *Term {
	return mk(Term{Op: OFieldAddr, Args: []*Term{base}, I: int64(i), T: ty})
}

func tIndexAddr(base, idx *Term, ty types.Type) *Term {
	return mk(Term{Op: OIndexAddr, Args: []*Term{base, idx}, T: ty})
}

func fieldAddrOf(base *Term, i int) *Term {
	st := under(pointee(base)).(*types.Struct)
	return tFieldAddr(base, i, types.NewPointer(st.Field(i).Type()))
}

// class partitions the locations reached through unknown pointers by type.
func class(a *Term) string {
	switch a.Op {
	case OFieldAddr:
		t := pointee(a.Args[0])
		return "f" + typeKey(t) + "." + strconv.FormatInt(a.I, 10)
	case OIndexAddr:
		return "e" + typeKey(pointee(a))
	case OMapSlot:
		return "m" + typeKey(a.Args[0].T)
	case OGlobal:
		return "g" + fmt.Sprintf("%p", a.G)
	}
	return "p" + typeKey(pointee(a))
}

func isVarargs(root *Term) bool {
	if root.Op != OObj || root.Site == nil {
		return false
	}
	al, ok := root.Site.Instr.(*ssa.Alloc)
	return ok && al.Comment == "varargs"
}

func isFresh(root *Term) bool { return root.Op == OObj }

// disjoint addresses can never be the same location.
func (s *State) disjoint(a, b *Term) bool {
	if a == b {
		return false
	}
	ra, rb := rootOf(a), rootOf(b)
	if ra != rb {
		if (ra.Op == OObj || ra.Op == OGlobal) && (rb.Op == OObj || rb.Op == OGlobal) {
			return true
		}
		// the argument array of a variadic call has no other name while it is filled
		if isVarargs(ra) || isVarargs(rb) {
			return true
		}
		return class(a) != class(b)
	}
	if a.Op != b.Op {
		return class(a) != class(b)
	}
	switch a.Op {
	case OFieldAddr:
		if a.I != b.I {
			return true
		}
		return s.disjoint(a.Args[0], b.Args[0])
	case OIndexAddr:
		if a.Args[0] == b.Args[0] {
			return s.isNot(tEqInt(a.Args[1], b.Args[1]))
		}
	case OMapSlot:
		if a.Args[0] == b.Args[0] {
			m, _ := under(a.Args[0].T).(*types.Map)
			var kt types.Type
			if m != nil {
				kt = m.Key()
			}
			return s.isNot(tEq(a.Args[1], b.Args[1], kt))
		}
	}
	return class(a) != class(b)
}

// load reads a location.
func (s *State) load(a *Term) *Term {
	ty := pointee(a)
	if st, ok := under(ty).(*types.Struct); ok && !opaqueStruct(ty) {
		// assembled from the fields
		args := make([]*Term, st.NumFields())
		same := true
		for i := range args {
			args[i] = s.load(tFieldAddr(a, i, types.NewPointer(st.Field(i).Type())))
			if !(args[i].Op == OField && args[i].I == int64(i) && args[i].Args[0] == args[0].Args[0]) {
				same = false
			}
		}
		if same && len(args) > 0 {
			return args[0].Args[0]
		}
		return mk(Term{Op: OStruct, T: ty, Args: args})
	}
	if v, ok := s.mem[a]; ok {
		return v
	}
	if a.Op == OIndexAddr {
		// a store to an equal index
		for k, v := range s.mem {
			if k.Op == OIndexAddr && k.Args[0] == a.Args[0] && s.is(tEqInt(k.Args[1], a.Args[1])) {
				return v
			}
		}
		if p := pointee(a.Args[0]); p != nil {
			if _, ok := under(p).(*types.Array); ok {
				if v, ok := s.mem[a.Args[0]]; ok && v.Op != OZero {
					return mk(Term{Op: OIndex, Args: []*Term{v, a.Args[1]}, T: ty})
				}
			}
		}
	}
	root := rootOf(a)
	ep := s.epochOf(a)
	if root.Op == OObj {
		if _, dirty := s.unk[root]; !dirty {
			if ep == nil {
				return zeroOf(ty)
			}
		}
	}
	// byte contents
	if b, ok := under(ty).(*types.Basic); ok && b.Kind() == types.Uint8 && a.Op == OIndexAddr && ep == nil {
		return tBytes(a.Args[0], a.Args[1], 1)
	}
	args := []*Term{a}
	if ep != nil {
		args = append(args, ep)
	}
	return mk(Term{Op: OInit, Args: args, T: ty})
}

// opaqueStruct types are handled as atoms.
func opaqueStruct(t types.Type) bool {
	n := namedOf(t)
	if n == nil || n.Obj().Pkg() == nil {
		return false
	}
	return !inModPath(n.Obj().Pkg().Path()) && n.Obj().Pkg().Path() != "encoding/xml"
}

// epochOf the unknown contents of a location; nil is the initial one.
func (s *State) epochOf(a *Term) *Term {
	root := rootOf(a)
	if root.Op == OObj {
		if l := s.esc[root]; l != "" {
			// stores through other names
			if c := class(a); strings.Contains(l, ";"+c+";") {
				return s.epoch[c]
			}
		}
		if e, ok := s.unk[root]; ok {
			return e
		}
		if a.Op == OIndexAddr || a.Op == OMapSlot {
			// overlapping stores to other indexes were dropped
			if e := s.epoch["o"+strconv.Itoa(a.Args[0].id)]; e != nil {
				return e
			}
		}
		return nil
	}
	return s.epoch[class(a)]
}

// store writes a location; at names the new contents of the others it may change.
func (s *State) store(a, v *Term, site *Term) {
	ty := pointee(a)
	if st, ok := under(ty).(*types.Struct); ok && !opaqueStruct(ty) {
		for i := 0; i < st.NumFields(); i++ {
			s.store(tFieldAddr(a, i, types.NewPointer(st.Field(i).Type())), fieldOf(v, i, st.Field(i).Type()), site)
		}
		return
	}
	if _, ok := under(ty).(*types.Array); ok {
		// drop the elements
		for k := range s.mem {
			if k != a && underAddr(k, a) {
				delete(s.mem, k)
			}
		}
	}
	s.invalidate(a, site)
	s.mem[a] = v
	s.escape(v)
}

func underAddr(k, a *Term) bool {
	for k.Op == OFieldAddr || k.Op == OIndexAddr || k.Op == OMapSlot {
		k = k.Args[0]
		if k == a {
			return true
		}
	}
	return false
}

// invalidate what a store to a may change.
func (s *State) invalidate(a, site *Term) {
	root := rootOf(a)
	fresh := root.Op == OObj
	bump := false
	for k := range s.mem {
		if k == a || s.disjoint(k, a) {
			continue
		}
		if rk := rootOf(k); rk != root && (s.private(rk) || s.private(root)) {
			continue
		} else if rk == root {
			bump = true
		}
		// the same location under another name
		delete(s.mem, k)
	}
	if fresh && (a.Op == OIndexAddr || a.Op == OMapSlot) && (bump || !constIndex(a)) {
		s.epoch["o"+strconv.Itoa(a.Args[0].id)] = site
	}
	if !s.private(root) {
		if fresh && s.unk[root] != nil && (a.Op == OIndexAddr || a.Op == OMapSlot) && (bump || !constIndex(a)) {
			root = nil // its unknown contents as well
		}
		s.changed(class(a), root, site)
	}
}

// changed: the locations of the class have new contents under names other
// than the root.
func (s *State) changed(c string, root, site *Term) {
	s.epoch[c] = site
	for o, l := range s.esc {
		if o != root && !strings.Contains(l, ";"+c+";") && o.mayHold(c) {
			parts := append(strings.FieldsFunc(l, func(r rune) bool { return r == ';' }), c)
			sort.Strings(parts)
			s.esc[o] = ";" + strings.Join(parts, ";") + ";"
		}
	}
}

// mayHold: an object can have a location of the class.
func (o *Term) mayHold(c string) bool {
	t := o.T
	if t == nil {
		return true
	}
	if _, ok := under(t).(*types.Map); ok {
		return c == "m"+typeKey(t)
	}
	if c[0] == 'm' {
		return false
	}
	p, ok := under(t).(*types.Pointer)
	if !ok {
		if sl, ok := under(t).(*types.Slice); ok {
			p = types.NewPointer(types.NewArray(sl.Elem(), 1))
		} else {
			return true
		}
	}
	var rec func(t types.Type, d int) bool
	rec = func(t types.Type, d int) bool {
		if d > 4 {
			return true
		}
		if c == "p"+typeKey(t) {
			return true
		}
		switch u := under(t).(type) {
		case *types.Struct:
			if strings.HasPrefix(c, "f"+typeKey(t)+".") {
				return true
			}
			for i := 0; i < u.NumFields(); i++ {
				if rec(u.Field(i).Type(), d+1) {
					return true
				}
			}
		case *types.Array:
			return c == "e"+typeKey(u.Elem()) || rec(u.Elem(), d+1)
		}
		return false
	}
	return rec(p.Elem(), 0)
}

// private objects have no name but their own: no pointer read from elsewhere
// can refer to them.
func (s *State) private(o *Term) bool {
	if o.Op != OObj || s.unk[o] != nil {
		return false
	}
	_, ok := s.esc[o]
	return !ok
}

// escape: pointers in a value become known elsewhere.
func (s *State) escape(v *Term) {
	if v == nil {
		return
	}
	switch v.Op {
	case OObj:
		if _, ok := s.esc[v]; !ok {
			if s.esc == nil {
				s.esc = map[*Term]string{}
			}
			s.esc[v] = ""
			// and what it refers to
			for a, e := range s.mem {
				if rootOf(a) == v {
					s.escape(e)
				}
			}
		}
	case OFieldAddr, OIndexAddr, OSlice, OMapSlot:
		s.escape(rootOf(v))
	case OIface, OStruct, OTuple, OAppend, OAppendS, OClosure, OConv, OAssert:
		for _, e := range v.Args {
			s.escape(e)
		}
	}
}

func constIndex(a *Term) bool { return a.Args[1].isConst() }

func fieldOf(v *Term, i int, ty types.Type) *Term {
	if v.Op == OStruct && i < len(v.Args) {
		return v.Args[i]
	}
	if v.Op == OZero {
		return zeroOf(ty)
	}
	return mk(Term{Op: OField, Args: []*Term{v}, I: int64(i), T: ty})
}

// setUnknown: the contents of the object were changed by unknown code.
func (s *State) setUnknown(o, site *Term) {
	s.unk[o] = site
	if s.esc == nil {
		s.esc = map[*Term]string{}
	}
	s.esc[o] = ""
}

// havoc marks everything reachable from the values as changed by unknown code.
func (s *State) havoc(vals []*Term, site *Term) {
	seen := map[*Term]bool{}
	var work []*Term
	push := func(t *Term) {
		if t == nil {
			return
		}
		t.anySub(func(x *Term) bool {
			if seen[x] {
				return true
			}
			return false
		})
		work = append(work, t)
	}
	for _, v := range vals {
		push(v)
	}
	for len(work) > 0 {
		v := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[v] {
			continue
		}
		seen[v] = true
		switch v.Op {
		case OObj, OGlobal, OFieldAddr, OIndexAddr:
			for k, x := range s.mem {
				if k == v || underAddr(k, v) {
					work = append(work, x)
					delete(s.mem, k)
				}
			}
			if v.Op == OObj {
				s.setUnknown(v, site)
			} else if rootOf(v).Op == OObj {
				s.setUnknown(rootOf(v), site) // coarse
				for k, x := range s.mem {
					if rootOf(k) == rootOf(v) && (k == v || underAddr(k, v)) {
						work = append(work, x)
						delete(s.mem, k)
					}
				}
			} else {
				s.bumpUnder(v, site)
			}
		case OIface, OSlice, OStruct, OTuple, OAppend, OAppendS, OClosure:
			work = append(work, v.Args...)
		case OSym, OInit:
			// unknown pointer: its fields
			if p := pointee(v); p != nil {
				s.bumpUnder(v, site)
			} else if sl, ok := under(v.T).(*types.Slice); ok {
				s.changed("e"+typeKey(sl.Elem()), v, site)
				for k := range s.mem {
					if rootOf(k) == v || k.Op == OIndexAddr && s.esc[rootOf(k)] != "" && class(k) == "e"+typeKey(sl.Elem()) {
						delete(s.mem, k)
					}
				}
			}
		}
	}
}

func (s *State) bumpUnder(v, site *Term) {
	for k := range s.mem {
		if k == v || underAddr(k, v) {
			delete(s.mem, k)
		}
	}
	var rec func(t types.Type, a *Term, d int)
	rec = func(t types.Type, a *Term, d int) {
		if st, ok := under(t).(*types.Struct); ok && d < 3 && !opaqueStruct(t) {
			for i := 0; i < st.NumFields(); i++ {
				rec(st.Field(i).Type(), tFieldAddr(a, i, types.NewPointer(st.Field(i).Type())), d+1)
			}
			return
		}
		c := class(a)
		s.changed(c, rootOf(v), site)
		for k := range s.mem {
			if _, ok := s.esc[rootOf(k)]; ok && rootOf(k) != rootOf(v) && class(k) == c {
				delete(s.mem, k)
			}
		}
	}
	if p := pointee(v); p != nil {
		rec(p, v, 0)
	}
}

// ---- canonical form

// key identifies the state restricted to live values; it also prunes the rest.
func (x *Exec) key(s *State, block *ssa.BasicBlock) string {
	x.prune(s, block)
	var b strings.Builder
	for f := s.fr; f != nil; f = f.parent {
		b.WriteString(strconv.Itoa(f.ctx.id))
		if f == s.fr {
			b.WriteByte('b')
			b.WriteString(strconv.Itoa(block.Index))
		}
		if f.panicking {
			b.WriteByte('!')
		}
		if f.recovered {
			b.WriteByte('~')
		}
		if f.draining {
			b.WriteByte('^')
		}
		type kv struct {
			n int
			t *Term
		}
		var l []kv
		for v, t := range f.regs {
			l = append(l, kv{x.valueID(v), t})
		}
		sort.Slice(l, func(i, j int) bool { return l[i].n < l[j].n })
		for _, e := range l {
			fmt.Fprintf(&b, " %d=%d", e.n, e.t.id)
		}
		for _, d := range f.defers {
			fmt.Fprintf(&b, " d%p", d.at)
			for _, a := range d.args {
				fmt.Fprintf(&b, ",%d", a.id)
			}
		}
		b.WriteByte(';')
	}
	ids := make([]int, 0, len(s.mem)*2)
	m := map[int]int{}
	for k, v := range s.mem {
		ids = append(ids, k.id)
		m[k.id] = v.id
	}
	sort.Ints(ids)
	for _, i := range ids {
		fmt.Fprintf(&b, "[%d:%d]", i, m[i])
	}
	b.WriteString("E")
	writeStrMap(&b, s.epoch)
	b.WriteString("U")
	ids = ids[:0]
	for k, v := range s.unk {
		ids = append(ids, k.id)
		m[k.id] = v.id
	}
	sort.Ints(ids)
	for _, i := range ids {
		fmt.Fprintf(&b, "[%d:%d]", i, m[i])
	}
	b.WriteString("S")
	ids = ids[:0]
	em := map[int]string{}
	for k, v := range s.esc {
		ids = append(ids, k.id)
		em[k.id] = v
	}
	sort.Ints(ids)
	for _, i := range ids {
		fmt.Fprintf(&b, "[%d:%s]", i, em[i])
	}
	b.WriteString("G")
	writeStrMap(&b, s.ghost)
	b.WriteString("F")
	for _, f := range s.facts.sorted() {
		fmt.Fprintf(&b, "%d,", f.id)
	}
	return b.String()
}

func writeStrMap(b *strings.Builder, m map[string]*Term) {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		b.WriteString(k)
		b.WriteByte('=')
		b.WriteString(strconv.Itoa(m[k].id))
		b.WriteByte(' ')
	}
}

// prune drops dead registers, unreachable memory and facts about dead values.
func (x *Exec) prune(s *State, block *ssa.BasicBlock) {
	live := map[*Term]bool{}
	var work []*Term
	add := func(t *Term) {
		if t == nil {
			return
		}
		for _, y := range t.symbols() {
			if !live[y] {
				live[y] = true
				work = append(work, y)
			}
		}
	}
	for f := s.fr; f != nil; f = f.parent {
		var lv map[ssa.Value]bool
		if f == s.fr {
			lv = x.live(f.ctx.Fn).in[block]
		} else {
			lv = nil
		}
		for v, t := range f.regs {
			if f == s.fr && !lv[v] {
				if _, isPhi := v.(*ssa.Phi); !(isPhi && v.(*ssa.Phi).Block() == block) {
					delete(f.regs, v)
					continue
				}
			}
			add(t)
		}
		for _, d := range f.defers {
			add(d.fn)
			for _, a := range d.args {
				add(a)
			}
		}
	}
	for _, g := range s.ghost {
		add(g)
	}
	for _, r := range x.Roots {
		add(r)
	}
	// globals and what unknown memory holds
	for k, v := range s.mem {
		if rootOf(k).Op == OGlobal {
			add(v)
			add(k)
		}
	}
	for len(work) > 0 {
		y := work[len(work)-1]
		work = work[:len(work)-1]
		for k, v := range s.mem {
			for _, r := range k.symbols() {
				if r == y {
					add(v)
					add(k)
				}
			}
		}
	}
	for k := range s.mem {
		r := rootOf(k)
		if r.Op == OGlobal {
			continue
		}
		ok := false
		for _, y := range r.symbols() {
			if live[y] {
				ok = true
			}
		}
		if !ok {
			delete(s.mem, k)
		}
	}
	for k := range s.unk {
		if !live[k] {
			delete(s.unk, k)
		}
	}
	for k := range s.esc {
		if !live[k] {
			delete(s.esc, k)
		}
	}
	for k := range s.epoch {
		if k[0] == 'o' {
			// of an object's elements
			id, _ := strconv.Atoi(k[1:])
			found := false
			for y := range live {
				if y.id == id {
					found = true
				}
			}
			if !found && x.objIDs[id] {
				delete(s.epoch, k)
			}
		}
	}
	cur := map[*Term]bool{}
	for _, e := range s.epoch {
		cur[e] = true
	}
	for _, e := range s.unk {
		cur[e] = true
	}
	s.facts = s.facts.filter(func(f *Term) bool {
		any := false
		for _, y := range f.symbols() {
			if y.Op == OSym && y.I == 1 { // an epoch
				if !cur[y] && !live[y] {
					return false
				}
				continue
			}
			if live[y] {
				any = true
			}
		}
		return any || len(f.symbols()) == 0
	})
}
