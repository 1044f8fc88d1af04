package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// CallEvent describes a call about to happen.
type CallEvent struct {
	Name  string        // full name of a static callee or interface method
	Fn    *ssa.Function // static callee, if known
	Fv    *Term         // dynamic function value, if any
	Args  []*Term       // including the receiver
	Instr ssa.Instruction
	Frame *FrameCtx
	Sig   *types.Signature
	Kind  string // "", "defer", "go"
	Com   *ssa.CallCommon
}

// Outcome is one possible effect of a call.
type Outcome struct {
	Res    *Term // a tuple for several results
	Assume []*Term
	Do     func(*State)
	Panic  bool
	Stop   bool // the path ends here
}

// Hooks customise the analysis.
type Hooks struct {
	Call     func(x *Exec, s *State, ev *CallEvent) ([]Outcome, bool)
	Store    func(x *Exec, s *State, addr, val *Term, at ssa.Instruction)
	Load     func(x *Exec, s *State, addr *Term, at ssa.Instruction)
	MapSet   func(x *Exec, s *State, m, k, v *Term, at ssa.Instruction)
	Oblig    func(x *Exec, s *State, kind string, cond *Term, at ssa.Instruction) (fork bool)
	Return   func(x *Exec, s *State, res []*Term, at ssa.Instruction)
	Panic    func(x *Exec, s *State, at ssa.Instruction)
	Inline   func(x *Exec, s *State, fn *ssa.Function) bool
	BackEdge func(x *Exec, s *State, header *ssa.BasicBlock, inLoop func(*Term) bool, old, nw map[*ssa.Phi]*Term)
	FnReturn func(x *Exec, s *State, fn *ssa.Function, res []*Term, at ssa.Instruction)
	MakeLen  func(x *Exec, s *State, what string, n *Term, at ssa.Instruction)
	Widened  func(x *Exec, s *State, header *ssa.BasicBlock)
	Edge     func(x *Exec, s *State, from, to *ssa.BasicBlock)
	ExtModel func(x *Exec, s *State, ev *CallEvent) ([]Outcome, bool)
	Global   func(x *Exec, s *State, g *ssa.Global) *Term                           // value of a global, or nil
	Append   func(x *Exec, s *State, base *Term, elems []*Term, at ssa.Instruction) // elems nil: unknown
	Send     func(x *Exec, s *State, ch ssa.Value, val *Term, at ssa.Instruction)
	Recv     func(x *Exec, s *State, ch ssa.Value, ty types.Type, ok bool, at ssa.Instruction) *Term
	MaxConst int
	Head     func(x *Exec, s *State, header *ssa.BasicBlock)         // an iteration begins
	JoinAt   func(s *State, blk *ssa.BasicBlock) (string, int, bool) // what has to be kept apart at a block, number of states
	KeepVal  func(addr *Term, v *Term) bool                          // values which are not generalised by widening (addr nil: of a register)
}

// Exec is a path sensitive dataflow analysis of a call tree.
type Exec struct {
	P          *Prog
	H          Hooks
	Roots      []*Term
	ctxs       map[string]*FrameCtx
	lives      map[*ssa.Function]*liveSets
	loopsOf    map[*ssa.Function]*loopForest
	seen       map[string]bool
	work       []item
	loopC      map[string]map[string]map[*Term]bool
	valIDs     map[ssa.Value]int
	objIDs     map[int]bool
	steps      int
	Max        int
	Over       bool // gave up
	cur        ssa.Instruction
	constG     map[*ssa.Global]*Term
	Paths      int
	Visited    map[*ssa.BasicBlock]bool
	Funcs      map[*ssa.Function]bool
	nHead      map[string]int
	headName   map[string]string
	joins      map[string]*State
	NonNilElem func(types.Type) bool // slice elements of the type are never nil
	JoinAt     int                   // number of states kept apart at a block
	Joined     int
	pend       []pending
	dirty      map[string]bool
	visits     map[*ssa.BasicBlock]int
	JoinHeads  bool // join at loop headers only
	KeepPhis   bool // integer loop variables stay known inside of their loops
	KeepLists  bool // so do strings and slices
	KeepFlags  bool // so do flags
	Unroll     int  // loops whose next iteration is decided are followed up to this many times
}

type pending struct {
	jk  string
	blk *ssa.BasicBlock
}

type item struct {
	s    *State
	blk  *ssa.BasicBlock
	idx  int
	prev *ssa.BasicBlock
}

func NewExec(p *Prog, h Hooks) *Exec {
	x := &Exec{P: p, H: h, ctxs: map[string]*FrameCtx{}, lives: map[*ssa.Function]*liveSets{},
		loopsOf: map[*ssa.Function]*loopForest{}, seen: map[string]bool{}, dirty: map[string]bool{}, loopC: map[string]map[string]map[*Term]bool{},
		valIDs: map[ssa.Value]int{}, objIDs: map[int]bool{}, Max: 3000000, constG: map[*ssa.Global]*Term{},
		Visited: map[*ssa.BasicBlock]bool{}, Funcs: map[*ssa.Function]bool{}, nHead: map[string]int{}, headName: map[string]string{}, joins: map[string]*State{}}
	return x
}

func (x *Exec) valueID(v ssa.Value) int {
	n, ok := x.valIDs[v]
	if !ok {
		n = len(x.valIDs) + 1
		x.valIDs[v] = n
	}
	return n
}

func (x *Exec) ctx(parent *FrameCtx, call ssa.Instruction, fn *ssa.Function) *FrameCtx {
	pid := 0
	d := 0
	if parent != nil {
		pid = parent.id
		d = parent.Depth + 1
	}
	k := fmt.Sprintf("%d/%p/%p", pid, call, fn)
	c, ok := x.ctxs[k]
	if !ok {
		nCtx++
		c = &FrameCtx{Fn: fn, Parent: parent, Call: call, Depth: d, id: nCtx}
		x.ctxs[k] = c
	}
	return c
}

// sym makes the unknown value of a site.
func (x *Exec) sym(s *State, at ssa.Instruction, what string, ty types.Type, args ...*Term) *Term {
	ctx := s.fr.ctx
	name := fmt.Sprintf("%s#%d@%d", what, x.instrID(at), ctx.id)
	t := mk(Term{Op: OSym, S: name, T: ty})
	if t.Site == nil {
		var blk *ssa.BasicBlock
		if at != nil {
			blk = at.Block()
		}
		t.Site = &Site{Frame: ctx, Instr: at, Block: blk, What: what, Args: args}
	}
	return t
}

// epochSym names contents written by unknown code.
func (x *Exec) epochSym(s *State, at ssa.Instruction, what string) *Term {
	ctx := s.fr.ctx
	name := fmt.Sprintf("~%s#%d@%d", what, x.instrID(at), ctx.id)
	t := mk(Term{Op: OSym, S: name, I: 1})
	if t.Site == nil {
		t.Site = &Site{Frame: ctx, Instr: at, Block: at.Block(), What: what}
	}
	return t
}

func (x *Exec) obj(s *State, at ssa.Instruction, what string, ty types.Type) *Term {
	ctx := s.fr.ctx
	name := fmt.Sprintf("%s#%d@%d", what, x.instrID(at), ctx.id)
	t := mk(Term{Op: OObj, S: name, T: ty})
	if t.Site == nil {
		t.Site = &Site{Frame: ctx, Instr: at, Block: at.Block(), What: what}
	}
	x.objIDs[t.id] = true
	return t
}

var nCtx int // frame numbers are unique among all analyses: symbols are named by them

var instrIDs = map[ssa.Instruction]int{}

func (x *Exec) instrID(i ssa.Instruction) int {
	if i == nil {
		return 0
	}
	n, ok := instrIDs[i]
	if !ok {
		n = len(instrIDs) + 1
		instrIDs[i] = n
	}
	return n
}

// Start prepares the analysis of a function with unknown parameters.
func (x *Exec) Start(fn *ssa.Function) *State {
	s := &State{mem: map[*Term]*Term{}, epoch: map[string]*Term{}, unk: map[*Term]*Term{}, ghost: map[string]*Term{}, facts: noFacts}
	s.fr = &Frame{ctx: x.ctx(nil, nil, fn), regs: map[ssa.Value]*Term{}}
	for i, p := range fn.Params {
		t := mk(Term{Op: OSym, S: fmt.Sprintf("%s$%d@%d", p.Name(), i, s.fr.ctx.id), T: p.Type()})
		if t.Site == nil {
			t.Site = &Site{Frame: s.fr.ctx, What: "param"}
		}
		s.fr.regs[p] = t
		x.Roots = append(x.Roots, t)
	}
	for i, p := range fn.FreeVars {
		t := mk(Term{Op: OSym, S: fmt.Sprintf("%s$fv%d@%d", p.Name(), i, s.fr.ctx.id), T: p.Type()})
		if t.Site == nil {
			t.Site = &Site{Frame: s.fr.ctx, What: "freevar"}
		}
		s.fr.regs[p] = t
		x.Roots = append(x.Roots, t)
	}
	return s
}

// Param is the symbol of a parameter of the started function.
func (s *State) param(i int) *Term { return s.fr.regs[s.fr.ctx.Fn.Params[i]] }

// Run analyses all of the paths from the entry of the started function.
func (x *Exec) Run(s *State) {
	x.push(item{s, s.fr.ctx.Fn.Blocks[0], 0, nil})
	for len(x.work) > 0 || len(x.pend) > 0 {
		if len(x.work) == 0 {
			p := x.pend[0]
			x.pend = x.pend[1:]
			delete(x.dirty, p.jk)
			x.push(item{x.joins[p.jk].clone(), p.blk, 0, nil})
		}
		it := x.work[len(x.work)-1]
		x.work = x.work[:len(x.work)-1]
		x.exec(it)
		if x.steps > x.Max {
			x.Over = true
			x.work, x.pend = nil, nil
			return
		}
	}
}

func (x *Exec) push(it item) { x.work = append(x.work, it) }

// jump enters a block of the current frame.
func (x *Exec) jump(s *State, from, to *ssa.BasicBlock) {
	if x.H.Edge != nil {
		x.H.Edge(x, s, from, to)
	}
	// simultaneous assignment of the phis
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
		}
	}
	type pv struct {
		p *ssa.Phi
		v *Term
	}
	var vals []pv
	for _, in := range to.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		v := x.val(s, p.Edges[pi])
		if b, ok := under(p.Type()).(*types.Basic); ok && b.Kind() == types.Bool && !v.isConst() {
			// what is known about a condition is known here
			if s.is(v) {
				v = tBool(true)
			} else if s.isNot(v) {
				v = tBool(false)
			}
		}
		if types.Identical(p.Type(), tErrType) && !v.isConst() && s.nilness(v) == True {
			v = tNil(tErrType)
		}
		vals = append(vals, pv{p, v})
	}
	lf := x.loops(s.fr.ctx.Fn)
	unrolled := false
	if l := lf.byHeader[to]; l != nil && l.body[from] {
		old := map[*ssa.Phi]*Term{}
		nw := map[*ssa.Phi]*Term{}
		for _, e := range vals {
			old[e.p] = s.fr.regs[e.p]
			nw[e.p] = e.v
		}
		if unrolled = x.unrolls(s, l, nw); !unrolled {
			x.widen(s, l, old, nw)
		} else {
			for _, e := range vals {
				s.fr.regs[e.p] = e.v
			}
		}
	} else {
		for _, e := range vals {
			s.fr.regs[e.p] = e.v
		}
	}
	if len(to.Preds) > 1 || lf.byHeader[to] != nil {
		if !unrolled && !x.admit(s, to) {
			return
		}
	}
	x.push(item{s, to, 0, from})
}

// admit decides whether a state at a block needs to be analysed; beyond a
// number of states they are joined.
func (x *Exec) admit(s *State, to *ssa.BasicBlock) bool {
	k := x.key(s, to)
	if x.seen[k] {
		return false
	}
	x.seen[k] = true
	jk := x.joinKey(s, to)
	own, ownLim, hasOwn := "", 0, false
	if x.H.JoinAt != nil {
		if own, ownLim, hasOwn = x.H.JoinAt(s, to); hasOwn {
			jk += "|" + own
		}
	}
	x.nHead[jk]++
	if x.nHead[jk] == 1 {
		x.headName[jk] = fmt.Sprintf("%s b%d %s", s.fr.ctx, to.Index, x.P.blockPos(to))
	}
	lim := x.JoinAt
	if lim == 0 {
		lim = 30
	}
	if hasOwn {
		lim = ownLim
	}
	if x.nHead[jk] <= lim || x.JoinHeads && x.loops(s.fr.ctx.Fn).byHeader[to] == nil {
		return true
	}
	j := x.joins[jk]
	if j == nil {
		x.joins[jk] = s.clone()
		if !hasOwn {
			return true
		}
		x.dirty[jk] = true
		x.pend = append(x.pend, pending{jk, to})
		return false
	}
	x.Joined++
	if !x.join(j, s, to) {
		return false
	}
	if hasOwn {
		// several changes are followed together
		if !x.dirty[jk] {
			x.dirty[jk] = true
			x.pend = append(x.pend, pending{jk, to})
		}
		return false
	}
	c := j.clone()
	*s = *c
	s.trail = j.trail
	return true
}

// val evaluates an operand.
func (x *Exec) val(s *State, v ssa.Value) *Term {
	switch c := v.(type) {
	case *ssa.Const:
		return constTerm(c)
	case *ssa.Global:
		return mk(Term{Op: OGlobal, G: c, T: c.Type()})
	case *ssa.Function:
		return mk(Term{Op: OFunc, G: c, T: c.Type()})
	case *ssa.Builtin:
		return mk(Term{Op: OFunc, S: c.Name(), G: c})
	}
	if t, ok := s.fr.regs[v]; ok {
		return t
	}
	panic(fmt.Sprintf("no value for %s in %s (%s)", v.Name(), s.fr.ctx.Fn, x.P.Pos(v.Pos())))
}

func constTerm(c *ssa.Const) *Term {
	if c.Value == nil {
		return zeroOf(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Int:
		if isBasic(c.Type(), types.IsFloat) {
			return mk(Term{Op: OConst, C: constant.ToFloat(c.Value), T: types.Typ[types.Float64]})
		}
		if n, ok := constant.Int64Val(c.Value); ok {
			return tInt(n)
		}
		return mk(Term{Op: OConst, C: c.Value, T: c.Type()})
	case constant.Bool:
		return tBool(constant.BoolVal(c.Value))
	case constant.String:
		return tStr(constant.StringVal(c.Value))
	case constant.Float:
		return mk(Term{Op: OConst, C: c.Value, T: types.Typ[types.Float64]})
	}
	return mk(Term{Op: OConst, C: c.Value, T: c.Type()})
}

func (x *Exec) exec(it item) {
	s, blk := it.s, it.blk
	x.Visited[blk] = true
	x.Funcs[blk.Parent()] = true
	if x.visits != nil {
		x.visits[blk]++
	}
	if it.idx == 0 && x.H.Head != nil && x.loops(s.fr.ctx.Fn).byHeader[blk] != nil {
		x.H.Head(x, s, blk)
	}
	for i := it.idx; i < len(blk.Instrs); i++ {
		x.steps++
		if s.dead {
			return
		}
		in := blk.Instrs[i]
		x.cur = in
		switch v := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			// done at the jump
		case *ssa.Jump:
			x.jump(s, blk, blk.Succs[0])
			return
		case *ssa.If:
			c := x.val(s, v.Cond)
			switch s.facts.eval(c) {
			case True:
				x.jump(s, blk, blk.Succs[0])
			case False:
				x.jump(s, blk, blk.Succs[1])
			default:
				t := s.clone()
				if t.assume(tNot(c)) {
					t.decide(x.P.InstrPos(in), c, false)
					x.jump(t, blk, blk.Succs[1])
				}
				if s.assume(c) {
					s.decide(x.P.InstrPos(in), c, true)
					x.jump(s, blk, blk.Succs[0])
				}
			}
			return
		case *ssa.Return:
			var res []*Term
			for _, r := range v.Results {
				res = append(res, x.val(s, r))
			}
			x.doReturn(s, res, in)
			return
		case *ssa.Panic:
			s.note(x.P.InstrPos(in), "panic")
			x.unwind(s, in)
			return
		case *ssa.RunDefers:
			f := s.fr
			if n := len(f.defers); n > 0 {
				d := f.defers[n-1]
				f.defers = f.defers[:n-1]
				x.call(s, blk, i, in, d.call, d.fn, d.args, "defer", d.at)
				return
			}
		case *ssa.Defer:
			fn, args := x.callOperands(s, &v.Call)
			s.fr.defers = append(s.fr.defers, deferred{&v.Call, fn, args, in})
		case *ssa.Go:
			fn, args := x.callOperands(s, &v.Call)
			if x.H.Call != nil {
				ev := x.event(s, &v.Call, fn, args, in, "go")
				if outs, ok := x.H.Call(x, s, ev); ok {
					for _, o := range outs {
						if o.Do != nil {
							o.Do(s)
						}
						if o.Stop {
							return
						}
					}
				}
			}
		case *ssa.Call:
			fn, args := x.callOperands(s, &v.Call)
			x.call(s, blk, i, in, &v.Call, fn, args, "", in)
			return
		case *ssa.Store:
			a := x.val(s, v.Addr)
			if !x.oblig(s, "nil dereference", tNonNil(s, a), in) {
				return
			}
			val := x.val(s, v.Val)
			if x.H.Store != nil {
				x.H.Store(x, s, a, val, in)
			}
			s.store(a, val, x.epochSym(s, in, "store"))
		case *ssa.MapUpdate:
			m, k, val := x.val(s, v.Map), x.val(s, v.Key), x.val(s, v.Value)
			if !x.oblig(s, "assignment to nil map", tNonNil(s, m), in) {
				return
			}
			if x.H.MapSet != nil {
				x.H.MapSet(x, s, m, k, val, in)
			}
			slot := mk(Term{Op: OMapSlot, Args: []*Term{m, k}, T: v.Map.Type()})
			s.store(slot, val, x.epochSym(s, in, "mapstore"))
			s.ghostMap(m, k, x.epochSym(s, in, "maphas"))
		case *ssa.Send, *ssa.Select:
			if v, ok := in.(*ssa.Send); ok && x.H.Send != nil {
				if x.H.Send(x, s, v.Chan, x.val(s, v.X), in); s.dead {
					return
				}
			}
			if val, ok := in.(ssa.Value); ok {
				s.fr.regs[val] = x.fresh(s, in, "select", val.Type())
			}
		case *ssa.TypeAssert:
			if x.typeAssert(s, v, blk, i) {
				return
			}
		default:
			val, ok := in.(ssa.Value)
			if !ok {
				continue
			}
			t, ok := x.eval(s, in, val)
			if !ok {
				return
			}
			s.fr.regs[val] = t
		}
	}
}

func (s *State) decide(pos string, c *Term, val bool) {
	n := 0
	if s.trail != nil {
		n = s.trail.n + 1
	}
	if !val {
		c = tNot(c)
	}
	s.trail = &Trail{s.trail, c.String(), pos, n}
}

func tNonNil(s *State, a *Term) *Term {
	if definitelyNonNil(a) {
		return tBool(true)
	}
	return tNot(tEq(a, tNil(a.T), nil))
}

// ghostMap remembers that a key is in a map.
func (s *State) ghostMap(m, k, site *Term) {
	s.assumeQuiet(mk(Term{Op: OMapHas, Args: []*Term{m, k}, T: types.Typ[types.Bool]}))
}

func (s *State) assumeQuiet(t *Term) {
	if f, ok := s.facts.assume(t); ok {
		s.facts = f
	}
}

// oblig handles a condition whose violation panics; false ends the path.
func (x *Exec) oblig(s *State, kind string, cond *Term, at ssa.Instruction) bool {
	r := s.facts.eval(cond)
	if r == True {
		if x.H.Oblig != nil {
			x.H.Oblig(x, s, kind, tBool(true), at)
		}
		return true
	}
	fork := false
	if x.H.Oblig != nil {
		fork = x.H.Oblig(x, s, kind, cond, at)
	}
	if r == False {
		s.note(x.P.InstrPos(at), kind)
		x.unwind(s, at)
		return false
	}
	if fork {
		t := s.clone()
		t.assumeQuiet(tNot(cond))
		t.note(x.P.InstrPos(at), kind)
		x.unwind(t, at)
	}
	s.assumeQuiet(cond)
	return true
}

func (x *Exec) callOperands(s *State, c *ssa.CallCommon) (*Term, []*Term) {
	fn := x.val(s, c.Value)
	var args []*Term
	for _, a := range c.Args {
		args = append(args, x.val(s, a))
	}
	return fn, args
}

func (x *Exec) event(s *State, c *ssa.CallCommon, fn *Term, args []*Term, at ssa.Instruction, kind string) *CallEvent {
	ev := &CallEvent{Instr: at, Frame: s.fr.ctx, Sig: c.Signature(), Kind: kind, Com: c}
	if c.IsInvoke() {
		ev.Args = append([]*Term{fn}, args...)
		ev.Name = c.Method.FullName()
		recv := fn
		if recv.Op == OIface {
			if f := x.P.SSA.LookupMethod(recv.T, c.Method.Pkg(), c.Method.Name()); f != nil {
				ev.Fn = f
				ev.Name = f.String()
				ev.Args[0] = recv.Args[0]
			}
		} else {
			// known dynamic type
			for k := range s.facts.m {
				if k.Op == OIsType && k.Args[0] == recv {
					if _, isI := under(k.T).(*types.Interface); !isI {
						if f := x.P.SSA.LookupMethod(k.T, c.Method.Pkg(), c.Method.Name()); f != nil {
							ev.Fn = f
							ev.Name = f.String()
							ev.Args[0] = tAssert(recv, k.T)
						}
					}
				}
			}
		}
		return ev
	}
	ev.Args = args
	ev.Fv = fn
	switch fn.Op {
	case OFunc:
		if f, ok := fn.G.(*ssa.Function); ok {
			ev.Fn = f
			ev.Name = f.String()
			if f.Origin() != nil {
				ev.Name = f.Origin().String()
			}
		} else {
			ev.Name = "builtin." + fn.S
		}
	case OClosure:
		ev.Fn = fn.G.(*ssa.Function)
		ev.Name = ev.Fn.String()
	default:
		ev.Name = "dynamic"
	}
	return ev
}

// call performs a call; the continuation is instruction idx of blk.
func (x *Exec) call(s *State, blk *ssa.BasicBlock, idx int, at ssa.Instruction, c *ssa.CallCommon, fn *Term, args []*Term, kind string, site ssa.Instruction) {
	ev := x.event(s, c, fn, args, site, kind)
	if x.H.Call != nil {
		if outs, ok := x.H.Call(x, s, ev); ok {
			x.finish(s, blk, idx, at, outs, site)
			return
		}
	}
	if strings.HasPrefix(ev.Name, "builtin.") {
		x.builtin(s, blk, idx, at, ev)
		return
	}
	f := ev.Fn
	if f != nil && f.Blocks == nil && f.Synthetic != "" {
		f = nil
	}
	if f != nil && len(f.Blocks) > 0 && x.P.inlinable(f) {
		rec := 0
		for p := s.fr.ctx; p != nil; p = p.Parent {
			if p.Fn == f {
				rec++
			}
		}
		if rec == 0 && s.fr.ctx.Depth < 24 && (x.H.Inline == nil || x.H.Inline(x, s, f)) {
			x.enter(s, blk, idx, ev, f, site)
			return
		}
	}
	if x.H.ExtModel != nil {
		if outs, ok := x.H.ExtModel(x, s, ev); ok {
			x.finish(s, blk, idx, at, outs, site)
			return
		}
	}
	x.finish(s, blk, idx, at, x.model(s, ev), site)
}

// inlinable functions: source of the repository (and synthetic wrappers of it).
func (p *Prog) inlinable(f *ssa.Function) bool {
	return p.InModule(f)
}

func (x *Exec) enter(s *State, blk *ssa.BasicBlock, idx int, ev *CallEvent, f *ssa.Function, site ssa.Instruction) {
	// the caller only keeps what it needs afterwards
	x.pruneCaller(s, blk, idx)
	nf := &Frame{ctx: x.ctx(s.fr.ctx, site, f), regs: map[ssa.Value]*Term{}, parent: s.fr}
	for i, p := range f.Params {
		if i < len(ev.Args) {
			nf.regs[p] = ev.Args[i]
		}
	}
	if ev.Fv != nil && ev.Fv.Op == OClosure {
		for i, p := range f.FreeVars {
			nf.regs[p] = ev.Fv.Args[i]
		}
	} else {
		for i, p := range f.FreeVars {
			nf.regs[p] = x.sym(s, site, fmt.Sprintf("fv%d", i), p.Type())
		}
	}
	s.fr.retBlk, s.fr.retIdx = blk, idx
	s.fr = nf
	if !x.admit(s, f.Blocks[0]) {
		return
	}
	x.push(item{s, f.Blocks[0], 0, nil})
}

// finish continues after a call that was not inlined.
func (x *Exec) finish(s *State, blk *ssa.BasicBlock, idx int, at ssa.Instruction, outs []Outcome, site ssa.Instruction) {
	for i, o := range outs {
		t := s
		if i < len(outs)-1 {
			t = s.clone()
		}
		ok := true
		for _, a := range o.Assume {
			if !t.assume(a) {
				ok = false
				break
			}
		}
		if !ok {
			continue
		}
		if o.Do != nil {
			o.Do(t)
		}
		if o.Stop {
			continue
		}
		if o.Panic {
			x.unwind(t, site)
			continue
		}
		x.resume(t, blk, idx, o.Res)
	}
}

// resume continues a frame after a call returned.
func (x *Exec) resume(s *State, blk *ssa.BasicBlock, idx int, res *Term) {
	if s.fr.panicking || s.fr.draining {
		x.unwindNext(s)
		return
	}
	in := blk.Instrs[idx]
	if c, ok := in.(*ssa.Call); ok {
		if res == nil {
			res = tTuple()
		}
		s.fr.regs[c] = res
		x.push(item{s, blk, idx + 1, nil})
		return
	}
	// RunDefers: look for more
	x.push(item{s, blk, idx, nil})
}

func (x *Exec) doReturn(s *State, res []*Term, at ssa.Instruction) {
	if x.H.FnReturn != nil {
		x.H.FnReturn(x, s, s.fr.ctx.Fn, res, at)
	}
	p := s.fr.parent
	if p == nil {
		x.Paths++
		if x.H.Return != nil {
			x.H.Return(x, s, res, at)
		}
		return
	}
	s.fr = p
	var r *Term
	switch len(res) {
	case 0:
		r = tTuple()
	case 1:
		r = res[0]
	default:
		r = tTuple(res...)
	}
	x.resume(s, p.retBlk, p.retIdx, r)
}

// unwind starts a panic in the current frame.
func (x *Exec) unwind(s *State, at ssa.Instruction) {
	s.fr.panicking, s.fr.draining = true, false
	s.fr.panicAt = at
	x.unwindNext(s)
}

func (x *Exec) unwindNext(s *State) {
	for {
		f := s.fr
		if f.recovered {
			// the remaining deferred calls run normally
			f.panicking, f.recovered, f.draining = false, false, true
		}
		if f.draining && len(f.defers) == 0 {
			f.draining = false
			rb := f.ctx.Fn.Recover
			if rb == nil {
				var res []*Term
				rt := f.ctx.Fn.Signature.Results()
				for i := 0; i < rt.Len(); i++ {
					res = append(res, zeroOf(rt.At(i).Type()))
				}
				x.doReturn(s, res, f.panicAt)
				return
			}
			x.push(item{s, rb, 0, nil})
			return
		}
		if n := len(f.defers); n > 0 {
			d := f.defers[n-1]
			f.defers = f.defers[:n-1]
			x.call(s, d.at.Block(), 0, d.at, d.call, d.fn, d.args, "defer", d.at)
			return
		}
		if f.parent == nil {
			x.Paths++
			if x.H.Panic != nil {
				x.H.Panic(x, s, f.panicAt)
			}
			return
		}
		at := f.panicAt
		s.fr = f.parent
		s.fr.panicking, s.fr.draining = true, false
		s.fr.panicAt = at
	}
}

// fresh makes unknown results of a type (a tuple for several).
func (x *Exec) fresh(s *State, at ssa.Instruction, what string, ty types.Type, args ...*Term) *Term {
	if tu, ok := ty.(*types.Tuple); ok {
		if tu.Len() == 1 {
			return x.sym(s, at, what, tu.At(0).Type(), args...)
		}
		var r []*Term
		for i := 0; i < tu.Len(); i++ {
			r = append(r, x.sym(s, at, what+"."+strconv.Itoa(i), tu.At(i).Type(), args...))
		}
		return tTuple(r...)
	}
	return x.sym(s, at, what, ty, args...)
}

func (x *Exec) typeAssert(s *State, v *ssa.TypeAssert, blk *ssa.BasicBlock, idx int) bool {
	a := x.val(s, v.X)
	is := tIsType(a, v.AssertedType)
	if !v.CommaOk {
		if !x.oblig(s, "type assertion", is, v) {
			return true
		}
		s.fr.regs[v] = tAssert(a, v.AssertedType)
		return false
	}
	yes := func(s *State) { s.fr.regs[v] = tTuple(tAssert(a, v.AssertedType), tBool(true)) }
	no := func(s *State) { s.fr.regs[v] = tTuple(zeroOf(v.AssertedType), tBool(false)) }
	switch s.facts.eval(is) {
	case True:
		yes(s)
	case False:
		no(s)
	default:
		t := s.clone()
		if t.assume(tNot(is)) {
			no(t)
			t.decide(x.P.InstrPos(v), is, false)
			x.push(item{t, blk, idx + 1, nil})
		}
		if s.assume(is) {
			if isI := types.IsInterface(v.AssertedType); isI {
				s.assumeQuiet(tNot(tEq(a, tNil(a.T), nil)))
			}
			yes(s)
			s.decide(x.P.InstrPos(v), is, true)
			x.push(item{s, blk, idx + 1, nil})
		}
		return true
	}
	return false
}

// eval computes the value of an instruction; false ends the path.
func (x *Exec) eval(s *State, in ssa.Instruction, val ssa.Value) (*Term, bool) {
	ty := val.Type()
	switch v := val.(type) {
	case *ssa.Alloc:
		o := x.obj(s, in, "new", v.Type())
		// executed again: forget the earlier instance
		if !x.inMem(s, o) {
			delete(s.unk, o)
		}
		delete(s.esc, o)
		for k := range s.mem {
			if rootOf(k) == o {
				delete(s.mem, k)
			}
		}
		delete(s.unk, o)
		delete(s.esc, o)
		delete(s.epoch, "o"+strconv.Itoa(o.id))
		return o, true
	case *ssa.BinOp:
		return x.binop(s, in, v), true
	case *ssa.UnOp:
		a := x.val(s, v.X)
		switch v.Op {
		case token.MUL:
			if g, ok := v.X.(*ssa.Global); ok {
				if t := x.global(s, g); t != nil {
					return t, true
				}
			}
			if !x.oblig(s, "nil dereference", tNonNil(s, a), in) {
				return nil, false
			}
			if x.H.Load != nil {
				x.H.Load(x, s, a, in)
			}
			t := s.load(a)
			if x.NonNilElem != nil && a.Op == OIndexAddr && s.nilness(t) == Unknown && x.NonNilElem(ty) {
				s.assumeQuiet(tNot(tEq(t, tNil(ty), nil)))
			}
			return t, true
		case token.SUB:
			if isInt(ty) && mathInt(ty) {
				return tMulK(a, -1), true
			}
			return mk(Term{Op: OUn, S: "-", Args: []*Term{a}, T: ty}), true
		case token.NOT:
			return tNot(a), true
		case token.ARROW:
			if x.H.Recv != nil {
				if t := x.H.Recv(x, s, v.X, ty, v.CommaOk, in); t != nil {
					return t, true
				}
			}
			return x.fresh(s, in, "recv", ty), true
		}
		return mk(Term{Op: OUn, S: v.Op.String(), Args: []*Term{a}, T: ty}), true
	case *ssa.ChangeInterface:
		return x.val(s, v.X), true
	case *ssa.ChangeType:
		return tConv(x.val(s, v.X), v.X.Type(), ty), true
	case *ssa.Convert:
		a := x.val(s, v.X)
		if isInt(v.X.Type()) && isInt(ty) {
			// a value known to fit is unchanged
			if bits, signed := intBits(ty); bits < 64 || !signed {
				lo := int64(0)
				var hi int64
				hasHi := bits < 63
				if signed {
					lo, hi = -(1 << uint(bits-1)), 1<<uint(bits-1)-1
				} else if hasHi {
					hi = 1<<uint(bits) - 1
				}
				if s.is(tLe(tInt(lo), a)) && (!hasHi || s.is(tLe(a, tInt(hi)))) {
					return a, true
				}
			}
		}
		return tConv(a, v.X.Type(), ty), true
	case *ssa.MultiConvert:
		return mk(Term{Op: OConv, Args: []*Term{x.val(s, v.X)}, T: ty}), true
	case *ssa.Extract:
		t := x.val(s, v.Tuple)
		if t.Op == OTuple && v.Index < len(t.Args) {
			return t.Args[v.Index], true
		}
		return mk(Term{Op: OField, Args: []*Term{t}, I: int64(v.Index), T: ty}), true
	case *ssa.Field:
		return fieldOf(x.val(s, v.X), v.Field, ty), true
	case *ssa.FieldAddr:
		a := x.val(s, v.X)
		if !x.oblig(s, "nil dereference", tNonNil(s, a), in) {
			return nil, false
		}
		return tFieldAddr(a, v.Field, ty), true
	case *ssa.Index:
		a, i := x.val(s, v.X), x.val(s, v.Index)
		if !x.bounds(s, i, tLen(a), in) {
			return nil, false
		}
		if str, ok := a.strConst(); ok {
			if n, ok := i.intConst(); ok && n >= 0 && n < int64(len(str)) {
				return tInt(int64(str[n])), true
			}
		}
		if isBytesOrString(v.X.Type()) {
			return tBytes(a, i, 1), true
		}
		return mk(Term{Op: OIndex, Args: []*Term{a, i}, T: ty}), true
	case *ssa.IndexAddr:
		a, i := x.val(s, v.X), x.val(s, v.Index)
		if _, isPtr := under(v.X.Type()).(*types.Pointer); isPtr {
			if !x.oblig(s, "nil dereference", tNonNil(s, a), in) {
				return nil, false
			}
		}
		if !x.bounds(s, i, tLen(a), in) {
			return nil, false
		}
		b, off := sliceParts(a)
		return tIndexAddr(b, tAdd(off, i), ty), true
	case *ssa.Lookup:
		a, k := x.val(s, v.X), x.val(s, v.Index)
		if _, isMap := under(v.X.Type()).(*types.Map); !isMap {
			if !x.bounds(s, k, tLen(a), in) {
				return nil, false
			}
			if str, ok := a.strConst(); ok {
				if n, ok := k.intConst(); ok && n >= 0 && n < int64(len(str)) {
					return tInt(int64(str[n])), true
				}
			}
			return tBytes(a, k, 1), true
		}
		slot := mk(Term{Op: OMapSlot, Args: []*Term{a, k}, T: v.X.Type()})
		has := mk(Term{Op: OMapHas, Args: x.mapEp(s, slot), T: types.Typ[types.Bool]})
		var val *Term
		if m, ok := s.mem[slot]; ok {
			val = m
			has = tBool(true)
		} else if a.Op == OObj && s.unk[a] == nil && s.epochOf(slot) == nil {
			val = zeroOf(under(v.X.Type()).(*types.Map).Elem())
			has = tBool(false)
			for k2 := range s.mem {
				if k2.Op == OMapSlot && k2.Args[0] == a && !s.disjoint(k2, slot) {
					val = nil
				}
			}
			if val == nil {
				val = mk(Term{Op: OMapGet, Args: x.mapEp(s, slot), T: under(v.X.Type()).(*types.Map).Elem()})
				has = mk(Term{Op: OMapHas, Args: x.mapEp(s, slot), T: types.Typ[types.Bool]})
			}
		} else {
			val = mk(Term{Op: OMapGet, Args: x.mapEp(s, slot), T: under(v.X.Type()).(*types.Map).Elem()})
		}
		if v.CommaOk {
			return tTuple(val, has), true
		}
		return val, true
	case *ssa.MakeChan:
		return x.obj(s, in, "chan", ty), true
	case *ssa.MakeMap:
		o := x.obj(s, in, "map", ty)
		for k := range s.mem {
			if rootOf(k) == o {
				delete(s.mem, k)
			}
		}
		delete(s.unk, o)
		delete(s.esc, o)
		delete(s.epoch, "o"+strconv.Itoa(o.id))
		return o, true
	case *ssa.MakeSlice:
		n := x.val(s, v.Len)
		cp := x.val(s, v.Cap)
		if x.H.MakeLen != nil {
			x.H.MakeLen(x, s, "make", cp, in)
		}
		if !x.oblig(s, "make length", tLe(tInt(0), n), in) {
			return nil, false
		}
		o := x.obj(s, in, "make", ty)
		for k := range s.mem {
			if rootOf(k) == o {
				delete(s.mem, k)
			}
		}
		delete(s.unk, o)
		delete(s.esc, o)
		delete(s.epoch, "o"+strconv.Itoa(o.id))
		s.facts = s.facts.filter(func(f *Term) bool { return !f.contains(o) })
		s.assumeQuiet(tEqInt(mk(Term{Op: OLen, Args: []*Term{o}, T: types.Typ[types.Int]}), n))
		return o, true
	case *ssa.MakeClosure:
		var b []*Term
		for _, y := range v.Bindings {
			b = append(b, x.val(s, y))
		}
		return mk(Term{Op: OClosure, G: v.Fn.(*ssa.Function), Args: b, T: ty}), true
	case *ssa.MakeInterface:
		return tIface(x.val(s, v.X), v.X.Type()), true
	case *ssa.Range:
		return x.fresh(s, in, "range", ty, x.val(s, v.X)), true
	case *ssa.Next:
		it := x.val(s, v.Iter)
		tu := v.Type().(*types.Tuple)
		ok := x.sym(s, in, "next.ok", types.Typ[types.Bool], it)
		k := x.sym(s, in, "next.key", tu.At(1).Type(), it)
		e := x.sym(s, in, "next.val", tu.At(2).Type(), it)
		s.facts = s.facts.filter(func(f *Term) bool { return !f.contains(ok) && !f.contains(k) && !f.contains(e) })
		return tTuple(ok, k, e), true
	case *ssa.Slice:
		return x.slice(s, in, v)
	case *ssa.SliceToArrayPointer:
		return mk(Term{Op: OConv, Args: []*Term{x.val(s, v.X)}, T: ty}), true
	}
	return x.fresh(s, in, fmt.Sprintf("%T", val), ty), true
}

func (x *Exec) inMem(s *State, o *Term) bool { return false }

func (x *Exec) mapEp(s *State, slot *Term) []*Term {
	r := []*Term{slot.Args[0], slot.Args[1]}
	if e := s.epochOf(slot); e != nil {
		r = append(r, e)
	}
	return r
}

func (x *Exec) bounds(s *State, i, n *Term, at ssa.Instruction) bool {
	if !x.oblig(s, "index out of range", tLe(tInt(0), i), at) {
		return false
	}
	return x.oblig(s, "index out of range", tLt(i, n), at)
}

func (x *Exec) slice(s *State, in ssa.Instruction, v *ssa.Slice) (*Term, bool) {
	a := x.val(s, v.X)
	lo := tInt(0)
	if v.Low != nil {
		lo = x.val(s, v.Low)
	}
	var hi *Term
	n := tLen(a)
	limit := n
	if _, isSl := under(v.X.Type()).(*types.Slice); isSl {
		// the limit of slices is the capacity, which is at least the length
		if v.High != nil {
			limit = x.capOf(s, a)
		}
	}
	if v.High != nil {
		hi = x.val(s, v.High)
		if !x.oblig(s, "slice bounds out of range", tLe(hi, limit), in) {
			return nil, false
		}
		if !x.oblig(s, "slice bounds out of range", tLe(lo, hi), in) {
			return nil, false
		}
	} else if v.Low != nil {
		if !x.oblig(s, "slice bounds out of range", tLe(lo, n), in) {
			return nil, false
		}
	}
	if v.Low != nil {
		if !x.oblig(s, "slice bounds out of range", tLe(tInt(0), lo), in) {
			return nil, false
		}
	}
	return tSlice(a, lo, hi, v.Type()), true
}

// capOf a slice; unknown capacities are taken as the length (exact for raw data).
func (x *Exec) capOf(s *State, a *Term) *Term {
	switch a.Op {
	case OSlice, OAppend, OAppendS:
		return mk(Term{Op: OCap, Args: []*Term{a}, T: types.Typ[types.Int]})
	}
	return tLen(a)
}

func (x *Exec) binop(s *State, in ssa.Instruction, v *ssa.BinOp) *Term {
	a, b := x.val(s, v.X), x.val(s, v.Y)
	ty := v.X.Type()
	switch v.Op {
	case token.EQL:
		return tEq(a, b, ty)
	case token.NEQ:
		return tNot(tEq(a, b, ty))
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if isInt(ty) {
			switch v.Op {
			case token.LSS:
				return tLt(a, b)
			case token.LEQ:
				return tLe(a, b)
			case token.GTR:
				return tLt(b, a)
			default:
				return tLe(b, a)
			}
		}
		if a.Op == OConst && b.Op == OConst && a.C != nil && b.C != nil {
			return tBool(constant.Compare(a.C, v.Op, b.C))
		}
		// canonical: only <
		var t *Term
		cmp := func(p, q *Term, op string) *Term {
			return mk(Term{Op: OCmp, S: op, Args: []*Term{p, q}, T: types.Typ[types.Bool]})
		}
		isF := isBasic(ty, types.IsFloat)
		switch v.Op {
		case token.LSS:
			t = cmp(a, b, "<")
		case token.GTR:
			t = cmp(b, a, "<")
		case token.LEQ:
			if isF {
				t = cmp(a, b, "<=")
			} else {
				t = tNot(cmp(b, a, "<"))
			}
		default:
			if isF {
				t = cmp(b, a, "<=")
			} else {
				t = tNot(cmp(a, b, "<"))
			}
		}
		return t
	}
	return arith(s, v.Op, a, b, v.Type(), v.Y.Type())
}

// tConcat joins two texts.
func tConcat(a, b *Term) *Term { return arith(nil, token.ADD, a, b, types.Typ[types.String], nil) }

// arith evaluates arithmetic of a result type.
func arith(s *State, op token.Token, a, b *Term, ty, yty types.Type) *Term {
	if isBasic(ty, types.IsString) && op == token.ADD {
		if x, ok := a.strConst(); ok {
			if y, ok := b.strConst(); ok {
				return tStr(x + y)
			}
			if x == "" {
				return b
			}
		}
		if y, ok := b.strConst(); ok && y == "" {
			return a
		}
		return mk(Term{Op: OCat, Args: []*Term{a, b}, T: ty})
	}
	if isInt(ty) {
		ca, oka := a.intConst()
		cb, okb := b.intConst()
		var exact *Term
		switch op {
		case token.ADD:
			exact = tAdd(a, b)
		case token.SUB:
			exact = tSub(a, b)
		case token.MUL:
			if okb {
				exact = tMulK(a, cb)
			} else if oka {
				exact = tMulK(b, ca)
			}
		case token.SHL:
			if okb && cb >= 0 && cb < 62 {
				if oka && ca>>uint(62-cb) == 0 {
					exact = tInt(ca << uint(cb))
				} else if !oka {
					exact = tMulK(a, 1<<uint(cb))
				}
			}
		}
		if oka && okb {
			switch op {
			case token.QUO:
				if cb != 0 {
					exact = tInt(ca / cb)
				}
			case token.REM:
				if cb != 0 {
					exact = tInt(ca % cb)
				}
			case token.AND:
				exact = tInt(ca & cb)
			case token.OR:
				exact = tInt(ca | cb)
			case token.XOR:
				exact = tInt(ca ^ cb)
			case token.AND_NOT:
				exact = tInt(ca &^ cb)
			case token.SHR:
				if cb >= 0 && cb < 64 {
					exact = tInt(ca >> uint(cb))
				}
			}
		}
		if exact != nil {
			if mathInt(ty) {
				return exact
			}
			bits, signed := intBits(ty)
			lo, hi := int64(0), int64(1)<<62
			if signed {
				lo, hi = -(1 << uint(bits-1)), 1<<uint(bits-1)-1
			} else if bits < 62 {
				hi = 1<<uint(bits) - 1
			}
			if c, ok := exact.intConst(); ok {
				if bits >= 62 || c >= lo && c <= hi {
					if c >= lo {
						return exact
					}
				} else if !signed {
					return tInt(c & hi)
				}
			} else if s != nil && s.is(tLe(tInt(lo), exact)) && (bits >= 62 || s.is(tLe(exact, tInt(hi)))) {
				return exact
			}
		}
		// shifts as division
		switch op {
		case token.AND, token.OR, token.XOR, token.ADD, token.MUL:
			// commutative
			if a.id > b.id && !okb || oka && !okb {
				a, b = b, a
			}
			if op == token.AND {
				if c, ok := b.intConst(); ok && c == 0 {
					return tInt(0)
				}
				// x & mask where the mask covers the range
				if c, ok := b.intConst(); ok && c > 0 && (c&(c+1)) == 0 {
					if lo, hi, ok1, ok2 := typeRange(a); ok1 && ok2 && lo >= 0 && hi <= c {
						return a
					}
				}
			}
			if op == token.OR {
				if c, ok := b.intConst(); ok && c == 0 {
					return a
				}
			}
		case token.AND_NOT:
			if okb {
				if bits, signed := intBits(ty); bits < 63 || signed {
					m := ^cb
					if !signed {
						m &= 1<<uint(bits) - 1
					}
					return arith(s, token.AND, a, tInt(m), ty, ty)
				}
			}
		case token.SHR, token.QUO:
			if okb && (cb == 0 && op == token.SHR || cb == 1 && op == token.QUO) {
				return a
			}
			if okb && op == token.SHR && cb > 0 && cb < 62 {
				if lo, _, ok, _ := typeRange(a); ok && lo >= 0 {
					op = token.QUO
					b = tInt(1 << uint(cb))
				}
			}
		}
		return mk(Term{Op: OBin, S: op.String(), Args: []*Term{a, b}, T: ty})
	}
	if isBasic(ty, types.IsFloat) && a.Op == OConst && b.Op == OConst && a.C != nil && b.C != nil {
		if op == token.QUO && constant.Sign(b.C) == 0 {
			return mk(Term{Op: OBin, S: op.String(), Args: []*Term{a, b}, T: ty})
		}
		return mk(Term{Op: OConst, C: constant.BinaryOp(a.C, op, b.C), T: types.Typ[types.Float64]})
	}
	return mk(Term{Op: OBin, S: op.String(), Args: []*Term{a, b}, T: ty})
}

// global gives the value of package variables that never change.
func (x *Exec) global(s *State, g *ssa.Global) *Term {
	if x.H.Global != nil {
		if t := x.H.Global(x, s, g); t != nil {
			return t
		}
	}
	if isDebugVar(g) {
		return tBool(false)
	}
	return x.P.constGlobal(g)
}

func isDebugVar(g *ssa.Global) bool {
	return g.Pkg != nil && g.Pkg.Pkg.Path() == modPath && g.Name() == "Debug"
}

func (p *Prog) blockPos(b *ssa.BasicBlock) string {
	for _, i := range b.Instrs {
		if i.Pos().IsValid() {
			return p.Pos(i.Pos())
		}
	}
	return "?"
}

// Profile lists the busiest join points.
func (x *Exec) Profile(n int) []string {
	type e struct {
		k string
		n int
	}
	var l []e
	for k, v := range x.nHead {
		l = append(l, e{x.headName[k], v})
	}
	sort.Slice(l, func(i, j int) bool { return l[i].n > l[j].n || l[i].n == l[j].n && l[i].k < l[j].k })
	var r []string
	var bl []e
	for b, n := range x.visits {
		bl = append(bl, e{fmt.Sprintf("visits %s b%d %s", b.Parent().Name(), b.Index, x.P.blockPos(b)), n})
	}
	sort.Slice(bl, func(i, j int) bool { return bl[i].n > bl[j].n })
	for i := 0; i < n && i < len(bl); i++ {
		r = append(r, fmt.Sprint(bl[i].n, " ", bl[i].k))
	}
	for i := 0; i < n && i < len(l); i++ {
		r = append(r, fmt.Sprint(l[i].n, " ", l[i].k))
	}
	return r
}
