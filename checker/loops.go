package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// ---- liveness

type liveSets struct {
	in map[*ssa.BasicBlock]map[ssa.Value]bool
}

func isReg(v ssa.Value) bool {
	switch v.(type) {
	case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin, nil:
		return false
	}
	return true
}

func (x *Exec) live(f *ssa.Function) *liveSets {
	if l, ok := x.lives[f]; ok {
		return l
	}
	l := &liveSets{in: map[*ssa.BasicBlock]map[ssa.Value]bool{}}
	for _, b := range f.Blocks {
		l.in[b] = map[ssa.Value]bool{}
	}
	for changed := true; changed; {
		changed = false
		for i := len(f.Blocks) - 1; i >= 0; i-- {
			b := f.Blocks[i]
			out := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				for v := range l.in[s] {
					out[v] = true
				}
				pi := predIndex(s, b)
				for _, in := range s.Instrs {
					p, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					delete(out, p)
				}
				for _, in := range s.Instrs {
					p, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					if pi >= 0 && isReg(p.Edges[pi]) {
						out[p.Edges[pi]] = true
					}
				}
			}
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				in := b.Instrs[j]
				if v, ok := in.(ssa.Value); ok {
					delete(out, v)
				}
				if _, ok := in.(*ssa.Phi); ok {
					continue
				}
				var ops [16]*ssa.Value
				for _, o := range in.Operands(ops[:0]) {
					if isReg(*o) {
						out[*o] = true
					}
				}
			}
			// the counters of enclosing loops show how an iteration advances
			for h, lp := range x.loops(f).byHeader {
				if h == b || !lp.body[b] {
					continue
				}
				for _, in := range h.Instrs {
					p, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					if inductionStep(p, lp) != 0 || x.KeepPhis && isInt(p.Type()) || x.KeepLists && isText(p.Type()) || x.KeepFlags && isBasic(p.Type(), types.IsBoolean) {
						out[p] = true
					}
				}
			}
			for v := range out {
				if !l.in[b][v] {
					l.in[b][v] = true
					changed = true
				}
			}
		}
	}
	// deferred closures read their captured variables in the recover block
	x.lives[f] = l
	return l
}

func predIndex(s, b *ssa.BasicBlock) int {
	for i, p := range s.Preds {
		if p == b {
			return i
		}
	}
	return -1
}

// pruneCaller drops the registers which are not needed after a call.
func (x *Exec) pruneCaller(s *State, blk *ssa.BasicBlock, idx int) {
	fn := s.fr.ctx.Fn
	out := map[ssa.Value]bool{}
	l := x.live(fn)
	for _, su := range blk.Succs {
		for v := range l.in[su] {
			out[v] = true
		}
		pi := predIndex(su, blk)
		for _, in := range su.Instrs {
			p, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			delete(out, p)
			if isReg(p.Edges[pi]) {
				out[p.Edges[pi]] = true
			}
		}
	}
	for j := idx; j < len(blk.Instrs); j++ {
		in := blk.Instrs[j]
		if j > idx {
			var ops [16]*ssa.Value
			for _, o := range in.Operands(ops[:0]) {
				if isReg(*o) {
					out[*o] = true
				}
			}
		}
	}
	for h, lp := range x.loops(fn).byHeader {
		if !lp.body[blk] {
			continue
		}
		for _, in := range h.Instrs {
			p, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			if inductionStep(p, lp) != 0 || x.KeepPhis && isInt(p.Type()) || x.KeepLists && isText(p.Type()) || x.KeepFlags && isBasic(p.Type(), types.IsBoolean) {
				out[p] = true
			}
		}
	}
	// named results are read when a panic is recovered
	if fn.Recover != nil {
		for _, in := range fn.Recover.Instrs {
			var ops [16]*ssa.Value
			for _, o := range in.Operands(ops[:0]) {
				if isReg(*o) {
					out[*o] = true
				}
			}
		}
	}
	for v := range s.fr.regs {
		if !out[v] {
			delete(s.fr.regs, v)
		}
	}
}

// ---- natural loops

type loop struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
}

type loopForest struct {
	byHeader map[*ssa.BasicBlock]*loop
}

func (x *Exec) loops(f *ssa.Function) *loopForest {
	if l, ok := x.loopsOf[f]; ok {
		return l
	}
	l := findLoops(f)
	x.loopsOf[f] = l
	return l
}

func findLoops(f *ssa.Function) *loopForest {
	l := &loopForest{byHeader: map[*ssa.BasicBlock]*loop{}}
	for _, b := range f.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				lp := l.byHeader[s]
				if lp == nil {
					lp = &loop{header: s, body: map[*ssa.BasicBlock]bool{s: true}}
					l.byHeader[s] = lp
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					y := work[len(work)-1]
					work = work[:len(work)-1]
					if lp.body[y] {
						continue
					}
					lp.body[y] = true
					work = append(work, y.Preds...)
				}
			}
		}
	}
	return l
}

// inLoop tells whether a symbol is created by an iteration of the loop.
func symInLoop(y *Term, ctx *FrameCtx, l *loop) bool {
	if y.Site == nil || y.Site.Frame == nil {
		return false
	}
	leave, ok := y.Site.Frame.within(ctx)
	if !ok {
		return false
	}
	if leave == nil { // of this frame itself
		return y.Site.Block != nil && l.body[y.Site.Block]
	}
	return l.body[leave.Block()]
}

// unrolls tells whether the loop counts through a small range which is known:
// its condition compares a number known on this path with another one.
func (x *Exec) unrolls(s *State, l *loop, nw map[*ssa.Phi]*Term) bool {
	if x.Unroll == 0 {
		return false
	}
	br, ok := l.header.Instrs[len(l.header.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	cmp, ok := br.Cond.(*ssa.BinOp)
	if !ok || cmp.Block() != l.header || !isInt(cmp.X.Type()) {
		return false
	}
	var eval func(v ssa.Value) *Term
	eval = func(v ssa.Value) *Term {
		switch v := v.(type) {
		case *ssa.Const:
			return constTerm(v)
		case *ssa.Phi:
			if v.Block() == l.header {
				return nw[v]
			}
		case *ssa.BinOp:
			if v.Block() == l.header && (v.Op == token.ADD || v.Op == token.SUB) {
				a, b := eval(v.X), eval(v.Y)
				if a == nil || b == nil {
					return nil
				}
				if v.Op == token.ADD {
					return tAdd(a, b)
				}
				return tSub(a, b)
			}
		case *ssa.Call:
			if b, ok := v.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" && v.Block() == l.header {
				if a := s.fr.regs[v.Call.Args[0]]; a != nil {
					return tLen(a)
				}
				return nil
			}
		}
		return s.fr.regs[v]
	}
	for _, v := range []ssa.Value{cmp.X, cmp.Y} {
		t := eval(v)
		if t == nil {
			return false
		}
		n, ok := t.intConst()
		if !ok || n > int64(x.Unroll) || n < -int64(x.Unroll) {
			return false
		}
	}
	return true
}

// widen generalises the state at a back edge.
func (x *Exec) widen(s *State, l *loop, old, nw map[*ssa.Phi]*Term) {
	ctx := s.fr.ctx
	inLoopSym := map[*Term]bool{}
	isIn := func(y *Term) bool {
		b, ok := inLoopSym[y]
		if !ok {
			b = symInLoop(y, ctx, l)
			inLoopSym[y] = b
		}
		return b
	}
	inLoop := func(t *Term) bool {
		for _, y := range t.symbols() {
			if isIn(y) {
				return true
			}
		}
		return false
	}
	if x.H.BackEdge != nil {
		x.H.BackEdge(x, s, l.header, inLoop, old, nw)
	}
	lkey := fmt.Sprintf("%d/%d", ctx.id, l.header.Index)
	tab := x.loopC[lkey]
	if tab == nil {
		tab = map[string]map[*Term]bool{}
		x.loopC[lkey] = tab
	}
	maxc := x.H.MaxConst
	if maxc == 0 {
		maxc = 4
	}
	// keepValue: unchanged or one of a few loop independent values
	keepValue := func(loc string, v *Term) bool {
		if inLoop(v) || x.KeepLists && v.anySub(func(u *Term) bool { return u.Op == OAppend || u.Op == OAppendS }) {
			return false
		}
		m := tab[loc]
		if m == nil {
			m = map[*Term]bool{}
			tab[loc] = m
		}
		if m[v] {
			return true
		}
		if len(m) >= maxc {
			return false
		}
		m[v] = true
		return true
	}
	// known: the objects a new name of a pointer can stand for
	known := func(loc string, vs ...*Term) {
		for _, v := range vs {
			s.escape(v)
		}
		for v := range tab[loc] {
			s.escape(v)
		}
	}
	type newFact struct{ t *Term }
	var facts []*Term
	transfer := func(v, y *Term) {
		switch under(v.T).(type) {
		case nil:
			return
		case *types.Pointer, *types.Slice, *types.Map, *types.Signature, *types.Chan, *types.Interface:
			switch s.nilness(v) {
			case False:
				facts = append(facts, tNot(tEq(y, tNil(y.T), nil)))
			case True:
				facts = append(facts, tEq(y, tNil(y.T), nil))
			}
		}
		if y.T != nil && types.IsInterface(y.T) {
			if v.Op == OIface {
				facts = append(facts, tIsType(y, v.T))
			} else {
				for k := range s.facts.m {
					if k.Op == OIsType && k.Args[0] == v {
						facts = append(facts, tIsType(y, k.T))
					}
				}
			}
		}
		if isInt(y.T) {
			if s.is(tLe(tInt(0), v)) {
				facts = append(facts, tLe(tInt(0), y))
			}
		}
	}
	first := l.header.Instrs[0]
	regs := map[ssa.Value]*Term{}
	// induction variables
	keepMono := map[*Term]int64{}
	var phis []*ssa.Phi
	for p := range nw {
		phis = append(phis, p)
	}
	sort.Slice(phis, func(i, j int) bool { return x.valueID(phis[i]) < x.valueID(phis[j]) })
	// the first counter which goes by ones; others are expressed by it
	var prim *ssa.Phi
	for _, p := range phis {
		if iv := exactStep(p, l); (iv == 1 || iv == -1) && old[p] != nil && mathInt(p.Type()) {
			prim = p
			break
		}
	}
	for _, p := range phis {
		v := nw[p]
		loc := "r" + fmt.Sprint(x.valueID(p))
		o := old[p]
		if x.H.KeepVal != nil && x.H.KeepVal(nil, v) {
			regs[p] = v
			continue
		}
		if iv := inductionStep(p, l); iv != 0 && o != nil {
			y := x.sym(s, p, "iv."+p.Comment+p.Name(), p.Type())
			if prim != nil && p != prim && exactStep(p, l) == iv && mathInt(p.Type()) {
				py := x.sym(s, prim, "iv."+prim.Comment+prim.Name(), prim.Type())
				ps := exactStep(prim, l)
				po := old[prim]
				if !inLoop(o) && !inLoop(po) {
					regs[p] = tAdd(o, tMulK(tSub(py, po), iv/ps))
					continue
				}
				if po == py {
					rest := tSub(o, tMulK(py, iv/ps))
					if !inLoop(rest) {
						regs[p] = o
						continue
					}
				}
			}
			if o == y {
				keepMono[y] = iv
			} else if !inLoop(o) {
				if iv > 0 {
					facts = append(facts, tLe(o, y))
				} else {
					facts = append(facts, tLe(y, o))
				}
			} else {
				keepMono[y] = iv
			}
			regs[p] = y
			continue
		}
		if o == v && !inLoop(v) {
			regs[p] = v
			continue
		}
		if keepValue(loc, v) {
			regs[p] = v
			continue
		}
		y := x.sym(s, p, "phi."+p.Comment+p.Name(), p.Type())
		transfer(v, y)
		known(loc, o, v)
		regs[p] = y
	}
	// registers of the loop are recomputed
	for v := range s.fr.regs {
		in, ok := v.(ssa.Instruction)
		if ok && l.body[in.Block()] {
			delete(s.fr.regs, v)
		}
	}
	for p, v := range regs {
		s.fr.regs[p] = v
	}
	// memory
	type repl struct {
		a, v *Term
	}
	var rs []repl
	ep := x.loopSym(s, first, "~loop")
	for a, v := range s.mem {
		root := rootOf(a)
		if x.H.KeepVal != nil && x.H.KeepVal(a, v) {
			continue
		}
		if inLoop(a) {
			delete(s.mem, a)
			if inLoop(root) {
				if root.Op != OObj {
					s.epoch[class(a)] = ep
				}
				continue
			}
			// an element with a varying index
			if root.Op == OObj {
				s.epoch[fmt.Sprintf("o%d", a.Args[0].id)] = ep
				if a.Op == OFieldAddr || inLoop(a.Args[0]) {
					s.setUnknown(root, ep)
				} else if s.unk[root] != nil {
					s.changed(class(a), nil, ep)
				}
			} else {
				s.epoch[class(a)] = ep
			}
			continue
		}
		loc := fmt.Sprintf("m%d", a.id)
		if keepValue(loc, v) {
			continue
		}
		y := x.loopSym(s, first, "w"+fmt.Sprint(a.id))
		y.T = pointee(a)
		if y.T == nil {
			y.T = v.T
		}
		transfer(v, y)
		known(loc, v)
		rs = append(rs, repl{a, y})
		if _, ok := under(y.T).(*types.Slice); !ok {
			continue
		}
		// a list which grows along with a counter
		for _, p := range phis {
			if inductionStep(p, l) == 0 || regs[p] == nil || nw[p] == nil || !mathInt(p.Type()) {
				continue
			}
			tag := fmt.Sprintf("d%d/%d", a.id, x.valueID(p))
			d := tSub(tLen(v), nw[p])
			if !inLoop(d) {
				if tab[tag] == nil {
					tab[tag] = map[*Term]bool{}
				}
				tab[tag][d] = true
			}
			for d := range tab[tag] {
				if s.is(tEqInt(tLen(v), tAdd(nw[p], d))) {
					facts = append(facts, tEqInt(tLen(y), tAdd(regs[p], d)))
				}
			}
		}
	}
	for _, r := range rs {
		s.mem[r.a] = r.v
	}
	for k, v := range s.epoch {
		if inLoop(v) {
			s.epoch[k] = ep
		}
	}
	for k, v := range s.unk {
		if inLoop(k) {
			delete(s.unk, k)
		} else if inLoop(v) {
			s.unk[k] = ep
		}
	}
	for k, v := range s.ghost {
		if keepGhost(k) {
			continue
		}
		if inLoop(v) {
			delete(s.ghost, k)
			continue
		}
		if !keepValue("g"+k, v) {
			y := x.loopSym(s, first, "w"+k)
			y.T = v.T
			s.ghost[k] = y
		}
	}
	s.facts = s.facts.filter(func(f *Term) bool {
		for _, y := range f.symbols() {
			if !isIn(y) {
				continue
			}
			step, ok := keepMono[y]
			if !ok || f.Op != OLe {
				return false
			}
			// y only grows (shrinks): lower (upper) bounds stay
			lf := toLin(f.Args[0])
			c, direct := lf.m[y]
			if !direct || c > 0 == (step > 0) {
				return false
			}
			for a := range lf.m {
				if a != y && inLoop(a) {
					return false
				}
			}
		}
		return true
	})
	for _, f := range facts {
		s.assumeQuiet(f)
	}
	if x.H.Widened != nil {
		x.H.Widened(x, s, l.header)
	}
}

func keepGhost(k string) bool { return len(k) > 0 && k[0] == '!' }

func (x *Exec) loopSym(s *State, at ssa.Instruction, what string) *Term {
	t := x.sym(s, at, what, nil)
	if what[0] == '~' {
		t = mk(Term{Op: OSym, S: t.S, I: 1})
		if t.Site == nil {
			t.Site = &Site{Frame: s.fr.ctx, Instr: at, Block: at.Block(), What: what}
		}
	}
	return t
}

// exactStep of a phi: the constant added on every way around the loop, the
// same on all of them, or 0.
func exactStep(p *ssa.Phi, l *loop) int64 {
	if inductionStep(p, l) == 0 {
		return 0
	}
	var step int64
	for i, e := range p.Edges {
		if !l.body[p.Block().Preds[i]] {
			continue
		}
		b := e.(*ssa.BinOp)
		n := b.Y.(*ssa.Const).Int64()
		if b.Op == token.SUB {
			n = -n
		}
		if step != 0 && n != step {
			return 0
		}
		step = n
	}
	return step
}

// inductionStep of a phi: the constant added on every way around the loop, or 0.
func inductionStep(p *ssa.Phi, l *loop) int64 {
	if !isInt(p.Type()) {
		return 0
	}
	var step int64
	for i, e := range p.Edges {
		if !l.body[p.Block().Preds[i]] {
			continue
		}
		b, ok := e.(*ssa.BinOp)
		if !ok || b.X != ssa.Value(p) {
			return 0
		}
		c, ok := b.Y.(*ssa.Const)
		if !ok || c.Value == nil {
			return 0
		}
		n := c.Int64()
		switch b.Op.String() {
		case "+":
		case "-":
			n = -n
		default:
			return 0
		}
		if n == 0 || step != 0 && (n > 0) != (step > 0) {
			return 0
		}
		step = n
	}
	return step
}

// isText: strings and lists.
func isText(t types.Type) bool {
	switch u := under(t).(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0
	case *types.Slice:
		return true
	}
	return false
}
