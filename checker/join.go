package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// joinKey groups the states which may be merged at a block.
func (x *Exec) joinKey(s *State, blk *ssa.BasicBlock) string {
	var b strings.Builder
	for f := s.fr; f != nil; f = f.parent {
		fmt.Fprintf(&b, "%d", f.ctx.id)
		if f == s.fr {
			fmt.Fprintf(&b, "b%d", blk.Index)
		}
		if f.panicking {
			b.WriteByte('!')
		}
		if f.recovered {
			b.WriteByte('~')
		}
		if f.draining {
			b.WriteByte('^')
		}
		for _, d := range f.defers {
			fmt.Fprintf(&b, "d%p", d.at)
			if d.fn != nil {
				fmt.Fprintf(&b, "f%d", d.fn.id)
			}
			for _, a := range d.args {
				fmt.Fprintf(&b, ",%d", a.id)
			}
		}
		b.WriteByte(';')
	}
	writeStrMap(&b, s.ghost)
	// whether an operation failed is kept apart
	var es []string
	for v, t := range s.fr.regs {
		if types.Identical(v.Type(), tErrType) {
			es = append(es, fmt.Sprintf("%d:%d", x.valueID(v), s.nilness(t)))
		}
	}
	sort.Strings(es)
	b.WriteString(strings.Join(es, ","))
	return b.String()
}

// join merges b into a; it reports whether a changed.
func (x *Exec) join(a, b *State, blk *ssa.BasicBlock) bool {
	changed := false
	at := blk.Instrs[0]
	var newFacts []*Term
	used := map[*Term]bool{}
	for _, st := range []*State{a, b} {
		for f := st.fr; f != nil; f = f.parent {
			for _, t := range f.regs {
				for _, y := range t.symbols() {
					used[y] = true
				}
			}
		}
		for k, t := range st.mem {
			for _, y := range k.symbols() {
				used[y] = true
			}
			for _, y := range t.symbols() {
				used[y] = true
			}
		}
		for _, t := range st.ghost {
			for _, y := range t.symbols() {
				used[y] = true
			}
		}
	}
	inUse := func(y *Term) bool { return used[y] }
	stale, renamed := map[*Term]bool{}, map[*Term]bool{}
	mkSym := func(loc string, ty types.Type, va, vb *Term, ctx *FrameCtx, reg ssa.Value) *Term {
		sym := func(name string) *Term {
			in, ok := reg.(ssa.Instruction)
			if !ok && reg == nil {
				return x.sym(a, at, name, ty)
			}
			if !ok {
				t := mk(Term{Op: OSym, S: fmt.Sprintf("%s#%d@%d", name, x.instrID(at), a.fr.ctx.id), T: ty})
				if t.Site == nil {
					t.Site = &Site{Frame: ctx, What: name}
				}
				return t
			}
			// a value of a register belongs where the register is set
			t := mk(Term{Op: OSym, S: fmt.Sprintf("%s#%d@%d", name, x.instrID(at), a.fr.ctx.id), T: ty})
			if t.Site == nil {
				t.Site = &Site{Frame: ctx, Instr: in, Block: in.Block(), What: name}
			}
			return t
		}
		// a name which does not stand for something else already
		var y *Term
		for try := 0; ; try++ {
			y = sym("j" + loc + strings.Repeat("'", try))
			if y.T == nil {
				y.T = ty
			}
			if y == va || !inUse(y) {
				break
			}
			if try == 5 {
				stale[y] = true
				break
			}
		}
		if y != va {
			renamed[y] = true
		}
		for _, v := range []*Term{va, vb} {
			if n := len(a.esc); v != nil {
				a.escape(v)
				changed = changed || len(a.esc) != n
			}
		}
		common := func(pred func(v *Term) *Term) {
			if !stale[y] && va != nil && vb != nil && a.is(pred(va)) && b.is(pred(vb)) {
				newFacts = append(newFacts, pred(y))
			}
		}
		if va != nil && vb != nil {
			switch under(ty).(type) {
			case *types.Pointer, *types.Slice, *types.Map, *types.Signature, *types.Chan, *types.Interface:
				na, nb := a.nilness(va), b.nilness(vb)
				if na == False && nb == False && !stale[y] {
					newFacts = append(newFacts, tNot(tEq(y, tNil(ty), nil)))
				}
			}
			if isInt(ty) {
				common(func(v *Term) *Term { return tLe(tInt(0), v) })
				for _, c := range []*Term{va, vb} {
					if c.isConst() {
						common(func(v *Term) *Term { return tLe(v, c) })
						common(func(v *Term) *Term { return tLe(c, v) })
					}
				}
			}
		}
		return y
	}
	// pairs of values which became one, and terms built from them
	memo := map[[2]*Term]*Term{}
	var unify func(ta, tb *Term) *Term
	unify = func(ta, tb *Term) *Term {
		if ta == tb {
			return ta
		}
		if ta == nil || tb == nil {
			return nil
		}
		if y := memo[[2]*Term{ta, tb}]; y != nil {
			return y
		}
		if ta.Op != tb.Op || len(ta.Args) != len(tb.Args) || len(ta.Args) == 0 {
			return nil
		}
		switch ta.Op {
		case OInit, OFieldAddr, OIndexAddr, OMapSlot, OMapGet, OLen, OConv, OLin, OBytes, OSlice, OBin:
		default:
			return nil
		}
		args := make([]*Term, len(ta.Args))
		for i := range args {
			if args[i] = unify(ta.Args[i], tb.Args[i]); args[i] == nil {
				return nil
			}
		}
		with := func(args []*Term) *Term {
			c := *ta
			c.Args, c.syms, c.id = args, nil, 0
			return mk(c)
		}
		// the rest of the term has to agree
		if with(tb.Args) != tb {
			return nil
		}
		if ta.Op == OLen {
			return tLen(args[0])
		}
		return with(args)
	}
	for fa, fb := a.fr, b.fr; fa != nil && fb != nil; fa, fb = fa.parent, fb.parent {
		var vs []ssa.Value
		for v := range fa.regs {
			if _, ok := fb.regs[v]; !ok {
				delete(fa.regs, v)
				changed = true
				continue
			}
			vs = append(vs, v)
		}
		// parts come before what is built from them
		sort.Slice(vs, func(i, j int) bool {
			ti, tj := fa.regs[vs[i]], fa.regs[vs[j]]
			if ti.id != tj.id {
				return ti.id < tj.id
			}
			return x.valueID(vs[i]) < x.valueID(vs[j])
		})
		for _, v := range vs {
			ta, tb := fa.regs[v], fb.regs[v]
			if ta == tb {
				continue
			}
			y := unify(ta, tb)
			if y == nil {
				y = mkSym(fmt.Sprintf("r%d.%d", fa.ctx.id, x.valueID(v)), v.Type(), ta, tb, fa.ctx, v)
				if !stale[y] {
					memo[[2]*Term{ta, tb}] = y
				}
			}
			if y != ta {
				fa.regs[v] = y
				changed = true
			}
		}
	}
	newMem := map[*Term]*Term{}
	addrs := map[*Term]bool{}
	for k := range a.mem {
		addrs[k] = true
	}
	for k := range b.mem {
		addrs[k] = true
	}
	var l []*Term
	for k := range addrs {
		l = append(l, k)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].id < l[j].id })
	for _, k := range l {
		va, ina := a.mem[k]
		vb, inb := b.mem[k]
		if !ina {
			va = loadPlain(a, k)
		}
		if !inb {
			vb = loadPlain(b, k)
		}
		if va != nil && va == vb {
			newMem[k] = va
			if !ina {
				changed = true
			}
			continue
		}
		ty := pointee(k)
		if ty == nil {
			if va != nil && va.T != nil {
				ty = va.T
			} else if vb != nil {
				ty = vb.T
			}
		}
		y := unify(va, vb)
		if y == nil {
			y = mkSym(fmt.Sprintf("m%d", k.id), ty, va, vb, nil, nil)
			if va != nil && vb != nil && !stale[y] {
				memo[[2]*Term{va, vb}] = y
			}
		}
		newMem[k] = y
		if y != va || !ina {
			changed = true
		}
	}
	ep := func() *Term {
		t := x.sym(a, at, "~j", nil)
		e := mk(Term{Op: OSym, S: t.S, I: 1})
		if e.Site == nil {
			e.Site = t.Site
		}
		return e
	}
	for k, e := range b.epoch {
		if a.epoch[k] != e {
			if n := ep(); a.epoch[k] != n {
				a.epoch[k] = n
				changed = true
			}
		}
	}
	for k, e := range a.epoch {
		if b.epoch[k] != e {
			if n := ep(); e != n {
				a.epoch[k] = n
				changed = true
			}
		}
	}
	for k, l := range b.esc {
		if _, ok := a.esc[k]; !ok {
			changed = true
			if a.esc == nil {
				a.esc = map[*Term]string{}
			}
			a.esc[k] = ""
		}
		// a store to one of them
		for _, c := range strings.Split(l, ";") {
			if c != "" && !strings.Contains(a.esc[k], ";"+c+";") {
				changed = true
				a.changed(c, nil, ep())
			}
		}
	}
	for k, l := range a.esc {
		for _, c := range strings.Split(l, ";") {
			if c != "" && !strings.Contains(b.esc[k], ";"+c+";") {
				if n := ep(); a.epoch[c] != n {
					changed = true
					a.epoch[c] = n
				}
			}
		}
	}
	for k, e := range b.unk {
		if a.unk[k] != e {
			if n := ep(); a.unk[k] != n {
				a.unk[k] = n
				changed = true
			}
		}
	}
	nf := map[*Term]bool{}
	about := func(f *Term) bool {
		for _, y := range f.symbols() {
			if renamed[y] || stale[y] {
				return true
			}
		}
		return false
	}
	for f := range a.facts.m {
		if !about(f) && b.facts.eval(f) == True {
			nf[f] = true
		}
	}
	// what holds of both values holds of the one they became
	if len(memo) > 0 {
		toY, toB := map[*Term]*Term{}, map[*Term]*Term{}
		for k, y := range memo {
			if o := toY[k[0]]; o != nil && o != y {
				// two places had the same value here, not there
				toB[k[0]] = nil
				continue
			}
			toY[k[0]] = y
			toB[k[0]] = k[1]
		}
		for k, v := range toB {
			if v == nil || k.isConst() {
				delete(toY, k)
				delete(toB, k)
			}
		}
		my, mb := map[*Term]*Term{}, map[*Term]*Term{}
		for f := range a.facts.m {
			fb := substAll(f, toB, mb)
			if fb == f || b.facts.eval(fb) != True {
				continue
			}
			fy := substAll(f, toY, my)
			if _, isC := fy.boolConst(); !isC {
				newFacts = append(newFacts, fy)
			}
		}
	}
	for _, f := range newFacts {
		nf[f] = true
	}
	for f := range a.facts.m {
		if !nf[f] {
			changed = true
		}
	}
	a.mem = newMem
	a.facts = &Facts{m: nf}
	return changed
}

func loadPlain(s *State, k *Term) *Term {
	if k.Op == OMapSlot {
		return nil
	}
	ty := pointee(k)
	if ty == nil {
		return nil
	}
	if _, ok := under(ty).(*types.Struct); ok && !opaqueStruct(ty) {
		return nil
	}
	return s.load(k)
}
