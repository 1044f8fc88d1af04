package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// scan proves that a loop visits every element of a slice, in order.
type scan struct {
	r      *Report
	name   string
	rule   string
	edges  map[scanLoop]int // back edges seen: bit 1 visited, bit 2 not visited
	idx    map[*Term]map[*Term]bool
	step   map[*ssa.Phi]int64 // counters, and their distance to the index
	base   *Term
	visits int
	first  bool // an iteration with index 0 was seen
	at     ssa.Instruction
}

// scanLoop is a loop of a call of its function.
type scanLoop struct {
	ctx  *FrameCtx
	head *ssa.BasicBlock
}

func newScan(r *Report, rule, name string) *scan {
	return &scan{r: r, rule: rule, name: name, edges: map[scanLoop]int{}, idx: map[*Term]map[*Term]bool{}, step: map[*ssa.Phi]int64{}}
}

// visit notes that the element idx of base is being processed.
func (c *scan) visit(x *Exec, s *State, base, idx *Term, at ssa.Instruction) {
	c.visits++
	c.base, c.at = base, at
	if n, ok := idx.intConst(); ok {
		if n == 0 {
			c.first = true
		} else {
			c.r.bad(c.rule, c.name, x.P.InstrPos(at), "the scan of "+base.String()+" starts at element "+idx.String())
		}
	}
	if c.idx[base] == nil {
		c.idx[base] = map[*Term]bool{}
	}
	c.idx[base][idx] = true
	s.ghost["!v"+c.name] = tTuple(base, idx)
}

// advances: one of the counters of the loop makes up the index.
func advances(old map[*ssa.Phi]*Term, idx *Term) bool {
	for p, o := range old {
		if o == nil || !isInt(p.Type()) {
			continue
		}
		if _, ok := tSub(idx, o).intConst(); ok {
			return true
		}
	}
	return false
}

// backEdge checks that the next iteration processes the next element.
func (c *scan) backEdge(x *Exec, s *State, header *ssa.BasicBlock, old, nw map[*ssa.Phi]*Term) {
	v := s.ghost["!v"+c.name]
	if v == nil {
		c.edges[scanLoop{s.fr.ctx, header}] |= 2
		return
	}
	base, idx := v.Args[0], v.Args[1]
	if len(nw) == 0 {
		return
	}
	found := false
	for p, o := range old {
		n := nw[p]
		if !isInt(p.Type()) || n == nil || o == nil {
			continue
		}
		off, ok := tSub(idx, o).intConst()
		if !ok {
			continue
		}
		if d, ok := tSub(n, o).intConst(); ok && d == 1 {
			found = true
			c.step[p] = off
		}
	}
	// the loop of the visit is the innermost loop advancing the index
	if !found {
		in := false
		for _, y := range idx.symbols() {
			for p := range old {
				if y.Site != nil && y.Site.Instr == ssa.Instruction(p) {
					in = true
				}
			}
		}
		if in {
			c.r.bad(c.rule, c.name, x.P.InstrPos(c.at), "the scan of "+base.String()+" does not advance by one element")
		}
		return
	}
	c.edges[scanLoop{s.fr.ctx, header}] |= 1
	delete(s.ghost, "!v"+c.name)
}

// complete tells whether all of the elements have been processed.
func (c *scan) complete(s *State, base *Term) bool {
	if s.is(tLe(tLen(base), tInt(0))) {
		return true
	}
	if d := s.ghost["!x"+c.name]; d != nil && d.Args[0] == base {
		return true
	}
	for i := range c.idx[base] {
		if s.is(tLe(tLen(base), i)) {
			return true
		}
	}
	return false
}

// done reports what can only be known after the analysis.
func (c *scan) done(x *Exec) {
	if c.visits == 0 {
		c.r.bad(c.rule, c.name, "?", "no element is ever examined")
		return
	}
	pos := x.P.InstrPos(c.at)
	if !c.first {
		c.r.bad(c.rule, c.name, pos, "the scan does not start at the first element")
	}
	moves := false
	for b, l := range c.idx {
		if _, ok := tLen(b).intConst(); ok {
			moves = true
		}
		for i := range l {
			moves = moves || !i.isConst()
		}
	}
	if !moves {
		c.r.bad(c.rule, c.name, pos, "only the first element is ever examined")
	}
	n := 0
	for h, m := range c.edges {
		if m == 3 {
			c.r.bad(c.rule, c.name, x.P.blockPos(h.head), "an iteration can skip its element")
		}
		if m&1 != 0 {
			n++
		}
	}
	c.r.ok(c.rule, c.name, pos)
}

// elemOf finds the slice element an expression was loaded through.
func elemOf(t *Term) (base, idx *Term, ok bool) {
	t.anySub(func(u *Term) bool {
		if u.Op == OIndexAddr {
			base, idx, ok = u.Args[0], u.Args[1], true
			return true
		}
		return false
	})
	return
}

// edge notes that a loop was left after its last element.
func (c *scan) edge(x *Exec, s *State, from, to *ssa.BasicBlock) {
	l := x.loops(s.fr.ctx.Fn).byHeader[from]
	if l == nil || l.body[to] || c.edges[scanLoop{s.fr.ctx, from}]&1 == 0 {
		return
	}
	for _, in := range from.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		off, ok := c.step[p]
		if !ok || s.fr.regs[p] == nil {
			continue
		}
		i := tAdd(s.fr.regs[p], tInt(off))
		done := false
		for b := range c.idx {
			if s.is(tLe(tLen(b), i)) {
				s.ghost["!x"+c.name] = tTuple(b)
				done = true
			}
		}
		if done || c.base == nil {
			continue
		}
		// a list which has not been met yet
		var found *Term
		for f := range s.facts.m {
			f.anySub(func(u *Term) bool {
				if u.Op == OLen && u.Args[0].T != nil && c.base.T != nil && types.Identical(u.Args[0].T, c.base.T) && (found == nil || u.Args[0].id < found.id) && s.is(tLe(u, i)) {
					found = u.Args[0]
				}
				return false
			})
		}
		if found != nil {
			s.ghost["!x"+c.name] = tTuple(found)
		}
	}
}
