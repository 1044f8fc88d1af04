package main

import (
	"fmt"
	"go/types"
	"slices"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	mrgOnly  = "only the covered cells are marked"
	mrgMark  = "a covered cell has the marker of its position"
	mrgEvery = "every covered cell is marked"
	mrgAreas = "every area is handled"
	mrgText  = "the first cell of a link has its text and target"
)

func init() {
	register("P16", "path-sensitive abstract interpretation with an arbitrary covered cell as witness; inductive bounds of the loops over rows and columns",
		"An area with unknown corners and an unknown cell in it are followed through the marking of the area on all paths. At every place that stores a cell the row and column are compared with the corners, and the marker with the one of that position; the loops are abstracted by bounds of their counters relative to the corners and to the unknown cell, each of which is verified on every edge into the loop. At the end of the area the unknown cell has to have been marked.",
		checkMerges)
}

// areaCase is a kind of area and of cell in it.
type areaCase struct {
	link             bool
	rowLast, colLast bool // reaches to the last row, column of the sheet
	full             bool // the sheet has all the rows there can be
	wit              int  // 0: cell in the first row, 1: in another row, 2: the first cell, 3: none
}

func (k areaCase) String() string {
	l := []string{"area"}
	if k.link {
		l[0] = "link"
	}
	if k.rowLast {
		l = append(l, "to the last row")
	}
	if k.full {
		l = append(l, "of a full sheet")
	}
	if k.colLast {
		l = append(l, "to the last column")
	}
	return strings.Join(l, " ") + ", " + []string{"a cell of the first row", "a cell below", "the first cell", "any size"}[k.wit]
}

type boundKey struct {
	h   *ssa.BasicBlock
	ph  *ssa.Phi
	rel string
	tpl int
}

// areaWalk follows the marking of an area.
type areaWalk struct {
	p       *Prog
	m       *sheetModel
	k       areaCase
	x       *Exec
	t       *Report
	name    string
	dropped map[boundKey]bool
	again   bool
	text    func(s *State, val *Term) bool         // of the first cell
	outer   func(s *State, h *ssa.BasicBlock) bool // a loop around the handling of an area
	puts    int
}

func (a *areaWalk) rigid(name string, ty types.Type) *Term {
	t := mk(Term{Op: OSym, S: "area." + name, T: ty})
	if t.Site == nil {
		t.Site = &Site{What: name}
	}
	return t
}

// begin an area with the corners given.
func (a *areaWalk) begin(s *State, r0, r1, c0, c1 *Term) {
	R, C := a.rigid("row", types.Typ[types.Int]), a.rigid("column", types.Typ[types.Int])
	s.facts = s.facts.filter(func(f *Term) bool {
		for _, y := range f.symbols() {
			if y == R || y == C {
				return false
			}
		}
		return true
	})
	ok := s.assume(tLe(r0, r1)) && s.assume(tLe(c0, c1))
	switch {
	case a.k.wit > 1:
		R, C = r0, c0
	case a.k.wit == 0:
		R = r0
		ok = ok && s.assume(tLt(c0, C)) && s.assume(tLe(C, c1))
	default:
		ok = ok && s.assume(tLt(r0, R)) && s.assume(tLe(R, r1)) && s.assume(tLe(c0, C)) && s.assume(tLe(C, c1))
	}
	if !ok {
		s.dead = true
		return
	}
	s.ghost["!area"] = tTuple(r0, r1, c0, c1, R, C)
	delete(s.ghost, "!done")
	delete(s.ghost, "!rel")
}

func (a *areaWalk) end(s *State, pos string) {
	g := s.ghost["!area"]
	if g == nil {
		return
	}
	a.t.ok(mrgEvery, a.name, pos)
	if s.ghost["!done"] == nil && a.k.wit != 3 {
		a.t.bad(mrgEvery, a.name, pos, "a covered cell may not be marked", s.trail.lines(30)...)
	}
	delete(s.ghost, "!area")
	delete(s.ghost, "!done")
	delete(s.ghost, "!rel")
}

// relate the variables which do not change in the loop to the cell.
func (a *areaWalk) relate(s *State, h *ssa.BasicBlock) {
	g := s.ghost["!area"]
	if g == nil {
		return
	}
	lf := a.x.loops(h.Parent())
	l := lf.byHeader[h]
	var b []string
	for v, t := range s.fr.regs {
		if !isInt(v.Type()) || t.isConst() {
			continue
		}
		switch u := v.(type) {
		case *ssa.Phi:
			o := lf.byHeader[u.Block()]
			if o == nil || o == l || !o.body[h] || a.outer != nil && a.outer(s, u.Block()) {
				continue
			}
		case *ssa.Parameter:
		default:
			continue
		}
		for i, w := range g.Args[4:6] {
			how := ""
			switch {
			case s.is(tLt(t, w)):
				how = "<"
			case s.is(tLt(w, t)):
				how = ">"
			case s.is(tEqInt(t, w)):
				how = "="
			}
			if how != "" {
				b = append(b, fmt.Sprintf("%s.%s%s%d", v.Parent(), v.Name(), how, i))
			}
		}
	}
	sort.Strings(b)
	s.ghost["!rel"] = tStr(strings.Join(b, ","))
}

func (a *areaWalk) bound(s *State, tpl int, v *Term) *Term {
	g := s.ghost["!area"]
	switch tpl {
	case 0, 1:
		return tLe(g.Args[2*tpl], v)
	case 4, 5:
		return tLe(v, g.Args[2*(tpl-4)+1])
	case 8, 9:
		return tLt(g.Args[2*(tpl-8)], v)
	}
	if s.ghost["!done"] != nil {
		return nil
	}
	if tpl > 5 {
		return tLe(g.Args[4+tpl-6], v)
	}
	return tLe(v, g.Args[2+tpl])
}

func (a *areaWalk) relKey(s *State) string {
	k := ghostStr(s, "!rel")
	if s.ghost["!done"] != nil {
		k += "!"
	}
	return k
}

// counters of the loop and of the loops around it.
func (a *areaWalk) counters(s *State, h *ssa.BasicBlock) []*ssa.Phi {
	res := headerPhis(h)
	lf := a.x.loops(h.Parent())
	for o, l := range lf.byHeader {
		if o != h && l.body[h] && !(a.outer != nil && a.outer(s, o)) {
			res = append(res, headerPhis(o)...)
		}
	}
	return res
}

// verify the bounds of the counters on an edge into the loop.
func (a *areaWalk) verify(s *State, h *ssa.BasicBlock, val func(ph *ssa.Phi) *Term) {
	if s.ghost["!area"] == nil {
		return
	}
	a.relate(s, h)
	for _, ph := range a.counters(s, h) {
		v := s.fr.regs[ph]
		if ph.Block() == h {
			v = val(ph)
		}
		if v == nil {
			continue
		}
		for tpl := 0; tpl < 10; tpl++ {
			k := boundKey{h, ph, a.relKey(s), tpl}
			b := a.bound(s, tpl, v)
			if b == nil || a.dropped[k] {
				continue
			}
			if !s.is(b) {
				a.dropped[k] = true
				a.again = true
			}
		}
	}
}

func (a *areaWalk) head(s *State, h *ssa.BasicBlock) {
	if s.ghost["!area"] == nil {
		return
	}
	for _, ph := range a.counters(s, h) {
		v := s.fr.regs[ph]
		if v == nil {
			continue
		}
		for tpl := 0; tpl < 10; tpl++ {
			if a.dropped[boundKey{h, ph, a.relKey(s), tpl}] {
				continue
			}
			if b := a.bound(s, tpl, v); b != nil && !s.assume(b) {
				s.dead = true
				return
			}
		}
	}
}

// put: a cell is stored.
func (a *areaWalk) put(s *State, row, col, val, fno *Term, pos string) []Outcome {
	a.puts++
	g := s.ghost["!area"]
	bad := func(rule, msg string) { a.t.bad(rule, a.name, pos, msg, s.trail.lines(30)...) }
	a.t.ok(mrgOnly, a.name, pos)
	if g == nil {
		bad(mrgOnly, "a cell is changed outside of an area")
		return []Outcome{{}}
	}
	r0, r1, c0, c1, R, C := g.Args[0], g.Args[1], g.Args[2], g.Args[3], g.Args[4], g.Args[5]
	if !(s.is(tLe(r0, row)) && s.is(tLe(row, r1)) && s.is(tLe(c0, col)) && s.is(tLe(col, c1))) {
		bad(mrgOnly, fmt.Sprintf("the cell at row %v and column %v need not be covered by the area (rows %v to %v, columns %v to %v)", row, col, r0, r1, c0, c1))
	}
	first, sideways, down := s.facts.eval(tEqInt(row, r0)), s.facts.eval(tEqInt(col, c0)), s.facts.eval(tEqInt(row, r1))
	lastCol := s.facts.eval(tEqInt(col, c1))
	v := val
	if v.Op == OIface {
		v = v.Args[0]
	}
	switch {
	case first == True && sideways == True && !a.k.link:
		bad(mrgOnly, "the first cell of the area is overwritten")
	case first == True && sideways == True:
		a.t.ok(mrgText, a.name, pos)
		if a.text == nil || !a.text(s, v) {
			bad(mrgText, "the first cell of the link gets "+v.String())
		}
	case first != False && sideways != False:
		bad(mrgMark, "it is not decided whether the cell is the first one of the area")
	case sideways == Unknown:
		bad(mrgMark, "the same marker is used in the first and in other columns")
	default:
		a.t.ok(mrgMark, a.name, pos)
		// EndRow, EndColumn, ContinueRow, ContinueColumn
		want, last := 3, lastCol
		if sideways == True {
			want, last = 2, down
		}
		if last == True {
			want -= 2
		}
		if txt, ok := v.strConst(); last == Unknown {
			bad(mrgMark, "the same marker is used for the last and other cells")
		} else if !ok || txt != a.m.markers[want] {
			bad(mrgMark, fmt.Sprintf("the marker stored is %v instead of %q", v, a.m.markers[want]))
		} else if fno != tInt(0) {
			bad(mrgMark, fmt.Sprintf("the marker has the number format %v", fno))
		}
	}
	if s.ghost["!done"] != nil {
		return []Outcome{{}}
	}
	var res []Outcome
	rel := func(x, y *Term) []*Term { return []*Term{tLt(x, y), tEqInt(x, y), tLt(y, x)} }
	for i, p := range rel(row, R) {
		for j, q := range rel(col, C) {
			if s.isNot(p) || s.isNot(q) {
				continue
			}
			o := Outcome{Assume: []*Term{p, q}}
			if i == 1 && j == 1 {
				o.Do = func(s *State) { s.ghost["!done"] = tInt(1) }
			}
			res = append(res, o)
		}
	}
	return res
}

func checkMerges(r *Report) {
	sm := r.sheetModel()
	if sm == nil || len(sm.markers) != 4 {
		r.bad("anchor", "markers of merged areas", "?", "the markers are no longer known")
		return
	}
	if m := r.xlsModel(); m != nil {
		mergesXLS(r, m, sm)
	}
	mergesXLSX(r, sm)
	r.expect(mrgOnly, 20)
	r.expect(mrgMark, 20)
	r.expect(mrgEvery, 20)
	r.expect(mrgText, 4)
}

// slope of a loop variable: its value is first + step*i, i the number of rounds.
type slope struct {
	first *Term
	step  int64
}

// mergesXLS: the areas of MergeCells and hyperlink records.
func mergesXLS(r *Report, m *xlsModel, sm *sheetModel) {
	p := r.P
	var decoders []*ssa.Function
	for _, f := range p.allFuncs() {
		res := f.Signature.Results()
		if fnPkg(f) != nil && fnPkg(f).Path() == xlsPath && len(f.Blocks) > 0 && len(f.Params) == 1 && isByteList(f.Params[0].Type()) && res.Len() == 3 &&
			isBasic(res.At(0).Type(), types.IsString) && isBasic(res.At(1).Type(), types.IsString) && types.Identical(res.At(2).Type(), tErrType) {
			decoders = append(decoders, f)
		}
	}
	// helpers of a decoder are not decoders of their own
	decoders = slices.DeleteFunc(slices.Clone(decoders), func(f *ssa.Function) bool {
		return slices.ContainsFunc(decoders, func(g *ssa.Function) bool {
			return g != f && p.reachesFn(g, func(h *ssa.Function) bool { return h == f })
		})
	})
	if len(decoders) != 1 {
		r.bad("anchor", "decoding of links", "?", fmt.Sprintf("%d functions decode a link into text and target", len(decoders)))
		return
	}
	type query struct {
		l *loop
		f *ssa.Function
	}
	stores := map[query]bool{}
	storing := func(l *loop, f *ssa.Function) bool {
		v, ok := stores[query{l, f}]
		if !ok {
			for b := range l.body {
				for _, in := range b.Instrs {
					if c, ok := in.(ssa.CallInstruction); ok {
						fns := []ssa.Value{c.Common().Value}
						for _, a := range c.Common().Args {
							fns = append(fns, a)
						}
						for _, a := range fns {
							if mc, ok := a.(*ssa.MakeClosure); ok {
								a = mc.Fn
							}
							if g, ok := a.(*ssa.Function); ok && (g == f || p.reachesFn(g, func(g *ssa.Function) bool { return g == f })) {
								v = true
							}
						}
					}
				}
			}
			stores[query{l, f}] = v
		}
		return v
	}
	roles := [2]map[*ssa.Phi]bool{{}, {}} // rows and columns of the sheet
	notRole := map[*ssa.Phi]bool{}
	slopes := map[*ssa.Phi]slope{}
	noSlope := map[*ssa.Phi]bool{}
	dropped := map[boundKey]bool{}
	var records *ssa.BasicBlock // the loop over the records which stores cells
	root := m.get
	var cases []areaCase
	for _, link := range []bool{false, true} {
		for i := 0; i < 6; i++ {
			k := areaCase{link: link, rowLast: i%3 > 0, full: i%3 > 1, colLast: i > 2}
			for k.wit = 0; k.wit < 4; k.wit++ {
				if k.wit == 2 && !link || k.wit == 3 && i > 0 {
					continue
				}
				cases = append(cases, k)
			}
		}
	}
	for _, k := range cases {
		for bk := range dropped {
			delete(dropped, bk)
		}
		for try := 0; ; try++ {
			tmp := newReport(r.ID, p)
			tmp.Thorough = r.Thorough
			again := false
			tmp.analyse("xls "+k.String(), root, func(x *Exec, t *Report) *State {
				a := &areaWalk{p: p, m: sm, k: k, x: x, t: t, name: "xls " + k.String(), dropped: dropped}
				x.JoinHeads, x.KeepLists = true, true
				x.JoinAt = min(x.JoinAt, 8)
				l := &recLoop{m, t}
				storesAt, moved := false, false
				starts := map[*ssa.Phi]*Term{} // first values of counters of areas
				levels := map[*ssa.Phi]*Term{} // first values of counters of the record loop
				bases := map[*ssa.Phi]*Term{}
				D := []*Term{a.rigid("rows", types.Typ[types.Uint16]), a.rigid("columns", types.Typ[types.Uint16])}
				if k.full {
					D[0] = tInt(65536)
				}
				dims := func(s *State) {
					for i, d := range D {
						s.assumeQuiet(tLe(tInt(1), d))
						s.assumeQuiet(tLe(d, tInt([]int64{65536, 256}[i])))
					}
				}
				kind := int64(bMerge)
				if k.link {
					kind = bHLink
				}
				// corner i of the area at an offset of the data
				area := func(s *State, data, off *Term) {
					var c [4]*Term
					for i := range c {
						c[i] = tBytesAt(s, data, tAdd(off, tInt(int64(2*i))), 2)
					}
					last := func(i int, is bool, none int64, d *Term) {
						if is {
							if !s.assume(tEqInt(c[i], tInt(none))) {
								s.dead = true
							}
							c[i] = tSub(d, tInt(1))
						} else if !s.assume(tNot(tEqInt(c[i], tInt(none)))) {
							s.dead = true
						}
					}
					last(1, k.rowLast, 0xFFFF, D[0])
					last(3, k.colLast, 0xFF, D[1])
					if k.link {
						s.assumeQuiet(tLt(c[0], D[0]))
						s.assumeQuiet(tLt(c[2], D[1]))
					}
					if !s.dead {
						a.begin(s, c[0], c[1], c[2], c[3])
					}
				}
				inlinable := map[*ssa.Function]bool{}
				isStore := func(f *ssa.Function) bool { return f == m.put || f == m.set || f == m.setURL || f == m.resize }
				x.H.Inline = func(x *Exec, s *State, fn *ssa.Function) bool {
					v, ok := inlinable[fn]
					if !ok {
						v = p.reachesFn(fn, isStore) || !p.loopy(fn) || fn != decoders[0] && p.reachesFn(fn, func(f *ssa.Function) bool { return f == decoders[0] })
						for _, q := range fn.Params {
							_, isFn := under(q.Type()).(*types.Signature)
							v = v || isFn
						}
						inlinable[fn] = v
					}
					return v && !onStack(s, fn)
				}
				x.H.Oblig = func(x *Exec, s *State, kind string, cond *Term, at ssa.Instruction) bool { return false }
				recHeader := func(s *State, h *ssa.BasicBlock) bool {
					c, ok := l.cur(s)
					return ok && int64(s.fr.ctx.id) == c.ctx && int64(h.Index) == c.hdr
				}
				// the loop over the areas of a record
				areaLoop := func(s *State, h *ssa.BasicBlock) bool {
					lp := x.loops(h.Parent()).byHeader[h]
					if _, ok := l.cur(s); !ok || k.link || lp == nil || recHeader(s, h) || !storing(lp, m.put) {
						return false
					}
					g := s.ghost["!loop"]
					return g == nil || g == tTuple(tInt(int64(s.fr.ctx.id)), tInt(int64(h.Index)))
				}
				count := func(h *ssa.BasicBlock) *ssa.Phi {
					for _, ph := range headerPhis(h) {
						if st := exactStep(ph, x.loops(h.Parent()).byHeader[h]); st == 1 || st == -1 {
							return ph
						}
					}
					return nil
				}
				// rounds of the loop so far
				rounds := func(s *State, h *ssa.BasicBlock) *Term {
					i := count(h)
					if i == nil || s.fr.regs[i] == nil || starts[i] == nil {
						return nil
					}
					if exactStep(i, x.loops(h.Parent()).byHeader[h]) == 1 {
						return tSub(s.fr.regs[i], starts[i])
					}
					return tSub(starts[i], s.fr.regs[i])
				}
				x.H.Load = func(x *Exec, s *State, addr *Term, at ssa.Instruction) {
					had := s.ghost["!rec"] != nil
					l.load(x, s, addr, at)
					c, ok := l.cur(s)
					if !ok || had {
						return
					}
					f := l.frame(s, c)
					lp := x.loops(f.ctx.Fn).byHeader[l.header(f, c)]
					if !storing(lp, m.put) {
						return
					}
					if h := l.header(f, c); h != records || moved {
						// start over in the function with the loop
						records, again, moved, s.dead = h, true, true, true
						if p.reachesFn(f.ctx.Fn, func(g *ssa.Function) bool { return g == m.resize }) {
							root = f.ctx.Fn
						}
						return
					}
					storesAt = true
					if !s.assume(tEqInt(m.recType(s, c.rec), tInt(kind))) {
						s.dead = true
						return
					}
					s.ghost["!mine"] = tInt(1)
					if k.link {
						area(s, m.recData(s, c.rec), tInt(0))
					}
				}
				finish := func(s *State, pos string) {
					if s.ghost["!mine"] == nil {
						return
					}
					for _, outer := range levels {
						if s.isNot(outer) {
							s.ghost["!badlink"] = tInt(1) // inside of a nested block
							s.ghost["!all"] = tInt(1)
						}
					}
					t.ok(mrgAreas, a.name, pos)
					if !k.link && s.ghost["!all"] == nil {
						t.bad(mrgAreas, a.name, pos, "an area of the record may be left out", s.trail.lines(30)...)
					}
					if s.ghost["!badlink"] != nil {
						for _, g := range []string{"!area", "!done", "!rel"} {
							delete(s.ghost, g)
						}
					}
					a.end(s, pos)
					for _, g := range []string{"!mine", "!all", "!badlink", "!loop"} {
						delete(s.ghost, g)
					}
				}
				a.outer = func(s *State, h *ssa.BasicBlock) bool { return h == records || areaLoop(s, h) }
				x.H.BackEdge = func(x *Exec, s *State, h *ssa.BasicBlock, in func(*Term) bool, old, nw map[*ssa.Phi]*Term) {
					switch {
					case recHeader(s, h):
						if s.ghost["!mine"] == nil {
							d := s.ghost["!dims"]
							for _, ph := range headerPhis(h) {
								for i := range roles {
									switch {
									case nw[ph] == nil:
									case d != nil && nw[ph] == d.Args[i]:
										if !roles[i][ph] {
											again = true
										}
										roles[i][ph] = true
									case old[ph] != nil && nw[ph] != old[ph] && !(d != nil && nw[ph] == d.Args[1-i]):
										if roles[i][ph] && !notRole[ph] {
											again = true
										}
										notRole[ph] = true
									}
								}
							}
							delete(s.ghost, "!dims")
						}
						finish(s, p.blockPos(h))
						l.clear(s)
						s.dead = h == records
					case areaLoop(s, h):
						a.end(s, p.blockPos(h))
						i := count(h)
						for ph, n := range nw {
							o := old[ph]
							if o == nil || ph == i || noSlope[ph] {
								continue
							}
							st := slopes[ph]
							var d int64
							ok := false
							if isInt(ph.Type()) {
								d, ok = tSub(n, o).intConst()
							} else if isByteList(ph.Type()) {
								nb, no := sliceParts(n)
								ob, oo := sliceParts(o)
								d, ok = tSub(no, oo).intConst()
								ok = ok && nb == ob && s.is(tEqInt(tSub(tLen(o), tLen(n)), tInt(d)))
							} else {
								continue
							}
							switch {
							case !ok || st.step != 0 && st.step != d:
								noSlope[ph] = true
								again = again || st.step != 0
							case st.step != d:
								st.step = d
								slopes[ph] = st
								again = true
							}
						}
					default:
						a.verify(s, h, func(ph *ssa.Phi) *Term { return nw[ph] })
					}
				}
				x.H.Edge = func(x *Exec, s *State, from, to *ssa.BasicBlock) {
					lf := x.loops(from.Parent())
					if lp := lf.byHeader[to]; lp != nil && !lp.body[from] {
						pi := predIndex(to, from)
						if areaLoop(s, to) {
							s.ghost["!loop"] = tTuple(tInt(int64(s.fr.ctx.id)), tInt(int64(to.Index)))
							if i := count(to); i != nil {
								v := x.val(s, i.Edges[pi])
								if starts[i] != nil && starts[i] != v {
									t.bad("undecided", a.name, p.blockPos(to), "the loop over the areas is entered with different counters")
								}
								starts[i] = v
							} else {
								t.bad(mrgAreas, a.name, p.blockPos(to), "the loop over the areas does not count them")
							}
							for _, in := range to.Instrs {
								ph, ok := in.(*ssa.Phi)
								if !ok {
									break
								}
								v := x.val(s, ph.Edges[pi])
								b, o := v, v
								if isByteList(ph.Type()) {
									b, o = sliceParts(v)
								} else if !isInt(ph.Type()) {
									continue
								} else {
									b = nil
								}
								st := slopes[ph]
								if _, ok := o.intConst(); !ok || st.first != nil && st.first != o || bases[ph] != nil && bases[ph] != b {
									again = again || !noSlope[ph]
									noSlope[ph] = true
								}
								bases[ph], st.first = b, o
								slopes[ph] = st
							}
						} else {
							a.verify(s, to, func(ph *ssa.Phi) *Term { return x.val(s, ph.Edges[pi]) })
						}
					}
					// the end of the loop over the areas
					if g := s.ghost["!loop"]; g != nil && g.Args[0] == tInt(int64(s.fr.ctx.id)) {
						for h, lp := range lf.byHeader {
							if tInt(int64(h.Index)) == g.Args[1] && lp.body[from] && !lp.body[to] {
								c, _ := l.cur(s)
								n := tBytesOf(s, m.recData(s, c.rec), 0, 2)
								if i := rounds(s, h); from == h && i != nil && s.is(tLe(n, i)) {
									s.ghost["!all"] = tInt(1)
								} else {
									a.end(s, p.blockPos(from))
								}
								for _, g := range []string{"!area", "!done", "!rel", "!loop"} {
									delete(s.ghost, g)
								}
							}
						}
					}
					// the end of the loop which finds the size of the sheet
					if lp := lf.byHeader[from]; lp != nil && !lp.body[to] && storing(lp, m.resize) && !storing(lp, m.put) {
						for i := range roles {
							for _, ph := range headerPhis(from) {
								if roles[i][ph] && !notRole[ph] {
									s.fr.regs[ph] = D[i]
								}
							}
						}
						dims(s)
					}
					l.edge(x, s, from, to)
				}
				x.H.JoinAt = func(s *State, blk *ssa.BasicBlock) (string, int, bool) {
					return "", 0, s.ghost["!mine"] != nil && x.loops(blk.Parent()).byHeader[blk] != nil
				}
				x.H.Head = func(x *Exec, s *State, h *ssa.BasicBlock) {
					if h == records && s.ghost["!mine"] == nil {
						// any record
						s.facts = s.facts.filter(func(f *Term) bool { return false })
						for i, in := range h.Instrs {
							ph, ok := in.(*ssa.Phi)
							if !ok {
								break
							}
							if v := s.fr.regs[ph]; v != nil && v != D[0] && v != D[1] {
								n := a.rigid(fmt.Sprintf("loop%d", i), ph.Type())
								s.fr.regs[ph] = n
								if isInt(ph.Type()) && exactStep(ph, x.loops(h.Parent()).byHeader[h]) == 1 {
									if c, ok := v.intConst(); ok {
										s.assumeQuiet(tLe(tInt(c), n))
									}
								} else if isInt(ph.Type()) && v.isConst() {
									levels[ph] = tEqInt(n, v)
								}
							}
						}
					}
					dims(s)
					if !areaLoop(s, h) {
						a.head(s, h)
						return
					}
					i := rounds(s, h)
					if i == nil {
						return
					}
					for _, in := range h.Instrs {
						ph, ok := in.(*ssa.Phi)
						if !ok {
							break
						}
						st := slopes[ph]
						if noSlope[ph] || st.first == nil || st.step == 0 || s.fr.regs[ph] == nil || ph == count(h) {
							continue
						}
						at := tAdd(st.first, tMulK(i, st.step))
						if bases[ph] == nil {
							s.fr.regs[ph] = at
						} else {
							s.fr.regs[ph] = tSlice(bases[ph], at, nil, ph.Type())
						}
					}
					c, _ := l.cur(s)
					data := m.recData(s, c.rec)
					off := tAdd(tInt(2), tMulK(i, 8))
					s.assumeQuiet(tLe(tInt(0), i))
					area(s, data, off)
				}
				x.H.Call = func(x *Exec, s *State, ev *CallEvent) ([]Outcome, bool) {
					pos := p.InstrPos(ev.Instr)
					switch {
					case ev.Fn == nil:
					case ev.Fn == m.resize:
						s.ghost["!dims"] = tTuple(ev.Args[1], ev.Args[2])
						return []Outcome{{}}, true
					case ev.Fn == m.put:
						if s.ghost["!mine"] == nil {
							return []Outcome{{}}, true
						}
						return a.put(s, ev.Args[1], ev.Args[2], ev.Args[3], ev.Args[4], pos), true
					case ev.Fn == m.set || ev.Fn == m.setURL:
						if s.ghost["!mine"] != nil {
							t.bad(mrgOnly, a.name, pos, "a cell is changed in another way")
						}
						return []Outcome{{}}, true
					case ev.Fn == decoders[0]:
						c, ok := l.cur(s)
						if !ok || s.ghost["!mine"] == nil {
							return []Outcome{{Stop: true}}, true
						}
						b, o := sliceParts(ev.Args[0])
						db, do := sliceParts(m.recData(s, c.rec))
						t.ok(mrgText, a.name, pos)
						if b != db || tSub(o, do) != tInt(8) {
							t.bad(mrgText, a.name, pos, "the link is decoded from other bytes than those behind the area", s.trail.lines(20)...)
						}
						str := types.Typ[types.String]
						e := x.sym(s, ev.Instr, "linkerr", tErrType)
						return []Outcome{
							{Res: tTuple(a.rigid("text", str), a.rigid("target", str), tNil(tErrType))},
							{Res: tTuple(tStr(""), tStr(""), e), Assume: []*Term{tNot(tEq(e, tNil(tErrType), nil))}, Do: func(s *State) { s.ghost["!badlink"] = tInt(1) }},
						}, true
					}
					return nil, false
				}
				x.H.Return = func(x *Exec, s *State, res []*Term, at ssa.Instruction) {
					if len(res) > 0 && s.nilnessErr(res[len(res)-1]) == False {
						return
					}
					finish(s, p.InstrPos(at))
				}
				a.text = func(s *State, v *Term) bool {
					var parts []*Term
					var flat func(t *Term)
					flat = func(t *Term) {
						if t.Op == OCat {
							for _, u := range t.Args {
								flat(u)
							}
							return
						}
						if c, ok := t.strConst(); ok && len(parts) > 0 {
							if d, ok := parts[len(parts)-1].strConst(); ok {
								parts[len(parts)-1] = tStr(d + c)
								return
							}
						}
						parts = append(parts, t)
					}
					flat(v)
					str := types.Typ[types.String]
					want := []*Term{a.rigid("text", str), tStr(" <"), a.rigid("target", str), tStr(">")}
					if len(parts) != len(want) {
						return false
					}
					for i := range want {
						if parts[i] != want[i] {
							return false
						}
					}
					return true
				}
				t.after = append(t.after, func() {
					if again {
						for bk := range dropped {
							delete(dropped, bk)
						}
					}
					again = again || a.again
					if !storesAt || a.puts == 0 {
						t.bad(mrgEvery, a.name, p.Pos(m.get.Pos()), "no record of the kind is handled")
					}
				})
				return x.Start(root)
			})
			if again && try < 12 {
				continue
			}
			if again {
				tmp.bad("undecided", "xls "+k.String(), p.Pos(m.get.Pos()), "no bounds of the loops were found")
			}
			r.take(tmp)
			break
		}
	}
}

// take the results of a report which was made apart.
func (r *Report) take(tmp *Report) {
	r.merge(tmp)
	for b := range tmp.blocks {
		r.blocks[b] = true
	}
	r.runs = append(r.runs, tmp.runs...)
	r.steps += tmp.steps
	r.paths += tmp.paths
	r.joined += tmp.joined
}

// mergesXLSX: the areas of the mergeCell elements of worksheets.
func mergesXLSX(r *Report, sm *sheetModel) {
	p := r.P
	sw := r.xlsxSheets()
	if sw == nil {
		return
	}
	if !newReport(r.ID, p).colRow(sw) {
		r.bad("anchor", "cell references", "?", "it is not known which result of the parser of references is the column and which the row")
		return
	}
	const path = "worksheet/mergeCells/mergeCell"
	str, int_ := types.Typ[types.String], types.Typ[types.Int]
	dropped := map[boundKey]bool{}
	for i := 0; i < 9; i++ {
		k := areaCase{rowLast: i&1 != 0, colLast: i&2 != 0, wit: i >> 2}
		if i == 8 {
			k.wit = 3
		}
		for bk := range dropped {
			delete(dropped, bk)
		}
		for try := 0; ; try++ {
			tmp := newReport(r.ID, p)
			tmp.Thorough = r.Thorough
			again := false
			name := "xlsx " + k.String()
			tmp.analyse(name, sw.get, func(x *Exec, t *Report) *State {
				a := &areaWalk{p: p, m: sm, k: k, x: x, t: t, name: name, dropped: dropped}
				sheet := newGrammar("sheet", "worksheet", "worksheet/mergeCells", path, "worksheet/c")
				sheet.variants("worksheet/c", xmlVariant{attrs: []xmlAttr{{name: "r"}, {name: "s"}, {name: "t"}}})
				sheet.names = append(sheet.names, "dimension", "row", "v", "t", "rPh", "hyperlink")
				ref := a.rigid("reference", str)
				sheet.variants(path, xmlVariant{tag: "an area", attrs: []xmlAttr{{"ref", ref}}})
				rels := newGrammar("rels", "Relationships", "Relationships/Relationship")
				w, s := sw.start(x, t, sheet, rels)
				var size [2]*Term
				for i, n := range []string{"rows", "columns"} {
					size[i] = a.rigid(n, int_)
				}
				// parts of a reference with their column and row
				parts := []*Term{a.rigid("first", str), a.rigid("last", str)}
				corner := func(part, i int) *Term { return a.rigid(fmt.Sprintf("corner%d%d", part, i), int_) }
				split := func(f *Term, s *State) int {
					for i, q := range parts {
						if f == q {
							return i
						}
					}
					if b, idx, ok := elemOf(f); ok && b.Op == OCall && strings.HasPrefix(b.S, "strings.Split") && b.Args[0] == ref {
						if n, ok := idx.intConst(); ok {
							return int(n)
						}
					}
					return -1
				}
				x.H.Oblig = func(x *Exec, s *State, kind string, cond *Term, at ssa.Instruction) bool { return false }
				x.H.Inline = nil
				handled := 0
				w.entered = func(s *State, e *xmlEvent) {
					if e.g != sheet || e.kind != 's' || e.to != path {
						return
					}
					s.facts = s.facts.filter(func(f *Term) bool {
						for _, y := range f.symbols() {
							if strings.HasPrefix(y.S, "area.") {
								return false
							}
						}
						return true
					})
					var l [2]*Term // last row, column
					ok := true
					for i := range l {
						first, last := corner(0, sw.colRow[1-i]), corner(1, sw.colRow[1-i])
						s.assumeQuiet(tLe(tInt(0), first))
						s.assumeQuiet(tLe(first, last))
						s.assumeQuiet(tLe(tInt(0), size[i]))
						l[i] = last
						if i == 0 && k.rowLast || i == 1 && k.colLast {
							ok = ok && s.assume(tLt(size[i], tAdd(last, tInt(1))))
							l[i] = tSub(size[i], tInt(1))
						} else {
							ok = ok && s.assume(tLt(last, size[i]))
						}
					}
					if !ok {
						s.dead = true
						return
					}
					a.begin(s, corner(0, sw.colRow[1]), l[0], corner(0, sw.colRow[0]), l[1])
				}
				w.token = func(s *State, e *xmlEvent, locs []xmlLoc, h *ssa.BasicBlock) {
					if e.g == sheet && e.kind == 's' && e.to == path {
						handled++
						t.ok(mrgAreas, name, p.blockPos(h))
						a.end(s, p.blockPos(h))
					}
					delete(s.ghost, "!ops")
				}
				x.H.Return = func(x *Exec, s *State, res []*Term, at ssa.Instruction) {
					if s.ghost["!area"] != nil {
						t.bad(mrgAreas, name, p.InstrPos(at), "the function may return in the middle of an area", s.trail.lines(30)...)
					}
				}
				load := x.H.Load
				x.H.Load = func(x *Exec, s *State, addr *Term, at ssa.Instruction) {
					if load != nil {
						load(x, s, addr, at)
					}
					if s.ghost["!area"] == nil || addr.Op != OFieldAddr || addr.Args[0].T == nil || !isNamed(addr.Args[0].T, cxlPath, "Sheet") {
						return
					}
					for i, n := range []string{"NumRows", "NumCols"} {
						if fieldName(addr) == n {
							s.mem[addr] = size[i]
						}
					}
				}
				call := x.H.Call
				x.H.Call = func(x *Exec, s *State, ev *CallEvent) ([]Outcome, bool) {
					pos := p.InstrPos(ev.Instr)
					if s.ghost["!area"] != nil {
						switch {
						case ev.Fn == nil:
						case ev.Fn == sm.put:
							return a.put(s, ev.Args[1], ev.Args[2], ev.Args[3], ev.Args[4], pos), true
						case ev.Fn == sm.set || ev.Fn == sm.setURL || ev.Fn == sm.resize:
							t.bad(mrgOnly, name, pos, "the sheet is changed in another way", s.trail.lines(20)...)
							return []Outcome{{}}, true
						case sw.parsers[ev.Fn]:
							if i := split(ev.Args[0], s); i == 0 || i == 1 {
								return []Outcome{{Res: tTuple(corner(i, 0), corner(i, 1))}}, true
							}
						}
						switch ev.Name {
						case "strings.Split", "strings.SplitN":
							if ev.Args[0] == ref && ev.Args[1] == tStr(":") {
								v := tCall(ev.Name, ev.Sig.Results().At(0).Type(), ev.Args...)
								return []Outcome{{Res: v, Assume: []*Term{tEqInt(tLen(v), tInt(2))}}}, true
							}
						case "strings.Cut":
							if ev.Args[0] == ref && ev.Args[1] == tStr(":") {
								return []Outcome{{Res: tTuple(parts[0], parts[1], tBool(true))}}, true
							}
						}
					}
					return call(x, s, ev)
				}
				a.outer = func(s *State, h *ssa.BasicBlock) bool { return w.tokenLoop(h.Parent(), h) }
				inner := func(s *State, h *ssa.BasicBlock) bool {
					return s.ghost["!area"] != nil && x.loops(h.Parent()).byHeader[h] != nil && !a.outer(s, h)
				}
				join, head, back := x.H.JoinAt, x.H.Head, x.H.BackEdge
				x.H.JoinAt = func(s *State, h *ssa.BasicBlock) (string, int, bool) {
					if inner(s, h) {
						return "", 0, true
					}
					return join(s, h)
				}
				x.H.Head = func(x *Exec, s *State, h *ssa.BasicBlock) {
					head(x, s, h)
					if inner(s, h) {
						a.head(s, h)
					}
				}
				x.H.BackEdge = func(x *Exec, s *State, h *ssa.BasicBlock, in func(*Term) bool, old, nw map[*ssa.Phi]*Term) {
					if inner(s, h) {
						a.verify(s, h, func(ph *ssa.Phi) *Term { return nw[ph] })
					}
					back(x, s, h, in, old, nw)
				}
				x.H.Edge = func(x *Exec, s *State, from, to *ssa.BasicBlock) {
					if lp := x.loops(from.Parent()).byHeader[to]; lp != nil && !lp.body[from] && inner(s, to) {
						pi := predIndex(to, from)
						a.verify(s, to, func(ph *ssa.Phi) *Term { return x.val(s, ph.Edges[pi]) })
					}
				}
				t.after = append(t.after, func() {
					again = a.again
					if handled == 0 || a.puts == 0 {
						t.bad(mrgEvery, name, p.Pos(sw.get.Pos()), "no area is handled")
					}
				})
				return s
			})
			if again && try < 12 {
				continue
			}
			if again {
				tmp.bad("undecided", name, p.Pos(sw.get.Pos()), "no bounds of the loops were found")
			}
			r.take(tmp)
			break
		}
	}
}
