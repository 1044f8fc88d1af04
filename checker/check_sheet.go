package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P24", "path-sensitive abstract interpretation of every Scan method",
		"Every store through a scan destination is traced to the value of the column with the same number and to the destination's type; a nil result needs a store for every destination (scan rule), and every error needs a reason on its path.", func(r *Report) {
			for _, c := range r.collections() {
				c.checkScan(r)
			}
		})
	register("P25", "path-sensitive abstract interpretation of every row accessor",
		"The slices returned by the row accessors have to be allocated by the call, have one entry per column, and the entry of each column (scan rule: every column, in order) is traced to the cell of that column of the current row.", func(r *Report) {
			for _, c := range r.collections() {
				c.checkAccessors(r)
			}
			checkTypeNames(r)
		})
	register("P26", "path-sensitive abstract interpretation of Next, value source tracing of Get and a whole-program store rule for the position",
		"Next has to move by one row and return true exactly if there is one; the accessors have to use that row and leave the position alone; the position is written nowhere else except to the place before the first row, where the collection returned by every Get is; that collection is allocated by the call.", checkIteration)
	register("P30", "path-sensitive abstract interpretation of every IsEmpty method",
		"A result of false needs a cell which is known not to be blank, a result of true needs a complete scan of all cells of all rows (scan rule, nested).", func(r *Report) {
			for _, c := range r.collections() {
				c.checkIsEmpty(r)
			}
		})
}

// coll is a type of collection: a position in a list of rows.
type coll struct {
	p          *Prog
	t          types.Type
	name       string
	cells      bool // rows of cells, not of text
	fRows      int
	fPos       int
	d          int64 // current row = position + d
	cell, elem types.Type
	row        types.Type
	methods    map[string]*ssa.Function
	recv       *Term // receiver of the method being analysed
}

func (r *Report) collections() (res []*coll) {
	p := r.P
	iface := p.Iface(modPath, "Collection")
	if iface == nil {
		r.bad("anchor", "Collection", "?", "interface not found")
		return
	}
	impl := p.Implementers(iface)
	if len(impl) < 2 {
		r.bad("anchor", "implementations of Collection", "?", fmt.Sprintf("%d found, at least 2 expected", len(impl)))
	}
	for _, t := range impl {
		if c := r.collection(t); c != nil {
			res = append(res, c)
		}
	}
	return
}

func (r *Report) collection(t types.Type) *coll {
	c := &coll{p: r.P, t: t, fRows: -1, fPos: -1, methods: map[string]*ssa.Function{}}
	n := namedOf(t)
	if pt, ok := under(t).(*types.Pointer); ok {
		n = namedOf(pt.Elem())
	}
	if n == nil {
		return nil
	}
	c.name = n.Obj().Pkg().Name() + "." + n.Obj().Name()
	st, _ := n.Underlying().(*types.Struct)
	if st == nil {
		r.bad("anchor", c.name, "?", "not a struct with a list of rows")
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		s1, ok := under(st.Field(i).Type()).(*types.Slice)
		if !ok {
			continue
		}
		s2, ok := under(s1.Elem()).(*types.Slice)
		if !ok {
			continue
		}
		c.row, c.cell, c.fRows = s1.Elem(), s2.Elem(), i
		if s3, ok := under(s2.Elem()).(*types.Slice); ok {
			c.cells, c.elem = true, s3.Elem()
		}
	}
	if c.fRows < 0 {
		r.bad("anchor", c.name, "?", "no list of rows")
		return nil
	}
	for _, m := range []string{"Next", "Strings", "Types", "Formats", "Raw", "Scan", "IsEmpty"} {
		f := r.P.PMethod(n.Obj().Pkg().Path(), n.Obj().Name(), m)
		if m == "Raw" && (f == nil || !c.cells) {
			continue
		}
		if !r.need(c.name+"."+m, f) {
			return nil
		}
		c.methods[m] = f
	}
	// the position is the number changed by Next
	r.analyse(c.name+".Next (position)", c.methods["Next"], func(x *Exec, tt *Report) *State {
		s0 := x.Start(c.methods["Next"])
		x.H.Store = func(x *Exec, s *State, addr, val *Term, at ssa.Instruction) {
			if addr.Op == OFieldAddr && addr.Args[0] == s0.param(0) && isInt(val.T) {
				c.fPos = int(addr.I)
			}
		}
		return s0
	})
	if c.fPos < 0 {
		r.bad("anchor", c.name+".Next", "?", "does not change a position")
		return nil
	}
	// the row used by Strings
	found := map[int64]bool{}
	r.analyse(c.name+".Strings (row)", c.methods["Strings"], func(x *Exec, tt *Report) *State {
		s0 := c.start(x, c.methods["Strings"])
		pos, rows := c.pos(s0), c.rows(s0)
		x.H.Load = func(x *Exec, s *State, addr *Term, at ssa.Instruction) {
			if addr.Op == OIndexAddr && eqMod(addr.Args[0], rows) {
				if d, ok := tSub(addr.Args[1], pos).intConst(); ok {
					found[d] = true
				}
			}
		}
		return s0
	})
	if len(found) != 1 {
		r.bad("anchor", c.name+".Strings", r.P.Pos(c.methods["Strings"].Pos()), "does not read the row at the position")
		return nil
	}
	for d := range found {
		c.d = d
	}
	return c
}

func (c *coll) rows(s *State) *Term { return s.load(fieldAddrOf(c.recv, c.fRows)) }
func (c *coll) pos(s *State) *Term  { return s.load(fieldAddrOf(c.recv, c.fPos)) }

func (c *coll) start(x *Exec, fn *ssa.Function) *State {
	s := x.Start(fn)
	c.recv = s.param(0)
	return s
}

func (c *coll) rowTerm(s *State) *Term {
	return s.load(tIndexAddr(c.rows(s), tAdd(c.pos(s), tInt(c.d)), types.NewPointer(c.row)))
}

// eqMod compares terms which only differ in when memory was read.
func eqMod(a, b *Term) bool {
	if a == b {
		return true
	}
	if a == nil || b == nil || a.Op != b.Op {
		return false
	}
	if a.Op == OInit {
		return eqMod(a.Args[0], b.Args[0])
	}
	if a.Op == OSym || a.Op == OObj || a.Op == OConst || len(a.Args) != len(b.Args) || a.I != b.I || a.S != b.S || a.K != b.K || a.C != b.C || a.G != b.G || len(a.Coef) != len(b.Coef) {
		return false
	}
	for i := range a.Coef {
		if a.Coef[i] != b.Coef[i] {
			return false
		}
	}
	for i := range a.Args {
		if !eqMod(a.Args[i], b.Args[i]) {
			return false
		}
	}
	return true
}

// column recognises the contents of a column of the row: for text rows the
// text, for rows of cells the cell.
func (c *coll) column(t, row *Term) (i *Term, ok bool) {
	if t != nil && t.Op == OInit && t.Args[0].Op == OIndexAddr && eqMod(t.Args[0].Args[0], row) {
		return t.Args[0].Args[1], true
	}
	return nil, false
}

// part recognises element k of a cell of the row.
func (c *coll) part(t, row *Term) (i *Term, k int64, ok bool) {
	if t == nil || t.Op != OInit || t.Args[0].Op != OIndexAddr {
		return
	}
	i, ok = c.column(t.Args[0].Args[0], row)
	if !ok {
		return
	}
	k, ok = t.Args[0].Args[1].intConst()
	return
}

func (c *coll) cellAt(s *State, row, i *Term) *Term {
	return s.load(tIndexAddr(row, i, types.NewPointer(c.cell)))
}

func (c *coll) partAt(s *State, row, i *Term, k int64) *Term {
	return s.load(tIndexAddr(c.cellAt(s, row, i), tInt(k), types.NewPointer(c.elem)))
}

func (c *coll) tag(s *State, row, i *Term, ct types.Type) *Term {
	return tAssert(c.partAt(s, row, i, 1), ct)
}

// wrapModel keeps calls of WrapErr as terms: their effect is decided by P04.
func wrapModel(p *Prog) func(x *Exec, s *State, ev *CallEvent) ([]Outcome, bool) {
	wrap := p.Func(modPath, "WrapErr")
	return func(x *Exec, s *State, ev *CallEvent) ([]Outcome, bool) {
		if ev.Fn == nil || ev.Fn != wrap {
			return nil, false
		}
		va, ok := s.varargs(ev.Args[0])
		if !ok {
			return nil, false
		}
		t := tCall("wrap", tErrType, va...)
		return []Outcome{{Res: t, Assume: []*Term{tNot(tEq(t, tNil(tErrType), nil))}}}, true
	}
}

func matchesErr(e, target *Term) bool {
	return e == target || e.Op == OCall && e.S == "wrap" && e.anySub(func(u *Term) bool { return u == target })
}

// scanTypes: destination types, and the type of the cell value they accept.
func scanTypes(p *Prog) (dst, src []types.Type) {
	b := func(k types.BasicKind) types.Type { return types.Typ[k] }
	dst = []types.Type{b(types.Bool), b(types.Int), b(types.Int64), b(types.Float64), b(types.String)}
	src = []types.Type{b(types.Bool), b(types.Int64), b(types.Int64), b(types.Float64), b(types.String)}
	if t := p.timeType(); t != nil {
		dst, src = append(dst, t), append(src, t)
	}
	return
}

func (p *Prog) timeType() types.Type {
	for _, pk := range p.SSA.AllPackages() {
		if pk.Pkg.Path() == "time" {
			if o := pk.Pkg.Scope().Lookup("Time"); o != nil {
				return o.Type()
			}
		}
	}
	return nil
}

func (c *coll) checkScan(r *Report) {
	fn := c.methods["Scan"]
	name := c.name + ".Scan"
	p := r.P
	invalid := p.errVar("ErrInvalidScanType")
	if invalid == nil {
		r.bad("anchor", "ErrInvalidScanType", "?", "not a constant error value")
		return
	}
	dst, src := scanTypes(p)
	const rule = "a destination gets the value of its column"
	const erule = "an error has a reason"
	truthy := []string{"1", "t", "true", "y", "yes"}
	r.analyse(name, fn, func(x *Exec, t *Report) *State {
		if x.JoinAt >= 30 {
			x.JoinAt = 400
		}
		sc := newScan(t, "nil means that every destination was set", name)
		s0 := c.start(x, fn)
		args := s0.param(1)
		row := c.rowTerm(s0)
		x.H.Call = wrapModel(p)
		x.H.Load = func(x *Exec, s *State, addr *Term, at ssa.Instruction) {
			if addr.Op == OIndexAddr && addr.Args[0] == args {
				s.ghost["!arg"] = tTuple(addr.Args[1], s.load(addr))
			}
			if addr.Op == OIndexAddr && eqMod(addr.Args[0], row) {
				s.ghost["!text"] = tTuple(addr.Args[1], s.load(addr))
			}
		}
		x.H.Store = func(x *Exec, s *State, addr, val *Term, at ssa.Instruction) {
			if addr.Op != OAssert {
				return
			}
			base, idx, ok := elemOf(addr)
			if !ok || base != args {
				return
			}
			pos := x.P.InstrPos(at)
			ty := pointee(addr)
			con := name + " into *" + types.TypeString(ty, nopkg)
			bad := func(msg string) { t.bad(rule, con, pos, msg, s.trail.lines(10)...) }
			t.ok(rule, con, pos)
			sc.visit(x, s, args, idx, at)
			var want types.Type
			for i, d := range dst {
				if types.Identical(d, ty) {
					want = src[i]
				}
			}
			if want == nil {
				bad("a destination of this type is not supported")
				return
			}
			if c.cells {
				if val.Op == OAssert && types.Identical(val.T, want) {
					i, k, ok := c.part(val.Args[0], row)
					switch {
					case !ok || k != 0:
						bad("is set to " + val.String() + ", not to the value of a cell of the current row")
					case !s.is(tEqInt(i, idx)):
						bad("destination " + idx.String() + " gets the value of column " + i.String())
					case !s.is(tIsType(val.Args[0], want)):
						bad("the value is not known to have the type of the destination")
					}
					return
				}
				if v, ok := val.strConst(); ok && v == "" && s.is(tLe(tLen(c.cellAt(s, row, idx)), tInt(0))) {
					return // nothing in the cell
				}
				bad("is set to " + val.String() + ", not to the value of the cell")
				return
			}
			var text *Term
			if g := s.ghost["!text"]; g != nil && s.is(tEqInt(g.Args[0], idx)) {
				text = g.Args[1]
			} else {
				text = s.load(tIndexAddr(row, idx, types.NewPointer(c.cell)))
			}
			isText := func(u *Term) bool {
				i, ok := c.column(u, row)
				return ok && s.is(tEqInt(i, idx))
			}
			b, _ := under(ty).(*types.Basic)
			switch {
			case b != nil && b.Kind() == types.String:
				if !isText(val) {
					bad("is set to " + val.String() + ", not to the text of column " + idx.String())
				}
			case b != nil && (b.Kind() == types.Int || b.Kind() == types.Int64 || b.Kind() == types.Float64):
				msg, e := c.parsed(val, b.Kind(), isText)
				if msg != "" {
					bad("is set to " + val.String() + ": " + msg)
				} else if s.nilnessErr(e) != True {
					bad("is set although the text may not be a number")
				}
			case b != nil && b.Kind() == types.Bool:
				for _, w := range []bool{true, false} {
					u := s.clone()
					cond := val
					if !w {
						cond = tNot(val)
					}
					if u.isNot(cond) || !u.assume(cond) {
						continue
					}
					if g := u.ghost["!true"]; g != nil {
						if b, _ := g.boolConst(); b != w {
							bad(fmt.Sprintf("is set to %v for text where that is wrong", w))
						}
						continue
					}
					low := tCall("strings.ToLower", types.Typ[types.String], text)
					n := 0
					for _, tr := range truthy {
						q := tEq(low, tStr(tr), types.Typ[types.String])
						if w && u.is(q) || !w && !u.isNot(q) {
							n++
						}
					}
					if w && n == 0 || !w && n > 0 {
						bad(fmt.Sprintf("is set to %v for text where that is not known to be right", w))
					}
				}
			default:
				bad("a destination of this type is not supported by text files")
			}
		}
		// one state for the start of the next iterations
		x.H.JoinAt = func(s *State, blk *ssa.BasicBlock) (string, int, bool) {
			if x.loops(s.fr.ctx.Fn).byHeader[blk] == nil || s.ghost["!arg"] != nil || s.ghost["!text"] != nil {
				return "", 0, false
			}
			k := ""
			for _, ph := range headerPhis(blk) {
				if v := s.fr.regs[ph]; v != nil {
					k += fmt.Sprintf("%d,", v.id)
				}
			}
			return k, 0, true
		}
		// the value of column i does not have the type of the kth kind of destination
		otherType := func(s *State, i *Term, k int) bool {
			none := s.is(tLe(tLen(c.cellAt(s, row, i)), tInt(0)))
			return none && !isBasic(src[k], types.IsString) || s.isNot(tIsType(c.partAt(s, row, i, 0), src[k]))
		}
		x.H.BackEdge = func(x *Exec, s *State, h *ssa.BasicBlock, in func(*Term) bool, old, nw map[*ssa.Phi]*Term) {
			sc.backEdge(x, s, h, old, nw)
			if s.ghost["!v"+name] == nil {
				delete(s.ghost, "!arg")
				delete(s.ghost, "!text")
				delete(s.ghost, "!ty")
				delete(s.ghost, "!true")
				delete(s.ghost, "!other")
				// what was found out about the column does not matter any more
				s.facts = s.facts.filter(func(f *Term) bool {
					return !f.anySub(func(u *Term) bool {
						return u.Op == OIndexAddr && (u.Args[0] == args || eqMod(u.Args[0], row))
					})
				})
			}
		}
		// what is known about the destination is kept apart at joins
		x.H.Edge = func(x *Exec, s *State, from, to *ssa.BasicBlock) {
			sc.edge(x, s, from, to)
			if g := s.ghost["!arg"]; g != nil && s.ghost["!ty"] == nil {
				possible := 0
				for k, d := range dst {
					q := tIsType(g.Args[1], types.NewPointer(d))
					if s.is(q) {
						s.ghost["!ty"] = tInt(int64(k))
					} else if !s.isNot(q) {
						possible++
					}
				}
				if possible == 0 && s.ghost["!ty"] == nil {
					s.ghost["!ty"] = tInt(-1)
				}
			}
			if g, ty := s.ghost["!arg"], s.ghost["!ty"]; c.cells && g != nil && ty != nil && s.ghost["!other"] == nil {
				if k, _ := ty.intConst(); k >= 0 && otherType(s, g.Args[0], int(k)) {
					s.ghost["!other"] = tBool(true)
				}
			}
			if g := s.ghost["!text"]; g != nil && !c.cells && s.ghost["!true"] == nil {
				low := tCall("strings.ToLower", types.Typ[types.String], g.Args[1])
				not := 0
				for _, tr := range truthy {
					q := tEq(low, tStr(tr), types.Typ[types.String])
					if s.is(q) {
						s.ghost["!true"] = tBool(true)
					} else if s.isNot(q) {
						not++
					}
				}
				if not == len(truthy) {
					s.ghost["!true"] = tBool(false)
				}
			}
		}
		x.H.Return = func(x *Exec, s *State, res []*Term, at ssa.Instruction) {
			pos := x.P.InstrPos(at)
			e := res[0]
			n, m := tLen(args), tLen(row)
			switch s.nilness(e) {
			case True:
				t.ok("success", name, pos)
				if !sc.complete(s, args) {
					t.bad("success", name, pos, "returns nil although not every destination was set", s.trail.lines(10)...)
				}
				if !s.is(tLe(n, m)) {
					t.bad("success", name, pos, "returns nil although there may be more destinations than columns", s.trail.lines(10)...)
				}
				return
			case Unknown:
				t.bad("success", name, pos, "returns "+e.String()+", which may or may not be an error", s.trail.lines(10)...)
				return
			}
			t.ok(erule, name, pos)
			bad := func(msg string) { t.bad(erule, name, pos, msg, s.trail.lines(12)...) }
			if s.is(tLt(m, n)) || !c.cells && s.isNot(tEqInt(m, n)) {
				return
			}
			g := s.ghost["!arg"]
			if g == nil {
				bad("an error is returned before any destination was examined")
				return
			}
			i := g.Args[0]
			a := g.Args[1]
			possible := 0
			for k, d := range dst {
				q := tIsType(a, types.NewPointer(d))
				if ty := s.ghost["!ty"]; ty != nil {
					if n, _ := ty.intConst(); n != int64(k) {
						continue
					}
				} else if s.isNot(q) {
					continue
				} else if !s.is(q) {
					possible++
					continue
				}
				possible++
				if c.cells {
					if s.ghost["!other"] != nil || otherType(s, i, k) {
						return
					}
					bad("a *" + types.TypeString(d, nopkg) + " destination is rejected although the value may have that type")
					return
				}
				b, _ := under(d).(*types.Basic)
				switch {
				case b == nil:
					return // dates of text files
				case b.Info()&types.IsNumeric != 0:
					isText := func(u *Term) bool {
						j, ok := c.column(u, row)
						return ok && s.is(tEqInt(i, j))
					}
					if e.Op == OCall && strings.HasPrefix(e.S, "strconv.") && len(e.Args) > 0 && isText(e.Args[0]) {
						return
					}
					ok := false
					e.anySub(func(u *Term) bool {
						ok = ok || u.Op == OCall && strings.HasPrefix(u.S, "strconv.") && len(u.Args) > 0 && isText(u.Args[0])
						return ok
					})
					if e.Site != nil {
						for _, f := range s.facts.sorted() {
							f.anySub(func(u *Term) bool {
								ok = ok || u.Op == OCall && strings.HasPrefix(u.S, "strconv.Parse") && strings.HasSuffix(u.S, "#1") && isText(u.Args[0]) && s.nilness(u) == False
								return ok
							})
						}
					}
					if !ok {
						bad("a number is rejected without a failure to parse it")
					}
					return
				}
				bad("a *" + types.TypeString(d, nopkg) + " destination is rejected")
				return
			}
			if possible > 0 {
				bad("the destination may be of a supported type")
				return
			}
			if !matchesErr(e, invalid) {
				bad("the error for an unsupported destination does not match the invalid scan type error")
			}
		}
		t.after = append(t.after, func() { sc.done(x) })
		return s0
	})
}

func (s *State) nilnessErr(e *Term) Tri {
	if e == nil {
		return Unknown
	}
	return s.nilness(e)
}

// parsed checks that a number was parsed from text in base ten at full width.
func (c *coll) parsed(v *Term, k types.BasicKind, isText func(*Term) bool) (msg string, e *Term) {
	for v.Op == OConv {
		v = v.Args[0]
	}
	if v.Op != OCall || !strings.HasPrefix(v.S, "strconv.") || len(v.Args) == 0 || !isText(v.Args[0]) {
		return "not the number parsed from the text of its column", nil
	}
	e = tCall(strings.TrimSuffix(v.S, "#0")+"#1", tErrType, v.Args...)
	arg := func(i int) int64 {
		if i < len(v.Args) {
			if n, ok := v.Args[i].intConst(); ok {
				return n
			}
		}
		return -1
	}
	switch v.S {
	case "strconv.ParseInt#0":
		if k == types.Float64 {
			return "an integer parser is used", e
		}
		if arg(1) != 10 || arg(2) != 64 && arg(2) != 0 {
			return "not parsed as a decimal number of 64 bits", e
		}
	case "strconv.Atoi#0":
		if k == types.Float64 {
			return "an integer parser is used", e
		}
	case "strconv.ParseFloat#0":
		if k != types.Float64 {
			return "parsed as a floating point number", e
		}
		if arg(1) != 64 {
			return "not parsed at full precision", e
		}
	default:
		return "parsed by " + v.S, e
	}
	return "", e
}

// ---- P25

func (c *coll) checkAccessors(r *Report) {
	for _, m := range []string{"Strings", "Types", "Formats", "Raw"} {
		if c.methods[m] != nil {
			c.checkAccessor(r, m)
		}
	}
}

func (c *coll) checkAccessor(r *Report, m string) {
	p := r.P
	fn := c.methods[m]
	name := c.name + "." + m
	const rule = "an entry shows its own column"
	ct := p.Type(cxlPath, "CellType")
	apply := p.PMethod(cxlPath, "Formatter", "Apply")
	typeName := p.PMethod(cxlPath, "CellType", "String")
	if c.cells && (ct == nil || !r.need("Formatter.Apply", apply) || !r.need("CellType.String", typeName)) {
		return
	}
	r.analyse(name, fn, func(x *Exec, t *Report) *State {
		if x.JoinAt >= 30 {
			x.JoinAt = 400
		}
		sc := newScan(t, "every column has its entry", name)
		s0 := c.start(x, fn)
		row := c.rowTerm(s0)
		rows0, pos0 := c.rows(s0), c.pos(s0)
		lastAt := ""
		cols := []*Term{tLen(row)}
		if c.cells {
			st := under(pointee(s0.param(0))).(*types.Struct)
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == "NumCols" {
					// rows have that many cells (P29)
					nc := s0.load(fieldAddrOf(s0.param(0), i))
					cols = append(cols, nc)
					s0.assumeQuiet(tEqInt(nc, tLen(row)))
				}
			}
		}
		x.H.Call = func(x *Exec, s *State, ev *CallEvent) ([]Outcome, bool) {
			switch {
			case ev.Fn != nil && ev.Fn == apply:
				return []Outcome{{Res: tTuple(tCall("apply", types.Typ[types.String], ev.Args[1:]...), x.fresh(s, ev.Instr, "known", types.Typ[types.Bool]))}}, true
			case ev.Fn != nil && ev.Fn == typeName:
				return []Outcome{{Res: tCall("typename", types.Typ[types.String], ev.Args...)}}, true
			case ev.Name == "builtin.copy":
				if ev.Args[0].T != nil && types.Identical(under(ev.Args[0].T), under(c.row)) || ev.Args[0].Op == OObj {
					if eqMod(ev.Args[1], row) {
						s.ghost["!copy"] = tTuple(ev.Args[0])
					}
				}
			}
			return nil, false
		}
		x.H.Load = func(x *Exec, s *State, addr *Term, at ssa.Instruction) {
			if addr.Op == OIndexAddr && eqMod(addr.Args[0], row) {
				s.ghost["!col"] = tTuple(addr.Args[1])
			}
		}
		x.H.Store = func(x *Exec, s *State, addr, val *Term, at ssa.Instruction) {
			if addr.Op != OIndexAddr {
				return
			}
			b, off := sliceParts(addr.Args[0])
			root := rootOf(addr)
			el := pointee(addr)
			if m == "Raw" && types.Identical(el, c.cell) || m != "Raw" && isBasic(el, types.IsString) {
				if root.Op != OObj {
					t.bad("rows are not changed", name, x.P.InstrPos(at), "an accessor writes to "+addr.String(), s.trail.lines(8)...)
					return
				}
				if isVarargs(root) {
					return
				}
				lastAt = x.P.InstrPos(at)
				s.ghost["!out"] = tTuple(tAdd(addr.Args[1], off), val, b)
			}
		}
		x.H.Append = func(x *Exec, s *State, base *Term, elems []*Term, at ssa.Instruction) {
			if base.T == nil || len(elems) != 1 {
				return
			}
			sl, ok := under(base.T).(*types.Slice)
			if !ok || !(m == "Raw" && types.Identical(sl.Elem(), c.cell) || m != "Raw" && isBasic(sl.Elem(), types.IsString)) {
				return
			}
			at0 := mk(Term{Op: OCall, S: "this column"})
			if g := s.ghost["!col"]; g != nil {
				at0 = g.Args[0]
			}
			if s.ghost["!out"] != nil {
				t.bad(rule, name, x.P.InstrPos(at), "a column gets two entries", s.trail.lines(8)...)
			}
			if rootOf(base).Op == OObj && !s.is(tEqInt(tLen(base), tInt(0))) {
				t.bad(rule, name, x.P.InstrPos(at), "the entries are appended to a list which is not empty", s.trail.lines(8)...)
			}
			lastAt = x.P.InstrPos(at)
			s.ghost["!out"] = tTuple(at0, elems[0], base)
			s.ghost["!appended"] = tInt(1)
		}
		x.H.BackEdge = func(x *Exec, s *State, h *ssa.BasicBlock, in func(*Term) bool, old, nw map[*ssa.Phi]*Term) {
			if g := s.ghost["!out"]; g != nil {
				i, v := g.Args[0], g.Args[1]
				if i.Op == OCall && i.S == "this column" {
					i = loopIndex(old, nw)
				}
				t.ok(rule, name, lastAt)
				sc.visit(x, s, row, i, h.Instrs[0])
				if msg := c.entry(s, m, row, i, v, ct, typeName); msg != "" {
					t.bad(rule, name, lastAt, "the entry of column "+i.String()+" is "+v.String()+": "+msg, s.trail.lines(10)...)
				}
				delete(s.ghost, "!out")
				delete(s.ghost, "!col")
			}
			sc.backEdge(x, s, h, old, nw)
		}
		x.H.Edge = sc.edge
		copied := false
		x.H.Return = func(x *Exec, s *State, res []*Term, at ssa.Instruction) {
			pos := x.P.InstrPos(at)
			v := res[0]
			t.ok("one entry per column, in a new list", name, pos)
			bad := func(msg string) {
				t.bad("one entry per column, in a new list", name, pos, msg, s.trail.lines(8)...)
			}
			if !eqMod(c.rows(s), rows0) || !eqMod(c.pos(s), pos0) {
				bad("the accessor changes the position or the rows")
			}
			if v.Op == OAppendS && (v.Args[0].isNil() || s.is(tEqInt(tLen(v.Args[0]), tInt(0))) && rootOf(v.Args[0]).Op == OObj) && eqMod(v.Args[1], row) && m == "Strings" && !c.cells {
				copied = true
				return
			}
			appended := s.ghost["!appended"] != nil
			if rootOf(v).Op != OObj && !appended && !(v.Op == OSlice && v.Args[0].Op == OObj) {
				bad("returns " + v.String() + ", which was not made by the call")
				return
			}
			if !appended {
				ok := false
				for _, n := range cols {
					ok = ok || s.is(tEqInt(tLen(v), n))
				}
				if !ok {
					bad("the list has " + tLen(v).String() + " entries")
				}
			}
			if g := s.ghost["!copy"]; g != nil && g.Args[0] == v && m == "Strings" && !c.cells {
				copied = true
				return
			}
			if !sc.complete(s, row) {
				bad("returns although not every column has its entry")
			}
		}
		t.after = append(t.after, func() {
			if !copied {
				sc.done(x)
			}
		})
		return s0
	})
}

// loopIndex is the index of the current round of a counting loop: the counter
// itself if it starts at zero, the counter after the step if the step comes
// first (it starts at minus one).
func loopIndex(old, nw map[*ssa.Phi]*Term) *Term {
	var res *Term
	for phi := range old {
		if !isBasic(phi.Type(), types.IsInteger) {
			continue
		}
		for _, e := range phi.Edges {
			c, ok := e.(*ssa.Const)
			if !ok || c.Value == nil {
				continue
			}
			switch n, ok := constTerm(c).intConst(); {
			case ok && n == -1 && nw[phi] != nil:
				res = nw[phi]
			case ok && n == 0 && res == nil:
				res = old[phi]
			}
		}
	}
	if res == nil {
		return mk(Term{Op: OCall, S: "this column", T: types.Typ[types.Int]})
	}
	return res
}

// entry checks the final entry of a column; it returns what is wrong.
func (c *coll) entry(s *State, m string, row, i, v *Term, ct types.Type, typeName *ssa.Function) string {
	if !c.cells {
		text := s.load(tIndexAddr(row, i, types.NewPointer(c.cell)))
		empty := tEq(text, tStr(""), types.Typ[types.String])
		switch m {
		case "Strings":
			if j, ok := c.column(v, row); !ok || !s.is(tEqInt(i, j)) {
				return "not the text of the column"
			}
		case "Types":
			w, ok := v.strConst()
			if !ok || w != "blank" && w != "string" {
				return "not a type of text files"
			}
			if w == "blank" && !s.is(empty) || w == "string" && !s.isNot(empty) {
				return "the text of the column may be different"
			}
		case "Formats":
			if w, ok := v.strConst(); !ok || w != "General" {
				return "text has the general format"
			}
		}
		return ""
	}
	cell := c.cellAt(s, row, i)
	val := c.partAt(s, row, i, 0)
	tag := c.tag(s, row, i, ct)
	short := func(n int64) bool { return s.is(tLt(tLen(cell), tInt(n))) }
	// the number format of the cell
	isFmt := func(u *Term) bool {
		if n, ok := u.intConst(); ok {
			return n == 0 && short(3)
		}
		j, k, ok := c.part(u.inner(OAssert), row)
		return ok && k == 2 && s.is(tEqInt(i, j))
	}
	isVal := func(u *Term) bool {
		j, k, ok := c.part(u, row)
		return ok && k == 0 && s.is(tEqInt(i, j))
	}
	blank := func() bool {
		return short(2) || s.is(tEqInt(tag, tInt(0))) || s.nilness(val) == True
	}
	value := func() bool { // known to have a value
		return s.nilness(val) == False || !short(2) && s.isNot(tEqInt(tag, tInt(0))) && s.isNot(tEq(val, tNil(val.T), nil))
	}
	switch m {
	case "Strings":
		if w, ok := v.strConst(); ok {
			if w != "" {
				return "a fixed text"
			}
			if !blank() {
				return "the cell may have a value"
			}
			return ""
		}
		if v.Op == OAssert && isVal(v.Args[0]) && isBasic(v.T, types.IsString) {
			return "" // text as it is
		}
		if v.Op == OCall && v.S == "apply" {
			if !isFmt(v.Args[0]) || !isVal(v.Args[1]) {
				return "not the value of the cell in the number format of the cell"
			}
			if !value() {
				return "the cell may be blank"
			}
			return ""
		}
		if v.Op == OCall && v.S == "fmt.Sprint" && len(v.Args) == 1 && isVal(v.Args[0]) {
			if !value() {
				return "the cell may be blank"
			}
			return ""
		}
		return "not the rendered value of the cell"
	case "Types":
		if v.Op == OCall && v.S == "typename" {
			u := v.Args[0]
			if n, ok := u.intConst(); ok && n == 0 && short(2) {
				return ""
			}
			j, k, ok := c.part(u.inner(OAssert), row)
			if ok && k == 1 && s.is(tEqInt(i, j)) {
				return ""
			}
		}
		if w, ok := v.strConst(); ok && w == "blank" && (short(2) || s.is(tEqInt(tag, tInt(0)))) {
			return ""
		}
		return "not the type of the cell"
	case "Formats":
		if v.Op == OMapGet && isFmt(v.Args[1]) {
			if !s.is(mk(Term{Op: OMapHas, Args: append([]*Term{}, v.Args...), T: types.Typ[types.Bool]})) {
				return "the format may have no code in the table"
			}
			return ""
		}
		if v.Op == OCall && v.S == "fmt.Sprint" && len(v.Args) == 1 && isFmt(v.Args[0].inner(OIface)) {
			return ""
		}
		if v.Op == OCall && strings.HasPrefix(v.S, "strconv.") && isFmt(v.Args[0].inner(OConv)) {
			return ""
		}
		return "neither the format code nor the number of the format of the cell"
	case "Raw":
		// a copy of the cell
		if v.Op == OObj || v.Op == OSlice && v.Args[0].Op == OObj || v.Op == OAppendS {
			return ""
		}
		return "shares its memory with the sheet"
	}
	return ""
}

// inner strips a wrapper.
func (t *Term) inner(op Op) *Term {
	for t.Op == op && len(t.Args) > 0 {
		t = t.Args[0]
	}
	return t
}

// checkTypeNames evaluates the names of the cell types.
func checkTypeNames(r *Report) {
	p := r.P
	ct := p.Type(cxlPath, "CellType")
	fn := p.PMethod(cxlPath, "CellType", "String")
	if ct == nil || !r.need("CellType.String", fn) {
		return
	}
	want := map[string]string{"BlankCell": "blank", "IntegerCell": "integer", "FloatCell": "float", "StringCell": "string", "BooleanCell": "boolean", "DateCell": "date", "HyperlinkStringCell": "hyperlink"}
	for k, w := range want {
		n, ok := p.intConst(cxlPath, k)
		if !ok {
			r.bad("anchor", k, "?", "constant not found")
			continue
		}
		con := k
		name := w
		r.analyse("name of "+k, fn, func(x *Exec, t *Report) *State {
			s0 := x.Start(fn)
			s0.fr.regs[fn.Params[0]] = tInt(n)
			x.H.Return = func(x *Exec, s *State, res []*Term, at ssa.Instruction) {
				t.ok("names of the types", con, x.P.InstrPos(at))
				if v, ok := res[0].strConst(); !ok || v != name {
					t.bad("names of the types", con, x.P.InstrPos(at), "is reported as "+res[0].String()+", not as \""+name+"\"")
				}
			}
			return s0
		})
	}
	r.expect("names of the types", len(want))
}

// intConst finds the value of an integer constant of a package.
func (p *Prog) intConst(pkg, name string) (int64, bool) {
	sp := p.ByPkg[pkg]
	if sp == nil {
		return 0, false
	}
	if c, ok := sp.Members[name].(*ssa.NamedConst); ok {
		return constTerm(c.Value).intConst()
	}
	return 0, false
}

// ---- P30

func (c *coll) checkIsEmpty(r *Report) {
	fn := c.methods["IsEmpty"]
	name := c.name + ".IsEmpty"
	ct := r.P.Type(cxlPath, "CellType")
	const rule = "empty exactly if there is no value"
	r.analyse(name, fn, func(x *Exec, t *Report) *State {
		s0 := c.start(x, fn)
		rows := c.rows(s0)
		outer := newScan(t, "every row is examined", name+" rows")
		inner := newScan(t, "every cell of a row is examined", name+" cells")
		blank := func(s *State, cell *Term) Tri {
			tag := tAssert(s.load(tIndexAddr(cell, tInt(1), types.NewPointer(c.elem))), ct)
			if s.is(tLt(tLen(cell), tInt(2))) || s.is(tEqInt(tag, tInt(0))) {
				return True
			}
			if s.isNot(tLt(tLen(cell), tInt(2))) && s.isNot(tEqInt(tag, tInt(0))) {
				return False
			}
			return Unknown
		}
		if c.cells {
			x.H.Load = func(x *Exec, s *State, addr *Term, at ssa.Instruction) {
				if addr.Op != OIndexAddr {
					return
				}
				if eqMod(addr.Args[0], rows) {
					s.ghost["!row"] = tTuple(addr.Args[1], s.load(addr))
				} else if b := addr.Args[0]; b.Op == OInit && b.Args[0].Op == OIndexAddr && eqMod(b.Args[0].Args[0], rows) {
					s.ghost["!cell"] = tTuple(addr.Args[1], s.load(addr), b)
				}
			}
			x.H.BackEdge = func(x *Exec, s *State, h *ssa.BasicBlock, in func(*Term) bool, old, nw map[*ssa.Phi]*Term) {
				pos := x.P.blockPos(h)
				if g := s.ghost["!cell"]; g != nil {
					switch blank(s, g.Args[1]) {
					case False:
						s.ghost["!found"] = tInt(1)
					case Unknown:
						t.bad(rule, name, pos, "the scan goes on past a cell which may have a value", s.trail.lines(8)...)
					}
					inner.visit(x, s, g.Args[2], g.Args[0], h.Instrs[0])
					delete(s.ghost, "!cell")
					inner.backEdge(x, s, h, old, nw)
					return
				}
				if g := s.ghost["!row"]; g != nil {
					if !inner.complete(s, g.Args[1]) {
						t.bad(rule, name, pos, "the scan goes on to the next row although not every cell was examined", s.trail.lines(8)...)
					}
					outer.visit(x, s, rows, g.Args[0], h.Instrs[0])
					delete(s.ghost, "!row")
					delete(s.ghost, "!x"+inner.name)
				}
				outer.backEdge(x, s, h, old, nw)
			}
			x.H.Edge = func(x *Exec, s *State, from, to *ssa.BasicBlock) {
				inner.edge(x, s, from, to)
				outer.edge(x, s, from, to)
			}
			t.after = append(t.after, func() { outer.done(x); inner.done(x) })
		}
		x.H.Return = func(x *Exec, s *State, res []*Term, at ssa.Instruction) {
			pos := x.P.InstrPos(at)
			t.ok(rule, name, pos)
			for _, w := range []bool{true, false} {
				u := s.clone()
				cond := res[0]
				if !w {
					cond = tNot(cond)
				}
				if u.isNot(cond) || !u.assume(cond) {
					continue
				}
				if !c.cells {
					none := tLe(tLen(rows), tInt(0))
					if w && !u.is(none) || !w && !u.isNot(none) {
						t.bad(rule, name, pos, fmt.Sprintf("returns %v, which may be wrong", w), s.trail.lines(8)...)
					}
					continue
				}
				if w {
					if u.ghost["!found"] != nil {
						t.bad(rule, name, pos, "returns true although a cell has a value", s.trail.lines(8)...)
					}
					if !outer.complete(u, rows) {
						t.bad(rule, name, pos, "returns true although not every row was examined", s.trail.lines(8)...)
					}
					continue
				}
				if u.ghost["!found"] != nil {
					continue
				}
				g := u.ghost["!cell"]
				if g == nil || blank(u, g.Args[1]) != False {
					t.bad(rule, name, pos, "returns false without having found a value", s.trail.lines(8)...)
				}
			}
		}
		return s0
	})
}

// ---- P26

func checkIteration(r *Report) {
	p := r.P
	colls := r.collections()
	for _, c := range colls {
		c := c
		fn := c.methods["Next"]
		name := c.name + ".Next"
		const rule = "Next moves to the next row"
		r.analyse(name, fn, func(x *Exec, t *Report) *State {
			s0 := c.start(x, fn)
			rows, old := c.rows(s0), c.pos(s0)
			cur := tAdd(old, tInt(c.d))
			s0.assumeQuiet(tLe(tInt(-1), cur))
			s0.assumeQuiet(tLe(old, tInt(1<<62)))
			x.H.Return = func(x *Exec, s *State, res []*Term, at ssa.Instruction) {
				pos := x.P.InstrPos(at)
				t.ok(rule, name, pos)
				bad := func(msg string) { t.bad(rule, name, pos, msg, s.trail.lines(8)...) }
				if !eqMod(c.rows(s), rows) {
					bad("the rows are changed")
				}
				now := tAdd(c.pos(s), tInt(c.d))
				for _, w := range []bool{true, false} {
					u := s.clone()
					cond := res[0]
					if !w {
						cond = tNot(cond)
					}
					if u.isNot(cond) || !u.assume(cond) {
						continue
					}
					if w {
						if !u.is(tEqInt(now, tAdd(cur, tInt(1)))) {
							bad("returns true but does not move by one row")
						}
						if !u.is(tLt(now, tLen(rows))) {
							bad("returns true although there may be no such row")
						}
						continue
					}
					if !u.is(tLe(tLen(rows), tAdd(cur, tInt(1)))) {
						bad("returns false although there may be another row")
					}
					if !u.is(tLe(tLen(rows), tAdd(now, tInt(1)))) {
						bad("a row can come back after the last one")
					}
				}
			}
			return s0
		})
		// every accessor uses the current row
		for _, m := range []string{"Strings", "Types", "Formats", "Raw", "Scan"} {
			fn := c.methods[m]
			if fn == nil {
				continue
			}
			name := c.name + "." + m
			const rule = "the accessors read the current row"
			seen := 0
			r.analyse(name+" (row)", fn, func(x *Exec, t *Report) *State {
				s0 := c.start(x, fn)
				rows, pos0 := c.rows(s0), c.pos(s0)
				x.H.Load = func(x *Exec, s *State, addr *Term, at ssa.Instruction) {
					if addr.Op != OIndexAddr || !eqMod(addr.Args[0], rows) {
						return
					}
					seen++
					t.ok(rule, name, x.P.InstrPos(at))
					if !s.is(tEqInt(addr.Args[1], tAdd(pos0, tInt(c.d)))) {
						t.bad(rule, name, x.P.InstrPos(at), "reads row "+addr.Args[1].String(), s.trail.lines(6)...)
					}
				}
				x.H.Store = func(x *Exec, s *State, addr, val *Term, at ssa.Instruction) {
					if addr.Op == OFieldAddr && addr.Args[0] == s0.param(0) && (int(addr.I) == c.fPos || int(addr.I) == c.fRows) {
						t.bad(rule, name, x.P.InstrPos(at), "moves the position or changes the rows", s.trail.lines(6)...)
					}
				}
				return s0
			})
			if seen == 0 {
				r.bad(rule, name, p.Pos(fn.Pos()), "the rows are never read")
			}
		}
		c.checkPosWrites(r)
	}
	// every Get returns a collection of its own
	src := p.Iface(modPath, "Source")
	if src == nil {
		r.bad("anchor", "Source", "?", "interface not found")
		return
	}
	n := 0
	for _, t := range p.Implementers(src) {
		nm := namedOf(t)
		if pt, ok := under(t).(*types.Pointer); ok {
			nm = namedOf(pt.Elem())
		}
		get := p.PMethod(nm.Obj().Pkg().Path(), nm.Obj().Name(), "Get")
		con := nm.Obj().Pkg().Name() + "." + nm.Obj().Name() + ".Get"
		if !r.need(con, get) {
			continue
		}
		n++
		const rule = "Get returns a collection of its own"
		r.ok(rule, con, p.Pos(get.Pos()))
		srcs := map[ssa.Value]bool{}
		p.sources(get, 0, srcs, map[*ssa.Function]bool{}, map[ssa.Value]bool{})
		fresh := 0
		for v := range srcs {
			switch v := v.(type) {
			case *ssa.Const:
				continue
			case *ssa.Alloc:
				if v.Heap {
					fresh++
					continue
				}
			}
			at := "?"
			if in, ok := v.(ssa.Instruction); ok {
				at = p.InstrPos(in)
			}
			r.bad(rule, con, at, "the collection returned can be "+v.String()+", which was not made by the call")
		}
		if fresh == 0 {
			r.bad(rule, con, p.Pos(get.Pos()), "no new collection is ever returned")
		}
	}
	r.expect("Get returns a collection of its own", 3)
	_ = n
}

// checkPosWrites: the position is only moved by Next; everything else puts it
// before the first row.
func (c *coll) checkPosWrites(r *Report) {
	p := r.P
	const rule = "the position is moved by Next alone"
	st := pointee0(c.t)
	if st == nil {
		st = c.t
	}
	next := map[*ssa.Function]bool{c.methods["Next"]: true}
	start := -1 - c.d
	zero := start == 0
	inits := 0
	for _, f := range p.allFuncs() {
		if !p.InModule(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Store:
					fa, ok := in.Addr.(*ssa.FieldAddr)
					if !ok || fa.Field != c.fPos || pointee0(fa.X.Type()) == nil || !types.Identical(pointee0(fa.X.Type()), st) {
						continue
					}
					con := c.name + " in " + shortName(f)
					if next[f] || p.onlyFrom(f, c.methods["Next"]) {
						continue
					}
					r.ok(rule, con, p.InstrPos(in))
					k, ok := in.Val.(*ssa.Const)
					if !ok || k.Value == nil {
						r.bad(rule, con, p.InstrPos(in), "the position is set to "+in.Val.String())
						continue
					}
					inits++
					if n, _ := constTerm(k).intConst(); n != start {
						r.bad(rule, con, p.InstrPos(in), fmt.Sprintf("the position is set to %d, the place before the first row is %d", n, start))
					}
				}
			}
		}
	}
	// copies and new objects have to be put before the first row
	for _, f := range p.allFuncs() {
		if !p.InModule(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				al, ok := in.(*ssa.Alloc)
				if !ok || !types.Identical(pointee0(al.Type()), st) {
					continue
				}
				con := "new " + c.name + " in " + shortName(f)
				r.ok(rule, con, p.InstrPos(in))
				copied, set := false, false
				for _, ref := range *al.Referrers() {
					switch ref := ref.(type) {
					case *ssa.Store:
						if ref.Addr == al {
							copied = true
						}
					case *ssa.FieldAddr:
						if ref.Field == c.fPos {
							for _, r2 := range *ref.Referrers() {
								if s2, ok := r2.(*ssa.Store); ok && s2.Addr == ref {
									set = true
								}
							}
						}
					}
				}
				if !set && (copied || !zero) {
					// an object which only serves as a template is never iterated
					if p.templateOnly(al, c) {
						continue
					}
					r.bad(rule, con, p.InstrPos(in), "the position of the new collection is not put before the first row")
				}
			}
		}
	}
}

// templateOnly: the object is never used as a Collection.
func (p *Prog) templateOnly(al *ssa.Alloc, c *coll) bool {
	iface := p.Iface(modPath, "Collection")
	seen := map[ssa.Value]bool{}
	var bad bool
	var rec func(v ssa.Value)
	rec = func(v ssa.Value) {
		if seen[v] || bad {
			return
		}
		seen[v] = true
		refs := v.Referrers()
		if refs == nil {
			return
		}
		for _, ref := range *refs {
			switch ref := ref.(type) {
			case *ssa.MakeInterface:
				if it, ok := under(ref.Type()).(*types.Interface); ok && types.Implements(types.NewInterfaceType(nil, nil), it) || types.Identical(under(ref.Type()), iface) {
					bad = true
				}
			case *ssa.Phi:
				rec(ref)
			case *ssa.ChangeType:
				rec(ref)
			}
		}
	}
	rec(al)
	return !bad
}

// sources collects where result i of a function can come from, following
// calls into the repository.
func (p *Prog) sources(f *ssa.Function, i int, res map[ssa.Value]bool, seenF map[*ssa.Function]bool, seen map[ssa.Value]bool) {
	if seenF[f] {
		return
	}
	seenF[f] = true
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if rt, ok := in.(*ssa.Return); ok && i < len(rt.Results) {
				p.valueSources(rt.Results[i], res, seenF, seen)
			}
		}
	}
}

func (p *Prog) valueSources(v ssa.Value, res map[ssa.Value]bool, seenF map[*ssa.Function]bool, seen map[ssa.Value]bool) {
	if seen[v] {
		return
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.Phi:
		for _, e := range v.Edges {
			p.valueSources(e, res, seenF, seen)
		}
	case *ssa.MakeInterface:
		p.valueSources(v.X, res, seenF, seen)
	case *ssa.ChangeInterface:
		p.valueSources(v.X, res, seenF, seen)
	case *ssa.ChangeType:
		p.valueSources(v.X, res, seenF, seen)
	case *ssa.TypeAssert:
		p.valueSources(v.X, res, seenF, seen)
	case *ssa.Extract:
		if c, ok := v.Tuple.(*ssa.Call); ok {
			if g := c.Call.StaticCallee(); g != nil && p.InModule(g) {
				p.sources(g, v.Index, res, seenF, seen)
				return
			}
		}
		if ta, ok := v.Tuple.(*ssa.TypeAssert); ok && v.Index == 0 {
			p.valueSources(ta.X, res, seenF, seen)
			return
		}
		res[v] = true
	case *ssa.Call:
		if g := v.Call.StaticCallee(); g != nil && p.InModule(g) {
			p.sources(g, 0, res, seenF, seen)
			return
		}
		res[v] = true
	case *ssa.UnOp:
		// a local variable (a named result captured by a deferred function)
		if al, ok := v.X.(*ssa.Alloc); ok {
			if p.varSources(al, res, seenF, seen) {
				return
			}
		}
		if fv, ok := v.X.(*ssa.FreeVar); ok {
			_ = fv
		}
		res[v] = true
	case *ssa.Parameter:
		// not the parameters of the entry
		res[v] = true
	default:
		res[v] = true
	}
}

// varSources: all stores to a local variable, including those of closures.
func (p *Prog) varSources(al ssa.Value, res map[ssa.Value]bool, seenF map[*ssa.Function]bool, seen map[ssa.Value]bool) bool {
	for _, ref := range *al.Referrers() {
		switch ref := ref.(type) {
		case *ssa.Store:
			if ref.Addr != al {
				return false
			}
			p.valueSources(ref.Val, res, seenF, seen)
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.MakeClosure:
			g := ref.Fn.(*ssa.Function)
			for i, b := range ref.Bindings {
				if b == al {
					if !p.varSources(g.FreeVars[i], res, seenF, seen) {
						return false
					}
				}
			}
		default:
			return false
		}
	}
	return true
}
