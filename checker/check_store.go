package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P29", "path-sensitive abstract interpretation of the cell storing methods",
		"Put is followed for every kind of value: the cell at the given row and column has to hold the new cell with its number format at every return, no other cell may be written, and the indices are proved to be inside of the sheet after it was resized; Resize has to keep every existing row and cell and to give every row (scan rule) the new width; Set and SetURL write the cell at their position or nothing.", func(r *Report) {
			if m := r.sheetModel(); m != nil {
				m.checkPut(r, "P29")
				m.checkResize(r)
				m.checkSet(r, "P29")
				m.checkSetURL(r)
			}
		})
	register("P37", "path-sensitive abstract interpretation of the cell constructors",
		"At every return of the cell constructors and of Put the dynamic type of the value stored is compared with the type tag stored next to it, for every dynamic type the value can have; for plain cells the value stored has to be a conversion which cannot change it.", func(r *Report) {
			if m := r.sheetModel(); m != nil {
				m.checkNewCell(r)
				m.checkPut(r, "P37")
				m.checkSet(r, "P37")
			}
			checkTypeNames(r)
		})
	register("P17", "path-sensitive abstract interpretation of the path of text from the sheet to the result",
		"Text is followed through Put, Set, the rendering of a row and the application of number formats with the format left open; on every path the text stored and the text returned have to be the very value given.", func(r *Report) {
			m := r.sheetModel()
			if m == nil {
				return
			}
			m.checkPut(r, "P17")
			m.checkSet(r, "P17")
			m.checkApply(r)
			for _, c := range r.collections() {
				c.checkAccessor(r, "Strings")
			}
		})
}

type sheetModel struct {
	p                                        *Prog
	put, resize, set, setURL                 *ssa.Function
	newCell, newTyped, cellSetURL            *ssa.Function
	fRows, fNumRows, fNumCols                int
	row, cell, elem, ct, tm                  types.Type
	tBlank, tInt, tFloat, tStr, tBool, tDate int64
	tLink, tStatic                           int64
	markers                                  []string
}

func (r *Report) sheetModel() *sheetModel {
	p := r.P
	m := &sheetModel{p: p, fRows: -1, fNumRows: -1, fNumCols: -1,
		put: p.PMethod(cxlPath, "Sheet", "Put"), resize: p.PMethod(cxlPath, "Sheet", "Resize"), set: p.PMethod(cxlPath, "Sheet", "Set"),
		setURL: p.PMethod(cxlPath, "Sheet", "SetURL"), newCell: p.Func(cxlPath, "NewCell"), newTyped: p.Func(cxlPath, "NewCellWithType"),
		cellSetURL: p.PMethod(cxlPath, "Cell", "SetURL"), ct: p.Type(cxlPath, "CellType"), tm: p.timeType()}
	for n, f := range map[string]*ssa.Function{"Sheet.Put": m.put, "Sheet.Resize": m.resize, "Sheet.Set": m.set, "Sheet.SetURL": m.setURL, "NewCell": m.newCell, "NewCellWithType": m.newTyped, "Cell.SetURL": m.cellSetURL} {
		if !r.need(n, f) {
			return nil
		}
	}
	st, _ := under(p.Type(cxlPath, "Sheet")).(*types.Struct)
	for i := 0; st != nil && i < st.NumFields(); i++ {
		switch st.Field(i).Name() {
		case "NumRows":
			m.fNumRows = i
		case "NumCols":
			m.fNumCols = i
		case "Rows":
			if s1, ok := under(st.Field(i).Type()).(*types.Slice); ok {
				if s2, ok := under(s1.Elem()).(*types.Slice); ok {
					if s3, ok := under(s2.Elem()).(*types.Slice); ok {
						m.fRows, m.row, m.cell, m.elem = i, s1.Elem(), s2.Elem(), s3.Elem()
					}
				}
			}
		}
	}
	if m.fRows < 0 || m.fNumRows < 0 || m.fNumCols < 0 || m.ct == nil || m.tm == nil {
		r.bad("anchor", "commonxl.Sheet", "?", "the sheet no longer has rows of cells")
		return nil
	}
	for n, v := range map[string]*int64{"BlankCell": &m.tBlank, "IntegerCell": &m.tInt, "FloatCell": &m.tFloat, "StringCell": &m.tStr,
		"BooleanCell": &m.tBool, "DateCell": &m.tDate, "HyperlinkStringCell": &m.tLink, "StaticCell": &m.tStatic} {
		var ok bool
		if *v, ok = p.intConst(cxlPath, n); !ok {
			r.bad("anchor", n, "?", "constant not found")
			return nil
		}
	}
	for _, n := range []string{"EndRowMerged", "EndColumnMerged", "ContinueRowMerged", "ContinueColumnMerged"} {
		if c, ok := p.ByPkg[modPath].Members[n].(*ssa.NamedConst); ok {
			if v, ok := constTerm(c.Value).strConst(); ok {
				m.markers = append(m.markers, v)
			}
		}
	}
	return m
}

func (m *sheetModel) field(s *State, recv *Term, f int) *Term { return s.load(fieldAddrOf(recv, f)) }

func (m *sheetModel) cellAddr(s *State, recv, row, col *Term) *Term {
	rb, ro := sliceParts(m.field(s, recv, m.fRows))
	rt := s.load(tIndexAddr(rb, tAdd(ro, row), types.NewPointer(m.row)))
	cb, co := sliceParts(rt)
	return tIndexAddr(cb, tAdd(co, col), types.NewPointer(m.cell))
}

// part is element k of a cell.
func (m *sheetModel) part(s *State, c *Term, k int64) *Term {
	if c.Op == OAppend {
		if v, ok := s.mem[tIndexAddr(c, tInt(k), types.NewPointer(m.elem))]; ok {
			return v // replaced later on
		}
		for n := int64(0); n <= 4; n++ {
			if s.is(tEqInt(tLen(c.Args[0]), tInt(n))) {
				if k < n {
					return m.part(s, c.Args[0], k)
				}
				if int(k-n)+1 < len(c.Args) {
					return c.Args[1+k-n]
				}
				return nil
			}
		}
		if s.is(tLt(tInt(k), tLen(c.Args[0]))) {
			return m.part(s, c.Args[0], k)
		}
		return nil
	}
	b, off := sliceParts(c)
	if b.Op == OAppend {
		if o, ok := off.intConst(); ok {
			return m.part(s, b, k+o)
		}
	}
	if b.isNil() {
		return nil
	}
	return s.load(tIndexAddr(b, tAdd(off, tInt(k)), types.NewPointer(m.elem)))
}

func (m *sheetModel) tagOf(s *State, c *Term) (int64, bool) {
	t := m.part(s, c, 1)
	if t == nil {
		return 0, false
	}
	return t.inner(OIface).intConst()
}

// tagTypes: the dynamic type of the values of a cell type.
func (m *sheetModel) tagType(tag int64) types.Type {
	switch tag {
	case m.tInt:
		return types.Typ[types.Int64]
	case m.tFloat:
		return types.Typ[types.Float64]
	case m.tStr, m.tStatic:
		return types.Typ[types.String]
	case m.tBool:
		return types.Typ[types.Bool]
	case m.tDate:
		return m.tm
	}
	return nil
}

// consistent says what is wrong about the tag of a cell.
func (m *sheetModel) consistent(s *State, c *Term) string {
	v := m.part(s, c, 0)
	tag, ok := m.tagOf(s, c)
	if v == nil || !ok {
		return "its value and type are not known"
	}
	if tag == m.tBlank {
		if s.nilness(v) != True {
			return "it is tagged as blank and holds " + v.String()
		}
		return ""
	}
	want := m.tagType(tag)
	if want == nil {
		return fmt.Sprintf("its type tag %d is not that of a value", tag)
	}
	if !s.is(tIsType(v, want)) {
		return "it is tagged as " + types.TypeString(want, nopkg) + " and holds " + describe(v)
	}
	return ""
}

func describe(v *Term) string {
	if v.Op == OIface {
		return v.Args[0].String() + " of type " + types.TypeString(v.T, nopkg)
	}
	return v.String()
}

// known dynamic type of an interface value.
func (s *State) dynType(v *Term) types.Type {
	if v.Op == OIface {
		return v.T
	}
	for k := range s.facts.m {
		if k.Op == OIsType && k.Args[0] == v {
			if _, isI := under(k.T).(*types.Interface); !isI {
				return k.T
			}
		}
	}
	return nil
}

// isTextOf: the text v is the string held by the interface value.
func isTextOf(v, value *Term) bool {
	if v == value {
		return true
	}
	v = v.inner(OIface)
	return v.Op == OAssert && v.Args[0] == value && isBasic(v.T, types.IsString)
}

// plain checks that a plain cell holds the number, text or truth value given.
func (m *sheetModel) plain(s *State, c, value *Term) string {
	ty := s.dynType(value)
	v := m.part(s, c, 0)
	if ty == nil || v == nil {
		return ""
	}
	b, ok := under(ty).(*types.Basic)
	if v == value {
		return ""
	}
	u := v.inner(OIface)
	arg := tAssert(value, ty)
	switch {
	case ok && types.Identical(ty, types.Typ[b.Kind()]) && b.Info()&types.IsString != 0:
		empty := tEqInt(tLen(arg), tInt(0))
		if s.nilness(v) == True {
			if !s.is(empty) {
				return "text which may not be empty becomes a blank cell"
			}
			return ""
		}
		if u != arg {
			return "the text becomes " + u.String()
		}
	case ok && b.Info()&types.IsBoolean != 0:
		if u != arg {
			return "the truth value becomes " + u.String()
		}
	case ok && b.Info()&types.IsInteger != 0 && types.Identical(ty, types.Typ[b.Kind()]):
		if u == arg {
			return ""
		}
		if u.Op == OConv && u.Args[0] == arg {
			if isBasic(u.T, types.IsFloat) {
				if s.is(tLe(arg, tInt(math.MaxInt64))) {
					return "an integer of 64 bits becomes a floating point number"
				}
				return ""
			}
			if bits, signed := intBits(u.T); bits == 64 && signed {
				if s.is(tLe(arg, tInt(math.MaxInt64))) {
					return ""
				}
				return "a large unsigned number wraps around"
			}
		}
		return "the number becomes " + u.String()
	case ok && b.Info()&types.IsFloat != 0:
		if u == arg || u.Op == OConv && u.Args[0] == arg && isBasic(u.T, types.IsFloat) {
			return ""
		}
		return "the number becomes " + u.String()
	case types.Identical(ty, m.tm):
		if u != arg {
			return "the date becomes " + u.String()
		}
	}
	return ""
}

func (m *sheetModel) checkNewCell(r *Report) {
	for _, fn := range []*ssa.Function{m.newCell, m.newTyped} {
		fn := fn
		name := shortName(fn)
		const rule = "the type of a cell describes its value"
		r.analyse(name, fn, func(x *Exec, t *Report) *State {
			if x.JoinAt >= 30 {
				x.JoinAt = 2000
			}
			s0 := x.Start(fn)
			value := s0.param(0)
			if fn == m.newTyped {
				s0.assumeQuiet(tLe(tInt(0), s0.param(1)))
			}
			x.H.Oblig = func(x *Exec, s *State, kind string, cond *Term, at ssa.Instruction) bool {
				if kind == "type assertion" {
					pos := x.P.InstrPos(at)
					t.ok("values are used as what they are", name, pos)
					if !s.is(cond) {
						t.bad("values are used as what they are", name, pos, "the value may be of another type: "+cond.String(), s.trail.lines(12)...)
					}
				}
				return false
			}
			x.H.Return = func(x *Exec, s *State, res []*Term, at ssa.Instruction) {
				con := name
				if ty := s.dynType(value); ty != nil {
					con += " of " + types.TypeString(ty, nopkg)
				}
				pos := x.P.InstrPos(at)
				t.ok(rule, con, pos)
				if msg := m.consistent(s, res[0]); msg != "" {
					t.bad(rule, con, pos, "the cell returned is wrong: "+msg, s.trail.lines(12)...)
				}
				if fn == m.newCell {
					t.ok("a plain cell holds the value given", con, pos)
					if msg := m.plain(s, res[0], value); msg != "" {
						t.bad("a plain cell holds the value given", con, pos, msg, s.trail.lines(12)...)
					}
				}
			}
			return s0
		})
	}
}

func (m *sheetModel) checkPut(r *Report, prop string) {
	fn := m.put
	const where = "the value goes to its cell"
	const bounds = "the cell is inside of the sheet"
	const tagRule = "the type of a cell describes its value"
	const textRule = "text is stored as it is"
	r.analyse("Sheet.Put", fn, func(x *Exec, t *Report) *State {
		if x.JoinAt >= 30 {
			x.JoinAt = 2000
		}
		s0 := x.Start(fn)
		recv, row, col, value, fno := s0.param(0), s0.param(1), s0.param(2), s0.param(3), s0.param(4)
		s0.assumeQuiet(tLe(tInt(0), row))
		s0.assumeQuiet(tLe(tInt(0), col))
		s0.assumeQuiet(tEqInt(tLen(m.field(s0, recv, m.fRows)), m.field(s0, recv, m.fNumRows)))
		x.Roots = append(x.Roots, recv, row, col, value, fno)
		con := "Sheet.Put"
		x.H.Load = func(x *Exec, s *State, addr *Term, at ssa.Instruction) {
			if addr.Op == OIndexAddr && types.Identical(pointee(addr), m.row) && addr.Args[0] == m.field(s, recv, m.fRows) {
				// rows are as wide as the sheet
				s.assumeQuiet(tLe(m.field(s, recv, m.fNumCols), tLen(s.load(addr))))
			}
		}
		x.H.Call = func(x *Exec, s *State, ev *CallEvent) ([]Outcome, bool) {
			if ev.Fn != m.resize {
				return nil, false
			}
			a0, a1 := ev.Args[1], ev.Args[2]
			oldR, oldC := m.field(s, recv, m.fNumRows), m.field(s, recv, m.fNumCols)
			return []Outcome{{Do: func(s *State) {
				nr := x.fresh(s, ev.Instr, "rows", types.Typ[types.Int])
				nc := x.fresh(s, ev.Instr, "cols", types.Typ[types.Int])
				rs := x.fresh(s, ev.Instr, "resized", types.NewSlice(m.row))
				site := x.epochSym(s, ev.Instr, "resize")
				s.store(fieldAddrOf(recv, m.fNumRows), nr, site)
				s.store(fieldAddrOf(recv, m.fNumCols), nc, site)
				s.store(fieldAddrOf(recv, m.fRows), rs, site)
				for _, f := range []*Term{tLe(a0, nr), tLe(oldR, nr), tLe(a1, nc), tLe(oldC, nc), tEqInt(tLen(rs), nr)} {
					s.assumeQuiet(f)
				}
				// what is left of the old size is that the new one has room for the cell
				for _, f := range []*Term{tLt(row, nr), tLt(col, nc)} {
					if s.is(f) {
						s.assumeQuiet(f)
						s.facts = s.facts.with(f)
					}
				}
				s.facts = s.facts.filter(func(f *Term) bool {
					return !f.anySub(func(u *Term) bool { return u == oldR || u == oldC })
				})
			}}}, true
		}
		x.H.Oblig = func(x *Exec, s *State, kind string, cond *Term, at ssa.Instruction) bool {
			if kind == "index out of range" && prop == "P29" {
				pos := x.P.InstrPos(at)
				t.ok(bounds, con, pos)
				if !s.is(cond) {
					t.bad(bounds, con, pos, "the index may be outside: "+cond.String(), s.trail.lines(10)...)
				}
			}
			return false
		}
		x.H.Store = func(x *Exec, s *State, addr, val *Term, at ssa.Instruction) {
			if addr.Op != OIndexAddr || !types.Identical(pointee(addr), m.cell) || rootOf(addr).Op == OObj {
				return
			}
			pos := x.P.InstrPos(at)
			if prop == "P29" {
				t.ok(where, con, pos)
			}
			want := m.cellAddr(s, recv, row, col)
			if !eqMod(addr.Args[0], want.Args[0]) || !s.is(tEqInt(addr.Args[1], want.Args[1])) {
				if prop == "P29" {
					t.bad(where, con, pos, "another cell is written: "+addr.String(), s.trail.lines(10)...)
				}
				return
			}
			s.ghost["!stored"] = tInt(1)
		}
		x.H.Return = func(x *Exec, s *State, res []*Term, at ssa.Instruction) {
			pos := x.P.InstrPos(at)
			ty := s.dynType(value)
			k := con
			if ty != nil {
				k += " of " + types.TypeString(ty, nopkg)
			}
			if s.ghost["!stored"] == nil {
				if prop == "P29" {
					t.ok(where, k, pos)
					t.bad(where, k, pos, "returns without having stored the value", s.trail.lines(12)...)
				}
				return
			}
			c := s.load(m.cellAddr(s, recv, row, col))
			tag, tagOK := m.tagOf(s, c)
			isStr := ty != nil && types.Identical(ty, types.Typ[types.String])
			arg := tAssert(value, types.Typ[types.String])
			marker := Unknown
			if isStr {
				not := 0
				for _, mk := range m.markers {
					q := tEq(arg, tStr(mk), types.Typ[types.String])
					if s.is(q) {
						marker = True
					} else if s.isNot(q) {
						not++
					}
				}
				if not == len(m.markers) {
					marker = False
				}
			}
			switch prop {
			case "P29":
				t.ok(where, k, pos)
				v := m.part(s, c, 0)
				if v == nil {
					t.bad(where, k, pos, "the cell holds "+c.String(), s.trail.lines(10)...)
					return
				}
				// number format
				t.ok("the number format stays with the value", k, pos)
				if marker == True {
					return
				}
				three := s.is(tLe(tInt(3), tLen(c)))
				switch {
				case three:
					f := m.part(s, c, 2)
					if f == nil || f.inner(OIface) != fno && !s.is(tEqInt(f.inner(OIface), fno)) {
						t.bad("the number format stays with the value", k, pos, "the number format stored is "+c.String(), s.trail.lines(10)...)
					}
				case !s.is(tEqInt(fno, tInt(0))):
					t.bad("the number format stays with the value", k, pos, "the number format is not stored", s.trail.lines(10)...)
				}
			case "P37":
				t.ok(tagRule, k, pos)
				if msg := m.consistent(s, c); msg != "" {
					t.bad(tagRule, k, pos, "the cell stored is wrong: "+msg, s.trail.lines(12)...)
				}
			case "P17":
				if !isStr {
					return
				}
				t.ok(textRule, k, pos)
				v := m.part(s, c, 0)
				if v == nil || !tagOK {
					t.bad(textRule, k, pos, "the cell holds "+c.String(), s.trail.lines(10)...)
					return
				}
				if s.nilness(v) == True {
					if !s.is(tEqInt(tLen(arg), tInt(0))) {
						t.bad(textRule, k, pos, "text which may not be empty becomes a blank cell", s.trail.lines(10)...)
					}
					return
				}
				if !isTextOf(v, value) {
					t.bad(textRule, k, pos, "the text becomes "+describe(v), s.trail.lines(10)...)
				}
				want := m.tStr
				if marker == True {
					want = m.tStatic
				}
				if tag != want {
					t.bad(textRule, k, pos, fmt.Sprintf("the cell of the text has type %d", tag), s.trail.lines(10)...)
				}
			}
		}
		return s0
	})
}

func (m *sheetModel) checkResize(r *Report) {
	fn := m.resize
	const keep = "existing cells are kept"
	const shape = "the sheet has the size asked for"
	r.analyse("Sheet.Resize", fn, func(x *Exec, t *Report) *State {
		if x.JoinAt >= 30 {
			x.JoinAt = 1500
		}
		s0 := x.Start(fn)
		recv, rows, cols := s0.param(0), s0.param(1), s0.param(2)
		old, oldC := m.field(s0, recv, m.fRows), m.field(s0, recv, m.fNumCols)
		x.Roots = append(x.Roots, recv, rows, cols)
		s0.assumeQuiet(tLe(tInt(0), oldC))
		sc := newScan(t, "every row gets the new width", "rows")
		con := "Sheet.Resize"
		bad := func(s *State, rule, pos, msg string) { t.bad(rule, con, pos, msg, s.trail.lines(10)...) }
		grows := func(v, from *Term) bool { // v starts with all of from
			for {
				if eqMod(v, from) {
					return true
				}
				if v.Op != OAppend && v.Op != OAppendS {
					return false
				}
				v = v.Args[0]
			}
		}
		x.H.Load = func(x *Exec, s *State, addr *Term, at ssa.Instruction) {
			if addr.Op == OIndexAddr && types.Identical(pointee(addr), m.row) && eqMod(addr.Args[0], old) {
				s.ghost["!row"] = tTuple(addr.Args[1])
			}
		}
		x.H.Call = func(x *Exec, s *State, ev *CallEvent) ([]Outcome, bool) {
			if ev.Name == "builtin.copy" {
				s.ghost["!copy"] = tTuple(ev.Args[0], ev.Args[1])
			}
			return nil, false
		}
		copied := func(s *State, v, from *Term) bool {
			g := s.ghost["!copy"]
			return g != nil && g.Args[0] == v && eqMod(g.Args[1], from) && s.is(tLe(tLen(from), tLen(v)))
		}
		x.H.Store = func(x *Exec, s *State, addr, val *Term, at ssa.Instruction) {
			pos := x.P.InstrPos(at)
			switch {
			case addr == fieldAddrOf(recv, m.fRows):
				t.ok(keep, con+" (rows)", pos)
				from := m.field(s, recv, m.fRows)
				if !grows(val, from) && !copied(s, val, from) {
					bad(s, keep, pos, "the rows are replaced by "+val.String())
				}
			case addr.Op == OIndexAddr && types.Identical(pointee(addr), m.row) && rootOf(addr).Op != OObj:
				t.ok(keep, con+" (cells)", pos)
				from := s.load(addr)
				if !grows(val, from) && !copied(s, val, from) {
					bad(s, keep, pos, "the cells of a row are replaced by "+val.String())
				}
			case addr.Op == OIndexAddr && types.Identical(pointee(addr), m.cell) && rootOf(addr).Op != OObj:
				bad(s, keep, pos, "a cell is written: "+addr.String())
			}
		}
		x.H.Append = func(x *Exec, s *State, base *Term, elems []*Term, at ssa.Instruction) {
			if base.T == nil {
				return
			}
			sl, ok := under(base.T).(*types.Slice)
			if !ok || !types.Identical(sl.Elem(), m.row) {
				return
			}
			pos := x.P.InstrPos(at)
			t.ok(shape, con+" (new rows)", pos)
			if elems == nil {
				bad(s, shape, pos, "the width of the new rows is not known")
			}
			for _, e := range elems {
				if !s.is(tLe(cols, tLen(e))) || !s.is(tLe(oldC, tLen(e))) || !s.is(tLe(tInt(1), tLen(e))) {
					bad(s, shape, pos, "a new row may be narrower than the sheet")
				}
			}
		}
		x.H.BackEdge = func(x *Exec, s *State, h *ssa.BasicBlock, in func(*Term) bool, olds, nw map[*ssa.Phi]*Term) {
			if g := s.ghost["!row"]; g != nil {
				i := g.Args[0]
				if !advances(olds, i) {
					return // a loop inside of the one over the rows
				}
				sc.visit(x, s, old, i, h.Instrs[0])
				rt := s.load(tIndexAddr(m.field(s, recv, m.fRows), i, types.NewPointer(m.row)))
				if !s.is(tLe(cols, tLen(rt))) || !s.is(tLe(oldC, tLen(rt))) || !s.is(tLe(tInt(1), tLen(rt))) {
					bad(s, shape, x.P.blockPos(h), "row "+i.String()+" may stay narrower than the sheet")
				}
				delete(s.ghost, "!row")
			}
			sc.backEdge(x, s, h, olds, nw)
		}
		x.H.Edge = sc.edge
		x.H.Return = func(x *Exec, s *State, res []*Term, at ssa.Instruction) {
			pos := x.P.InstrPos(at)
			t.ok(shape, con, pos)
			n, nr, nc := tLen(m.field(s, recv, m.fRows)), m.field(s, recv, m.fNumRows), m.field(s, recv, m.fNumCols)
			if !s.is(tLe(rows, nr)) || !s.is(tLe(tLen(old), nr)) {
				bad(s, shape, pos, "the number of rows may be smaller than asked for")
			}
			if !s.is(tLe(nr, n)) {
				bad(s, shape, pos, "there may be fewer rows than the number of rows says")
			}
			if !s.is(tLe(cols, nc)) || !s.is(tLe(oldC, nc)) {
				bad(s, shape, pos, "the number of columns may be smaller than asked for")
			}
			if !s.is(tEqInt(nc, cols)) && !s.is(tEqInt(nc, oldC)) && !s.is(tEqInt(nc, tInt(1))) {
				bad(s, shape, pos, "the number of columns is "+nc.String())
			}
			if !s.is(tEqInt(nr, rows)) && !s.is(tEqInt(nr, tLen(old))) && !s.is(tEqInt(nr, tInt(1))) {
				bad(s, shape, pos, "the number of rows is "+nr.String())
			}
			if !sc.complete(s, old) {
				bad(s, shape, pos, "not every row was given the new width")
			}
		}
		t.after = append(t.after, func() { sc.done(x) })
		return s0
	})
}

func (m *sheetModel) checkSet(r *Report, prop string) {
	fn := m.set
	const where = "the value goes to its cell"
	r.analyse("Sheet.Set", fn, func(x *Exec, t *Report) *State {
		s0 := x.Start(fn)
		recv, row, col, value := s0.param(0), s0.param(1), s0.param(2), s0.param(3)
		x.Roots = append(x.Roots, recv, row, col, value)
		s0.assumeQuiet(tLe(tInt(0), row))
		s0.assumeQuiet(tLe(tInt(0), col))
		s0.assumeQuiet(tEqInt(tLen(m.field(s0, recv, m.fRows)), m.field(s0, recv, m.fNumRows)))
		s0.assumeQuiet(tIsType(value, types.Typ[types.String]))
		inR, inC := m.field(s0, recv, m.fNumRows), m.field(s0, recv, m.fNumCols)
		con := "Sheet.Set"
		x.H.Load = func(x *Exec, s *State, addr *Term, at ssa.Instruction) {
			if addr.Op == OIndexAddr && types.Identical(pointee(addr), m.row) {
				s.assumeQuiet(tLe(inC, tLen(s.load(addr))))
			}
			if addr.Op == OIndexAddr && types.Identical(pointee(addr), m.cell) {
				// cells hold nothing, or a value and its type
				l := tLen(s.load(addr))
				if s.isNot(tEqInt(l, tInt(0))) {
					s.assumeQuiet(tLe(tInt(2), l))
				}
			}
		}
		x.H.Oblig = func(x *Exec, s *State, kind string, cond *Term, at ssa.Instruction) bool {
			if kind == "index out of range" && prop == "P29" {
				pos := x.P.InstrPos(at)
				if s.is(cond) {
					t.ok("the cell is inside of the sheet", con, pos)
					return false
				}
				// the cell itself: nothing, or a value and its type
				if l := toLin(cond.Args[0]); true {
					for a := range l.m {
						if a.Op == OLen && a.Args[0].Op == OInit && types.Identical(pointee(a.Args[0].Args[0]), m.cell) && s.isNot(tEqInt(a, tInt(0))) {
							return false
						}
					}
				}
				t.bad("the cell is inside of the sheet", con, pos, "the index may be outside: "+cond.String(), s.trail.lines(10)...)
			}
			return false
		}
		x.H.Store = func(x *Exec, s *State, addr, val *Term, at ssa.Instruction) {
			if prop != "P29" || addr.Op != OIndexAddr || rootOf(addr).Op == OObj {
				return
			}
			want := m.cellAddr(s, recv, row, col)
			pos := x.P.InstrPos(at)
			ok := true
			if types.Identical(pointee(addr), m.cell) {
				ok = eqMod(addr.Args[0], want.Args[0]) && s.is(tEqInt(addr.Args[1], want.Args[1]))
			} else if types.Identical(pointee(addr), m.elem) {
				b := addr.Args[0]
				ok = b.Op == OInit && eqMod(b.Args[0].Args[0], want.Args[0]) && s.is(tEqInt(b.Args[0].Args[1], want.Args[1]))
			} else {
				return
			}
			t.ok(where, con, pos)
			if !ok {
				t.bad(where, con, pos, "another cell is written: "+addr.String(), s.trail.lines(8)...)
			}
		}
		x.H.Return = func(x *Exec, s *State, res []*Term, at ssa.Instruction) {
			pos := x.P.InstrPos(at)
			if s.is(tLe(inR, row)) || s.is(tLe(inC, col)) {
				return
			}
			c := s.load(m.cellAddr(s, recv, row, col))
			v := m.part(s, c, 0)
			tag, ok := m.tagOf(s, c)
			rule := map[string]string{"P29": where, "P37": "the type of a cell describes its value", "P17": "text is stored as it is"}[prop]
			t.ok(rule, con, pos)
			if v == nil || !isTextOf(v, value) {
				t.bad(rule, con, pos, "the cell does not hold the text given", s.trail.lines(8)...)
			}
			if !ok || tag != m.tStr {
				t.bad(rule, con, pos, "the cell is not a text cell", s.trail.lines(8)...)
			}
		}
		return s0
	})
	if prop == "P29" {
		return
	}
	// only text is set
	for _, f := range m.p.allFuncs() {
		if !m.p.InModule(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok || c.Common().StaticCallee() != m.set {
					continue
				}
				con := "Set in " + shortName(f)
				r.ok("only text is set", con, m.p.InstrPos(in))
				mi, ok := c.Common().Args[3].(*ssa.MakeInterface)
				if !ok || !isBasic(mi.X.Type(), types.IsString) {
					r.bad("only text is set", con, m.p.InstrPos(in), "a value which may not be text is stored as text")
				}
			}
		}
	}
}

func (m *sheetModel) checkSetURL(r *Report) {
	fn := m.setURL
	const where = "the link goes to its cell"
	r.analyse("Sheet.SetURL", fn, func(x *Exec, t *Report) *State {
		s0 := x.Start(fn)
		recv, row, col, link := s0.param(0), s0.param(1), s0.param(2), s0.param(3)
		x.Roots = append(x.Roots, recv, row, col, link)
		s0.assumeQuiet(tLe(tInt(0), row))
		s0.assumeQuiet(tLe(tInt(0), col))
		s0.assumeQuiet(tEqInt(tLen(m.field(s0, recv, m.fRows)), m.field(s0, recv, m.fNumRows)))
		inR, inC := m.field(s0, recv, m.fNumRows), m.field(s0, recv, m.fNumCols)
		old := s0.load(m.cellAddr(s0, recv, row, col))
		con := "Sheet.SetURL"
		// the cell has a value
		s0.assumeQuiet(tLe(tInt(2), tLen(old)))
		v0 := m.part(s0, old, 0)
		f0 := m.part(s0, old, 2)
		x.H.Load = func(x *Exec, s *State, addr *Term, at ssa.Instruction) {
			if addr.Op == OIndexAddr && types.Identical(pointee(addr), m.row) {
				s.assumeQuiet(tLe(inC, tLen(s.load(addr))))
			}
		}
		x.H.Oblig = func(x *Exec, s *State, kind string, cond *Term, at ssa.Instruction) bool {
			if kind == "index out of range" {
				pos := x.P.InstrPos(at)
				t.ok("the cell is inside of the sheet", con, pos)
				if !s.is(cond) {
					t.bad("the cell is inside of the sheet", con, pos, "the index may be outside: "+cond.String(), s.trail.lines(10)...)
				}
			}
			return false
		}
		x.H.Return = func(x *Exec, s *State, res []*Term, at ssa.Instruction) {
			pos := x.P.InstrPos(at)
			if s.is(tLe(inR, row)) || s.is(tLe(inC, col)) {
				return
			}
			t.ok(where, con, pos)
			bad := func(msg string) { t.bad(where, con, pos, msg, s.trail.lines(10)...) }
			c := s.load(m.cellAddr(s, recv, row, col))
			tag, ok := m.tagOf(s, c)
			if !ok || tag != m.tLink {
				bad("the cell is not marked as a hyperlink")
			}
			if v := m.part(s, c, 0); v == nil || !eqMod(v, v0) {
				bad("the value of the cell is lost")
			}
			u := m.part(s, c, 3)
			if u == nil || u.inner(OIface) != link {
				bad("the link is not stored")
			}
			f := m.part(s, c, 2)
			had := tLe(tInt(3), tLen(old))
			if !s.isNot(had) && (f == nil || !eqMod(f, f0)) {
				bad("the number format of the cell is lost")
			}
			if !s.is(had) {
				if f == nil {
					bad("the number format of the cell is wrong")
				} else if n, ok := f.inner(OIface).intConst(); !ok || n != 0 {
					bad("the number format of the cell is wrong")
				}
			}
		}
		return s0
	})
}

func (m *sheetModel) checkApply(r *Report) {
	fn := m.p.PMethod(cxlPath, "Formatter", "Apply")
	if !r.need("Formatter.Apply", fn) {
		return
	}
	const rule = "number formats never alter text"
	r.analyse("Formatter.Apply", fn, func(x *Exec, t *Report) *State {
		s0 := x.Start(fn)
		val := s0.param(2)
		s0.assumeQuiet(tIsType(val, types.Typ[types.String]))
		x.Roots = append(x.Roots, val)
		x.H.Return = func(x *Exec, s *State, res []*Term, at ssa.Instruction) {
			pos := x.P.InstrPos(at)
			t.ok(rule, "Formatter.Apply", pos)
			v := res[0]
			if v.Op == OCall && strings.HasPrefix(v.S, "fmt.Sprint") && len(v.Args) == 1 && isTextOf(v.Args[0], val) {
				return
			}
			if !isTextOf(v, val) {
				t.bad(rule, "Formatter.Apply", pos, "text is rendered as "+v.String(), s.trail.lines(8)...)
			}
		}
		return s0
	})
}

var _ = constant.MakeInt64
