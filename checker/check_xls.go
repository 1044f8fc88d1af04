package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const xlsPath = modPath + "/xls"
const cxlPath = modPath + "/commonxl"

// record types of [MS-XLS] 2.3
const (
	bFormula  = 6
	bEOF      = 10
	bMulRk    = 189
	bMerge    = 229
	bLabelSst = 253
	bHLink    = 440
	bNumber   = 515
	bBoolErr  = 517
	bString   = 519
	bRK       = 638
	bBOF      = 2057
)

var biffNames = map[int64]string{bFormula: "Formula", bEOF: "EOF", bMulRk: "MulRk", bMerge: "MergeCells", bLabelSst: "LabelSst", bHLink: "HLink",
	bNumber: "Number", bBoolErr: "BoolErr", bString: "String", bRK: "RK", bBOF: "BOF"}

// error codes of [MS-XLS] 2.5.10
var biffErrors = map[int64]string{0x00: "#NULL!", 0x07: "#DIV/0!", 0x0F: "#VALUE!", 0x17: "#REF!", 0x1D: "#NAME?", 0x24: "#NUM!", 0x2A: "#N/A", 0x2B: "#GETTING_DATA"}

func init() {
	register("P11", "path-sensitive abstract interpretation of the record loop with a bit provenance domain",
		"The sheet parser is followed on all paths with the cell storing methods as events. For every cell record the row, column, value and number format stored are traced to the bytes of the record (bit by bit) and compared with the layout of the file format; every record has to be stored before the next one is examined, and all records have to be examined.",
		func(r *Report) { checkRecords(r, false) })
	register("P12", "path-sensitive abstract interpretation of the record loops: verification of the nesting counter",
		"A counter of the record loop has to start at zero, go up with every nested begin record, down with every end record of a nested block and stay the same otherwise; on every path that stores a cell, sets the dimensions or rejects the sheet it has to be at the level of the sheet itself.",
		func(r *Report) { checkRecords(r, true) })
}

// xlsModel resolves the parser's types by their structure.
type xlsModel struct {
	p                                     *Prog
	get                                   *ssa.Function
	put, set, setURL, resize              *ssa.Function
	rec                                   types.Type
	fType, fData, fSubs, fStrings, fXfs   int
	fSheets, fPos, fName, fHidden, fStart int
	bound                                 types.Type
}

func (r *Report) xlsModel() *xlsModel {
	p := r.P
	m := &xlsModel{p: p, get: p.PMethod(xlsPath, "WorkBook", "Get"), put: p.PMethod(cxlPath, "Sheet", "Put"), set: p.PMethod(cxlPath, "Sheet", "Set"),
		setURL: p.PMethod(cxlPath, "Sheet", "SetURL"), resize: p.PMethod(cxlPath, "Sheet", "Resize")}
	if !r.need("WorkBook.Get", m.get) || !r.need("Sheet.Put", m.put) || !r.need("Sheet.Set", m.set) || !r.need("Sheet.Resize", m.resize) {
		return nil
	}
	m.fType, m.fData, m.fSubs, m.fStrings, m.fXfs, m.fSheets, m.fPos = -1, -1, -1, -1, -1, -1, -1
	if wt := p.Type(xlsPath, "WorkBook"); wt != nil {
		if st, ok := under(wt).(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				switch u := under(st.Field(i).Type()).(type) {
				case *types.Map:
					if isInt(u.Key()) && isInt(u.Elem()) {
						m.fPos = i
					}
				case *types.Slice:
					e := u.Elem()
					switch {
					case isBasic(e, types.IsString):
						m.fStrings = i
					case isInt(e):
						m.fXfs = i
					default:
						if s2, ok := under(e).(*types.Slice); ok {
							e = s2.Elem()
							m.fSubs = i
							if pt, ok := under(e).(*types.Pointer); ok {
								e = pt.Elem()
							}
							m.rec = e
						} else if pt, ok := under(e).(*types.Pointer); ok && isNamedIn(pt.Elem(), xlsPath) {
							m.fSheets = i
							m.bound = pt.Elem()
						}
					}
				}
			}
		}
	}
	if m.rec != nil {
		if st, ok := under(m.rec).(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				ft := st.Field(i).Type()
				if sl, ok := under(ft).(*types.Slice); ok && isByte(sl.Elem()) {
					m.fData = i
				}
				if isNamedIn(ft, xlsPath) && isInt(ft) {
					m.fType = i
				}
			}
		}
	}
	if m.fType < 0 || m.fData < 0 || m.fSubs < 0 || m.fStrings < 0 || m.fXfs < 0 || m.fSheets < 0 || m.fPos < 0 {
		r.bad("anchor", "records of a workbook", "?", "the workbook no longer holds records, shared strings and formats in the known form")
		return nil
	}
	return m
}

func isNamedIn(t types.Type, pkg string) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == pkg
}

// recLoop tracks the record examined by an iteration of a loop.
type recLoop struct {
	m *xlsModel
	t *Report
}

// current record: ghost !rec = (base, idx, record, frame, header block index)
func (l *recLoop) load(x *Exec, s *State, addr *Term, at ssa.Instruction) {
	if addr.Op != OIndexAddr || s.ghost["!rec"] != nil {
		return
	}
	el := pointee(addr)
	if pt, ok := under(el).(*types.Pointer); ok {
		el = pt.Elem()
	}
	if el == nil || !types.Identical(el, l.m.rec) {
		return
	}
	base, idx := addr.Args[0], addr.Args[1]
	rec := addr
	if _, ok := under(pointee(addr)).(*types.Pointer); ok {
		rec = s.load(addr)
	}
	in := at
	for f := s.fr; f != nil; f = f.parent {
		lf := x.loops(f.ctx.Fn)
		var best *loop
		for _, lp := range lf.byHeader {
			if !lp.body[in.Block()] || best != nil && len(best.body) < len(lp.body) {
				continue
			}
			for _, hi := range lp.header.Instrs {
				ph, ok := hi.(*ssa.Phi)
				if !ok {
					break
				}
				if v := f.regs[ph]; v != nil && isInt(ph.Type()) {
					if _, ok := tSub(idx, v).intConst(); ok {
						best = lp
					}
				}
			}
		}
		if best != nil {
			s.ghost["!rec"] = tTuple(base, idx, rec, tInt(int64(f.ctx.id)), tInt(int64(best.header.Index)))
			return
		}
		in = f.ctx.Call
		if in == nil {
			return
		}
	}
}

type curRec struct {
	base, idx, rec *Term
	ctx, hdr       int64
}

func (l *recLoop) cur(s *State) (c curRec, ok bool) {
	g := s.ghost["!rec"]
	if g == nil || len(g.Args) < 5 {
		return
	}
	c = curRec{base: g.Args[0], idx: g.Args[1], rec: g.Args[2]}
	c.ctx, _ = g.Args[3].intConst()
	c.hdr, _ = g.Args[4].intConst()
	return c, true
}

func (l *recLoop) edge(x *Exec, s *State, from, to *ssa.BasicBlock) {
	c, ok := l.cur(s)
	if !ok || int64(s.fr.ctx.id) != c.ctx {
		return
	}
	for h, lp := range x.loops(s.fr.ctx.Fn).byHeader {
		if int64(h.Index) == c.hdr && lp.body[from] && !lp.body[to] {
			l.clear(s)
		}
	}
}

func (l *recLoop) clear(s *State) {
	for _, k := range []string{"!rec", "!kind", "!put", "!mul", "!muln", "!mulx", "!vrecords"} {
		delete(s.ghost, k)
	}
}

// frame of the loop of the current record.
func (l *recLoop) frame(s *State, c curRec) *Frame {
	for f := s.fr; f != nil; f = f.parent {
		if int64(f.ctx.id) == c.ctx {
			return f
		}
	}
	return nil
}

func (l *recLoop) header(f *Frame, c curRec) *ssa.BasicBlock {
	for _, b := range f.ctx.Fn.Blocks {
		if int64(b.Index) == c.hdr {
			return b
		}
	}
	return nil
}

func headerPhis(b *ssa.BasicBlock) (res []*ssa.Phi) {
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if isInt(p.Type()) {
			res = append(res, p)
		}
	}
	return
}

func (m *xlsModel) recType(s *State, rec *Term) *Term { return s.load(fieldAddrOf(rec, m.fType)) }
func (m *xlsModel) recData(s *State, rec *Term) *Term { return s.load(fieldAddrOf(rec, m.fData)) }

// isRec tells whether the record has the type.
func (m *xlsModel) isRec(s *State, rec *Term, n int64) Tri {
	return s.facts.eval(tEqInt(m.recType(s, rec), tInt(n)))
}

// nestCand: a loop counter which may be the nesting depth; level is its value
// for the records of the sheet itself.
type nestCand struct {
	phi   *ssa.Phi
	level int64
}

type nestLoop struct {
	header  *ssa.BasicBlock
	fn      *ssa.Function
	cands   map[nestCand]map[string]*Violation
	effects map[string]string // stores and rejections in the loop
	missing map[nestCand]map[string]*Violation
	evals   int
	put     bool
}

func (n *nestLoop) fail(c nestCand, key, pos, msg string, path []string) {
	if n.cands[c][key] == nil {
		n.cands[c][key] = &Violation{"", key, pos, msg, path}
	}
}

func checkRecords(r *Report, nesting bool) {
	m := r.xlsModel()
	if m == nil {
		return
	}
	p := r.P
	const (
		ruleStore = "cells take row, column, value and format from their record"
		ruleAll   = "every cell record is stored before the next one is examined"
		ruleScan  = "all records of the sheet are examined"
		ruleTable = "error codes map to the names of the file format"
		ruleNest  = "the nesting level follows the begin and end records"
		ruleLevel = "only records of the sheet itself take effect"
		ruleData  = "the parser does not modify the data of records"
	)
	put, set := m.put, m.set
	isStore := func(f *ssa.Function) bool { return f == put || f == set || f == m.setURL || f == m.resize }
	var formula map[string]bool
	r.analyse("WorkBook.Get", m.get, func(x *Exec, t *Report) *State {
		x.JoinHeads, x.KeepPhis = true, true
		x.JoinAt = min(x.JoinAt, 8)
		formula = map[string]bool{}
		l := &recLoop{m, t}
		sc := newScan(t, ruleScan, "records")
		putIdx := map[*Term]bool{}
		mulPhi := map[*ssa.Phi]int64{}
		loops := map[*ssa.BasicBlock]*nestLoop{}
		nestOf := func(h *ssa.BasicBlock) *nestLoop {
			n := loops[h]
			if n == nil {
				n = &nestLoop{header: h, fn: h.Parent(), cands: map[nestCand]map[string]*Violation{}, effects: map[string]string{}, missing: map[nestCand]map[string]*Violation{}}
				for _, ph := range headerPhis(h) {
					n.cands[nestCand{ph, 0}] = map[string]*Violation{}
					n.cands[nestCand{ph, 1}] = map[string]*Violation{}
				}
				loops[h] = n
			}
			return n
		}
		// rows and columns of the last formula
		frow, fcol := map[*ssa.Phi]bool{}, map[*ssa.Phi]bool{}
		firstSet := true
		type stepSeen struct {
			ph       *ssa.Phi
			bad, pos string
			col      bool
		}
		var steps []stepSeen
		inlinable := map[*ssa.Function]bool{}
		x.H.Inline = func(x *Exec, s *State, fn *ssa.Function) bool {
			v, ok := inlinable[fn]
			if !ok {
				v = p.reachesFn(fn, isStore) || !p.loopy(fn)
				inlinable[fn] = v
			}
			return v
		}
		effect := func(x *Exec, s *State, what string, at ssa.Instruction) {
			c, ok := l.cur(s)
			if !ok {
				return
			}
			f := l.frame(s, c)
			if f == nil {
				return
			}
			n := nestOf(l.header(f, c))
			n.evals++
			pos := x.P.InstrPos(at)
			n.effects[what] = pos
			if what == "Put" {
				n.put = true
			}
			for cd := range n.cands {
				v := f.regs[cd.phi]
				if v == nil || !s.is(tEqInt(v, tInt(cd.level))) {
					n.fail(cd, what, pos, "a record of a nested block can take effect ("+what+")", s.trail.lines(12))
				}
			}
		}
		checkPut := func(x *Exec, s *State, ev *CallEvent) {
			c, ok := l.cur(s)
			pos := x.P.InstrPos(ev.Instr)
			if !ok {
				t.bad(ruleStore, "cell without a record", pos, "a cell is stored while no record is being examined", s.trail.lines(12)...)
				return
			}
			putIdx[c.idx] = true
			rt := m.recType(s, c.rec)
			data := m.recData(s, c.rec)
			kind := int64(-1)
			for k := range biffNames {
				if s.is(tEqInt(rt, tInt(k))) {
					kind = k
				}
			}
			if kind == bHLink || kind == bMerge {
				return // placement of links and markers: another property
			}
			name := biffNames[kind]
			bad := func(what, msg string) {
				t.bad(ruleStore, name+" record: "+what, pos, msg, s.trail.lines(14)...)
			}
			q := s.bitFacts()
			if kind < 0 || kind == bEOF || kind == bBOF || kind == bString {
				t.bad(ruleStore, "cell of another record", pos, "a cell is stored for a record type that holds no cell", s.trail.lines(12)...)
				return
			}
			s.ghost["!put"] = tInt(1)
			row, col, val, fno := ev.Args[1], ev.Args[2], ev.Args[3], ev.Args[4]
			at := func(off int64, n int) bitv { return byteBits(data, tInt(off), n) }
			t.ok(ruleStore, name+" record: row", pos)
			t.ok(ruleStore, name+" record: column", pos)
			t.ok(ruleStore, name+" record: value", pos)
			t.ok(ruleStore, name+" record: format", pos)
			if !q.same(bitsOf(row), at(0, 2)) {
				bad("row", "the row stored is "+row.String()+", not the first field of the record")
			}
			i := tInt(0)
			off := tInt(0)
			if kind == bMulRk {
				i = tSub(col, tBytesOf(s, data, 2, 2))
				off = tMulK(i, 6)
				s.ghost["!mul"] = tTuple(i)
				if !q.same(bitsOf(tSub(col, i)), at(2, 2)) || len(i.symbols()) > 1 {
					bad("column", "the column stored is "+col.String())
				}
				if nx, ok := i.intConst(); ok && nx != 0 {
					bad("column", "the first cell of the record is not stored")
				}
			} else if !q.same(bitsOf(col), at(2, 2)) {
				bad("column", "the column stored is "+col.String()+", not the second field of the record")
			}
			ixfe := byteBits(data, tAdd(tInt(4), off), 2)
			isErr := false
			value := val
			if val.Op == OIface {
				value = val.Args[0]
			} else {
				bad("value", "a value of unknown type is stored: "+val.String())
				return
			}
			wantBool := func(o int64) {
				b := at(o, 1)
				if !isBasic(val.T, types.IsBoolean) {
					bad("value", "a boolean is stored as "+val.String())
					return
				}
				if c, ok := value.boolConst(); ok {
					if c && q.canBe(b, 0) || !c && q.canBe(b, 1) {
						bad("value", "the boolean stored does not follow its byte of the record")
					}
				} else if q.evalWith(value, b, 0) != False || q.evalWith(value, b, 1) != True {
					bad("value", "the boolean stored is "+value.String())
				}
			}
			wantErr := func(o int64) {
				isErr = true
				b := at(o, 1)
				if c, ok := value.strConst(); ok {
					n, known := q.value(b)
					switch {
					case known && biffErrors[n] == c:
					case known && biffErrors[n] != "":
						bad("value", "error code "+fmt.Sprint(n)+" is shown as "+c)
					default:
						for k, nm := range biffErrors {
							if q.canBe(b, k) && !notInTable(s, b, k) && nm != c {
								bad("value", "error code "+fmt.Sprint(k)+" can be shown as "+c)
							}
						}
					}
					return
				}
				g, key := mapRead(value)
				if g == nil || !q.same(bitsOf(key), b) {
					bad("value", "the error name stored is "+value.String())
					return
				}
				if s.facts.eval(mapHasOf(value)) != True {
					bad("value", "the name of an unknown error code is stored")
				}
				tab := p.intStrMap(g)
				for k, nm := range biffErrors {
					t.ok(ruleTable, nm, p.Pos(g.Pos()))
					if tab[k] != nm {
						t.bad(ruleTable, nm, p.Pos(g.Pos()), fmt.Sprintf("error code %#x is shown as %q", k, tab[k]))
					}
				}
				for k, nm := range tab {
					if biffErrors[k] == "" {
						t.bad(ruleTable, nm, p.Pos(g.Pos()), fmt.Sprintf("code %#x is no error code of the file format", k))
					}
				}
			}
			wantFloat := func(v *Term, bits bitv) bool {
				return v.Op == OCall && v.S == "math.Float64frombits" && q.same(bitsOf(v.Args[0]), bits)
			}
			switch kind {
			case bBoolErr:
				// fError
				f := at(7, 1)
				switch {
				case !q.canBe(f, 1):
					wantBool(6)
				case !q.canBe(f, 0):
					wantErr(6)
				default:
					bad("value", "stored without telling booleans from errors")
				}
			case bNumber:
				if !isBasic(val.T, types.IsFloat) || !wantFloat(value, at(6, 8)) {
					bad("value", "the number stored is "+value.String())
				}
			case bRK, bMulRk:
				src := byteBits(data, tAdd(tInt(6), off), 4)
				b0, k0 := q.value(bitv{0: src[0]})
				b1, k1 := q.value(bitv{0: src[1]})
				iv := src.extend(types.Typ[types.Int32]).sar(2)
				fv := bitv{}
				for i := 2; i < 32; i++ {
					fv[i+32] = src[i]
				}
				hundredth := func(v *Term) (*Term, bool) {
					if v.Op == OBin && v.S == "/" {
						if c := v.Args[1]; c.Op == OConst && c.C != nil && (c.C.Kind() == constant.Int || c.C.Kind() == constant.Float) && constant.Compare(constant.ToFloat(c.C), token.EQL, constant.ToFloat(constant.MakeInt64(100))) {
							return v.Args[0], true
						}
					}
					return v, false
				}
				switch {
				case !k0 || !k1:
					bad("value", "stored without regard to the number's flags")
				case b1 == 1 && b0 == 0:
					if !isInt(val.T) || !q.same(bitsOf(value), iv) {
						bad("value", "the integer stored is "+val.String())
					}
				default:
					v, div := hundredth(value)
					ok := isBasic(val.T, types.IsFloat) && div == (b0 == 1)
					if b1 == 1 {
						ok = ok && v.Op == OConv && q.same(bitsOf(v.Args[0]), iv)
					} else {
						ok = ok && wantFloat(v, fv)
					}
					if !ok {
						bad("value", fmt.Sprintf("the number stored (hundredths: %d, integer: %d) is %s", b0, b1, val))
					}
				}
			case bFormula:
				mark := at(12, 2)
				if !q.canBe(mark, 0xFFFF) {
					if !isBasic(val.T, types.IsFloat) || !wantFloat(value, at(6, 8)) {
						bad("value", "the number stored is "+value.String())
					}
					break
				}
				if v, ok := q.value(mark); !ok || v != 0xFFFF {
					bad("value", "stored without telling numbers from other results")
					break
				}
				kindOf, ok := q.value(at(6, 1))
				switch {
				case !ok:
					bad("value", "stored without regard to the type of the result")
				case kindOf == 0 || kindOf == 3:
					// the text follows, or it is blank
					if c, ok := value.strConst(); !ok || c != "" {
						bad("value", "a result that is no number is stored as "+val.String())
					}
				case kindOf == 1:
					wantBool(8)
				case kindOf == 2:
					wantErr(8)
				default:
					bad("value", "a result of an undefined type is stored")
				}
			case bLabelSst:
				ok := false
				if value.Op == OInit && value.Args[0].Op == OIndexAddr {
					a := value.Args[0]
					ok = q.same(bitsOf(a.Args[1]), at(6, 4)) && isFieldLoad(a.Args[0], m.fStrings)
				}
				if !ok {
					bad("value", "the string stored is "+val.String())
				}
			}
			// number format
			ok = false
			if n, isC := fno.intConst(); isC && n == 0 {
				ok = isErr
				if !ok {
					// unknown formats
					xfs := m.xfs(s, x)
					ok = xfs != nil && (s.is(tLe(tLen(xfs), tBytesOf(s, data, 0, 2).subst0(s, data, tAdd(tInt(4), off)))) || pastEnd(s, q, xfs, ixfe))
				}
			} else if fno.Op == OInit && fno.Args[0].Op == OIndexAddr {
				a := fno.Args[0]
				ok = q.same(bitsOf(a.Args[1]), ixfe) && isFieldLoad(a.Args[0], m.fXfs)
			}
			if !ok {
				bad("format", "the number format stored is "+fno.String())
			}
		}
		checkSet := func(x *Exec, s *State, ev *CallEvent) {
			c, ok := l.cur(s)
			pos := x.P.InstrPos(ev.Instr)
			if !ok || m.isRec(s, c.rec, bString) != True {
				t.bad(ruleStore, "text of another record", pos, "the text of a cell is set for a record that holds none", s.trail.lines(12)...)
				return
			}
			s.ghost["!put"] = tInt(1)
			putIdx[c.idx] = true
			f := l.frame(s, c)
			t.ok(ruleStore, "String record: row", pos)
			t.ok(ruleStore, "String record: column", pos)
			t.ok(ruleStore, "String record: value", pos)
			if v := ev.Args[3]; v.Op != OIface || !isBasic(v.T, types.IsString) {
				t.bad(ruleStore, "String record: value", pos, "the result stored is "+v.String())
			}
			if f == nil {
				return
			}
			h := l.header(f, c)
			for i, acc := range []map[*ssa.Phi]bool{frow, fcol} {
				v := ev.Args[1+i]
				if _, ok := v.intConst(); ok {
					continue // no formula yet
				}
				now := map[*ssa.Phi]bool{}
				for _, ph := range headerPhis(h) {
					if f.regs[ph] == v {
						now[ph] = true
					}
				}
				if len(now) == 0 {
					t.bad(ruleStore, "String record: "+[]string{"row", "column"}[i], pos, "the text goes to "+v.String()+", not to the cell of the formula before it", s.trail.lines(12)...)
				}
				if !firstSet && len(acc) > 0 {
					for ph := range acc {
						if !now[ph] {
							delete(acc, ph)
						}
					}
				} else {
					for ph := range now {
						acc[ph] = true
					}
				}
			}
			firstSet = false
		}
		x.H.Call = func(x *Exec, s *State, ev *CallEvent) ([]Outcome, bool) {
			if ev.Fn == nil || !isStore(ev.Fn) {
				return nil, false
			}
			pos := x.P.InstrPos(ev.Instr)
			if o := s.ghost["!sheet"]; o == nil {
				s.ghost["!sheet"] = ev.Args[0]
			} else if o != ev.Args[0] {
				t.bad(ruleStore, "one sheet", pos, "cells are stored in different sheets")
			}
			effect(x, s, ev.Fn.Name(), ev.Instr)
			switch ev.Fn {
			case put:
				checkPut(x, s, ev)
			case set:
				checkSet(x, s, ev)
			case m.setURL:
				t.bad(ruleStore, "links", pos, "a link is set by a record")
			}
			return []Outcome{{}}, true
		}
		x.H.Load = func(x *Exec, s *State, addr *Term, at ssa.Instruction) {
			had := s.ghost["!rec"] != nil
			l.load(x, s, addr, at)
			if c, ok := l.cur(s); ok && !had {
				sc.visit(x, s, c.base, c.idx, at)
			}
		}
		x.H.Edge = func(x *Exec, s *State, from, to *ssa.BasicBlock) {
			if c, ok := l.cur(s); ok && s.ghost["!mulx"] == nil {
				if lf := x.loops(s.fr.ctx.Fn).byHeader[from]; lf != nil && !lf.body[to] && !(int64(s.fr.ctx.id) == c.ctx && int64(from.Index) == c.hdr) &&
					m.isRec(s, c.rec, bMulRk) == True {
					// the cell an iteration would have stored next
					is := map[*Term]bool{}
					for _, ph := range headerPhis(from) {
						if off, ok := mulPhi[ph]; ok && s.fr.regs[ph] != nil {
							is[tAdd(s.fr.regs[ph], tInt(off))] = true
						}
					}
					if mulComplete(s, m, c, m.recData(s, c.rec), is) {
						s.ghost["!mulx"] = tInt(1)
					}
				}
			}
			if c, ok := l.cur(s); ok && int64(s.fr.ctx.id) == c.ctx && int64(from.Index) != c.hdr {
				for h, lp := range x.loops(s.fr.ctx.Fn).byHeader {
					if int64(h.Index) == c.hdr && lp.body[from] && !lp.body[to] {
						effect(x, s, "end of the scan", from.Instrs[len(from.Instrs)-1])
					}
				}
			}
			l.edge(x, s, from, to)
			sc.edge(x, s, from, to)
			lp := x.loops(s.fr.ctx.Fn).byHeader[to]
			if lp == nil || lp.body[from] {
				return
			}
			// entry of a loop
			pi := -1
			for i, pr := range to.Preds {
				if pr == from {
					pi = i
				}
			}
			for _, ph := range headerPhis(to) {
				if v := x.val(s, ph.Edges[pi]); v != tInt(0) {
					n := nestOf(to)
					for lv := int64(0); lv < 2; lv++ {
						n.fail(nestCand{ph, lv}, "initial level", x.P.blockPos(to), "the nesting level does not start at zero", nil)
					}
				}
			}
		}
		x.H.BackEdge = func(x *Exec, s *State, h *ssa.BasicBlock, inLoop func(*Term) bool, old, nw map[*ssa.Phi]*Term) {
			c, ok := l.cur(s)
			if !ok || int64(s.fr.ctx.id) != c.ctx || int64(h.Index) != c.hdr {
				if i := s.ghost["!mul"]; i != nil {
					// the next cell of a multiple record
					fwd := false
					for ph, o := range old {
						if n := nw[ph]; n != nil && o != nil && isInt(ph.Type()) && tSub(i.Args[0], o).isConst() {
							if d, ok := tSub(n, o).intConst(); ok && d == 1 {
								fwd = true
								mulPhi[ph], _ = tSub(i.Args[0], o).intConst()
							}
						}
					}
					if fwd {
						delete(s.ghost, "!mul")
						s.ghost["!muln"] = tInt(1)
					}
				}
				return
			}
			sc.backEdge(x, s, h, old, nw)
			n := nestOf(h)
			n.evals++
			rt := m.recType(s, c.rec)
			pos := x.P.blockPos(h)
			bof, eof := s.facts.eval(tEqInt(rt, tInt(bBOF))), s.facts.eval(tEqInt(rt, tInt(bEOF)))
			first := s.facts.eval(tEqInt(c.idx, tInt(0)))
			path := func() []string { return s.trail.lines(14) }
			for cd := range n.cands {
				o, w := old[cd.phi], nw[cd.phi]
				if o == nil || w == nil {
					continue
				}
				d, isC := tSub(w, o).intConst()
				atZero := s.facts.eval(tEqInt(o, tInt(0)))
				if s.is(tLt(tInt(0), o)) {
					atZero = False
				}
				fail := func(key, msg string) { n.fail(cd, key, pos, msg, path()) }
				switch {
				case !isC:
					fail("change", "the nesting level becomes "+w.String())
				case bof == True:
					switch {
					case cd.level == 1 && d != 1:
						fail("begin", "a begin record does not raise the nesting level")
					case cd.level == 0 && first == True && atZero != False && d != 0:
						fail("begin of the sheet", "the begin record of the sheet itself counts as nested")
					case cd.level == 0 && (first == False || atZero == False) && d != 1:
						fail("begin", "a nested begin record does not raise the nesting level")
					case cd.level == 0 && first == Unknown && atZero != False:
						fail("begin", "the begin record of the sheet is not told from nested ones")
					}
				case eof == True:
					if atZero == False && d != -1 {
						fail("end", "the end record of a nested block does not lower the nesting level")
					}
					if atZero == Unknown {
						fail("end", "an end record lowers the nesting level below zero or not at all")
					}
					if atZero == True && d != 0 {
						fail("end of the sheet", "the end record of the sheet changes the nesting level")
					}
				case d != 0:
					fail("other records", "a record that begins or ends nothing changes the nesting level")
				default:
					// may it have been a begin or end record?
					if bof != False && !(cd.level == 0 && first == True) {
						fail("begin", "a nested begin record may not raise the nesting level")
					}
					if eof != False && atZero != True {
						fail("end", "the end record of a nested block may not lower the nesting level")
					}
				}
			}
			// records that were not stored
			q := s.bitFacts()
			data := m.recData(s, c.rec)
			for k, name := range biffNames {
				if k == bEOF || k == bBOF || k == bHLink || k == bMerge {
					continue
				}
				if s.facts.eval(tEqInt(rt, tInt(k))) == False {
					continue
				}
				done := s.ghost["!put"] != nil
				switch k {
				case bFormula:
					if q.canBe(byteBits(data, tInt(12), 2), 0xFFFF) {
						// only the defined types have a value
						any := false
						for v := int64(0); v < 3; v++ {
							any = any || q.canBe(byteBits(data, tInt(6), 1), v)
						}
						if v, ok := q.value(byteBits(data, tInt(12), 2)); ok && v == 0xFFFF && !any {
							done = true
						}
					}
				case bLabelSst:
					// an empty text needs no cell
					if !done && emptyStringKnown(s, m, data) {
						done = true
					}
				case bMulRk:
					if nx := s.ghost["!mul"]; nx != nil {
						t.bad(ruleAll, "MulRk record", pos, "the cells after the first one of a record are not stored", path()...)
					}
					done = s.ghost["!mulx"] != nil || mulComplete(s, m, c, data, nil)
				}
				if done {
					t.ok(ruleAll, name+" record", pos)
					continue
				}
				for cd := range n.cands {
					v := old[cd.phi]
					if v != nil && s.facts.eval(tEqInt(v, tInt(cd.level))) == False || v != nil && cd.level == 0 && s.is(tLt(tInt(0), v)) {
						continue // inside of a nested block
					}
					if n.missing[cd] == nil {
						n.missing[cd] = map[string]*Violation{}
					}
					if n.missing[cd][name] == nil {
						n.missing[cd][name] = &Violation{ruleAll, name + " record", pos, "the record may not be stored", path()}
					}
				}
			}
			// the cell of the last formula
			isF := s.facts.eval(tEqInt(rt, tInt(bFormula)))
			for _, ph := range headerPhis(h) {
				o, w := old[ph], nw[ph]
				if o == nil || w == nil {
					continue
				}
				for i := 0; i < 2; i++ {
					msg := ""
					if isF == True {
						if !q.same(bitsOf(w), byteBits(data, tInt(int64(2*i)), 2)) && s.ghost["!put"] != nil {
							msg = "a formula does not set the cell its text goes to"
						}
					} else if w != o {
						msg = "the cell of the formula is changed by another record"
					}
					if msg != "" {
						steps = append(steps, stepSeen{ph, msg, pos, i == 1})
					}
				}
			}
			l.clear(s)
			delete(s.ghost, "!muln")
		}
		x.H.Return = func(x *Exec, s *State, res []*Term, at ssa.Instruction) {
			if s.nilness(res[1]) != False {
				pos := x.P.InstrPos(at)
				sheet := s.ghost["!sheet"]
				if sheet != nil && !(res[0].Op == OIface && res[0].Args[0] == sheet) {
					t.bad(ruleStore, "returned sheet", pos, "the sheet returned is not the one the cells are stored in")
				}
				done := false
				for b := range sc.idx {
					if sc.complete(s, b) {
						done = true
					}
				}
				if len(sc.idx) == 0 {
					done = true // nothing was parsed yet: reported by the scan
				}
				if done {
					t.ok(ruleScan, "end of the sheet", pos)
				} else {
					t.bad(ruleScan, "end of the sheet", pos, "the sheet is returned before all records have been examined", s.trail.lines(12)...)
				}
				return
			}
			effect(x, s, "error", at)
		}
		x.H.FnReturn = func(x *Exec, s *State, fn *ssa.Function, res []*Term, at ssa.Instruction) {
			if s.fr.parent == nil || len(res) == 0 {
				return
			}
			e := res[len(res)-1]
			if _, ok := l.cur(s); ok && types.Identical(fn.Signature.Results().At(len(res)-1).Type(), tErrType) && s.nilness(e) == False {
				if p.reachesFn(fn, isStore) {
					effect(x, s, "error", at)
				}
			}
		}
		t.after = append(t.after, func() {
			if !nesting {
				sc.done(x)
				for i, acc := range []map[*ssa.Phi]bool{frow, fcol} {
					what := []string{"row", "column"}[i]
					if len(acc) == 0 && !firstSet {
						t.bad(ruleStore, "String record: "+what, "?", "the text of a formula goes to different places")
					}
					for ph := range acc {
						for _, st := range steps {
							if st.ph == ph && st.col == (i == 1) {
								t.bad(ruleStore, "String record: "+what, st.pos, st.bad)
							}
						}
					}
				}
			}
			var hs []*nestLoop
			for _, n := range loops {
				if len(n.effects) > 0 && n.evals > 0 {
					hs = append(hs, n)
				}
			}
			sort.Slice(hs, func(i, j int) bool {
				return x.P.blockPos(hs[i].header) < x.P.blockPos(hs[j].header)
			})
			for k, n := range hs {
				var best nestCand
				bn := -1
				for cd, fs := range n.cands {
					sc := len(fs)*10 + len(n.missing[cd])
					if bn < 0 || sc < bn || sc == bn && cd.phi.Name() < best.phi.Name() {
						best, bn = cd, sc
					}
				}
				what := fmt.Sprintf("record loop %d: ", k+1)
				if nesting {
					t.ok(ruleNest, what+"counter", x.P.blockPos(n.header))
					for e, pos := range n.effects {
						t.ok(ruleLevel, what+e, pos)
					}
				}
				if bn < 0 {
					if nesting {
						t.bad(ruleNest, what+"counter", x.P.blockPos(n.header), "nested blocks are not counted")
					}
					continue
				}
				if nesting {
					for _, v := range n.cands[best] {
						rl := ruleNest
						if n.effects[v.Construct] != "" {
							rl = ruleLevel
						}
						t.bad(rl, what+v.Construct, v.Pos, v.Msg, v.Path...)
					}
				} else if n.put {
					for _, v := range n.missing[best] {
						t.bad(ruleAll, v.Construct, v.Pos, v.Msg, v.Path...)
					}
				}
			}
			if nesting {
				t.keepRules(ruleNest, ruleLevel)
				t.expect(ruleNest, 2)
				t.expect(ruleLevel, 5)
			} else {
				t.expect(ruleStore, 27)
				t.expect(ruleAll, 7)
				t.expect(ruleTable, 8)
			}
		})
		return x.Start(m.get)
	})
	_ = formula
	if !nesting {
		// nothing below Get writes into bytes it did not make
		p.noByteWrites(r, ruleData, m.get)
	}
	_ = strings.Join
}

// keepRules drops what belongs to other properties.
func (r *Report) keepRules(rules ...string) {
	keep := map[string]bool{"anchor": true, "undecided": true}
	for _, k := range rules {
		keep[k] = true
	}
	for k := range r.obligs {
		if !keep[k] {
			delete(r.obligs, k)
			delete(r.evals, k)
		}
	}
	for k, v := range r.viols {
		if !keep[v.Rule] {
			delete(r.viols, k)
		}
	}
}

// tBytesOf reads a number from a byte slice as the code does.
func tBytesOf(s *State, data *Term, off int64, n int64) *Term {
	return tBytesAt(s, data, tInt(off), n)
}

func tBytesAt(s *State, data, off *Term, n int64) *Term {
	b, o := sliceParts(data)
	t := tBytes(data, off, n)
	if data.T != nil {
		if sl, ok := under(data.T).(*types.Slice); ok {
			if e := s.epoch["e"+typeKey(sl.Elem())]; e != nil {
				return mk(Term{Op: OBytes, Args: []*Term{b, tAdd(o, off), e}, I: n, T: t.T})
			}
		}
	}
	return t
}

func (t *Term) subst0(s *State, data, off *Term) *Term { return tBytesAt(s, data, off, t.I) }

// pastEnd: the path established that the number is no index of the slice.
func pastEnd(s *State, q *bitFacts, sl *Term, num bitv) bool {
	for f := range s.facts.m {
		if f.Op != OLe {
			continue
		}
		l := toLin(f.Args[0])
		n := tLen(sl)
		if l.m[n] != 1 || l.k < 0 {
			continue
		}
		// len - t + k <= 0
		t := tSub(tAdd(n, tInt(l.k)), f.Args[0])
		if q.same(bitsOf(t), num) {
			return true
		}
	}
	return false
}

// isFieldLoad: the value of a field of the workbook.
func isFieldLoad(t *Term, field int) bool {
	return t.Op == OInit && t.Args[0].Op == OFieldAddr && t.Args[0].I == int64(field)
}

func (m *xlsModel) xfs(s *State, x *Exec) *Term {
	if len(x.Roots) == 0 {
		return nil
	}
	return s.load(fieldAddrOf(x.Roots[0], m.fXfs))
}

// mapRead: the global map and key an expression was looked up with.
func mapRead(t *Term) (*ssa.Global, *Term) {
	var g *ssa.Global
	var key *Term
	a := t
	if a.Op == OInit && a.Args[0].Op == OMapSlot {
		a = a.Args[0]
	}
	if a.Op == OMapSlot || a.Op == OMapGet {
		key = a.Args[1]
		b := a.Args[0]
		if b.Op == OInit && b.Args[0].Op == OGlobal {
			b = b.Args[0]
		}
		if b.Op == OGlobal {
			g, _ = b.G.(*ssa.Global)
		}
	}
	return g, key
}

// mapHasOf is the condition that the key of a lookup is present.
func mapHasOf(t *Term) *Term {
	a := t
	if a.Op == OInit && a.Args[0].Op == OMapSlot {
		a = a.Args[0]
	}
	return mk(Term{Op: OMapHas, Args: append([]*Term{}, a.Args...), T: types.Typ[types.Bool]})
}

// notInTable: the path has established that the bits are no key of a table
// which holds all error codes.
func notInTable(s *State, b bitv, k int64) bool {
	for f := range s.facts.m {
		if f.Op == ONot && f.Args[0].Op == OMapHas {
			h := f.Args[0]
			v := bitsOf(h.Args[1])
			same := true
			for i := range v {
				if v[i] != b[i] {
					same = false
				}
			}
			if same {
				return true
			}
		}
	}
	return false
}

// emptyStringKnown: the shared string of the record is known to be empty.
func emptyStringKnown(s *State, m *xlsModel, data *Term) bool {
	idx := byteBits(data, tInt(6), 4)
	for f := range s.facts.m {
		found := false
		f.anySub(func(u *Term) bool {
			if u.Op == OInit && u.Args[0].Op == OIndexAddr && isFieldLoad(u.Args[0].Args[0], m.fStrings) && bitsOf(u.Args[0].Args[1]) == idx {
				if s.is(tEqInt(tLen(u), tInt(0))) || s.is(tEq(u, tStr(""), types.Typ[types.String])) {
					found = true
				}
			}
			return found
		})
		if found {
			return true
		}
	}
	return false
}

// mulComplete: all cells of a multiple record have been stored.
func mulComplete(s *State, m *xlsModel, c curRec, data *Term, idx map[*Term]bool) bool {
	is := []*Term{tInt(0)}
	for i := range idx {
		is = append(is, i)
	}
	for _, i := range is {
		// the cell and the last column no longer fit
		need := tAdd(tMulK(i, 6), tInt(12))
		if s.is(tLt(tLen(data), need)) {
			return true
		}
		for f := range s.facts.m {
			if f.Op != OLe && f.Op != OEqZ {
				continue
			}
			for a, co := range toLin(f.Args[0]).m {
				d := f.Args[0]
				if f.Op == OEqZ && co == -1 {
					d, co = tMulK(d, -1), 1
				}
				if co != 1 || a.Op != OBin || a.S != "/" {
					continue
				}
				if six, ok := a.Args[1].intConst(); !ok || six != 6 {
					continue
				}
				// a - i <= 0
				if tAdd(tSub(d, a), i) != tInt(0) {
					continue
				}
				if n := sixLess(a.Args[0]); n != nil && (isFieldLoadOf(n, c.rec) || n == tLen(data)) {
					return true
				}
			}
		}
	}
	return false
}

// sixLess: the term is n - 6.
func sixLess(t *Term) *Term {
	for t.Op == OConv {
		t = t.Args[0]
	}
	if t.Op == OBin && t.S == "-" {
		if k, ok := t.Args[1].intConst(); ok && k == 6 {
			return t.Args[0]
		}
		return nil
	}
	l := toLin(t)
	if len(l.m) == 1 && l.k == -6 {
		for a, c := range l.m {
			if c == 1 {
				return a
			}
		}
	}
	return nil
}

func isFieldLoadOf(t, base *Term) bool {
	return t.Op == OInit && t.Args[0].Op == OFieldAddr && t.Args[0].Args[0] == base && isInt(t.T)
}

// noByteWrites: no function below fn writes into a byte slice it was given.
func (p *Prog) noByteWrites(r *Report, rule string, fn *ssa.Function) {
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	local := func(v ssa.Value) bool {
		for {
			switch y := v.(type) {
			case *ssa.Slice:
				v = y.X
			case *ssa.IndexAddr:
				v = y.X
			case *ssa.Alloc, *ssa.MakeSlice:
				return true
			default:
				return false
			}
		}
	}
	bytesOf := func(t types.Type) bool {
		switch u := under(t).(type) {
		case *types.Slice:
			return isByte(u.Elem())
		case *types.Pointer:
			if a, ok := under(u.Elem()).(*types.Array); ok {
				return isByte(a.Elem())
			}
		}
		return false
	}
	visit = func(f *ssa.Function) {
		if seen[f] || !p.InModule(f) {
			return
		}
		seen[f] = true
		r.fn(f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch y := in.(type) {
				case *ssa.Store:
					if ia, ok := y.Addr.(*ssa.IndexAddr); ok && bytesOf(ia.X.Type()) && !local(ia.X) {
						r.bad(rule, shortName(f), p.InstrPos(in), "a byte of the record data may be overwritten")
					}
				case ssa.CallInstruction:
					c := y.Common()
					if bi, ok := c.Value.(*ssa.Builtin); ok && bi.Name() == "copy" && bytesOf(c.Args[0].Type()) && !local(c.Args[0]) {
						r.bad(rule, shortName(f), p.InstrPos(in), "record data may be overwritten")
					}
					if g := c.StaticCallee(); g != nil {
						if strings.HasPrefix(g.String(), "(encoding/binary.littleEndian).Put") && !local(c.Args[1]) {
							r.bad(rule, shortName(f), p.InstrPos(in), "record data may be overwritten")
						}
						visit(g)
					}
				}
			}
		}
		r.ok(rule, shortName(f), p.Pos(f.Pos()))
	}
	visit(fn)
}

// loopy functions contain a loop, or call one that does.
func (p *Prog) loopy(fn *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function) bool
	visit = func(f *ssa.Function) bool {
		if seen[f] || !p.InModule(f) {
			return false
		}
		seen[f] = true
		if len(findLoops(f).byHeader) > 0 {
			return true
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil && visit(g) {
						return true
					}
				}
			}
		}
		return false
	}
	return visit(fn)
}
