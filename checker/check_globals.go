package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// more record types of [MS-XLS] 2.3
const (
	bDate1904 = 34
	bContinue = 60
	bBound    = 133
	bXF       = 224
	bSST      = 252
	bFormat   = 1054
)

var globalNames = map[int64]string{bDate1904: "Date1904", bBound: "BoundSheet8", bXF: "XF", bSST: "SST", bFormat: "Format"}

func init() {
	register("P34", "path-sensitive abstract interpretation of the record loops with a bit provenance domain",
		"The loading of a binary workbook is followed on all paths. For every kind of record which defines a style, a number format, the shared strings, a sheet or the date system, the lists of the workbook and the calls of the number formatter are compared before and after the record: exactly one entry, made of the bytes the format assigns to it, and no change by any other record. All records of all parts of the stream have to be examined.",
		checkBookRecords)
}

// loader is the loading of a binary workbook.
type loader struct {
	*xlsModel
	open      *ssa.Function
	add, mode *ssa.Function
	widths    map[*ssa.Function]int
}

func (r *Report) xlsLoader() *loader {
	m := r.xlsModel()
	if m == nil {
		return nil
	}
	p := r.P
	l := &loader{xlsModel: m, open: p.Func(xlsPath, "Open"), add: p.PMethod(cxlPath, "Formatter", "Add"), mode: p.PMethod(cxlPath, "Formatter", "Mode1904"), widths: map[*ssa.Function]int{}}
	if !r.need("xls.Open", l.open) || !r.need("Formatter.Add", l.add) || !r.need("Formatter.Mode1904", l.mode) {
		return nil
	}
	// fields of a sheet
	l.fName, l.fHidden, l.fStart = -1, -1, -1
	st, ok := under(l.bound).(*types.Struct)
	if !ok {
		r.bad("anchor", "sheets of a workbook", "?", "the sheets of a workbook have no fields")
		return nil
	}
	used := map[int]bool{}
	for _, n := range []string{"List", "ListHidden"} {
		p.reachesFn(p.PMethod(xlsPath, "WorkBook", n), func(f *ssa.Function) bool {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					switch a := in.(type) {
					case *ssa.FieldAddr:
						if types.Identical(a.X.Type().Underlying().(*types.Pointer).Elem(), l.bound) {
							used[a.Field] = true
						}
					case *ssa.Field:
						if types.Identical(a.X.Type(), l.bound) {
							used[a.Field] = true
						}
					}
				}
			}
			return false
		})
	}
	for i := 0; i < st.NumFields(); i++ {
		ty := st.Field(i).Type()
		switch {
		case isBasic(ty, types.IsString):
			l.fName = i
		case isByte(ty):
			if l.fHidden < 0 && used[i] || strings.Contains(st.Field(i).Name(), "idden") {
				l.fHidden = i
			}
		case isInt(ty):
			l.fStart = i
		}
	}
	return l
}

// isDecoder: the function turns bytes into a string.
func (l *loader) isDecoder(f *ssa.Function) bool {
	if fnPkg(f) == nil || fnPkg(f).Path() != xlsPath || f.Signature.Recv() != nil {
		return false
	}
	in, out := false, false
	for i := 0; i < f.Signature.Params().Len(); i++ {
		in = in || isBytes(f.Signature.Params().At(i).Type())
	}
	for i := 0; i < f.Signature.Results().Len(); i++ {
		out = out || isBasic(f.Signature.Results().At(i).Type(), types.IsString)
	}
	return in && out
}

// isTable: the function reads a list of strings from records.
func (l *loader) isTable(f *ssa.Function) bool {
	if fnPkg(f) == nil || fnPkg(f).Path() != xlsPath {
		return false
	}
	in, out := false, false
	for i := 0; i < f.Signature.Params().Len(); i++ {
		in = in || l.isRecs(f.Signature.Params().At(i).Type())
	}
	for i := 0; i < f.Signature.Results().Len(); i++ {
		if sl, ok := under(f.Signature.Results().At(i).Type()).(*types.Slice); ok && isBasic(sl.Elem(), types.IsString) {
			out = true
		}
	}
	return in && out
}

// isRecs: a list of records.
func (l *loader) isRecs(t types.Type) bool {
	sl, ok := under(t).(*types.Slice)
	if !ok {
		return false
	}
	e := sl.Elem()
	if pt, ok := under(e).(*types.Pointer); ok {
		e = pt.Elem()
	}
	return types.Identical(e, l.rec)
}

// onStack: the function is being executed.
func onStack(s *State, f *ssa.Function) bool {
	for fr := s.fr; fr != nil; fr = fr.parent {
		if fr.ctx.Fn == f {
			return true
		}
	}
	return false
}

// noteStore remembers that a variable is changed.
func noteStore(s *State, addr, val *Term) {
	k := fmt.Sprintf("!chg%d", addr.id)
	o := s.load(addr)
	if c := s.ghost[k]; c != nil {
		o = c.Args[1]
	}
	s.ghost[k] = tTuple(addr, o, val)
}

// changes lists the variables which changed, with their values before and after.
func changes(x *Exec, s *State, want func(ty types.Type) bool, old, nw map[*ssa.Phi]*Term) (locs []xmlLoc) {
	for p, n := range nw {
		if want(p.Type()) && old[p] != nil && old[p] != n {
			locs = append(locs, xmlLoc{fmt.Sprintf("p%d", x.valueID(p)), p.Type(), old[p], n})
		}
	}
	for k, c := range s.ghost {
		if strings.HasPrefix(k, "!chg") && c.Args[1] != c.Args[2] {
			locs = append(locs, xmlLoc{fmt.Sprintf("m%d", c.Args[0].id), pointee(c.Args[0]), c.Args[1], c.Args[2]})
		}
	}
	sort.Slice(locs, func(i, j int) bool { return locs[i].key < locs[j].key })
	return
}

func forget(s *State) {
	for k := range s.ghost {
		if strings.HasPrefix(k, "!chg") || strings.HasPrefix(k, "!ex") {
			delete(s.ghost, k)
		}
	}
}

// lenWidth: the number of bytes of the length field of a string decoder, 0 if
// it is not known.
func (l *loader) lenWidth(r *Report, f *ssa.Function) int {
	if n, ok := l.widths[f]; ok {
		return n
	}
	found := map[int]bool{}
	x := NewExec(l.p, Hooks{})
	x.JoinAt, x.Max = 6, 50000
	s := x.Start(f)
	var data *Term
	for i := 0; i < f.Signature.Params().Len(); i++ {
		if isBytes(f.Signature.Params().At(i).Type()) {
			data = s.param(i)
		}
	}
	look := func(t *Term) {
		t.anySub(func(u *Term) bool {
			for n := 1; n <= 2; n++ {
				if isInt(u.T) && bitsOf(u) == byteBits(data, tInt(0), n) {
					found[n] = true
				}
			}
			return false
		})
	}
	x.H.MakeLen = func(x *Exec, s *State, what string, n *Term, at ssa.Instruction) { look(n) }
	x.H.Oblig = func(x *Exec, s *State, kind string, cond *Term, at ssa.Instruction) bool {
		look(cond)
		return false
	}
	if data != nil {
		x.Run(s)
	}
	n := 0
	switch {
	case found[2]:
		n = 2
	case found[1]:
		n = 1
	}
	l.widths[f] = n
	return n
}

// gather follows the loops which collect the records of a table.
type gather struct {
	steps map[gkey]int              // counter and offset: 1 a Continue record each time, 2 not always
	inits map[gkey]int              // counter and offset: 1 it starts after the first record, 2 not always
	lists map[*ssa.Phi]map[gkey]int // list, counter and offset of the record appended each time
	first map[*ssa.Phi]int          // 1: the list starts with the first record, 2: not always
}

// gpos is a distance, from the start of the list or from the first record of
// the table.
type gpos struct {
	rel bool
	off int64
}

// gkey is a position in the list: a counter and the distance from it.
type gkey struct {
	p *ssa.Phi
	gpos
}

// gposs lists the distances which are looked at.
var gposs = []gpos{{false, -1}, {false, 0}, {false, 1}, {true, 0}, {true, 1}, {true, 2}}

// at is the position for a value of the counter.
func (k gpos) at(v, first *Term) *Term {
	v = tAdd(v, tInt(k.off))
	if k.rel {
		v = tAdd(v, first)
	}
	return v
}

// elemAddr: the address of an element of a list.
func elemAddr(s *State, list, idx *Term) *Term {
	b, o := sliceParts(list)
	return tIndexAddr(b, tAdd(o, idx), types.NewPointer(under(list.T).(*types.Slice).Elem()))
}

// recAt: a record of the list.
func (m *xlsModel) recAt(s *State, base, idx *Term) *Term {
	sl, ok := under(base.T).(*types.Slice)
	if !ok {
		return nil
	}
	if n, ok := idx.intConst(); ok && n < 0 {
		return nil
	}
	a := elemAddr(s, base, idx)
	if _, ok := under(sl.Elem()).(*types.Pointer); ok {
		a = s.load(a)
	}
	if pt, ok := a.T.(*types.Pointer); !ok || !types.Identical(pt.Elem(), m.rec) {
		return nil
	}
	return a
}

func checkBookRecords(r *Report) {
	l := r.xlsLoader()
	if l == nil {
		return
	}
	p := r.P
	const (
		ruleEntry = "a record of the workbook makes exactly its entry"
		ruleKeep  = "other records change no entry"
		ruleScan  = "all records of the workbook are examined"
		ruleTable = "the shared strings are read from their record and its continuations"
		ruleErr   = "a workbook is only rejected for a record which cannot be read"
	)
	kinds := []int64{bDate1904, bBound, bXF, bSST, bFormat}
	r.analyse("xls.Open", l.open, func(x *Exec, t *Report) *State {
		x.JoinHeads = true
		x.JoinAt = min(x.JoinAt, 2)
		x.KeepLists = true
		rl := &recLoop{l.xlsModel, t}
		inner, outer := newScan(t, ruleScan, "records"), newScan(t, ruleScan, "blocks")
		ga := gather{map[gkey]int{}, map[gkey]int{}, map[*ssa.Phi]map[gkey]int{}, map[*ssa.Phi]int{}}
		s := x.Start(l.open)
		x.H.Inline = func(x *Exec, s *State, fn *ssa.Function) bool {
			if p.reachesFn(fn, func(g *ssa.Function) bool { return g == l.add || l.isTable(g) && g != fn }) || !p.loopy(fn) || fnPkg(fn).Path() == xlsPath && len(x.loops(fn).byHeader) == 0 {
				return true
			}
			for i := 0; i < fn.Signature.Params().Len(); i++ {
				if l.isRecs(fn.Signature.Params().At(i).Type()) {
					return true
				}
			}
			return false
		}
		op := func(s *State, f *ssa.Function, args []*Term) {
			var ops []*Term
			if o := s.ghost["!ops"]; o != nil {
				ops = append(ops, o.Args...)
			}
			if len(ops) < 3 {
				ops = append(ops, mk(Term{Op: OCall, S: f.Name(), Args: args}))
			}
			s.ghost["!ops"] = tTuple(ops...)
		}
		type tableUse struct {
			list, hi *ssa.Phi
			hiOff    map[gpos]bool
			exits    map[gkey]bool
			pos      string
			path     []string
		}
		var uses []tableUse
		// is the record after the last one no continuation?
		noCont := func(s *State, c curRec, next *Term) bool {
			if s.is(tLe(tLen(c.base), next)) {
				return true
			}
			n := l.recAt(s, c.base, next)
			return n != nil && l.isRec(s, n, bContinue) == False
		}
		exitName := map[string]gkey{}
		endName := map[string]*ssa.Phi{} // values when a loop was left
		// tableArg checks the records the shared strings are read from.
		tableArg := func(s *State, arg *Term, at ssa.Instruction) string {
			c, ok := rl.cur(s)
			if !ok {
				return "no record is being examined"
			}
			u := tableUse{exits: map[gkey]bool{}, hiOff: map[gpos]bool{}, pos: p.InstrPos(at), path: s.trail.lines(20)}
			for k, key := range exitName {
				if s.ghost[k] != nil {
					u.exits[key] = true
				}
			}
			for k, ph := range endName {
				switch v := s.ghost[k]; {
				case v == nil:
				case !isInt(ph.Type()):
					if v == arg && v.Op != OSlice {
						u.list = ph
					}
				case arg.Op == OSlice && arg.Args[0] == c.base:
					for _, g := range gposs {
						if !v.isConst() && g.at(v, c.idx) == arg.Args[2] {
							u.hi, u.hiOff[g] = ph, true
						}
					}
				}
			}
			if arg.Op == OSlice && arg.Args[0] == c.base {
				lo, hi := arg.Args[1], arg.Args[2]
				if lo != c.idx {
					return fmt.Sprintf("the records start with %v", lo)
				}
				if d, ok := tSub(hi, c.idx).intConst(); ok {
					if d == 1 && noCont(s, c, hi) {
						return ""
					}
					return fmt.Sprintf("the records end before %v", hi)
				}
			} else if n, ok := tLen(arg).intConst(); ok && n == 1 {
				if l.recAt(s, arg, tInt(0)) != c.rec {
					return fmt.Sprintf("the record itself is missing from %v: %v instead of %v", arg, l.recAt(s, arg, tInt(0)), c.rec)
				}
				if noCont(s, c, tAdd(c.idx, tInt(1))) {
					return ""
				}
				if u.list == nil {
					return "a continuation of the record may be missing"
				}
			} else if arg.Op == OAppend {
				// appended once before the loop is left
				return fmt.Sprintf("the records are %v", arg)
			}
			if u.list == nil && u.hi == nil {
				return fmt.Sprintf("the records are %v", arg)
			}
			uses = append(uses, u)
			return ""
		}
		x.H.Call = func(x *Exec, s *State, ev *CallEvent) ([]Outcome, bool) {
			if ev.Fn == nil {
				return nil, false
			}
			table := l.isTable(ev.Fn) && !p.reachesFn(ev.Fn, func(g *ssa.Function) bool { return g != ev.Fn && l.isTable(g) })
			switch {
			case ev.Fn == l.add || ev.Fn == l.mode:
				if _, ok := rl.cur(s); !ok {
					t.bad(ruleKeep, "call of "+ev.Fn.Name(), p.InstrPos(ev.Instr), "no record is being examined", s.trail.lines(20)...)
				}
				op(s, ev.Fn, ev.Args[1:])
				return []Outcome{{}}, true
			case l.isDecoder(ev.Fn) || table:
				var vs []*Term
				if table {
					for _, a := range ev.Args {
						if !l.isRecs(a.T) {
							continue
						}
						if msg := tableArg(s, a, ev.Instr); msg != "" {
							t.bad(ruleTable, "SST record", p.InstrPos(ev.Instr), msg, s.trail.lines(20)...)
						} else {
							t.ok(ruleTable, "SST record", p.InstrPos(ev.Instr))
						}
					}
				}
				sig := ev.Fn.Signature
				var errv *Term
				for i := 0; i < sig.Results().Len(); i++ {
					v := mk(Term{Op: OCall, S: fmt.Sprintf("dec:%s#%d", ev.Fn.Name(), i), G: ev.Fn, Args: ev.Args, T: sig.Results().At(i).Type()})
					if types.Identical(v.T, tErrType) {
						errv = v
					}
					vs = append(vs, v)
				}
				if errv == nil {
					return []Outcome{{Res: tTuple(vs...)}}, true
				}
				return []Outcome{{Res: tTuple(vs...), Assume: []*Term{tEq(errv, tNil(tErrType), nil)}}, {Res: tTuple(vs...), Assume: []*Term{tNot(tEq(errv, tNil(tErrType), nil))}, Do: func(s *State) { s.ghost["!unread"] = tInt(1) }}}, true
			case onStack(s, ev.Fn) || p.reachesFn(ev.Fn, func(g *ssa.Function) bool { return onStack(s, g) }):
				return []Outcome{{Res: x.sym(s, ev.Instr, "delegated", tErrType), Do: func(s *State) { s.ghost["!deleg"] = tInt(1) }}}, true
			}
			return nil, false
		}
		want := func(ty types.Type) bool {
			sl, ok := under(ty).(*types.Slice)
			if !ok || isByte(sl.Elem()) {
				return false
			}
			if pt, ok := under(sl.Elem()).(*types.Pointer); ok {
				return types.Identical(pt.Elem(), l.bound)
			}
			return isInt(sl.Elem()) || isBasic(sl.Elem(), types.IsString) || types.Identical(sl.Elem(), l.bound)
		}
		x.H.Load = func(x *Exec, s *State, addr *Term, at ssa.Instruction) {
			if addr.Op == OIndexAddr && l.isRecs(pointee(addr)) {
				if s.ghost["!rec"] == nil && scanned(x, s, addr.Args[1], at) {
					outer.visit(x, s, addr.Args[0], addr.Args[1], at)
				}
				return
			}
			had := s.ghost["!rec"] != nil
			rl.load(x, s, addr, at)
			if c, ok := rl.cur(s); ok && !had {
				inner.visit(x, s, c.base, c.idx, at)
			}
		}
		type storeSite struct {
			key  string
			in   ssa.Instruction
			ctx  *FrameCtx
			path []string
		}
		var stores []storeSite
		heads := map[*FrameCtx]*ssa.BasicBlock{}
		x.H.Store = func(x *Exec, s *State, addr, val *Term, at ssa.Instruction) {
			if ty := pointee(addr); ty == nil || !want(ty) {
				return
			}
			if s.ghost["!rec"] != nil {
				noteStore(s, addr, val)
			} else {
				stores = append(stores, storeSite{fmt.Sprintf("m%d", addr.id), at, s.fr.ctx, s.trail.lines(20)})
			}
		}
		innerDone := func(s *State) bool {
			if s.ghost["!xrecords"] != nil {
				return true
			}
			for b := range inner.idx {
				if inner.complete(s, b) {
					return true
				}
			}
			return false
		}
		x.H.Edge = func(x *Exec, s *State, from, to *ssa.BasicBlock) {
			lp := x.loops(s.fr.ctx.Fn).byHeader[to]
			if c, ok := rl.cur(s); ok && lp != nil && !lp.body[from] {
				for _, k := range kinds {
					if l.isRec(s, c.rec, k) == True {
						s.ghost["!kind"] = tInt(k)
					}
				}
			}
			if c, ok := rl.cur(s); ok && lp != nil && !lp.body[from] && l.isRec(s, c.rec, bSST) == True {
				pi := -1
				for i, pr := range to.Preds {
					if pr == from {
						pi = i
					}
				}
				for _, in := range to.Instrs {
					ph, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					v := x.val(s, ph.Edges[pi])
					switch {
					case isInt(ph.Type()):
						for _, g := range gposs {
							if g.at(v, c.idx) == tAdd(c.idx, tInt(1)) {
								ga.inits[gkey{ph, g}] |= 1
							} else {
								ga.inits[gkey{ph, g}] |= 2
							}
						}
					case l.isRecs(ph.Type()):
						n, ok := tLen(v).intConst()
						if ok && n == 1 && l.recAt(s, v, tInt(0)) == c.rec {
							ga.first[ph] |= 1
						} else {
							ga.first[ph] |= 2
						}
					}
				}
			}
			if c, ok := rl.cur(s); ok && (l.isRec(s, c.rec, bSST) == True || s.ghost["!kind"] == tInt(bSST)) {
				for h, lp := range x.loops(s.fr.ctx.Fn).byHeader {
					if !lp.body[from] || lp.body[to] {
						continue
					}
					for _, in := range h.Instrs {
						if ph, ok := in.(*ssa.Phi); ok && s.fr.regs[ph] != nil && (isInt(ph.Type()) || l.isRecs(ph.Type())) {
							k := fmt.Sprintf("!exv%d", x.valueID(ph))
							endName[k] = ph
							s.ghost[k] = s.fr.regs[ph]
						}
					}
					for _, ph := range headerPhis(h) {
						for _, g := range gposs {
							if v := s.fr.regs[ph]; v != nil && noCont(s, c, g.at(v, c.idx)) {
								k := fmt.Sprintf("!ex%d.%v", x.valueID(ph), g)
								exitName[k] = gkey{ph, g}
								s.ghost[k] = tInt(1)
							}
						}
					}
				}
			}
			if c, ok := rl.cur(s); ok && int64(s.fr.ctx.id) == c.ctx && int64(from.Index) != c.hdr {
				// the iteration is left in the middle
				if h := rl.header(s.fr, c); h != nil && x.loops(s.fr.ctx.Fn).byHeader[h].body[from] && !x.loops(s.fr.ctx.Fn).byHeader[h].body[to] {
					if s.ghost["!unread"] == nil && s.facts.eval(tEqInt(l.recType(s, c.rec), tInt(bBOF))) != True && !s.is(tLt(tLen(l.recData(s, c.rec)), tInt(8))) {
						s.ghost["!rej"] = tTuple(l.recType(s, c.rec))
					} else {
						s.ghost["!rej"] = tInt(0)
					}
				}
			}
			rl.edge(x, s, from, to)
			inner.edge(x, s, from, to)
			outer.edge(x, s, from, to)
		}
		type change struct {
			kind int64   // of record, 0: another one
			may  []int64 // kinds it may be
			ops  []*Term
			locs map[string]xmlLoc
			s    *State
			c    curRec
			hdr  *ssa.BasicBlock
			pos  string
			path []string
		}
		is := func(ch change, k int64) bool {
			r := ch.kind == k
			for _, m := range ch.may {
				r = r || m == k
			}
			return r
		}
		var chs []change
		x.H.BackEdge = func(x *Exec, s *State, h *ssa.BasicBlock, in func(*Term) bool, old, nw map[*ssa.Phi]*Term) {
			c, ok := rl.cur(s)
			if !ok {
				if s.ghost["!vblocks"] != nil && len(inner.idx) > 0 && !innerDone(s) {
					b := s.ghost["!vblocks"].Args
					if !s.is(tLe(tLen(s.load(elemAddr(s, b[0], b[1]))), tInt(0))) {
						t.bad(ruleScan, "next block", p.blockPos(h), "the next block is examined before all records of this one have been", s.trail.lines(20)...)
					}
				} else if s.ghost["!vblocks"] != nil {
					t.ok(ruleScan, "next block", p.blockPos(h))
				}
				outer.backEdge(x, s, h, old, nw)
				delete(s.ghost, "!xrecords")
				return
			}
			if int64(s.fr.ctx.id) != c.ctx || int64(h.Index) != c.hdr {
				if l.isRec(s, c.rec, bSST) != True && s.ghost["!kind"] != tInt(bSST) {
					return
				}
				for ph, o := range old {
					n := nw[ph]
					if o == nil || n == nil {
						continue
					}
					if isInt(ph.Type()) {
						d, ok := tSub(n, o).intConst()
						for _, g := range gposs {
							rec := l.recAt(s, c.base, g.at(o, c.idx))
							if ok && d == 1 && rec != nil && l.isRec(s, rec, bContinue) == True {
								ga.steps[gkey{ph, g}] |= 1
							} else {
								ga.steps[gkey{ph, g}] |= 2
							}
						}
					}
					if l.isRecs(ph.Type()) {
						if ga.lists[ph] == nil {
							ga.lists[ph] = map[gkey]int{}
						}
						for q, qo := range old {
							if !isInt(q.Type()) || qo == nil {
								continue
							}
							for _, g := range gposs {
								k := gkey{q, g}
								if n.Op == OAppend && len(n.Args) == 2 && n.Args[0] == o && n.Args[1] == l.recAt(s, c.base, g.at(qo, c.idx)) {
									ga.lists[ph][k] |= 1
								} else {
									ga.lists[ph][k] |= 2
								}
							}
						}
					}
				}
				return
			}
			defer forget(s)
			heads[s.fr.ctx] = h
			inner.backEdge(x, s, h, old, nw)
			kind := int64(0)
			var may []int64
			rt := l.recType(s, c.rec)
			kept := s.ghost["!kind"]
			delete(s.ghost, "!kind")
			for _, k := range kinds {
				if kept != nil {
					if kept == tInt(k) {
						kind = k
					}
					continue
				}
				switch s.facts.eval(tEqInt(rt, tInt(k))) {
				case True:
					kind = k
				case Unknown:
					may = append(may, k)
				}
			}
			if kind != 0 {
				may = nil
			}
			pos, path := p.blockPos(h), s.trail.lines(20)
			empty := s.is(tLe(tLen(l.recData(s, c.rec)), tInt(0)))
			var ops []*Term
			if o := s.ghost["!ops"]; o != nil {
				ops = o.Args
			}
			delete(s.ghost, "!ops")
			locs := map[string]xmlLoc{}
			for _, lc := range changes(x, s, want, old, nw) {
				locs[lc.key] = lc
				if empty {
					t.bad(ruleKeep, "empty record", pos, fmt.Sprintf("a list becomes %v", lc.n), path...)
				}
			}
			if empty && len(ops) > 0 {
				t.bad(ruleKeep, "empty record", pos, "a number format or the date system is set", path...)
			}
			if !empty {
				chs = append(chs, change{kind, may, ops, locs, s.clone(), c, h, pos, path})
			}
			rl.clear(s)
		}
		nRet := 0
		x.H.Return = func(x *Exec, s *State, res []*Term, at ssa.Instruction) {
			var err *Term
			for _, v := range res {
				if v.T != nil && types.Identical(v.T, tErrType) {
					err = v
				}
			}
			if err == nil && len(res) > 0 {
				err = res[len(res)-1]
			}
			if err == nil || s.ghost["!deleg"] != nil || inner.visits == 0 {
				return
			}
			pos := p.InstrPos(at)
			if v := s.ghost["!rej"]; v != nil && s.nilnessErr(err) != True {
				if v != tInt(0) {
					t.bad(ruleErr, "error", pos, fmt.Sprintf("the workbook can be rejected because of a record of type %v", v.Args[0]), s.trail.lines(20)...)
				} else {
					t.ok(ruleErr, "error", pos)
				}
			}
			if s.nilnessErr(err) == False {
				return
			}
			nRet++
			done := false
			for b := range outer.idx {
				done = done || outer.complete(s, b)
			}
			if done || len(outer.idx) == 0 && innerDone(s) {
				t.ok(ruleScan, "end of the workbook", pos)
			} else {
				t.bad(ruleScan, "end of the workbook", pos, "the workbook is returned before all records have been examined", s.trail.lines(20)...)
			}
		}
		t.after = append(t.after, func() {
			inner.done(x)
			if nRet == 0 {
				t.bad(ruleScan, "end of the workbook", p.Pos(l.open.Pos()), "the workbook is never read to its end")
			}
			for _, u := range uses {
				good := false
				for k := range u.exits {
					if ga.steps[k] != 1 || ga.inits[k] != 1 {
						continue
					}
					if u.list != nil && ga.first[u.list] == 1 && ga.lists[u.list][k] == 1 {
						good = true
					}
					if u.hi == k.p && u.hiOff[k.gpos] {
						good = true
					}
				}
				if !good {
					t.bad(ruleTable, "SST record", u.pos, "the shared strings are not read from the record and all of its continuations", u.path...)
				}
			}
			// which list is which
			entry := func(k int64, ch change, lc xmlLoc) string {
				data := l.recData(ch.s, ch.c.rec)
				q := ch.s.bitFacts()
				n := lc.n
				if k == bDate1904 || k == bFormat {
					f := l.mode
					if k == bFormat {
						f = l.add
					}
					var a []*Term
					for _, o := range ch.ops {
						if o.S == f.Name() {
							if a != nil {
								return "it is set twice"
							}
							a = o.Args
						}
					}
					if a == nil {
						return map[int64]string{bDate1904: "the date system is not set", bFormat: "the number format is not registered"}[k]
					}
					if k == bFormat {
						if !q.same(bitsOf(a[0]), byteBits(data, tInt(0), 2)) {
							return fmt.Sprintf("the number of the format is %v", a[0])
						}
						return l.decoded(r, a[1], data, 2, 2)
					}
					mode := byteBits(data, tInt(0), 2)
					if v, ok := a[0].boolConst(); ok {
						if v && q.canBe(mode, 0) || !v && q.canBe(mode, 1) {
							return "the date system does not follow the record"
						}
					} else if q.evalWith(a[0], mode, 0) != False || q.evalWith(a[0], mode, 1) != True {
						return fmt.Sprintf("the 1904 date system is used if %v", a[0])
					}
					return ""
				}
				if n == nil {
					return "the record makes no entry"
				}
				if k == bSST {
					if n.Op == OCall && strings.HasPrefix(n.S, "dec:") {
						return ""
					}
					return fmt.Sprintf("the shared strings become %v", n)
				}
				if n.Op != OAppend || len(n.Args) != 2 || n.Args[0] != lc.o {
					return fmt.Sprintf("the list becomes %v", n)
				}
				v := n.Args[1]
				if k == bXF {
					if !q.same(bitsOf(v), byteBits(data, tInt(2), 2)) {
						return fmt.Sprintf("the number format of the style is %v", v)
					}
					return ""
				}
				get := func(f int) *Term {
					if v.Op == OStruct {
						return v.Args[f]
					}
					return ch.s.load(fieldAddrOf(v, f))
				}
				st := under(l.bound).(*types.Struct)
				n3 := 0
				for i := 0; i < st.NumFields(); i++ {
					switch {
					case i == l.fStart:
						if !q.same(bitsOf(get(i)), byteBits(data, tInt(0), 4)) {
							return fmt.Sprintf("the position of the sheet is %v", get(i))
						}
						n3++
					case i == l.fName:
						if msg := l.decoded(r, get(i), data, 6, 1); msg != "" {
							return msg
						}
						n3++
					case i == l.fHidden:
						// only the first two bits are defined
						got, w := bitsOf(get(i)), byteBits(data, tInt(4), 1)
						if got[0] != w[0] || got[1] != w[1] {
							return fmt.Sprintf("the visibility of the sheet is %v", get(i))
						}
						n3++
					}
				}
				if n3 != 3 {
					return "the sheet has no name, position or visibility"
				}
				return ""
			}
			elem := map[int64]func(types.Type) bool{
				bXF:  isInt,
				bSST: func(e types.Type) bool { return isBasic(e, types.IsString) },
				bBound: func(e types.Type) bool {
					return !isInt(e) && !isBasic(e, types.IsString)
				},
			}
			hdrs := map[*ssa.BasicBlock]bool{}
			keysOf := map[int64][]string{bDate1904: {""}, bFormat: {""}}
			seenKey := map[string]bool{}
			for _, ch := range chs {
				hdrs[ch.hdr] = true
				for key, lc := range ch.locs {
					if seenKey[key] {
						continue
					}
					seenKey[key] = true
					for k, f := range elem {
						if f(under(lc.t).(*types.Slice).Elem()) {
							keysOf[k] = append(keysOf[k], key)
						}
					}
				}
			}
			lists := map[int64]string{}
			for _, k := range kinds {
				type verdict struct {
					rule, c, pos, msg string
					path              []string
				}
				var best []verdict
				bestN, found := 0, false
				sort.Strings(keysOf[k])
				for _, key := range keysOf[k] {
					for h := range hdrs {
						var vs []verdict
						n := 0
						for _, ch := range chs {
							lc, changed := ch.locs[key]
							if key == "" {
								for _, o := range ch.ops {
									changed = changed || k == bFormat == (o.S == l.add.Name())
								}
							}
							switch {
							case is(ch, k) && (ch.hdr == h || changed):
								if msg := entry(k, ch, lc); msg != "" {
									vs = append(vs, verdict{ruleEntry, globalNames[k] + " record", ch.pos, msg, ch.path})
								} else {
									n++
								}
							case changed && key == "":
								vs = append(vs, verdict{ruleKeep, globalNames[k], ch.pos, "another record has the effect of this one", ch.path})
							case changed:
								vs = append(vs, verdict{ruleKeep, globalNames[k], ch.pos, fmt.Sprintf("another record turns the list into %v", lc.n), ch.path})
							}
						}
						if !found || len(vs) < len(best) || len(vs) == len(best) && n > bestN {
							best, bestN, found = vs, n, true
							lists[k] = key
						}
					}
				}
				t.ok(ruleEntry, globalNames[k]+" record", p.Pos(l.open.Pos()))
				t.ok(ruleKeep, globalNames[k], p.Pos(l.open.Pos()))
				if !found || bestN == 0 && len(best) == 0 {
					t.bad(ruleEntry, globalNames[k]+" record", p.Pos(l.open.Pos()), "the record makes no entry")
					continue
				}
				for _, v := range best {
					t.bad(v.rule, v.c, v.pos, v.msg, v.path...)
				}
			}
			// changes between the records
			for _, st := range stores {
				for k, key := range lists {
					if st.key != key {
						continue
					}
					in := st.in
					for c := st.ctx; c != nil; c = c.Parent {
						if h := heads[c]; h != nil && in.Parent() == h.Parent() && blockReaches(h, in.Block()) {
							t.bad(ruleKeep, globalNames[k], p.InstrPos(st.in), "the list is changed between two records", st.path...)
						}
						in = c.Call
						if in == nil {
							break
						}
					}
				}
			}
		})
		return s
	})
	r.expect(ruleEntry, 5)
	r.expect(ruleTable, 1)
}

// scanned: the index is the counter of a loop around the instruction.
func scanned(x *Exec, s *State, idx *Term, at ssa.Instruction) bool {
	in := at
	for f := s.fr; f != nil && in != nil; f = f.parent {
		for _, lp := range x.loops(f.ctx.Fn).byHeader {
			if !lp.body[in.Block()] {
				continue
			}
			for _, ph := range headerPhis(lp.header) {
				if v := f.regs[ph]; v != nil && inductionStep(ph, lp) != 0 {
					if _, ok := tSub(idx, v).intConst(); ok {
						return true
					}
				}
			}
		}
		in = f.ctx.Call
	}
	return false
}

// blockReaches: control can get from one block to the other.
func blockReaches(a, b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	work := []*ssa.BasicBlock{a}
	for len(work) > 0 {
		c := work[0]
		work = work[1:]
		for _, n := range c.Succs {
			if n == b {
				return true
			}
			if !seen[n] {
				seen[n] = true
				work = append(work, n)
			}
		}
	}
	return false
}

// decoded checks that a text is read from the record at an offset, with a
// length field of so many bytes.
func (l *loader) decoded(r *Report, v, data *Term, off int64, width int) string {
	if v.Op != OCall || !strings.HasPrefix(v.S, "dec:") {
		return fmt.Sprintf("the text is %v", v)
	}
	f, _ := v.G.(*ssa.Function)
	b, o := sliceParts(data)
	want := tAdd(o, tInt(off))
	for _, a := range v.Args {
		if !isBytes(a.T) {
			continue
		}
		ab, ao := sliceParts(a)
		if ab != b || ao != want {
			return fmt.Sprintf("the text is read from %v", a)
		}
	}
	if n := l.lenWidth(r, f); n != 0 && n != width {
		return fmt.Sprintf("the length of the text is read from %d bytes", n)
	}
	return ""
}
