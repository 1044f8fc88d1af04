package main

import (
	"fmt"
	"go/types"
	"os"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const bFilePass = 47

var frameNo = regexp.MustCompile("@[0-9]+")

// places which keep their names in every run of the analysis
func phiLoc(v ssa.Value) string { return fmt.Sprintf("%v:%s", v.Parent(), v.Name()) }
func memLoc(a *Term) string     { return frameNo.ReplaceAllString(a.String(), "") }

func init() {
	register("P39", "path-sensitive abstract interpretation of the splitting loop in product with a model of the record stream",
		"The function which reads a record is followed on all paths and its result compared with the header bit by bit. The loop which splits the stream is then followed for every kind of next record (begin, end, other, end of the stream, cut off) with the nesting depth, the position and the list of blocks as unknowns; loop variables are related to them by inductive invariants. Every record has to be asked for directly behind the one before, kept in the last block, and blocks and positions have to be added exactly at outer begin records.",
		checkSplit)
}

// splitter is the reading of records from a stream.
type splitter struct {
	*loader
	next  *ssa.Function // reads a record
	feeds map[*ssa.Function]bool
	loops map[*ssa.BasicBlock]int
}

func isByteList(t types.Type) bool {
	sl, ok := under(t).(*types.Slice)
	return ok && isByte(sl.Elem())
}

// recordReader finds the function which reads a record from bytes.
func (l *loader) recordReaders() (res []*ssa.Function) {
	for _, f := range l.p.allFuncs() {
		if fnPkg(f) == nil || fnPkg(f).Path() != xlsPath || len(f.Blocks) == 0 || f.Parent() != nil || f.Synthetic != "" {
			continue
		}
		in, rec, n, err := 0, 0, 0, 0
		for _, q := range f.Params {
			if isByteList(q.Type()) {
				in++
			}
		}
		for i := 0; i < f.Signature.Results().Len(); i++ {
			ty := f.Signature.Results().At(i).Type()
			switch {
			case types.Identical(ty, tErrType):
				err++
			case isInt(ty):
				n++
			default:
				if pt, ok := under(ty).(*types.Pointer); ok && types.Identical(pt.Elem(), l.rec) {
					rec++
				}
			}
		}
		if in == 1 && rec == 1 && n == 1 && err == 1 && len(findLoops(f).byHeader) == 0 {
			res = append(res, f)
		}
	}
	// not those which pass it on
	is := map[*ssa.Function]bool{}
	for _, f := range res {
		is[f] = true
	}
	all := res
	res = nil
	for _, f := range all {
		if !l.p.reachesFn(f, func(g *ssa.Function) bool { return g != f && is[g] }) {
			res = append(res, f)
		}
	}
	return
}

func checkSplit(r *Report) {
	l := r.xlsLoader()
	if l == nil {
		return
	}
	p := r.P
	rs := l.recordReaders()
	if len(rs) != 1 {
		r.bad("anchor", "record reader", "?", fmt.Sprintf("%d functions read a record of the stream", len(rs)))
		return
	}
	c := &splitter{loader: l, next: rs[0], loops: map[*ssa.BasicBlock]int{}}
	r.recordReader(c)
	// functions which split a stream: those with a loop around the reader
	split := map[*ssa.Function]bool{}
	for _, f := range p.allFuncs() {
		if fnPkg(f) != nil && fnPkg(f).Path() == xlsPath && f.Synthetic == "" && f != c.next {
			for h := range findLoops(f).byHeader {
				if c.tokenLoop(f, h) {
					split[f] = true
				}
			}
		}
	}
	if len(split) == 0 {
		r.bad("anchor", "splitting of the stream", "?", "no loop reads the records of the stream")
		return
	}
	var roots []*ssa.Function
	for _, f := range p.allFuncs() {
		if fnPkg(f) == nil || fnPkg(f).Path() != xlsPath || f.Synthetic != "" || f.Parent() != nil || f == c.next || len(f.Blocks) == 0 {
			continue
		}
		if !split[f] && !p.reachesFn(f, func(g *ssa.Function) bool { return split[g] }) {
			continue
		}
		stream, dec := false, false
		for _, q := range f.Params {
			stream = stream || isByteList(q.Type())
			dec = dec || types.IsInterface(q.Type())
		}
		if (stream && !dec && !p.reachesFn(f, func(g *ssa.Function) bool { return g == f })) || split[f] || f == l.open {
			roots = append(roots, f)
		}
	}
	sort.Slice(roots, func(i, j int) bool { return roots[i].String() < roots[j].String() })
	for _, f := range roots {
		r.splitting(c, f)
	}
	r.expect("a record follows directly behind the one before", 2)
	r.expect("a block starts at every outer begin record", 1)
	r.expect("every record is kept in the last block", 3)
}

// recordReader: a record has the type and the data its header announces.
func (r *Report) recordReader(c *splitter) {
	const rule = "a record has the type and data of its header"
	p := r.P
	name := shortName(c.next)
	r.analyse(name, c.next, func(x *Exec, t *Report) *State {
		s0 := x.Start(c.next)
		var raw *Term
		for i, q := range c.next.Params {
			if isByteList(q.Type()) {
				raw = s0.param(i)
			}
		}
		eof := mk(Term{Op: OCall, S: "error:io.EOF", T: tErrType})
		x.H.Global = func(x *Exec, s *State, g *ssa.Global) *Term {
			if g.String() == "io.EOF" {
				return eof
			}
			if g.Pkg != nil && g.Pkg.Pkg.Path() == "io" && types.Identical(g.Type().(*types.Pointer).Elem(), tErrType) {
				return mk(Term{Op: OCall, S: "error:" + g.String(), T: tErrType})
			}
			return nil
		}
		good := 0
		x.H.Return = func(x *Exec, s *State, res []*Term, at ssa.Instruction) {
			pos := p.InstrPos(at)
			var rec, n, err *Term
			for i, v := range res {
				ty := c.next.Signature.Results().At(i).Type()
				switch {
				case types.Identical(ty, tErrType):
					err = v
				case isInt(ty):
					n = v
				default:
					rec = v
				}
			}
			size := byteBits(raw, tInt(2), 2)
			switch s.nilnessErr(err) {
			case Unknown:
				t.bad("undecided", name, pos, "it is not known whether reading the record failed", s.trail.lines(12)...)
			case False:
				q := s.bitFacts()
				switch {
				case err == eof && !s.is(tLt(tLen(raw), tInt(4))):
					t.bad(rule, "end of the stream", pos, "the stream is taken to end although there is another header", s.trail.lines(12)...)
				case err == eof:
					t.ok(rule, "end of the stream", pos)
				case s.is(tLt(tLen(raw), tInt(4))) && s.is(tLe(tInt(1), tLen(raw))):
				default:
					// less data than the header says
					if !c.tooShort(s, raw, size) {
						t.bad(rule, "cut off record", pos, "a record which is complete is rejected", s.trail.lines(12)...)
					} else {
						t.ok(rule, "cut off record", pos)
					}
				}
				_ = q
			case True:
				good++
				q := s.bitFacts()
				if s.nilness(rec) == True {
					t.bad(rule, "record", pos, "no record is returned", s.trail.lines(12)...)
					return
				}
				ty := c.recType(s, rec)
				if !q.same(bitsOf(ty), byteBits(raw, tInt(0), 2)) {
					t.bad(rule, "type", pos, fmt.Sprintf("the type is %v", ty), s.trail.lines(12)...)
				} else {
					t.ok(rule, "type", pos)
				}
				data := c.recData(s, rec)
				b, o := sliceParts(data)
				if b != raw || o != tInt(4) || !q.same(bitsOf(tLen(data)), size) {
					t.bad(rule, "data", pos, fmt.Sprintf("the data is %v", data), s.trail.lines(12)...)
				} else {
					t.ok(rule, "data", pos)
				}
				if !s.is(tEqInt(tSub(n, tAdd(tInt(4), tLen(data))), tInt(0))) {
					t.bad(rule, "length", pos, fmt.Sprintf("the record is said to take %v bytes", n), s.trail.lines(12)...)
				} else {
					t.ok(rule, "length", pos)
				}
			}
		}
		t.after = append(t.after, func() {
			if good == 0 {
				t.bad(rule, "record", p.Pos(c.next.Pos()), "no record is ever returned")
			}
		})
		return s0
	})
	r.expect(rule, 5)
}

// tooShort: there are fewer bytes behind the header than it says.
func (c *splitter) tooShort(s *State, raw *Term, size bitv) bool {
	q := s.bitFacts()
	for f := range s.facts.m {
		if f.Op != OLe {
			continue
		}
		// len - X - k <= 0 with k < 4
		l := toLin(f.Args[0])
		if l.m[tLen(raw)] != 1 || l.k < -3 {
			continue
		}
		rest := tSub(tAdd(tLen(raw), tInt(l.k)), f.Args[0])
		if q.same(bitsOf(rest), size) {
			return true
		}
	}
	return false
}

// tokenLoop: the innermost loop which reads records.
func (c *splitter) tokenLoop(fn *ssa.Function, h *ssa.BasicBlock) bool {
	if v, ok := c.loops[h]; ok {
		return v == 1
	}
	lf := findLoops(fn)
	reads := func(l *loop) bool {
		for b := range l.body {
			for _, in := range b.Instrs {
				if k, ok := in.(ssa.CallInstruction); ok {
					f := k.Common().StaticCallee()
					if f != nil && (f == c.next || f != fn && c.p.InModule(f) && !c.p.reachesFn(f, func(g *ssa.Function) bool { return g == fn }) && c.p.reachesFn(f, func(g *ssa.Function) bool { return g == c.next })) {
						return true
					}
				}
			}
		}
		return false
	}
	for hh, l := range lf.byHeader {
		ok := reads(l)
		for h2, l2 := range lf.byHeader {
			if ok && h2 != hh && l.body[h2] && reads(l2) {
				ok = false
			}
		}
		c.loops[hh] = 2
		if ok {
			c.loops[hh] = 1
		}
	}
	return c.loops[h] == 1
}

// splitWalk follows the splitting of a stream.
type splitWalk struct {
	c       *splitter
	x       *Exec
	t       *Report
	root    *ssa.Function
	locs    map[string]map[int]int64 // loop variables: their distance to the quantities they follow
	again   bool
	keep    bool
	book    types.Type
	eof     *Term
	bad     *Term
	old, nw splitSyms
}

type splitSyms struct{ cur, rec, typ, data *Term }

func (w *splitWalk) rigid(name string, ty types.Type) *Term {
	t := mk(Term{Op: OSym, S: "split." + w.root.String() + "." + name, T: ty})
	if t.Site == nil {
		t.Site = &Site{What: name}
	}
	return t
}

// D and P: depth and position in front of the last record read, B: the blocks.
func (w *splitWalk) depth() *Term { return w.rigid("depth", types.Typ[types.Int]) }
func (w *splitWalk) pos() *Term   { return w.rigid("position", types.Typ[types.Int64]) }
func (w *splitWalk) blocks() *Term {
	return w.rigid("blocks", under(w.book).(*types.Struct).Field(w.c.fSubs).Type())
}

func (w *splitWalk) mine(t *Term) bool {
	for _, y := range t.symbols() {
		if strings.HasPrefix(y.S, "split."+w.root.String()+".") {
			return true
		}
	}
	return false
}

func (w *splitWalk) isOld(t *Term) bool {
	for _, y := range t.symbols() {
		if y == w.old.cur || y == w.old.rec || y == w.old.typ || y == w.old.data || y == w.depth() || y == w.pos() || y == w.blocks() {
			return true
		}
	}
	return false
}

func (w *splitWalk) bookOf(s *State) *Term {
	var res *Term
	for f := s.fr; f != nil; f = f.parent {
		for v, t := range f.regs {
			if pt, ok := under(v.Type()).(*types.Pointer); ok && types.Identical(pt.Elem(), w.book) {
				res = t
			}
		}
	}
	return res
}

// begin prepares the quantities before the first record.
func (w *splitWalk) begin(s *State) bool {
	if s.ghost["!lb"] != nil {
		return true
	}
	b := w.bookOf(s)
	if b == nil {
		return false
	}
	s.ghost["!book"] = b
	s.ghost["!D"], s.ghost["!P"] = tInt(0), tInt(0)
	s.ghost["!lb"] = s.load(fieldAddrOf(b, w.c.fSubs))
	s.ghost["!kind"] = tStr("none")
	return true
}

func (w *splitWalk) delta(s *State) int64 {
	switch ghostStr(s, "!kind") {
	case "B":
		return 1
	case "E":
		return -1
	}
	return 0
}

// after: depth and position behind the last record read.
func (w *splitWalk) depthAfter(s *State) *Term { return tAdd(s.ghost["!D"], tInt(w.delta(s))) }
func (w *splitWalk) posAfter(s *State) *Term {
	if d := s.ghost["!data"]; d != nil {
		return tAdd(s.ghost["!P"], tAdd(tInt(4), tLen(d)))
	}
	return s.ghost["!P"]
}

const (
	splitNext  = "a record follows directly behind the one before"
	splitBlock = "a block starts at every outer begin record"
	splitPos   = "the position of a block leads to it"
	splitKeep  = "every record is kept in the last block"
	splitEnd   = "the stream is read to its end"
)

func (w *splitWalk) kindName(s *State) string {
	switch ghostStr(s, "!kind") {
	case "B":
		return "begin record"
	case "E":
		return "end record"
	case "O":
		return "other record"
	case "f":
		return "end of the stream"
	case "r":
		return "cut off record"
	}
	return "no record"
}

func (w *splitWalk) did(s *State, op string) bool { return strings.Contains(ghostStr(s, "!ops"), op) }

// outer tells whether the last record starts a block.
func (w *splitWalk) outer(s *State) Tri {
	if ghostStr(s, "!kind") != "B" {
		return False
	}
	return s.facts.eval(tEqInt(s.ghost["!D"], tInt(0)))
}

// completed checks what was done for the last record.
func (w *splitWalk) completed(s *State, pos string) {
	k := ghostStr(s, "!kind")
	if k != "B" && k != "E" && k != "O" {
		return
	}
	if s.load(fieldAddrOf(s.ghost["!book"], w.c.fSubs)) != s.ghost["!lb"] {
		w.t.bad(splitKeep, w.kindName(s), pos, "the list of blocks is replaced", s.trail.lines(14)...)
	}
	if !w.did(s, "R") {
		w.t.bad(splitKeep, w.kindName(s), pos, "the record is not kept before the next one is read", s.trail.lines(14)...)
	} else {
		w.t.ok(splitKeep, w.kindName(s), pos)
	}
	switch w.outer(s) {
	case Unknown:
		w.t.bad(splitBlock, w.kindName(s), pos, "no block is started although the record need not be nested", s.trail.lines(14)...)
	case True:
		if !w.did(s, "B") {
			w.t.bad(splitBlock, w.kindName(s), pos, "no block is started", s.trail.lines(14)...)
		} else {
			w.t.ok(splitBlock, w.kindName(s), pos)
		}
		if !w.did(s, "M") {
			w.t.bad(splitPos, w.kindName(s), pos, "the position of the block is not noted", s.trail.lines(14)...)
		} else {
			w.t.ok(splitPos, w.kindName(s), pos)
		}
	}
}

// call is the model of the record reader.
func (w *splitWalk) call(x *Exec, s *State, ev *CallEvent) ([]Outcome, bool) {
	if ev.Fn != w.c.next {
		return nil, false
	}
	pos := x.P.InstrPos(ev.Instr)
	if !w.begin(s) {
		w.t.bad("undecided", w.root.Name(), pos, "records are read while no workbook is in sight")
		return []Outcome{{Stop: true}}, true
	}
	first := ghostStr(s, "!kind") == "none"
	if k := ghostStr(s, "!kind"); k == "f" || k == "r" {
		w.t.bad(splitEnd, w.kindName(s), pos, "records are read behind the end", s.trail.lines(14)...)
		return []Outcome{{Stop: true}}, true
	}
	var arg *Term
	for i, q := range w.c.next.Params {
		if isByteList(q.Type()) {
			arg = ev.Args[i]
		}
	}
	if first {
		if arg.Op == OSlice {
			w.t.bad(splitNext, "first record", pos, fmt.Sprintf("the first record is read from %v", arg), s.trail.lines(14)...)
		} else {
			w.t.ok(splitNext, "first record", pos)
		}
		if !s.is(tEqInt(tLen(s.ghost["!lb"]), tInt(0))) {
			w.t.bad(splitBlock, "start", pos, "there are blocks already before the first record is read", s.trail.lines(14)...)
		}
	} else {
		w.completed(s, pos)
		if s.ghost["!fresh"] != nil {
			w.t.bad("undecided", w.root.Name(), pos, "several records are read at once", s.trail.lines(14)...)
			return []Outcome{{Stop: true}}, true
		}
		want := tSlice(s.ghost["!arg"], tAdd(tInt(4), tLen(s.ghost["!data"])), nil, arg.T)
		if arg != want {
			w.t.bad(splitNext, w.kindName(s), pos, fmt.Sprintf("the next record is read from %v instead of %v", arg, want), s.trail.lines(14)...)
		} else {
			w.t.ok(splitNext, w.kindName(s), pos)
		}
	}
	da, pa := w.depthAfter(s), w.posAfter(s)
	var outs []Outcome
	sig := w.c.next.Signature
	result := func(rec, n, err *Term) *Term {
		var vs []*Term
		for i := 0; i < sig.Results().Len(); i++ {
			ty := sig.Results().At(i).Type()
			switch {
			case types.Identical(ty, tErrType):
				if err == nil {
					err = tNil(ty)
				}
				vs = append(vs, err)
			case isInt(ty):
				vs = append(vs, n)
			default:
				if rec == nil {
					rec = tNil(ty)
				}
				vs = append(vs, rec)
			}
		}
		return tTuple(vs...)
	}
	deliver := func(kind string) {
		o := Outcome{}
		var typ *Term
		switch kind {
		case "B":
			typ = tInt(bBOF)
		case "E":
			typ = tInt(bEOF)
			o.Assume = append(o.Assume, tLe(tInt(1), da))
		case "O":
			typ = w.nw.typ
		}
		n := tAdd(tInt(4), tLen(w.nw.data))
		switch kind {
		case "f":
			o.Res = result(nil, tInt(0), w.eof)
		case "r":
			o.Res = result(nil, w.x.sym(s, ev.Instr, "size", types.Typ[types.Int]), w.bad)
		default:
			o.Res = result(w.nw.rec, n, nil)
		}
		o.Do = func(s *State) {
			s.ghost["!D"], s.ghost["!P"], s.ghost["!kind"] = da, pa, tStr(kind)
			s.ghost["!fresh"] = tInt(1)
			delete(s.ghost, "!ops")
			delete(s.ghost, "!data")
			delete(s.ghost, "!rec")
			s.ghost["!arg"] = arg
			s.assumeQuiet(tLe(tInt(0), da))
			if typ != nil {
				s.ghost["!data"], s.ghost["!rec"] = w.nw.data, w.nw.rec
				s.assumeQuiet(tNot(tEq(w.nw.rec, tNil(w.nw.rec.T), nil)))
				s.mem[fieldAddrOf(w.nw.rec, w.c.fType)] = typ
				s.mem[fieldAddrOf(w.nw.rec, w.c.fData)] = w.nw.data
				if kind == "O" {
					for _, k := range []int64{bBOF, bEOF, bFilePass} {
						s.assumeQuiet(tNot(tEqInt(typ, tInt(k))))
					}
				}
			}
		}
		outs = append(outs, o)
	}
	deliver("B")
	if !first {
		deliver("E")
		deliver("O")
	}
	deliver("f")
	deliver("r")
	return outs, true
}

// head gives the quantities their names again at the beginning of an iteration.
func (w *splitWalk) head(x *Exec, s *State, h *ssa.BasicBlock) {
	if !w.c.tokenLoop(s.fr.ctx.Fn, h) || !w.begin(s) {
		return
	}
	if s.ghost["!named"] != nil && s.ghost["!fresh"] == nil {
		return
	}
	firstTime := s.ghost["!named"] == nil
	ob, od, op, oda, opa := s.ghost["!lb"], s.ghost["!D"], s.ghost["!P"], w.depthAfter(s), w.posAfter(s)
	arg := s.ghost["!arg"]
	ren := map[*Term]*Term{w.nw.cur: w.old.cur, w.nw.rec: w.old.rec, w.nw.typ: w.old.typ, w.nw.data: w.old.data}
	if arg != nil {
		ren[arg] = w.old.cur
	}
	memo := map[*Term]*Term{}
	size := tAdd(tInt(4), tLen(w.old.data))
	data := s.ghost["!data"]
	D, P, B := w.depth(), w.pos(), w.blocks()
	K := tLen(B)
	da := tAdd(D, tInt(w.delta(s)))
	pa := P
	if data != nil {
		pa = tAdd(P, size)
	}
	type quantity struct{ was, is *Term }
	qs := []quantity{{tLen(ob), K}, {od, D}, {oda, da}, {op, P}, {opa, pa}}
	cell := fieldAddrOf(s.ghost["!book"], w.c.fSubs)
	facts := []*Term{tLe(tInt(0), D), tLe(tInt(0), P)}
	for _, e := range [][2]*Term{{od, D}, {op, P}, {tLen(ob), K}} {
		if _, ok := e[0].intConst(); ok && firstTime {
			facts = append(facts, tEqInt(tSub(e[1], e[0]), tInt(0)))
		}
	}
	if !firstTime {
		facts = append(facts, tLe(tInt(1), K))
	}
	ended := ghostStr(s, "!kind") == "f" || ghostStr(s, "!kind") == "r"
	conv := func(loc string, v *Term, ty types.Type, hdr bool) *Term {
		if v == ob && !ob.isConst() && (!ob.isNil()) {
			return B
		}
		if v == arg && arg != nil {
			return w.old.cur
		}
		if arg != nil && data != nil && v == tSlice(arg, tAdd(tInt(4), tLen(data)), nil, v.T) {
			return tSlice(w.old.cur, size, nil, v.T)
		}
		named := w.mine(v)
		if named && !w.isOld(v) && (ended || w.locs[loc] == nil) {
			return substAll(v, ren, memo)
		}
		if !ended && (named || hdr && v.isConst() || w.locs[loc] != nil) && ty != nil && isInt(ty) {
			k := w.locs[loc]
			if k == nil {
				// whatever holds at first may be an invariant
				k = map[int]int64{}
				for i, q := range qs {
					if d, ok := tSub(v, q.was).intConst(); ok && d > -8 && d < 8 {
						k[i] = d
					}
				}
				if d, ok := v.intConst(); ok {
					k[len(qs)] = d
				}
				w.locs[loc] = k
				w.again = true
			}
			for i, d := range k {
				was := tInt(0)
				if i < len(qs) {
					was = qs[i].was
				}
				if !s.is(tEqInt(tSub(v, tAdd(was, tInt(d))), tInt(0))) {
					if os.Getenv("CK_INV") != "" {
						fmt.Println("not invariant:", loc, i, d, "value", v, "was", was, ghostStr(s, "!kind"), firstTime)
					}
					delete(k, i)
					w.again = true
				}
			}
			var res *Term
			for i := len(qs); i >= 0; i-- {
				d, ok := k[i]
				if !ok {
					continue
				}
				is := tInt(d)
				if i < len(qs) {
					is = tAdd(qs[i].is, tInt(d))
				}
				if res == nil {
					res = is
				} else {
					facts = append(facts, tEqInt(tSub(res, is), tInt(0)))
				}
			}
			if res != nil {
				return res
			}
			named = true
		}
		if !named {
			return v
		}
		y := w.rigid("stale "+loc, ty)
		y.Site.What = "stale"
		return y
	}
	for f := s.fr; f != nil; f = f.parent {
		for v, t := range f.regs {
			ph, ok := v.(*ssa.Phi)
			f.regs[v] = conv(phiLoc(v), t, v.Type(), ok && f == s.fr && ph.Block() == h)
		}
	}
	mem := map[*Term]*Term{}
	var keys []*Term
	for a := range s.mem {
		keys = append(keys, a)
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i].id < keys[j].id })
	for _, a := range keys {
		v := s.mem[a]
		na := a
		if w.mine(a) {
			if w.isOld(a) {
				continue
			}
			na = substAll(a, ren, memo)
		}
		ty := pointee(a)
		mem[na] = conv(memLoc(na), v, ty, !w.mine(na))
	}
	if v := mem[cell]; v == nil || v == ob {
		mem[cell] = B
	}
	s.mem = mem
	for k, v := range s.unk {
		if w.mine(k) {
			delete(s.unk, k)
			_ = v
		}
	}
	s.facts = s.facts.filter(func(f *Term) bool { return !w.mine(f) })
	for _, f := range facts {
		s.assumeQuiet(f)
	}
	switch o := s.ghost["!outer"]; {
	case o == tInt(int64(True)):
		s.assumeQuiet(tEqInt(D, tInt(0)))
	case o == tInt(int64(False)):
		s.assumeQuiet(tLe(tInt(1), D))
	}
	delete(s.ghost, "!outer")
	switch ghostStr(s, "!kind") {
	case "E":
		s.assumeQuiet(tLe(tInt(1), D))
	case "O":
		for _, k := range []int64{bBOF, bEOF, bFilePass} {
			s.assumeQuiet(tNot(tEqInt(w.old.typ, tInt(k))))
		}
	}
	s.assumeQuiet(tNot(tEq(w.old.rec, tNil(w.old.rec.T), nil)))
	s.ghost["!D"], s.ghost["!P"], s.ghost["!lb"], s.ghost["!named"] = D, P, B, tInt(1)
	if arg != nil {
		s.ghost["!arg"] = w.old.cur
	}
	if data != nil {
		s.ghost["!data"], s.ghost["!rec"] = w.old.data, w.old.rec
	}
	delete(s.ghost, "!fresh")
}

func (r *Report) splitting(c *splitter, root *ssa.Function) {
	p := r.P
	name := shortName(root)
	locs := map[string]map[int]int64{}
	for try := 0; ; try++ {
		w := &splitWalk{c: c, root: root, locs: locs, book: p.Type(xlsPath, "WorkBook")}
		tmp := newReport(r.ID, p)
		tmp.Thorough = r.Thorough
		tmp.analyse(name, root, func(x *Exec, t *Report) *State { return w.setup(x, t, name) })
		if w.again && try < 40 {
			continue
		}
		r.merge(tmp)
		for b := range tmp.blocks {
			r.blocks[b] = true
		}
		r.runs = append(r.runs, tmp.runs...)
		r.steps += tmp.steps
		r.paths += tmp.paths
		r.joined += tmp.joined
		if w.again {
			r.bad("undecided", name, p.Pos(root.Pos()), "no invariant of the loop was found")
		}
		return
	}
}

func (w *splitWalk) setup(x *Exec, t *Report, name string) *State {
	c, p := w.c, x.P
	w.x, w.t = x, t
	w.again = false
	w.eof = mk(Term{Op: OCall, S: "error:io.EOF", T: tErrType})
	w.bad = mk(Term{Op: OCall, S: "error:record cut off", T: tErrType})
	pr := types.NewPointer(c.rec)
	bytes := types.NewSlice(types.Typ[types.Byte])
	typ := under(c.rec).(*types.Struct).Field(c.fType).Type()
	w.old = splitSyms{w.rigid("rest", bytes), w.rigid("record", pr), w.rigid("type", typ), w.rigid("data", bytes)}
	w.nw = splitSyms{w.rigid("rest'", bytes), w.rigid("record'", pr), w.rigid("type'", typ), w.rigid("data'", bytes)}
	x.JoinHeads = true
	x.KeepLists = true
	x.JoinAt = min(x.JoinAt, 8)
	x.H.Global = func(x *Exec, s *State, g *ssa.Global) *Term {
		if g.String() == "io.EOF" {
			return w.eof
		}
		return nil
	}
	x.H.BackEdge = func(x *Exec, s *State, h *ssa.BasicBlock, in func(*Term) bool, old, nw map[*ssa.Phi]*Term) {
		w.keep = c.tokenLoop(s.fr.ctx.Fn, h) && s.ghost["!lb"] != nil
		if !w.keep || s.ghost["!fresh"] == nil {
			return
		}
		if ghostStr(s, "!kind") == "B" {
			s.ghost["!outer"] = tInt(int64(w.outer(s)))
		}
		// one way to write a value
		D, P := s.ghost["!D"], s.ghost["!P"]
		qs := []*Term{tLen(s.ghost["!lb"]), D, w.depthAfter(s), P, w.posAfter(s)}
		same := func(loc string, v *Term) *Term {
			k := w.locs[loc]
			for i := len(qs); i >= 0; i-- {
				d, ok := k[i]
				if !ok {
					continue
				}
				q := tInt(d)
				if i < len(qs) {
					q = tAdd(qs[i], q)
				}
				if s.is(tEqInt(tSub(v, q), tInt(0))) {
					return q
				}
			}
			return v
		}
		for ph, v := range nw {
			nw[ph] = same(phiLoc(ph), v)
		}
		for a, v := range s.mem {
			if l := memLoc(a); w.locs[l] != nil {
				s.mem[a] = same(l, v)
			}
		}
	}
	x.H.KeepVal = func(addr, v *Term) bool {
		return w.keep || w.mine(v) || addr != nil && w.mine(addr) || v == w.eof || v == w.bad
	}
	x.H.Head = w.head
	inl := map[*ssa.Function]bool{}
	x.H.Inline = func(x *Exec, s *State, fn *ssa.Function) bool {
		v, ok := inl[fn]
		if !ok {
			reach := p.reachesFn(fn, func(g *ssa.Function) bool { return g == c.next })
			v = reach || !p.loopy(fn)
			inl[fn] = v
		}
		if !v && ghostStr(s, "!kind") != "f" && ghostStr(s, "!kind") != "r" && fnPkg(fn) != nil && fnPkg(fn).Path() == xlsPath {
			v = true
		}
		return v && !onStack(s, fn)
	}
	x.H.Call = func(x *Exec, s *State, ev *CallEvent) ([]Outcome, bool) {
		if o, ok := w.call(x, s, ev); ok {
			return o, ok
		}
		return nil, false
	}
	during := func(s *State) bool {
		k := ghostStr(s, "!kind")
		return k == "B" || k == "E" || k == "O"
	}
	x.H.Append = func(x *Exec, s *State, base *Term, elems []*Term, at ssa.Instruction) {
		if s.ghost["!lb"] == nil || base != s.ghost["!lb"] || base.T == nil && !base.isNil() {
			return
		}
		call, ok := at.(*ssa.Call)
		if !ok || !types.Identical(call.Type(), w.blocks().T) {
			return
		}
		pos := p.InstrPos(at)
		if !during(s) || w.outer(s) != True || w.did(s, "B") {
			t.bad(splitBlock, w.kindName(s), pos, "a block is started at a record which need not be an outer begin record", s.trail.lines(14)...)
			return
		}
		if len(elems) != 1 || !s.is(tEqInt(tLen(elems[0]), tInt(0))) {
			t.bad(splitBlock, w.kindName(s), pos, "a block which is started is not empty", s.trail.lines(14)...)
			return
		}
		if w.did(s, "R") {
			t.bad(splitKeep, w.kindName(s), pos, "the first record of a block was kept in the block before", s.trail.lines(14)...)
		}
		args := append([]*Term{base}, elems...)
		s.ghost["!lb"] = mk(Term{Op: OAppend, Args: args, T: w.blocks().T})
		s.ghost["!ops"] = tStr(ghostStr(s, "!ops") + "B")
	}
	x.H.MapSet = func(x *Exec, s *State, m, k, v *Term, at ssa.Instruction) {
		b := s.ghost["!book"]
		if b == nil || m != s.load(fieldAddrOf(b, c.fPos)) {
			return
		}
		pos := p.InstrPos(at)
		if !during(s) || w.outer(s) != True {
			if during(s) || ghostStr(s, "!kind") != "none" {
				t.bad(splitPos, w.kindName(s), pos, "a position is noted for a record which need not be an outer begin record", s.trail.lines(14)...)
			}
			return
		}
		wide := func(t *Term) *Term {
			for t.Op == OConv && t.T != nil && isInt(t.T) {
				if n, _ := intBits(t.T); n < 64 {
					break
				}
				t = t.Args[0]
			}
			return t
		}
		k, v = wide(k), wide(v)
		idx := tLen(s.ghost["!lb"])
		if w.did(s, "B") {
			idx = tSub(idx, tInt(1))
		}
		if !s.is(tEqInt(tSub(k, s.ghost["!P"]), tInt(0))) {
			t.bad(splitPos, w.kindName(s), pos, fmt.Sprintf("the position noted is %v instead of that of the record", k), s.trail.lines(14)...)
		} else if !s.is(tEqInt(tSub(v, idx), tInt(0))) {
			t.bad(splitPos, w.kindName(s), pos, fmt.Sprintf("the position leads to block %v instead of the one started", v), s.trail.lines(14)...)
		}
		s.ghost["!ops"] = tStr(ghostStr(s, "!ops") + "M")
	}
	x.H.Store = func(x *Exec, s *State, addr, val *Term, at ssa.Instruction) {
		if s.ghost["!lb"] == nil || ghostStr(s, "!kind") == "none" {
			return
		}
		pos := p.InstrPos(at)
		el := pointee(addr)
		if el == nil {
			return
		}
		if addr.Op == OFieldAddr && addr.Args[0].T != nil {
			if pt, ok := under(addr.Args[0].T).(*types.Pointer); ok && types.Identical(pt.Elem(), c.rec) {
				t.bad(splitKeep, "records", pos, "a record is changed", s.trail.lines(14)...)
			}
			return
		}
		if addr.Op != OIndexAddr {
			return
		}
		root := rootOf(addr)
		if pt, ok := under(el).(*types.Pointer); ok && types.Identical(pt.Elem(), c.rec) && !isVarargs(root) && root.Op != OObj {
			t.bad(splitKeep, "records", pos, "a record of a block is replaced", s.trail.lines(14)...)
			return
		}
		if !c.isRecs(el) || isVarargs(root) || root.Op == OObj {
			return
		}
		if !during(s) {
			t.bad(splitKeep, "blocks", pos, "a block is changed after the stream was read", s.trail.lines(14)...)
			return
		}
		lb := s.ghost["!lb"]
		want := elemAddr(s, lb, tSub(tLen(lb), tInt(1)))
		switch {
		case addr.Args[0] != want.Args[0] || !s.is(tEqInt(tSub(addr.Args[1], want.Args[1]), tInt(0))):
			t.bad(splitKeep, w.kindName(s), pos, fmt.Sprintf("the record is kept in %v, not in the last block", addr), s.trail.lines(14)...)
		case val.Op != OAppend || len(val.Args) != 2 || val.Args[0] != s.load(addr) || val.Args[1] != s.ghost["!rec"]:
			t.bad(splitKeep, w.kindName(s), pos, fmt.Sprintf("the block becomes %v", val), s.trail.lines(14)...)
		case w.did(s, "R"):
			t.bad(splitKeep, w.kindName(s), pos, "the record is kept twice", s.trail.lines(14)...)
		case c.recType(s, s.ghost["!rec"]) != w.typeOf(s) || c.recData(s, s.ghost["!rec"]) != s.ghost["!data"]:
			t.bad(splitKeep, w.kindName(s), pos, "the record is changed before it is kept", s.trail.lines(14)...)
		case w.outer(s) == True && !w.did(s, "B"):
			t.bad(splitKeep, w.kindName(s), pos, "the first record of a block is kept in the block before", s.trail.lines(14)...)
		}
		s.ghost["!ops"] = tStr(ghostStr(s, "!ops") + "R")
	}
	ends := 0
	x.H.Return = func(x *Exec, s *State, res []*Term, at ssa.Instruction) {
		pos := p.InstrPos(at)
		var err *Term
		for _, v := range res {
			if v.T != nil && types.Identical(v.T, tErrType) {
				err = v
			}
		}
		if err == nil && len(res) > 0 {
			err = res[len(res)-1]
		}
		switch ghostStr(s, "!kind") {
		case "B", "E", "O":
			t.bad(splitEnd, w.kindName(s), pos, "the rest of the stream is not read", s.trail.lines(14)...)
		case "f":
			ends++
			if err == w.eof {
				t.bad(splitEnd, "end of the stream", pos, "the end of the stream is reported as an error", s.trail.lines(14)...)
			} else {
				t.ok(splitEnd, "end of the stream", pos)
			}
		case "r":
			if s.nilnessErr(err) != False {
				t.bad(splitEnd, "cut off record", pos, "a record which is cut off need not be an error", s.trail.lines(14)...)
			} else {
				t.ok(splitEnd, "cut off record", pos)
			}
		}
	}
	t.after = append(t.after, func() {
		if ends == 0 {
			t.bad(splitEnd, name, p.Pos(w.root.Pos()), "the end of the stream is never reached")
		}
	})
	return x.Start(w.root)
}

func (w *splitWalk) typeOf(s *State) *Term {
	switch ghostStr(s, "!kind") {
	case "B":
		return tInt(bBOF)
	case "E":
		return tInt(bEOF)
	}
	if s.ghost["!rec"] == w.nw.rec {
		return w.nw.typ
	}
	return w.old.typ
}
