package main

import (
	"go/constant"
	"go/types"
	"regexp/syntax"
	"slices"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const catPath = modPath + "/cmd/grater"

func init() {
	register("P40", "tools: path-sensitive typestate of the line written for each row, as an automaton over cells, tabs and newlines",
		"Each argument is opened and each sheet of its list is read until Next tells its end or IsEmpty tells that there is nothing; failures are reported and do not keep the rest from being handled. The row of each Next gives one line: the text of its cells in order, normalised as the options say, with a tab between them and a newline behind; it is left out only if asked and only after each of its cells was found empty. Each listed sheet gives one result which tells its name and error.", checkLines)
}

const (
	linFile  = "every file is opened, failures are reported"
	linSheet = "every listed sheet is read to its end"
	linRow   = "every row is written once, or blank and not wanted"
	linText  = "a line is the cells of the row in order, tabs between them"
	linNorm  = "cells change as the options say"
	linDst   = "a line goes to the output of its sheet"
	linRes   = "every listed sheet has one result"
)

// vote is a flag which is set when a cell is not empty (set Unknown: a number
// which is not 0).
type vote struct {
	ph  *ssa.Phi
	set Tri
}

func opposite(t Tri) Tri {
	switch t {
	case True:
		return False
	case False:
		return True
	}
	return Unknown
}

// lines is the analysis of one of the tools.
type lines struct {
	p     *Prog
	r     *Report
	t     *Report
	x     *Exec
	pkg   string
	name  string
	tsv   bool
	flags map[*ssa.Global]string // globals which hold an option
	re    map[*ssa.Global]bool   // globals which hold the pattern for white space

	files, sheets, cells *scan
	emits                map[scanLoop]int                // bit 1: emits a cell, bit 2: does not
	norms                map[scanLoop]int                // bit 1: normalises the cell, bit 2: does not
	normUse              map[*Term]string                // loops which were relied on to normalise a row
	blanks               map[scanLoop]int                // bit 1: goes on after an empty cell, bit 2: after another
	votes                map[scanLoop]map[vote]bool      // false: the flag may be clear after a cell which is not empty
	need                 map[scanLoop]map[vote][2]string // flags which were relied on (none: zero)
	style                int
	written              int
	uneven               map[string][2]string // numbers which do not count the rows
	counts               map[string]string    // numbers (one of them) which are told as the number of rows
	nextAt               ssa.Instruction
	nextPath             [][]ssa.Instruction
	sepUse, accUse       map[*ssa.Phi]string           // texts which were relied on
	sepBad, textBad      map[*ssa.Phi]bool             // not a tab after each cell; not empty at the start
	accs                 map[*ssa.Phi]int              // texts which may grow with the cells: how they put tabs
	paths                map[*scan][][]ssa.Instruction // where elements are visited
}

func checkLines(r *Report) {
	for _, path := range []string{catPath, tsvPath} {
		l := &lines{p: r.P, r: r, pkg: path, tsv: path == tsvPath, flags: map[*ssa.Global]string{}, re: map[*ssa.Global]bool{},
			emits: map[scanLoop]int{}, norms: map[scanLoop]int{}, normUse: map[*Term]string{}, blanks: map[scanLoop]int{},
			votes: map[scanLoop]map[vote]bool{}, need: map[scanLoop]map[vote][2]string{}, style: 3, uneven: map[string][2]string{}, counts: map[string]string{}, paths: map[*scan][][]ssa.Instruction{},
			sepUse: map[*ssa.Phi]string{}, accUse: map[*ssa.Phi]string{}, sepBad: map[*ssa.Phi]bool{}, textBad: map[*ssa.Phi]bool{}, accs: map[*ssa.Phi]int{}}
		l.options()
		f := r.P.Func(path, "main")
		if !r.need("main of "+path, f) {
			continue
		}
		if l.tsv {
			c := r.tools()
			if c == nil || c.proc == nil {
				r.bad("anchor", "function which handles a file", r.P.Pos(f.Pos()), "not found")
				continue
			}
			f = c.proc
		}
		l.name = path[strings.LastIndexByte(path, '/')+1:]
		l.run(f)
	}
}

// options finds the globals which hold options and patterns.
func (l *lines) options() {
	init := l.p.Func(l.pkg, "init")
	if init == nil {
		return
	}
	for _, b := range init.Blocks {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			g, ok1 := st.Addr.(*ssa.Global)
			c, ok2 := st.Val.(*ssa.Call)
			if !ok1 || !ok2 || c.Call.StaticCallee() == nil || len(c.Call.Args) == 0 {
				continue
			}
			k, ok := c.Call.Args[0].(*ssa.Const)
			if !ok || k.Value == nil || k.Value.Kind() != constant.String {
				continue
			}
			switch c.Call.StaticCallee().String() {
			case "flag.Bool":
				l.flags[g] = constant.StringVal(k.Value)
			case "regexp.MustCompile":
				l.re[g] = samePattern(constant.StringVal(k.Value), "[ \n\r\t]+")
			}
		}
	}
}

func samePattern(a, b string) bool {
	x, err := syntax.Parse(a, syntax.Perl)
	if err != nil {
		return false
	}
	y, err := syntax.Parse(b, syntax.Perl)
	return err == nil && x.Simplify().Equal(y.Simplify())
}

// names of the file and of the sheet of any iteration
var (
	curFile  = tCall("the current file", types.Typ[types.String])
	curSheet = tCall("the current sheet", types.Typ[types.String])
)

// pastName: what was the current one is now another one.
func pastName(s *State, cur *Term, nw map[*ssa.Phi]*Term) {
	old := tCall("not "+cur.S, types.Typ[types.String])
	re := func(t *Term) *Term { return substAll(t, map[*Term]*Term{cur: old}, map[*Term]*Term{}) }
	for ph, v := range nw {
		if v != nil && v.contains(cur) {
			nw[ph] = re(v)
		}
	}
	for a, v := range s.mem {
		if v != nil && v.contains(cur) {
			s.mem[a] = re(v)
		}
	}
	s.facts = s.facts.filter(func(f *Term) bool { return !f.contains(cur) })
}

// option is the value of an option in this run.
func option(name string) *Term { return tCall("option "+name, types.Typ[types.Bool]) }

func flagOf(s *State, k string) bool { return s.ghost["!"+k] != nil }

func drop(s *State, ks ...string) {
	for _, k := range ks {
		delete(s.ghost, "!"+k)
	}
}

// fails is the result of a function, which may fail.
func fails(x *Exec, s *State, ev *CallEvent, what string, good, bad func(s *State, v *Term, err *Term)) []Outcome {
	var okL, badL []*Term
	var v *Term
	e := mk(Term{Op: OCall, S: "error:" + what, T: tErrType})
	res := ev.Sig.Results()
	for i := 0; i < res.Len(); i++ {
		if types.Identical(res.At(i).Type(), tErrType) {
			okL, badL = append(okL, tNil(tErrType)), append(badL, e)
			continue
		}
		v = x.fresh(s, ev.Instr, what, res.At(i).Type())
		okL, badL = append(okL, v), append(badL, v)
	}
	pack := func(l []*Term) *Term {
		if len(l) == 1 {
			return l[0]
		}
		return tTuple(l...)
	}
	return []Outcome{
		{Res: pack(okL), Do: func(s *State) {
			if v != nil && !isBasic(v.T, types.IsString) {
				if _, ok := under(v.T).(*types.Slice); !ok {
					s.assumeQuiet(tNot(tEq(v, tNil(v.T), nil)))
				}
			}
			if good != nil {
				good(s, v, nil)
			}
		}},
		{Res: pack(badL), Do: func(s *State) {
			if bad != nil {
				bad(s, v, e)
			}
		}},
	}
}

func (l *lines) bad(s *State, rule, pos, msg string) {
	l.t.bad(rule, l.name, pos, msg, s.trail.lines(10)...)
}

// unwrap takes the text out of conversions.
func unwrap(t *Term) *Term {
	for t != nil {
		switch {
		case t.Op == OIface:
			t = t.Args[0]
		case t.Op == OConv && (isBasic(t.T, types.IsString) || isByteSlice(t.T)):
			t = t.Args[0]
		default:
			return t
		}
	}
	return t
}

func isByteSlice(t types.Type) bool {
	if t == nil {
		return false
	}
	sl, ok := under(t).(*types.Slice)
	return ok && isBasic(sl.Elem(), types.IsInteger)
}

func (l *lines) run(f *ssa.Function) {
	l.r.analyse(l.name+" lines", f, func(x *Exec, t *Report) *State {
		l.t, l.x = t, x
		l.files = newScan(t, linFile, l.name+" files")
		l.sheets = newScan(t, linSheet, l.name+" sheets")
		l.cells = newScan(t, linText, l.name+" cells")
		s0 := x.Start(f)
		x.KeepLists, x.KeepPhis, x.KeepFlags = true, true, true
		if l.tsv {
			for _, v := range f.Params {
				if isBasic(v.Type(), types.IsString) {
					s0.ghost["!file"] = tTuple(s0.fr.regs[v])
				}
			}
		}
		args := tCall("flag.Args", types.NewSlice(types.Typ[types.String]))
		x.H.Inline = func(x *Exec, s *State, fn *ssa.Function) bool {
			return fnPkg(fn) != nil && fnPkg(fn).Path() == l.pkg && !onStack(s, fn)
		}
		x.H.JoinAt = func(s *State, blk *ssa.BasicBlock) (string, int, bool) {
			k := ""
			for _, o := range []string{"p", "v"} {
				k += itoa(int(s.facts.eval(option(o))))
			}
			if x.loops(blk.Parent()).byHeader[blk] == nil && l.tsv && flagOf(s, "raw") && flagOf(s, "row") && len(blk.Succs) == 1 && x.loops(blk.Parent()).byHeader[blk.Succs[0]] != nil {
				// what the next cell comes after
				return k + map[bool]string{true: "e"}[l.emptyCell(s)], 2, true
			}
			return k, 0, x.loops(blk.Parent()).byHeader[blk] != nil
		}
		x.H.Global = func(x *Exec, s *State, g *ssa.Global) *Term {
			if n, ok := l.flags[g]; ok {
				return mk(Term{Op: OCall, S: "address of option " + n, T: types.NewPointer(types.Typ[types.Bool])})
			}
			return nil
		}
		x.H.Load = l.load(args)
		x.H.Store = l.store
		x.H.Edge = l.edge
		x.H.BackEdge = l.backEdge
		x.H.Head = l.head
		x.H.Append = l.append
		x.H.Call = l.call(args)
		x.H.Return = l.ret(f, args)
		t.after = append(t.after, func() { l.done(f) })
		return s0
	})
}

func (l *lines) load(args *Term) func(x *Exec, s *State, addr *Term, at ssa.Instruction) {
	return func(x *Exec, s *State, addr *Term, at ssa.Instruction) {
		if addr.Op == OCall && strings.HasPrefix(addr.S, "address of option ") {
			s.mem[addr] = option(strings.TrimPrefix(addr.S, "address of option "))
			return
		}
		if addr.Op != OIndexAddr {
			return
		}
		b, i := addr.Args[0], addr.Args[1]
		switch {
		case (b == args || flagOf(s, "list") && s.ghost["!list"].Args[0] == b) && l.other(s, b, i):
			// another element than that of the iteration
		case b == args:
			l.visit(x, s, l.files, b, i, at)
			s.mem[addr] = curFile
			if !flagOf(s, "file") {
				s.ghost["!file"] = tTuple(s.load(addr))
			}
		case flagOf(s, "list") && s.ghost["!list"].Args[0] == b:
			l.visit(x, s, l.sheets, b, i, at)
			s.mem[addr] = curSheet
		case flagOf(s, "row") && s.ghost["!row"].Args[0] == b:
			k := tStr(l.loopOf(s, at))
			if v := s.ghost["!v"+l.cells.name]; v == nil || v.Args[1] != i && s.ghost["!vloop"].Args[0] != k {
				s.ghost["!vloop"] = tTuple(k)
				l.visit(x, s, l.cells, b, i, at)
				if flagOf(s, "later") {
					// the index only grows, as the scan demands
					if s.facts.eval(tLe(i, tInt(0))) == True || s.facts.eval(tEqInt(i, tInt(0))) == True {
						s.dead = true
						return
					}
					s.assumeQuiet(tLe(tInt(1), i))
				}
				s.ghost["!raw"] = tTuple(s.load(addr))
				drop(s, "now", "tab", "cell", "tab2", "store")
			}
		}
	}
}

// normal: the text is the cell as the options ask for it. Both: the options
// which were applied are the ones which are set.
func (l *lines) normal(s *State, text, raw *Term) bool {
	if !l.tsv {
		return text == raw
	}
	trim, repl := false, false
	for text != raw {
		switch {
		case text.Op == OCall && text.S == "trimmed":
			trim = true
		case text.Op == OCall && text.S == "condensed":
			repl = true
		default:
			return false
		}
		text = text.Args[0]
	}
	want := func(b bool) Tri {
		if b {
			return True
		}
		return False
	}
	return s.facts.eval(option("w")) == want(trim) && s.facts.eval(option("r")) == want(repl)
}

// cell: the text is that of the current cell.
func (l *lines) cell(s *State, text *Term) bool {
	v := s.ghost["!v"+l.cells.name]
	if v == nil || !flagOf(s, "raw") {
		return false
	}
	raw := s.ghost["!raw"].Args[0]
	if l.normal(s, text, raw) {
		return true
	}
	return text == raw && l.normed(s)
}

// normed: the row was normalised before.
func (l *lines) normed(s *State) bool {
	if !l.tsv {
		return true
	}
	row := s.ghost["!row"].Args[0]
	if s.is(tLe(tLen(row), tInt(0))) {
		return true
	}
	g := s.ghost["!normed"]
	if g == nil || g.Args[0] != row {
		return false
	}
	l.normUse[g] = l.x.P.InstrPos(l.x.cur)
	return true
}

func (l *lines) loopTerm(k scanLoop) *Term {
	return tStr(itoa(k.ctx.id) + "." + itoa(k.head.Index))
}

func (l *lines) store(x *Exec, s *State, addr, val *Term, at ssa.Instruction) {
	if !flagOf(s, "row") || addr.Op != OIndexAddr || addr.Args[0] != s.ghost["!row"].Args[0] {
		return
	}
	pos := x.P.InstrPos(at)
	l.t.ok(linNorm, l.name, pos)
	v := s.ghost["!v"+l.cells.name]
	if v == nil || v.Args[1] != addr.Args[1] {
		l.bad(s, linNorm, pos, "a cell is changed which is not the one looked at")
		return
	}
	if !l.normal(s, val, s.ghost["!raw"].Args[0]) {
		l.bad(s, linNorm, pos, "a cell becomes "+val.String()+", which is not what the options ask for")
	}
	s.ghost["!store"] = tTuple(val)
}

// callPath: an instruction and the calls it is reached through.
func callPath(s *State, at ssa.Instruction) []ssa.Instruction {
	res := []ssa.Instruction{at}
	for c := s.fr.ctx; c != nil && c.Call != nil; c = c.Parent {
		res = append(res, c.Call)
	}
	return res
}

// around: the loop is the innermost one around one of the places.
func (l *lines) around(h *ssa.BasicBlock, paths [][]ssa.Instruction) bool {
	lf := l.x.loops(h.Parent())
	lp := lf.byHeader[h]
	if lp == nil {
		return false
	}
next:
	for _, path := range paths {
		for _, in := range path {
			inner := false
			for h2, l2 := range l.x.loops(in.Parent()).byHeader {
				if !l2.body[in.Block()] {
					continue
				}
				if in.Parent() != h.Parent() {
					continue next
				}
				inner = inner || h2 != h && lp.body[h2]
			}
			if in.Parent() == h.Parent() {
				if lp.body[in.Block()] && !inner {
					return true
				}
				continue next
			}
		}
	}
	return false
}

func (l *lines) visit(x *Exec, s *State, sc *scan, b, i *Term, at ssa.Instruction) {
	sc.visit(x, s, b, i, at)
	p := callPath(s, at)
	for _, q := range l.paths[sc] {
		if slices.Equal(p, q) {
			return
		}
	}
	l.paths[sc] = append(l.paths[sc], p)
}

// other: a scan is at another element of the list.
func (l *lines) other(s *State, b, i *Term) bool {
	for _, sc := range []*scan{l.files, l.sheets} {
		if v := s.ghost["!v"+sc.name]; v != nil && v.Args[0] == b {
			return v.Args[1] != i
		}
	}
	return false
}

// loopOf names the innermost loop around an instruction.
func (l *lines) loopOf(s *State, at ssa.Instruction) string {
	path := callPath(s, at)
	for _, in := range path {
		for h := range l.x.loops(in.Parent()).byHeader {
			if l.around(h, [][]ssa.Instruction{{in}}) {
				return in.Parent().String() + itoa(h.Index)
			}
		}
	}
	return ""
}

func (l *lines) rowLoop(h *ssa.BasicBlock) bool { return l.around(h, l.nextPath) }

// finishRow: the row of the last Next is done.
func (l *lines) finishRow(s *State, pos string) {
	nx := s.ghost["!next"]
	if nx == nil || s.facts.eval(nx.Args[0]) == False {
		return
	}
	l.t.ok(linRow, l.name, pos)
	switch {
	case flagOf(s, "via"):
		l.bad(s, linRow, pos, "a line is built and not written")
	case flagOf(s, "written"):
	case flagOf(s, "ln"):
		l.bad(s, linRow, pos, "a line may not be finished")
	case !l.tsv:
		l.bad(s, linRow, pos, "a row may be left out although blank rows are wanted")
	case flagOf(s, "row") && s.is(tLe(tLen(s.ghost["!row"].Args[0]), tInt(0))) && s.facts.eval(option("b")) == True:
	default:
		wanted := s.facts.eval(option("b")) != True
		g := s.ghost["!scan"]
		if g == nil || !flagOf(s, "row") || g.Args[0] != s.ghost["!row"].Args[0] {
			if wanted {
				l.bad(s, linRow, pos, "a row may be left out although blank rows are wanted")
			} else {
				l.bad(s, linRow, pos, "a row may be left out without looking at all of its cells")
			}
			return
		}
		// the loop goes on only after empty cells, or a flag tells so
		found := !wanted
		for k := range l.blanks {
			if l.loopTerm(k) != g.Args[1] {
				continue
			}
			if l.need[k] == nil {
				l.need[k] = map[vote][2]string{}
			}
			var flag vote
			for _, in := range k.head.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				v, v0 := s.ghost["!f"+ph.Name()], s.ghost["!i"+ph.Name()]
				if v == nil {
					continue
				}
				for _, set := range []Tri{True, False, Unknown} {
					if !l.votes[k][vote{ph, set}] {
						continue
					}
					off := false
					if set == Unknown {
						off = isInt(ph.Type()) && (s.is(tEqInt(v.Args[0], tInt(0))) || s.is(tLe(v.Args[0], tInt(0))))
					} else {
						off = isBasic(ph.Type(), types.IsBoolean) && s.facts.eval(v.Args[0]) == opposite(set)
					}
					if !off {
						continue
					}
					if wanted {
						// the flag is set from the start if blank rows are wanted
						if v0 == nil || !(set == True && v0.Args[0] == tNot(option("b")) || set == False && v0.Args[0] == option("b")) {
							continue
						}
						found = true
					}
					flag = vote{ph, set}
				}
			}
			l.need[k][flag] = [2]string{pos, strings.Join(s.trail.lines(10), "\n")}
		}
		if !found {
			l.bad(s, linRow, pos, "a row may be left out although blank rows are wanted")
		}
	}
}

// newRow forgets the last row.
func (l *lines) newRow(s *State) {
	drop(s, "next", "row", "written", "ln", "via", "normed", "scan", "raw", "now", "tab", "cell", "tab2", "store", "types", "reset", "later")
	drop(s, "v"+l.cells.name, "x"+l.cells.name)
	for k := range s.ghost {
		if strings.HasPrefix(k, "!f") && k != "!file" && k != "!failed" || strings.HasPrefix(k, "!i") || strings.HasPrefix(k, "!acc") {
			delete(s.ghost, k)
		}
	}
}

func (l *lines) edge(x *Exec, s *State, from, to *ssa.BasicBlock) {
	if l.around(from, l.paths[l.files]) {
		l.files.edge(x, s, from, to)
	}
	if l.around(from, l.paths[l.sheets]) {
		l.sheets.edge(x, s, from, to)
	}
	drop(s, "x"+l.cells.name)
	l.cells.edge(x, s, from, to)
	if d := s.ghost["!x"+l.cells.name]; d != nil && flagOf(s, "row") && d.Args[0] == s.ghost["!row"].Args[0] {
		k := scanLoop{s.fr.ctx, from}
		drop(s, "later")
		if g := s.ghost["!normed"]; g == nil || g.Args[0] != d.Args[0] {
			s.ghost["!normed"] = tTuple(d.Args[0], l.loopTerm(k))
		} else if !slices.Contains(g.Args, l.loopTerm(k)) {
			s.ghost["!normed"] = tTuple(append(slices.Clone(g.Args), l.loopTerm(k))...)
		}
		s.ghost["!scan"] = tTuple(d.Args[0], l.loopTerm(k))
		for _, in := range from.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			if v := s.fr.regs[ph]; v != nil && textType(ph.Type()) {
				s.ghost["!acc"+ph.Name()+"@"+ph.Parent().String()] = tTuple(unwrap(v))
			}
			if (isBasic(ph.Type(), types.IsBoolean) || isInt(ph.Type())) && s.fr.regs[ph] != nil {
				s.ghost["!f"+ph.Name()] = tTuple(s.fr.regs[ph])
			}
		}
		if l.emits[k]&1 != 0 {
			s.ghost["!ln"] = tTuple(tStr("all"))
		}
	}
	if lp := x.loops(from.Parent()).byHeader[from]; lp != nil && !lp.body[to] && l.tsv && l.rowLoop(from) {
		if g := s.ghost["!count"]; g != nil {
			s.ghost["!counted"] = g
			drop(s, "count")
		}
	}
	if lp := x.loops(to.Parent()).byHeader[to]; lp != nil && !lp.body[from] && flagOf(s, "row") {
		// what flags start with
		for _, in := range to.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			if v := x.val(s, ph.Edges[predIndex(to, from)]); textType(ph.Type()) && !s.is(tEqInt(tLen(v), tInt(0))) && unwrap(v) != tStr("") {
				l.textBad[ph] = true
			}
			if isBasic(ph.Type(), types.IsBoolean) {
				s.ghost["!i"+ph.Name()] = tTuple(x.val(s, ph.Edges[predIndex(to, from)]))
			}
		}
	}
	if lp := x.loops(to.Parent()).byHeader[to]; lp != nil && !lp.body[from] && l.tsv {
		if l.rowLoop(to) {
			for _, ph := range headerPhis(to) {
				if v := x.val(s, ph.Edges[predIndex(to, from)]); !s.is(tEqInt(v, tInt(0))) {
					l.noCount(tStr(ph.Name()), x.P.blockPos(to), "the number of rows need not start with 0")
				}
			}
			for a, v := range s.mem {
				if p := pointee(a); p != nil && isInt(p) && a.Op == OFieldAddr && rootOf(a).Op == OObj && !s.is(tEqInt(v, tInt(0))) {
					l.noCount(a, x.P.blockPos(to), "the number of rows need not start with 0")
				}
			}
		}
		inner := false
		for h, lp2 := range x.loops(to.Parent()).byHeader {
			inner = inner || h != to && lp2.body[to]
		}
		if a := l.resultCell(s); a != nil && !inner && !s.is(tEqInt(tLen(s.load(a)), tInt(0))) {
			l.bad(s, linRes, x.P.blockPos(to), "the list of results does not start empty")
		}
		for _, in := range to.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			if l.isResult(ph.Type()) && !s.is(tEqInt(tLen(x.val(s, ph.Edges[predIndex(to, from)])), tInt(0))) {
				l.bad(s, linRes, x.P.blockPos(to), "the list of results does not start empty")
			}
		}
	}
}

// counters: the numbers which can count the rows at the head of their loop.
func (l *lines) counters(s *State, h *ssa.BasicBlock) (res []*Term) {
	for _, ph := range headerPhis(h) {
		if v := s.fr.regs[ph]; v != nil {
			res = append(res, tStr(ph.Name()), v)
		}
	}
	for a, v := range s.mem {
		if p := pointee(a); p != nil && isInt(p) && a.Op == OFieldAddr && rootOf(a).Op == OObj {
			res = append(res, a, v)
		}
	}
	return
}

func (l *lines) noCount(a *Term, pos, msg string) {
	k := a.String()
	if _, ok := l.uneven[k]; !ok {
		l.uneven[k] = [2]string{pos, msg}
	}
}

func (l *lines) head(x *Exec, s *State, h *ssa.BasicBlock) {
	if l.tsv && l.rowLoop(h) {
		drop(s, "count")
		s.ghost["!count"] = tTuple(l.counters(s, h)...)
	}
	if !l.tsv || flagOf(s, "res") {
		return
	}
	// the list of the results
	for _, in := range h.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if l.isResult(ph.Type()) && s.fr.regs[ph] != nil {
			s.ghost["!res"] = tTuple(s.fr.regs[ph])
		}
	}
	if a := l.resultCell(s); a != nil && !flagOf(s, "res") {
		s.ghost["!res"] = tTuple(s.load(a))
	}
}

// resultCell: the variable which holds the list of the results.
func (l *lines) resultCell(s *State) *Term {
	for _, b := range s.fr.ctx.Fn.Blocks {
		for _, in := range b.Instrs {
			if a, ok := in.(*ssa.Alloc); ok && l.isResult(a.Type().(*types.Pointer).Elem()) && s.fr.regs[a] != nil {
				return s.fr.regs[a]
			}
		}
	}
	return nil
}

// isResult: a list of what is known of the sheets.
func (l *lines) isResult(t types.Type) bool {
	sl, ok := under(t).(*types.Slice)
	if !ok {
		return false
	}
	st, ok := under(sl.Elem()).(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if types.Identical(st.Field(i).Type(), tErrType) {
			return true
		}
	}
	return false
}

func (l *lines) backEdge(x *Exec, s *State, h *ssa.BasicBlock, in func(*Term) bool, old, nw map[*ssa.Phi]*Term) {
	pos := x.P.blockPos(h)
	k := scanLoop{s.fr.ctx, h}
	if l.around(h, l.paths[l.cells]) {
		if flagOf(s, "v"+l.cells.name) && flagOf(s, "row") {
			l.cellDone(x, s, k, s.ghost["!v"+l.cells.name].Args[1], old, nw, pos)
			s.ghost["!later"] = tInt(1)
		}
		l.cells.backEdge(x, s, h, old, nw)
		return
	}
	if l.rowLoop(h) {
		if g := s.ghost["!count"]; g != nil {
			want := int64(0)
			if flagOf(s, "written") {
				want = 1
			}
			for i := 0; i < len(g.Args); i += 2 {
				a, v := g.Args[i], g.Args[i+1]
				n := v
				if a.Op == OFieldAddr {
					n = s.load(a)
				}
				for ph := range old {
					if c, ok := a.strConst(); ok && c == ph.Name() {
						n = nw[ph]
					}
				}
				if d, ok := tSub(n, v).intConst(); !ok || d != want {
					l.noCount(a, pos, "the number of rows is not that of the rows written")
				}
			}
			drop(s, "count")
		}
		l.finishRow(s, pos)
		l.newRow(s)
		return
	}
	if l.around(h, l.paths[l.sheets]) {
		l.sheetDone(s, pos)
		if l.tsv {
			n := 0
			for ph, o := range old {
				if !l.isResult(ph.Type()) || nw[ph] == nil {
					continue
				}
				n++
				if v := nw[ph]; !flagOf(s, "added") || v.Op != OAppend || len(v.Args) != 2 || v.Args[0] != o {
					l.bad(s, linRes, pos, "the results of a sheet are lost, or those of the sheets before it")
				}
			}
			for _, in := range h.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				if l.isResult(ph.Type()) && old[ph] == nil {
					n++
				}
			}
			if a := l.resultCell(s); a != nil && n == 0 {
				n++
				if v, g := s.load(a), s.ghost["!res"]; !flagOf(s, "added") || v.Op != OAppend || len(v.Args) != 2 || g == nil || v.Args[0] != g.Args[0] {
					l.bad(s, linRes, pos, "the results of a sheet are lost, or those of the sheets before it")
				}
			}
			if n == 0 {
				l.bad(s, linRes, pos, "no list of results is kept")
			}
			drop(s, "added", "res", "counted")
		}
		drop(s, "got", "told", "wr", "empty")
		l.sheets.backEdge(x, s, h, old, nw)
		pastName(s, curSheet, nw)
		return
	}
	if l.around(h, l.paths[l.files]) {
		l.fileDone(s, pos)
		drop(s, "file", "open", "list", "failed", "told", "got", "empty", "v"+l.sheets.name, "x"+l.sheets.name)
		l.newRow(s)
		l.files.backEdge(x, s, h, old, nw)
		pastName(s, curFile, nw)
	}
}

// emptyCell: the current cell is empty, as it is or after a change.
func (l *lines) emptyCell(s *State) bool {
	raw := s.ghost["!raw"].Args[0]
	val := raw
	if g := s.ghost["!store"]; g != nil {
		val = g.Args[0]
	}
	none := func(t *Term) bool { return s.is(tEqInt(tLen(t), tInt(0))) || s.is(tEq(t, tStr(""), t.T)) }
	empty := none(val) || none(raw)
	// a normalised form of the cell is empty
	for f := range s.facts.m {
		f.anySub(func(u *Term) bool {
			if !empty && u.Op == OCall && (u.S == "trimmed" || u.S == "condensed") && l.normal(s, u, raw) && none(u) {
				empty = true
			}
			return empty
		})
	}
	return empty
}

// cellDone: the loop over the cells goes on to the next cell.
func (l *lines) cellDone(x *Exec, s *State, k scanLoop, idx *Term, old, nw map[*ssa.Phi]*Term, pos string) {
	row := s.ghost["!row"].Args[0]
	// normalised?
	if flagOf(s, "store") {
		l.norms[k] |= 1
	} else if l.tsv {
		l.norms[k] |= 2
	}
	empty := l.emptyCell(s)
	if empty {
		l.blanks[k] |= 1
	} else {
		l.blanks[k] |= 2
	}
	if l.votes[k] == nil {
		l.votes[k] = map[vote]bool{}
	}
	for ph, n := range nw {
		o := old[ph]
		if n == nil {
			continue
		}
		if isInt(ph.Type()) {
			v := vote{ph, Unknown}
			if _, ok := l.votes[k][v]; !ok {
				l.votes[k][v] = true
			}
			if s.facts.eval(tEqInt(n, tInt(0))) != False && s.facts.eval(tLt(tInt(0), n)) != True && !(empty && n == o) {
				l.votes[k][v] = false
			}
		}
		if !isBasic(ph.Type(), types.IsBoolean) {
			continue
		}
		for _, set := range []Tri{True, False} {
			v := vote{ph, set}
			if _, ok := l.votes[k][v]; !ok {
				l.votes[k][v] = true
			}
			keeps := n == o || s.facts.eval(n) == set || o != nil && s.facts.eval(o) == opposite(set)
			if s.facts.eval(n) != set && !(empty && keeps) {
				l.votes[k][v] = false
			}
		}
	}
	// written?
	l.texts(s, idx, old, nw)
	first, last := l.ends(s, row, idx)
	tab, tab2 := flagOf(s, "tab"), flagOf(s, "tab2")
	if !flagOf(s, "cell") {
		l.emits[k] |= 2
		if tab || tab2 {
			l.bad(s, linText, pos, "a tab is written without a cell")
		}
		return
	}
	l.emits[k] |= 1
	l.t.ok(linText, l.name, pos)
	mask := 0
	if g := s.ghost["!tab"]; !tab2 && tab && g == tInt(2) {
		mask |= 1
	}
	if !tab2 && (tab && first == False || !tab && first == True) {
		mask |= 1
	}
	if !tab && (tab2 && last == False || !tab2 && last == True) {
		mask |= 2
	}
	if l.style&mask == 0 {
		l.bad(s, linText, pos, "the tabs are not between the cells")
	} else {
		l.style &= mask
	}
	s.ghost["!ln"] = tTuple(tStr("cells"))
	drop(s, "cell", "tab", "tab2", "raw", "store")
}

// sheetDone: the current sheet is done.
func (l *lines) sheetDone(s *State, pos string) {
	l.t.ok(linSheet, l.name, pos)
	g := s.ghost["!got"]
	if g == nil {
		l.bad(s, linSheet, pos, "a listed sheet may not be read")
		return
	}
	if s.nilnessErr(g.Args[1]) != True {
		if !l.tsv && !flagOf(s, "told") {
			l.bad(s, linSheet, pos, "the error of a sheet is not reported")
		}
	} else {
		nx := s.ghost["!next"]
		e := s.ghost["!empty"]
		if !(nx != nil && s.facts.eval(nx.Args[0]) == False) && !(e != nil && s.facts.eval(e.Args[0]) == True) {
			l.bad(s, linSheet, pos, "there may be further rows in the sheet")
		}
	}
	if l.tsv && !flagOf(s, "added") {
		l.bad(s, linRes, pos, "a sheet has no result")
	}
	l.newRow(s)
}

func (l *lines) fileDone(s *State, pos string) {
	l.t.ok(linFile, l.name, pos)
	switch {
	case flagOf(s, "failed"):
		if !flagOf(s, "told") {
			l.bad(s, linFile, pos, "the error of a file is not reported")
		}
	case !flagOf(s, "open"):
		l.bad(s, linFile, pos, "a file may not be opened")
	case !flagOf(s, "list"):
		l.bad(s, linFile, pos, "the sheets of a file are not listed")
	case !l.sheets.complete(s, s.ghost["!list"].Args[0]):
		l.bad(s, linSheet, pos, "not all sheets of a file may be read")
	}
}

func (l *lines) append(x *Exec, s *State, base *Term, elems []*Term, at ssa.Instruction) {
	call, ok := at.(*ssa.Call)
	if !ok || !l.tsv || !l.isResult(call.Type()) {
		return
	}
	pos := x.P.InstrPos(at)
	l.t.ok(linRes, l.name, pos)
	v := s.ghost["!v"+l.sheets.name]
	if len(elems) != 1 || v == nil {
		l.bad(s, linRes, pos, "what is added is not the result of one sheet")
		return
	}
	if flagOf(s, "added") {
		l.bad(s, linRes, pos, "a sheet has two results")
		return
	}
	if g := s.ghost["!res"]; g == nil || g.Args[0] != base {
		l.bad(s, linRes, pos, "the result is not added to the list of results")
	}
	st := under(under(call.Type()).(*types.Slice).Elem()).(*types.Struct)
	named, filed := false, false
	got := s.ghost["!got"]
	for i := 0; i < st.NumFields(); i++ {
		f := fieldOf(elems[0], i, st.Field(i).Type())
		switch {
		case isBasic(st.Field(i).Type(), types.IsString) && st.Field(i).Name() == "SheetName" && f == curSheet:
			named = true
		case flagOf(s, "file") && st.Field(i).Name() == "Filename" && f == s.ghost["!file"].Args[0]:
			filed = true
		case st.Field(i).Name() == "NumRows":
			g := s.ghost["!counted"]
			if g == nil {
				if !s.is(tEqInt(f, tInt(0))) {
					l.bad(s, linRes, pos, "a sheet which was not read has rows")
				}
				break
			}
			var by []string
			for j := 0; j < len(g.Args); j += 2 {
				if g.Args[j+1] == f {
					by = append(by, g.Args[j].String())
				}
			}
			if len(by) == 0 {
				l.bad(s, linRes, pos, "the number of rows is not that of the rows written")
			}
			l.counts[strings.Join(by, "\n")] = pos
		case types.Identical(f.T, tErrType) || types.Identical(st.Field(i).Type(), tErrType):
			if got == nil {
				break
			}
			if bad := s.nilnessErr(got.Args[1]) != True; bad && f != got.Args[1] || !bad && s.nilnessErr(f) != True {
				l.bad(s, linRes, pos, "the result of a sheet does not tell its error")
			}
		}
	}
	if got == nil {
		l.bad(s, linRes, pos, "a result is added before the sheet is read")
	}
	if !named || !filed {
		l.bad(s, linRes, pos, "the result does not name the file and the sheet")
	}
	s.ghost["!added"] = tInt(1)
}

// pieces of a text: constants and values.
func (l *lines) pieces(s *State, t *Term, res []*Term) []*Term {
	t = unwrap(t)
	if t.Op == OCat {
		for _, a := range t.Args {
			res = l.pieces(s, a, res)
		}
		return res
	}
	switch t.Op {
	case OAppend:
		res = l.pieces(s, t.Args[0], res)
		for _, c := range t.Args[1:] {
			if n, ok := c.intConst(); ok && n > 0 && n <= 127 {
				c = tStr(string(rune(n)))
			}
			res = append(res, c)
		}
		return res
	case OAppendS:
		return l.pieces(s, t.Args[1], l.pieces(s, t.Args[0], res))
	}
	if e, ok := s.varargs(t); ok && isByteSlice(t.T) {
		b := ""
		for _, c := range e {
			n, ok := c.intConst()
			if !ok || n <= 0 || n > 127 {
				return append(res, t)
			}
			b += string(rune(n))
		}
		return append(res, tStr(b))
	}
	return append(res, t)
}

// output: a call which writes text somewhere.
func (l *lines) output(s *State, ev *CallEvent) (dst *Term, text []*Term, ok bool) {
	n := ev.Name
	i := strings.LastIndexByte(n, '.')
	m := n[i+1:]
	stdout := tStr("stdout")
	switch {
	case n == "fmt.Print" || n == "fmt.Println" || n == "fmt.Printf":
		dst = stdout
	case n == "fmt.Fprint" || n == "fmt.Fprintln" || n == "fmt.Fprintf":
		dst = ev.Args[0]
		m = "P" + m[2:]
	case n == "io.WriteString":
		return ev.Args[0], l.pieces(s, ev.Args[1], nil), true
	case (m == "Write" || m == "WriteString" || m == "WriteByte" || m == "WriteRune") && len(ev.Args) == 2:
		if m == "WriteByte" || m == "WriteRune" {
			if c, ok := ev.Args[1].intConst(); ok && c > 0 && c < 128 {
				return ev.Args[0], []*Term{tStr(string(rune(c)))}, true
			}
			return ev.Args[0], []*Term{ev.Args[1]}, true
		}
		return ev.Args[0], l.pieces(s, ev.Args[1], nil), true
	default:
		return nil, nil, false
	}
	va, known := s.varargs(ev.Args[len(ev.Args)-1])
	if !known {
		return dst, []*Term{ev.Args[len(ev.Args)-1]}, true
	}
	if m == "Printf" {
		f, isC := ev.Args[len(ev.Args)-2].strConst()
		if !isC {
			return dst, append([]*Term{ev.Args[len(ev.Args)-2]}, va...), true
		}
		for f != "" {
			i := strings.IndexByte(f, '%')
			if i < 0 {
				text = append(text, tStr(f))
				break
			}
			if i > 0 {
				text = append(text, tStr(f[:i]))
			}
			if i+1 < len(f) && (f[i+1] == 's' || f[i+1] == 'v') && len(va) > 0 {
				text = l.pieces(s, va[0], text)
				va = va[1:]
			} else {
				text = append(text, tCall("format "+f[i:], types.Typ[types.String]))
				text = append(text, va...)
				va = nil
			}
			f = f[min(i+2, len(f)):]
		}
		return dst, append(text, va...), true
	}
	for j, v := range va {
		if j > 0 && m == "Println" {
			text = append(text, tStr(" "))
		}
		text = l.pieces(s, v, text)
	}
	if m == "Println" {
		text = append(text, tStr("\n"))
	}
	return dst, text, true
}

// write: a piece of a line.
func (l *lines) write(s *State, text []*Term, pos string) {
	l.t.ok(linText, l.name, pos)
	for _, p := range text {
		if c, ok := p.strConst(); ok {
			for _, r := range c {
				switch {
				case r == '\t' && flagOf(s, "v"+l.cells.name):
					if flagOf(s, "cell") {
						if flagOf(s, "tab2") {
							l.bad(s, linText, pos, "two tabs follow a cell")
						}
						s.ghost["!tab2"] = tInt(1)
					} else {
						if flagOf(s, "tab") {
							l.bad(s, linText, pos, "two tabs come before a cell")
						}
						s.ghost["!tab"] = tInt(1)
					}
				case r == '\n':
					row := s.ghost["!row"]
					switch g := s.ghost["!ln"]; {
					case flagOf(s, "written"):
						l.bad(s, linRow, pos, "a row gives two lines")
					case row == nil:
						l.bad(s, linText, pos, "a line is written which is not that of a row")
					case g == nil && s.is(tLe(tLen(row.Args[0]), tInt(0))):
					case g == nil || g.Args[0] != tStr("all"):
						l.bad(s, linText, pos, "the line ends although cells may be missing")
					}
					s.ghost["!written"] = tInt(1)
					drop(s, "ln")
				default:
					l.bad(s, linText, pos, "writes "+strings.TrimSpace(tStr(string(r)).String())+" to the line")
				}
			}
			continue
		}
		switch {
		case p.Op == OCall && p.S == "joined row" && flagOf(s, "row") && p.Args[0] == s.ghost["!row"].Args[0]:
			if flagOf(s, "ln") || flagOf(s, "written") {
				l.bad(s, linText, pos, "the cells are written twice")
			}
			s.ghost["!ln"] = tTuple(tStr("all"))
		case l.cell(s, p):
			if flagOf(s, "cell") {
				l.bad(s, linText, pos, "a cell is written twice")
			}
			if g := s.ghost["!ln"]; g != nil && g.Args[0] == tStr("all") || flagOf(s, "written") {
				l.bad(s, linText, pos, "the cells are written twice")
			}
			drop(s, "scan", "normed0")
			s.ghost["!cell"] = tInt(1)
		case s.is(tEqInt(tLen(p), tInt(0))):
		case l.isAcc(s, p, pos):
			if flagOf(s, "ln") || flagOf(s, "written") {
				l.bad(s, linText, pos, "the cells are written twice")
			}
			s.ghost["!ln"] = tTuple(tStr("all"))
		case !flagOf(s, "cell") && !flagOf(s, "tab") && l.isSep(s, p, pos):
			s.ghost["!tab"] = tInt(2)
		default:
			l.bad(s, linText, pos, "writes "+p.String()+", which is not the cell as the options ask for it")
		}
	}
}

// isSep: the text is nothing before the first cell and a tab before others.
func (l *lines) isSep(s *State, p *Term, pos string) bool {
	if !flagOf(s, "v"+l.cells.name) {
		return false
	}
	for h := range l.x.loops(s.fr.ctx.Fn).byHeader {
		if !l.around(h, l.paths[l.cells]) {
			continue
		}
		for _, in := range h.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			if s.fr.regs[ph] != nil && unwrap(s.fr.regs[ph]) == p && textType(ph.Type()) {
				l.sepUse[ph] = pos
				return true
			}
		}
	}
	return false
}

// isAcc: the text is that of all cells, as a loop has put it together.
func (l *lines) isAcc(s *State, p *Term, pos string) bool {
	for k, g := range s.ghost {
		if !strings.HasPrefix(k, "!acc") || g.Args[0] != p {
			continue
		}
		for ph := range l.accs {
			if "!acc"+ph.Name()+"@"+ph.Parent().String() == k {
				l.accUse[ph] = pos
				return true
			}
		}
	}
	return false
}

func textType(t types.Type) bool { return isBasic(t, types.IsString) || isByteSlice(t) }

// texts: texts which grow with the cells, and separators.
func (l *lines) texts(s *State, idx *Term, old, nw map[*ssa.Phi]*Term) {
	row := s.ghost["!row"].Args[0]
	for ph, n := range nw {
		if n == nil || !textType(ph.Type()) {
			continue
		}
		if unwrap(n) != tStr("\t") {
			l.sepBad[ph] = true
		}
		o := old[ph]
		mask, cells, pre, post := 0, 0, 0, 0
		pcs := l.pieces(s, n, nil)
		good := o != nil && len(pcs) > 0 && (pcs[0] == unwrap(o) || s.is(tEqInt(tLen(o), tInt(0))))
		if good && pcs[0] == unwrap(o) {
			pcs = pcs[1:]
		}
		for _, p := range pcs {
			c, isC := p.strConst()
			switch {
			case isC && c == "":
			case isC && c == "\t" && cells == 0:
				pre++
			case isC && c == "\t":
				post++
			case l.cell(s, p):
				cells++
			default:
				good = false
			}
		}
		first, last := l.ends(s, row, idx)
		if post == 0 && (pre == 1 && first == False || pre == 0 && first == True) {
			mask |= 1
		}
		if pre == 0 && (post == 1 && last == False || post == 0 && last == True) {
			mask |= 2
		}
		if _, ok := l.accs[ph]; !ok {
			l.accs[ph] = 3
		}
		l.accs[ph] &= mask
		if !good || cells != 1 {
			l.accs[ph] = 0
		}
	}
}

// ends: the cell is the first one, the last one.
func (l *lines) ends(s *State, row, idx *Term) (first, last Tri) {
	last, first = s.facts.eval(tLe(tLen(row), tAdd(idx, tInt(1)))), s.facts.eval(tLe(idx, tInt(0)))
	if last == Unknown {
		last = s.facts.eval(tEqInt(tLen(row), tAdd(idx, tInt(1))))
	}
	if first == Unknown {
		first = s.facts.eval(tEqInt(idx, tInt(0)))
	}
	if flagOf(s, "later") {
		first = False
	}
	return
}

// target: where lines have to go.
func (l *lines) target(s *State, dst *Term, pos string) {
	l.t.ok(linDst, l.name, pos)
	l.written++
	d := unwrap(dst)
	if !l.tsv {
		if dst != tStr("stdout") && !isStd(dst, "Stdout") && !(flagOf(s, "buf") && s.ghost["!buf"].Args[0] == d) {
			l.bad(s, linDst, pos, "a line is not written to the standard output")
		}
		if flagOf(s, "buf") {
			s.ghost["!unflushed"] = tInt(1)
		}
		return
	}
	switch {
	case isStd(dst, "Discard"):
		if s.facts.eval(option("p")) != True {
			l.bad(s, linDst, pos, "a line is discarded although output is wanted")
		}
	case flagOf(s, "wr") && s.ghost["!wr"].Args[0] == d:
	default:
		l.bad(s, linDst, pos, "a line is not written to the file of the sheet")
	}
}

func isStd(t *Term, name string) bool {
	return t.anySub(func(u *Term) bool {
		g, ok := u.G.(*ssa.Global)
		return u.Op == OGlobal && ok && g.Name() == name && g.Pkg != nil && (g.Pkg.Pkg.Path() == "os" || strings.HasPrefix(g.Pkg.Pkg.Path(), "io"))
	})
}

func (l *lines) call(args *Term) func(x *Exec, s *State, ev *CallEvent) ([]Outcome, bool) {
	return func(x *Exec, s *State, ev *CallEvent) ([]Outcome, bool) {
		pos := x.P.InstrPos(ev.Instr)
		one := func(t *Term) ([]Outcome, bool) { return []Outcome{{Res: t}}, true }
		if ev.Kind == "go" {
			l.bad(s, linRow, pos, "starts a goroutine")
			return []Outcome{{}}, true
		}
		if ev.Com != nil && ev.Com.IsInvoke() && ev.Com.Method.Pkg() != nil && ev.Com.Method.Pkg().Path() == modPath {
			return l.method(x, s, ev, pos)
		}
		switch ev.Name {
		case "flag.Args":
			return one(args)
		case "flag.NArg":
			return one(tLen(args))
		case "flag.Arg":
			a := tIndexAddr(args, ev.Args[0], types.NewPointer(types.Typ[types.String]))
			x.H.Load(x, s, a, ev.Instr)
			return one(s.load(a))
		case "flag.Bool":
			n, _ := ev.Args[0].strConst()
			return one(mk(Term{Op: OCall, S: "address of option " + n, T: ev.Sig.Results().At(0).Type()}))
		case modPath + ".Open":
			l.t.ok(linFile, l.name, pos)
			if f := s.ghost["!file"]; f == nil || f.Args[0] != ev.Args[0] {
				l.bad(s, linFile, pos, "opens something else than the file")
			}
			if flagOf(s, "open") {
				l.bad(s, linFile, pos, "opens a file twice")
			}
			return fails(x, s, ev, "open", func(s *State, v, e *Term) { s.ghost["!open"] = tTuple(v) },
				func(s *State, v, e *Term) { s.ghost["!failed"] = tTuple(e) }), true
		case "os.Create", "os.OpenFile", "os.MkdirAll":
			return fails(x, s, ev, "create", func(s *State, v, e *Term) {
				if v != nil {
					s.ghost["!out"] = tTuple(v)
				}
			}, func(s *State, v, e *Term) {
				if v != nil {
					s.ghost["!failed"] = tTuple(e)
				}
			}), true
		case "bufio.NewWriter", "bufio.NewWriterSize":
			w := x.fresh(s, ev.Instr, "writer", ev.Sig.Results().At(0).Type())
			s.assumeQuiet(tNot(tEq(w, tNil(w.T), nil)))
			if g := s.ghost["!out"]; g != nil && ev.Args[0].inner(OIface) == g.Args[0] {
				s.ghost["!wr"] = tTuple(w)
				drop(s, "out")
			}
			if isStd(ev.Args[0], "Stdout") {
				s.ghost["!buf"] = tTuple(w)
			}
			return one(w)
		case "(*bufio.Writer).Reset":
			if g := s.ghost["!out"]; g != nil && ev.Args[1].inner(OIface) == g.Args[0] {
				s.ghost["!wr"] = tTuple(ev.Args[0])
				drop(s, "out")
			}
			return []Outcome{{}}, true
		case "(*bufio.Writer).Flush":
			if g := s.ghost["!buf"]; g != nil && g.Args[0] == ev.Args[0] {
				drop(s, "unflushed")
			}
		case "strings.TrimSpace":
			return one(tCall("trimmed", types.Typ[types.String], ev.Args[0]))
		case "(*regexp.Regexp).ReplaceAllString", "(*regexp.Regexp).ReplaceAllLiteralString":
			ok := false
			ev.Args[0].anySub(func(u *Term) bool {
				if g, is := u.G.(*ssa.Global); is && l.re[g] {
					ok = true
				}
				return false
			})
			if r, isC := ev.Args[2].strConst(); ok && isC && r == " " {
				return one(tCall("condensed", types.Typ[types.String], ev.Args[1]))
			}
		case "strings.Join":
			sep, _ := ev.Args[1].strConst()
			g := s.ghost["!row"]
			if sep == "\t" && g != nil && ev.Args[0] == g.Args[0] {
				if !l.normed(s) {
					l.bad(s, linNorm, pos, "a line is written whose cells need not be as the options ask for")
				}
				return one(tCall("joined row", types.Typ[types.String], g.Args[0]))
			}
			if h := s.ghost["!types"]; h != nil && ev.Args[0] == h.Args[0] {
				return one(tCall("joined types", types.Typ[types.String], h.Args[0]))
			}
			return one(x.fresh(s, ev.Instr, "joined", types.Typ[types.String]))
		case "log.Fatal", "log.Fatalf", "log.Fatalln", "os.Exit", "runtime.Goexit":
			if flagOf(s, "file") || flagOf(s, "some") {
				l.bad(s, linFile, pos, "ends the command although there may be more files")
			} else if s.facts.eval(tLe(tLen(args), tInt(0))) == False && !l.tsv {
				l.bad(s, linFile, pos, "ends the command although there are files")
			}
			return []Outcome{{Stop: true}}, true
		}
		if strings.HasPrefix(ev.Name, "(*strings.Builder).") || strings.HasPrefix(ev.Name, "(*bytes.Buffer).") {
			return l.builder(x, s, ev, pos)
		}
		if dst, text, ok := l.output(s, ev); ok {
			l.out(s, dst, text, pos)
			return opaque(x, s, ev), true
		}
		if l.p.external(ev) {
			if ev.Fn == nil || fnPkg(ev.Fn) == nil || !purePkgs[fnPkg(ev.Fn).Path()] {
				return opaque(x, s, ev), true
			}
		}
		if ev.Fn != nil && fnPkg(ev.Fn) != nil && fnPkg(ev.Fn).Path() != l.pkg && l.p.InModule(ev.Fn) {
			return opaque(x, s, ev), true
		}
		return nil, false
	}
}

// builder: a line is put together first.
func (l *lines) builder(x *Exec, s *State, ev *CallEvent, pos string) ([]Outcome, bool) {
	m := ev.Name[strings.LastIndexByte(ev.Name, '.')+1:]
	switch m {
	case "Reset", "Grow":
		if m == "Reset" {
			s.ghost["!reset"] = tInt(1)
		}
	case "String", "Bytes":
		t := tCall("built", ev.Sig.Results().At(0).Type())
		return []Outcome{{Res: t}}, true
	case "Write", "WriteString", "WriteByte", "WriteRune":
		fresh := flagOf(s, "reset")
		if root := rootOf(ev.Args[0]); root.Site != nil && root.Site.Instr != nil {
			for h, lp := range x.loops(root.Site.Instr.Parent()).byHeader {
				if l.rowLoop(h) && lp.body[root.Site.Instr.Block()] {
					fresh = true
				}
			}
			if root.Site.Frame != nil && root.Site.Frame.Call != nil {
				in := root.Site.Frame.Call
				for h, lp := range x.loops(in.Parent()).byHeader {
					if l.rowLoop(h) && lp.body[in.Block()] {
						fresh = true
					}
				}
			}
		}
		if !fresh {
			l.bad(s, linText, pos, "a line is put together behind the line before it")
		}
		s.ghost["!via"] = tInt(1)
		_, text, _ := l.output(s, ev)
		l.write(s, text, pos)
	}
	return opaque(x, s, ev), true
}

// out: text is written somewhere.
func (l *lines) out(s *State, dst *Term, text []*Term, pos string) {
	if isStd(dst, "Stderr") {
		for _, e := range []string{"failed", "got"} {
			g := s.ghost["!"+e]
			if g == nil {
				continue
			}
			for _, u := range text {
				if u.contains(g.Args[len(g.Args)-1]) {
					s.ghost["!told"] = tInt(1)
				}
			}
		}
		return
	}
	if !l.tsv {
		for _, u := range text {
			if u.Op == OCall && u.S == "joined types" && s.facts.eval(option("v")) == True && !flagOf(s, "ln") {
				// the line of the types
				if len(text) == 2 && text[1] == tStr("\n") {
					return
				}
			}
		}
	}
	l.target(s, dst, pos)
	if len(text) > 0 && unwrap(text[0]).Op == OCall && unwrap(text[0]).S == "built" {
		if !flagOf(s, "via") {
			l.bad(s, linText, pos, "a line is written twice")
		}
		drop(s, "via")
		text = text[1:]
	}
	l.write(s, text, pos)
}

// method: a method of a file or of a sheet.
func (l *lines) method(x *Exec, s *State, ev *CallEvent, pos string) ([]Outcome, bool) {
	m := ev.Com.Method.Name()
	if ev.Kind == "defer" && m == "Close" {
		return []Outcome{{}}, true
	}
	recv := ev.Args[0]
	mine := func(k string) bool {
		g := s.ghost["!"+k]
		return g != nil && g.Args[0] == recv
	}
	switch m {
	case "List":
		if !mine("open") {
			l.bad(s, linSheet, pos, "lists the sheets of another file")
		}
		return fails(x, s, ev, "list", func(s *State, v, e *Term) { s.ghost["!list"] = tTuple(v) },
			func(s *State, v, e *Term) { s.ghost["!failed"] = tTuple(e) }), true
	case "Get":
		l.t.ok(linSheet, l.name, pos)
		v := s.ghost["!v"+l.sheets.name]
		switch {
		case !mine("open"):
			l.bad(s, linSheet, pos, "reads a sheet of another file")
		case v == nil || ev.Args[1] != curSheet:
			l.bad(s, linSheet, pos, "reads another sheet than the listed one")
		case flagOf(s, "got"):
			l.bad(s, linSheet, pos, "reads a sheet twice")
		}
		return fails(x, s, ev, "get", func(s *State, v, e *Term) { s.ghost["!got"] = tTuple(v, tNil(tErrType)) },
			func(s *State, v, e *Term) { s.ghost["!got"] = tTuple(v, e) }), true
	case "IsEmpty":
		v := x.fresh(s, ev.Instr, "empty", types.Typ[types.Bool])
		if mine("got") {
			s.ghost["!empty"] = tTuple(v)
		}
		return []Outcome{{Res: v}}, true
	case "Next":
		l.t.ok(linRow, l.name, pos)
		if !mine("got") {
			l.bad(s, linSheet, pos, "goes to the next row of another sheet")
		}
		if l.nextAt == nil {
			l.nextAt = ev.Instr
		}
		l.nextPath = append(l.nextPath, callPath(s, ev.Instr))
		l.finishRow(s, pos)
		if nx := s.ghost["!next"]; nx != nil && s.facts.eval(nx.Args[0]) == False {
			l.bad(s, linRow, pos, "goes on after the last row")
		}
		l.newRow(s)
		v := x.fresh(s, ev.Instr, "next", types.Typ[types.Bool])
		s.ghost["!next"] = tTuple(v)
		return []Outcome{{Res: v}}, true
	case "Strings":
		if nx := s.ghost["!next"]; nx == nil || s.facts.eval(nx.Args[0]) != True || !mine("got") {
			l.bad(s, linRow, pos, "takes a row although there may be none")
		}
		if flagOf(s, "ln") || flagOf(s, "v"+l.cells.name) {
			l.bad(s, linRow, pos, "takes the row again while it is written")
		}
		v := x.fresh(s, ev.Instr, "row", ev.Sig.Results().At(0).Type())
		s.ghost["!row"] = tTuple(v)
		drop(s, "normed", "scan")
		return []Outcome{{Res: v}}, true
	case "Types":
		v := x.fresh(s, ev.Instr, "types", ev.Sig.Results().At(0).Type())
		s.ghost["!types"] = tTuple(v)
		return []Outcome{{Res: v}}, true
	}
	return opaque(x, s, ev), true
}

func (l *lines) ret(f *ssa.Function, args *Term) func(x *Exec, s *State, res []*Term, at ssa.Instruction) {
	return func(x *Exec, s *State, res []*Term, at ssa.Instruction) {
		pos := x.P.InstrPos(at)
		if !l.tsv {
			l.t.ok(linFile, l.name, pos)
			if !l.files.complete(s, args) {
				l.bad(s, linFile, pos, "ends although there may be more files")
			}
			if flagOf(s, "unflushed") {
				l.bad(s, linDst, pos, "the output is not flushed")
			}
			return
		}
		l.t.ok(linSheet, l.name, pos)
		var err, list *Term
		for _, v := range res {
			if v.T != nil && types.Identical(v.T, tErrType) {
				err = v
			} else {
				list = v
			}
		}
		if n := len(res); err == nil && n == 2 {
			err, list = res[1], res[0]
		}
		switch {
		case err == nil:
			l.bad(s, linRes, pos, "tells no error")
		case s.nilnessErr(err) != True:
			if g := s.ghost["!failed"]; g == nil || g.Args[0] != err {
				l.bad(s, linSheet, pos, "gives the file up although it could be opened and listed")
			}
		case !flagOf(s, "list"):
			l.bad(s, linSheet, pos, "ends without listing the sheets")
		case flagOf(s, "failed"):
			l.bad(s, linFile, pos, "the error of a file is not reported")
		case !l.sheets.complete(s, s.ghost["!list"].Args[0]):
			l.bad(s, linSheet, pos, "not all sheets of the file may be read")
		default:
			l.t.ok(linRes, l.name, pos)
			if g := s.ghost["!res"]; g != nil && g.Args[0] != list && !s.is(tLe(tLen(s.ghost["!list"].Args[0]), tInt(0))) {
				l.bad(s, linRes, pos, "returns "+list.String()+" instead of the results")
			}
		}
	}
}

func (l *lines) done(f *ssa.Function) {
	t := l.t
	if l.written == 0 || l.nextAt == nil {
		t.bad(linRow, l.name, l.x.P.Pos(f.Pos()), "no row is ever written")
	}
	if !l.tsv {
		l.files.done(l.x)
	}
	l.sheets.done(l.x)
	if l.cells.visits > 0 {
		l.cells.done(l.x)
	}
	for k, m := range l.emits {
		if m == 3 {
			t.bad(linText, l.name, l.x.P.blockPos(k.head), "a cell of a row may be left out of its line")
		}
	}
	for g, pos := range l.normUse {
		done := false
		for k, m := range l.norms {
			done = done || m == 1 && slices.Contains(g.Args, l.loopTerm(k))
		}
		if !done {
			t.bad(linNorm, l.name, pos, "a cell may not be changed as the options ask for")
		}
	}
	for ph, pos := range l.sepUse {
		if l.sepBad[ph] || l.textBad[ph] {
			t.bad(linText, l.name, pos, "the tabs are not between the cells")
		}
	}
	for ph, pos := range l.accUse {
		if l.accs[ph] == 0 || l.textBad[ph] {
			t.bad(linText, l.name, pos, "a line is put together which is not the cells with tabs between them")
		}
	}
	for by, pos := range l.counts {
		good := by == ""
		at := [2]string{pos, ""}
		for _, a := range strings.Split(by, "\n") {
			if u, ok := l.uneven[a]; ok {
				at = u
			} else {
				good = true
			}
		}
		if !good {
			t.bad(linRes, l.name, at[0], at[1])
		}
	}
	for k, m := range l.need {
		for ph, at := range m {
			if ph.ph == nil && l.blanks[k] != 1 || ph.ph != nil && !l.votes[k][ph] {
				t.bad(linRow, l.name, at[0], "a row may be left out although it has a cell which is not empty", strings.Split(at[1], "\n")...)
			}
		}
	}
}
