package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P15", "path-sensitive abstract interpretation of the token loops in product with the document grammar",
		"The loops which read shared strings and worksheets are followed together with the grammar of the document, for every token which can follow at every place. The variable which becomes the text is identified by what is stored, and for every token the analysis compares its value after the token with its value before: empty at the start of an item, extended by exactly the characters of a text token inside of t (or v) elements, and unchanged by everything else; the end of an item has to store it once.", func(r *Report) {
			checkSharedStrings(r)
		})
}

const xlsxPath = modPath + "/xlsx"

// documentReaders: functions with a decoder parameter which mention a string,
// and are not called by another one of them.
func (p *Prog) documentReaders(marker string) (res []*ssa.Function) {
	var all []*ssa.Function
	for _, f := range p.allFuncs() {
		if fnPkg(f) == nil || fnPkg(f).Path() != xlsxPath || f.Parent() != nil || f.Synthetic != "" || decoderParam(f) < 0 {
			continue
		}
		if p.mentions(f, marker, map[*ssa.Function]bool{}) {
			all = append(all, f)
		}
	}
	for _, f := range all {
		called := false
		for _, g := range all {
			if g != f && p.reachesFn(g, func(c *ssa.Function) bool { return c == f }) {
				called = true
			}
		}
		if !called {
			res = append(res, f)
		}
	}
	return
}

func decoderParam(f *ssa.Function) int {
	for i, q := range f.Params {
		if isNamed(q.Type(), "encoding/xml", "Decoder") {
			return i
		}
	}
	return -1
}

// mentions: the function or one of those it calls uses the string.
func (p *Prog) mentions(f *ssa.Function, str string, seen map[*ssa.Function]bool) bool {
	if seen[f] || !p.InModule(f) {
		return false
	}
	seen[f] = true
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			var ops [16]*ssa.Value
			for _, o := range in.Operands(ops[:0]) {
				if c, ok := (*o).(*ssa.Const); ok {
					if v, ok := constTerm(c).strConst(); ok && v == str {
						return true
					}
				}
				if g, ok := (*o).(*ssa.Function); ok && p.mentions(g, str, seen) {
					return true
				}
			}
		}
	}
	for _, a := range f.AnonFuncs {
		if p.mentions(a, str, seen) {
			return true
		}
	}
	return false
}

// how a variable changes with a token
const (
	mKeep  = 1 << iota // same value
	mReset             // empty
	mAdd               // extended by the text of the token
)

// locSum collects how the variables of a token loop change.
type locSum struct {
	w     *xmlWalk
	kinds map[string]map[string]int             // variable => event => how, in all states
	link  map[string]map[string]map[string]bool // event => list => variables appended to it (in all states)
	o     map[string]map[*Term]bool
	pos   map[string]string
	paths map[string][]string
	evs   map[string]*xmlEvent
	lists map[string]bool
}

func newLocSum(w *xmlWalk) *locSum {
	return &locSum{w: w, kinds: map[string]map[string]int{}, link: map[string]map[string]map[string]bool{}, o: map[string]map[*Term]bool{},
		pos: map[string]string{}, paths: map[string][]string{}, evs: map[string]*xmlEvent{}, lists: map[string]bool{}}
}

// textOf is the text in a string or a list of bytes.
func textOf(v *Term) *Term {
	str := types.Typ[types.String]
	switch {
	case v != nil && v.isNil():
		return tStr("")
	case v == nil || v.T == nil:
		return v
	case v.Op == OConv && isBasic(v.T, types.IsString) && isBytes(v.Args[0].T):
		return textOf(v.Args[0])
	case !isBytes(v.T):
		return v
	case v.isNil() || tLen(v) == tInt(0):
		return tStr("")
	case v.Op == OAppendS:
		return tConcat(textOf(v.Args[0]), textOf(v.Args[1]))
	}
	return tConv(v, v.T, str)
}

func isBytes(t types.Type) bool {
	if t == nil {
		return false
	}
	sl, ok := under(t).(*types.Slice)
	if !ok {
		return false
	}
	b, ok := under(sl.Elem()).(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// how the value of a variable changed
func (ls *locSum) how(e *xmlEvent, l xmlLoc) int {
	k := 0
	if l.n == l.o {
		k |= mKeep
	}
	if v, ok := textOf(l.n).strConst(); ok && v == "" {
		k |= mReset
	}
	if e.chunk != nil && textOf(l.n) == tConcat(textOf(l.o), tConv(e.chunk, e.chunk.T, types.Typ[types.String])) {
		k |= mAdd
	}
	return k
}

func (ls *locSum) token(s *State, e *xmlEvent, locs []xmlLoc, h *ssa.BasicBlock) {
	lab := e.label
	if ls.evs[lab] == nil {
		ls.evs[lab] = e
		ls.pos[lab] = ls.w.p.blockPos(h)
	}
	if os.Getenv("CK_XML") != "" {
		fmt.Println("TOKEN", e, "at", ls.w.p.blockPos(h), h.Index, s.fr.ctx)
		for _, l := range locs {
			fmt.Println("     ", l.key, l.o, "=>", l.n, ls.how(e, l), textOf(l.o), textOf(l.n))
		}
	}
	here := map[string]map[string]bool{}
	for _, l := range locs {
		if ls.o[l.key] == nil {
			ls.o[l.key] = map[*Term]bool{}
		}
		ls.o[l.key][l.o] = true
		k := ls.how(e, l)
		if ls.kinds[l.key] == nil {
			ls.kinds[l.key] = map[string]int{}
		}
		if old, ok := ls.kinds[l.key][lab]; ok {
			if old&^k != 0 {
				ls.paths[l.key+"|"+lab] = s.trail.lines(40)
			}
			k &= old
		} else {
			ls.paths[l.key+"|"+lab] = s.trail.lines(40)
		}
		ls.kinds[l.key][lab] = k
		if _, ok := under(l.t).(*types.Slice); ok {
			here[l.key] = map[string]bool{}
			if l.n.Op == OAppend && l.n.Args[0] == l.o && len(l.n.Args) == 2 {
				ls.lists[l.key] = true
				for _, t := range locs {
					v := l.n.Args[1]
					if v == t.o || textOf(v) == textOf(t.o) {
						here[l.key][t.key] = true
					}
				}
			}
		}
	}
	if ls.link[lab] == nil {
		ls.link[lab] = map[string]map[string]bool{}
		for d, m := range here {
			ls.link[lab][d] = m
		}
		return
	}
	for d, m := range ls.link[lab] {
		for l := range m {
			if !here[d][l] {
				delete(m, l)
				ls.paths["link|"+d+"|"+lab] = s.trail.lines(40)
			}
		}
	}
}

func (ls *locSum) labels() (res []string) {
	for l := range ls.evs {
		res = append(res, l)
	}
	sort.Strings(res)
	return
}

func within(path, root string) bool { return path == root || strings.HasPrefix(path, root+"/") }

func checkSharedStrings(r *Report) {
	p := r.P
	fns := p.documentReaders("si")
	if len(fns) == 0 {
		r.bad("anchor", "shared strings", "?", "no function of the package reads the items (si) of a shared string table")
		return
	}
	for _, fn := range fns {
		name := shortName(fn)
		const rule = "the text of an item is the text of its t elements"
		const srule = "every item is stored once"
		const erule = "a readable document is read to its end"
		r.analyse(name, fn, func(x *Exec, t *Report) *State {
			s := x.Start(fn)
			params := allParams(s)
			w := newXMLWalk(x, t, name)
			g := newGrammar("sst", "sst", "sst/si", "sst/si/t", "sst/si/r", "sst/si/r/rPr", "sst/si/r/t", "sst/si/rPh", "sst/si/rPh/t", "sst/si/phoneticPr").leaf("sst/si/t", "sst/si/r/t", "sst/si/rPh/t")
			w.grammar = func(*Term) *xmlGrammar { return g }
			x.H.Call = func(x *Exec, s *State, ev *CallEvent) ([]Outcome, bool) { return w.call(s, ev) }
			ls := newLocSum(w)
			w.token = ls.token
			var sinks []*Term // values of the lists when the function returns without an error
			var sinkPaths [][]string
			nSink := 0
			x.H.Return = func(x *Exec, s *State, res []*Term, at ssa.Instruction) {
				var err *Term
				for _, v := range res {
					if v.T != nil && types.Identical(v.T, tErrType) {
						err = v
					}
				}
				e := w.last(s, "sst")
				if err == nil || e == nil {
					return
				}
				nSink++
				if s.nilnessErr(err) != False && e.kind == 'f' {
					sinks = append(sinks, listSinks(s, params, res)...)
					sinkPaths = append(sinkPaths, s.trail.lines(40))
				}
				if e.kind != 'r' && s.nilnessErr(err) != True {
					t.bad(erule, name, p.InstrPos(at), fmt.Sprintf("an error can be returned after %s", e), s.trail.lines(40)...)
				}
				if e.kind != 'f' && s.nilnessErr(err) != False {
					t.bad(erule, name, p.InstrPos(at), fmt.Sprintf("the function can return without an error after %s", e), s.trail.lines(40)...)
				}
				t.ok(erule, name+" ("+e.String()+")", p.InstrPos(at))
			}
			t.after = append(t.after, func() {
				if nSink == 0 {
					t.bad(erule, name, p.Pos(fn.Pos()), "the function never returns")
				}
				const item = "sst/si"
				ls.judgeItems(t, name, textSpec{
					start: func(e *xmlEvent) bool { return e.kind == 's' && e.to == item },
					in:    func(e *xmlEvent) bool { return within(e.from, item) && within(e.to, item) },
					end:   func(e *xmlEvent) bool { return e.kind == 'e' && e.from == item },
					text:  map[string]bool{"sst/si/t": true, "sst/si/r/t": true}}, rule, srule, sinks)
			})
			return s
		})
	}
	r.expect("the text of an item is the text of its t elements", 20)
}

func allParams(s *State) (res []*Term) {
	for i := range s.fr.ctx.Fn.Params {
		res = append(res, s.param(i))
	}
	return
}

// listSinks: the string lists a function hands to its caller.
func listSinks(s *State, params, res []*Term) (out []*Term) {
	isList := func(t types.Type) bool {
		sl, ok := under(t).(*types.Slice)
		return ok && isBasic(sl.Elem(), types.IsString)
	}
	for _, v := range res {
		if v.T != nil && isList(v.T) {
			out = append(out, v)
		}
	}
	for _, q := range params {
		if q.T == nil {
			continue
		}
		pt, ok := under(q.T).(*types.Pointer)
		if !ok {
			continue
		}
		st, ok := under(pt.Elem()).(*types.Struct)
		if !ok {
			continue
		}
		for j := 0; j < st.NumFields(); j++ {
			if isList(st.Field(j).Type()) {
				out = append(out, s.load(fieldAddrOf(q, j)))
			}
		}
	}
	return
}

// textSpec says which tokens belong to an item, and which of them carry its text.
type textSpec struct {
	start, in, end func(e *xmlEvent) bool
	text           map[string]bool
}

// judge compares how a variable changes with how the text of an item grows.
// The text may be emptied at the start of the items or (atEnd) after them.
func (ls *locSum) judge(l string, ts textSpec, atEnd bool, add func(lab, msg, key string)) {
	for _, lab := range ls.labels() {
		e := ls.evs[lab]
		k, seen := ls.kinds[l][lab]
		if !seen && l[0] == 'm' {
			k = mKeep
		}
		start, end := ts.start(e), ts.end(e)
		in := !start && !end && ts.in(e)
		switch {
		case start && !atEnd && k&mReset == 0:
			add(lab, "the text is not empty at the start of an item", l+"|"+lab)
		case start && atEnd && k&(mReset|mKeep) == 0:
			add(lab, "the text is not empty at the start of an item", l+"|"+lab)
		case in && e.kind == 't' && ts.text[e.from]:
			if k&mAdd == 0 {
				add(lab, "the text is not extended by exactly these characters", l+"|"+lab)
			}
		case in && k&mKeep == 0:
			add(lab, "the text is changed", l+"|"+lab)
		case end && atEnd && k&mReset == 0:
			add(lab, "the text is not empty after an item", l+"|"+lab)
		case !start && !in && !end && atEnd && k&(mReset|mKeep) == 0:
			add(lab, "the text is not empty between items", l+"|"+lab)
		}
	}
}

// judgeItems looks for a variable which holds the text of an item, and the
// list which gets it at the end of the item.
func (ls *locSum) judgeItems(t *Report, name string, ts textSpec, rule, srule string, sinks []*Term) {
	best := -1
	var fails []func()
	var failed map[string]bool
	sinkOK := func(d string) bool {
		for _, v := range sinks {
			if ls.o[d][v] {
				return true
			}
		}
		return false
	}
	var lists, vars []string
	for d := range ls.lists {
		lists = append(lists, d)
	}
	for k := range ls.kinds {
		if !ls.lists[k] {
			vars = append(vars, k)
		}
	}
	sort.Strings(lists)
	sort.Strings(vars)
	if len(lists) == 0 {
		t.bad(srule, name, "?", "no list grows with the items of the document")
		return
	}
	if len(vars) == 0 {
		t.bad(rule, name, "?", "no variable collects the text of an item")
		return
	}
	for _, d := range lists {
		for _, l := range vars {
			for _, atEnd := range []bool{false, true} {
				var f []func()
				fl := map[string]bool{}
				add := func(rule string) func(lab, msg, key string) {
					return func(lab, msg, key string) {
						e := ls.evs[lab]
						fl[lab] = true
						f = append(f, func() { t.bad(rule, fmt.Sprintf("%s: %s", name, e), ls.pos[lab], msg, ls.paths[key]...) })
					}
				}
				ls.judge(l, ts, atEnd, add(rule))
				for _, lab := range ls.labels() {
					e := ls.evs[lab]
					if ts.end(e) {
						if !ls.link[lab][d][l] {
							add(srule)(lab, "the item is not added to the list exactly once, with its text", "link|"+d+"|"+lab)
						}
					} else if k, ok := ls.kinds[d][lab]; ok && k&mKeep == 0 {
						add(srule)(lab, "the list of items is changed", d+"|"+lab)
					}
				}
				if !sinkOK(d) {
					f = append(f, func() { t.bad(srule, name, "?", "the list of items is not what the function leaves behind") })
				}
				if best < 0 || len(f) < best {
					best, fails, failed = len(f), f, fl
				}
			}
		}
	}
	for _, f := range fails {
		f()
	}
	for _, lab := range ls.labels() {
		if !failed[lab] {
			e := ls.evs[lab]
			t.ok(rule, fmt.Sprintf("%s: %s", name, e), ls.pos[lab])
			if ts.end(e) {
				t.ok(srule, fmt.Sprintf("%s: %s", name, e), ls.pos[lab])
			}
		}
	}
}

// sheetWalk follows Get through the relationships and the worksheet.
type sheetWalk struct {
	r       *Report
	m       *sheetModel
	get     *ssa.Function
	colRow  [2]int // which result of a reference parser is the column, the row
	parsers map[*ssa.Function]bool
}

func (r *Report) xlsxSheets() *sheetWalk {
	p := r.P
	sw := &sheetWalk{r: r, m: r.sheetModel(), get: p.PMethod(xlsxPath, "Document", "Get"), parsers: map[*ssa.Function]bool{}}
	if sw.m == nil || !r.need("xlsx Document.Get", sw.get) {
		return nil
	}
	sig := func(f *ssa.Function) bool {
		return fnPkg(f) != nil && fnPkg(f).Path() == xlsxPath && f.Signature.Recv() == nil && len(f.Params) == 1 && isBasic(f.Params[0].Type(), types.IsString) &&
			f.Signature.Results().Len() == 2 && isInt(f.Signature.Results().At(0).Type()) && isInt(f.Signature.Results().At(1).Type())
	}
	for _, f := range p.allFuncs() {
		if sig(f) && !p.reachesFn(f, func(g *ssa.Function) bool { return g != f && sig(g) }) {
			sw.parsers[f] = true
		}
	}
	if len(sw.parsers) == 0 {
		r.bad("anchor", "cell references", "?", "no function of the package turns a cell reference into two numbers")
		return nil
	}
	return sw
}

// start prepares the analysis of Get. calls is told about the changes of the sheet.
func (sw *sheetWalk) start(x *Exec, t *Report, sheet, rels *xmlGrammar) (*xmlWalk, *State) {
	s := x.Start(sw.get)
	w := newXMLWalk(x, t, "xlsx.Get")
	grams := map[*Term]*xmlGrammar{}
	w.grammar = func(dec *Term) *xmlGrammar { return grams[dec] }
	x.H.Call = func(x *Exec, s *State, ev *CallEvent) ([]Outcome, bool) {
		if o, ok := w.call(s, ev); ok {
			return o, ok
		}
		switch ev.Name {
		case "strconv.ParseInt", "strconv.Atoi", "strconv.ParseUint":
			n := tCall(ev.Name+"#0", ev.Sig.Results().At(0).Type(), ev.Args...)
			s.ghost["!parse"] = n
			if v, ok := ev.Args[0].strConst(); ok && v == "" {
				err := tCall(ev.Name+"#1", tErrType, ev.Args...)
				return []Outcome{{Res: tTuple(tInt(0), err), Assume: []*Term{tNot(tEq(err, tNil(tErrType), nil))}}}, true
			}
			if ev.Args[0] == w.rigid("s", types.Typ[types.String]) {
				// the index of a style is a number
				s.assumeQuiet(tEq(tCall(ev.Name+"#1", tErrType, ev.Args...), tNil(tErrType), nil))
				s.assumeQuiet(tLe(tInt(0), n))
			}
		case "path/filepath.Join", "path.Join":
			if va, ok := s.varargs(ev.Args[0]); ok {
				return []Outcome{{Res: tCall(ev.Name, types.Typ[types.String], va...)}}, true
			}
		case "encoding/xml.NewDecoder":
			d := x.sym(s, ev.Instr, "decoder", ev.Sig.Results().At(0).Type())
			g := sheet
			if sw.isRels(s, ev.Args[0]) {
				g = rels
			}
			if grams[d] != nil && grams[d] != g {
				t.bad("undecided", "xlsx.Get", sw.r.P.InstrPos(ev.Instr), "the same decoder reads the sheet and its relationships")
			}
			grams[d] = g
			return []Outcome{{Res: d, Assume: []*Term{tNot(tEq(d, tNil(d.T), nil))}, Do: func(s *State) {
				delete(s.ghost, "!at"+g.key)
				delete(s.ghost, "!cur"+g.key)
				for k := range s.ghost {
					if strings.HasPrefix(k, "!zf") {
						delete(s.ghost, k)
					}
				}
			}}}, true
		case "(*archive/zip.File).Open":
			rc := x.sym(s, ev.Instr, "zipfile", ev.Sig.Results().At(0).Type(), ev.Args[0])
			err := x.sym(s, ev.Instr, "ziperr", tErrType)
			s.ghost["!zf"+fmt.Sprint(rc.id)] = ev.Args[0]
			return []Outcome{{Res: tTuple(rc, tNil(tErrType)), Assume: []*Term{tNot(tEq(rc, tNil(rc.T), nil))}},
				{Res: tTuple(tNil(rc.T), err), Assume: []*Term{tNot(tEq(err, tNil(tErrType), nil)), tNot(tEq(err, w.eof(), nil))}}}, true
		}
		if ev.Fn != nil && sw.parsers[ev.Fn] {
			a := ev.Args[0]
			return []Outcome{{Res: tTuple(tCall("ref#0", types.Typ[types.Int], a), tCall("ref#1", types.Typ[types.Int], a))}}, true
		}
		if ev.Fn != nil && (ev.Fn == sw.m.put || ev.Fn == sw.m.set || ev.Fn == sw.m.setURL || ev.Fn == sw.m.resize) {
			op := mk(Term{Op: OCall, S: "sheet." + ev.Fn.Name(), Args: ev.Args[1:]})
			return []Outcome{{Do: func(s *State) {
				var ops []*Term
				if o := s.ghost["!ops"]; o != nil {
					ops = append(ops, o.Args...)
				}
				if len(ops) < 4 {
					ops = append(ops, op)
				}
				s.ghost["!ops"] = tTuple(ops...)
			}}}, true
		}
		return nil, false
	}
	return w, s
}

// isRels: the decoder reads a relationships part.
func (sw *sheetWalk) isRels(s *State, rd *Term) bool {
	has := func(t *Term) bool {
		return t.anySub(func(u *Term) bool {
			v, ok := u.strConst()
			return ok && strings.Contains(v, ".rels")
		})
	}
	var zf *Term
	rd.anySub(func(u *Term) bool {
		if z := s.ghost["!zf"+fmt.Sprint(u.id)]; z != nil {
			zf = z
		}
		return false
	})
	if zf == nil {
		return has(rd)
	}
	if has(zf) {
		return true
	}
	for f := range s.facts.m {
		if f.Op == OEq && f.anySub(func(u *Term) bool { return u == zf }) && has(f) {
			return true
		}
	}
	return false
}

const cPath = "worksheet/sheetData/row/c"

// cellTypes are the ways the value of a cell is written.
var cellTypes = []string{"", "n", "b", "e", "s", "str", "inlineStr"}

// checkCells follows one cell of the sheet, which stands for all of them.
func checkCells(r *Report) {
	p := r.P
	sw := r.xlsxSheets()
	if sw == nil {
		return
	}
	const name = "xlsx.Get"
	const prule = "a cell is stored at its reference, once"
	const vrule = "a cell has the value of its type"
	const frule = "a cell has the number format of its style"
	const trule = "the text of a cell is the text of its value"
	const erule = "a readable sheet is read to its end"
	if r.colRow(sw) {
		r.analyse(name, sw.get, func(x *Exec, t *Report) *State {
			sheet := newGrammar("sheet", "worksheet", "worksheet/sheetData", "worksheet/sheetData/row", cPath, cPath+"/f", cPath+"/v", cPath+"/is",
				cPath+"/is/t", cPath+"/is/r", cPath+"/is/r/rPr", cPath+"/is/r/t", cPath+"/is/rPh", cPath+"/is/rPh/t").leaf(cPath+"/v", cPath+"/f", cPath+"/is/t", cPath+"/is/r/t", cPath+"/is/rPh/t")
			sheet.names = append(sheet.names, "dimension", "mergeCell", "hyperlink")
			rels := newGrammar("rels", "Relationships", "Relationships/Relationship")
			w, s := sw.start(x, t, sheet, rels)
			doc := s.param(0)
			str := types.Typ[types.String]
			R, S := w.rigid("r", str), w.rigid("s", str)
			s.assumeQuiet(tNot(tEq(R, tStr(""), str)))
			s.assumeQuiet(tNot(tEq(S, tStr(""), str)))
			s.assumeQuiet(tNot(tEqInt(tLen(R), tInt(0))))
			s.assumeQuiet(tNot(tEqInt(tLen(S), tInt(0))))
			s.ghost["!rigid"] = tTuple(R, S)
			cv := []xmlVariant{{attrs: []xmlAttr{{name: "r"}, {name: "s"}, {name: "t"}}}}
			var vv, iv []xmlVariant
			for _, ch := range []string{"before", "done"} {
				vv, iv = append(vv, xmlVariant{from: ch}), append(iv, xmlVariant{from: ch})
			}
			types_ := map[string]string{}
			styled := map[string]bool{}
			for _, ty := range cellTypes {
				for _, style := range []bool{true, false} {
					if !style && ty != "s" {
						continue
					}
					v := xmlVariant{tag: "type " + ty, from: "before", end: "done", attrs: []xmlAttr{{"r", R}}}
					if ty == "" {
						v.tag = "no type"
					}
					if style {
						v.attrs = append(v.attrs, xmlAttr{"s", S})
					} else {
						v.tag += ", no style"
					}
					if ty != "" {
						v.attrs = append(v.attrs, xmlAttr{"t", tStr(ty)})
					}
					v.to = v.tag
					types_[v.to] = ty
					styled[v.to] = style
					cv = append(cv, v)
					if ty == "inlineStr" {
						iv = append(iv, xmlVariant{from: v.to})
					} else {
						vv = append(vv, xmlVariant{from: v.to})
					}
				}
			}
			sheet.variants(cPath, cv...).variants(cPath+"/v", vv...).variants(cPath+"/is", iv...)
			sheet.stop = func(ch string) bool { return ch == "done" }
			ls := newLocSum(w)
			var cands map[string]bool
			type failure struct {
				rule, c, pos, msg string
				path              []string
			}
			fails := map[string][]failure{} // by text variable
			ends := map[string]string{}
			w.token = func(s *State, e *xmlEvent, locs []xmlLoc, h *ssa.BasicBlock) {
				ops := s.ghost["!ops"]
				delete(s.ghost, "!ops")
				delete(s.ghost, "!parse")
				if e.g != sheet {
					return
				}
				ls.token(s, e, locs, h)
				ty, chosen := types_[e.ch]
				if !chosen {
					return
				}
				if e.kind != 'e' || e.from != cPath {
					if ops != nil {
						t.bad(prule, name+": "+e.String(), p.blockPos(h), "the sheet is changed before the end of the cell", s.trail.lines(40)...)
					}
					return
				}
				ends[e.String()] = p.blockPos(h)
				here := map[string]bool{}
				for _, l := range locs {
					o := textOf(l.o)
					if o.T != nil && isBasic(o.T, types.IsString) && o != R && o != S {
						if v, ok := o.strConst(); ok && v != "" {
							continue
						}
						here[l.key] = true
						rule, msg := sw.cell(s, doc, R, S, o, ops, ty, styled[e.ch], prule, vrule, frule)
						if msg != "" {
							fails[l.key] = append(fails[l.key], failure{rule, name + ": " + e.String(), p.blockPos(h), msg, s.trail.lines(60)})
						}
					}
				}
				if cands == nil {
					cands = here
				}
				for l := range cands {
					if !here[l] {
						delete(cands, l)
					}
				}
			}
			nRet := 0
			x.H.Return = func(x *Exec, s *State, res []*Term, at ssa.Instruction) {
				e := w.last(s, "sheet")
				err := res[len(res)-1]
				if e == nil {
					return
				}
				nRet++
				t.ok(erule, name+": "+e.String(), p.InstrPos(at))
				if e.kind != 'f' && s.nilnessErr(err) != False {
					t.bad(erule, name+": "+e.String(), p.InstrPos(at), "the sheet can be returned without an error before the end of its document", s.trail.lines(60)...)
				}
				if e.kind == 'f' && s.nilnessErr(err) != True {
					t.bad(erule, name+": "+e.String(), p.InstrPos(at), "an error can be returned at the end of the document", s.trail.lines(60)...)
				}
				if ty, ok := types_[e.ch]; ok && e.kind != 'r' && s.nilnessErr(err) != True {
					if !(ty == "s" && e.kind == 'e' && e.from == cPath && badIndex(s)) {
						t.bad(erule, name+": "+e.String(), p.InstrPos(at), "an error can be returned for a valid cell", s.trail.lines(60)...)
					}
				}
			}
			t.after = append(t.after, func() {
				if len(ends) == 0 || nRet == 0 {
					t.bad(prule, name, p.Pos(sw.get.Pos()), "the end of a cell is never reached")
					return
				}
				if len(cands) == 0 {
					t.bad(trule, name, p.Pos(sw.get.Pos()), "no variable collects the text of a cell")
					return
				}
				ts := textSpec{
					start: func(e *xmlEvent) bool {
						return e.kind == 's' && e.v != nil && types_[e.v.to] != "" || e.v != nil && e.v.to != ""
					},
					in:   func(e *xmlEvent) bool { _, ok := types_[e.ch]; return ok && within(e.to, cPath) },
					end:  func(e *xmlEvent) bool { _, ok := types_[e.ch]; return ok && e.kind == 'e' && e.from == cPath },
					text: map[string]bool{cPath + "/v": true, cPath + "/is/t": true, cPath + "/is/r/t": true}}
				var ks []string
				for l := range cands {
					ks = append(ks, l)
				}
				sort.Strings(ks)
				var best []failure
				found := false
				for _, l := range ks {
					for _, atEnd := range []bool{false, true} {
						f := append([]failure{}, fails[l]...)
						ls.judge(l, ts, atEnd, func(lab, msg, key string) {
							f = append(f, failure{trule, name + ": " + ls.evs[lab].String(), ls.pos[lab], msg, ls.paths[key]})
						})
						if !found || len(f) < len(best) {
							best, found = f, true
						}
					}
				}
				bad := map[string]bool{}
				for _, f := range best {
					t.bad(f.rule, f.c, f.pos, f.msg, f.path...)
					bad[f.rule+f.c] = true
				}
				for c, pos := range ends {
					for _, rule := range []string{prule, vrule, frule} {
						if !bad[rule+name+": "+c] {
							t.ok(rule, name+": "+c, pos)
						}
					}
				}
				for _, lab := range ls.labels() {
					e := ls.evs[lab]
					if c := name + ": " + e.String(); (ts.start(e) || ts.in(e)) && !bad[trule+c] {
						t.ok(trule, c, ls.pos[lab])
					}
				}
			})
			return s
		})
		r.expect(prule, 8)
		r.expect(trule, 60)
	}
}

// badIndex: the facts say that the text parsed last is no valid index.
func badIndex(s *State) bool {
	g := s.ghost["!parse"]
	if g == nil {
		return false
	}
	name := strings.TrimSuffix(g.S, "#0")
	if s.nilness(tCall(name+"#1", tErrType, g.Args...)) == False || s.is(tLt(g, tInt(0))) {
		return true
	}
	for f := range s.facts.m {
		found := false
		f.anySub(func(u *Term) bool {
			if u.Op == OLen && isFieldOf(u.Args[0], "Document") && s.is(tLe(u, g)) {
				found = true
			}
			return found
		})
		if found {
			return true
		}
	}
	return false
}

// docList is the element of a list of the document a value was read from.
func docList(s *State, v, doc *Term, elem func(types.Type) bool) (list, idx *Term) {
	for v.Op == OConv {
		v = v.Args[0]
	}
	b, i, ok := elemOf(v)
	if !ok || b.T == nil {
		return nil, nil
	}
	sl, ok := under(b.T).(*types.Slice)
	if !ok || !elem(sl.Elem()) || !b.anySub(func(u *Term) bool { return u == doc }) && !isFieldOf(b, "Document") {
		return nil, nil
	}
	return b, i
}

// isFieldOf: the value of a field of an object of the type.
func isFieldOf(t *Term, typ string) bool {
	return t.Op == OInit && t.Args[0].Op == OFieldAddr && t.Args[0].Args[0].T != nil && isNamed(t.Args[0].Args[0].T, xlsxPath, typ)
}

// cell judges what is done at the end of a cell, given the text of its value.
func (sw *sheetWalk) cell(s *State, doc, R, S, o, ops *Term, ty string, styled bool, prule, vrule, frule string) (rule, msg string) {
	str := types.Typ[types.String]
	empty := tEq(o, tStr(""), str)
	col, row := tCall(fmt.Sprintf("ref#%d", sw.colRow[0]), types.Typ[types.Int], R), tCall(fmt.Sprintf("ref#%d", sw.colRow[1]), types.Typ[types.Int], R)
	isEmpty := s.is(empty) || s.is(tEqInt(tLen(o), tInt(0)))
	invalid := s.is(tLt(col, tInt(0))) || s.is(tLt(row, tInt(0)))
	if ops == nil {
		if !isEmpty && !invalid {
			return prule, "nothing is stored although the cell has a value and a valid reference"
		}
		return "", ""
	}
	if isEmpty || invalid {
		return prule, "something is stored although the cell has no value or no valid reference"
	}
	if len(ops.Args) != 1 || ops.Args[0].S != "sheet.Put" || len(ops.Args[0].Args) != 4 {
		return prule, fmt.Sprintf("%v instead of one Put", ops)
	}
	a := ops.Args[0].Args
	if a[0] != row || a[1] != col {
		return prule, fmt.Sprintf("stored at row %v, column %v", a[0], a[1])
	}
	// number format
	isS := func(u *Term) bool {
		for u.Op == OConv {
			u = u.Args[0]
		}
		if n, ok := u.intConst(); ok {
			return !styled && n == 0
		}
		if u.Op != OCall || u.S != "strconv.ParseInt#0" && u.S != "strconv.Atoi#0" && u.S != "strconv.ParseUint#0" {
			return false
		}
		if len(u.Args) == 3 {
			base, ok1 := u.Args[1].intConst()
			bits, ok2 := u.Args[2].intConst()
			if !ok1 || !ok2 || base != 10 || bits != 0 && bits < 16 || bits == 16 && u.S == "strconv.ParseInt#0" {
				return false
			}
		}
		if v, ok := u.Args[0].strConst(); ok && !styled {
			return v == ""
		}
		return styled && u.Args[0] == S
	}
	ints := func(t types.Type) bool { return isInt(t) }
	if l, i := docList(s, a[3], doc, ints); l != nil {
		if !isS(i) {
			return frule, fmt.Sprintf("the format of style %v is used", i)
		}
	} else if n, ok := a[3].intConst(); ok && n == 0 {
		// only if there is no such style
		none := false
		for f := range s.facts.m {
			f.anySub(func(u *Term) bool {
				if isS(u) && s.nilness(tCall(strings.TrimSuffix(u.S, "#0")+"#1", tErrType, u.Args...)) == False {
					none = true
				}
				if u.Op != OLen || !isFieldOf(u.Args[0], "Document") || !ints(under(u.Args[0].T).(*types.Slice).Elem()) {
					return false
				}
				f.anySub(func(q *Term) bool {
					none = none || isS(q) && !q.isConst() && (s.is(tLe(u, q)) || s.is(tLt(q, tInt(0))))
					return false
				})
				none = none || !styled && s.is(tLe(u, tInt(0)))
				return false
			})
		}
		if !none {
			return frule, "no number format is used although the cell has a style"
		}
	} else {
		return frule, fmt.Sprintf("the number format %v is used", a[3])
	}
	// value
	v := a[2]
	if v.Op != OIface {
		return vrule, fmt.Sprintf("the value %v is stored", v)
	}
	u := v.Args[0]
	isO := func(q *Term) bool { return q == o }
	isStr := isBasic(v.T, types.IsString)
	switch ty {
	case "", "n":
		if isStr && u == o {
			for f := range s.facts.m {
				if f.Op == ONot && f.anySub(func(q *Term) bool { return q.Op == OCall && q.S == "strconv.ParseFloat#1" && q.Args[0] == o }) {
					return "", ""
				}
			}
			return vrule, "a number is stored as text"
		}
		msg, e := (*coll)(nil).parsed(u, types.Float64, isO)
		if msg != "" {
			return vrule, "the number is " + msg
		}
		if !isBasic(v.T, types.IsFloat) {
			return vrule, fmt.Sprintf("the number is stored as %v", v.T)
		}
		if s.nilness(e) != True {
			return vrule, "the number is stored although it could not be parsed"
		}
	case "b":
		if !isBasic(v.T, types.IsBoolean) {
			return vrule, fmt.Sprintf("the boolean is stored as %v", v.T)
		}
		if !sw.isOne(s, u, o) {
			return vrule, fmt.Sprintf("the boolean stored is %v", u)
		}
	case "s":
		l, i := docList(s, u, doc, func(t types.Type) bool { return isBasic(t, types.IsString) })
		if !isStr || l == nil {
			return vrule, fmt.Sprintf("the shared string stored is %v", v)
		}
		msg, e := (*coll)(nil).parsed(i, types.Int64, isO)
		if msg != "" {
			return vrule, "the index of the shared string is " + msg
		}
		if s.nilness(e) != True {
			return vrule, "a shared string is stored although its index could not be parsed"
		}
	default:
		if !isStr || u != o {
			return vrule, fmt.Sprintf("%v is stored", v)
		}
	}
	return "", ""
}

// isOne: the boolean tells whether the text (which is not empty) is 1.
func (sw *sheetWalk) isOne(s *State, u, o *Term) bool {
	one := []*Term{tEq(o, tStr("1"), types.Typ[types.String])}
	first := tBytes(o, tInt(0), 1)
	one = append(one, tEqInt(first, tInt('1')))
	for _, c := range one {
		if u == c {
			return true
		}
		if v, ok := u.boolConst(); ok {
			if v && s.is(c) || !v && s.isNot(c) {
				return true
			}
		}
	}
	return false
}

// lettersLoop is a loop which reads the letters of a reference as a number.
type lettersLoop struct {
	ok    bool
	start *Term
	d     int64
	str   *Term
	idx   *Term // of the letter
	seen  map[*Term]bool
	steps int
	why   string
}

// charOf: the character of a string a loop looks at, and what is added to it.
func charOf(c *Term) (str, idx *Term, k int64) {
	for {
		if c.Op == OConv {
			c = c.Args[0]
			continue
		}
		if c.Op == OBin && (c.S == "-" || c.S == "+") && len(c.Args) == 2 {
			if n, ok := c.Args[1].intConst(); ok {
				if c.S == "-" {
					n = -n
				}
				c, k = c.Args[0], k+n
				continue
			}
		}
		if l := toLin(c); len(l.m) == 1 && c.Op == OLin {
			for u, m := range l.m {
				if m == 1 {
					c, k = u, k+l.k
				}
			}
			if c.Op != OLin {
				continue
			}
		}
		break
	}
	if c.Op == OSym && c.Site != nil && c.Site.What == "next.val" && len(c.Site.Args) == 1 {
		it := c.Site.Args[0]
		if it.Site != nil && len(it.Site.Args) == 1 {
			return it.Site.Args[0], nil, k
		}
	}
	if c.Op == OBytes {
		return c.Args[0], c.Args[1], k
	}
	return nil, nil, 0
}

// colRow judges the functions which read cell references, and finds out
// which of their results is which.
func (r *Report) colRow(sw *sheetWalk) bool {
	const rule = "a reference names its column and row"
	p := r.P
	good := true
	col := -1
	var fns []*ssa.Function
	for f := range sw.parsers {
		fns = append(fns, f)
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
	for _, f := range fns {
		name := shortName(f)
		r.analyse(name, f, func(x *Exec, t *Report) *State {
			s := x.Start(f)
			R := s.param(0)
			x.H.MaxConst = -1
			loops := map[*ssa.Phi]*lettersLoop{}
			syms := map[*Term]*ssa.Phi{}
			heads := map[*ssa.BasicBlock]bool{}
			x.H.BackEdge = func(x *Exec, s *State, h *ssa.BasicBlock, in func(*Term) bool, old, nw map[*ssa.Phi]*Term) {
				for q, n := range nw {
					o := old[q]
					if !isInt(q.Type()) || o == nil || inductionStep(q, x.loops(h.Parent()).byHeader[h]) != 0 {
						continue
					}
					l := loops[q]
					if l == nil {
						l = &lettersLoop{ok: true, start: o}
						loops[q] = l
					}
					l.steps++
					heads[h] = true
					rest := toLin(tSub(n, tMulK(o, 26)))
					var str, idx *Term
					for c, k := range rest.m {
						if k != 1 || len(rest.m) != 1 {
							break
						}
						var extra int64
						str, idx, extra = charOf(c)
						rest.k += extra
					}
					if str == nil {
						l.ok, l.why = false, fmt.Sprintf("%v becomes %v", o, n)
						continue
					}
					if idx != nil {
						// an index which goes by ones from the first letter
						one := false
						for q2, n2 := range nw {
							if o2 := old[q2]; o2 != nil && o2 == idx && n2 == tAdd(o2, tInt(1)) && (o2 == tInt(0) || o2.Op == OSym) {
								one = true
								if o2.Op == OSym {
									l.idx = o2
								}
							}
						}
						if !one {
							l.ok, l.why = false, "the letters are not read one after the other"
						}
					}
					if l.str == nil {
						l.str, l.d = str, rest.k
					}
					if l.str != str || l.d != rest.k {
						l.ok, l.why = false, "the letters are not always read the same way"
					}
					if l.seen == nil {
						l.seen = map[*Term]bool{}
					}
					l.seen[n] = true
					if o.Op != OSym {
						if l.start != o && !l.seen[o] {
							l.ok, l.why = false, "different values at the start"
						}
					} else {
						syms[o] = q
					}
				}
				s.ghost["!it"] = tBool(true)
			}
			x.H.Head = func(x *Exec, s *State, h *ssa.BasicBlock) {
				if s.ghost["!head"] == nil {
					s.ghost["!head"] = tInt(int64(x.instrID(h.Instrs[0])))
				}
				// what is known of the number stays known
				var vs []*Term
				for _, q := range headerPhis(h) {
					if v := s.fr.regs[q]; v != nil && isInt(q.Type()) {
						vs = append(vs, v)
					}
				}
				s.ghost["!number"] = tTuple(vs...)
			}
			type ret struct {
				res  []*Term
				s    *State
				at   ssa.Instruction
				path []string
			}
			var rets []ret
			x.H.Return = func(x *Exec, s *State, res []*Term, at ssa.Instruction) {
				rets = append(rets, ret{res, s.clone(), at, s.trail.lines(30)})
			}
			t.after = append(t.after, func() {
				headIDs := map[int64]bool{}
				for h := range heads {
					headIDs[int64(x.instrID(h.Instrs[0]))] = true
				}
				// split of the reference: letters before the first digit
				digits := func(i *Term) bool {
					if i.Op != OCall || i.S != "strings.IndexAny" || i.Args[0] != R {
						return false
					}
					v, ok := i.Args[1].strConst()
					for _, d := range "0123456789" {
						ok = ok && strings.ContainsRune(v, d)
					}
					for _, d := range v {
						ok = ok && (d >= '0' && d <= '9' || d == '-' || d == '+' || d == '$')
					}
					return ok
				}
				// the letters of the reference
				letters := func(str *Term) bool {
					if str == nil {
						return false
					}
					b, off := sliceParts(str)
					return b == R && off == tInt(0) && digits(tLen(str))
				}
				// all of the letters, by their index
				byIndex := func(s *State, l *lettersLoop) bool {
					if l.idx == nil || l.str != R {
						return false
					}
					for f := range s.facts.m {
						if f.anySub(func(u *Term) bool { return digits(u) && (s.is(tLe(u, l.idx))) }) {
							return true
						}
					}
					return false
				}
				// the rest of it
				number := func(u *Term) bool {
					if u.Op != OCall || u.S != "strconv.ParseInt#0" && u.S != "strconv.Atoi#0" && u.S != "strconv.ParseUint#0" {
						return false
					}
					a := u.Args[0]
					if b, off := sliceParts(a); b != R || !digits(off) || tAdd(off, tLen(a)) != tLen(R) {
						return false
					}
					if len(u.Args) == 3 {
						b, ok := u.Args[1].intConst()
						n, ok2 := u.Args[2].intConst()
						return ok && ok2 && b == 10 && (n == 0 || n >= 32)
					}
					return true
				}
				linOne := func(v *Term) (*Term, int64) {
					l := toLin(v)
					for u, k := range l.m {
						if k == 1 && len(l.m) == 1 {
							for u.Op == OConv {
								u = u.Args[0]
							}
							return u, l.k
						}
					}
					return nil, 0
				}
				isCol := func(s *State, v *Term) (bool, string) {
					u, k := linOne(v)
					if u == nil || syms[u] == nil {
						return false, ""
					}
					l := loops[syms[u]]
					switch {
					case !l.ok:
						return false, l.why
					case l.start != tInt(-k-1) || l.d != 25*(k+1)-64:
						return false, fmt.Sprintf("the letters A, B, ... do not count from 1 (start %v, each letter adds its code %+d)", l.start, l.d)
					case !letters(l.str) && !byIndex(s, l):
						return false, fmt.Sprintf("the letters are taken from %v", l.str)
					}
					return true, ""
				}
				isRow := func(v *Term) (bool, string) {
					u, k := linOne(v)
					if u == nil || !number(u) {
						return false, ""
					}
					if k != -1 {
						return false, fmt.Sprintf("row 1 has index %d", 1+k)
					}
					return true, ""
				}
				rejects := func(s *State) bool {
					if s.is(tLt(tLen(R), tInt(2))) {
						return true
					}
					for f := range s.facts.m {
						found := false
						f.anySub(func(u *Term) bool {
							if found {
								return true
							}
							switch {
							case digits(u) && s.is(tLe(u, tInt(0))):
								found = true
							case number(u) && (s.is(tLe(u, tInt(0))) || s.is(tLe(tInt(1048577), u)) || s.nilness(tCall(strings.TrimSuffix(u.S, "#0")+"#1", tErrType, u.Args...)) == False):
								found = true
							case syms[u] != nil:
								l := loops[syms[u]]
								n, ok := l.start.intConst()
								// phi is the number of the column plus the start
								if ok && (s.is(tLe(u, tInt(n))) || s.is(tLe(tInt(16385+n), u))) {
									found = true
								}
							}
							return found
						})
						if found {
							return true
						}
					}
					return false
				}
				// a reference with numbers for both
				r1c1 := func(s *State) bool {
					for f := range s.facts.m {
						found := false
						f.anySub(func(u *Term) bool {
							if u.Op == OCall && strings.HasPrefix(u.S, "strings.") && len(u.Args) == 2 && (u.Args[1] == tInt('C') || u.Args[1] == tStr("C")) &&
								(s.is(tLe(tInt(0), u)) || s.is(u) || isInt(u.T) && s.isNot(tEqInt(u, tInt(-1)))) {
								found = true
							}
							return found
						})
						if found {
							return true
						}
					}
					return false
				}
				n := 0
				for _, q := range rets {
					if r1c1(q.s) {
						continue
					}
					if h := q.s.ghost["!head"]; h != nil && q.s.ghost["!it"] == nil {
						if id, _ := h.intConst(); headIDs[id] {
							// there is at least one letter
							continue
						}
					}
					a, okA := q.res[0].intConst()
					b, okB := q.res[1].intConst()
					if okA && okB {
						if a >= 0 || b >= 0 {
							t.bad(rule, name, p.InstrPos(q.at), fmt.Sprintf("column %d and row %d are returned", a, b), q.path...)
							good = false
						} else if !rejects(q.s) {
							t.bad(rule, name, p.InstrPos(q.at), "a valid reference is not accepted", q.path...)
							good = false
						} else {
							t.ok(rule, name+" (no reference)", p.InstrPos(q.at))
						}
						continue
					}
					ci := -1
					var why [2]string
					for i := range q.res {
						ok, w := isCol(q.s, q.res[i])
						if why[0] == "" {
							why[0] = w
						}
						if ok {
							ci = i
						}
					}
					if ci < 0 {
						if why[0] == "" {
							why[0] = fmt.Sprintf("no result is the number written by the letters: %v", q.res)
						}
						t.bad(rule, name, p.InstrPos(q.at), why[0], q.path...)
						good = false
						continue
					}
					if ok, w := isRow(q.res[1-ci]); !ok {
						if w == "" {
							w = fmt.Sprintf("the row is %v", q.res[1-ci])
						}
						t.bad(rule, name, p.InstrPos(q.at), w, q.path...)
						good = false
						continue
					}
					if col >= 0 && col != ci {
						t.bad(rule, name, p.InstrPos(q.at), "the column is not always the same result", q.path...)
						good = false
						continue
					}
					col = ci
					n++
					t.ok(rule, name, p.InstrPos(q.at))
				}
				if n == 0 && good {
					t.bad(rule, name, p.Pos(f.Pos()), "no reference is ever accepted")
					good = false
				}
			})
			return s
		})
	}
	if col < 0 {
		return false
	}
	sw.colRow = [2]int{col, 1 - col}
	return good
}

func init() {
	register("P36", "path-sensitive abstract interpretation of the token loop in product with the document grammar",
		"Get is followed together with the grammar of a worksheet, in which one cell of each type, with and without a style, is chosen; its reference and style are unknown constants, so it stands for every cell, after and before any others. At its end exactly one Put has to be recorded, with the row and column of the reference, the format of the style and the value of the type, computed from the variable which collects the text of the value; that variable is judged token by token. The functions which read references are judged by the recurrence of their loop over the letters and the terms they return.", checkCells)
}
