package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P13", "path-sensitive abstract interpretation with inductive scan rules and, for the workbook part, the document grammar",
		"List, ListHidden and Get are followed on all paths. The lists have to grow by exactly the name of every sheet that is visible (or hidden), in order; the contents that are read have to be those the matching sheet refers to, the search has to go on past a sheet exactly if its name differs, and it fails only after the last sheet or if there are no contents. For the workbook part of an Office Open XML file, every sheet element has to add exactly one entry made of its attributes.", checkSheetNames)
}

// book is a document with named sheets.
type book struct {
	label, pkg, typ string
	get             *ssa.Function
	fSheets         int        // of the document
	elem            types.Type // a sheet
	fName           int
	fHidden         int          // -1: sheets can't be hidden
	paths           map[int]bool // fields which name the part of a sheet
}

func (r *Report) books() (res []*book) {
	p := r.P
	for _, d := range [][2]string{{xlsPath, "WorkBook"}, {xlsxPath, "Document"}} {
		b := &book{label: d[0][strings.LastIndexByte(d[0], '/')+1:], pkg: d[0], typ: d[1], fSheets: -1, fName: -1, fHidden: -1, get: p.PMethod(d[0], d[1], "Get")}
		list := p.PMethod(d[0], d[1], "List")
		if !r.need(b.label+" Get", b.get) || !r.need(b.label+" List", list) {
			return nil
		}
		wt := p.Type(d[0], d[1])
		st, ok := under(wt).(*types.Struct)
		if !ok {
			r.bad("anchor", b.label+" sheets", "?", "the document has no fields")
			return nil
		}
		// the list of sheets is what List goes through
		read := map[int]bool{}
		fieldsRead := func(f *ssa.Function, t types.Type, m map[int]bool) {
			p.reachesFn(f, func(f *ssa.Function) bool {
				for _, bl := range f.Blocks {
					for _, in := range bl.Instrs {
						switch a := in.(type) {
						case *ssa.FieldAddr:
							if types.Identical(pointee0(a.X.Type()), t) {
								m[a.Field] = true
							}
						case *ssa.Field:
							if types.Identical(a.X.Type(), t) {
								m[a.Field] = true
							}
						}
					}
				}
				return false
			})
		}
		fieldsRead(list, wt, read)
		for i := 0; i < st.NumFields(); i++ {
			sl, ok := under(st.Field(i).Type()).(*types.Slice)
			if !ok || !read[i] {
				continue
			}
			e := sl.Elem()
			if pt, ok := under(e).(*types.Pointer); ok {
				e = pt.Elem()
			}
			if _, ok := under(e).(*types.Struct); ok && b.fSheets < 0 {
				b.fSheets, b.elem = i, e
			}
		}
		if b.fSheets < 0 {
			r.bad("anchor", b.label+" sheets", "?", "List does not go through a list of sheets")
			return nil
		}
		est := under(b.elem).(*types.Struct)
		read = map[int]bool{}
		fieldsRead(list, b.elem, read)
		for i := 0; i < est.NumFields(); i++ {
			if isBasic(est.Field(i).Type(), types.IsString) && read[i] && (b.fName < 0 || strings.EqualFold(est.Field(i).Name(), "name")) {
				b.fName = i
			}
		}
		if b.fName < 0 {
			r.bad("anchor", b.label+" sheets", "?", "List does not read the names of the sheets")
			return nil
		}
		res = append(res, b)
	}
	return
}

func (b *book) sheets(s *State, doc *Term) *Term { return s.load(fieldAddrOf(doc, b.fSheets)) }

// at: a sheet of the list was read.
func (b *book) at(x *Exec, s *State, sheets, addr *Term) {
	if addr.Op == OFieldAddr {
		addr = addr.Args[0]
	}
	if addr.Op != OIndexAddr || !eqMod(addr.Args[0], sheets) {
		return
	}
	e := addr
	if _, ok := under(pointee(addr)).(*types.Pointer); ok {
		e = s.load(addr)
	}
	s.ghost["!cur"] = tTuple(addr.Args[1], e, tInt(int64(s.fr.ctx.id)))
}

func (b *book) name(s *State, e *Term) *Term { return s.load(fieldAddrOf(e, b.fName)) }

// visible: the two low bits of the state are zero.
func (b *book) visible(s *State, e *Term) Tri {
	v := bitsOf(s.load(fieldAddrOf(e, b.fHidden)))
	for i := 2; i < len(v); i++ {
		v[i] = bit{}
	}
	q := s.bitFacts()
	vis, hid := q.canBe(v, 0), q.canBe(v, 1) || q.canBe(v, 2) || q.canBe(v, 3)
	switch {
	case vis && !hid:
		return True
	case hid && !vis:
		return False
	}
	return Unknown
}

func checkSheetNames(r *Report) {
	p := r.P
	books := r.books()
	if books == nil {
		return
	}
	if l := r.xlsLoader(); l != nil {
		for _, b := range books {
			if b.pkg == xlsPath {
				b.fHidden = l.fHidden
			}
		}
	}
	for _, b := range books {
		r.listNames(b, "List", false)
		if b.fHidden >= 0 {
			if p.PMethod(b.pkg, b.typ, "ListHidden") != nil {
				r.listNames(b, "ListHidden", true)
			}
		}
		r.getByName(b)
	}
	r.workbookSheets(books[1])
	r.expect("the names listed are those of the sheets", 3)
}

func isStrings(t types.Type) bool {
	sl, ok := under(t).(*types.Slice)
	return ok && isBasic(sl.Elem(), types.IsString)
}

func (r *Report) listNames(b *book, method string, hidden bool) {
	p := r.P
	fn := p.PMethod(b.pkg, b.typ, method)
	name := b.label + "." + method
	if !r.need(name, fn) {
		return
	}
	const rule = "the names listed are those of the sheets"
	r.analyse(name, fn, func(x *Exec, t *Report) *State {
		s0 := x.Start(fn)
		x.KeepLists = true
		s0.assumeQuiet(tNonNil(s0, s0.param(0)))
		doc := s0.param(0)
		sheets := b.sheets(s0, doc)
		sc := newScan(t, "every sheet is considered", name)
		x.H.Load = func(x *Exec, s *State, addr *Term, at ssa.Instruction) { b.at(x, s, sheets, addr) }
		x.H.Store = func(x *Exec, s *State, addr, val *Term, at ssa.Instruction) {
			if ty := pointee(addr); ty != nil && isStrings(ty) {
				noteStore(s, addr, val)
			}
			if addr.Op == OIndexAddr && isBasic(pointee(addr), types.IsString) && !isVarargs(rootOf(addr)) {
				if rootOf(addr).Op != OObj {
					t.bad(rule, name, x.P.InstrPos(at), "a list which was not made by the call is written to", s.trail.lines(8)...)
					return
				}
				bs, off := sliceParts(addr.Args[0])
				s.ghost["!out"] = tTuple(tAdd(addr.Args[1], off), val, bs)
			}
		}
		type iter struct {
			add, chg map[string]bool
			wanted   bool
			pos      string
			path     []string
		}
		var iters []iter
		addrs := map[string]*Term{}
		stored := map[*Term]bool{}
		x.H.BackEdge = func(x *Exec, s *State, h *ssa.BasicBlock, in func(*Term) bool, old, nw map[*ssa.Phi]*Term) {
			pos := x.P.blockPos(h)
			if g := s.ghost["!cur"]; g != nil {
				e := g.Args[1]
				nm := b.name(s, e)
				wanted := !hidden
				if b.fHidden >= 0 {
					vis := b.visible(s, e)
					if g := s.ghost["!vis"]; g != nil && g.Args[0] == e {
						vis = tri(g.Args[1] == tInt(1))
					}
					if vis == Unknown {
						t.bad(rule, name, pos, "whether a sheet is listed does not depend on its hidden state", s.trail.lines(10)...)
						return
					}
					wanted = (vis == True) != hidden
				}
				it := iter{map[string]bool{}, map[string]bool{}, wanted, pos, s.trail.lines(10)}
				for _, l := range changes(x, s, isStrings, old, nw) {
					it.chg[l.key] = true
					if l.n.Op == OAppend && len(l.n.Args) == 2 && l.n.Args[0] == l.o && l.n.Args[1] == nm {
						it.add[l.key] = true
					}
				}
				for k, c := range s.ghost {
					if strings.HasPrefix(k, "!chg") {
						addrs[fmt.Sprintf("m%d", c.Args[0].id)] = c.Args[0]
					}
				}
				if o := s.ghost["!out"]; o != nil {
					k := fmt.Sprintf("o%d", o.Args[2].id)
					it.chg[k] = true
					if b.fHidden < 0 && o.Args[1] == nm && tSub(o.Args[0], g.Args[0]) == tInt(0) {
						it.add[k] = true
						stored[o.Args[2]] = true
					}
					delete(s.ghost, "!out")
				}
				forget(s)
				iters = append(iters, it)
				sc.visit(x, s, sheets, g.Args[0], h.Instrs[0])
				delete(s.ghost, "!cur")
				delete(s.ghost, "!vis")
			}
			sc.backEdge(x, s, h, old, nw)
		}
		// what is known of the sheet survives the joining of paths
		x.H.JoinAt = func(s *State, blk *ssa.BasicBlock) (string, int, bool) {
			if g := s.ghost["!cur"]; g != nil && b.fHidden >= 0 && s.ghost["!vis"] == nil {
				switch b.visible(s, g.Args[1]) {
				case True:
					s.ghost["!vis"] = tTuple(g.Args[1], tInt(1))
				case False:
					s.ghost["!vis"] = tTuple(g.Args[1], tInt(0))
				}
			}
			return "", 0, false
		}
		x.H.Edge = func(x *Exec, s *State, from, to *ssa.BasicBlock) {
			sc.edge(x, s, from, to)
			if l := x.loops(s.fr.ctx.Fn).byHeader[from]; l != nil && !l.body[to] {
				for _, in := range from.Instrs {
					ph, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					if v := s.fr.regs[ph]; v != nil && isStrings(ph.Type()) {
						s.ghost[fmt.Sprintf("!fin%d", x.valueID(ph))] = v
					}
				}
			}
		}
		x.H.Return = func(x *Exec, s *State, res []*Term, at ssa.Instruction) {
			pos := x.P.InstrPos(at)
			bad := func(msg string) { t.bad(rule, name, pos, msg, s.trail.lines(10)...) }
			t.ok(rule, name+" (result)", pos)
			if s.nilnessErr(res[len(res)-1]) != True {
				bad("an error can be returned")
			}
			if !eqMod(b.sheets(s, doc), sheets) {
				bad("the list of sheets is changed")
			}
			if !sc.complete(s, sheets) {
				bad("returns before every sheet was considered")
			}
			v := res[0]
			key := ""
			for k, g := range s.ghost {
				if strings.HasPrefix(k, "!fin") && g == v {
					key = "p" + k[4:]
				}
			}
			for k, a := range addrs {
				if s.load(a) == v {
					key = k
				}
			}
			if bs, off := sliceParts(v); stored[bs] && off == tInt(0) && s.is(tEqInt(tLen(v), tLen(sheets))) {
				key = fmt.Sprintf("o%d", bs.id)
			} else if stored[bs] && s.is(tLe(tLen(sheets), tInt(0))) {
				return
			}
			if key == "" && (s.is(tEqInt(tLen(v), tInt(0))) || v.isNil()) {
				if !s.is(tLe(tLen(sheets), tInt(0))) {
					bad("an empty list is returned")
				}
				return
			}
			if key != "" && s.is(tLe(tLen(sheets), tInt(0))) && !s.is(tEqInt(tLen(v), tInt(0))) {
				bad("the list is not empty to begin with")
			}
			if key == "" {
				bad("the list returned is " + v.String() + ", which is not the list of names")
				return
			}
			t.after = append(t.after, func() {
				for _, it := range iters {
					switch {
					case it.wanted && !it.add[key]:
						t.bad(rule, name, it.pos, "a sheet is not listed once, by its name", it.path...)
					case !it.wanted && it.chg[key]:
						t.bad(rule, name, it.pos, "a sheet is listed which should not be", it.path...)
					}
				}
			})
		}
		x.H.Panic = func(x *Exec, s *State, at ssa.Instruction) {
			t.bad(rule, name, x.P.InstrPos(at), "listing the sheets panics", s.trail.lines(10)...)
		}
		t.after = append(t.after, func() { sc.done(x) })
		return s0
	})
}

// partName: the name the file inside of the archive is known to have.
func partName(s *State, zf *Term) *Term {
	var res *Term
	for f := range s.facts.m {
		if f.Op != OEq {
			continue
		}
		for i := 0; i < 2; i++ {
			a := f.Args[i]
			if a.Op != OInit || a.Args[0].Op != OFieldAddr || !isBasic(a.T, types.IsString) {
				continue
			}
			b := a.Args[0].Args[0]
			if b == zf || b.Op == OFieldAddr && b.Args[0] == zf {
				if fieldName(a.Args[0]) == "Name" && (res == nil || f.Args[1-i].id < res.id) {
					res = f.Args[1-i]
				}
			}
		}
	}
	return res
}

func (r *Report) getByName(b *book) {
	p := r.P
	name := b.label + ".Get"
	const rule = "a sheet is found by its name"
	const crule = "the contents are those of the sheet found"
	fn := b.get
	var m *xlsModel
	var l *loader
	if b.pkg == xlsPath {
		if m = r.xlsModel(); m == nil {
			return
		}
		if l = r.xlsLoader(); l == nil {
			return
		}
	}
	sheetT := p.Type(cxlPath, "Sheet")
	coll := r.collection(types.NewPointer(sheetT))
	fPath, fCache, fErr := map[int]bool{}, -1, -1
	if est := under(b.elem).(*types.Struct); m == nil {
		for i := 0; i < est.NumFields(); i++ {
			ft := est.Field(i).Type()
			if isBasic(ft, types.IsString) && i != b.fName {
				fPath[i] = true
			}
			if pt, ok := under(ft).(*types.Pointer); ok && types.Identical(pt.Elem(), sheetT) {
				fCache = i
			}
			if types.Identical(ft, tErrType) {
				fErr = i
			}
		}
	}
	used := map[int]bool{} // fields the part was found by
	uses := 0
	r.analyse(name+" (names)", fn, func(x *Exec, t *Report) *State {
		s0 := x.Start(fn)
		x.KeepLists = true
		s0.assumeQuiet(tNonNil(s0, s0.param(0)))
		doc, sheets, want := s0.param(0), b.sheets(s0, s0.param(0)), s0.param(1)
		sc := newScan(t, "every sheet is considered", name)
		str := types.Typ[types.String]
		eof := mk(Term{Op: OCall, S: "error:io.EOF", T: tErrType})
		x.H.Global = func(x *Exec, s *State, g *ssa.Global) *Term {
			if g.String() == "io.EOF" {
				return eof
			}
			return nil
		}
		matched := func(s *State) *Term {
			g := s.ghost["!cur"]
			if g == nil || !s.is(tEq(b.name(s, g.Args[1]), want, str)) {
				return nil
			}
			return g.Args[1]
		}
		x.H.Load = func(x *Exec, s *State, addr *Term, at ssa.Instruction) {
			b.at(x, s, sheets, addr)
			if m == nil || addr.Op != OIndexAddr {
				return
			}
			if ty := pointee(addr); ty == nil || !l.isRecs(ty) {
				return
			}
			uses++
			t.ok(crule, name, x.P.InstrPos(at))
			e := matched(s)
			if e == nil {
				t.bad(crule, name, x.P.InstrPos(at), "contents are read although the name of the sheet is not the one asked for", s.trail.lines(10)...)
			} else {
				pos := s.load(fieldAddrOf(e, l.fStart))
				k := addr.Args[1]
				for k.Op == OConv {
					k = k.Args[0]
				}
				if !eqMod(addr.Args[0], s.load(fieldAddrOf(doc, m.fSubs))) || k.Op != OMapGet || k.Args[0] != s.load(fieldAddrOf(doc, m.fPos)) || !s.bitFacts().same(bitsOf(k.Args[1]), bitsOf(pos)) {
					t.bad(crule, name, x.P.InstrPos(at), "the contents are read from block "+addr.Args[1].String()+", which is not that at the position of the sheet", s.trail.lines(10)...)
				}
			}
			s.dead = true
		}
		x.H.Call = func(x *Exec, s *State, ev *CallEvent) ([]Outcome, bool) {
			if ev.Name == "path/filepath.Join" || ev.Name == "path.Join" {
				if va, ok := s.varargs(ev.Args[0]); ok {
					return []Outcome{{Res: tCall(ev.Name, str, va...)}}, true
				}
			}
			if ev.Name != "(*archive/zip.File).Open" {
				return nil, false
			}
			pos := x.P.InstrPos(ev.Instr)
			e := matched(s)
			nm := partName(s, ev.Args[0])
			if e == nil || nm == nil {
				t.bad(crule, name, pos, "a part is read although the name of the sheet is not the one asked for, or whatever the name of the part is", s.trail.lines(10)...)
				return []Outcome{{Stop: true}}, true
			}
			if nm.anySub(func(u *Term) bool { v, ok := u.strConst(); return ok && strings.Contains(v, ".rels") }) {
				return []Outcome{{Stop: true}}, true
			}
			uses++
			t.ok(crule, name, pos)
			ok := false
			for i := range fPath {
				if s.load(fieldAddrOf(e, i)) == nm {
					ok = true
					used[i] = true
				}
			}
			if !ok {
				t.bad(crule, name, pos, "the part "+nm.String()+" is read, which is not that of the sheet", s.trail.lines(10)...)
			}
			return []Outcome{{Stop: true}}, true
		}
		x.H.BackEdge = func(x *Exec, s *State, h *ssa.BasicBlock, in func(*Term) bool, old, nw map[*ssa.Phi]*Term) {
			g := s.ghost["!cur"]
			mine := false
			if g != nil && g.Args[2] == tInt(int64(s.fr.ctx.id)) {
				for ph, o := range old {
					if n := nw[ph]; isInt(ph.Type()) && n != nil && o != nil {
						_, ok := tSub(g.Args[0], o).intConst()
						d, ok2 := tSub(n, o).intConst()
						mine = mine || ok && ok2 && d != 0
					}
				}
			}
			if mine {
				if !s.isNot(tEq(b.name(s, g.Args[1]), want, str)) {
					t.bad(rule, name, x.P.blockPos(h), "the search goes on past a sheet which may have the name", s.trail.lines(10)...)
				}
				sc.visit(x, s, sheets, g.Args[0], h.Instrs[0])
				delete(s.ghost, "!cur")
			}
			sc.backEdge(x, s, h, old, nw)
		}
		x.H.Edge = sc.edge
		x.H.Return = func(x *Exec, s *State, res []*Term, at ssa.Instruction) {
			pos := x.P.InstrPos(at)
			bad := func(rule, msg string) { t.bad(rule, name, pos, msg, s.trail.lines(10)...) }
			t.ok(rule, name, pos)
			res0, err := res[0], res[1]
			e := matched(s)
			if s.nilnessErr(err) != True {
				// an error may be returned
				u := s.clone()
				if u.assume(tNot(tEq(err, tNil(tErrType), nil))) {
					switch {
					case u.nilness(res0) != True:
						bad(rule, "a sheet can be returned together with an error")
					case e == nil && !sc.complete(u, sheets):
						bad(rule, "the search ends before the last sheet")
					case e == nil:
					case m != nil:
						if !noBlock(u, m, u.load(fieldAddrOf(e, l.fStart))) {
							bad(rule, "an error is returned for a sheet with the name")
						}
					case err == eof || err.Op == OInit && err.Args[0].Op == OFieldAddr && err.Args[0].Args[0] == e:
					default:
						bad(rule, "an error is returned for a sheet with the name")
					}
				}
			}
			if s.nilnessErr(err) == False {
				return
			}
			u := s.clone()
			if !u.assume(tEq(err, tNil(tErrType), nil)) {
				return
			}
			t.ok(crule, name+" (result)", pos)
			v := res0
			for v.Op == OIface {
				v = v.Args[0]
			}
			switch {
			case e == nil:
				bad(rule, "no error is returned although no sheet with the name was found")
			case u.nilness(res0) == True:
				bad(rule, "neither a sheet nor an error is returned")
			case fCache < 0:
				bad(crule, "the sheet returned was not read from the file")
			default:
				from := u.load(fieldAddrOf(e, fCache))
				st := under(sheetT).(*types.Struct)
				for i := 0; i < st.NumFields(); i++ {
					if i != coll.fPos && u.load(fieldAddrOf(v, i)) != u.load(fieldAddrOf(from, i)) {
						bad(crule, "what is returned is not what was read of the sheet: "+st.Field(i).Name()+" differs")
					}
				}
				if fErr >= 0 && u.nilness(u.load(fieldAddrOf(e, fErr))) != True {
					bad(crule, "a sheet is returned although reading it may have failed")
				}
			}
		}
		t.after = append(t.after, func() { sc.done(x) })
		return s0
	})
	if uses == 0 {
		r.bad(crule, name, p.Pos(fn.Pos()), "the contents of a sheet are never read")
	}
	b.paths = used
}

// noBlock: it is known that no block begins at the position.
func noBlock(s *State, m *xlsModel, pos *Term) bool {
	for f := range s.facts.m {
		if f.Op == ONot && f.Args[0].Op == OMapHas && s.bitFacts().same(bitsOf(f.Args[0].Args[1]), bitsOf(pos)) {
			return true
		}
	}
	return false
}

const relTypes = "http://schemas.openxmlformats.org/officeDocument/2006/relationships/"

// relMap: the value is an entry of the map of one type of relationships of the document.
func relEntry(v *Term, typ, id *Term) bool {
	return v.Op == OMapGet && v.Args[1] == id && v.Args[0].Op == OMapGet && v.Args[0].Args[1] == typ
}

// workbookSheets follows the reader of the workbook part.
func (r *Report) workbookSheets(b *book) {
	p := r.P
	fns := p.documentReaders("sheet")
	if len(fns) == 0 {
		r.bad("anchor", "workbook", "?", "no function of the package reads the sheets of a workbook")
		return
	}
	const rule = "a sheet element is a sheet"
	const krule = "nothing else is a sheet"
	const erule = "a readable document is read to its end"
	for _, fn := range fns {
		name := shortName(fn)
		r.analyse(name, fn, func(x *Exec, t *Report) *State {
			s := x.Start(fn)
			w := newXMLWalk(x, t, name)
			const el = "workbook/sheets/sheet"
			g := newGrammar("workbook", "workbook", "workbook/workbookPr", "workbook/bookViews", "workbook/sheets", el, "workbook/definedNames")
			var vs []xmlVariant
			for _, n := range []bool{true, false} {
				for _, id := range []bool{true, false} {
					for _, front := range []bool{true, false} {
						v := xmlVariant{tag: "complete", attrs: []xmlAttr{{name: "sheetId"}}}
						add := func(a xmlAttr) {
							if front {
								v.attrs = append([]xmlAttr{a}, v.attrs...)
							} else {
								v.attrs = append(v.attrs, a)
							}
						}
						if n {
							add(xmlAttr{name: "name"})
						} else {
							v.tag = "without name"
						}
						if id {
							add(xmlAttr{name: "id"})
						} else {
							v.tag += " without id"
						}
						if front {
							v.tag += " reversed"
						}
						vs = append(vs, v)
					}
				}
			}
			g.variants(el, vs...)
			w.grammar = func(*Term) *xmlGrammar { return g }
			x.H.Call = func(x *Exec, s *State, ev *CallEvent) ([]Outcome, bool) { return w.call(s, ev) }
			isList := func(ty types.Type) bool {
				sl, ok := under(ty).(*types.Slice)
				if !ok {
					return false
				}
				e := sl.Elem()
				if pt, ok := under(e).(*types.Pointer); ok {
					e = pt.Elem()
				}
				return types.Identical(e, b.elem)
			}
			x.H.Store = func(x *Exec, s *State, addr, val *Term, at ssa.Instruction) {
				if addr.Op == OIndexAddr && !isVarargs(rootOf(addr)) && isList(types.NewSlice(pointee(addr))) {
					t.bad(krule, name, x.P.InstrPos(at), "an entry of the list of sheets is overwritten", s.trail.lines(20)...)
				}
			}
			n := 0
			w.token = func(s *State, e *xmlEvent, locs []xmlLoc, h *ssa.BasicBlock) {
				lab, pos := name+": "+e.String(), p.blockPos(h)
				add := map[string]*Term{}
				for _, l := range locs {
					if !isList(l.t) || l.o == l.n {
						continue
					}
					add[l.key] = nil
					if l.n.Op == OAppend && l.n.Args[0] == l.o && len(l.n.Args) == 2 {
						add[l.key] = l.n.Args[1]
					}
				}
				if e.kind != 's' || e.to != el || e.attrs["name"] == nil || e.attrs["id"] == nil {
					if len(add) > 0 {
						t.bad(krule, lab, pos, "the list of sheets is changed", s.trail.lines(40)...)
					} else {
						t.ok(krule, lab, pos)
					}
					return
				}
				n++
				t.ok(rule, lab, pos)
				if len(add) != 1 {
					t.bad(rule, lab, pos, "the sheet is not added to the list of sheets exactly once", s.trail.lines(40)...)
					return
				}
				for _, a := range add {
					if a == nil {
						t.bad(rule, lab, pos, "the sheet is not added to the list of sheets exactly once", s.trail.lines(40)...)
						return
					}
					if nm := b.name(s, a); nm != e.attrs["name"] {
						t.bad(rule, lab, pos, "the name of the sheet is "+nm.String(), s.trail.lines(40)...)
					}
					for i := range b.paths {
						if v := s.load(fieldAddrOf(a, i)); !relEntry(v, tStr(relTypes+"worksheet"), e.attrs["id"]) {
							t.bad(rule, lab, pos, "the part of the sheet is "+v.String(), s.trail.lines(40)...)
						}
					}
				}
			}
			nRet := 0
			x.H.Return = func(x *Exec, s *State, res []*Term, at ssa.Instruction) {
				var err *Term
				for _, v := range res {
					if v.T != nil && types.Identical(v.T, tErrType) {
						err = v
					}
				}
				e := w.last(s, "workbook")
				if err == nil || e == nil {
					return
				}
				nRet++
				t.ok(erule, name+" ("+e.String()+")", p.InstrPos(at))
				incomplete := e.kind == 's' && e.to == el && (e.attrs["name"] == nil || e.attrs["id"] == nil)
				if e.kind != 'r' && !incomplete && s.nilnessErr(err) != True {
					t.bad(erule, name, p.InstrPos(at), fmt.Sprintf("an error can be returned after %s", e), s.trail.lines(40)...)
				}
				if e.kind != 'f' && s.nilnessErr(err) != False {
					t.bad(erule, name, p.InstrPos(at), fmt.Sprintf("the function can return without an error after %s", e), s.trail.lines(40)...)
				}
			}
			t.after = append(t.after, func() {
				if nRet == 0 || n == 0 {
					t.bad(erule, name, p.Pos(fn.Pos()), "the workbook is never read to its end")
				}
			})
			return s
		})
	}
	r.expect(rule, 1)
}
