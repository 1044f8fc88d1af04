package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P38", "path-sensitive abstract interpretation: product of the token loop with the grammar of a relationships part, and a typestate of the steps of Open",
		"The reader of a relationships part is followed for every kind of relationship: it has to store exactly the target (resolved against the directory of its source) under the type and the id, and the main document is that of the officeDocument relationship and no other. Open is followed on all paths: the parts read, in order, have to be the relationships of the package, those of the main document, the main document, and every style and shared string part, each under the name its relationship gives; nothing is left out when a document is returned, and no error is returned unless one of the steps failed.", checkParts)
}

func checkParts(r *Report) {
	pd := r.relationships()
	if pd >= 0 {
		r.openParts(pd)
	}
}

// relationships follows the reader of relationships; it returns the field of
// the document which holds the name of the main part.
func (r *Report) relationships() int {
	p := r.P
	const rule = "a relationship is kept under its type and id"
	const mrule = "the main document is the one the package names"
	const erule = "a readable document is read to its end"
	const el = "Relationships/Relationship"
	doc := p.Type(xlsxPath, "Document")
	fns := p.documentReaders("Type")
	if len(fns) == 0 || doc == nil {
		r.bad("anchor", "relationships", "?", "no function of the package reads relationships")
		return -1
	}
	str, boolT := types.Typ[types.String], types.Typ[types.Bool]
	main := map[int]int{} // string fields of the document: 1 set by the main relationship, 2 not always
	for _, fn := range fns {
		name := shortName(fn)
		r.analyse(name, fn, func(x *Exec, t *Report) *State {
			s := x.Start(fn)
			var recv *Term
			var bases []*Term
			for _, q := range allParams(s) {
				if q.T != nil && isNamed(q.T, xlsxPath, "Document") {
					recv = q
				}
				if q.T != nil && isBasic(q.T, types.IsString) {
					bases = append(bases, q)
				}
			}
			w := newXMLWalk(x, t, name)
			g := newGrammar("rels", "Relationships", el)
			other := w.rigid("othertype", str)
			var vs []xmlVariant
			for _, office := range []bool{true, false} {
				for _, abs := range []string{"absolute", "relative"} {
					for _, order := range []bool{true, false} {
						ty := xmlAttr{"Type", tStr(relTypes + "officeDocument")}
						tag := "main document"
						if !office {
							ty.val, tag = other, "other"
						}
						at := []xmlAttr{{name: "Id"}, ty, {name: "Target"}}
						if !order {
							at = []xmlAttr{{name: "Target"}, ty, {name: "Id"}}
							tag += " reversed"
						}
						vs = append(vs, xmlVariant{tag: abs + " " + tag, attrs: at})
					}
				}
			}
			g.variants(el, vs...)
			w.grammar = func(*Term) *xmlGrammar { return g }
			isAbs := func(e *xmlEvent) bool { return e.v != nil && strings.HasPrefix(e.v.tag, "absolute") }
			// what is known of the target is kept up to the next token
			known := func(s *State) {
				s.assumeQuiet(tNot(tEq(other, tStr(relTypes+"officeDocument"), str)))
				g := s.ghost["!attrs"]
				if g == nil {
					return
				}
				target := g.Args[0]
				has := tCall("strings.HasPrefix", boolT, target, tStr("/"))
				first := tBytes(target, tInt(0), 1)
				same := tEq(tCall("strings.TrimPrefix", str, target, tStr("/")), target, str)
				if g.Args[1] == tInt(1) {
					s.assumeQuiet(has)
					s.assumeQuiet(tNot(same))
					s.assumeQuiet(tEqInt(first, tInt('/')))
					s.assumeQuiet(tLe(tInt(1), tLen(target)))
				} else {
					s.assumeQuiet(tNot(has))
					s.assumeQuiet(same)
					s.assumeQuiet(tNot(tEqInt(first, tInt('/'))))
				}
			}
			head := x.H.Head
			x.H.Head = func(x *Exec, s *State, header *ssa.BasicBlock) {
				head(x, s, header)
				known(s)
			}
			w.entered = func(s *State, e *xmlEvent) {
				delete(s.ghost, "!attrs")
				if e.kind == 's' && e.to == el {
					abs := tInt(0)
					if isAbs(e) {
						abs = tInt(1)
					}
					s.ghost["!attrs"] = tTuple(e.attrs["Target"], abs)
				}
				known(s)
			}
			x.H.Call = func(x *Exec, s *State, ev *CallEvent) ([]Outcome, bool) {
				if o, ok := w.call(s, ev); ok {
					return o, ok
				}
				if ev.Name == "path/filepath.Join" || ev.Name == "path.Join" {
					if va, ok := s.varargs(ev.Args[0]); ok {
						return []Outcome{{Res: tCall("join", str, va...)}}, true
					}
				}
				return nil, false
			}
			note := func(s *State, op *Term) {
				var ops []*Term
				if o := s.ghost["!ops"]; o != nil {
					ops = append(ops, o.Args...)
				}
				if len(ops) < 6 {
					ops = append(ops, op)
				}
				s.ghost["!ops"] = tTuple(ops...)
			}
			relsOf := func(s *State, m *Term) bool {
				return m.Op == OInit && m.Args[0].Op == OFieldAddr && m.Args[0].Args[0] == recv
			}
			x.H.MapSet = func(x *Exec, s *State, m, k, v *Term, at ssa.Instruction) {
				mt, ok := under(m.T).(*types.Map)
				if m.T == nil || !ok {
					if mt, ok = under(pointee(m)).(*types.Map); !ok {
						return
					}
				}
				switch {
				case isBasic(mt.Elem(), types.IsString):
					if relsOf(s, m) {
						return
					}
					fresh := tInt(0)
					for _, o := range opsOf(s) {
						if o.S == "new" && o.Args[1] == m {
							fresh = o.Args[0]
						}
					}
					for a, v := range s.mem {
						if a.Op == OMapSlot && v == m && relsOf(s, a.Args[0]) {
							// the map which is in the entry of a type
							fresh = a.Args[1]
						}
					}
					if m.Op == OObj && fresh == tInt(0) {
						// a map of the function itself
						return
					}
					note(s, mk(Term{Op: OCall, S: "set", Args: []*Term{m, k, v, fresh}}))
				default:
					if _, ok := under(mt.Elem()).(*types.Map); !ok || !relsOf(s, m) {
						return
					}
					had := mk(Term{Op: OMapHas, Args: []*Term{m, k}, T: boolT})
					if !s.isNot(had) {
						ok := false
						for a, v := range s.mem {
							if a.Op == OMapSlot && a.Args[0] == m && a.Args[1] == k && s.nilness(v) == True {
								ok = true
							}
						}
						for f := range s.facts.m {
							if f.Op == ONot && f.Args[0].Op == OMapHas && f.Args[0].Args[0] == m && f.Args[0].Args[1] == k {
								ok = true
							}
							// or its value is nil
							if f.Op == OEq && f.Args[0].Op == OMapGet && f.Args[0].Args[0] == m && f.Args[0].Args[1] == k && f.Args[1].isNil() {
								ok = true
							}
							if f.Op == OEq && f.Args[1].Op == OMapGet && f.Args[1].Args[0] == m && f.Args[1].Args[1] == k && f.Args[0].isNil() {
								ok = true
							}
						}
						if !ok {
							t.bad(rule, name, x.P.InstrPos(at), "the relationships of a type can be replaced", s.trail.lines(20)...)
						}
					}
					note(s, mk(Term{Op: OCall, S: "new", Args: []*Term{k, v}}))
				}
			}
			n := 0
			w.token = func(s *State, e *xmlEvent, locs []xmlLoc, h *ssa.BasicBlock) {
				lab, pos := name+": "+e.String(), p.blockPos(h)
				bad := func(rule, msg string) { t.bad(rule, lab, pos, msg, s.trail.lines(30)...) }
				ops := opsOf(s)
				delete(s.ghost, "!ops")
				is := e.kind == 's' && e.to == el
				var val *Term
				sets := 0
				for _, o := range ops {
					if !is {
						bad(rule, "a relationship is stored")
						return
					}
					switch o.S {
					case "new":
						if o.Args[0] != e.attrs["Type"] {
							bad(rule, "an entry is made for the type "+o.Args[0].String())
						}
					case "set":
						sets++
						m, k, v := o.Args[0], o.Args[1], o.Args[2]
						val = v
						if !(o.Args[3] == e.attrs["Type"] || m.Op == OMapGet && m.Args[1] == e.attrs["Type"] && relsOf(s, m.Args[0])) {
							bad(rule, "the relationship is stored in "+m.String()+", which is not the map of its type")
						}
						if k != e.attrs["Id"] {
							bad(rule, "the relationship is stored under "+k.String())
						}
						if msg := resolved(v, e.attrs["Target"], isAbs(e), bases); msg != "" {
							bad(rule, msg)
						}
					}
				}
				if is {
					n++
					t.ok(rule, lab, pos)
					if sets != 1 {
						bad(rule, "the relationship is not stored exactly once")
					}
				}
				// the main document
				st := under(doc).(*types.Struct)
				for i := 0; i < st.NumFields(); i++ {
					if recv == nil || !isBasic(st.Field(i).Type(), types.IsString) {
						continue
					}
					a := fieldAddrOf(recv, i)
					v := s.load(a)
					o := s.ghost[fmt.Sprintf("!o%d", a.id)]
					if o == nil {
						o = mk(Term{Op: OInit, Args: []*Term{a}, T: st.Field(i).Type()})
					}
					office := is && e.attr("Type") != ""
					switch {
					case office && val != nil && v == val:
						main[i] |= 1
					case v != o:
						bad(mrule, "the name "+st.Field(i).Name()+" is changed to "+v.String())
					case office:
						main[i] |= 2
					}
				}
				t.ok(mrule, lab, pos)
			}
			nRet := 0
			x.H.Return = func(x *Exec, s *State, res []*Term, at ssa.Instruction) {
				var err *Term
				for _, v := range res {
					if v.T != nil && types.Identical(v.T, tErrType) {
						err = v
					}
				}
				e := w.last(s, "rels")
				if err == nil || e == nil {
					return
				}
				nRet++
				t.ok(erule, name+" ("+e.String()+")", p.InstrPos(at))
				if e.kind != 'r' && s.nilnessErr(err) != True {
					t.bad(erule, name, p.InstrPos(at), fmt.Sprintf("an error can be returned after %s", e), s.trail.lines(40)...)
				}
				if e.kind != 'f' && s.nilnessErr(err) != False {
					t.bad(erule, name, p.InstrPos(at), fmt.Sprintf("the function can return without an error after %s", e), s.trail.lines(40)...)
				}
			}
			t.after = append(t.after, func() {
				if nRet == 0 || n == 0 {
					t.bad(erule, name, p.Pos(fn.Pos()), "the relationships are never read to their end")
				}
			})
			return s
		})
	}
	r.expect(rule, 1)
	found := -1
	for i, m := range main {
		if m == 1 {
			found = i
		}
	}
	if found < 0 {
		r.bad(mrule, "main document", p.Pos(fns[0].Pos()), "no field of the document always holds the target of the officeDocument relationship")
	}
	return found
}

func opsOf(s *State) []*Term {
	if o := s.ghost["!ops"]; o != nil {
		return o.Args
	}
	return nil
}

// resolved: the name of the part a target refers to.
func resolved(v, target *Term, abs bool, bases []*Term) string {
	rest := func(v *Term) bool {
		switch {
		case v.Op == OSlice && v.Args[0] == target && v.Args[1] == tInt(1):
			return len(v.Args) < 3 || v.Args[2] == tLen(target)
		case v.Op == OCall && v.S == "strings.TrimPrefix":
			return v.Args[0] == target && v.Args[1] == tStr("/")
		}
		return false
	}
	if abs {
		if rest(v) || v.Op == OCall && (v.S == "path.Clean" || v.S == "path/filepath.Clean") && rest(v.Args[0]) {
			return ""
		}
		return "an absolute target becomes " + v.String()
	}
	same := func(v *Term) bool {
		return v == target || v.Op == OCall && v.S == "strings.TrimPrefix" && v.Args[0] == target && v.Args[1] == tStr("/")
	}
	if v.Op == OCall && v.S == "join" && len(v.Args) == 2 && same(v.Args[1]) {
		for _, b := range bases {
			if v.Args[0] == b {
				return ""
			}
		}
	}
	return "a relative target becomes " + v.String()
}

// keyLists finds loops which collect the keys of a map: at the end of the loop
// the list holds every key once.
func (p *Prog) keyLists(fn *ssa.Function) map[*ssa.BasicBlock]map[*ssa.Phi]*ssa.Range {
	res := map[*ssa.BasicBlock]map[*ssa.Phi]*ssa.Range{}
	lf := findLoops(fn)
	for h, l := range lf.byHeader {
		var next *ssa.Next
		for _, in := range h.Instrs {
			if n, ok := in.(*ssa.Next); ok && !n.IsString {
				next = n
			}
		}
		if next == nil {
			continue
		}
		rg, ok := next.Iter.(*ssa.Range)
		if !ok || l.body[rg.Block()] {
			continue
		}
		// left only when there is no further key
		only := true
		for b := range l.body {
			for _, to := range b.Succs {
				if !l.body[to] && b != h {
					only = false
				}
			}
		}
		if br, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If); !ok || !only || l.body[h.Succs[1]] {
			continue
		} else if ex, ok := br.Cond.(*ssa.Extract); !ok || ex.Tuple != next || ex.Index != 0 {
			continue
		}
		isKey := func(v ssa.Value) bool {
			ex, ok := v.(*ssa.Extract)
			return ok && ex.Tuple == next && ex.Index == 1
		}
		for _, in := range h.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			if _, ok := under(ph.Type()).(*types.Slice); !ok {
				continue
			}
			good := true
			for i, e := range ph.Edges {
				if !l.body[h.Preds[i]] {
					// starts empty
					good = good && emptyList(e)
					continue
				}
				good = good && appendsOne(e, ph, isKey)
			}
			if good {
				if res[h] == nil {
					res[h] = map[*ssa.Phi]*ssa.Range{}
				}
				res[h][ph] = rg
			}
		}
	}
	return res
}

func emptyList(v ssa.Value) bool {
	switch v := v.(type) {
	case *ssa.Const:
		return v.IsNil()
	case *ssa.MakeSlice:
		c, ok := v.Len.(*ssa.Const)
		return ok && c.Value != nil && c.Int64() == 0
	case *ssa.Slice:
		if c, ok := v.High.(*ssa.Const); ok && c.Value != nil && c.Int64() == 0 {
			return true
		}
		al, ok := v.X.(*ssa.Alloc)
		if !ok {
			return false
		}
		at, ok := under(al.Type().(*types.Pointer).Elem()).(*types.Array)
		return ok && at.Len() == 0
	}
	return false
}

// appendsOne: v is append(list, e) of a single element accepted by elem.
func appendsOne(v ssa.Value, list ssa.Value, elem func(ssa.Value) bool) bool {
	c, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	b, ok := c.Call.Value.(*ssa.Builtin)
	if !ok || b.Name() != "append" || len(c.Call.Args) != 2 || c.Call.Args[0] != list {
		return false
	}
	sl, ok := c.Call.Args[1].(*ssa.Slice)
	if !ok {
		return false
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return false
	}
	at, ok := under(al.Type().(*types.Pointer).Elem()).(*types.Array)
	if !ok || at.Len() != 1 {
		return false
	}
	n := 0
	for _, u := range *al.Referrers() {
		ia, ok := u.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		for _, w := range *ia.Referrers() {
			if st, ok := w.(*ssa.Store); ok {
				if !elem(st.Val) {
					return false
				}
				n++
			}
		}
	}
	return n == 1
}

// openParts follows Open: which parts are read, in which order, and what
// becomes of errors.
func (r *Report) openParts(pd int) {
	p := r.P
	const rule = "every part a workbook needs is read under the name its relationship gives"
	const srule = "a part is searched among all entries"
	const erule = "a document is returned exactly if all parts were read"
	fn := p.Func(xlsxPath, "Open")
	doc := p.Type(xlsxPath, "Document")
	if fn == nil {
		r.bad("anchor", "xlsx.Open", "?", "the function is gone")
		return
	}
	kind := map[*ssa.Function]string{}
	var relsReader *ssa.Function
	for k, m := range map[string]string{"relationships": "Type", "workbook": "sheet", "styles": "cellXfs", "sharedStrings": "si"} {
		fs := p.documentReaders(m)
		if len(fs) != 1 || kind[fs[0]] != "" {
			r.bad("anchor", k, p.Pos(fn.Pos()), "there is not exactly one function which reads such a part")
			return
		}
		kind[fs[0]] = k
		if k == "relationships" {
			relsReader = fs[0]
		}
	}
	str := types.Typ[types.String]
	st := under(doc).(*types.Struct)
	fRels := -1
	for i := 0; i < st.NumFields(); i++ {
		if m, ok := under(st.Field(i).Type()).(*types.Map); ok {
			if _, ok := under(m.Elem()).(*types.Map); ok {
				fRels = i
			}
		}
	}
	if fRels < 0 {
		r.bad("anchor", "relationships", p.Pos(fn.Pos()), "the document has no table of relationships")
		return
	}
	// only the reader of relationships, and Open itself, change them
	for _, f := range p.allFuncs() {
		top := f
		for top.Parent() != nil {
			top = top.Parent()
		}
		if kind[top] == "relationships" || top == fn || !p.InModule(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok || !isNamed(fa.X.Type(), xlsxPath, "Document") || fa.Field != fRels && fa.Field != pd {
					continue
				}
				for _, u := range *fa.Referrers() {
					if s, ok := u.(*ssa.Store); ok && s.Addr == fa && !p.onlyFrom(f, relsReader) && !p.onlyFrom(f, fn) {
						r.bad(rule, shortName(f), p.InstrPos(s), "the relationships or the name of the main document are changed")
					}
				}
			}
		}
	}
	name := "xlsx.Open"
	uses := map[string]int{}
	lists := map[*ssa.Function]map[*ssa.BasicBlock]map[*ssa.Phi]*ssa.Range{}
	r.analyse(name, fn, func(x *Exec, t *Report) *State {
		s0 := x.Start(fn)
		x.KeepLists = true
		eof := mk(Term{Op: OCall, S: "error:io.EOF", T: tErrType})
		x.H.Global = func(x *Exec, s *State, g *ssa.Global) *Term {
			if g.String() == "io.EOF" {
				return eof
			}
			return nil
		}
		sc := map[string]*scan{}
		for _, k := range []string{"styles", "sharedStrings"} {
			sc[k] = newScan(t, rule, name+" ("+k+")")
		}
		files := newScan(t, srule, name)
		stage := func(s *State) int64 {
			if g := s.ghost["!stage"]; g != nil {
				n, _ := g.intConst()
				return n
			}
			return 0
		}
		relDir := func(s *State, v, main *Term) bool {
			switch {
			case v.Op == OCall && (v.S == "path/filepath.Dir" || v.S == "path.Dir"):
				return v.Args[0] == main
			case v.Op == OCall && (v.S == "path/filepath.Split#0" || v.S == "path.Split#0"):
				return v.Args[0] == main
			case v.Op == OCall && v.S == "strings.TrimSuffix":
				return v.Args[0] == main && isBase(v.Args[1], main)
			case v.Op == OSlice && v.Args[0] == main && v.Args[1] == tInt(0) && len(v.Args) > 2:
				ok := false
				v.Args[2].anySub(func(u *Term) bool {
					ok = ok || u.Op == OLen && isBase(u.Args[0], main) && eqLin(v.Args[2], tSub(tLen(main), u))
					return false
				})
				return ok
			}
			return false
		}
		isRelsOf := func(s *State, v, main *Term) bool {
			if v.Op != OCall || v.S != "join" || len(v.Args) != 3 {
				return false
			}
			f := v.Args[2]
			name := false
			f.anySub(func(u *Term) bool {
				name = name || isBase(u, main) && f == tConcat(u, tStr(".rels"))
				return name
			})
			return name && relDir(s, v.Args[0], main) && v.Args[1] == tStr("_rels")
		}
		x.H.Call = func(x *Exec, s *State, ev *CallEvent) ([]Outcome, bool) {
			pos := x.P.InstrPos(ev.Instr)
			bad := func(rule, msg string) { t.bad(rule, name, pos, msg, s.trail.lines(20)...) }
			fail := func(res *Term) Outcome {
				return Outcome{Res: res, Do: func(s *State) { s.ghost["!failed"] = tInt(1) }}
			}
			if k := kind[ev.Fn]; k != "" {
				uses[k]++
				var part, base, d *Term
				for _, a := range ev.Args {
					switch {
					case a.Op == OCall && a.S == "xmldecoder":
						part = a.Args[0]
					case a.T != nil && isNamed(a.T, xlsxPath, "Document"):
						d = a
					case a.T != nil && isBasic(a.T, types.IsString):
						base = a
					}
				}
				if part == nil || d == nil {
					bad(rule, "the "+k+" are not read from a part of the package")
					return []Outcome{{Stop: true}}, true
				}
				t.ok(rule, name+" ("+k+")", pos)
				next := stage(s)
				main := s.load(fieldAddrOf(d, pd))
				switch k {
				case "relationships":
					switch {
					case next == 0 && part == tStr("_rels/.rels"):
						if base != nil && base != tStr("") {
							bad(rule, "the targets of the package are taken relative to "+base.String())
						}
						next = 1
					case next >= 1 && isRelsOf(s, part, main):
						if base != nil && !relDir(s, base, main) {
							bad(rule, "the targets of the main document are taken relative to "+base.String())
						}
						if next == 1 {
							next = 2
						}
					default:
						bad(rule, "relationships are read from "+part.String())
					}
				case "workbook":
					if next != 2 {
						bad(rule, "the workbook is read before its relationships, or twice")
					} else {
						next = 3
					}
					if part != main {
						bad(rule, "the workbook is read from "+part.String()+", which is not the main document")
					}
				default:
					rels := s.load(fieldAddrOf(d, fRels))
					if next < 2 {
						bad(rule, "the "+k+" are read before the relationships")
					}
					ok := false
					if part.Op == OMapGet && len(part.Args) > 1 {
						m, id := part.Args[0], part.Args[1]
						slot := mk(Term{Op: OMapSlot, Args: []*Term{rels, tStr(relTypes + k)}, T: st.Field(fRels).Type()})
						if m.Op == OMapGet && len(m.Args) == len(x.mapEp(s, slot)) {
							ok = true
							for i, a := range x.mapEp(s, slot) {
								ok = ok && m.Args[i] == a
							}
						}
						if list, idx, is := elemOf(id); ok && is && id.Op == OInit && list.Op == OCall && list.S == "keys" && list.Args[0] == m {
							sc[k].visit(x, s, list, idx, ev.Instr)
						} else {
							ok = false
						}
					}
					if !ok {
						bad(rule, "the "+k+" are read from "+part.String()+", which is not the part of one of their relationships after the other")
					}
				}
				delete(s.ghost, "!v"+name)
				delete(s.ghost, "!x"+name)
				s.ghost["!doc"] = d
				// the next search is another one
				s.facts = s.facts.filter(func(f *Term) bool {
					return !f.anySub(func(u *Term) bool {
						return u.Op == OInit && u.Args[0].Op == OFieldAddr && fieldName(u.Args[0]) == "Name"
					})
				})
				err := x.fresh(s, ev.Instr, "error", tErrType)
				good := Outcome{Res: tNil(tErrType), Do: func(s *State) {
					s.ghost["!stage"] = tInt(next)
					if k != "relationships" {
						// the rest of the document only
						for i := 0; i < st.NumFields(); i++ {
							if i != pd && i != fRels {
								if _, isPtr := under(st.Field(i).Type()).(*types.Pointer); !isPtr {
									s.havoc([]*Term{fieldAddrOf(d, i)}, x.epochSym(s, ev.Instr, "call"))
								}
							}
						}
						return
					}
					s.store(fieldAddrOf(d, pd), x.fresh(s, ev.Instr, "main", str), x.epochSym(s, ev.Instr, "st"))
					s.havoc([]*Term{s.load(fieldAddrOf(d, fRels))}, x.epochSym(s, ev.Instr, "call"))
				}}
				bad1 := fail(err)
				bad1.Assume = []*Term{tNot(tEq(err, tNil(tErrType), nil))}
				return []Outcome{good, bad1}, true
			}
			switch ev.Name {
			case "path/filepath.Join", "path.Join":
				if va, ok := s.varargs(ev.Args[0]); ok {
					return []Outcome{{Res: tCall("join", str, va...)}}, true
				}
			case "sort.Strings", "slices.Sort":
				a := ev.Args[0]
				for a.Op == OConv {
					a = a.Args[0]
				}
				if a.Op == OCall && a.S == "keys" {
					return []Outcome{{}}, true
				}
			case "(*archive/zip.File).Open":
				nm := partName(s, ev.Args[0])
				if nm == nil {
					bad(srule, "an entry is opened whatever its name is")
					return []Outcome{{Stop: true}}, true
				}
				t.ok(srule, name, pos)
				rc := mk(Term{Op: OCall, S: "zipreader", Args: []*Term{nm}, T: ev.Sig.Results().At(0).Type()})
				err := x.fresh(s, ev.Instr, "error", tErrType)
				bad1 := fail(tTuple(tNil(ev.Sig.Results().At(0).Type()), err))
				bad1.Assume = []*Term{tNot(tEq(err, tNil(tErrType), nil))}
				return []Outcome{{Res: tTuple(rc, tNil(tErrType)), Assume: []*Term{tNot(tEq(rc, tNil(rc.T), nil))}}, bad1}, true
			case "encoding/xml.NewDecoder":
				rd := ev.Args[0]
				for rd.Op == OConv || rd.Op == OIface {
					rd = rd.Args[0]
				}
				if rd.Op == OCall && rd.S == "zipreader" {
					dec := mk(Term{Op: OCall, S: "xmldecoder", Args: []*Term{rd.Args[0]}, T: ev.Sig.Results().At(0).Type()})
					return []Outcome{{Res: dec, Assume: []*Term{tNot(tEq(dec, tNil(dec.T), nil))}}}, true
				}
			}
			// other library functions which can fail
			if n := ev.Sig.Results().Len(); n > 0 && ev.Fn != nil && !x.P.InModule(ev.Fn) && types.Identical(ev.Sig.Results().At(n-1).Type(), tErrType) {
				if pk := fnPkg(ev.Fn); pk != nil && (pk.Path() == "os" || pk.Path() == "archive/zip" || pk.Path() == "io") {
					tErrOut := func(err *Term) *Term {
						if n == 1 {
							return err
						}
						var vs []*Term
						for i := 0; i < n-1; i++ {
							rt := ev.Sig.Results().At(i).Type()
							v := x.fresh(s, ev.Instr, fmt.Sprintf("res%d", i), rt)
							vs = append(vs, v)
						}
						return tTuple(append(vs, err)...)
					}
					err := x.fresh(s, ev.Instr, "error", tErrType)
					good := Outcome{Res: tErrOut(tNil(tErrType))}
					if n > 1 {
						if v := good.Res.Args[0]; v.T != nil {
							if _, isP := under(v.T).(*types.Pointer); isP || types.IsInterface(v.T) {
								good.Assume = []*Term{tNot(tEq(v, tNil(v.T), nil))}
							}
						}
					}
					bad1 := fail(tErrOut(err))
					bad1.Assume = []*Term{tNot(tEq(err, tNil(tErrType), nil))}
					if strings.HasSuffix(ev.Name, ".Close") {
						// what is read is complete already
						bad1.Do = nil
					}
					return []Outcome{good, bad1}, true
				}
			}
			return nil, false
		}
		// the entry looked at
		x.H.Load = func(x *Exec, s *State, addr *Term, at ssa.Instruction) {
			if pt, ok := under(pointee(addr)).(*types.Pointer); ok && addr.Op == OIndexAddr && isNamed(pt, "archive/zip", "File") {
				s.ghost["!cur"] = tTuple(addr.Args[1], s.load(addr), tInt(int64(s.fr.ctx.id)), addr.Args[0])
			}
		}
		x.H.BackEdge = func(x *Exec, s *State, h *ssa.BasicBlock, in func(*Term) bool, old, nw map[*ssa.Phi]*Term) {
			if g := s.ghost["!cur"]; g != nil && g.Args[2] == tInt(int64(s.fr.ctx.id)) {
				mine := false
				for ph, o := range old {
					if n := nw[ph]; isInt(ph.Type()) && n != nil && o != nil {
						_, ok := tSub(g.Args[0], o).intConst()
						d, ok2 := tSub(n, o).intConst()
						mine = mine || ok && ok2 && d != 0
					}
				}
				if mine {
					if !otherName(s, g.Args[1]) {
						t.bad(srule, name, x.P.blockPos(h), "the search goes on past an entry which may have the name", s.trail.lines(10)...)
					}
					files.visit(x, s, g.Args[3], g.Args[0], h.Instrs[0])
				}
				delete(s.ghost, "!cur")
			}
			files.backEdge(x, s, h, old, nw)
			for _, k := range []string{"styles", "sharedStrings"} {
				sc[k].backEdge(x, s, h, old, nw)
			}
		}
		x.H.Edge = func(x *Exec, s *State, from, to *ssa.BasicBlock) {
			files.edge(x, s, from, to)
			for _, k := range []string{"styles", "sharedStrings"} {
				sc[k].edge(x, s, from, to)
			}
			f := from.Parent()
			if lists[f] == nil {
				lists[f] = p.keyLists(f)
			}
			// there are no entries
			if l := x.loops(f).byHeader[from]; l != nil && !l.body[to] {
				for f := range s.facts.m {
					f.anySub(func(v *Term) bool {
						if v.Op != OLen || v.Args[0].T == nil {
							return false
						}
						if sl, ok := under(v.Args[0].T).(*types.Slice); ok && isNamed(sl.Elem(), "archive/zip", "File") && s.is(tLe(v, tInt(0))) {
							s.ghost["!x"+name] = tTuple(v.Args[0])
						}
						return false
					})
				}
			}
			// the map whose keys are collected
			if ks := lists[f][to]; ks != nil && !x.loops(f).byHeader[to].body[from] {
				for _, rg := range ks {
					if m := s.fr.regs[rg.X]; m != nil && rg.Block() == from {
						s.ghost[fmt.Sprintf("!keys%d", x.instrID(rg))] = m
					}
				}
			}
			l := x.loops(f).byHeader[from]
			if l == nil || l.body[to] {
				return
			}
			for ph, rg := range lists[f][from] {
				if m := s.ghost[fmt.Sprintf("!keys%d", x.instrID(rg))]; m != nil {
					s.fr.regs[ph] = mk(Term{Op: OCall, S: "keys", Args: []*Term{m}, T: ph.Type()})
					delete(s.ghost, fmt.Sprintf("!keys%d", x.instrID(rg)))
				}
			}
		}
		nOK := 0
		x.H.Return = func(x *Exec, s *State, res []*Term, at ssa.Instruction) {
			pos := x.P.InstrPos(at)
			bad := func(rule, msg string) { t.bad(rule, name, pos, msg, s.trail.lines(20)...) }
			src, err := res[0], res[1]
			t.ok(erule, name, pos)
			failed := s.ghost["!failed"] != nil
			if s.nilnessErr(err) != False {
				u := s.clone()
				if u.assume(tEq(err, tNil(tErrType), nil)) {
					nOK++
					switch {
					case failed:
						bad(erule, "no error is returned although a part could not be read")
					case u.nilness(src) == True:
						bad(erule, "neither a document nor an error is returned")
					case stage(s) != 3:
						bad(rule, "a document is returned without its workbook having been read")
					}
					d := src
					for d.Op == OIface {
						d = d.Args[0]
					}
					if d.T == nil || !isNamed(d.T, xlsxPath, "Document") {
						bad(erule, "what is returned is not the document")
						return
					}
					for _, k := range []string{"styles", "sharedStrings"} {
						slot := mk(Term{Op: OMapSlot, Args: []*Term{u.load(fieldAddrOf(d, fRels)), tStr(relTypes + k)}, T: st.Field(fRels).Type()})
						m := mk(Term{Op: OMapGet, Args: x.mapEp(u, slot), T: under(st.Field(fRels).Type()).(*types.Map).Elem()})
						if !sc[k].complete(u, mk(Term{Op: OCall, S: "keys", Args: []*Term{m}, T: types.NewSlice(str)})) {
							bad(rule, "a document is returned without all of the "+k+" having been read")
						}
					}
				}
			}
			if s.nilnessErr(err) != True && !failed {
				u := s.clone()
				if !u.assume(tNot(tEq(err, tNil(tErrType), nil))) {
					return
				}
				lost := u.ghost["!x"+name] != nil
				for b := range files.idx {
					lost = lost || files.complete(u, b)
				}
				none := false
				if d := u.ghost["!doc"]; d != nil && stage(s) == 1 {
					none = u.is(tEqInt(tLen(u.load(fieldAddrOf(d, pd))), tInt(0)))
				}
				if !lost && !none {
					bad(erule, "an error is returned although nothing failed")
				}
			}
		}
		t.after = append(t.after, func() {
			if nOK == 0 {
				t.bad(erule, name, p.Pos(fn.Pos()), "no document is ever returned")
			}
			for _, k := range []string{"relationships", "workbook", "styles", "sharedStrings"} {
				if uses[k] == 0 {
					t.bad(rule, name+" ("+k+")", p.Pos(fn.Pos()), "such a part is never read")
				}
			}
			files.done(x)
			for _, k := range []string{"styles", "sharedStrings"} {
				sc[k].done(x)
			}
		})
		return s0
	})
	r.expect(rule, 4)
}

func isBase(v, main *Term) bool {
	return v.Op == OCall && (v.S == "path/filepath.Base" || v.S == "path.Base" || v.S == "path/filepath.Split#1" || v.S == "path.Split#1") && v.Args[0] == main
}

func eqLin(a, b *Term) bool { return tSub(a, b) == tInt(0) }

// otherName: the entry does not have the name asked for.
func otherName(s *State, zf *Term) bool {
	for f := range s.facts.m {
		if f.Op == ONot && f.Args[0].Op == OEq {
			for i := 0; i < 2; i++ {
				a := f.Args[0].Args[i]
				if a.Op == OInit && a.Args[0].Op == OFieldAddr && fieldName(a.Args[0]) == "Name" {
					b := a.Args[0].Args[0]
					if b == zf || b.Op == OFieldAddr && b.Args[0] == zf {
						return true
					}
				}
			}
		}
	}
	return false
}
