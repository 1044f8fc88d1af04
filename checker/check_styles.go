package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P35", "path-sensitive abstract interpretation of the token loop in product with the document grammar",
		"The loop which reads the styles is followed together with the grammar of a style sheet, for every way an xf element can be written. For every token the analysis compares the lists of the function before and after it: exactly one entry is added for every xf of its section, the entry is computed from the attributes of that element as the format says (and from the entry of the base style it names), and no other token changes the lists. Number formats have to be registered with their own id and code.", checkStyles)
}

// parsedText is the text a number was read from.
func parsedText(v *Term) (*Term, string) {
	for v.Op == OConv {
		v = v.Args[0]
	}
	if v.Op != OCall || !strings.HasPrefix(v.S, "strconv.") || len(v.Args) == 0 {
		return nil, ""
	}
	switch v.S {
	case "strconv.ParseInt#0", "strconv.ParseUint#0":
		b, ok1 := v.Args[1].intConst()
		n, ok2 := v.Args[2].intConst()
		if !ok1 || !ok2 || b != 10 {
			return nil, fmt.Sprintf("%v is not read as a decimal number", v.Args[0])
		}
		if n != 0 && n < 16 {
			return nil, fmt.Sprintf("%v is read as a number of %d bits", v.Args[0], n)
		}
	case "strconv.Atoi#0":
	default:
		return nil, ""
	}
	return v.Args[0], ""
}

func checkStyles(r *Report) {
	p := r.P
	add := p.PMethod(modPath+"/commonxl", "Formatter", "Add")
	fns := p.documentReaders("cellXfs")
	if len(fns) == 0 {
		r.bad("anchor", "styles", "?", "no function of the package reads the cell styles (cellXfs)")
		return
	}
	if !r.need("Formatter.Add", add) {
		return
	}
	for _, fn := range fns {
		r.styles(fn, add)
	}
	r.expect("a cell style selects the number format it names or inherits", 6)
}

func (r *Report) styles(fn, add *ssa.Function) {
	p := r.P
	name := shortName(fn)
	const xrule = "a cell style selects the number format it names or inherits"
	const krule = "nothing else changes the styles"
	const nrule = "number formats are registered with their id and code"
	const erule = "a readable document is read to its end"
	const cell, base = "styleSheet/cellXfs/xf", "styleSheet/cellStyleXfs/xf"
	r.analyse(name, fn, func(x *Exec, t *Report) *State {
		s := x.Start(fn)
		w := newXMLWalk(x, t, name)
		str := types.Typ[types.String]
		g := newGrammar("styles", "styleSheet", "styleSheet/numFmts", "styleSheet/numFmts/numFmt", "styleSheet/fonts", "styleSheet/cellStyleXfs", base, "styleSheet/cellXfs", cell, "styleSheet/cellStyles")
		// every way to write an xf
		var vs []xmlVariant
		for _, apply := range []string{"-", "0", "1"} {
			for _, own := range []bool{true, false} {
				for _, of := range []bool{true, false} {
					var v xmlVariant
					var tag []string
					if own {
						v.attrs = append(v.attrs, xmlAttr{name: "numFmtId"})
						tag = append(tag, "numFmtId")
					}
					if apply != "-" {
						v.attrs = append(v.attrs, xmlAttr{"applyNumberFormat", tStr(apply)})
						tag = append(tag, "applyNumberFormat="+apply)
					}
					if of {
						v.attrs = append(v.attrs, xmlAttr{name: "xfId"})
						tag = append(tag, "xfId")
					}
					v.tag = strings.Join(tag, " ")
					if v.tag == "" {
						v.tag = "plain"
					}
					vs = append(vs, v)
				}
			}
		}
		var bs []xmlVariant
		for _, v := range vs {
			if !strings.Contains(v.tag, "xfId") {
				bs = append(bs, v)
			}
		}
		g.variants(cell, vs...).variants(base, bs...)
		g.variants("styleSheet/numFmts/numFmt", xmlVariant{attrs: []xmlAttr{{name: "numFmtId"}, {name: "formatCode"}}})
		w.grammar = func(*Term) *xmlGrammar { return g }
		numeric := map[*Term]bool{}
		known := func(s *State) {
			if g := s.ghost["!attrs"]; g != nil {
				for _, v := range g.Args {
					s.assumeQuiet(tNot(tEq(v, tStr(""), str)))
					s.assumeQuiet(tNot(tEqInt(tLen(v), tInt(0))))
				}
			}
		}
		head := x.H.Head
		x.H.Head = func(x *Exec, s *State, header *ssa.BasicBlock) {
			head(x, s, header)
			known(s)
		}
		w.entered = func(s *State, e *xmlEvent) {
			var keep []*Term
			for _, a := range []string{"numFmtId", "xfId"} {
				if v := e.attrs[a]; v != nil {
					numeric[v] = true
					keep = append(keep, v)
				}
			}
			// what is known of the attributes is kept up to the next token
			delete(s.ghost, "!attrs")
			if len(keep) > 0 {
				s.ghost["!attrs"] = tTuple(keep...)
				known(s)
			}
		}
		x.H.Call = func(x *Exec, s *State, ev *CallEvent) ([]Outcome, bool) {
			if o, ok := w.call(s, ev); ok {
				return o, ok
			}
			switch ev.Name {
			case "strconv.ParseInt", "strconv.Atoi", "strconv.ParseUint":
				n := tCall(ev.Name+"#0", ev.Sig.Results().At(0).Type(), ev.Args...)
				if numeric[ev.Args[0]] {
					s.assumeQuiet(tEq(tCall(ev.Name+"#1", tErrType, ev.Args...), tNil(tErrType), nil))
					s.assumeQuiet(tLe(tInt(0), n))
				}
			}
			if ev.Fn == add {
				op := mk(Term{Op: OCall, S: "Add", Args: ev.Args[1:]})
				err := x.sym(s, ev.Instr, "adderr", tErrType)
				return []Outcome{{Res: err, Do: func(s *State) {
					var ops []*Term
					if o := s.ghost["!ops"]; o != nil {
						ops = append(ops, o.Args...)
					}
					if len(ops) < 4 {
						ops = append(ops, op)
					}
					s.ghost["!ops"] = tTuple(ops...)
				}}}, true
			}
			return nil, false
		}
		type failure struct {
			rule, c, pos, msg string
			path              []string
		}
		type change struct {
			e    *xmlEvent
			kind int
			v    *Term // element added
			s    *State
			path []string
			pos  string
			o    map[string]*Term // values of the lists before
		}
		changes := map[string][]change{} // by list
		all := map[string]types.Type{}
		n := 0
		w.token = func(s *State, e *xmlEvent, locs []xmlLoc, h *ssa.BasicBlock) {
			ops := s.ghost["!ops"]
			delete(s.ghost, "!ops")
			pos := p.blockPos(h)
			n++
			lab := name + ": " + e.String()
			if e.kind == 's' && e.to == "styleSheet/numFmts/numFmt" {
				switch {
				case ops == nil || len(ops.Args) != 1:
					t.bad(nrule, lab, pos, "the number format is not registered exactly once", s.trail.lines(40)...)
				default:
					a := ops.Args[0].Args
					from, msg := parsedText(a[0])
					if msg == "" && from != e.attrs["numFmtId"] {
						msg = fmt.Sprintf("the number format is registered as %v", a[0])
					}
					if msg == "" && a[1] != e.attrs["formatCode"] {
						msg = fmt.Sprintf("the code registered is %v", a[1])
					}
					if msg != "" {
						t.bad(nrule, lab, pos, msg, s.trail.lines(40)...)
					} else {
						t.ok(nrule, lab, pos)
					}
				}
			} else if ops != nil {
				t.bad(nrule, lab, pos, "a number format is registered", s.trail.lines(40)...)
			}
			o := map[string]*Term{}
			for _, l := range locs {
				o[l.key] = l.o
			}
			for _, l := range locs {
				sl, ok := under(l.t).(*types.Slice)
				if !ok || !isInt(sl.Elem()) && !isBasic(sl.Elem(), types.IsString) {
					continue
				}
				all[l.key] = sl.Elem()
				c := change{e: e, s: s.clone(), path: s.trail.lines(40), pos: pos, o: o}
				switch {
				case l.n == l.o:
					c.kind = mKeep
					if l.n.isNil() || l.n.isConst() || tLen(l.n) == tInt(0) {
						c.kind |= mReset
					}
				case l.n.isNil() || tLen(l.n) == tInt(0):
					c.kind = mReset
				case l.n.Op == OAppend && l.n.Args[0] == l.o && len(l.n.Args) == 2:
					c.kind, c.v = mAdd, l.n.Args[1]
				}
				changes[l.key] = append(changes[l.key], c)
			}
		}
		nRet := 0
		x.H.Return = func(x *Exec, s *State, res []*Term, at ssa.Instruction) {
			var err *Term
			for _, v := range res {
				if v.T != nil && types.Identical(v.T, tErrType) {
					err = v
				}
			}
			e := w.last(s, "styles")
			if err == nil || e == nil {
				return
			}
			nRet++
			t.ok(erule, name+" ("+e.String()+")", p.InstrPos(at))
			if e.kind != 'r' && s.nilnessErr(err) != True {
				t.bad(erule, name, p.InstrPos(at), fmt.Sprintf("an error can be returned after %s", e), s.trail.lines(40)...)
			}
			if e.kind != 'f' && s.nilnessErr(err) != False {
				t.bad(erule, name, p.InstrPos(at), fmt.Sprintf("the function can return without an error after %s", e), s.trail.lines(40)...)
			}
		}
		t.after = append(t.after, func() {
			if nRet == 0 || n == 0 {
				t.bad(erule, name, p.Pos(fn.Pos()), "the styles are never read to their end")
				return
			}
			var keys []string
			for k := range all {
				keys = append(keys, k)
			}
			sort.Strings(keys)
			// text or number of a format
			isFmt := func(v, text *Term) bool {
				if v == text {
					return true
				}
				if c, ok := text.strConst(); ok && c == "0" {
					if n, ok := v.intConst(); ok && n == 0 {
						return true
					}
				}
				from, _ := parsedText(v)
				return from == text
			}
			desc := func(v *Term) string {
				if _, msg := parsedText(v); msg != "" {
					return msg
				}
				return fmt.Sprintf("the number format is %v", v)
			}
			outOfRange := func(s *State, list, i *Term) bool { return s.is(tLe(tLen(list), i)) }
			// the entry of a style
			entry := func(c change, list string) string {
				apply, own, of := c.e.attr("applyNumberFormat"), c.e.attrs["numFmtId"], c.e.attrs["xfId"]
				switch {
				case apply == "0":
					if !isFmt(c.v, tStr("0")) {
						return desc(c.v) + " although none is applied"
					}
				case own != nil:
					if !isFmt(c.v, own) {
						return desc(c.v) + " instead of its own"
					}
				case c.e.to == base || c.e.from == base:
					// a base style without a number format has none
					if !isFmt(c.v, tStr("0")) && !isFmt(c.v, tStr("")) {
						return desc(c.v) + " although it has none"
					}
				default:
					v := c.v
					if from, _ := parsedText(v); from != nil {
						v = from
					}
					for v.Op == OConv {
						v = v.Args[0]
					}
					if isFmt(v, tStr("0")) {
						for f := range c.s.facts.m {
							found := false
							f.anySub(func(u *Term) bool {
								if from, _ := parsedText(u); from != nil && (from == of || of == nil) {
									for k := range all {
										if l := c.o[k]; l != nil && outOfRange(c.s, l, u) {
											found = true
										}
									}
								}
								return found
							})
							if found {
								return ""
							}
						}
						if of == nil {
							return ""
						}
						return "the style has no number format although its base style may have one"
					}
					b, i, ok := elemOf(v)
					if !ok || c.o[list] != b {
						return desc(c.v) + " instead of that of its base style"
					}
					if from, _ := parsedText(i); of != nil && from != of {
						return fmt.Sprintf("the base style is taken from index %v", i)
					}
				}
				return ""
			}
			best := []failure(nil)
			found := false
			for _, xl := range keys {
				for _, bl := range keys {
					if xl == bl || !isInt(all[xl]) {
						continue
					}
					var f []failure
					ends := map[string]bool{}
					for _, c := range changes[xl] {
						lab := name + ": " + c.e.String()
						switch {
						case c.e.kind == 's' && c.e.to == cell:
							if c.kind&mAdd == 0 {
								f = append(f, failure{xrule, lab, c.pos, "the style is not added to the list exactly once", c.path})
							} else if msg := entry(c, bl); msg != "" {
								f = append(f, failure{xrule, lab, c.pos, msg, c.path})
							}
							ends[lab] = true
						case c.kind&mKeep == 0 && !(c.kind&mReset != 0 && (c.e.kind == 's' && c.e.to == "styleSheet/cellXfs")):
							f = append(f, failure{krule, lab, c.pos, "the list of cell styles is changed", c.path})
						}
					}
					for _, c := range changes[bl] {
						lab := name + ": " + c.e.String()
						switch {
						case c.e.kind == 's' && c.e.to == base:
							if c.kind&mAdd == 0 {
								f = append(f, failure{xrule, lab, c.pos, "the style is not added to the list exactly once", c.path})
							} else if msg := entry(c, bl); msg != "" {
								f = append(f, failure{xrule, lab, c.pos, msg, c.path})
							}
							ends[lab] = true
						case c.kind&mKeep == 0 && !(c.kind&mReset != 0 && (c.e.kind == 's' && c.e.to == "styleSheet/cellStyleXfs")):
							f = append(f, failure{krule, lab, c.pos, "the list of base styles is changed", c.path})
						}
					}
					if len(ends) == 0 {
						f = append(f, failure{xrule, name, p.Pos(fn.Pos()), "no list of styles", nil})
					}
					if !found || len(f) < len(best) {
						best, found = f, true
					}
				}
			}
			if !found {
				t.bad(xrule, name, p.Pos(fn.Pos()), "no lists of styles grow with the document")
				return
			}
			bad := map[string]bool{}
			for _, f := range best {
				if !bad[f.rule+f.c+f.msg] {
					t.bad(f.rule, f.c, f.pos, f.msg, f.path...)
				}
				bad[f.rule+f.c+f.msg], bad[f.rule+f.c] = true, true
			}
			for _, k := range keys {
				for _, c := range changes[k] {
					lab := name + ": " + c.e.String()
					if c.e.kind == 's' && (c.e.to == cell || c.e.to == base) {
						if !bad[xrule+lab] {
							t.ok(xrule, lab, c.pos)
						}
					} else if !bad[krule+lab] {
						t.ok(krule, lab, c.pos)
					}
				}
			}
		})
		return s
	})
}

// attr of an element, if it is a constant.
func (e *xmlEvent) attr(name string) string {
	if v := e.attrs[name]; v != nil {
		c, _ := v.strConst()
		return c
	}
	return ""
}
