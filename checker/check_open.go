package main

import (
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func itoa(n int) string { return strconv.Itoa(n) }

var tErrType = types.Universe.Lookup("error").Type()

// globalOf finds a package variable of the repository.
func (p *Prog) globalOf(pkg, name string) *ssa.Global {
	sp := p.ByPkg[pkg]
	if sp == nil {
		return nil
	}
	return sp.Var(name)
}

// errVar is the value of one of the exported error variables.
func (p *Prog) errVar(name string) *Term {
	g := p.globalOf(modPath, name)
	if g == nil {
		return nil
	}
	return p.constGlobal(g)
}

// registration of a format: a call of grate.Register in an initialiser.
type registration struct {
	name string
	pri  int64
	fn   *ssa.Function
	at   ssa.Instruction
}

func (p *Prog) registrations() (res []registration, unclear []ssa.Instruction) {
	reg := p.Func(modPath, "Register")
	if reg == nil {
		return
	}
	for _, f := range p.allFuncs() {
		if !p.InLib(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok || c.Common().StaticCallee() != reg {
					continue
				}
				r := registration{at: in}
				a := c.Common().Args
				nm, ok1 := a[0].(*ssa.Const)
				pr, ok2 := a[1].(*ssa.Const)
				var fn *ssa.Function
				v := a[2]
				for {
					if ct, ok := v.(*ssa.ChangeType); ok {
						v = ct.X
						continue
					}
					break
				}
				fn, ok3 := v.(*ssa.Function)
				if !ok1 || !ok2 || !ok3 || f.Name() != "init" && !strings.HasPrefix(f.Name(), "init#") {
					unclear = append(unclear, in)
					continue
				}
				r.name, _ = constTerm(nm).strConst()
				r.pri = pr.Int64()
				r.fn = fn
				res = append(res, r)
			}
		}
	}
	return
}

// allFuncs includes the synthetic package initialisers.
func (p *Prog) allFuncs() []*ssa.Function {
	res := append([]*ssa.Function{}, p.Funcs...)
	have := map[*ssa.Function]bool{}
	for _, f := range res {
		have[f] = true
	}
	for _, pk := range p.Pkgs {
		if f := p.ByPkg[pk.PkgPath].Func("init"); f != nil && !have[f] {
			have[f] = true
			res = append(res, f)
		}
	}
	return res
}

func isOpener(sig *types.Signature) bool {
	if sig.Params().Len() != 1 || sig.Results().Len() != 2 {
		return false
	}
	return isBasic(sig.Params().At(0).Type(), types.IsString) && isNamed(sig.Results().At(0).Type(), modPath, "Source")
}

func init() {
	register("P01", "path-sensitive abstract interpretation of the probing loop with the outcome of every opener enumerated",
		"Every path of Open is followed with each opener accepting, rejecting (an error matching the not-in-format error) or failing; the rule relates what is returned to the outcome of the last opener, and the scan rule shows that no registered opener is skipped.", checkOpen)
	register("P02", "table extraction of the registrations and evaluation of the ordering predicate over its SSA form",
		"The registrations of the built-in formats are read from the package initialisers; the registration function is followed on all paths to show that the entry is stored and the table is sorted, and the ordering predicate is evaluated symbolically to be exactly 'smaller priority first'.", checkPriorities)
	register("P04", "path-sensitive abstract interpretation of the error wrapper and its methods",
		"The value returned for several causes is traced to its type; the methods the errors package consults on it are followed on all paths to show that every wrapped cause is examined and a match is reported exactly when a cause matches.", checkWrap)
}

func checkOpen(r *Report) {
	p := r.P
	open := p.Func(modPath, "Open")
	if !r.need("grate.Open", open) {
		return
	}
	notIn, unknown := p.errVar("ErrNotInFormat"), p.errVar("ErrUnknownFormat")
	if notIn == nil || unknown == nil {
		r.bad("anchor", "exported errors", "?", "ErrNotInFormat or ErrUnknownFormat is not a constant error value")
		return
	}
	const rule = "outcome of the last opener decides the result"
	r.analyse("grate.Open", open, func(x *Exec, t *Report) *State {
		sc := newScan(t, "every registered format is probed in order", "openers")
		s0 := x.Start(open)
		file := s0.param(0)
		x.H.Call = func(x *Exec, s *State, ev *CallEvent) ([]Outcome, bool) {
			if ev.Fn == nil && ev.Fv != nil && isOpener(ev.Sig) {
				pos := x.P.InstrPos(ev.Instr)
				if st := s.ghost["!state"]; st != nil {
					if v, _ := st.strConst(); v != "reject" {
						t.bad(rule, "probing stops", pos, "another opener is called although an earlier one "+v+"ed", s.trail.lines(12)...)
					}
				}
				if ev.Args[0] != file {
					t.bad(rule, "file name", pos, "the opener is called with "+ev.Args[0].String())
				}
				if b, i, ok := elemOf(ev.Fv); ok {
					sc.visit(x, s, b, i, ev.Instr)
				} else {
					t.bad(rule, "opener", pos, "the opener "+ev.Fv.String()+" is not an element of the table")
				}
				src := x.sym(s, ev.Instr, "opened.src", ev.Sig.Results().At(0).Type())
				err := x.sym(s, ev.Instr, "opened.err", tErrType)
				set := func(st string) func(*State) {
					return func(s *State) {
						s.ghost["!state"] = tStr(st)
						s.ghost["!src"], s.ghost["!err"] = src, err
						s.facts = s.facts.filter(func(f *Term) bool { return !f.contains(src) && !f.contains(err) })
					}
				}
				isNotIn := mk(Term{Op: OCall, S: "errors.Is", Args: []*Term{err, notIn}, T: types.Typ[types.Bool]})
				return []Outcome{
					{Res: tTuple(src, tNil(tErrType)), Do: set("accept")},
					{Res: tTuple(src, err), Do: func(s *State) {
						set("reject")(s)
						s.assumeQuiet(tNot(tEq(err, tNil(tErrType), nil)))
						s.assumeQuiet(isNotIn)
					}},
					{Res: tTuple(src, err), Do: func(s *State) {
						set("fail")(s)
						s.assumeQuiet(tNot(tEq(err, tNil(tErrType), nil)))
						s.assumeQuiet(tNot(isNotIn))
						s.assumeQuiet(tNot(tEq(err, notIn, nil)))
						s.assumeQuiet(tNot(tEq(err, unknown, nil)))
					}},
				}, true
			}
			return nil, false
		}
		x.H.BackEdge = func(x *Exec, s *State, h *ssa.BasicBlock, inLoop func(*Term) bool, old, nw map[*ssa.Phi]*Term) {
			sc.backEdge(x, s, h, old, nw)
		}
		x.H.Edge = sc.edge
		x.H.Return = func(x *Exec, s *State, res []*Term, at ssa.Instruction) {
			pos := x.P.InstrPos(at)
			st := "none"
			if g := s.ghost["!state"]; g != nil {
				st, _ = g.strConst()
			}
			src, err := res[0], res[1]
			bad := func(c, m string) { t.bad(rule, c, pos, m, s.trail.lines(12)...) }
			t.ok(rule, "return after: "+st, pos)
			switch st {
			case "accept":
				if src != s.ghost["!src"] {
					bad("accepted source", "the opener accepted the file but "+src.String()+" is returned")
				}
				if s.nilness(err) != True {
					bad("accepted error", "the opener accepted the file but the error may be non-nil")
				}
			case "fail":
				if s.nilness(src) != True {
					bad("source on failure", "a source is returned together with an error")
				}
				if err != s.ghost["!err"] {
					bad("error of the opener", "the opener failed but "+err.String()+" is returned instead of its error")
				}
			default:
				if s.nilness(src) != True {
					bad("source of an unknown format", "a source may be returned although no opener accepted the file")
				}
				if err != unknown {
					bad("unknown format", "no opener accepted the file but the error is "+err.String())
				}
				done := false
				for b := range sc.idx {
					if sc.complete(s, b) {
						done = true
					}
				}
				if st != "none" && !done {
					bad("all formats", "the format is called unknown before every opener was asked")
				}
				if st == "none" && sc.base != nil && !done {
					bad("all formats", "the format is called unknown without asking any opener")
				}
			}
		}
		x.H.Panic = func(x *Exec, s *State, at ssa.Instruction) {
			t.bad(rule, "panic", x.P.InstrPos(at), "Open panics")
		}
		defer func() {}()
		t.after = append(t.after, func() { sc.done(x) })
		return s0
	})
	r.expect(rule, 4)
}

func checkPriorities(r *Report) {
	p := r.P
	regf := p.Func(modPath, "Register")
	if !r.need("grate.Register", regf) {
		return
	}
	regs, unclear := p.registrations()
	for _, in := range unclear {
		r.bad("built-in formats", "registration in "+shortName(in.Parent()), p.InstrPos(in), "the registration is not a constant entry of a package initialiser")
	}
	byName := map[string]registration{}
	for _, g := range regs {
		if _, dup := byName[g.name]; dup {
			r.bad("built-in formats", g.name, p.InstrPos(g.at), "registered twice")
		}
		byName[g.name] = g
		r.ok("built-in formats", g.name+" priority "+strconv.FormatInt(g.pri, 10), p.InstrPos(g.at))
		r.fn(g.fn)
	}
	order := []string{"xls", "xlsx", "tsv", "csv"}
	where := map[string]string{"xls": modPath + "/xls", "xlsx": modPath + "/xlsx", "tsv": modPath + "/simple", "csv": modPath + "/simple"}
	for i, n := range order {
		g, ok := byName[n]
		if !ok {
			r.bad("built-in formats", n, "?", "the format is not registered")
			continue
		}
		if pk := fnPkg(g.fn); pk == nil || pk.Path() != where[n] {
			r.bad("built-in formats", n, p.InstrPos(g.at), "registered with the opener "+shortName(g.fn))
		}
		if i > 0 {
			if h, ok := byName[order[i-1]]; ok && h.pri >= g.pri {
				r.bad("built-in formats", n, p.InstrPos(g.at), "is not probed after "+h.name)
			}
		}
	}
	if a, b := byName["tsv"], byName["csv"]; a.fn != nil && a.fn == b.fn {
		r.bad("built-in formats", "csv", p.InstrPos(b.at), "registered with the opener of tsv")
	}
	// which formats an opener is for
	for n, part := range map[string]string{"csv": "encoding/csv"} {
		if g, ok := byName[n]; ok && !p.reaches(g.fn, func(f string) bool { return strings.Contains(f, part) }) {
			r.bad("built-in formats", n, p.InstrPos(g.at), "its opener "+shortName(g.fn)+" does not use "+part)
		}
	}
	if g, ok := byName["tsv"]; ok && p.reaches(g.fn, func(f string) bool { return strings.Contains(f, "encoding/csv") }) {
		r.bad("built-in formats", "tsv", p.InstrPos(g.at), "its opener "+shortName(g.fn)+" parses comma separated values")
	}

	const rule = "registered entries are stored and the table is sorted"
	priField := -1
	var less *ssa.Function
	var lessCmp bool
	r.analyse("grate.Register", regf, func(x *Exec, t *Report) *State {
		s0 := x.Start(regf)
		name, pri, op := s0.param(0), s0.param(1), s0.param(2)
		var table *Term
		x.H.Store = func(x *Exec, s *State, addr, val *Term, at ssa.Instruction) {
			if addr.Op == OGlobal && val.Op == OAppend && len(val.Args) == 2 && val.Args[0] == s.load(addr) {
				o := val.Args[1]
				full := map[*Term]bool{}
				st, _ := under(pointee0(o.T)).(*types.Struct)
				if st == nil {
					st, _ = under(o.T).(*types.Struct)
				}
				if st != nil {
					for i := 0; i < st.NumFields(); i++ {
						var v *Term
						if _, isP := under(o.T).(*types.Pointer); isP {
							v = s.load(tFieldAddr(o, i, types.NewPointer(st.Field(i).Type())))
						} else {
							v = fieldOf(o, i, st.Field(i).Type())
						}
						full[v] = true
						if v == pri {
							priField = i
						}
					}
				}
				if !full[name] || !full[pri] || !full[op] {
					t.bad(rule, "entry", x.P.InstrPos(at), "the stored entry lacks the name, priority or opener")
				}
				table = addr
				s.ghost["!stored"] = tBool(true)
				delete(s.ghost, "!sorted")
				t.ok(rule, "entry", x.P.InstrPos(at))
			}
		}
		x.H.Call = func(x *Exec, s *State, ev *CallEvent) ([]Outcome, bool) {
			switch ev.Name {
			case "sort.Slice", "sort.SliceStable", "slices.SortFunc", "slices.SortStableFunc":
				lessCmp = strings.HasPrefix(ev.Name, "slices.")
				a := ev.Args[0]
				if a.Op == OIface {
					a = a.Args[0]
				}
				f := ev.Args[1]
				if table != nil && a == s.load(table) && (f.Op == OFunc || f.Op == OClosure) {
					less, _ = f.G.(*ssa.Function)
					s.ghost["!sorted"] = tBool(true)
					t.ok(rule, "sorting", x.P.InstrPos(ev.Instr))
				}
				return []Outcome{{}}, true
			}
			return nil, false
		}
		x.H.Return = func(x *Exec, s *State, res []*Term, at ssa.Instruction) {
			if s.nilness(res[0]) == False {
				return
			}
			if s.ghost["!stored"] == nil {
				t.bad(rule, "return", x.P.InstrPos(at), "the format is not added to the table", s.trail.lines(8)...)
			} else if s.ghost["!sorted"] == nil {
				t.bad(rule, "return", x.P.InstrPos(at), "the table is not sorted after the format was added", s.trail.lines(8)...)
			}
			t.ok(rule, "return", x.P.InstrPos(at))
		}
		return s0
	})
	r.expect(rule, 3)
	if less == nil || len(less.Params) != 2 {
		r.bad("ordering predicate", "grate.Register", p.Pos(regf.Pos()), "no ordering predicate found")
		return
	}
	r.analyse("ordering predicate", less, func(x *Exec, t *Report) *State {
		s0 := x.Start(less)
		i, j := s0.param(0), s0.param(1)
		x.H.Return = func(x *Exec, s *State, res []*Term, at ssa.Instruction) {
			t.ok("ordering predicate", "smaller priority first", x.P.InstrPos(at))
			ok := false
			v := res[0]
			if !lessCmp {
				// pri[i] < pri[j]: a linear constraint a_i - a_j + 1 <= 0
				if v.Op == OLe {
					l := toLin(v.Args[0])
					var pos, neg *Term
					for a, c := range l.m {
						if c == 1 {
							pos = a
						} else if c == -1 {
							neg = a
						}
					}
					ok = len(l.m) == 2 && l.k == 1 && pos != nil && neg != nil && pos.contains(i) && !pos.contains(j) &&
						neg.contains(j) && !neg.contains(i) && isField(pos, priField) && isField(neg, priField)
				}
				if c, isC := v.boolConst(); isC {
					// decided by the path: accept if consistent, needs the priorities on the path
					_ = c
				}
			} else {
				// compare function: the sign of pri[i]-pri[j]
				l := toLin(v)
				var pos, neg *Term
				for a, c := range l.m {
					if c == 1 {
						pos = a
					} else if c == -1 {
						neg = a
					}
				}
				ok = len(l.m) == 2 && l.k == 0 && pos != nil && neg != nil && pos.contains(i) && neg.contains(j) && isField(pos, priField) && isField(neg, priField)
				if v.Op == OCall && v.S == "cmp.Compare" && v.Args[0].contains(i) && v.Args[1].contains(j) && isField(v.Args[0], priField) && isField(v.Args[1], priField) {
					ok = true
				}
			}
			if !ok {
				t.bad("ordering predicate", "smaller priority first", x.P.InstrPos(at), "entries are ordered by "+v.String())
			}
		}
		return s0
	})
	_ = token.LSS
}

func pointee0(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if p, ok := under(t).(*types.Pointer); ok {
		return p.Elem()
	}
	return nil
}

// isField: a load of field i.
func isField(t *Term, i int) bool {
	if t.Op == OInit && t.Args[0].Op == OFieldAddr {
		return int(t.Args[0].I) == i
	}
	return t.Op == OField && int(t.I) == i
}

// reaches tells whether f (transitively, through static calls and function
// references of the repository) calls something matching.
func (p *Prog) reaches(f *ssa.Function, match func(string) bool) bool {
	seen := map[*ssa.Function]bool{}
	var rec func(f *ssa.Function) bool
	rec = func(f *ssa.Function) bool {
		if seen[f] {
			return false
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok && c.Common().IsInvoke() {
					if match(c.Common().Method.FullName()) {
						return true
					}
				}
				var ops [16]*ssa.Value
				for _, o := range in.Operands(ops[:0]) {
					g, ok := (*o).(*ssa.Function)
					if !ok {
						continue
					}
					if match(g.String()) {
						return true
					}
					if p.InModule(g) && rec(g) {
						return true
					}
				}
			}
		}
		return false
	}
	return rec(f)
}

func checkWrap(r *Report) {
	p := r.P
	wrap := p.Func(modPath, "WrapErr")
	if !r.need("grate.WrapErr", wrap) {
		return
	}
	const rule = "the wrapper keeps all causes"
	var wt types.Type
	field := -1
	r.analyse("grate.WrapErr", wrap, func(x *Exec, t *Report) *State {
		s0 := x.Start(wrap)
		errs := s0.param(0)
		x.H.Return = func(x *Exec, s *State, res []*Term, at ssa.Instruction) {
			pos := x.P.InstrPos(at)
			e := res[0]
			t.ok(rule, "WrapErr", pos)
			if e.Op == OInit && e.Args[0] == tIndexAddr(errs, tInt(0), nil) || sameElem(e, errs, 0) {
				// a single cause is returned as it is
				if !s.is(tEqInt(tLen(errs), tInt(1))) {
					t.bad(rule, "WrapErr", pos, "only the first of several causes is returned", s.trail.lines(8)...)
				}
				return
			}
			if e.Op != OIface {
				if s.is(tEqInt(tLen(errs), tInt(0))) {
					return
				}
				t.bad(rule, "WrapErr", pos, "returns "+e.String(), s.trail.lines(8)...)
				return
			}
			if e.Op == OIface && p.fullJoin(e, s, errs) {
				return
			}
			v := e.Args[0]
			st, _ := under(e.T).(*types.Struct)
			ptr := false
			if st == nil {
				if pt, ok := under(e.T).(*types.Pointer); ok {
					st, _ = under(pt.Elem()).(*types.Struct)
					ptr = true
				}
			}
			if sl, ok := under(e.T).(*types.Slice); ok && sl != nil {
				if v.Op == OConv {
					v = v.Args[0]
				}
				if v == errs {
					wt, field = e.T, -2
					return
				}
			}
			found := false
			if st != nil {
				for i := 0; i < st.NumFields(); i++ {
					var f *Term
					if ptr {
						f = s.load(tFieldAddr(v, i, types.NewPointer(st.Field(i).Type())))
					} else {
						f = fieldOf(v, i, st.Field(i).Type())
					}
					if f == errs {
						found, field = true, i
					}
				}
			}
			if !found {
				t.bad(rule, "WrapErr", pos, "the returned value does not hold the list of causes: "+e.String())
				return
			}
			wt = e.T
		}
		return s0
	})
	r.expect(rule, 1)
	if wt == nil {
		if len(r.viols) == 0 {
			r.note("WrapErr builds on the errors package")
		}
		return
	}
	// what errors.Is and errors.As consult
	unwrap := p.Method(wt, "Unwrap")
	if unwrap != nil && unwrap.Signature.Results().Len() == 1 {
		if _, ok := under(unwrap.Signature.Results().At(0).Type()).(*types.Slice); ok {
			r.analyse("Unwrap", unwrap, func(x *Exec, t *Report) *State {
				s0 := x.Start(unwrap)
				want := causes(s0, s0.param(0), field)
				x.H.Return = func(x *Exec, s *State, res []*Term, at ssa.Instruction) {
					t.ok("every cause can be matched", "Unwrap", x.P.InstrPos(at))
					if res[0] != want {
						t.bad("every cause can be matched", "Unwrap", x.P.InstrPos(at), "yields "+res[0].String()+" instead of all causes")
					}
				}
				return s0
			})
			r.checkMessage(wt, field)
			return
		}
	}
	for _, m := range []string{"Is", "As"} {
		f := p.Method(wt, m)
		if f == nil || len(f.Blocks) == 0 {
			r.bad("every cause can be matched", m, p.Pos(wrap.Pos()), "errors."+m+" cannot see all of the causes: the wrapper has no "+m+" method")
			continue
		}
		m := m
		r.analyse(m, f, func(x *Exec, t *Report) *State {
			rule := "every cause can be matched"
			sc := newScan(t, rule, "causes examined by "+m)
			s0 := x.Start(f)
			list := causes(s0, s0.param(0), field)
			target := s0.param(1)
			x.H.Call = func(x *Exec, s *State, ev *CallEvent) ([]Outcome, bool) {
				if ev.Name == "errors."+m {
					b, i, ok := elemOf(ev.Args[0])
					if !ok || b != list || ev.Args[1] != target {
						return nil, false
					}
					sc.visit(x, s, b, i, ev.Instr)
					return []Outcome{
						{Res: tBool(true), Do: func(s *State) { s.ghost["!match"] = tBool(true) }},
						{Res: tBool(false)},
					}, true
				}
				return nil, false
			}
			x.H.BackEdge = func(x *Exec, s *State, h *ssa.BasicBlock, inLoop func(*Term) bool, old, nw map[*ssa.Phi]*Term) {
				sc.backEdge(x, s, h, old, nw)
			}
			x.H.Edge = sc.edge
			x.H.Return = func(x *Exec, s *State, res []*Term, at ssa.Instruction) {
				pos := x.P.InstrPos(at)
				b, isC := res[0].boolConst()
				if !isC {
					t.bad(rule, m, pos, "the result "+res[0].String()+" is not the match of a cause")
					return
				}
				if b && s.ghost["!match"] == nil {
					t.bad(rule, m, pos, "a match is reported although no cause matched", s.trail.lines(8)...)
				}
				if !b && s.ghost["!match"] != nil {
					t.bad(rule, m, pos, "the match of a cause is dropped", s.trail.lines(8)...)
				}
				if !b && !sc.complete(s, list) {
					t.bad(rule, m, pos, "no match is reported before all causes were examined", s.trail.lines(8)...)
				}
			}
			t.after = append(t.after, func() { sc.done(x) })
			return s0
		})
	}
	r.checkMessage(wt, field)
}

// causes is the list of causes in the wrapper value.
func causes(s *State, recv *Term, field int) *Term {
	if field == -2 {
		return recv
	}
	if pt, ok := under(recv.T).(*types.Pointer); ok {
		st := under(pt.Elem()).(*types.Struct)
		return s.load(tFieldAddr(recv, field, types.NewPointer(st.Field(field).Type())))
	}
	st := under(recv.T).(*types.Struct)
	return fieldOf(recv, field, st.Field(field).Type())
}

func sameElem(e, base *Term, i int64) bool {
	if e.Op != OInit || e.Args[0].Op != OIndexAddr {
		return false
	}
	n, ok := e.Args[0].Args[1].intConst()
	return ok && n == i && e.Args[0].Args[0] == base
}

// fullJoin: the standard errors.Join of all causes (nothing to examine).
func (p *Prog) fullJoin(e *Term, s *State, errs *Term) bool { return false }

// checkMessage: the text of the wrapper is the one of the first cause.
func (r *Report) checkMessage(wt types.Type, field int) {
	f := r.P.Method(wt, "Error")
	if !r.need("Error method of the wrapper", f) {
		return
	}
	r.analyse("Error", f, func(x *Exec, t *Report) *State {
		s0 := x.Start(f)
		list := causes(s0, s0.param(0), field)
		x.H.Call = func(x *Exec, s *State, ev *CallEvent) ([]Outcome, bool) {
			if ev.Name == "(error).Error" {
				b, i, ok := elemOf(ev.Args[0])
				if ok && b == list {
					return []Outcome{{Res: tCall("message", types.Typ[types.String], i)}}, true
				}
			}
			return nil, false
		}
		x.H.Return = func(x *Exec, s *State, res []*Term, at ssa.Instruction) {
			t.ok("the message names the first cause", "Error", x.P.InstrPos(at))
			want := tCall("message", types.Typ[types.String], tInt(0))
			if res[0].anySub(func(u *Term) bool { return u == want }) {
				return
			}
			if s.is(tLe(tLen(list), tInt(0))) {
				return
			}
			t.bad("the message names the first cause", "Error", x.P.InstrPos(at), "the message is "+res[0].String(), s.trail.lines(8)...)
		}
		return s0
	})
}
