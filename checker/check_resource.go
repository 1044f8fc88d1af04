package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P05", "typestate analysis of file handles over all paths, including the unwinding of panics",
		"Every exported library function that can open a file is followed on all paths, with every call of other repository code returning anything or panicking; when the function ends a handle must be closed or be held by the returned source, whose Close method must close it on all of its paths.", checkHandles)
}

func acquires(name string) bool {
	switch name {
	case "os.Open", "os.OpenFile", "os.Create", "os.CreateTemp", "archive/zip.OpenReader", "syscall.Open":
		return true
	}
	return false
}

func releases(name string) bool {
	switch name {
	case "(*os.File).Close", "(*archive/zip.ReadCloser).Close", "(io.Closer).Close", "(io.ReadCloser).Close":
		return true
	}
	return false
}

// hasRecover: the function recovers panics in a deferred function.
func hasRecover(f *ssa.Function) bool { return f.Recover != nil && deferRecovers(f) }

func deferRecovers(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			d, ok := in.(*ssa.Defer)
			if !ok {
				continue
			}
			g := d.Call.StaticCallee()
			if g == nil {
				if c, ok := d.Call.Value.(*ssa.MakeClosure); ok {
					g, _ = c.Fn.(*ssa.Function)
				}
			}
			if g == nil || callsRecover(g) {
				return true
			}
		}
	}
	return false
}

func callsRecover(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok {
				if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "recover" {
					return true
				}
			}
		}
	}
	return false
}

// unwindCone: functions whose effect on unwinding or on the matching calls
// has to be followed in detail.
func (p *Prog) unwindCone(match func(string) bool) func(f *ssa.Function) bool {
	memo := map[*ssa.Function]bool{}
	return func(f *ssa.Function) bool {
		if v, ok := memo[f]; ok {
			return v
		}
		memo[f] = false
		v := f.Parent() != nil || f.Recover != nil || callsRecover(f) || match != nil && p.reaches(f, match)
		if !v {
			v = p.reachesFn(f, func(g *ssa.Function) bool { return callsRecover(g) || match != nil && storesHandle(g) })
		}
		memo[f] = v
		return v
	}
}

func (p *Prog) reachesFn(f *ssa.Function, match func(*ssa.Function) bool) bool {
	seen := map[*ssa.Function]bool{}
	var rec func(f *ssa.Function) bool
	rec = func(f *ssa.Function) bool {
		if seen[f] {
			return false
		}
		seen[f] = true
		if match(f) {
			return true
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var ops [16]*ssa.Value
				for _, o := range in.Operands(ops[:0]) {
					if g, ok := (*o).(*ssa.Function); ok && p.InModule(g) && rec(g) {
						return true
					}
				}
			}
		}
		return false
	}
	return rec(f)
}

// storesHandle: the function puts a file handle into a structure.
func storesHandle(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if st, ok := in.(*ssa.Store); ok {
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
					t := pointee0(fa.Type())
					if pt, ok := t.(*types.Pointer); ok && (isNamed(pt.Elem(), "os", "File") || isNamed(pt.Elem(), "archive/zip", "ReadCloser")) {
						return true
					}
				}
			}
		}
	}
	return false
}

// anyOutcome: a call of repository code which is not followed returns anything
// or panics.
func (x *Exec) anyOutcome(s *State, ev *CallEvent) []Outcome {
	at := ev.Instr
	var res *Term
	if ev.Sig.Results().Len() > 0 {
		res = x.fresh(s, at, "result", ev.Sig.Results(), ev.Args...)
	}
	hv := func(s *State) {
		a := ev.Args
		if ev.Fv != nil {
			a = append(append([]*Term{}, a...), ev.Fv)
		}
		s.havoc(a, x.epochSym(s, at, "call"))
	}
	forget := func(s *State) {
		if res == nil {
			return
		}
		fr := []*Term{res}
		if res.Op == OTuple {
			fr = res.Args
		}
		s.facts = s.facts.filter(func(f *Term) bool {
			for _, y := range fr {
				if f.contains(y) {
					return false
				}
			}
			return true
		})
		hv(s)
	}
	if ev.Fn != nil && x.P.panicFree(ev.Fn, s, ev.Args) {
		return []Outcome{{Res: res, Do: forget}}
	}
	return []Outcome{
		{Res: res, Do: forget},
		{Panic: true, Do: func(s *State) {
			s.note(x.P.InstrPos(at), shortCall(ev)+" panics")
			hv(s)
		}},
	}
}

// panicFree shows that a function cannot panic: all of its paths, including
// the repository code it calls, meet the conditions of their operations.
func (p *Prog) panicFree(f *ssa.Function, at *State, args []*Term) bool {
	key := f.String()
	for i, a := range args {
		if a.T != nil && i < len(f.Params) {
			if _, ok := under(a.T).(*types.Pointer); ok && at.nilness(a) == False {
				key += "," + itoa(i)
			}
		}
	}
	if v, ok := p.noPanic[key]; ok {
		return v
	}
	if p.noPanic == nil {
		p.noPanic = map[string]bool{}
	}
	p.noPanic[key] = false
	if p.codeSize(f) > 1500 {
		return false
	}
	x := NewExec(p, Hooks{})
	x.JoinAt, x.Max = 6, 30000
	ok := true
	s0 := x.Start(f)
	for i, a := range args {
		if a.T != nil && i < len(f.Params) {
			if _, isP := under(a.T).(*types.Pointer); isP && at.nilness(a) == False {
				s0.assumeQuiet(tNot(tEq(s0.param(i), tNil(f.Params[i].Type()), nil)))
			}
		}
	}
	x.H.Oblig = func(x *Exec, s *State, kind string, cond *Term, at ssa.Instruction) bool { return !cond.isConst() }
	x.H.Panic = func(x *Exec, s *State, at ssa.Instruction) {
		ok = false
		x.Over = true
		x.work = nil
	}
	x.Run(s0)
	if x.Over {
		ok = false
	}
	p.noPanic[key] = ok
	return ok
}

// codeSize counts the instructions of a function and the repository code it
// refers to.
func (p *Prog) codeSize(f *ssa.Function) int {
	n := 0
	p.reachesFn(f, func(g *ssa.Function) bool {
		for _, b := range g.Blocks {
			n += len(b.Instrs)
		}
		return false
	})
	return n
}

// onlyFrom: f is part of g: it is g or is only referred to by parts of g.
func (p *Prog) onlyFrom(f, g *ssa.Function) bool {
	if p.refs == nil {
		p.refs = map[*ssa.Function]map[*ssa.Function]bool{}
		for _, h := range p.allFuncs() {
			for _, b := range h.Blocks {
				for _, in := range b.Instrs {
					var ops [16]*ssa.Value
					for _, o := range in.Operands(ops[:0]) {
						if t, ok := (*o).(*ssa.Function); ok {
							if p.refs[t] == nil {
								p.refs[t] = map[*ssa.Function]bool{}
							}
							p.refs[t][h] = true
						}
					}
				}
			}
		}
	}
	seen := map[*ssa.Function]bool{}
	var rec func(f *ssa.Function) bool
	rec = func(f *ssa.Function) bool {
		if f == g || seen[f] {
			return true
		}
		seen[f] = true
		if f.Parent() != nil {
			return rec(f.Parent())
		}
		if f.Object() != nil && f.Object().Exported() || len(p.refs[f]) == 0 {
			return false
		}
		for h := range p.refs[f] {
			if !rec(h) {
				return false
			}
		}
		return true
	}
	return rec(f)
}

func shortCall(ev *CallEvent) string { return strings.ReplaceAll(ev.Name, modPath, "grate") }

// publicFuncs: exported functions and methods of the library.
func (p *Prog) publicFuncs() []*ssa.Function {
	var res []*ssa.Function
	for _, f := range p.Funcs {
		if !p.InLib(f) || f.Parent() != nil || f.Synthetic != "" || f.Object() == nil || !f.Object().Exported() {
			continue
		}
		res = append(res, f)
	}
	return res
}

// openers: the functions registered for the formats.
func (p *Prog) openers() []*ssa.Function {
	var res []*ssa.Function
	seen := map[*ssa.Function]bool{}
	regs, _ := p.registrations()
	for _, g := range regs {
		if !seen[g.fn] {
			seen[g.fn] = true
			res = append(res, g.fn)
		}
	}
	sort.Slice(res, func(i, j int) bool { return res[i].String() < res[j].String() })
	return res
}

func checkHandles(r *Report) {
	p := r.P
	const rule = "a file handle is closed or owned by the returned source"
	roots := map[*ssa.Function]bool{}
	for _, f := range p.openers() {
		roots[f] = true
	}
	for _, f := range p.publicFuncs() {
		if p.reaches(f, acquires) {
			roots[f] = true
		}
	}
	var fs []*ssa.Function
	for f := range roots {
		fs = append(fs, f)
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].String() < fs[j].String() })
	owners := map[types.Type]map[int]bool{} // source type => fields with a handle
	acquired := map[ssa.Instruction]bool{}
	for _, f := range fs {
		f := f
		cone := p.unwindCone(func(n string) bool { return acquires(n) || releases(n) })
		r.analyse(shortName(f), f, func(x *Exec, t *Report) *State {
			s0 := x.Start(f)
			x.H.Call = func(x *Exec, s *State, ev *CallEvent) ([]Outcome, bool) {
				if acquires(ev.Name) {
					acquired[ev.Instr] = true
					t.ok(rule, "opened in "+shortName(ev.Instr.Parent()), x.P.InstrPos(ev.Instr))
					h := x.fresh(s, ev.Instr, "handle", ev.Sig.Results().At(0).Type())
					e := x.fresh(s, ev.Instr, "openerr", tErrType)
					if s.ghost["!open"+itoa(h.id)] != nil {
						t.bad(rule, "opened in "+shortName(ev.Instr.Parent()), x.P.InstrPos(ev.Instr), "opened again while the earlier handle is still open", s.trail.lines(10)...)
					}
					return []Outcome{
						{Res: tTuple(tNil(h.T), e), Do: func(s *State) {
							s.facts = s.facts.filter(func(f *Term) bool { return !f.contains(h) && !f.contains(e) })
							s.assumeQuiet(tNot(tEq(e, tNil(e.T), nil)))
						}},
						{Res: tTuple(h, tNil(e.T)), Do: func(s *State) {
							s.facts = s.facts.filter(func(f *Term) bool { return !f.contains(h) && !f.contains(e) })
							s.assumeQuiet(tNot(tEq(h, tNil(h.T), nil)))
							s.ghost["!open"+itoa(h.id)] = tTuple(h, tStr(x.P.InstrPos(ev.Instr)))
						}},
					}, true
				}
				if releases(ev.Name) {
					h := ev.Args[0]
					if h.Op == OIface {
						h = h.Args[0]
					}
					delete(s.ghost, "!open"+itoa(h.id))
					e := x.fresh(s, ev.Instr, "closeerr", ev.Sig.Results())
					return []Outcome{{Res: e, Do: func(s *State) {
						s.facts = s.facts.filter(func(f *Term) bool { return !f.contains(e) })
					}}}, true
				}
				if ev.Fn != nil && x.P.InModule(ev.Fn) && !cone(ev.Fn) {
					outs := x.anyOutcome(s, ev)
					// the handles held in objects made here stay where they are:
					// nothing else assigns to the field (checked below)
					keep := map[*Term]*Term{}
					for k, g := range s.ghost {
						if strings.HasPrefix(k, "!held") {
							keep[g.Args[0]] = g.Args[1]
						}
					}
					for i := range outs {
						do := outs[i].Do
						outs[i].Do = func(s *State) {
							do(s)
							for a, h := range keep {
								s.mem[a] = h
							}
						}
					}
					return outs, true
				}
				return nil, false
			}
			x.H.Store = func(x *Exec, s *State, addr, val *Term, at ssa.Instruction) {
				if s.ghost["!open"+itoa(val.id)] != nil && addr.Op == OFieldAddr && addr.Args[0].Op == OObj {
					s.ghost["!held"+itoa(addr.id)] = tTuple(addr, val)
				}
			}
			x.H.Oblig = func(x *Exec, s *State, kind string, cond *Term, at ssa.Instruction) bool { return !cond.isConst() }
			leaked := func(x *Exec, s *State, src *Term, at ssa.Instruction, how string) {
				for k, g := range s.ghost {
					if !strings.HasPrefix(k, "!open") {
						continue
					}
					h, where := g.Args[0], g.Args[1]
					w, _ := where.strConst()
					c := "opened in " + shortName(h.Site.Instr.Parent()) + ", " + how
					pos := x.P.InstrPos(at)
					t.ok(rule, c, pos)
					if src != nil {
						o := src
						if o.Op == OIface {
							o = o.Args[0]
						}
						held := -1
						for k2, g2 := range s.ghost {
							if strings.HasPrefix(k2, "!held") && g2.Args[1] == h && g2.Args[0].Args[0] == o && s.load(g2.Args[0]) == h {
								held = int(g2.Args[0].I)
							}
						}
						if held >= 0 {
							if owners[o.T] == nil {
								owners[o.T] = map[int]bool{}
							}
							owners[o.T][held] = true
							continue
						}
					}
					t.bad(rule, c, pos, "the file opened at "+w+" is neither closed nor held by the result", s.trail.lines(14)...)
				}
			}
			x.H.Return = func(x *Exec, s *State, res []*Term, at ssa.Instruction) {
				t.ok(rule, "returns of "+shortName(f), x.P.InstrPos(at))
				var src *Term
				if len(res) > 0 && s.nilness(res[0]) != True {
					src = res[0]
				}
				if src != nil && len(res) > 1 && s.nilness(res[len(res)-1]) == False {
					src = nil // callers do not close what comes with an error
				}
				leaked(x, s, src, at, "returned from "+shortName(f))
			}
			x.H.Panic = func(x *Exec, s *State, at ssa.Instruction) {
				t.ok(rule, "panics leaving "+shortName(f), x.P.InstrPos(at))
				leaked(x, s, nil, at, "panic leaving "+shortName(f))
			}
			return s0
		})
	}
	// every call opening a file was seen by the analysis
	for _, f := range p.allFuncs() {
		if !p.InLib(f) {
			continue
		}
		extRefs(f, func(in ssa.Instruction, name string, v ssa.Value) {
			if !acquires(name) {
				return
			}
			if c, ok := in.(ssa.CallInstruction); ok && c.Common().Value == v {
				if acquired[in] {
					return
				}
			}
			r.bad(rule, "opened in "+shortName(f), p.InstrPos(in), "the file is not opened by a function which the analysis follows")
		})
	}
	r.expect(rule, 8)

	const own = "closing the source closes its file"
	var ts []types.Type
	for t := range owners {
		ts = append(ts, t)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].String() < ts[j].String() })
	for _, ot := range ts {
		for fi := range owners[ot] {
			r.checkOwner(own, ot, fi)
		}
	}
}

func (r *Report) checkOwner(rule string, ot types.Type, fi int) {
	p := r.P
	pt := pointee0(ot)
	if pt == nil {
		r.bad(rule, ot.String(), "?", "the source holding a file is not a pointer to a structure")
		return
	}
	st, _ := under(pt).(*types.Struct)
	name := strings.ReplaceAll(types.TypeString(ot, nil), modPath, "grate")
	// nobody else assigns to the field
	stores := 0
	for _, f := range p.allFuncs() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok || fa.Field != fi || !types.Identical(pointee0(fa.X.Type()), pt) {
					continue
				}
				for _, ref := range *fa.Referrers() {
					switch y := ref.(type) {
					case *ssa.UnOp:
					case *ssa.DebugRef:
					case *ssa.Store:
						if y.Addr != fa {
							r.bad(rule, name+" field "+st.Field(fi).Name(), p.InstrPos(ref), "the address of the file handle is stored")
							continue
						}
						if cst, ok := y.Val.(*ssa.Const); ok && cst.Value == nil {
							if !p.onlyFrom(f, p.Method(ot, "Close")) {
								r.bad(rule, name+" field "+st.Field(fi).Name(), p.InstrPos(ref), "the file handle is dropped outside of Close")
							}
							continue
						}
						stores++
					default:
						r.bad(rule, name+" field "+st.Field(fi).Name(), p.InstrPos(ref), "the address of the file handle is used")
					}
				}
			}
		}
	}
	if stores != 1 {
		r.bad(rule, name+" field "+st.Field(fi).Name(), "?", "the file handle of a source is assigned in "+itoa(stores)+" places")
	}
	cl := p.Method(ot, "Close")
	if !r.need("Close method of "+name, cl) {
		return
	}
	cone := p.unwindCone(releases)
	r.analyse(shortName(cl), cl, func(x *Exec, t *Report) *State {
		s0 := x.Start(cl)
		h := s0.load(tFieldAddr(s0.param(0), fi, types.NewPointer(st.Field(fi).Type())))
		s0.ghost["!h"] = h
		x.H.Call = func(x *Exec, s *State, ev *CallEvent) ([]Outcome, bool) {
			if releases(ev.Name) {
				a := ev.Args[0]
				if a.Op == OIface {
					a = a.Args[0]
				}
				if a == h {
					s.ghost["!closed"] = tBool(true)
				}
			}
			if ev.Fn != nil && x.P.InModule(ev.Fn) && !cone(ev.Fn) {
				outs := x.anyOutcome(s, ev)
				a := tFieldAddr(s0.param(0), fi, types.NewPointer(st.Field(fi).Type()))
				for i := range outs {
					do := outs[i].Do
					outs[i].Do = func(s *State) {
						was := s.load(a)
						do(s)
						s.mem[a] = was
					}
				}
				return outs, true
			}
			return nil, false
		}
		x.H.Return = func(x *Exec, s *State, res []*Term, at ssa.Instruction) {
			t.ok(rule, name, x.P.InstrPos(at))
			if s.ghost["!closed"] == nil && s.nilness(h) != True {
				t.bad(rule, name, x.P.InstrPos(at), "Close can return without closing the file", s.trail.lines(10)...)
			}
		}
		x.H.Panic = func(x *Exec, s *State, at ssa.Instruction) {
			t.ok(rule, name, x.P.InstrPos(at))
			if s.ghost["!closed"] == nil {
				t.bad(rule, name, x.P.InstrPos(at), "Close can panic without closing the file", s.trail.lines(10)...)
			}
		}
		return s0
	})
	r.expect(rule, 1)
}
