package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P07", "path analysis of panic propagation (may-panic calls, deferred recovery) and of the conditions of every operation outside of a recovery boundary",
		"Opening, listing, getting and closing are followed on all paths. Calls of other repository code may panic unless shown not to; a panic must be recovered before it leaves, and what is returned after it must be an error without a result. Operations outside of a recovery boundary (indexing, slicing, dereferences, assertions) must be shown to meet their conditions.", checkPanics)
}

// nonNilElems finds the pointer types whose values in slices are never nil:
// every element that is stored or appended anywhere is shown not to be nil.
func (p *Prog) nonNilElems() func(types.Type) bool {
	if p.elemOK != nil {
		return func(t types.Type) bool { return p.elemOK[typeKey(t)] }
	}
	p.elemOK = map[string]bool{}
	elem := func(t types.Type) types.Type {
		sl, ok := under(t).(*types.Slice)
		if !ok {
			return nil
		}
		pt, ok := sl.Elem().(*types.Pointer)
		if !ok {
			return nil
		}
		n := namedOf(pt.Elem())
		if n == nil || n.Obj().Pkg() == nil || !inModPath(n.Obj().Pkg().Path()) {
			return nil
		}
		return pt
	}
	bad := map[string]bool{}
	used := map[*ssa.Function]bool{}
	for _, f := range p.allFuncs() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch y := in.(type) {
				case *ssa.Call:
					if bi, ok := y.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "append") {
						if e := elem(y.Type()); e != nil {
							p.elemOK[typeKey(e)] = true
							used[f] = true
						}
					}
				case *ssa.MakeSlice:
					if e := elem(y.Type()); e != nil {
						p.elemOK[typeKey(e)] = true
						if c, ok := y.Len.(*ssa.Const); !ok || c.Int64() != 0 {
							bad[typeKey(e)] = true
						}
					}
				case *ssa.Store:
					if ia, ok := y.Addr.(*ssa.IndexAddr); ok {
						if e := elem(ia.X.Type()); e != nil {
							p.elemOK[typeKey(e)] = true
							used[f] = true
						}
					}
				}
			}
		}
	}
	for f := range used {
		x := NewExec(p, Hooks{})
		x.JoinAt, x.Max = 10, 200000
		x.NonNilElem = func(t types.Type) bool { return p.elemOK[typeKey(t)] } // by induction
		note := func(s *State, v *Term, ty types.Type) {
			if _, ok := p.elemOK[typeKey(ty)]; ok && s.nilness(v) != False {
				bad[typeKey(ty)] = true
			}
		}
		returnsElem := func(g *ssa.Function) bool {
			rs := g.Signature.Results()
			for i := 0; i < rs.Len(); i++ {
				if _, ok := p.elemOK[typeKey(rs.At(i).Type())]; ok {
					return true
				}
			}
			return false
		}
		x.H.Call = func(x *Exec, s *State, ev *CallEvent) ([]Outcome, bool) {
			if ev.Fn != nil && x.P.InModule(ev.Fn) && ev.Fn.Parent() == nil && !returnsElem(ev.Fn) {
				return x.anyOutcome(s, ev)[:1], true
			}
			return nil, false
		}
		x.H.Append = func(x *Exec, s *State, base *Term, elems []*Term, at ssa.Instruction) {
			c, ok := at.(*ssa.Call)
			if !ok {
				return
			}
			e := elem(c.Type())
			if e == nil {
				return
			}
			if elems == nil {
				// appending elements of a slice of the same type
				return
			}
			for _, v := range elems {
				note(s, v, e)
			}
		}
		x.H.Store = func(x *Exec, s *State, addr, val *Term, at ssa.Instruction) {
			st, ok := at.(*ssa.Store)
			if !ok {
				return
			}
			if ia, ok := st.Addr.(*ssa.IndexAddr); ok {
				if e := elem(ia.X.Type()); e != nil {
					note(s, val, e)
				} else if a, ok := pointee0(ia.X.Type()).(*types.Array); ok {
					// arrays can become slices
					if _, isP := a.Elem().(*types.Pointer); isP {
						note(s, val, a.Elem())
					}
				}
			}
		}
		x.Run(x.Start(f))
		if x.Over {
			for k := range p.elemOK {
				bad[k] = true
			}
		}
	}
	for k := range bad {
		delete(p.elemOK, k)
	}
	return func(t types.Type) bool { return p.elemOK[typeKey(t)] }
}

func checkPanics(r *Report) {
	p := r.P
	src := p.Iface(modPath, "Source")
	if src == nil {
		r.bad("anchor", "grate.Source", "?", "not found in the source")
		return
	}
	var roots []*ssa.Function
	roots = append(roots, p.openers()...)
	nOpen := len(roots)
	for _, t := range p.Implementers(src) {
		for i := 0; i < src.NumMethods(); i++ {
			if f := p.Method(t, src.Method(i).Name()); f != nil && len(f.Blocks) > 0 && f.Synthetic == "" {
				roots = append(roots, f)
			}
		}
	}
	if nOpen < 4 || len(roots) < nOpen+6 {
		r.bad("anchor", "public operations", "?", itoa(len(roots))+" operations found")
	}
	for _, f := range roots {
		r.noPanicLeaves(f)
	}
	r.expect(noPanicRule, len(roots))
}

const noPanicRule = "no panic leaves the operation"
const recoveredRule = "a recovered panic is an error without a result"

func (r *Report) noPanicLeaves(f *ssa.Function) {
	p := r.P
	p.nonNilElems()
	cone := p.unwindCone(nil)
	guarded := p.reachesFn(f, callsRecover)
	r.analyse(shortName(f), f, func(x *Exec, t *Report) *State {
		x.NonNilElem = p.nonNilElems()
		s0 := x.Start(f)
		// the methods are called on an existing source
		if f.Signature.Recv() != nil {
			s0.assumeQuiet(tNot(tEq(s0.param(0), tNil(f.Params[0].Type()), nil)))
		}
		t.ok(noPanicRule, shortName(f), x.P.Pos(f.Pos()))
		x.H.Call = func(x *Exec, s *State, ev *CallEvent) ([]Outcome, bool) {
			if ev.Kind == "go" {
				t.bad(noPanicRule, shortName(f)+": goroutine", x.P.InstrPos(ev.Instr), "a panic in a goroutine cannot be recovered by the operation")
			}
			if guarded && ev.Fn != nil && x.P.InModule(ev.Fn) && !cone(ev.Fn) {
				outs := x.anyOutcome(s, ev)
				if len(outs) == 2 {
					do := outs[1].Do
					outs[1].Do = func(s *State) { do(s); s.ghost["!panicked"] = tBool(true) }
				}
				return outs, true
			}
			if ev.Fn == nil && ev.Name == "dynamic" {
				// unknown code
				return []Outcome{{Res: x.fresh(s, ev.Instr, "dynamic", resType(ev.Sig), ev.Args...)}, {Panic: true, Do: func(s *State) { s.ghost["!panicked"] = tBool(true) }}}, true
			}
			return nil, false
		}
		x.H.Oblig = func(x *Exec, s *State, kind string, cond *Term, at ssa.Instruction) bool {
			t.ok("operations outside of a boundary", shortName(at.Parent())+" "+kind, x.P.InstrPos(at))
			return !cond.isConst()
		}
		x.H.Panic = func(x *Exec, s *State, at ssa.Instruction) {
			t.bad(noPanicRule, shortName(f)+", from "+shortName(at.Parent()), x.P.InstrPos(at), "a panic can leave "+shortName(f), s.trail.lines(12)...)
		}
		x.H.Return = func(x *Exec, s *State, res []*Term, at ssa.Instruction) {
			c := shortName(f)
			if s.ghost["!panicked"] == nil {
				return
			}
			t.ok(recoveredRule, c, x.P.InstrPos(at))
			if len(res) == 0 {
				return
			}
			if err := res[len(res)-1]; s.nilness(err) != False {
				t.bad(recoveredRule, c, x.P.InstrPos(at), "after a recovered panic no error is returned", s.trail.lines(12)...)
			}
			for _, v := range res[:len(res)-1] {
				if s.nilness(v) != True {
					t.bad(recoveredRule, c, x.P.InstrPos(at), "after a recovered panic a result "+v.String()+" is returned", s.trail.lines(12)...)
				}
			}
		}
		return s0
	})
}

func resType(sig *types.Signature) types.Type {
	if sig.Results().Len() == 0 {
		return types.NewTuple()
	}
	return sig.Results()
}

var _ = strings.TrimPrefix
