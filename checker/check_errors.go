package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P28", "error propagation: path-sensitive dataflow from every call that can fail to the results of the function",
		"In every library function on the reading side, a path on which a call that reads or interprets the file failed, with an error that is not the end of the data, has to end in a non-nil error; a scanner that stopped has to be asked for its error.", checkErrors)
}

// readingPkg: the packages which read files.
func readingPkg(path string) bool {
	return strings.HasPrefix(path, modPath+"/") && !strings.HasPrefix(path, modPath+"/cmd/") && !strings.HasPrefix(path, modPath+"/commonxl")
}

// errIndex is the position of the error among the results, -1 if there is none.
func errIndex(sig *types.Signature) int {
	for i := sig.Results().Len() - 1; i >= 0; i-- {
		if types.Identical(sig.Results().At(i).Type(), tErrType) {
			return i
		}
	}
	return -1
}

type errorFlow struct {
	p     *Prog
	never map[*ssa.Function]int // 1: being looked at or may fail, 2: cannot fail
}

// cannotFail: the function returns nil errors only.
func (c *errorFlow) cannotFail(f *ssa.Function) bool {
	if v := c.never[f]; v != 0 {
		return v == 2
	}
	c.never[f] = 1
	i := errIndex(f.Signature)
	if len(f.Blocks) == 0 || i < 0 {
		return false
	}
	for _, b := range f.Blocks {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			if k, ok := ret.Results[i].(*ssa.Const); !ok || !k.IsNil() {
				return false
			}
		}
	}
	if f.Recover != nil {
		return false
	}
	c.never[f] = 2
	return true
}

// reads: a call outside of the repository which fails if the file cannot be read.
func reads(ev *CallEvent) bool {
	var pk *types.Package
	var name string
	switch {
	case ev.Fn != nil && ev.Fn.Object() != nil:
		pk, name = ev.Fn.Object().Pkg(), ev.Fn.Name()
	case ev.Com != nil && ev.Com.IsInvoke():
		pk, name = ev.Com.Method.Pkg(), ev.Com.Method.Name()
	}
	if pk == nil || errIndex(ev.Sig) < 0 || strings.HasPrefix(name, "Write") || name == "Close" || name == "Flush" || name == "Sync" {
		return false
	}
	switch pk.Path() {
	case "os", "io", "io/ioutil", "io/fs", "bufio", "archive/zip", "compress/flate", "encoding/xml", "encoding/csv", "encoding/binary", "encoding/base64", "encoding/hex":
		return true
	case "bytes", "strings":
		// readers of memory only fail at the end; positions are not checked here
		return name != "Seek" && strings.HasPrefix(name, "Read")
	}
	return false
}

// tracked: a call whose failure has to be reported.
func (c *errorFlow) tracked(ev *CallEvent) bool {
	if errIndex(ev.Sig) < 0 {
		return false
	}
	if ev.Fn != nil {
		if pk := fnPkg(ev.Fn); pk != nil && (pk.Path() == modPath || strings.HasPrefix(pk.Path(), modPath+"/")) {
			if !readingPkg(pk.Path()) || ev.Fn.Name() == "Close" || c.cannotFail(ev.Fn) {
				return false
			}
			// functions which only make an error of others
			for i := 0; i < ev.Sig.Params().Len(); i++ {
				if types.Identical(ev.Sig.Params().At(i).Type(), tErrType) {
					return false
				}
			}
			return true
		}
		return reads(ev)
	}
	if ev.Com != nil && ev.Com.IsInvoke() {
		m := ev.Com.Method
		if m.Pkg() != nil && (m.Pkg().Path() == modPath || strings.HasPrefix(m.Pkg().Path(), modPath+"/")) {
			if m.Name() == "Close" || !readingPkg(m.Pkg().Path()) {
				return false
			}
			it, _ := under(ev.Com.Value.Type()).(*types.Interface)
			if it == nil {
				return true
			}
			all := true
			for _, t := range c.p.Implementers(it) {
				sel := c.p.SSA.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name())
				if sel == nil {
					continue
				}
				if f := c.p.SSA.MethodValue(sel); f == nil || !c.cannotFail(f) {
					all = false
				}
			}
			return !all
		}
		return reads(ev)
	}
	_, builtin := ev.Com.Value.(*ssa.Builtin)
	return !builtin
}

// helper: a function which is looked at as a part of its callers.
func (c *errorFlow) helper(f *ssa.Function) bool {
	if !c.p.InModule(f) || len(f.Blocks) == 0 {
		return false
	}
	if f.Parent() != nil || callsRecover(f) && errIndex(f.Signature) < 0 {
		return true
	}
	for _, q := range f.Params { // handles an error
		if types.Identical(q.Type(), tErrType) || types.Identical(pointee0(q.Type()), tErrType) {
			return true
		}
	}
	return errIndex(f.Signature) < 0 && (f.Object() == nil || !f.Object().Exported()) && c.calls(f)
}

// calls: the function contains a tracked call.
func (c *errorFlow) calls(f *ssa.Function) bool {
	found := false
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			com := ci.Common()
			ev := &CallEvent{Fn: com.StaticCallee(), Sig: com.Signature(), Com: com, Instr: in}
			if ev.Fn != nil {
				ev.Name = ev.Fn.String()
			}
			if c.tracked(ev) || ev.Name == "(*bufio.Scanner).Scan" {
				found = true
			} else if ev.Fn != nil && ev.Fn != f && errIndex(ev.Sig) < 0 && c.p.InModule(ev.Fn) && (ev.Fn.Object() == nil || !ev.Fn.Object().Exported()) && c.never[ev.Fn] == 0 {
				c.never[ev.Fn] = 1
				found = found || c.calls(ev.Fn)
				delete(c.never, ev.Fn)
			}
		}
	}
	return found
}

func callLabel(ev *CallEvent) string {
	switch {
	case ev.Fn != nil:
		return shortName(ev.Fn)
	case ev.Com != nil && ev.Com.IsInvoke():
		return types.TypeString(ev.Com.Value.Type(), nopkg) + "." + ev.Com.Method.Name()
	}
	return "a function value"
}

func checkErrors(r *Report) {
	p := r.P
	c := &errorFlow{p: p, never: map[*ssa.Function]int{}}
	const rule = "a failure to read the file is reported"
	eof := mk(Term{Op: OCall, S: "error:io.EOF", T: tErrType})
	wrap := wrapModel(p)
	nFuncs, nCalls := 0, map[ssa.Instruction]bool{}
	live := c.live()
	for _, f := range p.allFuncs() {
		f := f
		if !live[f] || f.Parent() != nil || c.helper(f) || !c.calls(f) && !p.reachesFn(f, func(g *ssa.Function) bool { return g != f && c.helper(g) && c.calls(g) }) {
			continue
		}
		nFuncs++
		ei := errIndex(f.Signature)
		name := shortName(f)
		// an error may be any of those the function asks for
		kinds := []*Term{mk(Term{Op: OCall, S: "error:io.ErrUnexpectedEOF", T: tErrType})}
		for _, g := range c.sentinels(f) {
			if v := mk(Term{Op: OCall, S: "error:" + g, T: tErrType}); v != eof && v != kinds[0] {
				kinds = append(kinds, v)
			}
		}
		r.analyse(name, f, func(x *Exec, t *Report) *State {
			if x.JoinAt > 6 {
				x.JoinAt = 6
			}
			x.JoinHeads = true
			x.H.Global = func(x *Exec, s *State, g *ssa.Global) *Term {
				if g.Pkg != nil && !strings.HasPrefix(g.Pkg.Pkg.Path(), modPath) && types.Identical(pointee0(g.Type()), tErrType) {
					return mk(Term{Op: OCall, S: "error:" + g.String(), T: tErrType})
				}
				return nil
			}
			// which call failed stays known
			x.H.KeepVal = func(addr, v *Term) bool {
				return isErrVar(v) || v.T != nil && types.Identical(v.T, tErrType) && v.isNil()
			}
			x.H.Inline = func(x *Exec, s *State, fn *ssa.Function) bool { return c.helper(fn) }
			s0 := x.Start(f)
			failed := func(s *State, ev *CallEvent, e *Term, what string) {
				// hyperlinks which are not understood are left out
				if s.ghost["!fail"] == nil && !s.knownField(0x1B8) {
					s.ghost["!fail"] = tTuple(e, tStr(what), tStr(x.P.InstrPos(ev.Instr)))
				}
			}
			x.H.Call = func(x *Exec, s *State, ev *CallEvent) ([]Outcome, bool) {
				if o, ok := wrap(x, s, ev); ok {
					return o, true
				}
				switch ev.Name {
				case "errors.Is":
					if len(ev.Args) == 2 && isErrVar(ev.Args[1]) {
						return []Outcome{{Res: tEq(ev.Args[0], ev.Args[1], tErrType)}}, true
					}
				case "(*bufio.Scanner).Scan":
					key := "!scan" + itoa(ev.Args[0].id)
					nCalls[ev.Instr] = true
					e := mk(Term{Op: OCall, S: "error:bufio.Scanner.Scan", T: tErrType})
					res := []Outcome{{Res: tBool(true)}, {Res: tBool(false)}}
					for _, k := range append([]*Term{e}, kinds...) {
						k := k
						res = append(res, Outcome{Res: tBool(false), Do: func(s *State) {
							s.ghost[key] = tTuple(k)
							failed(s, ev, k, "bufio.Scanner.Scan")
						}})
					}
					return res, true
				case "(*bufio.Scanner).Err":
					if g := s.ghost["!scan"+itoa(ev.Args[0].id)]; g != nil {
						return []Outcome{{Res: g.Args[0]}}, true
					}
					return []Outcome{{Res: tNil(tErrType)}}, true
				}
				mine := ev.Fn != nil && p.InModule(ev.Fn)
				if !c.tracked(ev) {
					if mine && !c.helper(ev.Fn) {
						var res *Term
						if ev.Sig.Results().Len() > 0 {
							res = x.fresh(s, ev.Instr, "result", ev.Sig.Results(), ev.Args...)
						}
						return []Outcome{{Res: res, Do: func(s *State) { s.havoc(ev.Args, x.epochSym(s, ev.Instr, "call")) }}}, true
					}
					return nil, false
				}
				if ev.Kind == "defer" || ev.Kind == "go" {
					return nil, false
				}
				nCalls[ev.Instr] = true
				i := errIndex(ev.Sig)
				n := ev.Sig.Results().Len()
				with := func(e *Term) *Term {
					if n == 1 {
						return e
					}
					var l []*Term
					for j := 0; j < n; j++ {
						if j == i {
							l = append(l, e)
						} else {
							l = append(l, x.fresh(s, ev.Instr, "result"+itoa(j), ev.Sig.Results().At(j).Type()))
						}
					}
					return tTuple(l...)
				}
				e := mk(Term{Op: OCall, S: "error:" + callLabel(ev), T: tErrType})
				hv := func(s *State) { s.havoc(ev.Args, x.epochSym(s, ev.Instr, "call")) }
				ok := hv
				if ev.Name == "encoding/binary.Read" {
					// the data is read first: after a failure the value is as before
					hv = func(s *State) { s.havoc(ev.Args[:1], x.epochSym(s, ev.Instr, "call")) }
				}
				res := []Outcome{
					{Res: with(tNil(tErrType)), Do: ok},
					{Res: with(eof), Do: hv},
				}
				for _, k := range append([]*Term{e}, kinds...) {
					k := k
					res = append(res, Outcome{Res: with(k), Do: func(s *State) {
						hv(s)
						failed(s, ev, k, callLabel(ev))
					}})
				}
				return res, true
			}
			x.H.Return = func(x *Exec, s *State, res []*Term, at ssa.Instruction) {
				pos := x.P.InstrPos(at)
				t.ok(rule, name, pos)
				g := s.ghost["!fail"]
				if g == nil || ei >= 0 && s.nilness(res[ei]) == False {
					return
				}
				what, _ := g.Args[1].strConst()
				where, _ := g.Args[2].strConst()
				t.ok(rule, name+" after "+what, pos)
				t.bad(rule, name+" after "+what, pos, "returns without an error although "+what+" at "+where+" may have failed", s.trail.lines(14)...)
			}
			return s0
		})
	}
	r.expect(rule, 8)
	r.note("%d functions with %d calls that can fail", nFuncs, len(nCalls))
}

// knownField: some value is known to be n.
func (s *State) knownField(n int64) bool {
	for _, f := range s.facts.sorted() {
		if f.Op == OEqZ {
			if l := toLin(f.Args[0]); len(l.m) == 1 && (l.k == n || l.k == -n) {
				return true
			}
		}
	}
	return false
}

// live: the functions of the reading packages which can be called from outside.
func (c *errorFlow) live() map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var ops [16]*ssa.Value
				for _, o := range in.Operands(ops[:0]) {
					if g, ok := (*o).(*ssa.Function); ok && c.p.InModule(g) {
						visit(g)
					}
				}
			}
		}
	}
	for _, f := range c.p.allFuncs() {
		if c.p.InLib(f) && f.Parent() == nil && (f.Signature.Recv() != nil || f.Object() != nil && f.Object().Exported() || strings.HasPrefix(f.Name(), "init")) {
			visit(f)
		}
	}
	res := map[*ssa.Function]bool{}
	for f := range seen {
		if pk := fnPkg(f); pk != nil && readingPkg(pk.Path()) && f.Synthetic == "" && len(f.Blocks) > 0 && c.p.InLib(f) {
			res[f] = true
		}
	}
	return res
}

// sentinels: the error values f and its helpers refer to, as x.H.Global and
// the engine name them.
func (c *errorFlow) sentinels(f *ssa.Function) (res []string) {
	seen := map[*ssa.Function]bool{}
	had := map[string]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var ops [16]*ssa.Value
				for _, o := range in.Operands(ops[:0]) {
					switch g := (*o).(type) {
					case *ssa.Function:
						if c.helper(g) || g.Parent() != nil {
							visit(g)
						}
					case *ssa.Global:
						if g.Pkg != nil && types.Identical(pointee0(g.Type()), tErrType) && !had[g.String()] {
							had[g.String()] = true
							res = append(res, g.String())
						}
					}
				}
			}
		}
	}
	visit(f)
	return res
}
