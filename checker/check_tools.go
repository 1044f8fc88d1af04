package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const tsvPath = modPath + "/cmd/grate2tsv"

func init() {
	register("P27", "grate2tsv: path-sensitive typestate of the channels, wait groups, locks and outputs of each goroutine",
		"Main sends each argument once, after starting as many workers as it announces, then closes the channel, waits for the workers, closes the channel of the outputs and waits until they are written. A worker takes names until the channel is closed, reports each under the lock, and ends with one Done. Each output created is handed over once and not used afterwards; the receiver flushes it, then closes it.", checkWorkers)
}

// origins finds the objects (allocations, globals, channels) a value can be.
func (p *Prog) origins(v ssa.Value) map[ssa.Value]bool {
	res := map[ssa.Value]bool{}
	p.originsOf(v, res, map[ssa.Value]bool{})
	return res
}

func (p *Prog) moduleFuncs() []*ssa.Function { return p.allFuncs() }

func (p *Prog) originsOf(v ssa.Value, res, seen map[ssa.Value]bool) {
	if seen[v] {
		return
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.Phi:
		for _, e := range v.Edges {
			p.originsOf(e, res, seen)
		}
	case *ssa.ChangeType:
		p.originsOf(v.X, res, seen)
	case *ssa.MakeInterface:
		p.originsOf(v.X, res, seen)
	case *ssa.Parameter:
		f := v.Parent()
		n := 0
		for i, q := range f.Params {
			if q != v {
				continue
			}
			for _, g := range p.moduleFuncs() {
				for _, b := range g.Blocks {
					for _, in := range b.Instrs {
						if c, ok := in.(ssa.CallInstruction); ok && p.calls(c.Common(), f) && i < len(c.Common().Args) {
							n++
							p.originsOf(c.Common().Args[i], res, seen)
						}
					}
				}
			}
		}
		if n == 0 {
			res[v] = true
		}
	case *ssa.FreeVar:
		f := v.Parent()
		for i, q := range f.FreeVars {
			if q != v || f.Parent() == nil {
				continue
			}
			for _, b := range f.Parent().Blocks {
				for _, in := range b.Instrs {
					if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == f {
						p.originsOf(mc.Bindings[i], res, seen)
					}
				}
			}
		}
	case *ssa.UnOp:
		if v.Op != token.MUL {
			res[v] = true
			return
		}
		for _, a := range p.storesTo(v.X) {
			p.originsOf(a, res, seen)
		}
	case *ssa.Call:
		if g := v.Call.StaticCallee(); g != nil && p.InModule(g) {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if rt, ok := in.(*ssa.Return); ok && len(rt.Results) == 1 {
						p.originsOf(rt.Results[0], res, seen)
					}
				}
			}
			return
		}
		res[v] = true
	default:
		res[v] = true
	}
}

// calls: the call is one of f, directly or as a closure.
func (p *Prog) calls(c *ssa.CallCommon, f *ssa.Function) bool {
	if c.StaticCallee() == f {
		return true
	}
	if c.IsInvoke() {
		return false
	}
	for o := range p.origins0(c.Value) {
		if o == ssa.Value(f) {
			return true
		}
		if mc, ok := o.(*ssa.MakeClosure); ok && mc.Fn == f {
			return true
		}
	}
	return false
}

// origins0 follows local values only.
func (p *Prog) origins0(v ssa.Value) map[ssa.Value]bool {
	switch v.(type) {
	case *ssa.Function, *ssa.MakeClosure:
		return map[ssa.Value]bool{v: true}
	}
	return nil
}

// storesTo: the values stored to the variables an address stands for.
func (p *Prog) storesTo(addr ssa.Value) (res []ssa.Value) {
	var field *types.Var
	targets := map[ssa.Value]bool{}
	if fa, ok := addr.(*ssa.FieldAddr); ok {
		field = fieldVar(fa)
	} else {
		targets = p.origins(addr)
	}
	for _, g := range p.moduleFuncs() {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
					if field != nil && fieldVar(fa) == field {
						res = append(res, st.Val)
					}
					continue
				}
				if field != nil {
					continue
				}
				switch st.Addr.(type) {
				case *ssa.Global, *ssa.Alloc:
					if targets[st.Addr] {
						res = append(res, st.Val)
					}
				case *ssa.FreeVar, *ssa.Parameter:
					for o := range p.origins(st.Addr) {
						if targets[o] {
							res = append(res, st.Val)
						}
					}
				}
			}
		}
	}
	return
}

func fieldVar(fa *ssa.FieldAddr) *types.Var {
	st, _ := under(pointee0(fa.X.Type())).(*types.Struct)
	if st == nil {
		return nil
	}
	return st.Field(fa.Field)
}

func meet(a, b map[ssa.Value]bool) bool {
	for v := range a {
		if b[v] {
			return true
		}
	}
	return false
}

func union(a, b map[ssa.Value]bool) map[ssa.Value]bool {
	if a == nil {
		a = map[ssa.Value]bool{}
	}
	for v := range b {
		a[v] = true
	}
	return a
}

// tools is what is known of the goroutines of the command.
type tools struct {
	p        *Prog
	r        *Report
	main     *ssa.Function
	proc     *ssa.Function // handles a file
	workers  map[*ssa.Function]bool
	cleaners map[*ssa.Function]bool
	names    map[ssa.Value]bool // channel of the names of the files
	outs     map[ssa.Value]bool // channel of the outputs
	finished map[ssa.Value]bool // how a cleaner tells its end
	ended    map[ssa.Value]bool // how a worker tells its end
}

func inCmd(f *ssa.Function) bool { return fnPkg(f) != nil && fnPkg(f).Path() == tsvPath }

// cone: the functions of the command a function runs itself.
func (c *tools) cone(f *ssa.Function) (res []*ssa.Function) {
	seen := map[*ssa.Function]bool{}
	var rec func(f *ssa.Function)
	rec = func(f *ssa.Function) {
		if f == nil || seen[f] || !inCmd(f) {
			return
		}
		seen[f] = true
		res = append(res, f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch y := in.(type) {
				case *ssa.Go:
				case ssa.CallInstruction:
					rec(y.Common().StaticCallee())
				case *ssa.MakeClosure:
					spawned := false
					for _, u := range *y.Referrers() {
						if _, ok := u.(*ssa.Go); ok {
							spawned = true
						}
					}
					if !spawned {
						rec(y.Fn.(*ssa.Function))
					}
				}
			}
		}
	}
	rec(f)
	return
}

func hasField(t types.Type, ty string) bool {
	st, _ := under(pointee0(t)).(*types.Struct)
	if st == nil {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Type().String() == ty {
			return true
		}
	}
	return false
}

func (r *Report) tools() *tools {
	p := r.P
	c := &tools{p: p, r: r, workers: map[*ssa.Function]bool{}, cleaners: map[*ssa.Function]bool{}}
	c.main = p.Func(tsvPath, "main")
	if !r.need("main of grate2tsv", c.main) {
		return nil
	}
	for _, f := range p.allFuncs() {
		if !inCmd(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch y := in.(type) {
				case *ssa.Call:
					if g := y.Call.StaticCallee(); g != nil && g.Name() == "Open" && fnPkg(g) != nil && fnPkg(g).Path() == modPath {
						c.proc = f
					}
				case *ssa.Go:
					g := y.Call.StaticCallee()
					if g == nil {
						r.bad("anchor", "go statement", p.InstrPos(in), "starts a function which is not known")
						continue
					}
					for _, h := range c.cone(g) {
						for _, b := range h.Blocks {
							for _, in := range b.Instrs {
								u, ok := in.(*ssa.UnOp)
								if !ok || u.Op != token.ARROW {
									continue
								}
								el := under(u.X.Type()).(*types.Chan).Elem()
								switch {
								case isBasic(el, types.IsString):
									c.workers[g] = true
									c.names = union(c.names, p.origins(u.X))
								case hasField(el, "*os.File") && hasField(el, "*bufio.Writer"):
									c.cleaners[g] = true
									c.outs = union(c.outs, p.origins(u.X))
								}
							}
						}
					}
				}
			}
		}
	}
	signals := func(fs map[*ssa.Function]bool) (res map[ssa.Value]bool) {
		for f := range fs {
			for _, h := range c.cone(f) {
				for _, b := range h.Blocks {
					for _, in := range b.Instrs {
						switch y := in.(type) {
						case *ssa.Send:
							res = union(res, p.origins(y.Chan))
						case ssa.CallInstruction:
							cm := y.Common()
							if bi, ok := cm.Value.(*ssa.Builtin); ok && bi.Name() == "close" {
								res = union(res, p.origins(cm.Args[0]))
							}
							if g := cm.StaticCallee(); g != nil && g.String() == "(*sync.WaitGroup).Done" {
								res = union(res, p.origins(cm.Args[0]))
							}
						}
					}
				}
			}
		}
		return
	}
	c.finished = signals(c.cleaners)
	c.ended = signals(c.workers)
	for v := range c.outs {
		delete(c.ended, v)
	}
	return c
}

const (
	tooSend = "every file is given to the workers"
	tooWork = "as many workers as announced are started"
	tooEnd  = "the command ends when everything is written"
	tooTake = "a worker handles every file it takes"
	tooLine = "every file is reported under the lock"
	tooDone = "a goroutine tells its end once, when its channel is closed"
	tooOut  = "an output is flushed, then closed, once"
	tooOwn  = "an output is handed over once and not used afterwards"
)

// opaque is the result of a function outside of the repository.
func opaque(x *Exec, s *State, ev *CallEvent) []Outcome {
	n := ev.Sig.Results().Len()
	if n == 0 {
		return []Outcome{{}}
	}
	if n == 1 {
		return []Outcome{{Res: x.fresh(s, ev.Instr, "result", ev.Sig.Results().At(0).Type())}}
	}
	var l []*Term
	ei := errIndex(ev.Sig)
	for i := 0; i < n; i++ {
		l = append(l, x.fresh(s, ev.Instr, "result"+itoa(i), ev.Sig.Results().At(i).Type()))
	}
	if ei < 0 {
		return []Outcome{{Res: tTuple(l...)}}
	}
	ok := append([]*Term{}, l...)
	ok[ei] = tNil(tErrType)
	bad := append([]*Term{}, l...)
	bad[ei] = mk(Term{Op: OCall, S: "error:" + callLabel(ev), T: tErrType})
	return []Outcome{{Res: tTuple(ok...)}, {Res: tTuple(bad...)}}
}

// external: the callee is not in the repository.
func (p *Prog) external(ev *CallEvent) bool {
	if strings.HasPrefix(ev.Name, "builtin.") {
		return false
	}
	return ev.Fn == nil && ev.Fv == nil || ev.Fn != nil && !p.InModule(ev.Fn)
}

// least is a lower bound of a number.
func least(s *State, t *Term) (int64, bool) {
	l := toLin(t)
	res := l.k
	for a, k := range l.m {
		lo, ok := int64(0), false
		switch {
		case a.Op == OCall && (a.S == "runtime.NumCPU" || a.S == "runtime.GOMAXPROCS"):
			lo, ok = 1, true
		case a.Op == OBin && (a.S == "/" || a.S == ">>"):
			d, isC := a.Args[1].intConst()
			if a.S == ">>" && isC && d >= 0 && d < 62 {
				d = 1 << uint(d)
			}
			if n, ok1 := least(s, a.Args[0]); ok1 && isC && d > 0 && n >= 0 {
				lo, ok = n/d, true
			}
		case a.Op == OCall && strings.HasPrefix(a.S, "max"):
			for _, b := range a.Args {
				if n, ok1 := least(s, b); ok1 && (!ok || n > lo) {
					lo, ok = n, true
				}
			}
		case a.Op == OLen:
			lo, ok = 0, true
		}
		if !ok || k < 0 {
			return 0, false
		}
		res += k * lo
	}
	return res, true
}

// impossible: the state contradicts that there is a processor.
func impossible(s *State) bool {
	for _, f := range s.facts.sorted() {
		if f.Op == OLe {
			if n, ok := least(s, f.Args[0]); ok && n > 0 {
				return true
			}
		}
	}
	return false
}

func (c *tools) loopKey(s *State, h *ssa.BasicBlock) string {
	return itoa(s.fr.ctx.id) + "." + itoa(h.Index)
}

func checkWorkers(r *Report) {
	c := r.tools()
	if c == nil {
		return
	}
	if len(c.workers) == 0 || c.proc == nil {
		r.bad("anchor", "workers of grate2tsv", c.p.Pos(c.main.Pos()), "no goroutine takes the names of the files")
		return
	}
	c.checkMain()
	for f := range c.workers {
		c.checkWorker(f)
	}
	for f := range c.cleaners {
		c.checkCleaner(f)
	}
	c.checkOutputs()
}

func (c *tools) checkMain() {
	p := c.p
	name := "main"
	c.r.analyse("grate2tsv main", c.main, func(x *Exec, t *Report) *State {
		s0 := x.Start(c.main)
		x.KeepLists = true
		args := tCall("flag.Args", types.NewSlice(types.Typ[types.String]))
		sc := newScan(t, tooSend, name)
		closed, started := 0, 0
		bound, down := map[*ssa.Phi]bool{}, map[*ssa.Phi]bool{}
		uneven, counters := map[*ssa.Phi]bool{}, map[*ssa.Phi]string{}
		advance := map[string]bool{}
		x.H.Inline = func(x *Exec, s *State, fn *ssa.Function) bool { return inCmd(fn) && !onStack(s, fn) }
		flag := func(s *State, k string) bool { return s.ghost["!"+k] != nil }
		bal := func(s *State) *Term {
			if g := s.ghost["!bal"]; g != nil {
				return g.Args[0]
			}
			return tInt(0)
		}
		setBal := func(s *State, v *Term) { s.ghost["!bal"] = tTuple(v) }
		x.H.JoinAt = func(s *State, blk *ssa.BasicBlock) (string, int, bool) {
			return "", 0, x.loops(blk.Parent()).byHeader[blk] != nil
		}
		x.H.Head = func(x *Exec, s *State, h *ssa.BasicBlock) {
			k := c.loopKey(s, h)
			if flag(s, "in"+k) {
				delete(s.ghost, "!in"+k)
				var l []*Term
				for _, ph := range headerPhis(h) {
					v := s.fr.regs[ph]
					if v == nil {
						v = tInt(-99)
					}
					l = append(l, v)
				}
				s.ghost["!init"+k] = tTuple(l...)
			}
			s.ghost["!b0"+k] = tTuple(bal(s))
		}
		x.H.Edge = func(x *Exec, s *State, from, to *ssa.BasicBlock) {
			sc.edge(x, s, from, to)
			lf := x.loops(to.Parent())
			if l := lf.byHeader[to]; l != nil && !l.body[from] {
				s.ghost["!in"+c.loopKey(s, to)] = tInt(1)
			}
			l := lf.byHeader[from]
			if l == nil || l.body[to] {
				return
			}
			if impossible(s) {
				s.dead = true
				return
			}
			k := c.loopKey(s, from)
			if !advance[k] || s.ghost["!init"+k] == nil || !flag(s, "started") {
				return
			}
			for i, ph := range headerPhis(from) {
				v := s.fr.regs[ph]
				if v == nil || uneven[ph] {
					continue
				}
				init := s.ghost["!init"+k].Args[i]
				if bound[ph] && s.is(tEqInt(init, tInt(0))) && s.is(tLe(bal(s), v)) ||
					down[ph] && s.is(tEqInt(init, bal(s))) && s.is(tLe(v, tInt(0))) {
					counters[ph] = x.P.blockPos(from)
					setBal(s, tInt(0))
					return
				}
			}
			t.bad(tooWork, name, x.P.blockPos(from), "the number of workers started need not be the number announced", s.trail.lines(8)...)
		}
		x.H.BackEdge = func(x *Exec, s *State, h *ssa.BasicBlock, in func(*Term) bool, old, nw map[*ssa.Phi]*Term) {
			k := c.loopKey(s, h)
			if g := s.ghost["!b0"+k]; g != nil {
				b0 := g.Args[0]
				d, ok := tSub(bal(s), b0).intConst()
				if ok && d == -1 {
					advance[k] = true
				}
				for ph, o := range old {
					if n := nw[ph]; n != nil && isInt(ph.Type()) {
						one, ok1 := tSub(n, o).intConst()
						switch {
						case ok && ok1 && d == -1 && one == 1 && s.is(tLt(o, b0)):
							bound[ph] = true
						case ok && ok1 && d == -1 && one == -1 && s.is(tLt(tInt(0), o)):
							down[ph] = true
						case ok && ok1 && d == 0 && one == 0:
						default:
							uneven[ph] = true
						}
					}
				}
				switch {
				case ok && d == 0:
				case ok && d == -1:
					setBal(s, b0)
				default:
					t.bad(tooWork, name, x.P.blockPos(h), "workers are started in other numbers than announced", s.trail.lines(8)...)
				}
				delete(s.ghost, "!b0"+k)
			}
			if s.ghost["!v"+name] != nil && !flag(s, "sent") {
				t.bad(tooSend, name, x.P.blockPos(h), "a file may be left out", s.trail.lines(8)...)
			}
			delete(s.ghost, "!sent")
			sc.backEdge(x, s, h, old, nw)
		}
		x.H.Load = func(x *Exec, s *State, addr *Term, at ssa.Instruction) {
			if addr.Op == OIndexAddr && addr.Args[0] == args {
				sc.visit(x, s, args, addr.Args[1], at)
			}
		}
		x.H.Send = func(x *Exec, s *State, ch ssa.Value, val *Term, at ssa.Instruction) {
			pos := x.P.InstrPos(at)
			if !meet(p.origins(ch), c.names) {
				t.bad(tooSend, name, pos, "sends to another channel", s.trail.lines(8)...)
				return
			}
			t.ok(tooSend, name, pos)
			v := s.ghost["!v"+name]
			base, idx, ok := elemOf(val)
			switch {
			case v == nil || !ok || base != args || idx != v.Args[1] || val.Op != OInit || val.Args[0].Op != OIndexAddr:
				t.bad(tooSend, name, pos, "sends "+val.String()+", which is not the next file", s.trail.lines(8)...)
			case flag(s, "sent"):
				t.bad(tooSend, name, pos, "sends a file twice", s.trail.lines(8)...)
			case flag(s, "closedN"):
				t.bad(tooSend, name, pos, "sends after the channel was closed", s.trail.lines(8)...)
			case !flag(s, "started"):
				t.bad(tooWork, name, pos, "a file is sent although no worker may have been started", s.trail.lines(8)...)
			}
			s.ghost["!sent"] = tInt(1)
		}
		x.H.Recv = func(x *Exec, s *State, ch ssa.Value, ty types.Type, ok bool, at ssa.Instruction) *Term {
			if meet(p.origins(ch), c.finished) {
				c.finish(t, s, name, x.P.InstrPos(at))
			} else {
				t.bad(tooEnd, name, x.P.InstrPos(at), "waits for something else than the outputs")
			}
			return nil
		}
		x.H.Call = func(x *Exec, s *State, ev *CallEvent) ([]Outcome, bool) {
			pos := x.P.InstrPos(ev.Instr)
			if ev.Kind == "go" {
				g := ev.Fn
				switch {
				case g != nil && c.workers[g]:
					started++
					t.ok(tooWork, name, pos)
					s.ghost["!started"] = tInt(1)
					setBal(s, tSub(bal(s), tInt(1)))
				case g != nil && c.cleaners[g]:
					if flag(s, "cleaner") {
						t.bad(tooEnd, name, pos, "the outputs are received twice")
					}
					s.ghost["!cleaner"] = tInt(1)
				}
				return []Outcome{{}}, true
			}
			switch ev.Name {
			case "flag.Args":
				return []Outcome{{Res: args}}, true
			case "flag.NArg":
				return []Outcome{{Res: tLen(args)}}, true
			case "flag.Arg":
				a := tIndexAddr(args, ev.Args[0], types.NewPointer(types.Typ[types.String]))
				sc.visit(x, s, args, ev.Args[0], ev.Instr)
				return []Outcome{{Res: s.load(a)}}, true
			case "runtime.NumCPU", "runtime.GOMAXPROCS":
				return []Outcome{{Res: tCall(ev.Name, types.Typ[types.Int])}}, true
			case "(*sync.WaitGroup).Add":
				if meet(p.origins(ev.Com.Args[0]), c.ended) {
					setBal(s, tAdd(bal(s), ev.Args[1]))
				}
				return []Outcome{{}}, true
			case "(*sync.WaitGroup).Wait":
				o := p.origins(ev.Com.Args[0])
				if meet(o, c.finished) && !meet(o, c.ended) {
					c.finish(t, s, name, pos)
					return []Outcome{{}}, true
				}
				if !meet(o, c.ended) {
					t.bad(tooEnd, name, pos, "waits for something else than the workers")
					return []Outcome{{}}, true
				}
				t.ok(tooEnd, name, pos)
				if impossible(s) {
					return []Outcome{{Stop: true}}, true
				}
				if !flag(s, "closedN") {
					t.bad(tooEnd, name, pos, "waits for the workers before the channel of the files is closed", s.trail.lines(8)...)
				}
				if !s.is(tEqInt(bal(s), tInt(0))) {
					t.bad(tooWork, name, pos, "the number of workers started need not be the number announced", s.trail.lines(8)...)
				}
				s.ghost["!waited"] = tInt(1)
				return []Outcome{{}}, true
			case "builtin.close":
				o := p.origins(ev.Com.Args[0])
				switch {
				case meet(o, c.names):
					closed++
					t.ok(tooEnd, name, pos)
					if !sc.complete(s, args) {
						t.bad(tooSend, name, pos, "the channel is closed although not all of the files were sent", s.trail.lines(8)...)
					}
					if flag(s, "closedN") {
						t.bad(tooEnd, name, pos, "the channel of the files is closed twice")
					}
					s.ghost["!closedN"] = tInt(1)
				case meet(o, c.outs):
					if !flag(s, "waited") {
						t.bad(tooEnd, name, pos, "the channel of the outputs is closed before the workers have ended", s.trail.lines(8)...)
					}
					s.ghost["!closedC"] = tInt(1)
				}
				return []Outcome{{}}, true
			case "log.Fatal", "log.Fatalf", "log.Fatalln", "os.Exit", "runtime.Goexit":
				if flag(s, "started") {
					t.bad(tooEnd, name, pos, "exits while files may be processed", s.trail.lines(8)...)
				}
				return []Outcome{{Stop: true}}, true
			}
			if p.external(ev) {
				return opaque(x, s, ev), true
			}
			return nil, false
		}
		x.H.Return = func(x *Exec, s *State, res []*Term, at ssa.Instruction) {
			pos := x.P.InstrPos(at)
			t.ok(tooEnd, name, pos)
			if !flag(s, "started") && s.is(tLe(tLen(args), tInt(0))) {
				return
			}
			if impossible(s) {
				return
			}
			switch {
			case !flag(s, "closedN"):
				t.bad(tooEnd, name, pos, "ends although not all of the files were given to the workers", s.trail.lines(8)...)
			case !flag(s, "waited"):
				t.bad(tooEnd, name, pos, "ends without waiting for the workers", s.trail.lines(8)...)
			case len(c.cleaners) > 0 && !flag(s, "finished"):
				t.bad(tooEnd, name, pos, "ends although outputs may not be written", s.trail.lines(8)...)
			case len(c.cleaners) > 0 && !flag(s, "cleaner"):
				t.bad(tooEnd, name, pos, "nothing receives the outputs", s.trail.lines(8)...)
			}
		}
		t.after = append(t.after, func() {
			sc.done(x)
			for ph, pos := range counters {
				if uneven[ph] || bound[ph] && down[ph] {
					t.bad(tooWork, name, pos, "not every round of the loop starts a worker")
				}
			}
			if closed == 0 || started == 0 {
				t.bad(tooEnd, name, x.P.Pos(c.main.Pos()), "the workers are not started, or their channel is not closed")
			}
		})
		return s0
	})
}

// finish: the end of the cleaner is awaited.
func (c *tools) finish(t *Report, s *State, name, pos string) {
	t.ok(tooEnd, name, pos)
	if s.ghost["!closedC"] == nil {
		t.bad(tooEnd, name, pos, "waits for the outputs before their channel is closed", s.trail.lines(8)...)
	}
	s.ghost["!finished"] = tInt(1)
}

// signal: a goroutine tells its end.
func (c *tools) signal(t *Report, s *State, ev string, kind, name, pos string) {
	t.ok(tooDone, name, pos)
	if s.ghost["!signal"] != nil {
		t.bad(tooDone, name, pos, "tells its end twice", s.trail.lines(8)...)
	}
	if kind != "defer" && s.ghost["!closed"] == nil {
		t.bad(tooDone, name, pos, "tells its end although there may be more to do", s.trail.lines(8)...)
	}
	s.ghost["!signal"] = tInt(1)
}

// receive models taking a value from a channel of work.
func (c *tools) receive(x *Exec, s *State, ty types.Type, ok bool, at ssa.Instruction, mine func(s *State, v *Term)) *Term {
	el := ty
	if ok {
		el = ty.(*types.Tuple).At(0).Type()
	}
	v := x.fresh(s, at, "taken", el)
	mine(s, v)
	if !ok {
		return v
	}
	more := x.fresh(s, at, "more", types.Typ[types.Bool])
	s.ghost["!taken"] = tTuple(v, more)
	return tTuple(v, more)
}

// again: the next value is received in the next iteration of the loop.
func again(x *Exec, s *State, h *ssa.BasicBlock) bool {
	g := s.ghost["!taken"]
	l := x.loops(h.Parent()).byHeader[h]
	if g == nil || l == nil || g.Args[0].Site == nil || g.Args[0].Site.Instr == nil {
		return false
	}
	in := g.Args[0].Site.Instr
	for fr := g.Args[0].Site.Frame; fr != nil; fr = fr.Parent {
		if in.Parent() == h.Parent() {
			return l.body[in.Block()]
		}
		if in = fr.Call; in == nil {
			break
		}
	}
	return false
}

// more decides if the last value received is one.
func more(s *State) Tri {
	g := s.ghost["!taken"]
	if g == nil || len(g.Args) < 2 {
		return Unknown
	}
	return s.facts.eval(g.Args[1])
}

func (c *tools) checkWorker(f *ssa.Function) {
	p := c.p
	name := shortName(f)
	c.r.analyse("grate2tsv "+name, f, func(x *Exec, t *Report) *State {
		s0 := x.Start(f)
		x.KeepLists = true
		taken, lines := 0, 0
		sc := newScan(t, tooLine, name)
		x.H.JoinAt = func(s *State, blk *ssa.BasicBlock) (string, int, bool) {
			return "", 0, x.loops(blk.Parent()).byHeader[blk] != nil
		}
		x.H.Inline = func(x *Exec, s *State, fn *ssa.Function) bool {
			return inCmd(fn) && fn != c.proc && !onStack(s, fn)
		}
		x.H.Store = c.unshared(t, name)
		flag := func(s *State, k string) bool { return s.ghost["!"+k] != nil }
		// finish: the current file is done
		finish := func(s *State, pos string) {
			if more(s) == False || s.ghost["!taken"] == nil {
				return
			}
			if flag(s, "lock") {
				t.bad(tooLine, name, pos, "the lock is kept", s.trail.lines(8)...)
			}
			g := s.ghost["!proc"]
			if g == nil {
				t.bad(tooTake, name, pos, "a file is taken and not handled", s.trail.lines(8)...)
				return
			}
			list, err := g.Args[0], g.Args[1]
			switch s.nilnessErr(err) {
			case True:
				if !sc.complete(s, list) {
					t.bad(tooLine, name, pos, "a sheet of the file may not be reported", s.trail.lines(8)...)
				}
			case False:
				if !flag(s, "eline") {
					t.bad(tooLine, name, pos, "the error of a file is not reported", s.trail.lines(8)...)
				}
			default:
				t.bad(tooLine, name, pos, "a file is reported without looking at its error", s.trail.lines(8)...)
			}
		}
		reset := func(s *State) {
			for _, k := range []string{"proc", "eline", "x" + name, "v" + name, "closed", "taken"} {
				delete(s.ghost, "!"+k)
			}
		}
		x.H.Recv = func(x *Exec, s *State, ch ssa.Value, ty types.Type, ok bool, at ssa.Instruction) *Term {
			pos := x.P.InstrPos(at)
			if !meet(p.origins(ch), c.names) {
				t.bad(tooTake, name, pos, "receives from another channel")
				return nil
			}
			taken++
			t.ok(tooTake, name, pos)
			finish(s, pos)
			if more(s) == False {
				t.bad(tooTake, name, pos, "goes on after the channel is closed")
			}
			reset(s)
			return c.receive(x, s, ty, ok, at, func(s *State, v *Term) {})
		}
		x.H.Edge = func(x *Exec, s *State, from, to *ssa.BasicBlock) {
			sc.edge(x, s, from, to)
			if more(s) == False {
				s.ghost["!closed"] = tInt(1)
			}
		}
		x.H.Send = func(x *Exec, s *State, ch ssa.Value, val *Term, at ssa.Instruction) {
			if meet(p.origins(ch), c.ended) {
				c.signal(t, s, "send", "", name, x.P.InstrPos(at))
			}
		}
		x.H.Load = func(x *Exec, s *State, addr *Term, at ssa.Instruction) {
			if g := s.ghost["!proc"]; g != nil && addr.anySub(func(u *Term) bool { return u.Op == OIndexAddr && u.Args[0] == g.Args[0] }) {
				b, i, _ := elemOf(addr)
				if b == g.Args[0] {
					if v := s.ghost["!v"+name]; v == nil || v.Args[1] != i {
						sc.visit(x, s, b, i, at)
					}
				}
			}
		}
		x.H.BackEdge = func(x *Exec, s *State, h *ssa.BasicBlock, in func(*Term) bool, old, nw map[*ssa.Phi]*Term) {
			if s.ghost["!v"+name] != nil && !flag(s, "line") {
				t.bad(tooLine, name, x.P.blockPos(h), "a sheet is not reported", s.trail.lines(8)...)
			}
			sc.backEdge(x, s, h, old, nw)
			delete(s.ghost, "!line")
			if again(x, s, h) {
				finish(s, x.P.blockPos(h))
				reset(s)
			}
		}
		x.H.Call = func(x *Exec, s *State, ev *CallEvent) ([]Outcome, bool) {
			pos := x.P.InstrPos(ev.Instr)
			if ev.Fn == c.proc {
				t.ok(tooTake, name, pos)
				g := s.ghost["!taken"]
				switch {
				case g == nil || more(s) == False || len(ev.Args) == 0:
					t.bad(tooTake, name, pos, "handles a file it has not taken", s.trail.lines(8)...)
				case flag(s, "proc"):
					t.bad(tooTake, name, pos, "handles a file twice", s.trail.lines(8)...)
				default:
					has := false
					for _, a := range ev.Args {
						has = has || a == g.Args[0]
					}
					if !has {
						t.bad(tooTake, name, pos, "handles "+ev.Args[0].String()+" instead of the file taken", s.trail.lines(8)...)
					}
				}
				res := ev.Sig.Results()
				var list *Term
				var okL, badL []*Term
				e := mk(Term{Op: OCall, S: "error:file", T: tErrType})
				for i := 0; i < res.Len(); i++ {
					v := x.fresh(s, ev.Instr, "handled"+itoa(i), res.At(i).Type())
					if _, ok := under(v.T).(*types.Slice); ok && list == nil {
						list = v
					}
					if types.Identical(res.At(i).Type(), tErrType) {
						okL, badL = append(okL, tNil(tErrType)), append(badL, e)
					} else {
						okL, badL = append(okL, v), append(badL, v)
					}
				}
				if list == nil || len(okL) < 2 {
					t.bad("anchor", name, pos, "handling a file gives no list of results")
					return nil, false
				}
				return []Outcome{
					{Res: tTuple(okL...), Do: func(s *State) { s.ghost["!proc"] = tTuple(list, tNil(tErrType)) }},
					{Res: tTuple(badL...), Do: func(s *State) { s.ghost["!proc"] = tTuple(list, e) }},
				}, true
			}
			switch ev.Name {
			case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock":
				c.shared(t, name, pos, ev.Com.Args[0])
				if flag(s, "lock") {
					t.bad(tooLine, name, pos, "locks twice", s.trail.lines(8)...)
				}
				s.ghost["!lock"] = tTuple(ev.Args[0])
				return []Outcome{{}}, true
			case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock":
				if g := s.ghost["!lock"]; g == nil || g.Args[0] != ev.Args[0] {
					t.bad(tooLine, name, pos, "unlocks what is not locked", s.trail.lines(8)...)
				}
				delete(s.ghost, "!lock")
				return []Outcome{{}}, true
			case "(*sync.WaitGroup).Done":
				if meet(p.origins(ev.Com.Args[0]), c.ended) {
					c.signal(t, s, "done", ev.Kind, name, pos)
				}
				return []Outcome{{}}, true
			case "log.Fatal", "log.Fatalf", "log.Fatalln", "os.Exit", "runtime.Goexit":
				t.bad(tooTake, name, pos, "one file ends the command", s.trail.lines(8)...)
				return []Outcome{{Stop: true}}, true
			}
			if dst, text := written(s, ev); dst != nil && s.ghost["!proc"] != nil && !std(dst) {
				lines++
				t.ok(tooLine, name, pos)
				if !flag(s, "lock") {
					t.bad(tooLine, name, pos, "writes without the lock", s.trail.lines(8)...)
				}
				g := s.ghost["!proc"]
				all := tTuple(text...)
				if s.nilnessErr(g.Args[1]) == False {
					if flag(s, "eline") {
						t.bad(tooLine, name, pos, "an error is reported twice", s.trail.lines(8)...)
					}
					if !all.anySub(func(u *Term) bool { return u == g.Args[1] }) {
						t.bad(tooLine, name, pos, "the line does not show the error", s.trail.lines(8)...)
					}
					if tk := s.ghost["!taken"]; tk == nil || !all.contains(tk.Args[0]) {
						t.bad(tooLine, name, pos, "the line does not show the file", s.trail.lines(8)...)
					}
					s.ghost["!eline"] = tInt(1)
				} else {
					v := s.ghost["!v"+name]
					if flag(s, "line") {
						t.bad(tooLine, name, pos, "a sheet is reported twice", s.trail.lines(8)...)
					}
					if v == nil {
						t.bad(tooLine, name, pos, "the line is not that of a sheet", s.trail.lines(8)...)
					} else {
						c.shows(t, s, name, pos, all, v.Args[0], v.Args[1])
					}
					s.ghost["!line"] = tInt(1)
				}
				return opaque(x, s, ev), true
			}
			if strings.HasSuffix(ev.Name, ").Error") && len(ev.Args) == 1 {
				return []Outcome{{Res: tCall("Error", types.Typ[types.String], ev.Args[0])}}, true
			}
			if p.external(ev) {
				return opaque(x, s, ev), true
			}
			return nil, false
		}
		x.H.Return = func(x *Exec, s *State, res []*Term, at ssa.Instruction) {
			pos := x.P.InstrPos(at)
			t.ok(tooDone, name, pos)
			if more(s) != False {
				t.bad(tooDone, name, pos, "ends although there may be more files", s.trail.lines(8)...)
			}
			if !flag(s, "signal") {
				t.bad(tooDone, name, pos, "does not tell its end", s.trail.lines(8)...)
			}
			if flag(s, "lock") {
				t.bad(tooLine, name, pos, "the lock is kept", s.trail.lines(8)...)
			}
		}
		t.after = append(t.after, func() {
			if taken == 0 || lines == 0 {
				t.bad(tooTake, name, x.P.Pos(f.Pos()), "no file is ever taken and reported")
				return
			}
			sc.done(x)
		})
		return s0
	})
}

// shared: the lock is the same for all of the workers.
func (c *tools) shared(t *Report, name, pos string, mu ssa.Value) {
	p := c.p
	o := p.origins(mu)
	bad := len(o) != 1
	for v := range o {
		switch v := v.(type) {
		case *ssa.Global:
		case *ssa.Alloc:
			for f := range c.workers {
				for _, g := range c.cone(f) {
					bad = bad || g == v.Parent()
				}
			}
			if l := findLoops(v.Parent()); l != nil {
				for _, lp := range l.byHeader {
					if lp.body[v.Block()] {
						bad = true
					}
				}
			}
		default:
			bad = true
		}
	}
	if bad {
		t.bad(tooLine, name, pos, "the workers need not share the lock")
	}
}

// unshared: goroutines do not write to variables of others.
func (c *tools) unshared(t *Report, name string) func(x *Exec, s *State, addr, val *Term, at ssa.Instruction) {
	return func(x *Exec, s *State, addr, val *Term, at ssa.Instruction) {
		root := rootOf(addr)
		out := root.Op == OGlobal || root.Site != nil && root.Site.What == "freevar"
		if s.ghost["!lock"] == nil && out {
			t.bad(tooOwn, name, x.P.InstrPos(at), "writes to a variable other goroutines can see: "+addr.String(), s.trail.lines(8)...)
		}
	}
}

// shows: a line tells the name of the sheet, and the error if there is one.
func (c *tools) shows(t *Report, s *State, name, pos string, line, list, idx *Term) {
	st, _ := under(under(list.T).(*types.Slice).Elem()).(*types.Struct)
	if st == nil {
		return
	}
	at := elemAddr(s, list, idx)
	for i := 0; i < st.NumFields(); i++ {
		v := s.load(fieldAddrOf(at, i))
		switch {
		case types.Identical(st.Field(i).Type(), tErrType):
			if s.nilness(v) != True && !line.anySub(func(u *Term) bool { return u.Op == OCall && u.S == "Error" && u.Args[0] == v || u == v }) {
				t.bad(tooLine, name, pos, "the line does not show the error of the sheet", s.trail.lines(8)...)
			}
		case st.Field(i).Name() == "SheetName" || st.Field(i).Name() == "Filename" || st.Field(i).Name() == "NumRows" || st.Field(i).Name() == "NumCols":
			if !line.contains(v) {
				t.bad(tooLine, name, pos, "the line does not show the "+st.Field(i).Name(), s.trail.lines(8)...)
			}
		}
	}
}

// std: a standard stream, or nowhere.
func std(dst *Term) bool {
	return dst.anySub(func(u *Term) bool {
		if u.Op != OGlobal {
			return false
		}
		g, ok := u.G.(*ssa.Global)
		return ok && (g.String() == "os.Stdout" || g.String() == "os.Stderr" || strings.HasSuffix(g.String(), ".Discard"))
	})
}

// written: a call which writes text.
func written(s *State, ev *CallEvent) (dst *Term, text []*Term) {
	n := ev.Name
	switch {
	case n == "fmt.Fprintf" || n == "fmt.Fprint" || n == "fmt.Fprintln":
		i := 1
		if n == "fmt.Fprintf" {
			i = 2
		}
		l, ok := s.varargs(ev.Args[i])
		if !ok {
			l = []*Term{ev.Args[i]}
		}
		if i == 2 {
			l = append([]*Term{ev.Args[1]}, l...)
		}
		return ev.Args[0], l
	case n == "io.WriteString":
		return ev.Args[0], ev.Args[1:]
	case strings.HasSuffix(n, ").WriteString") || strings.HasSuffix(n, ").Write") || strings.HasSuffix(n, ").WriteByte") || strings.HasSuffix(n, ").WriteRune"):
		if len(ev.Args) == 2 {
			return ev.Args[0], ev.Args[1:]
		}
	}
	return nil, nil
}

func (c *tools) checkCleaner(f *ssa.Function) {
	p := c.p
	name := "receiver of the outputs"
	c.r.analyse("grate2tsv "+name, f, func(x *Exec, t *Report) *State {
		s0 := x.Start(f)
		x.KeepLists = true
		taken := 0
		x.H.Store = c.unshared(t, name)
		x.H.JoinAt = func(s *State, blk *ssa.BasicBlock) (string, int, bool) {
			return "", 0, x.loops(blk.Parent()).byHeader[blk] != nil
		}
		x.H.Inline = func(x *Exec, s *State, fn *ssa.Function) bool { return inCmd(fn) && !onStack(s, fn) }
		flag := func(s *State, k string) bool { return s.ghost["!"+k] != nil }
		finish := func(s *State, pos string) {
			if s.ghost["!taken"] != nil && more(s) != False && !flag(s, "fclosed") {
				t.bad(tooOut, name, pos, "an output is not closed", s.trail.lines(8)...)
			}
		}
		reset := func(s *State) {
			for _, k := range []string{"flushed", "fclosed", "given", "closed", "taken"} {
				delete(s.ghost, "!"+k)
			}
		}
		field := func(s *State, v *Term) int {
			g := s.ghost["!taken"]
			if g == nil {
				return -1
			}
			st, _ := under(pointee0(g.Args[0].T)).(*types.Struct)
			for i := 0; st != nil && i < st.NumFields(); i++ {
				if s.load(fieldAddrOf(g.Args[0], i)) == v {
					return i
				}
			}
			return -1
		}
		x.H.Recv = func(x *Exec, s *State, ch ssa.Value, ty types.Type, ok bool, at ssa.Instruction) *Term {
			pos := x.P.InstrPos(at)
			if !meet(p.origins(ch), c.outs) {
				return nil
			}
			taken++
			t.ok(tooOut, name, pos)
			finish(s, pos)
			reset(s)
			return c.receive(x, s, ty, ok, at, func(s *State, v *Term) {
				s.assumeQuiet(tNot(tEq(v, tNil(v.T), nil)))
			})
		}
		x.H.Edge = func(x *Exec, s *State, from, to *ssa.BasicBlock) {
			if more(s) == False {
				s.ghost["!closed"] = tInt(1)
			}
		}
		x.H.BackEdge = func(x *Exec, s *State, h *ssa.BasicBlock, in func(*Term) bool, old, nw map[*ssa.Phi]*Term) {
			if again(x, s, h) {
				finish(s, x.P.blockPos(h))
				reset(s)
			}
		}
		x.H.Send = func(x *Exec, s *State, ch ssa.Value, val *Term, at ssa.Instruction) {
			c.signal(t, s, "send", "", name, x.P.InstrPos(at))
		}
		x.H.Call = func(x *Exec, s *State, ev *CallEvent) ([]Outcome, bool) {
			pos := x.P.InstrPos(ev.Instr)
			if ev.Kind == "go" {
				t.bad(tooOut, name, pos, "starts another goroutine")
				return []Outcome{{}}, true
			}
			switch ev.Name {
			case "(*bufio.Writer).Flush":
				t.ok(tooOut, name, pos)
				if field(s, ev.Args[0]) >= 0 {
					if flag(s, "fclosed") || flag(s, "given") {
						t.bad(tooOut, name, pos, "flushes after closing", s.trail.lines(8)...)
					}
					s.ghost["!flushed"] = tInt(1)
				}
			case "(*os.File).Close":
				t.ok(tooOut, name, pos)
				if field(s, ev.Args[0]) >= 0 {
					if !flag(s, "flushed") {
						t.bad(tooOut, name, pos, "closes before flushing", s.trail.lines(8)...)
					}
					if flag(s, "fclosed") {
						t.bad(tooOut, name, pos, "closes twice", s.trail.lines(8)...)
					}
					s.ghost["!fclosed"] = tInt(1)
				}
			case "(*sync.Pool).Put":
				if g := s.ghost["!taken"]; g != nil && ev.Args[1].inner(OIface) == g.Args[0] {
					if !flag(s, "fclosed") {
						t.bad(tooOwn, name, pos, "an output is given back before it is closed", s.trail.lines(8)...)
					}
					if flag(s, "given") {
						t.bad(tooOwn, name, pos, "an output is given back twice", s.trail.lines(8)...)
					}
					s.ghost["!given"] = tInt(1)
				}
			case "builtin.close":
				c.signal(t, s, "close", ev.Kind, name, pos)
				return []Outcome{{}}, true
			case "(*sync.WaitGroup).Done":
				c.signal(t, s, "done", ev.Kind, name, pos)
			case "log.Fatal", "log.Fatalf", "log.Fatalln", "os.Exit", "runtime.Goexit":
				t.bad(tooOut, name, pos, "one output ends the command", s.trail.lines(8)...)
				return []Outcome{{Stop: true}}, true
			}
			if p.external(ev) {
				return opaque(x, s, ev), true
			}
			return nil, false
		}
		x.H.Return = func(x *Exec, s *State, res []*Term, at ssa.Instruction) {
			pos := x.P.InstrPos(at)
			t.ok(tooDone, name, pos)
			if more(s) != False {
				t.bad(tooDone, name, pos, "ends although there may be more outputs", s.trail.lines(8)...)
			}
			if !flag(s, "signal") {
				t.bad(tooDone, name, pos, "does not tell its end", s.trail.lines(8)...)
			}
		}
		t.after = append(t.after, func() {
			if taken == 0 {
				t.bad(tooOut, name, x.P.Pos(f.Pos()), "no output is ever received")
			}
		})
		return s0
	})
}

// checkOutputs: who handles a file creates the outputs.
func (c *tools) checkOutputs() {
	p := c.p
	f := c.proc
	name := shortName(f)
	c.r.analyse("grate2tsv "+name, f, func(x *Exec, t *Report) *State {
		s0 := x.Start(f)
		x.KeepLists = true
		made := 0
		x.H.Store = c.unshared(t, name)
		x.H.JoinAt = func(s *State, blk *ssa.BasicBlock) (string, int, bool) {
			return "", 0, x.loops(blk.Parent()).byHeader[blk] != nil
		}
		x.H.Inline = func(x *Exec, s *State, fn *ssa.Function) bool { return inCmd(fn) && !onStack(s, fn) }
		drop := func(s *State, pos string) {
			if s.ghost["!open"] != nil {
				t.bad(tooOwn, name, pos, "an output is created and not handed over", s.trail.lines(8)...)
			}
		}
		gone := func(s *State, v *Term) bool {
			g := s.ghost["!gone"]
			return g != nil && (v == g.Args[0] || v == g.Args[1] || v == g.Args[2])
		}
		x.H.Send = func(x *Exec, s *State, ch ssa.Value, val *Term, at ssa.Instruction) {
			pos := x.P.InstrPos(at)
			if !meet(p.origins(ch), c.outs) {
				t.bad(tooOwn, name, pos, "sends to another channel")
				return
			}
			t.ok(tooOwn, name, pos)
			g := s.ghost["!open"]
			if g == nil {
				t.bad(tooOwn, name, pos, "hands over an output which was not created, or twice", s.trail.lines(8)...)
				return
			}
			st, _ := under(pointee0(val.T)).(*types.Struct)
			var file, wr *Term
			for i := 0; st != nil && i < st.NumFields(); i++ {
				switch v := s.load(fieldAddrOf(val, i)); st.Field(i).Type().String() {
				case "*os.File":
					file = v
				case "*bufio.Writer":
					wr = v
				}
			}
			if file != g.Args[0] {
				t.bad(tooOwn, name, pos, "hands over another file than the one created", s.trail.lines(8)...)
			}
			if w := s.ghost["!writer"]; w == nil || wr == nil || wr != w.Args[0] {
				t.bad(tooOwn, name, pos, "hands over another writer than the one of the file", s.trail.lines(8)...)
			}
			delete(s.ghost, "!open")
			delete(s.ghost, "!writer")
			s.ghost["!gone"] = tTuple(val, g.Args[0], wr)
		}
		x.H.BackEdge = func(x *Exec, s *State, h *ssa.BasicBlock, in func(*Term) bool, old, nw map[*ssa.Phi]*Term) {
			if g := s.ghost["!open"]; g != nil {
				// created in this loop?
				l := x.loops(h.Parent()).byHeader[h]
				if g.Args[1].Site != nil && g.Args[1].Site.Instr != nil && l != nil && l.body[g.Args[1].Site.Instr.Block()] {
					drop(s, x.P.blockPos(h))
					delete(s.ghost, "!open")
				}
			}
			if g := s.ghost["!gone"]; g != nil {
				delete(s.ghost, "!gone")
			}
		}
		x.H.Call = func(x *Exec, s *State, ev *CallEvent) ([]Outcome, bool) {
			pos := x.P.InstrPos(ev.Instr)
			if ev.Kind == "go" {
				t.bad(tooOwn, name, pos, "starts another goroutine")
				return []Outcome{{}}, true
			}
			for _, a := range ev.Args {
				if a != nil && (gone(s, a) || gone(s, a.inner(OIface))) {
					t.bad(tooOwn, name, pos, "an output is used after it was handed over", s.trail.lines(8)...)
				}
			}
			switch ev.Name {
			case "os.Create", "os.OpenFile":
				made++
				t.ok(tooOwn, name, pos)
				drop(s, pos)
				file := x.fresh(s, ev.Instr, "file", ev.Sig.Results().At(0).Type())
				e := mk(Term{Op: OCall, S: "error:os.Create", T: tErrType})
				return []Outcome{
					{Res: tTuple(file, tNil(tErrType)), Do: func(s *State) { s.ghost["!open"] = tTuple(file, file) }},
					{Res: tTuple(tNil(file.T), e)},
				}, true
			case "bufio.NewWriter", "bufio.NewWriterSize":
				w := x.fresh(s, ev.Instr, "writer", ev.Sig.Results().At(0).Type())
				s.assumeQuiet(tNot(tEq(w, tNil(w.T), nil)))
				if g := s.ghost["!open"]; g != nil && ev.Args[0].inner(OIface) == g.Args[0] {
					s.ghost["!writer"] = tTuple(w)
				}
				return []Outcome{{Res: w}}, true
			case "(*bufio.Writer).Reset":
				if g := s.ghost["!open"]; g != nil && ev.Args[1].inner(OIface) == g.Args[0] {
					s.ghost["!writer"] = tTuple(ev.Args[0])
				}
				return []Outcome{{}}, true
			case "(*bufio.Writer).Flush":
				if g := s.ghost["!writer"]; g != nil && g.Args[0] == ev.Args[0] {
					s.ghost["!pflush"] = tInt(1)
				}
			case "(*os.File).Close":
				if g := s.ghost["!open"]; g != nil && g.Args[0] == ev.Args[0] {
					if s.ghost["!pflush"] == nil {
						t.bad(tooOut, name, pos, "closes before flushing", s.trail.lines(8)...)
					}
					for _, k := range []string{"open", "writer", "pflush"} {
						delete(s.ghost, "!"+k)
					}
				}
			case "log.Fatal", "log.Fatalf", "log.Fatalln", "os.Exit", "runtime.Goexit":
				t.bad(tooTake, name, pos, "one file ends the command", s.trail.lines(8)...)
				return []Outcome{{Stop: true}}, true
			}
			if p.external(ev) || ev.Com != nil && ev.Com.IsInvoke() || ev.Fn != nil && !inCmd(ev.Fn) {
				return opaque(x, s, ev), true
			}
			return nil, false
		}
		x.H.Return = func(x *Exec, s *State, res []*Term, at ssa.Instruction) {
			drop(s, x.P.InstrPos(at))
		}
		t.after = append(t.after, func() {
			if made == 0 {
				t.bad(tooOwn, name, x.P.Pos(f.Pos()), "no output is ever created")
			}
		})
		return s0
	})
}
