package main

import (
	"go/constant"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (x *Exec) builtin(s *State, blk *ssa.BasicBlock, idx int, at ssa.Instruction, ev *CallEvent) {
	name := strings.TrimPrefix(ev.Name, "builtin.")
	a := ev.Args
	one := func(t *Term) { x.resume(s, blk, idx, t) }
	switch name {
	case "len":
		one(tLen(a[0]))
	case "cap":
		one(mk(Term{Op: OCap, Args: []*Term{a[0]}, T: types.Typ[types.Int]}))
	case "append":
		t := x.appendTerm(s, a)
		if x.H.Append != nil && t != a[0] {
			var el []*Term
			if t.Op == OAppend {
				el = t.Args[1:]
			}
			x.H.Append(x, s, a[0], el, ev.Instr)
		}
		one(t)
	case "copy":
		// contents of the destination change
		n := x.fresh(s, ev.Instr, "copied", types.Typ[types.Int], a...)
		s.facts = s.facts.filter(func(f *Term) bool { return !f.contains(n) })
		s.assumeQuiet(tLe(tInt(0), n))
		s.assumeQuiet(tLe(n, tLen(a[0])))
		s.assumeQuiet(tLe(n, tLen(a[1])))
		x.dirtyElems(s, a[0], ev.Instr)
		one(n)
	case "delete":
		if a[0].T != nil {
			slot := mk(Term{Op: OMapSlot, Args: []*Term{a[0], a[1]}, T: a[0].T})
			e := x.epochSym(s, ev.Instr, "delete")
			s.invalidate(slot, e)
			delete(s.mem, slot)
			if rootOf(slot).Op == OObj {
				s.epoch["o"+strconv.Itoa(a[0].id)] = e
			}
			has := a[0]
			s.facts = s.facts.filter(func(f *Term) bool { return !(f.Op == OMapHas && f.Args[0] == has) })
		}
		one(nil)
	case "recover":
		f := s.fr
		if f.parent != nil && f.parent.panicking && f.ctx.Call != nil {
			if _, ok := f.ctx.Call.(*ssa.Defer); ok {
				f.parent.recovered = true
				r := x.sym(s, ev.Instr, "panicvalue", types.NewInterfaceType(nil, nil))
				s.assumeQuiet(tNot(tEq(r, tNil(r.T), nil)))
				one(r)
				return
			}
		}
		one(tNil(types.NewInterfaceType(nil, nil)))
	case "panic":
		s.note(x.P.InstrPos(ev.Instr), "panic")
		x.unwind(s, ev.Instr)
	case "print", "println", "close", "clear":
		one(nil)
	case "min", "max":
		one(tCall(name, ev.Sig.Results().At(0).Type(), a...))
	default:
		var ty types.Type
		if ev.Sig.Results().Len() > 0 {
			ty = ev.Sig.Results()
		} else {
			one(nil)
			return
		}
		one(x.fresh(s, ev.Instr, name, ty, a...))
	}
}

func (x *Exec) dirtyElems(s *State, sl *Term, at ssa.Instruction) {
	b, _ := sliceParts(sl)
	e := x.epochSym(s, at, "elems")
	for k := range s.mem {
		if underAddr(k, b) {
			delete(s.mem, k)
		}
	}
	if rootOf(b).Op == OObj {
		s.epoch["o"+strconv.Itoa(b.id)] = e
		return
	}
	if b.T != nil {
		switch u := under(b.T).(type) {
		case *types.Slice:
			s.epoch["e"+typeKey(u.Elem())] = e
		case *types.Pointer:
			if ar, ok := under(u.Elem()).(*types.Array); ok {
				s.epoch["e"+typeKey(ar.Elem())] = e
			}
		}
	}
}

func (x *Exec) appendTerm(s *State, a []*Term) *Term {
	base := a[0]
	if len(a) < 2 || a[1].isNil() {
		return base
	}
	ty := base.T
	more := a[1]
	if ty == nil || base.isNil() {
		ty = more.T
	}
	s.escape(base)
	s.escape(more)
	// append(s, x, y): the variadic array of the compiler
	if more.Op == OSlice && more.Args[0].Op == OObj {
		if n, ok := tLen(more).intConst(); ok && n < 16 {
			arr := more.Args[0]
			if p, ok := under(arr.T).(*types.Pointer); ok {
				if at, ok := under(p.Elem()).(*types.Array); ok {
					off, _ := more.Args[1].intConst()
					args := []*Term{base}
					for i := int64(0); i < n; i++ {
						args = append(args, s.load(tIndexAddr(arr, tInt(off+i), types.NewPointer(at.Elem()))))
					}
					return mk(Term{Op: OAppend, Args: args, T: ty})
				}
			}
		}
	}
	return mk(Term{Op: OAppendS, Args: []*Term{base, more}, T: ty})
}

// varargs lists the elements of a variadic argument; ok is false if unknown.
func (s *State) varargs(t *Term) ([]*Term, bool) {
	if t.isNil() {
		return nil, true
	}
	if t.Op == OSlice && t.Args[0].Op == OObj {
		if n, ok := tLen(t).intConst(); ok && n < 64 {
			arr := t.Args[0]
			if p, ok := under(arr.T).(*types.Pointer); ok {
				if at, ok := under(p.Elem()).(*types.Array); ok {
					off, _ := t.Args[1].intConst()
					var r []*Term
					for i := int64(0); i < n; i++ {
						r = append(r, s.load(tIndexAddr(arr, tInt(off+i), types.NewPointer(at.Elem()))))
					}
					return r, true
				}
			}
		}
	}
	return nil, false
}

// purePkgs have functions whose results depend on their arguments only.
var purePkgs = map[string]bool{
	"strings": true, "strconv": true, "math": true, "unicode/utf16": true, "unicode": true, "unicode/utf8": true,
	"path/filepath": true, "path": true, "bytes": true, "math/bits": true,
}

var impure = map[string]bool{
	"bytes.NewReader": true, "bytes.NewBuffer": true, "strings.NewReader": true, "path/filepath.Glob": true,
	"path/filepath.Walk": true, "path/filepath.Abs": true, "path/filepath.EvalSymlinks": true, "strings.NewReplacer": true,
	"bytes.NewBufferString": true,
}

// model of functions outside of the repository.
func (x *Exec) model(s *State, ev *CallEvent) []Outcome {
	one := func(t *Term) []Outcome { return []Outcome{{Res: t}} }
	at := ev.Instr
	var rt types.Type = ev.Sig.Results()
	if ev.Sig.Results().Len() == 0 {
		rt = nil
	}
	name := ev.Name
	a := ev.Args
	// little endian reads and writes
	if strings.HasPrefix(name, "(encoding/binary.littleEndian).") {
		m := name[len("(encoding/binary.littleEndian)."):]
		sz := map[string]int64{"Uint16": 2, "Uint32": 4, "Uint64": 8, "PutUint16": 2, "PutUint32": 4, "PutUint64": 8}[m]
		if sz > 0 {
			b := a[1]
			if !x.obligOut(s, tLe(tInt(sz), tLen(b)), at) {
				return nil
			}
			if strings.HasPrefix(m, "Put") {
				x.dirtyElems(s, b, at)
				return one(nil)
			}
			return one(x.readBytes(s, b, sz, at))
		}
	}
	m := strings.TrimPrefix(name, "(*strings.Builder).")
	if b := strings.TrimPrefix(name, "(*bytes.Buffer)."); b != name {
		switch b {
		case "Write", "WriteString", "WriteByte", "WriteRune", "String", "Len", "Reset", "Grow":
			if rootOf(a[0]).Op == OObj {
				m = b
			}
		}
	}
	if m != name {
		// the text built so far is kept as a string field of the builder
		text := mk(Term{Op: OFieldAddr, Args: []*Term{a[0]}, I: 77, T: types.NewPointer(types.Typ[types.String])})
		cur := s.load(text)
		if cur.Op == OInit && rootOf(text).Op == OObj || cur.isNil() {
			cur = tStr("")
		}
		set := func(t *Term) { s.store(text, t, x.epochSym(s, at, "builder")) }
		switch m {
		case "WriteString":
			set(tConcat(cur, a[1]))
			return one(tTuple(tLen(a[1]), tNil(rt.(*types.Tuple).At(1).Type())))
		case "WriteByte", "WriteRune", "Write":
			t := x.fresh(s, at, "text", types.Typ[types.String], a...)
			if m == "Write" {
				t = tConv(a[1], a[1].T, types.Typ[types.String])
			}
			set(tConcat(cur, t))
			if m == "WriteByte" {
				return one(tNil(rt.(*types.Tuple).At(0).Type()))
			}
			return one(tTuple(x.fresh(s, at, "n", types.Typ[types.Int]), tNil(rt.(*types.Tuple).At(1).Type())))
		case "String":
			return one(cur)
		case "Len":
			return one(tLen(cur))
		case "Reset":
			set(tStr(""))
			return one(nil)
		case "Grow":
			return one(nil)
		}
	}
	switch name {
	case "errors.New", "fmt.Errorf":
		t := x.sym(s, at, name, ev.Sig.Results().At(0).Type(), a...)
		return []Outcome{{Res: t, Assume: []*Term{tNot(tEq(t, tNil(t.T), nil))}}}
	case "os.Exit", "log.Fatal", "log.Fatalf", "log.Fatalln", "runtime.Goexit":
		return []Outcome{{Stop: true}}
	case "log.Panic", "log.Panicf", "log.Panicln":
		return []Outcome{{Panic: true}}
	case "log.Println", "log.Printf", "log.Print":
		return one(nil)
	case "fmt.Sprint", "fmt.Sprintf", "fmt.Sprintln":
		if va, ok := s.varargs(a[len(a)-1]); ok {
			args := append(append([]*Term{}, a[:len(a)-1]...), va...)
			return one(tCall(name, types.Typ[types.String], args...))
		}
	case "math.Float64frombits":
		return one(tCall(name, types.Typ[types.Float64], a...))
	case "errors.Is":
		// identical errors match
		if a[0] == a[1] {
			return one(tBool(true))
		}
		if a[0].isNil() {
			return one(tBool(a[1].isNil()))
		}
		return one(tCall(name, types.Typ[types.Bool], a...))
	}
	if i := strings.LastIndexByte(name, '.'); i > 0 && !strings.HasPrefix(name, "(") && purePkgs[name[:i]] && !impure[name] && rt != nil {
		if t := foldPure(name, a); t != nil {
			return one(t)
		}
		pure := true
		for _, y := range a {
			if y.T != nil {
				switch under(y.T).(type) {
				case *types.Pointer, *types.Map, *types.Signature:
					pure = false
				}
			}
			if y.Op == OFunc || y.Op == OClosure {
				pure = false
			}
		}
		if pure {
			tu := ev.Sig.Results()
			if tu.Len() == 1 {
				return one(tCall(name, tu.At(0).Type(), a...))
			}
			var r []*Term
			for i := 0; i < tu.Len(); i++ {
				r = append(r, tCall(name+"#"+strconv.Itoa(i), tu.At(i).Type(), a...))
			}
			return one(tTuple(r...))
		}
	}
	if i := strings.LastIndexByte(name, '.'); i > 0 && !strings.HasPrefix(name, "(") && strings.HasPrefix(name[i+1:], "New") && ev.Sig.Results().Len() == 1 && (ev.Fn == nil || !x.P.InModule(ev.Fn)) {
		// constructors return something
		s.havoc(a, x.epochSym(s, at, "call"))
		t := x.fresh(s, at, name, rt, a...)
		s.facts = s.facts.filter(func(f *Term) bool { return !f.contains(t) })
		s.assumeQuiet(tNot(tEq(t, tNil(t.T), nil)))
		return one(t)
	}
	// unknown code may change what the arguments reach
	if !readsOnly(name) {
		s.havoc(x.written(ev), x.epochSym(s, at, "call"))
	}
	if rt == nil {
		return one(nil)
	}
	r := x.fresh(s, at, name, rt, a...)
	// re-executed: forget what was known about the earlier result
	var fresh []*Term
	if r.Op == OTuple {
		fresh = r.Args
	} else {
		fresh = []*Term{r}
	}
	s.facts = s.facts.filter(func(f *Term) bool {
		for _, y := range fresh {
			if f.contains(y) {
				return false
			}
		}
		return true
	})
	return one(r)
}

// readBytes reads a little endian number from a slice.
func (x *Exec) readBytes(s *State, b *Term, n int64, at ssa.Instruction) *Term {
	base, off := sliceParts(b)
	if rootOf(base).Op == OObj {
		// contents made here
		return x.fresh(s, at, "read", tBytes(b, tInt(0), n).T, b)
	}
	_ = off
	if b.T != nil {
		if sl, ok := under(b.T).(*types.Slice); ok {
			if e := s.epoch["e"+typeKey(sl.Elem())]; e != nil {
				return mk(Term{Op: OBytes, Args: []*Term{base, off, e}, I: n, T: tBytes(b, tInt(0), n).T})
			}
		}
	}
	return tBytes(b, tInt(0), n)
}

// obligOut is oblig for models: it ends the path only on certain panics.
func (x *Exec) obligOut(s *State, cond *Term, at ssa.Instruction) bool {
	return x.oblig(s, "index out of range", cond, at)
}

func readsOnly(name string) bool {
	switch name {
	case "errors.Is", "errors.As", "fmt.Sprint", "fmt.Sprintf", "fmt.Sprintln", "fmt.Fprintf", "fmt.Fprintln", "fmt.Fprint":
		return name != "errors.As"
	}
	return strings.HasPrefix(name, "log.") || strings.HasPrefix(name, "strings.") || strings.HasPrefix(name, "strconv.")
}

// foldPure evaluates some functions on constants.
func foldPure(name string, a []*Term) *Term {
	str := func(i int) (string, bool) {
		if i >= len(a) {
			return "", false
		}
		return a[i].strConst()
	}
	s0, ok0 := str(0)
	s1, ok1 := str(1)
	switch name {
	case "strings.HasPrefix":
		if ok0 && ok1 {
			return tBool(strings.HasPrefix(s0, s1))
		}
	case "strings.HasSuffix":
		if ok0 && ok1 {
			return tBool(strings.HasSuffix(s0, s1))
		}
	case "strings.Contains":
		if ok0 && ok1 {
			return tBool(strings.Contains(s0, s1))
		}
	case "strings.TrimSuffix":
		if ok0 && ok1 {
			return tStr(strings.TrimSuffix(s0, s1))
		}
	case "strings.TrimPrefix":
		if ok0 && ok1 {
			return tStr(strings.TrimPrefix(s0, s1))
		}
	case "strings.ToLower":
		if ok0 {
			return tStr(strings.ToLower(s0))
		}
	case "strings.TrimSpace":
		if ok0 {
			return tStr(strings.TrimSpace(s0))
		}
	}
	return nil
}

// constGlobal is the value of a package variable which is only set by its
// initialiser, nil if it is not known.
func (p *Prog) constGlobal(g *ssa.Global) *Term {
	if p.gvals == nil {
		p.scanGlobals()
	}
	return p.gvals[g]
}

// scanGlobals finds the variables which are assigned exactly once, by the
// package initialiser, and whose address does not escape.
func (p *Prog) scanGlobals() {
	p.gvals = map[*ssa.Global]*Term{}
	p.gstores = map[*ssa.Global][]*ssa.Store{}
	p.gescapes = map[*ssa.Global][]ssa.Instruction{}
	all := append([]*ssa.Function{}, p.Funcs...)
	for _, sp := range p.ByPkg {
		if f := sp.Func("init"); f != nil {
			found := false
			for _, y := range all {
				if y == f {
					found = true
				}
			}
			if !found {
				all = append(all, f)
			}
		}
	}
	for _, f := range all {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if g, ok := st.Addr.(*ssa.Global); ok {
						p.gstores[g] = append(p.gstores[g], st)
					}
					if g, ok := st.Val.(*ssa.Global); ok {
						p.gescapes[g] = append(p.gescapes[g], in)
					}
					continue
				}
				if u, ok := in.(*ssa.UnOp); ok {
					if _, ok := u.X.(*ssa.Global); ok {
						continue
					}
				}
				var ops [16]*ssa.Value
				for _, o := range in.Operands(ops[:0]) {
					if g, ok := (*o).(*ssa.Global); ok {
						p.gescapes[g] = append(p.gescapes[g], in)
					}
				}
			}
		}
	}
	for _, sp := range p.ByPkg {
		for _, m := range sp.Members {
			g, ok := m.(*ssa.Global)
			if !ok || len(p.gescapes[g]) > 0 {
				continue
			}
			st := p.gstores[g]
			elem := g.Type().(*types.Pointer).Elem()
			if len(st) == 0 {
				if _, ok := under(elem).(*types.Basic); ok {
					p.gvals[g] = zeroOf(elem)
				}
				continue
			}
			if len(st) != 1 || st[0].Parent().Name() != "init" && !strings.HasPrefix(st[0].Parent().Name(), "init#") {
				continue
			}
			v := st[0].Val
			switch c := v.(type) {
			case *ssa.Const:
				if g.Pkg.Pkg.Path() == modPath && g.Name() == "loglevel" {
					continue
				}
				p.gvals[g] = constTerm(c)
			case *ssa.Call:
				if f := c.Call.StaticCallee(); f != nil && (f.String() == "errors.New" || f.String() == "fmt.Errorf") {
					p.gvals[g] = mk(Term{Op: OCall, S: "error:" + g.Pkg.Pkg.Path() + "." + g.Name(), T: elem})
				}
			}
		}
	}
	_ = constant.Int
}

// isErrVar: one of the package level error values.
func isErrVar(t *Term) bool { return t.Op == OCall && strings.HasPrefix(t.S, "error:") }
