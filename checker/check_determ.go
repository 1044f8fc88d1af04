package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func nondeterministic(name string) bool {
	switch name {
	case "time.Now", "time.Since", "time.Until", "os.Getpid", "os.Hostname", "os.Getenv", "os.LookupEnv", "os.Environ", "os.Getwd", "os.TempDir", "runtime.NumCPU", "runtime.GOMAXPROCS", "runtime.NumGoroutine",
		"maps.Keys", "maps.Values", "maps.All", "(time.Time).Local", "time.Local", "hash/maphash.MakeSeed", "runtime.ReadMemStats", "(*os.File).Fd", "(*os.File).Name":
		return name != "(*os.File).Name"
	}
	return strings.HasPrefix(name, "math/rand") || strings.HasPrefix(name, "(*math/rand") || strings.HasPrefix(name, "crypto/rand")
}

func checkDeterminism(r *Report) {
	p := r.P
	const src = "no source of nondeterminism is used"
	const iter = "map iterations do not depend on the order"
	for _, f := range p.allFuncs() {
		if !p.InLib(f) {
			continue
		}
		r.fn(f)
		extRefs(f, func(in ssa.Instruction, name string, v ssa.Value) {
			r.ok(src, shortName(f), p.InstrPos(in))
			if nondeterministic(name) {
				r.bad(src, shortName(f)+": "+name, p.InstrPos(in), "uses "+name)
			}
		})
		nr := 0
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch y := in.(type) {
				case *ssa.Go:
					r.bad(src, shortName(f)+": go", p.InstrPos(in), "starts a goroutine")
				case *ssa.Select:
					if y.Blocking && len(y.States) > 1 {
						r.bad(src, shortName(f)+": select", p.InstrPos(in), "selects between channels")
					}
				case *ssa.BinOp:
				case *ssa.Range:
					if _, ok := under(y.X.Type()).(*types.Map); !ok {
						continue
					}
					nr++
					c := shortName(f) + " iteration " + itoa(nr)
					r.ok(iter, c, p.InstrPos(in))
					if why := p.orderDependent(f, y); why != "" {
						r.bad(iter, c, p.InstrPos(in), why)
					}
				case *ssa.Call:
					// printing a pointer or a map address
				}
			}
		}
	}
	r.expect(src, 30)
	r.expect(iter, 1)
}

// orderDependent decides whether the effect of a map iteration can depend on
// the order of the entries.
func (p *Prog) orderDependent(f *ssa.Function, rg *ssa.Range) string {
	var next *ssa.Next
	for _, u := range *rg.Referrers() {
		n, ok := u.(*ssa.Next)
		if !ok || next != nil {
			return "the iteration has an unknown form"
		}
		next = n
	}
	if next == nil {
		return ""
	}
	lf := findLoops(f)
	var lp *loop
	for _, l := range lf.byHeader {
		if l.body[next.Block()] && (lp == nil || len(l.body) < len(lp.body)) {
			lp = l
		}
	}
	if lp == nil || lp.header != next.Block() {
		if lp == nil {
			return "" // only one entry is examined... which one is arbitrary
		}
		return "the iteration has an unknown form"
	}
	// values of an iteration
	inLoop := func(v ssa.Value) bool {
		in, ok := v.(ssa.Instruction)
		return ok && lp.body[in.Block()]
	}
	var key ssa.Value
	dep := map[ssa.Value]bool{next: true}
	for changed := true; changed; {
		changed = false
		for b := range lp.body {
			for _, in := range b.Instrs {
				v, ok := in.(ssa.Value)
				if !ok || dep[v] {
					continue
				}
				var ops [16]*ssa.Value
				for _, o := range in.Operands(ops[:0]) {
					if dep[*o] {
						dep[v] = true
						changed = true
					}
				}
			}
		}
	}
	for _, u := range *next.Referrers() {
		if e, ok := u.(*ssa.Extract); ok && e.Index == 1 {
			key = e
		}
	}
	pure := p.effectFree()
	// effects of the body
	for b := range lp.body {
		for _, in := range b.Instrs {
			switch y := in.(type) {
			case *ssa.MapUpdate:
				if !localAddr(y.Map) && false {
					return ""
				}
				// entries for different keys do not interfere
				if y.Key != key || inLoop(y.Map) {
					return "updates a map under a key which is not the one of the iteration"
				}
				continue
			case *ssa.Store:
				if a, ok := y.Addr.(*ssa.Alloc); ok && lp.body[a.Block()] {
					continue
				}
				if localAddr(y.Addr) {
					if ia, ok := y.Addr.(*ssa.IndexAddr); ok && localInLoop(ia.X, lp) {
						continue
					}
					if fa, ok := y.Addr.(*ssa.FieldAddr); ok && localInLoop(fa.X, lp) {
						continue
					}
				}
				return "assigns a variable that lives longer than the iteration"
			case *ssa.Call:
				if bi, ok := y.Call.Value.(*ssa.Builtin); ok && bi.Name() == "delete" && y.Call.Args[1] == key {
					continue
				}
			}
			if why := p.effect(in, pure); why != "" {
				return why + " in the order of a map iteration"
			}
			if c, ok := in.(*ssa.Call); ok && c.Call.StaticCallee() != nil && strings.HasPrefix(c.Call.StaticCallee().String(), "log.") {
				continue // the order of log lines is no result
			}
		}
	}
	// exits other than the exhausted iteration
	var doneIf *ssa.If
	if i, ok := lp.header.Instrs[len(lp.header.Instrs)-1].(*ssa.If); ok {
		doneIf = i
	}
	early := false
	for b := range lp.body {
		for _, s := range b.Succs {
			if lp.body[s] || b == lp.header && doneIf != nil && s == lp.header.Succs[1] {
				if b == lp.header && s == lp.header.Succs[1] {
					continue
				}
				if lp.body[s] {
					continue
				}
			}
			early = true
			// nothing of the iteration may be seen after an early exit
			for _, in := range s.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				for k, e := range ph.Edges {
					if lp.body[s.Preds[k]] && s.Preds[k] == b && dep[e] {
						return "an early exit passes on the current entry"
					}
				}
			}
		}
	}
	for v := range dep {
		in := v.(ssa.Instruction)
		if !lp.body[in.Block()] || v.Referrers() == nil {
			continue
		}
		for _, u := range *v.Referrers() {
			if lp.body[u.Block()] {
				continue
			}
			if ph, ok := v.(*ssa.Phi); ok && ph.Block() == lp.header {
				continue // a loop-carried value, judged below
			}
			if _, ok := u.(*ssa.Phi); ok && early {
				return "a value of the current entry is used after the loop"
			}
			return "a value of the current entry is used after the loop"
		}
	}
	// loop-carried values
	var carried []*ssa.Phi
	for _, in := range lp.header.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		carried = append(carried, ph)
	}
	if len(carried) == 0 {
		return ""
	}
	if early {
		return "the iteration accumulates values and can end early"
	}
	var finite []*ssa.Phi
	for _, ph := range carried {
		if p.collectsAndSorts(f, lp, ph) || counts(lp, ph, dep) {
			continue
		}
		finite = append(finite, ph)
	}
	if len(finite) == 0 {
		return ""
	}
	return commutes(lp, next, finite, dep)
}

func localInLoop(v ssa.Value, lp *loop) bool {
	for {
		switch y := v.(type) {
		case *ssa.Alloc:
			return lp.body[y.Block()]
		case *ssa.IndexAddr:
			v = y.X
		case *ssa.FieldAddr:
			v = y.X
		default:
			return false
		}
	}
}

// collectsAndSorts: the phi is a list the loop only appends to, and which is
// sorted before it is used.
func (p *Prog) collectsAndSorts(f *ssa.Function, lp *loop, ph *ssa.Phi) bool {
	if _, ok := under(ph.Type()).(*types.Slice); !ok {
		return false
	}
	// inside: only appended to
	vals := map[ssa.Value]bool{ph: true}
	var after []ssa.Instruction
	for work := []ssa.Value{ph}; len(work) > 0; {
		v := work[0]
		work = work[1:]
		for _, u := range *v.Referrers() {
			if !lp.body[u.Block()] {
				after = append(after, u)
				continue
			}
			switch y := u.(type) {
			case *ssa.Phi:
				if !vals[y] {
					vals[y] = true
					work = append(work, y)
				}
			case *ssa.Call:
				bi, ok := y.Call.Value.(*ssa.Builtin)
				if !ok || bi.Name() != "append" || y.Call.Args[0] != v {
					return false
				}
				if !vals[y] {
					vals[y] = true
					work = append(work, y)
				}
			default:
				return false
			}
		}
	}
	// after: a sorting call dominates every other use
	var sorter ssa.Instruction
	isSort := func(u ssa.Instruction) bool {
		c, ok := u.(*ssa.Call)
		if !ok || c.Call.StaticCallee() == nil {
			return false
		}
		switch n := c.Call.StaticCallee().String(); n {
		case "sort.Strings", "sort.Ints", "sort.Float64s":
			return true
		default:
			return strings.HasPrefix(n, "slices.Sort[")
		}
	}
	for _, u := range after {
		if isSort(u) {
			sorter = u
		}
	}
	if sorter == nil {
		// the list of lengths only?
		for _, u := range after {
			c, ok := u.(*ssa.Call)
			if !ok {
				return false
			}
			bi, ok := c.Call.Value.(*ssa.Builtin)
			if !ok || bi.Name() != "len" {
				return false
			}
		}
		return true
	}
	for _, u := range after {
		if u == sorter {
			continue
		}
		if !before(sorter, u) {
			return false
		}
	}
	return true
}

func before(a, b ssa.Instruction) bool {
	if a.Block() == b.Block() {
		for _, in := range a.Block().Instrs {
			if in == a {
				return true
			}
			if in == b {
				return false
			}
		}
	}
	return a.Block().Dominates(b.Block())
}

// counts: the phi is a sum or an extreme of integers (or a conjunction).
func counts(lp *loop, ph *ssa.Phi, dep map[ssa.Value]bool) bool {
	if !isInt(ph.Type()) {
		return false
	}
	vals := map[ssa.Value]bool{ph: true}
	for work := []ssa.Value{ph}; len(work) > 0; {
		v := work[0]
		work = work[1:]
		for _, u := range *v.Referrers() {
			if !lp.body[u.Block()] {
				continue
			}
			switch y := u.(type) {
			case *ssa.Phi:
				if !vals[y] {
					vals[y] = true
					work = append(work, y)
				}
			case *ssa.BinOp:
				o := y.Y
				if o == v {
					o = y.X
				}
				if y.Op != token.ADD && !(y.Op == token.SUB && y.X == v) && y.Op != token.OR && y.Op != token.XOR && y.Op != token.AND || vals[o] {
					return false
				}
				if !vals[y] {
					vals[y] = true
					work = append(work, y)
				}
			default:
				return false
			}
		}
	}
	// one operator only, and the way around the loop only adds
	var op token.Token
	for v := range vals {
		if b, ok := v.(*ssa.BinOp); ok {
			o := b.Op
			if o == token.SUB {
				o = token.ADD
			}
			if op != 0 && op != o {
				return false
			}
			op = o
		}
		if q, ok := v.(*ssa.Phi); ok && q != ph {
			for _, e := range q.Edges {
				if !vals[e] {
					return false
				}
			}
		}
	}
	for i, e := range ph.Edges {
		if lp.body[ph.Block().Preds[i]] && !vals[e] {
			return false
		}
	}
	// the amount does not depend on the accumulated value
	return true
}

// commutes enumerates the transition functions of finite loop-carried values.
func commutes(lp *loop, next *ssa.Next, phis []*ssa.Phi, dep map[ssa.Value]bool) string {
	// conditions independent of the carried values are arbitrary
	carried := map[ssa.Value]bool{}
	for _, ph := range phis {
		carried[ph] = true
	}
	type env map[ssa.Value]*ssa.Const
	var atoms []ssa.Value
	atomOf := map[ssa.Value]int{}
	onCarried := map[ssa.Value]bool{}
	for v := range carried {
		onCarried[v] = true
	}
	for changed := true; changed; {
		changed = false
		for b := range lp.body {
			for _, in := range b.Instrs {
				v, ok := in.(ssa.Value)
				if !ok || onCarried[v] {
					continue
				}
				var ops [16]*ssa.Value
				for _, o := range in.Operands(ops[:0]) {
					if onCarried[*o] {
						onCarried[v] = true
						changed = true
					}
				}
			}
		}
	}
	for b := range lp.body {
		if i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok && b != lp.header && !onCarried[i.Cond] {
			if _, had := atomOf[i.Cond]; !had {
				atomOf[i.Cond] = len(atoms)
				atoms = append(atoms, i.Cond)
			}
		}
	}
	if len(atoms) > 8 {
		return "the iteration is too complex to be shown independent of the order"
	}
	val := func(v ssa.Value, e env) *ssa.Const {
		if c, ok := v.(*ssa.Const); ok {
			return c
		}
		return e[v]
	}
	// step runs one iteration
	step := func(mask int, in []*ssa.Const) ([]*ssa.Const, bool) {
		e := env{}
		for i, ph := range phis {
			e[ph] = in[i]
		}
		from, b := lp.header, lp.header.Succs[0]
		for n := 0; n < 200; n++ {
			if b == lp.header {
				out := make([]*ssa.Const, len(phis))
				for i, ph := range phis {
					out[i] = val(ph.Edges[predIndex(b, from)], e)
					if out[i] == nil {
						return nil, false
					}
				}
				return out, true
			}
			if !lp.body[b] {
				return nil, false
			}
			for _, i := range b.Instrs {
				switch y := i.(type) {
				case *ssa.Phi:
					if c := val(y.Edges[predIndex(b, from)], e); c != nil {
						e[y] = c
					}
				case *ssa.BinOp:
					a, c := val(y.X, e), val(y.Y, e)
					if a != nil && c != nil {
						if z := foldConst(y, a, c); z != nil {
							e[y] = z
						}
					}
				case *ssa.UnOp:
					if a := val(y.X, e); a != nil && y.Op == token.NOT && a.Value != nil {
						e[y] = ssa.NewConst(notConst(a.Value), y.Type())
					}
				}
			}
			switch y := b.Instrs[len(b.Instrs)-1].(type) {
			case *ssa.If:
				taken := false
				if k, ok := atomOf[y.Cond]; ok {
					taken = mask&(1<<uint(k)) != 0
				} else if c := val(y.Cond, e); c != nil && c.Value != nil {
					taken = constBool(c.Value)
				} else {
					return nil, false
				}
				from = b
				if taken {
					b = b.Succs[0]
				} else {
					b = b.Succs[1]
				}
			case *ssa.Jump:
				from, b = b, b.Succs[0]
			default:
				return nil, false
			}
		}
		return nil, false
	}
	start := make([]*ssa.Const, len(phis))
	for i, ph := range phis {
		for k, e := range ph.Edges {
			if !lp.body[ph.Block().Preds[k]] {
				c, ok := e.(*ssa.Const)
				if !ok {
					return "a value accumulated by the iteration is not shown independent of the order"
				}
				start[i] = c
			}
		}
	}
	keyOf := func(v []*ssa.Const) string {
		s := ""
		for _, c := range v {
			s += c.String() + ";"
		}
		return s
	}
	reach := map[string][]*ssa.Const{keyOf(start): start}
	for work := [][]*ssa.Const{start}; len(work) > 0; {
		v := work[0]
		work = work[1:]
		for m := 0; m < 1<<uint(len(atoms)); m++ {
			o, ok := step(m, v)
			if !ok {
				return "a value accumulated by the iteration is not shown independent of the order"
			}
			if _, had := reach[keyOf(o)]; !had {
				if len(reach) > 64 {
					return "a value accumulated by the iteration is not shown independent of the order"
				}
				reach[keyOf(o)] = o
				work = append(work, o)
			}
		}
	}
	for _, v := range reach {
		for a := 0; a < 1<<uint(len(atoms)); a++ {
			for b := a + 1; b < 1<<uint(len(atoms)); b++ {
				x, _ := step(a, v)
				x, _ = step(b, x)
				y, _ := step(b, v)
				y, _ = step(a, y)
				if keyOf(x) != keyOf(y) {
					return "two entries leave " + keyOf(x) + " or " + keyOf(y) + " depending on which comes first"
				}
			}
		}
	}
	return ""
}
