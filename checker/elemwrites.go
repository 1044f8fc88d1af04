package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// elemWrites is the set of basic element types whose slices a function of the
// repository may write into, other than ones it made itself; "*" stands for
// all of them.
func (p *Prog) elemWrites(fn *ssa.Function) map[string]bool {
	if r, ok := p.ewrites[fn]; ok {
		return r
	}
	if p.ewrites == nil {
		p.ewrites = map[*ssa.Function]map[string]bool{}
	}
	res := map[string]bool{}
	seen := map[*ssa.Function]bool{}
	elem := func(t types.Type) string {
		switch u := under(t).(type) {
		case *types.Slice:
			return typeKey(u.Elem())
		case *types.Pointer:
			if a, ok := under(u.Elem()).(*types.Array); ok {
				return typeKey(a.Elem())
			}
		}
		return ""
	}
	var made func(v ssa.Value, d int) bool
	made = func(v ssa.Value, d int) bool {
		if d > 8 {
			return false
		}
		switch y := v.(type) {
		case *ssa.Slice:
			return made(y.X, d+1)
		case *ssa.Alloc:
			_, ok := under(pointee0(y.Type())).(*types.Array)
			return ok
		case *ssa.MakeSlice:
			return true
		}
		return false
	}
	add := func(v ssa.Value) {
		if e := elem(v.Type()); e != "" && !made(v, 0) {
			res[e] = true
		}
	}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch y := in.(type) {
				case *ssa.Store:
					if ia, ok := y.Addr.(*ssa.IndexAddr); ok {
						add(ia.X)
					} else if _, ok := y.Addr.(*ssa.FieldAddr); !ok {
						// through a pointer to an element
						if bt, ok := under(y.Val.Type()).(*types.Basic); ok {
							if _, ok := y.Addr.(*ssa.Alloc); !ok {
								_, ok := y.Addr.(*ssa.FreeVar)
								if !ok {
									res[typeKey(bt)] = true
								}
							}
						}
					}
				case ssa.CallInstruction:
					c := y.Common()
					if bi, ok := c.Value.(*ssa.Builtin); ok {
						if bi.Name() == "append" || bi.Name() == "copy" || bi.Name() == "clear" {
							add(c.Args[0])
						}
						continue
					}
					g := c.StaticCallee()
					if g != nil && p.InModule(g) {
						visit(g)
						continue
					}
					if g != nil {
						n := g.String()
						i := strings.LastIndexByte(n, '.')
						if strings.HasPrefix(n, "(encoding/binary.littleEndian).Uint") || readsOnly(n) || i > 0 && !strings.HasPrefix(n, "(") && purePkgs[n[:i]] || n == "errors.New" || strings.HasPrefix(n, "fmt.") {
							continue
						}
						for _, a := range c.Args {
							add(a)
						}
						continue
					}
					// dynamic
					if !c.IsInvoke() && c.Method == nil || c.IsInvoke() {
						if c.IsInvoke() && c.Method.FullName() == "(error).Error" {
							continue
						}
						res["*"] = true
					}
				}
			}
		}
		for _, a := range f.AnonFuncs {
			visit(a)
		}
	}
	visit(fn)
	p.ewrites[fn] = res
	return res
}

// written drops the arguments whose elements the callee only reads.
func (x *Exec) written(ev *CallEvent) []*Term {
	a := ev.Args
	if ev.Fn == nil || !x.P.InModule(ev.Fn) {
		return a
	}
	var res []*Term
	for _, t := range a {
		if t.T != nil {
			if sl, ok := under(t.T).(*types.Slice); ok {
				if _, ok := under(sl.Elem()).(*types.Basic); ok {
					if w := x.P.elemWrites(ev.Fn); !w["*"] && !w[typeKey(sl.Elem())] {
						continue
					}
				}
			}
		}
		res = append(res, t)
	}
	return res
}
