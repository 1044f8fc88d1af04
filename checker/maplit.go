package main

import (
	"golang.org/x/tools/go/ssa"
)

// mapLiteral extracts the entries of a package variable which is initialised
// with a map literal and never changed; nil if it is anything else.
func (p *Prog) mapLiteral(g *ssa.Global) map[ssa.Value]ssa.Value {
	if p.gvals == nil {
		p.scanGlobals()
	}
	st := p.gstores[g]
	if len(st) != 1 || len(p.gescapes[g]) > 0 {
		return nil
	}
	mm, ok := st[0].Val.(*ssa.MakeMap)
	if !ok {
		return nil
	}
	res := map[ssa.Value]ssa.Value{}
	for _, u := range *mm.Referrers() {
		switch y := u.(type) {
		case *ssa.MapUpdate:
			if y.Map != ssa.Value(mm) {
				return nil
			}
			res[y.Key] = y.Value
		case *ssa.Store, *ssa.DebugRef:
		default:
			return nil
		}
	}
	// nothing else writes to it
	for _, f := range p.allFuncs() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if mu, ok := in.(*ssa.MapUpdate); ok {
					if ld, ok := mu.Map.(*ssa.UnOp); ok && ld.X == ssa.Value(g) {
						return nil
					}
				}
			}
		}
	}
	return res
}

// intStrMap is a map literal from integers to strings.
func (p *Prog) intStrMap(g *ssa.Global) map[int64]string {
	m := p.mapLiteral(g)
	if m == nil {
		return nil
	}
	res := map[int64]string{}
	for k, v := range m {
		kc, ok1 := k.(*ssa.Const)
		vc, ok2 := v.(*ssa.Const)
		if !ok1 || !ok2 {
			return nil
		}
		s, ok := constTerm(vc).strConst()
		if !ok {
			return nil
		}
		res[kc.Int64()] = s
	}
	return res
}
