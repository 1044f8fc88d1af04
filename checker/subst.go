package main

// substAll replaces terms inside of a term.
func substAll(t *Term, m map[*Term]*Term, memo map[*Term]*Term) *Term {
	if y := m[t]; y != nil {
		return y
	}
	if len(t.Args) == 0 {
		return t
	}
	if y := memo[t]; y != nil {
		return y
	}
	args := make([]*Term, len(t.Args))
	same := true
	for i, a := range t.Args {
		args[i] = substAll(a, m, memo)
		if args[i] != a {
			same = false
		}
	}
	y := t
	if !same {
		switch t.Op {
		case OLin:
			y = tInt(t.K)
			for i, a := range args {
				y = tAdd(y, tMulK(a, t.Coef[i]))
			}
		case OLe:
			y = tLe(args[0], tInt(0))
		case OEqZ:
			y = tEqInt(args[0], tInt(0))
		case ONot:
			y = tNot(args[0])
		case OEq:
			y = tEq(args[0], args[1], nil)
		case OLen:
			y = tLen(args[0])
		default:
			c := *t
			c.Args = args
			c.syms = nil
			c.id = 0
			y = mk(c)
		}
	}
	memo[t] = y
	return y
}
