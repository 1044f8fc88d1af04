package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const cfbPath = modPath + "/xls/cfb"

func init() {
	register("P31", "streams of compound files: path-sensitive abstract interpretation of Open with inductive roles for the variables of the chain loops",
		"For every loop that collects the sectors of a chain there are loop variables which are, in every iteration, the current sector, the number of sectors so far and the number of bytes still missing; the bytes collected are those of the current sector, cut to what is missing; the next sector is the entry of the allocation table. The stream returned starts where its directory entry says and nothing is missing. Reading delivers the collected bytes in order.", checkStreams)
}

func isSectors(t types.Type) bool {
	sl, ok := under(t).(*types.Slice)
	return ok && isByteList(sl.Elem())
}

// poly is a sum of products of atoms.
type poly map[string]int64

func (a poly) add(b poly, k int64) poly {
	for m, c := range b {
		if a[m] += k * c; a[m] == 0 {
			delete(a, m)
		}
	}
	return a
}

func (a poly) mul(b poly) poly {
	res := poly{}
	for m, c := range a {
		for n, d := range b {
			l := append(strings.Fields(m), strings.Fields(n)...)
			sort.Strings(l)
			res.add(poly{strings.Join(l, " "): c * d}, 1)
		}
	}
	return res
}

func (a poly) same(b poly) bool {
	return len(poly{}.add(a, 1).add(b, -1)) == 0
}

// plain removes conversions which keep the value of file offsets.
func plain(t *Term) *Term {
	for t.Op == OConv && len(t.Args) == 1 && isInt(t.T) && (t.Args[0].T == nil || isInt(t.Args[0].T)) {
		t = t.Args[0]
	}
	return t
}

// polyOf writes a number as a polynomial; shifts to the left are products
// with a power of two.
func polyOf(t *Term) poly {
	t = plain(t)
	if n, ok := t.intConst(); ok {
		return poly{}.add(poly{"": n}, 1)
	}
	switch {
	case t.Op == OLin:
		res := poly{}.add(poly{"": t.K}, 1)
		for i, a := range t.Args {
			res.add(polyOf(a), t.Coef[i])
		}
		return res
	case t.Op == OBin && t.S == "<<" && len(t.Args) == 2:
		if n, ok := t.Args[1].intConst(); ok && n >= 0 && n < 62 {
			return polyOf(t.Args[0]).mul(poly{"": 1 << uint(n)})
		}
		return polyOf(t.Args[0]).mul(poly{"2^" + itoa(plain(t.Args[1]).id): 1})
	case t.Op == OBin && t.S == "*" && len(t.Args) == 2:
		return polyOf(t.Args[0]).mul(polyOf(t.Args[1]))
	}
	return poly{itoa(t.id): 1}
}

// sectorWalk is a loop that collects sectors.
type sectorWalk struct {
	key    string
	head   *ssa.BasicBlock
	phis   []*ssa.Phi
	lists  map[*Term]bool
	at     string
	stores int
	skip   string
	entry  bool
	count  map[*ssa.Phi]string // why it is not the number of sectors
	sector map[*ssa.Phi]string // why it is not the current sector
	rest   map[*ssa.Phi]string // why it is not the number of missing bytes
	off    map[*ssa.Phi]*int64
}

type streams struct {
	r     *Report
	x     *Exec
	doc   *Term
	arg   *Term
	dt    *types.Struct
	walks map[string]*sectorWalk
	order []string
	name  string
	str   *ssa.Function
	found int
	none  int
}

const (
	strWalk = "a sector of the chain is appended whole, or cut to the size"
	strFind = "the entry of the directory with that name is opened"
	strEnd  = "a stream is complete"
	strFail = "only damaged streams are rejected"
	strRead = "reading delivers the bytes of the sectors in order"
)

func (c *streams) field(s *State, base *Term, names ...string) *Term {
	for _, n := range names {
		st, _ := under(pointee0(base.T)).(*types.Struct)
		if st == nil {
			return tInt(-12345)
		}
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == n {
				base = s.load(fieldAddrOf(base, i))
				break
			}
		}
	}
	return base
}

func (c *streams) head(x *Exec, s *State, h *ssa.BasicBlock) {
	if fnPkg(h.Parent()) == nil || fnPkg(h.Parent()).Path() != cfbPath {
		return
	}
	k := itoa(s.fr.ctx.id) + "." + itoa(h.Index)
	w := c.walks[k]
	if w == nil {
		w = &sectorWalk{key: k, head: h, lists: map[*Term]bool{}, count: map[*ssa.Phi]string{}, sector: map[*ssa.Phi]string{}, rest: map[*ssa.Phi]string{}, off: map[*ssa.Phi]*int64{}}
		for _, in := range h.Instrs {
			if p, ok := in.(*ssa.Phi); ok {
				w.phis = append(w.phis, p)
			}
		}
		c.walks[k] = w
		c.order = append(c.order, k)
	}
	var vals []*Term
	for _, p := range w.phis {
		v := s.fr.regs[p]
		if v == nil {
			v = mk(Term{Op: OCall, S: "unused"})
		}
		vals = append(vals, v)
	}
	s.ghost["!old"+k] = tTuple(vals...)
	if s.ghost["!in"+k] != nil {
		s.ghost["!init"+k] = s.ghost["!old"+k]
		delete(s.ghost, "!in"+k)
		delete(s.ghost, "!stored"+k)
	}
	s.ghost["!cur"] = tStr(k)
	delete(s.ghost, "!st"+k)
	delete(s.ghost, "!rem"+k)
}

// stored: a sector is put into a list; idx is its number.
func (c *streams) stored(s *State, list, idx, val *Term, base *Term, at ssa.Instruction) {
	pos := c.x.P.InstrPos(at)
	k := ghostStr(s, "!cur")
	w := c.walks[k]
	bad := func(msg string) { c.r.bad(strWalk, c.name, pos, msg, s.trail.lines(12)...) }
	if w == nil || s.ghost["!old"+k] == nil {
		bad("a sector is put into a stream outside of a loop over the sectors of the chain")
		return
	}
	c.r.ok(strWalk, c.name+" "+w.head.Parent().Name(), pos)
	w.at = pos
	w.stores++
	if s.ghost["!st"+k] != nil {
		bad("two sectors are put into a stream for one sector of the chain")
		return
	}
	old := s.ghost["!old"+k].Args
	entry := s.ghost["!stored"+k] == nil
	if entry {
		w.entry = true
		if !s.is(tEqInt(idx, tInt(0))) {
			bad("the first sector of the stream is put at position " + idx.String())
		}
	}
	s.ghost["!stored"+k] = tInt(1)
	if list != nil {
		w.lists[list] = true
	}
	for i, p := range w.phis {
		if base != nil {
			if base != old[i] {
				fail(w.count, p, "not the list of the sectors so far")
			}
			continue
		}
		d, ok := tSub(idx, old[i]).intConst()
		if !isInt(p.Type()) || !ok {
			fail(w.count, p, "the sector is put at "+idx.String())
			continue
		}
		if w.off[p] == nil {
			w.off[p] = &d
		} else if *w.off[p] != d {
			fail(w.count, p, "not always as far from the position of the sector")
		}
	}
	// the bytes of the sector
	b, lo := sliceParts(val)
	if b.isNil() {
		s.dead = true // nothing can be cut from it
		return
	}
	n := tLen(val)
	hdr := c.field(s, c.doc, "header")
	ss, ms := c.field(s, hdr, "SectorShift"), c.field(s, hdr, "MiniSectorShift")
	pow := func(sh *Term) *Term {
		return mk(Term{Op: OBin, S: "<<", Args: []*Term{tInt(1), sh}, T: types.Typ[types.Int64]})
	}
	kind, size := "", ss
	switch {
	case b == c.field(s, c.doc, "data"):
		kind = "sector"
		for i, p := range w.phis {
			want := polyOf(old[i]).add(poly{"": 1}, 1).mul(polyOf(pow(ss)))
			if !isInt(p.Type()) || !polyOf(lo).same(want) {
				fail(w.sector, p, "the bytes are those at offset "+lo.String())
			}
		}
	case b.Op == OInit && b.Args[0].Op == OIndexAddr && c.walkOf(b.Args[0].Args[0]) != nil:
		kind, size = "mini", ms
		q := plain(b.Args[0].Args[1])
		var o poly
		switch {
		case q.Op == OBin && q.S == "/" && polyOf(q.Args[1]).same(polyOf(pow(ss))):
			o = polyOf(q.Args[0])
		case q.Op == OBin && q.S == ">>" && plain(q.Args[1]) == plain(ss):
			o = polyOf(q.Args[0])
		}
		rm := plain(lo)
		switch {
		case rm.Op == OBin && rm.S == "%" && polyOf(rm.Args[1]).same(polyOf(pow(ss))) && o != nil && polyOf(rm.Args[0]).same(o):
		case rm.Op == OBin && rm.S == "&" && o != nil && (polyOf(rm.Args[0]).same(o) && polyOf(rm.Args[1]).same(polyOf(pow(ss)).add(poly{"": -1}, 1)) || polyOf(rm.Args[1]).same(o) && polyOf(rm.Args[0]).same(polyOf(pow(ss)).add(poly{"": -1}, 1))):
		default:
			bad("the bytes of the mini sector are " + val.String())
			return
		}
		for i, p := range w.phis {
			if !isInt(p.Type()) || !o.same(polyOf(old[i]).mul(polyOf(pow(ms)))) {
				fail(w.sector, p, "the bytes are those at "+q.String()+" / "+lo.String()+" of the mini stream")
			}
		}
		s.ghost["!from"+k] = tTuple(b.Args[0].Args[0])
	default:
		bad("the bytes put into the stream are " + val.String())
		return
	}
	if g := ghostStr(s, "!kind"+k); g != "" && g != kind {
		bad("sectors and mini sectors are mixed")
	}
	s.ghost["!kind"+k] = tStr(kind)
	full := polyOf(n).same(polyOf(pow(size)))
	var rem []*Term
	for i, p := range w.phis {
		rem = append(rem, tInt(-1))
		if !isInt(p.Type()) {
			fail(w.rest, p, "not a number")
			continue
		}
		rest := old[i]
		rem[i] = tSub(rest, n)
		switch {
		case full && s.is(tLe(n, rest)):
		case s.is(tEqInt(tSub(n, rest), tInt(0))) && s.is(tLe(n, pow2Term(s, c, size, n))):
		default:
			fail(w.rest, p, "the sector gives "+n.String()+" bytes when "+rest.String()+" are missing")
		}
	}
	s.ghost["!st"+k] = tInt(1)
	s.ghost["!rem"+k] = tTuple(rem...)
}

// pow2Term finds how the size of a sector is written in the facts about n.
func pow2Term(s *State, c *streams, shift, n *Term) *Term {
	want := polyOf(mk(Term{Op: OBin, S: "<<", Args: []*Term{tInt(1), shift}, T: types.Typ[types.Int64]}))
	for _, f := range s.facts.sorted() {
		if f.Op != OLe && f.Op != OEqZ {
			continue
		}
		for _, a := range f.Args[0].Args {
			if polyOf(a).same(want) {
				return a
			}
		}
	}
	return tInt(-1)
}

func fail(m map[*ssa.Phi]string, p *ssa.Phi, why string) {
	if m[p] == "" {
		m[p] = why
	}
}

func (c *streams) walkOf(list *Term) *sectorWalk {
	b, off := sliceParts(list)
	if n, ok := off.intConst(); !ok || n != 0 {
		return nil
	}
	for _, k := range c.order {
		if w := c.walks[k]; w.lists[list] || w.lists[b] {
			return w
		}
	}
	return nil
}

func (c *streams) backEdge(x *Exec, s *State, h *ssa.BasicBlock, in func(*Term) bool, old0, nw map[*ssa.Phi]*Term) {
	k := itoa(s.fr.ctx.id) + "." + itoa(h.Index)
	w := c.walks[k]
	if w == nil || s.ghost["!old"+k] == nil {
		return
	}
	defer func() {
		for _, g := range []string{"!old", "!rem", "!st"} {
			delete(s.ghost, g+k)
		}
	}()
	if s.ghost["!st"+k] == nil {
		w.skip = x.P.blockPos(h)
		return
	}
	old := s.ghost["!old"+k].Args
	tab := "fat"
	if ghostStr(s, "!kind"+k) == "mini" {
		tab = "minifat"
	}
	table := c.field(s, c.doc, tab)
	rem := s.ghost["!rem"+k].Args
	for i, p := range w.phis {
		n := nw[p]
		if n == nil {
			fail(w.count, p, "unknown")
			fail(w.sector, p, "unknown")
			fail(w.rest, p, "unknown")
			continue
		}
		if isSectors(p.Type()) {
			if n.Op != OAppend || n.Args[0] != old[i] || len(n.Args) != 2 {
				fail(w.count, p, "the list becomes "+n.String())
			}
			fail(w.rest, p, "not a number")
			fail(w.sector, p, "not a number")
			continue
		}
		if !isInt(p.Type()) {
			fail(w.count, p, "not a number")
			fail(w.rest, p, "not a number")
			fail(w.sector, p, "not a number")
			continue
		}
		if d, ok := tSub(n, old[i]).intConst(); !ok || d != 1 {
			fail(w.count, p, "becomes "+n.String()+" in the next iteration")
		}
		next := plain(n)
		if next.Op != OInit || next.Args[0].Op != OIndexAddr || next.Args[0].Args[0] != table || plain(next.Args[0].Args[1]) != plain(old[i]) {
			fail(w.sector, p, "the next sector is "+n.String())
		}
		if !s.is(tEqInt(tSub(n, rem[i]), tInt(0))) {
			fail(w.rest, p, "becomes "+n.String()+" instead of "+rem[i].String())
		}
	}
}

// stores: the loop collects sectors.
func (c *streams) stores(s *State, h *ssa.BasicBlock) bool {
	w := c.walks[itoa(s.fr.ctx.id)+"."+itoa(h.Index)]
	return w != nil && w.stores > 0
}

// entryOf: the directory entry whose field is loaded.
func entryOf(t *Term, field string) *Term {
	t = plain(t)
	if t.Op == OInit && t.Args[0].Op == OFieldAddr && fieldName(t.Args[0]) == field {
		return t.Args[0].Args[0]
	}
	return nil
}

func (c *streams) ret(s *State, res []*Term, at ssa.Instruction) {
	pos := c.x.P.InstrPos(at)
	var err, rd *Term
	for _, v := range res {
		if v.T != nil && types.Identical(v.T, tErrType) || v.isNil() && v != res[0] {
			err = v
		}
	}
	rd = res[0]
	if err == nil {
		err = res[len(res)-1]
	}
	if s.nilnessErr(err) == False {
		c.rejected(s, pos)
		return
	}
	c.found++
	c.r.ok(strEnd, c.name, pos)
	bad := func(rule, msg string) { c.r.bad(rule, c.name, pos, msg, s.trail.lines(12)...) }
	obj := rd.inner(OIface)
	if obj.Op != OObj {
		bad(strEnd, "returns "+rd.String()+", not a new reader")
		return
	}
	st, _ := under(pointee0(obj.T)).(*types.Struct)
	if st == nil {
		bad(strEnd, "the reader is not a list of sectors")
		return
	}
	var list *Term
	for i := 0; i < st.NumFields(); i++ {
		v := s.load(fieldAddrOf(obj, i))
		switch {
		case isSectors(st.Field(i).Type()):
			list = v
		case isInt(st.Field(i).Type()):
			if !s.is(tEqInt(v, tInt(0))) {
				bad(strEnd, "the reader starts at "+v.String())
			}
		}
	}
	k := ghostStr(s, "!cur")
	w := c.walks[k]
	if list == nil || w == nil || s.ghost["!init"+k] == nil {
		bad(strEnd, "the reader has no list of the sectors of a chain")
		return
	}
	cur := s.ghost["!old"+k].Args
	grown := list
	if s.ghost["!st"+k] != nil && list.Op == OAppend && len(list.Args) == 2 {
		grown = list.Args[0]
	}
	isPhi := false
	for i, p := range w.phis {
		isPhi = isPhi || cur[i] == grown && isSectors(p.Type())
	}
	if isPhi {
		for i, p := range w.phis {
			if cur[i] != grown || !isSectors(p.Type()) {
				fail(w.count, p, "not the list of the reader")
			}
		}
		if grown == list && s.ghost["!st"+k] != nil {
			bad(strEnd, "the last sector is not in the list of the reader")
		}
	} else {
		b, off := sliceParts(list)
		if n, ok := off.intConst(); !ok || n != 0 || !w.lists[list] && !w.lists[b] && s.ghost["!stored"+k] != nil {
			bad(strEnd, "the reader gets "+list.String()+", which is not the list of the sectors")
			return
		}
	}
	rem := s.ghost["!old"+k]
	if g := s.ghost["!rem"+k]; g != nil {
		rem = g
	}
	init := s.ghost["!init"+k].Args
	// which entry is opened
	var e *Term
	for i := range w.phis {
		if v := entryOf(init[i], "StartingSectorLocation"); v != nil {
			e = v
		}
	}
	if e == nil {
		for i := range w.phis {
			if v := entryOf(init[i], "StreamSize"); v != nil {
				e = v
			}
		}
	}
	if e == nil {
		bad(strFind, "the chain does not start at the sector an entry of the directory gives")
		return
	}
	for i, p := range w.phis {
		if !isInt(p.Type()) {
			fail(w.sector, p, "not a number")
			fail(w.rest, p, "not a number")
			continue
		}
		if entryOf(init[i], "StartingSectorLocation") != e {
			fail(w.sector, p, "starts as "+init[i].String())
		}
		if entryOf(init[i], "StreamSize") != e {
			fail(w.rest, p, "starts as "+init[i].String())
		}
		if !s.is(tEqInt(rem.Args[i], tInt(0))) {
			fail(w.rest, p, "the stream is returned although "+rem.Args[i].String()+" bytes may be missing")
		}
	}
	// the name and the kind of the entry
	name := tCall("entryname", types.Typ[types.String], e)
	if !s.is(tEq(name, c.arg, types.Typ[types.String])) {
		bad(strFind, "the entry need not have the name asked for")
	}
	if !s.is(tEqInt(c.field(s, e, "ObjectType"), tInt(2))) {
		bad(strFind, "the entry need not be a stream")
	}
	c.r.ok(strFind, c.name, pos)
	size := c.field(s, e, "StreamSize")
	cut := c.field(s, c.doc, "header", "MiniStreamCutoffSize")
	below := c.below(s, size, cut)
	switch kind := ghostStr(s, "!kind"+k); {
	case kind == "mini" && below != True:
		bad(strFind, "a stream which need not be below the limit is taken from the mini stream")
	case kind == "sector" && below != False:
		bad(strFind, "a stream which may be below the limit is not taken from the mini stream")
	case kind == "mini":
		// the mini stream itself
		l := s.ghost["!from"+k].Args[0]
		m := c.walkOf(l)
		if m == nil || s.ghost["!init"+m.key] == nil || ghostStr(s, "!kind"+m.key) != "sector" {
			bad(strEnd, "mini sectors are taken from "+l.String())
			return
		}
		init := s.ghost["!init"+m.key].Args
		for i, p := range m.phis {
			if plain(init[i]) != plain(c.field(s, c.doc, "ministreamstart")) {
				fail(m.sector, p, "starts as "+init[i].String())
			}
			if plain(init[i]) != plain(c.field(s, c.doc, "ministreamsize")) {
				fail(m.rest, p, "starts as "+init[i].String())
			}
		}
	}
}

// below decides if a stream is smaller than the limit.
func (c *streams) below(s *State, size, cut *Term) Tri {
	lims := []*Term{cut, tConv(cut, types.Typ[types.Int32], types.Typ[types.Uint64])}
	for _, f := range s.facts.sorted() {
		if f.Op != OLe && f.Op != OEqZ {
			continue
		}
		for a := range toLin(f.Args[0]).m {
			if plain(a) == plain(cut) {
				lims = append(lims, a)
			}
		}
	}
	for _, l := range lims {
		if s.is(tLt(size, l)) {
			return True
		}
		if s.is(tLe(l, size)) {
			return False
		}
	}
	return Unknown
}

// rejected: opening fails.
func (c *streams) rejected(s *State, pos string) {
	c.r.ok(strFail, c.name, pos)
	k := ghostStr(s, "!cur")
	data := tLen(c.field(s, c.doc, "data"))
	for _, f := range s.facts.sorted() {
		// some place is behind the end of the file
		if f.Op == OLe && toLin(f.Args[0]).m[data] > 0 {
			return
		}
	}
	if w := c.walks[k]; w != nil && s.ghost["!init"+k] != nil {
		old := s.ghost["!old"+k].Args
		ended, missing := false, false
		for i, p := range w.phis {
			if !isInt(p.Type()) {
				continue
			}
			for _, v := range []*Term{old[i], plain(old[i])} {
				if s.is(tEqInt(v, tInt(0xFFFFFFFE))) || s.is(tEqInt(v, tInt(0xFFFFFFFF))) {
					ended = true
				}
			}
			if w.rest[p] == "" && s.isNot(tEqInt(old[i], tInt(0))) {
				missing = true
			}
		}
		if ended && missing {
			return
		}
	}
	if s.ghost["!all"] != nil {
		c.none++
		return
	}
	c.r.bad(strFail, c.name, pos, "a stream which need not be damaged is rejected", s.trail.lines(12)...)
}

func (c *streams) finish() {
	n := 0
	for _, k := range c.order {
		w := c.walks[k]
		if w.stores == 0 {
			continue
		}
		n++
		con := c.name + " " + w.head.Parent().Name()
		if w.skip != "" {
			c.r.bad(strWalk, con, w.skip, "a sector of the chain can be left out")
		}
		for _, q := range []struct {
			m    map[*ssa.Phi]string
			what string
		}{{w.count, "the number of sectors collected so far"}, {w.sector, "the current sector of the chain"}, {w.rest, "the number of bytes missing"}} {
			ok := false
			var why []string
			for _, ph := range w.phis {
				if q.m[ph] == "" {
					ok = true
				} else {
					why = append(why, ph.Comment+": "+q.m[ph])
				}
			}
			c.r.ok(strWalk, con+": "+q.what, w.at)
			if !ok {
				c.r.bad(strWalk, con+": "+q.what, w.at, "no variable of the loop is "+q.what, why...)
			}
		}
	}
	if n == 0 {
		c.r.bad(strWalk, c.name, "?", "no loop collects sectors")
	}
	if c.found == 0 {
		c.r.bad(strEnd, c.name, "?", "no stream is ever returned")
	}
}

func checkStreams(r *Report) {
	checkReader(r)
	p := r.P
	doc := p.Type(cfbPath, "Document")
	open := p.PMethod(cfbPath, "Document", "Open")
	str := p.PMethod(cfbPath, "directory", "String")
	if !r.need("cfb.Document.Open", open) || !r.need("name of a directory entry", str) || doc == nil {
		return
	}
	name := "Document.Open"
	r.analyse(name, open, func(x *Exec, t *Report) *State {
		c := &streams{r: t, x: x, walks: map[string]*sectorWalk{}, name: name, str: str}
		s0 := x.Start(open)
		c.doc, c.arg = s0.param(0), s0.param(1)
		s0.assumeQuiet(tNot(tEq(c.doc, tNil(c.doc.T), nil)))
		x.KeepLists = true
		sc := newScan(t, strFind, name)
		dir := c.field(s0, c.doc, "dir")
		x.H.Inline = func(x *Exec, s *State, fn *ssa.Function) bool { return fn != str && !onStack(s, fn) }
		x.H.Call = func(x *Exec, s *State, ev *CallEvent) ([]Outcome, bool) {
			if ev.Fn == str {
				return []Outcome{{Res: tCall("entryname", types.Typ[types.String], ev.Args...)}}, true
			}
			return nil, false
		}
		x.H.Head = c.head
		x.H.Edge = func(x *Exec, s *State, from, to *ssa.BasicBlock) {
			sc.edge(x, s, from, to)
			if l := x.loops(to.Parent()).byHeader[to]; l != nil && !l.body[from] {
				s.ghost["!in"+itoa(s.fr.ctx.id)+"."+itoa(to.Index)] = tInt(1)
			}
		}
		x.H.Load = func(x *Exec, s *State, addr *Term, at ssa.Instruction) {
			if addr.Op == OIndexAddr && addr.Args[0] == dir {
				sc.visit(x, s, dir, addr.Args[1], at)
			}
		}
		x.H.Store = func(x *Exec, s *State, addr, val *Term, at ssa.Instruction) {
			if addr.Op == OIndexAddr && isByteList(pointee(addr)) && !isVarargs(rootOf(addr)) {
				if rootOf(addr).Op != OObj {
					t.bad(strWalk, name, x.P.InstrPos(at), "a list which is not new is written to")
					return
				}
				b, off := sliceParts(addr.Args[0])
				c.stored(s, b, tAdd(addr.Args[1], off), val, nil, at)
			}
		}
		x.H.Append = func(x *Exec, s *State, base *Term, elems []*Term, at ssa.Instruction) {
			if v, ok := at.(*ssa.Call); ok && isSectors(v.Type()) {
				for _, e := range elems {
					c.stored(s, nil, tLen(base), e, base, at)
				}
			}
		}
		x.H.JoinAt = func(s *State, blk *ssa.BasicBlock) (string, int, bool) {
			return "", 0, x.loops(blk.Parent()).byHeader[blk] != nil
		}
		x.H.BackEdge = func(x *Exec, s *State, h *ssa.BasicBlock, in func(*Term) bool, old, nw map[*ssa.Phi]*Term) {
			if c.backEdge(x, s, h, in, old, nw); !c.stores(s, h) {
				sc.backEdge(x, s, h, old, nw)
			}
		}
		x.H.Return = func(x *Exec, s *State, res []*Term, at ssa.Instruction) {
			if sc.complete(s, dir) {
				s.ghost["!all"] = tInt(1)
			}
			c.ret(s, res, at)
		}
		t.after = append(t.after, func() {
			c.finish()
			sc.done(x)
			if c.none == 0 {
				t.bad(strFind, name, "?", "a name which is not there is never reported")
			}
		})
		return s0
	})
}

// checkReader: each call of Read delivers the next bytes of the sectors.
func checkReader(r *Report) {
	p := r.P
	// the type of the reader is the one Open makes
	var rt *types.Named
	for _, f := range p.allFuncs() {
		if fnPkg(f) == nil || fnPkg(f).Path() != cfbPath || f.Name() != "Read" || f.Signature.Recv() == nil {
			continue
		}
		if n, ok := pointee0(f.Signature.Recv().Type()).(*types.Named); ok {
			rt = n
		}
	}
	var read *ssa.Function
	if rt != nil {
		read = p.PMethod(cfbPath, rt.Obj().Name(), "Read")
	}
	if !r.need("reader of streams", read) {
		return
	}
	st, _ := under(rt).(*types.Struct)
	name := shortName(read)
	r.analyse(name, read, func(x *Exec, t *Report) *State {
		s0 := x.Start(read)
		recv, buf := s0.param(0), s0.param(1)
		s0.assumeQuiet(tNot(tEq(recv, tNil(recv.T), nil)))
		x.KeepLists = true
		field := func(s *State, i int) *Term { return s.load(fieldAddrOf(recv, i)) }
		pre := map[int]*Term{}
		var list *Term
		for i := 0; i < st.NumFields(); i++ {
			pre[i] = field(s0, i)
			if isSectors(st.Field(i).Type()) && list == nil {
				if u := pre[i]; isSectors(u.T) && isByteList(under(u.T).(*types.Slice).Elem()) {
					list = u
				}
			}
		}
		if list == nil {
			t.bad(strRead, name, x.P.Pos(read.Pos()), "the reader has no list of sectors")
			return s0
		}
		eof := mk(Term{Op: OCall, S: "error:io.EOF", T: tErrType})
		x.H.Global = func(x *Exec, s *State, g *ssa.Global) *Term {
			if g.String() == "io.EOF" {
				return eof
			}
			return nil
		}
		x.H.Call = func(x *Exec, s *State, ev *CallEvent) ([]Outcome, bool) {
			if ev.Name != "builtin.copy" || ev.Args[0] == nil {
				return nil, false
			}
			at := x.P.InstrPos(ev.Instr)
			t.ok(strRead, name, at)
			if s.ghost["!copy"] != nil {
				t.bad(strRead, name, at, "bytes are copied twice", s.trail.lines(8)...)
			}
			db, dlo := sliceParts(ev.Args[0])
			if bb, blo := sliceParts(buf); db != bb || !s.is(tEqInt(tSub(dlo, blo), tInt(0))) {
				t.bad(strRead, name, at, "the bytes are put into "+ev.Args[0].String(), s.trail.lines(8)...)
			}
			b, lo := sliceParts(ev.Args[1])
			if b.Op != OInit || b.Args[0].Op != OIndexAddr || b.Args[0].Args[0] != list {
				t.bad(strRead, name, at, "the bytes are those of "+ev.Args[1].String(), s.trail.lines(8)...)
				return nil, false
			}
			if !s.is(tEqInt(tSub(tAdd(lo, tLen(ev.Args[1])), tLen(b)), tInt(0))) {
				// may be cut to the length of the buffer
				if !s.is(tLe(tLen(buf), tLen(ev.Args[1]))) {
					t.bad(strRead, name, at, "the bytes are cut short: "+ev.Args[1].String(), s.trail.lines(8)...)
				}
			}
			n := x.sym(s, ev.Instr, "copied", types.Typ[types.Int])
			s.assumeQuiet(tLe(tInt(0), n))
			s.assumeQuiet(tLe(n, tLen(ev.Args[0])))
			s.assumeQuiet(tLe(n, tLen(ev.Args[1])))
			s.ghost["!copy"] = tTuple(plain(b.Args[0].Args[1]), plain(lo), n, b)
			return []Outcome{{Res: n}}, true
		}
		n := 0
		x.H.Return = func(x *Exec, s *State, res []*Term, at ssa.Instruction) {
			pos := x.P.InstrPos(at)
			t.ok(strRead, name, pos)
			bad := func(msg string) { t.bad(strRead, name, pos, msg, s.trail.lines(8)...) }
			g := s.ghost["!copy"]
			fine := s.nilnessErr(res[1]) == True
			if g == nil {
				if fine {
					bad("succeeds without copying")
				}
				// the end of the list
				end := false
				for i := range pre {
					if isInt(st.Field(i).Type()) && s.is(tLe(tLen(list), pre[i])) {
						end = true
					}
				}
				if !end {
					bad("ends although there may be more sectors")
				}
				if !s.is(tEqInt(res[0], tInt(0))) {
					bad("bytes are reported which have not been copied")
				}
				return
			}
			idx, lo, cnt, sec := g.Args[0], g.Args[1], g.Args[2], g.Args[3]
			if !s.is(tEqInt(tSub(res[0], cnt), tInt(0))) {
				bad("reports " + res[0].String() + " bytes instead of " + cnt.String())
			}
			if !fine {
				if !s.is(tLe(cnt, tInt(0))) {
					bad("fails although bytes were delivered")
				}
				return
			}
			n++
			ii, oi := -1, -1
			for i := range pre {
				if pre[i] == idx {
					ii = i
				}
				if pre[i] == lo {
					oi = i
				}
				if isSectors(st.Field(i).Type()) && pre[i] == list && field(s, i) != list {
					bad("the list of the sectors is changed")
				}
			}
			if ii < 0 || oi < 0 || ii == oi {
				bad("the position " + idx.String() + ", " + lo.String() + " is not kept")
				return
			}
			ni, no := field(s, ii), field(s, oi)
			end := polyOf(lo).add(polyOf(cnt), 1)
			full := relation(s, poly{}.add(end, 1).add(polyOf(tLen(sec)), -1))
			switch {
			case polyOf(ni).same(polyOf(idx)) && polyOf(no).same(end):
				if full != False {
					bad("may stay at the end of a sector")
				}
			case polyOf(ni).same(polyOf(idx).add(poly{"": 1}, 1)) && s.is(tEqInt(no, tInt(0))):
				if full != True {
					bad("goes to the next sector although there may be more bytes in this one")
				}
			default:
				bad("the position becomes " + ni.String() + ", " + no.String())
			}
		}
		t.after = append(t.after, func() {
			if n == 0 {
				t.bad(strRead, name, x.P.Pos(read.Pos()), "no bytes are ever delivered")
			}
		})
		return s0
	})
}

// relation decides if a number which is never above zero is zero.
func relation(s *State, p poly) Tri {
	for _, f := range s.facts.sorted() {
		not := f.Op == ONot
		if not {
			f = f.Args[0]
		}
		if f.Op != OEqZ && f.Op != OLe {
			continue
		}
		q := polyOf(f.Args[0])
		neg := poly{}.add(q, -1)
		switch {
		case f.Op == OEqZ && (q.same(p) || neg.same(p)):
			if not {
				return False
			}
			return True
		case f.Op == OLe && !not && neg.same(p):
			return True
		case f.Op == OLe && !not:
			d := poly{}.add(q, 1).add(p, -1)
			if k, ok := d[""]; ok && len(d) == 1 && k > 0 {
				return False
			}
		}
	}
	return Unknown
}
