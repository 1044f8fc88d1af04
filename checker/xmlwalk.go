package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// xmlWalk analyses a loop over the tokens of a document in product with the
// grammar of the document: the decoder delivers every token which can follow
// in a well formed document of that grammar, and the loop is followed for each
// of them until the abstract states of the product are exhausted.
type xmlWalk struct {
	x       *Exec
	p       *Prog
	t       *Report
	name    string
	grammar func(dec *Term) *xmlGrammar // of the document read by a decoder
	// token is called after the program has processed a token
	token   func(s *State, e *xmlEvent, locs []xmlLoc, at *ssa.BasicBlock)
	entered func(s *State, e *xmlEvent) // a token is delivered
	// ended: the document was read to its end (or an error, if bad) and the function returns
	events map[string]*xmlEvent
	objs   map[*Term]bool
	toks   map[*Term]*xmlEvent
	loops  map[*ssa.BasicBlock]int
	types  map[string]types.Type
	seen   map[string]bool // events delivered
	errs   map[*Term]bool
}

type xmlGrammar struct {
	key   string
	nodes map[string]*xmlNode
	order []string
	names []string
	stop  func(ch string) bool // the document need not be followed any further
}

type xmlNode struct {
	path, name, parent string
	kids               []string
	variants           []xmlVariant
	other              bool // may contain unknown elements
}

// xmlVariant is a way to write an element.
type xmlVariant struct {
	tag   string
	attrs []xmlAttr
	from  string // required state of the chosen element, and its new state
	to    string
	end   string // state after the end of the element
}

type xmlAttr struct {
	name string
	val  *Term // nil: any text
}

type xmlEvent struct {
	label    string
	g        *xmlGrammar
	kind     byte // 's' start, 'e' end, 't' text, 'x' other token, 'f' end of file, 'r' error
	from, to string
	ch       string // state of the chosen element before the token
	v        *xmlVariant
	tok      *Term
	chunk    *Term
	attrs    map[string]*Term
}

// xmlLoc is a variable of the token loop with its value before and after a token.
type xmlLoc struct {
	key  string
	t    types.Type
	o, n *Term
}

func newGrammar(key string, paths ...string) *xmlGrammar {
	g := &xmlGrammar{key: key, nodes: map[string]*xmlNode{"": {path: "", other: false}}}
	for _, p := range paths {
		i := strings.LastIndexByte(p, '/')
		n := &xmlNode{path: p, name: p[i+1:], other: true}
		if i >= 0 {
			n.parent = p[:i]
		}
		if g.nodes[n.parent] == nil {
			panic(p)
		}
		n.variants = []xmlVariant{{}}
		g.nodes[p] = n
		g.nodes[n.parent].kids = append(g.nodes[n.parent].kids, p)
		g.order = append(g.order, p)
		has := false
		for _, m := range g.names {
			has = has || m == n.name
		}
		if !has {
			g.names = append(g.names, n.name)
		}
	}
	return g
}

// leaf elements contain text only.
func (g *xmlGrammar) leaf(paths ...string) *xmlGrammar {
	for _, p := range paths {
		g.nodes[p].other = false
	}
	return g
}

func (g *xmlGrammar) variants(path string, v ...xmlVariant) *xmlGrammar {
	g.nodes[path].variants = v
	return g
}

func newXMLWalk(x *Exec, t *Report, name string) *xmlWalk {
	w := &xmlWalk{x: x, p: x.P, t: t, name: name, events: map[string]*xmlEvent{}, objs: map[*Term]bool{}, toks: map[*Term]*xmlEvent{},
		loops: map[*ssa.BasicBlock]int{}, types: map[string]types.Type{}, seen: map[string]bool{}, errs: map[*Term]bool{}}
	for _, sp := range x.P.ByPkg {
		for _, im := range sp.Pkg.Imports() {
			if im.Path() == "encoding/xml" {
				for _, n := range []string{"StartElement", "EndElement", "CharData", "Comment", "Attr", "Name", "Token"} {
					if o := im.Scope().Lookup(n); o != nil {
						w.types[n] = o.Type()
					}
				}
			}
		}
	}
	x.Unroll = 16
	x.KeepLists = true
	x.Max = 2*x.Max + 1000000
	x.H.MaxConst = 16
	x.H.Global = func(x *Exec, s *State, g *ssa.Global) *Term {
		if g.String() == "io.EOF" {
			return w.eof()
		}
		return nil
	}
	x.H.KeepVal = func(addr, v *Term) bool {
		if addr == nil {
			return w.toks[v] != nil || v == w.eof() || w.errs[v] || v.isNil() && v.T != nil && (types.Identical(v.T, tErrType) || w.types["Token"] != nil && types.Identical(v.T, w.types["Token"]))
		}
		return w.objs[rootOf(addr)]
	}
	x.H.BackEdge = w.backEdge
	x.JoinHeads = true
	x.H.Head = func(x *Exec, s *State, h *ssa.BasicBlock) {
		if w.tokenLoop(s.fr.ctx.Fn, h) {
			w.remember(s)
		}
	}
	// one state for every place in the document and setting of the flags
	x.H.JoinAt = func(s *State, h *ssa.BasicBlock) (string, int, bool) {
		if !w.tokenLoop(s.fr.ctx.Fn, h) {
			return "", 0, false
		}
		var b strings.Builder
		for _, in := range h.Instrs {
			p, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			if v := s.fr.regs[p]; v != nil && (v.isConst() && !isText(p.Type()) || w.toks[v] != nil || w.errs[v]) {
				fmt.Fprintf(&b, "%d=%d,", x.valueID(p), v.id)
			}
		}
		var ms []string
		for a, v := range s.mem {
			if v.isConst() && v.T != nil && !isText(v.T) && !w.objs[rootOf(a)] {
				ms = append(ms, fmt.Sprintf("%d=%d", a.id, v.id))
			}
		}
		sort.Strings(ms)
		return b.String() + strings.Join(ms, ","), 0, true
	}
	return w
}

// rigid is an unknown which stays the same throughout the analysis.
func (w *xmlWalk) rigid(name string, ty types.Type) *Term {
	t := mk(Term{Op: OSym, S: "doc." + w.name + "." + name, T: ty})
	if t.Site == nil {
		t.Site = &Site{What: name}
	}
	return t
}

func isDecoderCall(name string) string {
	for _, m := range []string{"RawToken", "Token", "Skip", "Decode", "DecodeElement"} {
		if name == "(*encoding/xml.Decoder)."+m {
			return m
		}
	}
	return ""
}

// tokenLoop: the innermost loop which reads tokens.
func (w *xmlWalk) tokenLoop(fn *ssa.Function, h *ssa.BasicBlock) bool {
	if v, ok := w.loops[h]; ok {
		return v == 1
	}
	lf := w.x.loops(fn)
	if lf.byHeader[h] == nil {
		w.loops[h] = 2
		return false
	}
	reads := func(l *loop) bool {
		for b := range l.body {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if f := c.Common().StaticCallee(); f != nil {
						if m := isDecoderCall(f.String()); m == "RawToken" || m == "Token" {
							return true
						}
						if w.p.InModule(f) && w.p.reaches(f, func(name string) bool { m := isDecoderCall(name); return m == "RawToken" || m == "Token" }) {
							return true
						}
					}
				}
			}
		}
		return false
	}
	for hh, l := range lf.byHeader {
		ok := reads(l)
		if ok {
			for h2, l2 := range lf.byHeader {
				if h2 != hh && l.body[h2] && reads(l2) {
					ok = false
				}
			}
		}
		w.loops[hh] = 2
		if ok {
			w.loops[hh] = 1
		}
	}
	return w.loops[h] == 1
}

// remember notes the values of the memory variables at the head of the loop.
func (w *xmlWalk) remember(s *State) {
	for k := range s.ghost {
		if strings.HasPrefix(k, "!o") {
			delete(s.ghost, k)
		}
	}
	for a, v := range s.mem {
		if ty := pointee(a); ty != nil && !w.objs[rootOf(a)] && isText(ty) {
			s.ghost[fmt.Sprintf("!o%d", a.id)] = v
		}
	}
}

// call is the model of the decoder.
func (w *xmlWalk) call(s *State, ev *CallEvent) ([]Outcome, bool) {
	m := isDecoderCall(ev.Name)
	if m == "" {
		return nil, false
	}
	g := w.grammar(ev.Args[0])
	if g == nil {
		w.t.bad("undecided", w.name, w.p.InstrPos(ev.Instr), "a decoder of unknown origin is used")
		return []Outcome{{Stop: true}}, true
	}
	at := ghostStr(s, "!at"+g.key)
	switch m {
	case "Skip":
		n := g.nodes[strings.TrimSuffix(at, "/*")]
		if n == nil || at == "" {
			return []Outcome{{Stop: true}}, true
		}
		to := n.parent
		if strings.HasSuffix(at, "/*") {
			to = n.path
		}
		return []Outcome{{Res: tNil(ev.Sig.Results().At(0).Type()), Do: func(s *State) { s.ghost["!at"+g.key] = tStr(to) }}}, true
	case "Decode", "DecodeElement":
		w.t.bad("undecided", w.name, w.p.InstrPos(ev.Instr), "the document is decoded by reflection, which is not followed")
		return []Outcome{{Stop: true}}, true
	}
	ch := "before"
	if c := s.ghost["!ch"]; c != nil {
		ch, _ = c.strConst()
	}
	var outs []Outcome
	site := w.x.sym(s, ev.Instr, "token", nil)
	deliver := func(kind byte, to string, v *xmlVariant) {
		e := w.event(g, ev.Instr, s, kind, at, to, ch, v)
		w.seen[e.label] = true
		tok := e.tok
		if tok == nil {
			tok = tNil(ev.Sig.Results().At(0).Type())
		}
		res := tTuple(tok, tNil(ev.Sig.Results().At(1).Type()))
		switch kind {
		case 'f':
			res = tTuple(tNil(ev.Sig.Results().At(0).Type()), w.eof())
		case 'r':
			err := mk(Term{Op: OCall, S: "error:encoding/xml.Decoder", T: tErrType})
			w.errs[err] = true
			res = tTuple(tNil(ev.Sig.Results().At(0).Type()), err)
		}
		outs = append(outs, Outcome{Res: res, Do: func(s *State) {
			s.ghost["!ev"+g.key] = site
			s.ghost["!at"+g.key] = tStr(to)
			if c := s.ghost["!cur"+g.key]; c != nil {
				s.ghost["!prev"+g.key] = c
			}
			s.ghost["!cur"+g.key] = tStr(e.label)
			if v != nil && kind == 's' && v.to != "" {
				s.ghost["!ch"] = tStr(v.to)
				s.ghost["!chend"] = tTuple(tStr(to), tStr(v.end))
			}
			if c := s.ghost["!chend"]; c != nil && kind == 'e' {
				if q, _ := c.Args[0].strConst(); q == at {
					s.ghost["!ch"] = c.Args[1]
					delete(s.ghost, "!chend")
				}
			}
			w.enter(s, e)
		}})
	}
	deliver('f', at, nil)
	if g.stop != nil && g.stop(ch) {
		// nothing more needs to be followed
		return outs, true
	}
	deliver('r', at, nil)
	if at != "" {
		deliver('t', at, nil)
	}
	deliver('x', at, nil)
	if strings.HasSuffix(at, "/*") {
		deliver('e', strings.TrimSuffix(at, "/*"), nil)
		return outs, true
	}
	n := g.nodes[at]
	for _, k := range n.kids {
		for i := range g.nodes[k].variants {
			v := &g.nodes[k].variants[i]
			if v.to != "" && v.from != ch || v.to == "" && v.from != "" && v.from != ch {
				continue
			}
			deliver('s', k, v)
		}
	}
	if n.other {
		deliver('s', at+"/*", nil)
	}
	if at != "" {
		deliver('e', n.parent, nil)
	}
	return outs, true
}

func ghostStr(s *State, k string) string {
	if g := s.ghost[k]; g != nil {
		v, _ := g.strConst()
		return v
	}
	return ""
}

func (w *xmlWalk) eof() *Term {
	return mk(Term{Op: OCall, S: "error:io.EOF", T: tErrType})
}

func (w *xmlWalk) event(g *xmlGrammar, at ssa.Instruction, s *State, kind byte, from, to, ch string, v *xmlVariant) *xmlEvent {
	label := fmt.Sprintf("%s:%c %s>%s %s", g.key, kind, from, to, ch)
	if v != nil {
		label += " " + v.tag
	}
	key := label + fmt.Sprintf("@%d/%d", w.x.instrID(at), s.fr.ctx.id)
	if e := w.events[key]; e != nil {
		return e
	}
	e := &xmlEvent{label: key, g: g, kind: kind, from: from, to: to, ch: ch, v: v, attrs: map[string]*Term{}}
	w.events[key] = e
	el := to
	if kind == 'e' {
		el = from
	}
	var local *Term
	if strings.HasSuffix(el, "/*") {
		local = w.rigid("othername", types.Typ[types.String])
	} else if n := g.nodes[el]; n != nil {
		local = tStr(n.name)
	}
	name := func(l *Term) *Term {
		st := under(w.types["Name"]).(*types.Struct)
		args := make([]*Term, st.NumFields())
		for i := range args {
			args[i] = w.x.sym(s, at, "xmlns", types.Typ[types.String])
			if st.Field(i).Name() == "Local" {
				args[i] = l
			}
		}
		return mk(Term{Op: OStruct, T: w.types["Name"], Args: args})
	}
	switch kind {
	case 's':
		var attrs []xmlAttr
		if v != nil {
			attrs = v.attrs
		}
		ty := w.types["Attr"]
		obj := mk(Term{Op: OObj, S: "attrs." + key, T: types.NewPointer(types.NewArray(ty, int64(len(attrs))))})
		if obj.Site == nil {
			obj.Site = &Site{What: "attrs"}
		}
		w.objs[obj] = true
		sl := tSlice(obj, tInt(0), tInt(int64(len(attrs))), types.NewSlice(ty))
		e.tok = tIface(mk(Term{Op: OStruct, T: w.types["StartElement"], Args: []*Term{name(local), sl}}), w.types["StartElement"])
		for _, a := range attrs {
			val := a.val
			if val == nil {
				val = w.x.sym(s, at, "attr."+a.name+"."+label, types.Typ[types.String])
			}
			e.attrs[a.name] = val
		}
	case 'e':
		e.tok = tIface(mk(Term{Op: OStruct, T: w.types["EndElement"], Args: []*Term{name(local)}}), w.types["EndElement"])
	case 't':
		e.chunk = w.x.sym(s, at, "chunk", w.types["CharData"])
		e.tok = tIface(e.chunk, w.types["CharData"])
	case 'x':
		e.tok = tIface(w.x.sym(s, at, "comment", w.types["Comment"]), w.types["Comment"])
	}
	if e.tok != nil {
		w.toks[e.tok] = e
	}
	return e
}

// enter makes the token of the event the current one.
func (w *xmlWalk) enter(s *State, e *xmlEvent) {
	for a := range s.mem {
		if w.objs[rootOf(a)] {
			delete(s.mem, a)
		}
	}
	forget := map[*Term]bool{w.rigid("othername", types.Typ[types.String]): true}
	if e.chunk != nil {
		forget[e.chunk] = true
	}
	if e.kind == 's' {
		st := e.tok.Args[0]
		if e.v != nil {
			for i, a := range e.v.attrs {
				val := e.attrs[a.name]
				if a.val == nil {
					forget[val] = true
				}
				obj := st.Args[1].Args[0]
				addr := tIndexAddr(obj, tInt(int64(i)), types.NewPointer(w.types["Attr"]))
				ns := under(w.types["Name"]).(*types.Struct)
				nameArgs := make([]*Term, ns.NumFields())
				for j := range nameArgs {
					nameArgs[j] = w.rigid("attrspace", types.Typ[types.String])
					if ns.Field(j).Name() == "Local" {
						nameArgs[j] = tStr(a.name)
					}
				}
				as := under(w.types["Attr"]).(*types.Struct)
				args := make([]*Term, as.NumFields())
				for j := range args {
					args[j] = val
					if as.Field(j).Name() == "Name" {
						args[j] = mk(Term{Op: OStruct, T: w.types["Name"], Args: nameArgs})
					}
				}
				s.store(addr, mk(Term{Op: OStruct, T: w.types["Attr"], Args: args}), w.rigid("~attrs", nil))
			}
		}
	}
	s.facts = s.facts.filter(func(f *Term) bool {
		for _, y := range f.symbols() {
			if forget[y] {
				return false
			}
		}
		return true
	})
	if w.entered != nil {
		w.entered(s, e)
	}
	if e.kind == 's' || e.kind == 'e' {
		if l := e.tok.Args[0].Args[0]; l != nil {
			for _, a := range l.Args {
				if a == w.rigid("othername", types.Typ[types.String]) {
					for _, n := range e.g.names {
						s.assumeQuiet(tNot(tEq(a, tStr(n), types.Typ[types.String])))
					}
				}
			}
		}
	}
}

func (w *xmlWalk) backEdge(x *Exec, s *State, h *ssa.BasicBlock, in func(*Term) bool, old, nw map[*ssa.Phi]*Term) {
	if !w.tokenLoop(s.fr.ctx.Fn, h) {
		return
	}
	for k, site := range s.ghost {
		if !strings.HasPrefix(k, "!ev") {
			continue
		}
		key := k[3:]
		if !in(site) {
			continue
		}
		get := func(k string) *xmlEvent {
			g := s.ghost[k+key]
			if g == nil {
				return nil
			}
			l, _ := g.strConst()
			return w.events[l]
		}
		cur, prev := get("!cur"), get("!prev")
		ahead := cur != nil && cur.tok == nil
		for _, v := range nw {
			if cur != nil && cur.tok != nil && v == cur.tok {
				ahead = true
			}
		}
		e := cur
		if ahead {
			e = prev
		} else {
			delete(s.ghost, "!cur"+key)
		}
		for k := range s.ghost {
			if strings.HasPrefix(k, "!o") {
				defer delete(s.ghost, k)
			}
		}
		delete(s.ghost, "!prev"+key)
		delete(s.ghost, k)
		if e == nil || w.token == nil {
			continue
		}
		var locs []xmlLoc
		for p, n := range nw {
			if isText(p.Type()) && old[p] != nil {
				locs = append(locs, xmlLoc{fmt.Sprintf("p%d", x.valueID(p)), p.Type(), old[p], n})
			}
		}
		for a, n := range s.mem {
			if ty := pointee(a); ty != nil && !w.objs[rootOf(a)] && isText(ty) {
				o := s.ghost[fmt.Sprintf("!o%d", a.id)]
				if o == nil {
					o = mk(Term{Op: OInit, Args: []*Term{a}, T: ty})
				}
				locs = append(locs, xmlLoc{fmt.Sprintf("m%d", a.id), ty, o, n})
			}
		}
		sort.Slice(locs, func(i, j int) bool { return locs[i].key < locs[j].key })
		w.token(s, e, locs, h)
	}
}

// last token delivered before the function returned.
func (w *xmlWalk) last(s *State, key string) *xmlEvent {
	g := s.ghost["!cur"+key]
	if g == nil {
		return nil
	}
	l, _ := g.strConst()
	return w.events[l]
}

// short describes an event.
func (e *xmlEvent) String() string {
	el := e.to
	if e.kind == 'e' {
		el = e.from
	}
	v := ""
	if e.v != nil && e.v.tag != "" {
		v = " (" + e.v.tag + ")"
	} else if e.ch != "before" && e.ch != "done" {
		v = " (" + e.ch + ")"
	}
	switch e.kind {
	case 's':
		return "<" + el + v + ">"
	case 'e':
		return "</" + el + v + ">"
	case 't':
		return "text in " + el + v
	case 'f':
		return "end of the document"
	case 'r':
		return "an error"
	}
	return "another token in " + el
}
