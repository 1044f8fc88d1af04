package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P33", "allow-list over every resolved reference to code outside of the repository (call graph effect analysis)",
		"Every reference to a function or variable outside of the repository, in every function of the library packages, is resolved by the type checker and compared with the operations that only read the input, compute, or log.", checkExternal)
	register("P23", "interprocedural alias and effect analysis of package-level variables",
		"Values reachable from package variables are propagated through assignments, calls and returns; every store, map update or mutating call through such a value outside of package initialisation and format registration is a violation.", checkGlobals)
	register("P32", "control dependence and effect analysis of the debug flag",
		"Every branch on the debug flag is found; the instructions executed under only one of its outcomes may compute and log, but may not write, return or influence a later value.", checkDebug)
	register("P22", "allow-list of nondeterminism sources and a commutativity analysis of map iterations",
		"No source of nondeterminism (clock, random numbers, environment, goroutines, select) is referenced in the library; every iteration over a map is shown independent of the order, by sorting what it collected or by enumerating the transition functions of its loop-carried values.", checkDeterminism)
}

// extRefs visits every reference of a function to something outside of the module.
func extRefs(f *ssa.Function, visit func(in ssa.Instruction, name string, v ssa.Value)) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			var ops [16]*ssa.Value
			for _, o := range in.Operands(ops[:0]) {
				switch v := (*o).(type) {
				case *ssa.Function:
					pk := fnPkg(v)
					if pk == nil || !inModPath(pk.Path()) {
						visit(in, v.String(), v)
					}
				case *ssa.Global:
					if v.Pkg != nil && !inModPath(v.Pkg.Pkg.Path()) {
						visit(in, v.String(), v)
					}
				}
			}
			if c, ok := in.(ssa.CallInstruction); ok && c.Common().IsInvoke() {
				m := c.Common().Method
				if m.Pkg() == nil || !inModPath(m.Pkg().Path()) {
					visit(in, m.FullName(), nil)
				}
			}
		}
	}
}

// packages whose functions only compute (or read what they are given)
var computing = map[string]bool{
	"bytes": true, "encoding/binary": true, "encoding/csv": true, "encoding/xml": true, "encoding": true, "encoding/hex": true,
	"encoding/base64": true, "encoding/json": true, "errors": true, "hash": true, "hash/crc32": true,
	"io": true, "math": true, "math/bits": true, "math/big": true, "net/url": true, "path": true, "regexp": true, "slices": true, "maps": true,
	"cmp": true, "iter": true, "sort": true, "strconv": true, "strings": true, "unicode": true, "unicode/utf8": true, "unicode/utf16": true, "archive/zip": true,
	"bufio": true, "context": true, "crypto/md5": true, "crypto/rc4": true, "crypto/sha1": true, "crypto/sha256": true, "crypto/subtle": true, "crypto/aes": true, "crypto/cipher": true, "crypto/hmac": true,
	"container/list": true, "container/heap": true, "html": true, "compress/flate": true, "time": true, "sync": true, "sync/atomic": true, "io/fs": true,
	"math/rand": true, "math/rand/v2": true, "reflect": true, "runtime/debug": true, "text/template": false,
}

func effectOf(name string, v ssa.Value) string {
	pkg := ""
	if v != nil {
		switch y := v.(type) {
		case *ssa.Function:
			if p := fnPkg(y); p != nil {
				pkg = p.Path()
			}
			if y.Object() == nil && y.Synthetic != "" && pkg == "" {
				return ""
			}
		case *ssa.Global:
			pkg = y.Pkg.Pkg.Path()
		}
	} else {
		// interface method (pkg.I).M
		n := strings.TrimPrefix(name, "(")
		if i := strings.LastIndex(n, "/"); i >= 0 {
			if j := strings.Index(n[i:], "."); j >= 0 {
				pkg = n[:i+j]
			}
		} else if j := strings.Index(n, "."); j >= 0 {
			pkg = n[:j]
		}
		if name == "(error).Error" || strings.HasPrefix(name, "(error)") {
			return ""
		}
	}
	switch pkg {
	case "os":
		switch name {
		case "os.Open", "(*os.File).Close", "(*os.File).Read", "(*os.File).ReadAt", "(*os.File).Seek", "(*os.File).Stat", "(*os.File).Name",
			"os.Stat", "os.Lstat", "os.ReadFile", "os.IsNotExist", "os.IsExist", "os.IsPermission", "os.ErrNotExist", "os.ErrExist", "os.ErrPermission", "os.ErrInvalid", "os.ErrClosed":
			return ""
		}
		return "uses " + name
	case "io/ioutil":
		switch name {
		case "io/ioutil.ReadAll", "io/ioutil.Discard", "io/ioutil.ReadFile", "io/ioutil.NopCloser":
			return ""
		}
		return "uses " + name
	case "log":
		switch name {
		case "log.Print", "log.Printf", "log.Println", "log.Output", "log.Flags", "log.Prefix":
			return ""
		}
		return "uses " + name
	case "fmt":
		switch name {
		case "fmt.Print", "fmt.Printf", "fmt.Println", "fmt.Scan", "fmt.Scanf", "fmt.Scanln":
			return "uses the standard streams with " + name
		}
		return ""
	case "path/filepath":
		switch name {
		case "path/filepath.Walk", "path/filepath.WalkDir", "path/filepath.Glob", "path/filepath.Abs", "path/filepath.EvalSymlinks":
			return "uses " + name
		}
		return ""
	case "time":
		switch name {
		case "time.Sleep", "time.After", "time.Tick", "time.NewTimer", "time.NewTicker", "time.AfterFunc":
			return "uses " + name
		}
		return ""
	case "archive/zip":
		if strings.Contains(name, "Writer") || strings.Contains(name, "Register") || name == "archive/zip.OpenReader" {
			return "uses " + name
		}
		return ""
	case "runtime":
		return "uses " + name
	}
	if pkg == "" || computing[pkg] {
		return ""
	}
	return "uses " + name + " of package " + pkg
}

func checkExternal(r *Report) {
	const rule = "references outside of the repository only read, compute or log"
	for _, f := range r.P.allFuncs() {
		if !r.P.InLib(f) {
			continue
		}
		r.fn(f)
		if f.Name() == "init" && f.Synthetic != "" {
			// calls of imported initialisers are not effects of the library
		}
		extRefs(f, func(in ssa.Instruction, name string, v ssa.Value) {
			if fn, ok := v.(*ssa.Function); ok && fn.Name() == "init" && fn.Synthetic != "" {
				return
			}
			if e := effectOf(name, v); e != "" {
				r.bad(rule, shortName(f)+": "+name, r.P.InstrPos(in), e)
			} else {
				r.ok(rule, shortName(f)+": "+name, r.P.InstrPos(in))
			}
		})
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(*ssa.Call); ok {
					if bi, ok := c.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "print" || bi.Name() == "println") {
						r.bad(rule, shortName(f)+": "+bi.Name(), r.P.InstrPos(in), "writes to standard error")
					}
				}
			}
		}
	}
	// standard streams cannot be reached another way, log output is not redirected
	r.expect(rule, 40)
}

// ---- package state

func refType(t types.Type) bool {
	switch u := under(t).(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Interface, *types.Signature:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if refType(u.Field(i).Type()) {
				return true
			}
		}
	case *types.Array:
		return refType(u.Elem())
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if refType(u.At(i).Type()) {
				return true
			}
		}
	}
	return false
}

// frozen types do not change through the references handed out
func frozenType(t types.Type) bool {
	if types.Identical(t, tErrType) {
		return true
	}
	if _, ok := under(t).(*types.Signature); ok {
		return false
	}
	n := namedOf(t)
	if n == nil || n.Obj().Pkg() == nil {
		return false
	}
	switch n.Obj().Pkg().Path() + "." + n.Obj().Name() {
	case "regexp.Regexp", "time.Location", "sync.Pool", "sync.Mutex", "sync.RWMutex", "sync.Once", "reflect.rtype", "encoding/binary.ByteOrder", "encoding/binary.littleEndian":
		return true
	}
	return false
}

type taint struct {
	p     *Prog
	from  map[ssa.Value]*ssa.Global
	work  []ssa.Value
	rets  map[*ssa.Function]*ssa.Global
	calls map[*ssa.Function][]ssa.CallInstruction // static callers
	clos  map[*ssa.Function][]*ssa.MakeClosure
	flds  map[string]*ssa.Global // struct fields of the module holding package state
}

func (t *taint) mark(v ssa.Value, g *ssa.Global) {
	if v == nil || t.from[v] != nil {
		return
	}
	if c, ok := v.(*ssa.Const); ok && c != nil {
		return
	}
	t.from[v] = g
	t.work = append(t.work, v)
}

func (p *Prog) globalTaint(skip func(*ssa.Function) bool) *taint {
	t := &taint{p: p, from: map[ssa.Value]*ssa.Global{}, rets: map[*ssa.Function]*ssa.Global{}, calls: map[*ssa.Function][]ssa.CallInstruction{}, clos: map[*ssa.Function][]*ssa.MakeClosure{}, flds: map[string]*ssa.Global{}}
	for _, f := range p.allFuncs() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil {
						t.calls[g] = append(t.calls[g], c)
					}
				}
				if c, ok := in.(*ssa.MakeClosure); ok {
					g := c.Fn.(*ssa.Function)
					t.clos[g] = append(t.clos[g], c)
				}
				if !p.InLib(f) {
					continue
				}
				if skip(f) {
					continue
				}
				var ops [16]*ssa.Value
				for _, o := range in.Operands(ops[:0]) {
					if g, ok := (*o).(*ssa.Global); ok && g.Pkg != nil && inModPath(g.Pkg.Pkg.Path()) {
						t.mark(g, g)
					}
				}
			}
		}
	}
	for len(t.work) > 0 {
		v := t.work[len(t.work)-1]
		t.work = t.work[:len(t.work)-1]
		g := t.from[v]
		var refs []ssa.Instruction
		if rr := v.Referrers(); rr != nil {
			refs = *rr
		} else if gl, ok := v.(*ssa.Global); ok {
			refs = t.globalRefs(gl)
		}
		for _, in := range refs {
			if f := in.Parent(); f == nil || !p.InLib(f) || skip(f) {
				continue
			}
			switch y := in.(type) {
			case *ssa.UnOp:
				if y.Op == token.MUL && y.X == v && refType(y.Type()) && !frozenType(y.Type()) {
					t.mark(y, g)
				}
			case *ssa.FieldAddr, *ssa.Slice, *ssa.Phi, *ssa.ChangeType, *ssa.Convert, *ssa.Field, *ssa.Index, *ssa.ChangeInterface, *ssa.MakeInterface, *ssa.TypeAssert, *ssa.Extract, *ssa.Lookup, *ssa.Range, *ssa.Next, *ssa.IndexAddr, *ssa.SliceToArrayPointer:
				val := in.(ssa.Value)
				if x, ok := in.(*ssa.IndexAddr); ok && x.X != v {
					continue
				}
				if x, ok := in.(*ssa.Lookup); ok && x.X != v {
					continue
				}
				if x, ok := in.(*ssa.Index); ok && x.X != v {
					continue
				}
				if _, isIter := in.(*ssa.Range); isIter {
					t.mark(val, g)
					continue
				}
				if (refType(val.Type())) && !frozenType(val.Type()) {
					t.mark(val, g)
				}
			case *ssa.MakeClosure:
				fn := y.Fn.(*ssa.Function)
				for i, bnd := range y.Bindings {
					if bnd == v {
						t.mark(fn.FreeVars[i], g)
					}
				}
			case *ssa.Store:
				if y.Val == v {
					// kept in memory: follow local variables and fields
					switch a := y.Addr.(type) {
					case *ssa.Alloc:
						t.mark(a, g)
					case *ssa.FieldAddr:
						if refType(v.Type()) {
							t.markField(a, g)
						}
					case *ssa.IndexAddr:
						t.markBase(a.X, g)
					}
				}
			case *ssa.Return:
				if t.rets[y.Parent()] == nil {
					t.rets[y.Parent()] = g
					for i, res := range y.Results {
						if res != v {
							continue
						}
						for _, c := range t.calls[y.Parent()] {
							cv, ok := c.(*ssa.Call)
							if !ok {
								continue
							}
							if len(y.Results) == 1 {
								t.mark(cv, g)
							} else if cv.Referrers() != nil {
								for _, e := range *cv.Referrers() {
									if ex, ok := e.(*ssa.Extract); ok && ex.Index == i {
										t.mark(ex, g)
									}
								}
							}
						}
					}
				}
			case ssa.CallInstruction:
				c := y.Common()
				if fn := c.StaticCallee(); fn != nil && p.InModule(fn) && fn.Blocks != nil {
					for i, a := range c.Args {
						if a == v && i < len(fn.Params) {
							t.mark(fn.Params[i], g)
						}
					}
				} else if bi, ok := c.Value.(*ssa.Builtin); ok {
					if cv, ok := in.(*ssa.Call); ok && bi.Name() == "append" && (c.Args[0] == v || len(c.Args) > 1 && c.Args[1] == v && refElem(c.Args[1].Type())) {
						t.mark(cv, g)
					}
				}
			}
		}
	}
	return t
}

func refElem(t types.Type) bool {
	sl, ok := under(t).(*types.Slice)
	return ok && refType(sl.Elem())
}

func (t *taint) markBase(v ssa.Value, g *ssa.Global) {
	switch y := v.(type) {
	case *ssa.Slice:
		t.markBase(y.X, g)
	case *ssa.Alloc:
		t.mark(y, g)
	}
}

// markField: every read of the field may see package state
func (t *taint) markField(a *ssa.FieldAddr, g *ssa.Global) {
	st := types.Unalias(a.X.Type().Underlying().(*types.Pointer).Elem())
	key := typeKey(st) + "#" + itoa(a.Field)
	if t.flds[key] != nil {
		return
	}
	t.flds[key] = g
	for _, f := range t.p.allFuncs() {
		if !t.p.InLib(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if fa, ok := in.(*ssa.FieldAddr); ok && fa.Field == a.Field && typeKey(types.Unalias(fa.X.Type().Underlying().(*types.Pointer).Elem())) == typeKey(st) {
					// the slot itself is not package state, what it holds is
					if fa.Referrers() != nil {
						for _, u := range *fa.Referrers() {
							if l, ok := u.(*ssa.UnOp); ok && l.Op == token.MUL && refType(l.Type()) && !frozenType(l.Type()) {
								t.mark(l, g)
							}
						}
					}
				}
				if fv, ok := in.(*ssa.Field); ok && fv.Field == a.Field && typeKey(types.Unalias(fv.X.Type())) == typeKey(st) && refType(fv.Type()) {
					t.mark(fv, g)
				}
			}
		}
	}
}

func (t *taint) globalRefs(g *ssa.Global) []ssa.Instruction {
	var res []ssa.Instruction
	for _, f := range t.p.allFuncs() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var ops [16]*ssa.Value
				for _, o := range in.Operands(ops[:0]) {
					if *o == ssa.Value(g) {
						res = append(res, in)
						break
					}
				}
			}
		}
	}
	return res
}

// externals which write through an argument
func writesArg(name string, i int) bool {
	switch name {
	case "sort.Slice", "sort.SliceStable", "sort.Sort", "sort.Stable", "sort.Strings", "sort.Ints", "sort.Float64s", "slices.Sort", "slices.SortFunc", "slices.SortStableFunc", "slices.Reverse",
		"maps.DeleteFunc", "encoding/binary.PutUvarint", "encoding/binary.PutVarint", "errors.As":
		return i == 0 || name == "errors.As" && i == 1
	case "maps.Copy":
		return i == 0
	case "encoding/binary.Read":
		return i == 2
	case "io.ReadFull", "io.ReadAtLeast":
		return i == 1
	case "utf16.AppendRune", "unicode/utf16.AppendRune", "strconv.AppendInt", "unicode/utf8.AppendRune", "unicode/utf8.EncodeRune":
		return i == 0
	}
	if strings.Contains(name, ".Put") && strings.Contains(name, "encoding/binary") {
		return i == 1
	}
	if strings.HasSuffix(name, ".Read") || strings.HasSuffix(name, ".ReadAt") || strings.HasSuffix(name, ".XORKeyStream") {
		return i == 1 || i == 0
	}
	return false
}

// receivers of foreign types whose methods change them
func mutatingMethod(fn *ssa.Function) bool {
	if fn.Signature.Recv() == nil {
		return false
	}
	if _, ok := under(fn.Signature.Recv().Type()).(*types.Pointer); !ok {
		return false
	}
	n := namedOf(fn.Signature.Recv().Type())
	if n == nil || n.Obj().Pkg() == nil {
		return true
	}
	switch n.Obj().Pkg().Path() {
	case "regexp":
		return false
	case "sync":
		switch n.Obj().Name() {
		case "Pool", "Mutex", "RWMutex", "WaitGroup":
			return false
		}
		return true
	case "time":
		return false
	}
	switch fn.Name() {
	case "Len", "String", "Bytes", "Cap", "Size", "Error", "Name", "Stat", "Load":
		return false
	}
	return true
}

func checkGlobals(r *Report) {
	p := r.P
	regf := p.Func(modPath, "Register")
	initTime := p.initOnly()
	skip := func(f *ssa.Function) bool {
		if f == regf {
			return true
		}
		for q := f; q != nil; q = q.Parent() {
			if q == regf {
				return true
			}
		}
		return initTime[f]
	}
	const rule = "package-level state is only set by initialisation and registration"
	t := p.globalTaint(skip)
	n := 0
	for _, f := range p.allFuncs() {
		if !p.InLib(f) || skip(f) {
			continue
		}
		r.fn(f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				pos := p.InstrPos(in)
				check := func(base ssa.Value, what string) {
					g := t.from[base]
					if g == nil {
						return
					}
					n++
					r.bad(rule, shortName(f)+": "+what+" "+g.Name(), pos, what+" package variable "+g.Pkg.Pkg.Name()+"."+g.Name()+" while files are being processed")
				}
				switch y := in.(type) {
				case *ssa.Store:
					r.ok(rule, shortName(f), pos)
					if a, ok := y.Addr.(*ssa.Alloc); ok && t.from[a] != nil {
						continue // the variable is local, its contents are not
					}
					check(y.Addr, "assigns through")
				case *ssa.MapUpdate:
					r.ok(rule, shortName(f), pos)
					check(y.Map, "updates")
				case *ssa.Send:
					check(y.Chan, "sends on")
				case ssa.CallInstruction:
					c := y.Common()
					if bi, ok := c.Value.(*ssa.Builtin); ok {
						switch bi.Name() {
						case "copy", "delete", "clear":
							r.ok(rule, shortName(f), pos)
							check(c.Args[0], "changes")
						case "append":
							if len(c.Args) > 0 {
								r.ok(rule, shortName(f), pos)
								check(c.Args[0], "appends to")
							}
						}
						continue
					}
					fn := c.StaticCallee()
					if fn == nil {
						if c.IsInvoke() {
							if g := t.from[c.Value]; g != nil && !frozenType(c.Value.Type()) {
								check(c.Value, "calls "+c.Method.Name()+" of")
							}
						}
						continue
					}
					if p.InModule(fn) {
						continue
					}
					for i, a := range c.Args {
						if writesArg(fn.String(), i) {
							check(a, "lets "+fn.Name()+" change")
						} else if i == 0 && mutatingMethod(fn) {
							check(a, "lets "+fn.Name()+" change")
						}
					}
				}
			}
		}
	}
	for _, sp := range p.ByPkg {
		if strings.HasPrefix(sp.Pkg.Path(), modPath+"/cmd/") {
			continue
		}
		for _, m := range sp.Members {
			if g, ok := m.(*ssa.Global); ok && g.Name() != "init$guard" {
				r.ok("package variables followed", g.Pkg.Pkg.Name()+"."+g.Name(), p.Pos(g.Pos()))
			}
		}
	}
	r.expect(rule, 20)
	r.expect("package variables followed", 10)
}

// initOnly: functions which only run during package initialisation.
func (p *Prog) initOnly() map[*ssa.Function]bool {
	res := map[*ssa.Function]bool{}
	callers := map[*ssa.Function][]*ssa.Function{}
	escapes := map[*ssa.Function]bool{}
	for _, f := range p.allFuncs() {
		if f.Name() == "init" && f.Synthetic != "" || strings.HasPrefix(f.Name(), "init#") {
			res[f] = true
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var callee *ssa.Function
				if c, ok := in.(ssa.CallInstruction); ok {
					callee = c.Common().StaticCallee()
					if callee != nil {
						callers[callee] = append(callers[callee], f)
					}
				}
				var ops [16]*ssa.Value
				for i, o := range in.Operands(ops[:0]) {
					if g, ok := (*o).(*ssa.Function); ok {
						if g == callee && i == 0 {
							continue
						}
						escapes[g] = true
					}
				}
			}
		}
	}
	for changed := true; changed; {
		changed = false
		for f, cs := range callers {
			if res[f] || escapes[f] || !p.InModule(f) || token.IsExported(f.Name()) {
				continue
			}
			all := true
			for _, c := range cs {
				if !res[c] {
					all = false
				}
			}
			if all {
				res[f] = true
				changed = true
			}
		}
	}
	return res
}

// ---- debug flag

// effectFree computes functions which only compute and log.
func (p *Prog) effectFree() map[*ssa.Function]bool {
	res := map[*ssa.Function]bool{}
	for _, f := range p.Funcs {
		res[f] = true
	}
	for changed := true; changed; {
		changed = false
		for f := range res {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if !res[f] {
						break
					}
					if why := p.effect(in, res); why != "" {
						delete(res, f)
						changed = true
					}
				}
			}
		}
	}
	return res
}

func localAddr(a ssa.Value) bool {
	for {
		switch y := a.(type) {
		case *ssa.Alloc:
			return true
		case *ssa.FieldAddr:
			a = y.X
		case *ssa.IndexAddr:
			a = y.X
		case *ssa.Slice:
			a = y.X
		case *ssa.MakeSlice, *ssa.MakeMap:
			return true
		default:
			return false
		}
	}
}

// effect of an instruction beyond computing a value and logging.
func (p *Prog) effect(in ssa.Instruction, pure map[*ssa.Function]bool) string {
	switch y := in.(type) {
	case *ssa.Store:
		if !localAddr(y.Addr) {
			return "assigns a variable"
		}
	case *ssa.MapUpdate:
		if !localAddr(y.Map) {
			return "changes a map"
		}
	case *ssa.Send, *ssa.Go, *ssa.Select, *ssa.Defer, *ssa.Panic:
		return "has effects"
	case *ssa.UnOp:
		if y.Op == token.ARROW {
			return "receives"
		}
	case *ssa.Call:
		c := y.Common()
		if bi, ok := c.Value.(*ssa.Builtin); ok {
			switch bi.Name() {
			case "len", "cap", "append", "min", "max", "real", "imag", "complex", "recover":
				if bi.Name() == "recover" {
					return "recovers"
				}
				return ""
			case "copy", "delete", "clear":
				if localAddr(c.Args[0]) {
					return ""
				}
			}
			return "calls " + bi.Name()
		}
		if c.IsInvoke() {
			switch c.Method.Name() {
			case "String", "Error", "Len", "Name", "Size", "GoString":
				return ""
			}
			return "calls " + c.Method.FullName()
		}
		fn := c.StaticCallee()
		if fn == nil {
			return "calls a function value"
		}
		if p.InModule(fn) {
			if pure[fn] {
				return ""
			}
			return "calls " + shortName(fn)
		}
		name := fn.String()
		switch {
		case name == "log.Print", name == "log.Printf", name == "log.Println":
			return ""
		case strings.HasPrefix(name, "fmt.Sprint"), name == "fmt.Errorf", strings.HasPrefix(name, "strings."), strings.HasPrefix(name, "strconv."), strings.HasPrefix(name, "unicode"), strings.HasPrefix(name, "math."), strings.HasPrefix(name, "path/filepath."), strings.HasPrefix(name, "errors.Is"), strings.HasPrefix(name, "errors.New"), strings.HasPrefix(name, "time."), strings.HasPrefix(name, "(time."), strings.HasPrefix(name, "(encoding/binary.littleEndian).Uint"), strings.HasPrefix(name, "encoding/hex."), strings.HasPrefix(name, "unicode/utf16.Decode"):
			return ""
		case fn.Signature.Recv() != nil && (fn.Name() == "String" || fn.Name() == "Error"):
			return ""
		}
		return "calls " + name
	}
	return ""
}

func checkDebug(r *Report) {
	p := r.P
	dbg := p.globalOf(modPath, "Debug")
	if dbg == nil {
		r.bad("anchor", "grate.Debug", "?", "the flag is gone")
		return
	}
	const rule = "code depending on the debug flag only logs"
	pure := p.effectFree()
	for _, f := range p.allFuncs() {
		if !p.InLib(f) {
			continue
		}
		tainted := map[ssa.Value]bool{}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL && u.X == ssa.Value(dbg) {
					tainted[u] = true
					continue
				}
				var ops [16]*ssa.Value
				for _, o := range in.Operands(ops[:0]) {
					if *o == ssa.Value(dbg) {
						if st, ok := in.(*ssa.Store); ok && st.Addr == ssa.Value(dbg) && f.Name() == "init" {
							continue
						}
						r.bad(rule, shortName(f), p.InstrPos(in), "the flag is changed or its address taken")
					}
				}
			}
		}
		if len(tainted) == 0 {
			continue
		}
		r.fn(f)
		pd := postDominators(f)
		done := map[*ssa.If]bool{}
		var work []ssa.Value
		for v := range tainted {
			work = append(work, v)
		}
		sort.Slice(work, func(i, j int) bool { return work[i].Pos() < work[j].Pos() })
		spread := func(v ssa.Value) {
			if !tainted[v] {
				tainted[v] = true
				work = append(work, v)
			}
		}
		for len(work) > 0 {
			v := work[0]
			work = work[1:]
			for _, in := range *v.Referrers() {
				pos := p.InstrPos(in)
				switch y := in.(type) {
				case *ssa.If:
					if done[y] {
						continue
					}
					done[y] = true
					b := y.Block()
					r.ok(rule, fmt.Sprintf("%s branch %d", shortName(f), len(done)), pos)
					join := pd[b]
					region := map[*ssa.BasicBlock]bool{}
					var st []*ssa.BasicBlock
					for _, s := range b.Succs {
						if s != join {
							st = append(st, s)
						}
					}
					for len(st) > 0 {
						c := st[len(st)-1]
						st = st[:len(st)-1]
						if region[c] || c == join {
							continue
						}
						if c == b {
							r.bad(rule, shortName(f)+" loop", pos, "the flag decides whether a loop continues")
							continue
						}
						region[c] = true
						st = append(st, c.Succs...)
					}
					for c := range region {
						for _, i2 := range c.Instrs {
							switch z := i2.(type) {
							case *ssa.Return:
								// a function without results may return early if nothing else is left to do
								if join == nil && len(z.Results) == 0 {
									continue
								}
								r.bad(rule, shortName(f)+" exit", p.InstrPos(i2), "the function ends depending on the flag")
								continue
							case *ssa.Panic:
								r.bad(rule, shortName(f)+" exit", p.InstrPos(i2), "the function ends depending on the flag")
								continue
							}
							if why := p.effect(i2, pure); why != "" {
								r.bad(rule, shortName(f)+": "+why, p.InstrPos(i2), why+" depending on the flag")
							}
							if val, ok := i2.(ssa.Value); ok && val.Referrers() != nil {
								for _, u := range *val.Referrers() {
									if !region[u.Block()] && u.Block() != join {
										r.bad(rule, shortName(f)+" value", p.InstrPos(i2), "a value depending on the flag is used later")
									}
								}
							}
						}
					}
					for k := 0; join != nil && k < len(join.Instrs); k++ {
						i2 := join.Instrs[k]
						ph, ok := i2.(*ssa.Phi)
						if !ok {
							break
						}
						var first ssa.Value
						differ := false
						for k, e := range ph.Edges {
							pr := join.Preds[k]
							if pr != b && !region[pr] {
								continue
							}
							if first == nil {
								first = e
							} else if !sameValue(first, e) {
								differ = true
							}
						}
						if differ {
							spread(ph)
						}
					}
				case *ssa.UnOp, *ssa.Phi:
					spread(in.(ssa.Value))
				case *ssa.BinOp:
					spread(y)
				case *ssa.MakeInterface, *ssa.DebugRef:
					if mi, ok := in.(*ssa.MakeInterface); ok {
						spread(mi)
					}
				case *ssa.Store:
					if !localAddr(y.Addr) || y.Val != v {
						r.bad(rule, shortName(f)+" stored", pos, "a value depending on the flag is stored")
						continue
					}
					// in the argument list of a logging call
					if !logArgOnly(y.Addr) {
						r.bad(rule, shortName(f)+" stored", pos, "a value depending on the flag is kept in a variable")
					}
				default:
					r.bad(rule, shortName(f)+" used", pos, "a value depending on the flag influences the result")
				}
			}
		}
	}
	r.expect(rule, 5)
}

func sameValue(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	c, ok1 := a.(*ssa.Const)
	d, ok2 := b.(*ssa.Const)
	if !ok1 || !ok2 || !types.Identical(c.Type(), d.Type()) {
		return false
	}
	if c.Value == nil || d.Value == nil {
		return c.Value == nil && d.Value == nil
	}
	return constant.Compare(c.Value, token.EQL, d.Value)
}

// logArgOnly: the array element is only passed to a logging function.
func logArgOnly(a ssa.Value) bool {
	for {
		switch y := a.(type) {
		case *ssa.IndexAddr:
			a = y.X
			continue
		case *ssa.Alloc:
			for _, in := range *y.Referrers() {
				switch z := in.(type) {
				case *ssa.IndexAddr:
				case *ssa.Slice:
					for _, u := range *z.Referrers() {
						c, ok := u.(*ssa.Call)
						if !ok || c.Common().StaticCallee() == nil || !strings.HasPrefix(c.Common().StaticCallee().String(), "log.Print") {
							return false
						}
					}
				default:
					return false
				}
			}
			return true
		}
		return false
	}
}

// postDominators computes the immediate post-dominator of every block; nil
// when the paths do not meet again. Blocks ending in a panic are ignored.
func postDominators(f *ssa.Function) map[*ssa.BasicBlock]*ssa.BasicBlock {
	n := len(f.Blocks)
	all := func() map[int]bool {
		m := map[int]bool{}
		for i := 0; i < n; i++ {
			m[i] = true
		}
		return m
	}
	sets := make([]map[int]bool, n)
	for i, b := range f.Blocks {
		if len(b.Succs) == 0 {
			sets[i] = map[int]bool{i: true}
		} else {
			sets[i] = all()
		}
	}
	for changed := true; changed; {
		changed = false
		for i := n - 1; i >= 0; i-- {
			b := f.Blocks[i]
			if len(b.Succs) == 0 {
				continue
			}
			m := map[int]bool{}
			for k := range sets[b.Succs[0].Index] {
				in := true
				for _, s := range b.Succs[1:] {
					if !sets[s.Index][k] {
						in = false
					}
				}
				if in {
					m[k] = true
				}
			}
			m[i] = true
			if len(m) != len(sets[i]) {
				sets[i] = m
				changed = true
			}
		}
	}
	res := map[*ssa.BasicBlock]*ssa.BasicBlock{}
	for i, b := range f.Blocks {
		// the closest one: the post-dominator with the largest set
		best, size := -1, -1
		for k := range sets[i] {
			if k != i && len(sets[k]) > size {
				best, size = k, len(sets[k])
			}
		}
		if best >= 0 {
			res[b] = f.Blocks[best]
		}
	}
	return res
}
