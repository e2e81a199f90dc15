package main

import (
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (w *Walker) exec(st *State, in ssa.Instruction) {
	tt := w.tt
	switch x := in.(type) {
	case *ssa.Alloc:
		t := w.fresh(st, "alloc", w.siteID(st, x), x.Type())
		for a := range st.heap {
			if under(a, t) {
				delete(st.heap, a)
			}
		}
		w.set(st, x, t)
	case *ssa.FieldAddr:
		base := w.val(st, x.X)
		if w.h.Deref != nil {
			w.h.Deref(st, x, base)
		}
		s := pointee(x.X.Type()).Underlying().(*types.Struct)
		w.set(st, x, w.faddr(base, s.Field(x.Field).Name()))
	case *ssa.Field:
		s := x.X.Type().Underlying().(*types.Struct)
		w.set(st, x, tt.fld(w.val(st, x.X), s, x.Field))
	case *ssa.IndexAddr:
		base, idx := w.val(st, x.X), w.val(st, x.Index)
		if w.h.Index != nil {
			w.h.Index(st, x, base, idx)
		}
		// an element of a full slice of an array is an element of the array
		if base.op == "slice" && base.args[1] == nil && base.args[0].op == "alloc" {
			base = base.args[0]
		}
		w.set(st, x, tt.mk("iaddr", "", nil, nil, base, idx))
	case *ssa.Index:
		base, idx := w.val(st, x.X), w.val(st, x.Index)
		if w.h.Index != nil {
			w.h.Index(st, x, base, idx)
		}
		w.set(st, x, tt.mk("idx", "", x.Type(), nil, base, idx))
	case *ssa.UnOp:
		v := w.val(st, x.X)
		switch x.Op {
		case token.MUL:
			if w.h.Deref != nil {
				w.h.Deref(st, x, v)
			}
			w.set(st, x, w.load(st, v, x.Type()))
		case token.NOT:
			w.set(st, x, tt.not(v))
		case token.ARROW:
			if w.h.Recv != nil {
				w.h.Recv(st, x)
			}
			w.set(st, x, w.fresh(st, "opaque", "recv:"+w.siteID(st, x), x.Type(), v))
		default:
			if v.op == "const" && x.Op == token.SUB {
				w.set(st, x, tt.bin(token.SUB, tt.intc(0), v, x.Type()))
			} else {
				w.set(st, x, tt.mk("un", x.Op.String(), x.Type(), nil, v))
			}
		}
	case *ssa.BinOp:
		a, b := w.val(st, x.X), w.val(st, x.Y)
		if (x.Op == token.EQL || x.Op == token.NEQ) && w.h.Compare != nil {
			w.h.Compare(st, x, a, b)
		}
		w.set(st, x, tt.bin(x.Op, a, b, x.Type()))
	case *ssa.ChangeInterface:
		w.set(st, x, w.val(st, x.X))
	case *ssa.ChangeType:
		w.set(st, x, w.val(st, x.X))
	case *ssa.Convert:
		v := w.val(st, x.X)
		if v.op == "const" && v.cval != nil {
			if isInt(x.Type()) && isInt(x.X.Type()) {
				w.set(st, x, tt.constVal(v.cval, x.Type()))
				return
			}
		}
		w.set(st, x, tt.mk("conv", "", x.Type(), nil, v))
	case *ssa.MultiConvert:
		w.set(st, x, tt.mk("conv", "", x.Type(), nil, w.val(st, x.X)))
	case *ssa.MakeInterface:
		w.set(st, x, tt.mk("iface", "", x.X.Type(), nil, w.val(st, x.X)))
	case *ssa.TypeAssert:
		v := w.val(st, x.X)
		ok := tt.mk("taok", "", x.AssertedType, nil, v)
		var r *Term
		if types.IsInterface(x.AssertedType) {
			r = v
		} else if v.op == "iface" && types.Identical(v.typ, x.AssertedType) {
			r = v.args[0]
		} else {
			r = tt.mk("ta", "", x.AssertedType, nil, v)
		}
		if x.CommaOk {
			if b, k := w.truth(st, ok); k {
				if !b {
					r = tt.zero(x.AssertedType)
				}
				ok = tt.boolc(b)
			}
			w.set(st, x, tt.mk("tuple", "", nil, nil, r, ok))
			return
		}
		if w.h.Assert != nil {
			w.h.Assert(st, x, v)
		}
		w.assume(st, ok, true)
		w.set(st, x, r)
	case *ssa.MakeClosure:
		fn := x.Fn.(*ssa.Function)
		args := make([]*Term, len(x.Bindings))
		for i, b := range x.Bindings {
			args[i] = w.val(st, b)
		}
		w.set(st, x, tt.mk("closure", fnName(fn), x.Type(), fn, args...))
	case *ssa.MakeMap:
		w.set(st, x, w.fresh(st, "mk", "map"+w.siteID(st, x), x.Type()))
	case *ssa.MakeChan:
		w.set(st, x, w.fresh(st, "mk", "chan"+w.siteID(st, x), x.Type()))
	case *ssa.MakeSlice:
		if w.h.Make != nil {
			w.h.Make(st, x, w.val(st, x.Len), w.val(st, x.Cap))
		}
		w.set(st, x, w.fresh(st, "mk", "slice"+w.siteID(st, x), x.Type(), w.val(st, x.Len)))
	case *ssa.Slice:
		v := w.val(st, x.X)
		opt := func(y ssa.Value) *Term {
			if y == nil {
				return nil
			}
			return w.val(st, y)
		}
		lo, hi := opt(x.Low), opt(x.High)
		if w.h.Slice != nil {
			w.h.Slice(st, x, v, lo, hi)
		}
		if lo == nil && hi == nil && x.Max == nil {
			if _, isSlice := x.X.Type().Underlying().(*types.Slice); isSlice {
				w.set(st, x, v)
				return
			}
		}
		w.set(st, x, tt.mk("slice", "", x.Type(), nil, v, lo, hi, opt(x.Max)))
	case *ssa.Lookup:
		w.lookup(st, x)
	case *ssa.MapUpdate:
		m, k, v := w.val(st, x.Map), w.val(st, x.Key), w.val(st, x.Value)
		if w.h.MapKey != nil {
			w.h.MapKey(st, x, m, k)
		}
		if w.h.MapSet != nil {
			w.h.MapSet(st, x, m, k, v)
		}
		// the other keys may be the same one
		for a := range st.heap {
			if a.op == "mcell" && a.args[0] == m && a.args[1] != k && !(a.args[1].isConst() && k.isConst()) {
				delete(st.heap, a)
			}
		}
		st.heap[tt.mk("mcell", "", nil, nil, m, k)] = v
		st.heap[tt.mk("mset", "", nil, nil, m)] = tt.boolc(true)
	case *ssa.Store:
		addr, v := w.val(st, x.Addr), w.val(st, x.Val)
		if w.h.Deref != nil {
			w.h.Deref(st, x, addr)
		}
		if w.h.Store != nil {
			w.h.Store(st, x, addr, v)
		}
		w.store(st, addr, v)
	case *ssa.Extract:
		v := w.val(st, x.Tuple)
		w.set(st, x, tt.ext(v, x.Index, x.Type()))
	case *ssa.Range:
		w.set(st, x, tt.mk("range", "", x.Type(), nil, w.val(st, x.X)))
	case *ssa.Next:
		it := w.val(st, x.Iter)
		n := w.fresh(st, "opaque", "next:"+w.siteID(st, x), x.Type(), it)
		ok := tt.ext(n, 0, types.Typ[types.Bool])
		k := tt.ext(n, 1, x.Type().(*types.Tuple).At(1).Type())
		v := tt.ext(n, 2, x.Type().(*types.Tuple).At(2).Type())
		if it.op == "range" && !x.IsString {
			v = tt.mk("lk", "", v.typ, nil, it.args[0], k)
		}
		w.set(st, x, tt.mk("tuple", "", nil, nil, ok, k, v))
	case *ssa.Send:
		if w.h.Send != nil {
			w.h.Send(st, x, w.val(st, x.Chan), w.val(st, x.X))
		}
	case *ssa.Select:
		if w.h.Recv != nil {
			w.h.Recv(st, x)
		}
		w.set(st, x, w.fresh(st, "opaque", "select:"+w.siteID(st, x), x.Type()))
	case *ssa.DebugRef:
	default:
		if v, ok := in.(ssa.Value); ok {
			w.set(st, v, w.fresh(st, "opaque", w.siteID(st, in), v.Type()))
		}
	}
}

func (w *Walker) lookup(st *State, x *ssa.Lookup) {
	tt := w.tt
	m, k := w.val(st, x.X), w.val(st, x.Index)
	if _, isMap := x.X.Type().Underlying().(*types.Map); !isMap {
		if w.h.Index != nil {
			w.h.Index(st, x, m, k)
		}
		w.set(st, x, tt.mk("idx", "", x.Type(), nil, m, k))
		return
	}
	if w.h.MapKey != nil {
		w.h.MapKey(st, x, m, k)
	}
	elem := x.X.Type().Underlying().(*types.Map).Elem()
	v := tt.mk("lk", "", elem, nil, m, k)
	ok := tt.mk("lkok", "", types.Typ[types.Bool], nil, m, k)
	modified := st.heap[tt.mk("mset", "", nil, nil, m)] != nil
	if c, found := st.heap[tt.mk("mcell", "", nil, nil, m, k)]; found {
		v, ok = c, tt.boolc(true)
	} else if m.op == "mk" && !modified {
		v, ok = tt.zero(elem), tt.boolc(false)
	} else if m.op == "nil" {
		v, ok = tt.zero(elem), tt.boolc(false)
	} else if modified {
		o := w.fresh(st, "opaque", "lookup:"+w.siteID(st, x), elem, m, k)
		v = tt.ext(o, 0, elem)
		ok = tt.ext(o, 1, types.Typ[types.Bool])
	} else if b, known := w.truth(st, ok); known && !b {
		v = tt.zero(elem)
	} else if k.op == "ext" && k.aux == "1" && k.args[0].op == "opaque" && strings.HasPrefix(k.args[0].aux, "next:") {
		// a key obtained while ranging over a map: left to the facts
		_ = k
	}
	if x.CommaOk {
		w.set(st, x, tt.mk("tuple", "", nil, nil, v, ok))
	} else {
		w.set(st, x, v)
	}
}

// expandVariadic replaces the slice built for the variadic arguments by its
// elements, when they are known.
func (w *Walker) expandVariadic(st *State, sig *types.Signature, args []*Term) []*Term {
	if !sig.Variadic() || len(args) == 0 {
		return args
	}
	last := args[len(args)-1]
	elems, ok := w.sliceElems(st, last)
	if !ok {
		return args
	}
	return append(append([]*Term{}, args[:len(args)-1]...), elems...)
}

// sliceElems lists the elements of a slice literal.
func (w *Walker) sliceElems(st *State, t *Term) ([]*Term, bool) {
	if t.op == "nil" {
		return nil, true
	}
	if t.op != "slice" || t.args[0].op != "alloc" || t.args[1] != nil || t.args[2] != nil {
		return nil, false
	}
	arr, ok := pointee(t.args[0].typ).Underlying().(*types.Array)
	if !ok || arr.Len() > 64 {
		return nil, false
	}
	var out []*Term
	for i := int64(0); i < arr.Len(); i++ {
		a := w.tt.mk("iaddr", "", nil, nil, t.args[0], w.tt.intc(i))
		out = append(out, w.load(st, a, arr.Elem()))
	}
	return out, true
}

func (w *Walker) goCall(st *State, x *ssa.Go, callee *Term, args []*Term) {
	ci := w.callInfo(st, x, &x.Call, "go", callee, args)
	if w.h.Before != nil && w.h.Before(ci) {
		return
	}
	if w.h.After != nil {
		w.h.After(ci)
	}
}

func (w *Walker) callInfo(st *State, in ssa.Instruction, c *ssa.CallCommon, kind string, callee *Term, args []*Term) *CallInfo {
	ci := &CallInfo{instr: in, common: c, kind: kind, callee: callee, args: args, pos: in.Pos(), st: st}
	if c.IsInvoke() {
		recv := args[0]
		ci.method = c.Method
		ci.name = shortName(c.Method.FullName())
		if recv.op == "iface" {
			if fn := w.p.prog.LookupMethod(recv.typ, c.Method.Pkg(), c.Method.Name()); fn != nil {
				ci.fn = fn
				ci.method = nil
				ci.name = fnName(fn)
				ci.args = append([]*Term{recv.args[0]}, args[1:]...)
			}
		}
	} else if fn := c.StaticCallee(); fn != nil {
		ci.fn = fn
		ci.name = fnName(fn)
	} else if callee != nil && (callee.op == "closure" || callee.op == "func") {
		ci.fn = callee.fn
		ci.name = fnName(callee.fn)
	} else if callee != nil && callee.op == "ld" && callee.args[0].op == "global" {
		ci.name = "var " + shortName(callee.args[0].aux)
	}
	ci.vargs = w.expandVariadic(st, c.Signature(), ci.args)
	return ci
}

// doCall performs a call. x is the value to set for a plain call, nil for the
// deferred ones.
func (w *Walker) doCall(st *State, in ssa.Instruction, c *ssa.CallCommon, kind string, callee *Term, args []*Term, x *ssa.Call) {
	if b, ok := c.Value.(*ssa.Builtin); ok && !c.IsInvoke() {
		w.builtin(st, in, b, c, args, x, kind)
		return
	}
	w.callsN++
	ci := w.callInfo(st, in, c, kind, callee, args)
	if w.h.Before != nil && w.h.Before(ci) {
		if x != nil {
			if ci.result == nil {
				ci.result = w.fresh(st, "call", w.callSite(st, in, ci), c.Signature().Results(), ci.args...)
				ci.result.call = ci
			}
			w.setResult(st, x, c, ci.result)
		}
		if w.h.After != nil {
			w.h.After(ci)
		}
		return
	}
	if ci.fn != nil && len(ci.fn.Blocks) > 0 && w.inlinable(st, ci.fn) {
		var free []*Term
		if callee != nil && callee.op == "closure" && callee.fn == ci.fn {
			free = callee.args
		}
		w.push(st, ci.fn, ci.args, free, in, kind == "defer")
		return
	}
	w.opaqueCall(st, in, c, ci, x)
}

func (w *Walker) callSite(st *State, in ssa.Instruction, ci *CallInfo) string {
	n := ci.name
	if n == "" {
		n = "dynamic"
	}
	return n + "@" + fnName(st.top().fn) + "." + strconv.Itoa(in.Block().Index) + "." + strconv.Itoa(instrIndex(in)) + "/" + st.top().ctx
}

func (w *Walker) setResult(st *State, x *ssa.Call, c *ssa.CallCommon, r *Term) {
	if c.Signature().Results().Len() > 0 {
		w.set(st, x, r)
	}
}

func (w *Walker) inlinable(st *State, fn *ssa.Function) bool {
	if !w.p.inRepo(fn) {
		return false
	}
	if len(st.frames) > w.maxDepth {
		return false
	}
	for _, f := range st.frames {
		if f.fn == fn {
			return false
		}
	}
	if w.h.Inline != nil {
		return w.h.Inline(st, fn)
	}
	return true
}

func (w *Walker) opaqueCall(st *State, in ssa.Instruction, c *ssa.CallCommon, ci *CallInfo, x *ssa.Call) {
	res := c.Signature().Results()
	if isPure(ci) {
		ci.result = w.pureResult(st, ci, res)
	} else {
		// what the callee may write through the given addresses
		n := 0
		mods, precise := w.modsOf(ci)
		for _, a := range ci.vargs {
			if a == nil {
				continue
			}
			if precise {
				n++
				w.modHavoc(st, in, n, a, mods)
				continue
			}
			s := a
			for s.op == "iface" {
				s = s.args[0]
			}
			switch s.op {
			case "alloc", "faddr", "iaddr":
				if readOnlyArgs(ci) {
					continue
				}
				n++
				w.havoc(st, in, n, s, w.cellType(s, a))
			case "slice":
				if s.args[0].op == "alloc" && !readOnlyArgs(ci) {
					n++
					w.havoc(st, in, n, s.args[0], pointee(s.args[0].typ))
				}
			default:
				has := false
				for cell := range st.heap {
					if cell != s && under(cell, s) {
						has = true
					}
				}
				if has && !readOnlyArgs(ci) {
					for cell := range st.heap {
						if cell != s && under(cell, s) {
							delete(st.heap, cell)
						}
					}
					n++
					w.havoc(st, in, n, s, pointee(s.typ))
				}
			}
		}
		ci.result = w.fresh(st, "call", w.callSite(st, in, ci), res, ci.vargs...)
		ci.result.call = ci
		if res.Len() == 1 {
			ci.result.typ = res.At(0).Type()
		}
	}
	if x != nil {
		w.setResult(st, x, c, ci.result)
	}
	if w.h.After != nil {
		w.h.After(ci)
	}
	if noReturn(ci) {
		st.user.flags["__stop"] = 1
	}
}

// noReturn: the calls which end the process or the goroutine.
func noReturn(ci *CallInfo) bool {
	switch ci.name {
	case "os.Exit", "runtime.Goexit", "log.Fatal", "log.Fatalf", "log.Fatalln", "log.Panic", "log.Panicf", "log.Panicln":
		return true
	}
	if strings.Contains(ci.name, "sirupsen/logrus") {
		n := methodName(ci)
		return strings.HasPrefix(n, "Fatal") || strings.HasPrefix(n, "Panic")
	}
	return false
}

func (w *Walker) cellType(s, orig *Term) types.Type {
	if orig.op == "iface" {
		return pointee(orig.typ)
	}
	if s.op == "alloc" {
		return pointee(s.typ)
	}
	return nil
}

// readOnlyArgs lists the callees which do not write through their arguments.
func readOnlyArgs(ci *CallInfo) bool {
	switch ci.name {
	case "(*database/sql.DB).Exec", "(*database/sql.DB).Query", "(*database/sql.DB).QueryRow", "(*database/sql.Stmt).Exec",
		"(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock",
		"(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock", "encoding/binary.Write", "(*os.File).WriteAt", "(*os.File).Write",
		"io.ReadFull#", "sort.Sort#":
		return true
	}
	return strings.HasPrefix(ci.name, "(*github.com/sirupsen/logrus.") || strings.HasPrefix(ci.name, "(*regexp.Regexp).") ||
		strings.HasPrefix(ci.name, "(*sync.WaitGroup).")
}

var purePkgs = map[string]bool{
	"strings": true, "strconv": true, "errors": true, "unicode": true, "unicode/utf8": true, "path/filepath": true, "path": true,
	"math": true, "regexp": true, "reflect": true,
}

func isPure(ci *CallInfo) bool {
	if ci.fn == nil {
		return false
	}
	o := ci.fn.Object()
	if o == nil || o.Pkg() == nil {
		return false
	}
	sig := ci.fn.Signature
	if sig.Recv() == nil {
		if purePkgs[o.Pkg().Path()] {
			switch ci.name {
			case "strings.NewReader", "errors.As", "regexp.Compile", "regexp.MustCompile", "strings.NewReplacer":
				return ci.name == "regexp.Compile" || ci.name == "regexp.MustCompile"
			}
			return true
		}
		switch ci.name {
		case "fmt.Sprintf", "fmt.Sprint", "fmt.Sprintln", "fmt.Errorf", "os.IsNotExist", "os.IsExist", "os.IsPermission",
			"bytes.Equal", "bytes.Compare", "bytes.HasPrefix", "time.Unix", "os.ExpandEnv#":
			return true
		}
		return false
	}
	switch ci.name {
	case "(time.Time).Unix", "(time.Time).Equal", "(time.Time).UnixNano", "(time.Time).Truncate", "(time.Time).UTC", "(time.Time).After", "(time.Time).Before",
		"(reflect.Value).Interface", "(*regexp.Regexp).MatchString", "(*regexp.Regexp).FindStringSubmatch", "(*regexp.Regexp).FindAllStringSubmatch",
		"(*regexp.Regexp).Split", "(*regexp.Regexp).String", "(reflect.Type).Comparable", "(time.Time).Sub", "(time.Time).Round", "(time.Time).Compare":
		return true
	}
	return false
}

func (w *Walker) pureResult(st *State, ci *CallInfo, res *types.Tuple) *Term {
	args := ci.vargs
	var typ types.Type
	if res.Len() == 1 {
		typ = res.At(0).Type()
	}
	t := w.tt.mk("pure", ci.name, typ, nil, args...)
	if t.call == nil {
		t.call = ci
	}
	// simplifications
	switch ci.name {
	case "strconv.Itoa":
	case "strings.ToUpper", "strings.ToLower":
		if s, ok := args[0].strVal(); ok {
			if ci.name == "strings.ToUpper" {
				return w.tt.strc(strings.ToUpper(s))
			}
			return w.tt.strc(strings.ToLower(s))
		}
	}
	return t
}

func (w *Walker) builtin(st *State, in ssa.Instruction, b *ssa.Builtin, c *ssa.CallCommon, args []*Term, x *ssa.Call, kind string) {
	tt := w.tt
	var r *Term
	switch b.Name() {
	case "len", "cap":
		r = w.length(st, args[0], b.Name())
	case "append":
		vargs := args
		if len(args) == 2 {
			if elems, ok := w.sliceElems(st, args[1]); ok {
				vargs = append([]*Term{args[0]}, elems...)
			}
		}
		r = w.fresh(st, "append", "append@"+fnName(st.top().fn)+"."+strconv.Itoa(in.Block().Index)+"."+strconv.Itoa(instrIndex(in))+"/"+st.top().ctx, c.Args[0].Type(), vargs...)
	case "copy":
		if args[0].op == "slice" && args[0].args[0].op == "alloc" {
			w.havoc(st, in, 1, args[0].args[0], pointee(args[0].args[0].typ))
		}
		if x != nil {
			r = w.fresh(st, "opaque", w.siteID(st, in), types.Typ[types.Int])
		}
	case "delete":
		for a := range st.heap {
			if a.op == "mcell" && a.args[0] == args[0] {
				delete(st.heap, a)
			}
		}
		st.heap[tt.mk("mset", "", nil, nil, args[0])] = tt.boolc(true)
	case "close", "print", "println":
	case "ssa:wrapnilchk":
		r = args[0]
	default:
		if x != nil {
			r = w.fresh(st, "opaque", w.siteID(st, in), x.Type(), args...)
		}
	}
	vargs := args
	if b.Name() == "append" && r != nil {
		vargs = r.args
	}
	ci := &CallInfo{instr: in, common: c, kind: kind, name: "builtin " + b.Name(), args: args, vargs: vargs, result: r, pos: in.Pos(), st: st}
	if x != nil && r != nil {
		w.set(st, x, r)
	}
	if w.h.After != nil {
		w.h.After(ci)
	}
}

func (w *Walker) length(st *State, t *Term, op string) *Term {
	switch t.op {
	case "nil":
		return w.tt.intc(0)
	case "const":
		if s, ok := t.strVal(); ok {
			return w.tt.intc(int64(len(s)))
		}
	case "mk":
		if len(t.args) == 1 && op == "len" {
			return t.args[0]
		}
		if strings.HasPrefix(t.aux, "map") && st.heap[w.tt.mk("mset", "", nil, nil, t)] == nil {
			return w.tt.intc(0)
		}
	case "slice":
		if t.args[1] == nil && t.args[2] == nil && t.args[0].op == "alloc" {
			if arr, ok := pointee(t.args[0].typ).Underlying().(*types.Array); ok {
				return w.tt.intc(arr.Len())
			}
		}
		if lo := t.args[1]; op == "len" && t.args[2] != nil && t.args[2].isConst() {
			if lo == nil {
				return t.args[2]
			} else if n, ok := lo.intVal(); ok && n == 0 {
				return t.args[2]
			}
		}
	case "conv":
		// []byte(s), string(b)
		return w.tt.mk(op, "", types.Typ[types.Int], nil, t)
	}
	if t.op == "mk" || st.heap[w.tt.mk("mset", "", nil, nil, t)] != nil {
		// the length of a modified map is not a stable value
		if strings.HasPrefix(t.aux, "map") {
			return w.tt.mk("opaque", "len:"+t.aux, types.Typ[types.Int], nil, t)
		}
	}
	return w.tt.mk(op, "", types.Typ[types.Int], nil, t)
}

// modsOf: the fields which a function that is not followed may change.
func (w *Walker) modsOf(ci *CallInfo) (map[string]bool, bool) {
	if w.mods == nil || ci.fn == nil || len(ci.fn.Blocks) == 0 || !w.p.inRepo(ci.fn) {
		return nil, false
	}
	m, ok := w.mods[ci.fn]
	return m, ok
}

// modHavoc forgets the fields of the argument a which may have been changed.
func (w *Walker) modHavoc(st *State, in ssa.Instruction, n int, a *Term, mods map[string]bool) {
	for a.op == "iface" {
		a = a.args[0]
	}
	if a.typ == nil && a.op != "alloc" && a.op != "faddr" && a.op != "iaddr" {
		return
	}
	site := w.siteID(st, in) + "#h" + strconv.Itoa(n)
	if mods["*"] {
		switch a.op {
		case "alloc", "faddr", "iaddr":
			if v, ok := st.heap[a]; ok {
				st.heap[a] = w.fresh(st, "opaque", site, v.typ)
			}
		}
	}
	var cells []*Term
	for cell := range st.heap {
		if cell != a && under(cell, a) {
			cells = append(cells, cell)
		}
	}
	sort.Slice(cells, func(i, j int) bool { return cells[i].id < cells[j].id })
	for i, cell := range cells {
		if cell.op == "faddr" && mods[cell.aux] || cell.op == "iaddr" && mods["*"] {
			st.heap[cell] = w.fresh(st, "opaque", site+"."+strconv.Itoa(i), st.heap[cell].typ)
		}
	}
	if pt := pointee(a.typ); pt != nil {
		if s := structOf(pt); s != nil {
			for i := 0; i < s.NumFields(); i++ {
				f := s.Field(i)
				if mods[f.Name()] {
					st.heap[w.faddr(a, f.Name())] = w.fresh(st, "opaque", site+":"+f.Name(), f.Type())
				}
			}
		}
	}
}
