package main

import (
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A points-to analysis of what runs while a request is answered. Everything
// which exists before the request (what the handler captured, the receivers
// it is given, the globals) is one object, "shared"; every allocation made by
// a function which the handler reaches is an object of the request. Objects
// are field-sensitive, functions are analysed once for all their callers, and
// interface calls are dispatched on the objects which reach them, or on every
// implementation when the receiver comes from the shared memory.

type shObj struct {
	id       int
	fn       *ssa.Function // function value
	closure  bool
	external bool // made by code which is not of the repository
	shared   bool
}

type shPtr struct {
	o    *shObj
	path string
	typ  types.Type // dynamic type, when it was put in an interface
	key  string     // shared: where it was loaded from, when kept by external code
}

type shSet map[shPtr]bool

const wrapped = ", through what it gave"

type shAgg map[string]shSet

type shEffect struct {
	fn    *ssa.Function
	in    ssa.Instruction
	kind  string // write, use, read
	key   string // what is accessed
	addr  ssa.Value
	owner types.Type
}

type sharing struct {
	p       *Program
	shared  *shObj
	env     map[ssa.Value]shAgg
	heap    map[*shObj]shAgg
	rets    map[*ssa.Function]shAgg
	objs    map[interface{}]*shObj
	reach   map[*ssa.Function]bool
	order   []*ssa.Function
	roots   map[*ssa.Function]bool
	effects map[string]*shEffect
	calls   map[*ssa.Function]map[ssa.Instruction]bool // callee -> sites
	siteOf  map[ssa.Instruction]map[*ssa.Function]bool
	fresh   map[ssa.Instruction]bool // writes which only reach the request
	changed bool
	stored  map[*ssa.UnOp][]ssa.Value
	impl    map[string][]*ssa.Function
}

func newSharing(p *Program) *sharing {
	s := &sharing{p: p, env: map[ssa.Value]shAgg{}, heap: map[*shObj]shAgg{}, rets: map[*ssa.Function]shAgg{},
		objs: map[interface{}]*shObj{}, reach: map[*ssa.Function]bool{}, roots: map[*ssa.Function]bool{},
		effects: map[string]*shEffect{}, calls: map[*ssa.Function]map[ssa.Instruction]bool{}, siteOf: map[ssa.Instruction]map[*ssa.Function]bool{},
		fresh: map[ssa.Instruction]bool{}, stored: map[*ssa.UnOp][]ssa.Value{}, impl: map[string][]*ssa.Function{}}
	s.shared = &shObj{shared: true}
	return s
}

func aggType(t types.Type) bool {
	if t == nil {
		return false
	}
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array, *types.Tuple:
		return true
	}
	return false
}

// holdsPointers: values of this type can lead to memory.
func holdsPointers(t types.Type, depth int) bool {
	if t == nil || depth > 5 {
		return true
	}
	switch x := t.Underlying().(type) {
	case *types.Basic:
		return x.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < x.NumFields(); i++ {
			if holdsPointers(x.Field(i).Type(), depth+1) {
				return true
			}
		}
		return false
	case *types.Array:
		return holdsPointers(x.Elem(), depth+1)
	case *types.Tuple:
		for i := 0; i < x.Len(); i++ {
			if holdsPointers(x.At(i).Type(), depth+1) {
				return true
			}
		}
		return false
	}
	return true
}

func (s *sharing) obj(k interface{}) *shObj {
	o := s.objs[k]
	if o == nil {
		o = &shObj{id: len(s.objs) + 1}
		s.objs[k] = o
		s.changed = true
	}
	return o
}

func (s *sharing) addTo(m shAgg, sub string, p shPtr) {
	set := m[sub]
	if set == nil {
		set = shSet{}
		m[sub] = set
	}
	if !set[p] {
		set[p] = true
		s.changed = true
	}
}

func (s *sharing) val(v ssa.Value) shAgg {
	switch x := v.(type) {
	case *ssa.Const, *ssa.Builtin:
		return nil
	case *ssa.Global:
		return shAgg{"": {shPtr{o: s.shared}: true}}
	case *ssa.Function:
		o := s.obj(x)
		o.fn = x
		return shAgg{"": {shPtr{o: o}: true}}
	}
	return s.env[v]
}

// at: the pointers of a value, at a place inside of it.
func (s *sharing) at(a shAgg, sub string) []shPtr {
	var out []shPtr
	for p := range a[sub] {
		out = append(out, p)
	}
	for p := range a["*"] {
		out = append(out, p)
	}
	return out
}

func (s *sharing) ptrs(v ssa.Value) []shPtr { return s.at(s.val(v), "") }

func (s *sharing) envOf(v ssa.Value) shAgg {
	a := s.env[v]
	if a == nil {
		a = shAgg{}
		s.env[v] = a
	}
	return a
}

func (s *sharing) heapOf(o *shObj) shAgg {
	a := s.heap[o]
	if a == nil {
		a = shAgg{}
		s.heap[o] = a
	}
	return a
}

// join copies a value, from a place inside of it to another place.
func (s *sharing) join(dst shAgg, dstSub string, src shAgg, srcSub string, t types.Type) {
	if t != nil && !holdsPointers(t, 0) {
		return
	}
	agg := aggType(t)
	for q, set := range src {
		if q == "*" {
			d := dstSub
			if agg {
				if d != "" {
					// every place below: kept as a wildcard of the holder
					d = "*"
				} else {
					d = "*"
				}
			}
			for p := range set {
				s.addTo(dst, d, p)
			}
			continue
		}
		if !strings.HasPrefix(q, srcSub) {
			continue
		}
		rest := q[len(srcSub):]
		if rest != "" && !strings.ContainsAny(rest[:1], ".[{#<") {
			continue
		}
		if !agg && t != nil && rest != "" {
			continue
		}
		if strings.Count(dstSub+rest, ".")+strings.Count(dstSub+rest, "[") > 12 {
			continue
		}
		for p := range set {
			s.addTo(dst, dstSub+rest, p)
		}
	}
}

func (s *sharing) flow(dst ssa.Value, src ssa.Value) {
	s.join(s.envOf(dst), "", s.val(src), "", dst.Type())
}

// load reads memory at a pointer.
func (s *sharing) load(dst shAgg, dstSub string, p shPtr, t types.Type) {
	if !holdsPointers(t, 0) {
		return
	}
	if p.o.shared {
		if aggType(t) && dstSub == "" {
			s.addTo(dst, "*", shPtr{o: s.shared})
		} else {
			s.addTo(dst, dstSub, shPtr{o: s.shared})
		}
		return
	}
	if p.o.external {
		d := dstSub
		if aggType(t) && dstSub == "" {
			d = "*"
		}
		s.addTo(dst, d, shPtr{o: p.o})
		for q := range s.heap[p.o]["*"] {
			q.key = ""
			if q.o.shared {
				q.typ = nil
			}
			s.addTo(dst, d, q)
		}
	}
	s.join(dst, dstSub, s.heap[p.o], p.path, t)
}

func (s *sharing) effect(fn *ssa.Function, in ssa.Instruction, kind string, addr ssa.Value, key string, owner types.Type) {
	k := kind + "\x00" + key + "\x00" + strconv.Itoa(int(in.Pos())) + "\x00" + fn.String() + strconv.Itoa(s.obj(in).id)
	if s.effects[k] == nil {
		s.effects[k] = &shEffect{fn, in, kind, key, addr, owner}
		s.changed = true
	}
}

// place names the memory an address or a reference stands for.
func (s *sharing) place(v ssa.Value, depth int) (string, types.Type) {
	if depth > 8 {
		return "value of type " + shortName(v.Type().String()), nil
	}
	switch x := v.(type) {
	case *ssa.FieldAddr:
		if n := named(x.X.Type()); n != nil {
			return shortName(n.String()) + "." + fieldName(x), n
		}
		k, t := s.place(x.X, depth+1)
		return k + "." + fieldName(x), t
	case *ssa.IndexAddr:
		return s.place(x.X, depth+1)
	case *ssa.Index:
		return s.place(x.X, depth+1)
	case *ssa.Lookup:
		return s.place(x.X, depth+1)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return s.place(x.X, depth+1)
		}
	case *ssa.Slice:
		return s.place(x.X, depth+1)
	case *ssa.MakeInterface:
		return s.place(x.X, depth+1)
	case *ssa.ChangeInterface:
		return s.place(x.X, depth+1)
	case *ssa.ChangeType:
		return s.place(x.X, depth+1)
	case *ssa.TypeAssert:
		return s.place(x.X, depth+1)
	case *ssa.Extract:
		if l, ok := x.Tuple.(*ssa.Lookup); ok {
			return s.place(l, depth+1)
		}
		if l, ok := x.Tuple.(*ssa.TypeAssert); ok {
			return s.place(l, depth+1)
		}
	case *ssa.Alloc:
		var st *ssa.Store
		n := 0
		for _, ref := range *x.Referrers() {
			if w, ok := ref.(*ssa.Store); ok && w.Addr == x {
				st, n = w, n+1
			}
		}
		if n == 1 {
			return s.place(st.Val, depth+1)
		}
	case *ssa.Global:
		return shortName(x.String()), nil
	case *ssa.FreeVar:
		return "captured " + x.Name(), nil
	}
	return "value of type " + shortName(v.Type().String()), named(v.Type())
}

func fieldName(x *ssa.FieldAddr) string {
	if pt, ok := x.X.Type().Underlying().(*types.Pointer); ok {
		if st, ok := pt.Elem().Underlying().(*types.Struct); ok {
			return st.Field(x.Field).Name()
		}
	}
	return "field " + strconv.Itoa(x.Field)
}

func (s *sharing) reached(fn *ssa.Function, site ssa.Instruction) {
	if !s.reach[fn] {
		s.reach[fn] = true
		s.order = append(s.order, fn)
		s.changed = true
	}
	if site != nil {
		if s.calls[fn] == nil {
			s.calls[fn] = map[ssa.Instruction]bool{}
		}
		s.calls[fn][site] = true
		if s.siteOf[site] == nil {
			s.siteOf[site] = map[*ssa.Function]bool{}
		}
		s.siteOf[site][fn] = true
	}
}

// lastStored: the values a local variable can hold at a load, when only its
// own function changes it.
func (s *sharing) lastStored(al *ssa.Alloc, load *ssa.UnOp) ([]ssa.Value, bool) {
	if r, ok := s.stored[load]; ok {
		return r, r != nil
	}
	s.stored[load] = nil
	for _, ref := range *al.Referrers() {
		switch r := ref.(type) {
		case *ssa.Store:
			if r.Addr != al {
				return nil, false
			}
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.MakeClosure:
			for i, b := range r.Bindings {
				if b != al {
					continue
				}
				for _, fr := range *r.Fn.(*ssa.Function).FreeVars[i].Referrers() {
					if u, ok := fr.(*ssa.UnOp); !ok || u.Op != token.MUL {
						return nil, false
					}
				}
			}
		default:
			return nil, false
		}
	}
	out := []ssa.Value{}
	seen := map[*ssa.BasicBlock]bool{}
	var back func(b *ssa.BasicBlock, from int)
	back = func(b *ssa.BasicBlock, from int) {
		for i := from; i >= 0; i-- {
			if st, ok := b.Instrs[i].(*ssa.Store); ok && st.Addr == al {
				out = append(out, st.Val)
				return
			}
		}
		for _, pr := range b.Preds {
			if !seen[pr] {
				seen[pr] = true
				back(pr, len(pr.Instrs)-1)
			}
		}
	}
	b := load.Block()
	for i, in := range b.Instrs {
		if in == load {
			back(b, i-1)
		}
	}
	s.stored[load] = out
	return out, true
}

// lift moves the accesses made through a parameter to the calls, where what
// was given is known.
func (s *sharing) lift(covered func(e *shEffect) bool) {
	done := map[string]bool{}
	for changed := true; changed; {
		changed = false
		for k, e := range s.effects {
			if done[k] {
				continue
			}
			pa := rootParam(e.addr, 0)
			if pa == nil || s.roots[e.fn] || !strings.Contains(e.key, "value of type ") || covered(e) {
				continue
			}
			idx := -1
			for i, q := range e.fn.Params {
				if q == pa {
					idx = i
				}
			}
			all := len(s.calls[e.fn]) > 0
			var sites []ssa.CallInstruction
			var args []ssa.Value
			for in := range s.calls[e.fn] {
				site, ok := in.(ssa.CallInstruction)
				if !ok {
					all = false
					continue
				}
				c := site.Common()
				given := c.Args
				if c.IsInvoke() {
					given = append([]ssa.Value{c.Value}, c.Args...)
				}
				if len(given) != len(e.fn.Params) || !types.AssignableTo(given[idx].Type(), pa.Type()) && !(c.IsInvoke() && idx == 0) {
					all = false
					continue
				}
				sites, args = append(sites, site), append(args, given[idx])
			}
			if !all {
				continue
			}
			done[k] = true
			delete(s.effects, k)
			changed = true
			for i, site := range sites {
				shared := false
				for _, p := range s.ptrs(args[i]) {
					shared = shared || p.o.shared
				}
				if !shared {
					continue
				}
				key, owner := s.place(args[i], 0)
				if strings.HasPrefix(e.key, "the object of ") {
					key = "the object of " + key
				}
				in := site.(ssa.Instruction)
				s.effect(in.Parent(), in, e.kind, args[i], key, owner)
			}
		}
	}
}

// rootParam: the parameter through which an address was reached.
func rootParam(v ssa.Value, depth int) *ssa.Parameter {
	if v == nil || depth > 10 {
		return nil
	}
	switch x := v.(type) {
	case *ssa.Parameter:
		return x
	case *ssa.MakeInterface:
		return rootParam(x.X, depth+1)
	case *ssa.ChangeInterface:
		return rootParam(x.X, depth+1)
	case *ssa.ChangeType:
		return rootParam(x.X, depth+1)
	case *ssa.TypeAssert:
		return rootParam(x.X, depth+1)
	case *ssa.Slice:
		return rootParam(x.X, depth+1)
	case *ssa.IndexAddr:
		return rootParam(x.X, depth+1)
	case *ssa.UnOp:
		return rootParam(x.X, depth+1)
	}
	return nil
}

// root starts the analysis at a function which is called for each request.
func (s *sharing) root(fn *ssa.Function) {
	s.roots[fn] = true
	s.reached(fn, nil)
	for _, fv := range fn.FreeVars {
		s.addTo(s.envOf(fv), "", shPtr{o: s.shared})
	}
	for i, pa := range fn.Params {
		if i == 0 && fn.Signature.Recv() != nil {
			s.addTo(s.envOf(pa), "", shPtr{o: s.shared})
			continue
		}
		o := s.obj(pa)
		o.external = true
		s.addTo(s.envOf(pa), "", shPtr{o: o})
	}
}

func (s *sharing) run() {
	for n := 0; n < 200; n++ {
		s.changed = false
		for i := 0; i < len(s.order); i++ {
			fn := s.order[i]
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					s.instr(fn, in)
				}
			}
		}
		if !s.changed {
			return
		}
	}
	panic("the points-to analysis did not converge")
}

func (s *sharing) write(fn *ssa.Function, in ssa.Instruction, addr ssa.Value, p shPtr) bool {
	if !p.o.shared {
		return false
	}
	k, t := s.place(addr, 0)
	s.effect(fn, in, "write", addr, k, t)
	return true
}

func (s *sharing) instr(fn *ssa.Function, in ssa.Instruction) {
	switch x := in.(type) {
	case *ssa.Alloc:
		s.addTo(s.envOf(x), "", shPtr{o: s.obj(x)})
	case *ssa.MakeSlice:
		s.addTo(s.envOf(x), "", shPtr{o: s.obj(x)})
	case *ssa.MakeMap:
		s.addTo(s.envOf(x), "", shPtr{o: s.obj(x)})
	case *ssa.MakeChan:
		s.addTo(s.envOf(x), "", shPtr{o: s.obj(x)})
	case *ssa.Slice:
		s.flow(x, x.X)
	case *ssa.FieldAddr:
		for _, p := range s.ptrs(x.X) {
			q := p
			q.typ, q.key = nil, ""
			if !p.o.shared && !p.o.external {
				q.path += "." + fieldName(x)
			}
			s.addTo(s.envOf(x), "", q)
		}
	case *ssa.IndexAddr:
		for _, p := range s.ptrs(x.X) {
			q := p
			q.typ, q.key = nil, ""
			if !p.o.shared && !p.o.external {
				q.path += "[]"
			}
			s.addTo(s.envOf(x), "", q)
		}
	case *ssa.Field:
		st := x.X.Type().Underlying().(*types.Struct)
		s.join(s.envOf(x), "", s.val(x.X), "."+st.Field(x.Field).Name(), x.Type())
	case *ssa.Index:
		s.join(s.envOf(x), "", s.val(x.X), "[]", x.Type())
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			if al, ok := x.X.(*ssa.Alloc); ok {
				if vals, ok := s.lastStored(al, x); ok {
					for _, v := range vals {
						s.flow(x, v)
					}
					return
				}
			}
			for _, p := range s.ptrs(x.X) {
				if p.o.shared {
					k, t := s.place(x.X, 0)
					s.effect(fn, in, "read", x.X, k, t)
				}
				s.load(s.envOf(x), "", p, x.Type())
			}
		case token.ARROW:
			for _, p := range s.ptrs(x.X) {
				if p.o.shared {
					s.addTo(s.envOf(x), "", shPtr{o: s.shared})
					continue
				}
				s.join(s.envOf(x), "", s.heap[p.o], p.path+"<-", nil)
			}
		}
	case *ssa.Store:
		shared := false
		for _, p := range s.ptrs(x.Addr) {
			if s.write(fn, in, x.Addr, p) {
				shared = true
				continue
			}
			s.join(s.heapOf(p.o), p.path, s.val(x.Val), "", x.Val.Type())
		}
		if !shared {
			s.fresh[in] = true
		} else {
			delete(s.fresh, in)
		}
	case *ssa.MapUpdate:
		shared := false
		for _, p := range s.ptrs(x.Map) {
			if s.write(fn, in, x.Map, p) {
				shared = true
				continue
			}
			s.join(s.heapOf(p.o), p.path+"{}", s.val(x.Value), "", x.Value.Type())
			s.join(s.heapOf(p.o), p.path+"{k}", s.val(x.Key), "", x.Key.Type())
		}
		if !shared {
			s.fresh[in] = true
		} else {
			delete(s.fresh, in)
		}
	case *ssa.Lookup:
		sub := ""
		t := x.Type()
		if x.CommaOk {
			sub = "#0"
			t = t.(*types.Tuple).At(0).Type()
		}
		for _, p := range s.ptrs(x.X) {
			if p.o.shared {
				k, o := s.place(x.X, 0)
				s.effect(fn, in, "read", x.X, k, o)
				s.load(s.envOf(x), sub, p, t)
				continue
			}
			q := p
			q.path += "{}"
			s.load(s.envOf(x), sub, q, t)
		}
	case *ssa.Range:
		s.join(s.envOf(x), "", s.val(x.X), "", nil)
		for _, p := range s.ptrs(x.X) {
			if p.o.shared {
				k, o := s.place(x.X, 0)
				s.effect(fn, in, "read", x.X, k, o)
			}
		}
	case *ssa.Next:
		tu := x.Type().(*types.Tuple)
		for _, p := range s.at(s.env[x.Iter], "") {
			for i, part := range []string{1: "{k}", 2: "{}"} {
				if i == 0 {
					continue
				}
				q := p
				if !p.o.shared {
					q.path += part
				}
				s.load(s.envOf(x), "#"+strconv.Itoa(i), q, tu.At(i).Type())
			}
		}
	case *ssa.Extract:
		s.join(s.envOf(x), "", s.val(x.Tuple), "#"+strconv.Itoa(x.Index), x.Type())
	case *ssa.Phi:
		for _, e := range x.Edges {
			s.flow(x, e)
		}
	case *ssa.ChangeType:
		s.flow(x, x.X)
	case *ssa.ChangeInterface:
		s.flow(x, x.X)
	case *ssa.SliceToArrayPointer:
		s.flow(x, x.X)
	case *ssa.Convert:
		if _, ok := x.Type().Underlying().(*types.Slice); ok {
			s.addTo(s.envOf(x), "", shPtr{o: s.obj(x)})
			return
		}
		s.flow(x, x.X)
	case *ssa.MakeInterface:
		t := x.X.Type()
		if aggType(t) {
			o := s.obj(x)
			s.join(s.heapOf(o), "", s.val(x.X), "", t)
			s.addTo(s.envOf(x), "", shPtr{o: o, typ: t})
			return
		}
		for _, p := range s.ptrs(x.X) {
			p.typ = t
			s.addTo(s.envOf(x), "", p)
		}
	case *ssa.TypeAssert:
		sub, t := "", x.AssertedType
		if x.CommaOk {
			sub = "#0"
		}
		for _, p := range s.ptrs(x.X) {
			if types.IsInterface(t) {
				s.addTo(s.envOf(x), sub, p)
				continue
			}
			if p.typ != nil && !types.Identical(p.typ, t) {
				continue
			}
			if aggType(t) {
				q := p
				q.typ = nil
				s.load(s.envOf(x), sub, q, t)
				continue
			}
			if !p.o.shared {
				p.typ = nil
			}
			s.addTo(s.envOf(x), sub, p)
		}
	case *ssa.MakeClosure:
		o := s.obj(x)
		f := x.Fn.(*ssa.Function)
		o.fn, o.closure = f, true
		for i, b := range x.Bindings {
			s.join(s.heapOf(o), "fv"+strconv.Itoa(i), s.val(b), "", b.Type())
			if i < len(f.FreeVars) {
				s.join(s.envOf(f.FreeVars[i]), "", s.val(b), "", b.Type())
			}
		}
		s.addTo(s.envOf(x), "", shPtr{o: o})
	case *ssa.Return:
		a := s.rets[fn]
		if a == nil {
			a = shAgg{}
			s.rets[fn] = a
		}
		for i, v := range x.Results {
			sub := ""
			if len(x.Results) > 1 {
				sub = "#" + strconv.Itoa(i)
			}
			s.join(a, sub, s.val(v), "", v.Type())
		}
	case *ssa.Send:
		for _, p := range s.ptrs(x.Chan) {
			if !p.o.shared {
				s.join(s.heapOf(p.o), p.path+"<-", s.val(x.X), "", nil)
			}
		}
	case ssa.CallInstruction:
		s.call(fn, x)
	}
}

// enter binds the arguments of a call to a function of the repository.
func (s *sharing) enter(site ssa.CallInstruction, callee *ssa.Function, recv []shPtr, hasRecv bool, args []ssa.Value) {
	s.reached(callee, site)
	params := callee.Params
	if hasRecv && len(params) > 0 {
		t := params[0].Type()
		for _, p := range recv {
			if aggType(t) {
				q := p
				q.typ = nil
				s.load(s.envOf(params[0]), "", q, t)
			} else {
				p.typ = nil
				s.addTo(s.envOf(params[0]), "", p)
			}
		}
		params = params[1:]
	}
	for i, a := range args {
		if i < len(params) {
			s.join(s.envOf(params[i]), "", s.val(a), "", params[i].Type())
		}
	}
	if v := site.Value(); v != nil {
		s.join(s.envOf(v), "", s.rets[callee], "", v.Type())
	}
}

func (s *sharing) callsFn(site ssa.CallInstruction, f *ssa.Function, args []ssa.Value) {
	if f.Blocks == nil || !s.p.inRepo(f) && f.Synthetic == "" {
		s.external(site, f, args)
		return
	}
	s.enter(site, f, nil, false, args)
}

// implementations lists what a method of an interface can be, in production.
func (s *sharing) implementations(it *types.Interface, m *types.Func) []*ssa.Function {
	k := it.String() + "." + m.Name()
	if l, ok := s.impl[k]; ok {
		return l
	}
	out := []*ssa.Function{}
	for _, pk := range s.p.pkgs {
		sc := pk.Types.Scope()
		for _, nm := range sc.Names() {
			tn, ok := sc.Lookup(nm).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			n, ok := tn.Type().(*types.Named)
			if !ok || types.IsInterface(n) || s.p.isMock(n) {
				continue
			}
			if types.Implements(n, it) || types.Implements(types.NewPointer(n), it) {
				if f := s.p.method(n, m.Name()); f != nil && f.Blocks != nil {
					out = append(out, f)
				}
			}
		}
	}
	s.impl[k] = out
	return out
}

func (s *sharing) call(fn *ssa.Function, site ssa.CallInstruction) {
	c := site.Common()
	if b, ok := c.Value.(*ssa.Builtin); ok {
		s.builtin(fn, site, b, c)
		return
	}
	if c.IsInvoke() {
		it, _ := c.Value.Type().Underlying().(*types.Interface)
		inRepo := c.Method.Pkg() != nil && strings.HasPrefix(c.Method.Pkg().Path(), modulePath)
		recv := s.ptrs(c.Value)
		byAll := len(recv) == 0
		ext := false
		for _, p := range recv {
			switch {
			case p.o.shared && p.typ == nil:
				for _, f := range s.implementations(it, c.Method) {
					s.enter(site, f, []shPtr{p}, true, c.Args)
				}
				if !inRepo {
					ext = true
				}
			case p.typ != nil:
				if f := s.p.method(p.typ, c.Method.Name()); f != nil && f.Blocks != nil && s.p.inRepo(f) {
					s.enter(site, f, []shPtr{p}, true, c.Args)
				} else {
					ext = true
				}
			case p.o.external:
				ext = true
				for q := range s.heap[p.o]["*"] {
					if q.typ != nil && !q.o.shared {
						if f := s.p.method(q.typ, c.Method.Name()); f != nil && f.Blocks != nil && s.p.inRepo(f) {
							s.enter(site, f, []shPtr{q}, true, c.Args)
						}
					}
				}
			default:
				byAll = true
			}
		}
		if byAll {
			for _, f := range s.implementations(it, c.Method) {
				s.enter(site, f, nil, true, c.Args)
			}
			if !inRepo {
				ext = true
			}
		}
		if ext {
			s.externalCall(site, c.Method, c.Signature(), append([]ssa.Value{c.Value}, c.Args...))
		}
		return
	}
	if f := c.StaticCallee(); f != nil {
		s.callsFn(site, f, c.Args)
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			_ = mc
		}
		return
	}
	for _, p := range s.ptrs(c.Value) {
		switch {
		case p.o.fn != nil:
			s.callsFn(site, p.o.fn, c.Args)
		case p.o.shared:
			// any function value of this type which was made before the request
			for _, f := range s.p.funcs {
				if f.Parent() == nil || s.reach[f.Parent()] || !types.Identical(f.Signature, c.Value.Type().Underlying()) {
					continue
				}
				for _, fv := range f.FreeVars {
					s.addTo(s.envOf(fv), "", shPtr{o: s.shared})
				}
				s.enter(site, f, nil, false, c.Args)
			}
		default:
			s.externalCall(site, nil, c.Signature(), c.Args)
		}
	}
}

func (s *sharing) builtin(fn *ssa.Function, site ssa.CallInstruction, b *ssa.Builtin, c *ssa.CallCommon) {
	in := site.(ssa.Instruction)
	switch b.Name() {
	case "append":
		v := site.Value()
		if v == nil {
			return
		}
		o := s.obj(v)
		s.addTo(s.envOf(v), "", shPtr{o: o})
		el := v.Type().Underlying().(*types.Slice).Elem()
		for _, p := range s.ptrs(c.Args[0]) {
			s.addTo(s.envOf(v), "", p)
			q := p
			if !p.o.shared {
				q.path += "[]"
			}
			s.load(s.heapOf(o), "[]", q, el)
			if p.o.shared && len(c.Args) > 1 && !fullSlice(c.Args[0]) {
				k, t := s.place(c.Args[0], 0)
				s.effect(fn, in, "write", c.Args[0], "the spare room behind "+k, t)
			}
		}
		if len(c.Args) > 1 {
			for _, p := range s.ptrs(c.Args[1]) {
				q := p
				if !p.o.shared {
					q.path += "[]"
				}
				s.load(s.heapOf(o), "[]", q, el)
				for _, d := range s.ptrs(c.Args[0]) {
					if !d.o.shared {
						s.load(s.heapOf(d.o), d.path+"[]", q, el)
					}
				}
			}
		}
	case "copy":
		for _, d := range s.ptrs(c.Args[0]) {
			if s.write(fn, in, c.Args[0], d) {
				continue
			}
			if sl, ok := c.Args[0].Type().Underlying().(*types.Slice); ok {
				for _, p := range s.ptrs(c.Args[1]) {
					q := p
					if !p.o.shared {
						q.path += "[]"
					}
					s.load(s.heapOf(d.o), d.path+"[]", q, sl.Elem())
				}
			}
		}
	case "delete", "clear":
		for _, d := range s.ptrs(c.Args[0]) {
			s.write(fn, in, c.Args[0], d)
		}
	}
}

// fullSlice: x[a:b:c], whose room ends where the caller decided.
func fullSlice(v ssa.Value) bool {
	sl, ok := v.(*ssa.Slice)
	return ok && sl.Max != nil
}

func (s *sharing) external(site ssa.CallInstruction, f *ssa.Function, args []ssa.Value) {
	o, _ := f.Object().(*types.Func)
	s.externalCall(site, o, f.Signature, args)
}

// packages whose functions only read what they are given (and call the
// methods of it).
var readsOnly = map[string]bool{
	"fmt": true, "errors": true, "strings": true, "strconv": true, "bytes": true, "unicode": true, "unicode/utf8": true,
	"github.com/sirupsen/logrus": true, "log": true, "regexp": true, "net/url": true, "path": true, "path/filepath": true,
	"math": true, "time": true, "os": true, "reflect": true, "sync": true, "sync/atomic": true, "net/http": true,
	"github.com/antchfx/xmlquery": true, "context": true, "hash": true,
}

// the types of the libraries which are made to be used from several requests.
var safeTypes = []string{
	"*database/sql.DB", "*database/sql.Stmt", "*regexp.Regexp", "*github.com/sirupsen/logrus.", "github.com/sirupsen/logrus.", "*sync.", "sync.", "*sync/atomic.", "sync/atomic.",
	"net.Listener", "*net/http.Server", "context.Context", "time.", "*time.Location", "error", "golang.org/x/text/encoding.Encoding",
	"*golang.org/x/text/encoding/charmap.Charmap", "reflect.Type", "os.FileInfo", "io/fs.FileInfo", "net.Addr", "*net/http.Client", "*net/url.URL", "*log.Logger",
}

// the methods of the other types which only read, or are documented to be
// usable at the same time.
var safeMethods = map[string]bool{
	"(*os.File).ReadAt": true, "(*os.File).Stat": true, "(*os.File).Name": true, "(*os.File).WriteAt": false,
	"(*github.com/antchfx/xpath.Expr).Select": true, "(*github.com/antchfx/xpath.Expr).String": true,
}

func (s *sharing) statefulUse(o *types.Func, t types.Type, isRecv bool) bool {
	name := types.TypeString(t, nil)
	if !isRecv && fills(o, t) {
		return true
	}
	for _, x := range safeTypes {
		if name == x || strings.HasSuffix(x, ".") && strings.HasPrefix(name, x) {
			return false
		}
	}
	if o != nil && safeMethods[o.FullName()] {
		return false
	}
	pkg := ""
	if o != nil && o.Pkg() != nil {
		pkg = o.Pkg().Path()
	}
	if o != nil && isRecv {
		// a method: its own type decides
		n := named(t)
		if n != nil && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), modulePath) {
			return !types.IsInterface(t) // promoted from an embedded type
		}
		return true
	}
	switch x := t.Underlying().(type) {
	case *types.Basic, *types.Signature:
		return false
	case *types.Interface:
		if x.NumMethods() == 0 {
			return !readsOnly[pkg] && !marshals(o)
		}
	}
	if readsOnly[pkg] || marshals(o) {
		return false
	}
	return true
}

// fills: the library writes in the slice or the variable which it is given.
func fills(o *types.Func, t types.Type) bool {
	if o == nil || o.Pkg() == nil || o.Pkg().Path() == "sync/atomic" {
		return false
	}
	switch t.Underlying().(type) {
	case *types.Slice, *types.Pointer:
	default:
		return false
	}
	for _, x := range []string{"Read", "Put", "Append", "Encode", "Decode", "Expand", "Scan", "Sscan", "Fscan", "As", "CopyBuffer", "Unmarshal"} {
		if strings.HasPrefix(o.Name(), x) && !(x == "Encode" && marshals(o)) {
			return true
		}
	}
	return false
}

func marshals(o *types.Func) bool {
	if o == nil || o.Pkg() == nil {
		return false
	}
	switch o.FullName() {
	case "encoding/json.Marshal", "encoding/json.MarshalIndent", "(*encoding/json.Encoder).Encode", "github.com/antchfx/xpath.Compile":
		return true
	}
	return strings.HasPrefix(o.FullName(), "(*database/sql.") && o.Name() != "Scan" ||
		strings.HasPrefix(o.FullName(), "(encoding/binary.") && (o.Name() == "Uint64" || o.Name() == "Uint32" || o.Name() == "Uint16")
}

func (s *sharing) externalCall(site ssa.CallInstruction, o *types.Func, sig *types.Signature, args []ssa.Value) {
	in := site.(ssa.Instruction)
	fn := in.Parent()
	full := ""
	if o != nil {
		full = o.FullName()
	}
	if strings.HasPrefix(full, "(*sync.") && (strings.HasSuffix(full, "ock") || strings.Contains(full, "WaitGroup")) {
		return
	}
	e := s.obj(in)
	e.external = true
	hasRecv := sig.Recv() != nil || o != nil && o.Type().(*types.Signature).Recv() != nil
	for i, a := range args {
		agg := s.val(a)
		for _, set := range agg {
			for p := range set {
				s.give(fn, site, e, o, a, p, hasRecv && i == 0, 0)
			}
		}
	}
	v := site.Value()
	if v == nil {
		return
	}
	add := func(sub string, t types.Type) {
		if !holdsPointers(t, 0) {
			return
		}
		if aggType(t) && sub == "" {
			sub = "*"
		}
		res := e
		if !keepsArguments(o, t) {
			res = s.obj([2]interface{}{in, "value"})
			res.external = true
		}
		s.addTo(s.envOf(v), sub, shPtr{o: res})
	}
	res := sig.Results()
	if res.Len() == 1 {
		add("", res.At(0).Type())
	} else {
		for i := 0; i < res.Len(); i++ {
			add("#"+strconv.Itoa(i), res.At(i).Type())
		}
	}
}

// keepsArguments: what a library returns can lead back to what it was given.
func keepsArguments(o *types.Func, t types.Type) bool {
	if t.String() == "error" {
		return false
	}
	if sl, ok := t.Underlying().(*types.Slice); ok && !holdsPointers(sl.Elem(), 0) {
		return false
	}
	if o != nil {
		switch o.FullName() {
		case "(*github.com/antchfx/xpath.Expr).Evaluate", "(*github.com/antchfx/xpath.Expr).Select": // the query is copied for the iterator
			return false
		}
	}
	return true
}

// give: code outside of the repository receives p, may keep it, use it, and
// call its methods.
func (s *sharing) give(fn *ssa.Function, site ssa.CallInstruction, e *shObj, o *types.Func, arg ssa.Value, p shPtr, isRecv bool, depth int) {
	in := site.(ssa.Instruction)
	t := arg.Type()
	if mi, ok := arg.(*ssa.MakeInterface); ok {
		t = mi.X.Type()
	}
	if p.o.shared {
		if p.typ != nil {
			t = p.typ
		}
		k, owner := p.key, types.Type(nil)
		if k == "" {
			k, owner = s.place(arg, 0)
			k = "the object of " + k
		}
		if s.statefulUse(o, t, isRecv) {
			s.effect(fn, in, "use", arg, k, owner)
			p.key, p.typ = k, t
			s.addTo(s.heapOf(e), "*", p)
		}
		return
	}
	p.key = ""
	s.addTo(s.heapOf(e), "*", shPtr{o: p.o, path: p.path, typ: p.typ})
	if p.o.external && depth < 4 {
		for q := range s.heap[p.o]["*"] {
			if q.o.shared && q.key != "" {
				// the wrapped object is used through its wrapper
				s.effect(fn, in, "use", arg, strings.TrimSuffix(q.key, wrapped)+wrapped, nil)
				s.addTo(s.heapOf(e), "*", q)
			} else if q.o != e && q.typ != nil {
				s.give(fn, site, e, o, arg, q, false, depth+1)
			}
		}
	}
	if p.o.fn != nil && s.p.inRepo(p.o.fn) && p.o.fn.Blocks != nil {
		s.callback(site, e, p.o.fn, nil, false)
	}
	if p.typ != nil {
		if n := named(p.typ); n != nil && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), modulePath) {
			for _, m := range s.p.methodsOf(n) {
				if !token.IsExported(m.Name()) || !s.calledBack(arg, m.Name()) {
					continue
				}
				s.callback(site, e, m, []shPtr{p}, true)
			}
		}
	}
}

// calledBack: a library which is given this interface can call that method.
func (s *sharing) calledBack(arg ssa.Value, m string) bool {
	it, ok := arg.Type().Underlying().(*types.Interface)
	if !ok {
		return true
	}
	for i := 0; i < it.NumMethods(); i++ {
		if it.Method(i).Name() == m {
			return true
		}
	}
	if it.NumMethods() == 0 {
		switch m {
		case "Error", "String", "MarshalJSON", "UnmarshalJSON", "MarshalText", "UnmarshalText", "Scan", "Value", "Format", "GoString":
			return true
		}
	}
	return false
}

func (s *sharing) callback(site ssa.CallInstruction, e *shObj, f *ssa.Function, recv []shPtr, hasRecv bool) {
	in := site.(ssa.Instruction)
	s.reached(f, in)
	params := f.Params
	if hasRecv {
		for _, p := range recv {
			if aggType(params[0].Type()) {
				q := p
				q.typ = nil
				s.load(s.envOf(params[0]), "", q, params[0].Type())
			} else {
				p.typ = nil
				s.addTo(s.envOf(params[0]), "", p)
			}
		}
		params = params[1:]
	}
	for _, pa := range params {
		if holdsPointers(pa.Type(), 0) {
			sub := ""
			if aggType(pa.Type()) {
				sub = "*"
			}
			s.addTo(s.envOf(pa), sub, shPtr{o: e})
		}
	}
	if a := s.rets[f]; a != nil {
		for _, set := range a {
			for p := range set {
				if !p.o.shared {
					s.addTo(s.heapOf(e), "*", shPtr{o: p.o, path: p.path, typ: p.typ})
				}
			}
		}
	}
}
