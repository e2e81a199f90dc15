package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"hash/fnv"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The walker is a path-sensitive dataflow analysis over SSA ("property
// simulation"). The abstract state holds a value number (Term) for each live
// SSA value and known memory cell, the branch outcomes known for the live value
// numbers, and the typestate of the running check. Calls to functions of the
// repository are followed; every other call yields an opaque value number.
// Loop headers widen what changes from one iteration to the next, so that the
// exploration reaches a fixpoint: a state already seen at a program point is
// not explored again. There is no solver and nothing is executed.

// CallInfo describes one call event.
type CallInfo struct {
	instr  ssa.Instruction
	common *ssa.CallCommon
	kind   string        // call, defer (executed at the exit), go
	name   string        // canonical name of the callee, or "" when unknown
	fn     *ssa.Function // statically resolved callee
	method *types.Func   // interface method, when it could not be resolved
	callee *Term         // callee value for dynamic calls
	args   []*Term       // receiver first, variadic slice not expanded
	vargs  []*Term       // receiver first, variadic arguments expanded when known
	result *Term
	pos    token.Pos
	st     *State
}

func (c *CallInfo) arg(i int) *Term {
	if i < len(c.args) {
		return c.args[i]
	}
	return nil
}

// res is the i-th result of the call.
func (w *Walker) res(c *CallInfo, i int) *Term {
	if c.result == nil {
		return nil
	}
	sig := c.common.Signature()
	if sig.Results().Len() == 1 {
		return c.result
	}
	return w.tt.ext(c.result, i, sig.Results().At(i).Type())
}

type deferred struct {
	common *ssa.CallCommon
	instr  *ssa.Defer
	callee *Term
	args   []*Term
}

type headerInfo struct {
	phis map[*ssa.Phi]*Term
	heap map[*Term]*Term
}

type Frame struct {
	fn      *ssa.Function
	ctx     string
	block   *ssa.BasicBlock
	idx     int
	env     map[ssa.Value]*Term
	defers  []*deferred
	call    ssa.Instruction // call site in the caller, nil for an entry frame
	isDefer bool            // runs a deferred call of the frame below
	headers map[*ssa.BasicBlock]*headerInfo
}

type traceNode struct {
	prev *traceNode
	pos  token.Pos
	text string
}

type State struct {
	frames []*Frame
	heap   map[*Term]*Term
	facts  map[*Term]bool
	inst   map[string]*Term
	user   *User
	trace  *traceNode
	tag    string // label of the entry
}

// User is the typestate of a check.
type User struct {
	flags map[string]int
	terms map[string]*Term
	sets  map[string]map[*Term]string
}

func newUser() *User {
	return &User{flags: map[string]int{}, terms: map[string]*Term{}, sets: map[string]map[*Term]string{}}
}

func (u *User) clone() *User {
	n := newUser()
	for k, v := range u.flags {
		n.flags[k] = v
	}
	for k, v := range u.terms {
		n.terms[k] = v
	}
	for k, s := range u.sets {
		m := make(map[*Term]string, len(s))
		for t, v := range s {
			m[t] = v
		}
		n.sets[k] = m
	}
	return n
}

func (u *User) add(set string, t *Term, tag string) {
	if u.sets[set] == nil {
		u.sets[set] = map[*Term]string{}
	}
	u.sets[set][t] = tag
}

func (u *User) del(set string, t *Term) { delete(u.sets[set], t) }

func (u *User) has(set string, t *Term) (string, bool) {
	v, ok := u.sets[set][t]
	return v, ok
}

func (u *User) subst(f func(*Term) *Term) {
	for k, v := range u.terms {
		u.terms[k] = f(v)
	}
	for k, s := range u.sets {
		m := make(map[*Term]string, len(s))
		for t, v := range s {
			m[f(t)] = v
		}
		u.sets[k] = m
	}
}

func (u *User) key(b *strings.Builder) {
	var ks []string
	for k, v := range u.flags {
		if v != 0 {
			ks = append(ks, k+"="+strconv.Itoa(v))
		}
	}
	for k, v := range u.terms {
		if v != nil {
			ks = append(ks, k+"~"+strconv.Itoa(v.id))
		}
	}
	for k, s := range u.sets {
		for t, v := range s {
			ks = append(ks, k+"/"+strconv.Itoa(t.id)+"/"+v)
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		b.WriteString(k)
		b.WriteByte(';')
	}
}

// Hooks are the observation points of a check. All are optional.
type Hooks struct {
	// Before a call. Returning true replaces the call: nothing is inlined and
	// ci.result (when set) is its value.
	Before func(ci *CallInfo) bool
	// After an opaque call (or one replaced by Before).
	After func(ci *CallInfo)
	// Inline decides whether a resolved function of the repository is followed
	// (nil: yes).
	Inline func(st *State, fn *ssa.Function) bool
	// Enter and Leave frame the execution of an inlined function.
	Enter  func(st *State, fn *ssa.Function, args []*Term)
	Leave  func(st *State, fn *ssa.Function, ret []*Term)
	Store  func(st *State, in *ssa.Store, addr, val *Term)
	MapSet func(st *State, in *ssa.MapUpdate, m, k, v *Term)
	Send   func(st *State, in *ssa.Send, ch, v *Term)
	// Recv is called before a receive or a select.
	Recv func(st *State, in ssa.Instruction)
	// Deref is called before a load/field access through a pointer.
	Deref func(st *State, in ssa.Instruction, ptr *Term)
	// Index is called before an index operation.
	Index func(st *State, in ssa.Instruction, x, idx *Term)
	// MapKey is called before a map access with an interface key.
	MapKey func(st *State, in ssa.Instruction, m, key *Term)
	// Compare is called before a == between interfaces.
	Compare func(st *State, in ssa.Instruction, x, y *Term)
	// Assert is called before a type assertion without comma-ok.
	Assert func(st *State, in *ssa.TypeAssert, x *Term)
	Slice  func(st *State, in *ssa.Slice, x, lo, hi *Term)
	// Make is called before a slice is allocated.
	Make func(st *State, in *ssa.MakeSlice, ln, cp *Term)
	// Branch is called once the outcome of a condition is assumed.
	Branch func(st *State, in *ssa.If, cond *Term, taken bool)
	// Exit is called when the entry function returns. When it returns true
	// the hook has pushed another frame and the path goes on.
	Exit  func(st *State, fn *ssa.Function, ret []*Term) bool
	Panic func(st *State, in *ssa.Panic, v *Term)
}

type Walker struct {
	p        *Program
	tt       *termTable
	h        Hooks
	name     string
	maxDepth int
	budget   int
	steps    int
	states   int
	exits    int
	visited  map[string]bool
	work     []*State
	live     map[*ssa.Function]map[*ssa.BasicBlock]map[ssa.Value]bool
	fnSeen   map[*ssa.Function]bool
	reports  *Report
	overrun  bool
	callsN   int
	entry    string
	// loops over constants are followed up to this many iterations
	unroll int64
	// the fields which the functions that are not followed may change (nil:
	// all those of their receivers and arguments)
	mods  map[*ssa.Function]map[string]bool
	bound map[*ssa.Function]*Term
}

func newWalker(p *Program, r *Report, h Hooks) *Walker {
	return &Walker{
		p: p, tt: newTermTable(), h: h, maxDepth: 14, budget: 4000000,
		visited: map[string]bool{}, live: map[*ssa.Function]map[*ssa.BasicBlock]map[ssa.Value]bool{},
		fnSeen: map[*ssa.Function]bool{}, reports: r,
	}
}

// start explores fn from its entry with unconstrained parameters, except the
// ones the setup replaces.
func (w *Walker) start(fn *ssa.Function, setup func(st *State, args []*Term)) {
	st := &State{heap: map[*Term]*Term{}, facts: map[*Term]bool{}, inst: map[string]*Term{}, user: newUser()}
	args := make([]*Term, len(fn.Params))
	for i, p := range fn.Params {
		args[i] = w.param(p.Name(), p.Type())
	}
	w.entry = fnName(fn)
	if fn.Signature.Recv() != nil && len(args) > 0 {
		if _, ok := fn.Params[0].Type().Underlying().(*types.Pointer); ok {
			w.assume(st, w.nilEq(args[0]), false)
		}
	}
	if setup != nil {
		setup(st, args)
	}
	var free []*Term
	for _, fv := range fn.FreeVars {
		free = append(free, w.param("free:"+fv.Name(), fv.Type()))
	}
	w.push(st, fn, args, free, nil, false)
	w.explore(st)
}

// push adds a state to explore, used by the entry points and the forks.
func (w *Walker) explore(st *State) {
	w.work = append(w.work, st)
	for len(w.work) > 0 {
		s := w.work[len(w.work)-1]
		w.work = w.work[:len(w.work)-1]
		w.run(s)
		if w.steps > w.budget || len(w.tt.list) > 3000000 {
			w.overrun = true
			w.work = nil
			w.reports.undecided("budget", w.entry, token.NoPos, fmt.Sprintf("the exploration of %s does not converge within %d steps", w.entry, w.budget))
			return
		}
	}
}

func (w *Walker) param(name string, typ types.Type) *Term {
	return w.tt.mk("param", name, typ, nil)
}

func (w *Walker) push(st *State, fn *ssa.Function, args, free []*Term, call ssa.Instruction, isDefer bool) {
	ctx := ""
	if len(st.frames) > 0 {
		top := st.frames[len(st.frames)-1]
		if call != nil {
			ctx = hashCtx(top.ctx, top.fn, call, isDefer)
		} else {
			ctx = top.ctx
		}
	} else if call == nil {
		ctx = st.tag
	}
	f := &Frame{fn: fn, ctx: ctx, block: fn.Blocks[0], env: map[ssa.Value]*Term{}, call: call, isDefer: isDefer,
		headers: map[*ssa.BasicBlock]*headerInfo{}}
	for i, p := range fn.Params {
		if i < len(args) {
			f.env[p] = args[i]
		} else {
			f.env[p] = w.param("?"+p.Name(), p.Type())
		}
	}
	for i, fv := range fn.FreeVars {
		if i < len(free) {
			f.env[fv] = free[i]
		} else {
			f.env[fv] = w.param("?"+fv.Name(), fv.Type())
		}
	}
	st.frames = append(st.frames, f)
	w.fnSeen[fn] = true
	if w.h.Enter != nil {
		w.h.Enter(st, fn, args)
	}
}

func hashCtx(parent string, fn *ssa.Function, call ssa.Instruction, isDefer bool) string {
	h := fnv.New64a()
	fmt.Fprintf(h, "%s|%p|%p|%v", parent, fn, call, isDefer)
	return strconv.FormatUint(h.Sum64(), 36)
}

func (st *State) top() *Frame { return st.frames[len(st.frames)-1] }

func (st *State) clone() *State {
	n := &State{
		frames: make([]*Frame, len(st.frames)),
		heap:   make(map[*Term]*Term, len(st.heap)),
		facts:  make(map[*Term]bool, len(st.facts)),
		inst:   make(map[string]*Term, len(st.inst)),
		user:   st.user.clone(),
		trace:  st.trace,
		tag:    st.tag,
	}
	for i, f := range st.frames {
		g := *f
		g.env = make(map[ssa.Value]*Term, len(f.env))
		for k, v := range f.env {
			g.env[k] = v
		}
		g.defers = append([]*deferred{}, f.defers...)
		g.headers = make(map[*ssa.BasicBlock]*headerInfo, len(f.headers))
		for k, v := range f.headers {
			g.headers[k] = v
		}
		n.frames[i] = &g
	}
	for k, v := range st.heap {
		n.heap[k] = v
	}
	for k, v := range st.facts {
		n.facts[k] = v
	}
	for k, v := range st.inst {
		n.inst[k] = v
	}
	return n
}

func (st *State) note(pos token.Pos, format string, a ...interface{}) {
	st.trace = &traceNode{prev: st.trace, pos: pos, text: fmt.Sprintf(format, a...)}
}

// ---- values ----

func (w *Walker) val(st *State, v ssa.Value) *Term {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return w.tt.zero(x.Type())
		}
		return w.tt.constant(x)
	case *ssa.Global:
		return w.tt.mk("global", x.String(), x.Type(), nil)
	case *ssa.Function:
		return w.tt.mk("func", fnName(x), x.Type(), x)
	case *ssa.Builtin:
		return w.tt.mk("builtin", x.Name(), nil, nil)
	}
	f := st.top()
	if t, ok := f.env[v]; ok {
		return t
	}
	// Should not happen: treated as unknown.
	return w.tt.mk("opaque", "undef:"+f.fn.String()+":"+v.Name(), v.Type(), nil)
}

func (w *Walker) set(st *State, v ssa.Value, t *Term) { st.top().env[v] = t }

// fresh creates the instance term of a site, and renames the one of a former
// execution of the site.
func (w *Walker) fresh(st *State, op, site string, typ types.Type, args ...*Term) *Term {
	k := op + "|" + site
	if prev, ok := st.inst[k]; ok {
		o := w.tt.mk("old", site, prev.typ, nil)
		w.rename(st, prev, o)
		args2 := make([]*Term, len(args))
		for i, a := range args {
			args2[i] = w.tt.subst(a, map[*Term]*Term{prev: o}, map[*Term]*Term{})
		}
		args = args2
	}
	t := w.tt.mk(op, site, typ, nil, args...)
	st.inst[k] = t
	return t
}

func (w *Walker) rename(st *State, from, to *Term) {
	m := map[*Term]*Term{from: to}
	memo := map[*Term]*Term{}
	f := func(t *Term) *Term {
		if t == nil {
			return nil
		}
		return w.tt.subst(t, m, memo)
	}
	for _, fr := range st.frames {
		for k, v := range fr.env {
			fr.env[k] = f(v)
		}
		for i, d := range fr.defers {
			nd := *d
			nd.callee = f(d.callee)
			nd.args = make([]*Term, len(d.args))
			for j, a := range d.args {
				nd.args[j] = f(a)
			}
			fr.defers[i] = &nd
		}
		for b, h := range fr.headers {
			nh := &headerInfo{phis: map[*ssa.Phi]*Term{}, heap: map[*Term]*Term{}}
			for p, t := range h.phis {
				nh.phis[p] = f(t)
			}
			for a, t := range h.heap {
				nh.heap[f(a)] = f(t)
			}
			fr.headers[b] = nh
		}
	}
	heap := make(map[*Term]*Term, len(st.heap))
	for a, v := range st.heap {
		na := f(a)
		if na != a {
			continue // cells of a former instance are forgotten
		}
		heap[a] = f(v)
	}
	st.heap = heap
	facts := make(map[*Term]bool, len(st.facts))
	for t, v := range st.facts {
		if f(t) == t {
			facts[t] = v
		}
	}
	st.facts = facts
	for k, v := range st.inst {
		if v != from {
			st.inst[k] = f(v)
		}
	}
	st.user.subst(f)
}

func (w *Walker) siteID(st *State, in ssa.Instruction) string {
	f := st.top()
	name := ""
	switch x := in.(type) {
	case ssa.Value:
		name = x.Name()
		if c, ok := in.(*ssa.Call); ok {
			name = calleeLabel(&c.Call) + ":" + name
		} else if a, ok := in.(*ssa.Alloc); ok && a.Comment != "" {
			name = a.Comment + ":" + name
		}
	}
	return fmt.Sprintf("%s@%s.%d.%d/%s", strings.SplitN(name, ":", 2)[0], fnName(f.fn), in.Block().Index, instrIndex(in), f.ctx)
}

func instrIndex(in ssa.Instruction) int {
	for i, x := range in.Block().Instrs {
		if x == in {
			return i
		}
	}
	return -1
}

func calleeLabel(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return c.Method.Name()
	}
	if f := c.StaticCallee(); f != nil {
		return f.Name()
	}
	return c.Value.Name()
}

// ---- memory ----

func addrBase(a *Term) *Term {
	if a.op == "faddr" || a.op == "iaddr" {
		return a.args[0]
	}
	return nil
}

func under(a, root *Term) bool {
	for x := a; x != nil; x = addrBase(x) {
		if x == root {
			return true
		}
	}
	return false
}

func rootOf(a *Term) *Term {
	for {
		b := addrBase(a)
		if b == nil {
			return a
		}
		a = b
	}
}

func pointee(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return nil
}

func (w *Walker) load(st *State, addr *Term, typ types.Type) *Term {
	if v, ok := st.heap[addr]; ok && !w.hasSubCells(st, addr) {
		return v
	}
	if s, ok := typ.Underlying().(*types.Struct); ok && (w.hasSubCells(st, addr) || st.heap[addr] == nil && addr.op == "alloc") {
		args := make([]*Term, s.NumFields())
		for i := range args {
			args[i] = w.load(st, w.faddr(addr, s.Field(i).Name()), s.Field(i).Type())
		}
		return w.tt.mk("struct", typeKey(typ), typ, nil, args...)
	}
	switch addr.op {
	case "faddr":
		base := addr.args[0]
		if v, ok := st.heap[base]; ok {
			if s := structOf(v.typ); s != nil {
				for i := 0; i < s.NumFields(); i++ {
					if s.Field(i).Name() == addr.aux {
						return w.tt.fld(v, s, i)
					}
				}
			}
			return w.tt.mk("fld", addr.aux, typ, nil, v)
		}
		// a cell within a whole value further up
		for b := addrBase(base); b != nil; b = addrBase(b) {
			if _, ok := st.heap[b]; ok {
				return w.tt.mk("fld", addr.aux, typ, nil, w.load(st, base, types.Typ[types.Invalid]))
			}
		}
		if rootOf(addr).op == "alloc" {
			return w.tt.zero(typ)
		}
	case "iaddr":
		base := addr.args[0]
		if v, ok := st.heap[base]; ok {
			return w.tt.mk("idx", "", typ, nil, v, addr.args[1])
		}
		if rootOf(addr).op == "alloc" {
			if addr.args[1].isConst() && !w.nonConstIndexStored(st, base) {
				return w.tt.zero(typ)
			}
		}
	case "alloc":
		return w.tt.zero(typ)
	}
	return w.tt.mk("ld", "", typ, nil, addr)
}

func structOf(t types.Type) *types.Struct {
	if t == nil {
		return nil
	}
	s, _ := t.Underlying().(*types.Struct)
	return s
}

func (w *Walker) hasSubCells(st *State, addr *Term) bool {
	for a := range st.heap {
		if a != addr && under(a, addr) {
			return true
		}
	}
	return false
}

func (w *Walker) nonConstIndexStored(st *State, base *Term) bool {
	for a := range st.heap {
		if a.op == "iaddr" && a.args[0] == base && !a.args[1].isConst() {
			return true
		}
	}
	return false
}

func (w *Walker) faddr(base *Term, field string) *Term {
	return w.tt.mk("faddr", field, nil, nil, base)
}

func (w *Walker) store(st *State, addr, val *Term) {
	for a := range st.heap {
		if a != addr && under(a, addr) {
			delete(st.heap, a)
		}
	}
	if addr.op == "iaddr" && !addr.args[1].isConst() {
		// may be any element: the known ones are not known anymore
		for a := range st.heap {
			if a.op == "iaddr" && a.args[0] == addr.args[0] && a != addr {
				delete(st.heap, a)
			}
		}
	}
	if addr.op == "iaddr" && addr.args[1].isConst() {
		for a := range st.heap {
			if a.op == "iaddr" && a.args[0] == addr.args[0] && !a.args[1].isConst() {
				delete(st.heap, a)
			}
		}
	}
	// facts about the former contents
	ld := w.tt.mk("ld", "", nil, nil, addr)
	if rootOf(addr).op != "alloc" {
		for f := range st.facts {
			if f.contains(ld) {
				// they speak about the initial contents, which stay what they were
				_ = f
			}
		}
	}
	st.heap[addr] = val
}

// havoc forgets what an unknown callee may have written through the given
// address.
func (w *Walker) havoc(st *State, in ssa.Instruction, n int, root *Term, typ types.Type) {
	for a := range st.heap {
		if under(a, root) {
			delete(st.heap, a)
		}
	}
	site := w.siteID(st, in) + "#h" + strconv.Itoa(n)
	st.heap[root] = w.fresh(st, "opaque", site, typ)
}

// ---- facts ----

func (w *Walker) eq(a, b *Term) *Term { return w.tt.bin(token.EQL, a, b, types.Typ[types.Bool]) }
func (w *Walker) nilEq(a *Term) *Term { return w.eq(a, w.tt.nilc()) }

var nonNilPure = map[string]bool{
	"errors.New": true, "fmt.Errorf": true, "os.NewFile": true,
}

// isNil tells whether t is known to be nil.
func (w *Walker) isNil(st *State, t *Term) (isnil, known bool) { return w.isNilD(st, t, 0) }

func (w *Walker) isNilD(st *State, t *Term, depth int) (isnil, known bool) {
	if depth > 3 {
		return false, false
	}
	switch t.op {
	case "nil":
		return true, true
	case "alloc", "mk", "closure", "func", "faddr", "iaddr", "global", "append", "const", "struct":
		if t.op == "append" {
			return false, false
		}
		return false, true
	case "iface":
		return false, true
	case "pure":
		if nonNilPure[t.aux] {
			return false, true
		}
	case "ld":
		if t.args[0].op == "global" && isErrorVar(t) {
			return false, true
		}
	case "slice":
		return w.isNilD(st, t.args[0], depth)
	case "conv":
		return w.isNilD(st, t.args[0], depth)
	}
	if v, ok := st.facts[w.rawNilEq(t)]; ok {
		return v, true
	}
	for f, v := range st.facts {
		if !v {
			continue
		}
		switch {
		case f.op == "bin" && f.aux == "==" && (f.args[0] == t || f.args[1] == t):
			o := f.args[0]
			if o == t {
				o = f.args[1]
			}
			if o.op == "nil" {
				continue
			}
			if o.op != "ld" && o.op != "iface" && o.op != "pure" && o.op != "alloc" {
				continue
			}
			if n, k := w.isNilD(st, o, depth+1); k && !n {
				return false, true
			}
		case f.op == "taok" && f.args[0] == t:
			return false, true
		case f.op == "pure" && len(f.args) > 0 && f.args[0] == t:
			switch f.aux {
			case "errors.Is", "errors.As", "os.IsNotExist", "os.IsExist", "os.IsPermission", "os.IsTimeout":
				return false, true
			}
		}
	}
	return false, false
}

func (w *Walker) rawNilEq(t *Term) *Term {
	return w.tt.mk("bin", "==", types.Typ[types.Bool], nil, t, w.tt.nilc())
}

func isErrorVar(t *Term) bool {
	// Package level error variables are assigned once and never nil.
	return t.typ != nil && types.Identical(t.typ, types.Universe.Lookup("error").Type())
}

func isUnsigned(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

// bounds gives the known integer interval of t.
func (w *Walker) bounds(st *State, t *Term, depth int) (lo, hi *int64) {
	if v, ok := t.intVal(); ok {
		return &v, &v
	}
	zero := int64(0)
	up := func(n int64) {
		if hi == nil || n < *hi {
			hi = &n
		}
	}
	low := func(n int64) {
		if lo == nil || n > *lo {
			lo = &n
		}
	}
	if t.op == "len" || t.op == "cap" || isUnsigned(t.typ) {
		lo = &zero
	}
	if t.op == "conv" && depth < 4 && isInt(t.typ) && isInt(t.args[0].typ) {
		l, h := w.bounds(st, t.args[0], depth+1)
		if l != nil && *l >= 0 {
			low(*l)
			if h != nil {
				up(*h)
			}
		} else if l != nil && !isUnsigned(t.typ) {
			low(*l)
		}
	}
	if t.op == "bin" && t.aux == "+" && depth < 4 {
		if k, ok := t.args[1].intVal(); ok {
			l, h := w.bounds(st, t.args[0], depth+1)
			if l != nil {
				low(*l + k)
			}
			if h != nil {
				up(*h + k)
			}
		}
	}
	for f, v := range st.facts {
		if f.op != "bin" {
			continue
		}
		switch f.aux {
		case "<":
			if f.args[0] == t {
				if c, ok := f.args[1].intVal(); ok {
					if v {
						up(c - 1)
					} else {
						low(c)
					}
				} else if depth < 3 && !f.args[1].contains(t) {
					l, h := w.bounds(st, f.args[1], depth+2)
					if v && h != nil {
						up(*h - 1)
					} else if !v && l != nil {
						low(*l)
					}
				}
			} else if f.args[1] == t {
				if c, ok := f.args[0].intVal(); ok {
					if v {
						low(c + 1)
					} else {
						up(c)
					}
				} else if depth < 3 && !f.args[0].contains(t) {
					l, h := w.bounds(st, f.args[0], depth+2)
					if v && l != nil {
						low(*l + 1)
					} else if !v && h != nil {
						up(*h)
					}
				}
			}
		case "==":
			var o *Term
			if f.args[0] == t {
				o = f.args[1]
			} else if f.args[1] == t {
				o = f.args[0]
			}
			if o == nil {
				continue
			}
			if c, ok := o.intVal(); ok {
				if v {
					low(c)
					up(c)
				}
			}
		}
	}
	// a value different from its bound
	var others []int64
	for f, v := range st.facts {
		if v || f.op != "bin" || f.aux != "==" {
			continue
		}
		var o *Term
		if f.args[0] == t {
			o = f.args[1]
		} else if f.args[1] == t {
			o = f.args[0]
		}
		if o == nil {
			continue
		}
		if c, ok := o.intVal(); ok {
			others = append(others, c)
		}
	}
	for again := true; again; {
		again = false
		for _, c := range others {
			if lo != nil && *lo == c {
				n := c + 1
				lo = &n
				again = true
			}
			if hi != nil && *hi == c {
				n := c - 1
				hi = &n
				again = true
			}
		}
	}
	return lo, hi
}

func isInt(t types.Type) bool {
	if t == nil {
		return true
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// truth evaluates a boolean term.
func (w *Walker) truth(st *State, t *Term) (val, known bool) {
	if v, ok := t.boolVal(); ok {
		return v, true
	}
	if t.op == "un" && t.aux == "!" {
		v, k := w.truth(st, t.args[0])
		return !v, k
	}
	if v, ok := st.facts[t]; ok {
		return v, true
	}
	switch t.op {
	case "bin":
		a, b := t.args[0], t.args[1]
		switch t.aux {
		case "==":
			if b.op == "nil" {
				if n, k := w.isNil(st, a); k {
					return n, true
				}
				return false, false
			}
			if a.op == "nil" {
				if n, k := w.isNil(st, b); k {
					return n, true
				}
				return false, false
			}
			if a == b && !a.any(func(x *Term) bool { return x.op == "old" }) {
				return true, true
			}
			if n, k := w.isNil(st, a); k && n {
				if m, k2 := w.isNil(st, b); k2 {
					return m, true
				}
			}
			if n, k := w.isNil(st, b); k && n {
				if m, k2 := w.isNil(st, a); k2 {
					return m, true
				}
			}
			ca, cb := w.constOf(st, a), w.constOf(st, b)
			if ca != nil && cb != nil {
				if ca.op == "const" && cb.op == "const" && ca.cval != nil && cb.cval != nil && ca.cval.Kind() == cb.cval.Kind() {
					return constant.Compare(ca.cval, token.EQL, cb.cval), true
				}
			}
			if a.op == "iface" && b.op == "iface" && !types.Identical(a.typ, b.typ) {
				return false, true
			}
			if a.op == "iface" && b.op == "iface" {
				return w.truth(st, w.eq(a.args[0], b.args[0]))
			}
			if isInt(a.typ) && isInt(b.typ) {
				la, ha := w.bounds(st, a, 0)
				lb, hb := w.bounds(st, b, 0)
				if ha != nil && lb != nil && *ha < *lb || hb != nil && la != nil && *hb < *la {
					return false, true
				}
				if la != nil && ha != nil && lb != nil && hb != nil && *la == *ha && *lb == *hb && *la == *lb {
					return true, true
				}
			}
			if v, ok := st.facts[w.tt.mk("bin", "<", nil, nil, a, b)]; ok && v {
				return false, true
			}
			if v, ok := st.facts[w.tt.mk("bin", "<", nil, nil, b, a)]; ok && v {
				return false, true
			}
			v1, ok1 := st.facts[w.tt.mk("bin", "<", nil, nil, a, b)]
			v2, ok2 := st.facts[w.tt.mk("bin", "<", nil, nil, b, a)]
			if ok1 && ok2 && !v1 && !v2 && isInt(a.typ) && isInt(b.typ) {
				return true, true
			}
		case "<":
			if a == b {
				return false, true
			}
			if v, ok := st.facts[w.tt.mk("bin", "<", nil, nil, b, a)]; ok && v {
				return false, true
			}
			if v, ok := st.facts[w.eq(a, b)]; ok && v {
				return false, true
			}
			if isInt(a.typ) && isInt(b.typ) {
				la, ha := w.bounds(st, a, 0)
				lb, hb := w.bounds(st, b, 0)
				if ha != nil && lb != nil && *ha < *lb {
					return true, true
				}
				if la != nil && hb != nil && *la >= *hb {
					return false, true
				}
				// a + k compared with a
				if b.op == "bin" && b.aux == "+" && b.args[0] == a {
					if k, ok := b.args[1].intVal(); ok {
						return k > 0, true
					}
				}
				if a.op == "bin" && a.aux == "+" && a.args[0] == b {
					if k, ok := a.args[1].intVal(); ok {
						return k < 0, true
					}
				}
			}
		}
	case "taok":
		x := t.args[0]
		if n, k := w.isNil(st, x); k && n {
			return false, true
		}
		if x.op == "iface" {
			if types.IsInterface(t.typ) {
				return types.Implements(x.typ, t.typ.Underlying().(*types.Interface)), true
			}
			return types.Identical(x.typ, t.typ), true
		}
		if !types.IsInterface(t.typ) {
			for f, v := range st.facts {
				if v && f.op == "taok" && f.args[0] == x && !types.IsInterface(f.typ) {
					return types.Identical(f.typ, t.typ), true
				}
			}
		}
	case "pure":
		switch t.aux {
		case "errors.Is":
			if n, k := w.isNil(st, t.args[0]); k && n {
				return false, true
			}
			if t.args[0] == t.args[1] {
				return true, true
			}
			if v, ok := st.facts[w.eq(t.args[0], t.args[1])]; ok && v {
				return true, true
			}
		case "os.IsNotExist", "os.IsExist", "os.IsPermission", "errors.As":
			if n, k := w.isNil(st, t.args[0]); k && n {
				return false, true
			}
		}
	}
	return false, false
}

// constOf is the constant t is known to be equal to.
func (w *Walker) constOf(st *State, t *Term) *Term {
	if t.op == "const" {
		return t
	}
	for f, v := range st.facts {
		if v && f.op == "bin" && f.aux == "==" {
			if f.args[0] == t && f.args[1].op == "const" {
				return f.args[1]
			}
			if f.args[1] == t && f.args[0].op == "const" {
				return f.args[0]
			}
		}
	}
	return nil
}

// assume records the outcome of a condition; false when it is contradictory.
func (w *Walker) assume(st *State, t *Term, val bool) bool {
	for t.op == "un" && t.aux == "!" {
		t, val = t.args[0], !val
	}
	if v, k := w.truth(st, t); k {
		return v == val
	}
	st.facts[t] = val
	return true
}

// ---- main loop ----

func (w *Walker) run(st *State) {
	for {
		if w.steps > w.budget || len(w.tt.list) > 3000000 || st.user.flags["__stop"] != 0 {
			return
		}
		f := st.top()
		if f.idx >= len(f.block.Instrs) {
			return
		}
		in := f.block.Instrs[f.idx]
		w.steps++
		switch x := in.(type) {
		case *ssa.If:
			cond := w.val(st, x.Cond)
			if v, k := w.truth(st, cond); k {
				succ := 1
				if v {
					succ = 0
				}
				if w.h.Branch != nil {
					w.h.Branch(st, x, cond, v)
				}
				if !w.enter(st, f.block, f.block.Succs[succ]) {
					return
				}
				continue
			}
			other := st.clone()
			if w.assume(other, cond, false) {
				other.note(condPos(x), "%s is false", cond)
				if w.h.Branch != nil {
					w.h.Branch(other, x, cond, false)
				}
				if w.enter(other, f.block, f.block.Succs[1]) {
					w.work = append(w.work, other)
				}
			}
			if !w.assume(st, cond, true) {
				return
			}
			st.note(condPos(x), "%s is true", cond)
			if w.h.Branch != nil {
				w.h.Branch(st, x, cond, true)
			}
			if !w.enter(st, f.block, f.block.Succs[0]) {
				return
			}
		case *ssa.Jump:
			if !w.enter(st, f.block, f.block.Succs[0]) {
				return
			}
		case *ssa.Return:
			ret := make([]*Term, len(x.Results))
			for i, r := range x.Results {
				ret[i] = w.val(st, r)
			}
			if !w.doReturn(st, ret) {
				return
			}
		case *ssa.Panic:
			if w.h.Panic != nil {
				w.h.Panic(st, x, w.val(st, x.X))
			}
			return
		case *ssa.RunDefers:
			if n := len(f.defers); n > 0 {
				d := f.defers[n-1]
				f.defers = f.defers[:n-1]
				// come back to this instruction afterwards
				w.doCall(st, d.instr, d.common, "defer", d.callee, d.args, nil)
				continue
			}
			f.idx++
		case *ssa.Call:
			f.idx++
			callee, args := w.callOperands(st, &x.Call)
			w.doCall(st, x, &x.Call, "call", callee, args, x)
			// the path may be finished by the callee
			if len(st.frames) == 0 {
				return
			}
		case *ssa.Defer:
			callee, args := w.callOperands(st, &x.Call)
			f.defers = append(f.defers, &deferred{common: &x.Call, instr: x, callee: callee, args: args})
			f.idx++
		case *ssa.Go:
			f.idx++
			callee, args := w.callOperands(st, &x.Call)
			w.goCall(st, x, callee, args)
		default:
			f.idx++
			w.exec(st, in)
		}
		if st.user.flags["__stop"] != 0 {
			return
		}
	}
}

func condPos(x *ssa.If) token.Pos {
	if v, ok := x.Cond.(ssa.Instruction); ok && v.Pos().IsValid() {
		return v.Pos()
	}
	if u, ok := x.Cond.(*ssa.UnOp); ok {
		return u.X.Pos()
	}
	return x.Cond.Pos()
}

func (w *Walker) callOperands(st *State, c *ssa.CallCommon) (*Term, []*Term) {
	callee := w.val(st, c.Value)
	var args []*Term
	if c.IsInvoke() {
		args = append(args, callee)
	}
	for _, a := range c.Args {
		args = append(args, w.val(st, a))
	}
	return callee, args
}

// enter moves to another block; false when the state was already explored.
func (w *Walker) enter(st *State, from, to *ssa.BasicBlock) bool {
	f := st.top()
	pred := -1
	for i, p := range to.Preds {
		if p == from {
			pred = i
		}
	}
	// two edges from the same block to this one: the phi values are the same
	// unless the condition is the phi itself, which SSA construction avoids
	var phis []*ssa.Phi
	var vals []*Term
	for _, in := range to.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
		vals = append(vals, w.val(st, p.Edges[pred]))
	}
	if from.Index == to.Index || to.Dominates(from) {
		// back edge: widening
		h := f.headers[to]
		if h != nil {
			for i, p := range phis {
				cur := h.phis[p]
				if cur == nil || vals[i] == cur {
					continue
				}
				if w.mustWiden(cur, vals[i]) && !w.unrolled(f, to, vals[i]) {
					var lb *int64
					if isInt(p.Type()) {
						if vals[i].op == "bin" && vals[i].aux == "+" && vals[i].args[0] == cur || vals[i].isConst() && cur.isConst() {
							l1, _ := w.bounds(st, cur, 0)
							l2, _ := w.bounds(st, vals[i], 0)
							if l1 != nil && l2 != nil && *l1 <= *l2 {
								v := *l1
								lb = &v
							}
						}
					}
					nt := w.fresh(st, "opaque", fmt.Sprintf("%s@phi:%s.%d/%s", phiName(p), fnName(f.fn), to.Index, f.ctx), p.Type())
					// the other pending values may have been renamed
					for j := i + 1; j < len(phis); j++ {
						vals[j] = w.val(st, phis[j].Edges[pred])
					}
					vals[i] = nt
					h = f.headers[to]
					if lb != nil {
						w.assume(st, w.tt.bin(token.LSS, nt, w.tt.intc(*lb), nil), false)
					}
				}
			}
			for a, v := range st.heap {
				old, ok := h.heap[a]
				if !ok || old == v {
					continue
				}
				if w.mustWiden(old, v) && !w.unrolled(f, to, v) {
					st.heap[a] = w.fresh(st, "opaque", fmt.Sprintf("cell@%s.%d/%s:%d", fnName(f.fn), to.Index, f.ctx, a.id), v.typ)
					h = f.headers[to]
				}
			}
		}
	} else if _, again := f.headers[to]; again {
		delete(f.headers, to)
	}
	for i, p := range phis {
		f.env[p] = vals[i]
	}
	f.block = to
	f.idx = len(phis)
	if isHeader(to) {
		h := &headerInfo{phis: map[*ssa.Phi]*Term{}, heap: map[*Term]*Term{}}
		for i, p := range phis {
			h.phis[p] = vals[i]
		}
		for a, v := range st.heap {
			h.heap[a] = v
		}
		f.headers[to] = h
	}
	w.prune(st)
	if len(to.Preds) > 1 {
		k := w.key(st)
		if w.visited[k] {
			return false
		}
		w.visited[k] = true
		w.states++
	}
	return true
}

func phiName(p *ssa.Phi) string {
	if p.Comment != "" {
		return p.Comment + "_" + p.Name()
	}
	return p.Name()
}

func isHeader(b *ssa.BasicBlock) bool {
	for _, p := range b.Preds {
		if b == p || b.Dominates(p) {
			return true
		}
	}
	return false
}

// unrolled: the value counts the iterations of a loop with a known bound.
func (w *Walker) unrolled(f *Frame, header *ssa.BasicBlock, t *Term) bool {
	if w.unroll == 0 {
		return false
	}
	n, ok := t.intVal()
	if !ok || n < 0 || n > w.unroll {
		return false
	}
	x, ok := header.Instrs[len(header.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	cond, ok := x.Cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	for _, v := range []ssa.Value{cond.X, cond.Y} {
		if _, ok := v.(*ssa.Const); ok {
			return true
		}
		if t := f.env[v]; t != nil && v.Parent() == f.fn && t.isConst() {
			if in, ok := v.(ssa.Instruction); ok && in.Block() != header {
				return true
			}
		}
	}
	return false
}

func (w *Walker) mustWiden(old, new *Term) bool {
	if new.isConst() {
		// other constants than integers belong to a finite set
		return new.cval.Kind() == constant.Int && isIntTerm(new)
	}
	if new.op == "nil" || new.op == "struct" && len(new.args) == 0 {
		return false
	}
	if base := offsetOf(old); base != nil && offsetOf(new) == base {
		// another distance from the same value
		return true
	}
	return new.contains(old) && !isLeafConst(old) || new.size() > 60 || new.op == "opaque" && strings.Contains(new.aux, "@phi:")
}

// offsetOf: the value a constant was added to.
func offsetOf(t *Term) *Term {
	if t.op == "bin" && t.aux == "+" && t.args[1].isConst() {
		return t.args[0]
	}
	return nil
}

func isIntTerm(t *Term) bool { return true }

func isLeafConst(t *Term) bool {
	return t.op == "const" && t.cval.Kind() != constant.Int || t.op == "nil"
}

func (w *Walker) doReturn(st *State, ret []*Term) bool {
	f := st.top()
	if w.h.Leave != nil {
		w.h.Leave(st, f.fn, ret)
	}
	st.frames = st.frames[:len(st.frames)-1]
	if f.call == nil {
		w.exits++
		if w.h.Exit != nil {
			return w.h.Exit(st, f.fn, ret)
		}
		return false
	}
	if f.isDefer {
		return true
	}
	caller := st.top()
	if v, ok := f.call.(ssa.Value); ok {
		switch len(ret) {
		case 0:
		case 1:
			caller.env[v] = ret[0]
		default:
			caller.env[v] = w.tt.mk("tuple", "", nil, nil, ret...)
		}
	}
	return true
}

// ---- state key ----

func (w *Walker) prune(st *State) {
	for i, f := range st.frames {
		lv := w.liveAt(f, i == len(st.frames)-1)
		for v := range f.env {
			if !lv[v] {
				delete(f.env, v)
			}
		}
	}
	// terms reachable from the live values
	seen := map[*Term]bool{}
	var mark func(t *Term)
	mark = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.args {
			mark(a)
		}
	}
	for _, f := range st.frames {
		for _, t := range f.env {
			mark(t)
		}
		for _, d := range f.defers {
			mark(d.callee)
			for _, a := range d.args {
				mark(a)
			}
		}
	}
	for _, t := range st.user.terms {
		mark(t)
	}
	for _, s := range st.user.sets {
		for t := range s {
			mark(t)
		}
	}
	for changed := true; changed; {
		changed = false
		for a, v := range st.heap {
			if seen[v] && seen[a] {
				continue
			}
			r := rootOf(a)
			if seen[r] || !r.any(func(x *Term) bool { return x.isInstance() && !seen[x] }) {
				if !seen[v] || !seen[a] {
					mark(v)
					mark(a)
					changed = true
				}
			}
		}
	}
	for a := range st.heap {
		if !seen[a] {
			delete(st.heap, a)
		}
	}
	for t := range st.facts {
		if t.any(func(x *Term) bool { return (x.isInstance() || x.op == "old") && !seen[x] }) {
			delete(st.facts, t)
		}
	}
	for k, t := range st.inst {
		if !seen[t] {
			delete(st.inst, k)
		}
	}
}

func (w *Walker) key(st *State) string {
	var b strings.Builder
	for _, f := range st.frames {
		fmt.Fprintf(&b, "F%p.%s.%d.%d[", f.fn, f.ctx, f.block.Index, f.idx)
		ks := make([]string, 0, len(f.env))
		for v, t := range f.env {
			ks = append(ks, v.Name()+"="+strconv.Itoa(t.id))
		}
		sort.Strings(ks)
		b.WriteString(strings.Join(ks, ","))
		for _, d := range f.defers {
			fmt.Fprintf(&b, "D%p", d.instr)
			for _, a := range d.args {
				fmt.Fprintf(&b, ".%d", a.id)
			}
			if d.callee != nil {
				fmt.Fprintf(&b, "!%d", d.callee.id)
			}
		}
		b.WriteString("]")
	}
	hs := make([]string, 0, len(st.heap)+len(st.facts))
	for a, v := range st.heap {
		hs = append(hs, strconv.Itoa(a.id)+">"+strconv.Itoa(v.id))
	}
	for t, v := range st.facts {
		hs = append(hs, strconv.Itoa(t.id)+"?"+strconv.FormatBool(v))
	}
	sort.Strings(hs)
	b.WriteString(strings.Join(hs, ","))
	b.WriteString("|")
	st.user.key(&b)
	return b.String()
}

// liveAt gives the SSA values a frame may still read.
func (w *Walker) liveAt(f *Frame, top bool) map[ssa.Value]bool {
	li, ok := w.live[f.fn]
	if !ok {
		li = liveness(f.fn)
		w.live[f.fn] = li
	}
	out := map[ssa.Value]bool{}
	for _, s := range f.block.Succs {
		for v := range li[s] {
			out[v] = true
		}
		for _, in := range s.Instrs {
			p, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			for i, e := range p.Edges {
				if s.Preds[i] == f.block {
					out[e] = true
				}
			}
		}
	}
	for i := len(f.block.Instrs) - 1; i >= f.idx; i-- {
		in := f.block.Instrs[i]
		if v, ok := in.(ssa.Value); ok {
			delete(out, v)
		}
		if _, ok := in.(*ssa.Phi); ok {
			continue
		}
		for _, op := range in.Operands(nil) {
			if *op != nil {
				out[*op] = true
			}
		}
	}
	return out
}

func liveness(fn *ssa.Function) map[*ssa.BasicBlock]map[ssa.Value]bool {
	in := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	for _, b := range fn.Blocks {
		in[b] = map[ssa.Value]bool{}
	}
	for changed := true; changed; {
		changed = false
		for i := len(fn.Blocks) - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			cur := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				for v := range in[s] {
					cur[v] = true
				}
				for _, ins := range s.Instrs {
					p, ok := ins.(*ssa.Phi)
					if !ok {
						break
					}
					for k, e := range p.Edges {
						if s.Preds[k] == b {
							cur[e] = true
						}
					}
				}
			}
			for k := len(b.Instrs) - 1; k >= 0; k-- {
				ins := b.Instrs[k]
				if v, ok := ins.(ssa.Value); ok {
					delete(cur, v)
				}
				if _, ok := ins.(*ssa.Phi); ok {
					continue
				}
				for _, op := range ins.Operands(nil) {
					if *op != nil {
						cur[*op] = true
					}
				}
			}
			// phis are defined at the beginning
			for v := range cur {
				if !in[b][v] {
					in[b][v] = true
					changed = true
				}
			}
		}
	}
	return in
}

func fnName(fn *ssa.Function) string {
	if fn == nil {
		return "?"
	}
	if o := fn.Object(); o != nil {
		return shortName(o.(*types.Func).FullName())
	}
	if fn.Parent() != nil {
		return fnName(fn.Parent()) + strings.TrimPrefix(fn.Name(), fn.Parent().Name())
	}
	return shortName(fn.String())
}

func shortName(s string) string {
	s = strings.ReplaceAll(s, modulePath+"/pkg/", "")
	return strings.ReplaceAll(s, modulePath+"/", "")
}
