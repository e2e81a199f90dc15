package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C05", checkShared) }

// heldLock is a lock held at a point: which mutex, of which object.
type heldLock struct {
	id    string // type and field of the mutex
	owner types.Type
	base  string // the object it belongs to, as named in its function
	fn    *ssa.Function
	write bool
}

type lockSet map[heldLock]bool

func meet(a, b lockSet) lockSet {
	out := lockSet{}
	for l := range a {
		if b[l] {
			out[l] = true
		}
	}
	return out
}

func sameLocks(a, b lockSet) bool {
	if len(a) != len(b) {
		return false
	}
	for l := range a {
		if !b[l] {
			return false
		}
	}
	return true
}

// baseName names an object inside of a function, the same way wherever it is
// loaded from the same place.
func baseName(v ssa.Value, depth int) string {
	if depth > 8 {
		return "?"
	}
	switch x := v.(type) {
	case *ssa.Parameter, *ssa.FreeVar:
		return x.Name()
	case *ssa.FieldAddr:
		return baseName(x.X, depth+1) + "." + fieldName(x)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return baseName(x.X, depth+1)
		}
	case *ssa.Alloc:
		// a parameter which was moved to the heap
		var st *ssa.Store
		n := 0
		for _, ref := range *x.Referrers() {
			if s, ok := ref.(*ssa.Store); ok && s.Addr == x {
				st, n = s, n+1
			}
		}
		if n == 1 {
			return baseName(st.Val, depth+1)
		}
	case *ssa.Global:
		return x.String()
	}
	return v.Name()
}

// guards computes which locks are held, at each call and access.
type guards struct {
	s     *sharing
	entry map[*ssa.Function]lockSet
	at    map[ssa.Instruction]lockSet
	gains map[*ssa.Function]lockSet  // held at the return, taken inside
	drops map[*ssa.Function][]string // released inside, without being taken
}

func lockCallee(c *ssa.CallCommon) string {
	var o types.Object
	if c.IsInvoke() {
		o = c.Method
	} else if f := c.StaticCallee(); f != nil {
		o = f.Object()
	}
	f, _ := o.(*types.Func)
	if f == nil {
		return ""
	}
	return f.FullName()
}

func (g *guards) lockOf(fn *ssa.Function, v ssa.Value, write bool) (heldLock, bool) {
	l := heldLock{fn: fn, write: write}
	shared := false
	for _, p := range g.s.ptrs(v) {
		if !p.o.shared {
			return l, false // the lock of an object of the request protects nothing
		}
		shared = true
	}
	if !shared {
		return l, false
	}
	l.id, l.owner = g.s.place(v, 0)
	x := v
	if u, ok := x.(*ssa.UnOp); ok && u.Op == token.MUL {
		x = u.X
	}
	if fa, ok := x.(*ssa.FieldAddr); ok {
		l.base = baseName(fa.X, 0)
	} else {
		l.base = baseName(x, 0)
	}
	return l, true
}

func (g *guards) flow(fn *ssa.Function) bool {
	changed := false
	in := map[*ssa.BasicBlock]lockSet{}
	var deferred []string
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if d, ok := i.(*ssa.Defer); ok {
				if strings.HasPrefix(lockCallee(&d.Call), "(*sync.") && strings.HasSuffix(lockCallee(&d.Call), "nlock") && len(d.Call.Args) > 0 {
					id, _ := g.s.place(d.Call.Args[0], 0)
					deferred = append(deferred, id)
				}
			}
		}
	}
	in[fn.Blocks[0]] = g.entry[fn]
	work := []*ssa.BasicBlock{fn.Blocks[0]}
	var exit lockSet
	dropped := map[string]bool{}
	for len(work) > 0 {
		b := work[0]
		work = work[1:]
		cur := lockSet{}
		for l := range in[b] {
			cur[l] = true
		}
		for _, i := range b.Instrs {
			cp := lockSet{}
			for l := range cur {
				cp[l] = true
			}
			if old, ok := g.at[i]; !ok || !sameLocks(old, cp) {
				g.at[i] = cp
				changed = true
			}
			switch x := i.(type) {
			case *ssa.Return:
				if exit == nil {
					exit = cp
				} else {
					exit = meet(exit, cp)
				}
			case *ssa.Call:
				name := lockCallee(&x.Call)
				arg := func() ssa.Value {
					if x.Call.IsInvoke() {
						return x.Call.Value
					}
					return x.Call.Args[0]
				}
				switch name {
				case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(sync.Locker).Lock":
					if l, ok := g.lockOf(fn, arg(), true); ok {
						cur[l] = true
					}
				case "(*sync.RWMutex).RLock":
					if l, ok := g.lockOf(fn, arg(), false); ok {
						cur[l] = true
					}
				case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RUnlock", "(sync.Locker).Unlock":
					id, _ := g.s.place(arg(), 0)
					had := false
					for l := range cur {
						if l.id == id {
							delete(cur, l)
							had = true
						}
					}
					if !had {
						dropped[id] = true
					}
				default:
					for c := range g.s.siteOf[i] {
						for _, id := range g.drops[c] {
							for l := range cur {
								if l.id == id {
									delete(cur, l)
								}
							}
						}
					}
					// what every callee takes and keeps
					var gain lockSet
					for c := range g.s.siteOf[i] {
						if gain == nil {
							gain = g.gains[c]
						} else {
							gain = meet(gain, g.gains[c])
						}
					}
					for l := range gain {
						l.fn, l.base = nil, ""
						cur[l] = true
					}
				}
			}
		}
		for _, n := range b.Succs {
			old, ok := in[n]
			m := cur
			if ok {
				m = meet(old, cur)
				if sameLocks(m, old) {
					continue
				}
			}
			in[n] = m
			work = append(work, n)
		}
	}
	gain := lockSet{}
	for l := range exit {
		keep := !g.entry[fn][l]
		for _, d := range deferred {
			if d == l.id {
				keep = false
			}
		}
		if keep {
			gain[l] = true
		}
	}
	var drop []string
	for d := range dropped {
		drop = append(drop, d)
	}
	sort.Strings(drop)
	if !sameLocks(gain, g.gains[fn]) || len(drop) != len(g.drops[fn]) {
		g.gains[fn], g.drops[fn] = gain, drop
		changed = true
	}
	return changed
}

func newGuards(s *sharing) *guards {
	g := &guards{s: s, entry: map[*ssa.Function]lockSet{}, at: map[ssa.Instruction]lockSet{}, gains: map[*ssa.Function]lockSet{}, drops: map[*ssa.Function][]string{}}
	for n := 0; n < 50; n++ {
		changed := false
		for _, fn := range s.order {
			var entry lockSet
			if !s.roots[fn] {
				for site := range s.calls[fn] {
					h := g.at[site]
					switch site.(type) {
					case *ssa.Go, *ssa.Defer:
						h = lockSet{}
					}
					if entry == nil {
						entry = h
					} else {
						entry = meet(entry, h)
					}
				}
			}
			if entry == nil {
				entry = lockSet{}
			}
			if !sameLocks(entry, g.entry[fn]) {
				g.entry[fn] = entry
				changed = true
			}
			if len(fn.Blocks) > 0 && g.flow(fn) {
				changed = true
			}
		}
		if !changed {
			return g
		}
	}
	return g
}

// protects: the lock, as held there, covers this access.
func (l heldLock) protects(e *shEffect) bool {
	if e.kind != "read" && !l.write {
		return false
	}
	if l.fn == e.fn && l.owner != nil && e.owner != nil && l.base != "" && types.Identical(l.owner, e.owner) {
		// both belong to the same kind of object: to the same one
		x := e.addr
		for {
			switch y := x.(type) {
			case *ssa.MakeInterface:
				x = y.X
				continue
			case *ssa.ChangeInterface:
				x = y.X
				continue
			case *ssa.TypeAssert:
				x = y.X
				continue
			case *ssa.Slice:
				x = y.X
				continue
			case *ssa.IndexAddr:
				x = y.X
				continue
			case *ssa.UnOp:
				if y.Op == token.MUL {
					x = y.X
					continue
				}
			}
			break
		}
		if fa, ok := x.(*ssa.FieldAddr); ok {
			return baseName(fa.X, 0) == l.base
		}
	}
	return true
}

func isHandler(sig *types.Signature) bool {
	ps := sig.Params()
	return ps.Len() == 2 && ps.At(0).Type().String() == "net/http.ResponseWriter" && ps.At(1).Type().String() == "*net/http.Request"
}

func checkShared(p *Program, r *Report) {
	r.explanation = "A points-to analysis of everything which runs while a request is answered, starting from the handler of the http service. What exists before the request (captured by the handler, its receivers, the globals) is one shared object; " +
		"what the request allocates belongs to it. Interface calls are followed into every implementation. Each store, map update, append or copy, and each use of a library object which has a state, must only reach memory of the request, " +
		"or be made with a lock of the shared memory held (a must-hold analysis of the locks, across the calls), the same one for every access to the same place."
	r.assumptions = []string{
		"the types of the libraries documented as usable by several goroutines (sql.DB, regexp.Regexp, logrus, the sync package, os.File.ReadAt, encoding.Encoding, xpath.Expr.Select which copies the query) are",
		"an object of the request is not handed to another request: only through the shared memory, which is checked",
	}
	r.outside = []string{"the goroutines which a request could start by itself (none does)", "the state kept inside of sqlite"}
	r.rule("handler", 1, "The functions called for each request were found.")
	r.rule("reached", 5, "Each implementation of an output, an index, an input and a parser is analysed as a part of the requests.")
	r.rule("own", 1, "What a function writes while a request is answered belongs to this request.")
	r.rule("shared-write", 0, "What was made before the request is never written, or always under the same lock.")
	r.rule("shared-use", 0, "A shared library object which has a state is only used under a lock, always the same one.")

	s := newSharing(p)
	for _, fn := range p.funcs {
		if isHandler(fn.Signature) {
			s.root(fn)
			r.ok("handler", fnName(fn), fn.Pos(), "called by net/http for each request, from several goroutines")
		}
	}
	s.run()
	for _, want := range []struct{ iface, method string }{
		{"pkg/output.Output", "Handle"}, {"pkg/index.Index", "GetRecordPositions"}, {"pkg/input.Input", "Get"}, {"pkg/parser.Parser", "Parse"},
	} {
		for _, t := range p.implementers(want.iface) {
			m := p.method(t, want.method)
			if m == nil || m.Blocks == nil {
				r.undecided("reached", typeName(t)+"."+want.method, token.NoPos, "no source found for this method")
				continue
			}
			r.check(s.reach[m], "reached", fnName(m), m.Pos(), "reached from the handler", "this implementation is not reached from the handler: the calls to it were not recognised")
		}
	}
	g := newGuards(s)
	s.lift(func(e *shEffect) bool {
		for l := range g.at[e.in] {
			if l.fn == e.fn && l.protects(e) {
				return true
			}
		}
		return false
	})
	for _, fn := range s.order {
		r.funcs[fnName(fn)] = true
		n := 0
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				r.stats["instructions_analysed"]++
				if s.fresh[in] {
					n++
				}
			}
		}
		if n > 0 {
			r.ok("own", fnName(fn), fn.Pos(), sprintf("%d write(s), all to the memory of the request", n))
		}
	}
	r.stats["request_phase_functions"] = len(s.order)
	r.stats["objects"] = len(s.objs)
	r.stats["accesses_to_shared_memory"] = len(s.effects)

	// the one switch which makes a reader give its own memory away
	for _, fn := range p.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || fa.X.Type().String() != "*encoding/csv.Reader" || fieldName(fa) != "ReuseRecord" {
					continue
				}
				c, isConst := st.Val.(*ssa.Const)
				r.check(isConst && c.Value.ExactString() == "false", "shared-use", fnName(fn)+": csv.Reader.ReuseRecord", in.Pos(),
					"the rows are not recycled", "the rows given by this reader are overwritten by the next read, while the records of other requests still hold them")
			}
		}
	}

	byKey := map[string][]*shEffect{}
	var keys []string
	for _, e := range s.effects {
		k := strings.TrimSuffix(strings.TrimPrefix(e.key, "the spare room behind "), wrapped)
		if len(byKey[k]) == 0 {
			keys = append(keys, k)
		}
		byKey[k] = append(byKey[k], e)
	}
	sort.Strings(keys)
	for _, k := range keys {
		list := byKey[k]
		sort.Slice(list, func(i, j int) bool { return list[i].in.Pos() < list[j].in.Pos() })
		changes := false
		for _, e := range list {
			changes = changes || e.kind != "read"
		}
		if !changes {
			continue
		}
		counts := map[string]int{}
		direct := false
		for _, e := range list {
			direct = direct || !strings.HasSuffix(e.key, wrapped)
		}
		for _, e := range list {
			if direct && strings.HasSuffix(e.key, wrapped) {
				continue
			}
			ids := map[string]bool{}
			for l := range g.at[e.in] {
				if l.protects(e) {
					ids[l.id] = true
				}
			}
			for id := range ids {
				counts[id]++
			}
		}
		best := ""
		for id, c := range counts {
			if best == "" || c > counts[best] || c == counts[best] && id < best {
				best = id
			}
		}
		for _, e := range list {
			rule := "shared-write"
			if e.kind == "use" {
				rule = "shared-use"
			}
			ok := false
			for l := range g.at[e.in] {
				if l.id == best && l.protects(e) {
					ok = true
				}
			}
			what := map[string]string{"write": "written", "use": "used, which changes its state,", "read": "read, while it can be written by another request,"}[e.kind]
			construct := fnName(e.fn) + ": " + e.key
			if strings.HasSuffix(e.key, wrapped) {
				construct = e.key
			}
			if ok {
				r.ok(rule, construct, e.in.Pos(), e.kind+" under "+best)
			} else if best == "" {
				r.violation(rule, construct, e.in.Pos(), e.key+", which all the requests share, is "+what+" without any lock while a request is answered", nil)
			} else {
				r.violation(rule, construct, e.in.Pos(), e.key+", which all the requests share, is "+what+" without "+best+", which protects it elsewhere", nil)
			}
		}
	}
}
