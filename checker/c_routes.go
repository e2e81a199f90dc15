package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C07", checkRouting) }

// routing: the routes of a service which serves the outputs.
type routing struct {
	service types.Type // implements service.Service
	elem    *types.Named
	out     string // field of the element: the output
	expr    string // the compiled path
	names   string // the names of the parameters
}

func routingsOf(p *Program, r *Report, rule string) []*routing {
	var out []*routing
	for _, t := range p.implementers("pkg/service.Service") {
		st := structOf(named(t))
		for i := 0; st != nil && i < st.NumFields(); i++ {
			sl, ok := st.Field(i).Type().Underlying().(*types.Slice)
			if !ok {
				continue
			}
			n := named(sl.Elem())
			es := structOf(n)
			if n == nil || es == nil {
				continue
			}
			rt := &routing{service: t, elem: n}
			for j := 0; j < es.NumFields(); j++ {
				f := es.Field(j)
				switch {
				case typeName(f.Type()) == "output.Output":
					rt.out = f.Name()
				case typeName(f.Type()) == "*regexp.Regexp":
					rt.expr = f.Name()
				case f.Type().String() == "[]string":
					rt.names = f.Name()
				}
			}
			if rt.out != "" && rt.expr != "" {
				out = append(out, rt)
			}
		}
	}
	if len(out) == 0 {
		r.undecided(rule, "service.Service", 0, "no service with routes to the outputs was found")
	}
	return out
}

func (rt *routing) isElem(t types.Type) bool { return t != nil && named(t) == rt.elem }

func (rt *routing) isRoutes(t types.Type) bool {
	sl, ok := t.Underlying().(*types.Slice)
	return ok && rt.isElem(sl.Elem())
}

// isRouteConfigs: the routes of the configuration.
func isRouteConfigs(t types.Type) bool {
	if t == nil {
		return false
	}
	sl, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	n := named(sl.Elem())
	if n == nil {
		return false
	}
	st := structOf(n)
	if st == nil {
		return false
	}
	tags := map[string]bool{}
	for i := 0; i < st.NumFields(); i++ {
		tags[yamlTag(st, i)] = true
	}
	return tags["path"] && tags["output"]
}

// fieldIn: t is the content of a field of a structure, which is returned.
func fieldIn(t *Term, name string) *Term {
	t = bare(t)
	if t == nil {
		return nil
	}
	if t.op == "ld" && t.args[0].op == "faddr" && t.args[0].aux == name {
		return t.args[0].args[0]
	}
	if t.op == "fld" && t.aux == name {
		return t.args[0]
	}
	return nil
}

func httpHandlers(p *Program) []*ssa.Function {
	var out []*ssa.Function
	for _, fn := range p.funcs {
		if !skipFunc(p, fn) && isHttpHandler(fn.Signature) && len(p.callSites(fn)) == 0 {
			out = append(out, fn)
		}
	}
	return out
}

// stopAtDelegation: a handler which hands the request over to another one,
// explored on its own, has nothing more to do with it.
func stopAtDelegation(w *Walker) {
	before := w.h.Before
	w.h.Before = func(ci *CallInfo) bool {
		handler := isHttpHandler(ci.common.Signature())
		if handler && (ci.fn == nil || len(ci.fn.Blocks) == 0) && len(ci.st.frames) == 1 {
			ci.st.user.flags["__stop"] = 1
			return true
		}
		return before != nil && before(ci)
	}
}

// requested recognises the parts of the request.
type requested struct{ req *Term }

func (q requested) field(t *Term, name string) bool { return q.req != nil && fieldIn(t, name) == q.req }
func (q requested) url(t *Term) bool                { return q.field(t, "URL") }
func (q requested) path(t *Term) bool {
	u := fieldIn(t, "Path")
	return u != nil && q.url(u)
}
func (q requested) header(t *Term, name string) bool {
	t = bare(t)
	if t == nil || t.call == nil || t.call.name != "(net/http.Header).Get" {
		return false
	}
	n, ok := t.call.args[1].strVal()
	return ok && strings.EqualFold(n, name) && q.field(t.call.args[0], "Header")
}

func requestOf(fn *ssa.Function, args []*Term) *Term {
	for i, a := range args {
		if typeName(fn.Params[i].Type()) == "*net/http.Request" {
			return a
		}
	}
	return nil
}

func callTo(t *Term, method string) (*CallInfo, bool) {
	t = bare(t)
	if t == nil || t.call == nil || methodName(t.call) != method {
		return nil, false
	}
	return t.call, true
}

func checkRouting(p *Program, r *Report) {
	r.explanation = "The HTTP handler is explored path by path, with the helpers it calls: what was found of each route (its method, the type of the payload, its path) is kept with that route, " +
		"a route which is handed the request must be known to match it on all three, and a route which is passed over must be known not to. The construction of the list of the routes is explored the same way: " +
		"one route for each one of the configuration, in its order, and every use of that list must leave the order as it is."
	r.rule("matches", 1, "the output which handles a request is the one of a route known to match its method, the type of its payload and its path")
	r.rule("first", 1, "a route is passed over only when it is known not to match, and the search starts at the first one")
	r.rule("every-route", 1, "a request is handled by no output only when every route was tried, or when the one which matches failed before")
	r.rule("payload", 1, "an output which expects a payload is given the one of the request")
	r.rule("as-configured", 1, "there is one route, with the configured output, for each one of the configuration, in its order")
	r.rule("order-kept", 1, "nothing changes the order of the routes")
	for _, rt := range routingsOf(p, r, "matches") {
		for _, fn := range httpHandlers(p) {
			routedRequests(p, r, rt, fn)
		}
		builtRoutes(p, r, rt)
		keptOrder(p, r, rt)
	}
}

func routedRequests(p *Program, r *Report, rt *routing, fn *ssa.Function) {
	name := fnName(fn)
	q := requested{}
	w := newWalker(p, r, Hooks{})
	rd := &rounds{w: w, over: func(st *State, c *Term) bool { return c.typ != nil && rt.isRoutes(c.typ) }}
	tell := func(st *State, set string, e *Term, what string) {
		if old, ok := st.user.has(set, e); ok && old != what {
			st.user.flags["__stop"] = 1 // the output does not change its mind
			return
		}
		st.user.add(set, e, what)
	}
	is := func(st *State, set string, e *Term, what string) bool {
		v, ok := st.user.has(set, e)
		return ok && v == what
	}
	method := func(st *State, m string) string {
		if v := st.user.flags["method:"+m]; v != 0 {
			return []string{"", "yes", "no"}[v]
		}
		for k, v := range st.user.flags {
			if v == 1 && strings.HasPrefix(k, "method:") {
				return "no"
			}
		}
		return ""
	}
	matches := func(st *State, e *Term) bool {
		if !is(st, "path", e, "yes") {
			return false
		}
		return method(st, "GET") == "yes" && is(st, "payload", e, "none") ||
			method(st, "POST") == "yes" && is(st, "payload", e, "some") && is(st, "type", e, "yes")
	}
	ruledOut := func(st *State, e *Term) bool {
		if is(st, "path", e, "no") {
			return true
		}
		return (method(st, "GET") == "no" || is(st, "payload", e, "some")) &&
			(method(st, "POST") == "no" || is(st, "payload", e, "none") || is(st, "type", e, "no"))
	}
	// the route whose output is t
	routeOf := func(t *Term) *Term {
		return fieldIn(t, rt.out)
	}
	w.h.Branch = func(st *State, in *ssa.If, cond *Term, taken bool) {
		if rd.inside(st) {
			if _, _, _, _, ok := rd.header(st, cond, taken); ok && isHeader(in.Block()) && rd.over(st, headerColl(rd, st, cond, taken)) {
				for _, s := range rd.sites(st) {
					e := st.user.terms["val:"+s]
					if st.user.flags["in:"+s] == 0 || e == nil {
						continue
					}
					if ruledOut(st, e) {
						r.ok("first", name, condPos(in), "a route is passed over only when it is ruled out")
					} else if st.user.flags["__stop"] == 0 {
						r.violation("first", name, condPos(in), "a route is passed over on this path although it was not found not to match", st)
					}
				}
			}
		}
		if start, end := rd.branch(st, in, cond, taken); start || end {
			for _, s := range []string{"path", "payload", "type"} {
				delete(st.user.sets, s)
			}
			return
		}
		if x, isNil := nilFact(cond, taken); x != nil {
			if _, used := st.user.has("path", x); used && isNil {
				st.user.flags["__stop"] = 1 // its fields were already read
				return
			}
			if ci, ok := callTo(x, "ExpectedPayloadType"); ok && ci.method != nil {
				if e := routeOf(ci.args[0]); e != nil {
					tell(st, "payload", e, map[bool]string{true: "none", false: "some"}[isNil])
				}
			} else if m := bare(x); m.op == "pure" && m.aux == "(*regexp.Regexp).FindStringSubmatch" && q.path(m.args[1]) {
				if e := fieldIn(m.args[0], rt.expr); e != nil {
					tell(st, "path", e, map[bool]string{true: "no", false: "yes"}[isNil])
				}
			} else if x.typ != nil && isError(x.typ) && !isNil {
				st.user.flags["failed"] = 1
			}
			return
		}
		if c, what := emptiness(cond, taken); c != nil {
			if m := bare(c); m.op == "pure" && m.aux == "(*regexp.Regexp).FindStringSubmatch" && q.path(m.args[1]) {
				if e := fieldIn(m.args[0], rt.expr); e != nil {
					tell(st, "path", e, map[bool]string{true: "no", false: "yes"}[what == 0])
				}
			}
			return
		}
		if a, b, equal, ok := comparison(cond, taken); ok {
			if s, isStr := a.strVal(); isStr {
				a, b = b, a
				_ = s
			}
			if s, isStr := b.strVal(); isStr && q.field(a, "Method") {
				v := 2
				if equal {
					v = 1
				}
				if old := method(st, s); old != "" && old != []string{"", "yes", "no"}[v] {
					st.user.flags["__stop"] = 1
					return
				}
				st.user.flags["method:"+s] = v
				return
			}
			if q.header(b, "Content-Type") {
				a, b = b, a
			}
			if q.header(a, "Content-Type") && b.op == "ld" {
				if ci, ok := callTo(b.args[0], "ExpectedPayloadType"); ok && ci.method != nil {
					if e := routeOf(ci.args[0]); e != nil {
						tell(st, "type", e, map[bool]string{true: "yes", false: "no"}[equal])
					}
				}
			}
			return
		}
		c, v := cond, taken
		for c.op == "un" && c.aux == "!" {
			c, v = c.args[0], !v
		}
		if c.op == "pure" && c.aux == "(*regexp.Regexp).MatchString" && q.path(c.args[1]) {
			if e := fieldIn(c.args[0], rt.expr); e != nil {
				tell(st, "path", e, map[bool]string{true: "yes", false: "no"}[v])
			}
		}
	}
	w.h.After = func(ci *CallInfo) {
		st := ci.st
		if st.user.flags["__stop"] != 0 || ci.method == nil || ci.method.Name() != "Handle" || recvType(ci) == nil || typeName(recvType(ci)) != "output.Output" {
			return
		}
		st.user.flags["handled"] = 1
		e := routeOf(ci.args[0])
		if e == nil || !matches(st, e) {
			r.violation("matches", name, ci.pos, "the request is handled by the output of a route which is not known to match its method, the type of its payload and its path", st)
			return
		}
		r.ok("matches", name, ci.pos, "the route is known to match")
		if is(st, "payload", e, "some") {
			var pl *Term
			for i, a := range ci.args {
				if i > 0 && a != nil && a.typ != nil && a.typ.String() == "[]byte" {
					pl = a
				}
			}
			if pl == nil && len(ci.args) > 2 {
				pl = ci.args[2]
			}
			if src := readWhole(pl); src != nil && q.field(src, "Body") {
				r.ok("payload", name, ci.pos, "the payload is the content of the request")
			} else {
				r.violation("payload", name, ci.pos, "the output expects a payload, and is not given the whole content of the request: "+pl.String(), st)
			}
		}
	}
	w.h.Exit = func(st *State, f *ssa.Function, ret []*Term) bool {
		if st.user.flags["__stop"] != 0 || st.user.flags["handled"] != 0 {
			return false
		}
		if rd.finished(st) {
			r.ok("every-route", name, f.Pos(), "no route was left")
			return false
		}
		for _, s := range rd.sites(st) {
			e := st.user.terms["val:"+s]
			if st.user.flags["in:"+s] == 1 && e != nil && matches(st, e) && st.user.flags["failed"] != 0 {
				r.ok("every-route", name, f.Pos(), "the route which matches has failed")
				return false
			}
		}
		r.violation("every-route", name, f.Pos(), "this path ends without any output handling the request, although some routes were not tried, or one of them matches", st)
		return false
	}
	stopAtDelegation(w)
	w.start(fn, func(st *State, args []*Term) { q.req = requestOf(fn, args) })
	r.walked(w)
}

func headerColl(rd *rounds, st *State, cond *Term, taken bool) *Term {
	c, _, _, _, _ := rd.header(st, cond, taken)
	return c
}

// readWhole: the reader whose whole content t is.
func readWhole(t *Term) *Term {
	t = bare(t)
	if t == nil || t.op != "ext" || t.aux != "0" || t.args[0].call == nil {
		return nil
	}
	switch t.args[0].call.name {
	case "io/ioutil.ReadAll", "io.ReadAll":
		return bare(t.args[0].call.args[0])
	}
	return nil
}

// builtRoutes follows the constructor of the service.
func builtRoutes(p *Program, r *Report, rt *routing) {
	for _, fn := range constructorsOf(p, rt.service) {
		name := fnName(fn)
		w := newWalker(p, r, Hooks{})
		rd := &rounds{w: w, over: func(st *State, c *Term) bool { return isRouteConfigs(c.typ) }, facts: []string{"added"}}
		add := func(st *State, e *Term, pos token.Pos) {
			if e == nil || e.op == "slice" || e.typ != nil && rt.isRoutes(e.typ) {
				r.violation("as-configured", name, pos, "the routes are not added one by one at the end of the list", st)
				return
			}
			out := w.load(st, w.faddr(e, rt.out), p.typ("pkg/output.Output"))
			ok := false
			if e.op == "struct" {
				es := rt.elem.Underlying().(*types.Struct)
				for i := 0; i < es.NumFields(); i++ {
					if es.Field(i).Name() == rt.out && i < len(e.args) {
						out = e.args[i]
					}
				}
			}
			out = bare(out)
			if out == nil {
				r.violation("as-configured", name, pos, "the output of the route is not known", st)
				return
			}
			if out.op != "lk" {
				r.violation("as-configured", name, pos, "the output of the route is not one of the outputs, looked up by name: "+out.String(), st)
				return
			}
			key := out.args[1]
			for _, s := range rd.sites(st) {
				if st.user.flags["in:"+s] == 1 && st.user.flags["cur:"+s+":added"] == 1 {
					r.violation("as-configured", name, pos, "a second route is added for the same one of the configuration", st)
				}
			}
			ok = rd.mark(st, "added", func(k, v *Term) bool {
				if v == nil {
					return false
				}
				f := isConfigField(key, v, "output")
				return f
			})
			if !ok {
				r.violation("as-configured", name, pos, "the output of the route is not the one of the current route of the configuration: "+key.String(), st)
			}
		}
		w.h.After = func(ci *CallInfo) {
			if ci.name == "builtin append" && ci.result != nil && ci.result.typ != nil && rt.isRoutes(ci.result.typ) {
				for _, e := range ci.vargs[1:] {
					add(ci.st, e, ci.pos)
				}
			}
		}
		w.h.Store = func(st *State, in *ssa.Store, addr, val *Term) {
			ia, ok := in.Addr.(*ssa.IndexAddr)
			if !ok || !rt.isElem(in.Val.Type()) {
				return
			}
			if _, lit := ia.X.(*ssa.Alloc); lit {
				return // the arguments of an append
			}
			add(st, val, in.Pos())
		}
		w.h.Branch = func(st *State, in *ssa.If, cond *Term, taken bool) { rd.branch(st, in, cond, taken) }
		w.h.Exit = func(st *State, f *ssa.Function, ret []*Term) bool {
			ei := errorResult(f.Signature)
			if ei >= 0 {
				if n, k := w.isNil(st, ret[ei]); !k || !n {
					return false
				}
			}
			if rd.covered(st, "added") {
				r.ok("as-configured", name, f.Pos(), "each route of the configuration has been added, with its output")
			} else {
				r.violation("as-configured", name, f.Pos(), "the service is built on this path without a route for each one of the configuration", st)
			}
			return false
		}
		w.start(fn, nil)
		r.walked(w)
	}
}

// configField: t is the field of v (or of what it points to) which has this
// key in the configuration.
func isConfigField(t, v *Term, tag string) bool {
	t = bare(t)
	var base *Term
	var f string
	switch {
	case t.op == "ld" && t.args[0].op == "faddr":
		base, f = t.args[0].args[0], t.args[0].aux
	case t.op == "fld":
		base, f = t.args[0], t.aux
	default:
		return false
	}
	if base != v && !(base.op == "ld" && base.args[0] == v) {
		return false
	}
	var st *types.Struct
	if n := named(v.typ); n != nil {
		st = structOf(n)
	}
	if st == nil {
		return f == strings.ToUpper(tag[:1])+tag[1:]
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == f {
			return yamlTag(st, i) == tag
		}
	}
	return false
}

// keptOrder examines each use of the lists of routes.
func keptOrder(p *Program, r *Report, rt *routing) {
	for _, fn := range p.funcs {
		if skipFunc(p, fn) {
			continue
		}
		loops := loopsOf(fn)
		for _, v := range valuesOf(fn) {
			if v.Type() == nil || !rt.isRoutes(v.Type()) {
				continue
			}
			c := fnName(fn)
			bad := func(pos token.Pos, what string) {
				r.violation("order-kept", c, pos, what, nil)
			}
			r.ok("order-kept", c, v.Pos(), "the routes are read, or added at the end")
			if _, isSlice := v.(*ssa.Slice); isSlice {
				if _, lit := v.(*ssa.Slice).X.(*ssa.Alloc); lit {
					continue
				}
			}
			refs := v.Referrers()
			if refs == nil {
				continue
			}
			for _, in := range *refs {
				switch x := in.(type) {
				case *ssa.Slice:
					if lo, k := int64(0), true; x.Low != nil {
						if lo, k = constInt(x.Low); !k || lo != 0 {
							bad(x.Pos(), "only a part of the routes is used")
						}
					}
					if x.High != nil {
						if h, k := constInt(x.High); !k || h != 0 {
							bad(x.Pos(), "only a part of the routes is used")
						}
					}
				case *ssa.IndexAddr:
					for _, u := range *x.Referrers() {
						if s, ok := u.(*ssa.Store); ok && s.Addr == x && !inOrder(loops, x) {
							bad(s.Pos(), "a route is put at another place than the next one")
						}
					}
				case ssa.CallInstruction:
					cc := x.Common()
					if b, ok := cc.Value.(*ssa.Builtin); ok {
						switch {
						case b.Name() == "append" && cc.Args[0] == v:
						case b.Name() == "append" || b.Name() == "copy":
							if from := emptySlice(cc.Args[0]); !from || b.Name() == "copy" {
								bad(x.Pos(), "the routes are moved with "+b.Name())
							}
						}
						continue
					}
					if callee := cc.StaticCallee(); callee != nil && p.inRepo(callee) {
						continue
					}
					bad(x.Pos(), "the routes are given to "+calleeLabel(cc)+", which can reorder them")
				case *ssa.MakeInterface:
					for _, u := range *x.Referrers() {
						if cc, ok := u.(ssa.CallInstruction); ok {
							n := calleeLabel(cc.Common())
							if f := cc.Common().StaticCallee(); f != nil {
								n = fnName(f)
							}
							if strings.HasPrefix(n, "sort.") || strings.HasPrefix(n, "slices.") || strings.HasPrefix(n, "math/rand") || n == "reflect.Swapper" {
								bad(cc.Pos(), "the routes are given to "+n+", which can reorder them")
							}
						}
					}
				}
			}
		}
	}
}

func emptySlice(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Const:
		return x.Value == nil
	case *ssa.MakeSlice:
		n, ok := constInt(x.Len)
		return ok && n == 0
	case *ssa.Slice:
		if a, ok := x.X.(*ssa.Alloc); ok {
			if arr, ok := pointee(a.Type()).Underlying().(*types.Array); ok && arr.Len() == 0 {
				return true
			}
			if x.High != nil {
				n, ok := constInt(x.High)
				return ok && n == 0
			}
		}
	}
	return false
}

// inOrder: the index is the counter of a loop which goes up one by one.
func inOrder(loops []*loop, x *ssa.IndexAddr) bool {
	for _, l := range loops {
		if !l.body[x.Block()] {
			continue
		}
		if f, step, next, ok := l.counter(x.Index); ok && step == 1 {
			n, k := constInt(f)
			if next {
				n++
			}
			return k && n == 0
		}
	}
	return false
}

func valuesOf(fn *ssa.Function) []ssa.Value {
	var out []ssa.Value
	for _, x := range fn.Params {
		out = append(out, x)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				out = append(out, v)
			}
		}
	}
	return out
}
