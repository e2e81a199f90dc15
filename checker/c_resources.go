package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C10", checkResources) }

// resourceType: the values which hold a system resource until they are closed.
func resourceType(t types.Type) bool {
	if t == nil {
		return false
	}
	switch typeName(t) {
	case "*os.File", "*database/sql.DB", "*database/sql.Rows", "*database/sql.Conn", "*github.com/fsnotify/fsnotify.Watcher",
		"net.Listener", "*net/http.Server":
		return true
	}
	return false
}

// releaseOf: the resource which the call gives back.
func releaseOf(ci *CallInfo) *Term {
	switch methodName(ci) {
	case "Close", "Shutdown":
		if len(ci.args) > 0 {
			return ci.args[0].strip()
		}
	}
	if ci.name == "" && ci.callee != nil && len(ci.args) == 0 {
		return ci.callee.strip()
	}
	return nil
}

// releasedBy: x, or when it is some element of a list which is gone through,
// each element of it.
func releasedBy(w *Walker, ci *CallInfo, x *Term) []*Term {
	out := []*Term{x}
	var recv ssa.Value
	if ci.common.IsInvoke() || ci.common.StaticCallee() == nil {
		recv = ci.common.Value
	} else if len(ci.common.Args) > 0 {
		recv = ci.common.Args[0]
	}
	ld, ok := recv.(*ssa.UnOp)
	if !ok {
		return out
	}
	ia, ok := ld.X.(*ssa.IndexAddr)
	if !ok {
		return out
	}
	if _, isConst := ia.Index.(*ssa.Const); isConst || ci.st.top().fn != ia.Parent() {
		return out
	}
	base := rootOf(w.val(ci.st, ia.X))
	if base.op == "slice" {
		base = rootOf(base.args[0])
	}
	for cell, v := range ci.st.heap {
		if cell.op == "iaddr" && rootOf(cell) == base {
			out = append(out, v.strip())
		}
	}
	return out
}

// plainValue: what cannot refer to anything else.
func plainValue(t types.Type) bool {
	if t == nil {
		return false
	}
	if isError(t) {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return true
	case *types.Slice:
		return plainValue(u.Elem())
	case *types.Array:
		return plainValue(u.Elem())
	}
	return false
}

// reachable: x can be found from the roots through the known memory.
func reachable(st *State, x *Term, roots ...*Term) bool {
	seen := map[*Term]bool{}
	var work []*Term
	add := func(t *Term) bool {
		found := false
		if t == nil {
			return false
		}
		var visit func(y *Term)
		visit = func(y *Term) {
			if y == nil || found {
				return
			}
			if y == x {
				found = true
				return
			}
			if seen[y] || plainValue(y.typ) {
				return
			}
			seen[y] = true
			work = append(work, y)
			for _, a := range y.args {
				visit(a)
			}
		}
		visit(t)
		return found
	}
	for _, t := range roots {
		if add(t) {
			return true
		}
	}
	for len(work) > 0 {
		y := work[len(work)-1]
		work = work[:len(work)-1]
		for cell, v := range st.heap {
			if cell == y || rootOf(cell) == y || under(cell, y) {
				if add(v) {
					return true
				}
			}
		}
	}
	return false
}

func checkResources(p *Program, r *Report) {
	r.explanation = "Each call which yields a resource (open file, database rows, end callback of an iteration) opens an obligation. On every path of every operation which runs while requests are served (helpers and returned iterators included), " +
		"and on every successful path of the constructors, it must be closed, or handed over to the object or iterator which is returned; an iterator which reaches its end or fails must have closed what it holds. Then, every resource kept in a field must be closed by Close()."
	r.rule("released", 4, "what an operation opens is closed on each path which ends it, failures included, or handed over to what it returns")
	r.rule("iterator-released", 1, "an iterator gives back what it holds once it ended or failed")
	r.rule("end-releases", 3, "the callback returned along with an iteration closes its file")
	r.rule("fields-closed", 5, "closing a component closes each file, database, watcher and server it holds")
	type entry struct {
		fn        *ssa.Function
		construct bool
		kind      string
	}
	var entries []entry
	seen := map[*ssa.Function]bool{}
	add := func(fn *ssa.Function, c bool, kind string) {
		if fn != nil && len(fn.Blocks) > 0 && !seen[fn] {
			seen[fn] = true
			entries = append(entries, entry{fn, c, kind})
		}
	}
	for _, t := range p.implementers("pkg/input.Input") {
		add(p.method(t, "IterateAll"), false, "iterate")
		for _, m := range []string{"Get", "Size", "ModTime"} {
			add(p.method(t, m), false, "")
		}
	}
	for _, t := range p.implementers("pkg/index.Index") {
		add(p.method(t, "GetRecordPositions"), false, "positions")
	}
	for _, t := range p.implementers("pkg/output.Output") {
		add(p.method(t, "Handle"), false, "")
	}
	for _, ifc := range []string{"pkg/input.Input", "pkg/index.Index", "pkg/output.Output", "pkg/service.Service"} {
		for _, t := range p.implementers(ifc) {
			for _, fn := range constructorsOf(p, t) {
				add(fn, true, "")
			}
		}
	}
	for _, e := range entries {
		releases(p, r, e.fn, e.construct, e.kind)
	}
	for _, ifc := range []string{"pkg/input.Input", "pkg/index.Index", "pkg/output.Output", "pkg/service.Service"} {
		for _, t := range p.implementers(ifc) {
			fieldsClosed(p, r, t)
		}
	}
}

// constructorsOf: the exported functions which return the type.
func constructorsOf(p *Program, t types.Type) []*ssa.Function {
	n := named(t)
	var out []*ssa.Function
	for _, fn := range p.funcs {
		sig := fn.Signature
		if sig.Recv() != nil || fn.Parent() != nil || sig.Results().Len() == 0 || fn.Object() == nil || !fn.Object().Exported() {
			continue
		}
		if named(sig.Results().At(0).Type()) == n {
			out = append(out, fn)
		}
	}
	return out
}

func isEndCallback(t types.Type) bool {
	s, ok := t.Underlying().(*types.Signature)
	return ok && s.Params().Len() == 0 && s.Results().Len() == 1 && isError(s.Results().At(0).Type())
}

func releases(p *Program, r *Report, fn *ssa.Function, construct bool, kind string) {
	w := newWalker(p, r, Hooks{})
	infos := map[*Term]*CallInfo{}
	what := map[*Term]string{}
	label := func(x *Term) string {
		if ci := infos[x]; ci != nil {
			return fnName(fn) + ": " + what[x] + " of " + ci.name
		}
		return fnName(fn) + ": " + x.String()
	}
	owner := func(x *Term) *Term {
		if infos[x] != nil {
			return x
		}
		for t := range infos {
			if sameSite(t, x) {
				return t
			}
		}
		return x
	}
	w.h.Before = func(ci *CallInfo) bool {
		// the iteration of an input is known by its contract
		if methodName(ci) == "IterateAll" && kind != "iterate" {
			return true
		}
		return ci.fn != nil && p.inRepo(ci.fn) && !p.touchesResources(ci.fn)
	}
	w.h.After = func(ci *CallInfo) {
		st := ci.st
		if x := releaseOf(ci); x != nil {
			for _, y := range releasedBy(w, ci, x) {
				st.user.del("open", y)
			}
			return
		}
		// a bound method called through a value
		if ci.callee != nil && ci.callee.op == "closure" {
			for _, a := range ci.callee.args {
				if strings.HasSuffix(ci.callee.fn.Name(), "Close$bound") {
					st.user.del("open", a.strip())
				}
			}
		}
		if ci.kind == "go" {
			for x := range st.user.sets["open"] {
				if reachable(st, x, append(append([]*Term{}, ci.args...), ci.callee)...) {
					st.user.del("open", x)
				}
			}
			return
		}
		if isPure(ci) || strings.HasPrefix(ci.name, "builtin") {
			return
		}
		res := ci.common.Signature().Results()
		ei := errorResult(ci.common.Signature())
		if methodName(ci) == "QueryRow" || methodName(ci) == "Open" && strings.HasSuffix(ci.name, "sql.Open") && !construct {
			return
		}
		for i := 0; i < res.Len(); i++ {
			t := res.At(i).Type()
			kindOf := ""
			if resourceType(t) {
				kindOf = typeName(t)
			} else if methodName(ci) == "IterateAll" && isEndCallback(t) {
				kindOf = "the end callback"
			} else {
				continue
			}
			if n := named(t); n != nil && ci.fn == nil && ci.method != nil && methodName(ci) != "IterateAll" {
				continue // an accessor of some interface
			}
			x := w.res(ci, i)
			if x == nil {
				continue
			}
			infos[x] = ci
			what[x] = kindOf
			st.user.add("open", x, "")
			if ei >= 0 {
				st.user.add("err", w.res(ci, ei), "")
			}
			if !construct || kindOf == "the end callback" {
				r.ok("released", label(x), ci.pos, "closed or handed over on every path")
			}
		}
	}
	w.h.Branch = func(st *State, in *ssa.If, cond *Term, taken bool) {
		for x := range st.user.sets["open"] {
			ci := infos[owner(x)]
			if ci == nil {
				continue
			}
			ei := errorResult(ci.common.Signature())
			if ei < 0 {
				continue
			}
			if e := w.res(ci, ei); e != nil {
				if n, k := w.isNil(st, e); k && !n && sameInstance(e, x) {
					st.user.del("open", x)
				}
			}
		}
	}
	fail := func(rule string, st *State, f *ssa.Function, x *Term, msg string) {
		o := owner(x)
		pos := f.Pos()
		if ci := infos[o]; ci != nil {
			pos = ci.pos
		}
		r.violation(rule, label(o), pos, msg, st)
	}
	w.h.Exit = func(st *State, f *ssa.Function, ret []*Term) bool {
		failed := false
		if i := errorResult(f.Signature); i >= 0 && i < len(ret) {
			if n, k := w.isNil(st, ret[i]); k && !n {
				failed = true
			} else if !k && ret[i].op == "call" && len(ret) == 1 {
				// the outcome of something else: nothing is handed over
			}
		}
		switch st.user.flags["phase"] {
		case 0:
			if construct && failed {
				return false
			}
			for x := range st.user.sets["open"] {
				if !failed && reachable(st, x, ret...) {
					continue
				}
				if recv := recvTerm(w, f); recv != nil && reachable(st, x, recv) {
					continue
				}
				how := "when it succeeds"
				if failed {
					how = "when it fails"
				}
				fail("released", st, f, x, fnName(f)+" leaves "+what[owner(x)]+" open "+how+", and nothing refers to it anymore")
				st.user.del("open", x)
			}
			if failed {
				return false
			}
			switch kind {
			case "positions":
				it := ret[0].strip()
				if it.op == "closure" && len(it.fn.Blocks) > 0 && len(st.user.sets["open"]) > 0 {
					for x := range st.user.sets["open"] {
						r.ok("iterator-released", label(owner(x)), f.Pos(), "closed once the iterator ended or failed")
					}
					st.user.flags["phase"] = 1
					st.note(f.Pos(), "the returned iterator is called")
					w.push(st, it.fn, nil, it.args, nil, false)
					return true
				}
			case "iterate":
				if len(ret) > 1 {
					end := ret[1].strip()
					c := fnName(f) + ": end callback"
					if end.op == "closure" && strings.HasSuffix(end.fn.Name(), "Close$bound") && len(end.args) == 1 {
						r.ok("end-releases", c, f.Pos(), "closes the file")
						st.user.del("open", end.args[0].strip())
						for x := range st.user.sets["open"] {
							r.violation("end-releases", c, f.Pos(), "the end callback does not close "+what[owner(x)], st)
						}
						return false
					}
					if (end.op == "closure" || end.op == "func") && len(end.fn.Blocks) > 0 {
						r.ok("end-releases", c, f.Pos(), "closes the file")
						st.user.terms["end"] = end
						if it := ret[0].strip(); it.op == "closure" && len(it.fn.Blocks) > 0 {
							// the same, after an iteration
							other := st.clone()
							other.user.flags["phase"] = 3
							other.note(f.Pos(), "the returned iterator is called")
							w.push(other, it.fn, nil, it.args, nil, false)
							w.work = append(w.work, other)
						}
						st.user.flags["phase"] = 2
						st.note(f.Pos(), "the returned end callback is called")
						w.push(st, end.fn, nil, end.args, nil, false)
						return true
					}
					if len(st.user.sets["open"]) > 0 {
						r.undecided("end-releases", c, f.Pos(), "the end callback is not a function literal: "+end.String())
					}
				}
			}
		case 1:
			if len(ret) > 0 {
				if n, k := w.isNil(st, ret[0]); k && n {
					for x := range st.user.sets["open"] {
						fail("iterator-released", st, f, x, "the iterator ends or fails without releasing "+what[owner(x)]+" of "+fnName(fn))
					}
				}
			}
		case 3:
			end := st.user.terms["end"]
			st.user.flags["phase"] = 2
			st.note(f.Pos(), "the returned end callback is called")
			w.push(st, end.fn, nil, end.args, nil, false)
			return true
		case 2:
			for x := range st.user.sets["open"] {
				r.violation("end-releases", fnName(fn)+": end callback", f.Pos(), "the end callback returns without closing "+what[owner(x)], st)
			}
		}
		return false
	}
	w.start(fn, nil)
	r.walked(w)
}

// touchesResources: the function, or one it calls or creates, opens or closes
// something, or has a resource among its parameters and results.
func (p *Program) touchesResources(fn *ssa.Function) bool {
	if p.resourceFns == nil {
		p.resourceFns = map[*ssa.Function]bool{}
		for _, f := range p.funcs {
			if directResources(f) {
				p.resourceFns[f] = true
			}
		}
		for changed := true; changed; {
			changed = false
			for _, f := range p.funcs {
				if p.resourceFns[f] {
					continue
				}
				for _, b := range f.Blocks {
					for _, in := range b.Instrs {
						for _, op := range in.Operands(nil) {
							if g, ok := (*op).(*ssa.Function); ok && p.resourceFns[g] && !p.resourceFns[f] {
								p.resourceFns[f] = true
								changed = true
							}
						}
					}
				}
			}
		}
	}
	return p.resourceFns[fn]
}

func directResources(fn *ssa.Function) bool {
	sig := fn.Signature
	for i := 0; i < sig.Results().Len(); i++ {
		if t := sig.Results().At(i).Type(); resourceType(t) || isEndCallback(t) {
			return true
		}
	}
	for _, prm := range fn.Params {
		if resourceType(prm.Type()) || isEndCallback(prm.Type()) {
			return true
		}
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			res := c.Common().Signature().Results()
			for i := 0; i < res.Len(); i++ {
				if t := res.At(i).Type(); resourceType(t) || isEndCallback(t) {
					return true
				}
			}
			switch f := c.Common().StaticCallee(); {
			case f != nil && (f.Name() == "Close" || f.Name() == "Shutdown"):
				return true
			case c.Common().IsInvoke() && c.Common().Method.Name() == "Close":
				return true
			}
			if c.Common().StaticCallee() == nil && !c.Common().IsInvoke() && isEndCallback(c.Common().Value.Type()) {
				return true
			}
		}
	}
	return false
}

func sameInstance(a, b *Term) bool {
	s := func(t *Term) *Term {
		if t.op == "ext" {
			return t.args[0]
		}
		return t
	}
	return s(a) == s(b)
}

func recvTerm(w *Walker, f *ssa.Function) *Term {
	if f.Signature.Recv() == nil || len(f.Params) == 0 {
		return nil
	}
	return w.param(f.Params[0].Name(), f.Params[0].Type())
}

// loadKey names the field a value was loaded from, "service.HttpConfig.Http".
func loadKey(t *Term) string {
	if t.op != "ld" || t.args[0].op != "faddr" {
		return ""
	}
	b := t.args[0].args[0]
	bt := b.typ
	if bt == nil {
		return ""
	}
	return typeName(pointee(bt)) + "." + t.args[0].aux
}

// nilFactKeys: the fields known to be nil on the path.
func nilFact(cond *Term, taken bool) (*Term, bool) {
	for cond.op == "un" && cond.aux == "!" {
		cond, taken = cond.args[0], !taken
	}
	if cond.op == "bin" && (cond.aux == "==" || cond.aux == "!=") {
		if cond.aux == "!=" {
			taken = !taken
		}
		if cond.args[0].op == "nil" {
			return cond.args[1], taken
		}
		if cond.args[1].op == "nil" {
			return cond.args[0], taken
		}
	}
	return nil, false
}

type fieldExit struct {
	nilKeys map[string]bool
	set     map[string]bool
}

// constructorExits: for each successful path of the constructors, which fields
// are set, and what was known to be nil.
func constructorExits(p *Program, r *Report, t types.Type) []fieldExit {
	s := structOf(named(t))
	var out []fieldExit
	for _, fn := range constructorsOf(p, t) {
		w := newWalker(p, r, Hooks{})
		w.h.Before = func(ci *CallInfo) bool { return ci.fn != nil && p.inRepo(ci.fn) && !p.touchesResources(ci.fn) }
		w.h.Branch = func(st *State, in *ssa.If, cond *Term, taken bool) {
			if x, isnil := nilFact(cond, taken); x != nil && isnil {
				if k := loadKey(x); k != "" {
					st.user.flags["nil:"+k] = 1
				}
			}
		}
		w.h.Exit = func(st *State, f *ssa.Function, ret []*Term) bool {
			if i := errorResult(f.Signature); i >= 0 {
				if n, k := w.isNil(st, ret[i]); k && !n {
					return false
				}
			}
			e := fieldExit{map[string]bool{}, map[string]bool{}}
			for k := range st.user.flags {
				if strings.HasPrefix(k, "nil:") {
					e.nilKeys[k[4:]] = true
				}
			}
			for i := 0; s != nil && i < s.NumFields(); i++ {
				v := w.load(st, w.faddr(ret[0].strip(), s.Field(i).Name()), s.Field(i).Type())
				if n, k := w.isNil(st, v); !(k && n) {
					e.set[s.Field(i).Name()] = true
				}
			}
			out = append(out, e)
			return false
		}
		w.start(fn, nil)
		r.walked(w)
	}
	return out
}

func fieldsClosed(p *Program, r *Report, t types.Type) {
	s := structOf(named(t))
	if s == nil {
		return
	}
	var fields []string
	for i := 0; i < s.NumFields(); i++ {
		ft := s.Field(i).Type()
		if resourceType(ft) && typeName(ft) != "net.Listener" {
			fields = append(fields, s.Field(i).Name())
		}
	}
	if len(fields) == 0 {
		return
	}
	fn := p.method(t, "Close")
	if fn == nil || len(fn.Blocks) == 0 {
		r.undecided("fields-closed", typeName(t), token.NoPos, "no Close method")
		return
	}
	var exits []fieldExit
	loaded := false
	w := newWalker(p, r, Hooks{})
	var recv *Term
	w.h.Branch = func(st *State, in *ssa.If, cond *Term, taken bool) {
		if x, isnil := nilFact(cond, taken); x != nil && isnil {
			if k := loadKey(x); k != "" {
				st.user.flags["nil:"+k] = 1
			}
		}
	}
	w.h.After = func(ci *CallInfo) {
		if x := releaseOf(ci); x != nil {
			for _, y := range releasedBy(w, ci, x) {
				ci.st.user.add("closed", y, "")
			}
		}
	}
	for _, f := range fields {
		r.ok("fields-closed", typeName(t)+"."+f, fn.Pos(), "closed by each successful path of Close")
	}
	w.h.Exit = func(st *State, f *ssa.Function, ret []*Term) bool {
		if i := errorResult(f.Signature); i >= 0 {
			if n, k := w.isNil(st, ret[i]); k && !n {
				return false
			}
			// the outcome of a release which just failed
			if ret[i].op == "call" && ret[i].call != nil && releaseOf(ret[i].call) != nil {
				if n, k := w.isNil(st, ret[i]); k && !n {
					return false
				}
			}
		}
	field:
		for _, name := range fields {
			var ft types.Type
			for i := 0; i < s.NumFields(); i++ {
				if s.Field(i).Name() == name {
					ft = s.Field(i).Type()
				}
			}
			v := w.load(st, w.faddr(recv, name), ft)
			if _, ok := st.user.has("closed", v); ok {
				continue
			}
			if n, k := w.isNil(st, v); k && n {
				continue
			}
			if !loaded {
				exits, loaded = constructorExits(p, r, t), true
			}
			for k := range st.user.flags {
				if !strings.HasPrefix(k, "nil:") {
					continue
				}
				key := k[4:]
				if key == typeName(pointee(recv.typ))+"."+name {
					continue field
				}
				some, unset := false, true
				for _, e := range exits {
					if e.nilKeys[key] {
						some = true
						if e.set[name] {
							unset = false
						}
					}
				}
				if some && unset {
					continue field
				}
			}
			r.violation("fields-closed", typeName(t)+"."+name, fn.Pos(), fnName(fn)+" succeeds without closing "+name, st)
		}
		return false
	}
	w.start(fn, func(st *State, args []*Term) { recv = args[0] })
	r.walked(w)
}
