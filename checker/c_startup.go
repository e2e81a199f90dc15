package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C18", checkStartup)
	register("C27", checkShutdown)
}

// the lists of components, by the interface of their elements
var componentLists = []struct{ name, iface string }{
	{"parsers", "pkg/parser.Parser"},
	{"inputs", "pkg/input.Input"},
	{"indexes", "pkg/index.Index"},
	{"outputs", "pkg/output.Output"},
	{"services", "pkg/service.Service"},
}

// listOf: which list of components a collection is.
func listOf(p *Program, t types.Type) string {
	if t == nil {
		return ""
	}
	m, ok := t.Underlying().(*types.Map)
	if !ok {
		return ""
	}
	for _, l := range componentLists {
		if n := p.typ(l.iface); n != nil && types.Identical(m.Elem(), n) {
			return l.name
		}
	}
	return ""
}

func componentOf(p *Program, t types.Type) string {
	if t == nil {
		return ""
	}
	for _, l := range componentLists {
		if n := p.typ(l.iface); n != nil && types.Identical(t, n) {
			return l.name
		}
	}
	return ""
}

// exitCall: a call which ends the process at once, and its status (nil: not 0).
func exitCall(ci *CallInfo) (status *Term, ok bool) {
	switch {
	case ci.name == "os.Exit":
		return ci.arg(0), true
	case strings.Contains(ci.name, "sirupsen/logrus") && methodName(ci) == "Exit":
		return ci.args[len(ci.args)-1], true
	case noReturn(ci):
		return nil, true
	}
	return nil, false
}

// mainProgram walks the main function, and the goroutine which receives the
// signals.
type mainProgram struct {
	p      *Program
	r      *Report
	w      *Walker
	rounds map[string]*rounds
	// rules are only reported by the check they belong to
	startup, shutdown bool
	spawned           bool
	stages            int
}

func (m *mainProgram) bad(rule string, pos token.Pos, text string, st *State) {
	if (rule == "status" || rule == "stages" || rule == "normal-end") == m.startup {
		m.r.violation(rule, "main.main", pos, text, st)
	}
}

func isListCall(p *Program, fn *ssa.Function, in ssa.Instruction) bool {
	ci, ok := in.(ssa.CallInstruction)
	if !ok || !ci.Common().IsInvoke() {
		return false
	}
	m := ci.Common().Method.Name()
	return (m == "Close" || m == "Wait") && componentOf(p, ci.Common().Value.Type()) != ""
}

// failable: a call whose error is a failure of the start.
func failable(ci *CallInfo) bool {
	sig := ci.common.Signature()
	if errorResult(sig) < 0 {
		return false
	}
	n := methodName(ci)
	if n == "" {
		n = ci.name[strings.LastIndex(ci.name, ".")+1:]
	}
	if n == "Close" || strings.HasPrefix(n, "Print") || strings.HasPrefix(n, "Fprint") || n == "Errorf" || n == "New" && ci.fn != nil && ci.fn.Pkg != nil && ci.fn.Pkg.Pkg.Path() == "errors" {
		return false
	}
	switch {
	case strings.HasPrefix(n, "Write"), n == "Sync", n == "Flush":
		return false
	}
	return true
}

func (m *mainProgram) end(st *State, pos token.Pos, status *Term, fatal bool) {
	proc := st.user.flags["proc"] == 1
	zero, known := false, true
	if fatal {
		if status != nil {
			n, ok := status.intVal()
			zero, known = n == 0, ok
		}
	} else {
		zero = true
	}
	if proc {
		if fatal && st.user.flags["got"] == 1 && !m.rounds["services"].covered(st, "close") && st.user.flags["closefail"] == 0 {
			m.bad("interrupt", pos, "the process ends on an interruption without the services having been closed", st)
		}
		return
	}
	failed, unchecked := false, false
	for _, tag := range st.user.sets["err"] {
		if tag == "non" {
			failed = true
		} else if tag == "?" {
			unchecked = true
		}
	}
	switch {
	case failed && (zero || !known):
		m.bad("status", pos, "the process can end with a status of success although something failed", st)
	case unchecked && zero:
		m.bad("status", pos, "the process can end with a status of success without it being known whether something failed", st)
	}
	waited := m.rounds["services"].covered(st, "wait")
	if !failed && !unchecked {
		if !zero && st.user.flags["services"] == 1 && waited {
			m.bad("normal-end", pos, "the process ends with a status of failure although nothing failed", st)
		}
		if st.user.flags["services"] == 1 && !waited {
			m.bad("waits", pos, "the process ends although some service was not waited for", st)
		}
	}
	if !fatal && st.user.flags["services"] == 0 && !failed {
		m.bad("stages", pos, "the process ends normally without having started the services", st)
	}
}

func walkMain(p *Program, r *Report, startup bool) {
	main := p.fn("cmd.main")
	if main == nil {
		for _, fn := range p.funcs {
			if fn.Pkg != nil && fn.Pkg.Pkg.Name() == "main" && fn.Name() == "main" && fn.Parent() == nil && fn.Signature.Recv() == nil {
				main = fn
			}
		}
	}
	if main == nil {
		r.undecided("status", "main.main", token.NoPos, "the main function is not found")
		return
	}
	m := &mainProgram{p: p, r: r, startup: startup, rounds: map[string]*rounds{}}
	w := newWalker(p, r, Hooks{})
	m.w = w
	touch := p.touching(func(fn *ssa.Function, in ssa.Instruction) bool { return isListCall(p, fn, in) })
	notify := p.touching(func(fn *ssa.Function, in ssa.Instruction) bool {
		if ci, ok := in.(ssa.CallInstruction); ok {
			o := calleeObj(ci.Common())
			return o != nil && o.Pkg() != nil && o.Pkg().Path() == "os/signal"
		}
		return false
	})
	w.h.Inline = func(st *State, f *ssa.Function) bool {
		if f.Pkg != nil && f.Pkg == main.Pkg || f.Parent() != nil && f.Parent().Pkg == main.Pkg {
			return true
		}
		return f.Signature.Recv() == nil && (touch[f] || notify[f]) && !strings.HasPrefix(f.Name(), "New")
	}
	for _, l := range componentLists {
		name := l.name
		m.rounds[name] = &rounds{w: w, ns: name + "|", facts: []string{"close", "wait"},
			over: func(st *State, coll *Term) bool { return coll.typ != nil && listOf(p, coll.typ) == name }}
	}
	services := m.rounds["services"]
	for _, rl := range r.ruleNames() {
		r.ok(rl, "main.main", main.Pos(), "on every path")
	}
	w.h.Before = func(ci *CallInfo) bool {
		st := ci.st
		if ci.kind == "go" {
			if ci.fn == nil || len(ci.fn.Blocks) == 0 || st.user.flags["proc"] == 1 || !touch[ci.fn] && !notify[ci.fn] {
				return true
			}
			var free []*Term
			if ci.callee != nil && ci.callee.op == "closure" && ci.callee.fn == ci.fn {
				free = ci.callee.args
			}
			ns := st.clone()
			ns.frames = nil
			ns.tag = "process:" + fnName(ci.fn)
			ns.user.flags["proc"] = 1
			st.user.flags["spawned"] = 1
			w.push(ns, ci.fn, append([]*Term{}, ci.args...), free, nil, false)
			w.work = append(w.work, ns)
			return true
		}
		if status, ok := exitCall(ci); ok {
			m.end(st, ci.pos, status, true)
			return false
		}
		if ci.method != nil {
			list := ""
			if ci.common.IsInvoke() {
				list = componentOf(p, ci.common.Value.Type())
			}
			if list == "" {
				return false
			}
			recv := ci.args[0]
			switch ci.method.Name() {
			case "Close":
				if list == "services" {
					if st.user.flags["proc"] == 1 && st.user.flags["got"] == 0 {
						m.bad("interrupt", ci.pos, "the services are closed although no signal was received", st)
					}
				} else if list != "parsers" && st.user.flags["services"] == 1 {
					if st.user.flags["proc"] == 1 {
						m.bad("order", ci.pos, "the "+list+" are closed while the services may still use them", st)
					} else if !services.covered(st, "wait") && st.user.flags["waitfail"] == 0 {
						m.bad("order", ci.pos, "the "+list+" are closed although the services were not all waited for", st)
					}
				}
				m.rounds[list].mark(st, "close", func(key, val *Term) bool { return val == recv || recvOf(recv, key) })
			case "Wait":
				if list == "services" && st.user.flags["proc"] == 0 && st.user.flags["spawned"] == 0 {
					m.bad("interrupt", ci.pos, "the services are waited for although nothing handles the interruptions", st)
				}
				m.rounds[list].mark(st, "wait", func(key, val *Term) bool { return val == recv || recvOf(recv, key) })
			}
		}
		return false
	}
	w.h.After = func(ci *CallInfo) {
		st := ci.st
		switch ci.name {
		case "os/signal.Notify":
			sigs := ci.vargs[1:]
			all := len(sigs) == 0
			for _, s := range sigs {
				if s.any(func(t *Term) bool { return t.op == "global" && shortName(t.aux) == "os.Interrupt" }) {
					all = true
				}
				if n, ok := bare(s).intVal(); ok && n == 2 {
					all = true
				}
			}
			if all {
				st.user.add("chan", bare(ci.arg(0)), "")
			}
		case "os/signal.Ignore", "os/signal.Stop", "os/signal.Reset":
			if len(st.user.sets["chan"]) > 0 && st.user.flags["got"] == 0 {
				m.bad("interrupt", ci.pos, "the interruptions are not received any more", st)
			}
		case "os/signal.NotifyContext":
			for _, s := range ci.vargs[1:] {
				if s.any(func(t *Term) bool { return t.op == "global" && shortName(t.aux) == "os.Interrupt" }) {
					st.user.add("chan", w.res(ci, 0), "")
				}
			}
		}
		if methodName(ci) == "Done" && len(ci.args) == 1 && ci.result != nil {
			if _, ok := st.user.has("chan", ci.args[0]); ok {
				st.user.add("chan", ci.result, "")
			}
		}
		if !failable(ci) {
			if ci.method != nil && ci.method.Name() == "Close" && st.user.flags["proc"] == 1 {
				st.user.add("closeerr", w.res(ci, errorResult(ci.common.Signature())), "")
			}
			return
		}
		if st.user.flags["proc"] == 1 {
			return
		}
		err := w.res(ci, errorResult(ci.common.Signature()))
		st.user.add("err", err, "?")
		if ci.method != nil && ci.method.Name() == "Wait" {
			st.user.add("waiterr", err, "")
		}
		if res := ci.common.Signature().Results(); res.Len() == 2 && listOf(p, res.At(0).Type()) == "services" {
			st.user.flags["created"] = 1
			st.user.add("serviceserr", err, "")
		}
		m.stages++
	}
	w.h.Recv = func(st *State, in ssa.Instruction) {
		var chans []ssa.Value
		switch x := in.(type) {
		case *ssa.UnOp:
			chans = append(chans, x.X)
		case *ssa.Select:
			for _, s := range x.States {
				chans = append(chans, s.Chan)
			}
		}
		for _, c := range chans {
			if _, ok := st.user.has("chan", bare(w.val(st, c))); ok {
				st.user.flags["got"] = 1
			}
		}
	}
	w.h.Branch = func(st *State, in *ssa.If, cond *Term, taken bool) {
		for _, l := range componentLists {
			m.rounds[l.name].branch(st, in, cond, taken)
		}
		if x, isnil := nilFact(cond, taken); x != nil {
			if _, ok := st.user.has("err", x); ok {
				if isnil {
					st.user.del("err", x)
					if _, ok := st.user.has("serviceserr", x); ok {
						st.user.flags["services"] = 1
					}
				} else {
					st.user.add("err", x, "non")
					if _, ok := st.user.has("waiterr", x); ok {
						st.user.flags["waitfail"] = 1
					}
				}
			}
			if _, ok := st.user.has("closeerr", x); ok && !isnil {
				st.user.flags["closefail"] = 1
			}
		}
	}
	w.h.Exit = func(st *State, f *ssa.Function, ret []*Term) bool {
		if st.user.flags["proc"] == 1 {
			if st.user.flags["got"] == 1 {
				m.spawned = true
				if !services.covered(st, "close") && st.user.flags["closefail"] == 0 {
					m.bad("interrupt", main.Pos(), "on an interruption, some service is not closed", st)
				}
			} else if len(st.user.sets["chan"]) > 0 {
				m.bad("interrupt", main.Pos(), "the goroutine which handles the interruptions ends without waiting for one", st)
			}
			return false
		}
		m.end(st, main.Pos(), nil, false)
		return false
	}
	w.start(main, nil)
	if m.stages < 6 {
		r.undecided(r.ruleNames()[0], "main.main", main.Pos(), "the stages of the start are not found")
	}
	if !startup && !m.spawned {
		r.violation("interrupt", "main.main", main.Pos(), "no goroutine receives the interruptions and closes the services", nil)
	}
	r.walked(w)
}

// recvOf: the receiver is the element of the collection at a key.
func recvOf(recv, key *Term) bool {
	return recv.op == "lk" && len(recv.args) == 2 && recv.args[1] == key ||
		recv.op == "ext" && recv.aux == "2" && key.op == "ext" && recv.args[0] == key.args[0]
}

func checkStartup(p *Program, r *Report) {
	r.explanation = "The main function is explored path by path, with the loops over the components: each error of a call of the start is tracked until the process ends, which it must do with a status of failure when one of them is not known to be nil. " +
		"Then, the functions which create the components of a kind are explored: on their successful paths, each round of the loop over the configurations must have stored, under the same name, what was created without error from this configuration."
	r.rule("status", 1, "when a stage of the start, or a service, fails, the process ends with a status of failure")
	r.rule("stages", 1, "the process does not end successfully before its services were started")
	r.rule("normal-end", 1, "when nothing fails, the status is a success")
	walkMain(p, r, true)
	r.rule("all-created", 5, "each component which is configured is created, and known by its own name; otherwise its creation fails")
	for _, l := range componentLists {
		found := false
		for _, fn := range p.funcs {
			sig := fn.Signature
			if fn.Parent() != nil || sig.Recv() != nil || sig.Results().Len() != 2 || listOf(p, sig.Results().At(0).Type()) != l.name || !isError(sig.Results().At(1).Type()) {
				continue
			}
			idx := -1
			for i := 0; i < sig.Params().Len(); i++ {
				if mt, ok := sig.Params().At(i).Type().Underlying().(*types.Map); ok && strings.HasSuffix(typeName(mt.Elem()), ".Config") && idx < 0 {
					idx = i
				}
			}
			if idx >= 0 {
				found = true
				allCreated(p, r, fn, idx, l.name)
			}
		}
		if !found {
			r.undecided("all-created", l.name, token.NoPos, "the function which creates the "+l.name+" is not found")
		}
	}
	r.assumptions = []string{"os.Exit, and a logger whose level is Fatal, end the process"}
}

func allCreated(p *Program, r *Report, fn *ssa.Function, idx int, list string) {
	name := fnName(fn)
	w := newWalker(p, r, Hooks{})
	configs := w.param(fn.Params[idx].Name(), fn.Params[idx].Type())
	rd := &rounds{w: w, ns: "configs|", facts: []string{"stored"}, over: func(st *State, coll *Term) bool { return coll == configs }}
	isCreate := func(sig *types.Signature) bool {
		return sig.Results().Len() >= 1 && componentOf(p, sig.Results().At(0).Type()) == list
	}
	creates := p.touching(func(f *ssa.Function, in ssa.Instruction) bool {
		ci, ok := in.(ssa.CallInstruction)
		return ok && ci.Common().StaticCallee() != nil && isCreate(ci.Common().Signature())
	})
	w.h.Inline = func(st *State, f *ssa.Function) bool { return !isCreate(f.Signature) && creates[f] }
	r.ok("all-created", name, fn.Pos(), "each round stores its component")
	w.h.After = func(ci *CallInfo) {
		if !isCreate(ci.common.Signature()) {
			return
		}
		st := ci.st
		for _, s := range rd.sites(st) {
			key, val := st.user.terms["key:"+s], st.user.terms["val:"+s]
			for _, a := range ci.args {
				if a == val || recvOf(bare(a), key) {
					st.user.add("created", w.res(ci, 0), "")
				}
			}
		}
		if i := errorResult(ci.common.Signature()); i >= 0 {
			st.user.add("err", w.res(ci, i), "?")
		}
	}
	w.h.MapSet = func(st *State, in *ssa.MapUpdate, mp, k, v *Term) {
		if listOf(p, mp.typ) != list {
			return
		}
		if _, ok := st.user.has("created", v); ok {
			if rd.mark(st, "stored", func(key, val *Term) bool { return key == k }) {
				st.user.add("into", mp, "")
				return
			}
		}
		r.violation("all-created", name, in.Pos(), "a component is stored under a name which is not the one of its configuration", st)
	}
	w.h.Branch = func(st *State, in *ssa.If, cond *Term, taken bool) {
		if start, _ := rd.branch(st, in, cond, taken); start {
			st.user.sets["created"] = nil
		}
		if x, isnil := nilFact(cond, taken); x != nil && isnil {
			st.user.del("err", x)
		}
	}
	w.h.Exit = func(st *State, f *ssa.Function, ret []*Term) bool {
		if n, k := w.isNil(st, ret[1]); k && !n {
			return false
		}
		if len(st.user.sets["err"]) > 0 {
			r.violation("all-created", name, fn.Pos(), "the error of the creation of a component can be ignored", st)
		}
		if !rd.covered(st, "stored") {
			r.violation("all-created", name, fn.Pos(), "a configured component can be missing from the list", st)
		}
		for into := range st.user.sets["into"] {
			if ret[0] != into {
				r.violation("all-created", name, fn.Pos(), "the list which is returned is not the one which was filled", st)
			}
		}
		return false
	}
	w.start(fn, func(st *State, args []*Term) {
		args[idx] = configs
	})
	r.walked(w)
}

func checkShutdown(p *Program, r *Report) {
	r.explanation = "The main function is explored together with the goroutine which receives the signals, then the constructor of each service together with the goroutines which serve, then its Wait and Close operations. Which server and which error belong to which part of the configuration is found in the constructor."
	r.rule("interrupt", 1, "an interruption is received whenever the services are waited for, and closes each of them")
	r.rule("order", 1, "nothing the services use is closed before all of them were waited for")
	r.rule("waits", 1, "the process does not end by itself before all of its services did")
	walkMain(p, r, false)
	r.rule("serving", 2, "each listening address which is configured is served, until its end is recorded")
	r.rule("wait-all", 1, "a service is waited for until all of its servers ended, and it is successful only if each of them was closed")
	r.rule("graceful", 1, "closing a service stops each of its servers without interrupting their requests, and holds those who wait until then")
	for _, t := range p.implementers("pkg/service.Service") {
		if p.isMock(named(t)) {
			continue
		}
		servers := serviceServers(p, r, t)
		if len(servers) == 0 {
			continue
		}
		serviceWait(p, r, t, servers)
		serviceClose(p, r, t, servers)
	}
	r.assumptions = []string{"http.Server.Shutdown returns once all the requests which were started have ended, as documented"}
	r.outside = []string{"a signal other than the interruption", "a second failure while a service is being closed"}
}

// servedBy: one goroutine which serves.
type servedBy struct {
	errField, serverField string
	owner                 string          // the type of the service
	guard                 map[string]bool // pointers known not to be nil (type.field)
	group                 string
}

// fieldOf: the field of the object which an address (or a loaded value) is.
func ownField(obj, t *Term) string {
	if t.op == "ld" {
		t = t.args[0]
	}
	if t.op == "faddr" && t.args[0] == obj {
		return t.aux
	}
	return ""
}

// cellHolding: the field of an object which holds a value.
func cellHolding(st *State, obj, v *Term) string {
	for cell, x := range st.heap {
		if cell.op == "faddr" && cell.args[0] == obj && x == v {
			return cell.aux
		}
	}
	return ownField(obj, v)
}

func isServe(ci *CallInfo) bool {
	if !strings.HasPrefix(ci.name, "(*net/http.Server).") {
		return false
	}
	switch methodName(ci) {
	case "Serve", "ServeTLS", "ListenAndServe", "ListenAndServeTLS":
		return true
	}
	return false
}

func ownInline(p *Program, t types.Type) func(st *State, f *ssa.Function) bool {
	n := named(t)
	return func(st *State, f *ssa.Function) bool {
		for f.Parent() != nil {
			f = f.Parent()
		}
		if f.Signature.Recv() != nil && named(f.Signature.Recv().Type()) == n {
			return true
		}
		return f.Pkg != nil && f.Pkg.Pkg == n.Obj().Pkg()
	}
}

func serviceServers(p *Program, r *Report, t types.Type) []*servedBy {
	var out []*servedBy
	for _, ctor := range constructorsOf(p, t) {
		name := fnName(ctor)
		w := newWalker(p, r, Hooks{})
		w.h.Inline = ownInline(p, t)
		touch := p.touching(func(fn *ssa.Function, in ssa.Instruction) bool {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				return false
			}
			o := calleeObj(ci.Common())
			return o != nil && o.Pkg() != nil && o.Pkg().Path() == "net/http" && strings.Contains(o.Name(), "Serve") && o.Name() != "ServeHTTP"
		})
		add := func(s *servedBy) {
			for _, x := range out {
				if x.errField == s.errField && x.serverField == s.serverField {
					for g := range x.guard {
						if !s.guard[g] {
							delete(x.guard, g)
						}
					}
					return
				}
			}
			r.ok("serving", name+" "+s.serverField, ctor.Pos(), "served and recorded on every path")
			out = append(out, s)
		}
		object := func(st *State) *Term { return st.user.terms["object"] }
		bad := func(pos token.Pos, text string, st *State) { r.violation("serving", name, pos, text, st) }
		w.h.Before = func(ci *CallInfo) bool {
			st := ci.st
			if ci.kind != "go" {
				return false
			}
			if ci.fn == nil || !touch[ci.fn] || st.user.flags["proc"] == 1 {
				return true
			}
			var free []*Term
			if ci.callee != nil && ci.callee.op == "closure" && ci.callee.fn == ci.fn {
				free = ci.callee.args
			}
			ns := st.clone()
			ns.frames = nil
			ns.tag = "process:" + fnName(ci.fn)
			ns.user.flags["proc"] = 1
			st.user.flags["adds"]--
			st.user.flags["goroutines"]++
			w.push(ns, ci.fn, append([]*Term{}, ci.args...), free, nil, false)
			w.work = append(w.work, ns)
			return true
		}
		w.h.Store = func(st *State, in *ssa.Store, addr, val *Term) {
			if addr.op == "faddr" && addr.args[0].op == "alloc" && named(pointee(addr.args[0].typ)) == named(t) && object(st) == nil {
				st.user.terms["object"] = addr.args[0]
			}
		}
		w.h.Branch = func(st *State, in *ssa.If, cond *Term, taken bool) {
			if x, isnil := nilFact(cond, taken); x != nil && !isError(x.typ) {
				if k := loadKey(x); k != "" {
					if isnil {
						st.user.flags["nil:"+k] = 1
					} else {
						st.user.flags["set:"+k] = 1
					}
				}
			}
		}
		w.h.After = func(ci *CallInfo) {
			st := ci.st
			switch ci.name {
			case "(*sync.WaitGroup).Add":
				if n, ok := ci.arg(1).intVal(); ok {
					st.user.flags["adds"] += int(n)
				}
			case "net.Listen":
				st.user.add("listener", w.res(ci, 0), loadKey(ci.arg(1)))
			case "(*sync.WaitGroup).Done":
				if st.user.flags["proc"] == 1 {
					if st.user.flags["served"] == 0 || object(st) == nil || cellHolding(st, object(st), st.user.terms["err"]) == "" {
						bad(ci.pos, "the end of a server is announced before its error is recorded", st)
					} else {
						s := &servedBy{owner: typeName(pointee(t)), errField: cellHolding(st, object(st), st.user.terms["err"]), guard: map[string]bool{}}
						s.serverField = cellHolding(st, object(st), st.user.terms["server"])
						s.group = cellHolding(st, object(st), ci.arg(0))
						for k, v := range st.user.flags {
							if v == 1 && strings.HasPrefix(k, "set:") {
								s.guard[k[4:]] = true
							}
						}
						if s.serverField == "" {
							bad(ci.pos, "the server is not kept, so that it can never be closed", st)
						}
						st.user.flags["done"] = 1
						add(s)
					}
				}
			}
			if isServe(ci) {
				if st.user.flags["proc"] == 0 {
					return
				}
				if st.user.flags["adds"] <= 0 {
					bad(ci.pos, "nobody can wait for this server: it is not counted before it starts", st)
				}
				st.user.flags["served"]++
				st.user.terms["server"] = ci.arg(0)
				st.user.terms["err"] = w.res(ci, errorResult(ci.common.Signature()))
				tls := strings.HasSuffix(methodName(ci), "TLS")
				listen, isListener := "", false
				for x, tag := range st.user.sets["listener"] {
					if x == bare(ci.arg(1)) || x == ci.arg(1) {
						listen, isListener = tag, true
					}
				}
				if strings.HasPrefix(methodName(ci), "Serve") && !isListener {
					bad(ci.pos, "what is served is not the address which is configured", st)
				}
				if isListener && listen != "" {
					owner := listen[:strings.LastIndex(listen, ".")]
					hasTls := false
					if o := p.typ("pkg/" + strings.TrimPrefix(owner, "*")); o != nil {
						hasTls = taggedField(o, "certificatePath") >= 0
					}
					if tls != hasTls {
						bad(ci.pos, "the address of "+owner+" is not served with its protocol", st)
					}
				}
				if tls {
					n := len(ci.args)
					c, k := loadKey(ci.args[n-2]), loadKey(ci.args[n-1])
					if !tagIs(p, c, "certificatePath") || !tagIs(p, k, "privateKeyPath") {
						bad(ci.pos, "the certificate and the private key are not the ones which are configured", st)
					}
				}
			}
		}
		w.h.Exit = func(st *State, f *ssa.Function, ret []*Term) bool {
			if st.user.flags["proc"] == 1 {
				if st.user.flags["done"] == 0 {
					bad(ctor.Pos(), "a server can end without it being announced", st)
				}
				return false
			}
			if i := errorResult(f.Signature); i >= 0 {
				if n, k := w.isNil(st, ret[i]); k && !n {
					return false
				}
			}
			for x, tag := range st.user.sets["listener"] {
				_ = x
				if tag == "" {
					bad(ctor.Pos(), "an address which is listened to does not come from the configuration", st)
				}
			}
			if st.user.flags["adds"] != 0 {
				bad(ctor.Pos(), "the number of servers which are waited for is not the one of the servers which are started", st)
			}
			// each part which is configured is served
			parts := 0
			for k, v := range st.user.flags {
				if v == 1 && strings.HasPrefix(k, "set:") && servicePart(p, k[4:]) {
					parts++
				}
			}
			known := map[string]bool{}
			for k, v := range st.user.flags {
				if v == 1 && (strings.HasPrefix(k, "set:") || strings.HasPrefix(k, "nil:")) && servicePart(p, k[4:]) {
					known[k[4:]] = true
				}
			}
			if st.user.flags["goroutines"] != parts {
				bad(ctor.Pos(), "an address which is configured is not served", st)
			}
			if n := serviceParts(p, ctor); len(known) != n {
				bad(ctor.Pos(), "whether an address is configured is not looked at", st)
			}
			return false
		}
		w.start(ctor, nil)
		r.walked(w)
	}
	return out
}

// tagIs: the field "type.field" has a yaml tag.
func tagIs(p *Program, key, tag string) bool {
	i := strings.LastIndex(key, ".")
	if i < 0 {
		return false
	}
	n := p.typ("pkg/" + strings.TrimPrefix(key[:i], "*"))
	if n == nil {
		return false
	}
	s, ok := n.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	j := taggedField(n, tag)
	return j >= 0 && s.Field(j).Name() == key[i+1:]
}

// servicePart: the field points to a part of the configuration which has an
// address to listen to.
func servicePart(p *Program, key string) bool {
	i := strings.LastIndex(key, ".")
	if i < 0 {
		return false
	}
	n := p.typ("pkg/" + strings.TrimPrefix(key[:i], "*"))
	if n == nil {
		return false
	}
	s, ok := n.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for j := 0; j < s.NumFields(); j++ {
		if s.Field(j).Name() == key[i+1:] {
			return taggedField(pointee(s.Field(j).Type()), "listen") >= 0
		}
	}
	return false
}

func serviceParts(p *Program, ctor *ssa.Function) int {
	count := 0
	for _, prm := range ctor.Params {
		n := named(prm.Type())
		if n == nil {
			continue
		}
		if s, ok := n.Underlying().(*types.Struct); ok {
			for j := 0; j < s.NumFields(); j++ {
				if _, isPtr := s.Field(j).Type().Underlying().(*types.Pointer); isPtr && taggedField(pointee(s.Field(j).Type()), "listen") >= 0 {
					count++
				}
			}
		}
	}
	return count
}

func isServerClosed(t *Term) bool {
	return t.any(func(x *Term) bool { return x.op == "global" && shortName(x.aux) == "net/http.ErrServerClosed" })
}

// unused: on the path, the server is known not to have been started.
func (s *servedBy) unused(st *State) bool {
	for g := range s.guard {
		if st.user.flags["nil:"+g] == 1 {
			return true
		}
	}
	// a server which does not exist was not started
	return st.user.flags["nil:"+s.owner+"."+s.serverField] == 1
}

func guardFacts(st *State, cond *Term, taken bool) {
	if x, isnil := nilFact(cond, taken); x != nil && isnil && !isError(x.typ) {
		if k := loadKey(x); k != "" {
			st.user.flags["nil:"+k] = 1
		}
	}
}

func serviceWait(p *Program, r *Report, t types.Type, servers []*servedBy) {
	fn := p.method(t, "Wait")
	if fn == nil {
		return
	}
	name := fnName(fn)
	w := newWalker(p, r, Hooks{})
	w.h.Inline = ownInline(p, t)
	r.ok("wait-all", name, fn.Pos(), "on every path")
	recv := w.param(fn.Params[0].Name(), fn.Params[0].Type())
	bad := func(pos token.Pos, text string, st *State) { r.violation("wait-all", name, pos, text, st) }
	w.h.After = func(ci *CallInfo) {
		if ci.name == "(*sync.WaitGroup).Wait" {
			ci.st.user.flags["waited:"+ownField(recv, ci.arg(0))] = 1
			ci.st.user.flags["waited"] = 1
		}
	}
	errOf := func(t *Term) *servedBy {
		for _, s := range servers {
			if ownField(recv, t) == s.errField && t.op == "ld" {
				return s
			}
		}
		return nil
	}
	w.h.Deref = func(st *State, in ssa.Instruction, ptr *Term) {
		if u, ok := in.(*ssa.UnOp); ok && ptr.op == "faddr" {
			_ = u
			for _, s := range servers {
				if ptr.aux == s.errField && ptr.args[0] == recv && st.user.flags["waited:"+s.group] == 0 {
					bad(in.Pos(), "the error of a server is read before its end was waited for", st)
				}
			}
		}
	}
	w.h.Branch = func(st *State, in *ssa.If, cond *Term, taken bool) {
		guardFacts(st, cond, taken)
		for cond.op == "un" && cond.aux == "!" {
			cond, taken = cond.args[0], !taken
		}
		if cond.call != nil && strings.HasSuffix(cond.call.name, "errors.Is") || cond.op == "pure" && cond.aux == "errors.Is" {
			args := cond.args
			if cond.call != nil {
				args = cond.call.args
			}
			if s := errOf(bare(args[0])); s != nil && isServerClosed(args[1]) {
				if taken {
					st.user.flags["closed:"+s.errField] = 1
				} else {
					st.user.flags["failed:"+s.errField] = 1
				}
			}
			return
		}
		if a, b, equal, ok := comparison(cond, taken); ok {
			a, b = bare(a), bare(b)
			if isServerClosed(a) {
				a, b = b, a
			}
			if s := errOf(a); s != nil && isServerClosed(b) {
				if equal {
					st.user.flags["closed:"+s.errField] = 1
				} else {
					st.user.flags["failed:"+s.errField] = 1
				}
			}
		}
	}
	w.h.Exit = func(st *State, f *ssa.Function, ret []*Term) bool {
		for _, s := range servers {
			if st.user.flags["waited:"+s.group] == 0 && !(s.unused(st)) {
				bad(fn.Pos(), "the end of a server is not waited for", st)
				return false
			}
		}
		failure := false
		for _, s := range servers {
			if st.user.flags["failed:"+s.errField] == 1 {
				failure = true
			}
		}
		n, known := w.isNil(st, ret[0])
		if failure {
			if known && n {
				bad(fn.Pos(), "the service is reported as successful although one of its servers failed", st)
			}
			if s := errOf(bare(ret[0])); s != nil && st.user.flags["failed:"+s.errField] == 0 {
				bad(fn.Pos(), "the error which is reported is not the one of the server which failed", st)
			}
			return false
		}
		if !known || !n {
			bad(fn.Pos(), "a failure is reported although no server failed", st)
			return false
		}
		for _, s := range servers {
			if st.user.flags["closed:"+s.errField] == 0 && !s.unused(st) {
				bad(fn.Pos(), "the service is reported as successful although it is not known that its server was closed ("+s.serverField+")", st)
			}
		}
		return false
	}
	w.start(fn, nil)
	r.walked(w)
}

func serviceClose(p *Program, r *Report, t types.Type, servers []*servedBy) {
	fn := p.method(t, "Close")
	if fn == nil {
		return
	}
	name := fnName(fn)
	w := newWalker(p, r, Hooks{})
	w.h.Inline = ownInline(p, t)
	r.ok("graceful", name, fn.Pos(), "on every path")
	recv := w.param(fn.Params[0].Name(), fn.Params[0].Type())
	bad := func(pos token.Pos, text string, st *State) { r.violation("graceful", name, pos, text, st) }
	serverOf := func(x *Term) *servedBy {
		for _, s := range servers {
			if x != nil && x.op == "ld" && ownField(recv, x) == s.serverField {
				return s
			}
		}
		return nil
	}
	w.h.Before = func(ci *CallInfo) bool {
		st := ci.st
		if ci.kind == "go" {
			return true
		}
		if !strings.HasPrefix(ci.name, "(*net/http.Server).") {
			return false
		}
		s := serverOf(ci.arg(0))
		if s == nil {
			return false
		}
		switch methodName(ci) {
		case "Shutdown":
			if st.user.flags["held:"+s.group] <= 0 {
				bad(ci.pos, "those who wait for the service are let through while its requests are still running", st)
			}
			if !unlimited(ci.arg(1)) {
				bad(ci.pos, "the requests which are running can be abandoned when the server is closed", st)
			}
		case "Close":
			if st.user.flags["down:"+s.serverField] == 0 {
				bad(ci.pos, "the requests which are running are interrupted", st)
			}
		}
		return false
	}
	w.h.After = func(ci *CallInfo) {
		st := ci.st
		switch ci.name {
		case "(*sync.WaitGroup).Add":
			if n, ok := ci.arg(1).intVal(); ok {
				st.user.flags["held:"+ownField(recv, ci.arg(0))] += int(n)
			}
		case "(*sync.WaitGroup).Done":
			st.user.flags["held:"+ownField(recv, ci.arg(0))]--
		case "(*sync.WaitGroup).Wait":
			if st.user.flags["held:"+ownField(recv, ci.arg(0))] > 0 {
				bad(ci.pos, "the closing waits for itself", st)
			}
		case "(*net/http.Server).Shutdown":
			if s := serverOf(ci.arg(0)); s != nil {
				st.user.flags["down:"+s.serverField] = 1
				st.user.add("downerr", w.res(ci, 0), s.serverField)
			}
		}
	}
	w.h.Branch = func(st *State, in *ssa.If, cond *Term, taken bool) {
		guardFacts(st, cond, taken)
		if x, isnil := nilFact(cond, taken); x != nil && !isnil {
			if _, ok := st.user.has("downerr", x); ok {
				st.user.flags["downfail"] = 1
			}
		}
	}
	w.h.Exit = func(st *State, f *ssa.Function, ret []*Term) bool {
		for _, s := range servers {
			if st.user.flags["held:"+s.group] != 0 {
				bad(fn.Pos(), "the service can never end, because the closing is still counted", st)
			}
			if st.user.flags["down:"+s.serverField] == 0 && !s.unused(st) && st.user.flags["downfail"] == 0 {
				bad(fn.Pos(), "a server is left open when the service is closed ("+s.serverField+")", st)
			}
		}
		return false
	}
	w.start(fn, nil)
	r.walked(w)
}

// unlimited: the context never ends.
func unlimited(t *Term) bool {
	t = bare(t)
	if t.call != nil {
		return t.call.name == "context.Background" || t.call.name == "context.TODO"
	}
	return t.op == "pure" && (t.aux == "context.Background" || t.aux == "context.TODO")
}
