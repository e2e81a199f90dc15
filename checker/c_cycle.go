package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// The components which use another one of their own kind, chosen by a name of
// their configuration, come to their end only if none of them leads back to
// itself: their validation has to have followed the chain up to one which does
// not use another.
func (c *panics) cycles() {
	type link struct {
		conf *types.Named
		key  string
		fn   *ssa.Function
	}
	links := map[string]link{}
	for _, fn := range c.p.funcs {
		if skipFunc(c.p, fn) || fn.Signature.Recv() == nil || len(fn.Blocks) == 0 {
			continue
		}
		recv := fn.Signature.Recv().Type()
		w := newWalker(c.p, newReport("C14"), Hooks{})
		interesting := false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if call, ok := in.(*ssa.Call); ok && call.Call.IsInvoke() && call.Call.Method.Name() == fn.Name() {
					if i, ok := call.Call.Value.Type().Underlying().(*types.Interface); ok && types.Implements(recv, i) {
						interesting = true
					}
				}
			}
		}
		if !interesting {
			continue
		}
		w.h.After = func(ci *CallInfo) {
			if ci.method == nil || ci.method.Name() != fn.Name() || len(ci.args) == 0 {
				return
			}
			t := ci.args[0]
			for t != nil && (t.op == "ext" || t.op == "ta" || t.op == "iface") {
				t = t.args[0]
			}
			if t == nil || t.op != "lk" {
				return
			}
			base, st, i, ok := contentsOf(t.args[1])
			if !ok || yamlTag(st, i) == "" {
				return
			}
			if n := named(deref(base.typ)); n != nil {
				links[n.Obj().Name()+"."+yamlKey(st, i)] = link{n, yamlKey(st, i), fn}
			}
		}
		w.start(fn, func(st *State, args []*Term) {})
	}
	for name, l := range links {
		found := false
		for _, fn := range c.p.methodsOf(types.NewPointer(l.conf)) {
			takes := false
			for _, pr := range fn.Params {
				if m, ok := pr.Type().Underlying().(*types.Map); ok && types.IsInterface(m.Elem()) {
					takes = true
				}
			}
			res := fn.Signature.Results()
			if !takes || res.Len() != 1 || typeName(res.At(0).Type()) != "error" {
				continue
			}
			found = true
			c.followsChain(name, fn, l.conf, l.key)
		}
		if !found {
			c.r.outside = append(c.r.outside, "whether "+fnName(l.fn)+" leads back to itself")
		}
	}
}

func (c *panics) followsChain(name string, fn *ssa.Function, conf *types.Named, key string) {
	w := newWalker(c.p, newReport("C14"), Hooks{})
	next := func(t *Term) bool { // the component after one of the chain
		for t != nil && (t.op == "ext" || t.op == "iface") {
			t = t.args[0]
		}
		return t != nil && t.op == "lk" && keyed(t.args[1], key) != nil
	}
	w.h.Branch = func(st *State, in *ssa.If, cond *Term, taken bool) {
		for cond.op == "un" && cond.aux == "!" {
			cond, taken = cond.args[0], !taken
		}
		if cond.op == "taok" && !taken && next(cond.args[0]) && named(deref(cond.typ)) == conf {
			st.user.flags["end"] = 1
		}
	}
	w.h.After = func(ci *CallInfo) {
		if ci.fn == nil || !c.p.inRepo(ci.fn) {
			return
		}
		for _, a := range ci.args {
			if a != nil && a.typ != nil {
				if m, ok := a.typ.Underlying().(*types.Map); ok && types.IsInterface(m.Elem()) {
					st := ci.st
					st.user.flags["followed"] = 1
				}
			}
		}
	}
	w.h.Exit = func(st *State, fn *ssa.Function, ret []*Term) bool {
		if isnil, known := w.isNil(st, ret[0]); known && !isnil {
			return false
		}
		switch {
		case st.user.flags["end"] == 1:
			c.r.ok("endless", name, fn.Pos(), "the chain was followed to its end")
		case st.user.flags["followed"] == 1:
			c.r.ok("endless", name, fn.Pos(), "not decided: it is left to a function which calls itself")
		default:
			c.r.violation("endless", name, fn.Pos(), "the definition is accepted although the chain of those which it uses by name may lead back to itself, which never ends", st)
		}
		return false
	}
	w.start(fn, func(st *State, args []*Term) {})
}
