package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The root of the tree of each property is kept in a list, at the place of the
// property in its configuration: it has to be written at, and read from, the
// place of that same property.
func checkRoots(p *Program, r *Report) {
	r.rule("own-root", 2, "the tree of a property is kept at, and found again from, the place of this same property")
	// a node: a structure of the tree, which the entries of the map of an index are
	trees := func(t types.Type) bool {
		m, ok := t.Underlying().(*types.Map)
		if !ok {
			return false
		}
		n := named(m.Elem())
		return n != nil && hasMethod(m.Elem(), "Serialize") && hasMethod(m.Elem(), "Save")
	}
	touches := func(fn *ssa.Function) bool {
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				if mu, ok := i.(*ssa.MapUpdate); ok && trees(mu.Map.Type()) {
					return true
				}
			}
		}
		return false
	}
	// the place of an element: the list which is gone through, and the index in it
	place := func(t *Term) (*Term, *Term) {
		for t != nil && (t.op == "ld" || t.op == "conv") {
			t = t.args[0]
		}
		if t == nil || (t.op != "iaddr" && t.op != "idx") {
			return nil, nil
		}
		return t.args[0], t.args[1]
	}
	offsets := func(t types.Type) bool {
		n := named(t)
		b, ok := t.Underlying().(*types.Basic)
		return ok && b.Info()&types.IsInteger != 0 && n != nil && n.Obj().Pkg() != nil && p.byPath[n.Obj().Pkg().Path()] != nil
	}
	for _, fn := range p.funcs {
		if skipFunc(p, fn) || !touches(fn) {
			continue
		}
		name := fnName(fn)
		w := newWalker(p, r, Hooks{})
		w.h.Inline = func(st *State, f *ssa.Function) bool {
			if f.Signature.Results().Len() > 0 && f.Signature.Recv() == nil && hasMethod(f.Signature.Results().At(0).Type(), "Serialize") {
				return false // the loading or the creation of an entry
			}
			sig := f.Signature
			for i := 0; i < sig.Params().Len(); i++ {
				if b, ok := sig.Params().At(i).Type().Underlying().(*types.Basic); ok && b.Kind() == types.Int {
					return true
				}
				if trees(sig.Params().At(i).Type()) && touches(f) {
					return true
				}
			}
			return false
		}
		agree := func(st *State, key, at *Term, pos ssa.Instruction) {
			_, k := place(key)
			if k == nil || at == nil {
				return
			}
			if k == at {
				r.ok("own-root", name, pos.Pos(), "the same place")
			} else {
				r.violation("own-root", name, pos.Pos(), "the tree of "+key.String()+" is at the place "+at.String()+" of the list of the trees", st)
			}
		}
		w.h.MapSet = func(st *State, in *ssa.MapUpdate, m, k, v *Term) {
			if !trees(in.Map.Type()) {
				return
			}
			if at := st.user.terms["place:"+v.String()]; at != nil {
				agree(st, k, at, in)
			}
			st.user.terms["tree:"+v.String()] = k
			v.any(func(x *Term) bool {
				if _, at := place(x); at != nil && x.typ != nil && offsets(x.typ) {
					agree(st, k, at, in)
				}
				return false
			})
		}
		w.h.Store = func(st *State, in *ssa.Store, addr, val *Term) {
			if addr.op != "iaddr" || !offsets(in.Val.Type()) {
				return
			}
			val.any(func(x *Term) bool {
				if x.typ != nil && hasMethod(x.typ, "Serialize") && x.op != "lk" {
					st.user.terms["place:"+x.String()] = addr.args[1]
				}
				if x.op == "lk" && trees(x.args[0].typ) {
					agree(st, x.args[1], addr.args[1], in)
					return true
				}
				if k := st.user.terms["tree:"+x.String()]; k != nil && !strings.HasPrefix(x.op, "const") {
					agree(st, k, addr.args[1], in)
					return true
				}
				return false
			})
		}
		// another round: what the same expressions stand for is something else
		w.h.Branch = func(st *State, in *ssa.If, cond *Term, taken bool) {
			if cond.op == "bin" && cond.aux == "<" && cond.args[1].op == "len" {
				for k := range st.user.terms {
					if strings.HasPrefix(k, "tree:") || strings.HasPrefix(k, "place:") {
						delete(st.user.terms, k)
					}
				}
			}
		}
		w.start(fn, nil)
		r.walked(w)
	}
}
