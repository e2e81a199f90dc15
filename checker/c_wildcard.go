package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C24", checkFolding) }

const treePkg = "pkg/index/wildcard"

// treeSink: a function of the tree which is given a text.
func treeSink(fn *ssa.Function) bool {
	if fn == nil || fn.Pkg == nil || fn.Signature.Recv() == nil || !strings.HasSuffix(fn.Pkg.Pkg.Path(), treePkg) {
		return false
	}
	for i := 0; i < fn.Signature.Params().Len(); i++ {
		if isBytes(fn.Signature.Params().At(i).Type()) {
			return named(fn.Signature.Recv().Type()) != nil && named(fn.Signature.Recv().Type()).Obj().Name() == "TreeNode"
		}
	}
	return false
}

func isBytes(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func isText(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.String || isBytes(t)
}

var caseFolds = map[string]bool{
	"strings.ToLower": true, "strings.ToUpper": true, "strings.ToTitle": true, "bytes.ToLower": true, "bytes.ToUpper": true, "bytes.ToTitle": true,
	"strings.Map(unicode.ToLower)": true, "strings.Map(unicode.ToUpper)": true, "bytes.Map(unicode.ToLower)": true, "bytes.Map(unicode.ToUpper)": true,
}

// transformations: what is applied to the text, from its origin.
func transformations(t *Term) (origin *Term, ops []string) {
	for {
		switch t.op {
		case "conv", "iface", "ta":
			t = t.args[0]
			continue
		case "slice":
			whole := true
			for _, x := range t.args[1:] {
				if x != nil && x.op != "nil" {
					whole = false
				}
			}
			if !whole {
				ops = append(ops, "a part of it")
			}
			t = t.args[0]
			continue
		case "pure", "call":
			if t.call == nil || !isTextual(t) {
				return t, ops
			}
			name := t.call.name
			if name == "(reflect.Value).Interface" || name == "reflect.ValueOf" {
				t = t.args[0]
				continue
			}
			if !isText(t.typ) {
				return t, ops
			}
			var next *Term
			var with []string
			for _, a := range t.args {
				if next == nil && a.op != "func" && a.op != "closure" && !a.isConst() && isTextual(a) {
					next = a
				} else if a.fn != nil {
					with = append(with, fnName(a.fn))
				} else {
					with = append(with, a.String())
				}
			}
			if next == nil {
				return t, ops
			}
			if len(with) > 0 {
				name += "(" + strings.Join(with, ", ") + ")"
			}
			ops = append(ops, name)
			t = next
			continue
		}
		return t, ops
	}
}

func isTextual(t *Term) bool {
	return t.typ == nil || isText(t.typ) || types.IsInterface(t.typ) || typeName(t.typ) == "reflect.Value"
}

type folding struct {
	side string
	ops  map[bool]map[string]token.Pos
	n    int
}

func checkFolding(p *Program, r *Report) {
	r.explanation = "Each call which gives a text to the tree, to store it or to search it, is a sink: the text is followed on each path from the record or the request down to it, with the changes it went through and what is known of the case setting. " +
		"The loop which adds the ends of a text must go through each of its positions."
	r.assumptions = []string{"the tree finds a text from the start of any of the texts which were added to it (not applicable: the links of the tree are runtime data)"}
	r.rule("same-folding", 2, "the texts are changed the same way, by nothing but their case, when they are indexed and when they are searched")
	r.rule("case-kept", 2, "the texts are not changed when the case is not ignored")
	r.rule("whole-text", 1, "each end of an indexed text, from any of its bytes, is added to the tree")

	// who calls the tree
	sinks := map[*ssa.Function]bool{}
	users := map[*ssa.Function]bool{}
	for _, fn := range p.funcs {
		if fn.Pkg == nil || !strings.HasSuffix(fn.Pkg.Pkg.Path(), "pkg/index") {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok && treeSink(c.Common().StaticCallee()) {
					users[fn] = true
				}
			}
		}
	}
	entries := map[*ssa.Function]bool{}
	seen := map[*ssa.Function]bool{}
	var climb func(fn *ssa.Function)
	climb = func(fn *ssa.Function) {
		if seen[fn] {
			return
		}
		seen[fn] = true
		if fn.Parent() != nil {
			climb(fn.Parent())
			return
		}
		up := 0
		for _, c := range p.callers(fn) {
			if c == fn || c.Pkg != fn.Pkg {
				continue
			}
			up++
			if !readsRecord(fn) {
				climb(c)
			}
		}
		if up == 0 || readsRecord(fn) {
			entries[fn] = true
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok && c.Common().StaticCallee() == fn {
					entries[fn] = true
				}
			}
		}
	}
	for fn := range users {
		climb(fn)
	}
	sides := map[string]*folding{"indexed": newFolding("indexed"), "searched": newFolding("searched")}
	var list []*ssa.Function
	for fn := range entries {
		list = append(list, fn)
	}
	sort.Slice(list, func(i, j int) bool { return fnName(list[i]) < fnName(list[j]) })
	for _, fn := range list {
		foldingOf(p, r, fn, sides, sinks)
	}
	if sides["indexed"].n == 0 || sides["searched"].n == 0 {
		r.undecided("same-folding", "index.Wildcard", 0, "no text is given to the tree when a value is indexed, or when one is searched")
		return
	}
	for _, name := range []string{"indexed", "searched"} {
		s := sides[name]
		for op, pos := range s.ops[false] {
			r.check(op == "", "case-kept", "texts which are "+name, pos, "given as they are", "changed by "+op+" although the case is not ignored")
		}
		for op, pos := range s.ops[true] {
			switch other := sides[map[string]string{"indexed": "searched", "searched": "indexed"}[name]]; {
			case op == "":
				r.violation("same-folding", "texts which are "+name, pos, "the case of the text may not be ignored although it should", nil)
			case !caseFolds[op]:
				r.violation("same-folding", "texts which are "+name, pos, "the text is changed by "+op+", which does not only ignore its case", nil)
			case len(other.ops[true]) != 1 || !hasKey(other.ops[true], op):
				r.violation("same-folding", "texts which are "+name, pos, "the text is changed by "+op+", which is not what is done on the other side", nil)
			default:
				r.ok("same-folding", "texts which are "+name, pos, op)
			}
		}
	}
	for fn := range sinks {
		wholeText(p, r, fn)
	}
}

func hasKey(m map[string]token.Pos, k string) bool { _, ok := m[k]; return ok }

func newFolding(side string) *folding {
	return &folding{side: side, ops: map[bool]map[string]token.Pos{true: {}, false: {}}}
}

func foldingOf(p *Program, r *Report, fn *ssa.Function, sides map[string]*folding, sinks map[*ssa.Function]bool) {
	w := newWalker(p, r, Hooks{})
	search := fn.Signature.Results().Len() == 2 && strings.HasSuffix(typeName(fn.Signature.Results().At(0).Type()), "PositionIterator")
	// the option, or the pointer it is read from
	isOption := func(t *Term) bool {
		return t.any(func(x *Term) bool { return (x.op == "faddr" || x.op == "fld") && x.aux == "IgnoreCase" })
	}
	w.h.Branch = func(st *State, in *ssa.If, cond *Term, taken bool) {
		for cond.op == "un" && cond.aux == "!" {
			cond, taken = cond.args[0], !taken
		}
		if x, isNil := nilFact(cond, taken); x != nil && isOption(x) {
			if isNil {
				st.user.flags["case"] = 2
			}
			return
		}
		if cond.op == "bin" || !isOption(cond) {
			return
		}
		if taken {
			st.user.flags["case"] = 1
		} else {
			st.user.flags["case"] = 2
		}
	}
	w.h.Before = func(ci *CallInfo) bool {
		if ci.fn == nil || !p.inRepo(ci.fn) {
			return false
		}
		return ci.fn.Pkg != fn.Pkg
	}
	w.h.After = func(ci *CallInfo) {
		if !treeSink(ci.fn) {
			return
		}
		side := sides["indexed"]
		if search {
			side = sides["searched"]
		} else {
			sinks[ci.fn] = true
		}
		var text *Term
		for i, a := range ci.args {
			if i > 0 && text == nil && isBytes(ci.fn.Params[i].Type()) {
				text = a
			}
		}
		origin, ops := transformations(text)
		if origin == nil || !knownOrigin(origin) {
			r.undecided("same-folding", fnName(fn), ci.pos, "where the text given to the tree comes from is not known: "+text.String())
			return
		}
		side.n++
		op := strings.Join(ops, ", ")
		c := ci.st.user.flags["case"]
		if c != 2 {
			side.ops[true][op] = ci.pos
		}
		if c != 1 {
			side.ops[false][op] = ci.pos
		}
	}
	w.start(fn, nil)
	r.walked(w)
}

// readsRecord: the values come from there.
func readsRecord(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok && c.Common().IsInvoke() && c.Common().Method.Name() == "Get" && isNamed(c.Common().Value.Type(), "input/record.Record") {
				return true
			}
		}
	}
	return false
}

// knownOrigin: the value of a record, or the one of a filter.
func knownOrigin(t *Term) bool {
	return t.any(func(x *Term) bool {
		return x.op == "lk" || x.op == "param" || x.op == "call" && x.call != nil && strings.HasSuffix(x.call.name, ".Get") ||
			x.op == "opaque" && strings.HasPrefix(x.aux, "next:")
	})
}

// wholeText: the text is added from each one of its bytes.
func wholeText(p *Program, r *Report, fn *ssa.Function) {
	text := func(v ssa.Value) bool {
		q, ok := v.(*ssa.Parameter)
		return ok && isBytes(q.Type())
	}
	found := false
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		for _, l := range loopsOf(f) {
			for b := range l.body {
				for _, in := range b.Instrs {
					c, ok := in.(ssa.CallInstruction)
					if !ok || !treeSink(c.Common().StaticCallee()) || !l.everyRound(b) {
						continue
					}
					for _, a := range c.Common().Args {
						if isBytes(a.Type()) && suffixes(l, a, text) && l.onlyExhausted() {
							found = true
						}
					}
				}
			}
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok && treeSink(c.Common().StaticCallee()) {
					visit(c.Common().StaticCallee())
				}
			}
		}
	}
	visit(fn)
	r.check(found, "whole-text", fnName(fn), fn.Pos(), "one round for each byte", "no loop adds the text from each one of its bytes to its end")
}

// suffixes: v is, over the rounds of the loop, each end of the text.
func suffixes(l *loop, v ssa.Value, text func(ssa.Value) bool) bool {
	switch x := v.(type) {
	case *ssa.Slice:
		if x.High != nil || x.Max != nil || !text(x.X) || x.Low == nil {
			return false
		}
		first, step, next, ok := l.counter(x.Low)
		if !ok {
			return false
		}
		f, isConst := constInt(first)
		for _, e := range l.exits() {
			n, ok := l.rounds(e)
			if !ok || lenOf(n) == nil || !text(lenOf(n)) {
				continue
			}
			if isConst && step == 1 && (f == 0 && !next || f == -1 && next) {
				return true
			}
		}
		// from the last one to the first one
		if b, ok := stripConv(first).(*ssa.BinOp); ok && step == -1 && !next && b.Op == token.SUB && lenOf(stripConv(b.X)) != nil && text(lenOf(stripConv(b.X))) {
			if one, k := constInt(b.Y); k && one == 1 {
				for _, e := range l.exits() {
					a, op, c, good := e.staying()
					z, k := constInt(c)
					if good && k && stripConv(a) == stripConv(x.Low) && (op == token.GEQ && z == 0 || op == token.GTR && z == -1) {
						return true
					}
				}
			}
		}
	case *ssa.Phi:
		if x.Block() != l.header {
			return false
		}
		for i, pred := range l.header.Preds {
			if !l.body[pred] {
				if !text(x.Edges[i]) {
					return false
				}
				continue
			}
			s, ok := x.Edges[i].(*ssa.Slice)
			if !ok || s.X != x || s.High != nil || s.Low == nil {
				return false
			}
			if n, k := constInt(s.Low); !k || n != 1 {
				return false
			}
		}
		for _, e := range l.exits() {
			a, op, c, good := e.staying()
			z, k := constInt(c)
			if good && k && z == 0 && lenOf(stripConv(a)) == x && (op == token.GTR || op == token.NEQ) {
				return true
			}
		}
	}
	return false
}

// onlyExhausted: besides its end, the loop is only left on an error.
func (l *loop) onlyExhausted() bool {
	plain := 0
	for _, e := range l.exits() {
		a, op, b, ok := e.staying()
		if ok && op == token.EQL && (isErrorNil(a, b) || isErrorNil(b, a)) {
			continue
		}
		plain++
	}
	return plain == 1
}

func isErrorNil(a, b ssa.Value) bool {
	c, ok := b.(*ssa.Const)
	return ok && c.Value == nil && types.Identical(a.Type(), types.Universe.Lookup("error").Type())
}
