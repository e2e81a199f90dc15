package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C17", checkRelations) }

// isRelations: a map of configured relationships by name.
func isRelations(t types.Type) bool {
	if t == nil {
		return false
	}
	m, ok := t.Underlying().(*types.Map)
	return ok && named(m.Elem()) != nil && typeName(named(m.Elem())) == "output/relationship.RelationshipConfig"
}

func isRecords(t types.Type) bool {
	if t == nil {
		return false
	}
	s, ok := t.Underlying().(*types.Slice)
	return ok && isNamed(s.Elem(), "input/record.Record")
}

// near: the functions which fn mentions, directly or not, within its package.
func (p *Program) near(fn *ssa.Function) []*ssa.Function {
	seen := map[*ssa.Function]bool{}
	var out []*ssa.Function
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if seen[f] || len(f.Blocks) == 0 || f.Pkg != fn.Pkg {
			return
		}
		seen[f] = true
		out = append(out, f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						visit(g)
					}
				}
			}
		}
	}
	visit(fn)
	return out
}

// resolvers: the recursive functions which go over relationships and load
// the records of each.
func resolvers(p *Program) []*ssa.Function {
	var out []*ssa.Function
	for _, fn := range p.funcs {
		if fn.Pkg == nil || fn.Pkg.Pkg != p.pkg("pkg/output") || !p.reaches(fn, fn) {
			continue
		}
		ranges, loads := false, false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if x, ok := in.(*ssa.Range); ok && isRelations(x.X.Type()) {
					ranges = true
				}
			}
		}
		for _, f := range p.near(fn) {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(*ssa.Call); ok && isPositionIteratorCall(p, &c.Call) {
						loads = true
					}
				}
			}
		}
		if ranges && loads {
			out = append(out, fn)
		}
	}
	return out
}

func checkRelations(p *Program, r *Report) {
	r.explanation = "The function which resolves the relationships of a record is followed on all of its paths, with the typestate of the current relationship (which input, sorted or not, limited or not, array or not), " +
		"and its loops are matched against the collections they must exhaust. The outputs are followed up to the encoding of their answer, to check that each record had its relationships resolved."
	r.rule("own-input", 1, "the related records are searched and read in the input of the relationship")
	r.rule("own-values", 1, "the relationships are matched with the properties of the record itself")
	r.rule("all-matches", 1, "each position which was found is read and kept")
	r.rule("sorted-first", 1, "all the related records are sorted by the configured criteria before any is left out")
	r.rule("limited", 1, "an array has as many records as there are, up to the limit when there is one")
	r.rule("shape", 2, "an array relationship is a list, another one is its first record, or null without any")
	r.rule("nested", 1, "each related record has its own relationships resolved")
	r.rule("every-relationship", 1, "each configured relationship ends up in the data of the record, under its name")
	r.rule("every-record", 2, "each record which is sent had the relationships of the output resolved")
	rs := resolvers(p)
	if len(rs) == 0 {
		r.undecided("every-relationship", "output", token.NoPos, "the function which resolves the relationships was not found")
	}
	for _, fn := range rs {
		rl := &relations{p: p, r: r, fn: fn}
		rl.structure()
		rl.run()
	}
	for _, t := range p.implementers("pkg/output.Output") {
		if fn := p.method(t, "Handle"); fn != nil {
			resolvedRecords(p, r, fn, rs)
		}
	}
}

type relations struct {
	p     *Program
	r     *Report
	fn    *ssa.Function
	exits map[*ssa.If]relExit
}

type relExit struct {
	e     exitTest
	n     ssa.Value // the bound, nil when the test is another one
	error bool
}

func isItem(t types.Type) bool {
	if t == nil {
		return false
	}
	m, ok := t.Underlying().(*types.Map)
	if !ok {
		_, ok = t.Underlying().(*types.Interface)
		return ok && !isError(t) && types.NewMethodSet(t).Len() == 0
	}
	_, ok = m.Elem().Underlying().(*types.Interface)
	return ok && types.Identical(m.Key(), types.Typ[types.String])
}

func isItems(t types.Type) bool {
	if t == nil {
		return false
	}
	s, ok := t.Underlying().(*types.Slice)
	return ok && isItem(s.Elem())
}

// structure matches the loops: the one which collects the records, and the
// one which makes the items.
func (rl *relations) structure() {
	p, r := rl.p, rl.r
	rl.exits = map[*ssa.If]relExit{}
	for _, fn := range p.near(rl.fn) {
		ls := loopsOf(fn)
		innermost := func(b *ssa.BasicBlock) *loop {
			var l *loop
			for _, x := range ls {
				if x.body[b] && (l == nil || len(x.body) < len(l.body)) {
					l = x
				}
			}
			return l
		}
		name := fnName(fn)
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Call:
					if isPositionIteratorCall(p, &x.Call) {
						rl.collects(fn, innermost(b), x)
					}
					if isAllCall(&x.Call) {
						if l := innermost(b); l != nil && !overMap(l) {
							rl.makes(fn, l, x)
						}
					}
				case *ssa.IndexAddr:
					if isRecords(x.X.Type()) && isRead(x) {
						n, k := constInt(x.Index)
						r.check(inOrder(ls, x) || k && n == 0, "sorted-first", name+": order", x.Pos(), "the records are taken in their order", "the records are not taken from the first to the last one")
					}
				}
			}
		}
	}
}

func isRead(x *ssa.IndexAddr) bool {
	for _, in := range *x.Referrers() {
		if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL {
			return true
		}
	}
	return false
}

func isAllCall(c *ssa.CallCommon) bool {
	return c.IsInvoke() && c.Method.Name() == "All" && isNamed(c.Value.Type(), "input/record.Record")
}

// overMap: the loop goes over a map.
func overMap(l *loop) bool {
	for _, in := range l.header.Instrs {
		if _, ok := in.(*ssa.Next); ok {
			return true
		}
	}
	return false
}

func recordAppend(l *loop, typ func(types.Type) bool) *ssa.Call {
	for b := range l.body {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				if c := appendCall(v); c != nil && typ(c.Type()) {
					return c
				}
			}
		}
	}
	return nil
}

func (rl *relations) collects(fn *ssa.Function, l *loop, next *ssa.Call) {
	p, r, name := rl.p, rl.r, fnName(fn)
	if l == nil || overMap(l) {
		r.violation("all-matches", name, next.Pos(), "a position is taken outside of a loop which goes over all of them", nil)
		return
	}
	s := &loopSite{fn: fn, l: l, next: next}
	r.ok("all-matches", name, next.Pos(), "the loop ends when there is no more position, and keeps one record in each round")
	if !l.everyRound(next.Block()) {
		r.violation("all-matches", name, next.Pos(), "a round of this loop can go without taking a position", nil)
	}
	for _, e := range l.exits() {
		if !s.endsOnNothing(p, e) {
			r.violation("all-matches", name, e.in.Cond.Pos(), "this loop can end here although there may be more positions", nil)
		}
	}
	app := recordAppend(l, isRecords)
	if app == nil {
		app = recordAppend(l, func(t types.Type) bool {
			s, ok := t.Underlying().(*types.Slice)
			return ok && (isItem(s.Elem()) || isNamed(s.Elem(), "input/record.Position"))
		})
	}
	switch {
	case app == nil:
		r.violation("all-matches", name, next.Pos(), "what is found is not kept in this loop", nil)
	case !l.everyRound(app.Block()):
		r.violation("all-matches", name, app.Pos(), "a position can be taken without its record being kept", nil)
	case appendedCount(app) != 1:
		r.violation("all-matches", name, app.Pos(), "the number of records kept for each position is not 1", nil)
	}
}

// makes notes the tests which end the loop that makes the items.
func (rl *relations) makes(fn *ssa.Function, l *loop, all *ssa.Call) {
	app := recordAppend(l, isItems)
	s := &loopSite{fn: fn, l: l, next: all, app: app}
	for _, e := range l.exits() {
		x := relExit{e: e}
		if a, op, b, ok := e.staying(); ok && op == token.EQL && (isNilConst(b) && isError(a.Type()) || isNilConst(a) && isError(b.Type())) {
			x.error = true
		} else if n, ok := l.rounds(e); ok && (e.in.Block() == l.header || e.in.Block().Dominates(all.Block())) {
			x.n = n
		} else if app != nil {
			var bound ssa.Value
			if s.lengthTest(rl.p, e, app, func(v ssa.Value) bool {
				if bound == nil {
					bound = v
				}
				return true
			}) {
				x.n = bound
			}
		}
		rl.exits[e.in] = x
	}
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value == nil && !isInt(c.Type())
}

func (rl *relations) run() {
	p, r, fn := rl.p, rl.r, rl.fn
	name := fnName(fn)
	w := newWalker(p, r, Hooks{})
	var rels, data *Term
	rd := &rounds{w: w, over: func(st *State, c *Term) bool { return c == rels }, facts: []string{"stored"}}
	copies := &rounds{w: w, ns: "copy:", over: func(st *State, c *Term) bool { return c == data }, facts: []string{"copied"}}
	merges := &rounds{w: w, ns: "merge:", over: func(st *State, c *Term) bool { return st.user.terms["out"] == c && c != nil && c != data }, facts: []string{"merged"}}
	cfg := func(st *State) *Term {
		for _, s := range rd.sites(st) {
			if st.user.flags["in:"+s] == 1 {
				return st.user.terms["val:"+s]
			}
		}
		return nil
	}
	is := func(st *State, t *Term, field string) bool { return fieldOf(t, cfg(st), field) }
	fl := func(st *State, k string) int { return st.user.flags["r:"+k] }
	set := func(st *State, k string, v int) { st.user.flags["r:"+k] = v }
	clear := func(st *State) {
		for k := range st.user.flags {
			if len(k) > 2 && k[:2] == "r:" {
				delete(st.user.flags, k)
			}
		}
		for _, s := range []string{"data", "resolved", "records", "sorted", "items"} {
			delete(st.user.sets, s)
		}
	}
	// what a number of records is: all, limit, or a constant
	var kind func(st *State, t *Term) string
	kind = func(st *State, t *Term) string {
		t = bare(t)
		if is(st, t, "Limit") {
			return "limit"
		}
		if n, ok := t.intVal(); ok {
			if n == 0 && fl(st, "got") == 0 {
				return "all" // there is none
			}
			if n == 1 {
				return "one"
			}
			return "const"
		}
		if t.op == "len" || t.op == "pure" && t.aux == "len" {
			x := t.args[0]
			if isRecords(x.typ) && !isPart(x) {
				return "all"
			}
			if isPart(x) && isRecords(x.args[0].typ) {
				return sliceKind(st, x, kind)
			}
			if x.op == "mk" && len(x.args) == 1 {
				return kind(st, x.args[0])
			}
		}
		if t.call != nil && t.call.name == "builtin min" && len(t.call.args) == 2 {
			a, b := kind(st, t.call.args[0]), kind(st, t.call.args[1])
			if a == "limit" && b == "all" || a == "all" && b == "limit" {
				return "min"
			}
			if a == "one" && b == "all" || a == "all" && b == "one" {
				return "one"
			}
		}
		return "other"
	}
	// ended: the loop ends with that many items
	reached := func(st *State, k string) string {
		switch {
		case k == "all":
			return ""
		case (k == "limit" || k == "min") && fl(st, "limit") == 1 && fl(st, "array") == 1:
			return ""
		case k == "one" && fl(st, "array") == 2:
			return ""
		case (k == "limit" || k == "min") && fl(st, "limit") == 1:
			return "" // at least one
		}
		return "the list of the related records can end here although there are more, and they are within the limit (" + k + ")"
	}
	bounded := func(st *State, k string) bool {
		return k == "limit" || k == "min" || k == "all" && fl(st, "fits") == 1
	}
	free := func(st *State) bool {
		return fl(st, "array") == 2 || fl(st, "limit") == 2 || fl(st, "fits") == 1
	}
	item := func(st *State, e *Term, in token.Pos) {
		_, isData := st.user.has("data", bare(e))
		_, done := st.user.has("resolved", bare(e))
		if !isData && !done {
			r.violation("shape", name+": item", in, "what is added to the related records is not the data of one: "+e.String(), st)
			return
		}
		if !done && fl(st, "norels") == 0 {
			r.violation("nested", name, in, "a related record is added although its own relationships were not resolved", st)
		} else {
			r.ok("nested", name, in, "the related record has its own relationships")
		}
		if fl(st, "added") == 1 && fl(st, "below") == 0 && !free(st) {
			r.violation("limited", name, in, "a related record is added although the limit may be reached", st)
		}
		set(st, "added", 1)
		set(st, "below", 0)
	}
	w.h.Inline = func(st *State, f *ssa.Function) bool {
		return f.Pkg == fn.Pkg || f.Parent() != nil && f.Parent().Pkg == fn.Pkg
	}
	w.h.After = func(ci *CallInfo) {
		st := ci.st
		c := cfg(st)
		if c == nil {
			return
		}
		inputOf := func(t *Term) bool {
			_, k, ok := entryOf(t)
			return ok && is(st, k, "Input")
		}
		switch {
		case ci.method != nil && ci.method.Name() == "GetRecordPositions":
			r.check(inputOf(ci.args[1]), "own-input", name+": search", ci.pos, "the input of the relationship", "the index is not searched for the records of the input of the relationship: "+ci.args[1].String())
		case ci.method != nil && ci.method.Name() == "Get" && isNamed(recvType(ci), "input.Input"):
			set(st, "got", 1)
			r.check(inputOf(ci.args[0]), "own-input", name+": record", ci.pos, "the input of the relationship", "the record is not read in the input of the relationship: "+ci.args[0].String())
		case isNamed(recvType(ci), "input/record.List") && methodName(ci) == "Sort":
			switch {
			case !is(st, ci.args[1], "Sort"):
				r.violation("sorted-first", name, ci.pos, "the criteria are not the ones of the relationship: "+ci.args[1].String(), st)
			case isPart(ci.args[0]):
				r.violation("sorted-first", name, ci.pos, "only a part of the records is sorted", st)
			default:
				st.user.add("sorted", ci.args[0], "")
				st.user.add("sorted", ci.result, "")
			}
		case ci.common.IsInvoke() && isAllCall(ci.common):
			rec := bare(ci.args[0])
			st.user.add("data", w.res(ci, 0), "")
			if fl(st, "nosort") == 1 || fl(st, "array") == 2 {
				r.ok("sorted-first", name, ci.pos, "the records are sorted before they are used")
				break
			}
			if rec.op == "ld" && rec.args[0].op == "iaddr" {
				x := rec.args[0].args[0]
				if isPart(x) {
					x = x.args[0]
				}
				if _, ok := st.user.has("sorted", x); ok {
					r.ok("sorted-first", name, ci.pos, "the records are sorted before they are used")
					break
				}
			}
			r.violation("sorted-first", name, ci.pos, "a record is taken although the records may have to be sorted first", st)
		case ci.fn == fn:
			var d, rels *Term
			for i, prm := range fn.Params {
				if isRelations(prm.Type()) {
					rels = ci.args[i]
				} else if isFilters(prm.Type()) {
					d = ci.args[i]
				}
			}
			if rels == nil || !is(st, rels, "Relationships") {
				r.violation("nested", name, ci.pos, "the relationships which are resolved are not the ones of the related record", st)
			} else if _, ok := st.user.has("data", bare(d)); !ok {
				r.violation("nested", name, ci.pos, "the nested relationships are not resolved for the related record", st)
			} else {
				st.user.add("resolved", d, "")
				st.user.add("resolved", w.res(ci, 0), "")
			}
		case ci.name == "builtin append":
			if isItems(ci.result.typ) || isItems(ci.args[0].typ) {
				if len(ci.vargs) != 2 {
					r.violation("limited", name, ci.pos, "the number of items added for each record is not 1", st)
				}
				item(st, ci.vargs[1], ci.pos)
				st.user.add("items", ci.result, "")
			}
		}
	}
	w.h.Store = func(st *State, in *ssa.Store, addr, val *Term) {
		if addr.op == "iaddr" && cfg(st) != nil && isItems(addr.args[0].typ) {
			item(st, val, in.Pos())
			st.user.add("items", addr.args[0], "")
		}
	}
	w.h.MapSet = func(st *State, in *ssa.MapUpdate, m, k, v *Term) {
		if copies.inside(st) && m != data {
			if copies.mark(st, "copied", func(key, e *Term) bool {
				em, ek, ok := entryOf(v)
				return k == key && (v == e || ok && em == data && ek == key)
			}) {
				st.user.terms["copy"] = m
			}
			return
		}
		if merges.inside(st) {
			merges.mark(st, "merged", func(key, e *Term) bool {
				em, ek, ok := entryOf(v)
				return m == data && k == key && (v == e || ok && em == st.user.terms["out"] && ek == key)
			})
			return
		}
		if isFilters(in.Map.Type()) {
			if from, fk, ok := entryOf(v); ok {
				if f := bare(fk); f != nil && f.op == "ld" && f.args[0].op == "faddr" && f.args[0].aux == "ParentProperty" {
					st.user.terms["from"] = from
					switch {
					case from == data:
						st.user.flags["fromData"] = 1
						if st.user.flags["toData"] == 1 {
							r.violation("own-values", name, in.Pos(), "a relationship is matched with data where other relationships were already stored", st)
						}
					case from == st.user.terms["copied"] || from.call != nil && from.call.name == "maps.Clone" && from.call.args[0] == data:
					default:
						r.violation("own-values", name, in.Pos(), "what is matched is not a property of the record: "+from.String(), st)
					}
					r.ok("own-values", name, in.Pos(), "the values are the properties of the record")
					return
				}
			}
		}
		c := cfg(st)
		if c == nil || !isFilters(in.Map.Type()) {
			return
		}
		if !rd.mark(st, "", func(key, e *Term) bool { return key == k }) {
			return
		}
		// the relationship is stored
		if m == data {
			st.user.flags["toData"] = 1
			if st.user.flags["fromData"] == 1 {
				r.violation("own-values", name, in.Pos(), "a relationship is stored in the data which the following ones are matched with", st)
			}
		}
		if o := st.user.terms["out"]; o != nil && o != m {
			r.violation("every-relationship", name, in.Pos(), "the relationships are stored in several places", st)
		}
		st.user.terms["out"] = m
		rd.mark(st, "stored", func(key, e *Term) bool { return true })
		x := bare(v)
		rl.shape(w, st, in, x, fl(st, "array"), fl(st, "noitems") == 1)
		switch {
		case fl(st, "badexit") == 1:
			r.violation("limited", name, in.Pos(), "the related records can be cut before all of them were added, for another reason than the limit", st)
		case fl(st, "ended") == 0 && fl(st, "array") != 2:
			r.violation("limited", name, in.Pos(), "the related records were not gone over", st)
		default:
			r.ok("limited", name, in.Pos(), "as many records as there are, up to the limit")
		}
	}
	w.h.Slice = func(st *State, in *ssa.Slice, x, lo, hi *Term) {
		if cfg(st) == nil || !isRecords(in.X.Type()) && !isItems(in.X.Type()) {
			return
		}
		if in.Low != nil {
			if n, ok := constInt(in.Low); !ok || n != 0 {
				r.violation("limited", fnName(in.Parent()), in.Pos(), "the first related records are left out", st)
			}
		}
		if in.High != nil {
			if why := reached(st, kind(st, w.val(st, in.High))); why != "" {
				r.violation("limited", fnName(in.Parent()), in.Pos(), why, st)
			}
		}
	}
	w.h.Branch = func(st *State, in *ssa.If, cond *Term, taken bool) {
		if start, _ := rd.branch(st, in, cond, taken); start {
			clear(st)
			return
		}
		if copies.over(st, headerColl(copies, st, cond, taken)) {
			if _, end := copies.branch(st, in, cond, taken); end && copies.covered(st, "copied") {
				st.user.terms["copied"] = st.user.terms["copy"]
			}
			return
		}
		merges.branch(st, in, cond, taken)
		if knownEmpty(cond, taken) == rels {
			st.user.flags["none"] = 1
		}
		if cfg(st) == nil {
			return
		}
		c, v := cond, taken
		for c.op == "un" && c.aux == "!" {
			c, v = c.args[0], !v
		}
		if is(st, c, "IsArray") {
			set(st, "array", 2)
			if v {
				set(st, "array", 1)
			}
			return
		}
		if coll := knownEmpty(c, v); coll != nil {
			switch {
			case is(st, coll, "Sort"):
				set(st, "nosort", 1)
			case is(st, coll, "Relationships"):
				set(st, "norels", 1)
			case isItems(coll.typ) || isRecords(coll.typ):
				set(st, "noitems", 1)
			}
		}
		if x, ok := rl.exits[in]; ok && !x.error {
			k := "other"
			if x.n != nil {
				k = kind(st, w.val(st, x.n))
			}
			if taken == x.e.stay {
				if bounded(st, k) {
					set(st, "below", 1)
				}
			} else {
				set(st, "ended", 1)
				if why := reached(st, k); why != "" {
					set(st, "badexit", 1)
				}
				if k == "all" && fl(st, "added") == 0 {
					set(st, "noitems", 1)
				}
			}
		}
		if c.op != "bin" {
			return
		}
		a, b := bare(c.args[0]), bare(c.args[1])
		op := c.aux
		ka, kb := kind(st, a), kind(st, b)
		flip := func() {
			a, b, ka, kb = b, a, kb, ka
			op = map[string]string{"<": ">", "<=": ">=", ">": "<", ">=": "<="}[op]
			if op == "" {
				op = c.aux
			}
		}
		if kb == "limit" {
			flip()
		}
		if ka != "limit" {
			return
		}
		holds := func(x, y int64) bool {
			switch op {
			case "<":
				return (x < y) == v
			case "<=":
				return (x <= y) == v
			case ">":
				return (x > y) == v
			case ">=":
				return (x >= y) == v
			case "==":
				return (x == y) == v
			case "!=":
				return (x != y) == v
			}
			return true
		}
		if n, ok := b.intVal(); ok {
			if !holds(0, n) {
				set(st, "limit", 1)
			} else if !holds(1, n) && !holds(2, n) {
				set(st, "limit", 2)
			}
		} else if kb == "all" {
			if !holds(0, 1) { // limit < all is excluded
				set(st, "fits", 1)
			}
		}
	}
	w.h.Exit = func(st *State, f *ssa.Function, ret []*Term) bool {
		if n, k := w.isNil(st, ret[len(ret)-1]); k && !n {
			return false
		}
		out := st.user.terms["out"]
		switch {
		case rd.inside(st):
			r.violation("every-relationship", name, f.Pos(), "the data is returned although some relationships are left", st)
		case st.user.flags["none"] == 1 && (len(ret) == 1 || ret[0] == data):
			r.ok("every-relationship", name, f.Pos(), "there is none")
		case !rd.covered(st, "stored"):
			r.violation("every-relationship", name, f.Pos(), "the data is returned although a relationship may not be in it", st)
		case len(ret) > 1 && ret[0] != data && ret[0] != out:
			r.violation("every-relationship", name, f.Pos(), "what is returned is not the data of the record: "+ret[0].String(), st)
		case out != nil && out != data && !(merges.finished(st) && merges.covered(st, "merged")):
			r.violation("every-relationship", name, f.Pos(), "the relationships are not all stored in the data of the record", st)
		default:
			r.ok("every-relationship", name, f.Pos(), "each relationship is in the data which is returned")
		}
		return false
	}
	w.start(fn, func(st *State, args []*Term) {
		for i, prm := range fn.Params {
			if isRelations(prm.Type()) {
				rels = args[i]
			} else if isFilters(prm.Type()) {
				data = args[i]
			}
		}
	})
	if rels == nil || data == nil {
		r.undecided("every-relationship", name, fn.Pos(), "its parameters were not recognised")
	}
	r.walked(w)
}

// isPart: a part of another slice.
func isPart(t *Term) bool { return t.op == "slice" && t.args[0].op != "alloc" }

func sliceKind(st *State, x *Term, kind func(*State, *Term) string) string {
	if len(x.args) >= 3 && x.args[2] != nil {
		return kind(st, x.args[2])
	}
	return "all"
}

// shape: what is stored for a relationship.
func (rl *relations) shape(w *Walker, st *State, in *ssa.MapUpdate, x *Term, array int, none bool) {
	r, name := rl.r, fnName(rl.fn)
	isList := x.typ != nil && isItems(x.typ)
	isNull, known := w.isNil(st, x)
	switch array {
	case 0:
		r.violation("shape", name, in.Pos(), "the relationship is stored in the same way whether it is an array or not", st)
	case 1:
		switch {
		case known && isNull:
			r.violation("shape", name+": array", in.Pos(), "an array relationship can be null", st)
		case !isList:
			r.violation("shape", name+": array", in.Pos(), "an array relationship is not a list: "+x.String(), st)
		default:
			r.ok("shape", name+": array", in.Pos(), "a list")
		}
	case 2:
		if known && isNull {
			r.check(none, "shape", name+": null", in.Pos(), "null when there is no record", "the relationship can be null although there are records")
			return
		}
		ok := false
		if x.op == "ld" && x.args[0].op == "iaddr" {
			n, k := x.args[0].args[1].intVal()
			ok = k && n == 0
		}
		if _, is := st.user.has("resolved", x); is {
			ok = true
		}
		if isList {
			ok = false
		}
		r.check(ok, "shape", name+": single", in.Pos(), "the first record", "what is stored for a relationship which is not an array is not its first record: "+x.String())
	}
}

// resolvedRecords: each record of an answer had its relationships resolved.
func resolvedRecords(p *Program, r *Report, fn *ssa.Function, rs []*ssa.Function) {
	name := fnName(fn)
	isResolver := func(f *ssa.Function) bool {
		for _, x := range rs {
			if x == f {
				return true
			}
		}
		return false
	}
	w := newWalker(p, r, Hooks{})
	recv := (*Term)(nil)
	seen := 0
	w.h.Inline = func(st *State, f *ssa.Function) bool {
		return !isResolver(f) && (f.Pkg == fn.Pkg || f.Parent() != nil && f.Parent().Pkg == fn.Pkg)
	}
	w.h.After = func(ci *CallInfo) {
		st := ci.st
		switch {
		case isAllCall(ci.common):
			st.user.terms["pending"] = w.res(ci, 0)
			seen++
		case ci.fn != nil && isResolver(ci.fn):
			ok := true
			for i, prm := range ci.fn.Params {
				switch {
				case isRelations(prm.Type()):
					x := fieldIn(ci.args[i], "Relationships")
					if x = fieldIn(x, "config"); x == nil || x != recv {
						if y := fieldIn(ci.args[i], "Relationships"); y == nil || !y.contains(recv) {
							ok = false
							r.violation("every-record", name, ci.pos, "the relationships which are resolved are not the ones of the output: "+ci.args[i].String(), st)
						}
					}
				case isFilters(prm.Type()):
					if st.user.terms["pending"] != ci.args[i] {
						ok = false
						r.violation("every-record", name, ci.pos, "the relationships are not resolved for the record which was read", st)
					}
				}
			}
			if ok {
				st.user.terms["done"] = w.res(ci, 0)
				delete(st.user.terms, "pending")
			}
		case ci.name == "(*encoding/json.Encoder).Encode" || ci.name == "encoding/json.Marshal":
			if st.user.terms["pending"] != nil {
				r.violation("every-record", name, ci.pos, "a record can be sent although its relationships were not resolved", st)
			} else {
				r.ok("every-record", name, ci.pos, "the records have their relationships")
			}
		}
	}
	w.start(fn, func(st *State, args []*Term) { recv = args[0] })
	if seen == 0 {
		r.undecided("every-record", name, fn.Pos(), "the reading of the records was not found")
	}
	r.walked(w)
}
