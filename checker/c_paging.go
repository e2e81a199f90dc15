package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C11", checkPaging) }

func checkPaging(p *Program, r *Report) {
	r.explanation = "The values of the limit and of the offset are followed on every path of the functions which compute them, and the loops which walk the positions of a list are matched against them: " +
		"how many positions are skipped, under which test a record is added, and on which conditions the loop ends."
	r.rule("limit-value", 2, "the limit is the requested one or the default one, at least 1, never above the maximum")
	r.rule("offset-value", 2, "the offset is the requested one or none, never negative")
	r.rule("skips-offset", 1, "exactly as many records as the offset are skipped, before any is returned")
	r.rule("page-limit", 1, "records are added one by one until the limit is reached or there are no more")
	if fn := p.mustFn(r, "(*output.JsonArray).getLimit"); fn != nil {
		limitValue(p, r, fn, "limit-value", "Limit", true)
	}
	if fn := p.mustFn(r, "(*output.JsonArray).getOffset"); fn != nil {
		limitValue(p, r, fn, "offset-value", "Offset", false)
	}
	pageLoops(p, r)
}

// configField: the term is the value of the given field of the configuration.
func configField(t *Term, group, field string) bool {
	for t.op == "conv" {
		t = t.args[0]
	}
	var last string
	switch {
	case t.op == "ld" && t.args[0].op == "faddr":
		last = t.args[0].aux
	case t.op == "fld":
		last = t.aux
	default:
		return false
	}
	return last == field && t.any(func(x *Term) bool { return (x.op == "faddr" || x.op == "fld") && x.aux == group })
}

func limitValue(p *Program, r *Report, fn *ssa.Function, rule, group string, isLimit bool) {
	name := fnName(fn)
	w := newWalker(p, r, Hooks{})
	deconv := func(t *Term) *Term {
		for t.op == "conv" && t.typ != nil && !(t.args[0].typ != nil && narrows(t.args[0].typ, t.typ)) && !narrows(types.Typ[types.Int], t.typ) {
			t = t.args[0]
		}
		return t
	}
	w.h.Branch = func(st *State, in *ssa.If, cond *Term, taken bool) {
		c, v := cond, taken
		for c.op == "un" && c.aux == "!" {
			c, v = c.args[0], !v
		}
		if c.op == "lkok" && configField(c.args[1], group, "Parameter") {
			st.user.flags["present"] = 2
			if v {
				st.user.flags["present"] = 1
			}
		}
		if c.op != "bin" {
			return
		}
		a, b, op := deconv(c.args[0]), deconv(c.args[1]), c.aux
		if configField(a, group, "Max") {
			a, b = b, a
			op = map[string]string{"<": ">", "<=": ">=", ">": "<", ">=": "<="}[op]
		}
		if !configField(b, group, "Max") {
			return
		}
		// a compared to the maximum
		if !v {
			op = map[string]string{"<": ">=", "<=": ">", ">": "<=", ">=": "<"}[op]
		}
		switch op {
		case "<", "<=":
			st.user.add("within", a, "")
		case ">", ">=":
			st.user.add("above", a, "")
		}
	}
	w.h.After = func(ci *CallInfo) {
		if ci.name == "builtin min" && len(ci.args) == 2 {
			ci.st.user.terms["min"] = ci.result
		}
	}
	// source of the value: requested, default, or 0
	var source func(st *State, t *Term) string
	source = func(st *State, t *Term) string {
		t = deconv(t)
		if configField(t, group, "Default") {
			if st.user.flags["present"] == 2 {
				return ""
			}
			return "the default is used although the parameter may have been given"
		}
		if n, ok := t.intVal(); ok && !isLimit && n == 0 {
			if st.user.flags["present"] == 2 {
				return ""
			}
			return "the offset is ignored although the parameter may have been given"
		}
		parsed := t
		if parsed.op == "ext" && parsed.aux == "0" {
			parsed = parsed.args[0]
		}
		switch parsed.aux {
		default:
			if c := parsed.call; c == nil || c.name != "strconv.Atoi" && c.name != "strconv.ParseInt" && c.name != "strconv.ParseUint" {
				return "the value is neither the requested one nor the default one: " + t.String()
			}
		case "strconv.Atoi", "strconv.ParseInt", "strconv.ParseUint":
		}
		arg := parsed.args[0]
		if arg.op != "lk" || !configField(arg.args[1], group, "Parameter") {
			return "the value does not come from the parameter: " + arg.String()
		}
		if len(parsed.args) > 1 {
			if n, ok := parsed.args[1].intVal(); !ok || n != 10 {
				return "the parameter is not read as a decimal number"
			}
		}
		if st.user.flags["present"] != 1 {
			return "the parameter may be missing"
		}
		lo, _ := w.bounds(st, t, 0)
		min := int64(0)
		if isLimit {
			min = 1
		}
		if lo == nil || *lo < min {
			return sprintf("the requested value may be less than %v", min)
		}
		return ""
	}
	w.h.Exit = func(st *State, f *ssa.Function, ret []*Term) bool {
		if n, k := w.isNil(st, ret[len(ret)-1]); k && !n {
			r.ok(rule, name+": refusals", f.Pos(), "refused")
			return false
		}
		v := deconv(ret[0])
		bad := ""
		if isLimit && configField(v, group, "Max") {
			bad = "the maximum is used although the limit is not known to be above it"
			for a := range st.user.sets["above"] {
				if why := source(st, a); why == "" {
					bad = ""
				} else {
					bad = why
				}
			}
		} else {
			bad = source(st, v)
			if bad == "" && isLimit {
				if _, ok := st.user.has("within", v); !ok {
					bad = "the limit " + v.String() + " is not known to be within the maximum"
				}
			}
		}
		if bad != "" {
			r.violation(rule, name, f.Pos(), bad, st)
		} else {
			r.ok(rule, name, f.Pos(), "each value comes from the parameter or the configuration, within its bounds")
		}
		return false
	}
	w.start(fn, nil)
	r.walked(w)
}

// isIteratorCall: the next position is asked for.
func isPositionIteratorCall(p *Program, c *ssa.CallCommon) bool {
	if c.IsInvoke() || c.StaticCallee() != nil {
		return false
	}
	s := c.Signature()
	return s.Params().Len() == 0 && s.Results().Len() == 2 && isPositionPtr(p, s.Results().At(0).Type()) && isError(s.Results().At(1).Type())
}

// pageFunctions: the Handle of the lists and its helpers; what is recursive
// (the relationships) is the concern of another property.
func pageFunctions(p *Program, root *ssa.Function) []*ssa.Function {
	seen := map[*ssa.Function]bool{}
	var out []*ssa.Function
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if seen[f] || !p.inRepo(f) || len(f.Blocks) == 0 || f.Pkg != root.Pkg {
			return
		}
		seen[f] = true
		if p.reaches(f, f) {
			return
		}
		out = append(out, f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						visit(g)
					}
				}
			}
		}
	}
	visit(root)
	return out
}

// reaches: there is a chain of static mentions from a to b.
func (p *Program) reaches(a, b *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function) bool
	visit = func(f *ssa.Function) bool {
		for _, bl := range f.Blocks {
			for _, in := range bl.Instrs {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						if g == b {
							return true
						}
						if p.inRepo(g) && !seen[g] {
							seen[g] = true
							if visit(g) {
								return true
							}
						}
					}
				}
			}
		}
		return false
	}
	return visit(a)
}

func pageLoops(p *Program, r *Report) {
	t := p.typ("pkg/output.JsonArray")
	if t == nil {
		r.undecided("page-limit", "output.JsonArray", 0, "the type was not found")
		return
	}
	root := p.method(t, "Handle")
	if root == nil {
		r.undecided("page-limit", "output.JsonArray", 0, "its Handle method was not found")
		return
	}
	resultOf := func(name string) func(ssa.Value) bool {
		return func(v ssa.Value) bool {
			e, ok := v.(*ssa.Extract)
			if !ok || e.Index != 0 {
				return false
			}
			c, ok := e.Tuple.(*ssa.Call)
			return ok && c.Call.StaticCallee() != nil && fnName(c.Call.StaticCallee()) == name
		}
	}
	limit := resultOf("(*output.JsonArray).getLimit")
	offset := resultOf("(*output.JsonArray).getOffset")

	var skips, pages []*loopSite
	for _, fn := range pageFunctions(p, root) {
		r.funcs[fnName(fn)] = true
		ls := loopsOf(fn)
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok || !isPositionIteratorCall(p, &c.Call) {
					continue
				}
				var l *loop
				for _, x := range ls {
					if x.body[b] && (l == nil || len(x.body) < len(l.body)) {
						l = x
					}
				}
				if l == nil {
					r.violation("skips-offset", fnName(fn), c.Pos(), "a position is taken outside of the loops which skip the offset and fill the page", nil)
					continue
				}
				s := &loopSite{fn: fn, l: l, next: c}
				if app := pageAppend(l); app != nil {
					s.app = app
					pages = append(pages, s)
				} else {
					skips = append(skips, s)
				}
			}
		}
	}
	if len(skips) == 0 {
		r.violation("skips-offset", fnName(root), root.Pos(), "no loop skips the records before the offset", nil)
	}
	if len(pages) == 0 {
		r.undecided("page-limit", fnName(root), root.Pos(), "the loop which collects the records was not found")
	}
	if len(skips) > 1 {
		r.violation("skips-offset", fnName(root), skips[1].next.Pos(), "positions are skipped in more than one loop", nil)
	}
	if len(pages) > 1 {
		r.violation("page-limit", fnName(root), pages[1].next.Pos(), "positions are taken more than once for each record", nil)
	}
	for _, s := range skips {
		s.check(p, r, "skips-offset", offset, "the offset", nil)
	}
	for _, s := range pages {
		s.check(p, r, "page-limit", limit, "the limit", s.app)
	}
	for _, s := range skips {
		for _, q := range pages {
			if !p.precedes(root, s.fn, s.l.header, q.fn, q.l.header) {
				r.violation("skips-offset", fnName(s.fn), s.next.Pos(), "the records are not always skipped before the page is filled", nil)
			}
		}
	}
}

type loopSite struct {
	fn   *ssa.Function
	l    *loop
	next *ssa.Call
	app  *ssa.Call
}

// pageAppend: the slice which grows by one on the rounds of the loop.
func pageAppend(l *loop) *ssa.Call {
	for b := range l.body {
		for _, in := range b.Instrs {
			v, ok := in.(ssa.Value)
			if !ok {
				continue
			}
			if c := appendCall(v); c != nil {
				if ph, ok := c.Call.Args[0].(*ssa.Phi); ok && l.body[ph.Block()] {
					return c
				}
				if _, ok := c.Call.Args[0].(*ssa.UnOp); ok {
					return c
				}
			}
		}
	}
	return nil
}

// check: the loop makes as many rounds as bound says, or ends because there
// are no more positions, or fails.
func (s *loopSite) check(p *Program, r *Report, rule string, bound func(ssa.Value) bool, what string, app *ssa.Call) {
	name := fnName(s.fn)
	bad := func(pos token.Pos, f string, a ...interface{}) {
		r.violation(rule, name, pos, sprintf(f, a...), nil)
	}
	r.ok(rule, name, s.next.Pos(), "bounded by "+what+", ends early only when there is no more")
	if !s.l.everyRound(s.next.Block()) {
		bad(s.next.Pos(), "a round of this loop can go without taking a position")
	}
	if app != nil {
		if !s.l.everyRound(app.Block()) {
			bad(app.Pos(), "a position can be taken without its record being added")
		}
		if n := appendedCount(app); n != 1 {
			bad(app.Pos(), "the number of records added for each position is not 1")
		}
	}
	bounded := false
	for _, e := range s.l.exits() {
		if s.endsOnNothing(p, e) {
			continue
		}
		if n, ok := s.l.rounds(e); ok && p.comesFrom(n, bound) {
			if e.in.Block() == s.l.header || e.in.Block().Dominates(s.next.Block()) {
				bounded = true
				continue
			}
		}
		if app != nil && s.lengthTest(p, e, app, bound) {
			bounded = true
			continue
		}
		bad(e.in.Cond.Pos(), "this loop can end here although %s is not reached and there may be more records (or it does not stop exactly at %s)", what, what)
	}
	if !bounded {
		bad(s.next.Pos(), "the rounds of this loop are not bounded by %s", what)
	}
}

func appendedCount(c *ssa.Call) int {
	if len(c.Call.Args) != 2 {
		return 0
	}
	sl, ok := c.Call.Args[1].(*ssa.Slice)
	if !ok {
		return -1
	}
	pt, ok := sl.X.Type().Underlying().(*types.Pointer)
	if !ok {
		return -1
	}
	a, ok := pt.Elem().Underlying().(*types.Array)
	if !ok {
		return -1
	}
	return int(a.Len())
}

// lengthTest: the loop goes on only while fewer records than the limit have
// been added.
func (s *loopSite) lengthTest(p *Program, e exitTest, app *ssa.Call, bound func(ssa.Value) bool) bool {
	a, op, b, ok := e.staying()
	if !ok {
		return false
	}
	x := lenOf(a)
	if x == nil {
		x = lenOf(b)
		b = a
		op = flipOp(op)
	}
	if x == nil || op != token.LSS && op != token.NEQ || !p.comesFrom(b, bound) {
		return false
	}
	if x == app {
		// after the record was added: at least one is always allowed
		return s.l.everyRound(e.in.Block())
	}
	if x != app.Call.Args[0] && !sameCell(x, app.Call.Args[0]) {
		return false
	}
	if sameCell(x, app.Call.Args[0]) && !e.in.Block().Dominates(app.Block()) {
		return s.l.everyRound(e.in.Block())
	}
	return e.in.Block().Dominates(app.Block())
}

// sameCell: both are read from the same variable.
func sameCell(a, b ssa.Value) bool {
	x, ok := a.(*ssa.UnOp)
	y, ok2 := b.(*ssa.UnOp)
	return ok && ok2 && x.Op == token.MUL && y.Op == token.MUL && x.X == y.X
}

// endsOnNothing: the loop ends because there is no position, or on a failure.
func (s *loopSite) endsOnNothing(p *Program, e exitTest) bool {
	a, op, b, ok := e.staying()
	if !ok {
		return false
	}
	isNil := func(v ssa.Value) bool { c, ok := v.(*ssa.Const); return ok && c.Value == nil }
	if isNil(a) {
		a, b = b, a
	}
	if !isNil(b) {
		return false
	}
	if isError(a.Type()) {
		return op == token.EQL
	}
	if !isPositionPtr(p, a.Type()) || op != token.NEQ {
		return false
	}
	return p.comesFrom(a, func(v ssa.Value) bool {
		x, ok := v.(*ssa.Extract)
		return ok && x.Index == 0 && x.Tuple == s.next
	})
}

// precedes: block a (of fa) is always executed before block b (of fb), as seen
// from root.
func (p *Program) precedes(root, fa *ssa.Function, a *ssa.BasicBlock, fb *ssa.Function, b *ssa.BasicBlock) bool {
	for _, sa := range p.lift(root, fa, a, 5) {
		for _, sb := range p.lift(root, fb, b, 5) {
			if sa.fn != sb.fn {
				continue
			}
			if sa.b == sb.b {
				return sa.idx < sb.idx
			}
			return sa.b.Dominates(sb.b)
		}
	}
	return false
}

type liftedSite struct {
	fn  *ssa.Function
	b   *ssa.BasicBlock
	idx int
}

// lift: the block itself, and the call sites through which it is reached.
func (p *Program) lift(root, fn *ssa.Function, b *ssa.BasicBlock, depth int) []liftedSite {
	out := []liftedSite{{fn, b, 0}}
	if fn == root || depth == 0 {
		return out
	}
	for _, c := range p.callSites(fn) {
		if c.Parent() == fn {
			continue
		}
		for i, l := range p.lift(root, c.Parent(), c.Block(), depth-1) {
			if i == 0 {
				l.idx = instrIndex(c)
			}
			out = append(out, l)
		}
	}
	return out
}
