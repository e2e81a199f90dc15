package main

import (
	"go/token"
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C15", checkRefusals)
	register("C16", checkFilters)
}

// A search is the GetRecordPositions method of an index.
type search struct {
	p       *Program
	r       *Report
	t       types.Type
	fn      *ssa.Function
	w       *Walker
	rd      *rounds
	input   *Term // the requested input
	filters *Term // the requested filters
	recv    *Term
	// where the elements of the rounds were put
	collected map[ssa.Value]token.Pos
	seq       func(st *State, ci *CallInfo)
	onElement func(st *State, in ssa.Value, elem *Term)
}

func searches(p *Program, r *Report, rule string) []*search {
	var out []*search
	for _, t := range p.implementers("pkg/index.Index") {
		fn := p.method(t, "GetRecordPositions")
		if fn == nil || len(fn.Blocks) == 0 {
			r.undecided(rule, typeName(t), 0, "its GetRecordPositions method was not found")
			continue
		}
		out = append(out, &search{p: p, r: r, t: t, fn: fn, collected: map[ssa.Value]token.Pos{}})
	}
	if len(out) == 0 {
		r.undecided(rule, "pkg/index.Index", 0, "no index was found")
	}
	return out
}

func isFilters(t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	if !ok {
		return false
	}
	b, ok := m.Key().Underlying().(*types.Basic)
	i, isIface := m.Elem().Underlying().(*types.Interface)
	return ok && b.Kind() == types.String && isIface && i.Empty()
}

// hasInput: the index was built from one input.
func (s *search) hasInput() bool {
	st := structOf(pointee(s.t))
	if st == nil {
		st = structOf(s.t)
	}
	if st == nil {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if isNamed(st.Field(i).Type(), "input.Input") {
			return true
		}
	}
	return false
}

func isEmptyIterator(t *Term) bool {
	t = bare(t)
	if t == nil || t.fn == nil {
		return false
	}
	// a function which never returns a position
	for _, b := range t.fn.Blocks {
		for _, in := range b.Instrs {
			if ret, ok := in.(*ssa.Return); ok {
				if c, ok := ret.Results[0].(*ssa.Const); !ok || c.Value != nil {
					return false
				}
			}
		}
	}
	return len(t.fn.Blocks) > 0
}

// walk explores the search; exit is called on each successful exit.
func (s *search) walk(exit func(st *State, f *ssa.Function, ret []*Term) bool, branch func(st *State, cond *Term, taken bool), deep bool) {
	w := newWalker(s.p, s.r, Hooks{})
	s.w = w
	s.rd = &rounds{w: w, over: func(st *State, c *Term) bool { return c == s.filters }, facts: []string{"handled", "key", "value", "matched", "nilvalue", "nilfilter"}}
	element := func(st *State, in ssa.Value, elem *Term) {
		if elem == nil {
			return
		}
		if s.rd.mark(st, "key", func(k, v *Term) bool { return outside(elem, k, v) }) {
			s.collected[in] = in.Pos()
		}
		if s.onElement != nil {
			s.onElement(st, in, elem)
		}
		if s.rd.mark(st, "value", func(k, v *Term) bool { return v != nil && usesExactly(elem, v) }) {
			s.collected[in] = in.Pos()
		}
	}
	w.h.Before = func(ci *CallInfo) bool {
		if strings.HasSuffix(ci.name, ".DoesHandleProperty") {
			return true
		}
		if ci.fn == nil || !s.p.inRepo(ci.fn) {
			return false
		}
		// the storage of the indexes, the inputs and the records are one step
		return ci.fn.Pkg != s.fn.Pkg && !(deep && ci.fn.Parent() != nil)
	}
	w.h.After = func(ci *CallInfo) {
		st := ci.st
		if ci.name == "builtin append" {
			if v, ok := ci.instr.(ssa.Value); ok {
				for _, e := range ci.vargs[1:] {
					element(st, v, e)
				}
			}
		}
		if deep && ci.fn == nil && isRecordIterator(ci.common) {
			s.rd.reset(st)
		}
		if s.seq != nil {
			s.seq(st, ci)
		}
	}
	w.h.Store = func(st *State, in *ssa.Store, addr, val *Term) {
		if ia, ok := in.Addr.(*ssa.IndexAddr); ok {
			if _, isSlice := ia.X.Type().Underlying().(*types.Slice); isSlice {
				element(st, ia.X, val)
			}
		}
	}
	w.h.Branch = func(st *State, in *ssa.If, cond *Term, taken bool) {
		s.rd.branch(st, in, cond, taken)
		if c, what := emptiness(cond, taken); c == s.filters && what > 0 {
			if st.user.flags["filters"] < what {
				st.user.flags["filters"] = what
			}
		}
		if a, b, equal, ok := comparison(cond, taken); ok && equal {
			if s.isInput(a) && bare(b) == s.input || s.isInput(b) && bare(a) == s.input {
				st.user.flags["input"] = 1
			}
		}
		c, v := cond, taken
		for c.op == "un" && c.aux == "!" {
			c, v = c.args[0], !v
		}
		if c.call != nil && strings.HasSuffix(c.call.name, ".DoesHandleProperty") && v {
			s.rd.mark(st, "handled", func(k, _ *Term) bool { return len(c.args) > 0 && c.args[len(c.args)-1] == k })
		}
		if c.op == "lkok" && v && s.recv != nil && c.args[0].contains(s.recv) {
			s.rd.mark(st, "handled", func(k, _ *Term) bool { return c.args[1] == k })
		}
		if c.op == "lkok" && v && c.args[0] == s.filters && c.args[1].isConst() {
			st.user.flags["named"] = 1
		}
		branch(st, c, v)
	}
	w.h.Exit = func(st *State, f *ssa.Function, ret []*Term) bool {
		if len(ret) == 2 {
			if n, k := w.isNil(st, ret[1]); k && !n {
				return false
			}
		}
		return exit(st, f, ret)
	}
	w.start(s.fn, func(st *State, args []*Term) {
		for i, a := range args {
			t := s.fn.Params[i].Type()
			switch {
			case i == 0 && s.fn.Signature.Recv() != nil:
				s.recv = a
			case isNamed(t, "input.Input"):
				s.input = a
			case isFilters(t):
				s.filters = a
			}
		}
	})
	if s.filters == nil || s.input == nil {
		s.r.undecided("search", fnName(s.fn), s.fn.Pos(), "its parameters were not recognised")
	}
	s.r.walked(w)
}

func (s *search) isInput(t *Term) bool {
	t = bare(t)
	return t != nil && t.op == "ld" && t.args[0].op == "faddr" && s.recv != nil && t.contains(s.recv) && t.typ != nil && isNamed(t.typ, "input.Input")
}

func isRecordIterator(c *ssa.CallCommon) bool {
	sig := c.Signature()
	return sig.Params().Len() == 0 && sig.Results().Len() == 2 && isNamed(sig.Results().At(0).Type(), "input/record.Record") && isError(sig.Results().At(1).Type())
}

// usesExactly: x is used in t without having been computed upon, save for a
// change of its representation or of its case.
func usesExactly(t, x *Term) bool {
	if t == nil {
		return false
	}
	if t == x {
		return true
	}
	switch t.op {
	case "pure":
		switch t.aux {
		case "strings.ToLower", "strings.ToUpper", "bytes.ToLower", "bytes.ToUpper":
		default:
			return false
		}
	case "bin", "un", "slice", "idx", "len":
		return false
	}
	for _, a := range t.args {
		if usesExactly(a, x) {
			return true
		}
	}
	return false
}

func checkRefusals(p *Program, r *Report) {
	r.explanation = "Each search of an index is followed on all its paths: a path which ends without an error must have compared the input with the one of the index, checked that there is a filter, and found each property to be handled. The functions which tell which properties and inputs are handled are followed the same way."
	r.rule("input-checked", 4, "a search which succeeds has compared the given input with the one which was indexed")
	r.rule("filters-checked", 4, "a search which succeeds has at least one filter")
	r.rule("property-checked", 4, "a search which succeeds has found each filtered property to be handled by the index")
	r.rule("handles-property", 5, "a property is handled when, and only when, it is one of the configured ones")
	r.rule("handles-input", 5, "an input is handled when, and only when, its name is the configured one")
	for _, s := range searches(p, r, "input-checked") {
		if !s.hasInput() {
			continue
		}
		name := fnName(s.fn)
		s.walk(func(st *State, f *ssa.Function, ret []*Term) bool {
			fl := st.user.flags
			if fl["input"] == 0 {
				r.violation("input-checked", name, f.Pos(), "the search ends without an error although the input may not be the indexed one", st)
			} else {
				r.ok("input-checked", name, f.Pos(), "compared with the indexed input on every path")
			}
			if fl["filters"] == 0 {
				r.violation("filters-checked", name, f.Pos(), "the search ends without an error although there may be no filter", st)
			} else {
				r.ok("filters-checked", name, f.Pos(), "there is a filter on every path")
			}
			switch {
			case s.rd.covered(st, "handled"), fl["filters"] == 2 && fl["named"] == 1, s.rd.inside(st) && s.rd.current(st, "handled"):
				r.ok("property-checked", name, f.Pos(), "each property is checked")
			default:
				r.violation("property-checked", name, f.Pos(), "the search ends without an error although a property may not be handled by the index", st)
			}
			return false
		}, func(*State, *Term, bool) {}, false)
	}
	for _, t := range p.implementers("pkg/index.Config") {
		handles(p, r, t, "DoesHandleProperty", "handles-property", "Properties")
		handles(p, r, t, "DoesHandleInput", "handles-input", "Input")
	}
}

// handles checks one of the functions which tell what an index handles.
func handles(p *Program, r *Report, t types.Type, method, rule, field string) {
	fn := p.method(t, method)
	if fn == nil || len(fn.Blocks) == 0 {
		r.undecided(rule, typeName(t), 0, "its "+method+" method was not found")
		return
	}
	name := fnName(fn)
	stt := structOf(pointee(t))
	if stt == nil {
		stt = structOf(t)
	}
	has := false
	for i := 0; stt != nil && i < stt.NumFields(); i++ {
		if stt.Field(i).Name() == "Input" {
			has = true
		}
	}
	w := newWalker(p, r, Hooks{})
	var asked *Term
	isField := func(x *Term) bool {
		return x.any(func(y *Term) bool { return y.op == "faddr" && y.aux == field })
	}
	isAsked := func(x *Term) bool {
		if method == "DoesHandleInput" {
			return x.call != nil && strings.HasSuffix(x.call.name, "GetName") && len(x.args) > 0 && bare(x.args[0]) == asked
		}
		return x == asked
	}
	isKnown := func(x *Term) bool { return isField(x) || x.isConst() }
	rd := &rounds{w: w, over: func(st *State, c *Term) bool { return isField(c) }, facts: []string{"compared"}}
	about := func(st *State, c *Term, v bool) {
		if a, b, eq, ok := comparison(c, v); ok && (isAsked(bare(a)) && isKnown(b) || isAsked(bare(b)) && isKnown(a)) {
			if eq {
				st.user.flags["equal"] = 1
			} else {
				st.user.flags["differs"] = 1
				rd.mark(st, "compared", func(k, e *Term) bool { return true })
			}
		}
		if c.op == "pure" && strings.Contains(c.aux, "Contains") || c.call != nil && strings.Contains(c.call.name, "Contains") {
			m, k := false, false
			for _, x := range c.args {
				if x != nil && isField(x) {
					m = true
				}
				if x == asked {
					k = true
				}
			}
			if m && k {
				st.user.flags["equal"] = 1
				if !v {
					st.user.flags["equal"], st.user.flags["differs"] = 0, 1
				}
			}
		}
	}
	w.h.Branch = func(st *State, in *ssa.If, cond *Term, taken bool) {
		if _, end := rd.branch(st, in, cond, taken); end {
			st.user.flags["over"] = 1
		}
		about(st, cond, taken)
	}
	w.h.Exit = func(st *State, f *ssa.Function, ret []*Term) bool {
		outcomes := []bool{true, false}
		if b, ok := ret[0].boolVal(); ok {
			outcomes = []bool{b}
		} else if b, k := w.truth(st, ret[0]); k {
			outcomes = []bool{b}
		}
		for _, b := range outcomes {
			s2 := st.clone()
			if len(outcomes) == 2 {
				about(s2, ret[0], b)
			}
			fl := s2.user.flags
			bad := ""
			switch {
			case !has:
				if !b {
					bad = "an index which can search in anything refuses something"
				}
			case b && fl["equal"] == 0:
				bad = "true is returned although no equality was found"
			case !b && fl["equal"] == 1:
				bad = "false is returned although an equality was found"
			case !b && len(rd.sites(s2)) > 0 && !rd.covered(s2, "compared"):
				bad = "false is returned although some elements may not have been compared"
			case !b && len(rd.sites(s2)) == 0 && fl["differs"] == 0:
				bad = "false is returned although nothing was compared"
			}
			if bad != "" {
				r.violation(rule, name, f.Pos(), bad, st)
			} else {
				r.ok(rule, name, f.Pos(), "agrees with the configuration")
			}
		}
		return false
	}
	w.start(fn, func(st *State, args []*Term) { asked = args[len(args)-1] })
	r.walked(w)
}

var equalsPlaceholder = regexp.MustCompile(`^[^=<>!?]*=\s*\?\s*\)?\s*$`)

// constText: the constant parts of a text, in order.
func constText(t *Term) string {
	var b strings.Builder
	var visit func(t *Term)
	visit = func(t *Term) {
		if t == nil {
			return
		}
		if s, ok := t.strVal(); ok {
			b.WriteString(s)
			return
		}
		switch t.op {
		case "bin", "conv", "iface":
		case "pure":
			if t.aux != "fmt.Sprintf" && t.aux != "fmt.Sprint" {
				return
			}
		default:
			return
		}
		for _, a := range t.args {
			visit(a)
		}
	}
	visit(t)
	return b.String()
}

func checkFilters(p *Program, r *Report) {
	r.explanation = "The loops which go over the requested filters are followed: each round must end with an element of the result made from both the property and the value of the filter, or with no result at all; the collected elements must then all be intersected. The functions which compute the filters from the parameters and the relationships are followed the same way."
	r.rule("filter-applied", 3, "each filter of a search takes part in its result, or there is no result")
	r.rule("clause", 1, "the conditions of a query are equalities with a bound value, which must all hold")
	r.rule("match-scan", 1, "the search without an index returns a record only once each filter was found to match it")
	r.rule("all-joined", 5, "all the collected results are intersected, none is left out")
	r.rule("join", 1, "the intersection returns a position only when all the others have it")
	for _, s := range searches(p, r, "filter-applied") {
		if s.hasInput() {
			s.applied()
		} else {
			s.scan()
		}
	}
	joins(p, r)
	joinItself(p, r)
	checkParameters(p, r)
}

// applied: each filter takes part in the result of the search.
func (s *search) applied() {
	p, r, name := s.p, s.r, fnName(s.fn)
	var texts []string
	walkText := func(st *State, ci *CallInfo) {
		if ci.name == "strings.Join" && len(ci.args) == 2 {
			if sep, ok := ci.args[1].strVal(); ok && len(texts) > 0 {
				if strings.EqualFold(strings.TrimSpace(sep), "and") {
					r.ok("clause", name+": conjunction", ci.pos, "all the conditions must hold")
				} else {
					r.violation("clause", name+": conjunction", ci.pos, "the conditions are joined by "+sep, st)
				}
			}
		}
		// a single filter, given by its name
		if isQuery(ci) {
			for _, a := range ci.vargs {
				if x := bare(a); x != nil && x.op == "lk" && x.args[0] == s.filters {
					st.user.flags["bound"] = 1
				}
			}
		}
	}
	s.seq = walkText
	s.onElement = func(st *State, in ssa.Value, e *Term) {
		sl, ok := in.Type().Underlying().(*types.Slice)
		if !ok || !s.anyKey(st, e) {
			return
		}
		if b, ok := sl.Elem().Underlying().(*types.Basic); !ok || b.Kind() != types.String {
			return
		}
		texts = append(texts, constText(e))
		if equalsPlaceholder.MatchString(constText(e)) {
			r.ok("clause", name+": condition", in.Pos(), "an equality with a bound value")
		} else {
			r.violation("clause", name+": condition", in.Pos(), "the condition is not an equality with a bound value: "+constText(e), st)
		}
	}
	s.walk(func(st *State, f *ssa.Function, ret []*Term) bool {
		fl := st.user.flags
		switch {
		case isEmptyIterator(ret[0]):
			if fl["nothing"] == 1 {
				r.ok("filter-applied", name, f.Pos(), "")
			} else {
				r.violation("filter-applied", name, f.Pos(), "no record is returned although nothing shows that there is none", st)
			}
		case s.rd.inside(st):
			r.violation("filter-applied", name, f.Pos(), "the search ends with some results although filters are left", st)
		case s.rd.covered(st, "key") && s.rd.covered(st, "value"), fl["filters"] == 2 && fl["bound"] == 1:
			r.ok("filter-applied", name, f.Pos(), "each filter is applied")
		default:
			r.violation("filter-applied", name, f.Pos(), "the search ends with some results although a filter (its property and its value) may not have been applied", st)
		}
		return false
	}, func(st *State, c *Term, v bool) {
		// nothing was found for a value, or there are no values for a property
		absent := func(x *Term) bool {
			return s.rd.mark(st, "", func(k, val *Term) bool { return val != nil && x != val && (usesExactly(x, val) || outside(x, k, val)) })
		}
		if c.op == "lkok" && !v && c.args[0] != s.filters && (absent(c) || absent(c.args[1])) {
			st.user.flags["nothing"] = 1
		}
		if x, isNil := nilFact(c, v); x != nil && isNil && absent(x) {
			st.user.flags["nothing"] = 1
		}
		if cl, what := emptiness(c, v); cl != nil && what == 0 && absent(cl) && knownEmpty(c, v) == cl {
			st.user.flags["nothing"] = 1
		}
	}, false)
	// what was collected is what the result is made of
	for v, pos := range s.collected {
		used := false
		for _, b := range s.fn.Blocks {
			for _, in := range b.Instrs {
				if ret, ok := in.(*ssa.Return); ok && p.dependsOn(ret.Results[0], func(x ssa.Value) bool { return x == v }) {
					used = true
				}
			}
		}
		r.check(used, "all-joined", name+": "+shortType(v.Type()), pos, "the collected elements are part of the result", "the elements collected here are not part of the result")
	}
}

func (s *search) anyKey(st *State, e *Term) bool {
	for _, x := range s.rd.sites(st) {
		if k := st.user.terms["key:"+x]; k != nil && st.user.flags["in:"+x] == 1 && e.contains(k) {
			return true
		}
	}
	return false
}

func isQuery(ci *CallInfo) bool {
	return strings.HasPrefix(ci.name, "(*database/sql.") && strings.Contains(ci.name, "Query")
}

// scan: the search which goes over all the records.
func (s *search) scan() {
	r, name := s.r, fnName(s.fn)
	s.walk(func(st *State, f *ssa.Function, ret []*Term) bool {
		if f == s.fn {
			it := bare(ret[0])
			if it == nil || it.op != "closure" {
				r.undecided("match-scan", name, f.Pos(), "the iterator it returns is not a function of the repository")
				return false
			}
			st.user = newUser()
			s.w.push(st, it.fn, nil, it.args, nil, false)
			return true
		}
		if n, k := s.w.isNil(st, ret[0]); k && n {
			return false
		}
		if s.rd.covered(st, "matched") {
			r.ok("match-scan", name, f.Pos(), "each filter was found to match")
		} else {
			r.violation("match-scan", name, f.Pos(), "a position is returned although a filter may not match its record", st)
		}
		return false
	}, func(st *State, c *Term, v bool) {
		obtained := func(x, k *Term) bool {
			return x.any(func(y *Term) bool {
				return y.op == "call" && y.call != nil && strings.HasSuffix(y.call.name, ".Get") && len(y.args) > 0 && y.args[len(y.args)-1] == k
			})
		}
		if c.call != nil && c.call.name == "reflect.DeepEqual" && v && len(c.args) == 2 {
			s.rd.mark(st, "matched", func(k, val *Term) bool {
				return val == c.args[0] && obtained(c.args[1], k) || val == c.args[1] && obtained(c.args[0], k)
			})
		}
		if a, b, eq, ok := comparison(c, v); ok && eq {
			s.rd.mark(st, "matched", func(k, val *Term) bool {
				return val == a && obtained(b, k) || val == b && obtained(a, k)
			})
		}
		if x, isNil := nilFact(c, v); x != nil && isNil {
			if s.rd.mark(st, "nilvalue", func(k, val *Term) bool { return !isErrorTerm(x) && obtained(x, k) }) && s.rd.current(st, "nilfilter") ||
				s.rd.mark(st, "nilfilter", func(k, val *Term) bool { return x == val }) && s.rd.current(st, "nilvalue") {
				s.rd.mark(st, "matched", func(k, val *Term) bool { return true })
			}
		}
	}, true)
}

// isErrorTerm: the error a call returned, not its value.
func isErrorTerm(x *Term) bool {
	return x.typ != nil && types.Identical(x.typ, types.Universe.Lookup("error").Type())
}

// joins: what is given to the intersection is all that was collected.
func joins(p *Program, r *Report) {
	n := 0
	for _, fn := range p.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				var arg ssa.Value
				what := ""
				callee := c.Call.StaticCallee()
				switch {
				case callee != nil && fnName(callee) == "input/record.JoinPositionIterators":
					arg, what = c.Call.Args[0], "intersected iterators"
				case callee != nil && fnName(callee) == "strings.Join" && strings.HasSuffix(fnName(fn), "GetRecordPositions"):
					arg, what = c.Call.Args[0], "conditions"
				case callee != nil && strings.HasPrefix(fnName(callee), "(*database/sql.DB).Query") && strings.HasSuffix(fnName(fn), "GetRecordPositions"):
					arg, what = c.Call.Args[len(c.Call.Args)-1], "bound values"
				}
				if arg == nil {
					continue
				}
				n++
				if p.wholeCollection(arg) {
					r.ok("all-joined", fnName(fn)+": "+what, c.Pos(), "everything which was collected")
				} else {
					r.violation("all-joined", fnName(fn)+": "+what, c.Pos(), "what is given here may not be all that was collected", nil)
				}
			}
		}
	}
	if n == 0 {
		r.undecided("all-joined", "input/record.JoinPositionIterators", 0, "no intersection was found")
	}
}

// wholeCollection: a slice from its creation on, never shortened.
func (p *Program) wholeCollection(v ssa.Value) bool {
	var pred func(x ssa.Value) bool
	appends := map[*ssa.Call]bool{}
	pred = func(x ssa.Value) bool {
		switch y := x.(type) {
		case *ssa.MakeSlice:
			return true
		case *ssa.Const:
			return y.Value == nil
		case *ssa.Call:
			if a := appendCall(y); a != nil {
				if appends[a] {
					return true
				}
				appends[a] = true
				return p.comesFrom(a.Call.Args[0], pred)
			}
		case *ssa.Slice:
			// a literal: its elements are not picked from another slice
			al, ok := y.X.(*ssa.Alloc)
			if !ok || y.Low != nil || y.High != nil {
				return false
			}
			for _, ref := range *al.Referrers() {
				ia, ok := ref.(*ssa.IndexAddr)
				if !ok {
					continue
				}
				for _, q := range *ia.Referrers() {
					if st, ok := q.(*ssa.Store); ok && st.Addr == ia {
						if u, ok := stripConv(st.Val).(*ssa.UnOp); ok && u.Op == token.MUL {
							if src, ok := u.X.(*ssa.IndexAddr); ok {
								if _, isSlice := src.X.Type().Underlying().(*types.Slice); isSlice {
									return false
								}
							}
						}
					}
				}
			}
			return true
		}
		return false
	}
	return p.comesFrom(v, pred)
}

// joinItself: the intersection returns the positions which all have.
func joinItself(p *Program, r *Report) {
	fn := p.mustFn(r, "input/record.JoinPositionIterators")
	if fn == nil {
		return
	}
	name := fnName(fn)
	w := newWalker(p, r, Hooks{})
	var list *Term
	rd := &rounds{w: w, over: func(st *State, c *Term) bool {
		return c == list || c.op == "mk" && len(c.args) > 0 && c.args[0] != nil && c.args[0].op == "len" && c.args[0].args[0] == list
	}, facts: []string{"equal"}}
	isIter := func(t *Term) bool { // list[i], i
		return t != nil && t.op == "ld" && t.args[0].op == "iaddr" && t.args[0].args[0] == list
	}
	w.h.Branch = func(st *State, in *ssa.If, cond *Term, taken bool) {
		rd.branch(st, in, cond, taken)
		if c, what := emptiness(cond, taken); c == list && what == 2 {
			st.user.flags["one"] = 1
		}
		if knownEmpty(cond, taken) == list && list != nil {
			st.user.flags["none"] = 1
		}
		if a, b, eq, ok := comparison(cond, taken); ok && eq && !a.isConst() && !b.isConst() {
			rd.mark(st, "equal", func(k, v *Term) bool {
				return atIndex(in, k, w, st) || !k.isConst() && (outside(a, k) || outside(b, k))
			})
		}
	}
	w.h.After = func(ci *CallInfo) {
		if isIter(ci.callee) && ci.callee.args[0].args[1].isConst() {
			rd.reset(ci.st)
		}
	}
	w.h.Exit = func(st *State, f *ssa.Function, ret []*Term) bool {
		if f == fn {
			it := bare(ret[0])
			switch {
			case isIter(it):
				r.check(st.user.flags["one"] == 1, "join", name+": single", f.Pos(), "a single iterator is returned as it is", "one of the iterators is returned although there may be others")
				return false
			case isEmptyIterator(it):
				r.check(st.user.flags["none"] == 1, "join", name+": none", f.Pos(), "there is nothing without iterators", "nothing is returned although there may be iterators")
				return false
			case it != nil && it.op == "closure":
				st.user = newUser()
				w.push(st, it.fn, nil, it.args, nil, false)
				return true
			}
			r.undecided("join", name, f.Pos(), "the iterator it returns is not a function of the repository")
			return false
		}
		if n, k := w.isNil(st, ret[1]); k && !n {
			return false
		}
		if n, k := w.isNil(st, ret[0]); k && n {
			return false
		}
		if rd.covered(st, "equal") {
			r.ok("join", name, f.Pos(), "each of the others has the position")
		} else {
			r.violation("join", name, f.Pos(), "a position is returned although one of the iterators may not have it", st)
		}
		return false
	}
	w.start(fn, func(st *State, args []*Term) { list = args[0] })
	r.walked(w)
}

// lookedUp: the condition tells whether a key was found in a map.
func (w *Walker) lookedUp(st *State, in *ssa.If, taken bool) (m, k *Term, found bool) {
	c := in.Cond
	for {
		u, ok := c.(*ssa.UnOp)
		if !ok || u.Op != token.NOT {
			break
		}
		c, taken = u.X, !taken
	}
	if b, ok := c.(*ssa.BinOp); ok && (b.Op == token.EQL || b.Op == token.NEQ) {
		if k, ok := b.Y.(*ssa.Const); ok && k.Value == nil {
			c = b.X
			if b.Op == token.EQL {
				taken = !taken
			}
			if e, ok := c.(*ssa.Extract); ok && e.Index == 0 {
				c = e.Tuple
			}
		}
	} else if e, ok := c.(*ssa.Extract); ok && e.Index == 1 {
		c = e.Tuple
	}
	l, ok := c.(*ssa.Lookup)
	if !ok {
		return nil, nil, false
	}
	if _, isMap := l.X.Type().Underlying().(*types.Map); !isMap {
		return nil, nil, false
	}
	return w.val(st, l.X), w.val(st, l.Index), taken
}

// atIndex: one side of the condition is the element of a slice at the index k.
func atIndex(in *ssa.If, k *Term, w *Walker, st *State) bool {
	b, ok := in.Cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	for _, x := range []ssa.Value{b.X, b.Y} {
		if u, ok := x.(*ssa.UnOp); ok && u.Op == token.MUL {
			if ia, ok := u.X.(*ssa.IndexAddr); ok && w.val(st, ia.Index) == k {
				return true
			}
		}
	}
	return false
}

func isFiltersPerIndex(t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	return ok && isFilters(m.Elem())
}

// filterConfig: the fields of a configured filter, for the collections of the
// configuration which describe filters.
func filterConfig(t types.Type) (index, property string, ok bool) {
	var elem types.Type
	switch c := t.Underlying().(type) {
	case *types.Map:
		elem = c.Elem()
	case *types.Slice:
		elem = c.Elem()
	default:
		return "", "", false
	}
	st := structOf(pointee(elem))
	if st == nil {
		return "", "", false
	}
	has := map[string]bool{}
	for i := 0; i < st.NumFields(); i++ {
		has[st.Field(i).Name()] = true
	}
	switch {
	case has["ChildIndex"] && has["ChildProperty"]:
		return "ChildIndex", "ChildProperty", true
	case has["Index"] && has["Property"]:
		return "Index", "Property", true
	}
	return "", "", false
}

// fieldOf: t is the value of the given field of the given element.
func fieldOf(t, elem *Term, field string) bool {
	t = bare(t)
	return t != nil && elem != nil && t.op == "ld" && t.args[0].op == "faddr" && t.args[0].aux == field && t.args[0].args[0] == elem
}

// entryOf: t is what was found in the map m (or in any map) under a key.
func entryOf(t *Term) (m, k *Term, ok bool) {
	t = bare(t)
	if t == nil {
		return nil, nil, false
	}
	if t.op == "lk" {
		return t.args[0], t.args[1], true
	}
	if t.op == "ext" && t.aux == "0" && t.args[0].op == "opaque" && strings.HasPrefix(t.args[0].aux, "lookup:") && len(t.args[0].args) == 2 {
		return t.args[0].args[0], t.args[0].args[1], true
	}
	return nil, nil, false
}

func checkParameters(p *Program, r *Report) {
	r.rule("filter-built", 3, "each configured filter whose parameter was given is part of the search, with its value")
	r.rule("own-parser", 2, "the value of a parameter is read by the parser which is configured for it")
	r.rule("distinct-targets", 3, "two filters never take the place of each other")
	r.rule("filter-searched", 1, "each of the indexes is searched for its filters, in the requested input")
	r.rule("filters-passed", 3, "the search is made with the computed filters, and its positions are the ones which are returned")
	pkg := p.pkg("pkg/output")
	for _, fn := range p.funcs {
		if fn.Pkg == nil || fn.Pkg.Pkg != pkg || fn.Signature.Results().Len() == 0 || !isFiltersPerIndex(fn.Signature.Results().At(0).Type()) {
			continue
		}
		buildsFilters(p, r, fn)
	}
	ownParsers(p, r)
	if fn := p.mustFn(r, "output.getFilteredRecordPositionsPerIndex"); fn != nil {
		searchesFilters(p, r, fn)
		passes(p, r, fn)
	}
}

// ownParsers: the parsers which an output keeps by name of parameter.
func ownParsers(p *Program, r *Report) {
	for _, t := range p.implementers("pkg/output.Output") {
		for _, fn := range constructorsOf(p, t) {
			name := fnName(fn)
			w := newWalker(p, r, Hooks{})
			rd := &rounds{w: w, over: func(st *State, c *Term) bool {
				if c.typ == nil {
					return false
				}
				i, _, ok := filterConfig(c.typ)
				return ok && i == "Index"
			}}
			w.h.Branch = func(st *State, in *ssa.If, cond *Term, taken bool) { rd.branch(st, in, cond, taken) }
			w.h.MapSet = func(st *State, in *ssa.MapUpdate, m, k, v *Term) {
				mt, ok := in.Map.Type().Underlying().(*types.Map)
				if !ok || !isNamed(mt.Elem(), "parser.Parser") {
					return
				}
				_, vk, ok := entryOf(v)
				if ok && rd.mark(st, "", func(key, e *Term) bool { return k == key && fieldOf(vk, e, "Parser") }) {
					r.ok("own-parser", name, in.Pos(), "kept under the name of its parameter")
				} else {
					r.violation("own-parser", name, in.Pos(), "the parser which is kept under the name of a parameter is not the one which is configured for it: "+k.String()+" = "+v.String(), st)
				}
			}
			w.start(fn, nil)
			r.walked(w)
		}
	}
}

func buildsFilters(p *Program, r *Report, fn *ssa.Function) {
	name := fnName(fn)
	w := newWalker(p, r, Hooks{})
	var config types.Type
	rd := &rounds{w: w, over: func(st *State, c *Term) bool {
		if c.typ == nil {
			return false
		}
		_, _, ok := filterConfig(c.typ)
		if ok {
			config = c.typ
		}
		return ok
	}, facts: []string{"settled", "stored", "placed", "free", "vacant"}}
	fields := func() (string, string) {
		i, pr, _ := filterConfig(config)
		return i, pr
	}
	settle := func(st *State) {
		if rd.current(st, "stored") && rd.current(st, "placed") {
			rd.mark(st, "settled", func(k, v *Term) bool { return true })
		}
	}
	w.h.MapSet = func(st *State, in *ssa.MapUpdate, m, k, v *Term) {
		if config == nil {
			return
		}
		index, property := fields()
		switch {
		case isFiltersPerIndex(in.Map.Type()):
			if em, ek, ok := entryOf(v); !rd.current(st, "vacant") && !(ok && em == m && ek == k) {
				r.violation("filter-built", name+": grouped", in.Pos(), "the filters of an index may be replaced although there are some already", st)
			}
			if rd.mark(st, "placed", func(key, e *Term) bool {
				return fieldOf(k, e, index) && (st.user.terms["inner"] == nil || st.user.terms["inner"] == v)
			}) {
				st.user.terms["placed"] = v
			}
			settle(st)
		case isFilters(in.Map.Type()):
			free := false
			ok := rd.mark(st, "stored", func(key, e *Term) bool {
				if !fieldOf(k, e, property) {
					return false
				}
				if m2, k2, ok := entryOf(v); ok { // the data of the parent
					return fieldOf(k2, e, "ParentProperty") && m2.op == "param"
				}
				x := bare(v)
				if x.op == "ext" && x.aux == "0" {
					x = x.args[0]
				}
				if x.call == nil || methodName(x.call) != "Parse" {
					return false
				}
				_, k2, ok := entryOf(x.args[len(x.args)-1])
				if !ok || k2 != key {
					return false
				}
				if _, rk, ok := entryOf(x.args[0]); !ok || rk != key && !fieldOf(rk, e, "Parser") {
					r.violation("own-parser", name, in.Pos(), "the value of the parameter is not read by the parser which is configured for it: "+x.args[0].String(), st)
				} else {
					r.ok("own-parser", name, in.Pos(), "read by its own parser")
				}
				return true
			})
			if !ok {
				r.violation("filter-built", name+": value", in.Pos(), "a filter is stored which is not the parsed value of its parameter (or the value of the parent's property) under its configured property", st)
				return
			}
			st.user.terms["inner"] = m
			if pm, pk, ok := entryOf(m); ok && pm != nil {
				rd.mark(st, "placed", func(key, e *Term) bool { return fieldOf(pk, e, index) })
			}
			if st.user.terms["placed"] == m {
				rd.mark(st, "placed", func(key, e *Term) bool { return true })
			}
			settle(st)
			free = rd.current(st, "free") || p.uniqueFilters(config)
			if free {
				r.ok("distinct-targets", name, in.Pos(), "no filter replaces another one")
			} else {
				r.violation("distinct-targets", name, in.Pos(), "two parameters of the same index and property are accepted by the configuration, but one of their values replaces the other", nil)
			}
		}
	}
	w.h.Branch = func(st *State, in *ssa.If, cond *Term, taken bool) {
		if start, _ := rd.branch(st, in, cond, taken); start {
			delete(st.user.terms, "inner")
			delete(st.user.terms, "placed")
			return
		}
		c, v := cond, taken
		for c.op == "un" && c.aux == "!" {
			c, v = c.args[0], !v
		}
		// the slot already has the same value
		same := func(a, b *Term) bool {
			m, k2, ok := entryOf(a)
			_, property := fields()
			return ok && m != nil && isFilters(m.typ) && bare(b) != nil && rd.mark(st, "", func(k, e *Term) bool { return fieldOf(k2, e, property) })
		}
		if config != nil {
			if c.call != nil && c.call.name == "reflect.DeepEqual" && v && (same(c.args[0], c.args[1]) || same(c.args[1], c.args[0])) {
				rd.mark(st, "free", func(k, e *Term) bool { return true })
			}
			if a, b, eq, ok := comparison(c, v); ok && eq && (same(a, b) || same(b, a)) {
				rd.mark(st, "free", func(k, e *Term) bool { return true })
			}
			if m, lk, found := w.lookedUp(st, in, taken); lk != nil && !found && m.typ != nil && isFilters(m.typ) {
				_, property := fields()
				rd.mark(st, "free", func(k, e *Term) bool { return fieldOf(lk, e, property) })
			} else if lk != nil && !found && m.typ != nil && isFiltersPerIndex(m.typ) {
				index, _ := fields()
				rd.mark(st, "vacant", func(k, e *Term) bool { return fieldOf(lk, e, index) })
			}
		}
		if c.op == "lkok" && !v {
			// the parameter is not given
			if c.args[0].typ != nil {
				if m, ok := c.args[0].typ.Underlying().(*types.Map); ok {
					if b, ok := m.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.String {
						rd.mark(st, "settled", func(k, e *Term) bool { return c.args[1] == k })
					}
				}
			}
		}
	}
	w.h.Exit = func(st *State, f *ssa.Function, ret []*Term) bool {
		if n, k := w.isNil(st, ret[len(ret)-1]); k && !n {
			return false
		}
		switch {
		case rd.inside(st):
			r.violation("filter-built", name, f.Pos(), "the filters are returned although some of the configured ones are left", st)
		case !rd.covered(st, "settled"):
			r.violation("filter-built", name, f.Pos(), "the filters are returned although a configured one may be missing", st)
		default:
			r.ok("filter-built", name, f.Pos(), "each configured filter is part of the search")
		}
		return false
	}
	w.start(fn, nil)
	r.walked(w)
}

// uniqueFilters: the validation of the configuration refuses two filters for
// the same property of the same index.
func (p *Program) uniqueFilters(coll types.Type) bool {
	index, property, _ := filterConfig(coll)
	for _, fn := range p.funcs {
		if fn.Name() != "Validate" || fn.Signature.Recv() == nil {
			continue
		}
		st := structOf(pointee(fn.Signature.Recv().Type()))
		for i := 0; st != nil && i < st.NumFields(); i++ {
			if types.Identical(st.Field(i).Type(), coll) && p.refusesDuplicates(fn, st.Field(i).Name(), property, index) {
				return true
			}
		}
	}
	return false
}

// refusesDuplicates: on the successful exits of a validation, the elements of
// the collection have been entered one by one in a set (keyed by the given
// first field, and maybe the others), none of them being there already.
func (p *Program) refusesDuplicates(fn *ssa.Function, field string, by ...string) bool {
	w := newWalker(p, nil, Hooks{})
	var typ types.Type
	if s := structOf(pointee(fn.Params[0].Type())); s != nil {
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == field {
				typ = s.Field(i).Type()
			}
		}
	}
	if typ == nil {
		return false
	}
	cell := func(st *State) *Term {
		return w.load(st, w.faddr(w.param(fn.Params[0].Name(), fn.Params[0].Type()), field), typ)
	}
	rd := &rounds{w: w, over: func(st *State, c *Term) bool { return c == cell(st) }, facts: []string{"new", "noted"}}
	w.h.Before = isValidate
	keyed := func(x, k, e *Term) bool {
		if e == nil {
			return false
		}
		if len(by) == 0 {
			return x == e || outside(x, e)
		}
		if !x.any(func(y *Term) bool { return fieldOf(y, e, by[0]) }) {
			return false
		}
		return !x.any(func(y *Term) bool {
			if y.op != "faddr" || y.args[0] != e {
				return false
			}
			for _, f := range by {
				if y.aux == f {
					return false
				}
			}
			return true
		})
	}
	w.h.Branch = func(st *State, in *ssa.If, cond *Term, taken bool) {
		if s, _ := rd.branch(st, in, cond, taken); s {
			return
		}
		c, v := cond, taken
		for c.op == "un" && c.aux == "!" {
			c, v = c.args[0], !v
		}
		vacant := c.op == "lkok" && !v || c.op == "lk" && !v || c.op == "ext" && c.args[0].op == "opaque" && strings.HasPrefix(c.args[0].aux, "lookup:") && !v
		var k *Term
		if vacant {
			k = c.args[len(c.args)-1]
			if c.op == "ext" {
				k = c.args[0].args[1]
			}
		} else if _, lk, found := w.lookedUp(st, in, taken); lk != nil && !found {
			k = lk
		}
		if k != nil {
			rd.mark(st, "new", func(key, e *Term) bool { return keyed(k, key, e) })
		}
	}
	w.h.MapSet = func(st *State, in *ssa.MapUpdate, m, k, v *Term) {
		rd.mark(st, "noted", func(key, e *Term) bool { return keyed(k, key, e) })
	}
	ok, n := true, 0
	w.h.Exit = func(st *State, f *ssa.Function, ret []*Term) bool {
		if x, k := w.isNil(st, ret[len(ret)-1]); k && !x {
			return false
		}
		n++
		if !w.knownEmpty(st, cell(st)) && (!rd.covered(st, "new") || !rd.covered(st, "noted")) {
			ok = false
		}
		return false
	}
	w.start(fn, nil)
	return ok && n > 0
}

func searchesFilters(p *Program, r *Report, fn *ssa.Function) {
	name := fnName(fn)
	w := newWalker(p, r, Hooks{})
	var filters, input, list, def *Term
	rd := &rounds{w: w, over: func(st *State, c *Term) bool { return c == filters }, facts: []string{"searched", "settled"}}
	w.h.After = func(ci *CallInfo) {
		st := ci.st
		if ci.method != nil && ci.method.Name() == "GetRecordPositions" && len(ci.args) == 3 {
			if bare(ci.args[1]) != input {
				r.violation("filter-searched", name, ci.pos, "the index is searched in another input than the requested one", st)
			}
			if ci.args[0] == def {
				st.user.flags["default"] = 1
			}
			if rd.mark(st, "searched", func(k, v *Term) bool {
				m, mk, ok := entryOf(ci.args[0])
				return ok && m == list && mk == k && ci.args[2] == v
			}) {
				st.user.terms["found"] = w.res(ci, 0)
			}
		}
		if ci.name == "builtin append" {
			for _, e := range ci.vargs[1:] {
				if f := st.user.terms["found"]; f != nil && bare(e) == f && rd.current(st, "searched") {
					rd.mark(st, "settled", func(k, v *Term) bool { return true })
				}
			}
		}
	}
	w.h.Store = func(st *State, in *ssa.Store, addr, val *Term) {
		if f := st.user.terms["found"]; f != nil && bare(val) == f && addr.op == "iaddr" && rd.current(st, "searched") {
			rd.mark(st, "settled", func(k, v *Term) bool { return true })
		}
	}
	w.h.Branch = func(st *State, in *ssa.If, cond *Term, taken bool) {
		rd.branch(st, in, cond, taken)
		if knownEmpty(cond, taken) == filters && filters != nil {
			st.user.flags["none"] = 1
		}
	}
	w.h.Exit = func(st *State, f *ssa.Function, ret []*Term) bool {
		if n, k := w.isNil(st, ret[1]); k && !n {
			return false
		}
		fl := st.user.flags
		switch {
		case fl["none"] == 1 && fl["default"] == 1 && !rd.finished(st):
			r.ok("filter-searched", name, f.Pos(), "")
		case rd.inside(st) || !rd.covered(st, "settled"):
			r.violation("filter-searched", name, f.Pos(), "the positions are returned although an index may not have been searched for its filters", st)
		case fl["none"] == 0 && fl["default"] == 1:
			r.ok("filter-searched", name, f.Pos(), "")
		default:
			r.ok("filter-searched", name, f.Pos(), "each index is searched for its filters")
		}
		return false
	}
	w.start(fn, func(st *State, args []*Term) {
		for i, a := range args {
			t := fn.Params[i].Type()
			switch {
			case isFiltersPerIndex(t):
				filters = a
			case isNamed(t, "input.Input"):
				input = a
			case isNamed(t, "index.Index"):
				def = a
			default:
				if _, ok := t.Underlying().(*types.Map); ok {
					list = a
				}
			}
		}
	})
	if filters == nil || input == nil || list == nil || def == nil {
		r.undecided("filter-searched", name, fn.Pos(), "its parameters were not recognised")
	}
	r.walked(w)
}

// passes: what is searched for are the computed filters, and what is gone over
// is the intersection of what was found.
func passes(p *Program, r *Report, fn *ssa.Function) {
	for _, c := range p.callSites(fn) {
		caller := fnName(c.Parent())
		for i, prm := range fn.Params {
			if !isFiltersPerIndex(prm.Type()) {
				continue
			}
			from := p.comesFrom(c.Common().Args[i], func(v ssa.Value) bool {
				e, ok := v.(*ssa.Extract)
				if !ok || e.Index != 0 {
					return false
				}
				x, ok := e.Tuple.(*ssa.Call)
				return ok && x.Call.StaticCallee() != nil && isFiltersPerIndex(x.Call.StaticCallee().Signature.Results().At(0).Type())
			})
			r.check(from, "filters-passed", caller+": filters", c.Pos(), "the computed filters are searched for", "what is searched for is not the computed filters")
		}
	}
	pkg := p.pkg("pkg/output")
	for _, f := range p.funcs {
		if f.Pkg == nil || f.Pkg.Pkg != pkg {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok || !isPositionIteratorCall(p, &c.Call) {
					continue
				}
				from := p.comesFrom(c.Call.Value, func(v ssa.Value) bool {
					x, ok := v.(*ssa.Call)
					return ok && x.Call.StaticCallee() != nil && fnName(x.Call.StaticCallee()) == "input/record.JoinPositionIterators"
				})
				r.check(from, "filters-passed", fnName(f)+": positions", c.Pos(), "the positions are the ones which all the indexes have", "the positions are not taken from the intersection")
			}
		}
	}
}
