package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C25", checkSort) }

func checkSort(p *Program, r *Report) {
	r.explanation = "The comparison of two values and the comparison of two records are followed on all of their paths: for each of them, every combination of the relation between the values and of the direction which the path leaves possible must give the expected answer. " +
		"The criteria must be gone over in order, passing to the next one only when the records are equal for the current one."
	r.rule("compare", 4, "two values of the same kind are compared as equal, smaller or greater, as they are")
	r.rule("criteria", 1, "the first criterion for which the records differ gives their order, in its direction")
	r.rule("both-records", 1, "the same property of both records is compared, the one of the criterion")
	r.rule("direction", 2, "a criterion is ascending unless the configuration says otherwise")
	r.rule("whole-list", 1, "the whole list is sorted in place, by all the criteria, and is what is returned")
	r.assumptions = append(r.assumptions, "the values are not NaN, which no order can hold")
	if fn := p.mustFn(r, "parser.Compare"); fn != nil {
		comparesValues(p, r, fn)
	}
	n := 0
	for _, fn := range p.funcs {
		if fn.Pkg == nil && fn.Parent() == nil || pkgOf(fn) != p.pkg("pkg/input/record") {
			continue
		}
		s := fn.Signature
		if s.Params().Len() == 2 && s.Results().Len() == 1 && isInt(s.Params().At(0).Type()) && isInt(s.Params().At(1).Type()) && isBool(s.Results().At(0).Type()) {
			n++
			comparesRecords(p, r, fn)
		}
	}
	if n == 0 {
		r.undecided("criteria", "input/record", token.NoPos, "the comparison of two records was not found")
	}
	if fn := p.mustFn(r, "(input/record.List).Sort"); fn != nil {
		sortsList(p, r, fn)
	}
	directions(p, r)
}

func pkgOf(fn *ssa.Function) *types.Package {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Pkg == nil {
		return nil
	}
	return fn.Pkg.Pkg
}

func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Bool
}

// The relations which two values can have.
const (
	relLess    = 1
	relEqual   = 2
	relGreater = 4
)

func flipRel(m int) int {
	out := m & relEqual
	if m&relLess != 0 {
		out |= relGreater
	}
	if m&relGreater != 0 {
		out |= relLess
	}
	return out
}

func opRel(op string) int {
	switch op {
	case "<":
		return relLess
	case "<=":
		return relLess | relEqual
	case ">":
		return relGreater
	case ">=":
		return relGreater | relEqual
	case "==":
		return relEqual
	case "!=":
		return relLess | relGreater
	}
	return 0
}

func comparesValues(p *Program, r *Report, fn *ssa.Function) {
	name := fnName(fn)
	w := newWalker(p, r, Hooks{})
	var a, b *Term
	side := func(t *Term) int {
		for t != nil && (t.op == "iface" || t.op == "ta") {
			t = t.args[0]
		}
		switch {
		case t == nil:
			return 0
		case t == a:
			return 1
		case t == b:
			return 2
		}
		return 0
	}
	kinds := map[string]bool{}
	// eval gives the truth of a term when the values have the given relation
	// (and, for booleans, the given values)
	var eval func(st *State, t *Term, rel int, av, bv int) (bool, bool)
	eval = func(st *State, t *Term, rel, av, bv int) (bool, bool) {
		if v, ok := t.boolVal(); ok {
			return v, true
		}
		if s := side(t); s != 0 && av >= 0 {
			if s == 1 {
				return av == 1, true
			}
			return bv == 1, true
		}
		switch t.op {
		case "un":
			if t.aux == "!" {
				v, ok := eval(st, t.args[0], rel, av, bv)
				return !v, ok
			}
		case "bin":
			x, y := side(t.args[0]), side(t.args[1])
			m := opRel(t.aux)
			if x != 0 && y != 0 && x != y && m != 0 {
				if x == 2 {
					m = flipRel(m)
				}
				return m&rel != 0, true
			}
			if t.aux == "==" || t.aux == "!=" {
				p, ok := eval(st, t.args[0], rel, av, bv)
				q, ok2 := eval(st, t.args[1], rel, av, bv)
				if ok && ok2 {
					return (p == q) == (t.aux == "=="), true
				}
			}
			// strings.Compare(a, b) < 0
			if c := t.args[0]; c.call != nil && (c.call.name == "strings.Compare" || c.call.name == "cmp.Compare") && m != 0 {
				if n, ok := t.args[1].intVal(); ok && n == 0 {
					x, y := side(c.args[0]), side(c.args[1])
					if x != 0 && y != 0 && x != y {
						if x == 2 {
							m = flipRel(m)
						}
						return m&rel != 0, true
					}
				}
			}
		}
		return false, false
	}
	type world struct{ rel, av, bv int }
	isBoolCase := func(st *State) bool { return st.user.flags["bool"] == 1 }
	worlds := func(st *State) []world {
		if !isBoolCase(st) {
			return []world{{relLess, -1, -1}, {relEqual, -1, -1}, {relGreater, -1, -1}}
		}
		return []world{{relLess, 0, 1}, {relEqual, 0, 0}, {relEqual, 1, 1}, {relGreater, 1, 0}}
	}
	key := func(i int) string { return sprintf("out%d", i) }
	w.h.Branch = func(st *State, in *ssa.If, cond *Term, taken bool) {
		for i, wd := range worlds(st) {
			if got, ok := eval(st, cond, wd.rel, wd.av, wd.bv); ok && got != taken {
				st.user.flags[key(i)] = 1
			}
		}
	}
	w.h.Assert = func(st *State, in *ssa.TypeAssert, x *Term) {
		if k := knownKind(w, st, x); (x == a || x == b) && k != shortType(in.AssertedType) {
			r.violation("compare", name, in.Pos(), "comparing values of different kinds panics", st)
		}
	}
	w.h.Exit = func(st *State, f *ssa.Function, ret []*Term) bool {
		if n, k := w.isNil(st, ret[1]); !k || !n {
			if k {
				return false // refused
			}
			r.violation("compare", name, f.Pos(), "an error which may be nil is returned", st)
			return false
		}
		ka, kb := knownKind(w, st, a), knownKind(w, st, b)
		if ka == "" || ka != kb {
			r.violation("compare", name, f.Pos(), "values which may be of different kinds are compared ("+ka+", "+kb+")", st)
			return false
		}
		kinds[ka] = true
		construct := name + ": " + ka
		st.user.flags["bool"] = 0
		out := map[int]bool{}
		if ka == "bool" {
			// the facts are evaluated anew on the four combinations
			st.user.flags["bool"] = 1
			for i, wd := range worlds(st) {
				for t, v := range st.facts {
					if got, ok := eval(st, t, wd.rel, wd.av, wd.bv); ok && got != v {
						out[i] = true
					}
				}
				if x := st.user.sets["false"]; x != nil {
					for t := range x {
						if got, ok := eval(st, t, wd.rel, wd.av, wd.bv); ok && got {
							out[i] = true
						}
					}
				}
				if x := st.user.sets["true"]; x != nil {
					for t := range x {
						if got, ok := eval(st, t, wd.rel, wd.av, wd.bv); ok && !got {
							out[i] = true
						}
					}
				}
			}
		} else {
			for i := range worlds(st) {
				out[i] = st.user.flags[key(i)] == 1
			}
		}
		isnil, known := w.isNil(st, ret[0])
		for i, wd := range worlds(st) {
			if out[i] {
				continue
			}
			if known && isnil {
				if wd.rel != relEqual {
					r.violation("compare", construct, f.Pos(), "two different values can be told to be equal", st)
				}
				continue
			}
			v := w.load(st, ret[0], types.Typ[types.Bool])
			got, ok := eval(st, v, wd.rel, wd.av, wd.bv)
			switch {
			case wd.rel == relEqual:
				r.violation("compare", construct, f.Pos(), "two equal values can be told to be different", st)
			case !ok:
				r.violation("compare", construct, f.Pos(), "the order of the values is not what is returned: "+v.String(), st)
			case got != (wd.rel == relLess):
				r.violation("compare", construct, f.Pos(), "the order which is returned can be the opposite one", st)
			}
		}
		r.ok("compare", construct, f.Pos(), "equal, smaller or greater")
		return false
	}
	base := w.h.Branch
	w.h.Branch = func(st *State, in *ssa.If, cond *Term, taken bool) {
		base(st, in, cond, taken)
		for cond.op == "un" && cond.aux == "!" {
			cond, taken = cond.args[0], !taken
		}
		if taken {
			st.user.add("true", cond, "")
		} else {
			st.user.add("false", cond, "")
		}
	}
	w.start(fn, func(st *State, args []*Term) { a, b = args[0], args[1] })
	for _, k := range []string{"string", "int64", "float64", "bool"} {
		if !kinds[k] {
			r.violation("compare", name+": "+k, fn.Pos(), "no two values of this kind can be compared", nil)
		}
	}
	r.walked(w)
}

// knownKind: the type which a value is known to have on the path.
func knownKind(w *Walker, st *State, v *Term) string {
	for t := range st.user.sets["true"] {
		if t.op == "taok" && t.args[0] == v {
			return shortType(t.typ)
		}
	}
	return ""
}

// comparesRecords: the order of two records.
func comparesRecords(p *Program, r *Report, fn *ssa.Function) {
	name := fnName(fn)
	w := newWalker(p, r, Hooks{})
	var pi, pj *Term
	isCriteria := func(t *Term) bool {
		if t.typ == nil {
			return false
		}
		s, ok := t.typ.Underlying().(*types.Slice)
		return ok && isNamed(s.Elem(), "input/record.SortConfig") && t.op != "slice"
	}
	rd := &rounds{w: w, over: func(st *State, c *Term) bool { return isCriteria(c) }, facts: []string{"tied"}}
	crit := func(st *State) *Term {
		for _, s := range rd.sites(st) {
			if st.user.flags["in:"+s] == 1 {
				return st.user.terms["val:"+s]
			}
		}
		return nil
	}
	ascending := func(st *State, t *Term) bool {
		t = bare(t)
		return t != nil && t.op == "ld" && crit(st) != nil && fieldOf(t.args[0], crit(st), "Ascending")
	}
	result := func(st *State, t *Term) bool {
		t = bare(t)
		return t != nil && t.op == "ld" && t.args[0] == st.user.terms["order"]
	}
	var eval func(st *State, t *Term, res, asc bool) (bool, bool)
	eval = func(st *State, t *Term, res, asc bool) (bool, bool) {
		if v, ok := t.boolVal(); ok {
			return v, true
		}
		switch {
		case result(st, t):
			return res, true
		case ascending(st, t):
			return asc, true
		case t.op == "un" && t.aux == "!":
			v, ok := eval(st, t.args[0], res, asc)
			return !v, ok
		case t.op == "bin" && (t.aux == "==" || t.aux == "!="):
			x, ok := eval(st, t.args[0], res, asc)
			y, ok2 := eval(st, t.args[1], res, asc)
			return (x == y) == (t.aux == "=="), ok && ok2
		}
		return false, false
	}
	w.h.Before = func(ci *CallInfo) bool { return ci.fn != nil && fnName(ci.fn) == "parser.Compare" }
	w.h.Inline = func(st *State, f *ssa.Function) bool { return pkgOf(f) == pkgOf(fn) }
	w.h.After = func(ci *CallInfo) {
		st := ci.st
		switch {
		case ci.method != nil && ci.method.Name() == "Get" && isNamed(recvType(ci), "input/record.Record"):
			if !fieldOf(ci.args[1], crit(st), "Property") {
				r.violation("both-records", name, ci.pos, "the property which is read is not the one of the criterion", st)
				return
			}
			x := bare(ci.args[0])
			if x.op == "ld" && x.args[0].op == "iaddr" {
				switch x.args[0].args[1] {
				case pi:
					st.user.terms["left"] = w.res(ci, 0)
				case pj:
					st.user.terms["right"] = w.res(ci, 0)
				}
			}
		case ci.fn != nil && fnName(ci.fn) == "parser.Compare":
			a, b := bare(ci.args[0]), bare(ci.args[1])
			l, rt := st.user.terms["left"], st.user.terms["right"]
			switch {
			case l != nil && rt != nil && a == l && b == rt:
				st.user.flags["swapped"] = 0
				r.ok("both-records", name, ci.pos, "the property of each record")
			case l != nil && rt != nil && a == rt && b == l:
				st.user.flags["swapped"] = 1
				r.ok("both-records", name, ci.pos, "the property of each record")
			default:
				r.violation("both-records", name, ci.pos, "what is compared is not the property of each of the two records", st)
			}
			st.user.terms["order"] = w.res(ci, 0)
		}
	}
	w.h.Branch = func(st *State, in *ssa.If, cond *Term, taken bool) {
		if start, _ := rd.branch(st, in, cond, taken); start {
			for _, k := range []string{"asc", "res", "differ"} {
				delete(st.user.flags, k)
			}
			for _, k := range []string{"left", "right", "order"} {
				delete(st.user.terms, k)
			}
			return
		}
		c, v := cond, taken
		for c.op == "un" && c.aux == "!" {
			c, v = c.args[0], !v
		}
		val := 2
		if v {
			val = 1
		}
		switch {
		case result(st, c):
			st.user.flags["res"] = val
		case ascending(st, c):
			st.user.flags["asc"] = val
		}
		if x, y, eq, ok := comparison(cond, taken); ok {
			if y.op != "nil" {
				x, y = y, x
			}
			if y.op == "nil" {
				switch {
				case st.user.terms["order"] == x && eq:
					rd.mark(st, "tied", func(k, e *Term) bool { return true })
				case st.user.terms["order"] == x:
					st.user.flags["differ"] = 1
				case eq && crit(st) != nil && fieldOf(x, crit(st), "Ascending"):
					st.user.flags["asc"] = 1
				}
			}
		}
	}
	w.h.Exit = func(st *State, f *ssa.Function, ret []*Term) bool {
		if !rd.inside(st) {
			v, ok := ret[0].boolVal()
			switch {
			case !rd.covered(st, "tied"):
				r.violation("criteria", name, f.Pos(), "a criterion can be passed over although the records are not known to be equal for it", st)
			case !ok || v:
				r.violation("criteria", name, f.Pos(), "a record can be told to be before an equal one", st)
			default:
				r.ok("criteria", name, f.Pos(), "in order")
			}
			return false
		}
		for _, s := range rd.sites(st) {
			if st.user.flags["in:"+s] == 1 && st.user.flags["all:"+s+":tied"] == 0 {
				r.violation("criteria", name, f.Pos(), "a criterion can be passed over although the records are not known to be equal for it", st)
				return false
			}
		}
		if st.user.flags["differ"] != 1 {
			r.violation("criteria", name, f.Pos(), "the order can be given by a criterion for which the records are equal", st)
			return false
		}
		for _, res := range []bool{false, true} {
			for _, asc := range []bool{false, true} {
				if k := st.user.flags["res"]; k != 0 && (k == 1) != res {
					continue
				}
				if k := st.user.flags["asc"]; k != 0 && (k == 1) != asc {
					continue
				}
				less := res
				if st.user.flags["swapped"] == 1 {
					less = !less
				}
				got, ok := eval(st, ret[0], res, asc)
				if !ok {
					r.violation("criteria", name, f.Pos(), "what is returned is not the order given by the criterion: "+ret[0].String(), st)
				} else if got != (less == asc) {
					r.violation("criteria", name, f.Pos(), "the order can be the opposite of the one of the criterion", st)
				}
			}
		}
		r.ok("criteria", name, f.Pos(), "in order")
		return false
	}
	w.start(fn, func(st *State, args []*Term) { pi, pj = args[len(args)-2], args[len(args)-1] })
	r.walked(w)
	// the criteria are gone over from the first one
	ls := loopsOf(fn)
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if x, ok := in.(*ssa.IndexAddr); ok {
				if s, ok := x.X.Type().Underlying().(*types.Slice); ok && isNamed(s.Elem(), "input/record.SortConfig") {
					r.check(inOrder(ls, x), "criteria", name+": order", x.Pos(), "from the first one", "the criteria are not taken from the first one to the last one")
				}
			}
		}
	}
}

// sortsList: what the sort is given, and what it gives.
func sortsList(p *Program, r *Report, fn *ssa.Function) {
	name := fnName(fn)
	w := newWalker(p, r, Hooks{})
	var list, criteria *Term
	w.h.Before = func(ci *CallInfo) bool {
		st := ci.st
		switch ci.name {
		case "sort.Sort", "sort.Stable", "sort.Slice", "sort.SliceStable":
			x := bare(ci.args[0])
			ok := false
			if ci.name == "sort.Slice" || ci.name == "sort.SliceStable" {
				// the criteria are the ones of the closure
				has := ci.args[1].contains(criteria)
				for cell, v := range st.heap {
					has = has || v == criteria && ci.args[1].contains(rootOf(cell))
				}
				ok = x == list && has
			} else if s := structOf(pointee(x.typ)); s != nil {
				hasList, hasCriteria := false, false
				for i := 0; i < s.NumFields(); i++ {
					v := w.load(st, w.faddr(x, s.Field(i).Name()), s.Field(i).Type())
					hasList = hasList || bare(v) == list
					hasCriteria = hasCriteria || bare(v) == criteria
				}
				ok = hasList && hasCriteria
			} else if x.op == "struct" {
				for _, a := range x.args {
					if a == list {
						ok = true
					}
				}
			}
			if !ok {
				r.violation("whole-list", name, ci.pos, "what is sorted is not the whole list, with all the criteria: "+x.String(), st)
				return true
			}
			st.user.flags["sorted"] = 1
			return true // it exchanges elements only
		case "sort.Reverse":
			r.violation("whole-list", name, ci.pos, "the order is reversed", st)
		}
		return false
	}
	w.h.Branch = func(st *State, in *ssa.If, cond *Term, taken bool) {
		if c, holds := lengthTest(cond, taken); c != nil && (c == list && noneFrom(holds, 2) || c == criteria && noneFrom(holds, 1)) {
			st.user.flags["sorted"] = 1 // nothing to sort
		}
	}
	w.h.Exit = func(st *State, f *ssa.Function, ret []*Term) bool {
		switch {
		case st.user.flags["sorted"] == 0:
			r.violation("whole-list", name, f.Pos(), "the list may not be sorted", st)
		case bare(ret[0]) != list:
			r.violation("whole-list", name, f.Pos(), "what is returned is not the sorted list: "+ret[0].String(), st)
		default:
			r.ok("whole-list", name, f.Pos(), "the list itself is sorted")
		}
		return false
	}
	w.start(fn, func(st *State, args []*Term) { list, criteria = args[0], args[1] })
	r.walked(w)
	// the exchange of two records
	for _, f := range p.funcs {
		if pkgOf(f) != p.pkg("pkg/input/record") || f.Signature.Recv() == nil || f.Name() != "Swap" || f.Signature.Params().Len() != 2 {
			continue
		}
		exchanges(p, r, f)
	}
}

func exchanges(p *Program, r *Report, fn *ssa.Function) {
	name := fnName(fn)
	w := newWalker(p, r, Hooks{})
	var pi, pj *Term
	at := func(t *Term) *Term {
		if t.op == "ld" && t.args[0].op == "iaddr" {
			return t.args[0].args[1]
		}
		return nil
	}
	w.h.Store = func(st *State, in *ssa.Store, addr, val *Term) {
		if addr.op != "iaddr" {
			return
		}
		to, from := addr.args[1], at(bare(val))
		switch {
		case to == pi && from == pj:
			st.user.flags["i"]++
		case to == pj && from == pi:
			st.user.flags["j"]++
		default:
			r.violation("whole-list", name, in.Pos(), "a record is not exchanged with the other one", st)
		}
	}
	w.h.Exit = func(st *State, f *ssa.Function, ret []*Term) bool {
		if st.user.flags["i"] != 1 || st.user.flags["j"] != 1 {
			r.violation("whole-list", name, f.Pos(), "the two records are not exchanged", st)
		} else {
			r.ok("whole-list", name, f.Pos(), "the two records are exchanged")
		}
		return false
	}
	w.start(fn, func(st *State, args []*Term) { pi, pj = args[len(args)-2], args[len(args)-1] })
	r.walked(w)
}

// directions: the default direction.
func directions(p *Program, r *Report) {
	t := p.typ("pkg/input/record.SortConfig")
	if t == nil {
		r.undecided("direction", "input/record.SortConfig", token.NoPos, "the type was not found")
		return
	}
	isAsc := func(t, recv *Term) bool { return fieldOf(t, recv, "Ascending") }
	if fn := p.method(t, "IsAscending"); fn != nil {
		name := fnName(fn)
		w := newWalker(p, r, Hooks{})
		var recv *Term
		w.h.Branch = func(st *State, in *ssa.If, cond *Term, taken bool) {
			x, y, eq, ok := comparison(cond, taken)
			if ok {
				if y.op != "nil" {
					x, y = y, x
				}
				if y.op == "nil" && isAsc(x, recv) {
					st.user.flags["nil"] = 2
					if eq {
						st.user.flags["nil"] = 1
					}
				}
			}
			c, v := cond, taken
			for c.op == "un" && c.aux == "!" {
				c, v = c.args[0], !v
			}
			if c.op == "ld" && isAsc(c.args[0], recv) {
				st.user.flags["val"] = 2
				if v {
					st.user.flags["val"] = 1
				}
			}
		}
		w.h.Exit = func(st *State, f *ssa.Function, ret []*Term) bool {
			v, k := ret[0].boolVal()
			x := bare(ret[0])
			switch {
			case st.user.flags["nil"] == 1:
				r.check(k && v, "direction", name+": default", f.Pos(), "ascending", "a criterion without a direction is not ascending")
			case k && st.user.flags["val"] != 0 && (st.user.flags["val"] == 1) == v:
				r.ok("direction", name+": configured", f.Pos(), "as configured")
			default:
				r.check(x.op == "ld" && isAsc(x.args[0], recv), "direction", name+": configured", f.Pos(), "as configured", "the direction is not the configured one")
			}
			return false
		}
		w.start(fn, func(st *State, args []*Term) { recv = args[0] })
		r.walked(w)
	} else {
		r.undecided("direction", "input/record.SortConfig", t.Obj().Pos(), "IsAscending was not found")
	}
	// what the validation puts in the place of a missing direction
	s := structOf(t)
	for i := 0; s != nil && i < s.NumFields(); i++ {
		if s.Field(i).Name() != "Ascending" {
			continue
		}
		for _, v := range p.fieldStores(t, i) {
			a, ok := v.(*ssa.Alloc)
			good := ok
			if ok {
				n := 0
				for _, in := range *a.Referrers() {
					if st, is := in.(*ssa.Store); is && st.Addr == a {
						n++
						c, isC := st.Val.(*ssa.Const)
						good = good && isC && c.Value != nil && c.Value.String() == "true"
					}
				}
				good = good && n == 1
			}
			r.check(good, "direction", "input/record.SortConfig: validation", v.Pos(), "ascending", "the direction which is set when there is none is not ascending")
		}
	}
}
