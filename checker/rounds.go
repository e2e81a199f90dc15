package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// rounds follows, along the paths of a walk, the loops which go over a given
// collection, and which facts were established in every one of their rounds.
// A fact which holds in each round of a loop which went to its end holds for
// each element of the collection.
//
// The state of a loop is kept per branch instruction, in the typestate:
//
//	in:S    inside of a round        fin:S   the collection was exhausted
//	all:S:F the fact F held in every round so far
//	cur:S:F the fact F holds in the current round
type rounds struct {
	w     *Walker
	over  func(st *State, coll *Term) bool
	facts []string
	ns    string // distinguishes the loops of several followers of one walk
}

func (rd *rounds) site(in *ssa.If) string {
	return rd.ns + fnName(in.Parent()) + "#" + sprintf("%d", in.Block().Index)
}

// header recognises the test at the top of a round: the collection, the key
// (or index) and the value of the element.
func (rd *rounds) header(st *State, cond *Term, taken bool) (coll, key, val *Term, more, ok bool) {
	for cond.op == "un" && cond.aux == "!" {
		cond, taken = cond.args[0], !taken
	}
	if cond.op == "ext" && cond.aux == "0" && cond.args[0].op == "opaque" && strings.HasPrefix(cond.args[0].aux, "next:") {
		n := cond.args[0]
		if len(n.args) == 1 && n.args[0] != nil && n.args[0].op == "range" {
			coll = n.args[0].args[0]
			key = rd.w.tt.mk("ext", "1", nil, nil, n)
			elem := rd.w.tt.mk("lk", "", nil, nil, coll, key)
			return coll, key, elem, taken, true
		}
		return nil, nil, nil, false, false
	}
	if cond.op != "bin" {
		return nil, nil, nil, false, false
	}
	a, b, op := cond.args[0], cond.args[1], cond.aux
	if a.op == "len" {
		a, b = b, a
		switch op {
		case "<":
			op = ">"
		case ">":
			op = "<"
		case "<=":
			op = ">="
		case ">=":
			op = "<="
		}
	}
	if b.op != "len" {
		return nil, nil, nil, false, false
	}
	switch op {
	case "<", "!=":
		more = taken
	case ">=", "==":
		more = !taken
	default:
		return nil, nil, nil, false, false
	}
	if a.isConst() && op != "<" && op != ">=" {
		return nil, nil, nil, false, false // an emptiness test
	}
	coll = b.args[0]
	if coll.typ != nil {
		if sl, isSlice := coll.typ.Underlying().(*types.Slice); isSlice {
			val = rd.w.load(st, rd.w.tt.mk("iaddr", "", types.NewPointer(sl.Elem()), nil, coll, a), sl.Elem())
		}
	}
	return coll, a, val, more, true
}

// branch is to be called from the Branch hook. It reports whether a round of
// the collection starts, or whether the collection is exhausted.
func (rd *rounds) branch(st *State, in *ssa.If, cond *Term, taken bool) (start, end bool) {
	coll, key, val, more, ok := rd.header(st, cond, taken)
	if !ok || !rd.over(st, coll) || !isHeader(in.Block()) {
		return false, false
	}
	s := rd.site(in)
	f := st.user.flags
	if f["seen:"+s] == 0 {
		f["seen:"+s] = 1
		for _, x := range rd.facts {
			f["all:"+s+":"+x] = 1
		}
	} else if f["in:"+s] == 1 {
		for _, x := range rd.facts {
			if f["cur:"+s+":"+x] == 0 {
				f["all:"+s+":"+x] = 0
			}
		}
	}
	for _, x := range rd.facts {
		f["cur:"+s+":"+x] = 0
	}
	delete(st.user.terms, "key:"+s)
	delete(st.user.terms, "val:"+s)
	if more {
		f["in:"+s] = 1
		f["fin:"+s] = 0
		st.user.terms["key:"+s] = key
		if val != nil {
			st.user.terms["val:"+s] = val
		}
		return true, false
	}
	f["in:"+s] = 0
	f["fin:"+s] = 1
	return false, true
}

func (rd *rounds) sites(st *State) []string {
	var out []string
	for k, v := range st.user.flags {
		if v != 0 && strings.HasPrefix(k, "seen:"+rd.ns) {
			out = append(out, k[5:])
		}
	}
	return out
}

// mark establishes a fact in the rounds whose element satisfies pred.
func (rd *rounds) mark(st *State, fact string, pred func(key, val *Term) bool) bool {
	any := false
	for _, s := range rd.sites(st) {
		if st.user.flags["in:"+s] == 0 {
			continue
		}
		if k := st.user.terms["key:"+s]; k != nil && pred(k, st.user.terms["val:"+s]) {
			st.user.flags["cur:"+s+":"+fact] = 1
			any = true
		}
	}
	return any
}

// current: the fact holds in the current round of some loop.
func (rd *rounds) current(st *State, fact string) bool {
	for _, s := range rd.sites(st) {
		if st.user.flags["in:"+s] == 1 && st.user.flags["cur:"+s+":"+fact] == 1 {
			return true
		}
	}
	return false
}

// inside: some loop over the collection has not come to its end.
func (rd *rounds) inside(st *State) bool {
	for _, s := range rd.sites(st) {
		if st.user.flags["in:"+s] == 1 {
			return true
		}
	}
	return false
}

// covered: the fact held in each round of a loop which came to its end.
func (rd *rounds) covered(st *State, fact string) bool {
	for _, s := range rd.sites(st) {
		if st.user.flags["fin:"+s] == 1 && st.user.flags["all:"+s+":"+fact] == 1 {
			return true
		}
	}
	return false
}

func (rd *rounds) finished(st *State) bool {
	for _, s := range rd.sites(st) {
		if st.user.flags["fin:"+s] == 1 {
			return true
		}
	}
	return false
}

// reset forgets everything: the collection is about to be gone over anew.
func (rd *rounds) reset(st *State) {
	for k := range st.user.flags {
		for _, p := range []string{"seen:", "in:", "fin:", "all:", "cur:"} {
			if strings.HasPrefix(k, p+rd.ns) {
				delete(st.user.flags, k)
			}
		}
	}
	for k := range st.user.terms {
		if strings.HasPrefix(k, "key:"+rd.ns) || strings.HasPrefix(k, "val:"+rd.ns) {
			delete(st.user.terms, k)
		}
	}
}

// outside reports whether t mentions x elsewhere than within the terms of skip.
func outside(t, x *Term, skip ...*Term) bool {
	if t == nil || x == nil {
		return false
	}
	seen := map[*Term]bool{}
	var visit func(t *Term) bool
	visit = func(t *Term) bool {
		if t == nil || seen[t] {
			return false
		}
		seen[t] = true
		if t == x {
			return true
		}
		for _, s := range skip {
			if t == s {
				return false
			}
		}
		for _, a := range t.args {
			if visit(a) {
				return true
			}
		}
		return false
	}
	return visit(t)
}

// lengthTest: what a comparison says of the length of a collection.
func lengthTest(cond *Term, taken bool) (coll *Term, holds func(int64) bool) {
	for cond.op == "un" && cond.aux == "!" {
		cond, taken = cond.args[0], !taken
	}
	if cond.op != "bin" {
		return nil, nil
	}
	a, b, op := cond.args[0], cond.args[1], cond.aux
	if b.op == "len" {
		a, b = b, a
		switch op {
		case "<":
			op = ">"
		case ">":
			op = "<"
		case "<=":
			op = ">="
		case ">=":
			op = "<="
		}
	}
	n, ok := b.intVal()
	if a.op != "len" || !ok {
		return nil, nil
	}
	return a.args[0], func(x int64) bool {
		switch op {
		case "==":
			return (x == n) == taken
		case "!=":
			return (x != n) == taken
		case "<":
			return (x < n) == taken
		case "<=":
			return (x <= n) == taken
		case ">":
			return (x > n) == taken
		case ">=":
			return (x >= n) == taken
		}
		return true
	}
}

// noneFrom: a condition on a length holds for none which is at least n.
func noneFrom(holds func(int64) bool, n int64) bool {
	for x := n; x < n+64; x++ {
		if holds(x) {
			return false
		}
	}
	for x := int64(1); x < 1<<60; x *= 2 {
		if x > n && holds(x) {
			return false
		}
	}
	for x := int64(1); x < 1e18; x *= 10 {
		if x > n && (holds(x) || holds(x+1)) {
			return false
		}
	}
	return true
}

// emptiness: what a comparison says of the length of a collection: 1 not
// empty, 2 exactly one element, 0 nothing.
func emptiness(cond *Term, taken bool) (coll *Term, what int) {
	coll, holds := lengthTest(cond, taken)
	if coll == nil || holds(0) {
		return coll, 0
	}
	if holds(1) && !holds(2) && !holds(3) {
		return coll, 2
	}
	return coll, 1
}

// knownEmpty: the collection which the comparison tells is empty.
func knownEmpty(cond *Term, taken bool) *Term {
	coll, holds := lengthTest(cond, taken)
	if coll != nil && holds(0) && !holds(1) && !holds(2) {
		return coll
	}
	return nil
}

// comparison: the two sides of an equality known to hold or not.
func comparison(cond *Term, taken bool) (a, b *Term, equal, ok bool) {
	for cond.op == "un" && cond.aux == "!" {
		cond, taken = cond.args[0], !taken
	}
	if cond.op != "bin" {
		return nil, nil, false, false
	}
	switch cond.aux {
	case "==":
		return cond.args[0], cond.args[1], taken, true
	case "!=":
		return cond.args[0], cond.args[1], !taken, true
	}
	return nil, nil, false, false
}

func bare(t *Term) *Term {
	for t != nil && (t.op == "iface" || t.op == "conv") {
		t = t.args[0]
	}
	return t
}
