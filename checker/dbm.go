package main

import (
	"go/types"
	"regexp"
	"regexp/syntax"
	"strings"
)

// atMost decides whether a <= b + k follows from what is known on the path,
// from differences only: the comparisons which were taken, the lengths, and
// what the documentation of the libraries says about them.

type diffGraph struct {
	w     *Walker
	st    *State
	dist  map[*Term]int64
	edges map[*Term][]diffEdge // from x: x' <= x + k
	known map[*Term]bool
	todo  []*Term
	zero  *Term
}

type diffEdge struct {
	to *Term
	k  int64
}

func stripInt(t *Term) *Term {
	for t.op == "conv" && isInt(t.typ) && isInt(t.args[0].typ) && t.typ != nil && t.args[0].typ != nil {
		t = t.args[0]
	}
	return t
}

// number removes the conversions which keep the value.
func (g *diffGraph) number(t *Term) *Term {
	for t.op == "conv" && isInt(t.typ) && isInt(t.args[0].typ) && t.typ != nil && t.args[0].typ != nil {
		if isUnsigned(t.args[0].typ) && !isUnsigned(t.typ) && wide(t.args[0].typ) && !g.bounded(t.args[0]) {
			break
		}
		t = t.args[0]
	}
	return t
}

func wide(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Uint || b.Kind() == types.Uint64 || b.Kind() == types.Uintptr)
}

// bounded: an unsigned number which is at most something that is not one.
func (g *diffGraph) bounded(x *Term) bool {
	if x.isConst() {
		return true
	}
	if _, hi := g.w.bounds(g.st, x, 0); hi != nil {
		return true
	}
	for f, v := range g.st.facts {
		if f.op == "bin" && f.aux == "<" {
			if v && unsignedAs(f.args[0], x) || !v && unsignedAs(f.args[1], x) {
				o := stripInt(f.args[1])
				if !v {
					o = stripInt(f.args[0])
				}
				if o.typ != nil && !isUnsigned(o.typ) {
					return true
				}
			}
		}
	}
	return false
}

// unsignedAs: t is x, without having been made signed.
func unsignedAs(t, x *Term) bool {
	for t != x && t.op == "conv" && isUnsigned(t.typ) && wide(t.typ) && isInt(t.args[0].typ) {
		t = t.args[0]
	}
	return t == x
}

// split: t = base + k.
func (g *diffGraph) split(t *Term) (*Term, int64) {
	k := int64(0)
	for {
		t = g.number(t)
		if v, ok := t.intVal(); ok {
			return g.zero, k + v
		}
		if t.op == "bin" && (t.aux == "+" || t.aux == "-") {
			if v, ok := t.args[1].intVal(); ok {
				if t.aux == "+" {
					k += v
				} else {
					k -= v
				}
				t = t.args[0]
				continue
			}
			if v, ok := t.args[0].intVal(); ok && t.aux == "+" {
				k += v
				t = t.args[1]
				continue
			}
		}
		return t, k
	}
}

// le adds a <= b + k.
func (g *diffGraph) le(a, b *Term, k int64) {
	x, kx := g.split(a)
	y, ky := g.split(b)
	// x + kx <= y + ky + k
	g.edges[y] = append(g.edges[y], diffEdge{x, ky + k - kx})
	g.need(x)
	g.need(y)
}

func (g *diffGraph) eq(a, b *Term, k int64) {
	g.le(a, b, k)
	g.le(b, a, -k)
}

func (g *diffGraph) need(x *Term) {
	if !g.known[x] {
		g.known[x] = true
		g.todo = append(g.todo, x)
	}
}

func (w *Walker) atMost(st *State, a, b *Term, k int64) bool {
	g := &diffGraph{w: w, st: st, edges: map[*Term][]diffEdge{}, known: map[*Term]bool{}, zero: w.tt.intc(0)}
	x, kx := g.split(a)
	y, ky := g.split(b)
	g.need(x)
	g.need(y)
	// a comparison may be known on the terms themselves
	for f, v := range st.facts {
		if f.op == "bin" && len(f.args) == 2 && f.args[0] != nil && f.args[1] != nil {
			switch f.aux {
			case "<":
				if v {
					g.le(f.args[0], f.args[1], -1)
					g.unsigned(f.args[0], f.args[1])
				} else {
					g.unsigned(f.args[1], f.args[0])
					g.le(f.args[1], f.args[0], 0)
				}
			case "==":
				if v && (isInt(f.args[0].typ) && f.args[0].op != "nil" && f.args[1].op != "nil") {
					g.eq(f.args[0], f.args[1], 0)
				}
			}
		}
		if v && f.op == "pure" && len(f.args) == 2 {
			switch f.aux {
			case "strings.HasPrefix", "strings.HasSuffix", "strings.Contains", "bytes.HasPrefix", "bytes.HasSuffix", "bytes.Contains":
				g.le(w.length(st, f.args[1], "len"), w.length(st, f.args[0], "len"), 0)
			}
		}
	}
	for len(g.todo) > 0 {
		t := g.todo[len(g.todo)-1]
		g.todo = g.todo[:len(g.todo)-1]
		if t == g.zero || len(g.known) > 400 {
			continue
		}
		g.axioms(t)
	}
	// x + kx <= y + ky + k: shortest path from y to x
	dist := map[*Term]int64{y: 0}
	for i := 0; i < len(g.known)+1; i++ {
		changed := false
		for from, es := range g.edges {
			d, ok := dist[from]
			if !ok {
				continue
			}
			for _, e := range es {
				if o, ok := dist[e.to]; !ok || d+e.k < o {
					dist[e.to] = d + e.k
					changed = true
				}
			}
		}
		if !changed {
			break
		}
	}
	d, ok := dist[x]
	return ok && d <= ky+k-kx
}

// unsigned: a number which was compared once made unsigned with one which is
// not negative is not negative.
func (g *diffGraph) unsigned(a, b *Term) {
	if a.op == "conv" && isUnsigned(a.typ) && a.args[0].typ != nil && !isUnsigned(a.args[0].typ) {
		if b = stripInt(b); b.op == "len" || b.op == "cap" {
			g.le(g.zero, a.args[0], 0)
		}
	}
}

func (g *diffGraph) axioms(t *Term) {
	w, st := g.w, g.st
	if t.op == "conv" && isInt(t.typ) {
		return // may be anything
	}
	if lo, hi := w.bounds(st, t, 0); lo != nil || hi != nil {
		if lo != nil {
			g.le(w.tt.intc(*lo), t, 0)
		}
		if hi != nil {
			g.le(t, w.tt.intc(*hi), 0)
		}
	}
	if t.op == "bin" && t.aux == "-" {
		// a - b <= a when b >= 0
		if lo, _ := w.bounds(st, t.args[1], 0); lo != nil && *lo >= 0 {
			g.le(t, t.args[0], 0)
		}
	}
	if t.op == "bin" && t.aux == "+" {
		for i := 0; i < 2; i++ {
			if lo, _ := w.bounds(st, t.args[i], 0); lo != nil && *lo >= 0 {
				g.le(t.args[1-i], t, 0)
			}
		}
	}
	if t.op == "opaque" && strings.HasPrefix(t.aux, "len:") {
		g.le(g.zero, t, 0)
	}
	if t.op != "len" && t.op != "cap" {
		return
	}
	x := t.args[0]
	g.le(g.zero, t, 0)
	if n := w.minLen(st, x); n > 0 {
		g.le(w.tt.intc(n), t, 0)
	}
	switch x.op {
	case "slice":
		l := w.length(st, x.args[0], "len")
		if pt := pointee(x.args[0].typ); pt != nil {
			if arr, ok := pt.Underlying().(*types.Array); ok {
				l = w.tt.intc(arr.Len())
			}
		}
		if x.args[2] != nil {
			l = x.args[2]
		}
		if x.args[1] == nil {
			g.eq(t, l, 0)
		} else if lo, ok := x.args[1].intVal(); ok {
			g.eq(t, l, -lo)
		} else {
			g.le(t, l, 0)
		}
	case "append":
		if len(x.args) > 0 && x.args[0] != nil {
			g.le(w.length(st, x.args[0], "len"), t, 0)
		}
	case "pure":
		// the separators which were found, and what is between them
		if x.aux == "(*regexp.Regexp).Split" && len(x.args) == 3 {
			m := w.tt.mk("pure", "(*regexp.Regexp).FindAllStringSubmatch", nil, nil, x.args...)
			if n, ok := x.args[2].intVal(); ok && n < 0 {
				g.le(t, w.length(st, m, "len"), 1)
				if notEmpty(x.args[0]) {
					g.le(w.length(st, m, "len"), t, -1)
				}
			}
		}
	}
	if c, ok := x.strVal(); ok {
		g.eq(t, w.tt.intc(int64(len(c))), 0)
	}
}

// minLen: the number of elements which x always has.
func (w *Walker) minLen(st *State, x *Term) int64 {
	switch x.op {
	case "pure":
		switch x.aux {
		case "strings.Split", "strings.SplitN", "strings.SplitAfter":
			if s, ok := x.args[1].strVal(); ok && s != "" {
				if len(x.args) == 3 {
					if n, ok := x.args[2].intVal(); !ok || n == 0 {
						return 0
					}
				}
				return 1
			}
		case "(*regexp.Regexp).Split":
			if n, ok := x.args[2].intVal(); ok && n != 0 {
				return 1
			}
		case "(*regexp.Regexp).FindStringSubmatch", "(*regexp.Regexp).FindStringSubmatchIndex":
			if w.matched(st, x) {
				return 1 + groupsOf(x.args[0])
			}
		}
	case "idx", "ld":
		// an element of the matches
		m := x.args[0]
		if x.op == "ld" {
			if m.op != "iaddr" {
				break
			}
			m = m.args[0]
		}
		if m.op == "pure" && strings.HasPrefix(m.aux, "(*regexp.Regexp).FindAll") && strings.Contains(m.aux, "Submatch") {
			return 1 + groupsOf(m.args[0])
		}
	case "lk":
		if w.queryValues(x.args[0]) && w.present(st, x) {
			return 1
		}
	case "conv":
		if n := w.minLen(st, x.args[0]); n > 0 && !isStringType(x.typ) {
			return 1
		}
	}
	if isStringType(x.typ) || x.op == "conv" && isStringType(x.args[0].typ) {
		s := x
		if x.op == "conv" {
			s = x.args[0]
		}
		if v, k := w.truth(st, w.eq(s, w.tt.strc(""))); k && !v {
			return 1
		}
	}
	return 0
}

func isStringType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// matched: the text is known to match the expression.
func (w *Walker) matched(st *State, m *Term) bool {
	if n, k := w.isNil(st, m); k && !n {
		return true
	}
	for f, v := range st.facts {
		if v && f.op == "pure" && (f.aux == "(*regexp.Regexp).MatchString" || f.aux == "(*regexp.Regexp).Match") &&
			f.args[0] == m.args[0] && f.args[1] == m.args[1] {
			return true
		}
	}
	return false
}

// groupsOf: the number of groups of an expression which is known.
func groupsOf(re *Term) int64 {
	if re.op == "ext" {
		re = re.args[0]
	}
	if re.op == "pure" && strings.Contains(re.aux, "Compile") && len(re.args) > 0 {
		if s, ok := re.args[0].strVal(); ok {
			if e, err := syntax.Parse(s, syntax.Perl); err == nil {
				return int64(e.MaxCap())
			}
		}
	}
	return 0
}

// notEmpty: an expression which is known, and does not match an empty text.
func notEmpty(re *Term) bool {
	if re.op == "ext" {
		re = re.args[0]
	}
	if re.op == "pure" && strings.Contains(re.aux, "Compile") && len(re.args) > 0 {
		if s, ok := re.args[0].strVal(); ok {
			e, err := regexp.Compile(s)
			return err == nil && !e.MatchString("")
		}
	}
	return false
}

func (w *Walker) queryValues(m *Term) bool {
	if m.op != "call" {
		return false
	}
	if m.call == nil {
		return false
	}
	switch m.call.name {
	case "(*net/url.URL).Query":
		return true
	}
	return false
}

// present: the key of a lookup is known to be in the map.
func (w *Walker) present(st *State, x *Term) bool {
	if x.op != "lk" {
		return false
	}
	m, k := x.args[0], x.args[1]
	if v, known := w.truth(st, w.tt.mk("lkok", "", types.Typ[types.Bool], nil, m, k)); known && v {
		return true
	}
	// a key obtained while ranging over the same map
	if k.op == "ext" && k.aux == "1" && k.args[0].op == "opaque" && strings.HasPrefix(k.args[0].aux, "next:") && len(k.args[0].args) == 1 {
		it := k.args[0].args[0]
		return it.op == "range" && it.args[0] == m
	}
	return false
}
