package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C28", checkValues) }

// C28: the value which a record gives for a property is the one of its own
// place (field, node, entry), converted by its own parser.
func checkValues(p *Program, r *Report) {
	r.explanation = "The reading of a record is followed on all of its paths, whole and by path. Each value is traced back to the field, node or entry it comes from and to the parser which converts it; both have to be those of the property under the name of which the value is given. " +
		"A path has to be consumed part by part, in order, and a missing entry has to give nothing."
	r.rule("own-parser", 2, "the text of a column or node is converted by the parser of the same column or property")
	r.rule("own-node", 4, "an expression is evaluated in the node of the record, or in the node which its parent property selected")
	r.rule("own-name", 3, "what is given under a name is the value of the column or property of this name")
	r.rule("own-place", 1, "each element of a list is the value of the node at the same place of the selection")
	r.rule("every-property", 3, "a whole record, object or list has all of its properties and elements")
	r.rule("path-step", 8, "each step into an object or array uses the next part of the path")
	r.rule("absent", 5, "an entry which does not exist gives nothing, without an error, and only such an entry does")
	r.rule("own-kind", 2, "a number or boolean which an expression gives is kept when the parser of the property is of this kind")
	r.rule("own-column", 3, "the parser and the name of a column are recorded under the place of this column")
	r.rule("reader-settings", 3, "the fields and records are split by the configured delimiter and expression, and not altered")
	v := &values{p: p, r: r}
	v.findTypes()
	if v.conf == nil || v.column == nil {
		r.undecided("own-node", "pkg/input", token.NoPos, "the configuration of the properties was not found")
		return
	}
	seen := map[*ssa.Function]bool{}
	for _, t := range p.implementers("pkg/input/record.Record") {
		n := named(t)
		if n == nil || p.isMock(n) || n.Obj().Pkg() != p.pkg("pkg/input") {
			continue
		}
		for _, m := range []string{"All", "Get"} {
			if fn := p.method(t, m); fn != nil {
				v.follow(fn, true)
				seen[fn] = true
			}
		}
	}
	for _, fn := range p.funcs {
		pk := pkgOf(fn)
		if seen[fn] || fn.Parent() != nil || pk == nil || (pk != p.pkg("pkg/input") && pk != p.pkg("pkg/input/record")) {
			continue
		}
		if v.cut(fn) {
			v.follow(fn, false)
		}
	}
	v.columns()
	v.settings()
}

type values struct {
	p      *Program
	r      *Report
	conf   *types.Named // the configuration of a property with an expression
	column *types.Named // the configuration of a column
	isCut  map[*ssa.Function]bool
}

func (v *values) findTypes() {
	pk := v.p.pkg("pkg/input")
	if pk == nil {
		return
	}
	for _, n := range pk.Scope().Names() {
		tn, ok := pk.Scope().Lookup(n).(*types.TypeName)
		if !ok {
			continue
		}
		t, ok := tn.Type().(*types.Named)
		if !ok {
			continue
		}
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		keys := map[string]bool{}
		for i := 0; i < st.NumFields(); i++ {
			keys[yamlKey(st, i)] = true
			if isExpr(st.Field(i).Type()) {
				v.conf = t
			}
		}
		if keys["name"] && keys["parser"] && !keys["xpath"] && !keys["items"] {
			v.column = t
		}
	}
}

func isExpr(t types.Type) bool { return typeName(t) == "*github.com/antchfx/xpath.Expr" }
func isNode(t types.Type) bool {
	return t != nil && typeName(t) == "*github.com/antchfx/xmlquery.Node"
}

func (v *values) isConf(t types.Type) bool {
	if t == nil {
		return false
	}
	pt, ok := t.Underlying().(*types.Pointer)
	return ok && named(pt.Elem()) == v.conf
}

func isAny(t types.Type) bool {
	i, ok := t.Underlying().(*types.Interface)
	return ok && i.Empty()
}

func isPath(t types.Type) bool {
	sl, ok := t.Underlying().(*types.Slice)
	return ok && isString(sl.Elem())
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// cut: the functions which lead to themselves, with one value, or one node and
// its property: they are looked at on their own, for any such arguments.
func (v *values) cut(fn *ssa.Function) bool {
	if v.isCut == nil {
		v.isCut = map[*ssa.Function]bool{}
	}
	if c, ok := v.isCut[fn]; ok {
		return c
	}
	node, conf, val, path := 0, 0, 0, 0
	for _, x := range fn.Params {
		switch {
		case isNode(x.Type()):
			node++
		case v.isConf(x.Type()):
			conf++
		case isAny(x.Type()):
			val++
		case isPath(x.Type()):
			path++
		}
	}
	c := (node == 1 && conf == 1 || val == 1 && path == 1) && len(fn.Blocks) > 0 && fn.Signature.Results().Len() == 2 && v.p.reaches(fn, fn)
	v.isCut[fn] = c
	return c
}

// fieldOf: t is the contents of a field of the structure that base points to.
func contentsOf(t *Term) (base *Term, st *types.Struct, i int, ok bool) {
	if t == nil || t.op != "ld" || t.args[0].op != "faddr" {
		return nil, nil, 0, false
	}
	base = t.args[0].args[0]
	if base.typ == nil {
		return nil, nil, 0, false
	}
	st = structOf(pointee(base.typ))
	if st == nil {
		return nil, nil, 0, false
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == t.args[0].aux {
			return base, st, i, true
		}
	}
	return nil, nil, 0, false
}

// keyed: t is the setting of the given name of what base points to.
func keyed(t *Term, key string) *Term {
	base, st, i, ok := contentsOf(t)
	if ok && yamlKey(st, i) == key {
		return base
	}
	return nil
}

// elem: t is an element of a list.
func elem(t *Term) (list, i *Term) {
	for t != nil && (t.op == "iface" || t.op == "conv") {
		t = t.args[0]
	}
	if t == nil {
		return nil, nil
	}
	if t.op == "ld" && t.args[0].op == "iaddr" {
		return t.args[0].args[0], t.args[0].args[1]
	}
	if t.op == "idx" {
		return t.args[0], t.args[1]
	}
	return nil, nil
}

// parent: the property, or the configuration of the input, which c is a part of.
func (v *values) parent(c *Term) (up *Term, item bool) {
	if l, _ := elem(c); l != nil {
		if b, st, i, ok := contentsOf(l); ok && !strings.HasPrefix(yamlKey(st, i), "-") {
			return b, false
		}
		return nil, false
	}
	if b, st, i, ok := contentsOf(c); ok && v.isConf(st.Field(i).Type()) && v.isConf(b.typ) {
		return b, true
	}
	return nil, false
}

type valueWalk struct {
	*values
	w    *Walker
	fn   *ssa.Function
	name string
	args []*Term
	root bool
	rd   *rounds
	// the parameters
	rec, node, conf, val, path *Term
}

func (v *values) follow(fn *ssa.Function, root bool) {
	x := &valueWalk{values: v, fn: fn, root: root, name: fnName(fn)}
	w := newWalker(v.p, v.r, Hooks{})
	x.w = w
	w.h.Inline = func(st *State, f *ssa.Function) bool { return !v.cut(f) }
	x.rd = &rounds{w: w, facts: []string{"set"}, over: func(st *State, coll *Term) bool {
		if coll.typ == nil {
			return false
		}
		sl, ok := coll.typ.Underlying().(*types.Slice)
		if !ok {
			return false
		}
		n := named(deref(sl.Elem()))
		return n != nil && (n == v.conf || n == v.column) || isNode(sl.Elem())
	}}
	w.h.After = x.call
	w.h.MapSet = x.set
	w.h.Store = x.stored
	w.h.Branch = func(st *State, in *ssa.If, cond *Term, taken bool) {
		if start, end := x.rd.branch(st, in, cond, taken); start || end {
			delete(st.user.sets, "kept")
			return
		}
		if cond.op == "lkok" && bareTuple(cond.args[0]) != nil {
			// what a loop has come to is not looked into with a fixed part
			m := cond.args[0]
			for m.op == "ta" || m.op == "iface" || m.op == "conv" || m.op == "ext" {
				m = m.args[0]
			}
			if off, ok := pathPart(bareTuple(cond.args[1])); ok && m.op == "opaque" {
				if l, _ := elem(bareTuple(cond.args[1])); x.isWhole(l) {
					v.r.violation("path-step", x.name+": an entry", condPos(in), sprintf("what a loop has come to is looked into with the part %d of the path", off), st)
				}
			}
		}
		if cond.any(func(y *Term) bool { return y.op == "len" && x.isWhole(y.args[0]) }) {
			st.user.add("ends", cond, sprintf("%v", taken))
			return
		}
		if cond.any(func(y *Term) bool { return y.op == "len" || y.op == "lkok" || x.isIndex(y, nil) && !y.isConst() }) {
			st.user.add("kept", cond, sprintf("%v", taken))
		}
	}
	w.h.Exit = func(st *State, fn *ssa.Function, ret []*Term) bool { x.exit(st, ret); return false }
	w.start(fn, func(st *State, args []*Term) {
		x.args = args
		for i, a := range args {
			t := fn.Params[i].Type()
			switch {
			case isNode(t):
				x.node = a
			case v.isConf(t):
				x.conf = a
			case isAny(t):
				x.val = a
			case isPath(t):
				x.path = a
			case i == 0 && root:
				x.rec = a
			}
		}
	})
	v.r.walked(w)
}

// known: the outcomes of the tests on the way, which concern entries and lengths.
func (x *valueWalk) known(st *State) map[*Term]bool {
	out := map[*Term]bool{}
	for _, s := range []string{"kept", "ends"} {
		for f, v := range st.user.sets[s] {
			out[f] = v == "true"
		}
	}
	return out
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// evaluation: t is what an expression gave: its property and its node.
func (x *valueWalk) evaluation(t *Term) (conf, node *Term) {
	for t != nil && (t.op == "ta" || t.op == "conv" || t.op == "iface") {
		t = t.args[0]
	}
	if t == nil || t.op != "call" && t.op != "pure" {
		return nil, nil
	}
	for _, a := range t.args {
		if b, st, i, ok := contentsOf(a); ok && isExpr(st.Field(i).Type()) {
			conf = b
		}
	}
	if conf == nil {
		return nil, nil
	}
	for _, a := range t.args {
		if a == nil || isExpr(a.typ) {
			continue
		}
		a.any(func(y *Term) bool {
			if node == nil && isNode(y.typ) {
				node = y
			}
			return node != nil
		})
	}
	return conf, node
}

// selected: the nodes are what the expression of a property selected.
func (x *valueWalk) selected(nodes *Term) *Term {
	c, _ := x.evaluation(nodes)
	return c
}

// parsed: t is the result of a parser: the parser and the text.
func parsed(t *Term) (by, text *Term) {
	t = bareTuple(t)
	if t == nil || t.op != "call" && t.op != "pure" || t.call == nil || len(t.args) < 2 || !isParse(t.call) {
		return nil, nil
	}
	return t.args[0], t.args[1]
}

func isParse(ci *CallInfo) bool {
	return ci.method != nil && ci.method.Name() == "Parse" && ci.method.Pkg() != nil && strings.HasSuffix(ci.method.Pkg().Path(), "/pkg/parser")
}

func bareTuple(t *Term) *Term {
	for t != nil && (t.op == "iface" || t.op == "conv" || t.op == "ext" && t.aux == "0") {
		t = t.args[0]
	}
	return t
}

// owner: the property (or, with its place, the column) which a value is of.
func (x *valueWalk) owner(st *State, t *Term) (conf, place *Term) {
	t = bareTuple(t)
	if t == nil {
		return nil, nil
	}
	if o := st.user.terms["of:"+t.String()]; o != nil && (t.op == "mk" || t.op == "alloc" || t.op == "append") {
		return o, nil
	}
	if _, text := parsed(t); text != nil {
		if c, _ := x.evaluation(text); c != nil {
			return c, nil
		}
		if l, i := elem(text); l != nil && isPath(l.typ) {
			return nil, i
		}
		return nil, nil
	}
	if t.op == "call" && t.call != nil && t.call.fn != nil && x.cut(t.call.fn) {
		var below, path *Term
		for i, pr := range t.call.fn.Params {
			switch {
			case x.isConf(pr.Type()) && i < len(t.call.args):
				conf = t.call.args[i]
			case isAny(pr.Type()) && i < len(t.call.args):
				below = t.call.args[i]
			case isPath(pr.Type()) && i < len(t.call.args):
				path = t.call.args[i]
			}
		}
		if conf == nil && below != nil && path != nil {
			return x.owner(st, below)
		}
		return conf, nil
	}
	c, _ := x.evaluation(t)
	return c, nil
}

// the node has to be the one in which the expression of the property is meant.
func (x *valueWalk) inOwnNode(st *State, conf, node *Term, pos token.Pos, nodes *Term) {
	ok := false
	switch {
	case conf == nil:
		return
	case nodes != nil:
		ok = x.selected(nodes) == conf
	case node == nil:
		return
	case conf == x.conf && node == x.node:
		ok = true
	default:
		up, item := x.parent(conf)
		if up == nil {
			break
		}
		if !x.isConf(up.typ) { // a property of the record itself
			b, st, i, f := contentsOf(node)
			ok = f && b == x.rec && isNode(st.Field(i).Type())
			if c, _, _, f := contentsOf(up); !f || c != x.rec {
				ok = false
			}
			break
		}
		l, _ := elem(node)
		ok = l != nil && x.selected(l) == up
		_ = item
	}
	if ok {
		x.r.ok("own-node", x.name+": "+describeConf(x, conf), pos, "the node of its parent")
	} else {
		x.r.violation("own-node", x.name+": "+describeConf(x, conf), pos, "the expression of "+conf.String()+" is evaluated in "+orNodes(node, nodes).String()+", which is not what its parent selected", st)
	}
}

func orNodes(a, b *Term) *Term {
	if b != nil {
		return b
	}
	return a
}

func describeConf(x *valueWalk, c *Term) string {
	switch up, item := x.parent(c); {
	case c == x.conf:
		return "the property itself"
	case up == nil:
		return "a property"
	case item:
		return "the items"
	case !x.isConf(up.typ):
		return "a property of the record"
	}
	return "a property of an object"
}

func (x *valueWalk) call(ci *CallInfo) {
	st := ci.st
	if isParse(ci) && len(ci.args) >= 2 {
		x.parse(ci)
		return
	}
	if ci.fn != nil && x.cut(ci.fn) {
		var conf, node, val, path *Term
		for i, pr := range ci.fn.Params {
			if i >= len(ci.args) {
				break
			}
			switch t := pr.Type(); {
			case isNode(t):
				node = ci.args[i]
			case x.isConf(t):
				conf = ci.args[i]
			case isAny(t):
				val = ci.args[i]
			case isPath(t):
				path = ci.args[i]
			}
		}
		if conf != nil {
			x.inOwnNode(st, conf, node, ci.pos, nil)
		}
		if path != nil {
			x.step(st, conf, node, val, path, ci.pos)
		}
		return
	}
	for _, a := range ci.args {
		if b, s, i, ok := contentsOf(a); ok && isExpr(s.Field(i).Type()) && ci.result != nil {
			if c, n := x.evaluation(ci.result); c == b && n != nil {
				x.inOwnNode(st, c, n, ci.pos, nil)
			}
		}
	}
	if ci.name == "builtin append" && len(ci.args) == 2 && ci.result != nil {
		if sl, ok := ci.result.typ.Underlying().(*types.Slice); ok && isAny(sl.Elem()) {
			els, ok := x.w.sliceElems(st, ci.args[1])
			if ok && len(els) == 1 {
				x.element(st, ci.result, nil, els[0], ci.pos)
			}
		}
	}
}

// parse: the parser and the text are of the same column or property.
func (x *valueWalk) parse(ci *CallInfo) {
	st := ci.st
	by, text := ci.args[0], ci.args[1]
	what := x.name
	var pl, conf *Term
	if c, _ := x.evaluation(text); c != nil {
		conf = c
	} else if l, i := elem(text); l != nil {
		pl = i
	} else {
		x.r.violation("own-parser", what, ci.pos, "the text "+text.String()+" is neither a field of the row nor what the expression of a property gave", st)
		return
	}
	ok := false
	if l, i := elem(by); l != nil {
		ok = pl != nil && i == pl
	} else {
		t := by
		if t.op == "ext" {
			t = t.args[0]
		}
		if t.op == "lk" {
			if c := keyed(t.args[1], "parser"); c != nil {
				if conf != nil {
					ok = c == conf
				} else if l, i := elem(c); l != nil {
					ok = i == pl
				}
			}
		}
	}
	if ok {
		x.r.ok("own-parser", what, ci.pos, "the parser of the same place")
	} else {
		x.r.violation("own-parser", what, ci.pos, "the text "+text.String()+" is converted by "+by.String()+", which is not the parser of the same column or property", st)
	}
}

// nameOf: the name is the one of the column at the place, or of the property.
func (x *valueWalk) nameOf(st *State, name, conf, place *Term) bool {
	name = bareTuple(name)
	same := func(c *Term) bool {
		if keyed(name, "name") == c {
			return true
		}
		for f, val := range st.facts {
			a, b, eq, ok := comparison(f, val)
			if !ok || !eq {
				continue
			}
			if keyed(a, "name") == c && b == name || keyed(b, "name") == c && a == name {
				return true
			}
		}
		return false
	}
	if conf != nil {
		return same(conf)
	}
	if place.op == "ext" && place.aux == "0" {
		place = place.args[0]
	}
	if place.op == "lk" {
		k := bareTuple(place.args[1])
		return k == name || keyed(k, "name") != nil && same(keyed(k, "name"))
	}
	// the name of the element at this place of the columns
	if c := keyed(name, "name"); c != nil {
		if _, i := elem(c); i == place {
			return true
		}
	}
	for f, val := range st.facts {
		a, b, eq, ok := comparison(f, val)
		if !ok || !eq {
			continue
		}
		for _, pair := range [][2]*Term{{a, b}, {b, a}} {
			if c := keyed(pair[0], "name"); c != nil && pair[1] == name {
				if _, i := elem(c); i == place {
					return true
				}
			}
		}
	}
	return false
}

func (x *valueWalk) set(st *State, in *ssa.MapUpdate, m, k, v *Term) {
	mt, ok := in.Map.Type().Underlying().(*types.Map)
	if !ok || !isAny(mt.Elem()) {
		return
	}
	x.rd.mark(st, "set", func(key, val *Term) bool { return val != nil && keyed(k, "name") == val })
	if isNilTerm(v) {
		x.absent(st, k, in.Pos(), true)
		return
	}
	conf, place := x.owner(st, v)
	if conf == nil && place == nil {
		if v.op == "nil" || v.op == "const" || v.op == "phi" || v.op == "opaque" {
			x.r.violation("own-name", x.name, in.Pos(), "what is given under "+k.String()+" is "+v.String()+", which does not come from a column or property", st)
		}
		return
	}
	if x.nameOf(st, k, conf, place) {
		x.r.ok("own-name", x.name, in.Pos(), "the value of the property of this name")
	} else {
		x.r.violation("own-name", x.name, in.Pos(), "what is given under "+k.String()+" is "+v.String()+", the value of another column or property", st)
	}
	if conf != nil {
		if up, item := x.parent(conf); up != nil && !item {
			st.user.terms["of:"+m.String()] = up
		}
	}
}

func isNilTerm(t *Term) bool {
	for t != nil && t.op == "iface" {
		t = t.args[0]
	}
	return t != nil && (t.op == "nil" || t.op == "const" && t.cval == nil && strings.HasPrefix(t.aux, "nil"))
}

func (x *valueWalk) stored(st *State, in *ssa.Store, addr, val *Term) {
	if addr.op != "iaddr" || !isAny(in.Val.Type()) || addr.args[0].op != "mk" {
		return
	}
	x.element(st, addr.args[0], addr.args[1], val, in.Pos())
}

// element: an element of a list which is built.
func (x *valueWalk) element(st *State, list, at, val *Term, pos token.Pos) {
	conf, _ := x.owner(st, val)
	if conf == nil {
		return
	}
	up, item := x.parent(conf)
	if up == nil || !item {
		return
	}
	st.user.terms["of:"+list.String()] = up
	t := bareTuple(val)
	var node *Term
	if t.op == "call" && t.call != nil && t.call.fn != nil {
		for i, pr := range t.call.fn.Params {
			if isNode(pr.Type()) && i < len(t.call.args) {
				node = t.call.args[i]
			}
		}
	}
	if node == nil {
		_, node = x.evaluation(t)
	}
	_, i := elem(node)
	if i == nil {
		return
	}
	x.rd.mark(st, "set", func(key, v *Term) bool { return key == i })
	if at == nil || at == i {
		x.r.ok("own-place", x.name, pos, "the same place")
	} else {
		x.r.violation("own-place", x.name, pos, "the value of the node "+i.String()+" is kept at "+at.String(), st)
	}
}

// ---- paths ----

// offset: a part of a path starts at this part of the whole.
func pathOffset(t *Term) (base *Term, off int64, ok bool) {
	for t != nil && t.op == "slice" {
		if t.args[1] != nil && t.args[1].op != "none" {
			n, isC := t.args[1].intVal()
			if !isC {
				return t, 0, false
			}
			off += n
		}
		if len(t.args) > 2 && t.args[2] != nil && t.args[2].op != "none" {
			return t, 0, false
		}
		t = t.args[0]
	}
	return t, off, t != nil
}

// wholePath: what a part of a path is a part of, and whether it starts at a
// place which depends on the rounds of a loop.
func wholePath(t *Term) (base *Term, loop bool) {
	for t != nil && t.op == "slice" {
		for _, a := range t.args[1:] {
			if a != nil && a.any(func(y *Term) bool { return y.op == "opaque" || y.op == "phi" }) {
				loop = true
			}
		}
		t = t.args[0]
	}
	return t, loop
}

// part: t is a part of a path.
func pathPart(t *Term) (off int64, ok bool) {
	l, i := elem(t)
	if l == nil || l.typ == nil || !isPath(l.typ) {
		return 0, false
	}
	n, isC := i.intVal()
	_, o, k := pathOffset(l)
	if !isC || !k {
		return 0, false
	}
	return o + n, true
}

const noDepth = -1

// depth: how many parts of the path lead to the property.
func (x *valueWalk) confDepth(c *Term) int64 {
	if c == x.conf {
		return 0
	}
	up, _ := x.parent(c)
	switch {
	case up == nil:
		return noDepth
	case !x.isConf(up.typ):
		if x.root {
			return 1
		}
		return noDepth
	}
	d := x.confDepth(up)
	if d == noDepth {
		return noDepth
	}
	return d + 1
}

// valueDepth: how many parts of the path lead to the value; each step is
// checked on the way.
func (x *valueWalk) valueDepth(st *State, t *Term, pos token.Pos) int64 {
	for t != nil && (t.op == "iface" || t.op == "conv" || t.op == "ta" || t.op == "ext" && t.aux == "0" && t.args[0].op == "ta") {
		t = t.args[0]
	}
	if t == nil {
		return noDepth
	}
	if t == x.val && x.val != nil {
		return 0
	}
	if b, s, i, ok := contentsOf(t); ok && b == x.rec && x.rec != nil {
		if m, isMap := s.Field(i).Type().Underlying().(*types.Map); isMap && isAny(m.Elem()) {
			return 0
		}
	}
	if t.op == "ext" && t.aux == "0" && t.args[0].op == "lk" {
		t = t.args[0]
	}
	if t.op == "lk" {
		d := x.valueDepth(st, t.args[0], pos)
		if d == noDepth {
			return d
		}
		x.stepAt(st, t.args[1], d, pos, "an entry")
		return d + 1
	}
	if l, i := elem(t); l != nil {
		d := x.valueDepth(st, l, pos)
		if d == noDepth {
			return d
		}
		x.indexAt(st, i, d, pos)
		return d + 1
	}
	conf, place := x.owner(st, t)
	if conf != nil {
		return x.confDepth(conf)
	}
	if place != nil {
		return 1
	}
	return noDepth
}

func (x *valueWalk) stepAt(st *State, part *Term, d int64, pos token.Pos, what string) {
	part = bareTuple(part)
	off, ok := pathPart(part)
	if l, i := elem(part); !ok && l != nil && isPath(l.typ) {
		if inLoop(i) {
			return // a loop over the parts
		}
	}
	if ok && off == d {
		x.r.ok("path-step", x.name+": "+what, pos, "the next part")
	} else {
		x.r.violation("path-step", x.name+": "+what, pos, what+" is chosen by "+part.String()+", which is not the part "+sprintf("%d", d)+" of the path", st)
	}
}

// inLoop: the index depends on the rounds of a loop over the parts only.
func inLoop(i *Term) bool {
	return i.any(func(y *Term) bool { return y.op == "opaque" || y.op == "phi" }) && !i.any(func(y *Term) bool { return y.op == "len" })
}

func (x *valueWalk) indexAt(st *State, i *Term, d int64, pos token.Pos) {
	t := bareTuple(i)
	if t != nil && (t.op == "call" || t.op == "pure") && len(t.args) > 0 {
		x.stepAt(st, t.args[0], d, pos, "an element")
		return
	}
	if t != nil && (t.op == "opaque" || t.op == "param" || t.op == "phi") {
		return
	}
	x.r.violation("path-step", x.name+": an element", pos, "an element is chosen by "+i.String()+", which is not the part "+sprintf("%d", d)+" of the path", st)
}

// step: what a call looks in is where the parts before the path it is given lead.
func (x *valueWalk) step(st *State, conf, node, val, path *Term, pos token.Pos) {
	base, off, ok := pathOffset(path)
	if whole, loop := wholePath(path); !ok && !loop && x.isWhole(whole) {
		x.r.violation("path-step", x.name+": the rest", pos, "what follows in the path is "+path.String()+", which is not what is left of it", st)
		return
	}
	if !ok || !x.isWhole(base) {
		return
	}
	if x.root {
		x.split(st, base, pos)
	}
	d := int64(noDepth)
	if conf != nil {
		d = x.confDepth(conf)
		// the property has to be the one of this name, or the items
		if conf != x.conf {
			up, item := x.parent(conf)
			if up != nil && d > 0 {
				if item {
					if l, i := elem(node); l != nil {
						x.indexAt(st, i, d-1, pos)
					}
				} else {
					x.named(st, conf, base, d-1, pos)
				}
			}
		}
	} else if val != nil {
		if isNilTerm(val) {
			x.absent(st, nil, pos, true)
			return
		}
		d = x.valueDepth(st, val, pos)
		if _, place := x.owner(st, val); place != nil {
			x.named(st, nil, base, 0, pos, place)
		}
	}
	if d == noDepth {
		return
	}
	if d == off {
		x.r.ok("path-step", x.name+": the rest", pos, "the rest of the path")
	} else {
		x.r.violation("path-step", x.name+": the rest", pos, sprintf("what %d part(s) of the path lead to is looked into with the parts after %d", d, off), st)
	}
}

// split: the parts are those between the dots.
func (x *valueWalk) split(st *State, base *Term, pos token.Pos) {
	if base.op != "pure" && base.op != "call" || len(base.args) < 2 {
		return
	}
	var given *Term
	for i, a := range x.args {
		if isString(x.fn.Params[i].Type()) {
			given = a
		}
	}
	sep, _ := base.args[1].strVal()
	all := base.aux == "strings.Split" || base.call != nil && base.call.name == "strings.Split"
	if len(base.args) == 3 {
		n, ok := base.args[2].intVal()
		all = ok && n < 0
	}
	if all && base.args[0] == given && sep == "." {
		x.r.ok("path-step", x.name+": the parts", pos, "what is between the dots")
	} else {
		x.r.violation("path-step", x.name+": the parts", pos, "the parts of the path are "+base.String()+", not what is between its dots", st)
	}
}

// named: the property or column is the one which the part of the path names.
func (x *valueWalk) named(st *State, conf, base *Term, d int64, pos token.Pos, place ...*Term) {
	parts := map[*Term]bool{}
	collect := func(t *Term) {
		t.any(func(y *Term) bool {
			if off, ok := pathPart(y); ok {
				l, _ := elem(y)
				if b, _, _ := pathOffset(l); b == base && off == d {
					parts[y] = true
				}
			}
			return false
		})
	}
	for f := range st.facts {
		collect(f)
	}
	var pl *Term
	if len(place) > 0 {
		pl = place[0]
		collect(pl)
	}
	for t := range parts {
		if x.nameOf(st, t, conf, pl) {
			x.r.ok("path-step", x.name+": the property", pos, "the property which the part names")
			return
		}
	}
	x.r.violation("path-step", x.name+": the property", pos, "the property is not known to be the one which the part "+sprintf("%d", d)+" of the path names", st)
}

// missing: an entry is known not to exist.
func (x *valueWalk) missing(st *State) *Term {
	var found *Term
	for f, val := range x.known(st) {
		for f.op == "un" && f.aux == "!" {
			f, val = f.args[0], !val
		}
		switch f.op {
		case "lkok":
			k := bareTuple(f.args[1])
			if l, _ := elem(k); l != nil && l.typ != nil && isPath(l.typ) && !val {
				if mt := f.args[0].typ; mt != nil {
					if m, isMap := mt.Underlying().(*types.Map); isMap && isAny(m.Elem()) {
						found = f
					}
				}
			}
		case "bin":
			a, b, op := f.args[0], f.args[1], f.aux
			if !val {
				op = negateOp(op)
			}
			if b.op == "len" || isIntConst(a) {
				// as written
			} else if a.op == "len" || isIntConst(b) {
				a, b, op = b, a, flipRelOp(op)
			}
			// constant on the left, or length on the right
			if n, ok := a.intVal(); ok && x.isIndex(b, nil) {
				if n == 0 && op == ">" || n == -1 && op == ">=" {
					found = f
				}
			}
			if b.op == "len" && x.isIndex(a, b.args[0]) && !x.isWhole(b.args[0]) && (op == ">=" || op == ">") {
				found = f
			}
		}
	}
	return found
}

// isWhole: the path, or a part of it.
func (x *valueWalk) isWhole(t *Term) bool {
	b, _, _ := pathOffset(t)
	return b != nil && (b == x.path || b.typ != nil && isPath(b.typ) && (b.op == "call" || b.op == "pure"))
}

func isIntConst(t *Term) bool {
	_, ok := t.intVal()
	return ok
}

func flipRelOp(op string) string {
	switch op {
	case "<":
		return ">"
	case "<=":
		return ">="
	case ">":
		return "<"
	case ">=":
		return "<="
	}
	return op
}

// isIndex: a number read from the path, or the place of a column.
func (x *valueWalk) isIndex(t, of *Term) bool {
	t = bareTuple(t)
	if t == nil {
		return false
	}
	if t.op == "lk" {
		return isInt(t.typ)
	}
	if (t.op == "call" || t.op == "pure") && len(t.args) > 0 {
		l, _ := elem(t.args[0])
		return l != nil && l.typ != nil && isPath(l.typ)
	}
	// the place of a column, gone over
	return of != nil && of.typ != nil && isPath(of.typ) && (t.op == "bin" || t.op == "opaque" || t.isConst())
}

func negateOp(op string) string {
	switch op {
	case "<":
		return ">="
	case "<=":
		return ">"
	case ">":
		return "<="
	case ">=":
		return "<"
	case "==":
		return "!="
	case "!=":
		return "=="
	}
	return op
}

// absent: nothing is given, so there has to be nothing.
func (x *valueWalk) absent(st *State, k *Term, pos token.Pos, set bool) {
	why := ""
	if f := x.missing(st); f != nil {
		why = f.String()
	}
	if why == "" {
		for f, val := range x.known(st) {
			if c := knownEmpty(f, val); c != nil && x.selected(c) != nil {
				why = "nothing was selected"
			}
		}
	}
	for f, val := range st.facts {
		a, b, eq, ok := comparison(f, val)
		if !ok || !eq {
			continue
		}
		for _, pair := range [][2]*Term{{a, b}, {b, a}} {
			if l, _ := elem(pair[0]); l != nil && x.isConf(pair[0].typ) && pair[1].op == "nil" {
				why = "there is no such property"
			}
		}
	}
	if why == "" && !set && x.rd.finished(st) {
		why = "no property has this name"
	}
	if why != "" {
		x.r.ok("absent", x.name, pos, why)
	} else {
		x.r.violation("absent", x.name, pos, "nothing is given, when no entry is known to be missing", st)
	}
}

func (x *valueWalk) exit(st *State, ret []*Term) {
	if len(ret) != 2 {
		return
	}
	isnil, known := x.w.isNil(st, ret[1])
	failed := known && !isnil
	pos := x.fn.Pos()
	if failed {
		if e := ret[1].strip(); e.op == "ext" || e.op == "call" && e.call != nil && e.call.fn != nil && x.p.inRepo(e.call.fn) && !strings.Contains(e.call.name, "rror") {
			return // a failure of what was called
		}
		if f := x.missing(st); f != nil && !(x.path == nil && x.root && x.fn.Signature.Params().Len() > 0) {
			x.r.violation("absent", x.name, pos, "an entry which does not exist ("+f.String()+") gives an error", st)
		}
		return
	}
	v := ret[0]
	if isNilTerm(v) {
		x.absent(st, nil, pos, false)
		return
	}
	t := bareTuple(v)
	conf, place := x.owner(st, v)
	// a built object or list is complete
	if t.op == "mk" || t.op == "append" || t.op == "alloc" {
		if x.complete(st) {
			x.r.ok("every-property", x.name, pos, "all of them")
		} else {
			x.r.violation("every-property", x.name, pos, "a property or element is missing from what is given", st)
		}
	}
	if x.conf != nil && conf != nil && conf != x.conf {
		up, item := x.parent(conf)
		if !(up == x.conf && x.path != nil) {
			x.r.violation("own-name", x.name, pos, "the value of "+conf.String()+" is given for "+x.conf.String(), st)
		}
		_ = item
	} else if x.conf != nil && conf == x.conf {
		x.r.ok("own-name", x.name, pos, "the value of the property")
	}
	x.kind(st, v, conf, pos)
	// a value which is given without looking at the rest of the path: there is none
	takes := t.op == "call" && t.call != nil && t.call.fn != nil && x.cut(t.call.fn)
	if takes {
		takes = false
		for _, pr := range t.call.fn.Params {
			if isPath(pr.Type()) {
				takes = true
			}
		}
	}
	if takes {
		return
	}
	if x.root && x.fn.Signature.Params().Len() == 0 || !x.root && x.path == nil {
		return
	}
	d := int64(noDepth)
	switch {
	case conf != nil:
		d = x.confDepth(conf)
	case place != nil:
		d = 1
	default:
		d = x.valueDepth(st, v, pos)
	}
	if d == noDepth {
		return
	}
	for f, val := range x.known(st) {
		coll, holds := lengthTest(f, val)
		if coll == nil {
			if c, _, _, more, ok := x.rd.header(st, f, val); ok && !more && x.isWhole(c) && d <= 1 {
				// the end of a loop over the whole path, on which this is the value of the first round
				x.r.ok("path-step", x.name+": the end", pos, "the loop over the path comes to its end")
				return
			}
			continue
		}
		b, off, ok := pathOffset(coll)
		if !ok || !x.isWhole(b) {
			continue
		}
		// the length is at most what has been looked at
		if n := d - off; holds(n) && !holds(n+1) && !holds(n+2) {
			x.r.ok("path-step", x.name+": the end", pos, "the path ends here")
			return
		}
	}
	x.r.violation("path-step", x.name+": the end", pos, "the value "+v.String()+" is given whatever follows in the path", st)
}

// complete: the loops which filled the result came to their ends, with each element.
func (x *valueWalk) complete(st *State) bool {
	if x.rd.covered(st, "set") {
		return true
	}
	for f, val := range x.known(st) {
		if c := knownEmpty(f, val); c != nil && x.rd.over(st, c) {
			return true
		}
	}
	return false
}

// kind: the number or boolean which an expression gave is given as it is (or
// as a whole number) when this is what the parser of the property is for.
func (x *valueWalk) kind(st *State, v, conf *Term, pos token.Pos) {
	if conf == nil {
		return
	}
	t := v
	for t != nil && t.op == "iface" {
		t = t.args[0]
	}
	conv := false
	for t != nil && t.op == "conv" {
		conv = true
		t = t.args[0]
	}
	for t != nil && t.op == "ext" {
		t = t.args[0]
	}
	if t == nil || t.op != "ta" || t.typ == nil {
		return
	}
	b, ok := t.typ.Underlying().(*types.Basic)
	if !ok {
		return
	}
	kinds := map[string]bool{}
	for f, val := range st.facts {
		if f.op != "taok" || !val || f.typ == nil {
			continue
		}
		by := f.args[0]
		if by.op == "ext" {
			by = by.args[0]
		}
		if by.op == "lk" && keyed(by.args[1], "parser") == conf {
			if n := named(deref(f.typ)); n != nil {
				kinds[n.Obj().Name()] = true
			}
		}
	}
	want := ""
	switch {
	case b.Info()&types.IsBoolean != 0:
		want = "Boolean"
	case b.Info()&types.IsFloat != 0 && conv:
		want = "Integer"
	case b.Info()&types.IsFloat != 0:
		want = "Float"
	default:
		return
	}
	if kinds[want] {
		x.r.ok("own-kind", x.name+": "+want, pos, "the parser of the property is of this kind")
	} else {
		x.r.violation("own-kind", x.name+": "+want, pos, "what the expression gave is given as it is, when the parser of the property is not known to be of this kind", st)
	}
}

// ---- columns and settings ----

func (v *values) columns() {
	pk := v.p.pkg("pkg/input")
	listOfParsers := func(t types.Type) bool {
		sl, ok := t.Underlying().(*types.Slice)
		return ok && typeName(sl.Elem()) == "parser.Parser"
	}
	nameToPlace := func(t types.Type) bool {
		m, ok := t.Underlying().(*types.Map)
		return ok && isString(m.Key()) && isInt(m.Elem())
	}
	touch := v.p.touching(func(fn *ssa.Function, in ssa.Instruction) bool {
		if pkgOf(fn) != pk {
			return false
		}
		switch i := in.(type) {
		case *ssa.MapUpdate:
			return nameToPlace(i.Map.Type())
		case *ssa.Store:
			return typeName(i.Val.Type()) == "parser.Parser"
		}
		return false
	})
	for _, fn := range v.p.funcs {
		if !touch[fn] || pkgOf(fn) != pk || fn.Parent() != nil || skipFunc(v.p, fn) {
			continue
		}
		helper := false
		for _, c := range v.p.callers(fn) {
			if touch[c] && pkgOf(c) == pk {
				helper = true
			}
		}
		if helper {
			continue
		}
		name := fnName(fn)
		w := newWalker(v.p, v.r, Hooks{})
		w.h.Inline = func(st *State, f *ssa.Function) bool { return touch[f] && pkgOf(f) == pk }
		place := func(t *Term) *Term { _, i := elem(t); return i }
		w.h.MapSet = func(st *State, in *ssa.MapUpdate, m, k, val *Term) {
			if !nameToPlace(in.Map.Type()) {
				return
			}
			var i *Term
			if c := keyed(k, "name"); c != nil {
				i = place(c)
			} else if at := st.user.terms["named:"+k.String()]; at != nil {
				i = at
			} else {
				i = place(k)
			}
			switch {
			case i != nil && i == val:
				v.r.ok("own-column", name+": the place of a name", in.Pos(), "its own")
			default:
				v.r.violation("own-column", name+": the place of a name", in.Pos(), "the name "+k.String()+" is recorded with the place "+val.String(), st)
			}
		}
		w.h.Store = func(st *State, in *ssa.Store, addr, val *Term) {
			if addr.op != "iaddr" {
				return
			}
			if typeName(in.Val.Type()) == "parser.Parser" && listOfParsers(types.NewSlice(in.Val.Type())) && addr.args[0].op != "alloc" {
				t := val
				if t.op == "ext" {
					t = t.args[0]
				}
				var c *Term
				if t.op == "lk" {
					c = keyed(t.args[1], "parser")
				}
				if c != nil && place(c) == addr.args[1] {
					v.r.ok("own-column", name+": the parser of a column", in.Pos(), "its own")
				} else {
					v.r.violation("own-column", name+": the parser of a column", in.Pos(), "the parser "+val.String()+" is the one of the column "+addr.args[1].String(), st)
				}
			}
			if pt, ok := in.Val.Type().Underlying().(*types.Pointer); ok && named(pt.Elem()) == v.column && addr.args[0].op != "alloc" {
				s := structOf(pt.Elem())
				for f := 0; f < s.NumFields(); f++ {
					if yamlKey(s, f) != "name" {
						continue
					}
					n := w.load(st, w.faddr(val, s.Field(f).Name()), s.Field(f).Type())
					if i := place(n); i != nil && isPath(mustList(n).typ) {
						if i == addr.args[1] {
							v.r.ok("own-column", name+": the name of a column", in.Pos(), "its own")
						} else {
							v.r.violation("own-column", name+": the name of a column", in.Pos(), "the column "+addr.args[1].String()+" is named "+n.String(), st)
						}
					}
				}
			}
		}
		w.start(fn, nil)
		v.r.walked(w)
	}
}

func mustList(t *Term) *Term {
	l, _ := elem(t)
	return l
}

func (v *values) settings() {
	pk := v.p.pkg("pkg/input")
	isReader := func(t types.Type) bool {
		return t != nil && strings.TrimPrefix(typeName(t), "*") == "encoding/csv.Reader"
	}
	touch := v.p.touching(func(fn *ssa.Function, in ssa.Instruction) bool {
		if pkgOf(fn) != pk {
			return false
		}
		if fa, ok := in.(*ssa.FieldAddr); ok && isReader(fa.X.Type()) {
			return true
		}
		c, ok := in.(ssa.CallInstruction)
		if !ok {
			return false
		}
		f := c.Common().StaticCallee()
		if f == nil || f.Pkg == nil {
			return false
		}
		switch f.Pkg.Pkg.Path() {
		case "encoding/csv":
			return f.Name() == "NewReader"
		case "github.com/antchfx/xmlquery":
			return strings.HasPrefix(f.Name(), "CreateStreamParser")
		}
		return false
	})
	for _, fn := range v.p.funcs {
		if !touch[fn] || pkgOf(fn) != pk || fn.Parent() != nil || skipFunc(v.p, fn) {
			continue
		}
		helper := false
		for _, c := range v.p.callers(fn) {
			if touch[c] && pkgOf(c) == pk {
				helper = true
			}
		}
		if helper {
			continue
		}
		name := fnName(fn)
		w := newWalker(v.p, v.r, Hooks{})
		w.h.Inline = func(st *State, f *ssa.Function) bool { return touch[f] && pkgOf(f) == pk }
		w.h.After = func(ci *CallInfo) {
			st := ci.st
			switch {
			case ci.fn != nil && ci.fn.Pkg != nil && ci.fn.Pkg.Pkg.Path() == "encoding/csv" && ci.fn.Name() == "NewReader":
				st.user.add("reader", ci.result, "new")
			case ci.fn != nil && ci.fn.Pkg != nil && ci.fn.Pkg.Pkg.Path() == "github.com/antchfx/xmlquery" && strings.HasPrefix(ci.fn.Name(), "CreateStreamParser"):
				ok := false
				for _, a := range ci.vargs {
					if keyed(bare(a), "recordXpath") != nil {
						ok = true
					}
				}
				if ok {
					v.r.ok("reader-settings", name+": the expression of the records", ci.pos, "the configured one")
				} else {
					v.r.violation("reader-settings", name+": the expression of the records", ci.pos, "the records are not selected by the configured expression", st)
				}
			}
		}
		w.h.Store = func(st *State, in *ssa.Store, addr, val *Term) {
			if addr.op != "faddr" || addr.args[0].typ == nil || !isReader(addr.args[0].typ) {
				return
			}
			what := name + ": " + addr.aux
			switch addr.aux {
			case "Comma":
				t := val
				okc := t.any(func(y *Term) bool { return keyed(y, "delimiter") != nil })
				if okc {
					st.user.add("reader", addr.args[0], "set")
					v.r.ok("reader-settings", what, in.Pos(), "the configured delimiter")
				} else {
					v.r.violation("reader-settings", what, in.Pos(), "the fields are split by "+val.String()+", not by the configured delimiter", st)
				}
			case "ReuseRecord", "TrimLeadingSpace", "Comment", "LazyQuotes":
				b, isB := val.boolVal()
				zero := isB && !b || val.isConst() && val.cval != nil && val.cval.Kind() == constant.Int && constant.Sign(val.cval) == 0
				if zero {
					v.r.ok("reader-settings", what, in.Pos(), "not used")
				} else {
					v.r.violation("reader-settings", what, in.Pos(), "the fields of a row are not given as they are", st)
				}
			}
		}
		w.h.Exit = func(st *State, fn *ssa.Function, ret []*Term) bool {
			if len(ret) == 0 {
				return false
			}
			if isnil, known := w.isNil(st, ret[len(ret)-1]); known && !isnil {
				return false
			}
			for t, tag := range st.user.sets["reader"] {
				if tag != "set" {
					v.r.violation("reader-settings", name+": Comma", fn.Pos(), "the reader "+t.String()+" does not split the fields by the configured delimiter", st)
				}
			}
			return false
		}
		w.start(fn, nil)
		v.r.walked(w)
	}
}
