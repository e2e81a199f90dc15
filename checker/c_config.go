package main

import (
	"go/types"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C12", checkConfig) }

// What a name in the configuration refers to, by its documented key.
var references = map[string]string{
	"input":      "pkg/input",
	"index":      "pkg/index",
	"childIndex": "pkg/index",
	"parser":     "pkg/parser",
	"output":     "pkg/output",
}

func yamlTag(st *types.Struct, i int) string {
	return strings.Split(reflect.StructTag(st.Tag(i)).Get("yaml"), ",")[0]
}

// configTypes: the structures of the configuration, which can be validated.
func configTypes(p *Program) []*types.Named {
	seen := map[*types.Named]bool{}
	var out []*types.Named
	for _, fn := range p.funcs {
		if fn.Name() != "Validate" || fn.Signature.Recv() == nil || len(fn.Blocks) == 0 || errorResult(fn.Signature) != 0 {
			continue
		}
		n := named(fn.Signature.Recv().Type())
		if n == nil || seen[n] || p.isMock(n) || structOf(n) == nil {
			continue
		}
		seen[n] = true
		out = append(out, n)
	}
	sort.Slice(out, func(i, j int) bool { return typeName(out[i]) < typeName(out[j]) })
	return out
}

// validated: the type, or the elements of the collection, can be validated.
func (p *Program) validated(t types.Type) (elem types.Type, collection bool) {
	switch x := t.Underlying().(type) {
	case *types.Slice:
		e, c := p.validated(x.Elem())
		if c {
			return nil, false
		}
		return e, e != nil
	case *types.Map:
		e, c := p.validated(x.Elem())
		if c {
			return nil, false
		}
		return e, e != nil
	case *types.Array:
		e, _ := p.validated(x.Elem())
		return e, e != nil
	}
	n := named(t)
	if n == nil || n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), modulePath) {
		return nil, false
	}
	if hasMethod(t, "Validate") || hasMethod(types.NewPointer(n), "Validate") {
		return t, false
	}
	return nil, false
}

func isValidate(ci *CallInfo) bool {
	n := ci.name
	if ci.method != nil {
		return ci.method.Name() == "Validate"
	}
	return strings.HasSuffix(n, ".Validate")
}

// configMap: the package of the definitions which are in the map.
func configMap(t types.Type) string {
	if t == nil {
		return ""
	}
	m, ok := t.Underlying().(*types.Map)
	if !ok {
		return ""
	}
	n := named(m.Elem())
	if n == nil || n.Obj().Pkg() == nil || n.Obj().Name() != "Config" {
		return ""
	}
	return strings.TrimPrefix(n.Obj().Pkg().Path(), modulePath+"/")
}

func checkConfig(p *Program, r *Report) {
	r.explanation = "The validation of the whole configuration, and of each definition, is explored path by path with any content. Each setting which names another definition, found by its documented key, is an obligation: on each path which accepts, " +
		"it was found in the list of the right kind (or, where it is optional, is not given). The loops over lists of definitions must validate each of them, and register each name once after checking that it was not known."
	r.assumptions = []string{"the yaml decoder gives the settings to the fields which have their key"}
	r.rule("reference", 10, "each name which refers to another definition was found among these definitions")
	r.rule("nested", 12, "each part of a definition is validated")
	r.rule("index-fits", 2, "an index is only accepted for an input and a property which it handles")
	r.rule("every-definition", 5, "each definition of the configuration is validated before it is accepted")
	r.rule("unique-name", 5, "each definition is kept under its own name, which no other one of its kind has")
	r.rule("unique-element", 6, "the elements of a definition which are known by a name all have a different one")
	r.rule("name-required", 10, "a definition without a name is refused")
	r.rule("strict", 1, "the unknown keys of the configuration are refused")

	types_ := configTypes(p)
	if len(types_) == 0 {
		r.undecided("nested", "Validate", 0, "no structure of the configuration was found")
		return
	}
	for _, n := range types_ {
		checkDefinition(p, r, n)
	}
	checkRoot(p, r)
	checkUniqueElements(p, r, types_)
}

type definition struct {
	p    *Program
	r    *Report
	n    *types.Named
	st   *types.Struct
	fn   *ssa.Function
	name string
}

func checkDefinition(p *Program, r *Report, n *types.Named) {
	d := &definition{p: p, r: r, n: n, st: structOf(n), fn: p.method(n, "Validate"), name: typeName(n)}
	if d.fn == nil || len(d.fn.Blocks) == 0 {
		return
	}
	d.direct()
	for i := 0; i < d.st.NumFields(); i++ {
		if e, _ := p.validated(d.st.Field(i).Type()); e != nil {
			d.nested(i)
		}
	}
}

// walk explores the validation; exit is called where it succeeds.
func (d *definition) walk(h func(w *Walker), exit func(w *Walker, st *State)) {
	w := newWalker(d.p, d.r, Hooks{})
	w.h.Before = func(ci *CallInfo) bool {
		if isValidate(ci) {
			return true
		}
		return strings.HasSuffix(ci.name, ".DoesHandleInput") || strings.HasSuffix(ci.name, ".DoesHandleProperty")
	}
	w.h.Exit = func(st *State, f *ssa.Function, ret []*Term) bool {
		e := ret[len(ret)-1]
		if x, k := w.isNil(st, e); k && !x {
			return false
		} else if !k && !w.assume(st, w.nilEq(e), true) {
			return false
		}
		exit(w, st)
		return false
	}
	h(w)
	w.start(d.fn, nil)
	d.r.walked(w)
}

func (d *definition) recv(w *Walker) *Term {
	return w.param(d.fn.Params[0].Name(), d.fn.Params[0].Type())
}

func (d *definition) cell(w *Walker, st *State, i int) *Term {
	f := d.st.Field(i)
	return w.load(st, w.faddr(d.recv(w), f.Name()), f.Type())
}

// foundIn: the lookups which a branch shows to have found something.
func (w *Walker) foundIn(st *State, in *ssa.If, cond *Term, taken bool) (m, k *Term, found bool) {
	if m, k, found := w.lookedUp(st, in, taken); m != nil {
		return m, k, found
	}
	for cond.op == "un" && cond.aux == "!" {
		cond, taken = cond.args[0], !taken
	}
	if cond.op == "lkok" {
		return cond.args[0], cond.args[1], taken
	}
	if cond.op == "ext" && cond.aux == "1" && cond.args[0].op == "opaque" && strings.HasPrefix(cond.args[0].aux, "lookup:") {
		return cond.args[0].args[0], cond.args[0].args[1], taken
	}
	if x, isNil := nilFact(cond, taken); x != nil && x.op == "lk" {
		return x.args[0], x.args[1], !isNil
	}
	return nil, nil, false
}

func (d *definition) direct() {
	r := d.r
	var indexRef, inputRef, nameField int = -1, -1, -1
	var props []int
	refs := map[int]string{}
	for i := 0; i < d.st.NumFields(); i++ {
		b, ok := d.st.Field(i).Type().Underlying().(*types.Basic)
		if !ok || b.Kind() != types.String {
			continue
		}
		tag := yamlTag(d.st, i)
		if kind := references[tag]; kind != "" {
			refs[i] = kind
			if kind == "pkg/index" {
				indexRef = i
			}
			if kind == "pkg/input" {
				inputRef = i
			}
		}
		if tag == "property" || tag == "childProperty" {
			props = append(props, i)
		}
		if tag == "name" {
			nameField = i
		}
	}
	if len(refs) == 0 && nameField < 0 {
		return
	}
	top := d.isDefinition()
	d.walk(func(w *Walker) {
		w.h.Branch = func(st *State, in *ssa.If, cond *Term, taken bool) {
			if m, k, found := w.foundIn(st, in, cond, taken); m != nil && found && configMap(m.typ) != "" {
				st.user.add("found "+configMap(m.typ), k, m.aux)
			}
			c, v := cond, taken
			for c.op == "un" && c.aux == "!" {
				c, v = c.args[0], !v
			}
			if v && c.call != nil && len(c.call.args) == 2 {
				switch {
				case strings.HasSuffix(c.call.name, ".DoesHandleInput") || c.call.method != nil && c.call.method.Name() == "DoesHandleInput":
					if d.theInput(w, st, c.call.args[1], inputRef) {
						st.user.add("handles input", c.call.args[0], "")
					}
				case strings.HasSuffix(c.call.name, ".DoesHandleProperty") || c.call.method != nil && c.call.method.Name() == "DoesHandleProperty":
					for _, i := range props {
						if c.call.args[1] == d.cell(w, st, i) {
							st.user.add("handles property", c.call.args[0], "")
						}
					}
				}
			}
		}
		w.h.After = func(ci *CallInfo) {
			if !isValidate(ci) || inputRef < 0 {
				return
			}
			for _, a := range ci.args {
				if a != nil && a.typ != nil && typeName(a.typ) == "input.Config" && !d.theInput(w, ci.st, a, inputRef) {
					r.violation("index-fits", d.name+": "+ci.name, ci.pos, "a part of the definition is validated for another input than the one of the definition", ci.st)
				}
			}
		}
	}, func(w *Walker, st *State) {
		for i, kind := range refs {
			c := d.name + "." + d.st.Field(i).Name()
			v := d.cell(w, st, i)
			if _, ok := st.user.has("found "+kind, v); ok {
				r.ok("reference", c, d.fn.Pos(), "found")
			} else if d.unused(w, st, v) {
				r.ok("reference", c, d.fn.Pos(), "not used by this type of definition")
			} else {
				r.violation("reference", c, d.fn.Pos(), "the definition is accepted although the name may not be one of the "+strings.TrimPrefix(kind, "pkg/")+" definitions", st)
			}
		}
		if nameField >= 0 && top {
			v := d.cell(w, st, nameField)
			eq := w.eq(v, w.tt.strc(""))
			if x, k := w.truth(st, eq); k && !x {
				r.ok("name-required", d.name, d.fn.Pos(), "")
			} else {
				r.violation("name-required", d.name, d.fn.Pos(), "the definition is accepted although its name may be empty", st)
			}
		}
		if indexRef >= 0 {
			index := d.cell(w, st, indexRef)
			has := func(set string) bool {
				for x := range st.user.sets[set] {
					if m, k, ok := entryOf(x); ok && k == index && configMap(m.typ) == "pkg/index" {
						return true
					}
				}
				return false
			}
			if !has("handles input") {
				r.violation("index-fits", d.name, d.fn.Pos(), "the index may not handle the input", st)
			} else if len(props) > 0 && !has("handles property") {
				r.violation("index-fits", d.name, d.fn.Pos(), "the index may not handle the property", st)
			} else {
				r.ok("index-fits", d.name, d.fn.Pos(), "")
			}
		}
	})
}

// isDefinition: one of the definitions of the configuration, known by its name.
func (d *definition) isDefinition() bool {
	return hasMethod(types.NewPointer(d.n), "GetName")
}

// unused: the reference is known to be empty, and the definition to be of a
// type which has none.
func (d *definition) unused(w *Walker, st *State, v *Term) bool {
	if x, k := w.truth(st, w.eq(v, w.tt.strc(""))); !k || !x {
		return false
	}
	for i := 0; i < d.st.NumFields(); i++ {
		if yamlTag(d.st, i) == "type" {
			t := d.cell(w, st, i)
			for _, def := range []string{"primitive"} {
				if x, k := w.truth(st, w.eq(t, w.tt.strc(def))); k && !x {
					return true
				}
			}
		}
	}
	return false
}

// theInput: the given input, or the one which the definition refers to.
func (d *definition) theInput(w *Walker, st *State, v *Term, ref int) bool {
	if ref < 0 {
		return v.op == "param"
	}
	m, k, ok := entryOf(v)
	return ok && k == d.cell(w, st, ref) && configMap(m.typ) == "pkg/input"
}

// nested: the parts of the i-th field are validated.
func (d *definition) nested(i int) {
	f := d.st.Field(i)
	_, collection := d.p.validated(f.Type())
	c := d.name + "." + f.Name()
	_, isPtr := f.Type().Underlying().(*types.Pointer)
	_, isIface := f.Type().Underlying().(*types.Interface)
	var rd *rounds
	d.walk(func(w *Walker) {
		rd = &rounds{w: w, over: func(st *State, c *Term) bool { return c == d.cell(w, st, i) }, facts: []string{"validated"}}
		w.h.Branch = func(st *State, in *ssa.If, cond *Term, taken bool) {
			if collection {
				rd.branch(st, in, cond, taken)
			}
		}
		w.h.After = func(ci *CallInfo) {
			if !isValidate(ci) || len(ci.args) == 0 {
				return
			}
			st := ci.st
			x := bare(ci.args[0])
			res := w.res(ci, 0)
			if collection {
				if rd.mark(st, "validated", func(k, v *Term) bool {
					return v != nil && (x == v || x.op == "iaddr" && x.args[0] == d.cell(w, st, i) && x.args[1] == k)
				}) {
					st.user.terms["err"] = res
					st.user.flags["called"] = 1
				}
				return
			}
			if x == w.faddr(d.recv(w), f.Name()) || (isPtr || isIface) && x == d.cell(w, st, i) {
				st.user.terms["err"] = res
				st.user.flags["called"] = 1
			}
		}
		branch := w.h.Branch
		w.h.Branch = func(st *State, in *ssa.If, cond *Term, taken bool) {
			// the result of the last validation has to be known before the next
			if x, isNil := nilFact(cond, taken); x != nil && x == st.user.terms["err"] {
				delete(st.user.terms, "err")
				if !isNil {
					st.user.flags["refused"] = 1
				}
			}
			if e := st.user.terms["err"]; e != nil && collection {
				if _, _, _, _, ok := rd.header(st, cond, taken); ok && isHeader(in.Block()) {
					st.user.flags["ignored"] = 1
				}
			}
			branch(st, in, cond, taken)
		}
	}, func(w *Walker, st *State) {
		if st.user.flags["refused"] == 1 {
			d.r.violation("nested", c, d.fn.Pos(), "the definition is accepted although this part of it was refused", st)
			return
		}
		if e := st.user.terms["err"]; e != nil {
			if x, k := w.isNil(st, e); !k || !x {
				st.user.flags["ignored"] = 1
			}
		}
		if st.user.flags["ignored"] == 1 {
			d.r.violation("nested", c, d.fn.Pos(), "the definition is accepted although this part of it may have been refused", st)
			return
		}
		v := d.cell(w, st, i)
		switch {
		case collection && rd.covered(st, "validated"):
			d.r.ok("nested", c, d.fn.Pos(), "each element")
		case collection && w.knownEmpty(st, v):
			d.r.ok("nested", c, d.fn.Pos(), "each element")
		case !collection && st.user.flags["called"] == 1:
			d.r.ok("nested", c, d.fn.Pos(), "")
		case !collection && isPtr && w.knownNil(st, v):
			d.r.ok("nested", c, d.fn.Pos(), "")
		default:
			d.r.violation("nested", c, d.fn.Pos(), "the definition is accepted although this part of it may not have been validated", st)
		}
	})
}

func (w *Walker) knownNil(st *State, v *Term) bool {
	x, k := w.isNil(st, v)
	return k && x
}

// knownEmpty: the collection has no element.
func (w *Walker) knownEmpty(st *State, v *Term) bool {
	if w.knownNil(st, v) {
		return true
	}
	l := w.length(st, v, "len")
	if _, hi := w.bounds(st, l, 0); hi != nil && *hi <= 0 {
		return true
	}
	x, k := w.truth(st, w.eq(l, w.tt.intc(0)))
	return k && x
}

// checkRoot: how the whole configuration is read.
// configEntries: the structure of the whole configuration, and the functions
// which read it.
func configEntries(p *Program) (root *types.Named, entries []*ssa.Function) {
	for _, n := range configTypes(p) {
		st := structOf(n)
		maps := 0
		for i := 0; i < st.NumFields(); i++ {
			if configMap(st.Field(i).Type()) != "" {
				maps++
			}
		}
		if maps >= 2 {
			root = n
		}
	}
	if root == nil {
		return
	}
	for _, fn := range p.funcs {
		s := fn.Signature
		if s.Recv() != nil || fn.Parent() != nil || s.Results().Len() != 2 || named(s.Results().At(0).Type()) != root || !fn.Object().Exported() {
			continue
		}
		for i := 0; i < s.Params().Len(); i++ {
			if b, ok := s.Params().At(i).Type().Underlying().(*types.Basic); ok && b.Kind() == types.String {
				entries = append(entries, fn)
			}
		}
	}
	return
}

func checkRoot(p *Program, r *Report) {
	root, entries := configEntries(p)
	if root == nil {
		r.undecided("every-definition", "config.Config", 0, "the structure of the whole configuration was not found")
		return
	}
	if len(entries) == 0 {
		r.undecided("every-definition", typeName(root), 0, "the function which reads the configuration was not found")
	}
	st := structOf(root)
	for _, fn := range entries {
		strictParsing(p, r, fn)
		for i := 0; i < st.NumFields(); i++ {
			if configMap(st.Field(i).Type()) != "" {
				readDefinitions(p, r, fn, root, i)
			}
		}
	}
}

func strictParsing(p *Program, r *Report, fn *ssa.Function) {
	seen := map[*ssa.Function]bool{}
	n := 0
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || seen[f] || !p.inRepo(f) {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok || c.Common().StaticCallee() == nil {
					continue
				}
				callee := c.Common().StaticCallee()
				name := fnName(callee)
				switch {
				case strings.HasSuffix(name, "yaml.v2.UnmarshalStrict"):
					n++
					r.ok("strict", fnName(f), c.Pos(), name)
				case strings.HasSuffix(name, "yaml.v2.Unmarshal"):
					n++
					r.violation("strict", fnName(f), c.Pos(), "the unknown keys are ignored", nil)
				case strings.HasSuffix(name, "yaml.v2.Decoder).Decode"):
					n++
					r.check(strictDecoder(f), "strict", fnName(f), c.Pos(), name, "the unknown keys may be ignored")
				}
				visit(callee)
			}
		}
	}
	visit(fn)
	if n == 0 {
		r.undecided("strict", fnName(fn), fn.Pos(), "how the configuration is parsed was not found")
	}
}

func strictDecoder(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok && c.Common().StaticCallee() != nil && strings.HasSuffix(fnName(c.Common().StaticCallee()), "yaml.v2.Decoder).SetStrict") {
				k, ok := c.Common().Args[1].(*ssa.Const)
				return ok && k.Value != nil && k.Value.String() == "true"
			}
		}
	}
	return false
}

// readDefinitions: the definitions of a kind, from the file to the result.
func readDefinitions(p *Program, r *Report, fn *ssa.Function, root *types.Named, i int) {
	f := structOf(root).Field(i)
	elem := f.Type().Underlying().(*types.Map).Elem()
	c := typeName(root) + "." + f.Name()
	w := newWalker(p, r, Hooks{})
	// the definitions, as they were parsed
	parsed := func(t types.Type) bool {
		s, ok := t.Underlying().(*types.Slice)
		if !ok {
			return false
		}
		st := structOf(s.Elem())
		if st == nil {
			st = structOf(pointee(s.Elem()))
		}
		for j := 0; st != nil && j < st.NumFields(); j++ {
			if types.Identical(st.Field(j).Type(), elem) {
				return true
			}
		}
		return false
	}
	rd := &rounds{w: w, over: func(st *State, x *Term) bool { return x.typ != nil && parsed(x.typ) }, facts: []string{"kept"}}
	w.h.Before = func(ci *CallInfo) bool {
		return isValidate(ci) && len(ci.args) > 0 && named(pointee(ci.args[0].typ)) == root
	}
	w.h.After = func(ci *CallInfo) {
		if isValidate(ci) && len(ci.args) > 0 && ci.args[0].typ != nil && named(ci.args[0].typ) == root {
			ci.st.user.add("validated", ci.args[0], "")
			ci.st.user.terms["err"] = w.res(ci, 0)
		}
	}
	w.h.Branch = func(st *State, in *ssa.If, cond *Term, taken bool) {
		rd.branch(st, in, cond, taken)
		if m, k, found := w.foundIn(st, in, cond, taken); m != nil && !found {
			st.user.add("vacant", nameKey(w, k), "")
			st.user.add("vacant in", m, "")
		}
	}
	w.h.MapSet = func(st *State, in *ssa.MapUpdate, m, k, v *Term) {
		if m.typ == nil || !types.Identical(m.typ.Underlying(), f.Type().Underlying()) {
			return
		}
		st.user.del("validated", nil)
		delete(st.user.sets, "validated")
		if k.call == nil || k.call.method == nil && !strings.HasSuffix(k.call.name, ".GetName") || k.call.method != nil && k.call.method.Name() != "GetName" || bare(k.call.args[0]) != bare(v) {
			if !nameOf(w, st, k, v) {
				r.violation("unique-name", c, in.Pos(), "a definition is kept under something else than its name", st)
				return
			}
		}
		_, a := st.user.has("vacant", nameKey(w, k))
		_, b := st.user.has("vacant in", m)
		if a && b {
			r.ok("unique-name", c, in.Pos(), "")
			rd.mark(st, "kept", func(key, e *Term) bool {
				return v.any(func(x *Term) bool { return x == e || x == key })
			})
		} else {
			r.violation("unique-name", c, in.Pos(), "a definition may take the place of another one with the same name", st)
		}
	}
	n := 0
	w.h.Exit = func(st *State, g *ssa.Function, ret []*Term) bool {
		if x, k := w.isNil(st, ret[1]); k && !x {
			return false
		}
		n++
		if _, ok := st.user.has("validated", ret[0]); !ok {
			r.violation("every-definition", c, g.Pos(), "the configuration may be accepted without having been validated, or changed since", st)
			return false
		}
		if e := st.user.terms["err"]; e != ret[1] && !w.knownNil(st, e) {
			r.violation("every-definition", c, g.Pos(), "the configuration may be accepted although it was refused", st)
			return false
		}
		if !rd.covered(st, "kept") {
			r.violation("every-definition", c, g.Pos(), "a definition of the file may be left out", st)
			return false
		}
		r.ok("every-definition", c, g.Pos(), "")
		return false
	}
	w.start(fn, nil)
	r.walked(w)
	if n == 0 {
		r.undecided("every-definition", c, fn.Pos(), "the configuration is never accepted")
	}
}

// nameKey: the names given twice by the same definition are the same.
func nameKey(w *Walker, k *Term) *Term {
	if k.call != nil && k.call.method != nil && k.call.method.Name() == "GetName" {
		return w.tt.mk("name", "", nil, nil, bare(k.call.args[0]))
	}
	return k
}

// nameOf: k is the name of the definition v, built right here.
func nameOf(w *Walker, st *State, k, v *Term) bool {
	b := bare(v)
	if b == nil || b.typ == nil {
		return false
	}
	return k == w.load(st, w.faddr(b, "Name"), types.Typ[types.String])
}

// checkUniqueElements: the collections of a definition whose elements are
// looked up by one of their fields.
func checkUniqueElements(p *Program, r *Report, list []*types.Named) {
	keys := map[string]bool{"name": true, "path": true, "property": true, "childProperty": true}
	for _, n := range list {
		st := structOf(n)
		fn := p.method(n, "Validate")
		if fn == nil {
			continue
		}
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			sl, ok := f.Type().Underlying().(*types.Slice)
			if !ok || yamlTag(st, i) == "" {
				continue
			}
			var by []string
			if b, isBasic := sl.Elem().Underlying().(*types.Basic); isBasic {
				if b.Kind() != types.String || yamlTag(st, i) != "properties" {
					continue
				}
			} else {
				es := structOf(pointee(sl.Elem()))
				if es == nil {
					es = structOf(sl.Elem())
				}
				for j := 0; es != nil && j < es.NumFields(); j++ {
					if keys[yamlTag(es, j)] {
						by = append(by, es.Field(j).Name())
					}
				}
				if len(by) == 0 {
					continue
				}
			}
			c := typeName(n) + "." + f.Name()
			r.check(p.refusesDuplicates(fn, f.Name(), by...), "unique-element", c, fn.Pos(), strings.Join(by, ", "), "two elements with the same name may be accepted")
		}
	}
}
