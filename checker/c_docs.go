package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"gopkg.in/yaml.v3"
)

func init() {
	register("C21", checkDocKeys)
	register("C22", checkDocValues)
}

// The schema of the documentation, with its references resolved.
type schema struct {
	file  string // relative to the root of the repository
	path  string // the documented key
	node  map[string]interface{}
	props map[string]*schema
	names []string
	items *schema // of an array
	each  *schema // of the values of an object with any key
	req   map[string]bool
	alt   []*schema // items.anyOf
}

type schemaLoader struct {
	root string
	err  error
}

func (l *schemaLoader) load(file, path string, seen map[string]bool) *schema {
	if seen[file] {
		return nil
	}
	b, err := os.ReadFile(file)
	if err != nil {
		l.err = err
		return nil
	}
	var node map[string]interface{}
	if err := yaml.Unmarshal(b, &node); err != nil {
		l.err = fmt.Errorf("%s: %w", file, err)
		return nil
	}
	n := map[string]bool{file: true}
	for k := range seen {
		n[k] = true
	}
	return l.build(node, file, path, n)
}

func (l *schemaLoader) build(node map[string]interface{}, file, path string, seen map[string]bool) *schema {
	if ref, ok := node["$ref"].(string); ok {
		return l.load(filepath.Join(filepath.Dir(file), ref), path, seen)
	}
	rel := strings.TrimPrefix(file, l.root+"/")
	s := &schema{file: rel, path: path, node: node, props: map[string]*schema{}, req: map[string]bool{}}
	for _, x := range list(node["required"]) {
		if n, ok := x.(string); ok {
			s.req[n] = true
		}
	}
	if props, ok := node["properties"].(map[string]interface{}); ok {
		for k, v := range props {
			if m, ok := v.(map[string]interface{}); ok {
				if c := l.build(m, file, path+"."+k, seen); c != nil {
					s.props[k] = c
					s.names = append(s.names, k)
				}
			}
		}
		sort.Strings(s.names)
	}
	if m, ok := node["items"].(map[string]interface{}); ok {
		s.items = l.build(m, file, path+"[]", seen)
	}
	if m, ok := node["additionalProperties"].(map[string]interface{}); ok {
		s.each = l.build(m, file, path+"{}", seen)
	}
	for _, x := range list(node["anyOf"]) {
		if m, ok := x.(map[string]interface{}); ok {
			if c := l.build(m, file, path, seen); c != nil {
				s.alt = append(s.alt, c)
			}
		}
	}
	return s
}

func list(x interface{}) []interface{} {
	l, _ := x.([]interface{})
	return l
}

func (s *schema) typ() string { t, _ := s.node["type"].(string); return t }

func (s *schema) constType() string {
	if t := s.props["type"]; t != nil {
		c, _ := t.node["const"].(string)
		return c
	}
	return ""
}

func (s *schema) examples() []string {
	var out []string
	for _, x := range list(s.node["examples"]) {
		if t, ok := x.(string); ok {
			out = append(out, t)
		}
	}
	return out
}

// A documented type of component, and the structure it is read into.
type documented struct {
	section string
	field   string // the yaml key of the section
	typ     string
	doc     *schema
	strct   *types.Named
	wrapper *types.Named
}

// A documented object and the structure it is read into.
type docPair struct {
	doc   *schema
	n     *types.Named
	where string
	elem  bool // an element of a list or of a map
}

type docs struct {
	p       *Program
	r       *Report
	root    *schema
	parser  *types.Named
	types   []*documented
	pairs   []*docPair
	missing bool
}

// loadDocs reads the documentation and follows how each documented type is
// read. The rules are only reported on when report is set.
func loadDocs(p *Program, r *Report, report bool) *docs {
	d := &docs{p: p, r: r}
	fail := func(msg string) *docs {
		r.undecided(r.ruleNames()[0], "documentation", 0, msg)
		d.missing = true
		return d
	}
	l := &schemaLoader{root: p.root}
	d.root = l.load(filepath.Join(p.root, "docs/schema/config.yaml"), "", map[string]bool{})
	if l.err != nil || d.root == nil {
		return fail(fmt.Sprintf("the schema of the configuration cannot be read: %v", l.err))
	}
	if len(d.root.names) == 0 {
		return fail("the schema of the configuration has no section")
	}
	d.parser = configRoot(p)
	if d.parser == nil {
		return fail("the structure which the configuration file is read into was not found")
	}
	for _, section := range d.root.names {
		s := d.root.props[section]
		f := rootSection(d.parser, section)
		if f == nil || s.items == nil || len(s.items.alt) == 0 {
			if report {
				r.violation("section", section, d.parser.Obj().Pos(), "no list of the configuration is read from the documented key `"+section+"`", nil)
			}
			continue
		}
		wrapper := named(f.Type().Underlying().(*types.Slice).Elem())
		if report {
			r.ok("section", section, f.Pos(), "read into "+typeName(wrapper))
		}
		for _, alt := range s.items.alt {
			t := alt.constType()
			if t == "" {
				continue
			}
			x := &documented{section: section, field: section, typ: t, doc: alt, wrapper: wrapper}
			d.types = append(d.types, x)
			d.dispatch(x, report)
			if x.strct != nil {
				d.pair(alt, x.strct, section+"["+t+"]", false)
			}
		}
		if report {
			d.unknownType(section, wrapper)
		}
	}
	return d
}

// configRoot: the structure whose lists have elements which read themselves.
func configRoot(p *Program) *types.Named {
	var best *types.Named
	n := 0
	for _, pkg := range p.pkgs {
		for _, name := range pkg.Types.Scope().Names() {
			tn, ok := pkg.Types.Scope().Lookup(name).(*types.TypeName)
			if !ok {
				continue
			}
			t := named(tn.Type())
			st := structOf(tn.Type())
			if t == nil || st == nil {
				continue
			}
			c := 0
			for i := 0; i < st.NumFields(); i++ {
				if sl, ok := st.Field(i).Type().Underlying().(*types.Slice); ok {
					if e := named(sl.Elem()); e != nil && (hasMethod(types.NewPointer(e), "UnmarshalYAML")) {
						c++
					}
				}
			}
			if c > n {
				best, n = t, c
			}
		}
	}
	return best
}

func yamlKey(st *types.Struct, i int) string {
	if t := yamlTag(st, i); t != "" {
		return t
	}
	return strings.ToLower(st.Field(i).Name())
}

func rootSection(n *types.Named, key string) *types.Var {
	st := structOf(n)
	for i := 0; i < st.NumFields(); i++ {
		if yamlKey(st, i) != key {
			continue
		}
		if sl, ok := st.Field(i).Type().Underlying().(*types.Slice); ok {
			if e := named(sl.Elem()); e != nil && hasMethod(types.NewPointer(e), "UnmarshalYAML") {
				return st.Field(i)
			}
		}
	}
	return nil
}

// readAs follows how an element of a section reads itself when its type is
// the given one: the structures it was decoded into, and whether some path
// refuses it.
func (d *docs) readAs(wrapper *types.Named, typ string) (into map[*types.Named]token.Pos, accepted, refused bool, where token.Pos) {
	into = map[*types.Named]token.Pos{}
	fn := d.p.method(wrapper, "UnmarshalYAML")
	if fn == nil || len(fn.Blocks) == 0 || len(fn.Params) != 2 {
		return
	}
	where = fn.Pos()
	w := newWalker(d.p, d.r, Hooks{})
	w.unroll = 32
	recv := w.param(fn.Params[0].Name(), fn.Params[0].Type())
	unm := w.param(fn.Params[1].Name(), fn.Params[1].Type())
	value := w.tt.mk("iface", "", types.Typ[types.String], nil, w.tt.strc(typ))
	var decodedInto func(st *State, x *Term) bool
	decodedInto = func(st *State, x *Term) bool {
		for x.op == "iface" {
			x = x.args[0]
		}
		m, isMap := x.typ.Underlying().(*types.Map)
		if x.typ != nil && isMap {
			k := w.tt.strc("type")
			if _, isIface := m.Elem().Underlying().(*types.Interface); isIface {
				st.heap[w.tt.mk("mcell", "", nil, nil, x, k)] = value
			} else {
				st.heap[w.tt.mk("mcell", "", nil, nil, x, k)] = w.tt.strc(typ)
			}
			st.heap[w.tt.mk("mset", "", nil, nil, x)] = w.tt.boolc(true)
			return true
		}
		pt := pointee(x.typ)
		if pt == nil {
			return false
		}
		if _, isPtr := pt.Underlying().(*types.Pointer); isPtr {
			return decodedInto(st, w.load(st, x, pt))
		}
		if _, isIface := pt.Underlying().(*types.Interface); isIface {
			return decodedInto(st, w.load(st, x, pt))
		}
		if _, isMap := pt.Underlying().(*types.Map); isMap {
			o := w.fresh(st, "mk", "map:decoded", pt)
			w.store(st, x, o)
			return decodedInto(st, o)
		}
		if s := structOf(pt); s != nil {
			for i := 0; i < s.NumFields(); i++ {
				if yamlKey(s, i) == "type" {
					v := w.tt.strc(typ)
					if _, isIface := s.Field(i).Type().Underlying().(*types.Interface); isIface {
						v = value
					}
					w.store(st, w.faddr(x, s.Field(i).Name()), v)
				}
			}
			st.user.add("decoded", x, "y")
		}
		return true
	}
	w.h.Before = func(ci *CallInfo) bool {
		if ci.callee == unm && len(ci.args) == 1 {
			decodedInto(ci.st, ci.args[0])
			ci.st.user.flags["decode"]++
			return true
		}
		return d.constant(w, ci)
	}
	w.h.Exit = func(st *State, f *ssa.Function, ret []*Term) bool {
		e := ret[len(ret)-1]
		x, known := w.isNil(st, e)
		if known && !x {
			refused = true
			return false
		}
		if !known && !w.assume(st, w.nilEq(e), true) {
			return false
		}
		accepted = true
		for a, v := range st.heap {
			if !under(a, recv) {
				continue
			}
			for v.op == "iface" {
				v = v.args[0]
			}
			if _, ok := st.user.has("decoded", v); !ok || v.typ == nil {
				continue
			}
			if n := named(v.typ); n != nil && structOf(n) != nil {
				into[n] = n.Obj().Pos()
			}
		}
		return false
	}
	w.start(fn, nil)
	d.r.walked(w)
	return
}

// constant evaluates the functions of the repository which work on constants.
func (d *docs) constant(w *Walker, ci *CallInfo) bool {
	str := func(i int) (string, bool) {
		if i >= len(ci.args) || ci.args[i] == nil {
			return "", false
		}
		return ci.args[i].strVal()
	}
	switch ci.name {
	case "strings.TrimSpace":
		if s, ok := str(0); ok {
			ci.result = w.tt.strc(strings.TrimSpace(s))
			return true
		}
	case "strings.EqualFold":
		a, ok := str(0)
		b, ok2 := str(1)
		if ok && ok2 {
			ci.result = w.tt.boolc(strings.EqualFold(a, b))
			return true
		}
	case "strings.Contains":
		a, ok := str(0)
		b, ok2 := str(1)
		if ok && ok2 {
			ci.result = w.tt.boolc(strings.Contains(a, b))
			return true
		}
	case "unicode/utf8.RuneCountInString":
		if s, ok := str(0); ok {
			ci.result = w.tt.intc(int64(len([]rune(s))))
			return true
		}
	case "slices.Contains", "slices.Index":
		if s, ok := str(1); ok && len(ci.args) == 2 {
			if elems, known := w.sliceElems(ci.st, ci.args[0]); known {
				at := int64(-1)
				for i, e := range elems {
					x, c := e.strVal()
					if !c {
						return false
					}
					if x == s && at < 0 {
						at = int64(i)
					}
				}
				if ci.name == "slices.Index" {
					ci.result = w.tt.intc(at)
				} else {
					ci.result = w.tt.boolc(at >= 0)
				}
				return true
			}
		}
	}
	return false
}

func (d *docs) dispatch(x *documented, report bool) {
	r := d.r
	into, accepted, _, pos := d.readAs(x.wrapper, x.typ)
	what := x.section + "[type: " + x.typ + "]"
	var names []string
	for n := range into {
		names = append(names, typeName(n))
		x.strct = n
	}
	sort.Strings(names)
	if !report {
		return
	}
	switch {
	case !accepted:
		r.violation("type-read", what, pos, "the documented type `"+x.typ+"` is not accepted", nil)
	case len(names) != 1:
		r.violation("type-read", what, pos, fmt.Sprintf("the definition is not kept in one structure which it was decoded into (%s)", quoteList(names)), nil)
	default:
		r.ok("type-read", what, pos, "decoded into "+names[0])
	}
}

func (d *docs) unknownType(section string, wrapper *types.Named) {
	_, accepted, refused, pos := d.readAs(wrapper, "an undocumented type")
	d.r.check(!accepted && refused, "type-unknown", section, pos, "refused", "a definition of "+section+" with an unknown type is accepted")
	_, accepted, refused, pos = d.readAs(wrapper, "")
	d.r.check(!accepted && refused, "type-unknown", section+" (empty)", pos, "refused", "a definition of "+section+" with an empty type is accepted")
}

// pair collects the documented objects with their structures.
func (d *docs) pair(s *schema, n *types.Named, where string, elem bool) {
	d.pairs = append(d.pairs, &docPair{doc: s, n: n, where: where, elem: elem})
	for _, name := range s.names {
		c := s.props[name]
		i := decodedField(n, name)
		if i == nil {
			continue
		}
		key := where + "." + name
		t := i.Type()
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			t = pt.Elem()
		}
		switch {
		case len(c.names) > 0:
			if e := named(t); e != nil && structOf(e) != nil {
				d.pair(c, e, key, false)
			}
		case c.items != nil && len(c.items.names) > 0:
			if sl, ok := t.Underlying().(*types.Slice); ok {
				if e := named(sl.Elem()); e != nil && structOf(e) != nil {
					d.pair(c.items, e, key+"[]", true)
				}
			}
		case c.each != nil && len(c.each.names) > 0:
			if m, ok := t.Underlying().(*types.Map); ok {
				if e := named(m.Elem()); e != nil && structOf(e) != nil {
					d.pair(c.each, e, key+"{}", true)
				}
			}
		}
	}
}

// fieldOf: the field which yaml decodes a key into, the inlined ones included.
func decodedField(n *types.Named, key string) *types.Var {
	st := structOf(n)
	if st == nil {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if !f.Exported() {
			continue
		}
		if inlined(st, i) {
			if e := named(f.Type()); e != nil {
				if x := decodedField(e, key); x != nil {
					return x
				}
			}
			continue
		}
		if yamlKey(st, i) == key {
			return f
		}
	}
	return nil
}

func inlined(st *types.Struct, i int) bool {
	tag := st.Tag(i)
	return strings.Contains(tag, `yaml:",inline"`) || strings.Contains(tag, `,inline`)
}

// fits: a value of the documented kind can be decoded into the type.
func fits(s *schema, t types.Type) bool {
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	if hasMethod(types.NewPointer(t), "UnmarshalYAML") || hasMethod(types.NewPointer(t), "UnmarshalText") {
		return true
	}
	if i, ok := t.Underlying().(*types.Interface); ok {
		return i.Empty()
	}
	kind := s.typ()
	if kind == "" {
		if _, ok := s.node["const"].(string); ok {
			kind = "string"
		}
	}
	b, _ := t.Underlying().(*types.Basic)
	switch kind {
	case "string":
		return b != nil && b.Info()&types.IsString != 0
	case "boolean":
		return b != nil && b.Info()&types.IsBoolean != 0
	case "integer":
		return b != nil && b.Info()&types.IsInteger != 0
	case "number":
		return b != nil && b.Info()&types.IsFloat != 0
	case "array":
		sl, ok := t.Underlying().(*types.Slice)
		return ok && (s.items == nil || fits(s.items, sl.Elem()))
	case "object":
		if m, ok := t.Underlying().(*types.Map); ok {
			k, _ := m.Key().Underlying().(*types.Basic)
			return k != nil && k.Info()&types.IsString != 0 && (s.each == nil || fits(s.each, m.Elem()))
		}
		return structOf(t) != nil && s.each == nil
	}
	return true
}

func (x *docPair) construct(name string) string { return x.where + "." + name }

// fieldReads: the functions which read a field of a structure.
func (p *Program) fieldReads(n *types.Named, f *types.Var) []*ssa.Function {
	var out []*ssa.Function
	for _, fn := range p.funcs {
		if fn.Synthetic != "" {
			continue
		}
		found := false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.FieldAddr:
					if structOf(pointee(x.X.Type())) == nil || structOf(pointee(x.X.Type())).Field(x.Field) != f {
						continue
					}
					for _, ref := range *x.Referrers() {
						if s, ok := ref.(*ssa.Store); ok && s.Addr == x {
							continue
						}
						if _, ok := ref.(*ssa.DebugRef); ok {
							continue
						}
						found = true
					}
				case *ssa.Field:
					if structOf(x.X.Type()) != nil && structOf(x.X.Type()).Field(x.Field) == f {
						found = true
					}
				}
			}
		}
		if found {
			out = append(out, fn)
		}
	}
	return out
}

// derivedFields: the other fields of the structure which are computed from a
// field.
func (p *Program) derivedFields(n *types.Named, f *types.Var) []*types.Var {
	var out []*types.Var
	for _, fn := range p.fieldReads(n, f) {
		seen := map[ssa.Value]bool{}
		stored := func(x *ssa.Store) {
			fa, ok := x.Addr.(*ssa.FieldAddr)
			if !ok {
				return
			}
			s := structOf(pointee(fa.X.Type()))
			m := named(pointee(fa.X.Type()))
			if s != nil && s.Field(fa.Field) != f && m != nil && m.Obj() == n.Obj() {
				out = append(out, s.Field(fa.Field))
			}
		}
		var follow func(v ssa.Value)
		follow = func(v ssa.Value) {
			if seen[v] || v.Referrers() == nil {
				return
			}
			seen[v] = true
			for _, ref := range *v.Referrers() {
				switch r := ref.(type) {
				case *ssa.Store:
					if r.Val == v {
						stored(r)
					}
				case *ssa.If:
					// what is only set depending on the field
					for i, succ := range r.Block().Succs {
						if len(succ.Preds) != 1 || leaves(r.Block().Succs[1-i]) {
							continue
						}
						for _, b := range r.Parent().Blocks {
							if !succ.Dominates(b) {
								continue
							}
							for _, in := range b.Instrs {
								if x, ok := in.(*ssa.Store); ok {
									stored(x)
								}
							}
						}
					}
				case *ssa.Return:
					// an accessor
					for _, g := range p.callers(fn) {
						for _, b := range g.Blocks {
							for _, in := range b.Instrs {
								if c, ok := in.(*ssa.Call); ok && c.Call.StaticCallee() == fn {
									follow(c)
								}
							}
						}
					}
				case ssa.Value:
					follow(r)
				}
			}
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if fa, ok := in.(*ssa.FieldAddr); ok {
					if s := structOf(pointee(fa.X.Type())); s != nil && s.Field(fa.Field) == f {
						follow(fa)
					}
				}
			}
		}
	}
	return out
}

// leaves: what follows the block does not join the rest of the function.
func leaves(b *ssa.BasicBlock) bool {
	if len(b.Preds) != 1 {
		return false
	}
	for _, x := range b.Parent().Blocks {
		if !b.Dominates(x) {
			continue
		}
		for _, s := range x.Succs {
			if !b.Dominates(s) {
				return false
			}
		}
	}
	return true
}

// called: some other function of the repository calls the function.
func (p *Program) called(fn *ssa.Function) bool {
	for _, g := range p.funcs {
		if g == fn || topFunction(g) == fn {
			continue
		}
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					cc := c.Common()
					if cc.StaticCallee() == fn || cc.IsInvoke() && cc.Method.Name() == fn.Name() {
						return true
					}
				}
				for _, op := range in.Operands(nil) {
					if *op == fn {
						return true
					}
				}
			}
		}
	}
	return false
}

func topFunction(fn *ssa.Function) *ssa.Function {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	return fn
}

// validation: the function validates a definition, or only serves to.
func (p *Program) validation(fn *ssa.Function) bool {
	return p.onlyFrom(fn, func(g *ssa.Function) bool {
		return topFunction(g).Name() == "Validate" && topFunction(g).Signature.Recv() != nil
	}, 4)
}

func checkDocKeys(p *Program, r *Report) {
	r.explanation = "The schema of the documentation, with its references resolved, lists the sections, the types and the settings. For each type, the decoding is explored with that constant type, down to the structure which is decoded and kept; the fields of the structure are compared " +
		"with the documented settings and kinds, each field must be read by something else than the validation, and the documented examples must only have settings of these structures."
	r.assumptions = []string{"the yaml decoder gives the settings to the fields which have their key"}
	r.rule("section", 5, "each documented section is read from its key")
	r.rule("type-read", 14, "each documented type is decoded into a definition of its own, which is kept")
	r.rule("type-unknown", 10, "a definition of another type is refused")
	r.rule("type-created", 14, "each documented type is made into a component")
	r.rule("key", 60, "each documented setting is decoded into a field of a fitting kind")
	r.rule("key-used", 50, "each documented setting is used by something else than its validation")
	r.rule("example", 25, "the documented examples only have settings which are read")

	d := loadDocs(p, r, true)
	if d.missing {
		return
	}
	for _, x := range d.types {
		if x.strct != nil {
			d.created(x)
		}
	}
	for _, x := range d.pairs {
		st := structOf(x.n)
		seen := map[string]bool{}
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Exported() && !inlined(st, i) && yamlTag(st, i) != "-" {
				k := yamlKey(st, i)
				if seen[k] {
					r.violation("key", x.construct(k), st.Field(i).Pos(), "two fields of "+typeName(x.n)+" have the key `"+k+"`", nil)
				}
				seen[k] = true
			}
		}
		for _, name := range x.doc.names {
			s := x.doc.props[name]
			f := decodedField(x.n, name)
			if f == nil {
				r.violation("key", x.construct(name), x.n.Obj().Pos(), "the documented setting `"+name+"` is not a key of "+typeName(x.n), nil)
				continue
			}
			if !fits(s, f.Type()) {
				r.violation("key", x.construct(name), f.Pos(), fmt.Sprintf("the documented setting `%s` (%s) cannot be decoded into %s", name, s.typ(), typeName(f.Type())), nil)
				continue
			}
			r.ok("key", x.construct(name), f.Pos(), typeName(x.n)+"."+f.Name())
			if name == "type" && s.node["const"] != nil {
				continue
			}
			used := false
			for _, fn := range p.fieldReads(x.n, f) {
				top := topFunction(fn)
				if p.validation(fn) {
					continue
				}
				if n := recvNamed(top); n != nil && n.Obj() == x.n.Obj() && !p.called(top) {
					continue
				}
				used = true
			}
			for _, g := range p.derivedFields(x.n, f) {
				for _, fn := range p.fieldReads(x.n, g) {
					if !p.validation(fn) {
						used = true
					}
				}
			}
			r.check(used, "key-used", x.construct(name), f.Pos(), "used", "nothing uses the documented setting `"+name+"`: "+typeName(x.n)+"."+f.Name()+" is only read by the validation")
		}
	}
	d.examples()
}

func recvNamed(fn *ssa.Function) *types.Named {
	if fn.Signature.Recv() == nil {
		return nil
	}
	return named(fn.Signature.Recv().Type())
}

// created: the package which defines the type makes a component of it.
func (d *docs) created(x *documented) {
	p, r := d.p, d.r
	what := x.section + "[type: " + x.typ + "]"
	var fn *ssa.Function
	pkg := p.ssa[x.strct.Obj().Pkg().Path()]
	for _, m := range pkg.Members {
		f, ok := m.(*ssa.Function)
		if !ok || len(f.Params) == 0 || f.Signature.Results().Len() != 2 || errorResult(f.Signature) != 1 {
			continue
		}
		n := named(f.Params[0].Type())
		if n == nil || n.Obj().Name() != "Config" || n.Obj().Pkg() != x.strct.Obj().Pkg() {
			continue
		}
		if _, ok := n.Underlying().(*types.Interface); ok {
			fn = f
		}
	}
	if fn == nil {
		r.undecided("type-created", what, x.strct.Obj().Pos(), "no function makes a component of a definition")
		return
	}
	w := newWalker(p, r, Hooks{})
	ptr := w.tt.mk("param", "definition", types.NewPointer(x.strct), nil)
	cfg := w.tt.mk("iface", "", types.NewPointer(x.strct), nil, ptr)
	w.h.Before = func(ci *CallInfo) bool {
		for _, a := range ci.args {
			if a == ptr {
				return true
			}
		}
		return false
	}
	made := false
	w.h.Exit = func(st *State, f *ssa.Function, ret []*Term) bool {
		if isnil, known := w.isNil(st, ret[1]); known && !isnil {
			return false
		}
		if ret[0].any(func(t *Term) bool { return t.op == "call" && t.contains(ptr) }) {
			made = true
		}
		return false
	}
	w.start(fn, func(st *State, args []*Term) {
		args[0] = cfg
		w.assume(st, w.nilEq(ptr), false)
	})
	r.walked(w)
	r.check(made, "type-created", what, fn.Pos(), "made by "+fnName(fn), "a valid definition of the documented type `"+x.typ+"` ("+typeName(x.strct)+") is not made into a component by "+fnName(fn))
}

// examples: the keys of the documented examples.
func (d *docs) examples() {
	for _, section := range d.root.names {
		s := d.root.props[section]
		for i, ex := range s.examples() {
			d.example(s, fmt.Sprintf("%s example %d", section, i+1), ex)
		}
		if s.items == nil {
			continue
		}
		for _, alt := range s.items.alt {
			for i, ex := range alt.examples() {
				d.example(alt, fmt.Sprintf("%s[%s] example %d", section, alt.constType(), i+1), ex)
			}
		}
	}
	files, _ := filepath.Glob(filepath.Join(d.p.root, "examples", "*", "config.yaml"))
	sort.Strings(files)
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			d.r.undecided("example", f, 0, err.Error())
			continue
		}
		d.example(nil, strings.TrimPrefix(f, d.p.root+"/"), string(b))
	}
}

func (d *docs) example(s *schema, construct, text string) {
	var doc yaml.Node
	if err := yaml.Unmarshal([]byte(text), &doc); err != nil {
		d.r.violation("example", construct, 0, "this documented example is not valid: "+err.Error(), nil)
		return
	}
	if len(doc.Content) == 0 {
		return
	}
	bad := ""
	root := doc.Content[0]
	if root.Kind != yaml.MappingNode {
		return
	}
	if s != nil && s.constType() != "" {
		bad = d.exampleComponent(root, "")
	} else {
		for i := 0; i+1 < len(root.Content); i += 2 {
			f := rootSection(d.parser, root.Content[i].Value)
			if f == nil {
				bad = "`" + root.Content[i].Value + "` is not a section of the configuration"
				break
			}
			for _, c := range root.Content[i+1].Content {
				if b := d.exampleComponent(c, root.Content[i].Value); b != "" && bad == "" {
					bad = b
				}
			}
		}
	}
	if bad != "" {
		d.r.violation("example", construct, 0, "this documented example would be refused: "+bad, nil)
	} else {
		d.r.ok("example", construct, 0, "all its settings are read")
	}
}

func (d *docs) exampleComponent(n *yaml.Node, section string) string {
	typ := ""
	for i := 0; i+1 < len(n.Content); i += 2 {
		if n.Content[i].Value == "type" {
			typ = n.Content[i+1].Value
		}
	}
	for _, x := range d.types {
		if x.typ == typ && x.strct != nil && (section == "" || x.section == section) {
			if section == "" && !d.hasKeys(n, x) {
				continue
			}
			return exampleKeys(n, x.strct, x.section+"["+typ+"]")
		}
	}
	if section == "" {
		return "no definition of type `" + typ + "` has its keys"
	}
	return "the type `" + typ + "` is unknown"
}

// hasKeys: an example of a type which several sections have (json).
func (d *docs) hasKeys(n *yaml.Node, x *documented) bool {
	same := 0
	for _, y := range d.types {
		if y.typ == x.typ {
			same++
		}
	}
	return same == 1 || exampleKeys(n, x.strct, "") == ""
}

func exampleKeys(n *yaml.Node, t types.Type, where string) string {
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	switch x := t.Underlying().(type) {
	case *types.Struct:
		if n.Kind != yaml.MappingNode {
			return where + " is not an object"
		}
		seen := map[string]bool{}
		for i := 0; i+1 < len(n.Content); i += 2 {
			k := n.Content[i].Value
			if seen[k] {
				return where + "." + k + " is set twice"
			}
			seen[k] = true
			f := decodedField(named(t), k)
			if f == nil {
				return where + "." + k + " is not a known setting"
			}
			if b := exampleKeys(n.Content[i+1], f.Type(), where+"."+k); b != "" {
				return b
			}
		}
	case *types.Slice:
		if n.Kind != yaml.SequenceNode {
			return where + " is not a list"
		}
		for _, c := range n.Content {
			if b := exampleKeys(c, x.Elem(), where+"[]"); b != "" {
				return b
			}
		}
	case *types.Map:
		if n.Kind != yaml.MappingNode {
			return where + " is not an object"
		}
		for i := 0; i+1 < len(n.Content); i += 2 {
			if b := exampleKeys(n.Content[i+1], x.Elem(), where+"."+n.Content[i].Value); b != "" {
				return b
			}
		}
	case *types.Basic:
		if n.Kind != yaml.ScalarNode {
			return where + " is not a single value"
		}
		if x.Info()&types.IsBoolean != 0 && n.Tag != "!!bool" || x.Info()&types.IsInteger != 0 && n.Tag != "!!int" {
			return where + " does not have the right kind"
		}
	}
	return ""
}

// ---- values ----

// globalLiterals sets the tables of constants which only their declaration
// sets.
func (p *Program) globalLiterals(w *Walker, st *State) {
	for _, pkg := range p.pkgs {
		sp := p.ssa[pkg.PkgPath]
		init := sp.Func("init")
		if init == nil {
			continue
		}
		for _, m := range sp.Members {
			g, ok := m.(*ssa.Global)
			if !ok {
				continue
			}
			var val ssa.Value
			n := 0
			for _, fn := range append([]*ssa.Function{init}, p.funcs...) {
				for _, b := range fn.Blocks {
					for _, in := range b.Instrs {
						if s, ok := in.(*ssa.Store); ok && s.Addr == g {
							n++
							if fn == init {
								val = s.Val
							}
						}
					}
				}
			}
			if n != 1 || val == nil {
				continue
			}
			ga := w.tt.mk("global", g.Pkg.Pkg.Path()+"."+g.Name(), g.Type(), nil)
			switch x := val.(type) {
			case *ssa.Const:
				st.heap[ga] = w.tt.constant(x)
			case *ssa.Slice:
				al, ok := x.X.(*ssa.Alloc)
				if !ok || x.Low != nil || x.High != nil {
					continue
				}
				a := w.tt.mk("alloc", "table of "+g.Name(), al.Type(), nil)
				known := true
				cells := map[*Term]*Term{}
				for _, ref := range *al.Referrers() {
					if ia, ok := ref.(*ssa.IndexAddr); ok {
						for _, r2 := range *ia.Referrers() {
							if s, ok := r2.(*ssa.Store); ok && s.Addr == ia {
								v, isConst := s.Val.(*ssa.Const)
								i, isIdx := ia.Index.(*ssa.Const)
								if !isConst || !isIdx {
									known = false
									continue
								}
								cells[w.tt.mk("iaddr", "", nil, nil, a, w.tt.constant(i))] = w.tt.constant(v)
							}
						}
					}
				}
				if known {
					for k, v := range cells {
						st.heap[k] = v
					}
					st.heap[ga] = w.tt.mk("slice", "", g.Type().Underlying().(*types.Pointer).Elem(), nil, a, nil, nil, nil)
				}
			case *ssa.MakeMap:
				m := w.tt.mk("mk", "map: table of "+g.Name(), x.Type(), nil)
				cells := map[*Term]*Term{}
				known := true
				for _, ref := range *x.Referrers() {
					if u, ok := ref.(*ssa.MapUpdate); ok && u.Map == x {
						k, isK := u.Key.(*ssa.Const)
						if !isK {
							known = false
							continue
						}
						v := w.tt.mk("opaque", "value of "+g.Name(), u.Value.Type(), nil)
						if c, ok := u.Value.(*ssa.Const); ok {
							v = w.tt.constant(c)
						}
						cells[w.tt.mk("mcell", "", nil, nil, m, w.tt.constant(k))] = v
					}
				}
				if known {
					for k, v := range cells {
						st.heap[k] = v
					}
					st.heap[ga] = m
				}
			}
		}
	}
}

func checkDocValues(p *Program, r *Report) {
	r.explanation = "For each documented default, requirement and allowed value, the validation of the definition is explored path by path starting from the corresponding content: the setting not given, given empty, given as one of the allowed values, given as something else. " +
		"Each path which accepts must end with the documented value, each path with an invalid one must refuse."
	r.assumptions = []string{"the yaml decoder leaves the settings which are not given to their zero value"}
	r.rule("required", 15, "a definition without a required setting is refused")
	r.rule("not-empty", 8, "a definition whose list must not be empty is refused when it is")
	r.rule("one-of", 1, "a definition with none of the settings of which one is required is refused")
	r.rule("default", 20, "a setting which is not given has its documented default")
	r.rule("kept", 40, "a given value is accepted, and stays what it was")
	r.rule("enum", 6, "each documented value is accepted, and no other")
	r.rule("default-definition", 6, "the documented default definitions exist unless they are replaced")

	d := loadDocs(p, r, false)
	if d.missing {
		return
	}
	done := map[string]bool{}
	for _, x := range d.pairs {
		for _, name := range x.doc.names {
			f := decodedField(x.n, name)
			if f == nil || name == "type" && x.doc.props[name].node["const"] != nil {
				continue
			}
			k := typeName(x.n) + "." + name
			if done[k] {
				continue
			}
			done[k] = true
			d.setting(x, name, f)
		}
		if cond, ok := x.doc.node["if"].(map[string]interface{}); ok {
			d.oneOf(x, cond)
		}
	}
	d.defaults()
}

type setCell struct {
	f   *types.Var
	val func(w *Walker, st *State) *Term
}

type outcome struct {
	st   *State
	w    *Walker
	recv *Term
}

// validate follows the validation of a structure whose fields have the given
// values; ok is called where it succeeds.
func (d *docs) validate(x *docPair, cells []setCell, ok func(o *outcome)) (token.Pos, bool) {
	fn := d.p.method(x.n, "Validate")
	if fn == nil || len(fn.Blocks) == 0 {
		return x.n.Obj().Pos(), false
	}
	w := newWalker(d.p, d.r, Hooks{})
	w.unroll = 32
	given := map[string]bool{}
	w.h.Before = func(ci *CallInfo) bool {
		if isValidate(ci) || strings.HasSuffix(ci.name, ".DoesHandleInput") || strings.HasSuffix(ci.name, ".DoesHandleProperty") {
			// the structures within this one are followed on their own
			return true
		}
		return d.constant(w, ci)
	}
	w.h.After = func(ci *CallInfo) {
		switch ci.name {
		case "os.Stat", "os.Lstat", "github.com/antchfx/xpath.Compile", "os.Open", "os.ReadFile":
			if s, ok := ci.arg(0).strVal(); ok && s == "" {
				w.assume(ci.st, w.nilEq(w.res(ci, 1)), false)
			}
		}
	}
	w.h.Branch = func(st *State, in *ssa.If, cond *Term, taken bool) {
		// no definition has an empty name
		if m, k, found := w.foundIn(st, in, cond, taken); m != nil && found && configMap(m.typ) != "" {
			if s, ok := k.strVal(); ok && s == "" {
				st.user.flags["__stop"] = 1
			}
		}
	}
	recv := w.param(fn.Params[0].Name(), fn.Params[0].Type())
	w.h.Exit = func(st *State, f *ssa.Function, ret []*Term) bool {
		e := ret[len(ret)-1]
		if isnil, known := w.isNil(st, e); known && !isnil {
			return false
		} else if !known && !w.assume(st, w.nilEq(e), true) {
			return false
		}
		ok(&outcome{st: st, w: w, recv: recv})
		return false
	}
	consts := d.boolArgs(fn, x.elem)
	w.start(fn, func(st *State, args []*Term) {
		d.p.globalLiterals(w, st)
		for _, c := range cells {
			st.heap[w.faddr(recv, c.f.Name())] = c.val(w, st)
			given[c.f.Name()] = true
		}
		for i, v := range consts {
			args[i] = v(w)
		}
	})
	d.r.walked(w)
	return fn.Pos(), true
}

// boolArgs: the constants which the validation of an element (or of a single
// object) is called with.
func (d *docs) boolArgs(fn *ssa.Function, elem bool) map[int]func(w *Walker) *Term {
	vals := map[int]map[string]*ssa.Const{}
	for _, g := range d.p.funcs {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok || c.Call.StaticCallee() != fn || len(c.Call.Args) == 0 {
					continue
				}
				_, fromField := fieldLoad(c.Call.Args[0])
				if fromField == elem {
					continue
				}
				for i, a := range c.Call.Args {
					if k, ok := a.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Bool {
						if vals[i] == nil {
							vals[i] = map[string]*ssa.Const{}
						}
						vals[i][k.Value.String()] = k
					}
				}
			}
		}
	}
	out := map[int]func(w *Walker) *Term{}
	for i, m := range vals {
		if len(m) == 1 {
			for _, k := range m {
				k := k
				out[i] = func(w *Walker) *Term { return w.tt.constant(k) }
			}
		}
	}
	return out
}

// fieldLoad: the value is the content (or the address) of a field.
func fieldLoad(v ssa.Value) (*ssa.FieldAddr, bool) {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		v = u.X
	}
	f, ok := v.(*ssa.FieldAddr)
	return f, ok
}

func typedConst(w *Walker, t types.Type, v interface{}) *Term {
	switch x := v.(type) {
	case string:
		return w.tt.constVal(constant.MakeString(x), t)
	case bool:
		return w.tt.constVal(constant.MakeBool(x), t)
	case int:
		return w.tt.constVal(constant.MakeInt64(int64(x)), t)
	}
	return nil
}

// cell for a value, through a pointer when the field is one; nil: not given.
func cellFor(f *types.Var, v interface{}) setCell {
	return setCell{f, func(w *Walker, st *State) *Term {
		if v == nil {
			return w.tt.zero(f.Type())
		}
		if pt, ok := f.Type().Underlying().(*types.Pointer); ok {
			a := w.tt.mk("alloc", "given "+f.Name(), f.Type(), nil)
			st.heap[a] = typedConst(w, pt.Elem(), v)
			return a
		}
		return typedConst(w, f.Type(), v)
	}}
}

// current value of the field: the constant, whether it was found, and
// whether the field is a nil pointer.
func (o *outcome) value(f *types.Var) (v constant.Value, isnil bool) {
	t := o.w.load(o.st, o.w.faddr(o.recv, f.Name()), f.Type())
	if pt, ok := f.Type().Underlying().(*types.Pointer); ok {
		if t.op == "nil" {
			return nil, true
		}
		if n, known := o.w.isNil(o.st, t); known && n {
			return nil, true
		}
		t = o.w.load(o.st, t, pt.Elem())
	}
	t = o.w.constOf(o.st, t)
	if t == nil || !t.isConst() {
		return nil, false
	}
	return t.cval, false
}

func sameConst(c constant.Value, v interface{}, fold bool) bool {
	if c == nil {
		return false
	}
	switch x := v.(type) {
	case string:
		if c.Kind() != constant.String {
			return false
		}
		s := constant.StringVal(c)
		return s == x || fold && strings.EqualFold(s, x)
	case bool:
		return c.Kind() == constant.Bool && constant.BoolVal(c) == x
	case int:
		n, ok := constant.Int64Val(c)
		return c.Kind() == constant.Int && ok && n == int64(x)
	}
	return false
}

func (d *docs) setting(x *docPair, name string, f *types.Var) {
	r := d.r
	s := x.doc.props[name]
	what := x.construct(name)
	enum := list(s.node["enum"])
	def := s.node["default"]
	scalar := s.typ() == "string" || s.typ() == "boolean" || s.typ() == "integer"

	if x.doc.req[name] && s.typ() == "string" && name != "name" || x.doc.req[name] && s.typ() == "array" && minItems(s) > 0 {
		rule := "required"
		if s.typ() == "array" {
			rule = "not-empty"
		}
		reached := false
		pos, found := d.validate(x, []setCell{cellFor(f, nil)}, func(o *outcome) {
			if !reached {
				r.violation(rule, what, 0, "a definition without `"+name+"`, which is required, is accepted", o.st)
			}
			reached = true
		})
		if !found {
			r.undecided(rule, what, pos, "no validation was found")
		} else if !reached {
			r.ok(rule, what, pos, "refused")
		}
	}
	if !scalar {
		return
	}
	if def != nil {
		d.defaultOf(x, name, f, def, len(enum) > 0)
	}
	d.accessors(x, name, f, def)
	var values []interface{}
	switch {
	case len(enum) > 0:
		values = enum
	case s.typ() == "string":
		values = []interface{}{"x"}
	case s.typ() == "integer":
		values = []interface{}{7}
	default:
		values = []interface{}{true, false}
	}
	for _, v := range values {
		v := v
		accepted, changed := false, false
		pos, found := d.validate(x, []setCell{cellFor(f, v)}, func(o *outcome) {
			accepted = true
			c, _ := o.value(f)
			if !sameConst(c, v, len(enum) > 0) && !changed {
				changed = true
				r.violation("kept", sprintf("%s = %v", what, v), 0, sprintf("the given value `%v` of `%s` is replaced by the validation", v, name), o.st)
			}
		})
		if !found {
			continue
		}
		if !accepted {
			rule := "kept"
			if len(enum) > 0 {
				rule = "enum"
			}
			r.violation(rule, sprintf("%s = %v", what, v), pos, sprintf("no definition with `%s: %v` is accepted", name, v), nil)
			continue
		}
		if !changed {
			r.ok("kept", sprintf("%s = %v", what, v), pos, "accepted as it is")
		}
		if len(enum) > 0 {
			r.ok("enum", sprintf("%s = %v", what, v), pos, "accepted")
		}
	}
	if len(enum) > 0 {
		reached := false
		pos, found := d.validate(x, []setCell{cellFor(f, "¤")}, func(o *outcome) {
			if !reached {
				r.violation("enum", what+" = other", 0, "a value of `"+name+"` which is not one of the documented ones is accepted", o.st)
			}
			reached = true
		})
		if found && !reached {
			r.ok("enum", what+" = other", pos, "refused")
		}
	}
}

func minItems(s *schema) int {
	n, _ := s.node["minItems"].(int)
	return n
}

func (d *docs) defaultOf(x *docPair, name string, f *types.Var, def interface{}, fold bool) {
	r := d.r
	what := x.construct(name)
	accepted, bad := false, false
	_, isPtr := f.Type().Underlying().(*types.Pointer)
	cells := []setCell{cellFor(f, nil)}
	for _, other := range x.doc.names {
		// a kind which the setting may not belong to is not given
		if s := x.doc.props[other]; other != name && s.node["enum"] != nil && s.node["default"] == nil {
			if g := decodedField(x.n, other); g != nil {
				cells = append(cells, cellFor(g, nil))
			}
		}
	}
	pos, found := d.validate(x, cells, func(o *outcome) {
		accepted = true
		c, isnil := o.value(f)
		if isPtr && isnil {
			// not set: what the accessors make of it decides
			if !d.onlyAccessors(x, f) && !bad {
				bad = true
				r.violation("default", what, 0, "`"+name+"` is not set by the validation when it is not given, while "+typeName(x.n)+"."+f.Name()+" is read elsewhere", o.st)
			}
			return
		}
		if !sameConst(c, def, fold) && !bad {
			bad = true
			r.violation("default", what, 0, sprintf("`%s` is not `%v`, its documented default, when it is not given", name, def), o.st)
		}
	})
	switch {
	case !found:
		r.check(sameConst(zeroConst(f.Type()), def, fold), "default", what, pos, "the zero value", sprintf("`%s` is not `%v`, its documented default, when it is not given", name, def))
	case !accepted:
		r.violation("default", what, pos, "no definition without `"+name+"`, which has a default, is accepted", nil)
	case !bad:
		r.ok("default", what, pos, sprintf("%v", def))
	}
}

func zeroConst(t types.Type) constant.Value {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return nil
	}
	switch {
	case b.Info()&types.IsString != 0:
		return constant.MakeString("")
	case b.Info()&types.IsBoolean != 0:
		return constant.MakeBool(false)
	case b.Info()&types.IsInteger != 0:
		return constant.MakeInt64(0)
	}
	return nil
}

// accessorsOf: the methods of a structure which only give the value behind a
// pointer.
func (d *docs) accessorsOf(x *docPair, f *types.Var) []*ssa.Function {
	if _, ok := f.Type().Underlying().(*types.Pointer); !ok {
		return nil
	}
	var out []*ssa.Function
	for _, fn := range d.p.fieldReads(x.n, f) {
		n := recvNamed(fn)
		if n == nil || n.Obj() != x.n.Obj() || len(fn.Params) != 1 || fn.Signature.Results().Len() != 1 {
			continue
		}
		if types.Identical(fn.Signature.Results().At(0).Type(), pointee(f.Type().Underlying())) {
			out = append(out, fn)
		}
	}
	return out
}

func (d *docs) onlyAccessors(x *docPair, f *types.Var) bool {
	is := map[*ssa.Function]bool{}
	for _, fn := range d.accessorsOf(x, f) {
		is[fn] = true
	}
	for _, fn := range d.p.fieldReads(x.n, f) {
		if !is[fn] && !d.p.validation(fn) {
			return false
		}
	}
	return len(is) > 0
}

// accessors: what they give is the value, or the default.
func (d *docs) accessors(x *docPair, name string, f *types.Var, def interface{}) {
	for _, fn := range d.accessorsOf(x, f) {
		values := []interface{}{nil, "x"}
		if b, ok := pointee(f.Type().Underlying()).Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
			values = []interface{}{nil, true, false}
		} else if ok && b.Info()&types.IsInteger != 0 {
			values = []interface{}{nil, 7}
		}
		for _, v := range values {
			want := v
			if v == nil {
				if def == nil {
					continue
				}
				// the validation may have set it
				if !d.leavesNil(x, f) {
					continue
				}
				want = def
			}
			v := v
			w := newWalker(d.p, d.r, Hooks{})
			bad := false
			c := cellFor(f, v)
			w.h.Exit = func(st *State, g *ssa.Function, ret []*Term) bool {
				t := w.constOf(st, ret[0])
				if b, k := w.truth(st, ret[0]); k {
					t = w.tt.boolc(b)
				}
				if t == nil || !t.isConst() || !sameConst(t.cval, want, false) {
					bad = true
				}
				return false
			}
			w.start(fn, func(st *State, args []*Term) {
				st.heap[w.faddr(args[0], f.Name())] = c.val(w, st)
			})
			d.r.walked(w)
			rule, label := "kept", sprintf("%s = %v (%s)", x.construct(name), v, fn.Name())
			if v == nil {
				rule, label = "default", x.construct(name)+" ("+fn.Name()+")"
			}
			d.r.check(!bad, rule, label, fn.Pos(), sprintf("%v", want), sprintf("%s does not give `%v` when `%s` is `%v`", fnName(fn), want, name, v))
		}
	}
}

func (d *docs) leavesNil(x *docPair, f *types.Var) bool {
	left := false
	_, found := d.validate(x, []setCell{cellFor(f, nil)}, func(o *outcome) {
		if _, isnil := o.value(f); isnil {
			left = true
		}
	})
	return left || !found
}

func (d *docs) oneOf(x *docPair, cond map[string]interface{}) {
	var names []string
	for _, n := range list(cond["required"]) {
		names = append(names, n.(string))
	}
	if e, ok := x.doc.node["else"].(map[string]interface{}); ok {
		for _, n := range list(e["required"]) {
			names = append(names, n.(string))
		}
	}
	var cells []setCell
	for _, n := range names {
		f := decodedField(x.n, n)
		if f == nil {
			return
		}
		cells = append(cells, cellFor(f, nil))
	}
	what := x.where + " " + strings.Join(names, " or ")
	reached := false
	pos, found := d.validate(x, cells, func(o *outcome) {
		if !reached {
			d.r.violation("one-of", what, 0, "a definition with none of "+quoteList(names)+" is accepted", o.st)
		}
		reached = true
	})
	if found && !reached {
		d.r.ok("one-of", what, pos, "refused")
	}
}

// ---- default definitions ----

type defaultDef struct {
	doc    *documented
	name   string
	values map[string]interface{}
}

// documentedDefaults: the definitions which the documentation says exist.
func (d *docs) documentedDefaults() []*defaultDef {
	var out []*defaultDef
	for _, x := range d.types {
		text, _ := x.doc.node["description"].(string)
		i := strings.Index(text, "**Default instance:**")
		if i < 0 {
			continue
		}
		text = text[i:]
		a := strings.Index(text, "```yaml")
		if a < 0 {
			continue
		}
		text = text[a+len("```yaml"):]
		b := strings.Index(text, "```")
		if b < 0 {
			continue
		}
		var v map[string]interface{}
		if err := yaml.Unmarshal([]byte(text[:b]), &v); err != nil {
			d.r.undecided("default-definition", x.section+"["+x.typ+"]", 0, err.Error())
			continue
		}
		n, _ := v["name"].(string)
		out = append(out, &defaultDef{doc: x, name: n, values: v})
	}
	return out
}

// defaults: what the configuration holds before it is validated.
func (d *docs) defaults() {
	p, r := d.p, d.r
	defs := d.documentedDefaults()
	if len(defs) == 0 {
		r.undecided("default-definition", "documentation", 0, "no default definition is documented")
		return
	}
	_, entries := configEntries(p)
	if len(entries) != 1 {
		r.undecided("default-definition", "configuration", 0, "the function which reads the configuration was not found")
		return
	}
	root := entries[0]
	adds := p.touching(func(fn *ssa.Function, in ssa.Instruction) bool {
		u, ok := in.(*ssa.MapUpdate)
		return ok && configMap(u.Map.Type()) != ""
	})
	w := newWalker(p, r, Hooks{})
	w.unroll = 40
	w.maxDepth = 8
	type key struct{ pkg, name string }
	flagOf := func(k key, what string) string { return what + ":" + k.pkg + ":" + k.name }
	bad := map[*defaultDef]string{}
	where := map[*defaultDef]token.Pos{}
	w.h.Inline = func(st *State, fn *ssa.Function) bool {
		return adds[fn] || fn.Name() == "GetName" || givesDefinitions(fn)
	}
	w.h.Before = func(ci *CallInfo) bool {
		if isValidate(ci) {
			ci.st.user.flags["validated"] = 1
			return true
		}
		return d.constant(w, ci)
	}
	find := func(m *Term, k *Term) (*defaultDef, key) {
		kind := configMap(m.typ)
		s, ok := k.strVal()
		if kind == "" || !ok {
			return nil, key{}
		}
		for _, x := range defs {
			if x.name == s && strings.HasSuffix(x.doc.strct.Obj().Pkg().Path(), kind) {
				return x, key{kind, s}
			}
		}
		return nil, key{}
	}
	w.h.Branch = func(st *State, in *ssa.If, cond *Term, taken bool) {
		if m, k, found := w.foundIn(st, in, cond, taken); m != nil && found {
			if _, id := find(m, k); id.name != "" {
				st.user.flags[flagOf(id, "replaced")] = 1
			}
		}
	}
	w.h.MapSet = func(st *State, in *ssa.MapUpdate, m, k, v *Term) {
		x, id := find(m, k)
		if x == nil {
			return
		}
		where[x] = in.Pos()
		if st.user.flags["validated"] != 0 {
			bad[x] = "it is added after the definitions were validated"
		}
		if st.user.flags[flagOf(id, "replaced")] != 0 {
			bad[x] = "it replaces the one which the configuration defines"
		}
		st.user.flags[flagOf(id, "replaced")] = 0
		st.user.flags[flagOf(id, "set")] = 1
		if b := d.sameDefinition(w, st, x, v); b != "" {
			bad[x] = b
		}
	}
	exits := 0
	w.h.Exit = func(st *State, f *ssa.Function, ret []*Term) bool {
		e := ret[len(ret)-1]
		if isnil, known := w.isNil(st, e); known && !isnil {
			return false
		}
		exits++
		for _, x := range defs {
			if x.doc.strct == nil {
				continue
			}
			id := key{strings.TrimPrefix(x.doc.strct.Obj().Pkg().Path(), modulePath+"/"), x.name}
			if st.user.flags[flagOf(id, "set")] == 0 && st.user.flags[flagOf(id, "replaced")] == 0 && bad[x] == "" {
				bad[x] = "the configuration can be read without it being added"
			}
		}
		return false
	}
	w.start(root, nil)
	r.walked(w)
	if exits == 0 {
		r.undecided("default-definition", fnName(root), root.Pos(), "no path reads the configuration")
	}
	for _, x := range defs {
		pos := where[x]
		if pos == 0 {
			pos = root.Pos()
		}
		r.check(bad[x] == "" && exits > 0, "default-definition", x.doc.section+"."+x.name, pos, "as documented",
			"the documented default definition `"+x.name+"` of "+x.doc.section+": "+bad[x])
	}
}

// givesDefinitions: the function gives definitions of the configuration.
func givesDefinitions(fn *ssa.Function) bool {
	res := fn.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		t := res.At(i).Type()
		if s, ok := t.Underlying().(*types.Slice); ok {
			t = s.Elem()
		}
		if n := named(t); n != nil && strings.HasSuffix(n.Obj().Name(), "Config") {
			return true
		}
	}
	return false
}

func (d *docs) sameDefinition(w *Walker, st *State, x *defaultDef, v *Term) string {
	for v.op == "iface" {
		v = v.args[0]
	}
	if n := named(v.typ); n == nil || n.Obj() != x.doc.strct.Obj() {
		return "it is not of type `" + x.doc.typ + "`"
	}
	for k, want := range x.values {
		if k == "type" {
			continue
		}
		f := decodedField(x.doc.strct, k)
		if f == nil {
			return "`" + k + "` is not a setting"
		}
		c := w.load(st, w.faddr(v, f.Name()), f.Type())
		if l, ok := want.([]interface{}); ok {
			elems, known := w.sliceElems(st, c)
			same := known && len(elems) == len(l)
			seen := map[string]bool{}
			for _, e := range elems {
				if s, ok := e.strVal(); ok {
					seen[s] = true
				}
			}
			for _, y := range l {
				if s, ok := y.(string); ok && !seen[s] {
					same = false
				}
			}
			if !same {
				return sprintf("`%s` is not %v", k, want)
			}
			continue
		}
		t := w.constOf(st, c)
		if t == nil || !t.isConst() || !sameConst(t.cval, want, false) {
			return sprintf("`%s` is not `%v`", k, want)
		}
	}
	return ""
}
