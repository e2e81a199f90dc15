package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C14", checkPanics) }

// Each instruction which would panic for some values is an obligation. It is
// first decided in its own function, for any parameter; when that is not
// enough, and all the callers are known, it is decided again in each of them.

type panicSite struct {
	rule, construct string
	pos             token.Pos
	fn              *ssa.Function
	bad             string
	later           bool // in what is run once the function has returned
	st              *State
}

type panics struct {
	p        *Program
	r        *Report
	sites    map[string]*panicSite // of the current walk
	order    []string
	need     map[*ssa.Function]bool // to be followed: undecided on its own
	mayNil   map[*ssa.Function]map[int]bool
	nullable map[string]string // Type.Field: why it may be absent
	guards   map[string][]fieldGuard
	size     map[*ssa.Function]int
	mods     map[*ssa.Function]map[string]bool
	entered  map[*ssa.Function]bool
	unbound  map[*ssa.Function]bool
	files    map[*types.Named]bool
	pkgs     map[*types.Package]bool
	changed  bool
	known    map[string]bool // the settings which were looked at
	unknown  map[token.Pos]bool
	at       token.Pos
	endless  map[string]bool
	aligned  map[string]string // lists of this type have as many elements as this field
	debug    bool
}

// fieldGuard: the field is there whenever the other one has this value.
type fieldGuard struct {
	field string
	text  string // it is this text
	deref bool
	value bool
}

func (c *panics) site(w *Walker, st *State, rule, what string, pos token.Pos, bad string) {
	fn := st.top().fn
	construct := fnName(fn) + ": " + what
	k := rule + "|" + construct + "|" + c.p.pos(pos)
	s := c.sites[k]
	if s == nil {
		s = &panicSite{rule: rule, construct: construct, pos: pos, fn: fn}
		c.sites[k] = s
		c.order = append(c.order, k)
	}
	if bad != "" && c.debug && os.Getenv("PF") != "" && strings.Contains(construct, os.Getenv("PF")) {
		fmt.Println("FACTS", construct, bad)
		for f, v := range st.facts {
			fmt.Println("   ", f.op, f, v)
		}
	}
	if bad != "" && (s.bad == "" || !s.later && st.user.flags["later"] != 0) {
		s.bad = bad
		s.later = st.user.flags["later"] != 0
		s.st = st.clone()
	}
}

func checkPanics(p *Program, r *Report) {
	r.explanation = "Each instruction of the repository which panics for some values is an obligation: taking an element or a part of something, converting to a type, using something which may be absent, using anything as a key or in a comparison, writing in a map, allocating. " +
		"Each function is explored path by path for any parameter; what this does not decide is decided again in each of its callers, up to the entry points."
	r.rule("bounds", 20, "an element or a part is only taken within the bounds")
	r.rule("conversion", 1, "a value is only converted to a type that it is known to have")
	r.rule("absent", 60, "what may be absent is only used once it is known to be there")
	r.rule("comparable", 2, "an array or an object is never used as a key, nor compared as a whole")
	r.rule("map", 8, "nothing is written in a map which may not exist")
	r.rule("size", 4, "nothing is allocated with a negative size")
	r.rule("endless", 0, "a component which uses others by name is only accepted once the chain of those is known to have an end")
	r.rule("end", 1, "the process is only ended by its main function, or because an input has changed")
	r.assumptions = []string{"the buffered file gives as many bytes as it is asked for, or an error", "the nodes and the positions of a wildcard index are linked as they should be",
		"the expression of a route has one group per parameter (C23)"}
	r.outside = []string{"the buffering of the writes to the file of a wildcard index", "panics inside of the libraries", "the memory which is available"}
	c := &panics{p: p, r: r, need: map[*ssa.Function]bool{}, mayNil: map[*ssa.Function]map[int]bool{}, nullable: map[string]string{}, known: map[string]bool{}, endless: map[string]bool{}, guards: map[string][]fieldGuard{},
		size: map[*ssa.Function]int{}, mods: map[*ssa.Function]map[string]bool{}, unbound: map[*ssa.Function]bool{}, files: map[*types.Named]bool{}, pkgs: p.entryPkgs(),
		debug: os.Getenv("PD") != ""}
	for k := range c.pkgs {
		for _, n := range k.Scope().Names() {
			if tn, ok := k.Scope().Lookup(n).(*types.TypeName); ok {
				if st, ok := tn.Type().Underlying().(*types.Struct); ok {
					for i := 0; i < st.NumFields(); i++ {
						if typeName(st.Field(i).Type()) == "*os.File" {
							c.files[named(tn.Type())] = true
						}
					}
				}
			}
		}
	}
	c.cycles()
	c.modifies()
	c.settings()
	c.alignments()
	type result struct {
		sites map[string]*panicSite
		order []string
	}
	results := map[*ssa.Function]*result{}
	for round := 0; round < 6; round++ {
		c.changed, c.unknown, c.endless = false, map[token.Pos]bool{}, map[string]bool{}
		c.entered = map[*ssa.Function]bool{}
		again := map[*ssa.Function]bool{}
		for _, fn := range p.funcs {
			if skipFunc(p, fn) || c.ofFile(fn) || fn.Parent() != nil {
				continue
			}
			c.sites, c.order = map[string]*panicSite{}, nil
			t0 := time.Now()
			c.walk(fn)
			if c.debug && os.Getenv("PF") != "" {
				for _, s := range c.sites {
					if strings.Contains(s.construct, os.Getenv("PF")) {
						fmt.Println("SITE", round, fnName(fn), s.rule, s.construct, p.pos(s.pos), "|", s.bad)
					}
				}
			}
			if d := time.Since(t0); c.debug && d > time.Second {
				fmt.Println("TIME", fnName(fn), d)
			}
			results[fn] = &result{c.sites, c.order}
		}
		for _, fn := range p.funcs {
			if skipFunc(p, fn) || c.ofFile(fn) || fn.Parent() == nil || c.entered[fn] {
				continue
			}
			c.sites, c.order = map[string]*panicSite{}, nil
			c.walk(fn)
			results[fn] = &result{c.sites, c.order}
		}
		for fn, res := range results {
			for _, s := range res.sites {
				if s.bad != "" && !s.later && !c.need[fn] && c.deferred(fn) {
					c.need[fn] = true
					again[fn] = true
				}
			}
		}
		if c.debug {
			fmt.Println("ROUND", round, "need", len(c.need), c.changed)
		}
		if len(again) == 0 && !c.changed {
			break
		}
	}
	r.outside = append(r.outside, fmt.Sprintf("%d access(es) with a value which depends on the previous iterations of a loop, where nothing relates it to the bounds", len(c.unknown)))
	for f := range c.endless {
		r.outside = append(r.outside, "part of the paths of "+f)
	}
	sort.Strings(r.outside)
	for _, fn := range p.funcs {
		res := results[fn]
		if res == nil {
			continue
		}
		if c.need[fn] && c.deferred(fn) {
			// decided in its callers
			bad := false
			for _, s := range res.sites {
				if s.bad != "" {
					bad = true
				}
			}
			if bad {
				for _, k := range res.order {
					if s := res.sites[k]; s.bad == "" {
						r.ok(s.rule, s.construct, s.pos, "for any parameter")
					} else if s.later {
						r.violation(s.rule, s.construct, s.pos, s.bad, s.st)
					}
				}
				continue
			}
		}
		for _, k := range res.order {
			s := res.sites[k]
			if s.bad != "" {
				r.violation(s.rule, s.construct, s.pos, s.bad, s.st)
				if c.debug {
					fmt.Println(s.rule, "|", s.construct, "|", p.pos(s.pos), "|", s.bad)
				}
			} else {
				r.ok(s.rule, s.construct, s.pos, "on all the paths of "+fnName(fn))
			}
		}
	}
}

func (c *panics) ofFile(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	rv := fn.Signature.Recv()
	return rv != nil && c.files[named(rv.Type())]
}

// deferred: all the uses of fn are calls from other functions of the
// repository.
func (c *panics) deferred(fn *ssa.Function) bool {
	if fn.Parent() != nil || c.dynamic(fn) {
		return false
	}
	cs := c.p.callers(fn)
	if len(cs) == 0 {
		return false
	}
	for _, caller := range cs {
		if caller == fn || c.p.reaches(fn, caller) {
			return false
		}
		for _, b := range caller.Blocks {
			for _, in := range b.Instrs {
				var direct ssa.Value
				if ci, ok := in.(*ssa.Call); ok && !ci.Call.IsInvoke() {
					direct = ci.Call.Value
				}
				if ci, ok := in.(*ssa.Defer); ok && !ci.Call.IsInvoke() {
					direct = ci.Call.Value
				}
				for _, op := range in.Operands(nil) {
					if *op == fn && *op != direct {
						return false
					}
				}
			}
		}
	}
	return true
}

// dynamic: a method which can be called through an interface.
func (c *panics) dynamic(fn *ssa.Function) bool {
	rv := fn.Signature.Recv()
	if rv == nil {
		return false
	}
	for _, pk := range c.p.pkgs {
		sc := pk.Types.Scope()
		for _, nm := range sc.Names() {
			tn, ok := sc.Lookup(nm).(*types.TypeName)
			if !ok {
				continue
			}
			it, ok := tn.Type().Underlying().(*types.Interface)
			if !ok || !types.Implements(rv.Type(), it) {
				continue
			}
			for i := 0; i < it.NumMethods(); i++ {
				if it.Method(i).Name() == fn.Name() {
					return true
				}
			}
		}
	}
	switch fn.Name() {
	case "UnmarshalYAML", "Less", "Swap", "Len", "Read", "Write", "Close", "Error", "String":
		return true
	}
	return false
}

// weight: the instructions of fn and of what it calls, up to a limit.
func (c *panics) weight(fn *ssa.Function, seen map[*ssa.Function]bool) int {
	if n, ok := c.size[fn]; ok {
		return n
	}
	if seen[fn] {
		return 100000
	}
	seen[fn] = true
	n := 0
	for _, b := range fn.Blocks {
		n += len(b.Instrs)
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok {
				if g := ci.Common().StaticCallee(); g != nil && c.p.inRepo(g) && !c.ofFile(g) && !c.reader(g) {
					n += c.weight(g, seen)
				}
			}
		}
	}
	delete(seen, fn)
	if n < 100000 {
		c.size[fn] = n
	}
	return n
}

// modifies: the fields which each function may change, directly or not.
func (c *panics) modifies() {
	for _, fn := range c.p.funcs {
		m := map[string]bool{}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					switch a := x.Addr.(type) {
					case *ssa.FieldAddr:
						m[settingName(a)] = true
					case *ssa.Alloc:
					default:
						m["*"] = true
					}
				case ssa.CallInstruction:
					for _, op := range in.Operands(nil) {
						if a, ok := (*op).(*ssa.FieldAddr); ok {
							m[settingName(a)] = true
						}
					}
				}
			}
		}
		c.mods[fn] = m
	}
	for changed := true; changed; {
		changed = false
		for _, fn := range c.p.funcs {
			m := c.mods[fn]
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					for _, op := range in.Operands(nil) {
						g, ok := (*op).(*ssa.Function)
						if !ok {
							continue
						}
						for k := range c.mods[g] {
							if !m[k] {
								m[k] = true
								changed = true
							}
						}
					}
				}
			}
		}
	}
}

func settingName(a *ssa.FieldAddr) string {
	return structOf(pointee(a.X.Type())).Field(a.Field).Name()
}

// settings: the settings which may be absent from an accepted configuration.
func (c *panics) settings() {
	for _, n := range configTypes(c.p) {
		st := structOf(n)
		fn := c.p.method(n, "Validate")
		name := typeName(n)
		type text struct {
			is  string
			set bool
			not map[string]bool
		}
		type state struct {
			absent bool
			guards map[fieldGuard]int
			exits  int
			texts  []map[string]text
		}
		fields := map[string]*state{}
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			if !strings.Contains(st.Tag(i), "yaml:") && f.Type().String() != "*regexp.Regexp" {
				continue // not something which is written in a configuration
			}
			switch f.Type().Underlying().(type) {
			case *types.Pointer, *types.Map, *types.Interface:
				fields[f.Name()] = &state{guards: map[fieldGuard]int{}}
			case *types.Basic:
				if isStringType(f.Type()) {
					fields[f.Name()] = &state{guards: map[fieldGuard]int{}}
				}
			}
		}
		if fn == nil {
			continue
		}
		w := newWalker(c.p, c.r, Hooks{})
		w.mods = c.mods
		w.h.Inline = func(st *State, g *ssa.Function) bool { return c.weight(g, map[*ssa.Function]bool{}) <= 60 }
		var recv *Term
		w.h.Exit = func(s *State, f *ssa.Function, ret []*Term) bool {
			if len(ret) > 0 {
				if isnil, k := w.isNil(s, ret[len(ret)-1]); k && !isnil {
					return false
				}
			}
			for i := 0; i < st.NumFields(); i++ {
				fs := fields[st.Field(i).Name()]
				if fs == nil {
					continue
				}
				v := w.load(s, w.faddr(recv, st.Field(i).Name()), st.Field(i).Type())
				if isStringType(st.Field(i).Type()) {
					if w.minLen(s, v) > 0 {
						continue
					}
					if t, ok := v.strVal(); ok && t != "" {
						continue
					}
				} else if isnil, k := w.isNil(s, v); k && !isnil || v.op == "param" || v.op == "ext" && v.args[0].call != nil && v.aux == "0" && errorResult(v.args[0].call.common.Signature()) == 1 {
					continue
				}
				fs.absent = true
				fs.exits++
				texts := map[string]text{}
				for j := 0; j < st.NumFields(); j++ {
					if !isStringType(st.Field(j).Type()) {
						continue
					}
					g := w.load(s, w.faddr(recv, st.Field(j).Name()), st.Field(j).Type())
					t := text{not: map[string]bool{}}
					t.is, t.set = g.strVal()
					for f, v := range s.facts {
						if f.op != "bin" || f.aux != "==" {
							continue
						}
						for k := 0; k < 2; k++ {
							if c, ok := f.args[1-k].strVal(); ok && f.args[k] == g {
								if v {
									t.is, t.set = c, true
								} else {
									t.not[c] = true
								}
							}
						}
					}
					texts[st.Field(j).Name()] = t
				}
				fs.texts = append(fs.texts, texts)
				for j := 0; j < st.NumFields(); j++ {
					t := st.Field(j).Type()
					deref := false
					if pt := pointee(t); pt != nil {
						t, deref = pt, true
					}
					if b, ok := t.Underlying().(*types.Basic); !ok || b.Kind() != types.Bool {
						continue
					}
					g := w.load(s, w.faddr(recv, st.Field(j).Name()), st.Field(j).Type())
					if deref {
						g = w.load(s, g, t)
					}
					if b, k := w.truth(s, g); k {
						fs.guards[fieldGuard{field: st.Field(j).Name(), deref: deref, value: !b}]++
					}
				}
			}
			return false
		}
		w.start(fn, func(s *State, args []*Term) {
			recv = args[0]
			// the parameters are given
			for i, a := range args {
				switch fn.Params[i].Type().Underlying().(type) {
				case *types.Pointer, *types.Map:
					w.assume(s, w.nilEq(a), false)
				}
			}
		})
		for f, s := range fields {
			c.known[name+"."+f] = true
			if !s.absent {
				continue
			}
			c.nullable[name+"."+f] = "an accepted configuration may not have it"
			for g, times := range s.guards {
				if times == s.exits {
					c.guards[name+"."+f] = append(c.guards[name+"."+f], g)
				}
			}
			tried := map[fieldGuard]bool{}
			for _, texts := range s.texts {
				for g, t := range texts {
					for v := range t.not {
						if v == "" {
							continue
						}
						fg := fieldGuard{field: g, text: v, value: true}
						if tried[fg] {
							continue
						}
						tried[fg] = true
						all := true
						for _, o := range s.texts {
							if !(o[g].set && o[g].is != v || o[g].not[v]) {
								all = false
							}
						}
						if all {
							c.guards[name+"."+f] = append(c.guards[name+"."+f], fg)
						}
					}
				}
			}
			sort.Slice(c.guards[name+"."+f], func(i, j int) bool {
				a, b := c.guards[name+"."+f][i], c.guards[name+"."+f][j]
				return a.field+"="+a.text < b.field+"="+b.text
			})
		}
		if c.debug {
			for f := range fields {
				fmt.Println("SETTING", name+"."+f, c.nullable[name+"."+f], c.guards[name+"."+f])
			}
		}
	}
}

// setting: the field of a configuration which t is the value of.
func (c *panics) setting(t *Term) (base *Term, key string) {
	if t.op != "ld" || t.args[0].op != "faddr" {
		return nil, ""
	}
	base = t.args[0].args[0]
	if base.typ == nil {
		return nil, ""
	}
	bt := base.typ
	if pt := pointee(bt); pt != nil {
		bt = pt
	}
	n := named(bt)
	if n == nil {
		return nil, ""
	}
	return base, typeName(n) + "." + t.args[0].aux
}

// given: the setting is known to be there on this path.
func (c *panics) given(w *Walker, st *State, t *Term) (why string, ok bool) {
	base, key := c.setting(t)
	if base == nil || c.nullable[key] == "" {
		return "", true
	}
	bt := pointee(base.typ)
	s := structOf(bt)
	for _, g := range c.guards[key] {
		for i := 0; s != nil && i < s.NumFields(); i++ {
			if s.Field(i).Name() != g.field {
				continue
			}
			v := w.load(st, w.faddr(base, g.field), s.Field(i).Type())
			if g.deref {
				v = w.load(st, v, pointee(s.Field(i).Type()))
			}
			if g.text != "" {
				v = w.eq(v, w.tt.strc(g.text))
			}
			if b, k := w.truth(st, v); k && b == g.value {
				return "", true
			}
		}
	}
	return key + ": " + c.nullable[key], false
}

// containers: the library objects which give back what was put in them.
var containers = map[string]string{"(*sync.Pool).Get": "(*sync.Pool).Put", "(*sync/atomic.Value).Load": "(*sync/atomic.Value).Store"}

// contained: the value comes from a container in which the repository only puts
// values of this type.
func (c *panics) contained(in *ssa.TypeAssert) bool {
	call, ok := in.X.(*ssa.Call)
	if !ok || call.Call.StaticCallee() == nil {
		return false
	}
	put := containers[call.Call.StaticCallee().String()]
	if put == "" {
		return false
	}
	same := func(v ssa.Value) bool {
		mi, ok := v.(*ssa.MakeInterface)
		return ok && types.Identical(mi.X.Type(), in.AssertedType)
	}
	found := false
	funcs := append([]*ssa.Function{}, c.p.funcs...)
	for _, k := range c.p.ssa {
		if init := k.Func("init"); init != nil {
			funcs = append(funcs, init)
		}
	}
	for _, fn := range funcs {
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				if cc, ok := i.(ssa.CallInstruction); ok && cc.Common().StaticCallee() != nil && cc.Common().StaticCallee().String() == put {
					if !same(cc.Common().Args[1]) {
						return false
					}
					found = true
				}
				if st, ok := i.(*ssa.Store); ok {
					fa, ok := st.Addr.(*ssa.FieldAddr)
					if !ok || !strings.HasSuffix(typeName(fa.X.Type()), "sync.Pool") {
						continue
					}
					var maker *ssa.Function
					switch f := st.Val.(type) {
					case *ssa.Function:
						maker = f
					case *ssa.MakeClosure:
						maker = f.Fn.(*ssa.Function)
					}
					if maker == nil {
						return false
					}
					for _, b := range maker.Blocks {
						if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && !same(ret.Results[0]) {
							return false
						}
					}
					found = true
				}
			}
		}
	}
	return found
}

func pointerLike(t types.Type) bool {
	if t == nil {
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Signature, *types.Chan:
		return true
	case *types.Interface:
		return u.NumMethods() > 0
	}
	return false
}

// usable: the reason why t may be nil, when nothing tells that it is not.
func (c *panics) usable(w *Walker, st *State, t *Term) string {
	if n, k := w.isNil(st, t); k {
		if n {
			return "it is absent on this path"
		}
		return ""
	}
	switch t.op {
	case "param", "global", "struct", "const":
		return ""
	case "conv", "slice":
		return c.usable(w, st, t.args[0])
	case "ld":
		if why, ok := c.given(w, st, t); !ok {
			return why
		}
		return ""
	case "lk":
		if _, ok := st.user.has("present", w.tt.mk("lkok", "", types.Typ[types.Bool], nil, t.args[0], t.args[1])); ok {
			return ""
		}
		if !w.present(st, t) && !c.enumerated(st, t.args[1]) {
			return "it may not be in " + t.args[0].String()
		}
		return ""
	case "ta":
		if v, k := w.truth(st, w.tt.mk("taok", "", t.typ, nil, t.args[0])); !k || !v {
			return t.args[0].String() + " may not be a " + t.typ.String()
		}
		return ""
	case "opaque":
		if strings.HasPrefix(t.aux, "lookup:") && len(t.args) == 2 {
			if _, ok := st.user.has("present", w.tt.mk("lkok", "", types.Typ[types.Bool], nil, t.args[0], t.args[1])); !ok && !c.enumerated(st, t.args[1]) {
				return "it may not be in " + t.args[0].String()
			}
		}
		return ""
	case "ext":
		x := t.args[0]
		if x.op == "opaque" && strings.HasPrefix(x.aux, "lookup:") {
			if ok, k := w.truth(st, w.tt.ext(x, 1, types.Typ[types.Bool])); k && ok {
				return ""
			}
			if _, ok := st.user.has("present", w.tt.mk("lkok", "", types.Typ[types.Bool], nil, x.args[0], x.args[1])); ok || c.enumerated(st, x.args[1]) {
				return ""
			}
			return "it may not be in " + x.args[0].String()
		}
		if x.call != nil {
			return c.result(w, st, x.call, x, int(t.aux[0]-'0'))
		}
	case "call", "pure":
		if t.call != nil && t.call.common.Signature().Results().Len() == 1 {
			return c.result(w, st, t.call, t, 0)
		}
	}
	return ""
}

// looked: the map and the key when cond tells that it has it.
func looked(cond *Term) (m, k *Term) {
	if cond.op == "lkok" {
		return cond.args[0], cond.args[1]
	}
	if cond.op == "ext" && cond.aux == "1" && cond.args[0].op == "opaque" && strings.HasPrefix(cond.args[0].aux, "lookup:") && len(cond.args[0].args) == 2 {
		return cond.args[0].args[0], cond.args[0].args[1]
	}
	return nil, nil
}

// enumerated: a key which is an element of the settings, or the key of one of
// them: what is kept by the name of each of these has one for it.
func (c *panics) enumerated(st *State, k *Term) bool {
	if k.op == "param" {
		return !c.deferred(st.top().fn)
	}
	if k.op == "ext" && k.aux == "1" && k.args[0].op == "opaque" && strings.HasPrefix(k.args[0].aux, "next:") {
		return true
	}
	return k.op == "ld" && k.args[0].op == "iaddr" || k.op == "idx"
}

// result: the same, of the result i of a call.
func (c *panics) result(w *Walker, st *State, ci *CallInfo, x *Term, i int) string {
	sig := ci.common.Signature()
	if e := errorResult(sig); e >= 0 && e != i {
		et := w.tt.ext(x, e, errorType)
		if n, k := w.isNil(st, et); !k || !n {
			return "the error of " + calledName(ci) + " is not known to be nil"
		}
	} else if n := sig.Results().Len(); n == 2 && i == 0 {
		if b, ok := sig.Results().At(1).Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
			if v, k := w.truth(st, w.tt.ext(x, 1, types.Typ[types.Bool])); !k || !v {
				return calledName(ci) + " may not have found it"
			}
		}
	}
	if ci.name == "reflect.TypeOf" && len(ci.args) == 1 && types.IsInterface(ci.common.Args[0].Type()) && ci.args[0].op != "iface" {
		if n, k := w.isNil(st, ci.args[0]); (!k || n) && !c.typed(st, ci.args[0]) {
			return "there is no type when " + ci.args[0].String() + " is nil"
		}
	}
	if c.link(ci) {
		return ""
	}
	for _, g := range c.targets(ci) {
		if c.mayNil[g][i] {
			return calledName(ci) + " may give nothing"
		}
	}
	return ""
}

// typed: the value is known to be of some type.
func (c *panics) typed(st *State, x *Term) bool {
	for f, v := range st.facts {
		if v && f.op == "taok" && f.args[0] == x {
			return true
		}
	}
	return false
}

// handlesNil: fn compares its receiver with nil.
func handlesNil(fn *ssa.Function) bool {
	if len(fn.Params) == 0 || fn.Params[0].Referrers() == nil {
		return false
	}
	for _, in := range *fn.Params[0].Referrers() {
		if b, ok := in.(*ssa.BinOp); ok && (b.Op == token.EQL || b.Op == token.NEQ) {
			return true
		}
	}
	return false
}

func calledName(ci *CallInfo) string {
	if ci.name == "" {
		return "a function value"
	}
	return ci.name
}

// targets: the functions of the repository which a call may run.
func (c *panics) targets(ci *CallInfo) []*ssa.Function {
	if ci.fn != nil {
		return []*ssa.Function{ci.fn}
	}
	var out []*ssa.Function
	if ci.method != nil {
		for _, fn := range c.p.funcs {
			rv := fn.Signature.Recv()
			if rv == nil || fn.Name() != ci.method.Name() || skipFunc(c.p, fn) {
				continue
			}
			it, ok := ci.method.Type().(*types.Signature).Recv().Type().Underlying().(*types.Interface)
			if ok && types.Implements(rv.Type(), it) {
				out = append(out, fn)
			}
		}
		return out
	}
	sig := ci.common.Signature()
	for _, fn := range c.p.funcs {
		if fn.Signature.Recv() == nil && types.Identical(fn.Signature.Params(), sig.Params()) && types.Identical(fn.Signature.Results(), sig.Results()) &&
			!strings.HasSuffix(c.p.fset.Position(fn.Pos()).Filename, "/mock.go") && (fn.Parent() != nil || !c.deferred(fn)) {
			out = append(out, fn)
		}
	}
	return out
}

// reader: it reads the entry of a wildcard index at an offset.
func (c *panics) reader(fn *ssa.Function) bool {
	if !c.pkgs[pkgOf(fn)] || c.ofFile(fn) {
		return false
	}
	for _, p := range fn.Params {
		if isInt(p.Type()) && named(p.Type()) != nil {
			return true
		}
	}
	return false
}

// link: reading the entry which another one gives the offset of.
func (c *panics) link(ci *CallInfo) bool {
	fn := ci.fn
	if fn == nil || !c.pkgs[pkgOf(fn)] || c.ofFile(fn) {
		return false
	}
	for i, a := range ci.args {
		if i >= len(fn.Params) || !isInt(fn.Params[i].Type()) || named(fn.Params[i].Type()) == nil {
			continue
		}
		a = stripInt(a)
		if a.op == "ld" && a.args[0].op == "faddr" {
			return true
		}
		if a.op == "conv" || a.op == "opaque" || a.op == "ext" || a.op == "pure" || a.op == "call" {
			return true
		}
	}
	return false
}

func (c *panics) walk(root *ssa.Function) {
	own := newReport("C14") // what does not converge is not decided
	w := newWalker(c.p, own, Hooks{})
	w.mods = c.mods
	w.budget = 3000000
	w.h.Inline = func(st *State, fn *ssa.Function) bool {
		if c.ofFile(fn) {
			return false
		}
		return c.need[fn] || c.weight(fn, map[*ssa.Function]bool{}) <= 80
	}
	w.h.Enter = func(st *State, fn *ssa.Function, args []*Term) {
		if fn != root {
			c.entered[fn] = true
		}
	}
	lenOf := func(st *State, x *Term) *Term {
		if x.typ != nil {
			t := x.typ
			if pt := pointee(t); pt != nil {
				t = pt
			}
			if arr, ok := t.Underlying().(*types.Array); ok {
				return w.tt.intc(arr.Len())
			}
		}
		return w.length(st, x, "len")
	}
	zero := w.tt.intc(0)
	w.h.Index = func(st *State, in ssa.Instruction, x, idx *Term) {
		c.at = in.Pos()
		what := "an element of " + panicName(indexed(in))
		bad := ""
		l := lenOf(st, x)
		switch {
		case x.op == "ld" && x.args[0].op == "global" || x.op == "global":
			// a table of the program itself
			if _, ok := idx.intVal(); ok {
				return
			}
			fallthrough
		default:
			if idx.op == "param" && st.top().fn == root && root.Parent() != nil {
				return // what a library calls it with
			}
			if _, ok := indexOf(in).(*ssa.Const); !ok && carried(l) && !carried(idx) && idx.isConst() {
				// the first iteration of a loop over something else
				c.unknown[c.at] = true
				return
			}
			own := !c.kept(idx) // not an index which was kept for later
			if own && !c.atMost(w, st, zero, idx, 0) {
				bad = idx.String() + " may be negative"
			} else if !c.atMost(w, st, idx, l, -1) && (own || c.external(indexed(in), map[ssa.Value]bool{})) && !c.group(w, st, x, idx) && !c.text(w, st, x, idx) && !c.sameLength(w, st, x, idx) {
				bad = x.String() + " may not have an element " + idx.String()
			}
		}
		c.site(w, st, "bounds", what, in.Pos(), bad)
	}
	w.h.Slice = func(st *State, in *ssa.Slice, x, lo, hi *Term) {
		c.at = in.Pos()
		if lo == nil && hi == nil {
			return
		}
		l := lenOf(st, x)
		what := "a part of " + panicName(in.X)
		if hi == nil {
			hi = l
		}
		if lo == nil {
			lo = zero
		}
		bad := ""
		switch {
		case !c.atMost(w, st, zero, lo, 0):
			bad = lo.String() + " may be negative"
		case !c.atMost(w, st, lo, hi, 0):
			bad = lo.String() + " may be beyond " + hi.String()
		case hi != l && !c.atMost(w, st, hi, l, 0):
			bad = x.String() + " may have less than " + hi.String() + " elements"
		}
		c.site(w, st, "bounds", what, in.Pos(), bad)
	}
	w.h.Make = func(st *State, in *ssa.MakeSlice, ln, cp *Term) {
		c.at = in.Pos()
		bad := ""
		if !ofLengths(ln) && !c.atMost(w, st, zero, ln, 0) {
			bad = ln.String() + " may be negative"
		} else if cp != ln && !(ln == zero && ofLengths(cp)) && !c.atMost(w, st, ln, cp, 0) {
			bad = cp.String() + " may be negative"
		}
		c.site(w, st, "size", "a slice of "+typeName(in.Type()), in.Pos(), bad)
	}
	w.h.Assert = func(st *State, in *ssa.TypeAssert, x *Term) {
		bad := ""
		v, k := w.truth(st, w.tt.mk("taok", "", in.AssertedType, nil, x))
		if (!k || !v) && !c.contained(in) {
			bad = x.String() + " may not be a " + typeName(in.AssertedType)
		}
		if !k && x.call != nil && x.call.name == "(*github.com/antchfx/xpath.NodeIterator).Current" && typeName(in.AssertedType) == "*github.com/antchfx/xmlquery.NodeNavigator" {
			bad = "" // the nodes of an XML document are gone through with this one
		}
		c.site(w, st, "conversion", "to "+typeName(in.AssertedType), in.Pos(), bad)
	}
	w.h.Deref = func(st *State, in ssa.Instruction, ptr *Term) {
		if ptr.op == "param" || ptr.op == "alloc" || ptr.op == "faddr" || ptr.op == "iaddr" || ptr.op == "global" {
			return
		}
		c.site(w, st, "absent", panicName(derefed(in)), in.Pos(), c.usable(w, st, ptr))
	}
	w.h.MapSet = func(st *State, in *ssa.MapUpdate, m, k, v *Term) {
		bad := ""
		st.user.add("present", w.tt.mk("lkok", "", types.Typ[types.Bool], nil, m, k), "")
		if m.op != "mk" {
			bad = c.usable(w, st, m)
			if m.op == "param" && c.deferred(st.top().fn) {
				bad = ""
				if n, k := w.isNil(st, m); !k || n {
					bad = "the map which is given may not exist"
				}
			}
		}
		c.site(w, st, "map", panicName(in.Map), in.Pos(), bad)
		if types.IsInterface(in.Key.Type()) {
			c.site(w, st, "comparable", "a key of "+panicName(in.Map), in.Pos(), c.hashable(w, st, k))
		}
	}
	w.h.MapKey = func(st *State, in ssa.Instruction, m, k *Term) {
		if l, ok := in.(*ssa.Lookup); ok && types.IsInterface(l.Index.Type()) {
			c.site(w, st, "comparable", "a key of "+panicName(l.X), in.Pos(), c.hashable(w, st, k))
		}
	}
	w.h.Compare = func(st *State, in ssa.Instruction, x, y *Term) {
		b := in.(*ssa.BinOp)
		t := b.X.Type()
		if !types.IsInterface(t) || x.op == "nil" || y.op == "nil" {
			return
		}
		if t.Underlying().(*types.Interface).NumMethods() > 0 {
			return // inputs, errors: pointers
		}
		bad := c.hashable(w, st, x)
		if bad != "" && c.hashable(w, st, y) == "" {
			bad = ""
		}
		c.site(w, st, "comparable", panicName(b.X)+" and "+panicName(b.Y), in.Pos(), bad)
	}
	w.h.Branch = func(st *State, in *ssa.If, cond *Term, taken bool) {
		for cond.op == "un" && cond.aux == "!" {
			cond, taken = cond.args[0], !taken
		}
		if taken {
			if m, k := looked(cond); m != nil {
				st.user.add("present", w.tt.mk("lkok", "", types.Typ[types.Bool], nil, m, k), "")
			}
		}
		if taken && (strings.HasSuffix(cond.aux, "Comparable") || cond.call != nil && strings.HasSuffix(cond.call.name, "Comparable")) {
			st.user.add("comparable", cond, "")
		}
	}
	w.h.Panic = func(st *State, in *ssa.Panic, v *Term) {
		if s, ok := v.strip().strVal(); ok && strings.HasPrefix(s, "blocking select") {
			return
		}
		c.site(w, st, "end", "panic", in.Pos(), "the process is ended by a panic")
	}
	w.h.Before = func(ci *CallInfo) bool {
		st := ci.st
		if noReturn(ci) {
			bad := ""
			if !c.mayEnd(st.top().fn) {
				bad = "the process is ended by " + ci.name
			}
			c.site(w, st, "end", ci.name, ci.pos, bad)
		}
		if ci.common.IsInvoke() && len(ci.args) > 0 && ci.args[0].op != "param" && ci.fn == nil {
			c.site(w, st, "absent", panicName(ci.common.Value), ci.pos, c.usable(w, st, ci.args[0]))
		} else if ci.fn == nil && ci.callee != nil && ci.callee.op != "param" && !ci.common.IsInvoke() {
			c.site(w, st, "absent", panicName(ci.common.Value), ci.pos, c.usable(w, st, ci.callee))
		} else if ci.fn != nil && ci.fn.Signature.Recv() != nil && !c.p.inRepo(ci.fn) && len(ci.common.Args) > 0 && len(ci.args) > 0 && ci.args[0].op != "param" && ci.args[0].op != "alloc" {
			if _, ok := ci.fn.Signature.Recv().Type().Underlying().(*types.Pointer); ok {
				c.site(w, st, "absent", panicName(ci.common.Args[0]), ci.pos, c.usable(w, st, ci.args[0]))
			}
		}
		if ci.fn != nil && ci.fn.Signature.Recv() != nil && c.p.inRepo(ci.fn) && len(ci.common.Args) > 0 && len(ci.args) > 0 && ci.args[0].op != "param" && ci.args[0].op != "alloc" && !handlesNil(ci.fn) {
			if _, ok := ci.fn.Signature.Recv().Type().Underlying().(*types.Pointer); ok {
				c.site(w, st, "absent", panicName(ci.common.Args[0]), ci.pos, c.usable(w, st, ci.args[0]))
			}
		}
		if ci.kind == "go" && ci.callee != nil && ci.callee.op == "closure" {
			st.user.add("later", ci.callee, "")
		}
		return c.link(ci)
	}
	w.h.After = func(ci *CallInfo) {
		st := ci.st
		if ci.fn != nil && c.ofFile(ci.fn) && ci.result != nil {
			// as many bytes as it was asked for
			res := ci.fn.Signature.Results()
			if res.Len() == 2 && len(ci.args) > 0 {
				if _, ok := res.At(0).Type().Underlying().(*types.Slice); ok {
					n := ci.args[len(ci.args)-1]
					if isInt(ci.fn.Params[len(ci.fn.Params)-1].Type()) {
						l := w.length(st, w.res(ci, 0), "len")
						w.assume(st, w.eq(l, n), true)
					}
				}
			}
		}
	}
	w.h.Exit = func(st *State, fn *ssa.Function, ret []*Term) bool {
		if fn == root {
			c.summary(w, st, fn, ret)
		}
		// what is run later
		later := map[*Term]bool{}
		for t := range st.user.sets["later"] {
			later[t] = true
		}
		for _, v := range ret {
			v = bare(v)
			if v != nil && v.op == "closure" {
				later[v] = true
			}
		}
		done := st.user.flags
		var list []*Term
		for t := range later {
			if t.fn != nil && done["ran:"+fnName(t.fn)] == 0 {
				list = append(list, t)
			}
		}
		if len(list) == 0 {
			if fn.Parent() != nil && fn != root {
				c.summary(w, st, fn, ret)
			}
			return false
		}
		if fn.Parent() != nil && fn != root {
			c.summary(w, st, fn, ret)
		}
		sort.Slice(list, func(i, j int) bool { return list[i].id < list[j].id })
		for _, t := range list[1:] {
			s2 := st.clone()
			c.later(w, s2, t)
			w.work = append(w.work, s2)
		}
		c.later(w, st, list[0])
		return true
	}
	w.start(root, func(st *State, args []*Term) {
		c.sortContract(w, st, root, args)
	})
	c.r.walked(w)
	if w.steps > w.budget {
		c.endless[fnName(root)] = true
	}
}

// later runs a closure, with anything in the variables which the closures
// modify.
func (c *panics) later(w *Walker, st *State, t *Term) {
	st.user.flags["ran:"+fnName(t.fn)] = 1
	st.user.flags["later"] = 1
	for i, fv := range t.fn.FreeVars {
		if i >= len(t.args) {
			break
		}
		a := t.args[i]
		if pointee(fv.Type()) == nil || a.op != "alloc" {
			continue
		}
		stores, monotone := cellStores(fv)
		if len(stores) == 0 {
			continue
		}
		typ := pointee(fv.Type())
		old := w.load(st, a, typ)
		for cell := range st.heap {
			if under(cell, a) {
				delete(st.heap, cell)
			}
		}
		nv := w.fresh(st, "opaque", "later:"+fv.Name()+"/"+fnName(t.fn), typ)
		st.heap[a] = nv
		if monotone && isInt(typ) {
			if lo, _ := w.bounds(st, old, 0); lo != nil {
				w.assume(st, w.tt.bin(token.LSS, nv, w.tt.intc(*lo), nil), false)
			}
		}
	}
	var args []*Term
	for _, p := range t.fn.Params {
		args = append(args, w.param(p.Name(), p.Type()))
	}
	w.push(st, t.fn, args, t.args, nil, false)
}

// cellStores: the stores to a captured variable; monotone when they only
// increase it.
func cellStores(fv *ssa.FreeVar) (out []*ssa.Store, monotone bool) {
	monotone = true
	if fv.Referrers() == nil {
		return nil, true
	}
	for _, in := range *fv.Referrers() {
		switch s := in.(type) {
		case *ssa.Store:
			if s.Addr != fv {
				continue
			}
			out = append(out, s)
			b, ok := s.Val.(*ssa.BinOp)
			if !ok || b.Op != token.ADD {
				monotone = false
				continue
			}
			ld, ok := b.X.(*ssa.UnOp)
			k, isConst := b.Y.(*ssa.Const)
			if !ok || ld.X != fv || !isConst || k.Int64() < 0 {
				monotone = false
			}
		case *ssa.UnOp:
		case *ssa.MakeClosure:
			out = append(out, nil)
			monotone = false
		}
	}
	return out, monotone
}

// summary: what fn may give without an error.
func (c *panics) summary(w *Walker, st *State, fn *ssa.Function, ret []*Term) {
	e := errorResult(fn.Signature)
	if e >= 0 && e < len(ret) {
		if n, k := w.isNil(st, ret[e]); k && !n {
			return
		}
	}
	for i, v := range ret {
		if i == e || !pointerLike(fn.Signature.Results().At(i).Type()) {
			continue
		}
		if e >= 0 && v.op == "ext" && ret[e].op == "ext" && v.args[0] == ret[e].args[0] {
			// both of the same call: the same as what it gives
			if x := v.args[0]; x.call != nil {
				nil_ := false
				for _, g := range c.targets(x.call) {
					if c.mayNil[g][int(v.aux[0]-'0')] {
						nil_ = true
					}
				}
				if !nil_ {
					continue
				}
			}
		}
		if c.usable(w, st, v) != "" {
			if c.mayNil[fn] == nil {
				c.mayNil[fn] = map[int]bool{}
			}
			if !c.mayNil[fn][i] {
				c.mayNil[fn][i] = true
				c.changed = true
				if c.debug {
					fmt.Println("MAYNIL", fnName(fn), i, v, c.usable(w, st, v))
				}
			}
		}
	}
}

// hashable: whether comparing x as a whole is possible.
func (c *panics) hashable(w *Walker, st *State, x *Term) string {
	if x.op == "iface" {
		if types.Comparable(x.typ) {
			return ""
		}
		return "a " + x.typ.String() + " is not comparable"
	}
	if n, k := w.isNil(st, x); k && n || x.isConst() {
		return ""
	}
	for t := range st.user.sets["comparable"] {
		if t.contains(x) {
			return ""
		}
	}
	arr, obj := false, false
	for f, v := range st.facts {
		switch {
		case f.op == "taok" && f.args[0] == x:
			if v && types.Comparable(f.typ) && !types.IsInterface(f.typ) {
				return ""
			}
			if !v {
				switch u := f.typ.Underlying().(type) {
				case *types.Slice:
					if types.IsInterface(u.Elem()) {
						arr = true
					}
				case *types.Map:
					if types.IsInterface(u.Elem()) {
						obj = true
					}
				}
			}
		}
	}
	if arr && obj {
		return ""
	}
	return x.String() + " may be an array or an object"
}

// atMost: a <= b + k, as far as it can be told: what depends on the previous
// iterations of a loop, and is not compared with the other at all, is not
// decided.
func (c *panics) atMost(w *Walker, st *State, a, b *Term, k int64) bool {
	if w.atMost(st, a, b, k) {
		return true
	}
	if n, ok := a.intVal(); ok && n == 0 && k == 0 && c.recorded(b) {
		return true // a length which is recorded in a node
	}
	if !carried(a) && !carried(b) {
		return false
	}
	if w.atMost(st, a, b, k+2) {
		return false
	}
	c.unknown[c.at] = true
	return true
}

// alignments: the types of the lists which are all made with one element for
// each element of the same field.
func (c *panics) alignments() {
	c.aligned = map[string]string{}
	for _, fn := range c.p.funcs {
		if skipFunc(c.p, fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				m, ok := in.(*ssa.MakeSlice)
				if !ok {
					continue
				}
				key, field := typeKey(m.Type()), "-"
				n := lenOf(m.Len)
				if n == nil {
					if k, ok := constInt(m.Len); ok && k == 0 {
						n = lenOf(m.Cap)
					}
				}
				if n != nil {
					if u, ok := n.(*ssa.UnOp); ok {
						if fa, ok := u.X.(*ssa.FieldAddr); ok {
							field = lengthField(fa)
						}
					}
					if pr, ok := n.(*ssa.Parameter); ok {
						field = c.argument(pr)
					}
				}
				if old, ok := c.aligned[key]; ok && old != field {
					field = "-"
				}
				c.aligned[key] = field
			}
		}
	}
}

// argument: the field which a parameter is always given.
func (c *panics) argument(pr *ssa.Parameter) string {
	field := ""
	for i, x := range pr.Parent().Params {
		if x != pr {
			continue
		}
		for _, fn := range c.p.callers(pr.Parent()) {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					call, ok := in.(ssa.CallInstruction)
					if !ok || call.Common().StaticCallee() != pr.Parent() {
						continue
					}
					f := "-"
					if u, ok := call.Common().Args[i].(*ssa.UnOp); ok {
						if fa, ok := u.X.(*ssa.FieldAddr); ok {
							f = lengthField(fa)
						}
					}
					if field != "" && field != f {
						f = "-"
					}
					field = f
				}
			}
		}
	}
	return field
}

func lengthField(a *ssa.FieldAddr) string {
	n := named(a.X.Type())
	if n == nil {
		return "-"
	}
	return n.Obj().Name() + "." + settingName(a)
}

// sameLength: the list has as many elements as one which is long enough.
// ofLengths: a size which is made of the lengths of things which exist, added
// together or taken several times.
func ofLengths(t *Term) bool {
	if t == nil {
		return false
	}
	switch {
	case t.op == "len" || t.op == "cap":
		return true
	case t.op == "conv":
		return ofLengths(t.args[0])
	case t.op == "bin" && (t.aux == "+" || t.aux == "*"):
		for _, a := range t.args {
			if n, ok := a.intVal(); ok && n >= 0 && n < 1<<16 {
				continue
			}
			if !ofLengths(a) || t.aux == "*" && !t.args[0].isConst() && !t.args[1].isConst() {
				return false
			}
		}
		return true
	}
	return false
}

func (c *panics) sameLength(w *Walker, st *State, x, idx *Term) bool {
	field := ""
	if x.typ != nil {
		field = c.aligned[typeKey(x.typ)]
	}
	if field == "" || field == "-" {
		return false
	}
	found := false
	for f := range st.facts {
		f.any(func(y *Term) bool {
			if y.op == "len" && y.args[0].op == "ld" && y.args[0].args[0].op == "faddr" {
				a := y.args[0].args[0]
				if n := named(a.args[0].typ); n != nil && n.Obj().Name()+"."+a.aux == field && w.atMost(st, idx, y, -1) {
					found = true
				}
			}
			return found
		})
	}
	return found
}

// recorded: a field of an entry of a wildcard index.
func (c *panics) recorded(t *Term) bool {
	t = stripInt(t)
	if t.op != "ld" || t.args[0].op != "faddr" || t.args[0].args[0].typ == nil {
		return false
	}
	bt := t.args[0].args[0].typ
	if pt := pointee(bt); pt != nil {
		bt = pt
	}
	n := named(bt)
	return n != nil && n.Obj().Pkg() != nil && c.pkgs[n.Obj().Pkg()] && !c.files[n]
}

// carried: a value which a loop or another function changes.
func carried(t *Term) bool {
	switch t.op {
	case "opaque":
		return !strings.HasPrefix(t.aux, "len:")
	case "bin", "conv":
		for _, a := range t.args {
			if carried(a) {
				return true
			}
		}
	case "len", "cap":
		return carried(t.args[0])
	case "slice", "append":
		for _, a := range t.args {
			if a != nil && carried(a) {
				return true
			}
		}
	}
	return false
}

// kept: a number which was kept in a map.
func (c *panics) kept(t *Term) bool {
	t = stripInt(t)
	if t.op == "ext" {
		return t.aux == "0" && t.args[0].op == "opaque" && strings.HasPrefix(t.args[0].aux, "lookup:")
	}
	return t.op == "lk"
}

// text: the first character of a setting which is never empty.
func (c *panics) text(w *Walker, st *State, x, idx *Term) bool {
	if n, ok := idx.intVal(); !ok || n != 0 {
		return false
	}
	if x.op == "conv" {
		x = x.args[0]
	}
	if x.typ == nil || !isStringType(x.typ) {
		return false
	}
	base, key := c.setting(x)
	return base != nil && c.known[key] && c.nullable[key] == ""
}

// external: whether the elements of v may have been given by a library.
func (c *panics) external(v ssa.Value, seen map[ssa.Value]bool) bool {
	if v == nil || seen[v] {
		return false
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Phi:
		for _, e := range x.Edges {
			if c.external(e, seen) {
				return true
			}
		}
	case *ssa.Extract:
		return c.external(x.Tuple, seen)
	case *ssa.Slice:
		return c.external(x.X, seen)
	case *ssa.Convert:
		return c.external(x.X, seen)
	case *ssa.ChangeType:
		return c.external(x.X, seen)
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			return c.external(x.Call.Args[0], seen)
		}
		fn := x.Call.StaticCallee()
		if fn == nil || !c.p.inRepo(fn) {
			return true
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if ret, ok := in.(*ssa.Return); ok {
					for _, v := range ret.Results {
						if _, ok := v.Type().Underlying().(*types.Slice); ok && c.external(v, seen) {
							return true
						}
					}
				}
			}
		}
	case *ssa.Parameter:
		fn := x.Parent()
		n := -1
		for i, p := range fn.Params {
			if p == x {
				n = i
			}
		}
		cs := c.p.callers(fn)
		for _, caller := range cs {
			for _, b := range caller.Blocks {
				for _, in := range b.Instrs {
					if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().StaticCallee() == fn && n < len(ci.Common().Args) {
						if c.external(ci.Common().Args[n], seen) {
							return true
						}
					}
				}
			}
		}
		return len(cs) == 0
	case *ssa.FreeVar:
		fn := x.Parent()
		for i, fv := range fn.FreeVars {
			if fv != x || fn.Parent() == nil {
				continue
			}
			for _, b := range fn.Parent().Blocks {
				for _, in := range b.Instrs {
					if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == fn && c.external(mc.Bindings[i], seen) {
						return true
					}
				}
			}
		}
	case *ssa.Alloc:
		if x.Referrers() != nil {
			for _, in := range *x.Referrers() {
				if s, ok := in.(*ssa.Store); ok && s.Addr == x && c.external(s.Val, seen) {
					return true
				}
			}
		}
	case *ssa.UnOp:
		switch a := x.X.(type) {
		case *ssa.FieldAddr:
			f := structOf(pointee(a.X.Type())).Field(a.Field)
			for _, fn := range c.p.funcs {
				for _, b := range fn.Blocks {
					for _, in := range b.Instrs {
						s, ok := in.(*ssa.Store)
						if !ok {
							continue
						}
						if fa, ok := s.Addr.(*ssa.FieldAddr); ok && structOf(pointee(fa.X.Type())).Field(fa.Field) == f && c.external(s.Val, seen) {
							return true
						}
					}
				}
			}
		case *ssa.Alloc, *ssa.FreeVar:
			return c.external(a, seen)
		default:
			return true
		}
	case *ssa.Lookup, *ssa.TypeAssert, *ssa.Field:
		return true
	}
	return false
}

func (c *panics) sortContract(w *Walker, st *State, fn *ssa.Function, args []*Term) {
	if fn.Signature.Recv() == nil || fn.Name() != "Less" && fn.Name() != "Swap" || len(args) != 3 {
		return
	}
	l := c.p.method(fn.Signature.Recv().Type(), "Len")
	if l == nil {
		return
	}
	var n *Term
	w2 := newWalker(c.p, c.r, Hooks{})
	w2.tt = w.tt
	w2.h.Exit = func(s *State, f *ssa.Function, ret []*Term) bool {
		n = ret[0]
		return false
	}
	s2 := &State{heap: map[*Term]*Term{}, facts: map[*Term]bool{}, inst: map[string]*Term{}, user: newUser()}
	w2.push(s2, l, []*Term{args[0]}, nil, nil, false)
	w2.explore(s2)
	if n == nil {
		return
	}
	for _, i := range args[1:] {
		w.assume(st, w.tt.bin(token.LSS, i, w.tt.intc(0), nil), false)
		w.assume(st, w.tt.bin(token.LSS, i, n, nil), true)
	}
}

// group: a group of an expression which is known to match, which has one for
// each of the names that are kept beside it.
func (c *panics) group(w *Walker, st *State, x, idx *Term) bool {
	k := int64(0)
	if x.op == "slice" && x.args[2] == nil && x.args[1] != nil {
		if lo, ok := x.args[1].intVal(); ok {
			x, k = x.args[0], lo
		}
	}
	if x.op != "pure" || !strings.HasPrefix(x.aux, "(*regexp.Regexp).FindStringSubmatch") || !w.matched(st, x) || groupsOf(x.args[0]) != 0 {
		return false
	}
	re := x.args[0]
	if re.op != "ld" || re.args[0].op != "faddr" {
		return false
	}
	base := re.args[0].args[0]
	s := structOf(pointee(base.typ))
	for i := 0; s != nil && i < s.NumFields(); i++ {
		if _, ok := s.Field(i).Type().Underlying().(*types.Slice); !ok {
			continue
		}
		l := w.length(st, w.load(st, w.faddr(base, s.Field(i).Name()), s.Field(i).Type()), "len")
		if w.atMost(st, idx, l, -k) {
			return true
		}
	}
	return false
}

// mayEnd: the main function, and what watches the inputs.
func (c *panics) mayEnd(fn *ssa.Function) bool {
	top := fn
	for top.Parent() != nil {
		top = top.Parent()
	}
	return c.p.onlyFrom(top, func(f *ssa.Function) bool {
		return f.Pkg != nil && f.Pkg.Pkg.Name() == "main" || c.watches(f)
	}, 3)
}

func (c *panics) watches(fn *ssa.Function) bool {
	for i := 0; i < fn.Signature.Params().Len(); i++ {
		if typeName(fn.Signature.Params().At(i).Type()) == "*github.com/fsnotify/fsnotify.Watcher" {
			return true
		}
	}
	return false
}

func indexed(in ssa.Instruction) ssa.Value {
	switch x := in.(type) {
	case *ssa.IndexAddr:
		return x.X
	case *ssa.Index:
		return x.X
	case *ssa.Lookup:
		return x.X
	}
	return nil
}

func indexOf(in ssa.Instruction) ssa.Value {
	switch x := in.(type) {
	case *ssa.IndexAddr:
		return x.Index
	case *ssa.Index:
		return x.Index
	case *ssa.Lookup:
		return x.Index
	}
	return nil
}

func derefed(in ssa.Instruction) ssa.Value {
	switch x := in.(type) {
	case *ssa.FieldAddr:
		return x.X
	case *ssa.UnOp:
		return x.X
	case *ssa.Store:
		return x.Addr
	}
	return nil
}

// panicName names a value without depending on how it is written.
func panicName(v ssa.Value) string {
	switch x := v.(type) {
	case nil:
		return "a value"
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			return typeName(pointee(fa.X.Type())) + "." + settingName(fa)
		}
	case *ssa.Call:
		if f := x.Call.StaticCallee(); f != nil {
			return "the result of " + fnName(f)
		}
		if x.Call.IsInvoke() {
			return "the result of " + x.Call.Method.Name()
		}
	case *ssa.Extract:
		return panicName(x.Tuple)
	}
	return "a " + typeName(v.Type())
}
