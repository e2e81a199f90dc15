package main

import (
	"fmt"
	"go/token"
	"go/types"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- lookup of the constructs of the repository ----

func (p *Program) pkg(path string) *types.Package {
	if path == "" {
		return nil
	}
	if pk := p.byPath[modulePath+"/"+path]; pk != nil {
		return pk.Types
	}
	return nil
}

// typ finds a named type, "pkg/input.Input".
func (p *Program) typ(name string) *types.Named {
	i := strings.LastIndexByte(name, '.')
	pk := p.pkg(name[:i])
	if pk == nil {
		return nil
	}
	o := pk.Scope().Lookup(name[i+1:])
	if o == nil {
		return nil
	}
	n, _ := o.Type().(*types.Named)
	return n
}

func (p *Program) iface(name string) *types.Interface {
	n := p.typ(name)
	if n == nil {
		return nil
	}
	i, _ := n.Underlying().(*types.Interface)
	return i
}

// isMock: the fake implementations of the unit tests, which production code
// never builds.
func (p *Program) isMock(n *types.Named) bool {
	if strings.HasPrefix(n.Obj().Name(), "Mock") {
		return true
	}
	f := p.fset.Position(n.Obj().Pos()).Filename
	return strings.HasPrefix(filepath.Base(f), "mock")
}

// implementers lists the production types (T or *T) which implement an
// interface of the repository.
func (p *Program) implementers(name string) []types.Type {
	it := p.iface(name)
	if it == nil {
		return nil
	}
	var out []types.Type
	for _, pk := range p.pkgs {
		sc := pk.Types.Scope()
		for _, nm := range sc.Names() {
			tn, ok := sc.Lookup(nm).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			n, ok := tn.Type().(*types.Named)
			if !ok || types.IsInterface(n) || p.isMock(n) {
				continue
			}
			if types.Implements(n, it) {
				out = append(out, n)
			} else if pt := types.NewPointer(n); types.Implements(pt, it) {
				out = append(out, pt)
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return typeName(out[i]) < typeName(out[j]) })
	return out
}

func named(t types.Type) *types.Named {
	if t == nil {
		return nil
	}
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	if p, ok := t.Underlying().(*types.Pointer); ok && p != t {
		_ = p
	}
	n, _ := t.(*types.Named)
	return n
}

func typeName(t types.Type) string { return shortName(types.TypeString(t, nil)) }

// method finds the source function behind a method of a type, promoted ones
// included.
func (p *Program) method(t types.Type, name string) *ssa.Function {
	n := named(t)
	if n == nil {
		return nil
	}
	for _, x := range []types.Type{types.NewPointer(n), n} {
		if sel := types.NewMethodSet(x).Lookup(n.Obj().Pkg(), name); sel != nil {
			f, _ := sel.Obj().(*types.Func)
			if f == nil {
				continue
			}
			return p.prog.FuncValue(f)
		}
	}
	return nil
}

// fn finds a function or method by its short name.
func (p *Program) fn(name string) *ssa.Function {
	for _, f := range p.funcs {
		if fnName(f) == name {
			return f
		}
	}
	return nil
}

func (p *Program) mustFn(r *Report, name string) *ssa.Function {
	f := p.fn(name)
	if f == nil {
		r.undecided("anchor", name, token.NoPos, "the function "+name+" was not found: what this check is anchored on has changed")
	}
	return f
}

func (p *Program) methodsOf(t types.Type) []*ssa.Function {
	n := named(t)
	var out []*ssa.Function
	for _, f := range p.funcs {
		if f.Signature.Recv() != nil && named(f.Signature.Recv().Type()) == n {
			out = append(out, f)
		}
	}
	return out
}

// ---- locks ----

type lockEvent struct {
	addr    *Term
	acquire bool
	shared  bool
}

func lockOf(ci *CallInfo) *lockEvent {
	switch ci.name {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock":
		return &lockEvent{ci.args[0], true, false}
	case "(*sync.RWMutex).RLock":
		return &lockEvent{ci.args[0], true, true}
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock":
		return &lockEvent{ci.args[0], false, false}
	case "(*sync.RWMutex).RUnlock":
		return &lockEvent{ci.args[0], false, true}
	}
	return nil
}

// callName is the name of the callee, with the methods of interfaces reduced
// to their bare name when they are of the standard library.
func methodName(ci *CallInfo) string {
	if ci.method != nil {
		return ci.method.Name()
	}
	if ci.fn != nil {
		return ci.fn.Name()
	}
	return ""
}

func recvType(ci *CallInfo) types.Type {
	if ci.fn != nil && ci.fn.Signature.Recv() != nil {
		return ci.fn.Signature.Recv().Type()
	}
	if ci.method != nil {
		return ci.method.Type().(*types.Signature).Recv().Type()
	}
	return nil
}

// addrKey renders the access path of an address, used in the constructs.
func addrKey(t *Term) string {
	switch t.op {
	case "faddr":
		return addrKey(t.args[0]) + "." + t.aux
	case "iaddr":
		return addrKey(t.args[0]) + "[]"
	case "ld":
		return addrKey(t.args[0])
	case "param":
		if t.typ != nil {
			return typeName(t.typ)
		}
		return t.aux
	}
	return t.String()
}

func quoteList(l []string) string { return strings.Join(l, ", ") }

func sprintf(f string, a ...interface{}) string { return fmt.Sprintf(f, a...) }

// implementsStd reports whether t has the given niladic-name methods.
func hasMethod(t types.Type, name string) bool {
	if t == nil {
		return false
	}
	obj, _, _ := types.LookupFieldOrMethod(t, true, nil, name)
	_, ok := obj.(*types.Func)
	return ok
}

// onlyFrom: fn satisfies pred, or is a helper every static caller of which does.
func (p *Program) onlyFrom(fn *ssa.Function, pred func(*ssa.Function) bool, depth int) bool {
	if pred(fn) {
		return true
	}
	if depth == 0 {
		return false
	}
	callers := p.callers(fn)
	if len(callers) == 0 {
		return false
	}
	for _, c := range callers {
		if c == fn {
			continue
		}
		if !p.onlyFrom(c, pred, depth-1) {
			return false
		}
	}
	return true
}

// callers lists the functions of the repository which call or mention fn.
func (p *Program) callers(fn *ssa.Function) []*ssa.Function {
	if p.callerIndex == nil {
		p.callerIndex = map[*ssa.Function][]*ssa.Function{}
		for _, f := range p.funcs {
			seen := map[*ssa.Function]bool{}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					for _, op := range in.Operands(nil) {
						if g, ok := (*op).(*ssa.Function); ok && !seen[g] {
							seen[g] = true
							p.callerIndex[g] = append(p.callerIndex[g], f)
						}
					}
				}
			}
		}
	}
	return p.callerIndex[fn]
}

// touching: the functions of the repository with an instruction which
// satisfies pred, and those which lead to them.
func (p *Program) touching(pred func(fn *ssa.Function, in ssa.Instruction) bool) map[*ssa.Function]bool {
	touch := map[*ssa.Function]bool{}
	for _, fn := range p.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if pred(fn, in) {
					touch[fn] = true
				}
			}
		}
	}
	for changed := true; changed; {
		changed = false
		for _, fn := range p.funcs {
			if touch[fn] {
				continue
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					var ops []*ssa.Value
					for _, op := range in.Operands(ops) {
						if f, ok := (*op).(*ssa.Function); ok && touch[f] {
							touch[fn] = true
						}
						if mc, ok := (*op).(*ssa.MakeClosure); ok && touch[mc.Fn.(*ssa.Function)] {
							touch[fn] = true
						}
					}
				}
			}
			if touch[fn] {
				changed = true
			}
		}
	}
	return touch
}
