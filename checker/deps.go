package main

import (
	"go/token"
	"go/types"
	"strconv"

	"golang.org/x/tools/go/ssa"
)

// dataSources walks the data dependencies of a value backwards, across the
// functions of the repository, without regard to paths. The visit function is
// given each value reached; when it returns false the walk does not go further
// behind that value, but continues with the values it returns.
func (p *Program) dataSources(v ssa.Value, visit func(ssa.Value) (bool, []ssa.Value)) {
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value)
	var stores func(addr ssa.Value, depth int)
	params := func(fn *ssa.Function, i int) {
		for _, c := range p.callSites(fn) {
			args := c.Common().Args
			if i < len(args) {
				walk(args[i])
			}
		}
	}
	// what is stored through an address, or through what is derived from it
	stores = func(addr ssa.Value, depth int) {
		refs := addr.Referrers()
		if refs == nil || depth > 6 {
			return
		}
		for _, in := range *refs {
			switch x := in.(type) {
			case *ssa.Store:
				if x.Addr == addr {
					walk(x.Val)
				}
			case *ssa.FieldAddr:
				stores(x, depth+1)
			case *ssa.IndexAddr:
				if x.X == addr {
					stores(x, depth+1)
				}
			case *ssa.Slice:
				stores(x, depth+1)
			case *ssa.Phi:
				stores(x, depth+1)
			case *ssa.MapUpdate:
				if x.Map == addr {
					walk(x.Key)
					walk(x.Value)
				}
			case ssa.CallInstruction:
				c := x.Common()
				callee := c.StaticCallee()
				if callee != nil && p.inRepo(callee) && len(callee.Blocks) > 0 {
					for i, a := range c.Args {
						if a == addr && i < len(callee.Params) {
							stores(callee.Params[i], depth+1)
						}
					}
				} else if b, ok := c.Value.(*ssa.Builtin); ok && b.Name() == "copy" && c.Args[0] == addr {
					walk(c.Args[1])
				} else if _, ok := c.Value.(*ssa.Builtin); !ok {
					// an unknown callee may fill it from its other arguments
					for _, a := range c.Args {
						if a != addr {
							walk(a)
						}
					}
					if c.IsInvoke() {
						walk(c.Value)
					}
				}
			case *ssa.MakeClosure:
				for i, b := range x.Bindings {
					if b == addr {
						stores(x.Fn.(*ssa.Function).FreeVars[i], depth+1)
					}
				}
			}
		}
	}
	walk = func(v ssa.Value) {
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		deeper, more := visit(v)
		for _, m := range more {
			walk(m)
		}
		if !deeper {
			return
		}
		switch x := v.(type) {
		case *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap:
			stores(v, 0)
		case *ssa.Parameter:
			for i, q := range x.Parent().Params {
				if q == x {
					params(x.Parent(), i)
				}
			}
		case *ssa.FreeVar:
			fn := x.Parent()
			for i, q := range fn.FreeVars {
				if q != x || fn.Parent() == nil {
					continue
				}
				for _, b := range fn.Parent().Blocks {
					for _, in := range b.Instrs {
						if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == fn && i < len(mc.Bindings) {
							walk(mc.Bindings[i])
						}
					}
				}
			}
			stores(v, 0)
		case *ssa.Call:
			c := x.Call
			if callee := c.StaticCallee(); callee != nil && p.inRepo(callee) && len(callee.Blocks) > 0 {
				for _, b := range callee.Blocks {
					for _, in := range b.Instrs {
						if ret, ok := in.(*ssa.Return); ok {
							for _, r := range ret.Results {
								walk(r)
							}
						}
					}
				}
				return
			}
			if c.IsInvoke() {
				walk(c.Value)
			} else if _, ok := c.Value.(*ssa.Function); !ok {
				walk(c.Value)
			}
			for _, a := range c.Args {
				walk(a)
			}
		case *ssa.UnOp:
			if x.Op == token.MUL {
				stores(x.X, 0)
			}
			walk(x.X)
		case *ssa.MakeClosure:
			for _, b := range x.Bindings {
				walk(b)
			}
		default:
			if in, ok := v.(ssa.Instruction); ok {
				for _, op := range in.Operands(nil) {
					if *op != nil {
						walk(*op)
					}
				}
			}
		}
	}
	walk(v)
}

// dependsOn reports whether a value is computed from one satisfying pred.
func (p *Program) dependsOn(v ssa.Value, pred func(ssa.Value) bool) bool {
	found := false
	p.dataSources(v, func(x ssa.Value) (bool, []ssa.Value) {
		if pred(x) {
			found = true
		}
		return !found, nil
	})
	return found
}

// callSites lists the static calls to fn in the repository.
func (p *Program) callSites(fn *ssa.Function) []ssa.CallInstruction {
	if p.siteIndex == nil {
		p.siteIndex = map[*ssa.Function][]ssa.CallInstruction{}
		for _, f := range p.funcs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(ssa.CallInstruction); ok {
						if g := c.Common().StaticCallee(); g != nil {
							p.siteIndex[g] = append(p.siteIndex[g], c)
						}
					}
				}
			}
		}
	}
	return p.siteIndex[fn]
}

// fieldStores lists the values stored in a field of a struct type anywhere in
// the repository.
func (p *Program) fieldStores(s types.Type, field int) []ssa.Value {
	if p.fieldIndex == nil {
		p.fieldIndex = map[string][]ssa.Value{}
		for _, f := range p.funcs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					st, ok := in.(*ssa.Store)
					if !ok {
						continue
					}
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
						k := fieldKey(pointee(fa.X.Type()), fa.Field)
						p.fieldIndex[k] = append(p.fieldIndex[k], st.Val)
					}
				}
			}
		}
	}
	return p.fieldIndex[fieldKey(s, field)]
}

func fieldKey(s types.Type, field int) string { return typeKey(s) + "." + strconv.Itoa(field) }
