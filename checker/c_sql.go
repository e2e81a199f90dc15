package main

import (
	"go/token"
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C09", checkSQL) }

// sqlTextArg: the argument of the database/sql calls which is a statement.
func sqlTextArg(c *ssa.CallCommon) ssa.Value {
	callee := c.StaticCallee()
	var o types.Object
	args := c.Args
	if callee != nil {
		o = callee.Object()
	} else if c.IsInvoke() {
		o = c.Method
		args = append([]ssa.Value{c.Value}, args...)
	}
	if o == nil || o.Pkg() == nil || o.Pkg().Path() != "database/sql" && o.Pkg().Path() != "database/sql/driver" {
		return nil
	}
	switch o.Name() {
	case "Exec", "Query", "QueryRow", "Prepare", "ExecContext", "QueryContext", "QueryRowContext", "PrepareContext":
	default:
		return nil
	}
	sig := c.Signature()
	for i := 0; i < sig.Params().Len(); i++ {
		if b, ok := sig.Params().At(i).Type().(*types.Basic); ok && b.Kind() == types.String {
			j := i
			if sig.Recv() != nil {
				j++
			}
			if j < len(args) {
				return args[j]
			}
		}
	}
	return nil
}

// textual: a value which can carry text.
func textual(t types.Type, depth int) bool {
	if t == nil || depth > 4 {
		return false
	}
	switch x := t.Underlying().(type) {
	case *types.Basic:
		return x.Info()&types.IsString != 0 || x.Kind() == types.Byte || x.Kind() == types.Rune
	case *types.Interface:
		return true
	case *types.Slice:
		return textual(x.Elem(), depth+1)
	case *types.Array:
		return textual(x.Elem(), depth+1)
	case *types.Pointer:
		return textual(x.Elem(), depth+1)
	case *types.Map:
		return textual(x.Elem(), depth+1) || textual(x.Key(), depth+1)
	case *types.Tuple:
		return true
	case *types.Struct:
		for i := 0; i < x.NumFields(); i++ {
			if textual(x.Field(i).Type(), depth+1) {
				return true
			}
		}
	}
	return false
}

func checkSQL(p *Program, r *Report) {
	r.explanation = "The text of every statement handed to database/sql is traced backwards through concatenations, joins, helper functions, slices and fields, to its origins. Each origin must be a constant, a number, " +
		"the result of a quoting function (itself verified), or a configuration value restricted to a list of constants by its validation."
	r.rule("statement-text", 8, "the text of a statement is only made of constants, numbers, quoted identifiers and validated keywords")
	r.rule("quoting", 0, "the quoting function doubles the quotes of the identifier and encloses it in quotes")
	r.assumptions = []string{"printf('%w') of sqlite doubles the double quotes of its argument", "database/sql passes the arguments of a statement apart from its text"}
	quoters := map[*ssa.Function]bool{}
	notQuoter := map[*ssa.Function]bool{}
	isQuoterFn := func(fn *ssa.Function) bool {
		if quoters[fn] {
			return true
		}
		if notQuoter[fn] {
			return false
		}
		if isQuoter(p, r, fn) {
			quoters[fn] = true
			r.ok("quoting", fnName(fn), fn.Pos(), "returns its argument with the quotes doubled, between quotes")
			return true
		}
		notQuoter[fn] = true
		return false
	}
	for _, fn := range p.funcs {
		if skipFunc(p, fn) {
			continue
		}
		r.funcs[fnName(fn)] = true
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				q := sqlTextArg(c.Common())
				if q == nil {
					continue
				}
				construct := fnName(fn) + " calls " + calleeLabel(c.Common())
				bad := ""
				var badPos token.Pos
				fail := func(v ssa.Value, msg string) {
					if bad == "" {
						bad, badPos = msg, v.Pos()
					}
				}
				p.dataSources(q, func(v ssa.Value) (bool, []ssa.Value) {
					if _, ok := v.(*ssa.Const); ok {
						return false, nil
					}
					switch typeName(v.Type()) {
					case "*database/sql.Row", "*database/sql.Rows":
						fail(v, "a value read from the database becomes part of the statement")
						return false, nil
					}
					if !textual(v.Type(), 0) {
						return false, nil
					}
					switch x := v.(type) {
					case *ssa.Call:
						if f := x.Call.StaticCallee(); f != nil {
							if p.inRepo(f) && isQuoterFn(f) {
								return false, nil
							}
							return true, nil
						}
						if x.Call.IsInvoke() {
							fail(v, "the result of "+x.Call.Method.Name()+"() becomes part of the statement")
							return false, nil
						}
						return true, nil
					case *ssa.FieldAddr:
						return fieldOrigin(p, r, x, fail)
					case *ssa.Field:
						st := x.X.Type()
						return fieldDecl(p, r, st, x.Field, x, fail)
					case *ssa.Lookup:
						fail(v, "a value of a map becomes part of the statement")
						return false, nil
					case *ssa.Range, *ssa.Next:
						fail(v, "a key or value of a map becomes part of the statement")
						return false, nil
					case *ssa.Global:
						return false, nil
					case *ssa.Parameter:
						f := x.Parent()
						if len(p.callSites(f)) == 0 {
							fail(v, "the parameter "+x.Name()+" of "+fnName(f)+" becomes part of the statement")
							return false, nil
						}
					case *ssa.TypeAssert:
						return true, nil
					}
					return true, nil
				})
				if bad == "" {
					r.ok("statement-text", construct, in.Pos(), "constants and quoted identifiers only")
				} else {
					where := ""
					if badPos.IsValid() {
						where = " (" + p.pos(badPos) + ")"
					}
					r.violation("statement-text", construct, in.Pos(), bad+where+": its content can change what the statement does", nil)
				}
			}
		}
	}
}

func fieldOrigin(p *Program, r *Report, x *ssa.FieldAddr, fail func(ssa.Value, string)) (bool, []ssa.Value) {
	elem := pointee(x.X.Type())
	s, _ := elem.Underlying().(*types.Struct)
	if s == nil {
		return true, nil
	}
	if !textual(s.Field(x.Field).Type(), 0) {
		return false, nil
	}
	return fieldDecl(p, r, elem, x.Field, x, fail)
}

func fieldDecl(p *Program, r *Report, owner types.Type, field int, v ssa.Value, fail func(ssa.Value, string)) (bool, []ssa.Value) {
	s, _ := owner.Underlying().(*types.Struct)
	if s == nil {
		return true, nil
	}
	if !textual(s.Field(field).Type(), 0) {
		return false, nil
	}
	ft := s.Field(field).Type().Underlying()
	if _, isPtr := ft.(*types.Pointer); isPtr && reflect.StructTag(s.Tag(field)).Get("yaml") == "" {
		// a reference to another object, the text is in one of its fields
		return false, nil
	}
	n := named(owner)
	if n == nil || n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), modulePath) {
		fail(v, "the field "+s.Field(field).Name()+" of "+typeName(owner)+" becomes part of the statement")
		return false, nil
	}
	if reflect.StructTag(s.Tag(field)).Get("yaml") != "" {
		if enumValidated(p, r, n, s.Field(field).Name()) {
			return false, nil
		}
		fail(v, "the configuration value "+n.Obj().Name()+"."+s.Field(field).Name()+" becomes part of the statement without being quoted, nor restricted to a list of constants")
		return false, nil
	}
	return false, p.fieldStores(owner, field)
}

// enumValidated: the Validate method of the type accepts only constants for
// the field.
func enumValidated(p *Program, r *Report, n *types.Named, field string) bool {
	fn := p.method(n, "Validate")
	if fn == nil || len(fn.Blocks) == 0 {
		return false
	}
	s := structOf(n)
	ok, seen := true, false
	var recv *Term
	w := newWalker(p, r, Hooks{})
	constList := func(t *Term) bool {
		return t.any(func(x *Term) bool { return x.op == "global" }) && !t.contains(recv)
	}
	w.h.Inline = func(st *State, f *ssa.Function) bool { return !isMembership(f) }
	w.h.Branch = func(st *State, in *ssa.If, cond *Term, taken bool) {
		for cond.op == "un" && cond.aux == "!" {
			cond, taken = cond.args[0], !taken
		}
		if !taken {
			return
		}
		switch {
		case cond.op == "bin" && cond.aux == "==":
			for i := 0; i < 2; i++ {
				o := cond.args[1-i]
				if o.isConst() || constList(o) {
					st.user.add("member", cond.args[i], "")
				}
			}
		case (cond.op == "call" || cond.op == "pure") && cond.call != nil && len(cond.call.args) == 2:
			a, b := cond.call.args[0], cond.call.args[1]
			if constList(b) || w.constElems(st, b) {
				st.user.add("member", a, "")
			}
			if constList(a) || w.constElems(st, a) {
				st.user.add("member", b, "")
			}
		case (cond.op == "lkok" || cond.op == "lk") && constList(cond.args[0]):
			st.user.add("member", cond.args[1], "")
		}
	}
	w.h.Exit = func(st *State, f *ssa.Function, ret []*Term) bool {
		if i := errorResult(f.Signature); i >= 0 {
			if e, k := w.isNil(st, ret[i]); k && !e {
				return false
			}
		}
		seen = true
		v := w.load(st, w.faddr(recv, field), fieldType(s, field))
		if _, member := st.user.has("member", v); !member && !v.isConst() {
			// a default taken from the list itself is then checked against it
			ok = false
		}
		return false
	}
	w.start(fn, func(st *State, args []*Term) { recv = args[0] })
	r.walked(w)
	return ok && seen
}

// isMembership: a function of two arguments, a list and a value, returning
// whether the list has the value.
func isMembership(f *ssa.Function) bool {
	sig := f.Signature
	if sig.Recv() != nil || sig.Params().Len() != 2 || sig.Results().Len() != 1 {
		return false
	}
	b, ok := sig.Results().At(0).Type().Underlying().(*types.Basic)
	if !ok || b.Kind() != types.Bool {
		return false
	}
	for i := 0; i < 2; i++ {
		if _, ok := sig.Params().At(i).Type().Underlying().(*types.Slice); ok {
			return true
		}
	}
	return false
}

func (w *Walker) constElems(st *State, t *Term) bool {
	e, ok := w.sliceElems(st, t)
	if !ok || len(e) == 0 {
		return false
	}
	for _, x := range e {
		if !x.isConst() {
			return false
		}
	}
	return true
}

// isQuoter: every success returns a text between double quotes, whose inside
// had its double quotes doubled.
func isQuoter(p *Program, r *Report, fn *ssa.Function) bool {
	res := fn.Signature.Results()
	if res.Len() == 0 || len(fn.Blocks) == 0 {
		return false
	}
	if b, ok := res.At(0).Type().Underlying().(*types.Basic); !ok || b.Kind() != types.String {
		return false
	}
	ok, seen := true, false
	w := newWalker(p, r, Hooks{})
	w.h.After = func(ci *CallInfo) {
		if strings.HasSuffix(ci.name, ".Scan") && len(ci.args) > 0 {
			row := ci.args[0]
			if row.op == "ext" {
				row = row.args[0]
			}
			if row.call == nil {
				return
			}
			for _, a := range row.call.vargs {
				if s, k := a.strVal(); k && strings.Contains(s, "printf('%w', ?)") {
					// the cells it filled
					for addr, v := range ci.st.heap {
						if v.op == "opaque" {
							for _, va := range ci.vargs {
								if va.strip() == addr || va.op == "iface" && va.args[0] == addr {
									ci.st.user.add("quoted", v, "")
								}
							}
						}
					}
				}
			}
		}
	}
	w.h.Exit = func(st *State, f *ssa.Function, ret []*Term) bool {
		if i := errorResult(f.Signature); i >= 0 {
			if e, k := w.isNil(st, ret[i]); k && !e {
				return false
			}
		}
		seen = true
		var parts []*Term
		var flat func(t *Term)
		flat = func(t *Term) {
			if t.op == "bin" && t.aux == "+" {
				flat(t.args[0])
				flat(t.args[1])
				return
			}
			parts = append(parts, t)
		}
		flat(ret[0])
		good := len(parts) == 3
		if good {
			a, k1 := parts[0].strVal()
			b, k2 := parts[2].strVal()
			good = k1 && k2 && a == `"` && b == `"`
			_, q := st.user.has("quoted", parts[1])
			m := parts[1]
			if m.op == "pure" && (m.aux == "strings.ReplaceAll" || m.aux == "strings.Replace") && len(m.args) >= 3 {
				x, k3 := m.args[1].strVal()
				y, k4 := m.args[2].strVal()
				q = k3 && k4 && x == `"` && y == `""`
				if m.aux == "strings.Replace" {
					n, k := m.args[3].intVal()
					q = q && k && n < 0
				}
			}
			good = good && q
		}
		if !good {
			ok = false
		}
		return false
	}
	w.start(fn, nil)
	return ok && seen
}
