package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Term is a hash-consed symbolic value. Two occurrences of the same value on
// one path are the same *Term.
//
// Operators:
//
//	const   aux=kind:value                  nil      the nil/zero reference
//	param   aux=name                        an unconstrained input of the analysis
//	global  aux=pkg.name                    address of a package variable
//	func    fn                              function value
//	closure fn, args=bindings               closure value
//	alloc   aux=instance                    address of an allocated object
//	mk      aux=instance, args=[len]        make(slice/map/chan)
//	call    aux=instance, args              result of an opaque call
//	pure    aux=function, args              result of a side-effect free function
//	ext     aux=i, args=[tuple]             component of an opaque tuple
//	tuple   args
//	struct  args=fields
//	faddr   aux=field, args=[base]          iaddr args=[base,index]
//	ld      args=[addr]                     initial contents of an address
//	fld     aux=field, args=[struct value]
//	idx     args=[array or string, index]
//	lk      args=[map,key]                  lkok args=[map,key]
//	ta      typ, args=[x]                   taok typ, args=[x]
//	iface   typ=dynamic type, args=[x]
//	conv    typ, args=[x]
//	bin     aux=op                          un aux=op
//	slice   args=[x,lo,hi]                  len/cap args=[x]
//	append  aux=instance, args
//	opaque  aux=instance                    old aux=site (value of a previous iteration)
type Term struct {
	id   int
	op   string
	aux  string
	typ  types.Type
	fn   *ssa.Function
	args []*Term
	key  string
	cval constant.Value
	call *CallInfo // for call/pure terms: the (last) call that produced it
}

type termTable struct {
	m    map[string]*Term
	list []*Term
}

func newTermTable() *termTable { return &termTable{m: map[string]*Term{}} }

func typeKey(t types.Type) string {
	if t == nil {
		return ""
	}
	return types.TypeString(t, nil)
}

func (tt *termTable) mk(op, aux string, typ types.Type, fn *ssa.Function, args ...*Term) *Term {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('|')
	b.WriteString(aux)
	if op == "ta" || op == "taok" || op == "iface" || op == "conv" {
		b.WriteByte('|')
		b.WriteString(typeKey(typ))
	}
	if fn != nil {
		fmt.Fprintf(&b, "|%p", fn)
	}
	for _, a := range args {
		b.WriteByte(',')
		if a == nil {
			b.WriteByte('_')
		} else {
			b.WriteString(strconv.Itoa(a.id))
		}
	}
	k := b.String()
	if t, ok := tt.m[k]; ok {
		if t.typ == nil {
			t.typ = typ
		}
		return t
	}
	t := &Term{id: len(tt.list), op: op, aux: aux, typ: typ, fn: fn, args: args, key: k}
	tt.m[k] = t
	tt.list = append(tt.list, t)
	return t
}

func (tt *termTable) constant(c *ssa.Const) *Term {
	if c.Value == nil {
		// nil or zero value of an aggregate
		return tt.zero(c.Type())
	}
	return tt.constVal(c.Value, c.Type())
}

func (tt *termTable) constVal(v constant.Value, typ types.Type) *Term {
	t := tt.mk("const", fmt.Sprintf("%d:%s", v.Kind(), v.ExactString()), typ, nil)
	t.cval = v
	return t
}

func (tt *termTable) intc(i int64) *Term {
	return tt.constVal(constant.MakeInt64(i), types.Typ[types.Int])
}
func (tt *termTable) boolc(b bool) *Term {
	return tt.constVal(constant.MakeBool(b), types.Typ[types.Bool])
}
func (tt *termTable) strc(s string) *Term {
	return tt.constVal(constant.MakeString(s), types.Typ[types.String])
}
func (tt *termTable) nilc() *Term { return tt.mk("nil", "", nil, nil) }

// zero is the zero value of a type.
func (tt *termTable) zero(typ types.Type) *Term {
	switch u := typ.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return tt.boolc(false)
		case u.Info()&types.IsString != 0:
			return tt.strc("")
		case u.Info()&types.IsNumeric != 0:
			return tt.constVal(constant.MakeInt64(0), typ)
		}
		return tt.nilc()
	case *types.Struct:
		args := make([]*Term, u.NumFields())
		for i := range args {
			args[i] = tt.zero(u.Field(i).Type())
		}
		return tt.mk("struct", typeKey(typ), typ, nil, args...)
	case *types.Array:
		return tt.mk("zeroarray", typeKey(typ), typ, nil)
	case *types.Tuple:
		args := make([]*Term, u.Len())
		for i := range args {
			args[i] = tt.zero(u.At(i).Type())
		}
		return tt.mk("tuple", "", nil, nil, args...)
	}
	return tt.nilc()
}

func (t *Term) isConst() bool { return t.op == "const" }

func (t *Term) intVal() (int64, bool) {
	if t != nil && t.op == "const" && t.cval != nil && t.cval.Kind() == constant.Int {
		return constant.Int64Val(t.cval)
	}
	return 0, false
}

func (t *Term) strVal() (string, bool) {
	if t != nil && t.op == "const" && t.cval != nil && t.cval.Kind() == constant.String {
		return constant.StringVal(t.cval), true
	}
	return "", false
}

func (t *Term) boolVal() (bool, bool) {
	if t != nil && t.op == "const" && t.cval != nil && t.cval.Kind() == constant.Bool {
		return constant.BoolVal(t.cval), true
	}
	return false, false
}

// instance terms stand for the value produced by one execution of a site.
func (t *Term) isInstance() bool {
	switch t.op {
	case "call", "alloc", "mk", "append", "opaque":
		return true
	}
	return false
}

// any reports whether pred holds for t or one of its subterms.
func (t *Term) any(pred func(*Term) bool) bool {
	if t == nil {
		return false
	}
	if pred(t) {
		return true
	}
	for _, a := range t.args {
		if a.any(pred) {
			return true
		}
	}
	return false
}

func (t *Term) contains(x *Term) bool { return t.any(func(y *Term) bool { return y == x }) }

func (t *Term) size() int {
	n := 1
	for _, a := range t.args {
		if a != nil {
			n += a.size()
		}
	}
	return n
}

// strip removes the wrappers which do not change the value: interface
// conversions and changes of type.
func (t *Term) strip() *Term {
	for t != nil && (t.op == "iface" || t.op == "conv" && !lossy(t)) {
		t = t.args[0]
	}
	return t
}

func lossy(t *Term) bool { return false }

func (t *Term) String() string {
	if t == nil {
		return "_"
	}
	s := t.str(0)
	if len(s) > 300 {
		s = strings.ToValidUTF8(s[:300], "") + "..."
	}
	return s
}

func (t *Term) str(d int) string {
	if t == nil {
		return "_"
	}
	if d > 8 {
		return "…"
	}
	a := func(i int) string {
		if i < len(t.args) {
			return t.args[i].str(d + 1)
		}
		return "?"
	}
	all := func() string {
		var p []string
		for i := range t.args {
			p = append(p, a(i))
		}
		return strings.Join(p, ", ")
	}
	switch t.op {
	case "const":
		if i := strings.IndexByte(t.aux, ':'); i >= 0 {
			return t.aux[i+1:]
		}
		return t.aux
	case "nil":
		return "nil"
	case "param":
		return t.aux
	case "global":
		return "&" + t.aux
	case "func":
		return t.fn.Name()
	case "closure":
		return "closure " + t.fn.Name()
	case "alloc", "mk":
		return "new(" + shortInst(t.aux) + ")"
	case "call":
		return shortInst(t.aux) + "(" + all() + ")"
	case "pure":
		return t.aux + "(" + all() + ")"
	case "ext":
		return a(0) + "#" + t.aux
	case "faddr":
		return "&" + a(0) + "." + t.aux
	case "iaddr":
		return "&" + a(0) + "[" + a(1) + "]"
	case "ld":
		x := a(0)
		return strings.TrimPrefix(x, "&")
	case "fld":
		return a(0) + "." + t.aux
	case "lk", "idx":
		return a(0) + "[" + a(1) + "]"
	case "lkok":
		return "has(" + a(0) + "[" + a(1) + "])"
	case "ta":
		return a(0) + ".(" + shortType(t.typ) + ")"
	case "taok":
		return a(0) + " is " + shortType(t.typ)
	case "iface":
		return a(0)
	case "conv":
		return shortType(t.typ) + "(" + a(0) + ")"
	case "bin":
		return "(" + a(0) + " " + t.aux + " " + a(1) + ")"
	case "un":
		return t.aux + a(0)
	case "len", "cap":
		return t.op + "(" + a(0) + ")"
	}
	return t.op + ":" + shortInst(t.aux) + "(" + all() + ")"
}

func shortInst(s string) string {
	if i := strings.IndexByte(s, '@'); i >= 0 {
		s = s[:i]
	}
	return s
}

func shortType(t types.Type) string {
	if t == nil {
		return "?"
	}
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// ---- construction with simplification ----

func (tt *termTable) bin(op token.Token, a, b *Term, typ types.Type) *Term {
	if a.cval != nil && b.cval != nil && a.isConst() && b.isConst() {
		switch op {
		case token.ADD, token.SUB, token.MUL, token.AND, token.OR, token.XOR:
			if a.cval.Kind() == b.cval.Kind() {
				if r := constant.BinaryOp(a.cval, op, b.cval); r.Kind() != constant.Unknown {
					return tt.constVal(r, typ)
				}
			}
		case token.QUO, token.REM:
			if a.cval.Kind() == constant.Int && b.cval.Kind() == constant.Int && constant.Sign(b.cval) != 0 {
				o := op
				if op == token.QUO {
					o = token.QUO_ASSIGN
				}
				return tt.constVal(constant.BinaryOp(a.cval, o, b.cval), typ)
			}
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			if a.cval.Kind() == b.cval.Kind() {
				return tt.boolc(constant.Compare(a.cval, op, b.cval))
			}
		}
	}
	switch op {
	case token.NEQ:
		return tt.not(tt.bin(token.EQL, a, b, typ))
	case token.GTR:
		return tt.bin(token.LSS, b, a, typ)
	case token.LEQ:
		return tt.not(tt.bin(token.LSS, b, a, typ))
	case token.GEQ:
		return tt.not(tt.bin(token.LSS, a, b, typ))
	case token.EQL:
		if a == b && !a.any(func(x *Term) bool { return x.op == "old" }) {
			return tt.boolc(true)
		}
		if v, ok := b.boolVal(); ok {
			if v {
				return a
			}
			return tt.not(a)
		}
		if v, ok := a.boolVal(); ok {
			if v {
				return b
			}
			return tt.not(b)
		}
		if a.id > b.id {
			a, b = b, a
		}
		// nil always on the right
		if a.op == "nil" {
			a, b = b, a
		}
	case token.ADD:
		// normalise x + const chains: (x + c1) + c2
		if bv, ok := b.intVal(); ok {
			if bv == 0 {
				return a
			}
			if a.op == "bin" && a.aux == "+" {
				if av, ok := a.args[1].intVal(); ok {
					return tt.bin(token.ADD, a.args[0], tt.constVal(constant.MakeInt64(av+bv), b.typ), typ)
				}
			}
		} else if av, ok := a.intVal(); ok {
			_ = av
			return tt.bin(token.ADD, b, a, typ)
		}
	case token.SUB:
		if bv, ok := b.intVal(); ok {
			return tt.bin(token.ADD, a, tt.constVal(constant.MakeInt64(-bv), b.typ), typ)
		}
	}
	return tt.mk("bin", op.String(), typ, nil, a, b)
}

func (tt *termTable) not(a *Term) *Term {
	if v, ok := a.boolVal(); ok {
		return tt.boolc(!v)
	}
	if a.op == "un" && a.aux == "!" {
		return a.args[0]
	}
	return tt.mk("un", "!", types.Typ[types.Bool], nil, a)
}

func (tt *termTable) fld(v *Term, st *types.Struct, i int) *Term {
	if v.op == "struct" && i < len(v.args) {
		return v.args[i]
	}
	return tt.mk("fld", st.Field(i).Name(), st.Field(i).Type(), nil, v)
}

func (tt *termTable) ext(v *Term, i int, typ types.Type) *Term {
	if v.op == "tuple" && i < len(v.args) {
		return v.args[i]
	}
	return tt.mk("ext", strconv.Itoa(i), typ, nil, v)
}

// subst rebuilds t with the terms of m replaced.
func (tt *termTable) subst(t *Term, m map[*Term]*Term, memo map[*Term]*Term) *Term {
	if t == nil {
		return nil
	}
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.args) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	var args []*Term
	for i, a := range t.args {
		r := tt.subst(a, m, memo)
		if r != a && args == nil {
			args = append([]*Term{}, t.args...)
		}
		if args != nil {
			args[i] = r
		}
	}
	r := t
	if args != nil {
		r = tt.mk(t.op, t.aux, t.typ, t.fn, args...)
		if r.call == nil {
			r.call = t.call
		}
	}
	memo[t] = r
	return r
}
