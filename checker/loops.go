package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// A natural loop of a function.
type loop struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	backs  []*ssa.BasicBlock // sources of the back edges
}

func loopsOf(fn *ssa.Function) []*loop {
	byHeader := map[*ssa.BasicBlock]*loop{}
	var out []*loop
	for _, b := range fn.Blocks {
		for _, h := range b.Succs {
			if !h.Dominates(b) {
				continue
			}
			l := byHeader[h]
			if l == nil {
				l = &loop{header: h, body: map[*ssa.BasicBlock]bool{h: true}}
				byHeader[h] = l
				out = append(out, l)
			}
			l.backs = append(l.backs, b)
			work := []*ssa.BasicBlock{b}
			for len(work) > 0 {
				x := work[len(work)-1]
				work = work[:len(work)-1]
				if l.body[x] {
					continue
				}
				l.body[x] = true
				work = append(work, x.Preds...)
			}
		}
	}
	return out
}

// everyRound: the block is executed on each round which starts another one.
func (l *loop) everyRound(b *ssa.BasicBlock) bool {
	for _, s := range l.backs {
		if !b.Dominates(s) {
			return false
		}
	}
	return true
}

// exitTest is an If which can leave the loop: staying requires cond == stay.
type exitTest struct {
	in   *ssa.If
	stay bool
	out  *ssa.BasicBlock
}

func (l *loop) exits() []exitTest {
	var out []exitTest
	for b := range l.body {
		if len(b.Instrs) == 0 {
			continue
		}
		i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		t, f := l.body[b.Succs[0]], l.body[b.Succs[1]]
		if t != f {
			o := b.Succs[1]
			if !t {
				o = b.Succs[0]
			}
			out = append(out, exitTest{i, t, o})
		}
	}
	return out
}

// staying gives the comparison (a op b) which holds when the loop goes on.
func (e exitTest) staying() (a ssa.Value, op token.Token, b ssa.Value, ok bool) {
	c := e.in.Cond
	stay := e.stay
	for {
		if u, is := c.(*ssa.UnOp); is && u.Op == token.NOT {
			c, stay = u.X, !stay
			continue
		}
		break
	}
	x, is := c.(*ssa.BinOp)
	if !is {
		return nil, 0, nil, false
	}
	op = x.Op
	if !stay {
		switch op {
		case token.LSS:
			op = token.GEQ
		case token.LEQ:
			op = token.GTR
		case token.GTR:
			op = token.LEQ
		case token.GEQ:
			op = token.LSS
		case token.EQL:
			op = token.NEQ
		case token.NEQ:
			op = token.EQL
		}
	}
	return x.X, op, x.Y, true
}

func flipOp(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GTR
	case token.LEQ:
		return token.GEQ
	case token.GTR:
		return token.LSS
	case token.GEQ:
		return token.LEQ
	}
	return op
}

func stripConv(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.Convert:
			if narrows(x.X.Type(), x.Type()) {
				return v
			}
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		default:
			return v
		}
	}
}

func constInt(v ssa.Value) (int64, bool) {
	c, ok := stripConv(v).(*ssa.Const)
	if !ok || c.Value == nil || !isInt(c.Type()) {
		return 0, false
	}
	return c.Int64(), true
}

// counter: v is (or is one step after) a variable of the loop which changes by
// a constant step on every round. It gives its first value and its step; next
// tells whether v is the value for the following round.
func (l *loop) counter(v ssa.Value) (first ssa.Value, step int64, next, ok bool) {
	v = stripConv(v)
	if b, is := v.(*ssa.BinOp); is && (b.Op == token.ADD || b.Op == token.SUB) {
		if ph, isPhi := stripConv(b.X).(*ssa.Phi); isPhi && ph.Block() == l.header {
			f, s, _, good := l.counter(ph)
			if good && l.isStep(ph, b) {
				return f, s, true, true
			}
		}
		return nil, 0, false, false
	}
	ph, is := v.(*ssa.Phi)
	if !is || ph.Block() != l.header {
		return nil, 0, false, false
	}
	var st int64
	seen := false
	for i, pred := range l.header.Preds {
		e := ph.Edges[i]
		if !l.body[pred] {
			if first != nil && first != e {
				return nil, 0, false, false
			}
			first = e
			continue
		}
		b, is := stripConv(e).(*ssa.BinOp)
		if !is || stripConv(b.X) != ph {
			return nil, 0, false, false
		}
		n, is := constInt(b.Y)
		if !is {
			return nil, 0, false, false
		}
		if b.Op == token.SUB {
			n = -n
		} else if b.Op != token.ADD {
			return nil, 0, false, false
		}
		if seen && n != st {
			return nil, 0, false, false
		}
		st, seen = n, true
	}
	return first, st, false, first != nil && seen
}

func (l *loop) isStep(ph *ssa.Phi, b *ssa.BinOp) bool {
	for i, pred := range l.header.Preds {
		if l.body[pred] && stripConv(ph.Edges[i]) == b {
			return true
		}
	}
	return false
}

// rounds: the number of times the body behind the test is executed, when the
// test is the only way out, is the returned value.
func (l *loop) rounds(e exitTest) (n ssa.Value, ok bool) {
	a, op, b, good := e.staying()
	if !good {
		return nil, false
	}
	first, step, next, is := l.counter(a)
	if !is {
		if first, step, next, is = l.counter(b); !is {
			return nil, false
		}
		a, b = b, a
		op = flipOp(op)
	}
	atTop := false
	if inc, ok := stripConv(a).(*ssa.BinOp); ok && inc.Block() == l.header {
		atTop = true
	}
	if next && e.in.Block() != l.header && atTop {
		// the index of a range, tested within the round
		if f, k := constInt(first); !k || f != -1 || step != 1 || op != token.LSS && op != token.NEQ {
			return nil, false
		}
		return stripConv(b), true
	}
	if next && e.in.Block() != l.header {
		// tested at the end of the round: the body is executed once more than
		// the test is passed, which is another count
		return nil, false
	}
	if next {
		// range over an integer or a slice: starts at -1
		if f, k := constInt(first); !k || f != -1 || step != 1 || op != token.LSS {
			return nil, false
		}
		return stripConv(b), true
	}
	f, fk := constInt(first)
	lim, lk := constInt(b)
	switch {
	case step == 1 && fk && f == 0 && (op == token.LSS || op == token.NEQ):
		return stripConv(b), true
	case step == 1 && fk && f == 1 && op == token.LEQ:
		return stripConv(b), true
	case step == -1 && lk && lim == 0 && (op == token.GTR || op == token.NEQ):
		return stripConv(first), true
	case step == -1 && lk && lim == 1 && op == token.GEQ:
		return stripConv(first), true
	}
	return nil, false
}

// comesFrom: v is exactly one of the values which satisfy pred, whatever
// the variables, parameters and conversions it goes through.
func (p *Program) comesFrom(v ssa.Value, pred func(ssa.Value) bool) bool {
	return p.comesFromD(v, pred, map[ssa.Value]bool{})
}

func (p *Program) comesFromD(v ssa.Value, pred func(ssa.Value) bool, seen map[ssa.Value]bool) bool {
	v = stripConv(v)
	if seen[v] {
		return true
	}
	seen[v] = true
	if pred(v) {
		return true
	}
	switch x := v.(type) {
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !p.comesFromD(e, pred, seen) {
				return false
			}
		}
		return true
	case *ssa.Parameter:
		sites := p.callSites(x.Parent())
		if len(sites) == 0 {
			return false
		}
		for i, q := range x.Parent().Params {
			if q != x {
				continue
			}
			for _, c := range sites {
				if i >= len(c.Common().Args) || !p.comesFromD(c.Common().Args[i], pred, seen) {
					return false
				}
			}
		}
		return true
	case *ssa.FreeVar:
		fn := x.Parent()
		found := false
		for i, q := range fn.FreeVars {
			if q != x || fn.Parent() == nil {
				continue
			}
			for _, b := range fn.Parent().Blocks {
				for _, in := range b.Instrs {
					if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == fn {
						found = true
						if !p.comesFromD(mc.Bindings[i], pred, seen) {
							return false
						}
					}
				}
			}
		}
		return found
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return false
		}
		return p.comesFromD(x.X, pred, seen)
	case *ssa.Alloc:
		// a captured variable: everything stored in it
		n := 0
		for _, in := range *x.Referrers() {
			if st, ok := in.(*ssa.Store); ok && st.Addr == x {
				n++
				if !p.comesFromD(st.Val, pred, seen) {
					return false
				}
			}
		}
		return n > 0
	case *ssa.Extract:
		c, ok := x.Tuple.(*ssa.Call)
		if !ok {
			return false
		}
		return p.resultsFrom(c, x.Index, pred, seen)
	case *ssa.Call:
		return p.resultsFrom(x, 0, pred, seen)
	}
	return false
}

// resultsFrom: every meaningful result of a repository function comes from
// pred (the zero value returned along with an error is left aside).
func (p *Program) resultsFrom(c *ssa.Call, i int, pred func(ssa.Value) bool, seen map[ssa.Value]bool) bool {
	callee := c.Call.StaticCallee()
	if callee == nil || !p.inRepo(callee) || len(callee.Blocks) == 0 {
		return false
	}
	n := 0
	ei := errorResult(callee.Signature)
	for _, b := range callee.Blocks {
		for _, in := range b.Instrs {
			ret, ok := in.(*ssa.Return)
			if !ok || i >= len(ret.Results) {
				continue
			}
			if ei >= 0 && ei != i && ei < len(ret.Results) {
				if k, ok := ret.Results[ei].(*ssa.Const); !ok || k.Value != nil {
					if z, ok := ret.Results[i].(*ssa.Const); ok && isZeroConst(z) {
						continue
					}
				}
			}
			n++
			if !p.comesFromD(ret.Results[i], pred, seen) {
				return false
			}
		}
	}
	return n > 0
}

func isZeroConst(c *ssa.Const) bool {
	if c.Value == nil {
		return true
	}
	if b, ok := c.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
		return c.Int64() == 0
	}
	return false
}

func lenOf(v ssa.Value) ssa.Value {
	c, ok := stripConv(v).(*ssa.Call)
	if !ok {
		return nil
	}
	if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
		return c.Call.Args[0]
	}
	return nil
}

func appendCall(v ssa.Value) *ssa.Call {
	c, ok := v.(*ssa.Call)
	if !ok {
		return nil
	}
	if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
		return c
	}
	return nil
}

// narrows: an integer conversion which can lose something (besides the sign).
func narrows(from, to types.Type) bool {
	size := func(t types.Type) int {
		b, ok := t.Underlying().(*types.Basic)
		if !ok || b.Info()&types.IsInteger == 0 {
			return 0
		}
		switch b.Kind() {
		case types.Int8, types.Uint8:
			return 1
		case types.Int16, types.Uint16:
			return 2
		case types.Int32, types.Uint32:
			return 4
		}
		return 8
	}
	f, t := size(from), size(to)
	return f != 0 && t < f
}
