package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C23", checkRouteParameters) }

func checkRouteParameters(p *Program, r *Report) {
	r.explanation = "The expression compiled for the path of a route is rebuilt, from the source, as a sequence of pieces: it must be anchored on both sides, and made only of text of the path which is quoted, " +
		"and of one group per parameter holding the pattern of its parser; the patterns of the parsers must hold no other group. The pairing of the names, of the parsers and of the groups is followed by their indexes. " +
		"The handler is explored path by path up to the output: the parameters it is given come from the path, each one under its own name, and otherwise from the query."
	r.rule("whole-path", 1, "the expression of a route is anchored, and holds only quoted text and one group per parameter")
	r.rule("quoted-text", 1, "the text of the path of a route is matched as it is written")
	r.rule("no-other-group", 1, "the pattern of a parser holds no capturing group")
	r.rule("own-parser", 1, "each group holds the pattern of the parser of the parameter at that place, and is followed by the text which follows it")
	r.rule("names", 1, "the names of the parameters of a route are kept in the order of its path")
	r.rule("primitive", 1, "only primitive parsers can be used in a path")
	r.rule("unknown-refused", 2, "a path can only use the parameters which its output has")
	r.rule("path-parameter", 1, "the output is given the text of each parameter of the path, under its name, even if the query has the same name")
	r.rule("query-parameter", 1, "the output is given the first value of each other parameter of the query")
	for _, rt := range routingsOf(p, r, "whole-path") {
		exprs := compiledExpressions(p, r, rt)
		for _, c := range exprs {
			routeExpression(p, r, rt, c)
		}
		if len(exprs) == 0 {
			r.undecided("whole-path", typeName(rt.elem), 0, "what builds the expressions of the routes was not found")
		}
		routeStart(p, r, rt)
		for _, fn := range httpHandlers(p) {
			handlerParams(p, r, rt, fn)
		}
	}
	parserPatterns(p, r)
	parameterParsers(p, r)
}

func isCompile(n string) bool {
	return n == "regexp.Compile" || n == "regexp.MustCompile" || n == "regexp.CompilePOSIX"
}

// compiledExpressions: the calls whose result becomes the expression of a route.
func compiledExpressions(p *Program, r *Report, rt *routing) []*ssa.Call {
	var out []*ssa.Call
	seen := map[*ssa.Call]bool{}
	es := rt.elem.Underlying().(*types.Struct)
	for i := 0; i < es.NumFields(); i++ {
		if es.Field(i).Name() != rt.expr {
			continue
		}
		for _, v := range p.fieldStores(rt.elem, i) {
			p.comesFrom(v, func(x ssa.Value) bool {
				if e, ok := x.(*ssa.Extract); ok && e.Index == 0 {
					x = e.Tuple
				}
				c, ok := x.(*ssa.Call)
				if !ok {
					return false
				}
				f := c.Call.StaticCallee()
				if f == nil || !isCompile(fnName(f)) {
					return false
				}
				if !seen[c] {
					seen[c] = true
					out = append(out, c)
				}
				return true
			})
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Pos() < out[j].Pos() })
	return out
}

// ---- the expression, as a sequence of pieces ----

// A piece is a literal text, a quoted text, a pattern of a parser, something
// which is repeated (the pieces added on each round of a loop) or anything else.
type piece struct {
	kind byte // l q p r x
	text string
	val  ssa.Value
	key  ssa.Value
	step [][]piece
}

type piecer struct {
	p     *Program
	env   map[*ssa.Parameter]ssa.Value
	open  map[ssa.Value]bool
	depth int
}

func cross(a, b [][]piece) [][]piece {
	var out [][]piece
	for _, x := range a {
		for _, y := range b {
			out = append(out, append(append([]piece{}, x...), y...))
			if len(out) > 64 {
				return out
			}
		}
	}
	return out
}

func (c *piecer) of(v ssa.Value) [][]piece {
	one := func(x piece) [][]piece { return [][]piece{{x}} }
	c.depth++
	defer func() { c.depth-- }()
	if c.depth > 60 {
		return one(piece{kind: 'x', val: v})
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.String {
			return one(piece{kind: 'l', text: constant.StringVal(x.Value), val: v})
		}
		if x.Value == nil {
			return [][]piece{{}} // an empty list
		}
	case *ssa.ChangeType:
		return c.of(x.X)
	case *ssa.MakeSlice:
		if emptySlice(x) {
			return [][]piece{{}}
		}
	case *ssa.Slice:
		// a literal list of texts
		if emptySlice(x) {
			return [][]piece{{}}
		}
		if elems, ok := variadic(x); ok && x.Low == nil && x.High == nil {
			out := [][]piece{{}}
			for _, e := range elems {
				out = cross(out, c.of(e))
			}
			return out
		}
	case *ssa.BinOp:
		if x.Op == token.ADD {
			return cross(c.of(x.X), c.of(x.Y))
		}
	case *ssa.Phi:
		if c.open[x] {
			return one(piece{kind: 's', val: x}) // the value so far
		}
		if !isHeader(x.Block()) {
			var out [][]piece
			for _, e := range x.Edges {
				out = append(out, c.of(e)...)
			}
			return out
		}
		c.open[x] = true
		defer delete(c.open, x)
		var first, steps [][]piece
		for i, pred := range x.Block().Preds {
			if !x.Block().Dominates(pred) {
				first = append(first, c.of(x.Edges[i])...)
				continue
			}
			for _, s := range c.of(x.Edges[i]) {
				if len(s) == 0 || s[0].kind != 's' || s[0].val != x {
					steps = append(steps, []piece{{kind: 'x', val: x.Edges[i]}})
					continue
				}
				steps = append(steps, s[1:])
			}
		}
		return cross(first, one(piece{kind: 'r', val: x, step: steps}))
	case *ssa.Parameter:
		if a, ok := c.env[x]; ok {
			return c.of(a)
		}
		var out [][]piece
		for i, q := range x.Parent().Params {
			if q != x {
				continue
			}
			for _, s := range c.p.callSites(x.Parent()) {
				if i < len(s.Common().Args) {
					out = append(out, c.of(s.Common().Args[i])...)
				}
			}
		}
		if len(out) > 0 {
			return out
		}
	case *ssa.Extract:
		if call, ok := x.Tuple.(*ssa.Call); ok {
			return c.call(call, x.Index)
		}
	case *ssa.Call:
		return c.call(x, 0)
	}
	return one(piece{kind: 'x', val: v})
}

func (c *piecer) call(x *ssa.Call, i int) [][]piece {
	one := func(x piece) [][]piece { return [][]piece{{x}} }
	if x.Call.IsInvoke() {
		if x.Call.Method.Name() == "GetRegexpPattern" {
			return one(piece{kind: 'p', val: x})
		}
		return one(piece{kind: 'x', val: x})
	}
	if appendCall(x) != nil {
		return cross(c.of(x.Call.Args[0]), c.of(x.Call.Args[1]))
	}
	f := x.Call.StaticCallee()
	if f == nil {
		return one(piece{kind: 'x', val: x})
	}
	switch n := fnName(f); n {
	case "regexp.QuoteMeta":
		return one(piece{kind: 'q', val: x})
	case "strings.Join":
		if k, ok := x.Call.Args[1].(*ssa.Const); ok && k.Value != nil && constant.StringVal(k.Value) == "" {
			return c.of(x.Call.Args[0])
		}
	case "fmt.Sprintf":
		if out := c.format(x); out != nil {
			return out
		}
	case "(*strings.Builder).String", "(*bytes.Buffer).String":
		if out := c.built(x); out != nil {
			return out
		}
	}
	if c.p.inRepo(f) && len(f.Blocks) > 0 && !c.open[f] {
		saved := map[*ssa.Parameter]ssa.Value{}
		for k, v := range c.env {
			saved[k] = v
		}
		c.open[f] = true
		for j, q := range f.Params {
			if j < len(x.Call.Args) {
				c.env[q] = x.Call.Args[j]
			}
		}
		var out [][]piece
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ret, ok := in.(*ssa.Return)
				if !ok || i >= len(ret.Results) {
					continue
				}
				if ei := errorResult(f.Signature); ei >= 0 && ei < len(ret.Results) {
					if k, ok := ret.Results[ei].(*ssa.Const); !ok || k.Value != nil {
						continue // nothing is built from a failure
					}
				}
				out = append(out, c.of(ret.Results[i])...)
			}
		}
		delete(c.open, f)
		c.env = saved
		if len(out) > 0 {
			return out
		}
	}
	return one(piece{kind: 'x', val: x})
}

// variadic lists the elements of the slice made for variadic arguments.
func variadic(v ssa.Value) ([]ssa.Value, bool) {
	sl, ok := v.(*ssa.Slice)
	if !ok {
		return nil, false
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil, false
	}
	arr, ok := pointee(al.Type()).Underlying().(*types.Array)
	if !ok || arr.Len() > 32 {
		return nil, false
	}
	out := make([]ssa.Value, arr.Len())
	for _, in := range *al.Referrers() {
		ia, ok := in.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		n, ok := constInt(ia.Index)
		for _, u := range *ia.Referrers() {
			if s, isStore := u.(*ssa.Store); isStore && ok && int(n) < len(out) {
				out[n] = s.Val
			}
		}
	}
	for _, o := range out {
		if o == nil {
			return nil, false
		}
	}
	return out, true
}

func unboxed(v ssa.Value) ssa.Value {
	if m, ok := v.(*ssa.MakeInterface); ok {
		return m.X
	}
	return v
}

func (c *piecer) format(x *ssa.Call) [][]piece {
	k, ok := x.Call.Args[0].(*ssa.Const)
	if !ok || k.Value == nil {
		return nil
	}
	args, ok := variadic(x.Call.Args[1])
	if !ok {
		return nil
	}
	out := [][]piece{{}}
	lit := func(s string) {
		if s != "" {
			out = cross(out, [][]piece{{{kind: 'l', text: s, val: x}}})
		}
	}
	f := constant.StringVal(k.Value)
	n := 0
	for f != "" {
		i := strings.IndexByte(f, '%')
		if i < 0 || i+1 >= len(f) {
			lit(f)
			break
		}
		lit(f[:i])
		verb := f[i+1]
		f = f[i+2:]
		switch {
		case verb == '%':
			lit("%")
		case (verb == 's' || verb == 'v') && n < len(args):
			out = cross(out, c.of(unboxed(args[n])))
			n++
		default:
			return nil
		}
	}
	return out
}

// built: the pieces written to a builder before its text is taken.
func (c *piecer) built(x *ssa.Call) [][]piece {
	b, ok := x.Call.Args[0].(*ssa.Alloc)
	if !ok {
		return nil
	}
	type write struct {
		in   *ssa.Call
		args []ssa.Value
		raw  bool
	}
	var ws []write
	for _, in := range *b.Referrers() {
		call, ok := in.(*ssa.Call)
		if mi, boxed := in.(*ssa.MakeInterface); boxed {
			for _, u := range *mi.Referrers() {
				if uc, ok := u.(*ssa.Call); ok {
					f := uc.Call.StaticCallee()
					if f == nil || fnName(f) != "fmt.Fprintf" && fnName(f) != "fmt.Fprint" && fnName(f) != "io.WriteString" {
						return nil
					}
					ws = append(ws, write{uc, uc.Call.Args[1:], true})
				}
			}
			continue
		}
		if !ok {
			if _, dbg := in.(*ssa.DebugRef); dbg {
				continue
			}
			return nil
		}
		f := call.Call.StaticCallee()
		if f == nil {
			return nil
		}
		switch f.Name() {
		case "WriteString", "WriteByte", "WriteRune":
			ws = append(ws, write{call, call.Call.Args[1:], false})
		case "String", "Len", "Grow":
		default:
			return nil
		}
	}
	// in the order of the execution
	sort.SliceStable(ws, func(i, j int) bool {
		a, b := ws[i].in, ws[j].in
		if a.Block() == b.Block() {
			return instrIndex(a) < instrIndex(b)
		}
		return a.Block().Dominates(b.Block())
	})
	loops := loopsOf(x.Parent())
	loopOf := func(b *ssa.BasicBlock) *loop {
		var in *loop
		for _, l := range loops {
			if l.body[b] && !l.body[x.Block()] && (in == nil || in.body[l.header]) {
				in = l
			}
		}
		return in
	}
	text := func(w write) [][]piece {
		if w.raw {
			f := w.in.Call.StaticCallee()
			if f.Name() == "Fprintf" {
				return c.formatOf(w.args)
			}
			if f.Name() == "Fprint" {
				return nil
			}
		}
		a := w.args[0]
		if n, ok := constInt(a); ok {
			return [][]piece{{{kind: 'l', text: string(rune(n)), val: a}}}
		}
		return c.of(a)
	}
	out := [][]piece{{}}
	for i := 0; i < len(ws); {
		l := loopOf(ws[i].in.Block())
		if l == nil {
			if !ws[i].in.Block().Dominates(x.Block()) {
				return nil
			}
			t := text(ws[i])
			if t == nil {
				return nil
			}
			out = cross(out, t)
			i++
			continue
		}
		step := [][]piece{{}}
		for i < len(ws) && loopOf(ws[i].in.Block()) == l {
			if !l.everyRound(ws[i].in.Block()) {
				return nil
			}
			t := text(ws[i])
			if t == nil {
				return nil
			}
			step = cross(step, t)
			i++
		}
		out = cross(out, [][]piece{{{kind: 'r', val: x, step: step}}})
	}
	return out
}

func (c *piecer) formatOf(args []ssa.Value) [][]piece {
	call := &ssa.Call{}
	call.Call.Args = args
	return c.format(call)
}

var (
	shapeRest  = `(?:Q|\(P\)|\(\(\?:P\)\)|R)*`
	shapeWhole = regexp.MustCompile(`^(?:\^|\\A)` + shapeRest + `(?:\$|\\z)$`)
	shapeStep  = regexp.MustCompile(`^` + shapeRest + `$`)
)

func shapeOf(s []piece) string {
	var b strings.Builder
	for _, x := range s {
		switch x.kind {
		case 'l':
			for _, ch := range x.text {
				if ch == 'Q' || ch == 'P' || ch == 'R' || ch == 'X' {
					ch = 'X' // a literal letter is not one of the marks
				}
				b.WriteRune(ch)
			}
		case 'q':
			b.WriteString("Q")
		case 'p':
			b.WriteString("P")
		case 'r':
			b.WriteString("R")
		default:
			b.WriteString("X")
		}
	}
	return b.String()
}

func routeExpression(p *Program, r *Report, rt *routing, call *ssa.Call) {
	name := fnName(call.Parent())
	pc := &piecer{p: p, env: map[*ssa.Parameter]ssa.Value{}, open: map[ssa.Value]bool{}}
	seqs := pc.of(call.Call.Args[0])
	patterns := map[*ssa.Call]bool{}
	quotes := map[*ssa.Call]bool{}
	var visit func(s []piece, shape *regexp.Regexp)
	visit = func(s []piece, shape *regexp.Regexp) {
		for _, x := range s {
			switch x.kind {
			case 'x', 's':
				r.violation("quoted-text", name, call.Pos(), "something which is not quoted becomes a part of the expression: "+describe(p, x.val), nil)
			case 'q':
				quotes[x.val.(*ssa.Call)] = true
			case 'p':
				patterns[x.val.(*ssa.Call)] = true
			case 'r':
				for _, st := range x.step {
					visit(st, shapeStep)
				}
			}
		}
		if sh := shapeOf(s); !shape.MatchString(sh) {
			r.violation("whole-path", name, call.Pos(), "the expression is not the anchored sequence of the texts and of one group per parameter (Q quoted text, P pattern, R repeated, X other): "+sh, nil)
		} else {
			r.ok("whole-path", name, call.Pos(), "its shape is "+sh)
		}
	}
	for _, s := range seqs {
		visit(s, shapeWhole)
	}
	if len(patterns) == 0 {
		r.violation("own-parser", name, call.Pos(), "no pattern of a parser takes part in the expression", nil)
	}
	for q := range quotes {
		origin := ""
		fromPath := false
		p.dataSources(q.Call.Args[0], func(x ssa.Value) (bool, []ssa.Value) {
			switch y := x.(type) {
			case *ssa.Call:
				f := y.Call.StaticCallee()
				if f != nil && changesText(fnName(f)) {
					origin = fnName(f)
				}
				if f != nil && strings.HasPrefix(fnName(f), "(*regexp.Regexp).") && len(y.Call.Args) > 1 {
					return false, y.Call.Args[1:]
				}
			case *ssa.FieldAddr:
				if isPathField(pointee(y.X.Type()), y.Field) {
					fromPath = true
					return false, nil
				}
			case *ssa.Field:
				if isPathField(y.X.Type(), y.Field) {
					fromPath = true
					return false, nil
				}
			case *ssa.BinOp:
				if y.Op == token.ADD && y.Type().Underlying() == types.Typ[types.String] {
					origin = "an added text"
				}
			}
			return true, nil
		})
		switch {
		case origin != "":
			r.violation("quoted-text", name, q.Pos(), "the text of the path is changed by "+origin, nil)
		case !fromPath:
			r.violation("quoted-text", name, q.Pos(), "the quoted text does not come from the path of the route", nil)
		default:
			r.ok("quoted-text", name, q.Pos(), "quoted as it is written")
		}
	}
	for c := range patterns {
		pairedParser(p, r, rt, name, c, quotes)
	}
}

func describe(p *Program, v ssa.Value) string {
	if v == nil {
		return "?"
	}
	if c, ok := v.(*ssa.Call); ok {
		return "the result of " + calleeLabel(&c.Call)
	}
	return v.Name() + " " + v.String()
}

func isPathField(t types.Type, i int) bool {
	n := named(t)
	if n == nil {
		return false
	}
	st := structOf(n)
	return st != nil && i < st.NumFields() && yamlTag(st, i) == "path"
}

// changesText: the functions of the library which return another text than a
// part of the one they are given.
func changesText(n string) bool {
	switch {
	case strings.HasPrefix(n, "strings.Split"), strings.HasPrefix(n, "strings.Index"), strings.HasPrefix(n, "strings.Cut"),
		n == "strings.LastIndex", n == "strings.HasPrefix", n == "strings.HasSuffix", n == "strings.Contains", n == "strings.Count",
		n == "strings.Clone", n == "strings.NewReader":
		return false
	case strings.HasPrefix(n, "strings."), strings.HasPrefix(n, "path."), strings.HasPrefix(n, "path/filepath."), strings.HasPrefix(n, "net/url."),
		strings.HasPrefix(n, "html."), strings.HasPrefix(n, "unicode"), strings.HasPrefix(n, "bytes.To"), strings.HasPrefix(n, "bytes.Trim"):
		return true
	case strings.HasPrefix(n, "(*regexp.Regexp).Replace"):
		return true
	}
	return false
}

// place: an element of a list, taken at a counter of a loop plus a constant.
type place struct {
	list ssa.Value
	l    *loop
	phi  ssa.Value
	off  int64 // relative to the first value of the counter
}

func (p *Program) placeOf(v ssa.Value) (place, bool) {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return place{}, false
	}
	ia, ok := u.X.(*ssa.IndexAddr)
	if !ok {
		return place{}, false
	}
	for _, l := range loopsOf(ia.Parent()) {
		if !l.body[ia.Block()] {
			continue
		}
		var off int64
		idx := stripConv(ia.Index)
		for i := 0; i < 4; i++ {
			if first, step, next, ok := l.counter(idx); ok {
				f, k := constInt(first)
				if !k || step != 1 {
					return place{}, false
				}
				if next {
					f++
				}
				ph := idx
				if b, is := idx.(*ssa.BinOp); is {
					ph = stripConv(b.X)
				}
				return place{ia.X, l, ph, f + off}, true
			}
			b, is := idx.(*ssa.BinOp)
			if !is {
				break
			}
			n, k := constInt(b.Y)
			if !k {
				break
			}
			switch b.Op {
			case token.ADD:
				off += n
			case token.SUB:
				off -= n
			default:
				return place{}, false
			}
			idx = stripConv(b.X)
		}
	}
	return place{}, false
}

// pairedParser: the pattern added on each round is the one of the parser of
// the parameter at that place.
func pairedParser(p *Program, r *Report, rt *routing, name string, c *ssa.Call, quotes map[*ssa.Call]bool) {
	var named ssa.Value
	n := 0
	if !p.comesFrom(c.Call.Value, func(v ssa.Value) bool {
		x, ok := v.(*ssa.Extract)
		if !ok || x.Index != 0 {
			return false
		}
		g, ok := x.Tuple.(*ssa.Call)
		if !ok || !g.Call.IsInvoke() || g.Call.Method.Name() != "GetParameterParser" {
			return false
		}
		named = g.Call.Args[0]
		n++
		return true
	}) || n != 1 {
		r.violation("own-parser", name, c.Pos(), "the pattern is not the one of the parser of a parameter of the output", nil)
		return
	}
	for i := 0; i < 4; i++ {
		// the name may be handed to a helper
		q, ok := named.(*ssa.Parameter)
		if !ok {
			break
		}
		sites := p.callSites(q.Parent())
		if len(sites) != 1 {
			break
		}
		for j, x := range q.Parent().Params {
			if x == q {
				named = sites[0].Common().Args[j]
			}
		}
	}
	pl, ok := p.placeOf(named)
	if ok && pl.list.Type().Underlying().String() == "[]string" {
		if k, isC := constInt(lastIndex(named)); isC && k == 1 {
			ok = false
		}
	}
	if !ok {
		// the name is taken from what was found in the path: x[i][1]
		if u, is := named.(*ssa.UnOp); is {
			if ia, is := u.X.(*ssa.IndexAddr); is {
				if k, isC := constInt(ia.Index); isC && k == 1 {
					pl, ok = p.placeOf(ia.X)
				}
			}
		}
	}
	if !ok {
		r.violation("own-parser", name, c.Pos(), "the name of the parameter whose parser is used is not taken one after the other: "+describe(p, named), nil)
		return
	}
	if pl.off != 0 {
		r.violation("own-parser", name, c.Pos(), sprintf("the first group uses the parameter number %d instead of the first one", pl.off+1), nil)
		return
	}
	r.ok("own-parser", name, c.Pos(), "the groups take the parsers of the parameters in their order")
	// the end of the loop, and the text which follows
	for _, e := range pl.l.exits() {
		if a, op, b, good := e.staying(); good && (op == token.LSS || op == token.NEQ) {
			lst := lenOf(b)
			if lst == nil {
				continue
			}
			first, step, next, ok := pl.l.counter(a)
			f, k := constInt(first)
			if !ok || !k || step != 1 {
				continue
			}
			if next {
				f++
			}
			want := int64(0)
			if isSplitParts(p, lst) {
				want = 1
			}
			if f != want {
				r.violation("own-parser", name, e.in.Pos(), "the rounds do not go over each parameter of the path", nil)
			}
		}
	}
	for q := range quotes {
		qp, ok := p.placeOf(q.Call.Args[0])
		if ok && qp.l.header == pl.l.header && isSplitParts(p, qp.list) {
			if qp.off != 1 {
				r.violation("own-parser", name, q.Pos(), sprintf("the first group is followed by the text number %d instead of the second one", qp.off+1), nil)
			}
		} else if u, is := q.Call.Args[0].(*ssa.UnOp); is {
			if ia, is := u.X.(*ssa.IndexAddr); is && isSplitParts(p, ia.X) {
				if k, isC := constInt(ia.Index); !isC || k != 0 {
					r.violation("own-parser", name, q.Pos(), "the text before the first group is not the first one", nil)
				}
			}
		}
	}
}

func lastIndex(v ssa.Value) ssa.Value {
	if u, ok := v.(*ssa.UnOp); ok {
		if ia, ok := u.X.(*ssa.IndexAddr); ok {
			return ia.Index
		}
	}
	return v
}

// isSplitParts: the texts around the parameters.
func isSplitParts(p *Program, v ssa.Value) bool {
	return p.comesFrom(v, func(x ssa.Value) bool {
		c, ok := x.(*ssa.Call)
		if !ok {
			return false
		}
		f := c.Call.StaticCallee()
		return f != nil && fnName(f) == "(*regexp.Regexp).Split"
	})
}

// routeStart follows the constructor: the refusals, and the list of the names.
func routeStart(p *Program, r *Report, rt *routing) {
	for _, fn := range constructorsOf(p, rt.service) {
		name := fnName(fn)
		w := newWalker(p, r, Hooks{})
		found := func(c *Term) bool {
			c = bare(c)
			return c != nil && c.op == "pure" && (c.aux == "(*regexp.Regexp).FindAllStringSubmatch")
		}
		rd := &rounds{w: w, ns: "n|", over: func(st *State, c *Term) bool { return found(c) }, facts: []string{"named"}}
		put := func(st *State, list *Term, at, v *Term, pos token.Pos) {
			rd.mark(st, "named", func(k, val *Term) bool {
				return val != nil && v == w.load(st, w.tt.mk("iaddr", "", types.NewPointer(types.Typ[types.String]), nil, val, w.tt.intc(1)), types.Typ[types.String]) && (at == nil || at == k)
			})
			if list != nil {
				st.user.terms["names"] = list
			}
		}
		w.h.Branch = func(st *State, in *ssa.If, cond *Term, taken bool) {
			rd.branch(st, in, cond, taken)
			c, v := cond, taken
			for c.op == "un" && c.aux == "!" {
				c, v = c.args[0], !v
			}
			if ci, ok := callTo(c, "Primitive"); ok && v {
				st.user.add("primitive", ci.args[0], "")
			}
		}
		w.h.Store = func(st *State, in *ssa.Store, addr, val *Term) {
			ia, ok := in.Addr.(*ssa.IndexAddr)
			if !ok || in.Val.Type().String() != "string" {
				return
			}
			if _, lit := ia.X.(*ssa.Alloc); lit {
				return
			}
			if addr.op == "iaddr" {
				put(st, addr.args[0], addr.args[1], val, in.Pos())
			}
		}
		w.h.After = func(ci *CallInfo) {
			st := ci.st
			if ci.name == "builtin append" && len(ci.vargs) == 2 {
				put(st, nil, nil, ci.vargs[1], ci.pos)
			}
			if strings.HasPrefix(ci.name, "sort.") || strings.HasPrefix(ci.name, "slices.") {
				for _, a := range ci.vargs {
					if l := st.user.terms["names"]; l != nil && a != nil && a.contains(l) {
						r.violation("names", name, ci.pos, "the names of the parameters are given to "+ci.name+": they are not in the order of the path any more", st)
					}
				}
			}
			if methodName(ci) != "GetRegexpPattern" || ci.method == nil {
				return
			}
			ps := ci.args[0]
			if _, ok := st.user.has("primitive", ps); ok {
				r.ok("primitive", name, ci.pos, "the parser is known to be a primitive")
			} else {
				r.violation("primitive", name, ci.pos, "the pattern of a parser is used although it is not known to be a primitive", st)
			}
			if ps.op == "ext" && ps.args[0].call != nil && methodName(ps.args[0].call) == "GetParameterParser" {
				if n, k := w.isNil(st, w.res(ps.args[0].call, 1)); k && n {
					r.ok("unknown-refused", name, ci.pos, "the parameter is known to the output")
				} else {
					r.violation("unknown-refused", name, ci.pos, "the parser of the parameter is used although the output may not know it", st)
				}
			}
		}
		w.h.Exit = func(st *State, f *ssa.Function, ret []*Term) bool {
			if ei := errorResult(f.Signature); ei >= 0 {
				if n, k := w.isNil(st, ret[ei]); !k || !n {
					return false
				}
			}
			n := 0
			for range rd.sites(st) {
				n++
			}
			if n > 0 {
				if rd.covered(st, "named") {
					r.ok("names", name, f.Pos(), "one name for each parameter found in the path, at its place")
				} else {
					r.violation("names", name, f.Pos(), "the list of the names does not hold, on this path, the name of each parameter at its place in the path", st)
				}
			}
			return false
		}
		w.start(fn, nil)
		r.walked(w)
	}
}

// handlerParams follows what the outputs are given.
func handlerParams(p *Program, r *Report, rt *routing, fn *ssa.Function) {
	name := fnName(fn)
	q := requested{}
	w := newWalker(p, r, Hooks{})
	isQuery := func(t *Term) bool {
		t = bare(t)
		return t != nil && t.call != nil && t.call.name == "(*net/url.URL).Query" && q.url(t.call.args[0])
	}
	names := &rounds{w: w, ns: "p|", over: func(st *State, c *Term) bool { return fieldIn(c, rt.names) != nil && c.typ.String() == "[]string" }, facts: []string{"given"}}
	query := &rounds{w: w, ns: "q|", over: func(st *State, c *Term) bool { return isQuery(c) }, facts: []string{"given", "absent"}}
	w.h.Branch = func(st *State, in *ssa.If, cond *Term, taken bool) {
		names.branch(st, in, cond, taken)
		query.branch(st, in, cond, taken)
		c, v := cond, taken
		for c.op == "un" && c.aux == "!" {
			c, v = c.args[0], !v
		}
		var k *Term
		switch {
		case c.op == "lkok":
			k = c.args[1]
		case c.op == "ext" && c.aux == "1" && len(c.args[0].args) == 2 && strings.HasPrefix(c.args[0].aux, "lookup:"):
			k = c.args[0].args[1]
		}
		if k != nil {
			fact := "absent"
			if v {
				fact = "given"
			}
			query.mark(st, fact, func(key, val *Term) bool { return key == k })
		}
	}
	w.h.MapSet = func(st *State, in *ssa.MapUpdate, m, k, v *Term) {
		if in.Map.Type().Underlying().String() != "map[string]string" {
			return
		}
		if names.mark(st, "given", func(key, val *Term) bool {
			if val != k {
				return false
			}
			return isSubmatch(w, rt, q, v, key, k)
		}) {
			st.user.add("path", m, "")
			return
		}
		fromNames := false
		for _, s := range names.sites(st) {
			if st.user.flags["in:"+s] == 1 && st.user.terms["val:"+s] == k {
				fromNames = true
			}
		}
		if fromNames {
			st.user.add("wrong", m, "a parameter of the path is given another text than the one found at its place: "+v.String())
			return
		}
		first := func(key, val *Term) bool {
			if key != k {
				return false
			}
			if v.call != nil && v.call.name == "(net/url.Values).Get" && isQuery(v.call.args[0]) && v.call.args[1] == k {
				return true
			}
			return val != nil && v == w.load(st, w.tt.mk("iaddr", "", types.NewPointer(types.Typ[types.String]), nil, val, w.tt.intc(0)), types.Typ[types.String])
		}
		if query.mark(st, "given", first) {
			if _, ok := st.user.has("path", m); ok && !query.current(st, "absent") {
				st.user.add("wrong", m, "a parameter of the query replaces the one of the path which has the same name")
			}
			return
		}
		st.user.add("wrong", m, "a parameter is neither the text of a parameter of the path nor the first value of one of the query: "+k.String()+" = "+v.String())
	}
	w.h.After = func(ci *CallInfo) {
		st := ci.st
		if ci.method == nil || ci.method.Name() != "Handle" || recvType(ci) == nil || typeName(recvType(ci)) != "output.Output" {
			return
		}
		m := ci.args[1]
		if what, ok := st.user.has("wrong", m); ok {
			r.violation("path-parameter", name, ci.pos, what, st)
		}
		if st.user.flags["__stop"] == 0 {
			if names.covered(st, "given") {
				r.ok("path-parameter", name, ci.pos, "each parameter of the path is given with its text")
			} else {
				r.violation("path-parameter", name, ci.pos, "the output is not given each parameter of the path on this path", st)
			}
			if query.covered(st, "given") {
				r.ok("query-parameter", name, ci.pos, "each parameter of the query is given with its first value")
			} else {
				r.violation("query-parameter", name, ci.pos, "the output is not given each parameter of the query on this path", st)
			}
		}
	}
	stopAtDelegation(w)
	w.start(fn, func(st *State, args []*Term) { q.req = requestOf(fn, args) })
	r.walked(w)
}

// isSubmatch: v is the text of the group number key+1 in the path of the request.
func isSubmatch(w *Walker, rt *routing, q requested, v, key, k *Term) bool {
	v = bare(v)
	if v.op != "ld" || v.args[0].op != "iaddr" {
		return false
	}
	list, idx := bare(v.args[0].args[0]), v.args[0].args[1]
	want := w.tt.bin(token.ADD, key, w.tt.intc(1), types.Typ[types.Int])
	if list.op == "slice" {
		lo := int64(0)
		if list.args[1] != nil {
			n, ok := list.args[1].intVal()
			if !ok {
				return false
			}
			lo = n
		}
		if lo == 1 {
			want = key
		} else if lo != 0 {
			return false
		}
		list = bare(list.args[0])
	}
	if list.op != "pure" || list.aux != "(*regexp.Regexp).FindStringSubmatch" || !q.path(list.args[1]) {
		return false
	}
	e := fieldIn(list.args[0], rt.expr)
	names := fieldIn(k.args[0].args[0], rt.names)
	return idx == want && e != nil && e == names
}

// parserPatterns: what the parsers put in the expression of a path.
func parserPatterns(p *Program, r *Report) {
	for _, t := range p.implementers("pkg/parser.Parser") {
		fn := p.method(t, "GetRegexpPattern")
		name := typeName(t)
		if fn == nil || len(fn.Blocks) == 0 {
			r.undecided("no-other-group", name, 0, "its pattern was not found")
			continue
		}
		r.funcs[fnName(fn)] = true
		p.eachString(fn, func(v ssa.Value, pos token.Pos) {
			switch x := v.(type) {
			case *ssa.Const:
				if x.Value == nil || x.Value.Kind() != constant.String {
					return
				}
				if s := constant.StringVal(x.Value); hasGroup(s) {
					r.violation("no-other-group", name, pos, sprintf("the pattern holds the group of %q: the groups of the parameters which follow are shifted", s), nil)
				}
			default:
				r.violation("no-other-group", name, pos, "the pattern holds a text of the configuration which is not quoted: "+describe(p, v), nil)
			}
		})
		r.ok("no-other-group", name, fn.Pos(), "its pattern holds no capturing group")
	}
}

// eachString visits the texts which the string returned by fn is made of.
func (p *Program) eachString(fn *ssa.Function, leaf func(v ssa.Value, pos token.Pos)) {
	isText := func(t types.Type) bool {
		if t == nil {
			return false
		}
		u := t.Underlying().String()
		return u == "string" || u == "[]string" || u == "[]byte"
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			ret, ok := in.(*ssa.Return)
			if !ok || len(ret.Results) == 0 {
				continue
			}
			p.dataSources(ret.Results[0], func(v ssa.Value) (bool, []ssa.Value) {
				switch x := v.(type) {
				case *ssa.Const:
					if isText(x.Type()) {
						leaf(x, fn.Pos())
					}
					return false, nil
				case *ssa.Call:
					if f := x.Call.StaticCallee(); f != nil && fnName(f) == "regexp.QuoteMeta" {
						return false, nil
					}
					if x.Call.IsInvoke() && x.Call.Method.Name() == "GetRegexpPattern" {
						return false, nil
					}
				case *ssa.FieldAddr:
					if isText(pointee(x.Type())) {
						leaf(x, x.Pos())
					}
					return false, nil
				case *ssa.Field:
					if isText(x.Type()) {
						leaf(x, x.Pos())
					}
					return false, nil
				}
				return true, nil
			})
		}
	}
}

// hasGroup: the text opens a capturing group.
func hasGroup(s string) bool {
	class := false
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '\\':
			i++
		case '[':
			class = true
		case ']':
			class = false
		case '(':
			if !class && !(strings.HasPrefix(s[i:], "(?") && !strings.HasPrefix(s[i:], "(?P<") && !strings.HasPrefix(s[i:], "(?<")) {
				return true
			}
		}
	}
	return false
}

// parameterParsers: an output knows the parser of its own parameters only.
func parameterParsers(p *Program, r *Report) {
	for _, t := range p.implementers("pkg/output.Output") {
		fn := p.method(t, "GetParameterParser")
		if fn == nil || len(fn.Blocks) == 0 {
			r.undecided("unknown-refused", typeName(t), 0, "its GetParameterParser method was not found")
			continue
		}
		name := fnName(fn)
		w := newWalker(p, r, Hooks{})
		var asked *Term
		w.h.Branch = func(st *State, in *ssa.If, cond *Term, taken bool) {
			c, v := cond, taken
			for c.op == "un" && c.aux == "!" {
				c, v = c.args[0], !v
			}
			if c.op == "lkok" && v {
				st.user.add("found", w.tt.mk("pair", "", nil, nil, c.args[0], c.args[1]), "")
			}
			if x, isNil := nilFact(cond, taken); x != nil && !isNil && x.op == "lk" {
				st.user.add("found", w.tt.mk("pair", "", nil, nil, x.args[0], x.args[1]), "")
			}
		}
		w.h.Exit = func(st *State, f *ssa.Function, ret []*Term) bool {
			if len(ret) < 2 {
				return false
			}
			if n, k := w.isNil(st, ret[1]); k && !n {
				return false
			}
			bad := ""
			lookups := 0
			ret[0].any(func(x *Term) bool {
				if x.op == "lk" {
					lookups++
					if _, ok := st.user.has("found", w.tt.mk("pair", "", nil, nil, x.args[0], x.args[1])); !ok {
						bad = "it was not checked that there is a " + x.String()
					}
				}
				return false
			})
			_, k, ok := entryOf(ret[0])
			if ok && k != asked {
				// the name of the parser, in the configuration of the parameter
				ok = false
				if e := fieldIn(k, "Parser"); e != nil {
					if _, pk, is := entryOf(e); is && pk == asked {
						ok = true
					}
				}
			}
			if lookups == 0 || !ok {
				bad = "the parser does not depend on the name of the parameter: " + ret[0].String()
			}
			if bad != "" {
				r.violation("unknown-refused", name, f.Pos(), bad, st)
			} else {
				r.ok("unknown-refused", name, f.Pos(), "a parser is returned for the known parameters only")
			}
			return false
		}
		w.start(fn, func(st *State, args []*Term) { asked = args[len(args)-1] })
		r.walked(w)
	}
}
