package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C13", checkParsers) }

// C13: a parser makes its value of the whole of its text, following its own
// settings.
func checkParsers(p *Program, r *Report) {
	r.explanation = "Each parser is followed on all of its paths from the text which it is given to the value which it gives. What is done with the text on the way is traced back from the conversion (through helpers and loops), and has to be what the settings of this parser say, and nothing else."
	r.rule("cleaned", 0, "a number is read from the text without each of the ignored characters, and without any other change but the decimal separator")
	r.rule("separator", 0, "the decimal separator is taken as the decimal point, after the ignored characters are removed")
	r.rule("number", 2, "the whole number is read in base 10, on 64 bits")
	r.rule("membership", 0, "a boolean is decided by the equality of the whole text with one of the values configured for it")
	r.rule("refused", 0, "a text is refused only when it is none of the configured values")
	r.rule("charset", 1, "the text is decoded from the configured character set, whole, or else kept as it is")
	r.rule("parts", 1, "a split gives all the parts of the whole text between its delimiters")
	r.rule("part-value", 1, "each part is converted by the configured parser, and kept at its own place")
	r.rule("delimiter", 0, "the regular expression which splits is the configured one")
	r.rule("document", 1, "a json text is decoded whole")
	c := &parsers{p: p, r: r}
	n := 0
	for _, t := range p.implementers("pkg/parser.Parser") {
		nt := named(t)
		if nt == nil || p.isMock(nt) {
			continue
		}
		fn := p.method(t, "Parse")
		if fn == nil || len(fn.Params) != 2 {
			continue
		}
		n++
		keys := c.keysOf(nt)
		switch {
		case keys["trueValues"]:
			c.boolean(fn)
		case keys["decimalSeparator"]:
			c.number(fn, true)
		case keys["ignoreCharacters"]:
			c.number(fn, false)
		case keys["convertFromCharset"]:
			c.text(fn)
		case keys["delimiter"]:
			c.split(fn)
		default:
			c.document(fn)
		}
	}
	if n < 6 {
		r.undecided("number", "pkg/parser", token.NoPos, sprintf("only %d parsers were found", n))
	}
	c.constructors()
	r.outside = append(c.open, "the results of strconv, regexp, encoding/json and of the tables of the character sets")
}

type parsers struct {
	p    *Program
	r    *Report
	open []string
}

// keysOf: the settings of the configuration of a parser.
func (c *parsers) keysOf(n *types.Named) map[string]bool {
	out := map[string]bool{}
	st := structOf(n)
	if st == nil {
		return out
	}
	for i := 0; i < st.NumFields(); i++ {
		m := named(deref(st.Field(i).Type()))
		if m == nil || m.Obj().Pkg() != n.Obj().Pkg() {
			continue
		}
		if s := structOf(m); s != nil {
			for j := 0; j < s.NumFields(); j++ {
				if yamlTag(s, j) != "" {
					out[yamlTag(s, j)] = true
				}
			}
		}
	}
	return out
}

// settingIs: t is the value of the setting, wherever it was kept.
func settingIs(t *Term, key string) bool {
	for t != nil {
		if keyed(t, key) != nil {
			return true
		}
		switch t.op {
		case "conv", "iface", "ta":
			t = t.args[0]
		case "ld":
			t = t.args[0]
		default:
			return false
		}
	}
	return false
}

func mentionsSetting(t *Term, key string) bool {
	return t.any(func(y *Term) bool { return keyed(y, key) != nil })
}

func (c *parsers) isOpen(what, fn string) {
	s := what + " of " + fn + ": written in a way which is not recognised"
	for _, o := range c.open {
		if o == s {
			return
		}
	}
	c.open = append(c.open, s)
}

// succeeded: the error which a function returns is nil on this path, or may be.
func (c *parsers) mayFail(w *Walker, st *State, ret []*Term) (failed, known bool) {
	e := ret[len(ret)-1]
	isnil, k := w.isNil(st, e)
	return !isnil, k
}

// tampers: a function which changes a text in a way that no setting asks for.
func tampers(name string, args []*Term) bool {
	switch name {
	case "strings.Replace", "bytes.Replace":
		if len(args) == 4 {
			if n, ok := args[3].intVal(); ok && n < 0 {
				return false
			}
		}
		return true
	case "strings.SplitN", "strings.Fields", "strings.FieldsFunc", "strings.SplitAfter", "strings.SplitAfterN", "strings.Title", "strings.ToValidUTF8",
		"strings.EqualFold", "strings.HasPrefix", "strings.HasSuffix", "strings.Contains", "strings.Cut", "strings.CutPrefix", "strings.CutSuffix", "io.LimitReader", "io.ReadFull", "io.CopyN",
		"strings.ToLower", "strings.ToUpper", "strings.ToTitle", "bytes.ToLower", "bytes.ToUpper", "bytes.Fields":
		return true
	}
	return strings.HasPrefix(name, "strings.Trim") || strings.HasPrefix(name, "bytes.Trim")
}

func callOf(t *Term) (name string, args []*Term) {
	if t == nil || t.op != "call" && t.op != "pure" {
		return "", nil
	}
	if t.op == "pure" {
		return t.aux, t.args
	}
	if t.call != nil {
		return t.call.name, t.args
	}
	return "", nil
}

// tampered: a change of the text on the way to t, or "".
func tampered(t, text *Term) string {
	out := ""
	t.any(func(y *Term) bool {
		if !y.contains(text) {
			return false
		}
		if n, a := callOf(y); n != "" && tampers(n, a) {
			out = n
		}
		if y.op == "slice" && y.args[0].contains(text) && y.args[0].typ != nil && (isString(y.args[0].typ) || isBytes(y.args[0].typ)) {
			out = "a part of it"
		}
		return out != ""
	})
	return out
}

// ---- booleans ----

func (c *parsers) boolean(fn *ssa.Function) {
	w := newWalker(c.p, c.r, Hooks{})
	name := fnName(fn)
	var text *Term
	lists := map[string]string{"t": "trueValues", "f": "falseValues"}
	rds := map[string]*rounds{}
	for ns, key := range lists {
		key := key
		rds[ns] = &rounds{w: w, ns: ns + ":", facts: []string{"cmp"}, over: func(st *State, coll *Term) bool { return settingIs(coll, key) }}
	}
	w.h.Branch = func(st *State, in *ssa.If, cond *Term, taken bool) {
		for _, ns := range []string{"t", "f"} {
			if s, e := rds[ns].branch(st, in, cond, taken); s || e {
				return
			}
		}
		for cond.op == "un" && cond.aux == "!" {
			cond, taken = cond.args[0], !taken
		}
		if !cond.contains(text) {
			if isHeader(in.Block()) {
				st.user.flags["odd"] = 1 // a loop over something else
			}
			return
		}
		if a, b, eq, ok := comparison(cond, taken); ok {
			if a.isConst() || b.isConst() {
				return
			}
			if bare(b) == text {
				a, b = b, a
			}
			if bare(a) == text {
				if l, i := elem(b); l != nil {
					for _, ns := range []string{"t", "f"} {
						if settingIs(l, lists[ns]) {
							rds[ns].mark(st, "cmp", func(key, val *Term) bool { return key == i || val == b })
							if eq {
								st.user.flags["is:"+ns] = 1
							}
							return
						}
					}
				} else if b.op == "lk" {
					for _, ns := range []string{"t", "f"} {
						if settingIs(b.args[0], lists[ns]) {
							rds[ns].mark(st, "cmp", func(key, val *Term) bool { return val == b })
							if eq {
								st.user.flags["is:"+ns] = 1
							}
							return
						}
					}
				}
			}
		}
		if n, a := callOf(cond); (strings.HasPrefix(n, "slices.Contains") || strings.HasPrefix(n, "slices.Index")) && len(a) == 2 && bare(a[1]) == text {
			for _, ns := range []string{"t", "f"} {
				if settingIs(a[0], lists[ns]) {
					if taken {
						st.user.flags["is:"+ns] = 1
					} else {
						st.user.flags["not:"+ns] = 1
					}
					return
				}
			}
		}
		bad := tampered(cond, text)
		if cond.op == "call" || cond.op == "pure" {
			if n, a := callOf(cond); tampers(n, a) {
				bad = n
			}
		}
		other := cond.any(func(y *Term) bool {
			return y.op == "lkok" || y.op == "lk" || y.op == "call" || y.op == "pure" || y.op == "opaque" || y.op == "phi"
		})
		if bad == "" && other {
			st.user.flags["odd"] = 1
		}
	}
	w.h.Exit = func(st *State, fn *ssa.Function, ret []*Term) bool {
		failed, known := c.mayFail(w, st, ret)
		pos := fn.Pos()
		f := st.user.flags
		if known && failed {
			switch {
			case f["is:t"] == 1 || f["is:f"] == 1:
				c.r.violation("refused", name, pos, "a text which is one of the configured values is refused", st)
			case f["odd"] == 1:
				c.isOpen("the refusal", name)
			default:
				ok := true
				for _, ns := range []string{"t", "f"} {
					if f["not:"+ns] == 0 && !rds[ns].covered(st, "cmp") {
						ok = false
					}
				}
				if ok {
					c.r.ok("refused", name, pos, "after the comparison with each of the values")
				} else {
					c.r.violation("refused", name, pos, "a text is refused before it was compared with each of the configured values", st)
				}
			}
			return false
		}
		v := ret[0].strip()
		b, isC := v.boolVal()
		if !isC {
			c.isOpen("the value", name)
			return false
		}
		ns := "f"
		if b {
			ns = "t"
		}
		switch {
		case f["is:"+ns] == 1:
			c.r.ok("membership", name+sprintf(": %v", b), pos, "the text is one of "+lists[ns])
		case f["odd"] == 1:
			c.isOpen("the value", name)
		default:
			c.r.violation("membership", name+sprintf(": %v", b), pos, sprintf("the value is %v although the text was not found equal to one of %s", b, lists[ns]), st)
		}
		return false
	}
	w.start(fn, func(st *State, args []*Term) { text = args[1] })
	c.r.walked(w)
}

// ---- numbers ----

var conversions = map[string]bool{"strconv.Atoi": true, "strconv.ParseInt": true, "strconv.ParseFloat": true, "strconv.ParseUint": true, "fmt.Sscan": true, "fmt.Sscanf": true, "fmt.Sscanln": true, "fmt.Sscanf ": true}

func (c *parsers) number(fn *ssa.Function, float bool) {
	w := newWalker(c.p, c.r, Hooks{})
	name := fnName(fn)
	var text *Term
	rd := &rounds{w: w, facts: []string{"removed"}, over: func(st *State, coll *Term) bool {
		return coll.any(func(y *Term) bool { return settingIs(y, "ignoreCharacters") })
	}}
	known := func(st *State, key string, want func(f *Term, v bool) bool) bool {
		for f, v := range st.facts {
			if mentionsSetting(f, key) && want(f, v) {
				return true
			}
		}
		for f, v := range st.user.sets["tests"] {
			if mentionsSetting(f, key) && want(f, v == "true") {
				return true
			}
		}
		return false
	}
	w.h.Branch = func(st *State, in *ssa.If, cond *Term, taken bool) {
		rd.branch(st, in, cond, taken)
		if mentionsSetting(cond, "ignoreCharacters") || mentionsSetting(cond, "decimalSeparator") {
			st.user.add("tests", cond, sprintf("%v", taken))
		}
	}
	converted := 0
	w.h.After = func(ci *CallInfo) {
		st := ci.st
		if (ci.name == "strings.ReplaceAll" || ci.name == "strings.Replace") && len(ci.args) >= 3 {
			to, isC := ci.args[2].strVal()
			if isC && to == "" {
				rd.mark(st, "removed", func(key, val *Term) bool {
					return ci.args[1].any(func(y *Term) bool { return y == key || y == val || key.op == "ext" && y == key.args[0] })
				})
			}
			if isC && to == "." && settingIs(ci.args[1], "decimalSeparator") {
				st.user.flags["point"] = 1
			}
		}
		if !conversions[ci.name] || len(ci.args) == 0 {
			return
		}
		converted++
		from := ci.args[0]
		if strings.HasPrefix(ci.name, "fmt.Sscan") {
			c.r.violation("number", name, ci.pos, ci.name+" reads the beginning of the text only", st)
			return
		}
		bad := ""
		switch {
		case float && ci.name != "strconv.ParseFloat":
			bad = "the float is read by " + ci.name
		case !float && ci.name != "strconv.Atoi" && ci.name != "strconv.ParseInt":
			bad = "the integer is read by " + ci.name
		case ci.name == "strconv.ParseFloat":
			if n, ok := ci.args[1].intVal(); ok && n != 64 {
				bad = sprintf("the float is read on %d bits", n)
			}
		case ci.name == "strconv.ParseInt":
			if n, ok := ci.args[1].intVal(); ok && n != 10 {
				bad = sprintf("the integer is read in base %d", n)
			}
			if n, ok := ci.args[2].intVal(); ok && n != 64 && n != 0 {
				bad = sprintf("the integer is read on %d bits", n)
			}
		}
		if bad != "" {
			c.r.violation("number", name, ci.pos, bad, st)
		} else {
			c.r.ok("number", name, ci.pos, "read by "+ci.name)
		}
		s := &textSlice{c: c, float: float, fn: fn}
		s.from(ci.common.Args[0], ci.instr.Parent(), nil)
		if s.bad != "" {
			c.r.violation("cleaned", name, s.pos, s.bad, st)
			return
		}
		if s.late {
			c.r.violation("separator", name, s.pos, "the ignored characters are removed after the decimal point was set, so that it is removed too when it is one of them", st)
		}
		empty := func(f *Term, v bool) bool {
			if a, b, eq, ok := comparison(f, v); ok && eq {
				for _, x := range []*Term{a, b} {
					if z, k := x.strVal(); k && z == "" {
						return true
					}
					if z, k := x.intVal(); k && z == 0 {
						return true
					}
				}
			}
			if coll, holds := lengthTest(f, v); coll != nil && settingIs(coll, "ignoreCharacters") && noneFrom(holds, 1) {
				return true
			}
			if n, a := callOf(f); !v && strings.HasPrefix(n, "strings.Contains") && a[0].contains(text) {
				return true
			}
			return false
		}
		switch {
		case rd.covered(st, "removed") && (s.removed || s.unknown):
			c.r.ok("cleaned", name, ci.pos, "each of the ignored characters is removed")
		case known(st, "ignoreCharacters", empty):
			c.r.ok("cleaned", name, ci.pos, "no ignored character")
		case len(rd.sites(st)) > 0 && s.removed && !s.unknown:
			c.r.violation("cleaned", name, ci.pos, "the number is read although one of the ignored characters may not have been removed", st)
		case !s.unknown && !s.removed:
			c.r.violation("cleaned", name, ci.pos, "the number is read from "+from.String()+", of which the ignored characters were not removed", st)
		case bare(from) == text:
			c.r.violation("cleaned", name, ci.pos, "the number is read from the text as it is, although it may hold ignored characters", st)
		default:
			c.isOpen("the removal of the ignored characters", name)
		}
		if !float {
			return
		}
		isPoint := func(f *Term, v bool) bool {
			if a, b, eq, ok := comparison(f, v); ok && eq {
				for _, x := range []*Term{a, b} {
					if z, k := x.strVal(); k && z == "." {
						return true
					}
					if z, k := x.intVal(); k && z == '.' {
						return true
					}
				}
			}
			if n, a := callOf(f); !v && strings.HasPrefix(n, "strings.Contains") && len(a) == 2 && settingIs(a[1], "decimalSeparator") {
				return true
			}
			return false
		}
		switch {
		case st.user.flags["point"] == 1 && s.point:
			c.r.ok("separator", name, ci.pos, "replaced by a point")
		case known(st, "decimalSeparator", isPoint):
			c.r.ok("separator", name, ci.pos, "it is a point, or is not in the text")
		case s.unknown:
			c.isOpen("the decimal separator", name)
		default:
			c.r.violation("separator", name, ci.pos, "the number is read although the decimal separator may not have been replaced by a point", st)
		}
	}
	w.h.Exit = func(st *State, fn *ssa.Function, ret []*Term) bool {
		failed, known := c.mayFail(w, st, ret)
		if known && failed {
			return false
		}
		v := ret[0]
		ok, lost := false, ""
		v.any(func(y *Term) bool {
			if n, _ := callOf(y); conversions[n] {
				ok = true
				return true
			}
			if y.op == "conv" || y.op == "iface" {
				if b, k := y.args[0].typ.(*types.Basic); k && !float && b.Info()&types.IsFloat != 0 {
					lost = "float64"
				}
				if y.op == "conv" && y.typ != nil {
					if b, k := y.typ.Underlying().(*types.Basic); k {
						switch b.Kind() {
						case types.Int8, types.Int16, types.Int32, types.Uint8, types.Uint16, types.Uint32, types.Float32, types.Uint64, types.Uint:
							lost = b.Name()
						case types.Float64:
							if !float {
								lost = b.Name()
							}
						case types.Int, types.Int64:
							if float {
								lost = b.Name()
							}
						}
					}
				}
			}
			if y.op == "bin" {
				lost = "an operation"
			}
			return false
		})
		switch {
		case lost != "":
			c.r.violation("number", name+": the value", fn.Pos(), "the number goes through "+lost+", which changes it", st)
		case ok:
			c.r.ok("number", name+": the value", fn.Pos(), "the number which was read")
		default:
			c.r.violation("number", name+": the value", fn.Pos(), "the value "+v.String()+" is not the number which was read from the text", st)
		}
		return false
	}
	w.start(fn, func(st *State, args []*Term) { text = args[1] })
	c.r.walked(w)
	if converted == 0 {
		c.r.undecided("number", name, fn.Pos(), "nothing converts the text into a number")
	}
}

// textSlice goes back from the text which is converted to the one which was given.
type textSlice struct {
	c       *parsers
	fn      *ssa.Function
	float   bool
	seen    map[string]bool
	removed bool // ignored characters are removed on the way
	point   bool // the separator is replaced
	late    bool // characters are removed once the point is there
	unknown bool
	bad     string
	pos     token.Pos
}

type textCtx struct {
	up   *textCtx
	call *ssa.Call
	fn   *ssa.Function
}

func (s *textSlice) fail(pos token.Pos, msg string) {
	if s.bad == "" {
		s.bad, s.pos = msg, pos
	}
}

func (s *textSlice) from(v ssa.Value, fn *ssa.Function, ctx *textCtx) { s.walk(v, ctx, false, 0) }

func (s *textSlice) walk(v ssa.Value, ctx *textCtx, down bool, depth int) {
	if s.seen == nil {
		s.seen = map[string]bool{}
	}
	k := sprintf("%p %p %v", v, ctx, down)
	if s.seen[k] || depth > 60 {
		return
	}
	s.seen[k] = true
	switch x := v.(type) {
	case *ssa.Phi:
		for _, e := range x.Edges {
			s.walk(e, ctx, down, depth+1)
		}
	case *ssa.Parameter:
		if ctx != nil && ctx.call != nil {
			for i, pr := range x.Parent().Params {
				if pr == x && i < len(ctx.call.Call.Args) {
					s.walk(ctx.call.Call.Args[i], ctx.up, down, depth+1)
					return
				}
			}
			s.unknown = true
			return
		}
		if x.Parent() == s.fn {
			return // the text itself
		}
		// a helper which was entered from elsewhere: whatever its callers give
		for _, cl := range s.c.p.callers(x.Parent()) {
			for _, b := range cl.Blocks {
				for _, in := range b.Instrs {
					call, ok := in.(*ssa.Call)
					if !ok || call.Call.StaticCallee() != x.Parent() {
						continue
					}
					for i, pr := range x.Parent().Params {
						if pr == x && i < len(call.Call.Args) && (cl == s.fn || sameReceiver(cl, s.fn)) {
							s.walk(call.Call.Args[i], nil, down, depth+1)
						}
					}
				}
			}
		}
	case *ssa.ChangeType:
		s.walk(x.X, ctx, down, depth+1)
	case *ssa.Convert:
		s.walk(x.X, ctx, down, depth+1)
	case *ssa.Extract:
		s.walk(x.Tuple, ctx, down, depth+1)
	case *ssa.Slice:
		if isString(x.X.Type()) {
			s.fail(x.Pos(), "only a part of the text is read")
			return
		}
		s.unknown = true
	case *ssa.Const:
	case *ssa.Call:
		s.call(x, ctx, down, depth)
	case *ssa.UnOp:
		if al, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL {
			for _, ref := range *al.Referrers() {
				if st, ok := ref.(*ssa.Store); ok && st.Addr == al {
					s.walk(st.Val, ctx, down, depth+1)
				}
			}
			return
		}
		s.unknown = true
	default:
		s.unknown = true
	}
}

func sameReceiver(a, b *ssa.Function) bool {
	for a.Parent() != nil {
		a = a.Parent()
	}
	if a.Signature.Recv() == nil || b.Signature.Recv() == nil {
		return false
	}
	return types.Identical(a.Signature.Recv().Type(), b.Signature.Recv().Type())
}

func (s *textSlice) call(x *ssa.Call, ctx *textCtx, down bool, depth int) {
	callee := x.Call.StaticCallee()
	if callee == nil {
		s.unknown = true
		return
	}
	n := fnName(callee)
	if len(callee.Blocks) > 0 && s.c.p.inRepo(callee) {
		nc := &textCtx{up: ctx, call: x, fn: callee}
		for _, b := range callee.Blocks {
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(ret.Results) > 0 {
				s.walk(ret.Results[0], nc, down, depth+1)
			}
		}
		return
	}
	a := x.Call.Args
	switch n {
	case "strings.ReplaceAll", "strings.Replace":
		if n == "strings.Replace" {
			if k, ok := a[3].(*ssa.Const); !ok || k.Int64() >= 0 {
				s.fail(x.Pos(), "only the first characters found in the text are replaced")
				return
			}
		}
		to, toC := a[2].(*ssa.Const)
		empty := toC && to.Value != nil && constant.StringVal(to.Value) == ""
		from := s.origin(a[1], ctx, 0)
		switch {
		case empty && from.key == "ignoreCharacters" && from.part == "byte":
			s.fail(x.Pos(), "the bytes of the ignored characters are taken as characters")
			return
		case empty && from.key == "ignoreCharacters" && from.part == "":
			s.fail(x.Pos(), "the ignored characters are removed only where they are all together")
			return
		case empty && from.key == "ignoreCharacters":
			s.removed = true
			if down {
				// fine: nothing was replaced downstream
			}
			s.walk(a[0], ctx, true, depth+1)
			return
		case toC && !empty && from.key == "decimalSeparator" && constant.StringVal(to.Value) == ".":
			s.point = true
			if down {
				s.late = true
				if s.pos == token.NoPos {
					s.pos = x.Pos()
				}
			}
			s.walk(a[0], ctx, down, depth+1)
			return
		case toC && from.konst != "" && from.konst == constant.StringVal(to.Value):
			s.walk(a[0], ctx, down, depth+1) // changes nothing
			return
		case from.key == "" && from.unknown:
			s.unknown = true
			s.walk(a[0], ctx, down, depth+1)
			return
		}
		s.fail(x.Pos(), "something which is not one of the ignored characters, nor the decimal separator, is replaced in the text")
	case "strings.Clone":
		s.walk(a[0], ctx, down, depth+1)
	default:
		if tampers(n, nil) {
			s.fail(x.Pos(), "the text is changed by "+n)
			return
		}
		s.unknown = true
	}
}

type charOrigin struct {
	key, part string
	konst     string
	unknown   bool
}

// origin: which setting a text comes from, and whether it is all of it, or a
// character or byte of it.
func (s *textSlice) origin(v ssa.Value, ctx *textCtx, depth int) charOrigin {
	if depth > 30 {
		return charOrigin{unknown: true}
	}
	next := func(v ssa.Value) charOrigin { return s.origin(v, ctx, depth+1) }
	part := func(o charOrigin, p string) charOrigin {
		if o.part == "" {
			o.part = p
		}
		return o
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.String {
			return charOrigin{konst: constant.StringVal(x.Value)}
		}
		return charOrigin{}
	case *ssa.Parameter:
		if ctx != nil && ctx.call != nil {
			for i, pr := range x.Parent().Params {
				if pr == x && i < len(ctx.call.Call.Args) {
					return s.origin(ctx.call.Call.Args[i], ctx.up, depth+1)
				}
			}
		}
		return charOrigin{unknown: true}
	case *ssa.ChangeType:
		return next(x.X)
	case *ssa.Convert:
		o := next(x.X)
		if b, ok := x.X.Type().Underlying().(*types.Basic); ok && isString(x.Type()) && (b.Kind() == types.Uint8) {
			o.part = "byte"
		}
		return o
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return charOrigin{unknown: true}
		}
		switch y := x.X.(type) {
		case *ssa.FieldAddr:
			st := structOf(pointee(y.X.Type()))
			if st != nil {
				if k := yamlKey(st, y.Field); k == "ignoreCharacters" || k == "decimalSeparator" {
					return charOrigin{key: k}
				}
				return charOrigin{unknown: true}
			}
		case *ssa.IndexAddr:
			return part(next(y.X), "char")
		}
		return charOrigin{unknown: true}
	case *ssa.Field:
		if st := structOf(x.X.Type()); st != nil {
			if k := yamlKey(st, x.Field); k == "ignoreCharacters" || k == "decimalSeparator" {
				return charOrigin{key: k}
			}
		}
		return charOrigin{unknown: true}
	case *ssa.Extract:
		return next(x.Tuple)
	case *ssa.Next:
		return part(next(x.Iter), "char")
	case *ssa.Range:
		return next(x.X)
	case *ssa.Lookup:
		return part(next(x.X), "elem")
	case *ssa.Index:
		return part(next(x.X), "elem")
	case *ssa.Slice:
		return part(next(x.X), "char")
	case *ssa.Phi:
		for _, e := range x.Edges {
			if o := next(e); o.key != "" {
				return o
			}
		}
		return charOrigin{unknown: true}
	case *ssa.Call:
		if f := x.Call.StaticCallee(); f != nil {
			switch fnName(f) {
			case "strings.Split", "strings.SplitN":
				return part(next(x.Call.Args[0]), "char")
			}
		}
		return charOrigin{unknown: true}
	}
	return charOrigin{unknown: true}
}

// ---- texts ----

func (c *parsers) text(fn *ssa.Function) {
	w := newWalker(c.p, c.r, Hooks{})
	name := fnName(fn)
	var text *Term
	w.h.Branch = func(st *State, in *ssa.If, cond *Term, taken bool) {
		st.user.add("tests", cond, sprintf("%v", taken))
	}
	w.h.Exit = func(st *State, fn *ssa.Function, ret []*Term) bool {
		failed, known := c.mayFail(w, st, ret)
		if known && failed {
			return false
		}
		v := ret[0].strip()
		// what is known of the setting: none, some, or nothing
		none, some := false, false
		look := func(f *Term, val bool) {
			for f.op == "un" && f.aux == "!" {
				f, val = f.args[0], !val
			}
			if coll, what := emptiness(f, val); coll != nil && settingIs(coll, "convertFromCharset") {
				if what > 0 {
					some = true
				} else if what < 0 {
					none = true
				}
				return
			}
			a, b, eq, ok := comparison(f, val)
			if !ok {
				return
			}
			for _, pair := range [][2]*Term{{a, b}, {b, a}} {
				z, k := pair[1].strVal()
				empty := k && z == "" || isNilTerm(pair[1])
				isSet := settingIs(pair[0], "convertFromCharset") || isEncoding(pair[0])
				if empty && isSet {
					if eq {
						none = true
					} else {
						some = true
					}
				}
			}
		}
		for f, val := range st.user.sets["tests"] {
			look(f, val == "true")
		}
		for f, val := range st.facts {
			look(f, val)
		}
		pos := fn.Pos()
		if v == text {
			if none {
				c.r.ok("charset", name+": without a charset", pos, "the text itself")
			} else {
				c.r.violation("charset", name+": without a charset", pos, "the text is given as it is although a character set may be configured", st)
			}
			return false
		}
		if bad := tampered(v, text); bad != "" {
			c.r.violation("charset", name, pos, "the text is changed by "+bad, st)
			return false
		}
		decoded, opaque, wrong := false, false, ""
		v.any(func(y *Term) bool {
			n, _ := callOf(y)
			if strings.HasSuffix(n, "NewEncoder") || y.call != nil && y.call.method != nil && y.call.method.Name() == "NewEncoder" {
				wrong = "encoded"
			}
			if strings.HasSuffix(n, "NewDecoder") || y.call != nil && y.call.method != nil && y.call.method.Name() == "NewDecoder" {
				decoded = true
			}
			if y.op == "opaque" || y.op == "phi" {
				opaque = true
			}
			return false
		})
		switch {
		case wrong != "":
			c.r.violation("charset", name+": with a charset", pos, "the text is "+wrong+" instead of being decoded", st)
		case none && !some && decoded:
			c.r.violation("charset", name+": with a charset", pos, "the text is decoded although no character set is configured", st)
		case decoded && v.contains(text):
			c.r.ok("charset", name+": with a charset", pos, "decoded")
		case v.contains(text) && !none && !opaque:
			c.r.violation("charset", name+": with a charset", pos, "the value "+v.String()+" is not the decoded text", st)
		case v.op == "const":
			c.r.violation("charset", name+": with a charset", pos, "the value is "+v.String()+", whatever the text", st)
		default:
			c.isOpen("the decoding", name)
		}
		return false
	}
	w.start(fn, func(st *State, args []*Term) { text = args[1] })
	c.r.walked(w)
}

func isEncoding(t *Term) bool {
	for t != nil && (t.op == "conv" || t.op == "iface") {
		t = t.args[0]
	}
	return t != nil && t.typ != nil && strings.HasSuffix(typeName(t.typ), "text/encoding.Encoding")
}

// ---- lists ----

func (c *parsers) split(fn *ssa.Function) {
	w := newWalker(c.p, c.r, Hooks{})
	name := fnName(fn)
	var text *Term
	isParts := func(t *Term) bool {
		t = bareTuple(t)
		n, _ := callOf(t)
		return n != "" && t.contains(text) && t.typ != nil && isPath(t.typ)
	}
	rd := &rounds{w: w, facts: []string{"kept", "other"}, over: func(st *State, coll *Term) bool { return isParts(coll) }}
	w.h.Branch = func(st *State, in *ssa.If, cond *Term, taken bool) {
		rd.branch(st, in, cond, taken)
		if mentionsSetting(cond, "delimiterIsRegexp") || cond.any(isRegexp) {
			st.user.add("tests", cond, sprintf("%v", taken))
		}
	}
	asRegexp := func(st *State) (yes, no bool) {
		look := func(f *Term, v bool) {
			for f.op == "un" && f.aux == "!" {
				f, v = f.args[0], !v
			}
			if settingIs(f, "delimiterIsRegexp") {
				if v {
					yes = true
				} else {
					no = true
				}
				return
			}
			a, b, eq, ok := comparison(f, v)
			if !ok {
				return
			}
			for _, pair := range [][2]*Term{{a, b}, {b, a}} {
				if isNilTerm(pair[1]) && (isRegexp(pair[0]) || keyed(pair[0], "delimiterIsRegexp") != nil) {
					if eq {
						no = true
					} else if isRegexp(pair[0]) {
						yes = true
					}
				}
				if z, k := pair[1].boolVal(); k && settingIs(pair[0], "delimiterIsRegexp") {
					if z == eq {
						yes = true
					} else {
						no = true
					}
				}
			}
		}
		for f, v := range st.user.sets["tests"] {
			look(f, v == "true")
		}
		for f, v := range st.facts {
			look(f, v)
		}
		return
	}
	splits := 0
	w.h.After = func(ci *CallInfo) {
		st := ci.st
		if isParse(ci) && len(ci.args) >= 2 {
			by, t := ci.args[0], ci.args[1]
			l, _ := elem(t)
			okText := l != nil && isParts(l)
			if !okText && t.op == "lk" {
				okText = isParts(t.args[0])
			}
			key := by
			for key != nil && (key.op == "ext" || key.op == "ta" || key.op == "iface") {
				key = key.args[0]
			}
			okBy := key != nil && key.op == "lk" && settingIs(key.args[1], "parser")
			switch {
			case !okText && t.any(func(y *Term) bool { return y.op == "phi" || y.op == "opaque" }) && tampered(t, text) == "" && !t.contains(text):
				c.isOpen("a part", name)
			case !okText:
				c.r.violation("part-value", name, ci.pos, "what is converted is "+t.String()+", which is not a part of the text as it is", st)
			case !okBy:
				c.r.violation("part-value", name, ci.pos, "a part is converted by "+by.String()+", which is not the configured parser", st)
			default:
				c.r.ok("part-value", name, ci.pos, "by the configured parser")
			}
			return
		}
		if ci.name == "builtin append" && len(ci.args) == 2 {
			if els, ok := w.sliceElems(st, ci.args[1]); ok && len(els) == 1 {
				if i := partOf(els[0], isParts); i != nil {
					counted(rd, st, i)
					rd.mark(st, "kept", func(key, val *Term) bool { return key == i || val == i })
				}
			}
			return
		}
		if ci.result == nil || ci.result.typ == nil || len(ci.args) == 0 {
			return
		}
		touches := false
		for _, a := range ci.args {
			if a.contains(text) && a.typ != nil && isString(a.typ) {
				touches = true
			}
		}
		if !touches {
			return
		}
		if tampers(ci.name, ci.args) && ci.name != "strings.SplitN" && !isPath(ci.result.typ) {
			switch ci.name {
			case "strings.Contains", "strings.HasPrefix", "strings.HasSuffix", "strings.EqualFold", "strings.Cut":
			default:
				c.r.violation("parts", name, ci.pos, "the text is changed by "+ci.name, st)
			}
			return
		}
		if !isPath(ci.result.typ) {
			return
		}
		splits++
		yes, no := asRegexp(st)
		construct, bad := name+": a fixed delimiter", ""
		switch ci.name {
		case "strings.Split", "strings.SplitN":
			if len(ci.args) == 3 {
				if n, ok := ci.args[2].intVal(); !ok || n >= 0 {
					bad = "not all the parts are taken"
				}
			}
			if bare(ci.args[0]) != text {
				bad = "what is split is " + ci.args[0].String() + ", which is not the whole text"
			} else if !settingIs(ci.args[1], "delimiter") {
				bad = "the text is split by " + ci.args[1].String() + ", which is not the delimiter"
			} else if yes && !no {
				bad = "the delimiter is used as a fixed text although it is a regular expression"
			} else if !no {
				bad = "the delimiter is used as a fixed text without knowing that it is not a regular expression"
			}
		case "(*regexp.Regexp).Split":
			construct = name + ": an expression"
			if n, ok := ci.args[2].intVal(); !ok || n >= 0 {
				bad = "not all the parts are taken"
			}
			if bare(ci.args[1]) != text {
				bad = "what is split is " + ci.args[1].String() + ", which is not the whole text"
			} else if no && !yes {
				bad = "the delimiter is used as a regular expression although it is a fixed text"
			} else if !yes {
				bad = "the delimiter is used as a regular expression without knowing that it is one"
			}
		default:
			if ci.fn != nil && c.p.inRepo(ci.fn) {
				return
			}
			bad = "the text is split by " + ci.name
		}
		if bad != "" {
			c.r.violation("parts", construct, ci.pos, bad, st)
		} else {
			c.r.ok("parts", construct, ci.pos, "all the parts of the whole text")
		}
	}
	w.h.Store = func(st *State, in *ssa.Store, addr, val *Term) {
		if addr.op != "iaddr" || !isAny(in.Val.Type()) {
			return
		}
		if addr.args[0].op != "mk" && addr.args[0].op != "append" {
			return
		}
		i := partOf(val, isParts)
		if i == nil {
			return
		}
		counted(rd, st, i)
		if addr.args[1] != i {
			c.r.violation("part-value", name+": its place", in.Pos(), "the value of the part "+i.String()+" is kept at "+addr.args[1].String(), st)
			return
		}
		rd.mark(st, "kept", func(key, v *Term) bool { return key == i || v == i })
	}
	w.h.Exit = func(st *State, fn *ssa.Function, ret []*Term) bool {
		failed, known := c.mayFail(w, st, ret)
		if known && failed {
			return false
		}
		switch {
		case rd.covered(st, "kept"):
			c.r.ok("part-value", name+": each of them", fn.Pos(), "kept at its place")
		case rd.covered(st, "other"):
			c.isOpen("the places of the parts", name)
		default:
			c.r.violation("part-value", name+": each of them", fn.Pos(), "the list is given although the value of one of the parts may not be in it", st)
		}
		return false
	}
	w.start(fn, func(st *State, args []*Term) { text = args[1] })
	c.r.walked(w)
	if splits == 0 {
		c.r.undecided("parts", name, fn.Pos(), "nothing splits the text")
	}
}

// counted: a part is kept in this round, at a place which has a count of its own.
func counted(rd *rounds, st *State, i *Term) {
	if i.any(func(y *Term) bool { return y.op == "opaque" || y.op == "phi" }) || i.isConst() {
		rd.mark(st, "other", func(key, val *Term) bool { return !(key.isConst() && i.isConst() && key != i) })
	}
}

// partOf: the place of the part which a value was made of.
func partOf(v *Term, isParts func(*Term) bool) *Term {
	_, t := parsed(v)
	if t == nil {
		return nil
	}
	if l, i := elem(t); l != nil && isParts(l) {
		return i
	}
	return nil
}

func isRegexp(t *Term) bool {
	return t != nil && t.typ != nil && typeName(t.typ) == "*regexp.Regexp" && t.op == "ld"
}

// ---- documents ----

func (c *parsers) document(fn *ssa.Function) {
	w := newWalker(c.p, c.r, Hooks{})
	name := fnName(fn)
	var text *Term
	w.h.After = func(ci *CallInfo) {
		st := ci.st
		switch ci.name {
		case "encoding/json.Unmarshal":
			t := ci.args[0]
			for t.op == "conv" || t.op == "iface" {
				t = t.args[0]
			}
			if t == text {
				c.r.ok("document", name, ci.pos, "the whole text")
				st.user.flags["whole"] = 1
			} else if bad := tampered(t, text); bad != "" {
				c.r.violation("document", name, ci.pos, "the text is changed by "+bad, st)
			} else {
				c.r.violation("document", name, ci.pos, "what is decoded is "+t.String()+", which is not the text", st)
			}
			st.user.flags["read"] = 1
		case "(*encoding/json.Decoder).Decode":
			if st.user.flags["read"] == 1 {
				st.user.flags["whole"] = 1
			}
			st.user.flags["read"] = 1
		case "(*encoding/json.Decoder).Token", "(*encoding/json.Decoder).More", "(*encoding/json.Decoder).Buffered", "encoding/json.Valid":
			st.user.flags["whole"] = 1
		}
		if n := ci.name; tampers(n, ci.args) && len(ci.args) > 0 && ci.args[0].contains(text) {
			switch n {
			case "strings.Contains", "strings.HasPrefix", "strings.HasSuffix", "strings.EqualFold":
			default:
				c.r.violation("document", name, ci.pos, "the text is changed by "+n, st)
			}
		}
	}
	w.h.Exit = func(st *State, fn *ssa.Function, ret []*Term) bool {
		failed, known := c.mayFail(w, st, ret)
		if known && failed {
			return false
		}
		switch {
		case st.user.flags["read"] == 0:
			c.r.violation("document", name+": the value", fn.Pos(), "a value is given although the text was not decoded", st)
		case st.user.flags["whole"] == 0:
			c.r.violation("document", name+": the value", fn.Pos(), "a value is given although the end of the text was not reached", st)
		case isNilTerm(ret[0]) || ret[0].strip().op == "const":
			c.r.violation("document", name+": the value", fn.Pos(), "the value is "+ret[0].String()+", whatever the text", st)
		default:
			c.r.ok("document", name+": the value", fn.Pos(), "decoded from the whole text")
		}
		return false
	}
	w.start(fn, func(st *State, args []*Term) { text = args[1] })
	c.r.walked(w)
}

// ---- what is prepared before ----

func (c *parsers) constructors() {
	pk := c.p.pkg("pkg/parser")
	for _, fn := range c.p.funcs {
		if pkgOf(fn) != pk || len(fn.Blocks) == 0 {
			continue
		}
		fn := fn
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				if call.Call.IsInvoke() {
					continue
				}
				f := call.Call.StaticCallee()
				if f == nil {
					continue
				}
				n := fnName(f)
				switch {
				case strings.HasPrefix(n, "regexp.Compile") || strings.HasPrefix(n, "regexp.MustCompile"):
					c.prepared(fn, call, "delimiter", "delimiter", !strings.HasSuffix(n, "POSIX"))
				case strings.HasSuffix(n, "ianaindex.Index).Encoding"):
					c.prepared(fn, call, "charset", "convertFromCharset", true)
				}
			}
		}
	}
}

// prepared: what is built from a setting is built from all of it.
func (c *parsers) prepared(fn *ssa.Function, call *ssa.Call, rule, key string, ok bool) {
	a := call.Call.Args[len(call.Call.Args)-1]
	construct := fnName(fn) + ": " + key
	got, known := settingOf(a, fn, c.p, 0)
	switch {
	case !ok:
		c.r.violation(rule, construct, call.Pos(), "the expression has another syntax than the one which is documented", nil)
	case !known:
		c.isOpen("the use of "+key, fnName(fn))
	case got == key:
		c.r.ok(rule, construct, call.Pos(), "from the setting")
	default:
		c.r.violation(rule, construct, call.Pos(), "it is built from something else than the setting "+key, nil)
	}
}

// settingOf: the key of the setting which a value is, unchanged ("" when it is
// something made of other things).
func settingOf(v ssa.Value, fn *ssa.Function, p *Program, depth int) (key string, known bool) {
	if depth > 20 {
		return "", false
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return "", false
		}
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			if st := structOf(pointee(fa.X.Type())); st != nil {
				return yamlKey(st, fa.Field), true
			}
		}
		return settingOf(x.X, fn, p, depth+1)
	case *ssa.ChangeType:
		return settingOf(x.X, fn, p, depth+1)
	case *ssa.Const, *ssa.BinOp, *ssa.Slice:
		return "", true
	case *ssa.Parameter:
		keys := map[string]bool{}
		for _, cl := range p.callers(x.Parent()) {
			for _, b := range cl.Blocks {
				for _, in := range b.Instrs {
					call, ok := in.(*ssa.Call)
					if !ok || call.Call.StaticCallee() != x.Parent() {
						continue
					}
					for i, pr := range x.Parent().Params {
						if pr == x && i < len(call.Call.Args) {
							k, known := settingOf(call.Call.Args[i], cl, p, depth+1)
							if !known {
								return "", false
							}
							keys[k] = true
						}
					}
				}
			}
		}
		if len(keys) == 1 {
			for k := range keys {
				return k, true
			}
		}
		return "", false
	case *ssa.Call:
		f := x.Call.StaticCallee()
		if f == nil {
			return "", false
		}
		if len(f.Blocks) > 0 && p.inRepo(f) {
			out, n := "", 0
			for _, b := range f.Blocks {
				if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(ret.Results) > 0 {
					k, known := settingOf(ret.Results[0], f, p, depth+1)
					if !known {
						return "", false
					}
					out = k
					n++
				}
			}
			return out, n == 1
		}
		if strings.HasPrefix(fnName(f), "strings.") || strings.HasPrefix(fnName(f), "fmt.") || strings.HasPrefix(fnName(f), "regexp.") {
			return "", true
		}
	}
	return "", false
}
