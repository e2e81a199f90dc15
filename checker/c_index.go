package main

import (
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C01", func(p *Program, r *Report) { checkIndexCreation(p, r, true) })
	register("C02", func(p *Program, r *Report) { checkIndexCreation(p, r, false) })
}

// indexConstructors lists the functions which build an index from the inputs.
func indexConstructors(p *Program) []*ssa.Function {
	impl := map[types.Object]bool{}
	for _, t := range p.implementers("pkg/index.Index") {
		impl[named(t).Obj()] = true
	}
	var out []*ssa.Function
	for _, fn := range p.funcs {
		sig := fn.Signature
		if sig.Recv() != nil || fn.Parent() != nil || sig.Results().Len() == 0 || !fn.Object().Exported() {
			continue
		}
		n := named(sig.Results().At(0).Type())
		if n == nil || !impl[n.Obj()] {
			continue
		}
		takes := false
		for i := 0; i < sig.Params().Len(); i++ {
			if m, ok := sig.Params().At(i).Type().Underlying().(*types.Map); ok && named(m.Elem()) != nil && named(m.Elem()) == p.typ("pkg/input.Input") {
				takes = true
			}
		}
		if takes {
			out = append(out, fn)
		}
	}
	return out
}

// metadataTypes: what describes a stored index.
func metadataTypes(p *Program) []*types.Named {
	var out []*types.Named
	for _, pk := range p.pkgs {
		if !strings.HasPrefix(pk.PkgPath, modulePath+"/pkg/index/") {
			continue
		}
		for _, nm := range pk.Types.Scope().Names() {
			tn, ok := pk.Types.Scope().Lookup(nm).(*types.TypeName)
			if !ok {
				continue
			}
			n, ok := tn.Type().(*types.Named)
			if ok && hasMethod(types.NewPointer(n), "AssertValid") && hasMethod(types.NewPointer(n), "Save") {
				out = append(out, n)
			}
		}
	}
	return out
}

// completedField is the field which SetCompleted writes.
func completedField(p *Program, n *types.Named) string {
	fn := p.method(n, "SetCompleted")
	if fn == nil {
		return ""
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if st, ok := in.(*ssa.Store); ok {
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok && len(fn.Params) == 2 && st.Val == fn.Params[1] {
					return pointee(fa.X.Type()).Underlying().(*types.Struct).Field(fa.Field).Name()
				}
			}
		}
	}
	return ""
}

func isNamed(t types.Type, names ...string) bool {
	n := named(t)
	if n == nil {
		return false
	}
	s := typeName(n)
	for _, x := range names {
		if s == x {
			return true
		}
	}
	return false
}

// isPositionCall: the position of a record.
func isPositionCall(v ssa.Value) bool {
	c, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	if c.Call.IsInvoke() {
		return c.Call.Method.Name() == "Position" && isNamed(c.Call.Value.Type(), "input/record.Record", "pkg/input/record.Record", "record.Record")
	}
	return false
}

func isRecordMethod(ci *CallInfo, name string) bool {
	return ci.common.IsInvoke() && ci.common.Method.Name() == name && strings.HasSuffix(typeName(ci.common.Value.Type()), "record.Record")
}

// walkCreation explores a constructor of an index.
type creation struct {
	p     *Program
	r     *Report
	w     *Walker
	fn    *ssa.Function
	meta  map[types.Object]string // metadata type -> completed field
	c01   bool
	iters int
	pos   map[ssa.Instruction]bool
	args  map[string]map[*Term]bool // "new"/"assert" -> what describes the index
}

func checkIndexCreation(p *Program, r *Report, c01 bool) {
	if c01 {
		r.explanation = "The constructor of every index is explored path by path, down to the statements which write the index. Each record obtained from the input, each indexed value, each write of the 'completed' flag, each flush is an event; " +
			"the rules order them on every path."
		r.rule("exhausted", 4, "an index is declared complete (or its creation succeeds) only when the last record asked for was the end of the input")
		r.rule("marked-incomplete", 3, "before the first record is stored, the index is recorded as not complete")
		r.rule("flushed", 1, "what is buffered is written before the index is recorded as complete, and the record itself is written before the creation succeeds")
		r.rule("record-inserted", 4, "every record obtained from the input is stored with its position before the next one is asked for")
		r.rule("value-inserted", 4, "every indexed value read from a record is stored before the next one is read")
		r.rule("completed", 3, "a creation which succeeds has recorded the index as complete")
		r.rule("every-property", 4, "the values are read for every configured property")
		r.assumptions = []string{"the input iterator returns no record and no error exactly at the end of the input", "database statements and file writes which report no error took effect"}
		r.outside = []string{"that the stored data can be found again (search structure, encoding)", "durability of what the operating system buffered at a power loss"}
	} else {
		r.explanation = "The constructor of every persistent index is explored path by path, and so are the validation of the stored description and its creation. Every successful path without creation must have accepted the stored description for its own input; " +
			"every accepting path of the validation must hold an equality between each stored fact and the current one, and the facts stored are those of the input the index is created from, taken before it is read."
		r.rule("validated", 3, "an existing index is used only once its stored description was accepted for the index's own input")
		r.rule("same-description", 3, "the description an index is validated against is the one it is created with")
		r.rule("field-compared", 8, "the validation accepts only if each stored fact equals the current one")
		r.rule("facts-before-reading", 3, "the size and modification time recorded are those of the indexed input, asked for before reading it")
		r.rule("input-facts", 6, "size and modification time are those of the file of the input")
	}
	meta := map[types.Object]string{}
	for _, n := range metadataTypes(p) {
		f := completedField(p, n)
		if f == "" {
			r.undecided("anchor", typeName(n), n.Obj().Pos(), "the field recording the completion was not found")
			continue
		}
		meta[n.Obj()] = f
	}
	for _, fn := range indexConstructors(p) {
		c := &creation{p: p, r: r, fn: fn, meta: meta, c01: c01, pos: map[ssa.Instruction]bool{}, args: map[string]map[*Term]bool{}}
		c.run()
	}
	if !c01 {
		for _, n := range metadataTypes(p) {
			if f := meta[n.Obj()]; f != "" {
				checkAssertValid(p, r, n, f)
			}
		}
		checkInputFacts(p, r)
	}
}

// writer classifies what is not followed: the search structure and its buffer.
func (c *creation) blocked(fn *ssa.Function) bool {
	if fn.Pkg == nil || !strings.HasPrefix(fn.Pkg.Pkg.Path(), modulePath+"/pkg/index/") {
		return false
	}
	sig := fn.Signature
	if sig.Recv() != nil {
		n := named(sig.Recv().Type())
		if n == nil {
			return false
		}
		_, isMeta := c.meta[n.Obj()]
		return !isMeta
	}
	if sig.Results().Len() > 0 {
		if n := named(sig.Results().At(0).Type()); n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg() == fn.Pkg.Pkg {
			_, isMeta := c.meta[n.Obj()]
			return !isMeta && hasMethod(types.NewPointer(n), "Save")
		}
	}
	return false
}

func isStreamType(t types.Type) bool {
	return t != nil && hasMethod(t, "Flush") && !hasMethod(t, "AssertValid")
}

func (c *creation) hasPosition(ci *CallInfo) bool {
	if v, ok := c.pos[ci.instr]; ok {
		return v
	}
	found := false
	for _, a := range ci.common.Args {
		if c.p.dependsOn(a, isPositionCall) {
			found = true
		}
	}
	c.pos[ci.instr] = found
	return found
}

// mentions: the value appears in one of the terms.
func mentions(x *Term, ts ...*Term) bool {
	for _, t := range ts {
		if t != nil && t.contains(x) {
			return true
		}
	}
	return false
}

func (c *creation) run() {
	p, r, fn := c.p, c.r, c.fn
	name := fnName(fn)
	w := newWalker(p, r, Hooks{})
	c.w = w
	rule := func(rl string) bool { return r.rules[rl] != "" }
	bad := func(rl, construct string, ci *CallInfo, msg string, st *State) {
		if !rule(rl) {
			return
		}
		if ci != nil {
			r.violation(rl, construct, ci.pos, msg, st)
		} else {
			r.violation(rl, construct, fn.Pos(), msg, st)
		}
	}
	good := func(rl, construct, msg string) {
		if rule(rl) {
			r.ok(rl, construct, fn.Pos(), msg)
		}
	}
	isMeta := func(t types.Type) (string, bool) {
		n := named(t)
		if n == nil {
			return "", false
		}
		f, ok := c.meta[n.Obj()]
		return f, ok
	}
	exhausted := func(st *State) bool {
		rec, err := st.user.terms["rec"], st.user.terms["recerr"]
		if rec == nil {
			return false
		}
		n, k := w.isNil(st, rec)
		e, ke := w.isNil(st, err)
		return k && n && ke && e
	}
	// the values read and not stored yet
	openValues := func(st *State, ci *CallInfo, what string) {
		for v := range st.user.sets["value"] {
			if n, k := w.isNil(st, w.tt.ext(v.args[0], 1, errorType)); v.op == "ext" && k && !n {
				continue
			}
			bad("value-inserted", name, ci, "a value read from a record is not stored before "+what+": records are missing from the index (or keep the value of another record)", st)
		}
		st.user.sets["value"] = nil
	}
	openRecord := func(st *State, ci *CallInfo, what string) {
		rec := st.user.terms["rec"]
		if rec == nil || st.user.flags["inserted"] != 0 {
			return
		}
		if n, k := w.isNil(st, rec); k && n {
			return
		}
		if n, k := w.isNil(st, st.user.terms["recerr"]); k && !n {
			return
		}
		bad("record-inserted", name, ci, "a record is obtained from the input and not stored before "+what, st)
	}
	insertion := func(st *State, ci *CallInfo) {
		st.user.flags["inserted"] = 1
		good("record-inserted", name, "every record obtained is stored before the next one")
		if st.user.flags["marked"] == 0 && rule("marked-incomplete") && len(c.metaOf()) > 0 {
			bad("marked-incomplete", name, ci, "records are stored although the index was not recorded as incomplete: an interrupted creation cannot be told apart", st)
		}
	}
	consume := func(st *State, ts ...*Term) {
		for v := range st.user.sets["value"] {
			if mentions(v, ts...) {
				st.user.del("value", v)
				good("value-inserted", name, "every value read is stored")
			}
		}
	}
	// the elements of an array: each of them is stored in turn, unless it
	// already is at the same position
	element := func(st *State, ts ...*Term) {
		if x := st.user.terms["array"]; x != nil && mentions(x, ts...) {
			delete(st.user.flags, "element")
			good("value-inserted", name, "every element of an array is stored")
		}
	}
	w.h.Inline = func(st *State, f *ssa.Function) bool { return !c.blocked(f) }
	w.h.Enter = func(st *State, f *ssa.Function, args []*Term) {
		if f.Signature.Recv() != nil || f.Signature.Results().Len() == 0 || !strings.HasPrefix(f.Name(), "New") {
			return
		}
		if _, meta := isMeta(f.Signature.Results().At(0).Type()); meta {
			for _, a := range args {
				c.addArg("new", a)
			}
		}
	}
	w.h.Before = func(ci *CallInfo) bool {
		st := ci.st
		if ci.fn == nil {
			return false
		}
		for _, f := range st.frames {
			if f.fn == ci.fn {
				return true // recursive
			}
		}
		f, meta := "", false
		if ci.fn.Signature.Recv() != nil {
			f, meta = isMeta(ci.fn.Signature.Recv().Type())
		}
		if !meta {
			return false
		}
		switch ci.fn.Name() {
		case "Save":
			v := w.load(st, w.faddr(ci.args[0], f), types.Typ[types.Bool])
			b, known := w.truth(st, v)
			switch {
			case known && !b:
				st.user.flags["marked"] = 1
				delete(st.user.flags, "completed")
				if st.user.flags["iterating"] != 0 {
					st.user.flags["incompleteAgain"] = 1
				}
				good("marked-incomplete", name, "recorded as incomplete first")
				st.note(ci.pos, "the index is recorded as incomplete")
			default:
				if !known {
					bad("exhausted", name, ci, "the completion recorded is not a known value: "+v.String(), st)
				}
				openValues(st, ci, "the index is recorded as complete")
				openRecord(st, ci, "the index is recorded as complete")
				if st.user.flags["iterating"] == 0 || !exhausted(st) {
					bad("exhausted", name, ci, "the index is recorded as complete on a path where the input was not read up to its end", st)
				} else {
					good("exhausted", name, "recorded as complete at the end of the input only")
				}
				if st.user.flags["dirty"] != 0 {
					bad("flushed", name, ci, "the index is recorded as complete while some of its data is only buffered: an interruption leaves an index which looks complete", st)
				}
				st.user.flags["completed"] = 1
				st.note(ci.pos, "the index is recorded as complete")
				// the facts recorded
				c.recordedFacts(st, ci)
			}
			if c.streamed(ci.fn) {
				st.user.flags["metadirty"] = 1
			}
			return true
		case "AssertValid":
			if len(ci.args) > 1 {
				c.addArg("assert", ci.args[1])
			}
			st.user.terms["valid"] = nil
			st.user.terms["validmeta"] = ci.args[0]
			st.user.terms["validarg"] = ci.args[1]
			return true
		}
		return false
	}
	w.h.After = func(ci *CallInfo) {
		st := ci.st
		mn := methodName(ci)
		if ci.fn != nil && ci.fn.Signature.Recv() != nil {
			if _, meta := isMeta(ci.fn.Signature.Recv().Type()); meta && mn == "AssertValid" {
				st.user.terms["valid"] = ci.result
				return
			}
		}
		switch {
		case ci.common.IsInvoke() && mn == "IterateAll":
			st.user.flags["iterating"] = 1
			st.user.terms["iter"] = w.res(ci, 0)
			st.user.terms["iterinput"] = ci.args[0]
			c.iters++
			st.note(ci.pos, "the input is iterated")
			return
		case ci.common.IsInvoke() && (mn == "Size" || mn == "ModTime") && ci.kind == "call":
			if st.user.flags["iterating"] == 0 {
				st.user.add("fact", w.res(ci, 0), mn)
			}
			return
		case st.user.terms["iter"] != nil && ci.callee == st.user.terms["iter"]:
			openValues(st, ci, "the next record is asked for")
			openRecord(st, ci, "the next one is asked for")
			st.user.terms["rec"], st.user.terms["recerr"] = w.res(ci, 0), w.res(ci, 1)
			delete(st.user.flags, "inserted")
			st.note(ci.pos, "the next record is asked for")
			return
		case isRecordMethod(ci, "Get") && ci.args[0] == st.user.terms["rec"]:
			openValues(st, ci, "the next one is read")
			v := w.res(ci, 0)
			st.user.add("value", v, "")
			c.propertyOf(st, ci)
			return
		case isRecordMethod(ci, "Position"):
			st.user.terms["pos"] = w.res(ci, 0)
			return
		case ci.name == "builtin append":
			consume(st, ci.vargs...)
			element(st, ci.vargs...)
			return
		case strings.HasPrefix(ci.name, "builtin"):
			return
		}
		// the buffer of the index file
		if ci.fn != nil && c.blocked(ci.fn) {
			if isStreamType(recvType(ci)) {
				switch mn {
				case "Flush":
					delete(st.user.flags, "dirty")
					delete(st.user.flags, "metadirty")
					good("flushed", name, "flushed before the completion is recorded")
					st.note(ci.pos, "flush")
					return
				case "Get", "GetReaderFrom":
					return
				}
			}
			st.user.flags["dirty"] = 1
		}
		isWrite := ci.fn != nil && c.blocked(ci.fn)
		switch ci.name {
		case "(*database/sql.Stmt).Exec", "(*database/sql.DB).Exec", "(*database/sql.Tx).Exec",
			"(*database/sql.Stmt).ExecContext", "(*database/sql.DB).ExecContext", "(*database/sql.Tx).ExecContext":
			isWrite = true
		}
		if isWrite && st.user.terms["rec"] != nil && c.hasPosition(ci) {
			consume(st, ci.vargs...)
			element(st, ci.vargs...)
			openValues(st, ci, "its record is stored")
			insertion(st, ci)
			return
		}
		if isWrite {
			consume(st, ci.vargs...)
			element(st, ci.vargs...)
		}
		// an element of an array, handed to the function being explored
		for _, f := range st.frames {
			if ci.fn != nil && ci.fn == f.fn {
				// (they are consumed once the end of the array is reached)
				st.user.flags["inserted"] = 1
				element(st, ci.vargs...)
			}
		}
	}
	w.h.Branch = func(st *State, in *ssa.If, cond *Term, taken bool) {
		for cond.op == "un" && cond.aux == "!" {
			cond, taken = cond.args[0], !taken
		}
		if cond.op == "bin" && cond.aux == "==" && taken && (st.user.terms["pos"] == cond.args[0] || st.user.terms["pos"] == cond.args[1]) {
			delete(st.user.flags, "element")
		}
		if cond.op == "bin" && cond.aux == "<" && cond.args[1].op == "len" && cond.args[1].args[0].op == "ta" {
			for v := range st.user.sets["value"] {
				if !mentions(v, cond.args[1]) {
					continue
				}
				if st.user.flags["element"] != 0 {
					bad("value-inserted", name, nil, "an element of an array is not stored before the next one", st)
				}
				delete(st.user.flags, "element")
				if taken {
					st.user.terms["array"] = cond.args[1].args[0]
					st.user.flags["element"] = 1
				}
			}
		}
		// the end of an array: its elements were stored one by one
		if cond.op == "bin" && cond.aux == "<" && !taken && cond.args[1].op == "len" && len(st.user.sets["value"]) > 0 {
			n := len(st.user.sets["value"])
			consume(st, cond.args[1])
			if len(st.user.sets["value"]) < n {
				st.user.flags["inserted"] = 1
			}
		}
	}
	w.h.Store = func(st *State, in *ssa.Store, addr, val *Term) {
		if addr.op == "iaddr" && !(addr.args[0].op == "alloc" && strings.HasPrefix(addr.args[0].aux, "varargs")) {
			consume(st, val)
		}
	}
	w.h.MapSet = func(st *State, in *ssa.MapUpdate, m, k, v *Term) {
		if st.user.terms["rec"] == nil {
			return
		}
		if p.dependsOn(in.Value, isPositionCall) {
			consume(st, k, v)
			element(st, k, v)
			st.user.flags["inserted"] = 1
			good("record-inserted", name, "every record obtained is stored before the next one")
		}
	}
	w.h.Exit = func(st *State, f *ssa.Function, ret []*Term) bool {
		i := errorResult(f.Signature)
		if i >= 0 {
			if n, k := w.isNil(st, ret[i]); k && !n {
				return false
			}
		}
		// success
		if st.user.flags["iterating"] != 0 {
			if len(c.metaOf()) == 0 {
				openValues(st, nil, "the creation ends")
				openRecord(st, nil, "the creation ends")
				if !exhausted(st) {
					bad("exhausted", name, nil, "the creation of the index succeeds on a path where the input was not read up to its end", st)
				} else {
					good("exhausted", name, "succeeds at the end of the input only")
				}
			} else {
				if st.user.flags["completed"] == 0 {
					bad("completed", name, nil, "the creation of the index succeeds without recording it as complete", st)
				} else {
					good("completed", name, "a successful creation is recorded as complete")
				}
				if st.user.flags["metadirty"] != 0 {
					bad("flushed", name, nil, "the creation succeeds although the record of its completion is only buffered", st)
				}
			}
		} else if len(c.metaOf()) > 0 && rule("validated") {
			e := st.user.terms["valid"]
			ok := false
			if e != nil {
				n, k := w.isNil(st, e)
				ok = k && n || i >= 0 && ret[i] == e
			}
			if !ok {
				bad("validated", name, nil, "an existing index is used on a path where its stored description was not accepted", st)
			} else if !st.user.terms["validarg"].any(func(x *Term) bool { return x.op == "lk" && x.args[0].op == "param" }) {
				bad("validated", name, nil, "the stored description is validated against "+st.user.terms["validarg"].String()+" which is not the index's own input", st)
			} else {
				good("validated", name, "accepted by the validation")
			}
		}
		return false
	}
	w.start(fn, func(st *State, args []*Term) {
		if len(args) == 0 {
			return
		}
		// at least one property is configured
		if n := named(fn.Params[0].Type()); n != nil {
			if s, ok := n.Underlying().(*types.Struct); ok {
				for i := 0; i < s.NumFields(); i++ {
					if _, ok := s.Field(i).Type().Underlying().(*types.Slice); ok {
						sl := w.load(st, w.faddr(args[0], s.Field(i).Name()), s.Field(i).Type())
						w.assume(st, w.tt.mk("bin", "<", types.Typ[types.Bool], nil, w.tt.intc(0), w.tt.mk("len", "", types.Typ[types.Int], nil, sl)), true)
					}
				}
			}
		}
	})
	r.walked(w)
	if !c.c01 && len(c.metaOf()) > 0 {
		same := len(c.args["new"]) > 0 && len(c.args["assert"]) > 0
		for k := range c.args["assert"] {
			if !c.args["new"][k] {
				same = false
			}
		}
		r.check(same, "same-description", name, fn.Pos(), "validated against what it is created with",
			sprintf("the index is created with %v but validated against %v", termList(c.args["new"]), termList(c.args["assert"])))
	}
}

func termList(m map[*Term]bool) []string {
	var out []string
	for t := range m {
		out = append(out, t.String())
	}
	return out
}

// metaOf lists the metadata types the constructor uses.
func (c *creation) metaOf() []*types.Named {
	if c.pos[nil] {
		return nil
	}
	var out []*types.Named
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		if f.Signature.Recv() != nil {
			if n := named(f.Signature.Recv().Type()); n != nil {
				if _, ok := c.meta[n.Obj()]; ok {
					out = append(out, n)
					return
				}
			}
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok && c.p.inRepo(g) {
						visit(g)
					}
				}
			}
		}
	}
	visit(c.fn)
	return out
}

// streamed: saving this metadata goes through a buffer.
func (c *creation) streamed(save *ssa.Function) bool {
	s := structOf(named(save.Signature.Recv().Type()))
	if s == nil {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		if isStreamType(s.Field(i).Type()) {
			return true
		}
	}
	return false
}

func (c *creation) addArg(kind string, t *Term) {
	if c.args[kind] == nil {
		c.args[kind] = map[*Term]bool{}
	}
	c.args[kind][t] = true
}

// propertyOf: the property read comes from iterating over the whole
// configuration.
func (c *creation) propertyOf(st *State, ci *CallInfo) {
	if c.r.rules["every-property"] == "" {
		return
	}
	name := fnName(c.fn)
	t := ci.arg(1)
	if t.any(func(x *Term) bool {
		return x.op == "ld" && x.args[0].op == "iaddr" && x.args[0].args[0].any(func(y *Term) bool { return y.op == "param" })
	}) {
		// a strict prefix or suffix of the properties
		sl := t.any(func(x *Term) bool { return x.op == "slice" })
		if !sl {
			c.r.ok("every-property", name, ci.pos, "read from the list of configured properties")
			return
		}
	}
	c.r.violation("every-property", name, ci.pos, "the values are not read for each of the configured properties: "+t.String(), st)
}

// recordedFacts: the description saved with the completion holds the size and
// modification time of the input, asked for before it was read.
func (c *creation) recordedFacts(st *State, ci *CallInfo) {
	if c.r.rules["facts-before-reading"] == "" {
		return
	}
	name := fnName(c.fn)
	s := structOf(named(ci.fn.Signature.Recv().Type()))
	found := map[string]bool{}
	for i := 0; i < s.NumFields(); i++ {
		v := c.w.load(st, c.w.faddr(ci.args[0], s.Field(i).Name()), s.Field(i).Type())
		for f, kind := range st.user.sets["fact"] {
			if v == f || v.op == "conv" && v.args[0] == f || v.op == "pure" && len(v.args) > 0 && v.args[0] == f {
				call := f
				if call.op == "ext" {
					call = call.args[0]
				}
				if len(call.args) > 0 && call.args[0] == st.user.terms["iterinput"] {
					found[kind] = true
				}
			}
		}
	}
	for _, kind := range []string{"Size", "ModTime"} {
		if found[kind] {
			c.r.ok("facts-before-reading", name+" records "+kind, ci.pos, "taken from the indexed input before it is read")
		} else {
			c.r.violation("facts-before-reading", name+" records "+kind, ci.pos, "the description recorded with the completed index does not hold the "+kind+" of the indexed input, as it was before reading it", st)
		}
	}
}

// ---- C02: the validation ----

// factSource strips what keeps the identity of a fact: the conversions, the
// second of a time, the length of a list.
func factSource(t *Term) *Term {
	for {
		switch {
		case t.op == "conv" || t.op == "iface":
			t = t.args[0]
		case t.op == "len":
			t = t.args[0]
		case t.op == "mk" && len(t.args) == 1:
			t = t.args[0]
		case t.op == "pure" && (t.aux == "(time.Time).Unix" || t.aux == "(time.Time).UnixNano" || t.aux == "(time.Time).UTC" || t.aux == "(time.Time).Local"):
			t = t.args[0]
		case t.op == "pure" && (t.aux == "(time.Time).Truncate" || t.aux == "(time.Time).Round"):
			if n, ok := t.args[1].intVal(); !ok || n > 1000000000 {
				return t
			}
			t = t.args[0]
		case t.op == "slice" && t.args[1] == nil && t.args[2] == nil && len(t.args) < 4:
			t = t.args[0]
		default:
			return t
		}
	}
}

// sourceKind names where a fact comes from, independently of the function.
func sourceKind(t *Term) string {
	t = factSource(t)
	switch t.op {
	case "const":
		if t.cval != nil && t.cval.Kind() == constant.String {
			return "constant " + t.cval.ExactString()
		}
		return "constant " + t.String()
	case "ext":
		if t.args[0].call != nil {
			return "result " + t.aux + " of " + methodName(t.args[0].call)
		}
	case "call":
		if t.call != nil {
			return "result of " + methodName(t.call)
		}
	case "fld":
		return "field " + t.aux
	case "ld":
		if t.args[0].op == "faddr" {
			return "field " + t.args[0].aux
		}
	case "param":
		return "parameter " + typeName(t.typ)
	}
	return ""
}

func checkAssertValid(p *Program, r *Report, n *types.Named, completed string) {
	ctor := constructorOf(p, n, "New")
	assert := p.method(n, "AssertValid")
	if ctor == nil || assert == nil {
		r.undecided("anchor", typeName(n), n.Obj().Pos(), "the constructor or the validation was not found")
		return
	}
	s := structOf(n)
	// what a new description holds
	want := map[string]string{}
	w := newWalker(p, r, Hooks{})
	w.h.Before = func(ci *CallInfo) bool { return ci.fn != nil && ci.fn.Name() == "Save" }
	w.h.Exit = func(st *State, f *ssa.Function, ret []*Term) bool {
		if i := errorResult(f.Signature); i >= 0 {
			if e, k := w.isNil(st, ret[i]); k && !e {
				return false
			}
		}
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			v := w.load(st, w.faddr(ret[0], f.Name()), f.Type())
			if v.op == "param" {
				continue // what it is stored in
			}
			k := sourceKind(v)
			if old, ok := want[f.Name()]; ok && old != k {
				k = "?"
			}
			want[f.Name()] = k
		}
		return false
	}
	w.start(ctor, nil)
	r.walked(w)

	w2 := newWalker(p, r, Hooks{})
	var recv *Term
	w2.h.Branch = func(st *State, in *ssa.If, cond *Term, taken bool) {
		for cond.op == "un" && cond.aux == "!" {
			cond, taken = cond.args[0], !taken
		}
		tag := "false"
		if taken {
			tag = "true"
		}
		if cond.contains(recv) || cond.op == "bin" || cond.op == "pure" {
			st.user.add("known", cond, tag)
		}
	}
	w2.h.Exit = func(st *State, f *ssa.Function, ret []*Term) bool {
		if e, k := w2.isNil(st, ret[0]); k && !e {
			return false
		}
		for name, kind := range want {
			construct := fnName(assert) + " " + name
			cell := w2.load(st, w2.faddr(recv, name), fieldType(s, name))
			ok := false
			for fact, tag := range st.user.sets["known"] {
				if name == completed {
					if fact == cell && tag == "true" {
						ok = true
					}
					if fact.op == "bin" && fact.aux == "==" && (fact.args[0] == cell || fact.args[1] == cell) {
						o := fact.args[0]
						if o == cell {
							o = fact.args[1]
						}
						if b, k := o.boolVal(); k && b == (tag == "true") {
							ok = true
						}
					}
					continue
				}
				if tag != "true" {
					continue
				}
				var a, b *Term
				switch {
				case fact.op == "bin" && fact.aux == "==":
					a, b = fact.args[0], fact.args[1]
				case fact.op == "pure" && (fact.aux == "(time.Time).Equal" || fact.aux == "bytes.Equal" || fact.aux == "reflect.DeepEqual") && len(fact.args) == 2:
					a, b = fact.args[0], fact.args[1]
				default:
					continue
				}
				if factSource(a) != factSource(cell) {
					a, b = b, a
				}
				if factSource(a) == factSource(cell) && sourceKind(b) == kind && kind != "" && !b.contains(recv) {
					ok = true
				}
			}
			if ok {
				r.ok("field-compared", construct, assert.Pos(), "accepted only when equal to the "+kind)
			} else {
				msg := "the validation accepts an index on a path where the stored " + name + " is not known to equal the current one (" + kind + ")"
				if name == completed {
					msg = "the validation accepts an index on a path where it is not known to be complete"
				}
				r.violation("field-compared", construct, assert.Pos(), msg, st)
			}
		}
		return false
	}
	w2.start(assert, func(st *State, args []*Term) { recv = args[0] })
	r.walked(w2)
}

func fieldType(s *types.Struct, name string) types.Type {
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return s.Field(i).Type()
		}
	}
	return types.Typ[types.Invalid]
}

// constructorOf: the function of the package which returns the type, by the
// prefix of its name.
func constructorOf(p *Program, n *types.Named, prefix string) *ssa.Function {
	for _, fn := range p.funcs {
		if fn.Pkg == nil || fn.Pkg.Pkg != n.Obj().Pkg() || fn.Signature.Recv() != nil || fn.Parent() != nil || fn.Signature.Results().Len() == 0 {
			continue
		}
		if named(fn.Signature.Results().At(0).Type()) == n && strings.HasPrefix(fn.Name(), prefix) {
			return fn
		}
	}
	return nil
}

// checkInputFacts: Size and ModTime report the file the input reads.
func checkInputFacts(p *Program, r *Report) {
	for _, t := range p.implementers("pkg/input.Input") {
		for _, mn := range []string{"Size", "ModTime"} {
			fn := p.method(t, mn)
			if fn == nil {
				continue
			}
			construct := fnName(fn)
			w := newWalker(p, r, Hooks{})
			w.h.Exit = func(st *State, f *ssa.Function, ret []*Term) bool {
				if e, k := w.isNil(st, ret[1]); k && !e {
					return false
				}
				v := ret[0]
				for v.op == "conv" {
					v = v.args[0]
				}
				if v.op == "call" && v.call != nil && methodName(v.call) == mn && len(v.args) == 1 {
					info := v.args[0]
					if info.op == "ext" {
						info = info.args[0]
					}
					if info.op == "call" && info.call != nil && methodName(info.call) == "Stat" {
						r.ok("input-facts", construct, fn.Pos(), mn+"() of the file")
						return false
					}
				}
				r.violation("input-facts", construct, fn.Pos(), "the "+mn+" of the input is not the one of its file: "+ret[0].String(), st)
				return false
			}
			w.start(fn, nil)
			r.walked(w)
		}
	}
}
