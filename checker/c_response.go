package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C06", checkResponses)
}

func checkResponses(p *Program, r *Report) {
	r.explanation = "The Handle method of every output is explored path by path, with its two callbacks as the only ways to answer: exactly one of them is called, the failing one only with a failure, " +
		"and once the success has been announced nothing which can fail is left to do. The HTTP handler is explored the same way, its callbacks included: what reaches the response writer on each path is the " +
		"headers, then one status, then the body, and the status agrees with the outcome."
	r.rule("one-answer", 2, "every path through an output answers exactly once")
	r.rule("error-is-failure", 2, "only failures are answered as errors")
	r.rule("complete-success", 2, "nothing which can fail is done between the announcement of the success and its complete content")
	r.rule("not-found", 1, "a single object answers 'not found' when there is no record, and only then")
	r.rule("http-one-status", 2, "each request gets exactly one status, after its headers and before its content")
	r.rule("http-status-agrees", 2, "the status of the response agrees with the outcome: errors are never successes, 404 if and only if not found")
	sentinel := notFoundSentinel(p)
	if sentinel == nil {
		r.undecided("not-found", "record.RecordNotFoundError", 0, "the error which stands for 'not found' was not found")
		return
	}
	wrapped := false
	outs := p.implementers("pkg/output.Output")
	if len(outs) == 0 {
		r.undecided("one-answer", "output.Output", 0, "no output found")
	}
	for _, t := range outs {
		fn := p.method(t, "Handle")
		if fn == nil || len(fn.Blocks) == 0 {
			r.undecided("one-answer", typeName(t), 0, "its Handle method was not found")
			continue
		}
		outputAnswers(p, r, t, fn, sentinel, &wrapped)
	}
	n := 0
	for _, fn := range p.funcs {
		if skipFunc(p, fn) || !isHttpHandler(fn.Signature) || len(p.callSites(fn)) > 0 {
			continue
		}
		n++
		httpAnswers(p, r, fn, sentinel, wrapped)
	}
	if n == 0 {
		r.undecided("http-one-status", "http handlers", 0, "no function which handles the HTTP requests was found")
	}
}

func notFoundSentinel(p *Program) *types.Var {
	pk := p.pkg("pkg/input/record")
	if pk == nil {
		return nil
	}
	v, _ := pk.Scope().Lookup("RecordNotFoundError").(*types.Var)
	return v
}

func isSentinelTerm(t *Term, v *types.Var) bool {
	name := v.Pkg().Path() + "." + v.Name()
	return t.any(func(x *Term) bool {
		return x.op == "ld" && x.args[0].op == "global" && (x.args[0].aux == name || shortName(x.args[0].aux) == shortName(name))
	})
}

// carriesSentinel: the error is the sentinel, or one which wraps it.
func carriesSentinel(t *Term, v *types.Var) (carries, wrapped bool) {
	for t.op == "iface" || t.op == "conv" {
		t = t.args[0]
	}
	if t.op == "ld" {
		return isSentinelTerm(t, v), false
	}
	if t.op != "pure" {
		return false, false
	}
	switch t.aux {
	case "fmt.Errorf":
		f, ok := t.args[0].strVal()
		if !ok || !strings.Contains(f, "%w") {
			return false, false
		}
	case "errors.Join":
	default:
		return false, false
	}
	for _, a := range t.args {
		if a != nil {
			if c, _ := carriesSentinel(a, v); c {
				return true, true
			}
		}
	}
	return false, false
}

// mentionsGlobal: the function, or one it calls, refers to a package variable.
func (p *Program) mentionsGlobal(fn *ssa.Function, v *types.Var, seen map[*ssa.Function]bool) bool {
	if seen[fn] || !p.inRepo(fn) {
		return false
	}
	seen[fn] = true
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				switch x := (*op).(type) {
				case *ssa.Global:
					if x.Object() == v {
						return true
					}
				case *ssa.Function:
					if p.mentionsGlobal(x, v, seen) {
						return true
					}
				}
			}
		}
	}
	return false
}

func isErrorCallback(t types.Type) bool {
	s, ok := t.Underlying().(*types.Signature)
	return ok && s.Params().Len() == 1 && isError(s.Params().At(0).Type()) && s.Results().Len() == 1 && isError(s.Results().At(0).Type())
}

func isSuccessCallback(t types.Type) bool {
	s, ok := t.Underlying().(*types.Signature)
	return ok && s.Params().Len() == 0 && s.Results().Len() == 1 && typeName(s.Results().At(0).Type()) == "io.Writer"
}

// transfers: the call hands something which is already complete to a writer.
func transfers(ci *CallInfo, writer func(*Term) bool) bool {
	switch methodName(ci) {
	case "Write", "WriteString":
		if len(ci.args) > 0 && writer(ci.args[0]) {
			return true
		}
	case "WriteTo":
		return len(ci.args) > 1 && writer(ci.args[1]) && fromMemory(ci.args[0])
	}
	switch ci.name {
	case "io.WriteString":
		return writer(ci.args[0])
	case "io.Copy":
		return writer(ci.args[0]) && fromMemory(ci.args[1])
	case "fmt.Fprint", "fmt.Fprintf", "fmt.Fprintln":
		return writer(ci.args[0])
	}
	return false
}

func fromMemory(t *Term) bool {
	n := ""
	s := t
	for s.op == "iface" {
		n = typeName(s.typ)
		s = s.args[0]
	}
	if n == "" && t.typ != nil {
		n = typeName(t.typ)
	}
	switch n {
	case "*bytes.Buffer", "*bytes.Reader", "*strings.Reader":
		return true
	}
	return false
}

func outputAnswers(p *Program, r *Report, t types.Type, fn *ssa.Function, sentinel *types.Var, wrapped *bool) {
	var onError, onSuccess *Term
	w := newWalker(p, r, Hooks{})
	single := named(t) != nil && named(t).Obj().Name() == "JsonObject"
	name := fnName(fn)
	isWriter := func(st *State, x *Term) bool {
		wr := st.user.terms["writer"]
		return wr != nil && x != nil && x.contains(wr)
	}
	given := func(ci *CallInfo) bool {
		for _, a := range ci.vargs {
			if a != nil && (onError != nil && a.contains(onError) || onSuccess != nil && a.contains(onSuccess)) {
				return true
			}
		}
		return ci.callee != nil && ci.callee.op == "closure"
	}
	w.h.Before = func(ci *CallInfo) bool {
		st := ci.st
		if ci.fn == nil || !p.inRepo(ci.fn) || len(ci.fn.Blocks) == 0 {
			return false
		}
		if given(ci) {
			return false
		}
		for _, a := range ci.vargs {
			if isWriter(st, a) {
				return false
			}
		}
		// what decides that nothing was found is followed, the rest is one step
		return !p.mentionsGlobal(ci.fn, sentinel, map[*ssa.Function]bool{})
	}
	answer := func(st *State, ci *CallInfo, what string) {
		if st.user.flags["answered"] != 0 {
			r.violation("one-answer", name, ci.pos, "a second answer is sent on this path", st)
		}
		st.user.flags["answered"] = 1
		st.note(ci.pos, "%s", what)
	}
	w.h.After = func(ci *CallInfo) {
		st := ci.st
		switch {
		case ci.callee != nil && ci.callee == onError:
			answer(st, ci, "answers an error")
			e := ci.args[len(ci.args)-1]
			if n, k := w.isNil(st, e); k && !n {
				r.ok("error-is-failure", name, ci.pos, "the error is known not to be nil")
			} else {
				r.violation("error-is-failure", name, ci.pos, "an error is answered here with a value which is not known to be an error: "+e.String(), st)
			}
			if single {
				none := st.user.flags["position"] == 1
				is, wraps := carriesSentinel(e, sentinel)
				if wraps {
					*wrapped = true
				}
				if is != none {
					r.violation("not-found", name, ci.pos, sprintf("the error is 'not found': %v, no record was found: %v", is, none), st)
				} else {
					r.ok("not-found", name, ci.pos, "'not found' agrees with the absence of a position")
				}
			}
			return
		case ci.callee != nil && ci.callee == onSuccess:
			answer(st, ci, "announces a success")
			st.user.terms["writer"] = ci.result
			if single && st.user.flags["position"] != 2 {
				r.violation("not-found", name, ci.pos, "a success is announced although no record is known to exist", st)
			}
			return
		}
		if st.user.terms["writer"] != nil {
			if transfers(ci, func(x *Term) bool { return isWriter(st, x) }) {
				st.user.flags["content"] = 1
				return
			}
			if i := errorResult(ci.common.Signature()); i >= 0 && exemptErrorCallee(ci) == "" && st.user.flags["after"] == 0 {
				n := ci.name
				if n == "" {
					n = "a function value"
				}
				r.violation("complete-success", name, ci.pos, n+" can fail, although the success has already been announced: the client would take an incomplete response for a success", st)
			}
			return
		}
		for _, a := range ci.vargs {
			if a != nil && (a == onError || a == onSuccess) {
				r.undecided("one-answer", name, ci.pos, "a callback is handed to "+ci.name+", which cannot be followed")
			}
		}
	}
	w.h.Branch = func(st *State, in *ssa.If, cond *Term, taken bool) {
		if x, isNil := nilFact(cond, taken); x != nil && x.typ != nil && isPositionPtr(p, x.typ) {
			if isNil {
				st.user.flags["position"] = 1
			} else {
				st.user.flags["position"] = 2
			}
		}
	}
	w.h.Exit = func(st *State, f *ssa.Function, ret []*Term) bool {
		if st.user.flags["answered"] == 0 {
			r.violation("one-answer", name, f.Pos(), "this path ends without any answer", st)
		} else {
			r.ok("one-answer", name, f.Pos(), "each path answers once")
		}
		if st.user.terms["writer"] != nil {
			if st.user.flags["content"] == 0 {
				r.violation("complete-success", name, f.Pos(), "this path announces a success and ends without any content", st)
			} else {
				r.ok("complete-success", name, f.Pos(), "the content is complete before the success is announced")
			}
		}
		return false
	}
	w.start(fn, func(st *State, args []*Term) {
		for i, a := range args {
			ty := fn.Params[i].Type()
			switch {
			case isErrorCallback(ty):
				onError = a
			case isSuccessCallback(ty):
				onSuccess = a
			}
		}
	})
	if onError == nil || onSuccess == nil {
		r.undecided("one-answer", name, fn.Pos(), "its callbacks were not recognised")
	}
	r.walked(w)
}

// isPositionPtr: what the iterators over positions return.
func isPositionPtr(p *Program, t types.Type) bool {
	pt, ok := t.(*types.Pointer)
	if !ok || p.pkg("pkg/input/record") == nil {
		return false
	}
	o := p.pkg("pkg/input/record").Scope().Lookup("Position")
	return o != nil && types.Identical(types.Unalias(pt.Elem()), types.Unalias(o.Type()))
}

func isHttpHandler(s *types.Signature) bool {
	return s.Params().Len() == 2 && typeName(s.Params().At(0).Type()) == "net/http.ResponseWriter" && typeName(s.Params().At(1).Type()) == "*net/http.Request"
}

// httpAnswers follows a handler, then each callback it gives to the output.
func httpAnswers(p *Program, r *Report, fn *ssa.Function, sentinel *types.Var, wrapped bool) {
	var response *Term
	w := newWalker(p, r, Hooks{})
	name := fnName(fn)
	type cb struct {
		clo     *Term
		success bool
	}
	construct := func(st *State) string {
		switch st.user.flags["phase"] {
		case 1:
			return name + ": failure of the output"
		case 2:
			return name + ": success of the output"
		}
		return name
	}
	isResponse := func(x *Term) bool {
		s := x
		for s != nil && (s.op == "iface" || s.op == "conv") {
			s = s.args[0]
		}
		return s != nil && s == response
	}
	status := func(st *State, ci *CallInfo, code *Term) {
		c := construct(st)
		if st.user.flags["delegated"] != 0 {
			r.violation("http-one-status", c, ci.pos, "the response is written to although the output has already been given the means to answer", st)
		}
		if st.user.flags["status"] != 0 {
			r.violation("http-one-status", c, ci.pos, "a second status is sent on this path: net/http ignores it", st)
			return
		}
		if st.user.flags["body"] != 0 {
			r.violation("http-one-status", c, ci.pos, "the status is sent after some content: net/http has already sent a success", st)
		}
		n, ok := w.constOf(st, code).intVal()
		if !ok {
			r.violation("http-status-agrees", c, ci.pos, "the status is not a known one: "+code.String(), st)
			n = 1
		}
		st.user.flags["status"] = int(n)
		if st.user.flags["type"] == 0 {
			r.violation("http-one-status", c, ci.pos, "the status is sent before the type of the content is set", st)
		}
	}
	w.h.After = func(ci *CallInfo) {
		st := ci.st
		if ci.name == "encoding/json.Marshal" && stringsOnly(st, ci.args[0]) {
			// never fails on strings
			w.assume(st, w.nilEq(w.res(ci, 1)), true)
			return
		}
		if len(ci.args) > 0 && isResponse(ci.args[0]) {
			switch methodName(ci) {
			case "Header":
				st.user.add("header", ci.result, "")
				return
			case "WriteHeader":
				status(st, ci, ci.args[1])
				return
			case "Write":
				if st.user.flags["status"] == 0 {
					r.violation("http-one-status", construct(st), ci.pos, "content is sent before the status: net/http answers 200", st)
					st.user.flags["status"] = 200
				}
				st.user.flags["body"] = 1
				return
			case "Flush":
				return
			}
		}
		if (ci.name == "(net/http.Header).Set" || ci.name == "(net/http.Header).Add") && len(ci.args) > 1 {
			if _, ok := st.user.has("header", ci.args[0]); ok {
				if st.user.flags["status"] != 0 || st.user.flags["body"] != 0 {
					r.violation("http-one-status", construct(st), ci.pos, "a header is set after the status was sent: it is ignored", st)
				}
				if k, ok := ci.args[1].strVal(); ok && (k == "Content-Type" || k == "content-type") {
					st.user.flags["type"] = 1
				}
			}
			return
		}
		switch ci.name {
		case "net/http.Error":
			if isResponse(ci.args[0]) {
				st.user.flags["type"] = 1
				status(st, ci, ci.args[2])
				st.user.flags["body"] = 1
				return
			}
		case "net/http.NotFound":
			if isResponse(ci.args[0]) {
				st.user.flags["type"] = 1
				status(st, ci, w.tt.intc(404))
				st.user.flags["body"] = 1
				return
			}
		}
		// the output, given its two callbacks
		var cbs []cb
		for _, a := range ci.vargs {
			if a == nil || a.strip() == nil {
				continue
			}
			s := a
			for s.op == "conv" || s.op == "iface" {
				s = s.args[0]
			}
			if s.op != "closure" && s.op != "func" {
				continue
			}
			if isErrorCallback(s.fn.Signature) {
				cbs = append(cbs, cb{s, false})
			} else if isSuccessCallback(s.fn.Signature) {
				cbs = append(cbs, cb{s, true})
			}
		}
		if len(cbs) > 0 && ci.method != nil && ci.method.Name() == "Handle" {
			if st.user.flags["delegated"] != 0 || st.user.flags["status"] != 0 {
				r.violation("http-one-status", construct(st), ci.pos, "the output answers although the request has already been answered", st)
			}
			for _, c := range cbs {
				o := st.clone()
				o.frames = nil
				o.tag = "callback"
				var args []*Term
				if c.success {
					o.user.flags["phase"] = 2
				} else {
					o.user.flags["phase"] = 1
					e := w.param("error", errorType)
					w.assume(o, w.nilEq(e), false)
					o.user.terms["failure"] = e
					args = []*Term{e}
				}
				w.push(o, c.clo.fn, args, c.clo.args, nil, false)
				w.work = append(w.work, o)
			}
			st.user.flags["delegated"] = 1
			return
		}
		for _, a := range ci.vargs {
			if a != nil && isResponse(a) && !isPure(ci) {
				if st.user.flags["phase"] == 2 && ci.fn == nil {
					continue
				}
				if st.user.flags["delegated"] != 0 || st.user.flags["status"] != 0 {
					r.violation("http-one-status", construct(st), ci.pos, "the response is handed over although it has already been answered", st)
				}
				st.user.flags["delegated"] = 1
				r.ok("http-one-status", construct(st), ci.pos, "handed over")
			}
		}
		if st.user.flags["phase"] == 0 {
			if i := errorResult(ci.common.Signature()); i >= 0 && exemptErrorCallee(ci) == "" && len(ci.vargs) > 0 {
				if e := w.res(ci, i); e != nil {
					st.user.add("fallible", e, "")
				}
			}
		}
	}
	w.h.Branch = func(st *State, in *ssa.If, cond *Term, taken bool) {
		if x, isNil := nilFact(cond, taken); x != nil && !isNil {
			if _, ok := st.user.has("fallible", x); ok {
				st.user.flags["failed"] = 1
			}
		}
		if f := st.user.terms["failure"]; f != nil {
			c, v := cond, taken
			for c.op == "un" && c.aux == "!" {
				c, v = c.args[0], !v
			}
			found := c.op == "pure" && c.aux == "errors.Is" && c.args[0] == f && isSentinelTerm(c.args[1], sentinel) ||
				!wrapped && c.op == "bin" && c.aux == "==" && (c.args[0] == f && isSentinelTerm(c.args[1], sentinel) || c.args[1] == f && isSentinelTerm(c.args[0], sentinel))
			if found {
				st.user.flags["notfound"] = 2
				if v {
					st.user.flags["notfound"] = 1
				}
			}
		}
	}
	w.h.Exit = func(st *State, f *ssa.Function, ret []*Term) bool {
		c := construct(st)
		s := st.user.flags["status"]
		r.ok("http-one-status", c, f.Pos(), "headers, then one status, then the content")
		r.ok("http-status-agrees", c, f.Pos(), "the status agrees with the outcome")
		switch st.user.flags["phase"] {
		case 0:
			if st.user.flags["delegated"] != 0 {
				return false
			}
			switch {
			case s == 0:
				r.violation("http-one-status", c, f.Pos(), "this path ends without any response: net/http answers an empty 200", st)
			case st.user.flags["failed"] != 0 && (s < 400 || s == 404):
				r.violation("http-status-agrees", c, f.Pos(), sprintf("the status is %v although a step failed", s), st)
			case st.user.flags["failed"] == 0 && s != 404:
				r.violation("http-status-agrees", c, f.Pos(), sprintf("the status is %v although nothing failed and no output handles the request", s), st)
			}
			if s != 0 && st.user.flags["body"] == 0 {
				r.violation("http-one-status", c, f.Pos(), "the error is sent without any content", st)
			}
		case 1:
			switch {
			case s == 0:
				r.violation("http-one-status", c, f.Pos(), "an error of the output ends without any response: net/http answers an empty 200", st)
			case s < 400:
				r.violation("http-status-agrees", c, f.Pos(), sprintf("an error of the output is answered with the status %v", s), st)
			case st.user.flags["notfound"] == 0:
				r.violation("http-status-agrees", c, f.Pos(), sprintf("the status %v is sent whether or not the error is 'not found'", s), st)
			case st.user.flags["notfound"] == 1 && s != 404:
				r.violation("http-status-agrees", c, f.Pos(), sprintf("'not found' is answered with the status %v", s), st)
			case st.user.flags["notfound"] == 2 && s == 404:
				r.violation("http-status-agrees", c, f.Pos(), "another error is answered with the status 404", st)
			}
			if s != 0 && st.user.flags["body"] == 0 {
				r.violation("http-one-status", c, f.Pos(), "the error is sent without any content", st)
			}
		case 2:
			if s != 0 && s != 200 {
				r.violation("http-status-agrees", c, f.Pos(), sprintf("a success is answered with the status %v", s), st)
			}
			if len(ret) == 0 || !isResponse(ret[0]) {
				r.violation("http-one-status", c, f.Pos(), "the output is not given the response to write its content to", st)
			}
			if st.user.flags["type"] == 0 {
				r.violation("http-one-status", c, f.Pos(), "the success is sent without the type of its content", st)
			}
		}
		return false
	}
	w.start(fn, func(st *State, args []*Term) {
		for i, a := range args {
			if typeName(fn.Params[i].Type()) == "net/http.ResponseWriter" {
				response = a
			}
		}
	})
	r.walked(w)
}

// stringsOnly: a map or struct in which everything known to be stored is text.
func stringsOnly(st *State, x *Term) bool {
	for x.op == "iface" || x.op == "conv" {
		x = x.args[0]
	}
	text := func(v *Term) bool {
		for v.op == "iface" {
			if b, ok := v.typ.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
				return true
			}
			v = v.args[0]
		}
		if v.typ == nil {
			return v.op == "const"
		}
		b, ok := v.typ.Underlying().(*types.Basic)
		return ok && b.Info()&types.IsString != 0
	}
	switch x.op {
	case "struct":
		for _, a := range x.args {
			if a == nil || !text(a) {
				return false
			}
		}
		return len(x.args) > 0
	case "mk":
		n := 0
		for cell, v := range st.heap {
			if cell.op == "mcell" && cell.args[0] == x {
				n++
				if !text(v) {
					return false
				}
			}
		}
		return n > 0
	}
	return x.typ != nil && func() bool {
		m, ok := x.typ.Underlying().(*types.Map)
		if !ok {
			return false
		}
		b, ok := m.Elem().Underlying().(*types.Basic)
		return ok && b.Info()&types.IsString != 0
	}()
}
