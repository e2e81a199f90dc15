package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C08", checkErrors) }

var errorType = types.Universe.Lookup("error").Type()

func isError(t types.Type) bool { return t != nil && types.Identical(t, errorType) }

// exemptErrorCallee: the calls whose error never says that something did not
// work, or whose failure has no consequence. Each with its reason.
func exemptErrorCallee(ci *CallInfo) string {
	n := ci.name
	switch {
	case strings.HasPrefix(n, "fmt.Print"), strings.HasPrefix(n, "(*strings.Builder)."), strings.HasPrefix(n, "(*bytes.Buffer).Write"):
		return "never fails"
	case n == "errors.New" || n == "fmt.Errorf" || n == "errors.Join" || n == "errors.Unwrap":
		return "builds an error"
	case strings.Contains(n, "sirupsen/logrus"):
		return "logging"
	}
	if ci.common.IsInvoke() || ci.fn != nil {
		// an Err() accessor returns what is known, it performs nothing
		if n == "(context.Context).Err" {
			return "accessor"
		}
	}
	if methodName(ci) == "Close" {
		t := ""
		if rt := recvType(ci); rt != nil {
			t = typeName(rt)
		}
		switch t {
		case "*database/sql.Rows", "*database/sql.Stmt", "*os.File", "io.Closer", "io.ReadCloser", "*database/sql.DB", "*github.com/fsnotify/fsnotify.Watcher":
			if ci.kind == "defer" {
				return "deferred release of something that was only read"
			}
		}
	}
	return ""
}

type sentinelRule struct {
	sentinel string // global or predicate
	callee   string // "" : any
	context  func(p *Program, fn *ssa.Function) bool
	reason   string
}

func isIteratorFn(fn *ssa.Function) bool {
	s := fn.Signature
	return s.Params().Len() == 0 && s.Recv() == nil && s.Results().Len() == 2 && isError(s.Results().At(1).Type()) &&
		strings.HasSuffix(typeName(s.Results().At(0).Type()), "record.Record")
}

// mayBeAbsent: only the file of an index may be missing, the inputs, the
// configuration and the certificates may not.
func mayBeAbsent(p *Program, fn *ssa.Function) bool {
	in := func(f *ssa.Function) bool {
		return f.Pkg != nil && f.Pkg.Pkg.Path() == modulePath+"/pkg/index"
	}
	return p.onlyFrom(fn, in, 3)
}

// The outcomes of a call which are not failures.
var sentinels = []sentinelRule{
	{"io.EOF", "", func(p *Program, fn *ssa.Function) bool { return p.onlyFrom(fn, isIteratorFn, 3) }, "end of the file while iterating: no more records"},
	{"encoding/csv.ErrFieldCount", "(*encoding/csv.Reader).Read", nil, "documented: a row with another number of columns is only warned about"},
	{"os.IsNotExist", "os.Stat", mayBeAbsent, "no index file yet: it is created"},
	{"os.ErrNotExist", "os.Stat", mayBeAbsent, "no index file yet: it is created"},
	{"net/http.ErrServerClosed", "", nil, "the server was closed on purpose"},
	{"output.RecordNotFoundError", "", nil, "reported as not found"},
}

func checkErrors(p *Program, r *Report) {
	r.explanation = "Every function of the repository is explored path by path. Each call which returns an error opens an obligation on that value: on every path it is either known to be nil, " +
		"or one of the enumerated outcomes which are not failures, or the function ends by returning a non-nil error (for the functions which cannot return one: the error is handed to a reporting call, or the process is ended)."
	r.rule("error-reported", 150, "a failed step makes the operation fail: no error is dropped, overwritten, or replaced by a success")
	r.rule("iteration-error", 1, "the end of a database iteration is told apart from its failure with Err()")
	r.rule("more-false", 1, "the end of a JSON stream is told apart from a failure to read it")
	for _, fn := range p.funcs {
		if skipFunc(p, fn) {
			continue
		}
		errorPaths(p, r, fn)
	}
}

// skipFunc: mocks, and package initialisers.
func skipFunc(p *Program, fn *ssa.Function) bool {
	if fn.Signature.Recv() != nil {
		if n := named(fn.Signature.Recv().Type()); n != nil && p.isMock(n) {
			return true
		}
	}
	f := p.fset.Position(fn.Pos()).Filename
	return strings.HasSuffix(f, "/mock.go") || fn.Name() == "init" || len(fn.Blocks) == 0
}

func hasErrorParam(fn *ssa.Function) bool {
	for i := 0; i < fn.Signature.Params().Len(); i++ {
		if isError(fn.Signature.Params().At(i).Type()) {
			return true
		}
	}
	return false
}

func errorResult(sig *types.Signature) int {
	for i := sig.Results().Len() - 1; i >= 0; i-- {
		if isError(sig.Results().At(i).Type()) {
			return i
		}
	}
	return -1
}

func errorPaths(p *Program, r *Report, fn *ssa.Function) {
	ri := errorResult(fn.Signature)
	w := newWalker(p, r, Hooks{})
	infos := map[*Term]*CallInfo{}
	construct := func(ci *CallInfo) string {
		n := ci.name
		if n == "" {
			n = "a function value"
		}
		return fnName(fn) + " calls " + n
	}
	discharge := func(st *State) {
		for e, tag := range st.user.sets["err"] {
			if tag != "failed" && tag != "open" {
				continue
			}
			if n, k := w.isNil(st, e); k {
				if n {
					st.user.del("err", e)
				} else if tag == "open" {
					st.user.add("err", e, "failed")
				}
			}
		}
	}
	w.h.Inline = func(st *State, f *ssa.Function) bool {
		return (hasErrorParam(f) || f.Parent() != nil && f.Parent() == fn) && len(st.frames) < 4
	}
	w.h.After = func(ci *CallInfo) {
		st := ci.st
		if strings.HasPrefix(ci.name, "builtin") {
			return
		}
		// handed over
		for _, a := range ci.vargs {
			if a == nil || isPure(ci) {
				continue
			}
			for e := range st.user.sets["err"] {
				if a.contains(e) {
					st.user.add("passed", e, "")
				}
			}
		}
		switch ci.name {
		case "(*database/sql.Rows).Next":
			st.user.terms["rows"] = ci.args[0]
			st.user.terms["next"] = ci.result
		case "(*database/sql.Rows).Err":
			delete(st.user.flags, "rowsend")
		case "(*encoding/json.Decoder).More":
			st.user.terms["more"] = ci.result
		case "(*encoding/json.Decoder).Token", "(*encoding/json.Decoder).Decode":
			if st.user.flags["moreend"] != 0 {
				delete(st.user.flags, "moreend")
				r.ok("more-false", fnName(fn), ci.pos, "Token() after More() is false")
			}
		}
		if len(st.frames) != 1 && st.frames[len(st.frames)-1].fn.Parent() != fn {
			return
		}
		sig := ci.common.Signature()
		i := errorResult(sig)
		if i < 0 || exemptErrorCallee(ci) != "" {
			return
		}
		if ci.kind == "go" {
			return
		}
		e := w.res(ci, i)
		if e == nil {
			return
		}
		infos[e] = ci
		st.user.add("err", e, "open")
		r.ok("error-reported", construct(ci), ci.pos, "every path deals with the error")
	}
	w.h.Branch = func(st *State, in *ssa.If, cond *Term, taken bool) {
		if nx := st.user.terms["next"]; nx != nil && cond == nx && !taken {
			st.user.flags["rowsend"] = 1
			delete(st.user.terms, "next")
		}
		if m := st.user.terms["more"]; m != nil && cond == m && !taken {
			st.user.flags["moreend"] = 1
			delete(st.user.terms, "more")
		}
		discharge(st)
		// the outcomes which are not failures
		c := cond
		v := taken
		for c.op == "un" && c.aux == "!" {
			c, v = c.args[0], !v
		}
		if !v {
			return
		}
		for e := range st.user.sets["err"] {
			ci := infos[e]
			if ci == nil {
				continue
			}
			if s := sentinelOf(c, e); s != "" {
				for _, sr := range sentinels {
					if sr.sentinel == s && (sr.callee == "" || sr.callee == ci.name) && (sr.context == nil || sr.context(p, fn)) {
						st.user.add("err", e, "expected")
					}
				}
			}
		}
	}
	w.h.Store = func(st *State, in *ssa.Store, addr, val *Term) {
		if rootOf(addr).op == "alloc" {
			return
		}
		for e := range st.user.sets["err"] {
			if val.contains(e) {
				st.user.add("passed", e, "")
			}
		}
	}
	report := func(st *State, e *Term, why string) {
		ci := infos[e]
		if ci == nil {
			// a former iteration's value: found by its site
			for t, c := range infos {
				if sameSite(t, e) {
					ci = c
				}
			}
		}
		if ci == nil {
			r.undecided("error-reported", fnName(fn)+": "+e.String(), fn.Pos(), "the origin of the error is not known")
			return
		}
		r.violation("error-reported", construct(ci), ci.pos, why, st)
	}
	w.h.Exit = func(st *State, f *ssa.Function, ret []*Term) bool {
		discharge(st)
		failed := false
		var re *Term
		if ri >= 0 {
			re = ret[ri]
			if n, k := w.isNil(st, re); k && !n {
				failed = true
			}
			if !failed && re.op == "call" {
				for _, a := range re.args {
					if a == nil {
						continue
					}
					if isError(a.typ) || a.op == "pure" {
						if n, k := w.isNil(st, a); k && !n {
							failed = true
						}
					}
				}
			}
		}
		if failed {
			return false
		}
		for e, tag := range st.user.sets["err"] {
			if tag == "expected" {
				continue
			}
			if re != nil && re.contains(e) {
				continue
			}
			if ri < 0 || isRelease(infos[e]) {
				if _, ok := st.user.has("passed", e); ok {
					continue
				}
			}
			what := "is never looked at"
			if tag == "failed" {
				what = "is not nil on this path"
			}
			report(st, e, "the error of this call "+what+", and "+fnName(fn)+" does not report a failure")
		}
		if st.user.flags["rowsend"] != 0 {
			r.violation("iteration-error", fnName(fn), fn.Pos(), "rows.Next() ended the loop, and rows.Err() is not consulted: a failed query is taken for a complete one", st)
		} else if st.user.terms["rows"] != nil {
			r.ok("iteration-error", fnName(fn), fn.Pos(), "rows.Err() consulted")
		}
		if st.user.flags["moreend"] != 0 {
			r.violation("more-false", fnName(fn), fn.Pos(), "More() is false both at the end of the file and when reading fails, and nothing tells them apart", st)
		}
		return false
	}
	w.start(fn, nil)
	r.walked(w)
}

// isRelease: the call gives back a resource at the end of an operation whose
// outcome is already known. Reporting its failure in the logs is enough.
func isRelease(ci *CallInfo) bool {
	if ci == nil {
		return false
	}
	sig := ci.common.Signature()
	if sig.Params().Len() != 0 || sig.Results().Len() != 1 {
		return false
	}
	if methodName(ci) == "Close" {
		return true
	}
	// the callback returned along with an iterator
	c := ci.callee
	return ci.name == "" && c != nil && c.op == "ext" && c.args[0].call != nil && methodName(c.args[0].call) == "IterateAll"
}

func sameSite(a, b *Term) bool {
	strip := func(t *Term) *Term {
		if t.op == "ext" {
			return t.args[0]
		}
		return t
	}
	x, y := strip(a), strip(b)
	return x.aux == y.aux
}

// sentinelOf: the condition c says that the error e is a particular outcome.
func sentinelOf(c, e *Term) string {
	glob := func(t *Term) string {
		if t.op == "ld" && t.args[0].op == "global" {
			return shortName(t.args[0].aux)
		}
		return ""
	}
	if c.op == "bin" && c.aux == "==" {
		if c.args[0] == e {
			return glob(c.args[1])
		}
		if c.args[1] == e {
			return glob(c.args[0])
		}
	}
	if c.op == "pure" && len(c.args) > 0 && c.args[0] == e {
		switch c.aux {
		case "errors.Is":
			return glob(c.args[1])
		case "os.IsNotExist", "os.IsExist":
			return c.aux
		}
	}
	return ""
}
