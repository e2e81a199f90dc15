package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C20", checkFiles) }

// fileEffect classifies a function outside of the repository: "" (does not
// change files), "create" (makes or opens a file to write it), "change"
// (removes, renames, modifies something which exists).
func fileEffect(o *types.Func) string {
	if o == nil || o.Pkg() == nil {
		return ""
	}
	recv := ""
	if rc := o.Type().(*types.Signature).Recv(); rc != nil {
		recv = types.TypeString(rc.Type(), nil)
	}
	switch o.Pkg().Path() {
	case "os":
		if recv == "*os.Root" {
			return "change"
		}
		if recv != "" {
			if recv == "*os.File" && (o.Name() == "Chmod" || o.Name() == "Chown" || o.Name() == "Truncate") {
				return "change"
			}
			return ""
		}
		switch o.Name() {
		case "Create", "OpenFile":
			return "create"
		case "WriteFile", "Remove", "RemoveAll", "Rename", "Truncate", "Chmod", "Chown", "Lchown", "Chtimes", "Link", "Symlink",
			"Mkdir", "MkdirAll", "MkdirTemp", "CreateTemp", "CopyFS", "StartProcess", "NewFile", "OpenInRoot":
			return "change"
		}
	case "io/ioutil":
		switch o.Name() {
		case "WriteFile", "TempFile", "TempDir":
			return "change"
		}
	case "syscall":
		switch o.Name() {
		case "Open", "Creat", "Unlink", "Rename", "Truncate", "Ftruncate", "Rmdir", "Mkdir", "Exec", "ForkExec", "StartProcess", "Syscall", "RawSyscall", "Chmod", "Link", "Symlink", "Mmap":
			return "change"
		}
	case "os/exec":
		if recv == "" || o.Name() == "Run" || o.Name() == "Start" || o.Name() == "Output" || o.Name() == "CombinedOutput" {
			return "change"
		}
	}
	return ""
}

// openFlags: what the flags of os.OpenFile ask for, when they are a constant.
func openFlags(v ssa.Value) string {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil {
		return "create"
	}
	n, exact := constant.Int64Val(c.Value)
	if !exact {
		return "create"
	}
	f := int(n)
	if f&(os.O_WRONLY|os.O_RDWR|os.O_CREATE|os.O_TRUNC|os.O_APPEND) == 0 {
		return "read"
	}
	if f&os.O_CREATE != 0 && f&os.O_EXCL != 0 {
		return "exclusive"
	}
	return "create"
}

func calleeObj(c *ssa.CallCommon) *types.Func {
	if c.IsInvoke() {
		return c.Method
	}
	if f := c.StaticCallee(); f != nil {
		o, _ := f.Object().(*types.Func)
		return o
	}
	return nil
}

// leadText is the constant beginning of a text.
func leadText(t *Term) (string, bool) {
	for d := 0; d < 40 && t != nil; d++ {
		if s, ok := t.strVal(); ok {
			return s, true
		}
		switch {
		case t.op == "bin" && t.aux == "+":
			t = t.args[0]
		case t.op == "pure" && (t.aux == "fmt.Sprintf" || strings.HasPrefix(t.aux, "strings.Trim") || t.aux == "strings.ToUpper" || strings.HasPrefix(t.aux, "strings.Replace")):
			t = t.args[0]
		default:
			return "", false
		}
	}
	return "", false
}

// sqlVerb: what a statement does: "read", "setting", "change", "".
func sqlVerb(t *Term) string {
	text, ok := leadText(t)
	if !ok {
		return ""
	}
	words := strings.Fields(strings.ToUpper(text))
	if len(words) == 0 {
		return ""
	}
	switch strings.TrimRight(words[0], "(;") {
	case "SELECT", "EXPLAIN":
		return "read"
	case "PRAGMA", "BEGIN", "COMMIT", "ROLLBACK", "SAVEPOINT", "RELEASE", "END":
		return "setting"
	}
	return "change"
}

// zeroImplied: the outcome of this condition says that the counter x is zero.
func zeroImplied(cond *Term, taken bool, isCounter func(*Term) bool) bool {
	for cond.op == "un" && cond.aux == "!" {
		cond, taken = cond.args[0], !taken
	}
	if cond.op != "bin" {
		return isCounter(cond) && !taken // scanned as a boolean
	}
	op, a, b := cond.aux, cond.args[0], cond.args[1]
	if isCounter(b) {
		a, b = b, a
		switch op {
		case "<":
			op = ">"
		case ">":
			op = "<"
		case "<=":
			op = ">="
		case ">=":
			op = "<="
		}
	}
	if !isCounter(a) {
		return false
	}
	n, ok := b.intVal()
	if !ok {
		return false
	}
	if !taken {
		neg := map[string]string{"==": "!=", "!=": "==", "<": ">=", ">": "<=", "<=": ">", ">=": "<"}
		op = neg[op]
	}
	switch op {
	case "==":
		return n == 0
	case "<":
		return n == 1
	case "<=":
		return n == 0
	}
	return false
}

func checkFiles(p *Program, r *Report) {
	r.explanation = "Every call (and every mention) of a function which creates, changes or removes files, and every SQL statement, is enumerated over the whole program. Those which create or change are only allowed on the paths of the constructors of the indexes where, before, " +
		"the file system said that nothing exists at that same place, or the database said that it has no such table."
	r.rule("only-index-files", 1, "no file is written, replaced, renamed or removed, but the file of an index, at the place given by the configuration of that index")
	r.rule("absent-before-created", 1, "the file of an index is only created once the file system said that nothing exists at that place")
	r.rule("no-table-before-created", 4, "the statements which change a database only run once it said that it does not have the index yet")
	r.rule("searches-read", 2, "the statements of the searches only read")
	r.assumptions = []string{"the index files of the configuration are not the input files", "the count of the tables of a given name is zero exactly when the index does not exist in the database"}
	r.outside = []string{"what another process does between the moment when the absence is observed and the creation", "the temporary files of sqlite"}

	// 1. enumeration
	type site struct {
		fn   *ssa.Function
		in   ssa.Instruction
		kind string
		what string
	}
	sites := map[ssa.Instruction]*site{}
	var order []*site
	for _, fn := range p.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var callee ssa.Value
				if ci, ok := in.(ssa.CallInstruction); ok {
					c := ci.Common()
					if !c.IsInvoke() {
						callee = c.Value
					}
					o := calleeObj(c)
					kind := fileEffect(o)
					if o != nil && kind != "" && o.FullName() == "os.OpenFile" {
						kind = openFlags(c.Args[1])
					}
					if kind == "read" {
						r.ok("only-index-files", fnName(fn)+": "+o.FullName(), in.Pos(), "opened for reading")
						kind = ""
					}
					if kind != "" {
						s := &site{fn, in, kind, shortName(o.FullName())}
						sites[in] = s
						order = append(order, s)
					}
					if sqlTextArg(c) != nil {
						s := &site{fn, in, "sql", shortName(o.FullName())}
						sites[in] = s
						order = append(order, s)
					}
				}
				// mentions which are not calls
				var ops []*ssa.Value
				for _, op := range in.Operands(ops) {
					f, ok := (*op).(*ssa.Function)
					if !ok || *op == callee {
						continue
					}
					o, _ := f.Object().(*types.Func)
					if k := fileEffect(o); k != "" {
						r.violation("only-index-files", fnName(fn)+": "+shortName(o.FullName()), in.Pos(), "a function which changes files is handed over, where its uses cannot be followed", nil)
					}
				}
			}
		}
	}
	touch := p.touching(func(fn *ssa.Function, in ssa.Instruction) bool {
		ci, ok := in.(ssa.CallInstruction)
		if !ok {
			return false
		}
		o := calleeObj(ci.Common())
		return o != nil && o.Pkg() != nil && (o.Pkg().Path() == "os" && o.Type().(*types.Signature).Recv() == nil ||
			o.Pkg().Path() == "errors" && o.Name() == "Is" || o.Pkg().Path() == "database/sql")
	})
	r.stats["file_and_statement_sites"] = len(order)
	for _, s := range order {
		if s.kind == "change" {
			r.violation("only-index-files", fnName(s.fn)+": "+s.what, s.in.Pos(), "the server changes the files around it: "+s.what+" removes, replaces or modifies something which can be an input or an existing index", nil)
		}
	}

	// 2. the constructors of the indexes
	ctors := indexConstructors(p)
	covered := map[ssa.Instruction]bool{}
	verbs := map[ssa.Instruction]string{}
	for _, ctor := range ctors {
		name := fnName(ctor)
		r.funcs[name] = true
		w := newWalker(p, r, Hooks{})
		w.h.Inline = func(st *State, f *ssa.Function) bool { return touch[f] }
		var cfg *Term
		absent := func(st *State, path *Term) bool {
			_, ok := st.user.has("absent", path)
			return ok
		}
		w.h.Before = func(ci *CallInfo) bool {
			in := ci.instr
			r.funcs[fnName(in.Parent())] = true
			s := sites[in]
			if s == nil || ci.fn != nil && p.inRepo(ci.fn) {
				return false
			}
			st := ci.st
			construct := fnName(s.fn) + ": " + s.what
			switch s.kind {
			case "create", "exclusive":
				covered[in] = true
				path := ci.arg(0)
				if path == nil || !fromConfig(path, cfg) {
					r.violation("only-index-files", construct, in.Pos(), "the created file is not the one of the configuration of the index: another file can be overwritten", st)
				} else {
					r.ok("only-index-files", construct, in.Pos(), "the path of the configuration of the index")
				}
				if s.kind == "exclusive" {
					r.ok("absent-before-created", construct, in.Pos(), "fails when the file exists")
				} else if absent(st, path) {
					r.ok("absent-before-created", construct, in.Pos(), "only after the file system said that nothing exists at this path")
				} else {
					r.violation("absent-before-created", construct, in.Pos(), "the file can be created (and emptied) although the file system did not say that nothing exists at this path", st)
				}
			case "sql":
				covered[in] = true
				var text *Term
				if v := sqlTextArg(ci.common); v != nil {
					text = w.val(st, v)
				}
				v := sqlVerb(text)
				lead, _ := leadText(text)
				construct += " " + strings.Join(firstWords(lead, 3), " ")
				verbs[in] = v
				switch v {
				case "change":
					r.check(st.user.flags["notable"] > 0, "no-table-before-created", construct, in.Pos(),
						"only after the database said that it does not have the index", "")
					if st.user.flags["notable"] == 0 {
						r.violation("no-table-before-created", construct, in.Pos(), "the database is changed although it did not say that it does not have the index yet: an existing index can be modified", st)
					}
				case "":
					r.undecided("no-table-before-created", construct, in.Pos(), "the beginning of the statement is not a constant")
				}
			}
			return false
		}
		w.h.After = func(ci *CallInfo) {
			st := ci.st
			switch methodName(ci) {
			case "Scan":
				q := ci.arg(0)
				if q == nil || !masterQuery(q) {
					return
				}
				for _, a := range ci.vargs[1:] {
					s := a
					for s.op == "iface" {
						s = s.args[0]
					}
					st.user.add("counter", w.load(st, s, pointee(s.typ)), "x")
				}
			}
		}
		w.h.Branch = func(st *State, in *ssa.If, cond *Term, taken bool) {
			c, t := cond, taken
			for c.op == "un" && c.aux == "!" {
				c, t = c.args[0], !t
			}
			if path := notExistOf(c); path != nil && t {
				st.user.add("absent", path, "x")
			}
			if zeroImplied(cond, taken, func(x *Term) bool {
				if x.op == "conv" {
					x = x.args[0]
				}
				_, ok := st.user.has("counter", x)
				return ok
			}) {
				st.user.flags["notable"] = 1
			}
			// rows.Next() is false, row.Scan() says sql.ErrNoRows
			if c.op == "call" && c.call != nil && methodName(c.call) == "Next" && !t && masterQuery(c.call.arg(0)) {
				st.user.flags["notable"] = 1
			}
			if noRows(c) && t {
				st.user.flags["notable"] = 1
			}
		}
		w.start(ctor, func(st *State, args []*Term) {
			for _, a := range args {
				if n := named(a.typ); n != nil {
					if _, ok := n.Underlying().(*types.Struct); ok && cfg == nil {
						cfg = a
					}
				}
			}
		})
		r.walked(w)
	}

	// 3. what the constructors do not reach
	for _, s := range order {
		if covered[s.in] || s.kind == "change" {
			continue
		}
		construct := fnName(s.fn) + ": " + s.what
		switch s.kind {
		case "create", "exclusive":
			r.violation("only-index-files", construct, s.in.Pos(), "a file is created outside of the creation of an index", nil)
		case "sql":
			v, text := constVerb(sqlTextArg(s.in.(ssa.CallInstruction).Common()), 0)
			construct += " " + strings.Join(firstWords(text, 3), " ")
			switch v {
			case "read":
				r.ok("searches-read", construct, s.in.Pos(), "only reads")
			case "":
				r.undecided("searches-read", construct, s.in.Pos(), "the beginning of the statement is not a constant")
			case "setting":
				r.violation("searches-read", construct, s.in.Pos(), "the settings of the database are changed outside of the opening of the index", nil)
			default:
				r.violation("searches-read", construct, s.in.Pos(), "a statement which changes the database runs outside of the creation of an index", nil)
			}
		}
	}
	for in, v := range verbs {
		if v == "read" {
			s := sites[in]
			r.ok("searches-read", fnName(s.fn)+": "+s.what, in.Pos(), "only reads")
		}
	}
}

func firstWords(s string, n int) []string {
	f := strings.Fields(s)
	if len(f) > n {
		f = f[:n]
	}
	return f
}

// constVerb: the verb of a statement, from the source of its beginning.
func constVerb(v ssa.Value, depth int) (string, string) {
	if depth > 12 || v == nil {
		return "", ""
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil || x.Value.Kind() != constant.String {
			return "", ""
		}
		s := constant.StringVal(x.Value)
		w := firstWords(strings.ToUpper(s), 1)
		if len(w) == 0 {
			return "", ""
		}
		tt := newTermTable()
		return sqlVerb(tt.strc(s)), s
	case *ssa.BinOp:
		if x.Op == token.ADD {
			return constVerb(x.X, depth+1)
		}
	case *ssa.Phi:
		// a text which grows: every value it can have begins the same way
		verb, text := "", ""
		for _, e := range x.Edges {
			if leadsTo(e, x, 0) {
				continue
			}
			v, t := constVerb(e, depth+1)
			if v == "" || verb != "" && v != verb {
				return "", ""
			}
			verb, text = v, t
		}
		return verb, text
	case *ssa.Call:
		if f := x.Call.StaticCallee(); f != nil {
			n := f.String()
			if n == "fmt.Sprintf" || strings.HasPrefix(n, "strings.Trim") {
				return constVerb(x.Call.Args[0], depth+1)
			}
			if n == "strings.Join" {
				return joinedVerb(x.Call.Args[0], depth+1)
			}
			if n == "(*strings.Builder).String" || n == "(*bytes.Buffer).String" {
				return builderVerb(x, depth+1)
			}
			// a function of the repository: all its results
			if f.Blocks != nil && strings.HasPrefix(f.String(), modulePath) || f.Pkg != nil && f.Blocks != nil && strings.HasPrefix(f.Pkg.Pkg.Path(), modulePath) {
				return resultVerb(f, 0, depth+1)
			}
		}
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			if f := c.Call.StaticCallee(); f != nil && f.Blocks != nil && f.Pkg != nil && strings.HasPrefix(f.Pkg.Pkg.Path(), modulePath) {
				return resultVerb(f, x.Index, depth+1)
			}
		}
	case *ssa.UnOp:
		if al, ok := x.X.(*ssa.Alloc); ok {
			verb, text := "", ""
			for _, ref := range *al.Referrers() {
				if st, ok := ref.(*ssa.Store); ok && st.Addr == al {
					v, t := constVerb(st.Val, depth+1)
					if leadsTo(st.Val, x, 0) {
						continue
					}
					if v == "" || verb != "" && v != verb {
						return "", ""
					}
					verb, text = v, t
				}
			}
			return verb, text
		}
	}
	return "", ""
}

func leadsTo(v, x ssa.Value, d int) bool {
	for ; d < 20; d++ {
		if v == x {
			return true
		}
		b, ok := v.(*ssa.BinOp)
		if !ok || b.Op != token.ADD {
			return false
		}
		v = b.X
	}
	return false
}

func resultVerb(f *ssa.Function, i, depth int) (string, string) {
	verb, text := "", ""
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			ret, ok := in.(*ssa.Return)
			if !ok || i >= len(ret.Results) {
				continue
			}
			if c, ok := ret.Results[i].(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String && constant.StringVal(c.Value) == "" && len(ret.Results) > 1 {
				continue // with an error
			}
			v, t := constVerb(ret.Results[i], depth)
			if v == "" || verb != "" && v != verb {
				return "", ""
			}
			verb, text = v, t
		}
	}
	return verb, text
}

// joinedVerb: the first element of a list of texts.
func joinedVerb(v ssa.Value, depth int) (string, string) {
	sl, ok := v.(*ssa.Slice)
	if !ok {
		return "", ""
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return "", ""
	}
	for _, ref := range *al.Referrers() {
		ia, ok := ref.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		if c, ok := ia.Index.(*ssa.Const); !ok || c.Int64() != 0 {
			continue
		}
		for _, ref2 := range *ia.Referrers() {
			if st, ok := ref2.(*ssa.Store); ok {
				return constVerb(st.Val, depth)
			}
		}
	}
	return "", ""
}

// builderVerb: the first text written to a builder which is local to the
// function.
func builderVerb(call *ssa.Call, depth int) (string, string) {
	al, ok := call.Call.Args[0].(*ssa.Alloc)
	if !ok {
		return "", ""
	}
	var first *ssa.Call
	for _, ref := range *al.Referrers() {
		c, ok := ref.(*ssa.Call)
		if !ok || c.Call.StaticCallee() == nil || c.Call.StaticCallee().Name() != "WriteString" || len(c.Call.Args) < 2 {
			continue
		}
		if first == nil || c.Block() == first.Block() && instrIndex(c) < instrIndex(first) || c.Block() != first.Block() && c.Block().Dominates(first.Block()) {
			first = c
		}
	}
	if first == nil {
		return "", ""
	}
	return constVerb(first.Call.Args[1], depth)
}

// fromConfig: a field of the configuration given to the constructor.
func fromConfig(path, cfg *Term) bool {
	if cfg == nil {
		return false
	}
	x := path
	for x != nil {
		if x == cfg {
			return true
		}
		switch {
		case len(x.args) > 0 && (x.op == "load" || x.op == "ld" || x.op == "faddr" || x.op == "fld" || x.op == "cell" || x.op == "init"):
			x = x.args[0]
		case x.op == "pure" && (x.aux == "path/filepath.Clean" || x.aux == "path.Clean"):
			x = x.args[0]
		default:
			return false
		}
	}
	return false
}

// notExistOf: the condition is that the file at a path does not exist.
func notExistOf(c *Term) *Term {
	var err *Term
	if c.op == "pure" && c.aux == "os.IsNotExist" {
		err = c.args[0]
	} else if c.op == "pure" && c.aux == "errors.Is" && len(c.args) == 2 && strings.Contains(c.args[1].String(), "ErrNotExist") {
		err = c.args[0]
	}
	if err == nil {
		return nil
	}
	for err.op == "iface" {
		err = err.args[0]
	}
	if err.op != "ext" || err.args[0].call == nil {
		return nil
	}
	ci := err.args[0].call
	switch ci.name {
	case "os.Stat", "os.Lstat", "os.Open", "os.ReadFile":
		return ci.arg(0)
	}
	return nil
}

// masterQuery: the rows of a query on the tables of the database.
func masterQuery(t *Term) bool {
	if t == nil {
		return false
	}
	return t.any(func(x *Term) bool {
		if x.call == nil || !(methodName(x.call) == "QueryRow" || methodName(x.call) == "Query" || strings.HasPrefix(methodName(x.call), "Query")) {
			return false
		}
		for _, a := range x.call.vargs {
			if a.any(func(y *Term) bool {
				s, ok := y.strVal()
				return ok && (strings.Contains(s, "sqlite_master") || strings.Contains(s, "sqlite_schema"))
			}) {
				return true
			}
		}
		return false
	})
}

// noRows: the condition that a query on the tables gave no row.
func noRows(c *Term) bool {
	var x, y *Term
	if c.op == "bin" && c.aux == "==" || c.op == "pure" && c.aux == "errors.Is" && len(c.args) == 2 {
		x, y = c.args[0], c.args[1]
	} else {
		return false
	}
	if strings.Contains(x.String(), "ErrNoRows") {
		x, y = y, x
	}
	if !strings.Contains(y.String(), "ErrNoRows") {
		return false
	}
	for x.op == "iface" || x.op == "ext" {
		x = x.args[0]
	}
	return x.call != nil && methodName(x.call) == "Scan" && masterQuery(x.call.arg(0))
}
