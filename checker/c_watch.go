package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C19", checkWatch) }

const fsnotifyPkg = "github.com/fsnotify/fsnotify"

func isFsnotify(t types.Type, name string) bool {
	n := named(t)
	return n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == fsnotifyPkg && (name == "" || n.Obj().Name() == name)
}

// taggedField: the field of a struct with a given yaml tag.
func taggedField(t types.Type, tag string) int {
	n := named(t)
	if n == nil {
		return -1
	}
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return -1
	}
	for i := 0; i < st.NumFields(); i++ {
		if yamlTag(st, i) == tag {
			return i
		}
	}
	return -1
}

// received: the receive, and which part of it (the chosen case, the ok flag)
// a value is.
func received(v ssa.Value) (ssa.Instruction, int, bool) {
	e, ok := v.(*ssa.Extract)
	if !ok {
		return nil, 0, false
	}
	switch t := e.Tuple.(type) {
	case *ssa.Select:
		return t, e.Index, true
	case *ssa.UnOp:
		if t.Op == token.ARROW {
			return t, e.Index + 10, true // 11: ok
		}
	}
	return nil, 0, false
}

func isEventChan(t types.Type) bool {
	c, ok := t.Underlying().(*types.Chan)
	return ok && isFsnotify(c.Elem(), "Event")
}

// writeTest evaluates a condition on the operations of an event which has
// (at least) the bit of the writes.
func writeTest(cond *Term, write int64) (val, known bool) {
	if cond.op == "un" && cond.aux == "!" {
		v, k := writeTest(cond.args[0], write)
		return !v, k
	}
	if cond.call != nil && methodName(cond.call) == "Has" && len(cond.call.args) == 2 {
		if c, ok := cond.call.args[1].strip().intVal(); ok && c == write {
			return true, true
		}
		return false, false
	}
	if cond.op != "bin" || len(cond.args) != 2 {
		return false, false
	}
	a, b := cond.args[0], cond.args[1]
	if a.isConst() {
		a, b = b, a
	}
	d, ok := b.strip().intVal()
	if !ok {
		return false, false
	}
	a = a.strip()
	if a.op != "bin" || a.aux != "&" {
		return false, false
	}
	c, ok := a.args[1].strip().intVal()
	if !ok {
		c, ok = a.args[0].strip().intVal()
	}
	if !ok || c&write == 0 {
		return false, false
	}
	if c == write {
		switch cond.aux {
		case "==":
			return c == d, true
		case "!=":
			return c != d, true
		case ">":
			return c > d, true
		}
		return false, false
	}
	if d == 0 {
		switch cond.aux {
		case "==":
			return false, true
		case "!=", ">":
			return true, true
		}
	}
	return false, false
}

func checkWatch(p *Program, r *Report) {
	r.explanation = "The constructor of every input is explored path by path, and each goroutine it starts which receives file events is followed from there, with what is known about the configuration: whatever the other events, an event with the bit of the writes " +
		"must end the process exactly when the setting is true or not set, and otherwise be logged, and the loop only ends with its channel."
	r.rule("watched", 3, "an input which is ready has its own file watched, by a process which receives the events")
	r.rule("dies", 3, "an event which contains a write ends the process unless the setting is false")
	r.rule("goes-on", 3, "when the setting is false, an event which contains a write is logged, and does not end the process")
	r.rule("keeps-watching", 3, "the events are received until the watcher is closed")
	r.rule("default", 3, "the validation of the configuration does not change the setting, except from unset to true")
	r.assumptions = []string{"the events of the file system are delivered by fsnotify, as documented", "a logger whose level is Fatal ends the process with a non-zero status"}
	r.outside = []string{"a file which is replaced by another one (renamed over), which is not a write", "the delay of the notification"}

	touch := p.touching(func(fn *ssa.Function, in ssa.Instruction) bool {
		if ci, ok := in.(ssa.CallInstruction); ok {
			if o := calleeObj(ci.Common()); o != nil && o.Pkg() != nil {
				if o.Pkg().Path() == fsnotifyPkg || o.FullName() == "os.Exit" {
					return true
				}
				if strings.Contains(o.Pkg().Path(), "logrus") && (strings.HasPrefix(o.Name(), "Fatal") || strings.HasPrefix(o.Name(), "Panic")) {
					return true
				}
			}
		}
		if fa, ok := in.(*ssa.FieldAddr); ok && taggedField(pointee(fa.X.Type()), "dieOnInputChange") == fa.Field {
			return true
		}
		if v, ok := in.(ssa.Value); ok && isFsnotify(v.Type(), "") {
			return true
		}
		var ops []*ssa.Value
		for _, op := range in.Operands(ops) {
			if *op != nil && (isFsnotify((*op).Type(), "") || isEventChan((*op).Type())) {
				return true
			}
		}
		return false
	})
	write := int64(2)
	for _, pk := range p.prog.AllPackages() {
		if pk.Pkg.Path() == fsnotifyPkg {
			if c, ok := pk.Members["Write"].(*ssa.NamedConst); ok {
				write = c.Value.Int64()
			}
		}
	}

	for _, t := range p.implementers("pkg/input.Input") {
		for _, ctor := range constructorsOf(p, t) {
			if p.isMock(named(t)) {
				continue
			}
			watchConstructor(p, r, ctor, touch, write)
		}
	}
	// the validation
	seen := map[*types.Named]bool{}
	for _, fn := range p.funcs {
		if fn.Signature.Recv() == nil || fn.Name() != "Validate" {
			continue
		}
		n := named(fn.Signature.Recv().Type())
		if n == nil || seen[n] {
			continue
		}
		i := taggedField(n, "dieOnInputChange")
		if i < 0 {
			continue
		}
		seen[n] = true
		watchDefault(p, r, fn, n, i, touch)
	}
}

// dieSetting follows what is known about the setting on a path.
type dieSetting struct {
	w    *Walker
	addr *Term
	typ  types.Type
}

func (d *dieSetting) cell(st *State) *Term { return d.w.load(st, d.addr, d.typ) }

func (d *dieSetting) branch(st *State, cond *Term, taken bool) {
	if d.addr == nil {
		return
	}
	c := d.cell(st)
	if x, isnil := nilFact(cond, taken); x != nil && x == c {
		if isnil {
			st.user.flags["dienil"] = 1
		} else {
			st.user.flags["dienil"] = 2
		}
	}
	for cond.op == "un" && cond.aux == "!" {
		cond, taken = cond.args[0], !taken
	}
	if cond == d.w.load(st, c, types.Typ[types.Bool]) {
		if taken {
			st.user.flags["dieval"] = 1
		} else {
			st.user.flags["dieval"] = 2
		}
	}
}

// value: 1 the process must end, 2 it must not, 0 both are possible.
func (d *dieSetting) value(st *State) int {
	if st.user.flags["dienil"] == 1 {
		return 1
	}
	return st.user.flags["dieval"]
}

func watchConstructor(p *Program, r *Report, ctor *ssa.Function, touch map[*ssa.Function]bool, write int64) {
	name := fnName(ctor)
	w := newWalker(p, r, Hooks{})
	own := named(ctor.Signature.Results().At(0).Type())
	w.h.Inline = func(st *State, f *ssa.Function) bool {
		return touch[f] || f.Signature.Recv() != nil && named(f.Signature.Recv().Type()) == own
	}
	d := &dieSetting{w: w}
	var cfg *Term
	started := false
	for _, rl := range []string{"dies", "goes-on", "keeps-watching", "watched"} {
		r.ok(rl, name, ctor.Pos(), "on every path")
	}
	finish := func(st *State, pos token.Pos, how string) {
		if st.user.flags["proc"] == 0 || st.user.flags["event"] == 0 {
			return
		}
		switch {
		case how == "exit":
			if d.value(st) != 1 {
				r.violation("goes-on", name, pos, "the process ends on a write to the input although the setting can be false", st)
			}
		default:
			if d.value(st) != 2 {
				r.violation("dies", name, pos, "a write to the input does not end the process although the setting can be true (or unset)", st)
			} else if st.user.flags["logged"] == 0 {
				r.violation("goes-on", name, pos, "a write to the input is not even logged", st)
			}
		}
		st.user.flags["event"], st.user.flags["logged"] = 0, 0
	}
	w.h.Before = func(ci *CallInfo) bool {
		st := ci.st
		if ci.kind == "go" && st.user.flags["proc"] == 0 {
			if ci.fn == nil || !touch[ci.fn] {
				return true
			}
			var free []*Term
			if ci.callee != nil && ci.callee.op == "closure" && ci.callee.fn == ci.fn {
				free = ci.callee.args
			}
			for x := range st.user.sets["watcher"] {
				if reachable(st, x, append(append([]*Term{}, ci.args...), free...)...) {
					st.user.add("started", x, "")
				}
			}
			ns := st.clone()
			args := append([]*Term{}, ci.args...)
			ns.frames = nil
			ns.tag = "process:" + fnName(ci.fn)
			ns.user.flags["proc"] = 1
			w.push(ns, ci.fn, args, free, nil, false)
			w.work = append(w.work, ns)
			started = true
			return true
		}
		return false
	}
	w.h.After = func(ci *CallInfo) {
		st := ci.st
		if st.user.flags["proc"] == 1 {
			if noReturn(ci) {
				if strings.HasSuffix(ci.name, "os.Exit") {
					if n, ok := ci.arg(0).intVal(); ok && n == 0 {
						r.violation("dies", name, ci.pos, "the process ends with a status of success", st)
					}
				}
				finish(st, ci.pos, "exit")
			} else if strings.Contains(ci.name, "logrus") || ci.method != nil && strings.Contains(ci.method.FullName(), "logrus") {
				m := methodName(ci)
				for _, x := range []string{"Warn", "Error", "Print", "Info", "Log"} {
					if strings.HasPrefix(m, x) {
						st.user.flags["logged"] = 1
					}
				}
			}
			return
		}
		switch ci.name {
		case "github.com/fsnotify/fsnotify.NewWatcher":
			st.user.add("watcher", w.res(ci, 0), "")
		case "(*github.com/fsnotify/fsnotify.Watcher).Add":
			if fromConfig(ci.arg(1), cfg) {
				st.user.add("added", ci.arg(0), "")
			}
		}
		if strings.HasSuffix(ci.name, "fsnotify.NewWatcher") {
			st.user.add("watcher", w.res(ci, 0), "")
		}
		if strings.Contains(ci.name, "fsnotify.Watcher).Add") && fromConfig(ci.arg(1), cfg) {
			st.user.add("added", ci.arg(0), "")
		}
	}
	w.h.Recv = func(st *State, in ssa.Instruction) {
		if st.user.flags["proc"] == 0 {
			return
		}
		finish(st, in.Pos(), "next")
		if u, ok := in.(*ssa.UnOp); ok && isEventChan(u.X.Type()) {
			st.user.flags["event"], st.user.flags["logged"] = 1, 0
		}
	}
	w.h.Panic = func(st *State, in *ssa.Panic, v *Term) {
		if v != nil && strings.Contains(v.String(), "blocking select") {
			return
		}
		finish(st, in.Pos(), "exit")
	}
	w.h.Branch = func(st *State, in *ssa.If, cond *Term, taken bool) {
		d.branch(st, cond, taken)
		if st.user.flags["proc"] == 0 {
			return
		}
		// the parts of a receive
		v := in.Cond
		t := taken
		for {
			u, ok := v.(*ssa.UnOp)
			if !ok || u.Op != token.NOT {
				break
			}
			v, t = u.X, !t
		}
		if rc, i, ok := received(v); ok && (i == 1 || i == 11) {
			_ = rc
			if !t {
				st.user.flags["closed"] = 1
				st.user.flags["event"] = 0
			}
			return
		}
		if b, ok := v.(*ssa.BinOp); ok && (b.Op == token.EQL || b.Op == token.NEQ) {
			x, y := b.X, b.Y
			if _, ok := x.(*ssa.Const); ok {
				x, y = y, x
			}
			if rc, i, ok := received(x); ok && i == 0 {
				sel, isSel := rc.(*ssa.Select)
				k, isC := y.(*ssa.Const)
				if isSel && isC {
					if b.Op == token.NEQ {
						t = !t
					}
					n := int(k.Int64())
					if t && n >= 0 && n < len(sel.States) && isEventChan(sel.States[n].Chan.Type()) {
						st.user.flags["event"], st.user.flags["logged"] = 1, 0
					}
				}
				return
			}
		}
		if val, known := writeTest(cond, write); known && val != taken && st.user.flags["event"] == 1 {
			st.user.flags["__stop"] = 1
		}
	}
	w.h.Exit = func(st *State, f *ssa.Function, ret []*Term) bool {
		if st.user.flags["proc"] == 1 {
			if st.user.flags["event"] != 0 {
				finish(st, ctor.Pos(), "next")
				r.violation("keeps-watching", name, ctor.Pos(), "the file is not watched any more after an event", st)
			} else if st.user.flags["closed"] == 0 {
				r.violation("keeps-watching", name, ctor.Pos(), "the events stop being received although the watcher is not closed", st)
			}
			return false
		}
		if i := errorResult(f.Signature); i >= 0 {
			if n, k := w.isNil(st, ret[i]); k && !n {
				return false
			}
		}
		ok := false
		for x := range st.user.sets["started"] {
			if _, added := st.user.has("added", x); added {
				ok = true
			}
		}
		if !ok {
			r.violation("watched", name, ctor.Pos(), "an input can be ready without its file being watched", st)
		}
		return false
	}
	w.start(ctor, func(st *State, args []*Term) {
		for _, a := range args {
			if i := taggedField(a.typ, "dieOnInputChange"); i >= 0 && cfg == nil {
				cfg = a
				s := named(a.typ).Underlying().(*types.Struct)
				d.addr = w.faddr(a, s.Field(i).Name())
				d.typ = s.Field(i).Type()
			}
		}
	})
	if cfg == nil {
		r.undecided("watched", name, ctor.Pos(), "the constructor has no parameter with the setting dieOnInputChange")
	}
	if !started {
		r.violation("watched", name, ctor.Pos(), "nothing receives the events of the file of the input", nil)
	}
	r.walked(w)
}

func watchDefault(p *Program, r *Report, fn *ssa.Function, n *types.Named, field int, touch map[*ssa.Function]bool) {
	name := fnName(fn)
	w := newWalker(p, r, Hooks{})
	w.h.Inline = func(st *State, f *ssa.Function) bool { return touch[f] }
	d := &dieSetting{w: w}
	s := n.Underlying().(*types.Struct)
	r.ok("default", name, fn.Pos(), "only set when it is unset, to true")
	w.h.Branch = func(st *State, in *ssa.If, cond *Term, taken bool) { d.branch(st, cond, taken) }
	w.h.Store = func(st *State, in *ssa.Store, addr, val *Term) {
		if st.user.flags["own"] == 1 {
			return
		}
		c := d.cell(st)
		if addr == c {
			// the value itself
			if b, ok := val.boolVal(); !ok || !b {
				r.violation("default", name, in.Pos(), "the validation changes the setting", st)
			}
			return
		}
		if addr != d.addr {
			return
		}
		if st.user.flags["dienil"] != 1 {
			r.violation("default", name, in.Pos(), "the validation can replace a setting which is set", st)
			return
		}
		b, ok := w.load(st, val, types.Typ[types.Bool]).boolVal()
		if !ok || !b {
			r.violation("default", name, in.Pos(), "the validation does not set the setting to true when it is unset", st)
		}
	}
	w.start(fn, func(st *State, args []*Term) {
		d.addr = w.faddr(args[0], s.Field(field).Name())
		d.typ = s.Field(field).Type()
	})
	r.walked(w)
}
