package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C04", checkSharedReader)
	register("C26", checkPositions)
}

// A file handle or a decoder over it: using it depends on, and moves, the
// current offset.
func isHandleType(t types.Type) bool {
	if t == nil {
		return false
	}
	switch typeName(t) {
	case "*encoding/csv.Reader", "*encoding/json.Decoder", "*encoding/xml.Decoder", "*bufio.Scanner",
		"*github.com/antchfx/xmlquery.StreamParser", "*bufio.Reader", "*os.File", "io.Reader", "io.ReadSeeker", "io.Seeker":
		return true
	}
	if _, ok := t.Underlying().(*types.Basic); ok {
		return false
	}
	return hasMethod(t, "Read") || hasMethod(t, "Seek")
}

// handleOp classifies a call by what it does to a handle.
type handleOp int

const (
	opNone handleOp = iota
	opNeutral
	opSeek
	opReset
	opOffset
	opRead
)

func classifyHandle(ci *CallInfo) (handleOp, *Term) {
	if ci.fn != nil && ci.fn.Pkg != nil && strings.HasPrefix(ci.fn.Pkg.Pkg.Path(), modulePath) {
		// a function of the repository which was not followed
	}
	var handle *Term
	sig := ci.common.Signature()
	if ci.common.IsInvoke() || sig.Recv() != nil || ci.fn != nil && ci.fn.Signature.Recv() != nil {
		if len(ci.args) > 0 && isHandleType(recvType(ci)) {
			handle = ci.args[0]
		}
		if handle != nil {
			switch methodName(ci) {
			case "Seek":
				return opSeek, handle
			case "Reset":
				return opReset, handle
			case "InputOffset", "Buffered", "Tell", "Offset":
				return opOffset, handle
			case "Close", "Stat", "Name", "Fd", "Size", "ReadAt", "Sync", "SetDeadline", "UseNumber", "DisallowUnknownFields", "String":
				return opNeutral, handle
			}
			return opRead, handle
		}
		return opNone, nil
	}
	for i, a := range ci.args {
		if i < sig.Params().Len() && isHandleType(sig.Params().At(i).Type()) {
			handle = a
			break
		}
	}
	if handle == nil {
		return opNone, nil
	}
	// the constructors of readers do not read
	if res := sig.Results(); res.Len() > 0 && isHandleType(res.At(0).Type()) {
		return opNeutral, handle
	}
	return opRead, handle
}

// inputWalk explores the operations an input offers while the server runs,
// the iterators they return included.
type inputWalk struct {
	p    *Program
	r    *Report
	w    *Walker
	typ  types.Type
	recv *Term
	on   func(st *State, ci *CallInfo, op handleOp, handle *Term, shared bool)
	exit func(st *State, phase string, fn *ssa.Function, ret []*Term) bool
	call func(st *State, ci *CallInfo)
}

func (iw *inputWalk) run(fn *ssa.Function) {
	w := newWalker(iw.p, iw.r, Hooks{})
	iw.w = w
	w.h.After = func(ci *CallInfo) {
		if iw.call != nil {
			iw.call(ci.st, ci)
		}
		op, h := classifyHandle(ci)
		if op != opNone {
			iw.on(ci.st, ci, op, h, iw.isShared(h))
		}
	}
	w.h.Exit = func(st *State, f *ssa.Function, ret []*Term) bool {
		phase := st.user.flags["phase"]
		name := "call"
		switch phase {
		case 1:
			name = "iterator"
		case 2:
			name = "position"
		case 3:
			name = "iterator-position"
		}
		if iw.exit != nil && iw.exit(st, name, f, ret) {
			return true
		}
		if phase == 0 && len(ret) > 0 {
			// continue with the returned iterator
			it := ret[0].strip()
			if it != nil && it.op == "closure" {
				st.user.flags["phase"] = 1
				st.note(f.Pos(), "the returned iterator is called")
				w.push(st, it.fn, nil, it.args, nil, false)
				return true
			}
		}
		return false
	}
	w.start(fn, func(st *State, args []*Term) { iw.recv = args[0] })
	iw.r.walked(w)
}

// isShared: the handle is reached through the input itself, and so it is the
// one every request uses.
func (iw *inputWalk) isShared(h *Term) bool {
	return h.any(func(x *Term) bool {
		return x.op == "ld" && (x.args[0].contains(iw.recv) || rootOf(x.args[0]).op == "global") && isHandleType(x.typ)
	})
}

func persistentWrapper(h *Term) bool {
	// ld(...) of a type which keeps its own buffer
	h = h.strip()
	if h.op != "ld" {
		return false
	}
	switch typeName(h.typ) {
	case "io.ReadSeeker", "io.Reader", "io.Seeker", "*os.File", "io.ReadCloser", "io.ReadSeekCloser":
		return false
	}
	return true
}

func inputTypes(p *Program, r *Report) []types.Type {
	return p.implementers("pkg/input.Input")
}

// entryMethods are the methods called while requests are served.
func entryMethods(p *Program, t types.Type) []*ssa.Function {
	var out []*ssa.Function
	for _, m := range p.methodsOf(t) {
		if !m.Object().Exported() || m.Name() == "Close" {
			continue
		}
		out = append(out, m)
	}
	return out
}

func checkSharedReader(p *Program, r *Report) {
	r.explanation = "Every exported operation of every input (and the iterators it returns) is explored path by path, helpers included. " +
		"Each use of a file handle or decoder reached through the input is an obligation: it must happen while one and the same lock of that input is held exclusively, " +
		"a read must follow a seek made within the same critical section, and every path must leave with no lock held and never lock twice."
	r.rule("exclusive", 3, "every use of the file handle shared by the requests happens while a lock of the same input is held exclusively, the same one at every site")
	r.rule("seek-in-section", 3, "a read through the shared handle follows a seek in the same critical section")
	r.rule("released", 3, "the lock is released on every path, and never taken twice")
	r.assumptions = []string{"sync.Mutex and the standard readers behave as documented", "constructors run before any request, Close after the last one"}
	for _, t := range inputTypes(p, r) {
		locks := map[string]int{}
		sites := 0
		tn := typeName(t)
		for _, fn := range entryMethods(p, t) {
			iw := &inputWalk{p: p, r: r, typ: t}
			fn := fn
			iw.call = func(st *State, ci *CallInfo) {
				ev := lockOf(ci)
				if ev == nil {
					return
				}
				_, held := st.user.has("lock", ev.addr)
				if ev.acquire {
					if held {
						r.violation("released", fnName(fn)+" takes "+addrKey(ev.addr), ci.pos, "the lock is taken while it is already held: the goroutine blocks forever", st)
						st.user.flags["__stop"] = 1
					}
					kind := "w"
					if ev.shared {
						kind = "r"
					}
					st.user.add("lock", ev.addr, kind)
					st.note(ci.pos, "lock %s", addrKey(ev.addr))
				} else {
					if !held {
						r.violation("released", fnName(fn)+" releases "+addrKey(ev.addr), ci.pos, "a lock which is not held is released", st)
					}
					st.user.del("lock", ev.addr)
					delete(st.user.flags, "seeked")
					st.note(ci.pos, "unlock %s", addrKey(ev.addr))
				}
			}
			iw.on = func(st *State, ci *CallInfo, op handleOp, h *Term, shared bool) {
				if !shared || op == opNone || op == opNeutral {
					return
				}
				construct := fnName(fn) + " calls " + ci.name
				var held []string
				for l, kind := range st.user.sets["lock"] {
					if kind == "w" && l.contains(iw.recv) {
						held = append(held, addrKey(l))
					}
				}
				if len(held) == 0 {
					r.violation("exclusive", construct, ci.pos, "the shared handle "+h.String()+" is used without holding a lock of the input exclusively: two requests may interleave their seeks and reads", st)
					return
				}
				r.ok("exclusive", construct, ci.pos, "under "+quoteList(held))
				sites++
				for _, l := range held {
					locks[l]++
				}
				if len(held) > 0 {
					locks["|sites"]++
				}
				switch op {
				case opSeek:
					st.user.flags["seeked"] = 1
				case opRead:
					r.check(st.user.flags["seeked"] != 0, "seek-in-section", construct, ci.pos, "preceded by a seek in the critical section",
						"the shared handle is read without a seek in the same critical section: the data may be the one another request positioned")
				}
			}
			iw.exit = func(st *State, phase string, f *ssa.Function, ret []*Term) bool {
				if len(st.user.sets["lock"]) > 0 {
					for l := range st.user.sets["lock"] {
						r.violation("released", fnName(fn)+" releases "+addrKey(l), f.Pos(), "a path returns with the lock held: the next request blocks forever", st)
					}
				} else {
					r.ok("released", fnName(fn), fn.Pos(), "every path returns without lock")
				}
				return false
			}
			iw.run(fn)
		}
		// one lock common to all the sites
		if n := locks["|sites"]; n > 0 {
			common := false
			for l, c := range locks {
				if l != "|sites" && c == n {
					common = true
				}
			}
			r.check(common, "exclusive", tn+" uses one lock", p.fset.File(named(t).Obj().Pos()).Pos(0), "all the sites share a lock", "the uses of the shared handle are protected by different locks")
		}
	}
}

func checkPositions(p *Program, r *Report) {
	r.explanation = "For every input, the lookup by position and the iteration are explored path by path. Obligations: the lookup reads after an absolute seek to exactly the requested position, " +
		"with the buffering discarded in between; the record it returns carries that position; the position of an iterated record is the offset of the reading handle " +
		"(file offset minus buffered bytes, or the decoder's own offset) captured in the same iteration before the record is read."
	r.rule("seek-exact", 3, "the lookup seeks, from the start of the file, to the position it was given")
	r.rule("buffer-reset", 3, "between the seek and the read, data buffered from another place is discarded")
	r.rule("position-kept", 3, "the record returned by the lookup has the position it was asked for")
	r.rule("position-before-read", 3, "the position of an iterated record is the offset taken, in the same iteration, before reading it")
	r.assumptions = []string{"the decoders read forward from the offset they are given"}
	r.outside = []string{"that decoding from the captured offset yields the same record is a property of the decoders' grammar, not decided here"}
	for _, t := range inputTypes(p, r) {
		for _, fn := range entryMethods(p, t) {
			if fn.Name() != "Get" && fn.Name() != "IterateAll" {
				continue
			}
			iw := &inputWalk{p: p, r: r, typ: t}
			fn := fn
			isGet := fn.Name() == "Get"
			var posParam *Term
			iw.on = func(st *State, ci *CallInfo, op handleOp, h *Term, shared bool) {
				if isGet {
					if posParam == nil {
						posParam = iw.w.param(fn.Params[1].Name(), fn.Params[1].Type())
					}
					construct := fnName(fn) + " calls " + ci.name
					switch op {
					case opSeek:
						whence, ok := ci.arg(2).intVal()
						if ok && whence == 0 && ci.arg(1).strip() == posParam {
							r.ok("seek-exact", construct, ci.pos, "Seek(position, SeekStart)")
							st.user.flags["seeked"] = 1
							delete(st.user.flags, "reset")
						} else if ok && whence == 1 && ci.arg(1).op == "const" {
							// asks for the offset
						} else {
							r.violation("seek-exact", construct, ci.pos, sprintf("the lookup seeks to %v (whence %v) instead of the position it was given", ci.arg(1), ci.arg(2)), st)
						}
					case opReset:
						st.user.flags["reset"] = 1
					case opRead:
						if st.user.flags["seeked"] == 0 {
							r.violation("seek-exact", construct, ci.pos, "a record is read without seeking to the requested position", st)
							return
						}
						if persistentWrapper(h) && shared {
							r.check(st.user.flags["reset"] != 0, "buffer-reset", construct, ci.pos, "the buffer is reset after the seek",
								"the reader keeps data buffered before the seek: the record read may be another one")
						} else {
							r.ok("buffer-reset", construct, ci.pos, "the decoder is created for this lookup")
						}
					}
					return
				}
				if st.user.flags["phase"] != 1 {
					return
				}
				switch op {
				case opSeek, opOffset:
					if ci.result != nil {
						st.user.add("offset", ci.result, "before")
					}
				case opRead:
					// json's More() peeks: the position must precede the decoding
					if ci.name == "(*encoding/json.Decoder).More" {
						return
					}
					st.user.terms["lastread"] = ci.result
					for o := range st.user.sets["offset"] {
						if st.user.sets["offset"][o] == "before" {
							st.user.add("offset", o, "used")
						} else {
							st.user.add("offset", o, "stale")
						}
					}
				}
			}
			iw.exit = func(st *State, phase string, f *ssa.Function, ret []*Term) bool {
				w := iw.w
				switch phase {
				case "call", "iterator":
					if isGet != (phase == "call") || len(ret) != 2 {
						return false
					}
					rec := ret[0]
					if rec.op != "iface" {
						if n, k := w.isNil(st, rec); k && n {
							return false
						}
						// an error return
						if n, k := w.isNil(st, ret[1]); k && !n {
							return false
						}
						r.undecided("position-kept", fnName(fn), f.Pos(), "the returned record is not a known value: "+rec.String())
						return false
					}
					m := p.prog.LookupMethod(rec.typ, nil, "Position")
					if m == nil || len(m.Blocks) == 0 {
						r.undecided("position-kept", fnName(fn), f.Pos(), "the record type has no Position method")
						return false
					}
					if isGet {
						st.user.flags["phase"] = 2
					} else {
						st.user.flags["phase"] = 3
					}
					w.push(st, m, []*Term{rec.args[0]}, nil, nil, false)
					return true
				case "position":
					if posParam == nil {
						posParam = w.param(fn.Params[1].Name(), fn.Params[1].Type())
					}
					if ret[0].strip() == posParam {
						r.ok("position-kept", fnName(fn), fn.Pos(), "Position() is the requested position")
					} else {
						r.violation("position-kept", fnName(fn), fn.Pos(), "the record has the position "+ret[0].String()+" instead of the requested one", st)
					}
				case "iterator-position":
					checkOffset(r, st, fn, ret[0])
				}
				return false
			}
			iw.run(fn)
		}
	}
}

// checkOffset: t must be an offset captured before the last read.
func checkOffset(r *Report, st *State, fn *ssa.Function, t *Term) {
	construct := fnName(fn)
	offs := st.user.sets["offset"]
	status := func(x *Term) (string, bool) {
		if x.op == "ext" && x.aux == "0" {
			x = x.args[0]
		}
		s, ok := offs[x]
		return s, ok
	}
	t = t.strip()
	bad := func(msg string) { r.violation("position-before-read", construct, fn.Pos(), msg, st) }
	if t.op == "call" || t.op == "ext" {
		c := t
		if c.op == "ext" {
			c = c.args[0]
		}
		s, ok := status(t)
		if ok && s == "used" && c.call != nil && methodName(c.call) == "InputOffset" {
			r.ok("position-before-read", construct, fn.Pos(), "InputOffset() taken before the read")
			return
		}
		if ok && c.call != nil && methodName(c.call) == "InputOffset" {
			bad("the position is taken after the record was read (or before another one): " + t.String())
			return
		}
	}
	if t.op == "bin" && t.aux == "-" {
		a, b := t.args[0].strip(), t.args[1].strip()
		sa, oka := status(a)
		sb, okb := status(b)
		if oka && okb {
			ca := a
			if ca.op == "ext" {
				ca = ca.args[0]
			}
			if ca.call != nil && b.call != nil && methodName(ca.call) == "Seek" && methodName(b.call) == "Buffered" {
				o, k1 := ca.call.arg(1).intVal()
				wh, k2 := ca.call.arg(2).intVal()
				if !k1 || !k2 || o != 0 || wh != 1 {
					bad("the offset is not asked for with Seek(0, SeekCurrent)")
					return
				}
				if sa != "used" || sb != "used" {
					bad("the position is taken after the record was read: " + t.String())
					return
				}
				r.ok("position-before-read", construct, fn.Pos(), "file offset minus buffered bytes, taken before the read")
				return
			}
		}
	}
	bad("the position of the iterated record is not the offset at which its reading starts: " + t.String())
}
