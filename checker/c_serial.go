package main

import (
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C03", checkSerial) }

// What is recorded in the files and the tables of the indexes is described by
// layouts: for each type of entry, what is written at each place, and what is
// read from it. Both are derived from the code which writes and the code which
// reads, independently, and compared.

type serCell struct {
	text  string // what is written or read there: field, len(field), field[], Unix(field)
	width int    // bytes, -1 for a text, 0 when it does not apply
	order string
	pos   token.Pos
	fn    string
}

type serLayout struct {
	name   string
	typ    *types.Named
	write  map[string]*serCell
	read   map[string]*serCell
	wlen   map[int64]bool // lengths of what is written
	rlen   map[int64]bool // and read
	alloc  map[int64]bool // and reserved
	wplace map[string]bool
	rplace map[string]bool
	// what the place of each reading may be
	rplaces map[ssa.Instruction][]map[string]bool
	fields  map[string]bool
	pos     token.Pos
}

type serial struct {
	p       *Program
	r       *Report
	tracked map[*types.Named]bool
	files   map[*types.Named]bool // the buffered files
	layouts map[*types.Named]*serLayout
	tables  map[string]token.Pos
	sizes   types.Sizes
}

// entryPkgs: the packages which keep the entries of the indexes.
func (p *Program) entryPkgs() map[*types.Package]bool {
	out := map[*types.Package]bool{}
	for _, fn := range p.funcs {
		k := pkgOf(fn)
		if k != nil && strings.Contains(k.Path(), "/pkg/index/") {
			out[k] = true
		}
	}
	return out
}

func checkSerial(p *Program, r *Report) {
	r.explanation = "For each kind of entry of an index (description, node, position), what is written at each place and what is read from each place are derived independently from the code which writes and from the code which reads, helpers included, and compared. " +
		"Then each path of each function which changes an entry is followed up to its successful end: the changed entry must have been written in between, with the values it has."
	checkRoots(p, r)
	r.rule("same-layout", 20, "each value is read from the place where it was written, with the same size and representation, as the same value")
	r.rule("whole-value", 14, "the place of a value is large enough for all the values of its type, and no two places overlap")
	r.rule("nothing-left-out", 4, "each value of an entry which is used is recorded, or known otherwise, when the entry is read")
	r.rule("own-place", 6, "an entry is read from where it was written, as many bytes as were written and reserved")
	r.rule("written-back", 8, "an entry which was changed is written before the operation succeeds, with the values that it has")
	r.assumptions = []string{"the buffered file gives back at an offset the bytes which were last written at this offset", "the names of the indexes are unique (C12)"}
	r.outside = []string{"the buffering of the writes to the file of a wildcard index", "which nodes and positions the tree of a wildcard index holds"}

	s := &serial{p: p, r: r, tracked: map[*types.Named]bool{}, files: map[*types.Named]bool{}, layouts: map[*types.Named]*serLayout{},
		tables: map[string]token.Pos{}, sizes: types.SizesFor("gc", "amd64")}
	pkgs := p.entryPkgs()
	for k := range pkgs {
		for _, n := range k.Scope().Names() {
			tn, ok := k.Scope().Lookup(n).(*types.TypeName)
			if !ok {
				continue
			}
			nt, ok := tn.Type().(*types.Named)
			if !ok {
				continue
			}
			st, ok := nt.Underlying().(*types.Struct)
			if !ok {
				continue
			}
			file := false
			for i := 0; i < st.NumFields(); i++ {
				if types.TypeString(st.Field(i).Type(), nil) == "*os.File" {
					file = true
				}
			}
			if file {
				s.files[nt] = true
			} else {
				s.tracked[nt] = true
			}
		}
	}
	var roots []*ssa.Function
	touch := p.touching(func(fn *ssa.Function, in ssa.Instruction) bool {
		ci, ok := in.(ssa.CallInstruction)
		return ok && s.primitive(ci.Common())
	})
	for _, fn := range p.funcs {
		if pkgs[pkgOf(fn)] && touch[fn] && !s.ofFile(fn) && fn.Parent() == nil {
			roots = append(roots, fn)
		}
	}
	sort.Slice(roots, func(i, j int) bool { return fnName(roots[i]) < fnName(roots[j]) })
	for _, fn := range roots {
		s.layoutsOf(fn, touch)
	}
	s.compare()
	s.writtenBack(pkgs)
}

func (s *serial) ofFile(fn *ssa.Function) bool {
	rv := fn.Signature.Recv()
	return rv != nil && s.files[named(rv.Type())]
}

// primitive: a call which reads or writes an encoded value.
func (s *serial) primitive(c *ssa.CallCommon) bool {
	o := calleeObj(c)
	if o == nil || o.Pkg() == nil {
		return false
	}
	if o.Pkg().Path() == "encoding/binary" || sqlTextArg(c) != nil {
		return true
	}
	f := c.StaticCallee()
	return f != nil && s.ofFile(f)
}

// fileCall: what a method of the buffered file does: add, replace, get, reader.
func (s *serial) fileCall(fn *ssa.Function) string {
	if fn == nil || !s.ofFile(fn) {
		return ""
	}
	sig := fn.Signature
	var bytes, ints, rb, ri bool
	for i := 0; i < sig.Params().Len(); i++ {
		bytes = bytes || isBytes(sig.Params().At(i).Type())
		ints = ints || isInt(sig.Params().At(i).Type())
	}
	iface := false
	for i := 0; i < sig.Results().Len(); i++ {
		t := sig.Results().At(i).Type()
		rb = rb || isBytes(t)
		ri = ri || isInt(t)
		iface = iface || hasMethod(t, "Read")
	}
	switch {
	case bytes && ints && !rb:
		return "replace"
	case bytes && ri:
		return "add"
	case ints && rb:
		return "get"
	case ints && iface:
		return "reader"
	}
	return ""
}

func (s *serial) entryOf(t types.Type) *types.Named {
	n := named(t)
	if n != nil && s.tracked[n] {
		return n
	}
	return nil
}

func (s *serial) layout(n *types.Named) *serLayout {
	l := s.layouts[n]
	if l == nil {
		l = &serLayout{name: typeName(n), typ: n, write: map[string]*serCell{}, read: map[string]*serCell{}, wlen: map[int64]bool{}, rlen: map[int64]bool{},
			alloc: map[int64]bool{}, wplace: map[string]bool{}, rplace: map[string]bool{}, fields: map[string]bool{}, pos: n.Obj().Pos()}
		s.layouts[n] = l
	}
	return l
}

// objField: the entry and the field of an address.
func (s *serial) objField(a *Term) (obj *Term, field string) {
	if a.op != "faddr" {
		return nil, ""
	}
	b := a.args[0]
	if s.entryOf(termType(b)) != nil {
		return b, a.aux
	}
	if o, f := s.objField(b); o != nil {
		return o, f + "." + a.aux
	}
	return nil, ""
}

// narrowing: the conversion keeps only a part of the bits.
func narrowing(v *Term) bool {
	if v.args[0].typ == nil || v.typ == nil || !isInt(v.typ) || !isInt(v.args[0].typ) {
		return false
	}
	z := types.SizesFor("gc", "amd64")
	return z.Sizeof(v.typ) < z.Sizeof(v.args[0].typ)
}

func termType(t *Term) types.Type {
	if t.typ == nil {
		return types.Typ[types.Invalid]
	}
	return t.typ
}

// describe: the value as a function of the fields of an entry.
func (s *serial) describe(v *Term) (obj *Term, text string) {
	switch v.op {
	case "conv":
		o, t := s.describe(v.args[0])
		if o != nil && narrowing(v) {
			t = "a part of " + t
		}
		return o, t
	case "iface":
		return s.describe(v.args[0])
	case "ld":
		a := v.args[0]
		if o, f := s.objField(a); o != nil {
			return o, f
		}
		if a.op == "iaddr" {
			if o, t := s.describe(a.args[0]); o != nil {
				return o, t + "[]"
			}
		}
	case "idx":
		if o, t := s.describe(v.args[0]); o != nil {
			return o, t + "[]"
		}
	case "slice":
		if v.args[1] == nil && v.args[2] == nil {
			return s.describe(v.args[0])
		}
	case "fld":
		if o, t := s.describe(v.args[0]); o != nil {
			return o, t + "." + v.aux
		}
	case "len":
		if o, t := s.describe(v.args[0]); o != nil {
			return o, "len(" + t + ")"
		}
	case "pure":
		if len(v.args) == 1 {
			if o, t := s.describe(v.args[0]); o != nil {
				return o, v.aux[strings.LastIndex(v.aux, ".")+1:] + "(" + t + ")"
			}
		}
	}
	return nil, ""
}

func (s *serial) widthOf(t types.Type) int {
	if t == nil {
		return 0
	}
	if sl, ok := t.Underlying().(*types.Slice); ok {
		if isBytes(t) {
			return -1
		}
		return s.widthOf(sl.Elem())
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return s.widthOf(p.Elem())
	}
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		return -1
	}
	return int(s.sizes.Sizeof(t))
}

// where: the object which holds the bytes, and the offset in it.
func (s *serial) where(t *Term) (base *Term, start int64, ok bool) {
	ok = true
	for t != nil {
		switch t.op {
		case "conv", "iface":
			t = t.args[0]
			continue
		case "slice":
			if lo := t.args[1]; lo != nil {
				n, known := lo.intVal()
				if !known {
					ok = false
				}
				start += n
			}
			t = t.args[0]
			continue
		case "call":
			if t.call != nil && t.call.name == "(*bytes.Buffer).Bytes" {
				t = t.call.args[0]
				continue
			}
		case "ext":
			return t, start, ok
		}
		return t, start, ok
	}
	return nil, 0, false
}

var endian = regexp.MustCompile(`^\(encoding/binary\.(\w+)\)\.(Put|Append)?Uint(16|32|64)$`)

func orderName(t *Term) string {
	for t.op == "iface" || t.op == "conv" {
		t = t.args[0]
	}
	n := typeName(termType(t))
	switch {
	case strings.Contains(strings.ToLower(n), "big"):
		return "bigEndian"
	case strings.Contains(strings.ToLower(n), "little"):
		return "littleEndian"
	}
	return n
}

// identity of a value, which is the same in the rounds of a loop over a list.
func (s *serial) identity(v *Term) string {
	if _, text := s.describe(v); text != "" {
		return text
	}
	if v.any(func(t *Term) bool { return t.op == "old" || t.op == "opaque" && strings.Contains(t.aux, "@phi:") }) {
		return ""
	}
	return "#" + strconv.Itoa(v.id)
}

// nextSeq: the rank of a value in what is written or read in order. The same
// value written again by the same statement of a loop keeps its rank.
func (s *serial) nextSeq(w *Walker, st *State, base *Term, in ssa.Instruction, what string) string {
	k := w.tt.mk("rs", w.siteID(st, in)+what, nil, nil, base)
	if v, ok := st.user.has("rank", k); ok {
		return v
	}
	n := 0
	if v, ok := st.user.has("seq", base); ok {
		n, _ = strconv.Atoi(v)
	}
	st.user.add("seq", base, strconv.Itoa(n+1))
	v := "value " + strconv.Itoa(n)
	st.user.add("rank", k, v)
	return v
}

func (s *serial) mark(w *Walker, st *State, base, v *Term, place string, width int, order string) {
	m := w.tt.mk("seg", place+"|"+strconv.Itoa(width)+"|"+order, nil, nil, base, v)
	st.user.add("segs", m, "x")
}

type serSeg struct {
	place string
	width int
	order string
	v     *Term
}

func segsOf(st *State, base *Term) []serSeg {
	var out []serSeg
	for m := range st.user.sets["segs"] {
		if m.args[0] == base {
			f := strings.Split(m.aux, "|")
			n, _ := strconv.Atoi(f[1])
			out = append(out, serSeg{f[0], n, f[2], m.args[1]})
		}
	}
	sort.Slice(out, func(i, j int) bool {
		return out[i].place < out[j].place || out[i].place == out[j].place && out[i].v.id < out[j].v.id
	})
	return out
}

// encodings follows the calls which encode and decode.
func (s *serial) encodings(w *Walker, ci *CallInfo, decoded func(st *State, cell *Term)) bool {
	st, tt := ci.st, w.tt
	if m := endian.FindStringSubmatch(ci.name); m != nil {
		width, _ := strconv.Atoi(m[3])
		width /= 8
		switch m[2] {
		case "Put":
			base, start, ok := s.where(ci.arg(1))
			if base == nil || !ok {
				return true // what is not known to be written is missing in the end
			}
			s.mark(w, st, base, ci.arg(2), offsetName(start), width, m[1])
			return true
		case "Append":
			base, _, _ := s.where(ci.arg(1))
			if base == nil {
				return false
			}
			what := s.identity(ci.arg(2))
			place := s.nextSeq(w, st, base, ci.instr, what)
			segs := segsOf(st, base)
			n, _ := st.user.has("seq", base)
			ci.result = w.fresh(st, "append", w.callSite(st, ci.instr, ci), ci.common.Signature().Results().At(0).Type(), ci.args...)
			for _, g := range segs {
				s.mark(w, st, ci.result, g.v, g.place, g.width, g.order)
			}
			st.user.add("seq", ci.result, n)
			s.mark(w, st, ci.result, ci.arg(2), place, width, m[1])
			return true
		default:
			base, start, ok := s.where(ci.arg(1))
			if base == nil || !ok {
				return false
			}
			ci.result = tt.mk("dec", offsetName(start)+"|"+strconv.Itoa(width)+"|"+m[1], ci.common.Signature().Results().At(0).Type(), nil, base)
			return true
		}
	}
	switch ci.name {
	case "encoding/binary.Write":
		base, _, _ := s.where(ci.arg(0))
		v := ci.arg(2)
		t := termType(v)
		for v.op == "iface" || v.op == "conv" && v.args[0].typ != nil && !isBasic(termType(v)) {
			v = v.args[0]
		}
		// a pointer: what it points to
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			t = pt.Elem()
			v = w.load(st, v, t)
		}
		if stt, ok := t.Underlying().(*types.Struct); ok {
			for i := 0; i < stt.NumFields(); i++ {
				f := w.tt.fld(v, stt, i)
				what := s.identity(f)
				s.mark(w, st, base, f, s.nextSeq(w, st, base, ci.instr, what+"#"+strconv.Itoa(i)), s.widthOf(stt.Field(i).Type()), orderName(ci.arg(1)))
			}
			return true
		}
		what := s.identity(v)
		s.mark(w, st, base, v, s.nextSeq(w, st, base, ci.instr, what), s.widthOf(t), orderName(ci.arg(1)))
		return true
	case "encoding/binary.Read":
		base, _, _ := s.where(ci.arg(0))
		d := ci.arg(2)
		for d.op == "iface" {
			d = d.args[0]
		}
		t := termType(ci.arg(2))
		order := orderName(ci.arg(1))
		dec := func(place string, t types.Type) *Term {
			return tt.mk("dec", place+"|"+strconv.Itoa(s.widthOf(t))+"|"+order, t, nil, base)
		}
		pt := pointee(t)
		if pt == nil {
			// a slice: its elements
			v := dec(s.nextSeq(w, st, base, ci.instr, "d"+strconv.Itoa(d.id)), t)
			st.user.add("filled", tt.mk("fill", "", nil, nil, d, v), "x")
			return true
		}
		if stt, ok := pt.Underlying().(*types.Struct); ok {
			for i := 0; i < stt.NumFields(); i++ {
				a := w.faddr(d, stt.Field(i).Name())
				w.store(st, a, dec(s.nextSeq(w, st, base, ci.instr, "d"+strconv.Itoa(a.id)), stt.Field(i).Type()))
				decoded(st, a)
			}
			return true
		}
		w.store(st, d, dec(s.nextSeq(w, st, base, ci.instr, "d"+strconv.Itoa(d.id)), pt))
		decoded(st, d)
		return true
	}
	return false
}

func isBasic(t types.Type) bool { _, ok := t.Underlying().(*types.Basic); return ok }

func offsetName(n int64) string { return "byte " + sprintf("%04d", n) }

// flatText: a text, with the parts which are not constant between \x00.
func flatText(t *Term, parts *[]*Term) string {
	if s, ok := t.strVal(); ok {
		return s
	}
	if t.op == "bin" && t.aux == "+" {
		return flatText(t.args[0], parts) + flatText(t.args[1], parts)
	}
	if t.op == "pure" && t.aux == "fmt.Sprintf" && len(t.args) > 0 {
		if f, ok := t.args[0].strVal(); ok {
			rest := t.args[1:]
			var b strings.Builder
			for i := 0; i < len(f); i++ {
				if f[i] == '%' && i+1 < len(f) {
					i++
					if f[i] == '%' {
						b.WriteByte('%')
						continue
					}
					if len(rest) > 0 {
						a := rest[0]
						rest = rest[1:]
						for a.op == "iface" {
							a = a.args[0]
						}
						b.WriteString(flatText(a, parts))
						continue
					}
				}
				b.WriteByte(f[i])
			}
			return b.String()
		}
	}
	if t.op == "pure" && strings.HasPrefix(t.aux, "strings.Trim") {
		return flatText(t.args[0], parts)
	}
	*parts = append(*parts, t)
	return " \x00" + strconv.Itoa(len(*parts)-1) + "\x00 "
}

// tableName: what the identifier of a table is made of.
func tableName(t *Term) string {
	var out []string
	seen := map[*Term]bool{}
	var visit func(x *Term)
	visit = func(x *Term) {
		if x == nil || seen[x] {
			return
		}
		seen[x] = true
		if c, ok := x.strVal(); ok && c != "" {
			out = append(out, c)
		}
		for _, a := range x.args {
			visit(a)
		}
		if x.call != nil {
			for _, a := range x.call.vargs {
				visit(a)
			}
		}
	}
	visit(t)
	sort.Strings(out)
	return strings.Join(out, " ")
}

type statement struct {
	verb  string
	table *Term
	cols  []string
	binds int // the values are all bound, in order
	text  string
}

var (
	insertRe = regexp.MustCompile(`(?is)^\s*(?:INSERT|REPLACE)(?:\s+OR\s+\w+)?\s+INTO\s+["\[]?\s*\x00(\d+)\x00\s*["\]]?\s*(?:\(([^)]*)\))?\s*VALUES\s*\(([^)]*)\)\s*;?\s*$`)
	selectRe = regexp.MustCompile(`(?is)^\s*SELECT\s+(.*?)\s+FROM\s+["\[]?\s*\x00(\d+)\x00\s*["\]]?[^\x00]*$`)
	createRe = regexp.MustCompile(`(?is)^\s*CREATE\s+TABLE\s+(?:IF\s+NOT\s+EXISTS\s+)?["\[]?\s*\x00(\d+)\x00\s*["\]]?\s*\((.*)\)\s*;?\s*$`)
	deleteRe = regexp.MustCompile(`(?is)^\s*DELETE\s+FROM\s+["\[]?\s*\x00(\d+)\x00\s*["\]]?\s*;?\s*$`)
	masterRe = regexp.MustCompile(`(?is)^\s*SELECT\s.*\sFROM\s+sqlite_master\s.*\bname\s*=\s*["\[]?\s*\x00(\d+)\x00\s*["\]]?.*$`)
)

// quotes: makes a text of another one with the help of the database.
func quotes(f *ssa.Function) bool {
	sig := f.Signature
	if sig.Recv() != nil || sig.Results().Len() != 2 || !isText(sig.Results().At(0).Type()) {
		return false
	}
	for i := 0; i < sig.Params().Len(); i++ {
		if isText(sig.Params().At(i).Type()) {
			return true
		}
	}
	return false
}

func unquote(s string) string { return strings.Trim(strings.TrimSpace(s), "\"`[]'") }

func columnsOf(s string) []string {
	var out []string
	for _, c := range strings.Split(s, ",") {
		f := strings.Fields(c)
		if len(f) == 0 {
			return nil
		}
		out = append(out, unquote(f[0]))
	}
	return out
}

func parseStatement(t *Term) *statement {
	var parts []*Term
	text := flatText(t, &parts)
	part := func(s string) *Term { n, _ := strconv.Atoi(s); return parts[n] }
	if m := insertRe.FindStringSubmatch(text); m != nil {
		x := &statement{verb: "insert", table: part(m[1]), text: text}
		if m[2] != "" {
			x.cols = columnsOf(m[2])
		}
		for _, v := range strings.Split(m[3], ",") {
			if strings.TrimSpace(v) != "?" {
				return nil
			}
			x.binds++
		}
		return x
	}
	if m := createRe.FindStringSubmatch(text); m != nil {
		return &statement{verb: "create", table: part(m[1]), cols: columnsOf(m[2]), text: text}
	}
	if m := deleteRe.FindStringSubmatch(text); m != nil {
		return &statement{verb: "delete", table: part(m[1]), text: text}
	}
	if m := masterRe.FindStringSubmatch(text); m != nil {
		return &statement{verb: "master", table: part(m[1]), text: text}
	}
	if m := selectRe.FindStringSubmatch(text); m != nil {
		return &statement{verb: "select", table: part(m[2]), cols: columnsOf(m[1]), text: text}
	}
	return nil
}

// layoutsOf derives what a function writes of an entry which it is given, and
// what it reads in an entry.
func (s *serial) layoutsOf(fn *ssa.Function, touch map[*ssa.Function]bool) {
	r := s.r
	name := fnName(fn)
	// what does not fit is covered by its parts: whatever is missing in the end is reported
	w := newWalker(s.p, newReport(r.property), Hooks{})
	w.budget = 30000
	w.unroll = 64
	w.h.Inline = func(st *State, f *ssa.Function) bool {
		r.funcs[fnName(f)] = true
		if quotes(f) {
			return false
		}
		return !s.ofFile(f) && (touch[f] || pkgOf(f) == pkgOf(fn) || strings.HasPrefix(pkgOf(f).Path(), pkgOf(fn).Path()))
	}
	decoded := func(st *State, a *Term) {
		v := st.heap[a]
		if o, f := s.objField(a); o != nil {
			s.readInto(w, st, o, f, v, fn)
		}
	}
	w.h.Store = func(st *State, in *ssa.Store, addr, val *Term) {
		o, f := s.objField(addr)
		if o == nil {
			return
		}
		if s.readInto(w, st, o, f, val, fn) {
			return
		}
		if o.op == "param" {
			st.user.add("mut", o, "x")
		}
		// the space reserved for an entry
		v := val
		for v.op == "conv" {
			v = v.args[0]
		}
		if v.op == "ext" && v.args[0].call != nil && s.fileCall(v.args[0].call.fn) == "add" {
			for m := range st.user.sets["owner"] {
				if m.args[0] == v && (m.args[1] != o || m.aux != f) {
					return // only copied
				}
			}
			base, _, _ := s.where(v.args[0].call.arg(1))
			if _, ok := lengthOf(base); !ok {
				return
			}
			st.user.add("owner", w.tt.mk("owner", f, nil, nil, v, o), "x")
			l := s.layout(s.entryOf(termType(o)))
			l.wplace[f] = true
			if n, ok := lengthOf(base); ok && len(segsOf(st, base)) == 0 {
				l.alloc[n] = true
			}
		}
	}
	w.h.Branch = func(st *State, in *ssa.If, cond *Term, taken bool) {
		c := cond
		for c.op == "un" {
			c = c.args[0]
		}
		if c.op != "bin" || len(c.args) != 2 {
			return
		}
		for _, a := range c.args {
			for a.op == "conv" {
				a = a.args[0]
			}
			if a.op == "dec" {
				st.user.add("counts", a, "x")
			}
		}
	}
	w.h.Before = func(ci *CallInfo) bool {
		st := ci.st
		if s.encodings(w, ci, decoded) {
			return true
		}
		switch s.fileCall(ci.fn) {
		case "replace":
			s.written(w, st, ci.arg(2), ci.arg(1), ci)
			return true
		case "add":
			s.written(w, st, ci.arg(1), nil, ci)
			return true
		case "get", "reader":
			return true
		}
		if ci.fn != nil && s.p.inRepo(ci.fn) {
			return false
		}
		if tv := sqlTextArg(ci.common); tv != nil {
			s.sqlWritten(w, ci, w.val(st, tv))
			return false
		}
		if methodName(ci) == "Scan" && len(ci.args) > 0 {
			return s.sqlRead(w, ci, decoded)
		}
		return false
	}
	w.h.Exit = func(st *State, f *ssa.Function, ret []*Term) bool {
		for _, x := range ret {
			if x == nil || s.entryOf(termType(x)) == nil {
				continue
			}
			for m := range st.user.sets["from"] {
				if m.args[0] != x {
					continue
				}
				s.readPlace(w, st, x, m.args[1])
			}
		}
		return false
	}
	w.start(fn, nil)
	r.walked(w)
	r.funcs[name] = true
}

// readInto records a value decoded into a field. It returns false when the
// value was not decoded.
func (s *serial) readInto(w *Walker, st *State, o *Term, f string, v *Term, fn *ssa.Function) bool {
	var decs []*Term
	var visit func(t *Term, d int)
	visit = func(t *Term, d int) {
		if t == nil || d > 8 {
			return
		}
		if t.op == "dec" {
			decs = append(decs, t)
			return
		}
		switch t.op {
		case "call", "opaque", "ext", "alloc", "ld":
			return // something else
		}
		for _, a := range t.args {
			visit(a, d+1)
		}
	}
	visit(v, 0)
	for m := range st.user.sets["filled"] {
		if v.contains(m.args[0]) {
			decs = append(decs, m.args[1])
		}
	}
	if len(decs) == 0 {
		return false
	}
	n := s.entryOf(termType(o))
	l := s.layout(n)
	for _, d := range decs {
		// a value which was decoded for another entry, or field, is only copied
		copied := false
		for m := range st.user.sets["owner"] {
			if m.args[0] == d && (m.args[1] != o || m.aux != f) {
				copied = true
			}
		}
		if copied {
			continue
		}
		st.user.add("owner", w.tt.mk("owner", f, nil, nil, d, o), "x")
		text := f
		x := v
		part := false
		for x.op == "conv" {
			part = part || narrowing(x)
			x = x.args[0]
		}
		switch {
		case part:
			text = "a part of " + f
		case x == d:
		case x.op == "pure" && x.aux == "time.Unix" && len(x.args) == 2 && stripTerm(x.args[0]) == d && isZeroInt(x.args[1]):
			text = "Unix(" + f + ")"
		case x.op == "pure" && x.aux == "time.Unix" && len(x.args) == 2 && stripTerm(x.args[1]) == d && isZeroInt(x.args[0]):
			text = "UnixNano(" + f + ")"
		case x.op == "pure" && len(x.args) == 1 && stripTerm(x.args[0]) == d:
			text = strings.TrimPrefix(x.aux[strings.LastIndex(x.aux, ".")+1:], "Unix") + "(" + f + ")"
			if x.aux == "time.UnixMilli" || x.aux == "time.UnixMicro" {
				text = x.aux[len("time."):] + "(" + f + ")"
			}
		case x.op == "append":
			text = f + "[]"
			for _, a := range x.args[1:] {
				if stripTerm(a) != d {
					text = "altered " + text
				}
			}
		case x.op == "mk" && len(x.args) == 1 && stripTerm(x.args[0]) == d:
			text = "len(" + f + ")"
		case x.op == "mk":
			text = f
			if sl, ok := termType(x).Underlying().(*types.Slice); ok && !isBytes(sl) {
				text += "[]"
			}
		case termType(x) != nil && x.op == "slice" && x.args[0] == d:
		default:
			text = "altered " + f
		}
		g := strings.Split(d.aux, "|")
		width, _ := strconv.Atoi(g[1])
		s.put(l, l.read, g[0], &serCell{text, width, g[2], fn.Pos(), fnName(fn)}, "read")
		l.fields[f] = true
		st.user.add("from", w.tt.mk("from", "", nil, nil, o, d.args[0]), "x")
		// what counts the elements
		for c := range st.user.sets["counts"] {
			if c.args[0] == d.args[0] && c != d {
				h := strings.Split(c.aux, "|")
				if l.read[h[0]] == nil {
					cw, _ := strconv.Atoi(h[1])
					l.read[h[0]] = &serCell{"the number of elements", cw, h[2], fn.Pos(), fnName(fn)}
				}
			}
		}
	}
	return true
}

func stripTerm(t *Term) *Term {
	for t != nil && (t.op == "conv" || t.op == "iface") {
		t = t.args[0]
	}
	return t
}

func isZeroInt(t *Term) bool { n, ok := stripTerm(t).intVal(); return ok && n == 0 }

func (s *serial) put(l *serLayout, m map[string]*serCell, place string, c *serCell, side string) {
	if old := m[place]; old != nil && (old.text != c.text || old.width != c.width || old.order != c.order) {
		if old.text == "the number of elements" {
			m[place] = c
			return
		}
		s.r.violation("same-layout", l.name+": "+place, c.pos, sprintf("%s as %s (%d bytes) in %s, but as %s (%d bytes) in %s", side, old.text, old.width, old.fn, c.text, c.width, c.fn), nil)
		return
	}
	m[place] = c
}

// written records what is written of an entry.
func (s *serial) written(w *Walker, st *State, data, place *Term, ci *CallInfo) {
	base, _, _ := s.where(data)
	if base == nil {
		return
	}
	segs := segsOf(st, base)
	var vals []*Term
	for _, g := range segs {
		vals = append(vals, g.v)
	}
	obj := s.ofEntry(vals)
	if obj == nil {
		return
	}
	if _, mut := st.user.has("mut", obj); mut {
		return
	}
	l := s.layout(s.entryOf(termType(obj)))
	for _, g := range segs {
		o, text := s.describe(g.v)
		if o != obj {
			text = "something else: " + g.v.String()
		}
		s.put(l, l.write, g.place, &serCell{text, g.width, g.order, ci.instr.Parent().Pos(), fnName(ci.instr.Parent())}, "written")
	}
	if n, ok := lengthOf(base); ok {
		l.wlen[n] = true
	}
	if place != nil {
		p := stripTerm(place)
		if _, f := s.describe(p); f != "" {
			l.wplace[f] = true
		} else if n, ok := p.intVal(); ok {
			l.wplace[sprintf("offset %d", n)] = true
		} else {
			l.wplace["somewhere else: "+p.String()] = true
		}
	}
}

// lengthOf: the length of a new buffer.
func lengthOf(base *Term) (int64, bool) {
	if base == nil {
		return 0, false
	}
	switch base.op {
	case "mk":
		if len(base.args) == 1 {
			return base.args[0].intVal()
		}
	case "alloc":
		if pt := pointee(termType(base)); pt != nil {
			if a, ok := pt.Underlying().(*types.Array); ok {
				return a.Len(), true
			}
		}
	}
	return 0, false
}

// hasList: the last value is a list.
func (l *serLayout) hasList() bool {
	for _, c := range l.write {
		if strings.HasSuffix(c.text, "[]") {
			return true
		}
	}
	return false
}

// ofEntry: the entry, given to the function, which most of the values are of.
func (s *serial) ofEntry(vals []*Term) *Term {
	count := map[*Term]int{}
	for _, v := range vals {
		if o, _ := s.describe(v); o != nil && o.op == "param" {
			count[o]++
		}
	}
	for o, n := range count {
		if 2*n > len(vals) {
			return o
		}
	}
	return nil
}

func (l *serLayout) readAt(c *CallInfo, places map[string]bool) {
	if l.rplaces == nil {
		l.rplaces = map[ssa.Instruction][]map[string]bool{}
	}
	l.rplaces[c.instr] = append(l.rplaces[c.instr], places)
}

func (s *serial) readPlace(w *Walker, st *State, x, data *Term) {
	l := s.layout(s.entryOf(termType(x)))
	if data.op != "ext" || data.args[0].call == nil {
		return
	}
	c := data.args[0].call
	kind := s.fileCall(c.fn)
	if kind != "get" && kind != "reader" {
		return
	}
	at := stripTerm(c.arg(1))
	if n, ok := at.intVal(); ok {
		l.readAt(c, map[string]bool{sprintf("offset %d", n): true})
	} else {
		found := map[string]bool{}
		if stt, ok := l.typ.Underlying().(*types.Struct); ok {
			for i := 0; i < stt.NumFields(); i++ {
				f := stt.Field(i)
				if isInt(f.Type()) && stripTerm(w.load(st, w.faddr(x, f.Name()), f.Type())) == at {
					found[f.Name()] = true
				}
			}
		}
		if len(found) > 0 {
			l.readAt(c, found)
		}
	}
	if kind == "get" {
		if n, ok := stripTerm(c.arg(2)).intVal(); ok {
			l.rlen[n] = true
		} else {
			l.rlen[-1] = true
		}
	}
}

func (s *serial) sqlWritten(w *Walker, ci *CallInfo, text *Term) {
	st := ci.st
	x := parseStatement(text)
	if x == nil {
		return
	}
	k := w.tt.mk("table", "", nil, nil, x.table)
	owner := s.ownerOf(ci)
	if x.verb != "insert" && owner != nil {
		s.tables[s.layout(owner).name+"|"+x.verb+"|"+tableName(x.table)] = ci.pos
	}
	switch x.verb {
	case "create":
		for i, c := range x.cols {
			st.user.add("cols:"+c, k, strconv.Itoa(i))
		}
		st.user.add("created", k, strings.Join(x.cols, ","))
	case "delete":
		st.user.add("emptied", k, "x")
	case "insert":
		n := len(ci.vargs) - x.binds
		if n < 1 {
			return
		}
		cols := x.cols
		if cols == nil {
			if v, ok := st.user.has("created", k); ok {
				cols = strings.Split(v, ",")
			}
		}
		if len(cols) != x.binds {
			return
		}
		obj := s.ofEntry(ci.vargs[n:])
		if obj == nil {
			return
		}
		if _, mut := st.user.has("mut", obj); mut {
			return
		}
		l := s.layout(s.entryOf(termType(obj)))
		s.tables[l.name+"|insert|"+tableName(x.table)] = ci.pos
		for i, v := range ci.vargs[n:] {
			o, text := s.describe(v)
			if o != obj {
				text = "something else: " + v.String()
			}
			s.put(l, l.write, "column "+cols[i], &serCell{text, 0, "", ci.instr.Parent().Pos(), fnName(ci.instr.Parent())}, "written")
		}
		_, emptied := st.user.has("emptied", k)
		s.r.check(emptied || strings.HasPrefix(strings.ToUpper(strings.TrimSpace(x.text)), "REPLACE") || strings.Contains(strings.ToUpper(x.text), "OR REPLACE"), "own-place", l.name+": former one", ci.pos,
			"what was recorded before is removed first", "what was recorded before stays beside the new one, and can be read instead of it")
	}
}

// ownerOf: the entry type whose method runs.
func (s *serial) ownerOf(ci *CallInfo) *types.Named {
	for i := len(ci.st.frames) - 1; i >= 0; i-- {
		f := ci.st.frames[i].fn
		if rv := f.Signature.Recv(); rv != nil {
			if n := s.entryOf(rv.Type()); n != nil {
				return n
			}
		}
		for j := 0; j < f.Signature.Results().Len(); j++ {
			if n := s.entryOf(f.Signature.Results().At(j).Type()); n != nil {
				return n
			}
		}
	}
	pk := pkgOf(ci.instr.Parent())
	var only *types.Named
	for n := range s.tracked {
		if n.Obj().Pkg() == pk {
			if only != nil {
				return nil
			}
			only = n
		}
	}
	return only
}

func (s *serial) sqlRead(w *Walker, ci *CallInfo, decoded func(st *State, cell *Term)) bool {
	q := ci.arg(0)
	if q == nil {
		return false
	}
	for q.op == "ext" || q.op == "iface" {
		q = q.args[0]
	}
	if q.call == nil {
		return false
	}
	tv := sqlTextArg(q.call.common)
	if tv == nil {
		return false
	}
	var x *statement
	for _, a := range q.call.vargs {
		if isText(termType(a)) && x == nil {
			x = parseStatement(a)
		}
	}
	if x == nil || x.verb != "select" || len(x.cols) != len(ci.vargs)-1 {
		return false
	}
	for i, d := range ci.vargs[1:] {
		t := pointee(termType(d))
		a := stripTerm(d)
		if t == nil {
			continue
		}
		w.store(ci.st, a, w.tt.mk("dec", "column "+x.cols[i]+"|0|", t, nil, q))
		decoded(ci.st, a)
	}
	return true
}

// compare checks that what is read is what was written.
func (s *serial) compare() {
	r := s.r
	var list []*serLayout
	for _, l := range s.layouts {
		if len(l.write)+len(l.read) > 0 {
			list = append(list, l)
		}
	}
	sort.Slice(list, func(i, j int) bool { return list[i].name < list[j].name })
	n := 0
	for _, l := range list {
		if len(l.write) == 0 || len(l.read) == 0 {
			r.undecided("same-layout", l.name, l.pos, sprintf("%d values are written and %d are read", len(l.write), len(l.read)))
			continue
		}
		places := map[string]bool{}
		for p := range l.write {
			places[p] = true
		}
		for p := range l.read {
			places[p] = true
		}
		var order []string
		for p := range places {
			order = append(order, p)
		}
		sort.Strings(order)
		end := int64(0)
		ranges := false
		for _, p := range order {
			n++
			wc, rc := l.write[p], l.read[p]
			c := l.name + ": " + p
			switch {
			case wc == nil:
				r.violation("same-layout", c, rc.pos, sprintf("%s is read there by %s, but nothing is written there", rc.text, rc.fn), nil)
				continue
			case rc == nil:
				r.violation("same-layout", c, wc.pos, sprintf("%s is written there by %s, but nothing is read from there", wc.text, wc.fn), nil)
				continue
			}
			same := wc.text == rc.text || strings.HasPrefix(wc.text, "len(") && rc.text == "the number of elements"
			if !same {
				r.violation("same-layout", c, rc.pos, sprintf("what is written there is %s (%s), but it is read as %s (%s)", wc.text, wc.fn, rc.text, rc.fn), nil)
			} else if wc.width != rc.width || wc.order != rc.order {
				r.violation("same-layout", c, rc.pos, sprintf("%s is written as %d bytes %s, but read as %d bytes %s", wc.text, wc.width, wc.order, rc.width, rc.order), nil)
			} else {
				r.ok("same-layout", c, wc.pos, sprintf("%s is written by %s and read by %s the same way", wc.text, wc.fn, rc.fn))
			}
			if need := s.need(l.typ, wc.text); need > 0 && wc.width > 0 {
				r.check(wc.width >= need, "whole-value", c, wc.pos, sprintf("%d bytes for %s", wc.width, wc.text), sprintf("%d bytes cannot hold %s, which takes %d: a part of it is lost", wc.width, wc.text, need))
			}
			if strings.HasPrefix(p, "byte ") {
				ranges = true
				start, _ := strconv.Atoi(strings.TrimPrefix(p, "byte "))
				if int64(start) < end {
					r.violation("whole-value", c, wc.pos, "this place overlaps the one before it", nil)
				}
				end = int64(start + wc.width)
			}
		}
		s.places(l, ranges, end)
		s.complete(l)
	}
	r.stats["values_compared"] = n
	names := map[string]map[string][]string{}
	for t := range s.tables {
		f := strings.SplitN(t, "|", 3)
		if names[f[0]] == nil {
			names[f[0]] = map[string][]string{}
		}
		names[f[0]][f[2]] = append(names[f[0]][f[2]], f[1])
	}
	for o, byName := range names {
		var out []string
		for nm, verbs := range byName {
			sort.Strings(verbs)
			out = append(out, sprintf("%q (%s)", nm, strings.Join(verbs, ", ")))
		}
		sort.Strings(out)
		r.check(len(out) == 1, "own-place", o+": table", token.NoPos, "one table: "+strings.Join(out, "; "), "the statements do not all use the same table: "+strings.Join(out, "; "))
	}
}

// need: the number of bytes of the values of a field.
func (s *serial) need(t types.Type, text string) int {
	base := text
	if strings.HasPrefix(text, "len(") {
		return 2
	}
	if strings.HasPrefix(text, "Unix") {
		return 8
	}
	if i := strings.IndexAny(base, "(["); i >= 0 && !strings.HasSuffix(base, "[]") {
		return 0
	}
	elem := strings.HasSuffix(base, "[]")
	base = strings.TrimSuffix(base, "[]")
	for _, f := range strings.Split(base, ".") {
		st := structOf(t)
		if st == nil {
			return 0
		}
		found := false
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == f {
				t, found = st.Field(i).Type(), true
				break
			}
		}
		if !found {
			return 0
		}
	}
	if sl, ok := t.Underlying().(*types.Slice); ok {
		if !elem {
			return 0
		}
		t = sl.Elem()
	}
	if !isBasic(t) {
		return 0
	}
	return s.widthOf(t)
}

func keysOf(m map[string]bool) string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return strings.Join(out, ", ")
}

func lensOf(ms ...map[int64]bool) ([]string, bool) {
	all := map[int64]bool{}
	for _, m := range ms {
		for k := range m {
			all[k] = true
		}
	}
	var out []string
	for k := range all {
		out = append(out, strconv.FormatInt(k, 10))
	}
	sort.Strings(out)
	return out, len(all) == 1
}

func (s *serial) places(l *serLayout, ranges bool, end int64) {
	r := s.r
	// several fields may hold the place which is read on some path (in a loop,
	// the one of the entry before): it is the one which does the most often
	for _, ms := range l.rplaces {
		count, max := map[string]int{}, 0
		for _, m := range ms {
			for k := range m {
				count[k]++
				if count[k] > max {
					max = count[k]
				}
			}
		}
		for k, n := range count {
			if n == max {
				l.rplace[k] = true
			}
		}
	}
	if len(l.wplace) > 0 || len(l.rplace) > 0 {
		r.check(keysOf(l.wplace) == keysOf(l.rplace), "own-place", l.name+": place", l.pos,
			"written to and read from "+keysOf(l.wplace), sprintf("written to %s, but read from %s", keysOf(l.wplace), keysOf(l.rplace)))
	}
	if ranges {
		lens, one := lensOf(l.wlen, l.rlen, l.alloc)
		fits := one && len(l.wlen) == 1 && len(l.rlen) == 1
		for n := range l.wlen {
			fits = fits && n >= end
		}
		r.check(fits, "own-place", l.name+": length", l.pos, "written, read and reserved as "+strings.Join(lens, ", ")+" bytes",
			sprintf("the entry takes %d bytes, but the lengths which are written, read and reserved are %s", end, strings.Join(lens, ", ")))
	}
}

// complete: each field which is used somewhere is known after reading.
func (s *serial) complete(l *serLayout) {
	st, ok := l.typ.Underlying().(*types.Struct)
	if !ok {
		return
	}
	stored := map[string]bool{}
	var readers []*ssa.Function
	seen := map[string]bool{}
	for _, c := range l.read {
		if !seen[c.fn] {
			seen[c.fn] = true
			for _, f := range s.p.funcs {
				if fnName(f) == c.fn {
					readers = append(readers, f)
				}
			}
		}
	}
	// the functions which create the entry and read it
	var around []*ssa.Function
	for _, f := range readers {
		around = append(around, f)
		around = append(around, s.p.callers(f)...)
	}
	for _, f := range around {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if x, ok := in.(*ssa.Store); ok {
					if fa, ok := x.Addr.(*ssa.FieldAddr); ok && named(fa.X.Type()) == l.typ {
						stored[fieldName(fa)] = true
					}
				}
			}
		}
	}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if l.fields[f.Name()] {
			continue
		}
		used := false
		for _, fn := range s.p.funcs {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if fa, ok := in.(*ssa.FieldAddr); ok && named(fa.X.Type()) == l.typ && fieldName(fa) == f.Name() {
						for _, ref := range *fa.Referrers() {
							if u, ok := ref.(*ssa.UnOp); ok && u.Op == token.MUL {
								used = true
							}
						}
					}
				}
			}
		}
		if used && !stored[f.Name()] {
			s.r.violation("nothing-left-out", l.name+"."+f.Name(), f.Pos(), "this value is used, but it is neither recorded nor known when the entry is read back", nil)
		}
	}
	s.r.ok("nothing-left-out", l.name, l.pos, sprintf("%d of the %d values are recorded", len(l.fields), st.NumFields()))
}

// ---- changes are written back ----

type serSummary struct {
	dirty map[int]bool // the parameters which are left changed
	saved map[int]bool // the parameters which are written
	ret   bool         // a changed entry is returned
	exits int
}

func (s *serial) writtenBack(pkgs map[*types.Package]bool) {
	p := s.p
	touch := p.touching(func(fn *ssa.Function, in ssa.Instruction) bool {
		x, ok := in.(*ssa.Store)
		return ok && s.changes(x.Addr)
	})
	writes := p.touching(func(fn *ssa.Function, in ssa.Instruction) bool {
		ci, ok := in.(ssa.CallInstruction)
		if !ok || !pkgs[pkgOf(fn)] || s.ofFile(fn) {
			return false
		}
		c := ci.Common()
		switch s.fileCall(c.StaticCallee()) {
		case "add", "replace":
			return true
		case "get", "reader":
			return false
		}
		o := calleeObj(c)
		return s.primitive(c) && !strings.HasPrefix(o.Name(), "Query") && !(o.Pkg().Path() == "encoding/binary" && (strings.HasPrefix(o.Name(), "Uint") || o.Name() == "Read"))
	})
	decodes := p.touching(func(fn *ssa.Function, in ssa.Instruction) bool {
		ci, ok := in.(ssa.CallInstruction)
		if !ok || !pkgs[pkgOf(fn)] {
			return false
		}
		o := calleeObj(ci.Common())
		return o != nil && o.Pkg() != nil && (o.Pkg().Path() == "encoding/binary" && (strings.HasPrefix(o.Name(), "Uint") || o.Name() == "Read") || o.Name() == "Scan")
	})
	sums := map[*ssa.Function]*serSummary{}
	// callees first
	var order []*ssa.Function
	seen := map[*ssa.Function]bool{}
	var visit func(fn *ssa.Function)
	visit = func(fn *ssa.Function) {
		if fn == nil || seen[fn] || !touch[fn] {
			return
		}
		seen[fn] = true
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var ops []*ssa.Value
				for _, op := range in.Operands(ops) {
					if f, ok := (*op).(*ssa.Function); ok {
						visit(f)
					}
				}
			}
		}
		k := pkgOf(fn)
		if fn.Parent() == nil && !s.ofFile(fn) && k != nil && (pkgs[k] || strings.HasSuffix(k.Path(), "/pkg/index")) {
			order = append(order, fn)
		}
	}
	for _, fn := range p.funcs {
		visit(fn)
	}
	for _, fn := range order {
		if !pkgs[pkgOf(fn)] {
			// only what is given changed entries
			given := false
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if ci, ok := in.(ssa.CallInstruction); ok {
						if sm := sums[ci.Common().StaticCallee()]; sm != nil && (len(sm.dirty) > 0 || sm.ret) {
							given = true
						}
					}
					if x, ok := in.(*ssa.Store); ok && s.changes(x.Addr) {
						given = true
					}
				}
			}
			if !given {
				continue
			}
		}
		s.changesOf(fn, func(f *ssa.Function) bool {
			if sm := sums[f]; sm != nil {
				return len(sm.dirty) > 0 || sm.ret
			}
			return f.Parent() != nil || writes[f] && !touch[f]
		}, func(f *ssa.Function) bool { return decodes[f] && !writes[f] }, sums)
	}
}

// changes: the address is, or is in, a recorded value of an entry.
func (s *serial) changes(a ssa.Value) bool {
	for d := 0; d < 8; d++ {
		switch x := a.(type) {
		case *ssa.FieldAddr:
			if n := named(x.X.Type()); n != nil && s.layouts[n] != nil && s.layouts[n].fields[fieldName(x)] {
				return true
			}
			a = x.X
		case *ssa.IndexAddr:
			a = x.X
		case *ssa.UnOp:
			a = x.X
		default:
			return false
		}
	}
	return false
}

// changed: the entry that a store changes.
func (s *serial) changed(addr *Term) (obj *Term, field string) {
	for a := addr; a != nil; {
		if o, f := s.objField(a); o != nil {
			n := s.entryOf(termType(o))
			top := strings.Split(f, ".")[0]
			if l := s.layouts[n]; l != nil && l.fields[top] {
				return o, top
			}
			return nil, ""
		}
		switch a.op {
		case "iaddr", "ld", "slice":
			a = a.args[0]
		default:
			return nil, ""
		}
	}
	return nil, ""
}

func (s *serial) changesOf(fn *ssa.Function, inline func(f *ssa.Function) bool, loads func(f *ssa.Function) bool, sums map[*ssa.Function]*serSummary) {
	r := s.r
	name := fnName(fn)
	sum := &serSummary{dirty: map[int]bool{}, saved: map[int]bool{}}
	w := newWalker(s.p, r, Hooks{})
	w.unroll = 64
	w.h.Inline = func(st *State, f *ssa.Function) bool { return !s.ofFile(f) && !quotes(f) && inline(f) }
	w.h.Store = func(st *State, in *ssa.Store, addr, val *Term) {
		o, f := s.changed(addr)
		if o == nil {
			return
		}
		if val.any(func(t *Term) bool { return t.op == "dec" }) || loads(in.Parent()) {
			return
		}
		if _, was := st.user.has("dirty", o); !was && o.op == "alloc" && isZeroTerm(val) {
			return // what is reserved is zero
		}
		st.user.add("dirty", o, f)
		st.user.del("saved", o)
		st.note(in.Pos(), "%s is changed", f)
	}
	decoded := func(st *State, a *Term) {}
	w.h.Before = func(ci *CallInfo) bool {
		st := ci.st
		if s.encodings(w, ci, decoded) {
			return true
		}
		switch s.fileCall(ci.fn) {
		case "replace":
			s.cleaned(w, st, segsAt(s, st, ci.arg(2)))
			s.forget(st, ci.arg(2))
			return true
		case "add":
			s.cleaned(w, st, segsAt(s, st, ci.arg(1)))
			s.forget(st, ci.arg(1))
			return true
		case "get", "reader":
			return true
		}
		if ci.fn != nil && s.p.inRepo(ci.fn) {
			if sm := sums[ci.fn]; sm != nil && len(sm.dirty) == 0 && !sm.ret {
				for i := range sm.saved {
					if a := ci.arg(i); a != nil {
						st.user.del("dirty", a)
					}
				}
			}
			return false
		}
		if tv := sqlTextArg(ci.common); tv != nil {
			x := parseStatement(w.val(st, tv))
			if x == nil {
				return false
			}
			k := w.tt.mk("table", "", nil, nil, x.table)
			if x.verb == "create" {
				st.user.add("created", k, strings.Join(x.cols, ","))
			}
			if x.verb == "insert" {
				cols := x.cols
				if v, ok := st.user.has("created", k); ok && cols == nil {
					cols = strings.Split(v, ",")
				}
				n := len(ci.vargs) - x.binds
				if n >= 1 && len(cols) == x.binds {
					var segs []serSeg
					for i, v := range ci.vargs[n:] {
						segs = append(segs, serSeg{"column " + cols[i], 0, "", v})
					}
					s.cleaned(w, st, segs)
				}
			}
		}
		return false
	}
	w.h.Exit = func(st *State, f *ssa.Function, ret []*Term) bool {
		if len(ret) > 0 && ret[len(ret)-1] != nil && isErrorType(f.Signature.Results().At(len(ret)-1).Type()) {
			if isnil, known := w.isNil(st, ret[len(ret)-1]); known && !isnil {
				return false
			}
		}
		for i, prm := range fn.Params {
			_, saved := st.user.has("saved", w.param(prm.Name(), prm.Type()))
			if sum.exits == 0 && saved {
				sum.saved[i] = true
			} else if !saved {
				delete(sum.saved, i)
			}
		}
		sum.exits++
		for o, field := range st.user.sets["dirty"] {
			if o.op == "param" {
				for i, prm := range fn.Params {
					if prm.Name() == o.aux {
						sum.dirty[i] = true
					}
				}
				continue
			}
			given := false
			for _, x := range ret {
				if x == o {
					given = true
				}
			}
			if given {
				sum.ret = true
				continue
			}
			r.violation("written-back", name, fn.Pos(), sprintf("the operation succeeds although %s of %s was changed and not written since: the change is lost", field, typeName(termType(o))), st)
		}
		return false
	}
	w.start(fn, nil)
	sums[fn] = sum
	r.walked(w)
	r.funcs[name] = true
	if len(sum.dirty) == 0 && !sum.ret {
		r.ok("written-back", name, fn.Pos(), "each changed entry is written before the end")
	} else if len(s.p.callers(fn)) == 0 && exported(fn) {
		r.ok("written-back", name, fn.Pos(), "left to the callers: there are none")
	}
}

func exported(fn *ssa.Function) bool { return fn.Object() != nil && fn.Object().Exported() }

func isErrorType(t types.Type) bool { return types.TypeString(t, nil) == "error" }

func isZeroTerm(t *Term) bool {
	t = stripTerm(t)
	if t.op == "nil" {
		return true
	}
	if n, ok := t.intVal(); ok {
		return n == 0
	}
	if b, ok := t.boolVal(); ok {
		return !b
	}
	return false
}

func segsAt(s *serial, st *State, data *Term) []serSeg {
	base, _, _ := s.where(data)
	if base == nil {
		return nil
	}
	return segsOf(st, base)
}

func entryField(t types.Type, name string) types.Type {
	if st := structOf(t); st != nil {
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == name {
				return st.Field(i).Type()
			}
		}
	}
	return types.Typ[types.Invalid]
}

// forget what was encoded, once it is written.
func (s *serial) forget(st *State, data *Term) {
	base, _, _ := s.where(data)
	for _, set := range []string{"segs", "rank"} {
		for m := range st.user.sets[set] {
			if m.args[0] == base || m.args[0].op == "old" {
				st.user.del(set, m)
			}
		}
	}
	for b := range st.user.sets["seq"] {
		if b == base || b.op == "old" {
			st.user.del("seq", b)
		}
	}
}

// cleaned: the entries whose values are the ones which are written.
func (s *serial) cleaned(w *Walker, st *State, segs []serSeg) {
	if len(segs) == 0 {
		return
	}
	var done, all []*Term
	for o := range st.user.sets["dirty"] {
		all = append(all, o)
	}
	for _, prm := range st.frames[0].fn.Params {
		if s.entryOf(prm.Type()) != nil {
			all = append(all, w.param(prm.Name(), prm.Type()))
		}
	}
	for _, o := range all {
		l := s.layouts[s.entryOf(termType(o))]
		same := l != nil
		for _, g := range segs {
			if !same {
				break
			}
			c := l.write[g.place]
			if c == nil && l.hasList() {
				continue // an element of the list
			}
			if c == nil {
				same = false
				break
			}
			if strings.ContainsAny(c.text, "([") {
				continue // a function of the field
			}
			cur := stripTerm(w.load(st, w.faddr(o, c.text), entryField(l.typ, c.text)))
			if v := stripTerm(g.v); v != cur && !(isZeroTerm(v) && isZeroTerm(cur)) {
				same = false
			}
		}
		if same {
			done = append(done, o)
		}
	}
	for _, o := range done {
		st.user.del("dirty", o)
		if o.op == "param" {
			st.user.add("saved", o, "x")
		}
	}
}
