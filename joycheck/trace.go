package main

// Trace-partitioned abstract interpretation of an expanded function. Every
// acyclic path is walked once with values abstracted to (a) linear forms over
// named inputs, (b) the provenance of each single bit, and (c) for byte
// buffers, a list of the stores and copies that made their content. Values
// that change around a loop stay symbolic. What the path sends to a writer,
// takes from a reader, stores and returns is then compared with a table.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// slin is c + sum(k*named term).
type slin struct {
	c int64
	t map[string]int64
}

func sc(c int64) slin      { return slin{c: c} }
func sterm(s string) slin  { return slin{t: map[string]int64{s: 1}} }
func (a slin) konst() bool { return len(a.t) == 0 }
func (a slin) add(b slin, k int64) slin {
	r := slin{c: a.c + k*b.c, t: map[string]int64{}}
	for s, x := range a.t {
		r.t[s] = x
	}
	for s, x := range b.t {
		if n := r.t[s] + k*x; n == 0 {
			delete(r.t, s)
		} else {
			r.t[s] = n
		}
	}
	return r
}
func (a slin) mul(k int64) slin { return sc(0).add(a, k) }
func (a slin) eq(b slin) bool {
	d := a.add(b, -1)
	return d.konst() && d.c == 0
}
func (a slin) String() string {
	var ks []string
	for s := range a.t {
		ks = append(ks, s)
	}
	sort.Strings(ks)
	var sb strings.Builder
	for i, s := range ks {
		k := a.t[s]
		switch {
		case k == 1 && i == 0:
		case k == 1:
			sb.WriteString("+")
		case k == -1:
			sb.WriteString("-")
		case k > 0 && i > 0:
			fmt.Fprintf(&sb, "+%d*", k)
		default:
			fmt.Fprintf(&sb, "%d*", k)
		}
		sb.WriteString(s)
	}
	if a.c != 0 || len(ks) == 0 {
		if len(ks) > 0 {
			fmt.Fprintf(&sb, "%+d", a.c)
		} else {
			fmt.Fprintf(&sb, "%d", a.c)
		}
	}
	return sb.String()
}

// sbit: s=="" is the constant i; s=="?" unknown; otherwise bit i of s.
type sbit struct {
	s string
	i int
}

var topBit = sbit{"?", 0}

// sval is an abstract value.
type sval struct {
	sym    string
	isInt  bool
	w      int
	sgn    bool
	bits   []sbit // least significant first, when isInt
	lin    slin
	base   string // byte buffers and pointers: identity of the memory
	off    slin
	length slin
	hasLen bool
	tup    []*sval
	boolC  *scond
	fn     *V // function values
	v      *V
	isNil  bool
	fields map[int]*sval
	ftyp   *types.Struct // type of fields
	list   []litem       // content of a slice that is not bytes
}

// litem is an element of a slice, or all elements of another slice.
type litem struct {
	one    *sval
	spread *sval
}

// scond is a branch condition: lin op 0, or a named boolean.
type scond struct {
	op  token.Token // EQL NEQ GEQ for lin; ILLEGAL for a named boolean
	lin slin
	sym string
	neg bool
	l   *sval
	r   *sval
}

type memEnt struct {
	base string
	off  slin
	kind int  // 0 one byte, 1 blob copy, 2 zero, 3 stream, 4 unknown
	part bool // unknown: from off on
	n    slin
	bits []sbit
	src  *sval // blob: the source slice
	at   int   // blob: index in mem at which the source is read
	pos  slin  // stream position
}

type oseg struct {
	bits []sbit
	blob string
	n    slin
	base string
	off  slin
}

func (o oseg) String() string {
	if o.bits != nil {
		return bitStr(o.bits)
	}
	return "<" + o.blob + ":" + o.n.String() + ">"
}

type sevent struct {
	kind string // call, write, read, flush, go, send, recv, store ...
	name string
	args []*sval
	in   *Instr
	res  *sval
	nm   int // memory events before
}

// Trace is one path.
type Trace struct {
	x      *tracer
	conds  []scond
	facts  []lin
	nes    []lin
	bools  map[string]bool
	fix    map[sbit]int // bits known constant on this path
	nstep  int          // steps of the script taken
	mism   string       // how the path leaves the script
	source string
	events []sevent
	out    []oseg
	pos    slin
	mem    []memEnt
	cellv  map[string]*sval // other memory, by address
	fresh  map[string]bool  // allocations nothing unknown has written to
	env    map[*V]*sval
	up     *Trace
	blocks []*Block
	end    *Instr
	endB   *Block
	back   bool // ends at a loop back edge
	ret    []*sval
	upd    map[string]bool
	seen   map[*Block]int
	back2  []phiVal // values carried into the next turn, when the path ends there
	turns  []phiTurn
}

// phiVal is the value of a loop variable; phiTurn the values at one arrival.
type phiVal struct {
	phi *V
	val *sval
}
type phiTurn struct {
	b    *Block
	vals []phiVal
	at   int // number of facts then
	bi   int // index in blocks
	gen  bool
}

// entered tells whether a turn gets past the test at the head of the loop.
func (t *Trace) entered(pt phiTurn) bool {
	if pt.bi+1 < len(t.blocks) {
		return pt.b.loopHead.Blocks[t.blocks[pt.bi+1]]
	}
	return t.back && t.endB == pt.b
}

type tracer struct {
	f      *Fn
	terms  map[string]*V
	trng   map[string][2]int64
	n      int
	max    int
	over   bool
	out    []*Trace
	emit   func(*Trace)
	start  *Block
	stopB  func(*Block) bool
	width  map[string]int    // assumed widths of inputs
	appSrc map[string]string // the slices appended slices may share elements with
	calls  map[string]bool
	uniq   map[instrAt]int
	sgnOf  map[string]sgnLink
	combo  map[string][]sbit // the bits of terms made of several values
	init   map[string][]sbit // inputs given bit by bit
	script []scriptStep
	turns  int  // turns of a loop to follow
	gen    bool // the first turn is a general one
	fits   bool // copies are taken to fit where this is not known
	hyp    map[*V]hypo
}

type instrAt struct {
	in *Instr
	n  int
}

// hypo is what is assumed of a loop variable at the head of a general turn.
type hypo struct {
	eq  *slin
	min *int64
}

func intInfo(t types.Type) (w int, sgn, ok bool) {
	b, k := t.Underlying().(*types.Basic)
	if !k || b.Info()&types.IsInteger == 0 {
		return
	}
	ok = true
	sgn = b.Info()&types.IsUnsigned == 0
	switch b.Kind() {
	case types.Int8, types.Uint8:
		w = 8
	case types.Int16, types.Uint16:
		w = 16
	case types.Int32, types.Uint32:
		w = 32
	default:
		w = 64
	}
	return
}

func (x *tracer) term(s string) *V {
	if v := x.terms[s]; v != nil {
		return v
	}
	v := x.f.newV(VReg, types.Typ[types.Int])
	v.Name = s
	x.terms[s] = v
	return v
}

func (x *tracer) toLin(a slin) lin {
	r := lc(a.c)
	for s, k := range a.t {
		r = r.add(lt(x.term(s)), k)
	}
	return r
}

func bitStr(bs []sbit) string {
	var parts []string
	for i := len(bs) - 1; i >= 0; {
		b := bs[i]
		j := i
		switch {
		case b.s == "":
			for j-1 >= 0 && bs[j-1].s == "" {
				j--
			}
			v := ""
			for k := i; k >= j; k-- {
				v += fmt.Sprint(bs[k].i)
			}
			parts = append(parts, v)
		case b.s == "?":
			for j-1 >= 0 && bs[j-1].s == "?" {
				j--
			}
			parts = append(parts, fmt.Sprintf("?*%d", i-j+1))
		default:
			for j-1 >= 0 && bs[j-1].s == b.s && bs[j-1].i == bs[j].i-1 {
				j--
			}
			if i == j {
				k := i
				for k-1 >= 0 && bs[k-1] == b {
					k--
				}
				if k < i {
					parts = append(parts, fmt.Sprintf("%s{%d}*%d", b.s, b.i, i-k+1))
					i = k - 1
					continue
				}
				parts = append(parts, fmt.Sprintf("%s{%d}", b.s, b.i))
			} else {
				parts = append(parts, fmt.Sprintf("%s{%d:%d}", b.s, bs[i].i, bs[j].i))
			}
		}
		i = j - 1
	}
	return strings.Join(parts, "|")
}

func (x *tracer) widthOf(s string, w int) int {
	if k, ok := x.width[s]; ok && k < w {
		return k
	}
	return w
}

// leaf makes the value of an unknown integer named s.
func (x *tracer) leaf(s string, t types.Type) *sval {
	v := &sval{sym: s}
	w, sgn, ok := intInfo(t)
	if ok {
		if c, known := x.tableLeaf(s); known {
			return x.intC(c, t)
		}
	} else if _, sl := t.Underlying().(*types.Slice); sl && strings.HasPrefix(s, "g:") {
		if c, known := x.f.P.table(s); known {
			v.base, v.off, v.length, v.hasLen = s, sc(0), sc(int64(len(c))), true
			return v
		}
	}
	if bs := x.init[s]; bs != nil && ok {
		for len(bs) < w {
			bs = append(bs[:len(bs):len(bs)], sbit{})
		}
		return x.fromBits(bs[:w], t)
	}
	if !ok {
		if isByteSeq(t) {
			v.base, v.off, v.length, v.hasLen = s, sc(0), sterm("len("+s+")"), true
			if bs := x.init["len("+s+")"]; bs != nil {
				v.length = x.fromBits(padBits(bs, 64), types.Typ[types.Int]).lin
			}
			x.trng["len("+s+")"] = [2]int64{0, maxLen}
		} else if _, isp := t.Underlying().(*types.Pointer); isp {
			v.base, v.off = s, sc(0)
		}
		return v
	}
	v.isInt, v.w, v.sgn = true, w, sgn
	k := x.widthOf(s, w)
	for i := 0; i < w; i++ {
		if i < k {
			v.bits = append(v.bits, sbit{s, i})
		} else {
			v.bits = append(v.bits, sbit{"", 0})
		}
	}
	v.lin = sterm(s)
	if _, ok := x.trng[s]; !ok {
		switch {
		case k < w:
			x.trng[s] = [2]int64{0, 1<<uint(k) - 1}
		case !sgn && w < 64:
			x.trng[s] = [2]int64{0, 1<<uint(w) - 1}
		case sgn && w < 64:
			x.trng[s] = [2]int64{-(1 << uint(w-1)), 1<<uint(w-1) - 1}
		}
	}
	return v
}

func (x *tracer) intC(c int64, t types.Type) *sval {
	w, sgn, ok := intInfo(t)
	if !ok {
		w, sgn = 64, true
	}
	v := &sval{isInt: true, w: w, sgn: sgn, lin: sc(c), sym: fmt.Sprint(c)}
	for i := 0; i < w; i++ {
		v.bits = append(v.bits, sbit{"", int(uint64(c) >> uint(i) & 1)})
	}
	return v
}

// fromBits makes an integer from bits, recovering a linear form.
func (x *tracer) fromBits(bs []sbit, t types.Type) *sval {
	w, sgn, _ := intInfo(t)
	v := &sval{isInt: true, w: w, sgn: sgn, bits: bs}
	all := true
	var c uint64
	for i, b := range bs {
		if b.s != "" {
			all = false
			break
		}
		c |= uint64(b.i) << uint(i)
	}
	if all {
		if sgn {
			v.lin = sc(int64(c<<uint(64-w)) >> uint(64-w))
		} else {
			v.lin = sc(int64(c))
		}
		v.sym = v.lin.String()
		return v
	}
	// a whole named value, zero-extended
	n := len(bs)
	for n > 0 && bs[n-1] == (sbit{"", 0}) {
		n--
	}
	if n > 0 && bs[0].s != "" && bs[0].s != "?" {
		whole := true
		for i := 0; i < n; i++ {
			if bs[i].s != bs[0].s || bs[i].i != i {
				whole = false
			}
		}
		if whole {
			if r, ok := x.trng[bs[0].s]; ok && r[0] >= 0 && n < 63 && r[1] < 1<<uint(n) {
				v.sym = bs[0].s
				v.lin = sterm(v.sym)
				return v
			}
		}
		// a linear expression whose exact width is kept
		if whole && n == len(bs) {
			if _, ok := x.trng[bs[0].s]; !ok && n == 64 {
				v.sym = bs[0].s
				v.lin = sterm(v.sym)
				return v
			}
		}
	}
	m := n
	if m == 0 {
		m = 1
	}
	v.sym = "(" + bitStr(bs[:m]) + ")"
	if sgn && n == w && w < 64 && bs[n-1].s != "" && bs[n-1].s != "?" && (n < 2 || bs[n-2] != bs[n-1]) {
		// another value than the unsigned one of the same bits
		u := v.sym
		v.sym = fmt.Sprintf("s%d%s", w, u)
		if x.sgnOf == nil {
			x.sgnOf = map[string]sgnLink{}
		}
		x.sgnOf[v.sym] = sgnLink{u, w, bs[n-1]}
		if _, ok := x.trng[u]; !ok {
			x.trng[u] = [2]int64{0, 1<<uint(w) - 1}
		}
		x.trng[v.sym] = [2]int64{-(1 << uint(w-1)), 1<<uint(w-1) - 1}
	}
	v.lin = sterm(v.sym)
	if n < 63 && v.sym[0] == '(' {
		if x.combo == nil {
			x.combo = map[string][]sbit{}
		}
		x.combo[v.sym] = bs[:m]
	}
	if n < 63 && (n < w || !sgn) {
		if _, ok := x.trng[v.sym]; !ok {
			x.trng[v.sym] = [2]int64{0, 1<<uint(n) - 1}
		}
	}
	return v
}

// fromLin makes an integer from a linear form.
func (x *tracer) fromLin(l slin, t types.Type) *sval {
	if l.konst() {
		return x.intC(l.c, t)
	}
	w, sgn, _ := intInfo(t)
	v := &sval{isInt: true, w: w, sgn: sgn, lin: l, sym: l.String()}
	for i := 0; i < w; i++ {
		v.bits = append(v.bits, sbit{v.sym, i})
	}
	return v
}

func (t *Trace) get(v *V) *sval {
	x := t.x
	switch v.Kind {
	case VConst:
		if v.C == nil {
			if w, _, ok := intInfo(v.Typ); ok && w > 0 {
				return x.intC(0, v.Typ)
			}
			s := &sval{sym: "nil", isNil: true, hasLen: true, length: sc(0), base: "nil", v: v}
			if b, ok := v.Typ.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
				s.sym = `""`
			} else if ok && b.Info()&types.IsBoolean != 0 {
				s.sym = "false"
			} else if _, ok := v.Typ.Underlying().(*types.Struct); ok {
				s.sym = "zero"
			}
			return s
		}
		if _, _, ok := intInfo(v.Typ); ok {
			if c, ok := constInt(v); ok {
				return x.intC(c, v.Typ)
			}
			if u, ok := constant.Uint64Val(constant.ToInt(v.C)); ok {
				return x.intC(int64(u), v.Typ)
			}
		}
		s := &sval{sym: v.C.ExactString(), v: v}
		if v.C.Kind() == constant.String {
			str := constant.StringVal(v.C)
			s.base, s.length, s.hasLen = "str:"+s.sym, sc(int64(len(str))), true
		}
		if v.C.Kind() == constant.Float {
			s.sym = "float:" + v.C.String()
		}
		return s
	case VParam:
		if s := t.env0(v); s != nil {
			return s
		}
		n := "p?"
		for i, p := range x.f.Params {
			if p == v {
				n = fmt.Sprintf("p%d", i)
			}
		}
		return x.leaf(n, v.Typ)
	case VFreeVar:
		return x.leaf("fv:"+v.Name, v.Typ)
	case VGlobal:
		n := "g:?"
		if g, ok := v.Obj.(*ssa.Global); ok {
			n = "g:" + relPkg(g.Pkg.Pkg.Path()) + "." + g.Name()
		}
		return &sval{sym: n, base: n, off: sc(0), v: v}
	case VFunc:
		n := "func:?"
		if fn, ok := v.Obj.(*ssa.Function); ok {
			n = "func:" + fnName(fn)
		}
		return &sval{sym: n, v: v}
	case VReg:
		if s := t.env0(v); s != nil {
			return s
		}
		return x.leaf(fmt.Sprintf("v%d", v.ID), v.Typ)
	}
	return &sval{sym: "undef", hasLen: false, v: v}
}

func (t *Trace) env0(v *V) *sval {
	for u := t; u != nil; u = u.up {
		if s := u.env[v]; s != nil {
			return s
		}
	}
	return nil
}

func (t *Trace) id(in *Instr) string {
	x := t.x
	k := instrAt{in, t.seen[in.Blk]}
	if n, ok := x.uniq[k]; ok {
		return fmt.Sprint(n)
	}
	x.uniq[k] = len(x.uniq) + 1
	return fmt.Sprint(len(x.uniq))
}

func (t *Trace) fork() *Trace {
	n := &Trace{x: t.x, up: t, env: map[*V]*sval{}, pos: t.pos, nstep: t.nstep, mism: t.mism, source: t.source}
	n.conds = t.conds[:len(t.conds):len(t.conds)]
	n.facts = t.facts[:len(t.facts):len(t.facts)]
	n.nes = t.nes[:len(t.nes):len(t.nes)]
	n.events = t.events[:len(t.events):len(t.events)]
	n.out = t.out[:len(t.out):len(t.out)]
	n.mem = t.mem[:len(t.mem):len(t.mem)]
	n.blocks = t.blocks[:len(t.blocks):len(t.blocks)]
	n.bools = map[string]bool{}
	for k, v := range t.bools {
		n.bools[k] = v
	}
	n.fix = map[sbit]int{}
	for k, v := range t.fix {
		n.fix[k] = v
	}
	n.fresh = map[string]bool{}
	for k := range t.fresh {
		n.fresh[k] = true
	}
	n.cellv = map[string]*sval{}
	for k, v := range t.cellv {
		n.cellv[k] = v
	}
	n.seen = map[*Block]int{}
	n.turns = t.turns[:len(t.turns):len(t.turns)]
	for k, v := range t.seen {
		n.seen[k] = v
	}
	return n
}

// traces walks f from start (nil: the entry).
func traces(f *Fn, max int, width map[string]int) (out []*Trace, over bool) {
	return tracesOpt(f, max, width, 1, true, nil)
}

// tracesOpt follows a number of turns of each loop. With gen the first turn
// is a general one: the loop variables are unknown but for hyp.
func tracesOpt(f *Fn, max int, width map[string]int, turns int, gen bool, hyp map[*V]hypo) (out []*Trace, over bool) {
	return tracesInit(f, max, width, turns, gen, hyp, nil)
}

// tracesInit starts from inputs of which some bits are given.
// tracesFit is tracesInit with copies that fit.
func tracesFit(f *Fn, max, turns int) (out []*Trace, over bool) {
	x := &tracer{f: f, terms: map[string]*V{}, trng: map[string][2]int64{}, max: max, uniq: map[instrAt]int{}, turns: turns, fits: true}
	x.emit = func(t *Trace) { out = append(out, t) }
	t := &Trace{x: x, env: map[*V]*sval{}, bools: map[string]bool{}, fix: map[sbit]int{}, cellv: map[string]*sval{}, fresh: map[string]bool{}, seen: map[*Block]int{}}
	x.walk(t, f.Blocks[0], nil, -1)
	return out, x.over
}

func tracesInit(f *Fn, max int, width map[string]int, turns int, gen bool, hyp map[*V]hypo, init map[string][]sbit) (out []*Trace, over bool) {
	x := &tracer{init: init, f: f, terms: map[string]*V{}, trng: map[string][2]int64{}, max: max, width: width, uniq: map[instrAt]int{}, turns: turns, gen: gen, hyp: hyp}
	x.emit = func(t *Trace) { out = append(out, t) }
	t := &Trace{x: x, env: map[*V]*sval{}, bools: map[string]bool{}, fix: map[sbit]int{}, cellv: map[string]*sval{}, fresh: map[string]bool{}, seen: map[*Block]int{}}
	x.walk(t, f.Blocks[0], nil, -1)
	return out, x.over
}

func (x *tracer) walk(t *Trace, b *Block, from *Block, pi int) {
	if x.over {
		return
	}
	if x.stopB != nil && x.stopB(b) {
		t.endB = b
		x.emit(t)
		return
	}
	if t.seen[b] >= x.turns {
		if pi >= 0 {
			for _, in := range b.Instrs {
				if in.Op == OpPhi {
					t.back2 = append(t.back2, phiVal{in.Dst, t.get(in.Args[pi])})
				}
			}
		}
		t.back = true
		t.endB = b
		x.n++
		if x.n > x.max {
			x.over = true
		}
		x.emit(t)
		return
	}
	t.seen[b]++
	general := b.loopHead != nil && x.gen && t.seen[b] == 1
	t.blocks = append(t.blocks, b)
	var np []*Instr
	var nv []*sval
	for _, in := range b.Instrs {
		if in.Op != OpPhi {
			continue
		}
		np = append(np, in)
		if general || pi < 0 {
			s := x.leaf(fmt.Sprintf("phi%d", in.Dst.ID), in.Dst.Typ)
			// a phi that never changes around the loop is its initial value
			if pi >= 0 {
				same := true
				for i, a := range in.Args {
					if i != pi && a != in.Dst && a != in.Args[pi] {
						same = false
					}
				}
				if same {
					s = t.get(in.Args[pi])
				} else if h, ok := x.hyp[in.Dst]; ok {
					if h.eq != nil {
						s = x.fromLin(*h.eq, in.Dst.Typ)
					} else if h.min != nil {
						t.facts = append(t.facts, x.toLin(s.lin.add(sc(-*h.min), 1)))
					}
				}
			}
			nv = append(nv, s)
		} else {
			nv = append(nv, t.get(in.Args[pi]))
		}
	}
	for i, in := range np {
		t.env[in.Dst] = nv[i]
	}
	if b.loopHead != nil {
		pt := phiTurn{b: b, gen: general, at: len(t.facts), bi: len(t.blocks) - 1}
		for i, in := range np {
			pt.vals = append(pt.vals, phiVal{in.Dst, nv[i]})
		}
		t.turns = append(t.turns, pt)
	}
	if general {
		// the state on a general iteration
		if loopDoes(b.loopHead, OpCall) {
			t.pos = sterm(fmt.Sprintf("pos%d", b.ID))
			t.out = append(t.out, oseg{blob: "loop", n: sterm("loop")})
		}
		if loopDoes(b.loopHead, OpCall, OpStore) {
			if !x.keeps(b.loopHead) {
				t.mem = append(t.mem, memEnt{base: "*", kind: 4})
			}
			t.cellv = map[string]*sval{}
			t.fresh = map[string]bool{}
		}
	}
	for _, in := range b.Instrs {
		if in.Op == OpPhi {
			continue
		}
		switch in.Op {
		case OpIf:
			c := t.get(in.Args[0])
			for si := 0; si < 2; si++ {
				n := t.fork()
				if !n.assume(c, si == 0) {
					continue
				}
				s := b.Succs[si]
				x.walk(n, s, b, predIndex(b, si))
			}
			return
		case OpJump:
			x.walk(t, b.Succs[0], b, predIndex(b, 0))
			return
		case OpReturn, OpPanic:
			t.end = in
			for _, a := range in.Args {
				t.ret = append(t.ret, t.get(a))
			}
			if t.dead() {
				return
			}
			x.n++
			if x.n > x.max {
				x.over = true
			}
			x.emit(t)
			return
		}
		t.exec(in)
	}
	// no terminator that continues (e.g. a select without a jump)
	if len(b.Succs) == 1 {
		x.walk(t, b.Succs[0], b, predIndex(b, 0))
		return
	}
	x.emit(t)
}

// kept: the callee is known to write no bytes of slices it gets.
func (x *tracer) kept(in *Instr) bool {
	return x.f.Opt != nil && x.f.Opt.Keep != nil && in.Callee != nil && x.f.Opt.Keep(in.Callee)
}

// keeps: a turn of the loop writes no bytes.
func (x *tracer) keeps(l *Loop) bool {
	some := false
	for b := range l.Blocks {
		for _, in := range b.Instrs {
			switch in.Op {
			case OpCall:
				if !x.kept(in) {
					return false
				}
				some = true
			case OpStore:
				if d := in.Args[0].Def; in.Args[0].Kind != VReg || d == nil || d.Op != OpFieldAddr {
					return false
				}
				if arrayOf(pointee(in.Args[0].Typ)) != nil || structOf(pointee(in.Args[0].Typ)) != nil {
					return false
				}
			}
		}
	}
	return some
}

func loopDoes(l *Loop, ops ...Op) bool {
	for b := range l.Blocks {
		for _, in := range b.Instrs {
			for _, o := range ops {
				if in.Op == o {
					return true
				}
			}
		}
	}
	return false
}

// slice values of s, with the base name a buffer has when it has no other.
func (t *Trace) buf(s *sval) (string, slin) {
	if s.base != "" {
		return s.base, s.off
	}
	return s.sym, sc(0)
}

func elemSize(t types.Type) int64 {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return elemSize1(u.Elem())
	case *types.Array:
		return elemSize1(u.Elem())
	case *types.Pointer:
		return elemSize(u.Elem())
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return 1
		}
	}
	return 0
}

func elemSize1(t types.Type) int64 {
	if b, ok := t.Underlying().(*types.Basic); ok && (b.Kind() == types.Uint8 || b.Kind() == types.Int8) {
		return 1
	}
	return 0
}

// byteAt is the content of base[off] after the first n memory events.
func (t *Trace) byteAt(base string, off slin, n int) []sbit {
	for i := n - 1; i >= 0; i-- {
		e := t.mem[i]
		if e.base == "*" {
			return t.topByte()
		}
		if e.base != base {
			continue
		}
		d := off.add(e.off, -1)
		if e.kind == 4 {
			// a callee given a slice cannot write before it
			if e.part && t.implies(d.mul(-1).add(sc(-1), 1)) {
				continue
			}
			return t.topByte()
		}
		in, out := false, false
		if e.kind == 0 {
			if d.konst() {
				in = d.c == 0
				out = !in
			} else {
				out = t.implies(d.add(sc(-1), 1)) || t.implies(d.mul(-1).add(sc(-1), 1))
			}
		} else {
			r := e.n.add(d, -1).add(sc(-1), 1) // n - d - 1 >= 0
			in = t.implies(d) && t.implies(r)
			out = !in && (t.implies(d.mul(-1).add(sc(-1), 1)) || t.implies(d.add(e.n, -1)))
		}
		if out {
			continue
		}
		if !in {
			return t.topByte()
		}
		switch e.kind {
		case 0:
			return e.bits
		case 1:
			b, o := t.buf(e.src)
			return t.byteAt(b, o.add(d, 1), e.at)
		case 2:
			return make([]sbit, 8)
		case 3:
			return t.byteLeaf("in", e.pos.add(d, 1))
		}
	}
	if strings.HasPrefix(base, "make") || strings.HasPrefix(base, "alloc") {
		if i := strings.Index(base, "."); i > 0 {
			// part of a whole that was stored
			if w := t.cellv[base[:i]]; w != nil && w.sym != "zero" {
				n := 0
				for _, e := range t.events {
					if e.kind == "store" && (e.name == base[:i] || e.name == base) {
						n++
					}
				}
				if n != 1 || w.fields != nil || w.sym == "" {
					return t.topByte()
				}
				return t.byteLeaf(w.sym+base[i:], off)
			}
		}
		return make([]sbit, 8)
	}
	if strings.HasPrefix(base, "str:") && off.konst() {
		var s string
		if _, err := fmt.Sscanf(base[4:], "%q", &s); err == nil && off.c >= 0 && off.c < int64(len(s)) {
			bs := make([]sbit, 8)
			for i := range bs {
				bs[i].i = int(s[off.c] >> uint(i) & 1)
			}
			return bs
		}
	}
	if strings.HasPrefix(base, "peek@") {
		return t.byteLeaf("in", t.peekPos(base).add(off, 1))
	}
	return t.byteLeaf(base, off)
}

func (t *Trace) peekPos(base string) slin {
	for i := len(t.events) - 1; i >= 0; i-- {
		if e := t.events[i]; e.kind == "peek" && e.name == base {
			return e.args[0].lin
		}
	}
	return sterm("peekpos")
}

func (t *Trace) topByte() []sbit {
	bs := make([]sbit, 8)
	for i := range bs {
		bs[i] = topBit
	}
	return bs
}

func (t *Trace) byteLeaf(base string, off slin) []sbit {
	n := base + "[" + off.String() + "]"
	if bs := t.x.init[n]; bs != nil {
		return padBits(bs, 8)[:8]
	}
	if c, ok := t.x.tableLeaf(n); ok {
		return cbits(uint64(c), 8)
	}
	if _, ok := t.x.trng[n]; !ok {
		t.x.trng[n] = [2]int64{0, 255}
	}
	bs := make([]sbit, 8)
	for i := range bs {
		bs[i] = sbit{n, i}
	}
	return bs
}

func (t *Trace) rangeFacts(ls []lin, extra slin) []lin {
	fs := append([]lin{}, ls...)
	have := map[*V]bool{}
	for _, l := range ls {
		for v := range l.t {
			have[v] = true
		}
	}
	for s := range extra.t {
		have[t.x.term(s)] = true
	}
	for v := range have {
		if bs := t.x.combo[v.Name]; bs != nil {
			// bounds from the bits known by now
			lo, hi := int64(0), int64(0)
			for i, b := range bs {
				k, ok := b.i, b.s == ""
				if !ok {
					k, ok = t.fix[b]
				}
				if ok && k == 1 {
					lo |= 1 << uint(i)
				}
				if !ok || k == 1 {
					hi |= 1 << uint(i)
				}
			}
			fs = append(fs, lt(v).plusc(-lo), lc(hi).minus(lt(v)))
		} else if r, ok := t.x.trng[v.Name]; ok {
			fs = append(fs, lt(v).plusc(-r[0]), lc(r[1]).minus(lt(v)))
		} else if strings.HasPrefix(v.Name, "len(") {
			fs = append(fs, lt(v))
		}
	}
	return fs
}

// dead: bits learnt late contradict a bound on the value they make up.
func (t *Trace) dead() bool {
	for _, f := range t.facts {
		for v := range f.t {
			if t.x.combo[v.Name] != nil {
				if infeasible(t.rangeFacts(t.relevant(f), slin{})) {
					return true
				}
				break
			}
		}
	}
	return false
}

// implies: on this path, l >= 0.
func (t *Trace) implies(l slin) bool {
	if l.konst() {
		return l.c >= 0
	}
	g := t.x.toLin(l)
	fs := t.rangeFacts(t.relevant(g), l)
	return infeasible(append(fs, g.scale(-1).plusc(-1)))
}

// relevant: the facts sharing terms with g, transitively.
func (t *Trace) relevant(g lin) []lin {
	have := map[*V]bool{}
	for v := range g.t {
		have[v] = true
	}
	used := map[int]bool{}
	var out []lin
	for ch := true; ch; {
		ch = false
		for i, f := range t.facts {
			if used[i] {
				continue
			}
			hit := false
			for v := range f.t {
				if have[v] {
					hit = true
				}
			}
			if hit {
				used[i] = true
				ch = true
				out = append(out, f)
				for v := range f.t {
					have[v] = true
				}
			}
		}
	}
	return out
}

func (t *Trace) isEq(l slin) bool { return t.implies(l) && t.implies(l.mul(-1)) }

func (t *Trace) isNeq(l slin) bool {
	g := t.x.toLin(l)
	for _, n := range t.nes {
		if n.key() == g.key() || n.key() == g.scale(-1).key() {
			return true
		}
	}
	return t.implies(l.add(sc(-1), 1)) || t.implies(l.mul(-1).add(sc(-1), 1))
}

// assume adds a branch outcome; false when it contradicts the path.
func (t *Trace) assume(c *sval, val bool) bool {
	if c.boolC == nil {
		if c.sym == "true" || c.sym == "false" {
			return (c.sym == "true") == val
		}
		return t.assumeBool(c.sym, val)
	}
	k := *c.boolC
	if k.neg {
		val = !val
	}
	if k.op == token.ILLEGAL {
		return t.assumeBool(k.sym, val)
	}
	op := k.op
	l := k.lin
	if !val {
		switch op {
		case token.EQL:
			op = token.NEQ
		case token.NEQ:
			op = token.EQL
		case token.GEQ:
			op, l = token.GEQ, l.mul(-1).add(sc(-1), 1)
		}
	}
	t.conds = append(t.conds, scond{op: op, lin: l, sym: c.sym, l: k.l, r: k.r})
	g := t.x.toLin(l)
	switch op {
	case token.EQL:
		if t.isNeq(l) {
			return false
		}
		t.facts = append(t.facts, g, g.scale(-1))
		// fix the bits of the compared value
		a, b := k.l, k.r
		if a != nil && b != nil && a.isInt && b.isInt {
			if a.lin.konst() {
				a, b = b, a
			}
			if b.lin.konst() {
				for i, bt := range a.bits {
					if bt.s != "" && bt.s != "?" {
						v := int(uint64(b.lin.c) >> uint(i) & 1)
						if o, ok := t.fix[bt]; ok && o != v {
							return false
						}
						t.fix[bt] = v
					}
				}
			}
		}
	case token.NEQ:
		if t.isEq(l) {
			return false
		}
		t.nes = append(t.nes, g)
		if a, b := k.l, k.r; a != nil && b != nil && a.isInt && b.isInt {
			if a.lin.konst() {
				a, b = b, a
			}
			if b.lin.konst() && !t.differ(a.bits, b.lin.c) {
				return false
			}
		}
		// adjacent bounds
		if t.implies(l) {
			t.facts = append(t.facts, g.plusc(-1))
		} else if t.implies(l.mul(-1)) {
			t.facts = append(t.facts, g.scale(-1).plusc(-1))
		}
	case token.GEQ:
		if t.implies(l.mul(-1).add(sc(-1), 1)) {
			return false
		}
		t.facts = append(t.facts, g)
		for _, n := range t.nes {
			if n.key() == g.key() || n.key() == g.scale(-1).key() {
				t.facts = append(t.facts, g.plusc(-1))
			}
		}
	}
	for s := range l.t {
		if k, ok := t.x.sgnOf[s]; ok && !t.linkSigned(s, k) {
			return false
		}
	}
	return true
}

// differ learns from bits not being c: when all but one bit agree with c,
// that one does not. It is false when all agree.
func (t *Trace) differ(bs []sbit, c int64) bool {
	var left []int
	for i, bt := range bs {
		v := int(uint64(c) >> uint(i) & 1)
		k := bt.i
		if bt.s != "" {
			f, ok := t.fix[bt]
			if !ok || bt.s == "?" {
				left = append(left, i)
				continue
			}
			k = f
		}
		if k != v {
			return true
		}
	}
	if len(left) == 1 && bs[left[0]].s != "?" {
		t.fix[bs[left[0]]] = 1 - int(uint64(c)>>uint(left[0])&1)
	}
	return len(bs) == 0 || len(left) > 0
}

type sgnLink struct {
	u   string // the unsigned value of the same bits
	w   int
	top sbit
}

// linkSigned relates a signed value whose sign is known to its bits.
func (t *Trace) linkSigned(s string, k sgnLink) bool {
	d := sterm(s).add(sterm(k.u), -1)
	v := 0
	switch {
	case t.implies(sterm(s)):
	case t.implies(sc(-1).add(sterm(s), -1)):
		d = d.add(sc(1<<uint(k.w)), 1)
		v = 1
	default:
		return true
	}
	if o, ok := t.fix[k.top]; ok && o != v {
		return false
	}
	t.fix[k.top] = v
	g := t.x.toLin(d)
	t.facts = append(t.facts, g, g.scale(-1))
	return true
}

func (t *Trace) assumeBool(s string, val bool) bool {
	if v, ok := t.bools[s]; ok {
		return v == val
	}
	if i := strings.Index(s, "=="); val && i > 0 && !strings.HasSuffix(s, "==nil") {
		a, okA := t.bools[s[:i]+"==nil"]
		if b, ok := t.bools[s[i+2:]+"==nil"]; ok && okA && a != b {
			return false
		}
	}
	if i := strings.Index(s, `"==`); val && i > 0 && s[0] == '"' {
		for k, v := range t.bools {
			if j := strings.Index(k, `"==`); v && j > 0 && k[0] == '"' && k[j:] == s[i:] && k != s {
				return false // two constants at once
			}
		}
	}
	t.bools[s] = val
	if val && strings.HasSuffix(s, "==nil") {
		l := "len(" + strings.TrimSuffix(s, "==nil") + ")"
		if _, ok := t.x.terms[l]; ok && t.implies(sterm(l).add(sc(-1), 1)) {
			return false
		}
		t.facts = append(t.facts, lt(t.x.term(l)).scale(-1))
	}
	t.conds = append(t.conds, scond{op: token.ILLEGAL, sym: s, neg: !val})
	return true
}

func (t *Trace) set(in *Instr, s *sval) {
	if in.Dst != nil {
		t.env[in.Dst] = s
	}
}

// addr: memory identity and offset of a pointer value.
func (t *Trace) exec(in *Instr) {
	x := t.x
	var typ types.Type
	if in.Dst != nil {
		typ = in.Dst.Typ
	}
	switch in.Op {
	case OpCopy, OpChangeType:
		s := *t.get(in.Args[0])
		t.set(in, &s)
	case OpBin:
		t.set(in, t.bin(in))
	case OpUn:
		a := t.get(in.Args[0])
		switch {
		case in.Tok == token.NOT:
			s := &sval{sym: "!" + a.sym}
			if a.boolC != nil {
				c := *a.boolC
				c.neg = !c.neg
				s.boolC = &c
			} else {
				s.boolC = &scond{op: token.ILLEGAL, sym: a.sym, neg: true}
			}
			if a.sym == "true" || a.sym == "false" {
				s.boolC = nil
				s.sym = map[string]string{"true": "false", "false": "true"}[a.sym]
			}
			t.set(in, s)
		case in.Tok == token.SUB && a.isInt:
			t.set(in, x.fromLin(a.lin.mul(-1), typ))
		case in.Tok == token.XOR && a.isInt:
			if a.lin.konst() {
				t.set(in, x.intC(^a.lin.c, typ))
			} else {
				t.set(in, x.leaf("^("+a.sym+")", typ))
			}
		default:
			t.set(in, x.leaf(in.Tok.String()+"("+a.sym+")", typ))
		}
	case OpConvert:
		t.set(in, t.convert(t.get(in.Args[0]), in.Args[0].Typ, typ, in))
	case OpLen:
		a := t.get(in.Args[0])
		if a.hasLen {
			t.set(in, x.fromLin(a.length, typ))
		} else if ar := arrayOf(in.Args[0].Typ); ar != nil {
			t.set(in, x.intC(ar.Len(), typ))
		} else {
			x.trng["len("+a.sym+")"] = [2]int64{0, maxLen}
			t.set(in, x.leaf("len("+a.sym+")", typ))
		}
	case OpCap:
		a := t.get(in.Args[0])
		t.set(in, x.leaf("cap("+a.sym+")", typ))
	case OpSlice:
		t.slice(in)
	case OpMakeSlice:
		n := t.get(in.Args[0])
		id := "make@" + t.id(in)
		t.mem = append(t.mem, memEnt{base: id, kind: 2, n: n.lin})
		t.set(in, &sval{sym: id, base: id, off: sc(0), length: n.lin, hasLen: true})
	case OpAlloc:
		id := "alloc@" + t.id(in)
		s := &sval{sym: id, base: id, off: sc(0)}
		t.fresh[id] = true
		if ar := arrayOf(typ); ar != nil {
			s.length, s.hasLen = sc(ar.Len()), true
			t.mem = append(t.mem, memEnt{base: id, kind: 2, n: sc(ar.Len())})
		}
		t.set(in, s)
	case OpIndexAddr:
		a, i := t.get(in.Args[0]), t.get(in.Args[1])
		b, o := t.buf(a)
		off := o.add(i.lin, 1)
		es := elemSize(in.Args[0].Typ)
		s := &sval{base: b, off: off, sym: "&" + b + "[" + off.String() + "]"}
		if es != 1 {
			s.base = b + "[" + off.String() + "]"
			s.off = sc(0)
			s.sym = s.base
		}
		s.v = in.Args[0]
		t.set(in, s)
	case OpFieldAddr:
		a := t.get(in.Args[0])
		n := fieldName(in.Args[0].Typ, in.Idx)
		b, _ := t.buf(a)
		s := &sval{sym: b + "." + n, base: b + "." + n, off: sc(0)}
		t.set(in, s)
	case OpField:
		a := t.get(in.Args[0])
		if f := a.fields[in.Idx]; f != nil {
			t.set(in, f)
			return
		}
		if a.sym == "zero" {
			t.set(in, t.zero(typ))
			return
		}
		t.set(in, x.leaf(a.sym+"."+fieldName(in.Args[0].Typ, in.Idx), typ))
	case OpStruct:
		s := &sval{sym: "struct@" + t.id(in), fields: map[int]*sval{}, ftyp: structOf(in.Dst.Typ)}
		for i, a := range in.Args {
			s.fields[i] = t.get(a)
		}
		t.set(in, s)
	case OpIndex:
		a, i := t.get(in.Args[0]), t.get(in.Args[1])
		if elemSize(in.Args[0].Typ) == 1 {
			b, o := t.buf(a)
			t.set(in, x.fromBits(t.byteAt(b, o.add(i.lin, 1), len(t.mem)), typ))
		} else {
			t.set(in, x.leaf(a.sym+"["+i.sym+"]", typ))
		}
	case OpLoad:
		a := t.get(in.Args[0])
		if in.Args[0].Def != nil && in.Args[0].Def.Op == OpIndexAddr && elemSize(in.Args[0].Def.Args[0].Typ) == 1 {
			t.set(in, x.fromBits(t.byteAt(a.base, a.off, len(t.mem)), typ))
			return
		}
		key := a.base
		if key == "" {
			key = a.sym
		}
		if ar := arrayOf(typ); ar != nil && elemSize(typ) == 1 && t.cellv[key] == nil {
			t.set(in, &sval{sym: "*" + key, base: key, off: sc(0), length: sc(ar.Len()), hasLen: true})
			return
		}
		if s := t.cellAt(key, typ); s != nil {
			t.set(in, s)
			return
		}
		n := key
		if a.v != nil && a.v.Kind == VGlobal {
			n = a.sym
		}
		if d := in.Args[0].Def; d != nil && d.Op == OpFieldAddr {
			if k := t.changedBy(stepName(pointee(d.Args[0].Typ), d.Idx)); k >= 0 && !t.fresh[key] {
				n += fmt.Sprintf("'%d", k)
			}
		}
		t.set(in, x.leaf(n, typ))
	case OpStore:
		a, v := t.get(in.Args[0]), t.get(in.Args[1])
		if d := in.Args[0].Def; d != nil && d.Op == OpIndexAddr && elemSize(d.Args[0].Typ) == 1 {
			e := memEnt{base: a.base, off: a.off, kind: 0, bits: t.topByte()}
			if v.isInt && len(v.bits) == 8 {
				e.bits = v.bits
			}
			t.mem = append(t.mem, e)
			return
		}
		key := a.base
		if key == "" {
			key = a.sym
		}
		if v.hasLen && v.isNil == false && arrayOf(in.Args[1].Typ) != nil && elemSize(in.Args[1].Typ) == 1 {
			t.mem = append(t.mem, memEnt{base: key, kind: 1, n: v.length, src: v, at: len(t.mem)})
		}
		if structOf(in.Args[1].Typ) != nil {
			for k := range t.cellv {
				if strings.HasPrefix(k, key+".") {
					delete(t.cellv, k)
				}
			}
		}
		t.cellv[key] = v
		t.events = append(t.events, sevent{kind: "store", name: key, args: []*sval{v}, in: in})
	case OpCell, OpHavoc:
		if in.Op == OpHavoc && in.ClobBy != nil {
			defer func() {
				t.events = append(t.events, sevent{kind: "havoc", name: strings.SplitN(t.cellName(in), "'", 2)[0], args: []*sval{t.get(in.Dst)}, in: in})
			}()
		}
		if in.Cell != nil && (in.Op == OpCell || in.ClobBy == nil) {
			k := t.cellName(in)
			if in.Op == OpHavoc {
				k = k[:strings.LastIndex(k, "'")]
			}
			if t.writtenLast(k) {
				// through another pointer, which points here on this path
				if v := t.cellAt(k, typ); v != nil {
					t.set(in, v)
					return
				}
			}
		}
		if c := in.Cell; c != nil && c.root.Def != nil && c.root.Def.Op == OpIndexAddr && len(c.path) == 0 && elemSize(c.root.Def.Args[0].Typ) == 1 {
			if r := t.env0(c.root); r != nil {
				t.set(in, x.fromBits(t.byteAt(r.base, r.off, len(t.mem)), typ))
				return
			}
		}
		if c := in.Cell; c != nil && len(c.path) > 0 && c.path[len(c.path)-1] < 0 && elemSize1(c.typ) == 1 {
			n := t.cellName(in)
			t.set(in, x.fromBits(t.byteAt(n[:strings.LastIndex(n, "[")], sc(int64(^c.path[len(c.path)-1])), len(t.mem)), typ))
			return
		}
		if c := in.Cell; c != nil && in.Op == OpCell && c.root.Def != nil && c.root.Def.Op == OpIndexAddr {
			// the element as the path has it when its address is taken
			if v := t.cellAt(t.cellName(in), typ); v != nil {
				t.set(in, v)
				return
			}
		}
		t.set(in, x.leaf(t.cellName(in), typ))
	case OpExtract:
		a := t.get(in.Args[0])
		if in.Idx < len(a.tup) {
			t.set(in, a.tup[in.Idx])
			return
		}
		t.set(in, x.leaf(fmt.Sprintf("%s.%d", a.sym, in.Idx), typ))
	case OpMakeIface:
		a := *t.get(in.Args[0])
		a.v = in.Args[0]
		t.set(in, &a)
	case OpTypeAssert:
		a := t.get(in.Args[0])
		ty := types.TypeString(in.Typ, func(p *types.Package) string { return p.Name() })
		if in.CommaOk {
			n := a.sym + ".(" + ty + ")"
			s := &sval{sym: n}
			s.tup = []*sval{x.leaf(n, in.Typ), {sym: n + ".ok"}}
			t.set(in, s)
		} else {
			t.set(in, x.leaf(a.sym+".("+ty+")", typ))
		}
	case OpClosure:
		n := "closure@" + t.id(in)
		if in.Callee != nil {
			n = "closure:" + fnName(in.Callee)
		}
		var as []*sval
		for _, a := range in.Args {
			as = append(as, t.get(a))
		}
		t.events = append(t.events, sevent{kind: "closure", name: n, args: as, in: in})
		t.set(in, &sval{sym: n})
	case OpCall:
		t.call(in)
	case OpEnter, OpExit, OpNop:
		if in.Op == OpEnter && in.Callee != nil {
			var as []*sval
			for _, a := range in.Args {
				as = append(as, t.get(a))
			}
			t.events = append(t.events, sevent{kind: "enter", name: fnName(in.Callee), args: as, in: in})
		}
	case OpLookup:
		m, k := t.get(in.Args[0]), t.get(in.Args[1])
		n := fmt.Sprintf("lookup(%s,%s)#%d", m.sym, k.sym, len(t.mapEvents(m.sym)))
		if elemSize(in.Args[0].Typ) == 1 && typ != nil {
			b, o := t.buf(m)
			t.set(in, x.fromBits(t.byteAt(b, o.add(k.lin, 1), len(t.mem)), typ))
			return
		}
		s := x.leaf(n, typ)
		if in.CommaOk {
			if tt, ok := typ.(*types.Tuple); ok {
				s.tup = []*sval{x.leaf(n, tt.At(0).Type()), {sym: n + ".ok"}}
			}
		}
		t.events = append(t.events, sevent{kind: "lookup", name: m.sym, args: []*sval{k}, in: in, res: s})
		t.set(in, s)
	case OpMapUpdate:
		m, k, v := t.get(in.Args[0]), t.get(in.Args[1]), t.get(in.Args[2])
		t.events = append(t.events, sevent{kind: "mapset", name: m.sym, args: []*sval{k, v}, in: in})
	case OpMakeMap, OpMakeChan, OpRange, OpNext:
		if in.Dst != nil {
			n := opNames[in.Op] + "@" + t.id(in)
			s := &sval{sym: n}
			if tt, ok := typ.(*types.Tuple); ok {
				for i := 0; i < tt.Len(); i++ {
					s.tup = append(s.tup, x.leaf(fmt.Sprintf("%s.%d", n, i), tt.At(i).Type()))
				}
			}
			t.set(in, s)
		}
	case OpGo, OpDefer, OpSend, OpRecv, OpSelect, OpRunDefers:
		var as []*sval
		for _, a := range in.Args {
			as = append(as, t.get(a))
		}
		nm := calleeStr(in)
		if in.Callee == nil && in.Method == nil {
			nm = in.Builtin
		}
		e := sevent{kind: opNames[in.Op], name: nm, args: as, in: in}
		if in.Dst != nil {
			e.res = x.leaf(opNames[in.Op]+"@"+t.id(in), typ)
			t.set(in, e.res)
		}
		t.events = append(t.events, e)
	default:
		if in.Dst != nil {
			t.set(in, x.leaf(fmt.Sprintf("v%d", in.Dst.ID), typ))
		}
	}
}

func (t *Trace) mapEvents(m string) (out []sevent) {
	for _, e := range t.events {
		if e.kind == "mapset" && e.name == m {
			out = append(out, e)
		}
	}
	return
}

func (t *Trace) zero(ty types.Type) *sval {
	if _, _, ok := intInfo(ty); ok {
		return t.x.intC(0, ty)
	}
	if b, ok := ty.Underlying().(*types.Basic); ok {
		if b.Info()&types.IsBoolean != 0 {
			return &sval{sym: "false"}
		}
		if b.Info()&types.IsString != 0 {
			return &sval{sym: `""`, base: `str:""`, length: sc(0), hasLen: true}
		}
	}
	if _, ok := ty.Underlying().(*types.Struct); ok {
		return &sval{sym: "zero"}
	}
	return &sval{sym: "nil", isNil: true, base: "nil", length: sc(0), hasLen: true}
}

func (s *sval) fieldOf(name string) *sval {
	for j := 0; s.ftyp != nil && j < s.ftyp.NumFields(); j++ {
		if s.ftyp.Field(j).Name() == name {
			return s.fields[j]
		}
	}
	return nil
}

// cellAt is what is known of the memory at an address: what was stored
// there, the part of a whole that was, or a whole some parts of which were.
func (t *Trace) cellAt(key string, typ types.Type) *sval {
	s := t.cellBase(key, typ)
	st := structOf(typ)
	if st == nil {
		return s
	}
	any := false
	for k := range t.cellv {
		if strings.HasPrefix(k, key+".") {
			any = true
		}
	}
	if !any {
		return s
	}
	n := &sval{sym: "struct@" + key + fmt.Sprint(len(t.events)), fields: map[int]*sval{}, ftyp: st}
	for i := 0; i < st.NumFields(); i++ {
		k, ft := key+"."+st.Field(i).Name(), st.Field(i).Type()
		f := t.cellAt(k, ft)
		if f == nil {
			f = t.x.leaf(k, ft)
		}
		n.fields[i] = f
	}
	return n
}

// changedBy is the last call that writes a field, -1 for none.
func (t *Trace) changedBy(field string) int {
	for i := len(t.events) - 1; i >= 0; i-- {
		e := t.events[i]
		if e.kind != "call" || e.in.Callee == nil || e.in.Callee.Blocks == nil || !inModule(fnPkgPath(e.in.Callee)) {
			continue
		}
		if ef := t.x.f.P.effect(e.in.Callee); !ef.all && ef.lasts[field] {
			return i
		}
	}
	return -1
}

// writtenLast: the last write that may have changed a cell is one that did.
func (t *Trace) writtenLast(key string) bool {
	field := key[strings.LastIndexAny(key, ".]")+1:]
	for i := len(t.events) - 1; i >= 0; i-- {
		switch e := t.events[i]; e.kind {
		case "store":
			if e.name == key {
				return true
			}
			if e.name[strings.LastIndexAny(e.name, ".]")+1:] == field || structOf(e.in.Args[1].Typ) != nil {
				return false
			}
		case "call", "havoc":
			return false
		}
	}
	return false
}

func (t *Trace) cellBase(key string, typ types.Type) *sval {
	if s := t.cellv[key]; s != nil {
		return s
	}
	if t.fresh[key] {
		return t.zero(typ)
	}
	i := strings.LastIndex(key, ".")
	if i < 0 {
		return nil
	}
	up, name := key[:i], key[i+1:]
	if t.fresh[up] && t.cellv[up] == nil {
		return t.zero(typ)
	}
	w := t.cellv[up]
	if w == nil {
		return nil
	}
	if w.sym == "zero" {
		return t.zero(typ)
	}
	if w.fields != nil && w.ftyp != nil {
		for j := 0; j < w.ftyp.NumFields(); j++ {
			if w.ftyp.Field(j).Name() == name {
				return w.fields[j]
			}
		}
	}
	if w.fields == nil && w.sym != "" {
		return t.x.leaf(w.sym+"."+name, typ)
	}
	return nil
}

func fieldName(t types.Type, i int) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if s := structOf(t); s != nil && i < s.NumFields() {
		return s.Field(i).Name()
	}
	return fmt.Sprint(i)
}

func (t *Trace) cellName(in *Instr) string {
	c := in.Cell
	if c == nil {
		return fmt.Sprintf("v%d", in.Dst.ID)
	}
	r := t.get(c.root)
	n := r.base
	if n == "" {
		n = r.sym
	}
	if g := c.root; g.Kind == VGlobal {
		n = r.sym
	}
	ty := pointee(c.root.Typ)
	for _, st := range c.path {
		if st >= 0 {
			n += "." + fieldName(ty, st)
		} else {
			n += fmt.Sprintf("[%d]", ^st)
		}
		ty = stepType(ty, st)
	}
	if in.Op == OpHavoc {
		n += "'" + t.id(in)
	}
	return n
}

func (t *Trace) slice(in *Instr) {
	x := t.x
	a := t.get(in.Args[0])
	arg := func(i int) *V {
		if i < len(in.Args) && in.Args[i] != nil && in.Args[i].Kind != VUndef {
			return in.Args[i]
		}
		return nil
	}
	s := &sval{}
	b, o := t.buf(a)
	lo := sc(0)
	if v := arg(1); v != nil {
		lo = t.get(v).lin
	}
	s.base, s.off = b, o.add(lo, 1)
	if v := arg(2); v != nil {
		s.length, s.hasLen = t.get(v).lin.add(lo, -1), true
	} else if a.hasLen {
		s.length, s.hasLen = a.length.add(lo, -1), true
	} else if ar := arrayOf(in.Args[0].Typ); ar != nil {
		s.length, s.hasLen = sc(ar.Len()).add(lo, -1), true
	} else {
		x.trng["len("+a.sym+")"] = [2]int64{0, maxLen}
		s.length, s.hasLen = sterm("len("+a.sym+")").add(lo, -1), true
	}
	s.sym = fmt.Sprintf("%s[%s:+%s]", b, s.off, s.length)
	if s.off.eq(sc(0)) && s.length.eq(sterm("len("+b+")")) {
		s.sym = b
	}
	t.set(in, s)
}

func (t *Trace) convert(a *sval, from, to types.Type, in *Instr) *sval {
	x := t.x
	w, tsgn, ok := intInfo(to)
	if ok && a.isInt {
		bs := append([]sbit{}, a.bits...)
		for len(bs) < w {
			if a.sgn {
				bs = append(bs, bs[len(bs)-1])
			} else {
				bs = append(bs, sbit{})
			}
		}
		// a value that keeps its linear form
		if w >= a.w && (a.sgn || !tsgn || w > a.w || w == 64 || t.fitsIn(a, to)) && (!a.sgn || w == 64 && len(bs) == 64 || t.nonneg(a)) {
			s := x.fromLin(a.lin, to)
			s.bits = bs[:w]
			s.sym = a.sym
			if !a.lin.konst() {
				return s
			}
		}
		if w < a.w && t.fitsIn(a, to) {
			s := x.fromLin(a.lin, to)
			s.bits = bs[:w]
			s.sym = a.sym
			if !a.lin.konst() {
				return s
			}
		}
		return x.fromBits(bs[:w], to)
	}
	if isByteSeq(to) && isByteSeq(from) {
		s := *a
		return &s
	}
	if ok {
		return x.leaf("int("+a.sym+")", to)
	}
	if b, k := to.Underlying().(*types.Basic); k && b.Info()&types.IsFloat != 0 && a.isInt {
		return &sval{sym: "float(" + a.sym + ")"}
	}
	n := types.TypeString(to, func(p *types.Package) string { return p.Name() })
	return x.leaf(n+"("+a.sym+")", to)
}

func (t *Trace) nonneg(a *sval) bool { return t.implies(a.lin) }

func (t *Trace) fitsIn(a *sval, to types.Type) bool {
	w, sgn, _ := intInfo(to)
	if w >= 63 {
		return false
	}
	hi := int64(1)<<uint(w) - 1
	lo := int64(0)
	if sgn {
		hi, lo = int64(1)<<uint(w-1)-1, -(int64(1) << uint(w-1))
	}
	return t.implies(a.lin.add(sc(-lo), 1)) && t.implies(sc(hi).add(a.lin, -1))
}

// constant value of a on this path, using known bits and equalities.
func (t *Trace) constOf(a *sval) (int64, bool) {
	if a.isInt && a.lin.konst() {
		return a.lin.c, true
	}
	if !a.isInt {
		return 0, false
	}
	// pinned by an equality fact
	for _, c := range t.conds {
		if c.op == token.EQL {
			d := a.lin.add(c.lin, -1)
			if d.konst() {
				return d.c, true
			}
			d = a.lin.add(c.lin, 1)
			if d.konst() {
				return d.c, true
			}
		}
	}
	return 0, false
}

func (t *Trace) bin(in *Instr) *sval {
	x := t.x
	a, b := t.get(in.Args[0]), t.get(in.Args[1])
	typ := in.Dst.Typ
	switch in.Tok {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		return t.cmp(in, a, b)
	}
	if !a.isInt || !b.isInt {
		return x.leaf("("+a.sym+in.Tok.String()+b.sym+")", typ)
	}
	w, sgn, _ := intInfo(typ)
	op := in.Tok
	bc, bk := b.lin.c, b.lin.konst()
	ac, ak := a.lin.c, a.lin.konst()
	if ak && bk {
		if c := x.f.foldBin(op, x.f.konst(constant.MakeInt64(ac), typ), x.f.konst(constant.MakeInt64(bc), typ), typ); c != nil && c.Kind == VConst {
			if k, ok := constInt(c); ok {
				return x.intC(k, typ)
			}
		}
	}
	switch op {
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		bs := make([]sbit, w)
		bad := false
		for i := range bs {
			p, q := a.bits[i], b.bits[i]
			if op == token.AND_NOT {
				if q.s == "" {
					q.i ^= 1
				} else if p == (sbit{}) {
					continue
				} else {
					bs[i] = topBit
					continue
				}
			}
			switch {
			case op == token.OR && p == (sbit{}), op == token.XOR && p == (sbit{}):
				bs[i] = q
			case op == token.OR && q == (sbit{}), op == token.XOR && q == (sbit{}):
				bs[i] = p
			case op == token.OR && (p == sbit{"", 1} || q == sbit{"", 1}):
				bs[i] = sbit{"", 1}
			case (op == token.AND || op == token.AND_NOT) && (p == sbit{} || q == sbit{}):
			case (op == token.AND || op == token.AND_NOT) && p == sbit{"", 1}:
				bs[i] = q
			case (op == token.AND || op == token.AND_NOT) && q == sbit{"", 1}:
				bs[i] = p
			case op != token.XOR && p == q:
				bs[i] = p
			case op == token.XOR && p == q && p.s != "?":
			default:
				bs[i] = topBit
				bad = true
			}
		}
		_ = bad
		return x.fromBits(bs, typ)
	case token.SHL, token.SHR:
		if !bk {
			if c, ok := t.constOf(b); ok {
				bc, bk = c, true
			}
		}
		if bk && bc >= 0 {
			bs := make([]sbit, w)
			for i := range bs {
				j := i - int(bc)
				if op == token.SHR {
					j = i + int(bc)
				}
				switch {
				case j >= 0 && j < w && j < len(a.bits):
					bs[i] = a.bits[j]
				case op == token.SHR && sgn:
					bs[i] = a.bits[w-1]
				}
			}
			return x.fromBits(bs, typ)
		}
	case token.ADD, token.SUB:
		k := int64(1)
		if op == token.SUB {
			k = -1
		}
		l := a.lin.add(b.lin, k)
		bb := b.bits
		if op == token.SUB && bk {
			bb = x.intC(-bc, typ).bits
		}
		dis := op == token.ADD || bk
		for i := range a.bits {
			if i < len(bb) && a.bits[i] != (sbit{}) && bb[i] != (sbit{}) {
				dis = false
			}
		}
		if dis {
			bs := make([]sbit, w)
			for i := range bs {
				bs[i] = a.bits[i]
				if bb[i] != (sbit{}) {
					bs[i] = bb[i]
				}
			}
			if !ak && !bk && (strings.HasPrefix(a.sym, "(") || strings.HasPrefix(b.sym, "(")) {
				return x.fromBits(bs, typ)
			}
			if w >= 32 {
				s := x.fromLin(l, typ)
				s.bits = bs
				return s
			}
		}
		if w >= 32 {
			return x.fromLin(l, typ)
		}
		s := x.leaf(fmt.Sprintf("u%d(%s)", w, l), typ)
		return s
	case token.MUL:
		if ak || bk {
			c, o := ac, b
			if bk {
				c, o = bc, a
			}
			if w >= 32 {
				s := x.fromLin(o.lin.mul(c), typ)
				if c > 0 && c&(c-1) == 0 {
					sh := 0
					for c>>uint(sh) != 1 {
						sh++
					}
					bs := make([]sbit, w)
					for i := sh; i < w; i++ {
						bs[i] = o.bits[i-sh]
					}
					s.bits = bs
				}
				return s
			}
		}
		p, q := a.sym, b.sym
		if q < p {
			p, q = q, p
		}
		return x.leaf("("+p+"*"+q+")", typ)
	case token.QUO, token.REM:
		if bk && bc > 0 && bc&(bc-1) == 0 && (!sgn || t.nonneg(a)) {
			sh := 0
			for bc>>uint(sh) != 1 {
				sh++
			}
			bs := make([]sbit, w)
			for i := range bs {
				if op == token.QUO && i+sh < w {
					bs[i] = a.bits[i+sh]
				}
				if op == token.REM && i < sh {
					bs[i] = a.bits[i]
				}
			}
			return x.fromBits(bs, typ)
		}
	}
	return x.leaf("("+a.sym+" "+op.String()+" "+b.sym+")", typ)
}

func (t *Trace) cmp(in *Instr, a, b *sval) *sval {
	op := in.Tok
	if a.isInt && b.isInt {
		var c scond
		s := &sval{sym: "(" + a.sym + op.String() + b.sym + ")"}
		d := a.lin.add(b.lin, -1)
		switch op {
		case token.EQL, token.NEQ:
			c = scond{op: token.EQL, lin: d, neg: op == token.NEQ, l: a, r: b}
		case token.GEQ:
			c = scond{op: token.GEQ, lin: d, l: a, r: b}
		case token.LSS:
			c = scond{op: token.GEQ, lin: d, l: a, r: b, neg: true}
		case token.LEQ:
			c = scond{op: token.GEQ, lin: d.mul(-1), l: a, r: b}
		case token.GTR:
			c = scond{op: token.GEQ, lin: d.mul(-1), l: a, r: b, neg: true}
		}
		if d.konst() {
			v := false
			if c.op == token.EQL {
				v = d.c == 0
			} else {
				v = c.lin.c >= 0
			}
			if c.neg {
				v = !v
			}
			return &sval{sym: fmt.Sprint(v)}
		}
		// an equality of bit patterns that differ in a constant bit
		if c.op == token.EQL {
			for i := range a.bits {
				if i < len(b.bits) && a.bits[i].s == "" && b.bits[i].s == "" && a.bits[i].i != b.bits[i].i {
					return &sval{sym: fmt.Sprint(op == token.NEQ)}
				}
				// bits fixed by earlier comparisons
				if i < len(b.bits) && b.bits[i].s == "" {
					if f, ok := t.fix[a.bits[i]]; ok && f != b.bits[i].i {
						return &sval{sym: fmt.Sprint(op == token.NEQ)}
					}
				}
			}
		}
		s.boolC = &c
		return s
	}
	if op == token.EQL || op == token.NEQ {
		// with the empty string: its length
		for _, p := range [][2]*sval{{a, b}, {b, a}} {
			if p[0].sym == `""` && p[1].sym != `""` && !p[1].isNil {
				n := sterm("len(" + p[1].sym + ")")
				if p[1].hasLen {
					n = p[1].length
				} else {
					t.x.trng["len("+p[1].sym+")"] = [2]int64{0, maxLen}
				}
				if n.konst() {
					return &sval{sym: fmt.Sprint((n.c == 0) == (op == token.EQL))}
				}
				z := t.x.fromLin(sc(0), types.Typ[types.Int])
				l := t.x.fromLin(n, types.Typ[types.Int])
				return &sval{sym: "(" + n.String() + op.String() + "0)", boolC: &scond{op: token.EQL, lin: n, neg: op == token.NEQ, l: l, r: z}}
			}
		}
		p, q := a.sym, b.sym
		if a.isNil && b.isNil || p == q && !strings.Contains(p, "undef") {
			return &sval{sym: fmt.Sprint(op == token.EQL)}
		}
		if a.isNil {
			p, q = q, p
		}
		if (a.isNil || b.isNil) && (strings.HasPrefix(p, "alloc@") || strings.HasPrefix(p, "make@") || strings.HasPrefix(p, "closure") || strings.HasPrefix(p, "func:")) {
			return &sval{sym: fmt.Sprint(op == token.NEQ)}
		}
		if !a.isNil && !b.isNil && q < p {
			p, q = q, p
		}
		n := p + "==" + q
		return &sval{sym: n, boolC: &scond{op: token.ILLEGAL, sym: n, neg: op == token.NEQ}}
	}
	n := "(" + a.sym + op.String() + b.sym + ")"
	return &sval{sym: n}
}
