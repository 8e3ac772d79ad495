package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sort"
	"strings"
)

// ---- linear expressions over integer values ----

// lin is c + sum(k*term). Terms are SSA values (or length pseudo-values).
type lin struct {
	c int64
	t map[*V]int64
}

func lc(c int64) lin { return lin{c: c} }

func lt(v *V) lin { return lin{t: map[*V]int64{v: 1}} }

func (a lin) add(b lin, k int64) lin {
	r := lin{c: a.c + k*b.c, t: make(map[*V]int64, len(a.t)+len(b.t))}
	for v, x := range a.t {
		r.t[v] = x
	}
	for v, x := range b.t {
		n := r.t[v] + k*x
		if n == 0 {
			delete(r.t, v)
		} else {
			r.t[v] = n
		}
	}
	return r
}

func (a lin) plus(b lin) lin    { return a.add(b, 1) }
func (a lin) minus(b lin) lin   { return a.add(b, -1) }
func (a lin) plusc(c int64) lin { return lin{a.c + c, a.t} }
func (a lin) scale(k int64) lin { return lc(0).add(a, k) }
func (a lin) isConst() bool     { return len(a.t) == 0 }
func (a lin) big() bool {
	lim := int64(1) << 58
	if a.c > lim || a.c < -lim {
		return true
	}
	for _, k := range a.t {
		if k > 1<<40 || k < -(1<<40) {
			return true
		}
	}
	return false
}

func (a lin) String() string {
	var parts []string
	var vs []*V
	for v := range a.t {
		vs = append(vs, v)
	}
	sort.Slice(vs, func(i, j int) bool { return vs[i].ID < vs[j].ID })
	for _, v := range vs {
		n := v.String()
		if v.Name != "" && v.Kind == VReg {
			n += "(" + v.Name + ")"
		}
		parts = append(parts, fmt.Sprintf("%+d*%s", a.t[v], n))
	}
	parts = append(parts, fmt.Sprintf("%+d", a.c))
	return strings.Join(parts, " ")
}

func (a lin) key() string {
	var vs []*V
	for v := range a.t {
		vs = append(vs, v)
	}
	sort.Slice(vs, func(i, j int) bool { return vs[i].ID < vs[j].ID })
	var sb strings.Builder
	for _, v := range vs {
		fmt.Fprintf(&sb, "%d*%d,", a.t[v], v.ID)
	}
	fmt.Fprintf(&sb, "%d", a.c)
	return sb.String()
}

// fact: e >= 0
type fact struct {
	e   lin
	why string
}

// Num is the numeric analysis of one expanded function.
type Num struct {
	f       *Fn
	lenOf   map[*V]*V // slice/string value -> its length term
	lenSrc  map[*V]*V // inverse
	capOf   map[*V]*V
	zero    *V        // assumed zero (refutation)
	nilOf   map[*V]*V // pointer -> 0/1 term "is nil"
	memo    map[*V]lin
	rng     map[*V]rng
	rngBusy map[*V]bool
	inv     map[*Block][]fact
	chain   map[*Block][]fact // facts contributed by a block (edge in + instrs)
	neq     map[*Block][]lin
	lazy    map[*V]int // conversion terms: 0 unknown 1 equal to source 2 not
	ctr     *Contracts
	havocs  []*Instr
	queries int
	defFact map[*V][]fact
	trace   bool
	pre     []fact // facts holding at entry
	extr    map[*Instr]map[int]*V
}

type rng struct {
	lo, hi int64
	ok     bool // bounded within the given limits
	wide   bool // a 64-bit value of unknown provenance (arithmetic may wrap)
}

const maxLen = int64(1) << 47

func newNum(f *Fn) *Num {
	n := &Num{f: f, lenOf: map[*V]*V{}, lenSrc: map[*V]*V{}, capOf: map[*V]*V{}, nilOf: map[*V]*V{}, memo: map[*V]lin{}, rng: map[*V]rng{}, rngBusy: map[*V]bool{}, inv: map[*Block][]fact{}, chain: map[*Block][]fact{}, neq: map[*Block][]lin{}, lazy: map[*V]int{}, defFact: map[*V][]fact{}}
	return n
}

func (n *Num) lenTerm(s *V) *V {
	if v := n.lenOf[s]; v != nil {
		return v
	}
	v := n.f.newV(VReg, types.Typ[types.Int])
	v.Name = "len(" + s.String() + ")"
	n.lenOf[s] = v
	n.lenSrc[v] = s
	return v
}

func (n *Num) nilTerm(s *V) *V {
	if v := n.nilOf[s]; v != nil {
		return v
	}
	v := n.f.newV(VReg, types.Typ[types.Uint8])
	v.Name = "isnil(" + s.String() + ")"
	n.nilOf[s] = v
	return v
}

func typeRange(t types.Type) rng {
	b := basicOf(t)
	if b == nil {
		return rng{}
	}
	bits, signed := intBits(b)
	switch {
	case bits == 0 || bits == 64:
		if !signed && bits == 64 {
			return rng{lo: 0, hi: math.MaxInt64, ok: false}
		}
		return rng{}
	case signed:
		return rng{lo: -(1 << (bits - 1)), hi: 1<<(bits-1) - 1, ok: true}
	default:
		return rng{lo: 0, hi: 1<<bits - 1, ok: true}
	}
}

func fits(r rng, t types.Type) bool {
	if !r.ok {
		return false
	}
	b := basicOf(t)
	if b == nil {
		return false
	}
	bits, signed := intBits(b)
	if bits == 64 {
		if signed {
			return true
		}
		return r.lo >= 0
	}
	tr := typeRange(t)
	return tr.ok && r.lo >= tr.lo && r.hi <= tr.hi
}

func clampMul(a, b int64) int64 {
	r := float64(a) * float64(b)
	if r > float64(1<<61) {
		return 1 << 61
	}
	if r < -float64(1<<61) {
		return -(1 << 61)
	}
	return a * b
}

// rangeOf computes a coarse interval of an integer value.
func (n *Num) rangeOf(v *V) rng {
	if v == nil {
		return rng{}
	}
	if c, ok := constInt(v); ok {
		return rng{lo: c, hi: c, ok: true}
	}
	if r, ok := n.rng[v]; ok {
		return r
	}
	if n.rngBusy[v] {
		return rng{}
	}
	n.rngBusy[v] = true
	r := n.rangeOf1(v)
	delete(n.rngBusy, v)
	if tr := typeRange(v.Typ); tr.ok {
		if !r.ok {
			r = tr
		} else {
			if r.lo < tr.lo || r.hi > tr.hi {
				r = tr
			}
		}
	}
	n.rng[v] = r
	return r
}

func (n *Num) rangeOf1(v *V) rng {
	if n.lenSrc[v] != nil {
		return rng{lo: 0, hi: maxLen, ok: true}
	}
	d := v.Def
	if v.Kind == VParam {
		if s := specOf(n.f.Root); s != nil && s.param < len(n.f.Params) && n.f.Params[s.param] == v {
			return rng{lo: s.lo, hi: s.hi, ok: true}
		}
	}
	if v.Kind != VReg || d == nil {
		return rng{}
	}
	if d.Op == OpExtract && d.Idx == 0 && d.Args[0].Kind == VReg && d.Args[0].Def != nil && d.Args[0].Def.Op == OpCall {
		c := d.Args[0].Def
		if s := specOf(c.Callee); s != nil && s.bitsOf >= 0 {
			if k, ok := constInt(c.Args[s.bitsOf]); ok && k >= 0 && k <= 46 {
				return rng{lo: 0, hi: 1<<uint(k) - 1, ok: true}
			}
		}
		switch calleeStr(c) {
		case "io.ReadFull", "io.ReadAtLeast", "(io.Reader).Read":
			return rng{lo: 0, hi: maxLen, ok: true}
		}
	}
	if n.fieldNN(v) {
		if n.f.P.fieldPositive(fieldStep(v)) {
			return rng{lo: 1, hi: maxLen, ok: true}
		}
		return rng{lo: 0, hi: maxLen, ok: true}
	}
	switch d.Op {
	case OpLen, OpCap:
		return rng{lo: 0, hi: maxLen, ok: true}
	case OpConvert:
		s := n.rangeOf(d.Args[0])
		if fits(s, v.Typ) {
			return s
		}
		if tr := typeRange(v.Typ); tr.ok {
			return tr
		}
		return rng{wide: true}
	case OpChangeType:
		return n.rangeOf(d.Args[0])
	case OpPhi:
		r := rng{ok: true, lo: math.MaxInt64, hi: math.MinInt64}
		for _, a := range d.Args {
			x := n.rangeOf(a)
			if !x.ok {
				return rng{wide: x.wide}
			}
			if x.lo < r.lo {
				r.lo = x.lo
			}
			if x.hi > r.hi {
				r.hi = x.hi
			}
		}
		return r
	case OpUn:
		if d.Tok == token.SUB {
			a := n.rangeOf(d.Args[0])
			if a.ok {
				r := rng{lo: -a.hi, hi: -a.lo, ok: true}
				if fits(r, v.Typ) {
					return r
				}
			}
			return rng{wide: a.wide}
		}
	case OpExtract:
		if c := d.Args[0].Def; d.Args[0].Kind == VReg && c != nil && c.Op == OpCall {
			if cr := n.callRange(c, d.Idx); cr.ok {
				return cr
			}
		}
	case OpCall:
		if cr := n.callRange(d, -1); cr.ok {
			return cr
		}
	case OpBin:
		a, b := n.rangeOf(d.Args[0]), n.rangeOf(d.Args[1])
		w := a.wide || b.wide
		switch d.Tok {
		case token.ADD:
			if a.ok && b.ok {
				r := rng{lo: a.lo + b.lo, hi: a.hi + b.hi, ok: true}
				if fits(r, v.Typ) && r.hi < 1<<60 && r.lo > -(1<<60) {
					return r
				}
			}
			return rng{wide: w}
		case token.SUB:
			if a.ok && b.ok {
				r := rng{lo: a.lo - b.hi, hi: a.hi - b.lo, ok: true}
				if fits(r, v.Typ) && r.hi < 1<<60 && r.lo > -(1<<60) {
					return r
				}
			}
			return rng{wide: w}
		case token.MUL:
			if a.ok && b.ok {
				xs := []int64{clampMul(a.lo, b.lo), clampMul(a.lo, b.hi), clampMul(a.hi, b.lo), clampMul(a.hi, b.hi)}
				r := rng{lo: xs[0], hi: xs[0], ok: true}
				for _, x := range xs {
					if x < r.lo {
						r.lo = x
					}
					if x > r.hi {
						r.hi = x
					}
				}
				if fits(r, v.Typ) && r.hi < 1<<60 && r.lo > -(1<<60) {
					return r
				}
			}
			return rng{wide: true}
		case token.AND:
			if c, ok := constInt(d.Args[1]); ok && c >= 0 {
				if a.ok && a.lo >= 0 && a.hi < c {
					return rng{lo: 0, hi: a.hi, ok: true}
				}
				return rng{lo: 0, hi: c, ok: true}
			}
			if c, ok := constInt(d.Args[0]); ok && c >= 0 {
				return rng{lo: 0, hi: c, ok: true}
			}
			if a.ok && a.lo >= 0 {
				return rng{lo: 0, hi: a.hi, ok: true}
			}
			if b.ok && b.lo >= 0 {
				return rng{lo: 0, hi: b.hi, ok: true}
			}
		case token.OR, token.XOR:
			if a.ok && b.ok && a.lo >= 0 && b.lo >= 0 {
				hi := a.hi
				if b.hi > hi {
					hi = b.hi
				}
				p := int64(1)
				for p <= hi && p < 1<<61 {
					p <<= 1
				}
				return rng{lo: 0, hi: p - 1, ok: true}
			}
			return rng{wide: w}
		case token.SHL:
			if k, ok := constInt(d.Args[1]); ok && k >= 0 && k < 62 {
				if a.ok && a.lo >= 0 && a.hi < int64(1)<<(61-k) {
					r := rng{lo: a.lo << k, hi: a.hi << k, ok: true}
					if fits(r, v.Typ) {
						return r
					}
				}
			}
			return rng{wide: true}
		case token.SHR:
			if k, ok := constInt(d.Args[1]); ok && k >= 0 && k < 64 {
				if a.ok {
					return rng{lo: a.lo >> k, hi: a.hi >> k, ok: true}
				}
				if bb := basicOf(v.Typ); bb != nil && bb.Info()&types.IsUnsigned != 0 && k > 0 {
					return rng{lo: 0, hi: int64(uint64(math.MaxUint64) >> uint(k)), ok: k > 3}
				}
			}
			if a.ok && a.lo >= 0 {
				return rng{lo: 0, hi: a.hi, ok: true}
			}
			return rng{wide: w}
		case token.QUO:
			if k, ok := constInt(d.Args[1]); ok && k > 0 && a.ok {
				return rng{lo: a.lo / k, hi: a.hi / k, ok: true}
			}
			if a.ok && a.lo >= 0 && b.ok && b.lo >= 0 {
				return rng{lo: 0, hi: a.hi, ok: true}
			}
			return rng{wide: w}
		case token.REM:
			if k, ok := constInt(d.Args[1]); ok && k > 0 {
				if a.ok && a.lo >= 0 || basicOf(v.Typ).Info()&types.IsUnsigned != 0 {
					return rng{lo: 0, hi: k - 1, ok: true}
				}
				return rng{lo: -(k - 1), hi: k - 1, ok: true}
			}
			if a.ok && a.lo >= 0 {
				return rng{lo: 0, hi: a.hi, ok: true}
			}
			return rng{wide: w}
		}
	}
	return rng{wide: srcWide(v)}
}

// srcWide: 64-bit results of decoding or parsing are untrusted; local cursors,
// parameters and struct fields are taken to be far from the int64 limits.
func srcWide(v *V) bool {
	b := basicOf(v.Typ)
	if b == nil {
		return false
	}
	switch b.Kind() {
	case types.Uint64, types.Uint, types.Uintptr:
		return true
	}
	if d := v.Def; v.Kind == VReg && d != nil {
		switch d.Op {
		case OpConvert, OpBin:
			return true
		case OpExtract, OpCall:
			return true
		}
	}
	return false
}

// callRange is the verified range of an un-expanded in-module callee's result.
func (n *Num) callRange(c *Instr, idx int) rng {
	if n.ctr == nil || c.Builtin != "" {
		return rng{}
	}
	fns, _ := n.calleesOf(c)
	if len(fns) == 0 {
		return rng{}
	}
	if idx < 0 {
		idx = 0
	}
	var out rng
	for i, fn := range fns {
		if !inModule(fnPkgPath(fn)) || fn.Blocks == nil || n.f.Opt == nil || n.f.Opt.Stop == nil || !n.f.Opt.Stop(fn) {
			return rng{}
		}
		r := n.ctr.get(fn).res[idx]
		if !r.ok {
			return rng{}
		}
		if i == 0 {
			out = r
			continue
		}
		if r.lo < out.lo {
			out.lo = r.lo
		}
		if r.hi > out.hi {
			out.hi = r.hi
		}
	}
	return out
}

// lin normalises an integer value to a linear expression.
func (n *Num) lin(v *V) lin {
	if c, ok := constInt(v); ok {
		return lc(c)
	}
	if v.Kind != VReg || v.Def == nil {
		return lt(v)
	}
	if l, ok := n.memo[v]; ok {
		return l
	}
	n.memo[v] = lt(v) // cut cycles
	l := n.lin1(v)
	if l.big() {
		l = lt(v)
	}
	n.memo[v] = l
	return l
}

func (n *Num) exactOK(v *V, a, b rng) bool {
	// result of int arithmetic considered exact?
	bt := basicOf(v.Typ)
	if bt == nil {
		return false
	}
	bits, signed := intBits(bt)
	if bits == 64 && signed {
		return !a.wide && !b.wide
	}
	return n.rangeExact(v)
}

// rangeExact: the mathematically exact result fits v's type.
func (n *Num) rangeExact(v *V) bool {
	d := v.Def
	a, b := n.rangeOf(d.Args[0]), n.rangeOf(d.Args[1])
	if !a.ok || !b.ok {
		return false
	}
	var r rng
	switch d.Tok {
	case token.ADD:
		r = rng{lo: a.lo + b.lo, hi: a.hi + b.hi, ok: true}
	case token.SUB:
		r = rng{lo: a.lo - b.hi, hi: a.hi - b.lo, ok: true}
	case token.MUL:
		r = n.rangeOf1(v)
	case token.SHL:
		r = n.rangeOf1(v)
	default:
		return false
	}
	return fits(r, v.Typ)
}

func (n *Num) lin1(v *V) lin {
	d := v.Def
	if !isIntType(v.Typ) {
		return lt(v)
	}
	if n.zero != nil {
		if n.zero == stripConv(v) {
			return lc(0)
		}
		if d.Op == OpBin {
			z := func(i int) bool { l := n.lin(d.Args[i]); return l.isConst() && l.c == 0 }
			switch d.Tok {
			case token.MUL:
				if z(0) || z(1) {
					return lc(0)
				}
			case token.ADD, token.OR, token.XOR:
				if z(1) {
					return n.lin(d.Args[0])
				}
				if z(0) {
					return n.lin(d.Args[1])
				}
			}
		}
	}
	switch d.Op {
	case OpLen:
		return n.lenLin(d.Args[0])
	case OpCap:
		if l, ok := n.capLin(d.Args[0]); ok {
			return l
		}
	case OpChangeType:
		if isIntType(d.Args[0].Typ) {
			return n.lin(d.Args[0])
		}
	case OpConvert:
		s := d.Args[0]
		if !isIntType(s.Typ) {
			break
		}
		if fits(n.rangeOf(s), v.Typ) {
			return n.lin(s)
		}
		// int64 <-> int
		sb, vb := basicOf(s.Typ), basicOf(v.Typ)
		s1, g1 := intBits(sb)
		s2, g2 := intBits(vb)
		if s2 >= s1 && g1 == g2 {
			return n.lin(s)
		}
		if s2 > s1 && g2 && !g1 {
			return n.lin(s)
		}
	case OpUn:
		if d.Tok == token.SUB {
			a := n.rangeOf(d.Args[0])
			if !a.wide {
				if b := basicOf(v.Typ); b.Info()&types.IsUnsigned == 0 {
					return n.lin(d.Args[0]).scale(-1)
				}
			}
		}
	case OpBin:
		a, b := n.rangeOf(d.Args[0]), n.rangeOf(d.Args[1])
		switch d.Tok {
		case token.ADD:
			if n.exactOK(v, a, b) {
				return n.lin(d.Args[0]).plus(n.lin(d.Args[1]))
			}
		case token.SUB:
			if n.exactOK(v, a, b) {
				return n.lin(d.Args[0]).minus(n.lin(d.Args[1]))
			}
		case token.MUL:
			if n.exactOK(v, a, b) {
				if k, ok := constInt(d.Args[1]); ok {
					return n.lin(d.Args[0]).scale(k)
				}
				if k, ok := constInt(d.Args[0]); ok {
					return n.lin(d.Args[1]).scale(k)
				}
			}
		case token.SHL:
			if k, ok := constInt(d.Args[1]); ok && k >= 0 && k < 40 && n.exactOK(v, a, b) {
				return n.lin(d.Args[0]).scale(1 << k)
			}
		}
	}
	return lt(v)
}

// lenLin is the length of a slice, string or array as a linear expression.
func (n *Num) lenLin(s *V) lin { return n.lenLinD(s, 0) }

func (n *Num) lenLinD(s *V, depth int) lin {
	if a := arrayOf(s.Typ); a != nil {
		return lc(a.Len())
	}
	if s.Kind == VConst {
		if s.C != nil && s.C.Kind() == constant.String {
			return lc(int64(len(constant.StringVal(s.C))))
		}
		return lc(0)
	}
	d := s.Def
	if s.Kind == VReg && d != nil && depth < 60 {
		switch d.Op {
		case OpSlice:
			lo := lc(0)
			if d.Args[1] != theNoV {
				lo = n.lin(d.Args[1])
			}
			if d.Args[2] != theNoV {
				return n.lin(d.Args[2]).minus(lo)
			}
			return n.lenLinD(d.Args[0], depth+1).minus(lo)
		case OpMakeSlice:
			return n.lin(d.Args[0])
		case OpChangeType:
			return n.lenLinD(d.Args[0], depth+1)
		case OpConvert:
			if isByteSeq(d.Args[0].Typ) && isByteSeq(s.Typ) {
				return n.lenLinD(d.Args[0], depth+1)
			}
		case OpBin:
			if d.Tok == token.ADD { // string concat
				return n.lenLinD(d.Args[0], depth+1).plus(n.lenLinD(d.Args[1], depth+1))
			}
		case OpCall:
			if d.Builtin == "append" && len(d.Args) == 2 {
				return n.lenLinD(d.Args[0], depth+1).plus(n.lenLinD(d.Args[1], depth+1))
			}
		}
	}
	return lt(n.lenTerm(s))
}

func (n *Num) capLin(s *V) (lin, bool) {
	if a := arrayOf(s.Typ); a != nil {
		return lc(a.Len()), true
	}
	d := s.Def
	if s.Kind == VReg && d != nil {
		switch d.Op {
		case OpMakeSlice:
			return n.lin(d.Args[1]), true
		case OpSlice:
			if basicOf(d.Args[0].Typ) == nil {
				lo := lc(0)
				if d.Args[1] != theNoV {
					lo = n.lin(d.Args[1])
				}
				if d.Args[3] != theNoV {
					return n.lin(d.Args[3]).minus(lo), true
				}
				if c, ok := n.capLin(d.Args[0]); ok {
					return c.minus(lo), true
				}
			}
		}
	}
	return lin{}, false
}

func isByteSeq(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0
	case *types.Slice:
		b := basicOf(u.Elem())
		return b != nil && b.Kind() == types.Uint8
	}
	return false
}

// termFacts: facts inherent to a term (its range and defining relation).
func (n *Num) termFacts(v *V) []fact {
	if fs, ok := n.defFact[v]; ok {
		return fs
	}
	n.defFact[v] = nil
	var out []fact
	add := func(e lin, why string) { out = append(out, fact{e, why}) }
	if n.lenSrc[v] != nil {
		add(lt(v), "length is not negative")
		s := n.lenSrc[v]
		n.callLenFacts(s, add)
		if k := n.minLenOf(s, map[*V]bool{}); k > 0 && k < maxLen {
			add(lt(v).plusc(-k), "field length invariant")
		}
	} else {
		r := n.rangeOf(v)
		if r.ok {
			if r.lo > -(1 << 50) {
				add(lt(v).plusc(-r.lo), "range")
			}
			if r.hi < 1<<50 {
				add(lc(r.hi).minus(lt(v)), "range")
			}
		} else if b := basicOf(v.Typ); b != nil && b.Info()&types.IsUnsigned != 0 {
			add(lt(v), "unsigned")
		}
	}
	if d := v.Def; v.Kind == VReg && d != nil {
		switch d.Op {
		case OpConvert:
			// a wrapping conversion never makes a non-negative value larger
			if a := d.Args[0]; isIntType(a.Typ) && isIntType(v.Typ) && n.nonNeg(a) {
				add(n.lin(a).minus(lt(v)), "conversion")
			}
		case OpBin:
			k, isC := constInt(d.Args[1])
			a := d.Args[0]
			switch {
			case d.Tok == token.QUO && isC && k > 0:
				l := n.lin(a)
				if n.nonNeg(a) {
					add(l.minus(lt(v).scale(k)), "quotient")
					add(lt(v).scale(k).plusc(k-1).minus(l), "quotient")
					add(lt(v), "quotient")
				}
			case d.Tok == token.SHR && isC && k >= 0 && k < 40:
				if n.nonNeg(a) {
					l := n.lin(a)
					add(l.minus(lt(v).scale(1<<k)), "shift")
					add(lt(v).scale(1<<k).plusc((1<<k)-1).minus(l), "shift")
				}
			case d.Tok == token.REM:
				if n.nonNeg(a) {
					add(lt(v), "remainder")
					add(n.lin(a).minus(lt(v)), "remainder")
					if n.nonNeg(d.Args[1]) {
						add(n.lin(d.Args[1]).minus(lt(v)).plusc(-1), "remainder")
					}
				}
			case d.Tok == token.AND:
				if n.nonNeg(a) {
					add(lt(v), "mask")
					add(n.lin(a).minus(lt(v)), "mask")
				}
			}
		case OpHavoc:
			if c := n.contractOf(d); c != nil {
				old := n.lin(d.Args[0])
				k := ctrKey{d.ClobArg, -1}
				if c.mono[k] {
					add(lt(v).minus(old), "contract")
				}
				for i, a := range d.ClobBy.Args {
					if hasLen(a.Typ) && c.upper[ctrKey{d.ClobArg, i - c.off}] {
						l := n.lenLin(a)
						// old <= len holds by the caller's invariant; check it
						if n.prove(l.minus(old), d.ClobBy.Blk, d.ClobBy, 2) {
							add(l.minus(lt(v)), "contract")
						}
					}
				}
			}
		case OpCall:
			n.callFacts(d, -1, v, add)
		case OpExtract:
			if c := d.Args[0].Def; d.Args[0].Kind == VReg && c != nil && c.Op == OpCall {
				n.callFacts(c, d.Idx, v, add)
			}
			if c := d.Args[0].Def; d.Args[0].Kind == VReg && c != nil && c.Op == OpNext && d.Idx == 1 {
				// key of a range over a string
				if r := c.Args[0].Def; r != nil && r.Op == OpRange && basicOf(r.Args[0].Typ) != nil {
					add(lt(v), "range index")
					add(n.lenLin(r.Args[0]).minus(lt(v)).plusc(-1), "range index")
				}
			}
		}
	}
	n.defFact[v] = out
	return out
}

func (n *Num) nonNeg(v *V) bool {
	if c, ok := constInt(v); ok {
		return c >= 0
	}
	if r := n.rangeOf(v); r.ok && r.lo >= 0 {
		return true
	}
	if b := basicOf(v.Typ); b != nil && b.Info()&types.IsUnsigned != 0 {
		return true
	}
	if v.Kind == VReg && v.Def != nil && n.queries < 200000 {
		return n.prove(n.lin(v), v.Def.Blk, v.Def, 2)
	}
	return false
}

func calleeStr(d *Instr) string {
	if d.Callee != nil {
		return d.Callee.RelString(nil)
	}
	if d.Method != nil {
		return d.Method.FullName()
	}
	return d.Builtin
}

// callFacts: numeric contracts of library calls (result idx, -1 = only result).
func (n *Num) callFacts(c *Instr, idx int, v *V, add func(lin, string)) {
	name := calleeStr(c)
	arg := func(i int) lin { return n.lenLin(c.Args[i]) }
	switch name {
	case "copy":
		add(lt(v), "copy")
		add(arg(0).minus(lt(v)), "copy")
		add(arg(1).minus(lt(v)), "copy")
	case "io.ReadFull", "io.ReadAtLeast":
		if idx == 0 {
			add(lt(v), name)
			add(arg(1).minus(lt(v)), name)
		}
	case "(io.Reader).Read", "(net.Conn).Read", "(*bytes.Reader).Read", "(*bufio.Reader).Read", "(io.ReadWriter).Read":
		if idx == 0 {
			add(lt(v), name)
			add(arg(1).minus(lt(v)), name)
		}
	case "strings.Index", "strings.LastIndex", "bytes.Index", "bytes.LastIndex":
		add(lt(v).plusc(1), name)
		// a hit leaves room for the needle: v + len(sub) <= len(s); with a miss v = -1
		add(arg(0).minus(lt(v)), name)
		if l := arg(1); l.isConst() && l.c > 0 {
			// v <= max(-1, len(s)-len(sub)): expressible only when v >= 0
			add(arg(0).minus(lt(v)).plusc(-1), name) // v <= len-1 holds for hit with len(sub)>=1, and for a miss -1 <= len-1
		}
	case "strings.IndexByte", "bytes.IndexByte", "strings.IndexRune", "strings.LastIndexByte", "bytes.LastIndexByte", "strings.IndexFunc", "strings.IndexAny":
		add(lt(v).plusc(1), name)
		add(arg(0).minus(lt(v)).plusc(-1), name)
	case "min":
		add(n.lin(c.Args[0]).minus(lt(v)), name)
		for _, a := range c.Args {
			add(n.lin(a).minus(lt(v)), name)
		}
		all := true
		for _, a := range c.Args {
			if !n.nonNeg(a) {
				all = false
			}
		}
		if all {
			add(lt(v), name)
		}
	case "max":
		for _, a := range c.Args {
			add(lt(v).minus(n.lin(a)), name)
		}
	case "math/rand.Intn":
		add(lt(v), name)
	}
}

// callLenFacts: contracts on the length of a returned slice or string.
func (n *Num) callLenFacts(s *V, add func(lin, string)) {
	d := s.Def
	if s.Kind != VReg || d == nil {
		return
	}
	c, idx := d, -1
	if d.Op == OpExtract && d.Args[0].Kind == VReg && d.Args[0].Def != nil && d.Args[0].Def.Op == OpCall {
		c, idx = d.Args[0].Def, d.Idx
	}
	if c.Op != OpCall {
		return
	}
	l := lt(n.lenTerm(s))
	name := calleeStr(c)
	switch name {
	case "strings.Split", "strings.SplitN", "bytes.Split":
		sep := c.Args[1]
		if sep.Kind == VConst && sep.C != nil && sep.C.Kind() == constant.String && constant.StringVal(sep.C) != "" {
			if name == "strings.SplitN" {
				if k, ok := constInt(c.Args[2]); !ok || k == 0 {
					return
				} else if k > 0 {
					add(lc(k).minus(l), name)
				}
			}
			add(l.plusc(-1), name)
		}
	case "encoding/hex.DecodeString", "encoding/base64.DecodeString":
	case "strings.TrimSpace", "strings.Trim", "strings.TrimPrefix", "strings.TrimSuffix", "strings.TrimLeft", "strings.TrimRight", "bytes.TrimSpace":
		add(n.lenLin(c.Args[0]).minus(l), name)
	case "(hash.Hash).Sum":
		add(l.minus(n.lenLin(c.Args[1])), name)
	}
	_ = idx
}

// condFacts: linear facts implied by cond == val.
func (n *Num) condFacts(cond *V, val bool) (fs []fact, nes []lin) {
	for cond.Kind == VReg && cond.Def != nil && cond.Def.Op == OpUn && cond.Def.Tok == token.NOT {
		cond, val = cond.Def.Args[0], !val
	}
	d := cond.Def
	if cond.Kind != VReg || d == nil || d.Op != OpBin {
		if cond.Kind == VReg && d != nil && d.Op == OpExtract && val && d.Idx == 0 {
			// range-over-string next: nothing numeric
		}
		if cond.Kind == VReg && d != nil && d.Op == OpCall && val {
			switch calleeStr(d) {
			case "strings.HasPrefix", "strings.HasSuffix", "bytes.HasPrefix", "bytes.HasSuffix", "strings.Contains":
				fs = append(fs, fact{n.lenLin(d.Args[0]).minus(n.lenLin(d.Args[1])), calleeStr(d)})
			}
		}
		return
	}
	tok := d.Tok
	a, b := d.Args[0], d.Args[1]
	if !val {
		var ok bool
		if tok, ok = negTok[tok]; !ok {
			return
		}
	}
	if isIntType(a.Typ) && isIntType(b.Typ) {
		x, y := n.lin(a), n.lin(b)
		switch tok {
		case token.LSS:
			fs = append(fs, fact{y.minus(x).plusc(-1), "branch"})
		case token.LEQ:
			fs = append(fs, fact{y.minus(x), "branch"})
		case token.GTR:
			fs = append(fs, fact{x.minus(y).plusc(-1), "branch"})
		case token.GEQ:
			fs = append(fs, fact{x.minus(y), "branch"})
		case token.EQL:
			fs = append(fs, fact{x.minus(y), "branch"}, fact{y.minus(x), "branch"})
		case token.NEQ:
			nes = append(nes, x.minus(y))
		}
		return
	}
	// p == nil: a 0/1 term, so that repeated tests of one pointer agree
	if tok == token.EQL || tok == token.NEQ {
		x, y := a, b
		if isNilConst(y) {
			x, y = y, x
		}
		if isNilConst(x) && y.Kind != VConst && (pointee(y.Typ) != nil || types.IsInterface(y.Typ)) {
			t := lt(n.nilTerm(y))
			if tok == token.EQL {
				fs = append(fs, fact{t.plusc(-1), "nil"})
			} else {
				fs = append(fs, fact{t.scale(-1), "not nil"})
			}
		}
	}
	// s == nil / s == "const"
	if tok == token.EQL {
		if isNilConst(b) {
			a, b = b, a
		}
		if isNilConst(a) {
			// io.ReadFull returned a nil error: the buffer is full
			if x := b.Def; b.Kind == VReg && x != nil && x.Op == OpExtract && x.Idx == 1 && x.Args[0].Def != nil && x.Args[0].Def.Op == OpCall && calleeStr(x.Args[0].Def) == "io.ReadFull" {
				c := x.Args[0].Def
				if v := n.extractOf(c, 0); v != nil {
					e := n.lin(v).minus(n.lenLin(c.Args[1]))
					fs = append(fs, fact{e, "io.ReadFull"}, fact{e.scale(-1), "io.ReadFull"})
				}
			}
			if _, ok := b.Typ.Underlying().(*types.Slice); ok {
				l := n.lenLin(b)
				fs = append(fs, fact{l.scale(-1), "nil slice"})
			}
			return
		}
		if bt := basicOf(a.Typ); bt != nil && bt.Info()&types.IsString != 0 {
			x, y := n.lenLin(a), n.lenLin(b)
			fs = append(fs, fact{x.minus(y), "string equality"}, fact{y.minus(x), "string equality"})
		}
	}
	return
}

func (n *Num) extractOf(c *Instr, idx int) *V {
	if n.extr == nil {
		n.extr = map[*Instr]map[int]*V{}
		for _, b := range n.f.Blocks {
			for _, in := range b.Instrs {
				if in.Op == OpExtract && in.Args[0].Def != nil {
					d := in.Args[0].Def
					if n.extr[d] == nil {
						n.extr[d] = map[int]*V{}
					}
					n.extr[d][in.Idx] = in.Dst
				}
			}
		}
	}
	return n.extr[c][idx]
}

// instrFacts: what a completed instruction establishes.
func (n *Num) instrFacts(in *Instr) (fs []fact) {
	switch in.Op {
	case OpIndexAddr, OpIndex:
		if _, ok := in.Args[0].Typ.Underlying().(*types.Map); ok {
			return
		}
		i := n.lin(in.Args[1])
		l := n.lenLin(in.Args[0])
		if l.isConst() && i.isConst() {
			return
		}
		fs = append(fs, fact{i, "index executed"}, fact{l.minus(i).plusc(-1), "index executed"})
	case OpSlice:
		lo := lc(0)
		if in.Args[1] != theNoV {
			lo = n.lin(in.Args[1])
			fs = append(fs, fact{lo, "slice executed"})
		}
		if in.Args[2] != theNoV {
			hi := n.lin(in.Args[2])
			fs = append(fs, fact{hi.minus(lo), "slice executed"})
			if c, ok := n.capLin(in.Args[0]); ok {
				fs = append(fs, fact{c.minus(hi), "slice executed"})
			} else if basicOf(in.Args[0].Typ) != nil {
				fs = append(fs, fact{n.lenLin(in.Args[0]).minus(hi), "slice executed"})
			}
		} else {
			fs = append(fs, fact{n.lenLin(in.Args[0]).minus(lo), "slice executed"})
		}
	case OpMakeSlice:
		fs = append(fs, fact{n.lin(in.Args[0]), "make executed"})
	}
	return
}

// edgeFacts: facts of the branch from predecessor pi into b.
func (n *Num) edgeFacts(b *Block, pi int) ([]fact, []lin) {
	p := b.Preds[pi]
	t := p.term()
	if t.Op != OpIf {
		return nil, nil
	}
	return n.condFacts(t.Args[0], succIndex(p, b, pi) == 0)
}

// blockFacts: facts contributed by block b: in-edge (single pred), loop
// invariants, and instructions up to (excluding) stop (nil = whole block).
func (n *Num) blockFacts(b *Block, stop *Instr) (fs []fact, nes []lin) {
	if stop == nil {
		if c, ok := n.chain[b]; ok {
			fs = append(append([]fact{}, c...), n.inv[b]...)
			return fs, n.neq[b]
		}
	}
	if len(b.Preds) == 1 {
		f1, n1 := n.edgeFacts(b, 0)
		fs = append(fs, f1...)
		nes = append(nes, n1...)
	}
	for _, in := range b.Instrs {
		if in == stop {
			break
		}
		fs = append(fs, n.instrFacts(in)...)
	}
	if stop == nil {
		n.chain[b] = fs
		n.neq[b] = nes
	}
	fs = append(append([]fact{}, fs...), n.inv[b]...)
	return
}

// ---- entailment: Fourier-Motzkin over relevant facts ----

func gcd(a, b int64) int64 {
	if a < 0 {
		a = -a
	}
	if b < 0 {
		b = -b
	}
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if (a%b != 0) && ((a < 0) != (b < 0)) {
		q--
	}
	return q
}

func norm(l lin) lin {
	g := int64(0)
	for _, k := range l.t {
		g = gcd(g, k)
	}
	if g > 1 {
		r := lin{c: floorDiv(l.c, g), t: make(map[*V]int64, len(l.t))}
		for v, k := range l.t {
			r.t[v] = k / g
		}
		return r
	}
	return l
}

func (n *Num) entails(fs []fact, nes []lin, goal lin) bool {
	n.queries++
	if goal.isConst() {
		return goal.c >= 0
	}
	// relevance
	rel := map[*V]bool{}
	var queue []*V
	addTerm := func(v *V) {
		if !rel[v] {
			rel[v] = true
			queue = append(queue, v)
		}
	}
	for v := range goal.t {
		addTerm(v)
	}
	var picked []lin
	neg := goal.scale(-1).plusc(-1)
	used := make([]bool, len(fs))
	for round := 0; round < 5; round++ {
		q := queue
		queue = nil
		for _, v := range q {
			for _, tf := range n.termFacts(v) {
				picked = append(picked, tf.e)
				for w := range tf.e.t {
					addTerm(w)
				}
			}
			if e, ok := n.lazyEq(v); ok {
				picked = append(picked, lt(v).minus(e), e.minus(lt(v)))
				for w := range e.t {
					addTerm(w)
				}
			}
		}
		ch := len(queue) > 0
		for i, f := range fs {
			if used[i] {
				continue
			}
			hit := f.e.isConst()
			for v := range f.e.t {
				if rel[v] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				ch = true
				picked = append(picked, f.e)
				for v := range f.e.t {
					addTerm(v)
				}
			}
		}
		if !ch {
			break
		}
		// the nearest facts usually suffice
		if round < 3 && infeasible(append(append([]lin{}, picked...), neg)) {
			return true
		}
	}
	if infeasible(append(append([]lin{}, picked...), neg)) {
		return true
	}
	// use disequalities: x != 0 with x >= 0 gives x >= 1, and symmetric
	added := false
	for _, ne := range nes {
		hit := false
		for v := range ne.t {
			if rel[v] {
				hit = true
			}
		}
		if !hit {
			continue
		}
		if infeasible(append(append([]lin{}, picked...), ne.scale(-1).plusc(-1))) {
			picked = append(picked, ne.plusc(-1))
			added = true
		} else if infeasible(append(append([]lin{}, picked...), ne.plusc(-1))) {
			picked = append(picked, ne.scale(-1).plusc(-1))
			added = true
		} else if infeasible(append(append([]lin{}, picked...), neg, ne.plusc(-1))) &&
			infeasible(append(append([]lin{}, picked...), neg, ne.scale(-1).plusc(-1))) {
			return true
		}
	}
	if added {
		return infeasible(append(picked, neg))
	}
	return false
}

// lazyEq: a sign-changing conversion or an unsigned subtraction equals its
// exact value once the operand is proved non-negative.
func (n *Num) lazyEq(v *V) (lin, bool) {
	d := v.Def
	if v.Kind != VReg || d == nil {
		return lin{}, false
	}
	var src lin
	var goal lin
	switch d.Op {
	case OpConvert:
		if !isIntType(d.Args[0].Typ) || !isIntType(v.Typ) {
			return lin{}, false
		}
		b1, s1 := intBits(basicOf(d.Args[0].Typ))
		b2, s2 := intBits(basicOf(v.Typ))
		if !(s1 && !s2 && b2 >= b1) {
			return lin{}, false
		}
		src = n.lin(d.Args[0])
		goal = src
	case OpBin:
		b := basicOf(v.Typ)
		if b == nil || b.Info()&types.IsUnsigned == 0 || d.Tok != token.SUB {
			return lin{}, false
		}
		src = n.lin(d.Args[0]).minus(n.lin(d.Args[1]))
		goal = src
	default:
		return lin{}, false
	}
	switch n.lazy[v] {
	case 1:
		return src, true
	case 2, 3:
		return lin{}, false
	}
	n.lazy[v] = 3
	if n.prove(goal, d.Blk, d, 2) {
		n.lazy[v] = 1
		return src, true
	}
	n.lazy[v] = 2
	return lin{}, false
}

// prove goal >= 0 just before instruction at in block b (at == nil: end of b).
func (n *Num) prove(goal lin, b *Block, at *Instr, depth int) bool {
	return n.proveFrom(goal, nil, nil, b, at, depth)
}

func (n *Num) proveFrom(goal lin, extra []fact, nes []lin, b *Block, at *Instr, depth int) bool {
	if goal.isConst() && goal.c >= 0 {
		return true
	}
	fs := append([]fact{}, extra...)
	ne := append([]lin{}, nes...)
	fs = append(fs, n.pre...)
	type jp struct {
		j   *Block
		nfs int
		nne int
	}
	var joins []jp
	stop := at
	for x := b; x != nil; x = x.idom {
		f1, n1 := n.blockFacts(x, stop)
		stop = nil
		fs = append(fs, f1...)
		ne = append(ne, n1...)
		if len(x.Preds) > 1 && x.loopHead == nil {
			joins = append(joins, jp{x, len(fs), len(ne)})
		}
	}
	fs = append(fs, n.condProgress(b)...)
	if contradictory(fs, ne) || n.entails(fs, ne, goal) {
		return true
	}
	if depth <= 0 {
		return false
	}
	// case split at joins on the dominator chain, nearest first; prefer those
	// whose phis occur in the goal or related facts
	rel := n.relTerms(fs, goal)
	tried, corr := 0, 0
	for _, j := range joins {
		relv := false
		for _, in := range j.j.Instrs {
			if in.Op != OpPhi {
				break
			}
			if rel[in.Dst] {
				relv = true
			}
			if l := n.lenOf[in.Dst]; l != nil && rel[l] {
				relv = true
			}
		}
		if !relv && n.correlated(j.j, fs[:j.nfs], ne[:j.nne]) {
			relv = true
			tried--
			corr++
			if corr > 4 {
				continue
			}
		}
		if !relv {
			continue
		}
		tried++
		if tried > 3 {
			break
		}
		ok := true
		for pi, p := range j.j.Preds {
			ex := append([]fact{}, fs[:j.nfs]...)
			nn := append([]lin{}, ne[:j.nne]...)
			for _, in := range j.j.Instrs {
				if in.Op != OpPhi {
					break
				}
				ex = append(ex, n.phiEq(in, pi)...)
			}
			e1, n1 := n.edgeFacts(j.j, pi)
			ex = append(ex, e1...)
			nn = append(nn, n1...)
			if !n.proveFrom(goal, ex, nn, p, nil, depth-1) {
				ok = false
				break
			}
		}
		if ok {
			return true
		}
	}
	return false
}

// correlated: the branch that opens the region ending in join j tests something
// already known at the point being proved, so that one side is excluded.
func (n *Num) correlated(j *Block, fs []fact, nes []lin) bool {
	d := j.idom
	if d == nil || d.term().Op != OpIf {
		return false
	}
	for _, val := range []bool{true, false} {
		f1, n1 := n.condFacts(d.term().Args[0], val)
		for _, g := range f1 {
			for _, f := range fs {
				if s := f.e.plus(g.e); s.isConst() && s.c < 0 && !f.e.isConst() {
					return true
				}
			}
			for _, e := range nes {
				if len(f1) == 2 && (e.key() == g.e.key() || e.scale(-1).key() == g.e.key()) {
					return true
				}
			}
		}
		for _, e := range n1 {
			lo, hi := false, false
			for _, f := range fs {
				if s := f.e.minus(e); s.isConst() && s.c <= 0 {
					lo = true
				}
				if s := f.e.plus(e); s.isConst() && s.c <= 0 {
					hi = true
				}
			}
			if lo && hi {
				return true
			}
		}
	}
	return false
}

// contradictory: two facts, or a disequality and two facts, exclude each other.
func contradictory(fs []fact, nes []lin) bool {
	lo := map[string]int64{}
	for _, f := range fs {
		if f.e.isConst() {
			if f.e.c < 0 {
				return true
			}
			continue
		}
		k := lin{t: f.e.t}.key()
		if c, ok := lo[k]; !ok || f.e.c < c {
			lo[k] = f.e.c
		}
	}
	for _, f := range fs {
		if f.e.isConst() {
			continue
		}
		k := lin{t: f.e.t}.scale(-1).key()
		if c, ok := lo[k]; ok && c+f.e.c < 0 {
			return true
		}
	}
	for _, e := range nes {
		if e.isConst() {
			if e.c == 0 {
				return true
			}
			continue
		}
		c1, ok1 := lo[lin{t: e.t}.key()]
		c2, ok2 := lo[lin{t: e.t}.scale(-1).key()]
		if ok1 && ok2 && c1 <= e.c && c2 <= -e.c {
			return true
		}
	}
	return false
}

func (n *Num) phiEq(in *Instr, pi int) []fact {
	a := in.Args[pi]
	if isIntType(in.Dst.Typ) {
		e := n.lin(in.Dst).minus(n.lin(a))
		return []fact{{e, "phi"}, {e.scale(-1), "phi"}}
	}
	if hasLen(in.Dst.Typ) {
		e := n.lenLin(in.Dst).minus(n.lenLin(a))
		return []fact{{e, "phi"}, {e.scale(-1), "phi"}}
	}
	return nil
}

func hasLen(t types.Type) bool {
	if t == nil {
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return true
	case *types.Basic:
		return u.Info()&types.IsString != 0
	}
	return false
}

func (n *Num) relTerms(fs []fact, goal lin) map[*V]bool {
	rel := map[*V]bool{}
	for v := range goal.t {
		rel[v] = true
	}
	for r := 0; r < 3; r++ {
		for v := range rel {
			for _, tf := range n.termFacts(v) {
				for w := range tf.e.t {
					rel[w] = true
				}
			}
		}
		ch := false
		for _, f := range fs {
			hit := false
			for v := range f.e.t {
				if rel[v] {
					hit = true
					break
				}
			}
			if hit {
				for v := range f.e.t {
					if !rel[v] {
						rel[v] = true
						ch = true
					}
				}
			}
		}
		if !ch {
			break
		}
	}
	return rel
}

// ---- loop invariants (Houdini over templates) ----

func (n *Num) inferInvariants() {
	// optimistic simultaneous Houdini: assume all candidates of all loops,
	// remove those not inductive, until stable.
	cand := map[*Block][]fact{}
	for _, l := range n.f.Loops {
		cand[l.Head] = n.candidates(l)
	}
	pts := append([]*Loop{}, n.f.Loops...)
	for _, b := range n.f.Blocks {
		if len(b.Preds) > 1 && b.loopHead == nil {
			if c := n.joinCandidates(b); len(c) > 0 {
				cand[b] = c
				pts = append(pts, &Loop{Head: b})
			}
		}
	}
	for h, c := range cand {
		n.inv[h] = c
	}
	for round := 0; round < 40; round++ {
		ch := false
		for _, l := range pts {
			h := l.Head
			var keep []fact
			for _, c := range n.inv[h] {
				if n.inductive(l, c) {
					keep = append(keep, c)
				} else {
					ch = true
				}
			}
			n.inv[h] = keep
			if ch {
				n.invalidate()
			}
		}
		if !ch {
			break
		}
	}
	n.invalidate()
}

// joinCandidates: a cursor merged at a join is still non-negative and has not
// moved backwards.
func (n *Num) joinCandidates(b *Block) (out []fact) {
	for _, in := range b.Instrs {
		if in.Op != OpPhi {
			break
		}
		bt := basicOf(in.Dst.Typ)
		if bt == nil || bt.Info()&types.IsInteger == 0 || bt.Info()&types.IsUnsigned != 0 {
			continue
		}
		step := false
		for _, a := range in.Args {
			if a.Def != nil && a.Def.Op == OpBin && (a.Def.Tok == token.ADD || a.Def.Tok == token.SUB) {
				step = true
			}
		}
		if !step {
			continue
		}
		v := n.lin(in.Dst)
		out = append(out, fact{v, "join"})
		for _, a := range in.Args {
			if a.Kind == VReg && a.Def != nil && a.Def.Blk != b && a.Def.Blk.dominates(b) {
				out = append(out, fact{v.minus(n.lin(a)), "join"})
			}
		}
	}
	return
}

func (n *Num) invalidate() {
	n.defFact = map[*V][]fact{}
	for v, s := range n.lazy {
		if s != 2 {
			delete(n.lazy, v)
		}
	}
}

func (n *Num) substPhi(c lin, h *Block, pi int) lin {
	r := lc(c.c)
	for v, k := range c.t {
		var in *Instr
		if v.Kind == VReg && v.Def != nil && v.Def.Op == OpPhi && v.Def.Blk == h {
			in = v.Def
			r = r.add(n.lin(in.Args[pi]), k)
			continue
		}
		if s := n.lenSrc[v]; s != nil && s.Kind == VReg && s.Def != nil && s.Def.Op == OpPhi && s.Def.Blk == h {
			r = r.add(n.lenLin(s.Def.Args[pi]), k)
			continue
		}
		r = r.add(lt(v), k)
	}
	return r
}

func (n *Num) inductive(l *Loop, c fact) bool {
	h := l.Head
	for pi, p := range h.Preds {
		g := n.substPhi(c.e, h, pi)
		ef, en := n.edgeFacts(h, pi)
		if !n.proveFrom(g, ef, en, p, nil, 2) {
			if n.trace {
				fmt.Printf("  drop inv at b%d: %s >= 0 (edge from b%d)\n", h.ID, c.e, p.ID)
			}
			return false
		}
	}
	return true
}

func (n *Num) candidates(l *Loop) []fact {
	h := l.Head
	var out []fact
	seen := map[string]bool{}
	add := func(e lin) {
		e = norm(e)
		k := e.key()
		triv := e.c >= 0
		for v, c := range e.t {
			if c < 0 || n.lenSrc[v] == nil {
				triv = false
			}
		}
		if triv {
			return
		}
		if !seen[k] && !e.isConst() && len(out) < 400 {
			seen[k] = true
			out = append(out, fact{e, "loop invariant"})
		}
	}
	entries := []int{}
	for pi, p := range h.Preds {
		if !l.Blocks[p] {
			entries = append(entries, pi)
		}
	}
	type pv struct {
		l   lin
		ent []lin
		in  *Instr
		bk  []lin
	}
	var ps []pv
	for _, in := range h.Instrs {
		if in.Op != OpPhi {
			break
		}
		var lf func(v *V) lin
		if isIntType(in.Dst.Typ) {
			lf = n.lin
		} else if hasLen(in.Dst.Typ) {
			lf = n.lenLin
		} else {
			continue
		}
		p := pv{l: lf(in.Dst), in: in}
		for pi := range h.Preds {
			isE := false
			for _, e := range entries {
				if e == pi {
					isE = true
				}
			}
			if isE {
				p.ent = append(p.ent, lf(in.Args[pi]))
			} else {
				p.bk = append(p.bk, lf(in.Args[pi]))
			}
		}
		ps = append(ps, p)
	}
	// bounds appearing in comparisons inside the loop or dominating it, in
	// terms of phi values
	var bounds []lin // values known outside the loop
	boundSeen := map[string]bool{}
	addBound := func(e lin) {
		for v := range e.t {
			d := v.Def
			if s := n.lenSrc[v]; s != nil {
				d = s.Def
				if s.Kind != VReg {
					d = nil
				}
			}
			if d != nil && l.Blocks[d.Blk] {
				return
			}
		}
		if k := e.key(); !boundSeen[k] && len(bounds) < 30 {
			boundSeen[k] = true
			bounds = append(bounds, e)
		}
	}
	for b := range l.Blocks {
		for _, in := range b.Instrs {
			switch in.Op {
			case OpBin:
				switch in.Tok {
				case token.LSS, token.LEQ, token.GTR, token.GEQ, token.EQL, token.NEQ:
					if isIntType(in.Args[0].Typ) {
						addBound(n.lin(in.Args[0]))
						addBound(n.lin(in.Args[1]))
					}
				}
			case OpIndexAddr, OpIndex, OpSlice:
				if hasLen(in.Args[0].Typ) {
					addBound(n.lenLin(in.Args[0]))
				} else if a := arrayOf(in.Args[0].Typ); a != nil {
					addBound(lc(a.Len()))
				}
			}
		}
	}
	sort.Slice(bounds, func(i, j int) bool { return bounds[i].key() < bounds[j].key() })
	for _, p := range ps {
		add(p.l)          // p >= 0
		add(p.l.plusc(1)) // p >= -1 (range loops)
		for _, e := range p.ent {
			add(p.l.minus(e))
			add(e.minus(p.l))
		}
		for _, b := range bounds {
			add(b.minus(p.l))
			add(b.minus(p.l).plusc(-1))
			add(p.l.minus(b))
		}
	}
	// affine relations between pairs: p - e_p = (cp/cq) (q - e_q)
	step := func(p pv) (int64, bool) {
		var s int64
		for i, b := range p.bk {
			d := b.minus(p.l)
			if !d.isConst() {
				return 0, false
			}
			if i > 0 && d.c != s {
				return 0, false
			}
			s = d.c
		}
		return s, s != 0
	}
	for i, p := range ps {
		sp, ok := step(p)
		if !ok || len(p.ent) != 1 {
			continue
		}
		for j, q := range ps {
			if j <= i || len(q.ent) != 1 {
				continue
			}
			sq, ok := step(q)
			if !ok {
				continue
			}
			e := p.l.minus(p.ent[0]).scale(sq).minus(q.l.minus(q.ent[0]).scale(sp))
			add(e)
			add(e.scale(-1))
		}
	}
	// pairwise order and sums between phis
	for i, p := range ps {
		for j, q := range ps {
			if i == j || len(ps) > 8 {
				continue
			}
			add(p.l.minus(q.l))
			if j > i {
				for _, ep := range p.ent {
					for _, eq := range q.ent {
						s := p.l.plus(q.l).minus(ep).minus(eq)
						add(s)
						add(s.scale(-1))
						d := p.l.minus(q.l).minus(ep).plus(eq)
						add(d)
						add(d.scale(-1))
					}
				}
			}
		}
	}
	return out
}

// minLenOf applies the inferred field length invariants (maxLen: no information
// because the value only flows from itself).
func (n *Num) minLenOf(s *V, seen map[*V]bool) int64 {
	d := s.Def
	if s.Kind != VReg || d == nil {
		return 0
	}
	if d.Cell != nil && d.Cell.last != "" {
		return n.f.P.fieldMinLen(d.Cell.last)
	}
	switch d.Op {
	case OpLoad:
		if fa := d.Args[0].Def; d.Args[0].Kind == VReg && fa != nil && fa.Op == OpFieldAddr {
			if t := pointee(fa.Args[0].Typ); t != nil {
				return n.f.P.fieldMinLen(stepName(t, fa.Idx))
			}
		}
	case OpMakeSlice:
		if k, ok := constInt(d.Args[0]); ok {
			return k
		}
	case OpPhi:
		if seen[s] {
			return maxLen
		}
		seen[s] = true
		r := maxLen
		for _, a := range d.Args {
			if k := n.minLenOf(a, seen); k < r {
				r = k
			}
		}
		return r
	}
	return 0
}
