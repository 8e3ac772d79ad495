package main

import (
	"fmt"
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Comparison of traces with tables of the wire formats.

// traceSet builds and walks one function; nil when it cannot.
func (r *Report) traceSet(name string, width map[string]int, opt *InlineOpt) []*Trace {
	k := strings.LastIndex(name, ":")
	fn := r.P.fn(name[:k], name[k+1:])
	if fn == nil {
		r.fail("anchor|"+name, "-", "function "+name+" does not exist any more")
		return nil
	}
	return r.traceFn(fn, width, opt)
}

func (r *Report) traceFn(fn *ssa.Function, width map[string]int, opt *InlineOpt) []*Trace {
	if opt == nil {
		opt = &InlineOpt{}
	}
	opt.Quiet = !opt.Loud
	f := build(r.P, fn, opt)
	ts, over := traces(f, 20000, width)
	if over {
		r.fail("paths|"+fnName(fn), r.P.pos(fn.Pos()), "too many paths to analyse")
		return nil
	}
	n, _ := r.Cov["functions_walked"].(int)
	r.Cov["functions_walked"] = n + 1
	n, _ = r.Cov["paths_walked"].(int)
	r.Cov["paths_walked"] = n + len(ts)
	return ts
}

func (t *Trace) pos2() string {
	if t.end != nil && t.end.Orig != nil {
		return t.x.f.P.pos(t.end.Orig.Pos())
	}
	return t.x.f.P.pos(t.x.f.Root.Pos())
}

func (t *Trace) fnPos() string { return t.x.f.P.pos(t.x.f.Root.Pos()) }

// path describes the branches of a trace.
func (t *Trace) path() []string {
	var out []string
	for _, c := range t.conds {
		if c.op == 0 {
			out = append(out, fmt.Sprintf("when %s is %v", c.sym, !c.neg))
		} else {
			out = append(out, fmt.Sprintf("when %s %v 0", c.lin, c.op))
		}
	}
	return out
}

// result k: 1 nil (success), 0 an error, -1 unknown.
func (t *Trace) okRes(k int) int {
	if k >= len(t.ret) {
		return -1
	}
	return t.nilState(t.ret[k])
}

func (t *Trace) nilState(s *sval) int {
	if s.isNil || s.sym == "nil" {
		return 1
	}
	if v, ok := t.bools[s.sym+"==nil"]; ok {
		if v {
			return 1
		}
		return 0
	}
	if s.fields != nil || strings.HasPrefix(s.sym, "alloc@") || strings.HasPrefix(s.sym, "struct@") || strings.HasPrefix(s.sym, "Errorf@") || strings.HasPrefix(s.sym, "New@") || strings.HasPrefix(s.sym, "g:") || strings.HasPrefix(s.sym, "io.") {
		return 0
	}
	return -1
}

func (t *Trace) success(k int) bool { return t.end != nil && t.end.Op == OpReturn && t.okRes(k) == 1 }
func (t *Trace) failure(k int) bool { return t.end != nil && t.end.Op == OpReturn && t.okRes(k) == 0 }

// final returns the value a cell reachable from a parameter has at return.
func (t *Trace) final(name string) *sval {
	for i, c := range t.x.f.RetCells {
		j := t.x.f.NRes + i
		if j < len(t.ret) && t.cellPath(c) == name {
			return t.ret[j]
		}
	}
	return t.cellv[name]
}

func (t *Trace) cellPath(c *cell) string {
	r := t.get(c.root)
	n := r.sym
	ty := pointee(c.root.Typ)
	for _, st := range c.path {
		if st >= 0 {
			n += "." + fieldName(ty, st)
		} else {
			n += fmt.Sprintf("[%d]", ^st)
		}
		ty = stepType(ty, st)
	}
	return n
}

// image returns the final bytes base[off..off+n).
func (t *Trace) image(base string, off slin, n int) []string {
	var out []string
	for i := 0; i < n; i++ {
		out = append(out, bitStr(t.byteAt(base, off.add(sc(int64(i)), 1), len(t.mem))))
	}
	return out
}

// stored lists base[off] of single-byte stores and copies.
func (t *Trace) stored() (out []string) {
	for _, m := range t.mem {
		if m.kind == 0 || m.kind == 1 {
			out = append(out, m.base+"["+m.off.String()+"]")
		}
	}
	return
}

// field bits in big-endian byte order: src bits hi..lo of byte k of w.
func beBytes(src string, w int) (out []string) {
	for k := w - 1; k >= 0; k-- {
		out = append(out, fmt.Sprintf("%s{%d:%d}", src, 8*k+7, 8*k))
	}
	return
}

func leBytes(src string, w int) (out []string) {
	for k := 0; k < w; k++ {
		out = append(out, fmt.Sprintf("%s{%d:%d}", src, 8*k+7, 8*k))
	}
	return
}

func reverse(a []string) []string {
	out := make([]string, len(a))
	for i, s := range a {
		out[len(a)-1-i] = s
	}
	return out
}

func sameStrs(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// valBits renders an integer value as bits.
func (s *sval) valBits() string {
	if s == nil || !s.isInt {
		return "?"
	}
	return bitStr(s.bits)
}

// intFromBytes is the bit string of a w-byte big-endian integer read from
// base[off..], extended to tw bits.
func intFromBytes(base string, off slin, w, tw int, signed, le bool) string {
	var bs []sbit
	for k := 0; k < w; k++ {
		j := w - 1 - k
		if le {
			j = k
		}
		n := base + "[" + off.add(sc(int64(j)), 1).String() + "]"
		for i := 0; i < 8; i++ {
			bs = append(bs, sbit{n, i})
		}
	}
	for len(bs) < tw {
		if signed {
			bs = append(bs, bs[len(bs)-1])
		} else {
			bs = append(bs, sbit{})
		}
	}
	return bitStr(bs)
}

// stopAt keeps calls of the named functions (package:Func or
// package:Type.Method) as they are.
func stopAt(names ...string) *InlineOpt {
	set := map[string]bool{}
	for _, n := range names {
		set[n] = true
	}
	return &InlineOpt{Stop: func(f *ssa.Function) bool { return set[anchorName(f)] }}
}

func anchorName(f *ssa.Function) string {
	if f == nil || f.Pkg == nil {
		return ""
	}
	n := f.Name()
	if rv := f.Signature.Recv(); rv != nil {
		if nt := namedOf(rv.Type()); nt != nil {
			n = nt.Obj().Name() + "." + n
		}
	}
	return relPkg(f.Pkg.Pkg.Path()) + ":" + n
}

// calls lists the opaque calls of a function or of a function value.
func (t *Trace) calls(name string) (out []sevent) {
	for _, e := range t.events {
		if e.kind != "call" {
			continue
		}
		if e.in.Callee != nil {
			if anchorName(e.in.Callee) == name {
				out = append(out, e)
			}
		} else if len(e.args) > 0 && e.args[0].sym == name && e.in.Method == nil {
			out = append(out, e)
		}
	}
	return
}

// truth: 1, 0 or -1 (not decided) for a boolean on this path.
func (t *Trace) truth(s *sval) int {
	if s == nil {
		return -1
	}
	if s.boolC == nil {
		switch s.sym {
		case "true":
			return 1
		case "false":
			return 0
		}
		if v, ok := t.bools[s.sym]; ok {
			if v {
				return 1
			}
			return 0
		}
		return -1
	}
	k := s.boolC
	r := -1
	switch {
	case k.op == token.ILLEGAL:
		if v, ok := t.bools[k.sym]; ok {
			r = 0
			if v {
				r = 1
			}
		}
	case k.op == token.EQL && t.isEq(k.lin), k.op == token.NEQ && t.isNeq(k.lin), k.op == token.GEQ && t.implies(k.lin):
		r = 1
	case k.op == token.EQL && t.isNeq(k.lin), k.op == token.NEQ && t.isEq(k.lin), k.op == token.GEQ && t.implies(k.lin.mul(-1).add(sc(-1), 1)):
		r = 0
	}
	if k.neg && r >= 0 {
		r = 1 - r
	}
	return r
}

// reachesFn: from calls to, directly or through functions of the module.
func (p *Prog) reachesFn(from *ssa.Function, to string) bool {
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function) bool
	walk = func(f *ssa.Function) bool {
		if f == nil || seen[f] || f.Blocks == nil {
			return false
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok {
					if fn, ok := mc.Fn.(*ssa.Function); ok && walk(fn) {
						return true
					}
				}
				if c, ok := in.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil {
						if anchorName(g) == to || inModule(fnPkgPath(g)) && walk(g) {
							return true
						}
					}
				}
			}
		}
		return false
	}
	return walk(from)
}

// wroteErr: a write failed on this path.
func (t *Trace) wroteErr() bool {
	for _, e := range t.events {
		if e.kind == "write" && e.res != nil && len(e.res.tup) == 2 && t.nilState(e.res.tup[1]) == 0 {
			return true
		}
	}
	return false
}
