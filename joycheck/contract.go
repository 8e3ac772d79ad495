package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// Contracts of recursive decoders over a cursor: for a parameter p *int and a
// sequence parameter s,
//
//	mono:  *p never decreases
//	prog:  *p increases when the function returns a nil error
//	upper: *p <= len(s) is preserved
//
// under the precondition *p >= 0. They are assumed at recursive calls and
// verified on the function's own body (Houdini).
type ctrKey struct{ p, s int }

type Contract struct {
	fn    *ssa.Function
	mono  map[ctrKey]bool
	prog  map[ctrKey]bool
	upper map[ctrKey]bool
	off   int
	res   map[int]rng // integer results
}

type Contracts struct {
	p    *Prog
	m    map[*ssa.Function]*Contract
	busy map[*ssa.Function]bool
	opt  *InlineOpt
}

func newContracts(p *Prog, opt *InlineOpt) *Contracts {
	return &Contracts{p: p, m: map[*ssa.Function]*Contract{}, busy: map[*ssa.Function]bool{}, opt: opt}
}

// cursorStop: decoders over an explicit cursor are analysed once, on their own,
// and represented at call sites by their verified contract. The fixed-width
// primitives are small and stay expanded.
func cursorStop(f *ssa.Function) bool {
	if specOf(f) != nil {
		return true
	}
	if relPkg(fnPkgPath(f)) == "utils/bits/pio" {
		return false
	}
	for _, p := range f.Params {
		if t := pointee(p.Type()); t != nil && isIntType(t) {
			return true
		}
	}
	return false
}

func errType() types.Type { return types.Universe.Lookup("error").Type() }

func errIdx(sig *types.Signature) int {
	for i := sig.Results().Len() - 1; i >= 0; i-- {
		if types.Identical(sig.Results().At(i).Type(), errType()) {
			return i
		}
	}
	return -1
}

func (c *Contracts) get(fn *ssa.Function) *Contract {
	if k := c.m[fn]; k != nil {
		return k
	}
	k := &Contract{fn: fn, mono: map[ctrKey]bool{}, prog: map[ctrKey]bool{}, upper: map[ctrKey]bool{}, res: map[int]rng{}}
	c.m[fn] = k
	hasErr := errIdx(fn.Signature) >= 0
	any := false
	for i, p := range fn.Params {
		t := pointee(p.Type())
		if t == nil || !isIntType(t) {
			continue
		}
		any = true
		k.mono[ctrKey{i, -1}] = true
		if hasErr {
			k.prog[ctrKey{i, -1}] = true
		}
		for j, s := range fn.Params {
			if hasLen(s.Type()) {
				k.upper[ctrKey{i, j}] = true
			}
		}
	}
	rs := fn.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		if isIntType(rs.At(i).Type()) {
			any = true
			if tr := typeRange(rs.At(i).Type()); tr.ok {
				k.res[i] = tr
			} else {
				k.res[i] = rng{lo: 0, hi: maxLen, ok: true}
			}
		}
	}
	if !any || len(fn.Blocks) == 0 {
		k.res = map[int]rng{}
		return k
	}
	f := build(c.p, fn, c.opt)
	for round := 0; round < 8; round++ {
		n := newNum(f)
		n.ctr = c
		n.trace = os.Getenv("JC_TRACE") != "" && round == 0
		n.assumePre()
		n.inferInvariants()
		if n.verifyContract(k) {
			continue
		}
		// tighten upper bounds with the plain ranges of the returned values
		for i, r := range k.res {
			hi := int64(0)
			for _, b := range f.Blocks {
				if t := b.term(); t.Op == OpReturn {
					x := n.rangeOf(t.Args[i])
					if !x.ok {
						hi = r.hi
					} else if x.hi > hi {
						hi = x.hi
					}
				}
			}
			if hi < r.hi {
				r.hi = hi
				k.res[i] = r
			}
		}
		break
	}
	return k
}

// assumePre adds *p >= 0 for pointed-to integer parameters of the root.
func (n *Num) assumePre() {
	n.assumeEntry()
	for _, b := range n.f.Blocks[:1] {
		for _, in := range b.Instrs {
			if in.Op == OpCell && in.Cell != nil && in.Cell.root.Kind == VParam && len(in.Cell.path) == 0 && isIntType(in.Dst.Typ) {
				n.pre = append(n.pre, fact{lt(in.Dst), "cursor precondition"})
			}
		}
	}
}

func (n *Num) initialOf(p *V) (lin, bool) {
	for _, in := range n.f.Blocks[0].Instrs {
		if in.Op == OpCell && in.Cell != nil && in.Cell.root == p && len(in.Cell.path) == 0 {
			return n.lin(in.Dst), true
		}
	}
	return lin{}, false
}

// verifyContract removes clauses that do not hold; it reports whether any was.
func (n *Num) verifyContract(k *Contract) bool {
	changed := false
	f := n.f
	ei := errIdx(f.Root.Signature)
	for _, b := range f.Blocks {
		t := b.term()
		if t.Op != OpReturn {
			continue
		}
		for i := range k.res {
			r := k.res[i]
			if x := n.rangeOf(t.Args[i]); x.ok && x.lo >= 0 {
				continue
			}
			if r.lo == 0 && n.prove(n.lin(t.Args[i]), b, t, 2) && (isPhi(t.Args[i]) || n.prove(lc(maxLen).minus(n.lin(t.Args[i])), b, t, 1)) {
				continue
			}
			if tr := typeRange(f.Root.Signature.Results().At(i).Type()); !tr.ok {
				delete(k.res, i)
				changed = true
			}
		}
		for ci, c := range f.RetCells {
			pi := -1
			for i, p := range f.Params {
				if p == c.root {
					pi = i
				}
			}
			fin := n.lin(t.Args[f.NRes+ci])
			ini, ok := n.initialOf(c.root)
			if !ok {
				ini = lin{}
			}
			key := ctrKey{pi, -1}
			if k.mono[key] && !(ok && n.prove(fin.minus(ini), b, t, 3)) {
				if !(fin.key() == lt(c.reg).key()) {
					if n.trace {
						fmt.Println("drop mono", fnName(k.fn), fin, ini, ok, b.ID)
					}
					delete(k.mono, key)
					changed = true
				}
			}
			if k.prog[key] && ei >= 0 {
				if f.nilness(t.Args[ei], b, nil) != nilNo && !(ok && n.prove(fin.minus(ini).plusc(-1), b, t, 3)) {
					delete(k.prog, key)
					changed = true
				}
			}
			for j, s := range f.Params {
				kk := ctrKey{pi, j}
				if !k.upper[kk] {
					continue
				}
				l := n.lenLin(s)
				pre := []fact{}
				if ok {
					pre = append(pre, fact{l.minus(ini), "contract precondition"})
				}
				old := n.pre
				n.pre = append(append([]fact{}, old...), pre...)
				n.defFact = map[*V][]fact{}
				r := n.prove(l.minus(fin), b, t, 3)
				n.pre = old
				n.defFact = map[*V][]fact{}
				if !r {
					delete(k.upper, kk)
					changed = true
				}
			}
		}
	}
	return changed
}

// calleesOf lists the possible callees of a call through known functions.
func (n *Num) calleesOf(call *Instr) ([]*ssa.Function, int) {
	if call.Callee != nil {
		return []*ssa.Function{call.Callee}, 0
	}
	if call.Method != nil || len(call.Args) == 0 {
		return nil, 0
	}
	seen := map[*V]bool{}
	var out []*ssa.Function
	var walk func(v *V) bool
	walk = func(v *V) bool {
		if seen[v] {
			return true
		}
		seen[v] = true
		if v.Kind == VFunc {
			out = append(out, v.Obj.(*ssa.Function))
			return true
		}
		if v.Kind == VReg && v.Def != nil && v.Def.Op == OpPhi {
			for _, a := range v.Def.Args {
				if !walk(a) {
					return false
				}
			}
			return true
		}
		return false
	}
	if !walk(call.Args[0]) || len(out) == 0 {
		return nil, 0
	}
	sort.Slice(out, func(i, j int) bool { return fnName(out[i]) < fnName(out[j]) })
	return out, 1
}

// contractOf returns the contract governing a clobbered cell, keyed by the
// call's argument positions.
func (n *Num) contractOf(h *Instr) *Contract {
	if n.ctr == nil || h.ClobBy == nil || h.ClobArg < 0 {
		return nil
	}
	fns, off := n.calleesOf(h.ClobBy)
	if len(fns) == 0 {
		return nil
	}
	res := &Contract{off: off, mono: map[ctrKey]bool{}, prog: map[ctrKey]bool{}, upper: map[ctrKey]bool{}}
	for i, fn := range fns {
		if !inModule(fnPkgPath(fn)) {
			return nil
		}
		c := n.ctr.get(fn)
		shift := func(src map[ctrKey]bool, dst map[ctrKey]bool) {
			if i == 0 {
				for k := range src {
					kk := ctrKey{k.p + off, k.s}
					dst[kk] = true
				}
				return
			}
			for k := range dst {
				if !src[ctrKey{k.p - off, k.s}] {
					delete(dst, k)
				}
			}
		}
		shift(c.mono, res.mono)
		shift(c.prog, res.prog)
		shift(c.upper, res.upper)
	}
	return res
}

// condProgress: facts of contracts that hold because a call's error is nil at b.
func (n *Num) condProgress(b *Block) []fact {
	if n.ctr == nil {
		return nil
	}
	if n.havocs == nil {
		n.havocs = []*Instr{}
		for _, x := range n.f.Blocks {
			for _, in := range x.Instrs {
				if in.Op == OpHavoc && in.ClobBy != nil && in.ClobArg >= 0 && len(in.Args) > 0 {
					n.havocs = append(n.havocs, in)
				}
			}
		}
	}
	var out []fact
	for _, h := range n.havocs {
		if !h.Blk.dominates(b) {
			continue
		}
		c := n.contractOf(h)
		if c == nil || !c.prog[ctrKey{h.ClobArg, -1}] {
			continue
		}
		ev := n.errResult(h.ClobBy)
		if ev == nil || n.f.nilness(ev, b, nil) != nilYes {
			continue
		}
		out = append(out, fact{n.lin(h.Dst).minus(n.lin(h.Args[0])).plusc(-1), "contract progress"})
	}
	return out
}

// errResult finds the value holding a call's error result.
func (n *Num) errResult(call *Instr) *V {
	if call.Dst == nil {
		return nil
	}
	if types.Identical(call.Dst.Typ, errType()) {
		return call.Dst
	}
	tu, ok := call.Dst.Typ.(*types.Tuple)
	if !ok {
		return nil
	}
	idx := -1
	for i := 0; i < tu.Len(); i++ {
		if types.Identical(tu.At(i).Type(), errType()) {
			idx = i
		}
	}
	for _, b := range n.f.Blocks {
		for _, in := range b.Instrs {
			if in.Op == OpExtract && in.Args[0] == call.Dst && in.Idx == idx {
				return in.Dst
			}
		}
	}
	return nil
}

// isPhi: an accumulator; like parameters and fields it is taken to be far from
// the int64 limits.
func isPhi(v *V) bool { return v.Kind == VReg && v.Def != nil && v.Def.Op == OpPhi }
