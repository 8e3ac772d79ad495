package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Stated contracts of the bit readers and writers: the bit count is between 0
// and 64 (checked at every call site), and a reader returns a value of that
// many bits.
type spec struct {
	param  int // index among ssa parameters, receiver included
	lo, hi int64
	bitsOf int // result 0 has as many bits as this argument, -1: none
}

func specOf(f *ssa.Function) *spec {
	if f == nil || relPkg(fnPkgPath(f)) != "utils/bits" || f.Signature.Recv() == nil {
		return nil
	}
	n := namedOf(f.Signature.Recv().Type())
	if n == nil {
		return nil
	}
	switch n.Obj().Name() + "." + f.Name() {
	case "Reader.ReadBits64", "Reader.ReadBits":
		if len(f.Params) == 2 && isIntType(f.Params[1].Type()) {
			return &spec{1, 0, 64, 1}
		}
	case "Writer.WriteBits64", "Writer.WriteBits":
		if len(f.Params) == 3 && isIntType(f.Params[2].Type()) {
			return &spec{2, 0, 64, -1}
		}
	}
	return nil
}

// specObligs: the precondition of every call to a function with a spec.
func (n *Num) specObligs() (out []*Oblig) {
	for _, b := range n.f.Blocks {
		for _, in := range b.Instrs {
			if in.Op != OpCall || in.Callee == nil {
				continue
			}
			s := specOf(in.Callee)
			if s == nil || s.param >= len(in.Args) {
				continue
			}
			a := n.lin(in.Args[s.param])
			o := &Oblig{Kind: "bits", In: in, What: "bit count passed to " + fnName(in.Callee) + " is between 0 and 64"}
			o.OK = n.prove(a.plusc(-s.lo), b, in, 3) && n.prove(lc(s.hi).minus(a), b, in, 3)
			if !o.OK {
				o.How = "bit count " + a.String()
			}
			out = append(out, o)
		}
	}
	return
}

// sortLess: fn is a closure whose only use is as the comparison of sort.Slice
// (or SliceStable) over a captured slice variable; it returns the index of the
// captured variable, or -1. The library calls it with 0 <= i, j < len.
func sortLess(fn *ssa.Function) int {
	par := fn.Parent()
	if par == nil || len(fn.Params) != 2 {
		return -1
	}
	for _, b := range par.Blocks {
		for _, in := range b.Instrs {
			mc, ok := in.(*ssa.MakeClosure)
			if !ok || mc.Fn != ssa.Value(fn) {
				continue
			}
			k := -1
			for _, r := range *mc.Referrers() {
				if _, ok := r.(*ssa.DebugRef); ok {
					continue
				}
				c, ok := r.(*ssa.Call)
				if !ok || c.Call.StaticCallee() == nil || len(c.Call.Args) != 2 || c.Call.Args[1] != ssa.Value(mc) {
					return -1
				}
				switch c.Call.StaticCallee().RelString(nil) {
				case "sort.Slice", "sort.SliceStable":
				default:
					return -1
				}
				mi, ok := c.Call.Args[0].(*ssa.MakeInterface)
				if !ok {
					return -1
				}
				ld, ok := mi.X.(*ssa.UnOp)
				if !ok || ld.Op != token.MUL {
					return -1
				}
				for i, bd := range mc.Bindings {
					if bd == ld.X {
						k = i
					}
				}
				// no store to the variable between the load and the call
				if k < 0 || ld.Block() != c.Block() {
					return -1
				}
				between := false
				for _, x := range c.Block().Instrs {
					if x == ssa.Instruction(ld) {
						between = true
					}
					if x == ssa.Instruction(c) {
						break
					}
					if between {
						switch x.(type) {
						case *ssa.Store, *ssa.Call:
							return -1
						}
					}
				}
			}
			return k
		}
	}
	return -1
}

// assumeEntry adds the facts that hold when the root is entered.
func (n *Num) assumeEntry() {
	root := n.f.Root
	if root == nil {
		return
	}
	if s := specOf(root); s != nil && s.param < len(n.f.Params) {
		p := lt(n.f.Params[s.param])
		n.pre = append(n.pre, fact{p.plusc(-s.lo), "bit count"}, fact{lc(s.hi).minus(p), "bit count"})
	}
	if k := sortLess(root); k >= 0 && k < len(n.f.Free) && len(n.f.Params) == 2 {
		fv := n.f.Free[k]
		for _, p := range n.f.Params {
			n.pre = append(n.pre, fact{lt(p), "sort index"})
		}
		for _, b := range n.f.Blocks {
			for _, in := range b.Instrs {
				if in.Dst == nil || !hasLen(in.Dst.Typ) {
					continue
				}
				if in.Op == OpLoad && in.Args[0] == fv || in.Op == OpCell && in.Cell != nil && in.Cell.root == fv && len(in.Cell.path) == 0 {
					for _, p := range n.f.Params {
						n.pre = append(n.pre, fact{n.lenLin(in.Dst).minus(lt(p)).plusc(-1), "sort index"})
					}
				}
			}
		}
	}
}

// mulNonZero: assuming v is zero, products with it vanish and the branches
// taken to get here contradict each other.
func (n *Num) mulNonZero(v *V, b *Block, at *Instr) bool {
	src := stripConv(v)
	if src.Kind != VReg {
		return false
	}
	m := newNum(n.f)
	m.zero = src
	var all []lin
	var fs []fact
	var ne []lin
	for x := b; x != nil; x = x.idom {
		f1, n1 := m.blockFacts(x, at)
		at = nil
		fs = append(fs, f1...)
		ne = append(ne, n1...)
	}
	for _, f := range fs {
		all = append(all, f.e)
	}
	return contradictory(fs, ne) || infeasible(all)
}

// stripConv removes conversions that cannot turn a non-zero value into zero.
func stripConv(v *V) *V {
	for v.Kind == VReg && v.Def != nil && (v.Def.Op == OpConvert || v.Def.Op == OpChangeType) {
		s := v.Def.Args[0]
		sb, ok1 := intBits(basicOf(s.Typ))
		db, _ := intBits(basicOf(v.Typ))
		if !isIntType(s.Typ) || !isIntType(v.Typ) {
			return v
		}
		_ = ok1
		if sb == 0 {
			sb = 64
		}
		if db == 0 {
			db = 64
		}
		if db < sb {
			return v
		}
		v = s
	}
	return v
}

// tagAssert: the assertion x.(*T) is dominated by x.Tag() == K, T's Tag method
// returns the constant K, and no other type's Tag method is known to.
func (f *Fn) tagAssert(in *Instr) bool {
	x := in.Args[0]
	for b := in.Blk; b != nil; b = b.idom {
		if len(b.Preds) != 1 {
			continue
		}
		p := b.Preds[0]
		t := p.term()
		if t.Op != OpIf || t.Args[0].Kind != VReg || t.Args[0].Def == nil {
			continue
		}
		c := t.Args[0].Def
		want := token.EQL
		if succIndex(p, b, 0) != 0 {
			want = token.NEQ
		}
		if c.Op != OpBin || c.Tok != want {
			continue
		}
		for i := 0; i < 2; i++ {
			k, ok := constInt(c.Args[1-i])
			call := c.Args[i].Def
			if !ok || c.Args[i].Kind != VReg || call == nil || call.Op != OpCall || call.Method == nil || len(call.Args) == 0 || call.Args[0] != x {
				continue
			}
			if f.P.tagOf(in.Typ, call.Method.Name()) == k {
				others := 0
				for _, sp := range f.P.Pkgs {
					for _, m := range sp.Members {
						if tm, ok := m.(*ssa.Type); ok {
							for _, ty := range []types.Type{tm.Type(), types.NewPointer(tm.Type())} {
								if !types.Identical(ty, in.Typ) && f.P.tagOf(ty, call.Method.Name()) == k && !types.Identical(types.NewPointer(ty), in.Typ) && !(pointee(ty) != nil && types.Identical(pointee(ty), in.Typ)) {
									others++
								}
							}
						}
					}
				}
				return others == 0
			}
		}
	}
	return false
}

// tagOf: the constant returned by method name of type t, or -1.
func (p *Prog) tagOf(t types.Type, name string) int64 {
	sel := p.SSA.MethodSets.MethodSet(t).Lookup(nil, name)
	if sel == nil {
		return -1
	}
	fn := p.SSA.MethodValue(sel)
	if fn != nil && fn.Synthetic != "" && pointee(t) != nil {
		return p.tagOf(pointee(t), name)
	}
	if fn == nil || len(fn.Blocks) != 1 || fn.Synthetic != "" {
		return -1
	}
	r, ok := fn.Blocks[0].Instrs[len(fn.Blocks[0].Instrs)-1].(*ssa.Return)
	if !ok || len(r.Results) != 1 {
		return -1
	}
	v := r.Results[0]
	for {
		if ch, ok := v.(*ssa.ChangeType); ok {
			v = ch.X
			continue
		}
		break
	}
	c, ok := v.(*ssa.Const)
	if !ok || !isIntType(c.Type()) {
		return -1
	}
	return int64(c.Uint64())
}
