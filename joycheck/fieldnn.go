package main

import (
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// Non-negative integer fields. An unexported signed integer field whose
// address is only used to load and store it is non-negative in every object
// when (by induction over the program's stores, all of which are in the
// module) every stored value is non-negative, assuming the property for every
// loaded one. Zero values are non-negative. 64-bit counters are assumed not to
// overflow.
func (p *Prog) fieldNonNeg(step string) bool {
	if p.fieldNN == nil {
		p.scanFieldNN()
	}
	return p.fieldNN[step]
}

func (p *Prog) scanFieldNN() {
	cand := map[string]bool{}
	bad := map[string]bool{}
	stores := map[string][]*ssa.Store{}
	for _, f := range p.AllFuncs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				t := pointee(fa.X.Type())
				s := structOf(t)
				if s == nil || namedOf(t) == nil || namedOf(t).Obj().Pkg() == nil || !inModule(namedOf(t).Obj().Pkg().Path()) {
					continue
				}
				bt := basicOf(s.Field(fa.Field).Type())
				if bt == nil || bt.Info()&types.IsInteger == 0 || bt.Info()&types.IsUnsigned != 0 {
					continue
				}
				name := stepName(t, fa.Field)
				if s.Field(fa.Field).Exported() {
					bad[name] = true
					continue
				}
				cand[name] = true
				for _, r := range *fa.Referrers() {
					switch r := r.(type) {
					case *ssa.UnOp, *ssa.DebugRef:
					case *ssa.Store:
						if r.Addr != fa {
							bad[name] = true
						} else {
							stores[name] = append(stores[name], r)
						}
					default:
						bad[name] = true
					}
				}
			}
		}
	}
	p.fieldNN = map[string]bool{}
	for c := range cand {
		if !bad[c] {
			p.fieldNN[c] = true
		}
	}
	built := map[*ssa.Function]*Fn{}
	p.fieldPos = map[string]bool{}
	defer p.scanFieldPos(stores)
	for {
		changed := false
		var hard []string
		for _, c := range sortedKeys(p.fieldNN) {
			for _, st := range stores[c] {
				if !p.ssaNonNeg(st.Val, map[ssa.Value]bool{}) {
					hard = append(hard, c)
					break
				}
			}
		}
		nums := map[*ssa.Function]*Num{}
		for _, c := range hard {
			ok := true
			for _, st := range stores[c] {
				if p.ssaNonNeg(st.Val, map[ssa.Value]bool{}) {
					continue
				}
				fn := st.Parent()
				if built[fn] == nil {
					if n, _ := ssaSize(fn); n > 400 {
						ok = false
						break
					}
					built[fn] = build(p, fn, &InlineOpt{Stop: func(*ssa.Function) bool { return true }})
				}
				n := nums[fn]
				if n == nil {
					n = newNum(built[fn])
					n.assumeEntry()
					n.inferInvariants()
					nums[fn] = n
				}
				found := false
				for _, b := range n.f.Blocks {
					for _, in := range b.Instrs {
						if in.Op == OpStore && in.Orig == ssa.Instruction(st) {
							found = true
							if !n.prove(n.lin(in.Args[1]), b, in, 3) {
								ok = false
							}
						}
					}
				}
				if !found {
					ok = false
				}
			}
			if !ok {
				delete(p.fieldNN, c)
				changed = true
			}
		}
		if !changed {
			break
		}
	}
}

// ssaNonNeg is the cheap syntactic part of the induction step.
func (p *Prog) ssaNonNeg(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.Const:
		return v.Value == nil || v.Int64() >= 0
	case *ssa.UnOp:
		if v.Op == token.MUL {
			if fa, ok := v.X.(*ssa.FieldAddr); ok {
				return p.fieldNN[stepName(pointee(fa.X.Type()), fa.Field)]
			}
		}
	case *ssa.BinOp:
		switch v.Op {
		case token.ADD, token.MUL, token.QUO:
			// range index: phi(-1, i+1)+1
			if ph, ok := v.X.(*ssa.Phi); ok && v.Op == token.ADD {
				if c, ok := v.Y.(*ssa.Const); ok && c.Int64() == 1 {
					all := true
					for _, e := range ph.Edges {
						if k, ok := e.(*ssa.Const); ok && k.Int64() >= -1 {
							continue
						}
						if e == ssa.Value(v) {
							continue
						}
						all = false
					}
					if all {
						return true
					}
				}
			}
			return p.ssaNonNeg(v.X, seen) && p.ssaNonNeg(v.Y, seen)
		case token.REM, token.SHR:
			return p.ssaNonNeg(v.X, seen)
		case token.AND:
			return p.ssaNonNeg(v.X, seen) || p.ssaNonNeg(v.Y, seen)
		}
	case *ssa.Convert:
		if bt := basicOf(v.X.Type()); bt != nil && bt.Info()&types.IsInteger != 0 {
			from, u := intBits(bt)
			to, _ := intBits(basicOf(v.Type()))
			_ = u
			if bt.Info()&types.IsUnsigned != 0 {
				return from < to
			}
			return from <= to && p.ssaNonNeg(v.X, seen)
		}
	case *ssa.Phi:
		for _, e := range v.Edges {
			if !p.ssaNonNeg(e, seen) {
				return false
			}
		}
		return true
	case *ssa.Call:
		if b, ok := v.Call.Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap" || b.Name() == "copy") {
			return true
		}
	}
	return false
}

// fieldNN: v is loaded from a non-negative field.
func (n *Num) fieldNN(v *V) bool {
	s := fieldStep(v)
	return s != "" && isIntType(v.Typ) && n.f.P.fieldNonNeg(s)
}

// fieldStep: the struct field v was loaded from, or "".
func fieldStep(v *V) string {
	d := v.Def
	if v.Kind != VReg || d == nil {
		return ""
	}
	if d.Cell != nil {
		return d.Cell.last
	}
	if d.Op == OpLoad {
		if fa := d.Args[0].Def; d.Args[0].Kind == VReg && fa != nil && fa.Op == OpFieldAddr {
			if t := pointee(fa.Args[0].Typ); t != nil {
				return stepName(t, fa.Idx)
			}
		}
	}
	return ""
}

func sortedKeys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// scanFieldPos finds fields that are positive in every published object: every
// stored value is positive, and every allocation of the struct stores the
// field before the object's address is stored, passed on or returned.
func (p *Prog) scanFieldPos(stores map[string][]*ssa.Store) {
	for c := range p.fieldNN {
		if len(stores[c]) == 0 {
			continue
		}
		ok := true
		for _, st := range stores[c] {
			if !p.storePositive(st) {
				ok = false
				break
			}
		}
		if ok && p.allocsPublishAfter(c) {
			p.fieldPos[c] = true
		}
	}
}

func (p *Prog) storePositive(st *ssa.Store) bool {
	if k, ok := st.Val.(*ssa.Const); ok {
		return k.Value != nil && k.Int64() > 0
	}
	fn := st.Parent()
	if n, _ := ssaSize(fn); n > 400 {
		return false
	}
	f := build(p, fn, &InlineOpt{Stop: func(*ssa.Function) bool { return true }})
	n := newNum(f)
	n.inferInvariants()
	found, ok := false, true
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if in.Op == OpStore && in.Orig == ssa.Instruction(st) {
				found = true
				if !n.prove(n.lin(in.Args[1]).plusc(-1), b, in, 3) {
					ok = false
				}
			}
		}
	}
	return found && ok
}

func (p *Prog) allocsPublishAfter(step string) bool {
	for _, f := range p.AllFuncs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				al, ok := in.(*ssa.Alloc)
				if !ok {
					continue
				}
				t := pointee(al.Type())
				s := structOf(t)
				if s == nil {
					continue
				}
				idx := -1
				for i := 0; i < s.NumFields(); i++ {
					if stepName(t, i) == step {
						idx = i
					}
					// embedded by value elsewhere: not tracked
					if fs := structOf(s.Field(i).Type()); fs != nil {
						for k := 0; k < fs.NumFields(); k++ {
							if stepName(s.Field(i).Type(), k) == step {
								return false
							}
						}
					}
				}
				if idx < 0 {
					continue
				}
				var sets []*ssa.Store
				var esc []ssa.Instruction
				var scan func(v ssa.Value) bool
				seen := map[ssa.Value]bool{}
				scan = func(v ssa.Value) bool {
					if seen[v] {
						return true
					}
					seen[v] = true
					for _, r := range *v.Referrers() {
						switch r := r.(type) {
						case *ssa.DebugRef:
						case *ssa.FieldAddr:
							for _, q := range *r.Referrers() {
								if st, ok := q.(*ssa.Store); ok && st.Addr == ssa.Value(r) && r.Field == idx {
									sets = append(sets, st)
								}
							}
						case *ssa.Store:
							if a, ok := r.Addr.(*ssa.Alloc); ok && r.Val == v && !a.Heap {
								// a local variable holding the pointer
								for _, q := range *a.Referrers() {
									if u, ok := q.(*ssa.UnOp); ok {
										if !scan(u) {
											return false
										}
									}
								}
								continue
							}
							if r.Addr == v {
								return false
							}
							esc = append(esc, r)
						case *ssa.UnOp:
						default:
							esc = append(esc, r.(ssa.Instruction))
						}
					}
					return true
				}
				if !scan(al) {
					return false
				}
				for _, e := range esc {
					dom := false
					for _, st := range sets {
						if before(st, e) {
							dom = true
						}
					}
					if !dom {
						return false
					}
				}
			}
		}
	}
	return true
}

// before: a is executed before b whenever b is.
func before(a, b ssa.Instruction) bool {
	if a.Block() == b.Block() {
		for _, in := range a.Block().Instrs {
			if in == a {
				return true
			}
			if in == b {
				return false
			}
		}
	}
	return a.Block().Dominates(b.Block())
}

func (p *Prog) fieldPositive(step string) bool {
	p.fieldNonNeg(step)
	return p.fieldPos[step]
}
