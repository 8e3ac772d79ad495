package main

import "go/token"

// cloneInto copies instructions into nb, keeping links between a call and the
// cells it clobbers.
func cloneInto(nb *Block, src []*Instr) {
	m := map[*Instr]*Instr{}
	for _, in := range src {
		c := *in
		c.Args = append([]*V{}, in.Args...)
		c.Blk = nb
		m[in] = &c
		nb.Instrs = append(nb.Instrs, &c)
	}
	for _, c := range nb.Instrs {
		if c.ClobBy != nil && m[c.ClobBy] != nil {
			c.ClobBy = m[c.ClobBy]
		}
	}
}

// tripCount recognises a loop whose header tests an induction variable with
// constant start, step and bound, and returns the number of iterations.
func (f *Fn) tripCount(l *Loop, max int) (int, bool) {
	h := l.Head
	// the deciding branch is in the header or in a block every iteration runs
	// first; only the header form is recognised
	t := h.term()
	if t == nil || t.Op != OpIf {
		return 0, false
	}
	inS := [2]bool{l.Blocks[h.Succs[0]], l.Blocks[h.Succs[1]]}
	if inS[0] == inS[1] {
		return 0, false
	}
	cond := t.Args[0]
	stay := inS[0]
	for cond.Kind == VReg && cond.Def != nil && cond.Def.Op == OpUn && cond.Def.Tok == token.NOT {
		cond, stay = cond.Def.Args[0], !stay
	}
	d := cond.Def
	if cond.Kind != VReg || d == nil || d.Op != OpBin {
		return 0, false
	}
	// evaluate the header condition as a function of its phis, simulating
	// the constant induction
	env := map[*V]*V{}
	var phis []*Instr
	for _, in := range h.Instrs {
		if in.Op == OpPhi {
			phis = append(phis, in)
		}
	}
	for _, ph := range phis {
		var e *V
		ok := true
		for pi, p := range h.Preds {
			if l.Blocks[p] {
				continue
			}
			a := ph.Args[pi]
			if a.Kind != VConst || (e != nil && e != a) {
				ok = false
				break
			}
			e = a
		}
		if ok && e != nil {
			env[ph.Dst] = e
		}
	}
	var eval func(v *V, depth int) *V
	eval = func(v *V, depth int) *V {
		if v.Kind == VConst {
			return v
		}
		if e := env[v]; e != nil {
			return e
		}
		if depth > 12 || v.Kind != VReg || v.Def == nil || !l.Blocks[v.Def.Blk] {
			return nil
		}
		switch d := v.Def; d.Op {
		case OpBin:
			x, y := eval(d.Args[0], depth+1), eval(d.Args[1], depth+1)
			if x == nil || y == nil {
				return nil
			}
			r := f.foldBin(d.Tok, x, y, d.Dst.Typ)
			if r != nil && r.Kind == VConst {
				return r
			}
		case OpCopy, OpConvert, OpChangeType:
			x := eval(d.Args[0], depth+1)
			if x != nil && x.C != nil && (d.Op == OpCopy || isIntType(d.Dst.Typ)) {
				return f.konst(truncConst(x.C, d.Dst.Typ), d.Dst.Typ)
			}
		}
		return nil
	}
	for trip := 0; trip <= max; trip++ {
		c := eval(cond, 0)
		if c == nil {
			return 0, false
		}
		b, ok := constBool(c)
		if !ok {
			return 0, false
		}
		if b != stay {
			return trip, true
		}
		next := map[*V]*V{}
		for _, ph := range phis {
			if env[ph.Dst] == nil {
				continue
			}
			var e *V
			good := true
			for pi, p := range h.Preds {
				if !l.Blocks[p] {
					continue
				}
				x := eval(ph.Args[pi], 0)
				if x == nil || (e != nil && e != x) {
					good = false
					break
				}
				e = x
			}
			if good && e != nil {
				next[ph.Dst] = e
			}
		}
		env = next
	}
	return 0, false
}

// unrollConst fully unrolls loops with a small constant trip count.
func (f *Fn) unrollConst(maxTrip, maxInstr int) bool {
	any := false
	for it := 0; it < 40; it++ {
		f.computeDom()
		f.setDefs()
		var todo *Loop
		trip := 0
		for _, l := range f.Loops {
			inner := true
			size := 0
			for b := range l.Blocks {
				if b.loop != l {
					inner = false
				}
				size += len(b.Instrs)
			}
			if !inner {
				continue
			}
			if n, ok := f.tripCount(l, maxTrip); ok && n*size <= maxInstr {
				todo, trip = l, n
				break
			}
		}
		if todo == nil {
			return any
		}
		any = true
		head := todo.Head
		f.toRegs()
		f.computeDom()
		var l *Loop
		for _, x := range f.Loops {
			if x.Head == head {
				l = x
			}
		}
		if l == nil {
			f.toSSA()
			return any
		}
		var entries []*Block
		for _, p := range head.Preds {
			if !l.Blocks[p] {
				entries = append(entries, p)
			}
		}
		var order []*Block
		for _, b := range f.Blocks {
			if l.Blocks[b] {
				order = append(order, b)
			}
		}
		// trip+1 copies of the header; the last one always leaves
		heads := []*Block{}
		type edge struct{ from, to *Block }
		var back [][]edge
		for k := 0; k <= trip; k++ {
			m := map[*Block]*Block{}
			for _, b := range order {
				nb := f.newBlock(b.Ctx)
				cloneInto(nb, b.Instrs)
				m[b] = nb
			}
			var bk []edge
			for _, b := range order {
				nb := m[b]
				for _, s := range b.Succs {
					switch {
					case s == head:
						nb.Succs = append(nb.Succs, nil)
						bk = append(bk, edge{nb, nil})
					case m[s] != nil:
						nb.Succs = append(nb.Succs, m[s])
						m[s].Preds = append(m[s].Preds, nb)
					default:
						nb.Succs = append(nb.Succs, s)
						s.Preds = append(s.Preds, nb)
					}
				}
			}
			heads = append(heads, m[head])
			back = append(back, bk)
		}
		for k, bk := range back {
			t := head // after the last copy: dead
			if k+1 < len(heads) {
				t = heads[k+1]
			}
			for _, e := range bk {
				for i, s := range e.from.Succs {
					if s == nil {
						e.from.Succs[i] = t
						t.Preds = append(t.Preds, e.from)
						break
					}
				}
			}
		}
		var keep []*Block
		isE := map[*Block]bool{}
		for _, e := range entries {
			isE[e] = true
		}
		for _, p := range head.Preds {
			if !isE[p] {
				keep = append(keep, p)
			}
		}
		head.Preds = keep
		for _, e := range entries {
			for i, s := range e.Succs {
				if s == head {
					e.Succs[i] = heads[0]
					heads[0].Preds = append(heads[0].Preds, e)
				}
			}
		}
		f.toSSA()
		f.simplify()
	}
	return any
}
