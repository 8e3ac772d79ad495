package main

import (
	"sort"
)

// ---- CFG utilities ----

func (f *Fn) removeUnreachable() {
	seen := map[*Block]bool{}
	var st []*Block
	st = append(st, f.Blocks[0])
	seen[f.Blocks[0]] = true
	for len(st) > 0 {
		b := st[len(st)-1]
		st = st[:len(st)-1]
		for _, s := range b.Succs {
			if !seen[s] {
				seen[s] = true
				st = append(st, s)
			}
		}
	}
	var keep []*Block
	for _, b := range f.Blocks {
		if !seen[b] {
			continue
		}
		keep = append(keep, b)
		// drop preds that vanished, with their phi arguments
		var np []*Block
		var idx []int
		for i, p := range b.Preds {
			if seen[p] {
				np = append(np, p)
				idx = append(idx, i)
			}
		}
		if len(np) != len(b.Preds) {
			for _, in := range b.Instrs {
				if in.Op != OpPhi {
					break
				}
				var na []*V
				for _, i := range idx {
					na = append(na, in.Args[i])
				}
				in.Args = na
			}
			b.Preds = np
		}
	}
	f.Blocks = keep
}

// removeEdge removes one occurrence of the edge a->b (successor index si).
func (f *Fn) removeEdge(a *Block, si int) {
	b := a.Succs[si]
	// which occurrence of a in b.Preds?
	occ := 0
	for i := 0; i < si; i++ {
		if a.Succs[i] == b {
			occ++
		}
	}
	a.Succs = append(append([]*Block{}, a.Succs[:si]...), a.Succs[si+1:]...)
	for i, p := range b.Preds {
		if p == a {
			if occ == 0 {
				b.Preds = append(append([]*Block{}, b.Preds[:i]...), b.Preds[i+1:]...)
				for _, in := range b.Instrs {
					if in.Op != OpPhi {
						break
					}
					in.Args = append(append([]*V{}, in.Args[:i]...), in.Args[i+1:]...)
				}
				return
			}
			occ--
		}
	}
}

// predIndex gives the index in s.Preds of the edge b.Succs[si].
func predIndex(b *Block, si int) int {
	s := b.Succs[si]
	occ := 0
	for i := 0; i < si; i++ {
		if b.Succs[i] == s {
			occ++
		}
	}
	for i, p := range s.Preds {
		if p == b {
			if occ == 0 {
				return i
			}
			occ--
		}
	}
	return -1
}

func succIndex(p *Block, s *Block, pi int) int {
	occ := 0
	for i := 0; i < pi; i++ {
		if s.Preds[i] == p {
			occ++
		}
	}
	for i, x := range p.Succs {
		if x == s {
			if occ == 0 {
				return i
			}
			occ--
		}
	}
	return -1
}

func (f *Fn) mergeStraight() bool {
	changed := false
	dead := map[*Block]bool{}
	for _, b := range f.Blocks {
		if dead[b] {
			continue
		}
		for len(b.Succs) == 1 {
			s := b.Succs[0]
			if s == b || len(s.Preds) != 1 || s == f.Blocks[0] || dead[s] {
				break
			}
			t := b.term()
			if t == nil || t.Op != OpJump {
				break
			}
			b.Instrs = b.Instrs[:len(b.Instrs)-1]
			for _, in := range s.Instrs {
				if in.Op == OpPhi {
					in.Op = OpCopy
				}
				in.Blk = b
				b.Instrs = append(b.Instrs, in)
			}
			b.Succs = s.Succs
			for _, x := range b.Succs {
				for i, p := range x.Preds {
					if p == s {
						x.Preds[i] = b
					}
				}
			}
			dead[s] = true
			s.Succs, s.Preds = nil, nil
			changed = true
		}
	}
	if changed {
		var keep []*Block
		for _, b := range f.Blocks {
			if !dead[b] {
				keep = append(keep, b)
			}
		}
		f.Blocks = keep
	}
	return changed
}

// skipEmpty removes blocks that hold only a jump, when the target has no phis.
func (f *Fn) skipEmpty() {
	for _, b := range f.Blocks[1:] {
		if len(b.Instrs) != 1 || b.Instrs[0].Op != OpJump || len(b.Succs) != 1 || b.Succs[0] == b {
			continue
		}
		s := b.Succs[0]
		if len(s.Instrs) > 0 && s.Instrs[0].Op == OpPhi {
			continue
		}
		if len(b.Preds) == 0 {
			continue
		}
		for _, p := range b.Preds {
			for i, x := range p.Succs {
				if x == b {
					p.Succs[i] = s
				}
			}
		}
		var np []*Block
		for _, p := range s.Preds {
			if p != b {
				np = append(np, p)
			}
		}
		np = append(np, b.Preds...)
		s.Preds = np
		b.Preds, b.Succs = nil, nil
	}
	f.removeUnreachable()
	for _, b := range f.Blocks {
		t := b.term()
		if t != nil && t.Op == OpIf && len(b.Succs) == 2 && b.Succs[0] == b.Succs[1] {
			s := b.Succs[0]
			if len(s.Instrs) > 0 && s.Instrs[0].Op == OpPhi {
				continue
			}
			f.removeEdge(b, 1)
			t.Op = OpJump
			t.Args = nil
		}
	}
}

func (f *Fn) computeRPO() []*Block {
	seen := map[*Block]bool{}
	var post []*Block
	type fr struct {
		b *Block
		i int
	}
	st := []fr{{f.Blocks[0], 0}}
	seen[f.Blocks[0]] = true
	for len(st) > 0 {
		t := &st[len(st)-1]
		if t.i < len(t.b.Succs) {
			s := t.b.Succs[t.i]
			t.i++
			if !seen[s] {
				seen[s] = true
				st = append(st, fr{s, 0})
			}
			continue
		}
		post = append(post, t.b)
		st = st[:len(st)-1]
	}
	for i, j := 0, len(post)-1; i < j; i, j = i+1, j-1 {
		post[i], post[j] = post[j], post[i]
	}
	for i, b := range post {
		b.rpo = i
	}
	return post
}

func (f *Fn) computeDom() []*Block {
	rpo := f.computeRPO()
	for _, b := range rpo {
		b.idom = nil
		b.domKids = nil
		b.loop, b.loopHead = nil, nil
	}
	entry := rpo[0]
	entry.idom = entry
	inter := func(a, b *Block) *Block {
		for a != b {
			for a.rpo > b.rpo {
				a = a.idom
			}
			for b.rpo > a.rpo {
				b = b.idom
			}
		}
		return a
	}
	for ch := true; ch; {
		ch = false
		for _, b := range rpo[1:] {
			var n *Block
			for _, p := range b.Preds {
				if p.idom == nil {
					continue
				}
				if n == nil {
					n = p
				} else {
					n = inter(n, p)
				}
			}
			if n != b.idom {
				b.idom = n
				ch = true
			}
		}
	}
	entry.idom = nil
	for _, b := range rpo[1:] {
		b.idom.domKids = append(b.idom.domKids, b)
	}
	t := 0
	type fr struct {
		b *Block
		i int
	}
	st := []fr{{entry, 0}}
	entry.domIn = t
	for len(st) > 0 {
		x := &st[len(st)-1]
		if x.i < len(x.b.domKids) {
			k := x.b.domKids[x.i]
			x.i++
			t++
			k.domIn = t
			st = append(st, fr{k, 0})
			continue
		}
		t++
		x.b.domOut = t
		st = st[:len(st)-1]
	}
	// loops
	f.Loops = nil
	heads := map[*Block]*Loop{}
	for _, b := range rpo {
		for _, s := range b.Succs {
			if s.dominates(b) {
				l := heads[s]
				if l == nil {
					l = &Loop{Head: s, Blocks: map[*Block]bool{s: true}}
					heads[s] = l
					s.loopHead = l
				}
				l.Latches = append(l.Latches, b)
				var st []*Block
				if !l.Blocks[b] {
					l.Blocks[b] = true
					st = append(st, b)
				}
				for len(st) > 0 {
					x := st[len(st)-1]
					st = st[:len(st)-1]
					for _, p := range x.Preds {
						if !l.Blocks[p] {
							l.Blocks[p] = true
							st = append(st, p)
						}
					}
				}
			}
		}
	}
	for _, l := range heads {
		f.Loops = append(f.Loops, l)
	}
	sort.Slice(f.Loops, func(i, j int) bool { return f.Loops[i].Head.rpo < f.Loops[j].Head.rpo })
	// nesting: smallest enclosing
	for _, l := range f.Loops {
		for b := range l.Blocks {
			if b.loop == nil || len(b.loop.Blocks) > len(l.Blocks) {
				b.loop = l
			}
		}
	}
	for _, l := range f.Loops {
		for _, m := range f.Loops {
			if m != l && m.Blocks[l.Head] && (l.Parent == nil || len(l.Parent.Blocks) > len(m.Blocks)) {
				l.Parent = m
			}
		}
	}
	f.Blocks = rpo
	return rpo
}

func (a *Block) dominates(b *Block) bool { return a.domIn <= b.domIn && b.domOut <= a.domOut }

// ---- register form <-> SSA form ----

// toRegs replaces phis by copies on the incoming edges. It returns, for every
// (block, predecessor index) pair, the block from which the edge now leaves
// (the edge block, or the predecessor itself).
func (f *Fn) toRegs() map[*Block][]*Block {
	edge := map[*Block][]*Block{}
	blocks := append([]*Block{}, f.Blocks...)
	for _, b := range blocks {
		n := 0
		for n < len(b.Instrs) && b.Instrs[n].Op == OpPhi {
			n++
		}
		if n == 0 {
			edge[b] = append([]*Block{}, b.Preds...)
			continue
		}
		phis := b.Instrs[:n]
		preds := append([]*Block{}, b.Preds...)
		var ebs []*Block
		// work out successor indices before rewiring
		sis := make([]int, len(preds))
		for i, p := range preds {
			sis[i] = succIndex(p, b, i)
		}
		for i, p := range preds {
			eb := f.newBlock(b.Ctx)
			var tmp []*V
			for _, ph := range phis {
				t := f.newV(VReg, ph.Dst.Typ)
				f.emit(eb, &Instr{Op: OpCopy, Dst: t, Args: []*V{ph.Args[i]}, Orig: ph.Orig, Ctx: ph.Ctx})
				tmp = append(tmp, t)
			}
			for k, ph := range phis {
				f.emit(eb, &Instr{Op: OpCopy, Dst: ph.Dst, Args: []*V{tmp[k]}, Orig: ph.Orig, Ctx: ph.Ctx})
			}
			f.emit(eb, &Instr{Op: OpJump})
			p.Succs[sis[i]] = eb
			eb.Preds = []*Block{p}
			eb.Succs = []*Block{b}
			b.Preds[i] = eb
			ebs = append(ebs, eb)
		}
		b.Instrs = b.Instrs[n:]
		edge[b] = ebs
	}
	return edge
}

// toSSA renames multiply-defined registers, inserting phis where needed.
func (f *Fn) toSSA() {
	f.removeUnreachable()
	f.mergeStraight()
	f.skipEmpty()
	rpo := f.computeDom()
	defs := map[*V][]*Block{}
	ndef := map[*V]int{}
	for _, b := range rpo {
		for _, in := range b.Instrs {
			if in.Dst != nil && in.Dst.Kind == VReg {
				ndef[in.Dst]++
				l := defs[in.Dst]
				if len(l) == 0 || l[len(l)-1] != b {
					defs[in.Dst] = append(l, b)
				}
			}
		}
	}
	// candidates: multiple defs, or used where the definition does not dominate
	multi := map[*V]bool{}
	for v, n := range ndef {
		if n > 1 {
			multi[v] = true
		}
	}
	for _, b := range rpo {
		seen := map[*V]bool{}
		for _, in := range b.Instrs {
			for _, a := range in.Args {
				if a.Kind != VReg || multi[a] {
					continue
				}
				d := defs[a]
				if len(d) == 0 {
					multi[a] = true
					continue
				}
				if d[0] == b {
					if !seen[a] {
						multi[a] = true
					}
				} else if !d[0].dominates(b) {
					multi[a] = true
				}
			}
			if in.Dst != nil {
				seen[in.Dst] = true
			}
		}
	}
	if len(multi) > 0 {
		f.renameMulti(rpo, multi, defs)
	}
	f.setDefs()
}

func (f *Fn) setDefs() {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			in.Blk = b
			if in.Dst != nil {
				in.Dst.Def = in
			}
		}
	}
}

func (f *Fn) renameMulti(rpo []*Block, multi map[*V]bool, defs map[*V][]*Block) {
	// number the candidates
	idx := map[*V]int{}
	var vs []*V
	for _, b := range rpo {
		for _, in := range b.Instrs {
			for _, a := range in.Args {
				if multi[a] {
					if _, ok := idx[a]; !ok {
						idx[a] = len(vs)
						vs = append(vs, a)
					}
				}
			}
			if in.Dst != nil && multi[in.Dst] {
				if _, ok := idx[in.Dst]; !ok {
					idx[in.Dst] = len(vs)
					vs = append(vs, in.Dst)
				}
			}
		}
	}
	nw := (len(vs) + 63) / 64
	// dominance frontiers
	df := map[*Block][]*Block{}
	for _, b := range rpo {
		if len(b.Preds) < 2 {
			continue
		}
		for _, p := range b.Preds {
			for r := p; r != nil && r != b.idom; r = r.idom {
				l := df[r]
				if len(l) == 0 || l[len(l)-1] != b {
					df[r] = append(l, b)
				}
			}
		}
	}
	// liveness
	use := map[*Block][]uint64{}
	def := map[*Block][]uint64{}
	livein := map[*Block][]uint64{}
	for _, b := range rpo {
		u, d := make([]uint64, nw), make([]uint64, nw)
		for _, in := range b.Instrs {
			for _, a := range in.Args {
				if multi[a] {
					i := idx[a]
					if d[i/64]&(1<<(i%64)) == 0 {
						u[i/64] |= 1 << (i % 64)
					}
				}
			}
			if in.Dst != nil && multi[in.Dst] {
				i := idx[in.Dst]
				d[i/64] |= 1 << (i % 64)
			}
		}
		use[b], def[b] = u, d
		livein[b] = append([]uint64{}, u...)
	}
	for ch := true; ch; {
		ch = false
		for k := len(rpo) - 1; k >= 0; k-- {
			b := rpo[k]
			li := livein[b]
			d := def[b]
			for _, s := range b.Succs {
				ls := livein[s]
				for i := range li {
					n := li[i] | (ls[i] &^ d[i])
					if n != li[i] {
						li[i] = n
						ch = true
					}
				}
			}
		}
	}
	phiOf := map[*Block]map[int]*Instr{}
	for i, v := range vs {
		work := append([]*Block{}, defs[v]...)
		inwork := map[*Block]bool{}
		for _, b := range work {
			inwork[b] = true
		}
		for len(work) > 0 {
			b := work[len(work)-1]
			work = work[:len(work)-1]
			for _, d := range df[b] {
				if phiOf[d][i] != nil || livein[d][i/64]&(1<<(i%64)) == 0 {
					continue
				}
				ph := &Instr{Op: OpPhi, Dst: v, Args: make([]*V, len(d.Preds)), Blk: d, Ctx: d.Ctx, Typ: v.Typ}
				if v.Def != nil {
					ph.Orig = v.Def.Orig
				}
				if phiOf[d] == nil {
					phiOf[d] = map[int]*Instr{}
				}
				phiOf[d][i] = ph
				if !inwork[d] {
					inwork[d] = true
					work = append(work, d)
				}
			}
		}
	}
	for b, m := range phiOf {
		var ks []int
		for k := range m {
			ks = append(ks, k)
		}
		sort.Ints(ks)
		var ph []*Instr
		for _, k := range ks {
			ph = append(ph, m[k])
		}
		b.Instrs = append(ph, b.Instrs...)
	}
	// rename
	cur := make([]*V, len(vs))
	undef := map[int]*V{}
	get := func(i int) *V {
		if cur[i] != nil {
			return cur[i]
		}
		if undef[i] == nil {
			u := f.newV(VUndef, vs[i].Typ)
			undef[i] = u
		}
		return undef[i]
	}
	type saved struct {
		i int
		v *V
	}
	var walk func(b *Block)
	walk = func(b *Block) {
		var st []saved
		isPhiNew := phiOf[b]
		for _, in := range b.Instrs {
			if !(in.Op == OpPhi && in.Dst != nil && multi[in.Dst] && isNewPhi(isPhiNew, in)) {
				if in.Op != OpPhi {
					for k, a := range in.Args {
						if multi[a] {
							in.Args[k] = get(idx[a])
						}
					}
				}
			}
			if in.Dst != nil && multi[in.Dst] {
				i := idx[in.Dst]
				nv := f.newV(VReg, in.Dst.Typ)
				nv.Name = in.Dst.Name
				nv.Orig = in.Dst.Orig
				st = append(st, saved{i, cur[i]})
				cur[i] = nv
				in.Dst = nv
			}
		}
		for si, s := range b.Succs {
			pi := predIndex(b, si)
			for i, ph := range phiOf[s] {
				ph.Args[pi] = get(i)
			}
		}
		for _, k := range b.domKids {
			walk(k)
		}
		for k := len(st) - 1; k >= 0; k-- {
			cur[st[k].i] = st[k].v
		}
	}
	walk(rpo[0])
}

func isNewPhi(m map[int]*Instr, in *Instr) bool {
	for _, p := range m {
		if p == in {
			return true
		}
	}
	return false
}
