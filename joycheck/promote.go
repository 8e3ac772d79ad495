package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A cell is a promoted memory location: a root pointer value plus a path of
// struct-field (>=0) or constant array-index (<0, ^index) steps.
type cell struct {
	root  *V
	path  []int
	typ   types.Type
	last  string // "(struct type).field" of the last step, "" for the root itself
	local bool   // belongs to a local variable whose address never escapes
	reg   *V
}

func (c *cell) key() string { return fmt.Sprintf("%d%v", c.root.ID, c.path) }

func (c *cell) String() string {
	s := c.root.String()
	if c.root.Name != "" {
		s += "(" + c.root.Name + ")"
	}
	for _, p := range c.path {
		if p >= 0 {
			s += fmt.Sprintf(".%d", p)
		} else {
			s += fmt.Sprintf("[%d]", ^p)
		}
	}
	return s
}

type addrPath struct {
	root *V
	path []int
	ok   bool
}

type promoter struct {
	f      *Fn
	def    map[*V]*Instr // single definitions only
	cells  map[string]*cell
	order  []*cell
	byRoot map[*V][]*cell
	esc    map[*V][][]int // escaping prefixes of allocs
	rootOK func(v *V) bool
}

func structOf(t types.Type) *types.Struct {
	s, _ := t.Underlying().(*types.Struct)
	return s
}

func stepType(t types.Type, step int) types.Type {
	if step >= 0 {
		if s := structOf(t); s != nil && step < s.NumFields() {
			return s.Field(step).Type()
		}
		return nil
	}
	if a, ok := t.Underlying().(*types.Array); ok {
		return a.Elem()
	}
	return nil
}

func pointee(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return nil
}

func (p *promoter) addr(v *V, depth int) addrPath {
	if depth > 40 {
		return addrPath{}
	}
	switch v.Kind {
	case VParam, VFreeVar, VGlobal:
		return addrPath{v, nil, true}
	case VReg:
	default:
		return addrPath{}
	}
	d := p.def[v]
	if d == nil {
		return addrPath{}
	}
	switch d.Op {
	case OpCopy:
		return p.addr(d.Args[0], depth+1)
	case OpChangeType:
		return p.addr(d.Args[0], depth+1)
	case OpFieldAddr:
		b := p.addr(d.Args[0], depth+1)
		if !b.ok {
			return b
		}
		return addrPath{b.root, append(append([]int{}, b.path...), d.Idx), true}
	case OpIndexAddr:
		if t := pointee(d.Args[0].Typ); t != nil {
			if _, ok := t.Underlying().(*types.Array); ok {
				if k, ok := constInt(d.Args[1]); ok {
					b := p.addr(d.Args[0], depth+1)
					if !b.ok {
						return b
					}
					return addrPath{b.root, append(append([]int{}, b.path...), ^int(k)), true}
				}
			}
		}
		return addrPath{v, nil, true}
	}
	return addrPath{v, nil, true}
}

func zeroConst(f *Fn, t types.Type) *V {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return f.konst(constant.MakeBool(false), t)
		case u.Info()&types.IsString != 0:
			return f.konst(constant.MakeString(""), t)
		case u.Info()&types.IsNumeric != 0:
			return f.konst(constant.MakeInt64(0), t)
		}
	}
	return f.konst(nil, t)
}

func stepName(t types.Type, step int) string {
	if step < 0 {
		return "[]"
	}
	s := structOf(t)
	if s == nil {
		return "?"
	}
	return types.TypeString(t, nil) + "." + s.Field(step).Name()
}

func (p *promoter) getCell(root *V, path []int) *cell {
	k := fmt.Sprintf("%d%v", root.ID, path)
	if c := p.cells[k]; c != nil {
		return c
	}
	t := pointee(root.Typ)
	last := ""
	for _, s := range path {
		if t == nil {
			return nil
		}
		last = stepName(t, s)
		t = stepType(t, s)
	}
	if t == nil {
		return nil
	}
	c := &cell{root: root, path: path, typ: t, last: last}
	c.reg = p.f.newV(VReg, t)
	c.reg.Name = "cell"
	p.cells[k] = c
	p.order = append(p.order, c)
	p.byRoot[root] = append(p.byRoot[root], c)
	return c
}

// leaves enumerates the leaf paths below a type.
func leaves(t types.Type, pre []int, out *[][]int) bool {
	if s := structOf(t); s != nil {
		if s.NumFields() == 0 {
			return true
		}
		for i := 0; i < s.NumFields(); i++ {
			if !leaves(s.Field(i).Type(), append(append([]int{}, pre...), i), out) {
				return false
			}
		}
		return len(*out) < 60
	}
	*out = append(*out, pre)
	return len(*out) < 60
}

func hasPrefix(path, pre []int) bool {
	if len(pre) > len(path) {
		return false
	}
	for i := range pre {
		if path[i] != pre[i] {
			return false
		}
	}
	return true
}

// promote replaces loads and stores of resolvable locations by register copies.
func (f *Fn) promote(rootOK func(v *V, def *Instr) bool) int {
	p := &promoter{f: f, def: map[*V]*Instr{}, cells: map[string]*cell{}, byRoot: map[*V][]*cell{}, esc: map[*V][][]int{}}
	cnt := map[*V]int{}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if in.Dst != nil {
				cnt[in.Dst]++
				p.def[in.Dst] = in
			}
		}
	}
	for v, n := range cnt {
		if n > 1 {
			delete(p.def, v)
		}
	}
	// which closures are only used as call targets that were expanded?
	closUse := map[*V]bool{}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch in.Op {
			case OpEnter, OpExit, OpDefer:
				continue
			case OpCopy, OpChangeType:
				continue
			}
			for _, a := range in.Args {
				if d := p.origin(a); d != nil && d.Op == OpClosure {
					closUse[d.Dst] = true
				}
			}
		}
	}
	// escapes
	markEsc := func(a *V) {
		ap := p.addr(a, 0)
		if ap.ok && ap.root.Kind == VReg {
			if d := p.def[ap.root]; d != nil && d.Op == OpAlloc {
				p.esc[ap.root] = append(p.esc[ap.root], ap.path)
			}
		}
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch in.Op {
			case OpEnter, OpExit, OpDefer:
				continue
			case OpLoad:
				continue
			case OpFieldAddr:
				continue
			case OpIndexAddr:
				if pointee(in.Args[0].Typ) != nil {
					if _, ok := constInt(in.Args[1]); !ok {
						markEsc(in.Args[0])
					}
				}
				continue
			case OpStore:
				markEsc(in.Args[1])
				continue
			case OpCopy, OpChangeType:
				if p.def[in.Dst] == nil {
					markEsc(in.Args[0])
				}
				continue
			case OpClosure:
				if !closUse[in.Dst] {
					continue
				}
			}
			for _, a := range in.Args {
				markEsc(a)
			}
		}
	}
	// A pointer loaded from a location promoted in this round only becomes a
	// root in the next one, when its copies have been merged.
	const no, yes, pending = 0, 1, 2
	var state func(ap addrPath, depth int) int
	state = func(ap addrPath, depth int) int {
		if !ap.ok || depth > 24 {
			return no
		}
		d := p.def[ap.root]
		if ap.root.Kind == VReg && d != nil && d.Op == OpLoad {
			if state(p.addr(d.Args[0], 0), depth+1) != no {
				return pending
			}
		}
		if !rootOK(ap.root, d) {
			return no
		}
		return yes
	}
	ok := func(ap addrPath) bool { return state(ap, 0) == yes }
	// find cells with at least one load (stores alone need no cell)
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if in.Op != OpLoad {
				continue
			}
			ap := p.addr(in.Args[0], 0)
			if !ok(ap) {
				continue
			}
			if structOf(in.Dst.Typ) != nil {
				var ls [][]int
				if !leaves(in.Dst.Typ, nil, &ls) {
					continue
				}
				for _, l := range ls {
					p.getCell(ap.root, append(append([]int{}, ap.path...), l...))
				}
				continue
			}
			p.getCell(ap.root, ap.path)
		}
	}
	// local allocs: also give every stored leaf a cell so dead stores vanish
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if in.Op != OpStore {
				continue
			}
			ap := p.addr(in.Args[0], 0)
			if !ok(ap) {
				continue
			}
			if structOf(in.Args[1].Typ) == nil && p.isAlloc(ap.root) && len(p.esc[ap.root]) == 0 {
				p.getCell(ap.root, ap.path)
			}
		}
	}
	for _, c := range p.order {
		d := p.def[c.root]
		if c.root.Kind == VReg && d != nil && d.Op == OpAlloc {
			c.local = true
			for _, e := range p.esc[c.root] {
				if hasPrefix(c.path, e) || hasPrefix(e, c.path) {
					c.local = false
				}
			}
		}
	}
	// the final values of pointed-to integer parameters
	if f.RetCells == nil {
		f.RetCells = []*cell{}
		for _, pr := range f.Params {
			if t := pointee(pr.Typ); t != nil && isIntType(t) {
				if c := p.getCell(pr, nil); c != nil {
					f.RetCells = append(f.RetCells, c)
				}
			}
		}
		for _, b := range f.Blocks {
			if t := b.term(); t != nil && t.Op == OpReturn {
				for _, c := range f.RetCells {
					t.Args = append(t.Args, c.reg)
				}
			}
		}
	}
	// rewrite
	for _, b := range f.Blocks {
		var out []*Instr
		if b == f.Blocks[0] {
			for _, c := range p.order {
				if c.root.Kind == VParam || c.root.Kind == VFreeVar || c.root.Kind == VGlobal {
					out = append(out, &Instr{Op: OpCell, Dst: c.reg, Args: []*V{c.root}, Cell: c, Blk: b, Ctx: b.Ctx, Typ: c.typ})
				}
			}
		}
		for _, in := range b.Instrs {
			switch in.Op {
			case OpLoad:
				ap := p.addr(in.Args[0], 0)
				nw := in
				if ok(ap) {
					if structOf(in.Dst.Typ) != nil {
						if st := p.buildStruct(ap.root, ap.path, in.Dst.Typ, in, b, &out); st != nil {
							nw = &Instr{Op: OpCopy, Dst: in.Dst, Args: []*V{st}, Orig: in.Orig, Blk: b, Ctx: in.Ctx}
						}
					} else if c := p.cells[fmt.Sprintf("%d%v", ap.root.ID, ap.path)]; c != nil {
						nw = &Instr{Op: OpCopy, Dst: in.Dst, Args: []*V{c.reg}, Orig: in.Orig, Blk: b, Ctx: in.Ctx}
					}
				}
				out = append(out, nw)
				// the loaded pointer may itself be the root of cells
				if p.def[in.Dst] != nil {
					for _, c := range p.byRoot[in.Dst] {
						out = append(out, &Instr{Op: OpCell, Dst: c.reg, Args: []*V{c.root}, Cell: c, Orig: in.Orig, Blk: b, Ctx: in.Ctx, Typ: c.typ})
					}
				}
				continue
			case OpStore:
				ap := p.addr(in.Args[0], 0)
				t := in.Args[1].Typ
				allLocal := false
				if ok(ap) {
					allLocal = true
					type asg struct {
						c *cell
						v *V
					}
					var as []asg
					if structOf(t) != nil {
						for _, c := range p.byRoot[ap.root] {
							if !hasPrefix(c.path, ap.path) {
								continue
							}
							v := p.fieldVal(in.Args[1], t, c.path[len(ap.path):], in, b, &out)
							as = append(as, asg{c, v})
							if !c.local {
								allLocal = false
							}
						}
						// no cells at all: keep the store unless the root is local
						if d := p.def[ap.root]; d == nil || d.Op != OpAlloc || len(p.esc[ap.root]) > 0 {
							allLocal = false
						}
					} else {
						c := p.cells[fmt.Sprintf("%d%v", ap.root.ID, ap.path)]
						if c != nil {
							as = append(as, asg{c, in.Args[1]})
							allLocal = c.local
						} else {
							allLocal = false
						}
						// storing into a part of an aggregate held as one cell (array)
						for _, o := range p.byRoot[ap.root] {
							if o != c && (hasPrefix(ap.path, o.path) || hasPrefix(o.path, ap.path)) {
								as = append(as, asg{o, nil})
							}
						}
					}
					if !allLocal {
						out = append(out, in)
						p.clobberStore(ap, t, b, in, &out)
					}
					for _, a := range as {
						if a.v == nil {
							out = append(out, &Instr{Op: OpHavoc, Dst: a.c.reg, Cell: a.c, Orig: in.Orig, Blk: b, Ctx: in.Ctx, Typ: a.c.typ})
						} else {
							out = append(out, &Instr{Op: OpCopy, Dst: a.c.reg, Args: []*V{a.v}, Orig: in.Orig, Blk: b, Ctx: in.Ctx})
						}
					}
					continue
				}
				out = append(out, in)
				p.clobberStore(ap, t, b, in, &out)
				continue
			case OpAlloc:
				out = append(out, in)
				for _, c := range p.byRoot[in.Dst] {
					out = append(out, &Instr{Op: OpCopy, Dst: c.reg, Args: []*V{zeroConst(f, c.typ)}, Orig: in.Orig, Blk: b, Ctx: in.Ctx})
				}
				continue
			}
			out = append(out, in)
			if in.Dst != nil && p.def[in.Dst] != nil {
				for _, c := range p.byRoot[in.Dst] {
					out = append(out, &Instr{Op: OpCell, Dst: c.reg, Args: []*V{c.root}, Cell: c, Orig: in.Orig, Blk: b, Ctx: in.Ctx, Typ: c.typ})
				}
			}
			p.clobberInstr(in, b, &out)
		}
		b.Instrs = out
	}
	// a terminator must stay last
	for _, b := range f.Blocks {
		n := len(b.Instrs)
		for i, in := range b.Instrs {
			switch in.Op {
			case OpIf, OpJump, OpReturn, OpPanic:
				if i != n-1 {
					t := b.Instrs[i]
					copy(b.Instrs[i:], b.Instrs[i+1:])
					b.Instrs[n-1] = t
				}
			}
		}
	}
	return len(p.order)
}

func (p *promoter) origin(v *V) *Instr {
	for i := 0; i < 20; i++ {
		d := p.def[v]
		if d == nil {
			return nil
		}
		if d.Op == OpCopy || d.Op == OpChangeType {
			v = d.Args[0]
			continue
		}
		return d
	}
	return nil
}

func (p *promoter) buildStruct(root *V, path []int, t types.Type, in *Instr, b *Block, out *[]*Instr) *V {
	s := structOf(t)
	if s == nil {
		c := p.cells[fmt.Sprintf("%d%v", root.ID, path)]
		if c == nil {
			return nil
		}
		// copy, because the cell register changes later
		v := p.f.newV(VReg, c.typ)
		*out = append(*out, &Instr{Op: OpCopy, Dst: v, Args: []*V{c.reg}, Orig: in.Orig, Blk: b, Ctx: in.Ctx})
		return v
	}
	var args []*V
	for i := 0; i < s.NumFields(); i++ {
		v := p.buildStruct(root, append(append([]int{}, path...), i), s.Field(i).Type(), in, b, out)
		if v == nil {
			return nil
		}
		args = append(args, v)
	}
	v := p.f.newV(VReg, t)
	*out = append(*out, &Instr{Op: OpStruct, Dst: v, Args: args, Typ: t, Orig: in.Orig, Blk: b, Ctx: in.Ctx})
	return v
}

func (p *promoter) fieldVal(v *V, t types.Type, path []int, in *Instr, b *Block, out *[]*Instr) *V {
	for _, s := range path {
		if s < 0 {
			return nil
		}
		ft := stepType(t, s)
		if v.Kind == VConst {
			v = zeroConst(p.f, ft)
		} else {
			n := p.f.newV(VReg, ft)
			*out = append(*out, &Instr{Op: OpField, Dst: n, Args: []*V{v}, Idx: s, Orig: in.Orig, Blk: b, Ctx: in.Ctx, Typ: ft})
			v = n
		}
		t = ft
	}
	return v
}

func (p *promoter) isIndexRoot(v *V) bool {
	d := p.def[v]
	return d != nil && d.Op == OpIndexAddr
}

func (p *promoter) isAlloc(v *V) bool {
	d := p.def[v]
	return d != nil && d.Op == OpAlloc
}

func (p *promoter) havoc(c *cell, in *Instr, b *Block, out *[]*Instr) {
	h := &Instr{Op: OpHavoc, Dst: c.reg, Args: []*V{c.reg}, Cell: c, Orig: in.Orig, Blk: b, Ctx: in.Ctx, Typ: c.typ, ClobArg: -1}
	if in.Op == OpCall {
		h.ClobBy = in
		for i, a := range in.Args {
			if a.Typ == nil || pointee(a.Typ) == nil {
				continue
			}
			ap := p.addr(a, 0)
			if ap.ok && ap.root == c.root && len(ap.path) == len(c.path) && hasPrefix(c.path, ap.path) {
				h.ClobArg = i
			}
		}
	}
	*out = append(*out, h)
}

func (p *promoter) clobberStore(ap addrPath, t types.Type, b *Block, in *Instr, out *[]*Instr) {
	// last steps written
	lasts := map[string]bool{}
	last := ""
	if ap.ok {
		rt := pointee(ap.root.Typ)
		for _, s := range ap.path {
			if rt == nil {
				break
			}
			last = stepName(rt, s)
			rt = stepType(rt, s)
		}
	}
	var collect func(t types.Type)
	collect = func(t types.Type) {
		if s := structOf(t); s != nil {
			for i := 0; i < s.NumFields(); i++ {
				lasts[stepName(t, i)] = true
				collect(s.Field(i).Type())
			}
		}
	}
	if structOf(t) != nil {
		collect(t)
	} else if last != "" {
		lasts[last] = true
	}
	idxRoot := ap.ok && len(ap.path) == 0 && p.isIndexRoot(ap.root)
	for _, c := range p.order {
		if c.local {
			continue
		}
		if ap.ok && c.root == ap.root {
			continue // handled exactly by the caller
		}
		if ap.ok && ap.root != c.root && p.noAlias(ap.root, c.root) {
			continue
		}
		hit := false
		switch {
		case !ap.ok:
			hit = types.Identical(c.typ, t) || lasts[c.last]
		case structOf(t) != nil:
			hit = c.last != "" && lasts[c.last]
			if len(c.path) == 0 && !p.isIndexRoot(c.root) {
				hit = true
			}
		case len(ap.path) > 0:
			hit = c.last == last
			if len(c.path) == 0 && !p.isIndexRoot(c.root) && types.Identical(c.typ, t) && last != "[]" {
				hit = true
			}
		case idxRoot:
			hit = types.Identical(c.typ, t) && (len(c.path) == 0 || c.last == "[]")
		default:
			// store through a plain pointer
			hit = types.Identical(c.typ, t)
		}
		if hit {
			p.havoc(c, in, b, out)
		}
	}
}

func (p *promoter) clobberInstr(in *Instr, b *Block, out *[]*Instr) {
	all := false
	switch in.Op {
	case OpSend, OpRecv, OpSelect:
		all = true
	case OpGo:
		all = true
	case OpMapUpdate:
		return
	case OpCall:
		if in.Builtin != "" {
			if in.Builtin == "copy" || in.Builtin == "append" || in.Builtin == "clear" {
				p.clobberSlices(in, b, out)
			}
			return
		}
		all = !p.stdLike(in)
		if all && p.f.Opt.Quiet && in.Callee == nil && in.Method == nil {
			all = false // a caller's function value: see DESIGN.md
		}
		if all && in.Callee != nil && inModule(fnPkgPath(in.Callee)) && in.Callee.Blocks != nil {
			if e := p.f.P.effect(in.Callee); !e.all {
				p.clobberEffect(e, in, b, out)
				return
			}
		}
	default:
		return
	}
	for _, c := range p.order {
		if c.local {
			continue
		}
		if all {
			p.havoc(c, in, b, out)
			continue
		}
		hit := false
		for _, a := range in.Args {
			if o := p.origin(a); o != nil && o.Op == OpMakeIface {
				a = o.Args[0]
			}
			ap := p.addr(a, 0)
			if ap.ok && ap.root == c.root && hasPrefix(c.path, ap.path) && pointee(a.Typ) != nil {
				hit = true
			}
		}
		if hit {
			p.havoc(c, in, b, out)
		}
	}
	if !all {
		p.clobberSlices(in, b, out)
	}
}

func (p *promoter) clobberEffect(e *Effect, in *Instr, b *Block, out *[]*Instr) {
	for _, c := range p.order {
		if c.local {
			continue
		}
		hit := c.last != "" && e.lasts[c.last]
		if !hit {
			for _, t := range e.typs {
				if types.Identical(t, c.typ) && (c.last == "" || c.last == "[]") {
					hit = true
				}
				if structOf(t) != nil && len(c.path) > 0 {
					// a whole struct containing this field was overwritten
					rt := pointee(c.root.Typ)
					for _, s := range c.path {
						if rt == nil {
							break
						}
						if types.Identical(rt, t) {
							hit = true
						}
						rt = stepType(rt, s)
					}
				}
			}
		}
		for i := range e.params {
			if hit || i >= len(in.Args) {
				break
			}
			ap := p.addr(in.Args[i], 0)
			if !ap.ok {
				hit = hit || types.Identical(c.typ, pointee(in.Args[i].Typ))
			} else if ap.root == c.root {
				hit = hit || hasPrefix(c.path, ap.path) || hasPrefix(ap.path, c.path)
			} else if !p.noAlias(ap.root, c.root) {
				if len(ap.path) == 0 && len(c.path) == 0 {
					hit = types.Identical(c.typ, pointee(in.Args[i].Typ))
				} else if len(ap.path) > 0 {
					// a field cell aliases only the same field
					rt := pointee(ap.root.Typ)
					last := ""
					for _, s := range ap.path {
						if rt == nil {
							break
						}
						last = stepName(rt, s)
						rt = stepType(rt, s)
					}
					hit = c.last == last || c.last == "" && types.Identical(c.typ, pointee(in.Args[i].Typ))
				} else {
					hit = types.Identical(c.typ, pointee(in.Args[i].Typ))
				}
			}
		}
		if hit {
			p.havoc(c, in, b, out)
		}
	}
}

// noAlias: a pointer to a fresh object never equals one that existed at entry
// or another fresh object.
func (p *promoter) noAlias(a, b *V) bool {
	old := func(v *V) bool { return v.Kind == VParam || v.Kind == VFreeVar || v.Kind == VGlobal }
	if p.isAlloc(a) && (old(b) || p.isAlloc(b)) {
		return true
	}
	return p.isAlloc(b) && old(a) || a.Kind == VGlobal && b.Kind == VGlobal
}

func (p *promoter) clobberSlices(in *Instr, b *Block, out *[]*Instr) {
	for _, a := range in.Args {
		sl, ok := a.Typ.(interface{})
		_ = sl
		_ = ok
		if a.Typ == nil {
			continue
		}
		s, isS := a.Typ.Underlying().(*types.Slice)
		if !isS {
			continue
		}
		for _, c := range p.order {
			if c.local {
				continue
			}
			if (len(c.path) == 0 && p.isIndexRoot(c.root) || c.last == "[]") && types.Identical(c.typ, s.Elem()) {
				p.havoc(c, in, b, out)
			} else if p.isIndexRoot(c.root) && pointee(c.root.Typ) != nil && types.Identical(pointee(c.root.Typ), s.Elem()) {
				p.havoc(c, in, b, out)
			}
		}
	}
}

// stdLike reports whether a call cannot write module-owned structures except
// through its pointer arguments.
func (p *promoter) stdLike(in *Instr) bool {
	pkg := ""
	if in.Callee != nil {
		pkg = fnPkgPath(in.Callee)
		if inModule(pkg) {
			return pureFns[fnName(in.Callee)]
		}
	} else if in.Method != nil {
		if in.Method.Pkg() == nil {
			return true // error.Error
		}
		pkg = in.Method.Pkg().Path()
		if inModule(pkg) {
			return false
		}
	} else {
		return false
	}
	if pkg == "sync" || strings.HasPrefix(pkg, "sync/") {
		return false
	}
	for _, a := range in.Args {
		if a.Typ == nil {
			continue
		}
		if _, ok := a.Typ.Underlying().(*types.Signature); ok {
			return false
		}
	}
	return true
}

var pureFns = map[string]bool{}

var _ = ssa.NaiveForm
