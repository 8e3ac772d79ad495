package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type frame struct {
	ctx  *Ctx
	fn   *ssa.Function
	regs map[ssa.Value]*V
	head map[*ssa.BasicBlock]*Block
	end  map[*ssa.BasicBlock]*Block
	defs []*deferRec
	ret  *Block
	res  []*V
}

type deferRec struct {
	in   *ssa.Defer
	args []*V // receiver/closure value first when not static
}

type expander struct {
	f     *Fn
	def   map[*V]*Instr
	tuple map[*V][]*V
	src   map[*V]*srcRef
	count int
}

type srcRef struct {
	fr *frame
	v  ssa.Value
}

func newFn(p *Prog, root *ssa.Function, opt *InlineOpt) *Fn {
	f := &Fn{P: p, Root: root, consts: map[string]*V{}, globs: map[interface{}]*V{}, Opt: opt, Opaque: map[string]int{}, funcs: map[*ssa.Function]bool{}, cells: map[string]*cell{}}
	return f
}

// buildRaw expands root without any further transformation.
func buildRaw(p *Prog, root *ssa.Function, opt *InlineOpt) *Fn {
	if opt == nil {
		opt = &InlineOpt{}
	}
	if opt.MaxDepth == 0 {
		opt.MaxDepth = 14
	}
	if opt.Budget == 0 {
		opt.Budget = 60000
	}
	f := newFn(p, root, opt)
	x := &expander{f: f, def: map[*V]*Instr{}, tuple: map[*V][]*V{}, src: map[*V]*srcRef{}}
	f.Ctx = &Ctx{Fn: root}
	var args, free []*V
	for _, pr := range root.Params {
		v := f.newV(VParam, pr.Type())
		v.Name = pr.Name()
		v.Obj = pr
		args = append(args, v)
	}
	for _, fv := range root.FreeVars {
		v := f.newV(VFreeVar, fv.Type())
		v.Name = fv.Name()
		v.Obj = fv
		free = append(free, v)
	}
	f.Params, f.Free = args, free
	start := f.newBlock(f.Ctx)
	ret, res := x.body(f.Ctx, root, args, free, start)
	f.NRes = len(res)
	f.emit(ret, &Instr{Op: OpReturn, Args: res})
	return f
}

func (x *expander) val(fr *frame, v ssa.Value) *V {
	switch v := v.(type) {
	case *ssa.Const:
		return x.f.konst(v.Value, v.Type())
	case *ssa.Global:
		if g := x.f.globs[v]; g != nil {
			return g
		}
		g := x.f.newV(VGlobal, v.Type())
		g.Obj = v
		x.f.globs[v] = g
		return g
	case *ssa.Function:
		if g := x.f.globs[v]; g != nil {
			return g
		}
		g := x.f.newV(VFunc, v.Type())
		g.Obj = v
		x.f.globs[v] = g
		return g
	case *ssa.Builtin:
		g := x.f.newV(VBuiltin, nil)
		g.Obj = v
		return g
	}
	if r := fr.regs[v]; r != nil {
		return r
	}
	r := x.f.newV(VReg, v.Type())
	r.Orig = v
	r.Name = v.Name()
	fr.regs[v] = r
	x.src[r] = &srcRef{fr, v}
	return r
}

func (x *expander) put(b *Block, in *Instr) *Instr {
	x.f.emit(b, in)
	x.count++
	if in.Dst != nil && in.Dst.Kind == VReg {
		x.def[in.Dst] = in
	}
	return in
}

func (x *expander) body(ctx *Ctx, fn *ssa.Function, args, free []*V, start *Block) (*Block, []*V) {
	f := x.f
	f.funcs[fn] = true
	f.NInl++
	fr := &frame{ctx: ctx, fn: fn, regs: map[ssa.Value]*V{}, head: map[*ssa.BasicBlock]*Block{}, end: map[*ssa.BasicBlock]*Block{}}
	for i, p := range fn.Params {
		fr.regs[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		if i < len(free) {
			fr.regs[p] = free[i]
		}
	}
	rs := fn.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		r := f.newV(VReg, rs.At(i).Type())
		r.Name = "res"
		fr.res = append(fr.res, r)
	}
	fr.ret = f.newBlock(ctx)
	order := fn.DomPreorder()
	for _, b := range order {
		fr.head[b] = f.newBlock(ctx)
	}
	f.emit(start, &Instr{Op: OpJump, Ctx: ctx})
	link(start, fr.head[fn.Blocks[0]])
	for _, b := range order {
		cur := fr.head[b]
		for _, in := range b.Instrs {
			cur = x.instr(fr, b, in, cur)
			if cur == nil {
				break
			}
		}
		fr.end[b] = cur
	}
	// edges
	for _, b := range order {
		e := fr.end[b]
		if e == nil {
			continue
		}
		used := map[*ssa.BasicBlock]int{}
		for _, s := range b.Succs {
			// which incoming edge of s is this?
			k := used[s]
			used[s]++
			idx := -1
			for i, pr := range s.Preds {
				if pr == b {
					if k == 0 {
						idx = i
						break
					}
					k--
				}
			}
			tgt := fr.head[s]
			if _, ok := s.Instrs[0].(*ssa.Phi); !ok {
				link(e, tgt)
				continue
			}
			eb := f.newBlock(ctx)
			link(e, eb)
			var tmps, dsts []*V
			for _, in := range s.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				t := f.newV(VReg, ph.Type())
				x.put(eb, &Instr{Op: OpCopy, Dst: t, Args: []*V{x.val(fr, ph.Edges[idx])}, Orig: ph})
				tmps = append(tmps, t)
				dsts = append(dsts, x.val(fr, ph))
			}
			for i := range tmps {
				f.emit(eb, &Instr{Op: OpCopy, Dst: dsts[i], Args: []*V{tmps[i]}})
			}
			f.emit(eb, &Instr{Op: OpJump})
			link(eb, tgt)
		}
	}
	return fr.ret, fr.res
}

func (x *expander) instr(fr *frame, sb *ssa.BasicBlock, in ssa.Instruction, cur *Block) *Block {
	f := x.f
	val := func(v ssa.Value) *V { return x.val(fr, v) }
	dst := func() *V { return x.val(fr, in.(ssa.Value)) }
	mk := func(op Op, args ...*V) *Instr {
		i := &Instr{Op: op, Args: args, Orig: in}
		if v, ok := in.(ssa.Value); ok {
			i.Dst = x.val(fr, v)
			i.Typ = v.Type()
		}
		return x.put(cur, i)
	}
	switch i := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Phi:
		_ = dst()
	case *ssa.Alloc:
		mk(OpAlloc).Typ = i.Type().(*types.Pointer).Elem()
	case *ssa.BinOp:
		mk(OpBin, val(i.X), val(i.Y)).Tok = i.Op
	case *ssa.UnOp:
		switch i.Op {
		case token.MUL:
			mk(OpLoad, val(i.X))
		case token.ARROW:
			mk(OpRecv, val(i.X)).CommaOk = i.CommaOk
		default:
			mk(OpUn, val(i.X)).Tok = i.Op
		}
	case *ssa.ChangeInterface:
		mk(OpChangeType, val(i.X))
	case *ssa.ChangeType:
		mk(OpChangeType, val(i.X))
	case *ssa.Convert:
		mk(OpConvert, val(i.X))
	case *ssa.MultiConvert:
		mk(OpConvert, val(i.X))
	case *ssa.SliceToArrayPointer:
		mk(OpConvert, val(i.X))
	case *ssa.Extract:
		t := val(i.Tuple)
		if rs := x.tuple[t]; rs != nil {
			x.put(cur, &Instr{Op: OpCopy, Dst: dst(), Args: []*V{rs[i.Index]}, Orig: in})
		} else {
			mk(OpExtract, t).Idx = i.Index
		}
	case *ssa.Field:
		mk(OpField, val(i.X)).Idx = i.Field
	case *ssa.FieldAddr:
		mk(OpFieldAddr, val(i.X)).Idx = i.Field
	case *ssa.Index:
		mk(OpIndex, val(i.X), val(i.Index))
	case *ssa.IndexAddr:
		mk(OpIndexAddr, val(i.X), val(i.Index))
	case *ssa.Lookup:
		if _, ok := i.X.Type().Underlying().(*types.Map); ok {
			mk(OpLookup, val(i.X), val(i.Index)).CommaOk = i.CommaOk
		} else {
			mk(OpIndex, val(i.X), val(i.Index))
		}
	case *ssa.MakeChan:
		mk(OpMakeChan, val(i.Size))
	case *ssa.MakeMap:
		if i.Reserve != nil {
			mk(OpMakeMap, val(i.Reserve))
		} else {
			mk(OpMakeMap)
		}
	case *ssa.MakeSlice:
		mk(OpMakeSlice, val(i.Len), val(i.Cap))
	case *ssa.MakeInterface:
		mk(OpMakeIface, val(i.X))
	case *ssa.MakeClosure:
		c := mk(OpClosure)
		c.Callee = i.Fn.(*ssa.Function)
		for _, b := range i.Bindings {
			c.Args = append(c.Args, val(b))
		}
	case *ssa.MapUpdate:
		mk(OpMapUpdate, val(i.Map), val(i.Key), val(i.Value))
	case *ssa.Next:
		mk(OpNext, val(i.Iter))
	case *ssa.Range:
		mk(OpRange, val(i.X))
	case *ssa.Select:
		s := mk(OpSelect)
		s.SelState = i.States
		s.Blocking = i.Blocking
		for _, st := range i.States {
			s.Args = append(s.Args, val(st.Chan))
			if st.Send != nil {
				s.Args = append(s.Args, val(st.Send))
			}
		}
	case *ssa.Send:
		x.put(cur, &Instr{Op: OpSend, Args: []*V{val(i.Chan), val(i.X)}, Orig: in})
	case *ssa.Slice:
		args := []*V{val(i.X), nil, nil, nil}
		if i.Low != nil {
			args[1] = val(i.Low)
		}
		if i.High != nil {
			args[2] = val(i.High)
		}
		if i.Max != nil {
			args[3] = val(i.Max)
		}
		for k := range args {
			if args[k] == nil {
				args[k] = f.noV()
			}
		}
		mk(OpSlice, args...)
	case *ssa.Store:
		x.put(cur, &Instr{Op: OpStore, Args: []*V{val(i.Addr), val(i.Val)}, Orig: in})
	case *ssa.TypeAssert:
		t := mk(OpTypeAssert, val(i.X))
		t.Typ = i.AssertedType
		t.CommaOk = i.CommaOk
	case *ssa.Call:
		return x.call(fr, &i.Call, in, dst(), cur, callNormal)
	case *ssa.Go:
		return x.call(fr, &i.Call, in, nil, cur, callGo)
	case *ssa.Defer:
		rec := &deferRec{in: i}
		for _, a := range i.Call.Args {
			rec.args = append(rec.args, val(a))
		}
		fr.defs = append(fr.defs, rec)
		return x.call(fr, &i.Call, in, nil, cur, callDefer)
	case *ssa.RunDefers:
		x.put(cur, &Instr{Op: OpRunDefers, Orig: in})
		for k := len(fr.defs) - 1; k >= 0; k-- {
			d := fr.defs[k]
			if d.in.Block().Dominates(sb) {
				cur = x.call(fr, &d.in.Call, d.in, nil, cur, callDeferred)
			} else {
				cur = x.call(fr, &d.in.Call, d.in, nil, cur, callMaybe)
			}
		}
	case *ssa.Panic:
		x.put(cur, &Instr{Op: OpPanic, Args: []*V{val(i.X)}, Orig: in})
	case *ssa.Jump:
		x.put(cur, &Instr{Op: OpJump, Orig: in})
	case *ssa.If:
		c := val(i.Cond)
		if v, ok := x.funcCond(fr, i.Cond); ok {
			c = f.konst(constant.MakeBool(v), types.Typ[types.Bool])
		}
		x.put(cur, &Instr{Op: OpIf, Args: []*V{c}, Orig: in})
	case *ssa.Return:
		for k, r := range i.Results {
			x.put(cur, &Instr{Op: OpCopy, Dst: fr.res[k], Args: []*V{val(r)}, Orig: in})
			delete(x.def, fr.res[k])
		}
		x.put(cur, &Instr{Op: OpJump, Orig: in})
		link(cur, fr.ret)
	default:
		panic(fmt.Sprintf("unhandled ssa instruction %T", in))
	}
	return cur
}

var theNoV = &V{Kind: VUndef, Name: "none"}

func (f *Fn) noV() *V { return theNoV }

type callMode int

const (
	callNormal callMode = iota
	callGo
	callDefer
	callDeferred
	callMaybe
)

// resolve finds the function a func-typed value denotes, with closure bindings.
func (x *expander) resolve(v *V, depth int) (*ssa.Function, []*V, bool) {
	if depth > 8 {
		return nil, nil, false
	}
	if v.Kind == VFunc {
		return v.Obj.(*ssa.Function), nil, true
	}
	d := x.def[v]
	if sr := x.src[v]; sr != nil {
		if ph, ok := sr.v.(*ssa.Phi); ok {
			if _, fn := ph.Type().Underlying().(*types.Signature); !fn {
				return nil, nil, false
			}
			var live ssa.Value
			n := 0
			for i, e := range ph.Edges {
				if !x.deadEdge(sr.fr, ph.Block(), i) {
					live = e
					n++
				}
			}
			if n == 1 && live != ssa.Value(ph) {
				return x.resolve(x.val(sr.fr, live), depth+1)
			}
			return nil, nil, false
		}
	}
	if d == nil {
		return nil, nil, false
	}
	switch d.Op {
	case OpClosure:
		return d.Callee, d.Args, true
	case OpCopy, OpChangeType:
		return x.resolve(d.Args[0], depth+1)
	case OpLoad:
		a := d.Args[0]
		for {
			ad := x.def[a]
			if ad != nil && ad.Op == OpCopy {
				a = ad.Args[0]
				continue
			}
			break
		}
		sr := x.src[a]
		if sr == nil {
			return nil, nil, false
		}
		al, ok := sr.v.(*ssa.Alloc)
		if !ok {
			return nil, nil, false
		}
		if st := singleStore(al); st != nil {
			return x.resolve(x.val(sr.fr, st.Val), depth+1)
		}
	}
	return nil, nil, false
}

// observer: v is loaded from a Log* field, a callback that only watches.
func observer(v ssa.Value) bool {
	ld, ok := v.(*ssa.UnOp)
	if !ok || ld.Op != token.MUL {
		return false
	}
	fa, ok := ld.X.(*ssa.FieldAddr)
	if !ok {
		return false
	}
	st := structOf(pointee(fa.X.Type()))
	if st == nil {
		return false
	}
	fd := st.Field(fa.Field)
	_, fn := fd.Type().Underlying().(*types.Signature)
	return fn && len(fd.Name()) > 3 && fd.Name()[:3] == "Log"
}

// funcCond decides the comparison of a function value with nil.
func (x *expander) funcCond(fr *frame, c ssa.Value) (bool, bool) {
	b, ok := c.(*ssa.BinOp)
	if !ok || b.Op != token.EQL && b.Op != token.NEQ {
		return false, false
	}
	p, q := b.X, b.Y
	if k, ok := p.(*ssa.Const); ok && k.Value == nil {
		p, q = q, p
	}
	if k, ok := q.(*ssa.Const); !ok || k.Value != nil {
		return false, false
	}
	if _, ok := p.Type().Underlying().(*types.Signature); !ok {
		return false, false
	}
	if x.f.Opt.Quiet && observer(p) {
		return b.Op == token.EQL, true
	}
	v := x.val(fr, p)
	if v.Kind == VConst {
		return b.Op == token.EQL, true
	}
	if _, _, ok := x.resolve(v, 0); ok {
		return b.Op == token.NEQ, true
	}
	return false, false
}

// deadEdge: a function value's nil test rules the i-th edge into b out.
func (x *expander) deadEdge(fr *frame, b *ssa.BasicBlock, i int) bool {
	to, p := b, b.Preds[i]
	for n := 0; n < 4; n++ {
		if f, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If); ok && p.Succs[0] != p.Succs[1] {
			if v, ok := x.funcCond(fr, f.Cond); ok {
				taken := p.Succs[1]
				if v {
					taken = p.Succs[0]
				}
				if taken != to {
					return true
				}
			}
		}
		if len(p.Preds) != 1 {
			return false
		}
		to, p = p, p.Preds[0]
	}
	return false
}

// singleStore returns the only store to a local variable, following captures.
func singleStore(al *ssa.Alloc) *ssa.Store {
	var found *ssa.Store
	n := 0
	var scan func(addr ssa.Value, top bool)
	scan = func(addr ssa.Value, top bool) {
		refs := addr.Referrers()
		if refs == nil {
			n += 2
			return
		}
		for _, r := range *refs {
			switch r := r.(type) {
			case *ssa.Store:
				if r.Addr == addr {
					n++
					if top {
						found = r
					} else {
						n++
					}
				} else {
					n += 2
				}
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.MakeClosure:
				for i, b := range r.Bindings {
					if b == addr {
						scan(r.Fn.(*ssa.Function).FreeVars[i], false)
					}
				}
			default:
				n += 2
			}
		}
	}
	scan(al, true)
	if n == 1 {
		return found
	}
	return nil
}

func (x *expander) dynType(v *V, depth int) types.Type {
	if depth > 8 {
		return nil
	}
	d := x.def[v]
	if d == nil {
		return nil
	}
	switch d.Op {
	case OpMakeIface:
		return d.Args[0].Typ
	case OpCopy:
		return x.dynType(d.Args[0], depth+1)
	case OpChangeType:
		return x.dynType(d.Args[0], depth+1)
	}
	return nil
}

func (x *expander) ifaceVal(v *V) *V {
	d := x.def[v]
	for d != nil {
		switch d.Op {
		case OpMakeIface:
			return d.Args[0]
		case OpCopy, OpChangeType:
			d = x.def[d.Args[0]]
			continue
		}
		break
	}
	return nil
}

func (x *expander) call(fr *frame, c *ssa.CallCommon, in ssa.Instruction, dst *V, cur *Block, mode callMode) *Block {
	f := x.f
	val := func(v ssa.Value) *V { return x.val(fr, v) }
	if dst != nil && dst.Typ != nil {
		if t, ok := dst.Typ.(*types.Tuple); ok && t.Len() == 0 {
			dst = nil
		}
	}
	var args []*V
	for _, a := range c.Args {
		args = append(args, val(a))
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		op := OpCall
		switch b.Name() {
		case "len":
			op = OpLen
		case "cap":
			op = OpCap
		}
		if mode == callGo || mode == callDefer {
			op = OpDefer
		}
		i := &Instr{Op: op, Args: args, Dst: dst, Orig: in, Builtin: b.Name()}
		if op == OpCall && mode == callMaybe {
			i.Maybe = true
		}
		if op == OpLen || op == OpCap {
			if _, ok := c.Args[0].Type().Underlying().(*types.Chan); ok {
				i.Op = OpCall
			}
			if _, ok := c.Args[0].Type().Underlying().(*types.Map); ok {
				i.Op = OpCall
			}
		}
		x.put(cur, i)
		return cur
	}
	var callee *ssa.Function
	var free []*V
	var method *types.Func
	if c.IsInvoke() {
		recv := val(c.Value)
		method = c.Method
		if dt := x.dynType(recv, 0); dt != nil {
			if m := f.P.SSA.LookupMethod(dt, c.Method.Pkg(), c.Method.Name()); m != nil {
				callee = m
				args = append([]*V{x.ifaceVal(recv)}, args...)
			}
		}
		if callee == nil && f.Opt.Devirt != nil {
			callee = f.Opt.Devirt(c)
			if callee != nil {
				v := f.newV(VReg, callee.Signature.Recv().Type())
				x.put(cur, &Instr{Op: OpTypeAssert, Typ: v.Typ, Dst: v, Args: []*V{recv}, NoNil: true, Orig: in})
				args = append([]*V{v}, args...)
			}
		}
		if callee == nil {
			args = append([]*V{recv}, args...)
		}
	} else {
		callee = c.StaticCallee()
		if callee != nil {
			if mc, ok := c.Value.(*ssa.MakeClosure); ok {
				for _, b := range mc.Bindings {
					free = append(free, val(b))
				}
			}
		} else {
			fv := val(c.Value)
			if fn, fb, ok := x.resolve(fv, 0); ok {
				callee, free = fn, fb
			} else if f.Opt.Quiet && observer(c.Value) {
				return cur
			} else {
				args = append([]*V{fv}, args...)
			}
		}
	}
	inl := mode == callNormal || mode == callDeferred
	recur := false
	if callee != nil && inl {
		pkg := fnPkgPath(callee)
		switch {
		case !inModule(pkg) && !inlineStd(callee), callee.Blocks == nil:
			inl = false
		case fr.ctx.has(callee):
			inl, recur = false, true
		case fr.ctx.Depth >= f.Opt.MaxDepth, x.count > f.Opt.Budget:
			inl = false
		case f.Opt.Stop != nil && f.Opt.Stop(callee):
			inl = false
		}
	} else {
		inl = false
	}
	if !inl {
		op := OpCall
		switch mode {
		case callGo:
			op = OpGo
		case callDefer:
			op = OpDefer
		}
		if mode == callNormal {
			n := "?"
			if callee != nil {
				n = fnName(callee)
			} else if method != nil {
				n = method.FullName()
			}
			f.Opaque[n]++
		}
		i := &Instr{Op: op, Args: args, Dst: dst, Orig: in, Callee: callee, Method: method, Recur: recur, Maybe: mode == callMaybe, Deferred: mode == callDeferred || mode == callMaybe}
		if dst != nil {
			i.Typ = dst.Typ
		}
		x.put(cur, i)
		// bindings of a directly called closure count as escaping arguments
		if len(free) > 0 {
			i.Args = append(i.Args, free...)
		}
		return cur
	}
	ctx := &Ctx{Fn: callee, Parent: fr.ctx, Call: in, Depth: fr.ctx.Depth + 1}
	x.put(cur, &Instr{Op: OpEnter, Args: args, Callee: callee, Orig: in, Ctx: ctx, Deferred: mode == callDeferred})
	ret, res := x.body(ctx, callee, args, free, cur)
	cont := f.newBlock(fr.ctx)
	x.put(ret, &Instr{Op: OpExit, Args: append([]*V{}, res...), Callee: callee, Orig: in, Ctx: ctx})
	f.emit(ret, &Instr{Op: OpJump})
	link(ret, cont)
	if dst != nil {
		if len(res) == 1 {
			x.put(cont, &Instr{Op: OpCopy, Dst: dst, Args: []*V{res[0]}, Orig: in})
		} else {
			x.tuple[dst] = res
		}
	}
	return cont
}

func constInt(v *V) (int64, bool) {
	if v == nil || v.Kind != VConst || v.C == nil {
		return 0, false
	}
	if v.C.Kind() != constant.Int {
		return 0, false
	}
	return constant.Int64Val(v.C)
}

func constBool(v *V) (bool, bool) {
	if v == nil || v.Kind != VConst || v.C == nil || v.C.Kind() != constant.Bool {
		return false, false
	}
	return constant.BoolVal(v.C), true
}

// inlineStd: standard library code that is expanded like the module's own.
func inlineStd(f *ssa.Function) bool {
	if f.Pkg == nil || f.Pkg.Pkg.Path() != "encoding/binary" || f.Signature.Recv() == nil {
		return false
	}
	n := namedOf(f.Signature.Recv().Type())
	return n != nil && (n.Obj().Name() == "bigEndian" || n.Obj().Name() == "littleEndian") && f.Name() != "String" && f.Name() != "GoString"
}
