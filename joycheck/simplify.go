package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// build expands, promotes, threads and simplifies root.
func build(p *Prog, root *ssa.Function, opt *InlineOpt) *Fn {
	f := buildRaw(p, root, opt)
	f.removeUnreachable()
	f.promote(func(v *V, d *Instr) bool {
		return v.Kind != VReg || (d != nil && d.Op == OpAlloc)
	})
	f.toSSA()
	f.simplify()
	f.threadAll()
	trip, size := 8, 1500
	if opt != nil && opt.MaxTrip > 0 {
		trip, size = opt.MaxTrip, opt.MaxUnroll
	}
	if f.unrollConst(trip, size) {
		f.threadAll()
	}
	for i := 0; i < 6; i++ {
		f.toRegs()
		n := f.promote(func(v *V, d *Instr) bool { return true })
		f.toSSA()
		f.simplify()
		f.threadAll()
		if f.unrollConst(trip, size) {
			f.threadAll()
			n++
		}
		if n == 0 {
			break
		}
	}
	f.splitReturns()
	f.computeDom()
	f.setDefs()
	return f
}

// splitReturns gives every path into the return block its own return, so that
// success and failure exits are separate blocks.
func (f *Fn) splitReturns() {
	for it := 0; it < 12; it++ {
		var todo *Block
		nret := 0
		for _, b := range f.Blocks {
			t := b.term()
			if t == nil || t.Op != OpReturn {
				continue
			}
			nret++
			if len(b.Preds) > 1 && len(b.Instrs) > 0 && b.Instrs[0].Op == OpPhi && len(b.Instrs) < 40 {
				if b.loopHead == nil && todo == nil {
					todo = b
				}
			}
		}
		if todo == nil || nret > 300 {
			return
		}
		edges := f.toRegs()
		src := edges[todo]
		for i, e := range src {
			if i == 0 || e.term().Op != OpJump {
				continue
			}
			nb := f.newBlock(todo.Ctx)
			cloneInto(nb, todo.Instrs)
			f.removeEdgeKeep(e, 0)
			e.Succs[0] = nb
			nb.Preds = []*Block{e}
		}
		f.toSSA()
		f.simplify()
	}
}

func isNilable(t types.Type) bool {
	if t == nil {
		return false
	}
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Slice, *types.Map, *types.Chan, *types.Signature:
		return true
	}
	return false
}

func isNilConst(v *V) bool {
	return v.Kind == VConst && v.C == nil && isNilable(v.Typ)
}

func mustHoldEdge(b *Block) (p *Block, si int) {
	if len(b.Preds) != 1 {
		return nil, 0
	}
	p = b.Preds[0]
	return p, succIndex(p, b, 0)
}

// condKnown tells whether boolean v is fixed at the end of block b by the
// dominating branches.
func (f *Fn) condKnown(v *V, b *Block) (bool, bool) {
	if c, ok := constBool(v); ok {
		return c, true
	}
	for x := b; x != nil; x = x.idom {
		p, si := mustHoldEdge(x)
		if p == nil {
			continue
		}
		t := p.term()
		if t.Op != OpIf {
			continue
		}
		want := si == 0
		if r, ok := implied(t.Args[0], want, v, 0); ok {
			return r, true
		}
	}
	return false, false
}

// implied: given cond==val, what do we know about v?
func implied(cond *V, val bool, v *V, d int) (bool, bool) {
	if cond == v {
		return val, true
	}
	if d > 4 {
		return false, false
	}
	if c := cond.Def; c != nil && cond.Kind == VReg {
		if c.Op == OpUn && c.Tok == token.NOT {
			return implied(c.Args[0], !val, v, d+1)
		}
		if vd := v.Def; v.Kind == VReg && vd != nil && c.Op == OpBin && vd.Op == OpBin && c.Args[0] == vd.Args[0] && c.Args[1] == vd.Args[1] {
			// x==y vs x!=y etc.
			if neg, ok := negTok[c.Tok]; ok && neg == vd.Tok {
				return !val, true
			}
		}
	}
	if vd := v.Def; v.Kind == VReg && vd != nil && vd.Op == OpUn && vd.Tok == token.NOT {
		r, ok := implied(cond, val, vd.Args[0], d+1)
		return !r, ok
	}
	return false, false
}

var negTok = map[token.Token]token.Token{token.EQL: token.NEQ, token.NEQ: token.EQL, token.LSS: token.GEQ, token.GEQ: token.LSS, token.GTR: token.LEQ, token.LEQ: token.GTR}

type nilState int

const (
	nilUnknown nilState = iota
	nilYes
	nilNo
)

func (f *Fn) nilness(v *V, b *Block, seen map[*V]bool) nilState {
	switch v.Kind {
	case VConst:
		if isNilConst(v) {
			return nilYes
		}
		return nilUnknown
	case VFunc, VGlobal:
		return nilNo
	case VReg:
		d := v.Def
		if d != nil {
			switch d.Op {
			case OpMakeIface, OpAlloc, OpClosure, OpMakeSlice, OpMakeMap, OpMakeChan, OpFieldAddr, OpIndexAddr:
				return nilNo
			case OpCopy, OpChangeType:
				if s := f.nilness(d.Args[0], b, seen); s != nilUnknown {
					return s
				}
			case OpCell, OpLoad:
				if len(d.Args) > 0 && d.Args[0].Kind == VGlobal {
					if d.Cell == nil || len(d.Cell.path) == 0 {
						if f.P.globNonNil(d.Args[0].Obj.(*ssa.Global)) {
							return nilNo
						}
					}
				}
			case OpCall:
				if d.Callee != nil {
					switch d.Callee.RelString(nil) {
					case "errors.New", "fmt.Errorf", "github.com/pkg/errors.New", "github.com/pkg/errors.Errorf", "bytes.NewReader", "bytes.NewBuffer", "bufio.NewReaderSize", "bufio.NewWriterSize", "bufio.NewReader", "bufio.NewWriter":
						return nilNo
					}
				}
			case OpPhi:
				if seen[v] {
					return nilUnknown
				}
				if seen == nil {
					seen = map[*V]bool{}
				}
				seen[v] = true
				res := nilUnknown
				for i, a := range d.Args {
					if a == v {
						continue
					}
					s := f.nilness(a, d.Blk.Preds[i], seen)
					if s == nilUnknown || (res != nilUnknown && res != s) {
						res = nilUnknown
						break
					}
					res = s
				}
				delete(seen, v)
				if res != nilUnknown {
					return res
				}
			}
		}
	}
	// dominating comparisons with nil
	for x := b; x != nil; x = x.idom {
		p, si := mustHoldEdge(x)
		if p == nil {
			continue
		}
		t := p.term()
		if t.Op != OpIf {
			continue
		}
		if s := nilFromCond(t.Args[0], si == 0, v); s != nilUnknown {
			return s
		}
	}
	return nilUnknown
}

func nilFromCond(cond *V, val bool, v *V) nilState {
	for cond.Kind == VReg && cond.Def != nil && cond.Def.Op == OpUn && cond.Def.Tok == token.NOT {
		cond, val = cond.Def.Args[0], !val
	}
	d := cond.Def
	if cond.Kind != VReg || d == nil || d.Op != OpBin {
		return nilUnknown
	}
	var o *V
	if isNilConst(d.Args[1]) {
		o = d.Args[0]
	} else if isNilConst(d.Args[0]) {
		o = d.Args[1]
	} else {
		return nilUnknown
	}
	if o != v {
		return nilUnknown
	}
	eq := d.Tok == token.EQL
	if !eq && d.Tok != token.NEQ {
		return nilUnknown
	}
	if eq == val {
		return nilYes
	}
	return nilNo
}

// globNonNil: package variables initialised once with a non-nil value, plus
// the standard library's exported error variables.
func (p *Prog) globNonNil(g *ssa.Global) bool {
	if g.Pkg != nil && !inModule(g.Pkg.Pkg.Path()) {
		t := pointee(g.Type())
		return t != nil && types.Identical(t, types.Universe.Lookup("error").Type())
	}
	v, ok := p.globInit[g]
	if !ok {
		return false
	}
	for {
		switch x := v.(type) {
		case *ssa.MakeInterface:
			return true
		case *ssa.ChangeInterface:
			v = x.X
			continue
		case *ssa.Call:
			if c := x.Call.StaticCallee(); c != nil {
				switch c.RelString(nil) {
				case "errors.New", "fmt.Errorf":
					return true
				}
			}
		case *ssa.Alloc:
			return true
		}
		return false
	}
}

func truncConst(c constant.Value, t types.Type) constant.Value {
	b, ok := t.Underlying().(*types.Basic)
	if !ok || c.Kind() != constant.Int {
		return c
	}
	bits, signed := intBits(b)
	if bits == 0 {
		return c
	}
	mask := constant.BinaryOp(constant.Shift(constant.MakeInt64(1), token.SHL, uint(bits)), token.SUB, constant.MakeInt64(1))
	r := constant.BinaryOp(c, token.AND, mask)
	if constant.Sign(c) < 0 {
		// two's complement
		m := constant.Shift(constant.MakeInt64(1), token.SHL, uint(bits))
		q := c
		for constant.Sign(q) < 0 {
			q = constant.BinaryOp(q, token.ADD, m)
			if constant.Sign(q) < 0 {
				// large negative: reduce by remainder
				q = constant.BinaryOp(constant.BinaryOp(c, token.REM, m), token.ADD, m)
				break
			}
		}
		r = constant.BinaryOp(q, token.AND, mask)
	}
	if signed {
		half := constant.Shift(constant.MakeInt64(1), token.SHL, uint(bits-1))
		if constant.Compare(r, token.GEQ, half) {
			r = constant.BinaryOp(r, token.SUB, constant.Shift(constant.MakeInt64(1), token.SHL, uint(bits)))
		}
	}
	return r
}

func intBits(b *types.Basic) (int, bool) {
	switch b.Kind() {
	case types.Int8:
		return 8, true
	case types.Int16:
		return 16, true
	case types.Int32:
		return 32, true
	case types.Int64, types.Int:
		return 64, true
	case types.Uint8:
		return 8, false
	case types.Uint16:
		return 16, false
	case types.Uint32:
		return 32, false
	case types.Uint64, types.Uint, types.Uintptr:
		return 64, false
	case types.UntypedInt, types.UntypedRune:
		return 64, true
	}
	return 0, false
}

func basicOf(t types.Type) *types.Basic {
	if t == nil {
		return nil
	}
	b, _ := t.Underlying().(*types.Basic)
	return b
}

func isIntType(t types.Type) bool {
	b := basicOf(t)
	return b != nil && b.Info()&types.IsInteger != 0
}

func (f *Fn) foldBin(tok token.Token, a, b *V, t types.Type) *V {
	if a.Kind == VConst && b.Kind == VConst && a.C != nil && b.C != nil {
		ak, bk := a.C.Kind(), b.C.Kind()
		switch tok {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			if ak == bk {
				return f.konst(constant.MakeBool(constant.Compare(a.C, tok, b.C)), t)
			}
			return nil
		case token.SHL, token.SHR:
			if n, ok := constInt(b); ok && n >= 0 && n < 200 && ak == constant.Int {
				return f.konst(truncConst(constant.Shift(a.C, tok, uint(n)), t), t)
			}
			return nil
		case token.QUO, token.REM:
			if ak == constant.Int && bk == constant.Int && constant.Sign(b.C) != 0 {
				op := tok
				if tok == token.QUO {
					op = token.QUO_ASSIGN
				}
				return f.konst(truncConst(constant.BinaryOp(a.C, op, b.C), t), t)
			}
			return nil
		case token.ADD, token.SUB, token.MUL, token.AND, token.OR, token.XOR, token.AND_NOT:
			if ak == bk && ak == constant.Int {
				return f.konst(truncConst(constant.BinaryOp(a.C, tok, b.C), t), t)
			}
			if ak == bk && ak == constant.String && tok == token.ADD {
				return f.konst(constant.BinaryOp(a.C, tok, b.C), t)
			}
		}
		return nil
	}
	isZero := func(v *V) bool { n, ok := constInt(v); return ok && n == 0 }
	switch tok {
	case token.ADD, token.OR, token.XOR:
		if isZero(a) && isIntType(t) {
			return b
		}
		if isZero(b) && isIntType(t) {
			return a
		}
	case token.SUB, token.SHL, token.SHR:
		if isZero(b) && isIntType(t) {
			return a
		}
	case token.MUL:
		if n, ok := constInt(b); ok && n == 1 {
			return a
		}
		if n, ok := constInt(a); ok && n == 1 {
			return b
		}
	case token.EQL, token.NEQ:
		if a == b && a.Kind != VUndef && a.Typ != nil {
			if bt := basicOf(a.Typ); bt != nil && bt.Info()&types.IsFloat == 0 || isNilable(a.Typ) {
				return f.konst(constant.MakeBool(tok == token.EQL), t)
			}
		}
	}
	return nil
}

// simplify: copy propagation, folding, value numbering, dead code removal.
func (f *Fn) simplify() {
	for round := 0; round < 30; round++ {
		ch := false
		f.copyProp()
		f.setDefs()
		if f.gvn() {
			ch = true
		}
		f.copyProp()
		f.setDefs()
		if f.foldBranches() {
			ch = true
			f.removeUnreachable()
			f.mergeStraight()
			f.computeDom()
			f.setDefs()
		}
		if !ch {
			break
		}
	}
	f.dce()
	f.computeDom()
	f.setDefs()
}

func (f *Fn) copyProp() {
	rep := map[*V]*V{}
	var find func(v *V) *V
	find = func(v *V) *V {
		r, ok := rep[v]
		if !ok {
			return v
		}
		x := find(r)
		rep[v] = x
		return x
	}
	for ch := true; ch; {
		ch = false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if in.Dst == nil || rep[in.Dst] != nil {
					continue
				}
				switch in.Op {
				case OpCopy:
					s := find(in.Args[0])
					if s != in.Dst {
						rep[in.Dst] = s
						ch = true
					}
				case OpPhi:
					var u *V
					triv := true
					for _, a := range in.Args {
						a = find(a)
						if a == in.Dst {
							continue
						}
						if u == nil {
							u = a
						} else if u != a {
							triv = false
							break
						}
					}
					if triv && u != nil {
						rep[in.Dst] = u
						ch = true
					}
				}
			}
		}
	}
	if len(rep) == 0 {
		return
	}
	for _, b := range f.Blocks {
		out := b.Instrs[:0]
		for _, in := range b.Instrs {
			if in.Dst != nil && rep[in.Dst] != nil && (in.Op == OpCopy || in.Op == OpPhi) {
				continue
			}
			for i, a := range in.Args {
				if a != nil {
					in.Args[i] = find(a)
				}
			}
			out = append(out, in)
		}
		b.Instrs = out
	}
}

func pureOp(op Op) bool {
	switch op {
	case OpBin, OpUn, OpConvert, OpChangeType, OpLen, OpCap, OpIndexAddr, OpFieldAddr, OpField, OpIndex, OpSlice, OpExtract, OpMakeIface, OpStruct:
		return true
	}
	return false
}

func (f *Fn) gvn() bool {
	changed := false
	type key string
	table := map[key][]*Instr{}
	var walk func(b *Block)
	walk = func(b *Block) {
		var added []key
		out := b.Instrs[:0]
		for _, in := range b.Instrs {
			// folds
			switch in.Op {
			case OpBin:
				if v := f.foldBin(in.Tok, in.Args[0], in.Args[1], in.Dst.Typ); v != nil {
					in.Op, in.Args = OpCopy, []*V{v}
					changed = true
					out = append(out, in)
					continue
				}
				if in.Tok == token.EQL || in.Tok == token.NEQ {
					a, c := in.Args[0], in.Args[1]
					if isNilConst(a) {
						a, c = c, a
					}
					if isNilConst(c) {
						if s := f.nilness(a, b, nil); s != nilUnknown {
							in.Op, in.Args = OpCopy, []*V{f.konst(constant.MakeBool((s == nilYes) == (in.Tok == token.EQL)), in.Dst.Typ)}
							changed = true
							out = append(out, in)
							continue
						}
					}
				}
			case OpUn:
				if in.Tok == token.NOT {
					if c, ok := constBool(in.Args[0]); ok {
						in.Op, in.Args = OpCopy, []*V{f.konst(constant.MakeBool(!c), in.Dst.Typ)}
						changed = true
						out = append(out, in)
						continue
					}
				}
				if c := in.Args[0]; c.Kind == VConst && c.C != nil && c.C.Kind() == constant.Int && (in.Tok == token.SUB || in.Tok == token.XOR) {
					r := constant.UnaryOp(in.Tok, c.C, 0)
					in.Op, in.Args = OpCopy, []*V{f.konst(truncConst(r, in.Dst.Typ), in.Dst.Typ)}
					changed = true
					out = append(out, in)
					continue
				}
			case OpConvert:
				if c := in.Args[0]; c.Kind == VConst && c.C != nil && c.C.Kind() == constant.Int && isIntType(in.Dst.Typ) {
					in.Op, in.Args = OpCopy, []*V{f.konst(truncConst(c.C, in.Dst.Typ), in.Dst.Typ)}
					changed = true
					out = append(out, in)
					continue
				}
				if types.Identical(in.Args[0].Typ, in.Dst.Typ) {
					in.Op = OpCopy
					changed = true
					out = append(out, in)
					continue
				}
			case OpField:
				if d := in.Args[0].Def; in.Args[0].Kind == VReg && d != nil && d.Op == OpStruct {
					in.Op, in.Args = OpCopy, []*V{d.Args[in.Idx]}
					changed = true
					out = append(out, in)
					continue
				}
				if in.Args[0].Kind == VConst {
					in.Op, in.Args = OpCopy, []*V{zeroConst(f, in.Dst.Typ)}
					changed = true
					out = append(out, in)
					continue
				}
			case OpLen:
				a := in.Args[0]
				if a.Kind == VConst {
					n := int64(0)
					if a.C != nil && a.C.Kind() == constant.String {
						n = int64(len(constant.StringVal(a.C)))
					}
					in.Op, in.Args = OpCopy, []*V{f.intConst(n)}
					changed = true
					out = append(out, in)
					continue
				}
				if ar := arrayOf(a.Typ); ar != nil {
					in.Op, in.Args = OpCopy, []*V{f.intConst(ar.Len())}
					changed = true
					out = append(out, in)
					continue
				}
				n := windowLen(a)
				if n < 0 {
					_, n = wholeSlice(a)
				}
				if n >= 0 {
					in.Op, in.Args = OpCopy, []*V{f.intConst(n)}
					changed = true
					out = append(out, in)
					continue
				}
			case OpIndexAddr:
				// an element of a slice literal is the element of its array
				if k, ok := constInt(in.Args[1]); ok && pointee(in.Args[0].Typ) == nil {
					if p, n := wholeSlice(in.Args[0]); n >= 0 && int64(k) < n && k >= 0 {
						in.Args = []*V{p, in.Args[1]}
						changed = true
					}
				}
			case OpTypeAssert:
				// assertion of a known dynamic type
				if d := in.Args[0].Def; in.Args[0].Kind == VReg && d != nil && d.Op == OpMakeIface && !in.CommaOk && types.Identical(d.Args[0].Typ, in.Typ) {
					in.Op, in.Args = OpCopy, []*V{d.Args[0]}
					changed = true
					out = append(out, in)
					continue
				}
			case OpExtract:
				if d := in.Args[0].Def; in.Args[0].Kind == VReg && d != nil && d.Op == OpTypeAssert && d.CommaOk {
					if m := d.Args[0].Def; d.Args[0].Kind == VReg && m != nil && m.Op == OpMakeIface {
						if _, isI := d.Typ.Underlying().(*types.Interface); !isI {
							same := types.Identical(m.Args[0].Typ, d.Typ)
							var v *V
							if in.Idx == 1 {
								v = f.konst(constant.MakeBool(same), types.Typ[types.Bool])
							} else if same {
								v = m.Args[0]
							} else {
								v = zeroConst(f, d.Typ)
							}
							in.Op, in.Args = OpCopy, []*V{v}
							changed = true
							out = append(out, in)
							continue
						}
					}
				}
			}
			if pureOp(in.Op) && in.Dst != nil {
				var sb strings.Builder
				fmt.Fprintf(&sb, "%d,%d,%d", in.Op, in.Tok, in.Idx)
				args := in.Args
				for _, a := range args {
					if a == nil {
						sb.WriteString(",-")
					} else {
						fmt.Fprintf(&sb, ",%d", a.ID)
					}
				}
				switch in.Op {
				case OpConvert, OpMakeIface, OpChangeType, OpStruct:
					sb.WriteString(types.TypeString(in.Dst.Typ, nil))
				}
				k := key(sb.String())
				if l := table[k]; len(l) > 0 {
					in.Op, in.Args = OpCopy, []*V{l[len(l)-1].Dst}
					changed = true
					out = append(out, in)
					continue
				}
				table[k] = append(table[k], in)
				added = append(added, k)
			}
			out = append(out, in)
		}
		b.Instrs = out
		for _, k := range b.domKids {
			walk(k)
		}
		for _, k := range added {
			table[k] = table[k][:len(table[k])-1]
		}
	}
	walk(f.Blocks[0])
	return changed
}

func arrayOf(t types.Type) *types.Array {
	if t == nil {
		return nil
	}
	if a, ok := t.Underlying().(*types.Array); ok {
		return a
	}
	if p := pointee(t); p != nil {
		if a, ok := p.Underlying().(*types.Array); ok {
			return a
		}
	}
	return nil
}

func (f *Fn) foldBranches() bool {
	ch := false
	for _, b := range f.Blocks {
		t := b.term()
		if t == nil || t.Op != OpIf {
			continue
		}
		v, ok := f.condKnown(t.Args[0], b)
		if !ok {
			continue
		}
		kill := 1
		if !v {
			kill = 0
		}
		f.removeEdge(b, kill)
		t.Op, t.Args = OpJump, nil
		ch = true
	}
	return ch
}

func (f *Fn) dce() {
	for {
		used := map[*V]bool{}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, a := range in.Args {
					if a != in.Dst {
						used[a] = true
					}
				}
			}
		}
		ch := false
		for _, b := range f.Blocks {
			out := b.Instrs[:0]
			for _, in := range b.Instrs {
				dead := false
				if in.Dst != nil && !used[in.Dst] {
					switch in.Op {
					case OpCopy, OpPhi, OpUn, OpConvert, OpChangeType, OpLen, OpCap, OpField, OpFieldAddr, OpMakeIface, OpStruct, OpCell, OpHavoc, OpExtract, OpAlloc, OpClosure:
						dead = true
					case OpBin:
						dead = in.Tok != token.QUO && in.Tok != token.REM && in.Tok != token.SHL && in.Tok != token.SHR
					}
				}
				if dead {
					ch = true
					continue
				}
				out = append(out, in)
			}
			b.Instrs = out
		}
		if !ch {
			return
		}
	}
}

// ---- jump threading ----

type threadReq struct {
	b    *Block
	pi   int
	succ int
}

const threadMaxSize = 40

// evalOn evaluates v at the end of b when b is entered through predecessor pi.
func (f *Fn) evalOn(v *V, b *Block, pi int, depth int) *V {
	if depth > 8 || v.Kind != VReg || v.Def == nil || v.Def.Blk != b {
		return v
	}
	d := v.Def
	switch d.Op {
	case OpPhi:
		return d.Args[pi]
	case OpCopy, OpChangeType:
		r := f.evalOn(d.Args[0], b, pi, depth+1)
		if d.Op == OpChangeType && r == d.Args[0] {
			return v
		}
		return r
	}
	return v
}

func (f *Fn) evalBoolOn(v *V, b *Block, pi int, depth int) (bool, bool) {
	p := b.Preds[pi]
	w := f.evalOn(v, b, pi, 0)
	if c, ok := constBool(w); ok {
		return c, true
	}
	if w != v || w.Kind != VReg || w.Def == nil || w.Def.Blk != b {
		// a value from before b: known at p (or by p's own branch)?
		if c, ok := f.knownAtEdge(w, p, b, pi); ok {
			return c, true
		}
		if w != v {
			return false, false
		}
	}
	if depth > 6 || v.Kind != VReg || v.Def == nil {
		return false, false
	}
	d := v.Def
	switch {
	case d.Op == OpUn && d.Tok == token.NOT:
		r, ok := f.evalBoolOn(d.Args[0], b, pi, depth+1)
		return !r, ok
	case d.Op == OpBin:
		x, y := f.evalOn(d.Args[0], b, pi, 0), f.evalOn(d.Args[1], b, pi, 0)
		if x == d.Args[0] && y == d.Args[1] && d.Blk == b {
			// operands not affected by the entry edge: still may be nil-known at p
		}
		if r := f.foldBin(d.Tok, x, y, d.Dst.Typ); r != nil {
			return constBool(r)
		}
		if d.Tok == token.EQL || d.Tok == token.NEQ {
			a, c := x, y
			if isNilConst(a) {
				a, c = c, a
			}
			if isNilConst(c) && !(a.Kind == VReg && a.Def != nil && a.Def.Blk == b) {
				s := f.nilness(a, p, nil)
				if s == nilUnknown {
					if t := p.term(); t.Op == OpIf {
						s = nilFromCond(t.Args[0], succIndex(p, b, pi) == 0, a)
					}
				}
				if s != nilUnknown {
					return (s == nilYes) == (d.Tok == token.EQL), true
				}
			}
		}
	}
	return false, false
}

func (f *Fn) knownAtEdge(v *V, p, b *Block, pi int) (bool, bool) {
	if t := p.term(); t.Op == OpIf {
		if r, ok := implied(t.Args[0], succIndex(p, b, pi) == 0, v, 0); ok {
			return r, true
		}
	}
	return f.condKnown(v, p)
}

func (f *Fn) threadAll() {
	for it := 0; it < 25; it++ {
		var reqs []threadReq
		for _, b := range f.Blocks {
			t := b.term()
			if t == nil || t.Op != OpIf || len(b.Preds) < 2 || b.loopHead != nil || len(b.Instrs) > threadMaxSize {
				continue
			}
			for pi := range b.Preds {
				if v, ok := f.evalBoolOn(t.Args[0], b, pi, 0); ok {
					s := 0
					if !v {
						s = 1
					}
					reqs = append(reqs, threadReq{b, pi, s})
				}
			}
		}
		// blocks that merely merge into an undecided branch one step later:
		// b: phis + jump -> c: If on b's phi; c has other preds. Clone handled
		// when c's pred is b and evaluation reaches b's phi.
		if len(reqs) == 0 {
			if !f.threadThroughJoins() {
				return
			}
			continue
		}
		if len(f.Blocks) > 30000 {
			return
		}
		f.applyThreads(reqs)
	}
}

func (f *Fn) applyThreads(reqs []threadReq) {
	edges := f.toRegs()
	for _, r := range reqs {
		src := edges[r.b][r.pi]
		// successor edge of r.b (possibly an edge block)
		if len(r.b.Succs) != 2 {
			continue
		}
		tgt := r.b.Succs[r.succ]
		nb := f.newBlock(r.b.Ctx)
		cloneInto(nb, r.b.Instrs[:len(r.b.Instrs)-1])
		f.emit(nb, &Instr{Op: OpJump, Orig: r.b.term().Orig, Ctx: r.b.term().Ctx})
		// retarget src -> nb
		si := -1
		if src.term().Op == OpIf {
			// src is the original predecessor (no phis in r.b)
			for i, s := range src.Succs {
				if s == r.b {
					si = i
				}
			}
		} else {
			si = 0
		}
		if si < 0 || src.Succs[si] != r.b {
			// already moved; drop the clone
			f.Blocks = f.Blocks[:len(f.Blocks)-1]
			continue
		}
		f.removeEdgeKeep(src, si)
		src.Succs[si] = nb
		nb.Preds = []*Block{src}
		link(nb, tgt)
	}
	f.toSSA()
	f.simplify()
}

// removeEdgeKeep removes src from its successor's pred list, leaving the slot.
func (f *Fn) removeEdgeKeep(src *Block, si int) {
	b := src.Succs[si]
	for i, p := range b.Preds {
		if p == src {
			b.Preds = append(append([]*Block{}, b.Preds[:i]...), b.Preds[i+1:]...)
			return
		}
	}
}

// threadThroughJoins splits a small join block j (ending in a jump) whose only
// successor c branches on one of j's phis, so that c can be threaded later.
func (f *Fn) threadThroughJoins() bool {
	type split struct {
		j  *Block
		pi int
	}
	var todo []split
	for _, c := range f.Blocks {
		t := c.term()
		if t == nil || t.Op != OpIf || c.loopHead != nil || len(c.Instrs) > threadMaxSize || len(c.Preds) < 2 {
			continue
		}
		for pi, j := range c.Preds {
			jt := j.term()
			if jt.Op != OpJump || len(j.Preds) < 2 || j.loopHead != nil || len(j.Instrs) > threadMaxSize {
				continue
			}
			if len(j.Instrs) == 0 || j.Instrs[0].Op != OpPhi {
				continue
			}
			// would c be decided for some pred of j?
			for ji := range j.Preds {
				if f.decidedVia(t.Args[0], c, pi, j, ji) {
					todo = append(todo, split{j, ji})
				}
			}
		}
		if len(todo) > 0 {
			break
		}
	}
	if len(todo) == 0 {
		return false
	}
	edges := f.toRegs()
	for _, s := range todo {
		src := edges[s.j][s.pi]
		nb := f.newBlock(s.j.Ctx)
		cloneInto(nb, s.j.Instrs)
		f.removeEdgeKeep(src, 0)
		src.Succs[0] = nb
		nb.Preds = []*Block{src}
		link(nb, s.j.Succs[0])
	}
	f.toSSA()
	f.simplify()
	return true
}

func (f *Fn) decidedVia(cond *V, c *Block, pi int, j *Block, ji int) bool {
	var ev func(v *V) *V
	ev = func(v *V) *V {
		v = f.evalOn(v, c, pi, 0)
		v = f.evalOn(v, j, ji, 0)
		return v
	}
	w := ev(cond)
	if _, ok := constBool(w); ok {
		return true
	}
	d := cond.Def
	neg := 0
	for cond.Kind == VReg && d != nil && d.Op == OpUn && d.Tok == token.NOT && neg < 4 {
		cond = d.Args[0]
		d = cond.Def
		neg++
		if _, ok := constBool(ev(cond)); ok {
			return true
		}
	}
	if cond.Kind != VReg || d == nil || d.Op != OpBin {
		return false
	}
	x, y := ev(d.Args[0]), ev(d.Args[1])
	if x == d.Args[0] && y == d.Args[1] {
		return false
	}
	if f.foldBin(d.Tok, x, y, d.Dst.Typ) != nil {
		return true
	}
	if d.Tok == token.EQL || d.Tok == token.NEQ {
		a, n := x, y
		if isNilConst(a) {
			a, n = n, a
		}
		if isNilConst(n) {
			return f.nilness(a, j.Preds[ji], nil) != nilUnknown
		}
	}
	return false
}

// windowLen: v is s[a:a+n] with a constant n.
func windowLen(v *V) int64 {
	if v.Kind != VReg || v.Def == nil || v.Def.Op != OpSlice || len(v.Def.Args) < 3 {
		return -1
	}
	lo, hi := v.Def.Args[1], v.Def.Args[2]
	if lo == nil || hi == nil || lo.Kind == VUndef || hi.Kind != VReg || hi.Def == nil || hi.Def.Op != OpBin || hi.Def.Tok != token.ADD {
		return -1
	}
	for k := 0; k < 2; k++ {
		if n, ok := constInt(hi.Def.Args[1-k]); ok && n >= 0 && hi.Def.Args[k] == lo {
			return n
		}
	}
	return -1
}

// wholeSlice: v is all of a local array; the array and its length.
func wholeSlice(v *V) (*V, int64) {
	if v.Kind != VReg || v.Def == nil || v.Def.Op != OpSlice {
		return nil, -1
	}
	d := v.Def
	for _, a := range d.Args[1:] {
		if a != nil && a.Kind != VUndef {
			return nil, -1
		}
	}
	p := d.Args[0]
	if p.Kind != VReg || p.Def == nil || p.Def.Op != OpAlloc || pointee(p.Typ) == nil {
		return nil, -1
	}
	ar, ok := pointee(p.Typ).Underlying().(*types.Array)
	if !ok {
		return nil, -1
	}
	return p, ar.Len()
}
