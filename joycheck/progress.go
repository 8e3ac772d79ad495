package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C07: loops that go on for ever. Every way round a loop must either move a
// counter, cursor or rest of the loop on, take the next element of a map or
// string, or do something that waits or takes input.

type prog struct {
	p     *Prog
	acts  map[*ssa.Function]int
	inRaw map[*ssa.Phi]bool
	deep  int
	fails map[[2]*ssa.BasicBlock]bool
}

type natLoop struct {
	head  *ssa.BasicBlock
	body  map[*ssa.BasicBlock]bool
	backs []*ssa.BasicBlock
}

func natLoops(f *ssa.Function) []*natLoop {
	by := map[*ssa.BasicBlock]*natLoop{}
	var out []*natLoop
	for _, b := range f.Blocks {
		for _, h := range b.Succs {
			if !h.Dominates(b) {
				continue
			}
			l := by[h]
			if l == nil {
				l = &natLoop{head: h, body: map[*ssa.BasicBlock]bool{h: true}}
				by[h] = l
				out = append(out, l)
			}
			l.backs = append(l.backs, b)
			work := []*ssa.BasicBlock{b}
			for len(work) > 0 {
				x := work[len(work)-1]
				work = work[:len(work)-1]
				if l.body[x] {
					continue
				}
				l.body[x] = true
				work = append(work, x.Preds...)
			}
		}
	}
	return out
}

var progExt = regexp.MustCompile(`^(Read.*|Copy.*|Accept|Sleep|Recv.*|Wait|Scan.*|Next|Discard|Write.*|After|CompareAndSwap.*)$`)

// acting: an instruction that waits, takes input or moves a cursor that is
// kept in memory.
func (g *prog) acting(in ssa.Instruction) bool {
	switch in := in.(type) {
	case *ssa.Next, *ssa.Send:
		return true
	case *ssa.Select:
		return in.Blocking
	case *ssa.UnOp:
		return in.Op == token.ARROW
	case *ssa.Store:
		return g.moves(in)
	case *ssa.Call:
		return g.callActs(&in.Call)
	}
	return false
}

// moves: x = x + n, x = x - n or x = x[n:] for an x in memory.
func (g *prog) moves(st *ssa.Store) bool {
	same := func(v ssa.Value) bool {
		ld, ok := v.(*ssa.UnOp)
		if !ok || ld.Op != token.MUL {
			return false
		}
		r1, p1 := ownAddr(ld.X)
		r2, p2 := ownAddr(st.Addr)
		return p1 == p2 && (r1 == r2 || progSame(r1, r2))
	}
	switch v := st.Val.(type) {
	case *ssa.BinOp:
		if v.Op != token.ADD && v.Op != token.SUB {
			return false
		}
		step := func(n ssa.Value) bool {
			return !g.raw(n) || g.positive(n, v.Block(), 0)
		}
		return same(v.X) && step(v.Y) || same(v.Y) && v.Op == token.ADD && step(v.X)
	case *ssa.Slice:
		return same(v.X) && v.Low != nil && (g.positive(v.Low, v.Block(), 0) || !g.raw(v.Low))
	}
	return false
}

// raw: a number that is taken out of bytes or memory as it is.
func (g *prog) raw(v ssa.Value) bool {
	switch v := v.(type) {
	case *ssa.Const:
		return isZero(v)
	case *ssa.Convert:
		return g.raw(v.X)
	case *ssa.BinOp:
		return g.raw(v.X) || g.raw(v.Y) && v.Op != token.SUB
	case *ssa.Phi:
		if g.inRaw[v] {
			return false
		}
		g.inRaw[v] = true
		defer delete(g.inRaw, v)
		for _, e := range v.Edges {
			if g.raw(e) && !isZero(e) {
				return true
			}
		}
	case *ssa.UnOp:
		return v.Op == token.MUL
	case *ssa.Extract:
		return !g.gives(v, 0)
	case *ssa.Call:
		_, ok := v.Call.Value.(*ssa.Builtin)
		return !ok
	}
	return false
}

// positive: a step that is known to be more than nothing. What a function
// returns together with an error is taken to be.
func (g *prog) positive(v ssa.Value, at *ssa.BasicBlock, depth int) bool {
	if depth > 8 {
		return false
	}
	switch v := v.(type) {
	case *ssa.Const:
		return v.Value != nil && v.Value.Kind() == constant.Int && constant.Sign(v.Value) > 0
	case *ssa.Parameter, *ssa.FreeVar:
		return true
	case *ssa.Extract:
		return g.guarded(v, at) || g.gives(v, depth)
	case *ssa.BinOp:
		switch v.Op {
		case token.ADD, token.OR:
			a, b := g.positive(v.X, at, depth+1), g.positive(v.Y, at, depth+1)
			if a && b || a && g.nonneg(v.Y, at, depth+1) || b && g.nonneg(v.X, at, depth+1) {
				return true
			}
		case token.MUL, token.SHL:
			if g.positive(v.X, at, depth+1) && (v.Op == token.SHL || g.positive(v.Y, at, depth+1)) {
				return true
			}
		case token.SUB:
			// a distance: end - start
			if !g.raw(v) {
				return true
			}
		case token.REM, token.AND, token.QUO, token.SHR:
		}
	case *ssa.Convert:
		if g.positive(v.X, at, depth+1) {
			return true
		}
	case *ssa.Call:
		if v.Call.IsInvoke() {
			return true
		}
		f := v.Call.StaticCallee()
		if f == nil {
			if b, ok := v.Call.Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "copy") {
				return g.guarded(v, at) || b.Name() == "copy"
			}
			return true
		}
		if inModule(fnPkgPath(f)) && f.Blocks != nil {
			all := true
			for _, b := range f.Blocks {
				if t, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && !g.positive(t.Results[0], b, depth+1) {
					all = false
				}
			}
			if all {
				return true
			}
		}
		if _, ok := v.Type().(*types.Basic); ok && !basicBits(v.Type()) {
			return true
		}
	case *ssa.Phi:
		all := true
		for i, e := range v.Edges {
			if e != ssa.Value(v) && !g.positive(e, v.Block().Preds[i], depth+1) {
				all = false
			}
		}
		if all {
			return true
		}
	}
	return g.guarded(v, at)
}

// gives: a function of the module that returns a number as it was in the
// bytes does so only with an error, or when it is more than nothing.
func (g *prog) gives(v *ssa.Extract, depth int) bool {
	c, ok := v.Tuple.(*ssa.Call)
	if !ok {
		return true
	}
	f := c.Call.StaticCallee()
	if f == nil || f.Blocks == nil || !inModule(fnPkgPath(f)) || g.deep > 2 || depth > 6 {
		return true
	}
	g.deep++
	defer func() { g.deep-- }()
	last := f.Signature.Results().Len() - 1
	var from func(n, e ssa.Value, b *ssa.BasicBlock, k int) bool
	from = func(n, e ssa.Value, b *ssa.BasicBlock, k int) bool {
		ph, isn := n.(*ssa.Phi)
		pe, ise := e.(*ssa.Phi)
		if k < 4 && ise {
			blk := pe.Block()
			for i, p := range blk.Preds {
				n2, e2 := n, e
				if isn && ph.Block() == blk {
					n2 = ph.Edges[i]
				}
				if ise && pe.Block() == blk {
					e2 = pe.Edges[i]
				}
				if !from(n2, e2, p, k+1) {
					return false
				}
			}
			return true
		}
		if e != nil {
			if x, ok := e.(*ssa.Const); !ok || x.Value != nil {
				return true
			}
		}
		return !g.raw(n) || isZero(n) || g.positive(n, b, depth+1)
	}
	for _, b := range f.Blocks {
		t, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		var e ssa.Value
		if f.Signature.Results().At(last).Type().String() == "error" && last != v.Index {
			e = t.Results[last]
		}
		if !from(t.Results[v.Index], e, b, 0) {
			return false
		}
	}
	return true
}

// basicBits: the types that bytes are read as.
func basicBits(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0 && b.Kind() != types.Int
}

func (g *prog) nonneg(v ssa.Value, at *ssa.BasicBlock, depth int) bool {
	if depth > 8 {
		return false
	}
	if b, ok := v.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
		return true
	}
	switch v := v.(type) {
	case *ssa.Const:
		return v.Value != nil && v.Value.Kind() == constant.Int && constant.Sign(v.Value) >= 0
	case *ssa.Convert:
		return g.nonneg(v.X, at, depth+1)
	case *ssa.BinOp:
		switch v.Op {
		case token.ADD, token.OR, token.MUL, token.SHL, token.SHR, token.QUO, token.AND, token.XOR:
			return g.nonneg(v.X, at, depth+1) && (v.Op == token.SHL || v.Op == token.SHR || g.nonneg(v.Y, at, depth+1))
		}
	case *ssa.Call:
		b, ok := v.Call.Value.(*ssa.Builtin)
		if ok && (b.Name() == "len" || b.Name() == "cap" || b.Name() == "copy") {
			return true
		}
		if f := v.Call.StaticCallee(); !ok && (f == nil || !inModule(fnPkgPath(f))) {
			return true
		}
	case *ssa.Phi:
		for _, e := range v.Edges {
			if e != ssa.Value(v) && !g.nonneg(e, at, depth+1) {
				return false
			}
		}
		return true
	}
	return g.positive(v, at, depth+1)
}

// guarded: a test on the way that lets only positive values through.
func (g *prog) guarded(v ssa.Value, at *ssa.BasicBlock) bool {
	return g.guardedCond(v, nil, true, at, true)
}

func (g *prog) guardedCond(v, cond ssa.Value, val bool, at *ssa.BasicBlock, only bool) bool {
	same := func(x ssa.Value) bool {
		for {
			c, ok := x.(*ssa.Convert)
			if !ok {
				break
			}
			x = c.X
		}
		y := v
		for {
			c, ok := y.(*ssa.Convert)
			if !ok {
				break
			}
			y = c.X
		}
		if x == y {
			return true
		}
		a, b := lenOf(x), lenOf(y)
		if a != nil && a == b {
			return true
		}
		la, ok := x.(*ssa.UnOp)
		lb, ok2 := y.(*ssa.UnOp)
		if !ok || !ok2 || la.Op != token.MUL || lb.Op != token.MUL {
			return false
		}
		r1, p1 := ownAddr(la.X)
		r2, p2 := ownAddr(lb.X)
		return p1 == p2 && (r1 == r2 || progSame(r1, r2))
	}
	var implies func(c ssa.Value, val bool, depth int) bool
	implies = func(c ssa.Value, val bool, depth int) bool {
		if depth > 4 {
			return false
		}
		switch c := c.(type) {
		case *ssa.UnOp:
			return c.Op == token.NOT && implies(c.X, !val, depth+1)
		case *ssa.Phi:
			for i, e := range c.Edges {
				if k, ok := e.(*ssa.Const); ok && k.Value != nil && constant.BoolVal(k.Value) != val {
					continue
				}
				pb := c.Block().Preds[i]
				if !implies(e, val, depth+1) && !(depth < 3 && g.guardedAt(pb, implies, depth+1)) {
					return false
				}
			}
			return true
		case *ssa.Call:
			return g.calleeGuards(c, 0, same, val, false, g.deep)
		case *ssa.BinOp:
			op, x, y := c.Op, c.X, c.Y
			if k, ok := y.(*ssa.Const); ok && k.Value == nil && (op == token.NEQ || op == token.EQL) {
				// a check that returns an error
				e, idx := x, 0
				if ex, ok := e.(*ssa.Extract); ok {
					e, idx = ex.Tuple, ex.Index
				}
				if ca, ok := e.(*ssa.Call); ok && (op == token.EQL) == val {
					return g.calleeGuards(ca, idx, same, false, true, g.deep)
				}
				return false
			}
			if same(y) {
				x, y = y, x
				switch op {
				case token.LSS:
					op = token.GTR
				case token.GTR:
					op = token.LSS
				case token.LEQ:
					op = token.GEQ
				case token.GEQ:
					op = token.LEQ
				}
			}
			if !same(x) {
				return false
			}
			if !val {
				switch op {
				case token.LSS:
					op = token.GEQ
				case token.GEQ:
					op = token.LSS
				case token.GTR:
					op = token.LEQ
				case token.LEQ:
					op = token.GTR
				case token.EQL:
					op = token.NEQ
				case token.NEQ:
					op = token.EQL
				}
			}
			k, ok := y.(*ssa.Const)
			sign := 0
			if ok && k.Value != nil && k.Value.Kind() == constant.Int {
				sign = constant.Sign(k.Value)
			} else if ok || !g.nonneg(y, c.Block(), 4) {
				return false
			}
			switch op {
			case token.GTR:
				return sign >= 0
			case token.GEQ, token.EQL:
				return sign > 0
			case token.NEQ:
				return ok && sign == 0 && g.nonnegBits(v)
			}
		}
		return false
	}
	if !only && implies(cond, val, 0) {
		return true
	}
	return g.guardedAt(at, implies, 0)
}

// calleeGuards: a function of the module that answers val (or no error) only
// for positive values.
func (g *prog) calleeGuards(c *ssa.Call, idx int, same func(ssa.Value) bool, val, isErr bool, depth int) bool {
	f := c.Call.StaticCallee()
	if f == nil || f.Blocks == nil || !inModule(fnPkgPath(f)) || depth > 2 {
		return false
	}
	g.deep++
	defer func() { g.deep-- }()
	for i, a := range c.Call.Args {
		if !same(a) || i >= len(f.Params) {
			continue
		}
		p := f.Params[i]
		all, some := true, false
		var from func(v ssa.Value, b *ssa.BasicBlock, n int)
		from = func(v ssa.Value, b *ssa.BasicBlock, n int) {
			if ph, ok := v.(*ssa.Phi); ok && n < 4 {
				for j, e := range ph.Edges {
					from(e, ph.Block().Preds[j], n+1)
				}
				return
			}
			k, isc := v.(*ssa.Const)
			if isErr {
				if _, made := v.(*ssa.MakeInterface); made {
					return
				}
				if ca, ok := v.(*ssa.Call); ok && ca.Type().String() == "error" {
					return // fmt.Errorf and the like
				}
				if !isc || k.Value != nil {
					all = false
					return
				}
			} else if isc && constant.BoolVal(k.Value) != val {
				return
			}
			some = true
			if !g.guardedCond(p, v, val, b, isErr || isc) {
				all = false
			}
		}
		for _, b := range f.Blocks {
			if t, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && idx < len(t.Results) {
				from(t.Results[idx], b, 0)
			}
		}
		if all && some {
			return true
		}
	}
	return false
}

func (g *prog) nonnegBits(v ssa.Value) bool {
	for {
		if b, ok := v.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
			return true
		}
		if lenOf(v) != nil {
			return true
		}
		c, ok := v.(*ssa.Convert)
		if !ok {
			b, ok := v.(*ssa.BinOp)
			if ok && (b.Op == token.OR || b.Op == token.SHL || b.Op == token.ADD) {
				return g.nonnegBits(b.X)
			}
			return false
		}
		v = c.X
	}
}

func (g *prog) guardedAt(at *ssa.BasicBlock, implies func(ssa.Value, bool, int) bool, depth int) bool {
	for d := at.Idom(); d != nil; d = d.Idom() {
		i, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		for k, s := range d.Succs {
			if len(s.Preds) == 1 && s.Dominates(at) && implies(i.Cond, k == 0, depth) {
				return true
			}
		}
	}
	return false
}

func progSame(a, b ssa.Value) bool {
	x, ok := a.(*ssa.UnOp)
	y, ok2 := b.(*ssa.UnOp)
	if !ok || !ok2 || x.Op != token.MUL || y.Op != token.MUL {
		return false
	}
	r1, p1 := ownAddr(x.X)
	r2, p2 := ownAddr(y.X)
	return p1 == p2 && r1 == r2
}

func isZero(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value != nil && c.Value.Kind() == constant.Int && constant.Sign(c.Value) == 0
}

func (g *prog) callActs(c *ssa.CallCommon) bool {
	if _, ok := c.Value.(*ssa.Builtin); ok {
		return false
	}
	if c.IsInvoke() {
		return progExt.MatchString(c.Method.Name())
	}
	f := c.StaticCallee()
	if f == nil {
		return true // a hook or reader that is given
	}
	for _, a := range c.Args {
		if p, ok := a.Type().Underlying().(*types.Pointer); ok {
			if b, ok := p.Elem().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 && f.Blocks != nil && g.movesParam(f, c.Args, a, map[*ssa.Function]bool{}) {
				return true
			}
		}
	}
	if !inModule(fnPkgPath(f)) || f.Blocks == nil {
		return progExt.MatchString(strings.TrimSuffix(f.Name(), "$bound"))
	}
	return g.may(f)
}

// movesParam: a function that moves the integer an argument points to.
func (g *prog) movesParam(f *ssa.Function, args []ssa.Value, a ssa.Value, seen map[*ssa.Function]bool) bool {
	if seen[f] {
		return false
	}
	seen[f] = true
	for i, x := range args {
		if x != a || i >= len(f.Params) {
			continue
		}
		for _, r := range *f.Params[i].Referrers() {
			switch r := r.(type) {
			case *ssa.Store:
				if r.Addr == ssa.Value(f.Params[i]) && g.moves(r) {
					return true
				}
			case *ssa.Call:
				if h := r.Call.StaticCallee(); h != nil && h.Blocks != nil && g.movesParam(h, r.Call.Args, f.Params[i], seen) {
					return true
				}
			}
		}
	}
	return false
}

// may: a function of the module that can wait or take input.
func (g *prog) may(f *ssa.Function) bool {
	if v, ok := g.acts[f]; ok {
		return v > 0
	}
	g.acts[f] = -1
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			act := false
			switch in := in.(type) {
			case *ssa.Next:
			case *ssa.Store:
				_, fld := in.Addr.(*ssa.FieldAddr)
				_, free := in.Addr.(*ssa.FreeVar)
				act = (fld || free) && g.moves(in)
			default:
				act = g.acting(in)
			}
			if act {
				g.acts[f] = 1
				return true
			}
		}
	}
	return false
}

// round: a way round the loop on which nothing acts.
func (g *prog) quiet(l *natLoop) (map[*ssa.BasicBlock]bool, []*ssa.BasicBlock) {
	inner := map[*ssa.BasicBlock]bool{}
	for _, k := range natLoops(l.head.Parent()) {
		if k.head != l.head && l.body[k.head] && g.takesOne(k) {
			if _, backs := g.quiet(k); len(backs) == 0 {
				inner[k.head] = true
			}
		}
	}
	act := func(b *ssa.BasicBlock) bool {
		if inner[b] {
			return true
		}
		for _, in := range b.Instrs {
			if g.acting(in) {
				return true
			}
		}
		return false
	}
	seen := map[*ssa.BasicBlock]bool{}
	failed := map[*ssa.BasicBlock]bool{}
	work := []*ssa.BasicBlock{l.head}
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[b] || failed[b] || !l.body[b] {
			continue
		}
		if act(b) {
			failed[b] = true
			if !inner[b] {
				for _, s := range g.failure(b) {
					if !l.body[s] {
						continue
					}
					g.fails[[2]*ssa.BasicBlock{b, s}] = true
					if s != l.head {
						work = append(work, s)
					}
				}
			}
			continue
		}
		seen[b] = true
		for _, s := range b.Succs {
			if s != l.head {
				work = append(work, s)
			}
		}
	}
	var backs []*ssa.BasicBlock
	for _, b := range l.backs {
		if seen[b] || g.fails[[2]*ssa.BasicBlock{b, l.head}] {
			backs = append(backs, b)
		}
	}
	return seen, backs
}

// failure: where it goes on when the only thing in the block that waits or
// takes input has failed.
func (g *prog) failure(b *ssa.BasicBlock) (out []*ssa.BasicBlock) {
	var call *ssa.Call
	for _, in := range b.Instrs {
		if !g.acting(in) {
			continue
		}
		c, ok := in.(*ssa.Call)
		if !ok || call != nil {
			return nil
		}
		call = c
	}
	if call == nil {
		return nil
	}
	test := func(e ssa.Value) {
		if !types.Identical(e.Type(), types.Universe.Lookup("error").Type()) || e.Referrers() == nil {
			return
		}
		for _, r := range *e.Referrers() {
			c, ok := r.(*ssa.BinOp)
			if !ok || c.Op != token.NEQ && c.Op != token.EQL {
				continue
			}
			if k, ok := c.Y.(*ssa.Const); !ok || k.Value != nil {
				continue
			}
			for _, q := range *c.Referrers() {
				if i, ok := q.(*ssa.If); ok {
					k := 0
					if c.Op == token.EQL {
						k = 1
					}
					if s := i.Block().Succs[k]; i.Block() == b || b.Dominates(i.Block()) {
						out = append(out, s)
					}
				}
			}
		}
	}
	test(call)
	for _, r := range *call.Referrers() {
		if x, ok := r.(*ssa.Extract); ok {
			test(x)
		}
	}
	return out
}

// takesOne: a loop over a list that is known not to be empty.
func (g *prog) takesOne(l *natLoop) bool {
	t, ok := l.head.Instrs[len(l.head.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	c, ok := t.Cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	list := lenOf(c.Y)
	if list == nil {
		return false
	}
	for d := l.head.Idom(); d != nil; d = d.Idom() {
		i, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		e, ok := i.Cond.(*ssa.BinOp)
		if !ok || lenOf(e.X) != list || !isZero(e.Y) {
			continue
		}
		s := d.Succs[1]
		if e.Op == token.GTR || e.Op == token.NEQ {
			s = d.Succs[0]
		} else if e.Op != token.EQL {
			continue
		}
		if len(s.Preds) == 1 && s.Dominates(l.head) {
			return true
		}
	}
	return false
}

func lenOf(v ssa.Value) ssa.Value {
	c, ok := v.(*ssa.Call)
	if !ok {
		return nil
	}
	if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
		return c.Call.Args[0]
	}
	return nil
}

// stages: a loop over the stages of a connection, of which every one that is
// less than what any caller asks for is told apart.
func (g *prog) stages(l *natLoop, quiet map[*ssa.BasicBlock]bool, backs []*ssa.BasicBlock) bool {
	f := l.head.Parent()
	t, ok := l.head.Instrs[len(l.head.Instrs)-1].(*ssa.If)
	if !ok || token.IsExported(f.Name()) {
		return false
	}
	c, ok := t.Cond.(*ssa.BinOp)
	if !ok || c.Op != token.LSS {
		return false
	}
	pr, ok := c.Y.(*ssa.Parameter)
	ld, ok2 := c.X.(*ssa.UnOp)
	if !ok || !ok2 {
		return false
	}
	r0, p0 := ownAddr(ld.X)
	if p0 == "" {
		return false
	}
	var most int64
	for _, h := range g.p.AllFuncs {
		for _, b := range h.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if *op != ssa.Value(f) {
						continue
					}
					ci, ok := in.(*ssa.Call)
					if !ok || ci.Call.StaticCallee() != f {
						return false
					}
				}
				ci, ok := in.(*ssa.Call)
				if !ok || ci.Call.StaticCallee() != f {
					continue
				}
				for i, q := range f.Params {
					if q != pr {
						continue
					}
					k, ok := ci.Call.Args[i].(*ssa.Const)
					if !ok || k.Value == nil {
						return false
					}
					if n, _ := constant.Int64Val(k.Value); n > most {
						most = n
					}
				}
			}
		}
	}
	known := map[int64]bool{}
	for b := range quiet {
		i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		e, ok := i.Cond.(*ssa.BinOp)
		if !ok || e.Op != token.EQL {
			continue
		}
		x, ok := e.X.(*ssa.UnOp)
		k, ok2 := e.Y.(*ssa.Const)
		if !ok || !ok2 || k.Value == nil || k.Value.Kind() != constant.Int {
			continue
		}
		if r, p := ownAddr(x.X); r != r0 || p != p0 {
			continue
		}
		for _, q := range backs {
			if !b.Dominates(q) {
				ok = false
			}
		}
		n, _ := constant.Int64Val(k.Value)
		known[n] = ok && !quiet[b.Succs[0]]
	}
	for n := int64(0); n < most; n++ {
		if !known[n] {
			return false
		}
	}
	return most > 0
}

// fieldVals: what is stored in a field of a local struct.
func (g *prog) fieldVals(al *ssa.Alloc, path string, seen map[*ssa.Alloc]bool) (out []ssa.Value) {
	if seen[al] {
		return nil
	}
	seen[al] = true
	for _, b := range al.Parent().Blocks {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			r, q := ownAddr(st.Addr)
			if r != ssa.Value(al) {
				continue
			}
			if q == path {
				out = append(out, st.Val)
			} else if ld, ok := st.Val.(*ssa.UnOp); ok && q == "" {
				if a2, ok := ld.X.(*ssa.Alloc); ok {
					out = append(out, g.fieldVals(a2, path, seen)...)
				}
			}
		}
	}
	return out
}

// dep: a value of the loop that a loop variable goes into.
func (g *prog) dep(v ssa.Value, p *ssa.Phi, l *natLoop, seen map[ssa.Value]bool) bool {
	if v == ssa.Value(p) {
		return true
	}
	if seen[v] {
		return false
	}
	seen[v] = true
	in, ok := v.(ssa.Instruction)
	if !ok || !l.body[in.Block()] {
		return false
	}
	for _, op := range in.Operands(nil) {
		if *op != nil && g.dep(*op, p, l, seen) {
			return true
		}
	}
	return false
}

// offset: the loop variable and a constant.
func offset(v ssa.Value, p *ssa.Phi) (int64, bool) {
	if v == ssa.Value(p) {
		return 0, true
	}
	b, ok := v.(*ssa.BinOp)
	if !ok || b.Op != token.ADD && b.Op != token.SUB {
		return 0, false
	}
	c, ok := b.Y.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
		return 0, false
	}
	n, ok := offset(b.X, p)
	k, _ := constant.Int64Val(c.Value)
	if b.Op == token.SUB {
		k = -k
	}
	return n + k, ok
}

// atLeast: the loop variable and nothing negative.
func (g *prog) atLeast(v ssa.Value, p *ssa.Phi, at *ssa.BasicBlock, depth int) bool {
	if v == ssa.Value(p) {
		return true
	}
	b, ok := v.(*ssa.BinOp)
	return ok && b.Op == token.ADD && depth < 4 &&
		(g.atLeast(b.X, p, at, depth+1) && g.nonneg(b.Y, at, depth) || g.atLeast(b.Y, p, at, depth+1) && g.nonneg(b.X, at, depth))
}

// advances: what a loop variable becomes is further on than it was; dir is +1
// or -1 where that is known.
func (g *prog) advances(v ssa.Value, p *ssa.Phi, l *natLoop, quiet map[*ssa.BasicBlock]bool, seen map[ssa.Value]bool) (ok bool, dir int) {
	if seen[v] {
		return true, 0
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.BinOp:
		c, isc := v.Y.(*ssa.Const)
		if n, ok := offset(v, p); ok {
			if n == 0 {
				return false, 0
			}
			if n > 0 {
				return true, 1
			}
			return true, -1
		}
		k := 0
		if isc && c.Value != nil && c.Value.Kind() == constant.Int {
			k = constant.Sign(c.Value)
			if k == 0 {
				break
			}
		}
		switch v.Op {
		case token.ADD, token.SUB:
			if v.X == ssa.Value(p) {
				if !isc && g.raw(v.Y) && !g.positive(v.Y, v.Block(), 0) {
					break
				}
				if v.Op == token.SUB {
					k = -k
				}
				return true, k
			}
			if v.Y == ssa.Value(p) && v.Op == token.ADD && (!g.raw(v.X) || g.positive(v.X, v.Block(), 0)) {
				return true, 0
			}
			if v.Op == token.ADD && (g.atLeast(v.X, p, v.Block(), 0) && g.positive(v.Y, v.Block(), 0) || g.atLeast(v.Y, p, v.Block(), 0) && g.positive(v.X, v.Block(), 0)) {
				return true, 1
			}
			if sub, d := g.advances(v.X, p, l, quiet, seen); sub {
				return true, d
			}
		case token.AND: // x & (x-1)
			d := map[ssa.Value]bool{}
			o1, _ := g.advances(v.X, p, l, quiet, seen)
			o2, _ := g.advances(v.Y, p, l, quiet, seen)
			return (o1 || o2) && g.dep(v.X, p, l, d) && (v.X == ssa.Value(p) || v.Y == ssa.Value(p)), 0
		case token.SHR, token.SHL, token.QUO:
			return v.X == ssa.Value(p), 0
		}
	case *ssa.Convert:
		return g.advances(v.X, p, l, quiet, seen)
	case *ssa.Slice:
		if x, ok := v.X.(*ssa.Slice); ok && v.X != ssa.Value(p) {
			if o, d := g.advances(x, p, l, quiet, seen); o {
				return o, d
			}
		}
		if v.X == ssa.Value(p) || g.dep(v.X, p, l, map[ssa.Value]bool{}) {
			return v.Low != nil && (!g.raw(v.Low) || g.positive(v.Low, v.Block(), 0)) || v.High != nil, 0
		}
	case *ssa.Phi:
		if v == p || !l.body[v.Block()] {
			return false, 0
		}
		d := 0
		for i, e := range v.Edges {
			if pb := v.Block().Preds[i]; !quiet[pb] && !g.fails[[2]*ssa.BasicBlock{pb, v.Block()}] {
				continue
			}
			o, k := g.advances(e, p, l, quiet, seen)
			if !o {
				return false, 0
			}
			if k != 0 {
				d = k
			}
		}
		return true, d
	case *ssa.Extract, *ssa.Call:
		return g.dep(v, p, l, map[ssa.Value]bool{}), 0
	case *ssa.UnOp:
		root, path := ownAddr(v.X)
		if al, ok := root.(*ssa.Alloc); ok && v.Op == token.MUL {
			vs := g.fieldVals(al, path, map[*ssa.Alloc]bool{})
			found, all := len(vs) > 0, true
			for _, x := range vs {
				o, _ := g.advances(x, p, l, quiet, seen)
				all = all && o
			}
			return found && all, 0
		}
		// the next link of a list
		return v.Op == token.MUL && g.dep(v, p, l, map[ssa.Value]bool{}), 0
	case *ssa.Const: // a flag that ends the loop
		_, b := v.Type().Underlying().(*types.Basic)
		return b && v.Type().Underlying().(*types.Basic).Kind() == types.Bool, 0
	}
	return false, 0
}

// ends: an exit of the loop that a loop variable has a say in, and that it
// moves towards.
func (g *prog) ends(l *natLoop, p *ssa.Phi, dir int) bool {
	for b := range l.body {
		t, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || l.body[b.Succs[0]] && l.body[b.Succs[1]] {
			continue
		}
		if !g.dep(t.Cond, p, l, map[ssa.Value]bool{}) {
			continue
		}
		c, ok := t.Cond.(*ssa.BinOp)
		if !ok || dir == 0 {
			return true
		}
		left := g.dep(c.X, p, l, map[ssa.Value]bool{})
		right := g.dep(c.Y, p, l, map[ssa.Value]bool{})
		if left == right {
			return true
		}
		up := 0 // the way that makes the condition false
		switch c.Op {
		case token.LSS, token.LEQ:
			up = 1
		case token.GTR, token.GEQ:
			up = -1
		}
		if right {
			up = -up
		}
		if !l.body[b.Succs[0]] {
			up = -up
		}
		if up == 0 || up == dir || !g.plain(c.X, p) && !g.plain(c.Y, p) {
			return true
		}
	}
	return false
}

// plain: the loop variable itself, or it plus a constant.
func (g *prog) plain(v ssa.Value, p *ssa.Phi) bool {
	if b, ok := v.(*ssa.BinOp); ok && b.Op == token.ADD {
		if _, c := b.Y.(*ssa.Const); c {
			v = b.X
		}
	}
	return v == ssa.Value(p)
}

func init() {
	register("C07", "other", func(r *Report, thorough bool) {
		g := &prog{r.P, map[*ssa.Function]int{}, map[*ssa.Phi]bool{}, 0, map[[2]*ssa.BasicBlock]bool{}}
		r.rule("every way round a loop waits, takes input or an element, or moves a cursor, or moves a loop variable towards an exit that depends on it")
		n, counters := 0, 0
		for _, f := range r.P.AllFuncs {
			if strings.HasSuffix(relPkg(fnPkgPath(f)), "/gen") || strings.HasSuffix(r.P.Fset.Position(f.Pos()).Filename, "_test.go") {
				continue
			}
			for _, l := range natLoops(f) {
				n++
				quiet, backs := g.quiet(l)
				if len(backs) == 0 {
					r.ok(fnName(f) + ": every turn waits or takes input")
					continue
				}
				good := ""
				for _, in := range l.head.Instrs {
					p, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					all, dir := true, 0
					for i, e := range p.Edges {
						pr := l.head.Preds[i]
						if !l.body[pr] || !quiet[pr] && !g.fails[[2]*ssa.BasicBlock{pr, l.head}] {
							continue
						}
						o, d := g.advances(e, p, l, quiet, map[ssa.Value]bool{})
						if !o {
							all = false
						} else if d != 0 {
							dir = d
						}
					}
					if all && g.ends(l, p, dir) {
						good = p.Comment
						if good == "" {
							good = p.Name()
						}
						break
					}
				}
				pos := l.head.Instrs[0].Pos()
				for b := range l.body {
					for _, in := range b.Instrs {
						if q := in.Pos(); q.IsValid() && (!pos.IsValid() || q < pos) {
							pos = q
						}
					}
				}
				if good == "" && g.stages(l, quiet, backs) {
					r.ok(fnName(f) + ": every stage is told apart")
					continue
				}
				if good != "" {
					counters++
					r.ok(fmt.Sprintf("%s: %s moves on, %s", fnName(f), good, r.P.pos(pos)))
					continue
				}
				r.bad("loop|"+fnName(f), r.P.pos(pos), fnName(f)+": there is a way round this loop on which nothing is waited for or taken and nothing it ends by moves on")
			}
		}
		r.need("loops", n, 150)
		r.need("loops with a counter", counters, 100)
	})
}
