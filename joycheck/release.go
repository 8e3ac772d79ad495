package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C16: what is opened is closed or handed on.
//
// A call that opens a file, a listener or a connection makes the function that
// calls it its owner. On every path from there the owner closes it, or hands
// it on: it returns it (by itself or as part of something), sends it, keeps it
// in memory others see, or passes it to a function value or to a function of
// the module that takes it over by the same rule. A path on which the error of
// the call is not nil owns nothing.

// relOpens are the calls that open something; the values are the index of the
// result and whether it is one of its fields (Body) that must be closed.
var relOpens = map[string]bool{
	"os.Open": true, "os.Create": true, "os.OpenFile": true,
	"net.Listen": true, "net.Dial": true, "net.DialTimeout": true, "net.DialTCP": true, "net.Dialer.Dial": true, "net.Dialer.DialContext": true,
	"net.Listener.Accept": true, "net.TCPListener.Accept": true, "tls.Dial": true, "tls.DialWithDialer": true,
	"http.Get": true, "http.Post": true, "http.Client.Do": true, "http.Client.Get": true,
	"context.WithTimeout": true, "context.WithCancel": true, "context.WithDeadline": true,
	"time.NewTicker": true,
}

var relEnds = map[string]bool{"Close": true, "Stop": true, "CloseWrite": false}

type relWalk struct {
	p      *Prog
	own    *relOwn
	fn     *ssa.Function
	origin ssa.Instruction
	err    ssa.Value
	seen   map[string]bool
	start  func(*relState)
	leak   func(pos token.Pos, why string)
}

// relOwn decides which functions take over what they are given.
type relOwn struct {
	p     *Prog
	takes map[*ssa.Parameter]int // 1 yes, 2 no, 3 being decided
	open  map[*ssa.Function]map[int]bool
}

type relState struct {
	in    map[ssa.Value]bool
	errIn map[ssa.Value]bool // the error of the call
	phis  map[ssa.Value]ssa.Value
	open  bool                          // it has been opened
	ends  map[ssa.Value]bool            // cells whose content is closed when the function returns
	conds map[ssa.Value]map[string]bool // what is known of comparisons with constants
}

// compare: what is known of x being the constant c (1 it is, 0 it is not).
func (s *relState) compare(x ssa.Value, c string) int {
	m := s.conds[x]
	if b, ok := m[c]; ok {
		if b {
			return 1
		}
		return 0
	}
	for _, b := range m {
		if b {
			return 0 // it is another one
		}
	}
	return -1
}

func (s *relState) know(x ssa.Value, c string, is bool) {
	m := map[string]bool{c: is}
	for k, v := range s.conds[x] {
		m[k] = v
	}
	s.conds[x] = m
}

func (s *relState) clone() *relState {
	n := &relState{in: map[ssa.Value]bool{}, errIn: map[ssa.Value]bool{}, phis: map[ssa.Value]ssa.Value{}, conds: map[ssa.Value]map[string]bool{}, ends: map[ssa.Value]bool{}, open: s.open}
	for k := range s.ends {
		n.ends[k] = true
	}
	for k, v := range s.conds {
		n.conds[k] = v
	}
	for k := range s.in {
		n.in[k] = true
	}
	for k := range s.errIn {
		n.errIn[k] = true
	}
	for k, v := range s.phis {
		n.phis[k] = v
	}
	return n
}

func (s *relState) key(b *ssa.BasicBlock) string {
	e := &errState{in: s.in, nonnil: s.errIn, phis: s.phis, known: s.open}
	var ks []string
	for x, m := range s.conds {
		for c, v := range m {
			ks = append(ks, fmt.Sprint(x.Name(), c, v))
		}
	}
	sort.Strings(ks)
	return e.key(b) + fmt.Sprint(ks)
}

// closesParam: what the function does with its parameter is to take it over.
func (o *relOwn) takesOver(f *ssa.Function, i int) bool {
	if f == nil || f.Blocks == nil || i >= len(f.Params) || !inModule(fnPkgPath(f)) {
		return false
	}
	par := f.Params[i]
	switch o.takes[par] {
	case 1:
		return true
	case 2, 3:
		return false
	}
	o.takes[par] = 3
	// it does when some path ends it and no path leaks it
	some, leaks := false, false
	w := &relWalk{p: o.p, own: o, fn: f, seen: map[string]bool{}}
	w.leak = func(token.Pos, string) { leaks = true }
	st := newRelState()
	st.in[par] = true
	st.open = true
	some = w.ends(f, par)
	if some {
		w.block(f.Blocks[0], nil, 0, st)
	}
	if some && !leaks {
		o.takes[par] = 1
		return true
	}
	o.takes[par] = 2
	return false
}

// ends: the function closes v or gives it to a function value somewhere.
func (w *relWalk) ends(f *ssa.Function, v ssa.Value) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				cc := c.Common()
				if w.isEnd(cc, map[ssa.Value]bool{v: true}) {
					return true
				}
				if !cc.IsInvoke() && cc.StaticCallee() == nil {
					for _, a := range cc.Args {
						if relRoot(a) == v {
							return true
						}
					}
				}
				if callee := cc.StaticCallee(); callee != nil {
					for i, a := range cc.Args {
						if relRoot(a) == v && w.own.takesOver(callee, i) {
							return true
						}
					}
				}
			}
			if r, ok := in.(*ssa.Return); ok {
				for _, x := range r.Results {
					if relRoot(x) == v {
						return true
					}
				}
			}
		}
	}
	return false
}

func relRoot(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.ChangeInterface:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		case *ssa.Phi:
			if len(x.Edges) == 0 {
				return v
			}
			// any edge will do: the walk itself is exact
			v = x.Edges[0]
			if v == x {
				return v
			}
		default:
			return v
		}
	}
}

// isEnd: the call closes something of in.
func (w *relWalk) isEnd(c *ssa.CallCommon, in map[ssa.Value]bool) bool {
	if c.IsInvoke() {
		return relEnds[c.Method.Name()] && in[c.Value]
	}
	if in[c.Value] && relPath(c.Value.Type()) == "context.CancelFunc" {
		return true
	}
	f := c.StaticCallee()
	if f == nil {
		return false
	}
	n := f.Name()
	if relEnds[n] && len(c.Args) > 0 && in[c.Args[0]] {
		return true
	}
	return false
}

// handsOn: the call takes something of in over.
func (w *relWalk) handsOn(c *ssa.CallCommon, in map[ssa.Value]bool, isGo bool) bool {
	f := c.StaticCallee()
	if m, ok := c.Value.(*ssa.MakeClosure); ok {
		f = m.Fn.(*ssa.Function)
		for i, bnd := range m.Bindings {
			if in[bnd] && relClosureEnds(f, i) {
				return true
			}
		}
	}
	for i, a := range c.Args {
		if !in[a] {
			continue
		}
		if f == nil && !c.IsInvoke() {
			if _, ok := c.Value.(*ssa.Builtin); ok {
				continue
			}
			return true // a function value of the user
		}
		if w.own.takesOver(f, i) {
			return true
		}
		_ = isGo
	}
	return false
}

// relClosureEnds: the closure closes what it captured.
func relClosureEnds(f *ssa.Function, i int) bool {
	fv := f.FreeVars[i]
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			cc := c.Common()
			recv := cc.Value
			name := ""
			if cc.IsInvoke() {
				name = cc.Method.Name()
			} else if s := cc.StaticCallee(); s != nil && len(cc.Args) > 0 {
				recv, name = cc.Args[0], s.Name()
			}
			if !relEnds[name] {
				continue
			}
			for more := true; more; {
				switch u := recv.(type) {
				case *ssa.UnOp:
					recv = u.X
				case *ssa.FieldAddr:
					recv = u.X
				case *ssa.Field:
					recv = u.X
				default:
					more = false
				}
			}
			if recv == ssa.Value(fv) {
				return true
			}
		}
	}
	return false
}

// wraps are calls whose result owns what they are given.
var relWraps = map[string]bool{"tls.Client": true, "tls.Server": true, "io.NopCloser": false}

func (w *relWalk) block(b, pred *ssa.BasicBlock, from int, st *relState) {
	if pred != nil {
		type upd struct {
			phi    *ssa.Phi
			in, er bool
			c      ssa.Value
		}
		var us []upd
		for _, in := range b.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			for i, q := range b.Preds {
				if q == pred {
					v := phi.Edges[i]
					u := upd{phi: phi, in: st.in[v], er: st.errIn[v]}
					if _, ok := v.(*ssa.Const); ok {
						u.c = v
					} else if c := st.phis[v]; c != nil {
						u.c = c
					}
					us = append(us, u)
				}
			}
		}
		for _, u := range us {
			delete(st.in, u.phi)
			delete(st.errIn, u.phi)
			delete(st.phis, u.phi)
			if u.in {
				st.in[u.phi] = true
			}
			if u.er {
				st.errIn[u.phi] = true
			}
			if u.c != nil && (isErr(u.phi.Type()) || isBool(u.phi.Type())) {
				st.phis[u.phi] = u.c
			}
		}
		k := st.key(b)
		if w.seen[k] {
			return
		}
		w.seen[k] = true
	}
	for i := from; i < len(b.Instrs); i++ {
		in := b.Instrs[i]
		if in == w.origin {
			if !st.open {
				w.start(st)
				continue
			}
			for v := range st.in {
				if st.ends[v] {
					w.leak(in.Pos(), "only the last one is closed when the function returns")
					return
				}
			}
			w.leak(in.Pos(), "the call is made again before it is closed")
			return
		}
		if v, ok := in.(ssa.Value); ok {
			delete(st.conds, v)
		}
		carry := func(v, x ssa.Value) {
			delete(st.in, v)
			delete(st.errIn, v)
			delete(st.phis, v)
			if st.in[x] {
				st.in[v] = true
			}
			if st.errIn[x] {
				st.errIn[v] = true
			}
			if c := st.phis[x]; c != nil {
				st.phis[v] = c
			}
		}
		switch in := in.(type) {
		case *ssa.Phi, *ssa.DebugRef, *ssa.RunDefers:
		case *ssa.Defer:
			if w.isEnd(&in.Call, st.in) || w.handsOn(&in.Call, st.in, false) {
				return
			}
			if m, ok := in.Call.Value.(*ssa.MakeClosure); ok {
				for i, x := range m.Bindings {
					if relClosureEnds(m.Fn.(*ssa.Function), i) {
						st.ends[x] = true
					}
				}
			}
		case *ssa.Go:
			if w.isEnd(&in.Call, st.in) || w.handsOn(&in.Call, st.in, true) {
				return
			}
		case *ssa.MakeClosure:
			delete(st.in, in)
			for _, x := range in.Bindings {
				if st.in[x] {
					st.in[in] = true
				}
			}
		case *ssa.MakeInterface:
			carry(in, in.X)
		case *ssa.ChangeInterface:
			carry(in, in.X)
		case *ssa.ChangeType:
			carry(in, in.X)
		case *ssa.TypeAssert:
			carry(in, in.X)
		case *ssa.Extract:
			if t, ok := in.Tuple.(ssa.Instruction); !ok || t != w.origin {
				carry(in, in.Tuple)
				if isErr(in.Type()) {
					delete(st.in, in)
				}
			}
		case *ssa.FieldAddr:
			carry(in, in.X)
		case *ssa.Field:
			carry(in, in.X)
		case *ssa.UnOp:
			carry(in, in.X)
		case *ssa.Store:
			a := in.Addr
			if fa, ok := a.(*ssa.FieldAddr); ok {
				a = fa.X
			}
			if fa, ok := a.(*ssa.FieldAddr); ok {
				a = fa.X
			}
			if al, ok := a.(*ssa.Alloc); ok {
				if st.in[in.Val] {
					st.in[al] = true
				} else if al == in.Addr {
					carry(al, in.Val)
				}
				if isErr(derefType(al.Type())) {
					carry(al, in.Val)
					if c, ok := in.Val.(*ssa.Const); ok {
						st.phis[al] = c
					}
				}
				continue
			}
			if st.in[in.Val] {
				return // others see it
			}
		case *ssa.Send:
			if st.in[in.X] {
				return
			}
		case *ssa.Select:
		case *ssa.MapUpdate:
			if st.in[in.Value] || st.in[in.Key] {
				return
			}
		case *ssa.Panic:
			return
		case *ssa.Call:
			n := calledName(&in.Call)
			if errStops[n] || neverReturns(&in.Call) || w.isEnd(&in.Call, st.in) || w.handsOn(&in.Call, st.in, false) {
				return
			}
			delete(st.in, in)
			delete(st.errIn, in)
			if relWraps[n] && len(in.Call.Args) > 0 && st.in[in.Call.Args[0]] {
				st.in[in] = true
			}
			if f := in.Call.StaticCallee(); f != nil {
				for i, a := range in.Call.Args {
					if st.in[a] && w.own.passes(f, i) && closable(in.Type()) {
						st.in[in] = true
					}
				}
			}
		case *ssa.Return:
			if !st.open {
				return
			}
			for v := range st.in {
				if st.ends[v] {
					return
				}
			}
			for _, r := range in.Results {
				if st.in[r] {
					return
				}
			}
			w.leak(in.Pos(), "the function returns")
			return
		case *ssa.If:
			w.branch(b, in, st)
			return
		case *ssa.Jump:
			w.block(b.Succs[0], b, 0, st)
			return
		default:
			if v, ok := in.(ssa.Value); ok {
				delete(st.in, v)
				delete(st.errIn, v)
			}
		}
	}
}

// passes: a function of the module puts what it is given in what it returns.
func (o *relOwn) passes(f *ssa.Function, i int) bool {
	if f.Blocks == nil || i >= len(f.Params) || !inModule(fnPkgPath(f)) {
		return false
	}
	w := &relWalk{p: o.p, own: o, fn: f}
	return w.returns(f, f.Params[i])
}

func (w *relWalk) returns(f *ssa.Function, v ssa.Value) bool {
	in := map[ssa.Value]bool{v: true}
	for again := true; again; {
		again = false
		add := func(x ssa.Value) {
			if !in[x] {
				in[x] = true
				again = true
			}
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				switch i := i.(type) {
				case *ssa.MakeInterface:
					if in[i.X] {
						add(i)
					}
				case *ssa.ChangeInterface:
					if in[i.X] {
						add(i)
					}
				case *ssa.Phi:
					for _, e := range i.Edges {
						if in[e] {
							add(i)
						}
					}
				case *ssa.UnOp:
					if in[i.X] {
						add(i)
					}
				case *ssa.Store:
					a := i.Addr
					if fa, ok := a.(*ssa.FieldAddr); ok {
						a = fa.X
					}
					if _, ok := a.(*ssa.Alloc); ok && in[i.Val] {
						add(a)
					}
				case *ssa.Return:
					for _, r := range i.Results {
						if in[r] {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

func (w *relWalk) branch(b *ssa.BasicBlock, in *ssa.If, st *relState) {
	x, y, op := errCond(in.Cond)
	isNil := func(v ssa.Value) bool { return ssaNil(v) || st.phis[v] != nil && ssaNil(st.phis[v]) }
	go1 := func(i int) { w.block(b.Succs[i], b, 0, st.clone()) }
	if x != nil {
		if _, ok := x.(*ssa.Const); ok {
			x, y = y, x
		}
		if c, ok := y.(*ssa.Const); ok && c.Value != nil {
			eq, ne := 0, 1
			if op == token.NEQ {
				eq, ne = 1, 0
			}
			k := c.Value.ExactString()
			sent := false
			if e, ok := x.(*ssa.Extract); ok && e.Index == 0 {
				if sel, ok := e.Tuple.(*ssa.Select); ok {
					for i, s := range sel.States {
						sent = sent || fmt.Sprint(i) == k && s.Send != nil && st.in[s.Send]
					}
				}
			}
			is := st.compare(x, k)
			for _, side := range []int{eq, ne} {
				if is == 1 && side == ne || is == 0 && side == eq {
					continue
				}
				if sent && side == eq {
					continue // the receiver has it
				}
				n := st.clone()
				n.know(x, k, side == eq)
				w.block(b.Succs[side], b, 0, n)
			}
			return
		}
	}
	if x != nil {
		if isNil(x) && !isNil(y) {
			x, y = y, x
		}
		eq, ne := 0, 1
		if op == token.NEQ {
			eq, ne = 1, 0
		}
		switch {
		case isNil(x) && isNil(y):
			go1(eq)
			return
		case isNil(y) && st.errIn[x]:
			go1(eq) // on the other side nothing was opened
			return
		case isNil(y) && st.in[x]:
			go1(ne)
			return
		case isErr(x.Type()) && st.errIn[x]:
			go1(ne)
			return
		}
	}
	go1(0)
	go1(1)
}

// opens: the results of a function of the module that the caller owns.
func (o *relOwn) opens(f *ssa.Function) bool {
	if f == nil || !inModule(fnPkgPath(f)) {
		return false
	}
	m, ok := o.open[f]
	if !ok {
		o.open[f] = map[int]bool{}
		m = map[int]bool{}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok || !o.isOpen(&c.Call) {
					continue
				}
				if strings.HasPrefix(calledName(&c.Call), "context.") {
					continue
				}
				w := &relWalk{p: o.p, own: o, fn: f}
				if w.returns2(f, c) {
					m[0] = true
				}
			}
		}
		o.open[f] = m
	}
	return m[0]
}

// returns2: what the call opens is among what the function returns.
func (w *relWalk) returns2(f *ssa.Function, c *ssa.Call) bool {
	if c.Call.Signature().Results().Len() == 1 {
		return w.returns(f, c)
	}
	for _, u := range *c.Referrers() {
		if x, ok := u.(*ssa.Extract); ok && !isErr(x.Type()) && w.returns(f, x) {
			return true
		}
	}
	return false
}

func (o *relOwn) isOpen(c *ssa.CallCommon) bool {
	if relOpens[calledName(c)] {
		return true
	}
	if f := c.StaticCallee(); f != nil && o.opens(f) {
		return true
	}
	return opensConn(c)
}

// opensConn: a function value that dials, or a function of the module that
// returns a connection.
func opensConn(c *ssa.CallCommon) bool {
	sig := c.Signature()
	if _, ok := c.Value.(*ssa.Builtin); ok || c.IsInvoke() {
		return false
	}
	for i := 0; i < sig.Results().Len(); i++ {
		if relPath(sig.Results().At(i).Type()) == "net.Conn" && errResult(sig) > 0 && c.StaticCallee() != nil {
			return true
		}
	}
	return sig.Results().Len() == 2 && relPath(sig.Results().At(0).Type()) == "net.Conn" && isErr(sig.Results().At(1).Type())
}

func relPath(t types.Type) string {
	if n := namedOf(t); n != nil && n.Obj().Pkg() != nil {
		return n.Obj().Pkg().Path() + "." + n.Obj().Name()
	}
	return ""
}

// relBound is the method of a method value.
func relBound(f *ssa.Function) *ssa.Function {
	if !strings.HasSuffix(f.Name(), "$bound") {
		return nil
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok {
				return c.Call.StaticCallee()
			}
		}
	}
	return nil
}

func isCloser(t types.Type) bool {
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if n := ms.At(i).Obj().Name(); n == "Close" || n == "Stop" {
			return true
		}
	}
	return false
}

func init() {
	register("C16", "other", func(r *Report, thorough bool) {
		o := &relOwn{p: r.P, takes: map[*ssa.Parameter]int{}, open: map[*ssa.Function]map[int]bool{}}
		n := 0
		var owners []string
		for _, fn := range r.P.AllFuncs {
			pk := relPkg(fnPkgPath(fn))
			if strings.HasSuffix(pk, "/gen") || strings.HasSuffix(r.P.Fset.Position(fn.Pos()).Filename, "_test.go") {
				continue
			}
			k := 0
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					c, ok := in.(*ssa.Call)
					if !ok || !o.isOpen(&c.Call) {
						continue
					}
					k++
					n++
					name := calledName(&c.Call)
					owners = append(owners, fnName(fn)+" "+name)
					key := fmt.Sprintf("%s|%s|%d", fnName(fn), name, k)
					pos := r.P.pos(in.Pos())
					st := newRelState()
					sig := c.Call.Signature()
					kept := false
					if sig.Results().Len() == 1 {
						st.in[c] = true
						kept = len(*c.Referrers()) > 0
					} else {
						for _, u := range *c.Referrers() {
							x, ok := u.(*ssa.Extract)
							if !ok {
								continue
							}
							if isErr(x.Type()) {
								st.errIn[x] = true
							} else if isCloser(x.Type()) || relPath(x.Type()) == "net/http.Response" || relPath(x.Type()) == "context.CancelFunc" || inModule(relPath(x.Type())) {
								st.in[x] = true
								kept = kept || len(*x.Referrers()) > 0
							}
						}
					}
					if !kept {
						r.bad(key, pos, fmt.Sprintf("%s: nothing holds what %s opens", fnName(fn), name))
						continue
					}
					bad := false
					w := &relWalk{p: r.P, own: o, fn: fn, origin: in, seen: map[string]bool{}}
					w.leak = func(at token.Pos, why string) {
						if !bad {
							bad = true
							r.bad(key, pos, fmt.Sprintf("%s: what %s opens is not closed on a path: %s (%s)", fnName(fn), name, why, r.P.pos(at)))
						}
					}
					w.start = func(s *relState) {
						s.open = true
						for v := range st.in {
							s.in[v] = true
						}
						for v := range st.errIn {
							s.errIn[v] = true
						}
					}
					w.block(fn.Blocks[0], nil, 0, newRelState())
					if !bad {
						r.ok(key + " " + pos)
					}
				}
			}
		}
		hs := relHandlers(r.P)
		for _, fn := range r.P.AllFuncs {
			if !hs[fn] {
				continue
			}
			body := fn
			if b := relBound(fn); b != nil {
				body = b
			}
			for _, par := range body.Params {
				if relPath(par.Type()) != "net.Conn" {
					continue
				}
				key := fnName(body) + "|" + par.Name()
				w := &relWalk{p: r.P, own: o, fn: body, seen: map[string]bool{}}
				bad := false
				w.leak = func(at token.Pos, why string) {
					if !bad {
						bad = true
						r.bad(key, r.P.pos(body.Pos()), fmt.Sprintf("%s: the connection it handles is not closed on a path: %s (%s)", fnName(body), why, r.P.pos(at)))
					}
				}
				st := newRelState()
				st.in[par] = true
				st.open = true
				w.block(body.Blocks[0], nil, 0, st)
				if !bad {
					r.ok(key)
				}
			}
		}
		r.need("handlers of connections", len(hs), 4)
		r.need("calls that open something", n, 15)
		r.Cov["owners"] = owners
	})
}

// closable: the type, or one of the results, has a way to close it.
func closable(t types.Type) bool {
	if tu, ok := t.(*types.Tuple); ok {
		for i := 0; i < tu.Len(); i++ {
			if closable(tu.At(i).Type()) {
				return true
			}
		}
		return false
	}
	if isCloser(t) {
		return true
	}
	if s, ok := derefType(t).Underlying().(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			if isCloser(s.Field(i).Type()) {
				return true
			}
		}
	}
	return false
}

// relHandlers are the functions the server gives a connection to for good.
func relHandlers(p *Prog) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	for _, fn := range p.AllFuncs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok || faName(fa) != "HandleConn" {
					continue
				}
				switch v := s.Val.(type) {
				case *ssa.MakeClosure:
					out[v.Fn.(*ssa.Function)] = true
				case *ssa.Function:
					out[v] = true
				}
			}
		}
	}
	return out
}

func faName(fa *ssa.FieldAddr) string {
	if s, ok := derefType(fa.X.Type()).Underlying().(*types.Struct); ok {
		return s.Field(fa.Field).Name()
	}
	return ""
}

// neverReturns: no path of the function ends.
func neverReturns(c *ssa.CallCommon) bool {
	f := c.StaticCallee()
	if m, ok := c.Value.(*ssa.MakeClosure); ok {
		f = m.Fn.(*ssa.Function)
	}
	if f == nil || f.Blocks == nil || !inModule(fnPkgPath(f)) {
		return false
	}
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock) bool
	walk = func(b *ssa.BasicBlock) bool {
		if seen[b] {
			return true
		}
		seen[b] = true
		if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			return false
		}
		for _, s := range b.Succs {
			if !walk(s) {
				return false
			}
		}
		return true
	}
	return walk(f.Blocks[0])
}

func newRelState() *relState {
	return &relState{in: map[ssa.Value]bool{}, errIn: map[ssa.Value]bool{}, phis: map[ssa.Value]ssa.Value{}, conds: map[ssa.Value]map[string]bool{}, ends: map[ssa.Value]bool{}}
}
