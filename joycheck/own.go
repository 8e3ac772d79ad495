package main

import (
	"fmt"
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C17: whose bytes are whose. A flow-insensitive, inclusion-based analysis of
// which byte storage every []byte of the module may be: storage made at one
// allocation, or given by a caller. Structs are told apart by allocation while
// they stay local, by type and field otherwise. An element carries the field
// it was last loaded from, so that a write to what was just made is told from
// a write through what was kept.

type ownElem struct {
	obj  int
	mark string
}

type ownEdge struct {
	to   int
	mark string
}

type ownKey struct {
	v    interface{}
	path string
}

type ownObj struct {
	what     string
	pos      token.Pos
	given    bool
	volatile bool
	fn       *ssa.Function
	bind     *ssa.MakeClosure
}

type ownWrite struct {
	fn   *ssa.Function
	pos  token.Pos
	node int
	how  string
}

type ownDyn struct {
	fn   *ssa.Function
	call ssa.CallInstruction
	done map[*ssa.Function]bool
}

type own struct {
	p      *Prog
	ids    map[ownKey]int
	keys   []ownKey
	pts    []map[ownElem]bool
	edges  [][]ownEdge
	eseen  map[[2]int]map[string]bool
	objs   []*ownObj
	oids   map[interface{}]int
	writes []*ownWrite
	dyns   map[int][]*ownDyn
	work   [][2]interface{}
	result []int // nodes handed out
	rname  map[int]string
	local  map[*ssa.Alloc]bool
	ronly  map[*ssa.Parameter]int
	puts   map[string][]*ssa.Store // into fields of structs that are kept
	params map[int][]int           // of a node handed out: nodes of its function's parameters
	funcs  int
}

func (o *own) node(v interface{}, path string) int {
	k := ownKey{v, path}
	if n, ok := o.ids[k]; ok {
		return n
	}
	n := len(o.keys)
	o.ids[k] = n
	o.keys = append(o.keys, k)
	o.pts = append(o.pts, map[ownElem]bool{})
	o.edges = append(o.edges, nil)
	if f, ok := v.(*ssa.Function); ok && path == "" {
		o.put(n, ownElem{o.obj(f, &ownObj{what: "function", fn: f}), ""})
	}
	return n
}

func (o *own) obj(key interface{}, x *ownObj) int {
	if n, ok := o.oids[key]; ok {
		return n
	}
	n := len(o.objs)
	o.oids[key] = n
	o.objs = append(o.objs, x)
	return n
}

func (o *own) put(n int, e ownElem) {
	if o.pts[n][e] {
		return
	}
	o.pts[n][e] = true
	o.work = append(o.work, [2]interface{}{n, e})
}

func (o *own) edge(from, to int, mark string) {
	if from == to {
		return
	}
	k := [2]int{from, to}
	if o.eseen[k] == nil {
		o.eseen[k] = map[string]bool{}
	}
	if o.eseen[k][mark] {
		return
	}
	o.eseen[k][mark] = true
	o.edges[from] = append(o.edges[from], ownEdge{to, mark})
	for e := range o.pts[from] {
		if mark != "" {
			e.mark = mark
		}
		o.put(to, e)
	}
}

func (o *own) solve() {
	for len(o.work) > 0 {
		w := o.work[len(o.work)-1]
		o.work = o.work[:len(o.work)-1]
		n, e := w[0].(int), w[1].(ownElem)
		for _, d := range o.dyns[n] {
			if f := o.objs[e.obj].fn; f != nil && !d.done[f] {
				d.done[f] = true
				o.link(d.call, f, false)
			}
		}
		for _, ed := range o.edges[n] {
			x := e
			if ed.mark != "" {
				x.mark = ed.mark
			}
			o.put(ed.to, x)
		}
	}
}

func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func isBytes(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isByte(s.Elem())
}

// ownLeaves: where in a value of a type bytes or functions may be.
func ownLeaves(t types.Type) []string {
	var out []string
	sub := func(i int, t types.Type) {
		for _, p := range ownLeaves(t) {
			out = append(out, fmt.Sprintf(".%d%s", i, p))
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		if isByte(u.Elem()) || len(ownLeaves(u.Elem())) == 1 && ownLeaves(u.Elem())[0] == "" {
			return []string{""}
		}
	case *types.Array:
		if ls := ownLeaves(u.Elem()); len(ls) == 1 && ls[0] == "" {
			return []string{""}
		}
	case *types.Map:
		if ls := ownLeaves(u.Elem()); len(ls) == 1 && ls[0] == "" {
			return []string{""}
		}
	case *types.Chan:
		if ls := ownLeaves(u.Elem()); len(ls) == 1 && ls[0] == "" {
			return []string{""}
		}
	case *types.Interface, *types.Signature:
		return []string{""}
	case *types.Pointer:
		if _, ok := u.Elem().Underlying().(*types.Struct); ok {
			return nil
		}
		if a, ok := u.Elem().Underlying().(*types.Array); ok && isByte(a.Elem()) {
			return []string{""}
		}
		if ls := ownLeaves(u.Elem()); len(ls) == 1 && ls[0] == "" {
			return []string{""}
		}
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			sub(i, u.Field(i).Type())
		}
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			sub(i, u.At(i).Type())
		}
	}
	return out
}

// leafType: the type of the part of a value at a path.
func leafType(t types.Type, path string) types.Type {
	for path != "" {
		var i, k int
		fmt.Sscanf(path, ".%d%n", &i, &k)
		j := strings.IndexByte(path[1:], '.')
		if j < 0 {
			path = ""
		} else {
			path = path[j+1:]
		}
		switch u := t.Underlying().(type) {
		case *types.Struct:
			t = u.Field(i).Type()
		case *types.Tuple:
			t = u.At(i).Type()
		}
	}
	return t
}

// heap: the node of a field of every struct of a type that is not local.
func (o *own) heap(t types.Type, path string) (int, string) {
	name := ""
	for path != "" {
		var i int
		fmt.Sscanf(path, ".%d", &i)
		j := strings.IndexByte(path[1:], '.')
		if j < 0 {
			path = ""
		} else {
			path = path[j+1:]
		}
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			break
		}
		ty := strings.ReplaceAll(types.TypeString(t, nil), modPath+"/", "")
		if len(ty) > 80 {
			ty = "struct"
		}
		name = ty + "." + st.Field(i).Name()
		t = st.Field(i).Type()
	}
	return o.node("heap "+name, ""), name
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// stays: a variable whose address is only used to read and write it.
func (o *own) stays(a *ssa.Alloc) bool {
	if v, ok := o.local[a]; ok {
		return v
	}
	var only func(v ssa.Value) bool
	only = func(v ssa.Value) bool {
		for _, r := range *v.Referrers() {
			switch r := r.(type) {
			case *ssa.Store:
				if r.Val == v {
					return false
				}
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.FieldAddr:
				if !only(r) {
					return false
				}
			case *ssa.Call:
				if !o.reads(r, v) {
					return false
				}
			case *ssa.IndexAddr, *ssa.Slice:
				if _, ok := deref(v.Type()).Underlying().(*types.Array); !ok {
					return false
				}
			default:
				return false
			}
		}
		return true
	}
	o.local[a] = only(a)
	return o.local[a]
}

// reads: a call that only reads the struct an argument points to.
func (o *own) reads(c *ssa.Call, v ssa.Value) bool {
	f := c.Call.StaticCallee()
	if f == nil || f.Blocks == nil || !inModule(fnPkgPath(f)) || len(c.Call.Args) != len(f.Params) || !ownStruct(deref(v.Type())) {
		return false
	}
	for i, a := range c.Call.Args {
		if a == v && !o.readOnly(f.Params[i]) {
			return false
		}
	}
	return c.Call.Value != v
}

// readOnly: a pointer parameter of an unexported function through which the
// struct is only read.
func (o *own) readOnly(p *ssa.Parameter) bool {
	if v, ok := o.ronly[p]; ok {
		return v > 0
	}
	f := p.Parent()
	if token.IsExported(f.Name()) || f.Parent() != nil || !ownStruct(deref(p.Type())) {
		o.ronly[p] = -1
		return false
	}
	if _, ptr := p.Type().Underlying().(*types.Pointer); !ptr {
		o.ronly[p] = -1
		return false
	}
	o.ronly[p] = -1 // a recursive use is not looked into
	var only func(v ssa.Value) bool
	only = func(v ssa.Value) bool {
		for _, r := range *v.Referrers() {
			switch r := r.(type) {
			case *ssa.Store:
				if r.Val == v || len(ownLeaves(r.Val.Type())) > 0 {
					return false
				}
			case *ssa.UnOp, *ssa.DebugRef, *ssa.BinOp:
			case *ssa.FieldAddr:
				if !only(r) {
					return false
				}
			case *ssa.Call:
				if !o.reads(r, v) {
					return false
				}
			default:
				return false
			}
		}
		return true
	}
	for _, g := range o.p.AllFuncs {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				ci, call := in.(ssa.CallInstruction)
				for _, op := range in.Operands(nil) {
					if *op == ssa.Value(f) && (!call || ci.Common().Value != ssa.Value(f)) {
						return false
					}
				}
			}
		}
	}
	if only(p) {
		o.ronly[p] = 1
	}
	return o.ronly[p] > 0
}

// at: the node an address with a path below it stands for, and the field
// that something loaded from it was kept in.
func (o *own) at(addr ssa.Value, path string) (int, string) {
	switch a := addr.(type) {
	case *ssa.FieldAddr:
		full := fmt.Sprintf(".%d%s", a.Field, path)
		root := a.X
		rp := full
		for {
			fa, ok := root.(*ssa.FieldAddr)
			if !ok {
				break
			}
			rp = fmt.Sprintf(".%d%s", fa.Field, rp)
			root = fa.X
		}
		al, isAl := root.(*ssa.Alloc)
		if isAl && o.stays(al) {
			return o.node(al, rp), ""
		}
		if pr, ok := root.(*ssa.Parameter); ok && o.readOnly(pr) {
			return o.node(pr, "*"+rp), ""
		}
		n, m := o.heap(deref(a.X.Type()), full)
		if isAl {
			m = ""
		}
		return n, m
	case *ssa.IndexAddr:
		if path != "" {
			return o.heap(deref(a.Type()), path)
		}
		if _, ok := a.X.Type().Underlying().(*types.Slice); !ok {
			return o.at(a.X, "")
		}
		return o.node(a.X, ""), ""
	case *ssa.Global:
		if path != "" {
			return o.heap(deref(a.Type()), path)
		}
		return o.node(a, ""), "variable " + a.Name()
	case *ssa.Alloc:
		if path == "" || o.stays(a) {
			return o.node(a, path), ""
		}
		n, _ := o.heap(deref(a.Type()), path)
		return n, ""
	case *ssa.FreeVar:
		if path == "" {
			if o.keptClosure(a.Parent()) {
				return o.node(a, ""), "variable " + a.Name()
			}
			return o.node(a, ""), ""
		}
	}
	if path != "" {
		if pr, ok := addr.(*ssa.Parameter); ok && o.readOnly(pr) {
			return o.node(pr, "*"+path), ""
		}
		return o.heap(deref(addr.Type()), path)
	}
	return o.node(addr, ""), ""
}

// keptClosure: a closure that is returned or put in a struct, and so may be
// called again with the same variables.
func (o *own) keptClosure(f *ssa.Function) bool {
	if f.Parent() == nil {
		return false
	}
	for _, b := range f.Parent().Blocks {
		for _, in := range b.Instrs {
			mc, ok := in.(*ssa.MakeClosure)
			if !ok || mc.Fn != ssa.Value(f) {
				continue
			}
			for _, r := range *mc.Referrers() {
				switch r := r.(type) {
				case *ssa.Return:
					return true
				case *ssa.Store:
					if _, ok := r.Addr.(*ssa.FieldAddr); ok {
						return true
					}
				}
			}
		}
	}
	return false
}

// stored: the stores of a function to the field a load reads, if one of them
// comes before it on every path.
func (o *own) stored(ld *ssa.UnOp) (out []*ssa.Store) {
	root, path := ownAddr(ld.X)
	if path == "" {
		return nil
	}
	dom := false
	for _, b := range ld.Parent().Blocks {
		for i, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			if r, p := ownAddr(st.Addr); r != root || p != path {
				continue
			}
			out = append(out, st)
			if b != ld.Block() {
				dom = dom || b.Dominates(ld.Block())
				continue
			}
			for _, x := range b.Instrs[i:] {
				dom = dom || x == ssa.Instruction(ld)
			}
		}
	}
	if !dom {
		return nil
	}
	return out
}

func ownAddr(a ssa.Value) (root ssa.Value, path string) {
	for {
		fa, ok := a.(*ssa.FieldAddr)
		if !ok {
			return a, path
		}
		path = fmt.Sprintf(".%d%s", fa.Field, path)
		a = fa.X
	}
}

// copy: one value becomes another of the same type.
func (o *own) copy(from interface{}, fp string, to interface{}, tp string, t types.Type, mark string) {
	for _, p := range ownLeaves(t) {
		a, b := o.node(from, fp+p), o.node(to, tp+p)
		o.edge(a, b, mark)
		if pt, ok := leafType(t, p).Underlying().(*types.Pointer); ok {
			if _, arr := pt.Elem().Underlying().(*types.Array); !arr {
				o.edge(b, a, "")
			}
		}
	}
}

func (o *own) write(fn *ssa.Function, pos token.Pos, v ssa.Value, how string) {
	o.writes = append(o.writes, &ownWrite{fn, pos, o.node(v, ""), how})
}

// boxed: a struct in an interface, map or channel is told apart by its type.
func ownStruct(t types.Type) bool {
	_, ok := t.Underlying().(*types.Struct)
	return ok
}

func (o *own) toHeap(v interface{}, path string, t types.Type) {
	for _, p := range ownLeaves(t) {
		n, _ := o.heap(t, p)
		o.edge(o.node(v, path+p), n, "")
	}
}

func (o *own) fromHeap(t types.Type, v interface{}, path string) {
	for _, p := range ownLeaves(t) {
		n, m := o.heap(t, p)
		o.edge(n, o.node(v, path+p), m)
	}
}

func (o *own) fresh(v ssa.Value, path, what string) {
	o.put(o.node(v, path), ownElem{o.obj(ownKey{v, path}, &ownObj{what: what, pos: v.Pos()}), ""})
}

var (
	ownOut  = regexp.MustCompile(`^(Put|Fill|Marshal|Write[A-Z]|Read$|ReadAt$|ReadTag$)`)
	ownFill = regexp.MustCompile(`^(Read|ReadFull|ReadAtLeast|ReadAt|Put.*|Decode|Encode|XORKeyStream|RecvMsg|ReadFrom)$`)
	ownHold = regexp.MustCompile(`^(Peek|Bytes|ReadSlice|ReadLine|Next|Scan|Get|AvailableBuffer)$`)
)

func (o *own) gen(f *ssa.Function) {
	o.funcs++
	out := ownOut.MatchString(f.Name())
	for _, pr := range f.Params {
		filled := out && isBytes(pr.Type())
		if filled {
			out = false
		}
		for _, p := range ownLeaves(pr.Type()) {
			t := leafType(pr.Type(), p)
			if !isBytes(t) && !strings.HasSuffix(t.String(), "[][]byte") {
				continue
			}
			exported := f.Parent() == nil && token.IsExported(f.Name())
			if p == "" && (!exported || filled) || p != "" && !exported && f.Parent() == nil {
				continue
			}
			o.put(o.node(pr, p), ownElem{o.obj(ownKey{pr, p}, &ownObj{what: fmt.Sprintf("%s given to %s", pr.Name(), fnName(f)), pos: f.Pos(), given: true}), ""})
		}
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			o.instr(f, in)
		}
	}
}

func (o *own) instr(f *ssa.Function, in ssa.Instruction) {
	switch in := in.(type) {
	case *ssa.Store:
		if ia, ok := in.Addr.(*ssa.IndexAddr); ok && isByte(deref(ia.Type())) {
			o.write(f, in.Pos(), ia.X, "written")
			return
		}
		for _, p := range ownLeaves(in.Val.Type()) {
			n, m := o.at(in.Addr, p)
			if _, ok := in.Addr.(*ssa.FieldAddr); ok && m != "" && isBytes(in.Val.Type()) {
				o.puts[m] = append(o.puts[m], in)
			}
			o.edge(o.node(in.Val, p), n, "")
		}
	case *ssa.UnOp:
		switch in.Op {
		case token.MUL:
			for _, p := range ownLeaves(in.Type()) {
				n, m := o.at(in.X, p)
				if ss := o.stored(in); len(ss) > 0 {
					for _, st := range ss {
						o.edge(o.node(st.Val, p), o.node(in, p), "")
					}
					continue
				}
				o.edge(n, o.node(in, p), m)
				if pt, ok := leafType(in.Type(), p).Underlying().(*types.Pointer); ok {
					if _, arr := pt.Elem().Underlying().(*types.Array); !arr {
						o.edge(o.node(in, p), n, "")
					}
				}
			}
		case token.ARROW:
			t := in.X.Type().Underlying().(*types.Chan).Elem()
			if ownStruct(t) {
				pre := ""
				if in.CommaOk {
					pre = ".0"
				}
				o.fromHeap(t, in, pre)
			} else if in.CommaOk {
				o.copy(in.X, "", in, ".0", t, "")
			} else {
				o.copy(in.X, "", in, "", t, "")
			}
		}
	case *ssa.Send:
		if t := in.X.Type(); ownStruct(t) {
			o.toHeap(in.X, "", t)
		} else {
			o.copy(in.X, "", in.Chan, "", t, "")
		}
	case *ssa.Select:
		k := 2
		for _, s := range in.States {
			t := s.Chan.Type().Underlying().(*types.Chan).Elem()
			if s.Dir == types.SendOnly {
				if ownStruct(t) {
					o.toHeap(s.Send, "", t)
				} else {
					o.copy(s.Send, "", s.Chan, "", t, "")
				}
				continue
			}
			pre := fmt.Sprintf(".%d", k)
			k++
			if ownStruct(t) {
				o.fromHeap(t, in, pre)
			} else {
				o.copy(s.Chan, "", in, pre, t, "")
			}
		}
	case *ssa.Phi:
		for _, e := range in.Edges {
			o.copy(e, "", in, "", in.Type(), "")
		}
	case *ssa.ChangeType:
		o.copy(in.X, "", in, "", in.Type(), "")
	case *ssa.ChangeInterface:
		o.copy(in.X, "", in, "", in.Type(), "")
	case *ssa.Convert:
		if isBytes(in.Type()) {
			if isBytes(in.X.Type()) {
				o.copy(in.X, "", in, "", in.Type(), "")
			} else {
				o.fresh(in, "", "the bytes of a string")
			}
		}
	case *ssa.MakeInterface:
		if ownStruct(in.X.Type()) {
			o.toHeap(in.X, "", in.X.Type())
		} else {
			o.copy(in.X, "", in, "", in.X.Type(), "")
		}
	case *ssa.TypeAssert:
		pre := ""
		if in.CommaOk {
			pre = ".0"
		}
		if ownStruct(in.AssertedType) {
			o.fromHeap(in.AssertedType, in, pre)
		} else if len(ownLeaves(in.AssertedType)) == 1 {
			o.copy(in.X, "", in, pre, in.AssertedType, "")
		}
	case *ssa.Field:
		o.copy(in.X, fmt.Sprintf(".%d", in.Field), in, "", in.Type(), "")
	case *ssa.Extract:
		o.copy(in.Tuple, fmt.Sprintf(".%d", in.Index), in, "", in.Type(), "")
	case *ssa.Index:
		if ownStruct(in.Type()) {
			o.fromHeap(in.Type(), in, "")
		} else {
			o.copy(in.X, "", in, "", in.Type(), "")
		}
	case *ssa.Slice:
		if _, ok := in.X.Type().Underlying().(*types.Pointer); ok {
			if isBytes(in.Type()) {
				mark := ""
				if fa, ok := in.X.(*ssa.FieldAddr); ok {
					_, mark = o.heap(deref(fa.X.Type()), fmt.Sprintf(".%d", fa.Field))
					o.put(o.node(in, ""), ownElem{o.obj("array "+mark, &ownObj{what: "the array " + mark, pos: in.Pos()}), mark})
				} else {
					o.put(o.node(in, ""), ownElem{o.obj(in.X, &ownObj{what: "an array", pos: in.X.Pos()}), ""})
				}
				return
			}
			if len(ownLeaves(in.Type())) > 0 {
				n, m := o.at(in.X, "")
				o.edge(n, o.node(in, ""), m)
				o.edge(o.node(in, ""), n, "")
			}
			return
		}
		o.copy(in.X, "", in, "", in.Type(), "")
	case *ssa.MakeSlice:
		if isBytes(in.Type()) {
			o.fresh(in, "", "made")
		}
	case *ssa.MapUpdate:
		if t := in.Value.Type(); ownStruct(t) {
			o.toHeap(in.Value, "", t)
		} else {
			o.copy(in.Value, "", in.Map, "", t, "")
		}
	case *ssa.Lookup:
		m, ok := in.X.Type().Underlying().(*types.Map)
		if !ok {
			return
		}
		pre := ""
		if in.CommaOk {
			pre = ".0"
		}
		if ownStruct(m.Elem()) {
			o.fromHeap(m.Elem(), in, pre)
		} else {
			o.copy(in.X, "", in, pre, m.Elem(), "")
		}
	case *ssa.Range:
		if m, ok := in.X.Type().Underlying().(*types.Map); ok && !ownStruct(m.Elem()) {
			o.copy(in.X, "", in, "", m.Elem(), "")
		}
	case *ssa.Next:
		rg, ok := in.Iter.(*ssa.Range)
		if !ok {
			return
		}
		if m, ok := rg.X.Type().Underlying().(*types.Map); ok {
			if ownStruct(m.Elem()) {
				o.fromHeap(m.Elem(), in, ".2")
			} else {
				o.copy(rg, "", in, ".2", m.Elem(), "")
			}
		}
	case *ssa.MakeClosure:
		fn := in.Fn.(*ssa.Function)
		o.put(o.node(in, ""), ownElem{o.obj(fn, &ownObj{what: "function", fn: fn}), ""})
		for i, bd := range in.Bindings {
			t := bd.Type()
			for _, p := range ownLeaves(t) {
				a, b := o.node(bd, p), o.node(fn.FreeVars[i], p)
				o.edge(a, b, "")
				o.edge(b, a, "")
			}
		}
	case *ssa.Return:
		for i, v := range in.Results {
			o.copy(v, "", retKey{f}, fmt.Sprintf(".%d", i), v.Type(), "")
		}
	case ssa.CallInstruction:
		o.call(f, in)
	}
}

type retKey struct{ f *ssa.Function }

// link: a call of a function of the module.
func (o *own) link(ci ssa.CallInstruction, f *ssa.Function, invoke bool) {
	c := ci.Common()
	args := c.Args
	if invoke {
		args = append([]ssa.Value{c.Value}, args...)
	}
	for i, a := range args {
		if i < len(f.Params) && (i > 0 || !invoke) {
			o.copy(a, "", f.Params[i], "", f.Params[i].Type(), "")
			if o.readOnly(f.Params[i]) {
				for _, p := range ownLeaves(deref(a.Type())) {
					n, m := o.at(a, p)
					o.edge(n, o.node(f.Params[i], "*"+p), m)
				}
			}
		}
	}
	v := ci.Value()
	if v == nil {
		return
	}
	rs := f.Signature.Results()
	if rs.Len() == 1 {
		o.copy(retKey{f}, ".0", v, "", rs.At(0).Type(), "")
		return
	}
	o.copy(retKey{f}, "", v, "", rs, "")
}

func (o *own) call(f *ssa.Function, ci ssa.CallInstruction) {
	c := ci.Common()
	pos := ci.Pos()
	if b, ok := c.Value.(*ssa.Builtin); ok {
		v := ci.Value()
		switch b.Name() {
		case "append":
			a := c.Args[0]
			if isBytes(v.Type()) {
				o.fresh(v, "", "grown by append")
				if k, ok := a.(*ssa.Const); ok && k.Value == nil {
					return
				}
				o.copy(a, "", v, "", v.Type(), "")
				if s, ok := a.(*ssa.Slice); ok && s.Max != nil && s.High != nil && ownSame(s.Max, s.High) {
					return
				}
				o.write(f, pos, a, "appended to")
				return
			}
			o.copy(a, "", v, "", v.Type(), "")
			if len(c.Args) > 1 {
				o.copy(c.Args[1], "", v, "", v.Type(), "")
			}
		case "copy":
			d := c.Args[0]
			if isBytes(d.Type()) {
				o.write(f, pos, d, "copied into")
			} else {
				o.copy(c.Args[1], "", d, "", d.Type(), "")
			}
		}
		return
	}
	external := true
	name, pkg := "", ""
	if c.IsInvoke() {
		name = c.Method.Name()
		if c.Method.Pkg() != nil {
			pkg = c.Method.Pkg().Path()
		}
		for _, g := range o.impls(c) {
			o.link(ci, g, true)
		}
	} else if g := c.StaticCallee(); g != nil {
		name, pkg = g.Name(), fnPkgPath(g)
		if g.Blocks != nil && inModule(pkg) {
			o.link(ci, g, false)
			external = false
		}
	} else {
		n := o.node(c.Value, "")
		o.dyns[n] = append(o.dyns[n], &ownDyn{f, ci, map[*ssa.Function]bool{}})
		for e := range o.pts[n] {
			o.work = append(o.work, [2]interface{}{n, e})
		}
		name = "a function"
	}
	for i, a := range c.Args {
		if strings.HasSuffix(name, "WritePacket") {
			o.hand(a, a.Type(), fmt.Sprintf("the packet written in %s", fnName(f)))
		}
		if external && (isBytes(a.Type()) || isBytes(deref(a.Type()))) && ownFill.MatchString(name) && !(i == 0 && pkg == "encoding/base64") {
			src := (name == "Decode" || name == "Encode" || name == "XORKeyStream") && i > 0 && isBytes(c.Args[i-1].Type())
			if !src {
				o.write(f, pos, a, "filled by "+name)
			}
		}
	}
	v := ci.Value()
	if v == nil || !external {
		return
	}
	for _, p := range ownLeaves(v.Type()) {
		t := leafType(v.Type(), p)
		switch {
		case isBytes(t):
			x := &ownObj{what: "from " + name, pos: pos, volatile: ownHold.MatchString(name) && !inModule(pkg) && pkg != "net"}
			if len(c.Args) > 0 {
				if _, ok := c.Args[0].(*ssa.Alloc); ok {
					x.volatile = false
				}
			}
			if p != "" && strings.Contains(v.Type().String(), "av.Packet") || strings.Contains(v.Type().String(), "flvio.Tag") {
				x.given = true
			}
			o.put(o.node(v, p), ownElem{o.obj(ownKey{v, p}, x), ""})
			if pkg == "bytes" {
				for _, a := range c.Args {
					if isBytes(a.Type()) {
						o.edge(o.node(a, ""), o.node(v, p), "")
					}
				}
			}
		case p == "" && name == "Get" && pkg == "sync":
			o.put(o.node(v, p), ownElem{o.obj(ownKey{v, p}, &ownObj{what: "from a pool", pos: pos, volatile: true}), ""})
		}
	}
}

// ownSame: two values that are the same number.
func ownSame(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	if x, ok := a.(*ssa.Const); ok {
		y, ok := b.(*ssa.Const)
		return ok && x.Value != nil && y.Value != nil && x.Value.ExactString() == y.Value.ExactString()
	}
	x, ok := a.(*ssa.Call)
	y, ok2 := b.(*ssa.Call)
	if !ok || !ok2 {
		return false
	}
	bx, ok := x.Call.Value.(*ssa.Builtin)
	by, ok2 := y.Call.Value.(*ssa.Builtin)
	return ok && ok2 && bx.Name() == "len" && by.Name() == "len" && x.Call.Args[0] == y.Call.Args[0]
}

// impls: the methods of the module an interface call may reach.
func (o *own) impls(c *ssa.CallCommon) []*ssa.Function {
	it, ok := c.Value.Type().Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var out []*ssa.Function
	for _, g := range o.p.AllFuncs {
		if g.Name() != c.Method.Name() || g.Signature.Recv() == nil {
			continue
		}
		rt := g.Signature.Recv().Type()
		if types.Implements(rt, it) || types.Implements(types.NewPointer(deref(rt)), it) {
			out = append(out, g)
		}
	}
	return out
}

// hand: bytes that go to someone else.
func (o *own) hand(v interface{}, t types.Type, what string) {
	for _, p := range ownLeaves(t) {
		lt := leafType(t, p)
		s := lt.String()
		if isBytes(lt) || s == "[][]byte" {
			n := o.node(v, p)
			o.result = append(o.result, n)
			if o.rname[n] == "" {
				o.rname[n] = what
			}
		}
	}
}

// growing: a field whose bytes are read piece by piece before they are handed
// on; what is put there must be new.
var ownGrowing = map[string]bool{"format/rtmp.message.msgdata": true}

func ownRun(p *Prog) *own {
	o := &own{p: p, ids: map[ownKey]int{}, eseen: map[[2]int]map[string]bool{}, oids: map[interface{}]int{}, dyns: map[int][]*ownDyn{}, rname: map[int]string{}, local: map[*ssa.Alloc]bool{}, ronly: map[*ssa.Parameter]int{}, params: map[int][]int{}, puts: map[string][]*ssa.Store{}}
	for _, f := range p.AllFuncs {
		if strings.HasSuffix(relPkg(fnPkgPath(f)), "/gen") || strings.HasSuffix(p.Fset.Position(f.Pos()).Filename, "_test.go") {
			continue
		}
		o.gen(f)
		if f.Parent() == nil && token.IsExported(f.Name()) && !strings.HasPrefix(f.Name(), "Tmp") || f.Parent() != nil {
			rs := f.Signature.Results()
			if rc := f.Signature.Recv(); rc != nil {
				if n := namedOf(deref(rc.Type())); n == nil || !n.Obj().Exported() {
					continue
				}
			}
			for i := 0; i < rs.Len(); i++ {
				t := rs.At(i).Type()
				if f.Parent() != nil && !ownStruct(t) {
					continue
				}
				for _, pth := range ownLeaves(t) {
					o.node(retKey{f}, fmt.Sprintf(".%d%s", i, pth))
				}
				o.handAt(f, i, t, "what "+fnName(f)+" returns")
			}
		}
	}
	for _, sp := range p.Pkgs {
		if f := sp.Func("init"); f != nil && f.Blocks != nil {
			o.gen(f)
		}
	}
	o.solve()
	return o
}

func (o *own) handAt(f *ssa.Function, i int, t types.Type, what string) {
	for _, p := range ownLeaves(t) {
		lt := leafType(t, p)
		if isBytes(lt) || lt.String() == "[][]byte" {
			n := o.node(retKey{f}, fmt.Sprintf(".%d%s", i, p))
			o.result = append(o.result, n)
			o.rname[n] = what
			for _, pr := range f.Params {
				for _, p := range ownLeaves(pr.Type()) {
					if t := leafType(pr.Type(), p); isBytes(t) || t.String() == "[][]byte" {
						o.params[n] = append(o.params[n], o.node(pr, p))
					}
				}
			}
		}
	}
}

func init() {
	register("C17", "other", func(r *Report, thorough bool) {
		o := ownRun(r.P)
		r.rule("no write, copy, append or read into bytes that a caller gave, other than to functions that are named for filling them")
		r.rule("what is handed out is never a buffer of the library, and is not written through a field, variable or collection it was kept in")
		handed := map[int]string{}
		n := 0
		for _, k := range o.result {
			for e := range o.pts[k] {
				x := o.objs[e.obj]
				own := false
				for _, pn := range o.params[k] {
					for pe := range o.pts[pn] {
						own = own || pe.obj == e.obj
					}
				}
				if x.fn != nil || own {
					continue
				}
				n++
				if w, ok := handed[e.obj]; !ok || o.rname[k] < w {
					handed[e.obj] = o.rname[k]
				}
			}
		}
		var ids []int
		for id := range handed {
			ids = append(ids, id)
		}
		sort.Ints(ids)
		for _, id := range ids {
			x := o.objs[id]
			if x.volatile {
				r.bad("own|volatile|"+handed[id], r.P.pos(x.pos), fmt.Sprintf("%s is a buffer %s, which is used again", handed[id], x.what))
			} else {
				r.ok(handed[id] + ": " + x.what + " " + r.P.pos(x.pos))
			}
		}
		for _, w := range o.writes {
			bad := ""
			for e := range o.pts[w.node] {
				x := o.objs[e.obj]
				switch {
				case x.fn != nil:
				case x.given:
					bad = fmt.Sprintf("the bytes of %s are %s", x.what, w.how)
				case e.mark != "" && !ownGrowing[e.mark] && handed[e.obj] != "":
					bad = fmt.Sprintf("%s, made at %s and kept in %s, is %s", handed[e.obj], r.P.pos(x.pos), e.mark, w.how)
				}
			}
			if bad != "" {
				r.bad(fmt.Sprintf("own|%s|%s", fnName(w.fn), w.how), r.P.pos(w.pos), bad)
			} else {
				r.ok(fnName(w.fn) + " " + r.P.pos(w.pos))
			}
		}
		for f := range ownGrowing {
			stores := 0
			for _, st := range o.puts[f] {
				bad := ""
				for e := range o.pts[o.node(st.Val, "")] {
					stores++
					if e.mark == f {
						bad = fmt.Sprintf("bytes made at %s are put in %s again", r.P.pos(o.objs[e.obj].pos), f)
					}
				}
				if bad != "" {
					r.bad("own|again|"+f, r.P.pos(st.Pos()), bad)
				} else {
					r.ok("new bytes for " + f)
				}
			}
			r.need("storages of "+f, stores, 1)
		}
		r.need("functions analysed", o.funcs, 300)
		r.need("writes of bytes", len(o.writes), 100)
		r.need("storages handed out", len(ids), 20)
	})
}
