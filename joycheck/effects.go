package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Effect summarises what a function may write, transitively: the last address
// steps and types stored to, the parameters written through directly, or
// everything.
type Effect struct {
	all    bool
	lasts  map[string]bool
	typs   []types.Type
	params map[int]bool
}

func (e *Effect) addType(t types.Type) {
	for _, x := range e.typs {
		if types.Identical(x, t) {
			return
		}
	}
	e.typs = append(e.typs, t)
}

func ssaStepName(t types.Type, i int) string { return stepName(t, i) }

// effect computes (and caches) the effect summary of an in-module function.
func (p *Prog) effect(fn *ssa.Function) *Effect {
	if p.effects == nil {
		p.effects = map[*ssa.Function]*Effect{}
	}
	if e := p.effects[fn]; e != nil {
		return e
	}
	// collect the closure of static callees, merge
	e := &Effect{lasts: map[string]bool{}, params: map[int]bool{}}
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function, root bool)
	visit = func(f *ssa.Function, root bool) {
		if seen[f] || e.all {
			return
		}
		seen[f] = true
		if f.Blocks == nil {
			e.all = true
			return
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Store:
					p.storeEffect(e, f, root, in.Addr, in.Val.Type())
				case *ssa.Send, *ssa.Select, *ssa.Go:
					e.all = true
				case *ssa.UnOp:
					if in.Op.String() == "<-" {
						e.all = true
					}
				case ssa.CallInstruction:
					c := in.Common()
					if bi, ok := c.Value.(*ssa.Builtin); ok {
						if bi.Name() == "copy" || bi.Name() == "append" || bi.Name() == "clear" {
							if s, ok := c.Args[0].Type().Underlying().(*types.Slice); ok {
								e.addType(s.Elem())
							}
						}
						continue
					}
					for _, a := range c.Args {
						if _, ok := a.Type().Underlying().(*types.Signature); ok {
							if mc, ok := a.(*ssa.MakeClosure); ok {
								visit(mc.Fn.(*ssa.Function), false)
							} else if g, ok := a.(*ssa.Function); ok {
								if inModule(fnPkgPath(g)) {
									visit(g, false)
								}
							} else {
								e.all = true
							}
						}
					}
					callee := c.StaticCallee()
					if callee == nil {
						if c.IsInvoke() && (c.Method.Pkg() == nil || !inModule(c.Method.Pkg().Path())) {
							// a library interface: writes through its arguments only
							for _, a := range c.Args {
								p.argEffect(e, f, root, a)
							}
							continue
						}
						if mc, ok := c.Value.(*ssa.MakeClosure); ok {
							visit(mc.Fn.(*ssa.Function), false)
							continue
						}
						e.all = true
						continue
					}
					if inModule(fnPkgPath(callee)) {
						visit(callee, false)
						// a callee's write through its own pointer parameter
						for i, pr := range callee.Params {
							if t := pointee(pr.Type()); t != nil && i < len(c.Args) && basicOf(t) != nil {
								if writesThrough(callee, i, map[*ssa.Parameter]bool{}) {
									p.storeEffect(e, f, root, c.Args[i], t)
								}
							}
						}
						continue
					}
					pk := fnPkgPath(callee)
					if pk == "sync" {
						e.all = true
					}
					for _, a := range c.Args {
						p.argEffect(e, f, root, a)
					}
				}
			}
		}
	}
	visit(fn, true)
	p.effects[fn] = e
	return e
}

// readOnly are the functions outside the module that only read the slices
// they are given.
var readOnly = map[string]bool{
	"bytes.NewReader": true, "bytes.Equal": true, "bytes.Compare": true, "bytes.IndexByte": true,
	"encoding/hex.EncodeToString": true, "encoding/hex.Dump": true, "fmt.Println": true,
	"crypto/hmac.New": true,
}

// writesThrough says whether f may write the memory its i-th parameter
// points to.
func writesThrough(f *ssa.Function, i int, seen map[*ssa.Parameter]bool) bool {
	if f.Blocks == nil {
		return true
	}
	if seen[f.Params[i]] {
		return false
	}
	seen[f.Params[i]] = true
	return written(f.Params[i], seen)
}

// written says whether the memory v points to may be written through v, or
// v kept where this can no longer be seen.
func written(v ssa.Value, seen map[*ssa.Parameter]bool) bool {
	did := map[ssa.Value]bool{}
	var flows func(v ssa.Value) bool
	flows = func(v ssa.Value) bool {
		if did[v] {
			return false
		}
		did[v] = true
		if v.Referrers() == nil {
			return true
		}
		for _, r := range *v.Referrers() {
			switch r := r.(type) {
			case *ssa.UnOp, *ssa.DebugRef, *ssa.BinOp, *ssa.If:
			case *ssa.Range, *ssa.Index:
			case *ssa.IndexAddr:
				if r.X != v {
					continue
				}
				for _, u := range *r.Referrers() {
					switch u := u.(type) {
					case *ssa.UnOp, *ssa.DebugRef:
					case *ssa.Store:
						return true
					default:
						_ = u
						return true
					}
				}
			case *ssa.Slice:
				if r.X == v && flows(r) {
					return true
				}
			case *ssa.Phi:
				if flows(r) {
					return true
				}
			case *ssa.Convert:
				// a string is a copy
				if b, ok := r.Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsString == 0 {
					return true
				}
			case ssa.CallInstruction:
				c := r.Common()
				if b, ok := c.Value.(*ssa.Builtin); ok {
					switch b.Name() {
					case "len", "cap":
						continue
					case "append", "copy":
						if c.Args[0] != v {
							continue
						}
					}
					return true
				}
				if c.IsInvoke() {
					if c.Method.Name() == "Write" {
						continue
					}
					return true
				}
				cal := c.StaticCallee()
				if cal != nil && !inModule(fnPkgPath(cal)) && readOnly[fnPkgPath(cal)+"."+cal.Name()] {
					continue
				}
				if cal == nil || !inModule(fnPkgPath(cal)) {
					return true
				}
				for k, a := range c.Args {
					if a == v && writesThrough(cal, k, seen) {
						return true
					}
				}
			default:
				return true
			}
		}
		return false
	}
	return flows(v)
}

func (p *Prog) argEffect(e *Effect, f *ssa.Function, root bool, a ssa.Value) {
	switch t := a.Type().Underlying().(type) {
	case *types.Slice:
		e.addType(t.Elem())
	case *types.Pointer:
		p.storeEffect(e, f, root, a, t.Elem())
	}
}

func (p *Prog) storeEffect(e *Effect, f *ssa.Function, root bool, addr ssa.Value, t types.Type) {
	last := ""
	v := addr
	first := true
	for i := 0; i < 30; i++ {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			if first {
				last = ssaStepName(pointee(x.X.Type()), x.Field)
			}
			first = false
			v = x.X
			continue
		case *ssa.IndexAddr:
			if first {
				last = "[]"
			}
			first = false
			if _, ok := x.X.Type().Underlying().(*types.Slice); ok {
				if mk, ok := x.X.(*ssa.MakeSlice); ok {
					_ = mk
					return // fresh
				}
				e.addType(t)
				e.lasts["[]"] = true
				return
			}
			v = x.X
			continue
		case *ssa.Alloc:
			return // a fresh object
		case *ssa.Parameter:
			if first && basicOf(t) != nil {
				if root {
					for k, pr := range f.Params {
						if pr == x {
							e.params[k] = true
						}
					}
					return
				}
				return // accounted for at the call site
			}
		}
		break
	}
	if s := structOf(t); s != nil {
		var collect func(t types.Type)
		collect = func(t types.Type) {
			if s := structOf(t); s != nil {
				for i := 0; i < s.NumFields(); i++ {
					e.lasts[ssaStepName(t, i)] = true
					collect(s.Field(i).Type())
				}
			}
		}
		collect(t)
		e.addType(t)
		return
	}
	if last != "" {
		e.lasts[last] = true
		if last == "[]" {
			e.addType(t)
		}
		return
	}
	e.addType(t)
}
