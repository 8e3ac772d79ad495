package main

import (
	"go/constant"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Package-level tables of integers that are filled once, when the package is
// initialised, and only read afterwards, have known contents.

// table is the contents of the variable named by a trace ("g:pkg.Name").
func (p *Prog) table(sym string) ([]int64, bool) {
	p.tabOnce.Do(func() {
		p.tabs = map[string][]int64{}
		for path, pkg := range p.Pkgs {
			for _, m := range pkg.Members {
				g, ok := m.(*ssa.Global)
				if !ok {
					continue
				}
				if c, ok := p.readTable(pkg, g); ok {
					p.tabs["g:"+path+"."+g.Name()] = c
				}
			}
		}
	})
	c, ok := p.tabs[sym]
	return c, ok
}

func (p *Prog) readTable(pkg *ssa.Package, g *ssa.Global) ([]int64, bool) {
	var elem types.Type
	n := -1
	switch u := g.Type().(*types.Pointer).Elem().Underlying().(type) {
	case *types.Slice:
		elem = u.Elem()
	case *types.Array:
		elem, n = u.Elem(), int(u.Len())
	default:
		return nil, false
	}
	if b, ok := elem.Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
		return nil, false
	}
	if !p.onlyRead(g) {
		return nil, false
	}
	var store func(out []int64, refs []ssa.Instruction) bool
	store = func(out []int64, refs []ssa.Instruction) bool {
		for _, r := range refs {
			ia, ok := r.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			k, ok := ia.Index.(*ssa.Const)
			if !ok {
				return false
			}
			for _, q := range *ia.Referrers() {
				s, ok := q.(*ssa.Store)
				if !ok || s.Addr != ia {
					return false
				}
				c, ok := s.Val.(*ssa.Const)
				if !ok || c.Value == nil {
					return false
				}
				v, exact := constant.Int64Val(constant.ToInt(c.Value))
				i := k.Int64()
				if !exact || i < 0 || int(i) >= len(out) {
					return false
				}
				out[i] = v
			}
		}
		return true
	}
	init := pkg.Func("init")
	if init == nil {
		return nil, false
	}
	if n >= 0 {
		out := make([]int64, n)
		var refs []ssa.Instruction
		for _, b := range init.Blocks {
			for _, in := range b.Instrs {
				if ia, ok := in.(*ssa.IndexAddr); ok && ia.X == g {
					refs = append(refs, in)
				} else if s, ok := in.(*ssa.Store); ok && s.Addr == g {
					return nil, false
				}
			}
		}
		return out, store(out, refs)
	}
	var out []int64
	found := 0
	for _, b := range init.Blocks {
		for _, in := range b.Instrs {
			s, ok := in.(*ssa.Store)
			if !ok || s.Addr != g {
				continue
			}
			found++
			sl, ok := s.Val.(*ssa.Slice)
			if !ok || sl.Low != nil || sl.High != nil {
				return nil, false
			}
			al, ok := sl.X.(*ssa.Alloc)
			if !ok {
				return nil, false
			}
			ar, ok := al.Type().(*types.Pointer).Elem().Underlying().(*types.Array)
			if !ok {
				return nil, false
			}
			out = make([]int64, ar.Len())
			if !store(out, *al.Referrers()) {
				return nil, false
			}
		}
	}
	return out, found == 1
}

// onlyRead: outside the initialiser, g is only loaded, and what is loaded is
// only indexed for reading, measured, ranged over or copied from.
func (p *Prog) onlyRead(g *ssa.Global) bool {
	reads := func(v ssa.Value) bool { return !written(v, map[*ssa.Parameter]bool{}) }
	for _, fn := range p.AllFuncs {
		if fn.Name() == "init" && fn.Signature.Recv() == nil && fn.Parent() == nil && fn.Synthetic != "" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if *op != g {
						continue
					}
					switch in := in.(type) {
					case *ssa.UnOp:
						if !reads(in) {
							return false
						}
					case *ssa.IndexAddr:
						for _, q := range *in.Referrers() {
							if _, ok := q.(*ssa.UnOp); !ok {
								return false
							}
						}
					case *ssa.DebugRef:
					default:
						return false
					}
				}
			}
		}
	}
	return true
}

// tableLeaf is the known value of the table element or length named s.
func (x *tracer) tableLeaf(s string) (int64, bool) {
	if !strings.HasPrefix(s, "g:") || !strings.HasSuffix(s, "]") {
		return 0, false
	}
	i := strings.LastIndexByte(s, '[')
	k, err := strconv.Atoi(s[i+1 : len(s)-1])
	if err != nil {
		return 0, false
	}
	c, ok := x.f.P.table(s[:i])
	if !ok || k < 0 || k >= len(c) {
		return 0, false
	}
	return c[k], true
}
