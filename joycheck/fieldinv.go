package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// fieldMinLen infers, for a slice-typed struct field identified by its step
// name ("pkg.T.f"), a lower bound of the length every constructed object has:
// every store in the module stores a slice of known minimal length and every
// allocation of T in the module is followed by such a store before it escapes
// the allocating function. Objects are assumed to be built by the module's
// constructors.
func (p *Prog) fieldMinLen(step string) int64 {
	if p.fieldLens == nil {
		p.scanFieldLens()
	}
	return p.fieldLens[step]
}

func (p *Prog) scanFieldLens() {
	p.fieldLens = map[string]int64{}
	bad := map[string]bool{}
	minLen := map[string]int64{}
	stored := map[string]map[ssa.Value][]*ssa.Store{}
	allocs := map[types.Type][]*ssa.Alloc{}
	var fns []*ssa.Function
	fns = append(fns, p.AllFuncs...)
	for _, sp := range p.Pkgs {
		if f := sp.Func("init"); f != nil {
			fns = append(fns, f)
		}
	}
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Alloc:
					t := in.Type().(*types.Pointer).Elem()
					if structOf(t) != nil {
						allocs[t] = append(allocs[t], in)
					}
				case *ssa.FieldAddr:
					t := pointee(in.X.Type())
					s := structOf(t)
					if s == nil {
						continue
					}
					if _, ok := s.Field(in.Field).Type().Underlying().(*types.Slice); !ok {
						continue
					}
					name := stepName(t, in.Field)
					if s.Field(in.Field).Exported() {
						bad[name] = true
						continue
					}
					for _, r := range *in.Referrers() {
						switch r := r.(type) {
						case *ssa.UnOp, *ssa.DebugRef:
						case *ssa.Store:
							if r.Addr != in {
								bad[name] = true
								continue
							}
							k := constSliceLen(r.Val)
							if k <= 0 {
								bad[name] = true
								continue
							}
							if m, ok := minLen[name]; !ok || k < m {
								minLen[name] = k
							}
							if stored[name] == nil {
								stored[name] = map[ssa.Value][]*ssa.Store{}
							}
							stored[name][in.X] = append(stored[name][in.X], r)
						default:
							bad[name] = true
						}
					}
				case *ssa.Store:
					// overwriting a whole struct
					if s := structOf(in.Val.Type()); s != nil {
						for i := 0; i < s.NumFields(); i++ {
							bad[stepName(in.Val.Type(), i)] = true
						}
					}
				}
			}
		}
	}
	// structs embedded by value elsewhere are not tracked
	for _, sp := range p.Pkgs {
		for _, m := range sp.Members {
			t, ok := m.(*ssa.Type)
			if !ok {
				continue
			}
			if s := structOf(t.Type()); s != nil {
				for i := 0; i < s.NumFields(); i++ {
					ft := s.Field(i).Type()
					if fs := structOf(ft); fs != nil {
						for k := 0; k < fs.NumFields(); k++ {
							bad[stepName(ft, k)] = true
						}
					}
				}
			}
		}
	}
	for name, k := range minLen {
		if bad[name] {
			continue
		}
		ok := true
		for t, as := range allocs {
			s := structOf(t)
			for i := 0; i < s.NumFields(); i++ {
				if stepName(t, i) != name {
					continue
				}
				for _, a := range as {
					found := false
					for _, st := range stored[name][a] {
						if domAllReturns(st.Block()) {
							found = true
						}
					}
					if !found {
						ok = false
					}
				}
			}
		}
		if ok {
			p.fieldLens[name] = k
		}
	}
}

func domAllReturns(b *ssa.BasicBlock) bool {
	for _, x := range b.Parent().Blocks {
		if len(x.Instrs) == 0 {
			continue
		}
		if _, ok := x.Instrs[len(x.Instrs)-1].(*ssa.Return); ok && !b.Dominates(x) {
			return false
		}
	}
	return true
}

func constSliceLen(v ssa.Value) int64 {
	switch v := v.(type) {
	case *ssa.MakeSlice:
		if c, ok := v.Len.(*ssa.Const); ok {
			return c.Int64()
		}
	case *ssa.Slice:
		if a, ok := v.X.Type().Underlying().(*types.Pointer); ok && v.Low == nil && v.High == nil {
			if ar, ok := a.Elem().Underlying().(*types.Array); ok {
				return ar.Len()
			}
		}
		if a, ok := v.X.Type().Underlying().(*types.Pointer); ok && v.Low == nil && v.High != nil {
			if _, ok := a.Elem().Underlying().(*types.Array); ok {
				if c, ok := v.High.(*ssa.Const); ok {
					return c.Int64()
				}
			}
		}
	}
	return 0
}

func init() {
	debugFieldLens = func(p *Prog) {
		p.fieldMinLen("")
		for k, v := range p.fieldLens {
			println(k, v)
		}
	}
}

var debugFieldLens func(p *Prog)
