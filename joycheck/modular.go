package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"time"

	"golang.org/x/tools/go/callgraph"
	"golang.org/x/tools/go/callgraph/cha"
	"golang.org/x/tools/go/ssa"
)

// Modular bounds checking. Functions are analysed bottom-up. A function all of
// whose obligations hold for arbitrary arguments is clean and may stay opaque
// at its call sites; any other function is expanded into its callers and
// judged there, with the arguments they pass. Functions that can be entered
// from outside (exported entry points, function values, interface methods)
// must be clean.
type aloneKey struct {
	kind string
	in   ssa.Instruction
}

type FnRes struct {
	alone map[aloneKey]int // 1: shown for arbitrary arguments, 2: not
	fn    *ssa.Function
	f     *Fn
	n     *Num
	obs   []*Oblig
	bad   []*Oblig
	clean bool
	size  int
	loops bool
	dur   time.Duration
}

type Modular struct {
	p       *Prog
	kinds   map[string]bool
	skip    func(o *Oblig) bool
	extra   func(n *Num) []*Oblig
	ctr     *Contracts
	res     map[*ssa.Function]*FnRes
	busy    map[*ssa.Function]bool
	assumed map[*ssa.Function]bool
	verbose bool
	cut     func(*ssa.Function) bool // not expanded and not judged
}

func newModular(p *Prog) *Modular {
	m := &Modular{p: p, res: map[*ssa.Function]*FnRes{}, busy: map[*ssa.Function]bool{}, assumed: map[*ssa.Function]bool{}}
	m.ctr = newContracts(p, &InlineOpt{Stop: cursorStop})
	return m
}

func staticCallees(fn *ssa.Function) []*ssa.Function {
	seen := map[*ssa.Function]bool{}
	var out []*ssa.Function
	add := func(g *ssa.Function) {
		if g != nil && !seen[g] && g.Blocks != nil && inModule(fnPkgPath(g)) {
			seen[g] = true
			out = append(out, g)
		}
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				add(c.Common().StaticCallee())
			}
			var buf [12]*ssa.Value
			for _, op := range in.Operands(buf[:0]) {
				if *op == nil {
					continue
				}
				switch v := (*op).(type) {
				case *ssa.Function:
					add(v)
				case *ssa.MakeClosure:
					add(v.Fn.(*ssa.Function))
				}
			}
		}
	}
	return out
}

func ssaSize(fn *ssa.Function) (n int, loops bool) {
	for _, b := range fn.Blocks {
		n += len(b.Instrs)
		for _, s := range b.Succs {
			if s.Dominates(b) {
				loops = true
			}
		}
	}
	return
}

func (m *Modular) stop(g *ssa.Function) bool {
	if cursorStop(g) || m.cut != nil && m.cut(g) {
		return true
	}
	if m.busy[g] {
		m.assumed[g] = true
		return true
	}
	r := m.res[g]
	if r == nil {
		return false
	}
	return r.clean && (r.size > 250 || r.loops)
}

func (m *Modular) analyse(fn *ssa.Function) *FnRes {
	if r := m.res[fn]; r != nil {
		return r
	}
	if m.busy[fn] {
		return nil
	}
	m.busy[fn] = true
	for _, g := range staticCallees(fn) {
		if m.cut == nil || !m.cut(g) {
			m.analyse(g)
		}
	}
	t := time.Now()
	r := &FnRes{fn: fn}
	r.size, r.loops = ssaSize(fn)
	for _, g := range staticCallees(fn) {
		if q := m.res[g]; q != nil && q.loops && !m.stop(g) {
			r.loops = true
		}
	}
	r.f = build(m.p, fn, &InlineOpt{Stop: m.stop})
	n := newNum(r.f)
	n.ctr = m.ctr
	n.assumePre()
	n.inferInvariants()
	r.n = n
	for _, o := range n.obligations(m.kinds) {
		if m.skip != nil && m.skip(o) {
			continue
		}
		r.obs = append(r.obs, o)
	}
	r.obs = append(r.obs, n.specObligs()...)
	if m.extra != nil {
		r.obs = append(r.obs, m.extra(n)...)
	}
	for _, b := range r.f.Blocks {
		for _, in := range b.Instrs {
			if in.Op == OpCall && in.Callee != nil {
				if q := m.res[in.Callee]; q != nil && !q.clean {
					r.obs = append(r.obs, &Oblig{Kind: "call", In: in, What: "call of " + fnName(in.Callee) + ", which needs a precondition, was not expanded"})
				}
			}
		}
	}
	for _, o := range r.obs {
		// shown for every argument when the callee was judged on its own
		for c := o.In.Ctx; c != nil && c.Parent != nil && !o.OK; c = c.Parent {
			if q := m.res[c.Fn]; q != nil && o.In.Orig != nil && q.alone[aloneKey{o.Kind, o.In.Orig}] == 1 {
				o.OK = true
			}
		}
		if !o.OK {
			r.bad = append(r.bad, o)
		}
	}
	r.clean = len(r.bad) == 0
	r.alone = map[aloneKey]int{}
	for _, o := range r.obs {
		if o.In.Orig == nil {
			continue
		}
		k := aloneKey{o.Kind, o.In.Orig}
		if !o.OK {
			r.alone[k] = 2
		} else if r.alone[k] == 0 {
			r.alone[k] = 1
		}
	}
	r.dur = time.Since(t)
	delete(m.busy, fn)
	m.res[fn] = r
	if m.verbose {
		fmt.Fprintf(os.Stderr, "%-60s %4d obs %3d bad %5d blocks %v\n", fnName(fn), len(r.obs), len(r.bad), len(r.f.Blocks), r.dur.Round(time.Millisecond))
	}
	return r
}

// reach returns the in-module functions reachable from the entries, and those
// among them that can be entered with arguments no analysed caller controls.
func (p *Prog) reach(entries []*ssa.Function, cut func(*ssa.Function) bool) (all []*ssa.Function, roots []*ssa.Function) {
	cg := p.cha()
	seen := map[*ssa.Function]bool{}
	root := map[*ssa.Function]bool{}
	var work []*ssa.Function
	push := func(f *ssa.Function) {
		if f == nil || seen[f] || f.Blocks == nil || !inModule(fnPkgPath(f)) {
			return
		}
		if cut != nil && cut(f) {
			return
		}
		seen[f] = true
		all = append(all, f)
		work = append(work, f)
	}
	mark := func(f *ssa.Function) {
		if f == nil || f.Blocks == nil || !inModule(fnPkgPath(f)) || (cut != nil && cut(f)) {
			return
		}
		root[f] = true
		push(f)
	}
	for _, e := range entries {
		mark(e)
	}
	for len(work) > 0 {
		f := work[len(work)-1]
		work = work[:len(work)-1]
		for _, g := range staticCallees(f) {
			push(g)
		}
		if node := cg.Nodes[f]; node != nil {
			for _, e := range node.Out {
				if e.Site != nil && e.Site.Common().IsInvoke() {
					mark(e.Callee.Func)
				}
			}
		}
		// function values used other than as the callee of a call
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var callee ssa.Value
				if c, ok := in.(ssa.CallInstruction); ok && !c.Common().IsInvoke() {
					callee = c.Common().Value
				}
				var buf [12]*ssa.Value
				for _, op := range in.Operands(buf[:0]) {
					if *op == nil {
						continue
					}
					if fv, ok := (*op).(*ssa.Function); ok && *op != callee {
						if _, isMC := in.(*ssa.MakeClosure); !isMC {
							mark(fv)
						}
					}
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					for _, r := range *mc.Referrers() {
						if c, ok := r.(ssa.CallInstruction); ok && c.Common().Value == ssa.Value(mc) {
							continue
						}
						if _, ok := r.(*ssa.DebugRef); ok {
							continue
						}
						// stored in a local that is only called, or passed on
						mark(mc.Fn.(*ssa.Function))
					}
				}
			}
		}
	}
	for f := range root {
		roots = append(roots, f)
	}
	sort.Slice(all, func(i, j int) bool { return fnName(all[i]) < fnName(all[j]) })
	sort.Slice(roots, func(i, j int) bool { return fnName(roots[i]) < fnName(roots[j]) })
	return
}

func (p *Prog) cha() *callgraph.Graph {
	if p.chaGraph == nil {
		p.chaGraph = cha.CallGraph(p.SSA)
	}
	return p.chaGraph
}

var _ = types.Typ
