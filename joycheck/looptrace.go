package main

import "strings"

// Two-turn analysis of loops: the first turns from the entry, and two
// consecutive general turns under an inferred inductive hypothesis on the
// loop variables. A statement about consecutive turns that holds in both
// sets holds for every number of turns. A hypothesis is assumed of, and
// checked for, the turns that get past the test at the head of the loop.

type loopTraces struct {
	first, general []*Trace
	hyp            map[*V]hypo
	over           bool
}

func (r *Report) loopTracesFn(name string, width map[string]int, opt *InlineOpt, max int) *loopTraces {
	k := strings.LastIndex(name, ":")
	fn := r.P.fn(name[:k], name[k+1:])
	if fn == nil {
		r.fail("anchor|"+name, "-", "function "+name+" does not exist any more")
		return nil
	}
	if opt == nil {
		opt = &InlineOpt{}
	}
	opt.Quiet = true
	f := build(r.P, fn, opt)
	lt := inferHyp(f, max, width)
	if lt.over {
		r.fail("paths|"+fnName(fn), r.P.pos(fn.Pos()), "too many paths to analyse")
		return nil
	}
	n, _ := r.Cov["functions_walked"].(int)
	r.Cov["functions_walked"] = n + 1
	n, _ = r.Cov["paths_walked"].(int)
	r.Cov["paths_walked"] = n + len(lt.first) + len(lt.general)
	return lt
}

func inferHyp(f *Fn, max int, width map[string]int) *loopTraces {
	lt := &loopTraces{hyp: map[*V]hypo{}}
	lt.first, lt.over = tracesOpt(f, max, width, 2, false, nil)
	if lt.over {
		return lt
	}
	bad := map[*V]bool{}
	cand := map[*V]hypo{}
	for _, t := range lt.first {
		seen := map[*Block]int{}
		for _, pt := range t.turns {
			seen[pt.b]++
			if seen[pt.b] != 2 || !t.entered(pt) {
				continue
			}
			for _, pv := range pt.vals {
				if !pv.val.isInt || bad[pv.phi] {
					continue
				}
				l := pv.val.lin
				h, ok := cand[pv.phi]
				if !ok {
					h = hypo{eq: &l}
					if l.konst() {
						c := l.c
						h.min = &c
					}
					cand[pv.phi] = h
					continue
				}
				if h.eq != nil && !h.eq.eq(l) {
					h.eq = nil
				}
				if h.min != nil && (!l.konst() || l.c < *h.min) {
					h.min = nil
				}
				cand[pv.phi] = h
			}
		}
	}
	for v, h := range cand {
		if h.eq != nil {
			for s := range h.eq.t {
				if strings.Contains(s, "phi") || strings.Contains(s, "@") {
					h.eq = nil
					break
				}
			}
		}
		if h.eq == nil && h.min == nil {
			continue
		}
		lt.hyp[v] = h
	}
	heads := map[*Block]bool{}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if in.Op == OpPhi {
				if _, ok := lt.hyp[in.Dst]; ok {
					heads[b] = true
				}
			}
		}
	}
	if len(heads) > 1 {
		// leaving one of them early and the other late is not covered below
		lt.over = true
		return lt
	}
	for round := 0; round < 8; round++ {
		var all []*Trace
		all, lt.over = tracesOpt(f, max, width, 2, true, lt.hyp)
		if lt.over {
			return lt
		}
		// The hypotheses are about turns that are taken. Leaving at the head
		// is covered by the turn before, or by the first turns.
		lt.general = nil
	next:
		for _, t := range all {
			for _, pt := range t.turns {
				if pt.gen && !t.entered(pt) {
					for _, pv := range pt.vals {
						if _, ok := lt.hyp[pv.phi]; ok {
							continue next
						}
					}
				}
			}
			lt.general = append(lt.general, t)
		}
		changed := false
		weaken := func(v *V, eq bool) {
			h := lt.hyp[v]
			if eq && h.min != nil {
				h.eq = nil
				lt.hyp[v] = h
			} else {
				delete(lt.hyp, v)
			}
			changed = true
		}
		check := func(t *Trace, vals []phiVal) {
			for _, pv := range vals {
				h, ok := lt.hyp[pv.phi]
				if !ok {
					continue
				}
				if h.eq != nil {
					if !t.isEq(pv.val.lin.add(*h.eq, -1)) {
						weaken(pv.phi, true)
					}
				} else if !t.implies(pv.val.lin.add(sc(-*h.min), 1)) {
					weaken(pv.phi, false)
				}
			}
		}
		for _, t := range lt.general {
			for _, pt := range t.turns {
				if !pt.gen && t.entered(pt) {
					check(t, pt.vals)
				}
			}
		}
		if !changed {
			break
		}
	}
	return lt
}
