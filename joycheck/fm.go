package main

import "sort"

// Fourier-Motzkin elimination over integer constraints e >= 0, on a compact
// sparse form.

type fmTerm struct {
	v int32
	k int64
}

type fmRow struct {
	t []fmTerm // sorted by v
	c int64
	h uint64
}

const fmMaxPairs = 900
const fmMaxRows = 1200

func (r *fmRow) hash() {
	h := uint64(1469598103934665603)
	for _, t := range r.t {
		h = (h ^ uint64(uint32(t.v))) * 1099511628211
		h = (h ^ uint64(t.k)) * 1099511628211
	}
	r.h = h
}

func sameTerms(a, b []fmTerm) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// reduce divides by the gcd of the coefficients, rounding the constant down.
func (r *fmRow) reduce() {
	g := int64(0)
	for _, t := range r.t {
		g = gcd(g, t.k)
		if g == 1 {
			return
		}
	}
	if g > 1 {
		for i := range r.t {
			r.t[i].k /= g
		}
		r.c = floorDiv(r.c, g)
	}
}

type fmSet struct {
	rows []fmRow
	idx  map[uint64][]int32
}

// add inserts r, keeping only the strongest of parallel rows; it reports a
// contradiction.
func (s *fmSet) add(r fmRow) bool {
	r.reduce()
	if len(r.t) == 0 {
		return r.c < 0
	}
	r.hash()
	for _, i := range s.idx[r.h] {
		if sameTerms(s.rows[i].t, r.t) {
			if r.c < s.rows[i].c {
				s.rows[i].c = r.c
			}
			return false
		}
	}
	s.idx[r.h] = append(s.idx[r.h], int32(len(s.rows)))
	s.rows = append(s.rows, r)
	return false
}

func fmCombine(a, b fmRow, v int32) (fmRow, bool) {
	var ka, kb int64
	for _, t := range a.t {
		if t.v == v {
			ka = t.k
		}
	}
	for _, t := range b.t {
		if t.v == v {
			kb = -t.k
		}
	}
	g := gcd(ka, kb)
	fa, fb := kb/g, ka/g
	out := fmRow{c: a.c*fa + b.c*fb, t: make([]fmTerm, 0, len(a.t)+len(b.t)-2)}
	i, j := 0, 0
	for i < len(a.t) || j < len(b.t) {
		switch {
		case j >= len(b.t) || i < len(a.t) && a.t[i].v < b.t[j].v:
			if a.t[i].v != v {
				out.t = append(out.t, fmTerm{a.t[i].v, a.t[i].k * fa})
			}
			i++
		case i >= len(a.t) || b.t[j].v < a.t[i].v:
			if b.t[j].v != v {
				out.t = append(out.t, fmTerm{b.t[j].v, b.t[j].k * fb})
			}
			j++
		default:
			if k := a.t[i].k*fa + b.t[j].k*fb; k != 0 && a.t[i].v != v {
				out.t = append(out.t, fmTerm{a.t[i].v, k})
			}
			i++
			j++
		}
	}
	const lim = int64(1) << 58
	if out.c > lim || out.c < -lim {
		return out, false
	}
	for _, t := range out.t {
		if t.k > 1<<40 || t.k < -(1<<40) {
			return out, false
		}
	}
	return out, true
}

// infeasible reports whether the conjunction of e>=0 has no solution that
// Fourier-Motzkin with integer tightening can find (true is definite).
func infeasible(cs []lin) bool {
	num := map[*V]int32{}
	cur := fmSet{idx: map[uint64][]int32{}}
	// stable numbering by value ID
	var vs []*V
	for _, l := range cs {
		for v := range l.t {
			if _, ok := num[v]; !ok {
				num[v] = 0
				vs = append(vs, v)
			}
		}
	}
	sort.Slice(vs, func(i, j int) bool { return vs[i].ID < vs[j].ID })
	for i, v := range vs {
		num[v] = int32(i)
	}
	n := len(vs)
	for _, l := range cs {
		r := fmRow{c: l.c, t: make([]fmTerm, 0, len(l.t))}
		for v, k := range l.t {
			if k != 0 {
				r.t = append(r.t, fmTerm{num[v], k})
			}
		}
		sort.Slice(r.t, func(i, j int) bool { return r.t[i].v < r.t[j].v })
		if cur.add(r) {
			return true
		}
	}
	pos := make([]int32, n)
	neg := make([]int32, n)
	for step := 0; step < 120; step++ {
		if len(cur.rows) == 0 {
			return false
		}
		for i := range pos {
			pos[i], neg[i] = 0, 0
		}
		for _, r := range cur.rows {
			for _, t := range r.t {
				if t.k > 0 {
					pos[t.v]++
				} else {
					neg[t.v]++
				}
			}
		}
		best, bc := int32(-1), int32(1<<30)
		for v := 0; v < n; v++ {
			if pos[v]+neg[v] == 0 {
				continue
			}
			c := pos[v]*neg[v] - pos[v] - neg[v]
			if c < bc {
				bc, best = c, int32(v)
			}
		}
		if pos[best]*neg[best] > fmMaxPairs {
			return false
		}
		next := fmSet{idx: make(map[uint64][]int32, len(cur.rows))}
		var ps, ns []fmRow
		for _, r := range cur.rows {
			k := int64(0)
			for _, t := range r.t {
				if t.v == best {
					k = t.k
				}
			}
			switch {
			case k > 0:
				ps = append(ps, r)
			case k < 0:
				ns = append(ns, r)
			default:
				next.rows = append(next.rows, r)
				next.idx[r.h] = append(next.idx[r.h], int32(len(next.rows)-1))
			}
		}
		for _, a := range ps {
			for _, b := range ns {
				r, ok := fmCombine(a, b, best)
				if !ok {
					continue
				}
				if next.add(r) {
					return true
				}
			}
		}
		if len(next.rows) > fmMaxRows {
			return false
		}
		cur = next
	}
	return false
}
