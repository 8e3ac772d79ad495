package main

import (
	"fmt"
	"go/types"
)

// C26: bit readers and writers.

// buildFor builds a function for repeated walks.
func (r *Report) buildFor(name string, opt *InlineOpt) *Fn {
	k := lastColon(name)
	fn := r.P.fn(name[:k], name[k+1:])
	if fn == nil {
		r.fail("anchor|"+name, "-", "function "+name+" does not exist any more")
		return nil
	}
	if opt == nil {
		opt = &InlineOpt{}
	}
	opt.Quiet = !opt.Loud
	n, _ := r.Cov["functions_walked"].(int)
	r.Cov["functions_walked"] = n + 1
	return build(r.P, fn, opt)
}

func lastColon(s string) int {
	for i := len(s) - 1; i >= 0; i-- {
		if s[i] == ':' {
			return i
		}
	}
	return -1
}

// walkInit walks f from a partly given state, following up to turns turns.
func (r *Report) walkInit(f *Fn, turns int, init map[string][]sbit) []*Trace {
	ts, over := tracesInit(f, 4000, nil, turns, false, nil, init)
	if over {
		r.fail("paths|"+fnName(f.Root), r.P.pos(f.Root.Pos()), "too many paths to analyse")
		return nil
	}
	n, _ := r.Cov["paths_walked"].(int)
	r.Cov["paths_walked"] = n + len(ts)
	return ts
}

// msb lists bits most significant first as a value, least significant first.
func msb(bs []sbit) []sbit {
	out := make([]sbit, len(bs))
	for i, b := range bs {
		out[len(bs)-1-i] = b
	}
	return out
}

func padBits(bs []sbit, w int) []sbit {
	out := append([]sbit{}, bs...)
	for len(out) < w {
		out = append(out, sbit{})
	}
	return out
}

// inBits: the first n bits of the input, most significant first.
func inBits(n int) []sbit {
	var out []sbit
	for i := 0; i < n; i++ {
		out = append(out, sbit{fmt.Sprintf("in[%d]", i/8), 7 - i%8})
	}
	return out
}

func (r *Report) bitReader() {
	f := r.buildFor("utils/bits:Reader.ReadBits", nil)
	if f == nil {
		return
	}
	done := 0
	for left := 0; left < 8; left++ {
		for n := 0; n <= 64; n++ {
			held := padBits(fld("held", left-1, 0), 64)
			if left == 0 {
				held = cbits(0, 64)
			}
			ts := r.walkInit(f, 12, map[string][]sbit{"p0.n": cbits(uint64(left), 64), "p1": cbits(uint64(n), 64), "p0.bits": held})
			ok := 0
			for _, t := range ts {
				c := chk{r, t, "bits|Reader"}
				if t.end == nil {
					c.bad("loop", "reading %d bits with %d held does not end", n, left)
					return
				}
				rf := false
				for _, e := range t.events {
					if e.kind == "read" && e.res != nil && len(e.res.tup) == 2 && t.nilState(e.res.tup[1]) == 0 {
						rf = true
					}
				}
				if rf || t.okRes(1) == 0 {
					if !rf || t.okRes(1) != 0 {
						c.bad("err", "a failed read of %d bits is not an error", n)
						return
					}
					continue
				}
				// bits in the order they come
				var seq []sbit
				for i := left - 1; i >= 0; i-- {
					seq = append(seq, sbit{"held", i})
				}
				k := 0
				if n > left {
					k = (n - left + 7) / 8
				}
				if !t.pos.eq(sc(int64(k))) {
					c.bad("consumed", "reading %d bits with %d held takes %s bytes, not %d", n, left, t.pos, k)
					return
				}
				seq = append(seq, inBits(8*k)...)
				if got := t.ret[0]; !got.isInt || !t.bitsEq(got.bits, padBits(msb(seq[:n]), 64)) {
					c.bad("value", "reading %d bits with %d held gives %s", n, left, bitStr(got.bits))
					return
				}
				rest := seq[n:]
				nl, nb := t.final("p0.n"), t.final("p0.bits")
				ln := int64(left)
				if nl != nil {
					ln = nl.lin.c
				}
				hb := held
				if nb != nil {
					hb = nb.bits
				}
				if nl != nil && !nl.lin.konst() || ln != int64(len(rest)) || !t.bitsEq(hb, padBits(msb(rest), 64)) {
					c.bad("state", "after reading %d bits with %d held, %d bits %s are held instead of %d", n, left, ln, bitStr(hb), len(rest))
					return
				}
				ok++
			}
			if ok != 1 {
				r.fail("bits|Reader|paths", r.P.pos(f.Root.Pos()), fmt.Sprintf("reading %d bits with %d held succeeds on %d paths", n, left, ok))
				return
			}
			done++
			r.ok("")
		}
	}
	r.need("reader states", done, 8*65)
}

func (r *Report) bitWriter() {
	f := r.buildFor("utils/bits:Writer.WriteBits", nil)
	g := r.buildFor("utils/bits:Writer.FlushBits", nil)
	if f == nil || g == nil {
		return
	}
	done := 0
	// what is pending, and the output and state after it
	state := func(k int) map[string][]sbit {
		bs := append([]sbit{}, fld("held", k-1, 0)...)
		if k == 0 {
			bs = nil
		}
		for i := k; i < 64; i++ {
			bs = append(bs, sbit{"stale", i})
		}
		return map[string][]sbit{"p0.n": cbits(uint64(k), 64), "p0.bits": bs}
	}
	pending := func(k int) []sbit {
		var seq []sbit
		for i := k - 1; i >= 0; i-- {
			seq = append(seq, sbit{"held", i})
		}
		return seq
	}
	check := func(what string, t *Trace, seq []sbit, flushed bool) bool {
		c := chk{r, t, "bits|" + what}
		if t.end == nil {
			c.bad("loop", "a path does not end")
			return false
		}
		if t.wroteErr() {
			if t.okRes(0) != 0 {
				c.bad("err", "a failed write is not an error")
				return false
			}
			return true
		}
		if t.okRes(0) == 0 {
			c.bad("err", "an error without a failed write")
			return false
		}
		var out []sbit
		for _, s := range t.out {
			if s.bits == nil {
				c.bad("out", "%s is written", s)
				return false
			}
			for i := 7; i >= 0; i-- {
				out = append(out, s.bits[i])
			}
		}
		n := t.final("p0.n")
		nn := -1
		if n != nil && n.lin.konst() {
			nn = int(n.lin.c)
		} else if n == nil && len(out) == 0 {
			nn = len(seq)
		}
		if nn < 0 || nn > 64 {
			c.bad("state", "the number of pending bits becomes %s", n.str())
			return false
		}
		if nn > 0 {
			b := t.final("p0.bits")
			if b == nil {
				out = append(out, seq...)
			} else {
				for i := nn - 1; i >= 0; i-- {
					out = append(out, b.bits[i])
				}
			}
		}
		want := seq
		if flushed {
			for len(want)%8 != 0 {
				want = append(want, sbit{})
			}
			if nn != 0 {
				c.bad("state", "bits are still pending after a flush")
				return false
			}
		}
		if len(out) != len(want) || !t.bitsEq(msb(out), msb(want)) {
			c.bad("value", "%d bits become %s instead of %s", len(seq), bitStr(msb(out)), bitStr(msb(want)))
			return false
		}
		return true
	}
	for k := 0; k <= 64; k++ {
		for _, t := range r.walkInit(g, 12, state(k)) {
			if !check("Writer.FlushBits", t, pending(k), true) {
				return
			}
		}
		for n := 0; n <= 64; n++ {
			in := state(k)
			in["p2"] = cbits(uint64(n), 64)
			v := cbits(0, 64)
			if n > 0 {
				v = padBits(fld("v", n-1, 0), 64)
			}
			in["p1"] = v
			seq := append(pending(k), msb(v[:n])...)
			for _, t := range r.walkInit(f, 12, in) {
				if !check("Writer.WriteBits", t, seq, false) {
					return
				}
			}
			done++
			r.ok("")
		}
	}
	r.need("writer states", done, 65*65)
}

func (r *Report) golomb() {
	f := r.buildFor("utils/bits:GolombBitReader.ReadBits", nil)
	g := r.buildFor("utils/bits:GolombBitReader.ReadExponentialGolombCode", nil)
	h := r.buildFor("utils/bits:GolombBitReader.ReadSE", stopAt("utils/bits:GolombBitReader.ReadExponentialGolombCode"))
	if f == nil || g == nil || h == nil {
		return
	}
	done, codes := 0, 0
	// taken checks the state after k bits when left were held.
	taken := func(c chk, left, k int) bool {
		t := c.t
		n := 0
		if k > left {
			n = (k - left + 7) / 8
		}
		if !t.pos.eq(sc(int64(n))) {
			c.bad("consumed", "%d bits take %s bytes, not %d", k, t.pos, n)
			return false
		}
		l := t.final("p0.left")
		w := int64(left + 8*n - k)
		if l == nil && w != int64(left) || l != nil && !(l.lin.konst() && l.lin.c == w) {
			c.bad("state", "after %d bits %s are held, not %d", k, l.str(), w)
			return false
		}
		if n > 0 && w > 0 {
			b := t.byteAt("p0.buf", sc(0), len(t.mem))
			if !t.bitsEq(b[:w], fld(fmt.Sprintf("in[%d]", n-1), int(w)-1, 0)) {
				c.bad("state", "the bits held are %s", bitStr(b))
				return false
			}
		}
		return true
	}
	seq := func(left, k int) []sbit {
		var out []sbit
		for i := left - 1; i >= 0 && len(out) < k; i-- {
			out = append(out, sbit{"p0.buf[0]", i})
		}
		return append(out, inBits(k-len(out))...)
	}
	fails := func(t *Trace) bool {
		for _, e := range t.events {
			if e.kind == "read" && e.res != nil && len(e.res.tup) == 2 && t.nilState(e.res.tup[1]) == 0 {
				return true
			}
		}
		return false
	}
	for left := 0; left < 8; left++ {
		st := func() map[string][]sbit {
			return map[string][]sbit{"p0.left": cbits(uint64(left), 8)}
		}
		for n := 0; n <= 32; n++ {
			in := st()
			in["p1"] = cbits(uint64(n), 64)
			for _, t := range r.walkInit(f, 40, in) {
				c := chk{r, t, "bits|Golomb.ReadBits"}
				if t.end == nil {
					c.bad("loop", "reading %d bits does not end", n)
					return
				}
				if fails(t) {
					if t.okRes(1) != 0 {
						c.bad("err", "a failed read is not an error")
						return
					}
					continue
				}
				if t.okRes(1) == 0 || !t.bitsEq(t.ret[0].bits, padBits(msb(seq(left, n)), 64)) {
					c.bad("value", "reading %d bits with %d held gives %s", n, left, bitStr(t.ret[0].bits))
					return
				}
				if !taken(c, left, n) {
					return
				}
				done++
				r.ok("")
			}
		}
		zeros := map[int]bool{}
		for _, t := range r.walkInit(g, 40, st()) {
			c := chk{r, t, "bits|Golomb.code"}
			if t.end == nil {
				c.bad("loop", "reading a code does not end")
				return
			}
			if fails(t) {
				if t.okRes(1) != 0 {
					c.bad("err", "a failed read is not an error")
					return
				}
				continue
			}
			// leading zeros
			all := seq(left, 80)
			z := 0
			for z < 40 && t.topBit(all[z]) == 0 {
				z++
			}
			if z < 32 && t.topBit(all[z]) != 1 {
				c.bad("prefix", "a code is read without looking at its prefix (%d, %s)", z, bitStr(all[z:z+1]))
				return
			}
			if z > 32 {
				continue // not a code
			}
			want := sterm("("+bitStr(msb(all[z+1:2*z+1]))+")").add(sc(1<<uint(z)-1), 1)
			if z == 0 {
				want = sc(0)
			} else {
				v := t.x.fromBits(padBits(msb(all[z+1:2*z+1]), 64), types.Typ[types.Uint])
				want = v.lin.add(sc(1<<uint(z)-1), 1)
			}
			if t.okRes(1) == 0 || !t.ret[0].isInt || !t.isEq(t.ret[0].lin.add(want, -1)) {
				c.bad("value", "a code with %d leading zeros is %s, not %s", z, t.ret[0].lin, want)
				return
			}
			if !taken(c, left, 2*z+1) {
				return
			}
			zeros[z] = true
			codes++
			r.ok("")
		}
		for z := 0; z <= 32; z++ {
			if !zeros[z] {
				r.fail("bits|Golomb.code|missing", r.P.pos(g.Root.Pos()), fmt.Sprintf("codes with %d leading zeros are never read", z))
				return
			}
		}
	}
	r.need("bit field reads", done, 8*33)
	r.need("codes read", codes, 8*33)
	se := map[string]int{}
	for _, t := range r.walkInit(h, 2, nil) {
		c := chk{r, t, "bits|Golomb.ReadSE"}
		e := t.calls("utils/bits:GolombBitReader.ReadExponentialGolombCode")
		if len(e) != 1 || t.end == nil {
			c.bad("call", "does not read one code")
			return
		}
		v := e[0].res.tup[0]
		if t.nilState(e[0].res.tup[1]) == 0 {
			if t.okRes(1) != 0 {
				c.bad("err", "a failed read is not an error")
			}
			continue
		}
		odd := t.topBit(v.bits[0])
		half := t.x.fromBits(padBits(v.bits[1:], 64), types.Typ[types.Uint]).lin
		got := t.ret[0].lin
		ok := false
		switch odd {
		case 1:
			ok = got.eq(half.add(sc(1), 1)) || got.String() == fmt.Sprintf("(%s{63:1})", v.lin.add(sc(1), 1))
		case 0:
			ok = got.eq(half.mul(-1))
		}
		if !ok || t.okRes(1) == 0 {
			c.bad("value", "code number %s (low bit %d) is read as %s", v.lin, odd, got)
			return
		}
		se[fmt.Sprint(odd)]++
		r.ok("")
	}
	r.need("signed codes with an odd number", se["1"], 1)
	r.need("signed codes with an even number", se["0"], 1)
}

func init() {
	register("C26", "proof", func(r *Report, thorough bool) {
		r.rule("The bit readers and writers are walked for every number of bits held and asked for, with all bits unknown; each bit returned, kept or written is traced to the bit it comes from and must be the next one in order. Exp-Golomb codes are walked for every number of leading zeros.")
		r.bitReader()
		r.bitWriter()
		r.golomb()
	})
}
