package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C22: the RTMP handshake. The digest primitives are compared with their
// definitions; the two handshake functions are walked with the digest and its
// position as opaque values and every byte sent is followed to its origin.

const hsSize, hsDigest = 1536, 32

var hsStops = []string{"format/rtmp:hsMakeDigest", "format/rtmp:hsCalcDigestPos", "format/rtmp:wrapReadWriter.Flush"}

// hsFacts is what the definitions, which hsDigests checks, say about results.
var hsFacts = map[string]func(t *Trace, as []*sval, r *sval){
	"hsMakeDigest": func(t *Trace, as []*sval, r *sval) {
		r.base, r.off, r.length, r.hasLen = r.sym, sc(0), sc(hsDigest), true
	},
	"hsCalcDigestPos": func(t *Trace, as []*sval, r *sval) {
		if b, ok := constOf(as[1]); ok {
			l := t.x.toLin(sterm(r.sym))
			t.facts = append(t.facts, l.plusc(-b-4), l.scale(-1).plusc(b+4+727))
		}
	},
}

func at(s *sval, base string, off slin, n int64) bool {
	return s != nil && s.hasLen && plain(s.base) == base && s.off.eq(off) && s.length.eq(sc(n))
}

// sameSlice: both name the same bytes.
func (t *Trace) sameSlice(a, b *sval) bool {
	return a != nil && b != nil && a.base != "" && a.base == b.base && t.isEq(a.off.add(b.off, -1)) && a.hasLen && b.hasLen && t.isEq(a.length.add(b.length, -1))
}

// hsWhole: v is all of parameter p.
func (t *Trace) hsWhole(v *sval, p string) bool {
	return v != nil && v.base == p && t.isEq(v.off) && t.isEq(v.length.add(t.x.leaf("len("+p+")", types.Typ[types.Int]).lin, -1))
}

func (r *Report) hsDigests() {
	// HMAC-SHA256 over everything but the digest
	for _, t := range r.traceSet("format/rtmp:hsMakeDigest", nil, nil) {
		c := chk{r, t, "hs|digest"}
		var h *sval
		var parts []*sval
		var sum *sval
		for _, e := range t.events {
			switch {
			case e.kind == "call" && e.in.Callee != nil && fnPkgPath(e.in.Callee) == "crypto/hmac" && e.in.Callee.Name() == "New":
				if len(e.args) != 2 || !strings.HasSuffix(e.args[0].sym, "crypto/sha256.New") || plain(e.args[1].sym) != "p0" {
					c.bad("hmac", "the digest is not HMAC-SHA256 under the key given")
				}
				h = e.res
			case e.kind == "write" && h != nil && e.name == h.sym:
				if sum != nil {
					c.bad("late", "data is added after the digest is taken")
				}
				parts = append(parts, e.args[1])
			case e.kind == "call" && strings.HasSuffix(e.name, "Sum") && len(e.args) == 2 && h != nil && e.args[0].sym == h.sym:
				if !e.args[1].isNil {
					c.bad("sum", "the digest is appended to other data")
				}
				sum = e.res
			}
		}
		if h == nil || sum == nil || t.end == nil || t.end.Op != OpReturn || len(t.ret) == 0 || t.ret[0].sym != sum.sym {
			c.bad("result", "the result is not the digest")
			continue
		}
		gap := sterm("p2")
		switch {
		case t.implies(gap.mul(-1)):
			if len(parts) != 1 || !t.hsWhole(parts[0], "p1") {
				c.bad("whole", "without a gap the digest is not that of all the data")
				continue
			}
		case t.implies(gap.add(sc(-1), 1)):
			n := t.x.leaf("len(p1)", types.Typ[types.Int]).lin
			if len(parts) != 2 || parts[0].base != "p1" || parts[1].base != "p1" || !t.isEq(parts[0].off) || !t.isEq(parts[0].length.add(gap, -1)) ||
				!t.isEq(parts[1].off.add(gap, -1).add(sc(-hsDigest), 1)) || !t.isEq(parts[1].off.add(parts[1].length, 1).add(n, -1)) {
				c.bad("gap", "the digest is not that of the data around the %d bytes at the gap", hsDigest)
				continue
			}
		default:
			c.bad("case", "does not tell whether there is a gap")
			continue
		}
		r.ok("the digest covers what it should")
	}

	// the position of the digest
	for _, t := range r.traceSet("format/rtmp:hsCalcDigestPos", nil, nil) {
		c := chk{r, t, "hs|pos"}
		if t.end == nil || t.end.Op != OpReturn {
			c.bad("loop", "does not add up four bytes")
			continue
		}
		want := "(p0[p1+1]+p0[p1+2]+p0[p1+3]+p0[p1] % 728)+p1+4"
		if g := t.ret[0].lin.String(); !t.ret[0].isInt || g != want {
			c.bad("pos", "the digest is looked for at %s, not at %s", g, want)
			continue
		}
		r.ok("the digest position")
	}

	r.hsKeys()
}

// hsKeys: the keys are those of the protocol.
func (r *Report) hsKeys() {
	tail := "\xF0\xEE\xC2\x4A\x80\x68\xBE\xE8\x2E\x00\xD0\xD1\x02\x9E\x7E\x57\x6E\xEC\x5D\x2D\x29\x80\x6F\xAB\x93\xB8\xE6\x36\xCF\xEB\x31\xAE"
	for _, k := range []struct {
		name, text string
	}{
		{"hsClient", "Genuine Adobe Flash Player 001"},
		{"hsServer", "Genuine Adobe Flash Media Server 001"},
	} {
		full := k.text + tail
		got, ok := r.hsKey(k.name + "FullKey")
		if !ok || got != full {
			r.fail("hs|key|"+k.name+"FullKey", "format/rtmp/handshake.go", fmt.Sprintf("the key %sFullKey is not that of the protocol (%d bytes read)", k.name, len(got)))
		} else {
			r.ok("key " + k.name + "FullKey")
		}
		got, ok = r.hsKey(k.name + "PartialKey")
		if !ok || got != k.text {
			r.fail("hs|key|"+k.name+"PartialKey", "format/rtmp/handshake.go", fmt.Sprintf("the key %sPartialKey is not the first %d bytes of the full one", k.name, len(k.text)))
		} else {
			r.ok("key " + k.name + "PartialKey")
		}
	}
}

// hsKey is the content of a key that is set when the package starts.
func (r *Report) hsKey(name string) (string, bool) {
	pkg := r.P.Pkgs["format/rtmp"]
	if pkg == nil {
		return "", false
	}
	g, ok := pkg.Members[name].(*ssa.Global)
	if !ok || !r.P.onlyRead(g) {
		return "", false
	}
	if c, ok := r.P.readTable(pkg, g); ok {
		b := make([]byte, len(c))
		for i, x := range c {
			b[i] = byte(x)
		}
		return string(b), true
	}
	// a part of another key
	for _, f := range r.P.AllFuncs {
		if f.Pkg != pkg || f.Name() != "init" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok || st.Addr != ssa.Value(g) {
					continue
				}
				if s, ok := hsSliceOf(r, st.Val); ok {
					return s, true
				}
			}
		}
	}
	if init := pkg.Func("init"); init != nil {
		for _, b := range init.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok && st.Addr == ssa.Value(g) {
					return hsSliceOf(r, st.Val)
				}
			}
		}
	}
	return "", false
}

func hsSliceOf(r *Report, v ssa.Value) (string, bool) {
	sl, ok := v.(*ssa.Slice)
	if !ok {
		return "", false
	}
	ld, ok := sl.X.(*ssa.UnOp)
	if !ok {
		return "", false
	}
	from, ok := ld.X.(*ssa.Global)
	if !ok {
		return "", false
	}
	s, ok := r.hsKey(from.Name())
	if !ok {
		return "", false
	}
	lo, hi := int64(0), int64(len(s))
	for i, b := range []ssa.Value{sl.Low, sl.High} {
		if b == nil {
			continue
		}
		k, ok := b.(*ssa.Const)
		if !ok || k.Value == nil {
			return "", false
		}
		n, _ := constant.Int64Val(constant.ToInt(k.Value))
		if i == 0 {
			lo = n
		} else {
			hi = n
		}
	}
	if lo < 0 || hi > int64(len(s)) || lo > hi {
		return "", false
	}
	return s[lo:hi], true
}

// hsRun is a handshake along one path.
type hsRun struct {
	chk
	ev []sevent
}

func (h *hsRun) digest(sym string) *sevent {
	for i, e := range h.ev {
		if e.kind == "call" && e.in.Callee != nil && e.in.Callee.Name() == "hsMakeDigest" && e.res != nil && e.res.sym == sym {
			return &h.ev[i]
		}
	}
	return nil
}

// posOf: the digest position s is that of the block p, by which base.
func (h *hsRun) posOf(s string, p *sval) (int64, int, bool) {
	for _, e := range h.ev {
		if e.kind == "call" && e.in.Callee != nil && e.in.Callee.Name() == "hsCalcDigestPos" && e.res != nil && e.res.sym == s {
			b, ok := constOf(e.args[1])
			return b, e.nm, ok && h.t.sameSlice(e.args[0], p)
		}
	}
	return 0, 0, false
}

func one(l slin) (string, int64, bool) {
	if len(l.t) != 1 {
		return "", 0, false
	}
	for k, c := range l.t {
		return k, l.c, c == 1
	}
	return "", 0, false
}

// peerDigest: what the path found out about the peer's block. 1 with the
// place of the digest, 0 when there is none, -1 when it did not look at both
// places.
func (h *hsRun) peerDigest(block *sval, key string) (int, slin) {
	none := map[int64]bool{}
	for _, e := range h.ev {
		if e.kind != "call" || e.in.Callee == nil || len(e.args) != 2 {
			continue
		}
		n := e.in.Callee.Name()
		if !(n == "Compare" || n == "Equal") || e.res == nil {
			continue
		}
		for k := 0; k < 2; k++ {
			d := h.digest(e.args[1-k].sym)
			w := e.args[k]
			if d == nil || w.base != block.base || !w.hasLen || !h.t.isEq(w.length.add(sc(-hsDigest), 1)) {
				continue
			}
			pos, _, ok := one(w.off.add(block.off, -1))
			if !ok || !w.off.add(block.off, -1).eq(sterm(pos)) {
				continue
			}
			base, _, ok := h.posOf(pos, block)
			if !ok || base != 8 && base != 772 {
				continue
			}
			if plain(d.args[0].sym) != "g:format/rtmp."+key || !h.t.sameSlice(d.args[1], block) || !h.t.isEq(d.args[2].lin.add(sterm(pos), -1)) {
				continue
			}
			eq := -1
			if n == "Compare" {
				if l := sterm(e.res.sym); h.t.isEq(l) {
					eq = 1
				} else if h.t.isNeq(l) {
					eq = 0
				}
			} else {
				eq = h.t.truth(e.res)
			}
			switch eq {
			case 1:
				return 1, w.off
			case 0:
				none[base] = true
			}
		}
	}
	if none[8] && none[772] {
		return 0, slin{}
	}
	return -1, slin{}
}

// after lists what is written into [off, off+n) of base from entry i on.
func (h *hsRun) after(base string, off int64, n int64, i, j int) (out []memEnt) {
	for _, m := range h.t.mem[i:j] {
		if m.base != base && m.base != "*" || m.base == "*" {
			continue
		}
		w := m.n
		if m.kind == 0 {
			w = sc(1)
		}
		if m.kind != 4 {
			if h.t.implies(m.off.add(sc(-off-n), 1)) || h.t.implies(sc(off).add(m.off, -1).add(w, -1)) {
				continue
			}
		}
		out = append(out, m)
	}
	return
}

// fresh: bytes k of the block are random at that time.
func (h *hsRun) random(base string, off, from, to int64, nm int) bool {
	for k := from; k < to; k++ {
		b := h.t.byteAt(base, sc(off+k), nm)
		if len(b) != 8 || !strings.HasPrefix(b[0].s, "rand@") {
			return false
		}
	}
	return true
}

// opening is C1 or S1 with a digest in it.
func (h *hsRun) opening(what, base string, off int64, key string, nm int) bool {
	var d *sevent
	var pos string
	for i, e := range h.ev {
		if e.kind != "call" || e.in.Callee == nil || e.in.Callee.Name() != "hsMakeDigest" || !at(e.args[1], base, sc(off), hsSize) {
			continue
		}
		p, _, ok := one(e.args[2].lin)
		if b, nm, is := h.posOf(p, e.args[1]); ok && len(h.after(base, off+b, 4, nm, e.nm)) == 0 && is && (b == 8 || b == 772) && plain(e.args[0].sym) == "g:format/rtmp."+key {
			d, pos = &h.ev[i], p
		}
	}
	if d == nil {
		h.bad(what+"|digest", "no digest of %s is made under %s, at the place its bytes tell", what, key)
		return false
	}
	nonzero := false
	for k := int64(4); k < 8; k++ {
		for _, b := range h.t.byteAt(base, sc(off+k), d.nm) {
			nonzero = nonzero || b.s == "" && b.i == 1
		}
	}
	if !nonzero {
		h.bad(what+"|version", "the version in %s may be zero, which announces a handshake without digest", what)
		return false
	}
	if !h.random(base, off, 8, hsSize, d.nm) {
		h.bad(what+"|random", "%s is not filled with random bytes before the digest is made", what)
		return false
	}
	l := h.after(base, off, hsSize, d.nm, nm)
	if len(l) != 1 || l[0].kind != 1 || l[0].src.sym != d.res.sym || !h.t.isEq(l[0].off.add(sterm(pos), -1).add(sc(-off), 1)) {
		h.bad(what+"|place", "the digest of %s is not put in its place, and nothing else", what)
		return false
	}
	h.r.ok(h.key + ": " + what + " carries its digest")
	return true
}

// answer is C2 or S2: the digest of random bytes under the digest of the
// peer's digest, or the peer's block.
func (h *hsRun) answer(what, base string, off int64, key string, found int, place slin, peer *sval, in int64, nm int) bool {
	if found == 0 {
		for k := int64(0); k < hsSize; k++ {
			b := h.t.byteAt(base, sc(off+k), nm)
			if len(b) != 8 || b[0].s != fmt.Sprintf("in[%d]", in+k) || b[7].i != 7 {
				h.bad(what+"|echo", "byte %d of %s is %s, not that of the peer's block", k, what, bitStr(b))
				return false
			}
		}
		h.r.ok(h.key + ": " + what + " is the peer's block")
		return true
	}
	var d *sevent
	for i, e := range h.ev {
		if e.kind != "call" || e.in.Callee == nil || e.in.Callee.Name() != "hsMakeDigest" || !at(e.args[1], base, sc(off), hsSize) || !e.args[2].lin.eq(sc(hsSize-hsDigest)) {
			continue
		}
		if k := h.digest(e.args[0].sym); k != nil && plain(k.args[0].sym) == "g:format/rtmp."+key && k.args[1].base == peer.base && k.args[1].hasLen &&
			h.t.isEq(k.args[1].off.add(place, -1)) && h.t.isEq(k.args[1].length.add(sc(-hsDigest), 1)) && h.t.implies(k.args[2].lin.mul(-1)) {
			d = &h.ev[i]
		}
	}
	if d == nil {
		h.bad(what+"|digest", "no digest of %s is made under the digest of the peer's digest", what)
		return false
	}
	if !h.random(base, off, 0, hsSize-hsDigest, d.nm) {
		h.bad(what+"|random", "%s is not filled with random bytes before its digest is made", what)
		return false
	}
	l := h.after(base, off, hsSize, d.nm, nm)
	if len(l) != 1 || l[0].kind != 1 || l[0].src.sym != d.res.sym || !l[0].off.eq(sc(off+hsSize-hsDigest)) {
		h.bad(what+"|place", "the digest of %s is not its last %d bytes, and nothing else", what, hsDigest)
		return false
	}
	h.r.ok(h.key + ": " + what + " carries its digest")
	return true
}

func (h *hsRun) ioErr(e sevent) int {
	v := e.res
	if v != nil && v.tup != nil {
		v = v.tup[len(v.tup)-1]
	}
	if v == nil {
		return -1
	}
	return h.t.nilState(v)
}

// hsParseC1: the exported check of a client's block looks at whole blocks only.
func (r *Report) hsParseC1() {
	n := 0
	for _, t := range r.traceSet("format/rtmp:HsServerParseC1", nil, stopAt(hsStops...)) {
		c := chk{r, t, "hs|HsServerParseC1"}
		size := t.x.leaf("len(p0)", types.Typ[types.Int]).lin.add(sc(-hsSize), 1)
		looks := false
		for _, e := range t.events {
			if e.kind == "call" && e.in.Callee != nil && e.in.Callee.Name() == "hsCalcDigestPos" {
				looks = true
			}
		}
		if looks {
			n++
			if !t.isEq(size) {
				c.bad("size", "looks for a digest in a block of any length, which need not have the bytes")
				continue
			}
			r.ok("only whole blocks are looked at")
			continue
		}
		if len(t.ret) != 2 || t.truth(t.ret[0]) != 0 {
			c.bad("yes", "finds a digest without looking")
			continue
		}
		r.ok("another block has no digest")
	}
	if n == 0 {
		r.fail("hs|HsServerParseC1|none", "-", "no path looks for a digest")
	}
}

func (r *Report) hsExchange(fn string, server bool) {
	done := map[int]int{}
	for _, t := range r.traceSet("format/rtmp:Conn."+fn, nil, stopAt(hsStops...)) {
		h := &hsRun{chk: chk{r, t, "hs|" + fn}, ev: t.events}
		var io []sevent
		for _, e := range t.events {
			if e.kind == "read" || e.kind == "write" || e.kind == "call" && e.in.Callee != nil && e.in.Callee.Name() == "Flush" {
				io = append(io, e)
			}
		}
		// a failed operation ends the handshake with an error
		ok := true
		last := -1
		for i, e := range io {
			if h.ioErr(e) == 1 {
				continue
			}
			last = i
			if i < len(io)-1 {
				h.bad("io", "goes on after %s that may have failed", e.kind)
				ok = false
				break
			}
		}
		if !ok {
			continue
		}
		got, out := int64(0), int64(0)
		var vers []sbit
		var wbuf []sevent
		flushed := true
		why := ""
		for _, e := range io {
			switch e.kind {
			case "read":
				if !flushed {
					why = "waits for the peer with unsent bytes"
				}
				n, ok := int64(0), false
				if e.args[0].hasLen && e.args[0].length.konst() {
					n, ok = e.args[0].length.c, true
				}
				if !ok {
					why = "reads an unknown number of bytes"
				}
				got += n
			case "write":
				if len(e.args) < 2 || !e.args[1].hasLen || !e.args[1].length.konst() {
					why = "writes an unknown number of bytes"
					break
				}
				if server && got != 1+hsSize {
					why = fmt.Sprintf("answers after %d bytes", got)
				}
				out += e.args[1].length.c
				wbuf = append(wbuf, e)
				flushed = false
			default:
				flushed = true
			}
			if why != "" {
				break
			}
		}
		if why != "" {
			h.bad("order", "%s", why)
			continue
		}
		stage := false
		for _, e := range t.events {
			if e.kind == "store" && plain(e.name) == "p0.Stage" {
				stage = true
			}
		}
		if t.end == nil || t.end.Op != OpReturn {
			h.bad("loop", "the handshake does not end")
			continue
		}
		res := t.okRes(0)
		if last >= 0 && res == -1 && len(t.ret) > 0 {
			v := io[last].res
			if v != nil && v.tup != nil {
				v = v.tup[len(v.tup)-1]
			}
			if v != nil && t.ret[0].sym == v.sym {
				res = 1 // the last operation's own result
				last = -1
			}
		}
		if last >= 0 || res == 0 {
			if res == 1 {
				h.bad("fail", "succeeds although an operation failed")
			} else if res == 0 && last < 0 {
				// refuses: only another version
				v := t.byteLeaf("in", sc(0))
				other := server && got >= 1 && h.notThree(v)
				if !other {
					h.bad("refuse", "fails although nothing failed and the version is 3")
				} else if out > 0 {
					h.bad("refuse", "answers before it refuses")
				} else {
					r.ok(fn + ": refuses another version")
					done[3]++
				}
			}
			if stage && res != 1 && last >= 0 && h.ioErr(io[last]) == 0 {
				h.bad("stage", "the stage is advanced although the handshake failed")
			}
			if last >= 0 {
				continue
			}
			continue
		}
		_ = vers
		if !stage {
			// left to the caller; C13 checks that it does
			r.ok(fn + ": the stage is left to the caller")
		}
		// the whole exchange
		if server {
			if got != 1+2*hsSize || out != 1+2*hsSize || len(wbuf) != 1 {
				h.bad("size", "reads %d and sends %d bytes", got, out)
				continue
			}
			if !h.isThree(t.byteLeaf("in", sc(0))) {
				h.bad("version", "does not look at the client's version")
				continue
			}
			w := wbuf[0].args[1]
			base, off := w.base, w.off.c
			peer := h.block(1)
			if peer == nil {
				h.bad("block", "the client's block is not kept as it was read")
				continue
			}
			if !h.three(base, off, wbuf[0].nm) {
				continue
			}
			found, place := h.peerDigest(peer, "hsClientPartialKey")
			if found == -1 {
				h.bad("look", "does not look for the client's digest at both places")
				continue
			}
			if found == 1 && !h.opening("S1", base, off+1, "hsServerPartialKey", wbuf[0].nm) {
				continue
			}
			if h.answer("S2", base, off+1+hsSize, "hsServerFullKey", found, place, peer, 1, wbuf[0].nm) {
				done[found]++
			}
			continue
		}
		if got != 1+2*hsSize || out != 1+2*hsSize || len(wbuf) != 2 || wbuf[0].args[1].length.c != 1+hsSize {
			h.bad("size", "reads %d and sends %d bytes", got, out)
			continue
		}
		w := wbuf[0].args[1]
		if !h.three(w.base, w.off.c, wbuf[0].nm) || !h.opening("C1", w.base, w.off.c+1, "hsClientPartialKey", wbuf[0].nm) {
			continue
		}
		peer := h.block(1)
		if peer == nil {
			h.bad("block", "the server's block is not kept as it was read")
			continue
		}
		found, place := h.peerDigest(peer, "hsServerPartialKey")
		if found == -1 {
			h.bad("look", "does not look for the server's digest at both places")
			continue
		}
		w = wbuf[1].args[1]
		if h.answer("C2", w.base, w.off.c, "hsClientFullKey", found, place, peer, 1, wbuf[1].nm) {
			done[found]++
		}
	}
	for _, k := range []int{0, 1} {
		if done[k] == 0 {
			r.fail(fmt.Sprintf("hs|%s|none|%d", fn, k), "-", fmt.Sprintf("no path of %s with (1) or without (0) digest: %d", fn, k))
		}
	}
	if server && done[3] == 0 {
		r.fail("hs|"+fn+"|none|version", "-", "no path refuses another version")
	}
}

// block is the slice of the peer's first block: it holds what was read at pos.
func (h *hsRun) block(pos int64) *sval {
	for _, e := range h.ev {
		if e.kind != "read" || !e.args[0].hasLen || !e.args[0].length.konst() || !e.args[1].lin.konst() {
			continue
		}
		d, p := e.args[0], e.args[1].lin.c
		if p <= pos && pos+hsSize <= p+d.length.c && d.off.konst() {
			return &sval{base: d.base, off: d.off.add(sc(pos-p), 1), length: sc(hsSize), hasLen: true}
		}
	}
	return nil
}

func (h *hsRun) three(base string, off int64, nm int) bool {
	v := 0
	for _, b := range h.t.byteAt(base, sc(off), nm) {
		if b.s != "" {
			v = -1
			break
		}
	}
	if v == 0 {
		for i, b := range h.t.byteAt(base, sc(off), nm) {
			v |= b.i << uint(i)
		}
	}
	if v != 3 {
		h.bad("own", "the version sent is not 3")
		return false
	}
	h.r.ok(h.key + ": version 3 is sent")
	return true
}

func (h *hsRun) inByte(bs []sbit) slin { return sterm(bs[0].s) }

func (h *hsRun) isThree(bs []sbit) bool  { return h.t.isEq(h.inByte(bs).add(sc(-3), 1)) }
func (h *hsRun) notThree(bs []sbit) bool { return h.t.isNeq(h.inByte(bs).add(sc(-3), 1)) }

func init() {
	register("C22", "proof", func(r *Report, thorough bool) {
		r.rule("The digest and its position are compared with their definitions and the keys with the protocol's; both handshakes are walked along every path, and every byte sent is followed to its origin: constants, random bytes, the peer's bytes, or a digest of the right block under the right key in its place.")
		r.hsDigests()
		r.hsExchange("handshakeClient", false)
		r.hsExchange("handshakeServer", true)
		r.hsParseC1()
	})
}
