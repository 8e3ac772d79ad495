package main

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var pioName = regexp.MustCompile(`^(Put|Read|Write|)([UI])(8|16|24|32|40|48|64)(BE|LE|)$`)

func goWidth(w int) int {
	switch {
	case w <= 8:
		return 8
	case w <= 16:
		return 16
	case w <= 32:
		return 32
	}
	return 64
}

func init() {
	register("C08", "proof", func(r *Report, thorough bool) {
		r.rule("Each fixed-width accessor is walked path by path; the provenance of every bit it returns or stores is compared with the width, byte order and signedness in its name, the guarded forms must fail exactly when the field does not fit, leave the cursor alone when they fail and advance it by the field's size when they succeed, and the writing forms must advance by the same amount with and without a buffer.")
		kinds := map[string]int{}
		for _, fn := range r.P.AllFuncs {
			if relPkg(fnPkgPath(fn)) != "utils/bits/pio" || fn.Parent() != nil || fn.Signature.Recv() != nil {
				continue
			}
			m := pioName.FindStringSubmatch(fn.Name())
			if m == nil {
				continue
			}
			w, _ := strconv.Atoi(m[3])
			r.pio(fn, m[1], m[2] == "I", w/8, m[4] == "LE")
			kinds[m[1]+"X"]++
		}
		for _, n := range []string{"ReadBytes", "ReadString", "WriteBytes", "WriteString"} {
			if fn := r.P.fn("utils/bits/pio", n); fn != nil {
				r.pioBlob(fn, strings.HasPrefix(n, "Read"))
				kinds["blob"]++
			}
		}
		r.need("plain readers", kinds["X"], 9)
		r.need("plain writers", kinds["PutX"], 9)
		r.need("guarded readers", kinds["ReadX"], 6)
		r.need("cursor writers", kinds["WriteX"], 7)
		r.need("byte string accessors", kinds["blob"], 3)
	})
}

func (r *Report) pio(fn *ssa.Function, kind string, signed bool, w int, le bool) {
	ts := r.traceFn(fn, nil, nil)
	name := fn.Name()
	pos := r.P.pos(fn.Pos())
	gw := goWidth(w * 8)
	bad := func(what, msg string, t *Trace) {
		p := pos
		var path []string
		if t != nil {
			p, path = t.pos2(), t.path()
		}
		r.bad("pio|"+name+"|"+what, p, name+": "+msg, path...)
	}
	bytesOf := func(src string) []string {
		if le {
			return leBytes(src, w)
		}
		return beBytes(src, w)
	}
	switch kind {
	case "":
		want := intFromBytes("p0", sc(0), w, gw, signed, le)
		for _, t := range ts {
			if t.end == nil || t.end.Op != OpReturn || len(t.ret) < 1 {
				continue
			}
			if got := t.ret[0].valBits(); got != want {
				bad("value", fmt.Sprintf("returns %s, not %s", got, want), t)
			} else {
				r.ok(name + " returns " + want)
			}
		}
	case "Put":
		want := bytesOf("p1")
		for _, t := range ts {
			if got := t.image("p0", sc(0), w); !sameStrs(got, want) {
				bad("value", fmt.Sprintf("stores %v, not %v", got, want), t)
			} else if !t.onlyStores("p0", sc(0), w) {
				bad("stray", "stores outside the field", t)
			} else {
				r.ok(name + " stores " + strings.Join(want, " "))
			}
		}
	case "Read":
		want := intFromBytes("p0", sterm("p1"), w, gw, signed, le)
		nok, nerr := 0, 0
		// room = len(b) - (n+w) >= 0
		room := sterm("len(p0)").add(sterm("p1"), -1).add(sc(int64(w)), -1)
		for _, t := range ts {
			cur := t.final("p1")
			switch {
			case t.success(1):
				nok++
				if v, ok := t.bools["p0==nil"]; ok && v {
					r.ok("")
					continue // an empty buffer has no room
				}
				if !t.implies(room) {
					bad("guard", "succeeds on a path that does not ensure the whole field is in the buffer", t)
				} else if got := t.ret[0].valBits(); got != want {
					bad("value", fmt.Sprintf("returns %s, not %s", got, want), t)
				} else if cur == nil || !cur.lin.eq(sterm("p1").add(sc(int64(w)), 1)) {
					bad("cursor", fmt.Sprintf("moves the cursor to %s, not by %d", cur.str(), w), t)
				} else {
					r.ok(name + " reads " + want)
				}
			case t.failure(1):
				nerr++
				if !t.implies(room.mul(-1).add(sc(-1), 1)) {
					bad("guard", "fails although the whole field is in the buffer", t)
				} else if cur != nil && !cur.lin.eq(sterm("p1")) {
					bad("cursor", "moves the cursor on failure", t)
				} else {
					r.ok("")
				}
			default:
				bad("result", "has a result that is neither success nor failure", t)
			}
		}
		if nok == 0 || nerr == 0 {
			bad("result", "has no succeeding or no failing path", nil)
		}
	case "Write":
		want := bytesOf("p2")
		nilp, full := 0, 0
		for _, t := range ts {
			cur := t.final("p1")
			if cur == nil || !cur.lin.eq(sterm("p1").add(sc(int64(w)), 1)) {
				bad("cursor", fmt.Sprintf("moves the cursor to %s, not by %d", cur.str(), w), t)
				continue
			}
			if t.bools["p0==nil"] {
				nilp++
				r.check(len(t.stored()) == 0, "pio|"+name+"|nilstore", pos, name+": stores without a buffer")
				continue
			}
			full++
			if got := t.image("p0", sterm("p1"), w); !sameStrs(got, want) {
				bad("value", fmt.Sprintf("stores %v, not %v", got, want), t)
			} else if !t.onlyStores("p0", sterm("p1"), w) {
				bad("stray", "stores outside the field", t)
			} else {
				r.ok(name + " writes " + strings.Join(want, " "))
			}
		}
		if nilp == 0 || full == 0 {
			bad("count", "has no counting form without a buffer", nil)
		}
	}
}

// onlyStores: every byte store is within base[off, off+w).
func (t *Trace) onlyStores(base string, off slin, w int) bool {
	for _, m := range t.mem {
		if m.kind != 0 && m.kind != 1 {
			continue
		}
		if strings.HasPrefix(m.base, "make@") || strings.HasPrefix(m.base, "alloc@") {
			continue
		}
		d := m.off.add(off, -1)
		if m.base != base || !d.konst() || d.c < 0 || d.c >= int64(w) {
			return false
		}
	}
	return true
}

func (r *Report) pioBlob(fn *ssa.Function, read bool) {
	ts := r.traceFn(fn, nil, nil)
	name := fn.Name()
	pos := r.P.pos(fn.Pos())
	for _, t := range ts {
		cur := t.final("p1")
		bad := func(what, msg string) { r.bad("pio|"+name+"|"+what, t.pos2(), name+": "+msg, t.path()...) }
		if read {
			room := sterm("len(p0)").add(sterm("p1"), -1).add(sterm("p2"), -1)
			switch {
			case t.success(1) && t.bools["p0==nil"]:
				r.ok("") // nothing can be announced in an empty buffer
			case t.success(1):
				v := t.ret[0]
				b, o := t.buf(v)
				if !t.implies(room) {
					bad("guard", "succeeds on a path that does not ensure the whole string is in the buffer")
				} else if b != "p0" || !o.eq(sterm("p1")) || !v.hasLen || !v.length.eq(sterm("p2")) {
					bad("value", "returns "+v.str()+", not the announced bytes at the cursor")
				} else if cur == nil || !cur.lin.eq(sterm("p1").add(sterm("p2"), 1)) {
					bad("cursor", "moves the cursor to "+cur.str())
				} else {
					r.ok(name + " returns " + v.str())
				}
			case t.failure(1):
				// a negative length never fits
				if !t.implies(room.mul(-1).add(sc(-1), 1)) && !t.implies(sterm("p2").mul(-1).add(sc(-1), 1)) {
					bad("guard", "fails although the whole string is in the buffer")
				} else if cur != nil && !cur.lin.eq(sterm("p1")) {
					bad("cursor", "moves the cursor on failure")
				} else {
					r.ok("")
				}
			}
			continue
		}
		if cur == nil || !cur.lin.eq(sterm("p1").add(sterm("len(p2)"), 1)) {
			bad("cursor", "moves the cursor to "+cur.str())
			continue
		}
		if t.bools["p0==nil"] {
			r.check(len(t.stored()) == 0, "pio|"+name+"|nilstore", pos, name+": stores without a buffer")
			continue
		}
		okc := false
		for _, m := range t.mem {
			if m.kind == 1 && m.base == "p0" && m.off.eq(sterm("p1")) {
				if b, o := t.buf(m.src); b == "p2" && o.eq(sc(0)) {
					okc = true
				}
			}
		}
		if okc {
			r.ok(name + " copies its argument to the cursor")
		} else {
			bad("value", "does not copy its argument to the cursor")
		}
	}
}
