package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C29: RTP packets and the H.264 and AAC payloads in them. The functions are
// walked with the packet's bytes unknown, and what each path leaves in the
// stream is compared with what the packet says. Loops over aggregated units
// are followed for their first turns.

type rtpWalk struct {
	t   *Trace
	c   chk
	bad string
}

func (w *rtpWalk) fail(f string, a ...interface{}) {
	if w.bad == "" {
		w.bad = fmt.Sprintf(f, a...)
	}
}

func (r *Report) rtpPaths(name, what string, opt *InlineOpt, max, turns int, need []string, judge func(w *rtpWalk) string) {
	f := r.buildFor(name, opt)
	if f == nil {
		return
	}
	got := map[string]int{}
	var all []*Trace
	for _, t := range r.walkInitN(f, max, turns, nil) {
		if t.end != nil && t.end.Op == OpPanic && len(t.ret) == 1 && strings.Contains(t.ret[0].sym, "blocking select matched no case") {
			continue
		}
		if !t.back {
			all = append(all, t.decided()...)
		}
	}
	for _, t := range all {
		w := &rtpWalk{t: t, c: chk{r, t, "rtp|" + what}}
		if t.end == nil || t.end.Op != OpReturn {
			w.c.bad("end", "a path does not end in a result")
			return
		}
		k := judge(w)
		if w.bad != "" {
			w.c.bad(k, "%s", w.bad)
			return
		}
		got[k]++
		r.ok(what + ": " + k)
	}
	for _, k := range need {
		r.need("walks of "+what+": "+k, got[k], 1)
	}
}

// avConst is a constant of a package.
func (r *Report) pkgConst(pkg, name string) int64 {
	if p := r.P.Pkgs[pkg]; p != nil {
		if c, ok := p.Members[name].(*ssa.NamedConst); ok {
			n, _ := constant.Int64Val(constant.ToInt(c.Value.Value))
			return n
		}
	}
	r.fail("anchor|"+pkg+"."+name, "-", "constant "+name+" does not exist any more")
	return -1
}

// stores lists what the path leaves in the cells under a root.
func (w *rtpWalk) stores(root string) map[string]*sval {
	m := map[string]*sval{}
	for _, e := range w.t.events {
		if e.kind == "store" && strings.HasPrefix(plain(e.name), root+".") {
			m[plain(e.name)[len(root)+1:]] = e.args[0]
		}
	}
	return m
}

// only: nothing but these cells is written.
func (w *rtpWalk) only(m map[string]*sval, names ...string) {
	for k := range m {
		ok := false
		for _, n := range names {
			ok = ok || k == n || strings.HasPrefix(n, k+".") || strings.HasPrefix(k, n+".")
		}
		if !ok {
			w.fail("changes %s", k)
		}
	}
}

func (w *rtpWalk) isNil(k int) bool  { return len(w.t.ret) > k && w.t.okRes(k) == 1 }
func (w *rtpWalk) isErr(k int) bool  { return len(w.t.ret) > k && w.t.okRes(k) == 0 }
func (w *rtpWalk) len(p string) slin { return w.t.x.leaf("len("+p+")", tInt).lin }
func (w *rtpWalk) is(l slin) bool    { return w.t.isEq(l) }
func (w *rtpWalk) ge(a, b slin) bool { return w.t.implies(a.add(b, -1)) }
func (w *rtpWalk) whole(v *sval, p string) bool {
	return v != nil && v.base == p && w.is(v.off) && w.is(v.length.add(w.len(p), -1))
}

// bit of a byte of the packet: 1, 0, or -1 when the path does not look.
func (w *rtpWalk) bit(p string, at slin, i int) int {
	return w.t.bitVal(w.t.byteAt(p, at, 0)[i])
}

// field: the value of bits of a byte.
func (w *rtpWalk) field(p string, at slin, lo, n int) *sval {
	return w.t.x.fromBits(padBits(w.t.byteAt(p, at, 0)[lo:lo+n], 64), tInt)
}

func (w *rtpWalk) be16(p string, at slin) *sval {
	bs := append(append([]sbit{}, w.t.byteAt(p, at.add(sc(1), 1), 0)...), w.t.byteAt(p, at, 0)...)
	return w.t.x.fromBits(padBits(bs, 64), tInt)
}

// may: the value can be k on this path.
func (w *rtpWalk) may(l slin, k int64) bool {
	d := l.add(sc(-k), 1)
	return !w.t.isNeq(d) && !w.t.implies(d.add(sc(-1), 1)) && !w.t.implies(d.mul(-1).add(sc(-1), 1))
}

// seg is a byte, or bytes of another slice.
type seg struct {
	bits   []sbit
	src    string
	off, n slin
}

// holds: v is made of the given parts.
func (w *rtpWalk) holds(v *sval, what string, segs ...seg) bool {
	if v == nil || !v.hasLen {
		w.fail("%s is not known", what)
		return false
	}
	base, at := w.t.buf(v)
	pos := sc(0)
	for i, s := range segs {
		if s.bits != nil {
			if got := w.t.byteAt(base, at.add(pos, 1), len(w.t.mem)); bitStr(got) != bitStr(s.bits) {
				w.fail("byte %d of %s is %s, not %s", i, what, bitStr(got), bitStr(s.bits))
				return false
			}
			pos = pos.add(sc(1), 1)
			continue
		}
		n := w.t.fork()
		k := sterm("anyindex")
		n.facts = append(n.facts, n.x.toLin(k), n.x.toLin(s.n.add(k, -1).add(sc(-1), 1)))
		got := n.byteAt(base, at.add(pos, 1).add(k, 1), len(n.mem))
		want := n.byteLeaf(s.src, s.off.add(k, 1))
		if bitStr(got) != bitStr(want) {
			w.fail("part %d of %s is %s, not that of %s", i, what, bitStr(got), s.src)
			return false
		}
		pos = pos.add(s.n, 1)
	}
	if !w.is(v.length.add(pos, -1)) {
		w.fail("%s has %s bytes, not %s", what, v.length, pos)
		return false
	}
	return true
}

const rtpPayload = "format/rtsp:Stream.handleH264Payload"

func rtpOpt(stops ...string) *InlineOpt {
	o := stopAt(stops...)
	o.Keep = func(f *ssa.Function) bool {
		n := anchorName(f)
		return n == rtpPayload || n == "codec/h264:SplitNALUs" || n == "format/rtsp:Stream.handleRtpPacket"
	}
	return o
}

// untouched: the packet's own bytes are not written.
func (w *rtpWalk) untouched(p string) {
	for _, m := range w.t.mem {
		if plain(m.base) == p {
			w.fail("writes into the packet")
		}
	}
}

// handed: the payloads handed on, in order, with the timestamp given.
func (w *rtpWalk) handed(ts string) []sevent {
	l := w.t.calls(rtpPayload)
	for i, e := range l {
		if len(e.args) != 3 || e.args[0].sym != "p0" {
			w.fail("a unit is not handed to the same stream")
			return nil
		}
		if ts == "0" {
			if c, ok := constOf(e.args[1]); !ok || c != 0 {
				w.fail("a unit is handed on with a timestamp")
			}
		} else if e.args[1].sym != ts {
			w.fail("a unit is handed on with another timestamp")
		}
		_ = i
	}
	return l
}

// through: the calls' errors end the path.
func (w *rtpWalk) through(l []sevent, res int) bool {
	for i, e := range l {
		switch w.t.nilState(errOf(e)) {
		case 1:
		case 0:
			if i < len(l)-1 {
				w.fail("goes on after an error")
			} else if !w.isErr(res) {
				w.fail("drops an error")
			}
			return true
		default:
			if i < len(l)-1 {
				w.fail("goes on after what may be an error")
			} else if len(w.t.ret) <= res || w.t.ret[res].sym != errOf(e).sym {
				w.fail("drops an error")
			}
			return true
		}
	}
	return false
}

// nalus: what SplitNALUs found is handed on.
func (w *rtpWalk) nalus(src string, sp sevent, l []sevent, res int) string {
	t := w.t
	if len(sp.res.tup) != 2 || !w.whole(sp.args[0], src) && plain(sp.args[0].sym) != src {
		w.fail("splits something else")
		return "split"
	}
	raw := t.x.leaf(sp.res.tup[1].sym, tInt).lin.add(sc(-w.c.r.pkgConst("codec/h264", "NALU_RAW")), 1)
	if t.isEq(raw) {
		if len(l) > 0 {
			w.fail("hands on something of an unknown form")
		}
		return "raw"
	}
	if !t.isNeq(raw) {
		w.fail("does not tell whether there are units")
		return "split"
	}
	list := sp.res.tup[0].sym
	n := t.x.leaf("len("+list+")", tInt).lin
	k := 0
	for i := int64(0); i < 4; i++ {
		if t.implies(sc(i).add(n, -1)) {
			break
		}
		if !t.implies(n.add(sc(-i-1), 1)) {
			if k == 0 || k < len(l) || w.t.nilState(errOf(l[k-1])) == 1 {
				w.fail("not all units are looked at")
			}
			break
		}
		el := fmt.Sprintf("%s[%d]", list, i)
		size := t.x.leaf("len("+el+")", tInt).lin
		if t.implies(size.mul(-1)) {
			continue
		}
		if k >= len(l) {
			if k > 0 && w.t.nilState(errOf(l[k-1])) != 1 {
				break
			}
			w.fail("a unit is not handed on")
			return "split"
		}
		if !w.whole(l[k].args[2], el) && l[k].args[2].sym != el {
			w.fail("%s is handed on, not unit %d", l[k].args[2].sym, i)
			return "split"
		}
		k++
	}
	if k < len(l) {
		w.fail("a unit is handed on twice")
	}
	return "units"
}

func (r *Report) rtpH264() {
	if r.buildFor(rtpPayload, rtpOpt(rtpPayload, "codec/h264:SplitNALUs")) == nil {
		return
	}
	opt := rtpOpt(rtpPayload, "codec/h264:SplitNALUs")
	r.rtpPaths(rtpPayload, "h264", opt, 4000, 3, []string{"short", "slice", "key", "sps", "pps", "fu start", "fu more", "fu end", "fu stray", "stap", "other", "bad", "annexb units"}, func(w *rtpWalk) string {
		t := w.t
		w.untouched("p2")
		if w.bad != "" {
			return "frame"
		}
		st := w.stores("p0")
		n := w.len("p2")
		l := w.handed("p1")
		sp := t.calls("codec/h264:SplitNALUs")
		if t.implies(sc(1).add(n, -1)) {
			if !w.isErr(0) || len(st) > 0 || len(l) > 0 {
				w.fail("a unit of one byte or less is taken")
			}
			return "short"
		}
		if !t.implies(n.add(sc(-2), 1)) {
			w.fail("does not look at the length")
			return "short"
		}
		start := -1 // a start code
		if t.implies(n.add(sc(-4), 1)) {
			start = 1
			for i := int64(0); i < 4; i++ {
				l := sterm(fmt.Sprintf("p2[%d]", i))
				if i == 3 {
					l = l.add(sc(-1), 1)
				}
				if t.isNeq(l) {
					start = 0
					break
				}
				if !t.isEq(l) {
					start = -1
				}
			}
		} else if t.implies(sc(3).add(n, -1)) {
			start = 0
		}
		if start == 1 {
			if len(st) > 0 || len(sp) != 1 {
				w.fail("a unit with a start code is not split at start codes")
				return "annexb"
			}
			k := w.nalus("p2", sp[0], l, 0)
			if !w.through(l, 0) && !w.isNil(0) {
				w.fail("fails without an error")
			}
			return "annexb " + k
		}
		if start != 0 {
			w.fail("does not tell whether there is a start code")
			return "annexb"
		}
		if len(sp) > 0 {
			w.fail("splits a unit without a start code")
			return "annexb"
		}
		typ := w.field("p2", sc(0), 0, 5).lin
		class := map[string]bool{}
		for k := int64(0); k < 32; k++ {
			if !w.may(typ, k) {
				continue
			}
			switch {
			case k == 5:
				class["key"] = true
			case k >= 1 && k <= 4:
				class["slice"] = true
			case k == 7:
				class["sps"] = true
			case k == 8:
				class["pps"] = true
			case k == 28:
				class["fu"] = true
			case k == 24:
				class["stap"] = true
			case k == 0 || k >= 29:
				class["bad"] = true
			default:
				class["other"] = true
			}
		}
		if len(class) != 1 {
			var l []string
			for k := range class {
				l = append(l, k)
			}
			w.fail("treats different kinds of units alike: %s", sortedStr(l))
			return "kinds"
		}
		cl := ""
		for k := range class {
			cl = k
		}
		if cl != "fu" && cl != "stap" && len(l) > 0 {
			w.fail("hands on parts of a unit that has none")
		}
		switch cl {
		case "slice", "key":
			w.only(st, "gotpkt", "pkt.IsKeyFrame", "pkt.Data", "timestamp")
			if st["gotpkt"] == nil || t.truth(st["gotpkt"]) != 1 || !w.isNil(0) {
				w.fail("a slice does not make a packet")
				return cl
			}
			if k := st["pkt.IsKeyFrame"]; cl == "key" && (k == nil || t.truth(k) != 1) || cl == "slice" && k != nil {
				w.fail("the packet is a key frame if and only if its slice is an IDR slice")
			}
			if v := st["timestamp"]; v == nil || v.sym != "p1" {
				w.fail("the packet does not have the time stamp of the slice")
			}
			bs := n
			lb := t.x.leaf("len(p2)", tInt).bits
			var segs []seg
			for i := 3; i >= 0; i-- {
				segs = append(segs, seg{bits: lb[8*i : 8*i+8]})
			}
			w.holds(st["pkt.Data"], "the packet", append(segs, seg{src: "p2", off: sc(0), n: bs})...)
		case "sps", "pps":
			w.only(st, cl, cl+"Changed")
			if !w.isNil(0) {
				w.fail("fails")
			}
			have := w.len("p0." + cl)
			same := -1
			for _, e := range t.events {
				if e.kind == "call" && e.in.Callee != nil && fnPkgPath(e.in.Callee) == "bytes" && len(e.args) == 2 && e.res != nil {
					x, y := e.args[0], e.args[1]
					if !(plain(x.sym) == "p0."+cl && w.whole(y, "p2") || plain(y.sym) == "p0."+cl && w.whole(x, "p2")) {
						continue
					}
					switch e.in.Callee.Name() {
					case "Compare":
						if l := sterm(e.res.sym); t.isEq(l) {
							same = 1
						} else if t.isNeq(l) {
							same = 0
						}
					case "Equal":
						same = t.truth(e.res)
					}
				}
			}
			v, ch := st[cl], st[cl+"Changed"]
			switch {
			case t.implies(have.mul(-1)):
				if !w.whole(v, "p2") || ch != nil {
					w.fail("the first %s is not just kept", cl)
				}
			case !t.implies(have.add(sc(-1), 1)) || same < 0:
				w.fail("does not tell whether the %s is a new one", cl)
			case same == 1:
				if ch != nil || v != nil && !w.whole(v, "p2") {
					w.fail("the same %s again counts as a change", cl)
				}
			default:
				if !w.whole(v, "p2") || ch == nil || t.truth(ch) != 1 {
					w.fail("a new %s does not count as a change", cl)
				}
			}
		case "fu":
			return w.fragment(st, l)
		case "stap":
			return w.aggregate(st, l)
		case "other":
			if len(st) > 0 || !w.isNil(0) {
				w.fail("a unit that is not used is not just left out")
			}
		case "bad":
			if len(st) > 0 || !w.isErr(0) {
				w.fail("a unit of an unknown kind is taken")
			}
		}
		return cl
	})
}

// fragment: FU-A.
func (w *rtpWalk) fragment(st map[string]*sval, l []sevent) string {
	t := w.t
	w.only(st, "fuStarted", "fuBuffer")
	s, e := w.bit("p2", sc(1), 7), w.bit("p2", sc(1), 6)
	n := w.len("p2").add(sc(-2), 1)
	open := -1
	switch {
	case s == 1:
		open = 1
	case s == 0:
		open = t.truth(t.x.leaf("p0.fuStarted", tBool))
	}
	if s < 0 || open < 0 || open == 1 && e < 0 {
		w.fail("does not look at the start, the end, or whether a unit was started")
		return "fu"
	}
	if open == 0 {
		if len(st) > 0 || len(l) > 0 || !w.isNil(0) {
			w.fail("a fragment of a unit without start is taken")
		}
		return "fu stray"
	}
	buf := st["fuBuffer"]
	var segs []seg
	if s == 1 {
		hd := append(append([]sbit{}, t.byteAt("p2", sc(1), 0)[:5]...), t.byteAt("p2", sc(0), 0)[5:]...)
		segs = append(segs, seg{bits: hd})
	} else {
		segs = append(segs, seg{src: "p0.fuBuffer", off: sc(0), n: w.len("p0.fuBuffer")})
	}
	segs = append(segs, seg{src: "p2", off: sc(2), n: n})
	started := st["fuStarted"]
	if e == 1 {
		if len(l) != 1 {
			w.fail("the unit is not handed on when it is complete")
			return "fu end"
		}
		w.holds(l[0].args[2], "the unit", segs...)
		if started == nil || t.truth(started) != 0 {
			w.fail("a unit that is complete is still open")
		}
		if !w.through(l, 0) && !w.isNil(0) {
			w.fail("fails without an error")
		}
		return "fu end"
	}
	if len(l) > 0 || !w.isNil(0) {
		w.fail("a unit is handed on before its end")
	}
	if buf == nil {
		w.fail("a fragment is not kept")
		return "fu more"
	}
	w.holds(buf, "the unit so far", segs...)
	if s == 1 && (started == nil || t.truth(started) != 1) || s == 0 && started != nil && t.truth(started) != 1 {
		w.fail("a unit that is not complete is not open")
	}
	if s == 1 {
		return "fu start"
	}
	return "fu more"
}

// aggregate: STAP-A.
func (w *rtpWalk) aggregate(st map[string]*sval, l []sevent) string {
	w.only(st)
	n := w.len("p2")
	at := sc(1)
	for i, e := range l {
		size := w.be16("p2", at).lin
		end := at.add(sc(2), 1).add(size, 1)
		if !w.ge(n, at.add(sc(2), 1)) || !w.ge(n, end) {
			w.fail("unit %d does not fit", i)
			return "stap"
		}
		v := e.args[2]
		if v.base != "p2" || !w.is(v.off.add(at.add(sc(2), 1), -1)) || !w.is(v.length.add(size, -1)) {
			w.fail("unit %d is %s, not the %s bytes from %s", i, v.sym, size, at.add(sc(2), 1))
			return "stap"
		}
		at = end
	}
	if w.through(l, 0) {
		return "stap"
	}
	size := w.be16("p2", at).lin
	if !w.ge(at.add(sc(1), 1), n) && !w.ge(at.add(sc(1), 1).add(size, 1), n) {
		w.fail("stops after %d units", len(l))
	}
	if !w.isNil(0) {
		w.fail("fails without an error")
	}
	return "stap"
}

// rtpPacket: the header of an RTP packet and what becomes of its payload.
func (r *Report) rtpPacket() {
	h264, aac := r.pkgConst("av", "H264"), r.pkgConst("av", "AAC")
	opt := rtpOpt(rtpPayload, "format/rtsp:Stream.makeCodec")
	r.rtpPaths("format/rtsp:Stream.handleRtpPacket", "packet", opt, 20000, 2, []string{"change", "short", "h264", "aac", "aac short", "other", "padding invalid"}, func(w *rtpWalk) string {
		t := w.t
		w.untouched("p1")
		st := w.stores("p0")
		w.only(st, "pkt.Type", "pkt.Data", "gotpkt", "timestamp")
		l := t.calls(rtpPayload)
		mk := t.calls("format/rtsp:Stream.makeCodec")
		sc1, sc2 := t.truth(t.x.leaf("p0.spsChanged", tBool)), t.truth(t.x.leaf("p0.ppsChanged", tBool))
		nothing := func(what string) {
			if len(l) > 0 || st["gotpkt"] != nil || st["pkt.Data"] != nil || len(mk) > 0 {
				w.fail("%s makes a packet", what)
			}
		}
		if sc1 == 1 && sc2 == 1 {
			nothing("a packet after a change of the codec")
			if len(t.ret) != 1 || plain(t.ret[0].sym) != "g:format/rtsp.ErrCodecChange" {
				w.fail("a change of the codec is not reported")
			}
			return "change"
		}
		if sc1 != 0 && sc2 != 0 {
			w.fail("does not look whether the codec changed")
			return "change"
		}
		n := w.len("p1")
		short := func() string {
			nothing("a packet that is too short")
			if !w.isErr(0) {
				w.fail("a packet that is too short is taken")
			}
			return "short"
		}
		at := w.field("p1", sc(0), 0, 4).lin.mul(4).add(sc(12), 1)
		if w.ge(sc(11), n) || w.ge(at.add(sc(-1), 1), n) {
			return short()
		}
		if !w.ge(n, at) {
			w.fail("does not look whether the header fits")
			return "short"
		}
		switch w.bit("p1", sc(0), 4) {
		case 1:
			if w.ge(at.add(sc(3), 1), n) {
				return short()
			}
			if !w.ge(n, at.add(sc(4), 1)) {
				w.fail("does not look whether the header extension fits")
				return "short"
			}
			at = at.add(sc(4), 1).add(w.be16("p1", at.add(sc(2), 1)).lin.mul(4), 1)
			if w.ge(at.add(sc(-1), 1), n) {
				return short()
			}
			if !w.ge(n, at) {
				w.fail("does not look whether the header extension fits")
				return "short"
			}
		case -1:
			w.fail("does not look for a header extension")
			return "extension"
		}
		end := n
		switch w.bit("p1", sc(0), 5) {
		case 1:
			if w.ge(at, n) {
				nothing("a packet of too much padding")
				if !w.isErr(0) {
					w.fail("padding without a count is taken")
				}
				return "padding invalid"
			}
			pad := w.field("p1", n.add(sc(-1), 1), 0, 8).lin
			if t.isEq(pad) || w.ge(pad.add(sc(-1), 1), n.add(at, -1)) {
				nothing("a packet of too much padding")
				if !w.isErr(0) {
					w.fail("padding that does not fit is taken")
				}
				return "padding invalid"
			}
			if !t.isNeq(pad) || !w.ge(n.add(at, -1), pad) {
				w.fail("does not look whether the padding fits")
				return "padding"
			}
			end = n.add(pad, -1)
		case -1:
			w.fail("does not look for padding")
			return "padding"
		}
		typ := t.x.leaf("p0.Sdp.Type", tInt).lin
		if v := st["pkt.Type"]; v == nil || v.sym != "p0.Sdp.Type" {
			w.fail("the packet does not have the type of its stream")
		}
		var tb []sbit
		for i := int64(7); i >= 4; i-- {
			tb = append(tb, t.byteLeaf("p1", sc(i))...)
		}
		ts := func(v *sval) bool { return v != nil && bitStr(v.bits) == bitStr(tb) }
		k := "other"
		switch {
		case t.isEq(typ.add(sc(-h264), 1)):
			k = "h264"
		case t.isEq(typ.add(sc(-aac), 1)):
			k = "aac"
		case !t.isNeq(typ.add(sc(-h264), 1)) || !t.isNeq(typ.add(sc(-aac), 1)):
			w.fail("treats different types of streams alike")
			return "type"
		}
		if k == "h264" {
			if len(l) != 1 || st["gotpkt"] != nil || st["pkt.Data"] != nil || st["timestamp"] != nil {
				w.fail("the payload is not handed on once")
				return k
			}
			v := l[0].args[2]
			if l[0].args[0].sym != "p0" || !ts(l[0].args[1]) || v.base != "p1" || !w.is(v.off.add(at, -1)) || !w.is(v.length.add(end, -1).add(at, 1)) {
				w.fail("%s is handed on with %s, not the payload with the packet's time stamp", v.sym, l[0].args[1].sym)
				return k
			}
			if w.through(l, 0) {
				return k
			}
		} else {
			if k == "aac" {
				if w.ge(at.add(sc(3), 1), end) {
					nothing("a payload without an access unit")
					if !w.isErr(0) {
						w.fail("a payload without an access unit is taken")
					}
					return "aac short"
				}
				if !w.ge(end, at.add(sc(4), 1)) {
					w.fail("does not look whether the access unit header fits")
					return k
				}
				at = at.add(sc(4), 1)
			}
			v := st["pkt.Data"]
			if len(l) > 0 || v == nil || v.base != "p1" || !w.is(v.off.add(at, -1)) || !w.is(v.length.add(end, -1).add(at, 1)) {
				w.fail("the packet's data is not the payload")
				return k
			}
			if st["gotpkt"] == nil || t.truth(st["gotpkt"]) != 1 || !ts(st["timestamp"]) {
				w.fail("the packet is not marked as complete with its time stamp")
				return k
			}
		}
		if len(mk) != 1 || mk[0].args[0].sym != "p0" {
			w.fail("the codec is not brought up to date")
			return k
		}
		if !w.through(mk, 0) && !w.isNil(0) {
			w.fail("fails without an error")
		}
		return k
	})
}

// rtpBlock: the packet of an interleaved block.
func (r *Report) rtpBlock() {
	opt := rtpOpt("format/rtsp:Stream.handleRtpPacket")
	r.rtpPaths("format/rtsp:Client.handleBlock", "block", opt, 20000, 2, []string{"rtcp", "channel", "error", "none", "time", "first", "next"}, func(w *rtpWalk) string {
		t := w.t
		l := t.calls("format/rtsp:Stream.handleRtpPacket")
		if len(t.ret) != 3 {
			w.fail("returns something else")
			return "result"
		}
		none := func() bool { return t.truth(t.ret[1]) == 0 }
		no := t.byteAt("p1", sc(1), 0)
		switch w.bit("p1", sc(1), 0) {
		case 1:
			if len(l) > 0 || !none() || !w.isNil(2) {
				w.fail("a block of an odd channel is not passed over")
			}
			return "rtcp"
		case -1:
			w.fail("does not look at the channel")
			return "rtcp"
		}
		i := w.t.x.fromBits(padBits(no[1:], 64), tInt).lin
		n := w.len("p0.streams")
		if w.ge(i, n) {
			if len(l) > 0 || !w.isErr(2) {
				w.fail("a block of a channel without a stream is taken")
			}
			return "channel"
		}
		s := "p0.streams[" + i.String() + "]"
		if len(l) != 1 || plain(l[0].args[0].sym) != s || l[0].args[1].base != "p1" || !w.is(l[0].args[1].off.add(sc(-4), 1)) || !w.is(l[0].args[1].length.add(w.len("p1"), -1).add(sc(4), 1)) {
			w.fail("the block is not handed to the stream of its channel without its 4 bytes of header")
			return "stream"
		}
		st := w.stores(s)
		w.only(w.stores("p0"), strings.TrimPrefix(s, "p0."))
		switch t.nilState(errOf(l[0])) {
		case 0:
			skip := t.truth(t.x.leaf("p0.SkipErrRtpBlock", tBool))
			if skip == 0 {
				if len(st) > 0 || t.ret[2].sym != errOf(l[0]).sym {
					w.fail("a packet that cannot be used does not end the session with its error")
				}
				return "error"
			}
			if skip < 0 {
				w.fail("does not look whether errors are passed over")
				return "error"
			}
		case -1:
			w.fail("does not look whether the packet can be used")
			return "error"
		}
		var got, gotfirst = -1, -1
		for k, v := range t.bools {
			switch plain(k) {
			case s + ".gotpkt":
				got = 0
				if v {
					got = 1
				}
			case s + ".gotfirst":
				gotfirst = 0
				if v {
					gotfirst = 1
				}
			}
		}
		if got == 0 {
			if len(st) > 0 || !none() || !w.isNil(2) {
				w.fail("a packet comes out although none is complete")
			}
			return "none"
		}
		if got < 0 || gotfirst < 0 {
			w.fail("does not look whether a packet is complete, or whether it is the first")
			return "none"
		}
		// the time since the first packet
		now, first := sterm(s+".timestamp"), sterm(s+".firsttimestamp")
		for _, e := range t.events {
			for _, a := range e.args {
				if a != nil && a.isInt {
					for x := range a.lin.t {
						if plain(x) == s+".timestamp" {
							now = sterm(x)
						}
					}
				}
			}
		}
		d := sc(0)
		if gotfirst == 1 {
			d = now.add(first, -1)
			if st["firsttimestamp"] != nil {
				w.fail("the first time stamp changes")
			}
		} else if v := st["firsttimestamp"]; v == nil || plain(v.sym) != s+".timestamp" || st["gotfirst"] == nil || t.truth(st["gotfirst"]) != 1 {
			w.fail("the first time stamp is not kept")
			return "first"
		}
		scale := s + ".Sdp.TimeScale"
		if c := t.term(scale); t.isEq(c) {
			scale = "8000"
		} else if !t.isNeq(c) {
			w.fail("does not look whether there is a time scale")
			return "scale"
		}
		want := plain(fmt.Sprintf("(%s / %s)", d.mul(1000000000), scale))
		if w.isErr(2) {
			// only times that go back or jump
			var tm slin
			known := gotfirst == 0 && scale == "8000"
			for _, c := range t.conds {
				for x := range c.lin.t {
					if plain(x) == want {
						tm, known = sterm(x), true
					}
				}
			}
			last := t.term(s + ".lasttime")
			jump := tm.add(last, -1).add(sc(-30*60*1000000000-1), 1)
			if !known || !t.implies(last.add(tm, -1).add(sc(-1), 1)) && !t.implies(jump) {
				w.fail("fails although the time neither goes back nor jumps by half an hour")
			}
			return "time"
		}
		pkt := t.ret[0]
		if t.truth(t.ret[1]) != 1 || !w.isNil(2) {
			w.fail("a complete packet does not come out")
			return "next"
		}
		if v := pkt.fieldOf("Time"); v == nil || plain(v.lin.String()) != want && !(gotfirst == 0 && w.is(v.lin)) {
			w.fail("the packet's time is not %s", want)
			return "next"
		}
		for _, f := range []string{"Type", "IsKeyFrame", "CTime", "Data", "ASeqHdr", "VSeqHdr", "Metadata"} {
			if v := pkt.fieldOf(f); v == nil || plain(v.sym) != s+".pkt."+f {
				w.fail("%s is not that of the packet that is complete", f)
			}
		}
		if v := st["lasttime"]; v == nil || plain(v.lin.String()) != want && !(gotfirst == 0 && w.is(v.lin)) {
			w.fail("the last time is not kept")
		}
		if v := st["gotpkt"]; v == nil || t.truth(v) != 0 {
			w.fail("the packet comes out again")
		}
		if v := st["pkt"]; v == nil || v.sym != "zero" {
			w.fail("the next packet does not start empty")
		}
		if gotfirst == 0 {
			return "first"
		}
		return "next"
	})
}

// rtpCodec: the codec of a stream is that of its newest parameters.
func (r *Report) rtpCodec() {
	h264, aac := r.pkgConst("av", "H264"), r.pkgConst("av", "AAC")
	add, conf, from, split := "codec/h264:Codec.AddSPSPPS", "codec/h264:Codec.ToConfig", "codec/aac:FromMPEG4AudioConfigBytes", "codec/h264:SplitNALUs"
	opt := rtpOpt(rtpPayload, split, add, conf, from, "codec/h264:NewCodec")
	r.rtpPaths("format/rtsp:Stream.makeCodec", "codec", opt, 20000, 2, []string{"type", "aac", "other", "own", "sdp"}, func(w *rtpWalk) string {
		t := w.t
		st := w.stores("p0")
		w.only(st, "Codec")
		l := w.handed("0")
		pt := t.x.leaf("p0.Sdp.PayloadType", tInt).lin
		if t.implies(pt.mul(-1).add(sc(95), 1)) || t.implies(pt.add(sc(-128), 1)) {
			if !w.isErr(0) || len(st) > 0 {
				w.fail("a stream of a static payload type is taken")
			}
			return "type"
		}
		if !t.implies(pt.add(sc(-96), 1)) || !t.implies(pt.mul(-1).add(sc(127), 1)) {
			w.fail("does not look at the payload type")
			return "type"
		}
		typ := t.x.leaf("p0.Sdp.Type", tInt).lin
		switch {
		case t.isEq(typ.add(sc(-aac), 1)):
			c := t.calls(from)
			if len(c) != 1 || plain(c[0].args[0].sym) != "p0.Sdp.Config" || len(c[0].res.tup) != 2 {
				w.fail("the codec is not made from the configuration")
				return "aac"
			}
			switch t.nilState(errOf(c[0])) {
			case 0:
				if !w.isErr(0) {
					w.fail("a configuration that cannot be used is taken")
				}
			case 1:
				if v := st["Codec"]; v == nil || v.sym != c[0].res.tup[0].sym || !w.isNil(0) {
					w.fail("the codec made from the configuration is not kept")
				}
			default:
				w.fail("does not look whether the configuration can be used")
			}
			return "aac"
		case t.isEq(typ.add(sc(-h264), 1)):
		case !t.isNeq(typ.add(sc(-h264), 1)) || !t.isNeq(typ.add(sc(-aac), 1)):
			w.fail("treats different types of streams alike")
			return "other"
		default:
			if len(st) > 0 || !w.isNil(0) {
				w.fail("a stream of another type is not passed over")
			}
			return "other"
		}
		if !w.isNil(0) {
			w.fail("fails")
		}
		// in the order of the calls: units of the SDP, then the codec
		have := map[string]int{"sps": -1, "pps": -1}
		for _, c := range t.conds {
			for x := range c.lin.t {
				for k := range have {
					if plain(x) == "len(p0."+k+")" {
						if t.implies(sterm(x).mul(-1)) {
							have[k] = 0
						} else if t.implies(sterm(x).add(sc(-1), 1)) {
							have[k] = 1
						}
					}
				}
			}
		}
		added := map[string]bool{}
		configured := false
		var sprop []sevent
		var sp *sevent
		var rest []sevent
		for i, e := range t.events {
			if e.kind != "call" || e.in.Callee == nil {
				continue
			}
			switch anchorName(e.in.Callee) {
			case rtpPayload:
				if len(added) > 0 {
					w.fail("a unit comes after the codec was made")
				}
				if sp == nil {
					sprop = append(sprop, e)
				} else {
					rest = append(rest, e)
				}
			case split:
				if sp != nil || plain(e.args[0].sym) != "p0.Sdp.Config" {
					w.fail("splits something else than the configuration")
					return "sdp"
				}
				sp = &t.events[i]
			case add:
				k := strings.TrimPrefix(plain(e.args[1].sym), "p0.")
				if k != "sps" && k != "pps" || configured && k == "sps" {
					w.fail("adds %s to the codec", e.args[1].sym)
				}
				added[k] = true
			case conf:
				if !added["sps"] {
					w.fail("the configuration is made before the SPS is known")
				}
				configured = true
			}
		}
		for k, h := range have {
			if h < 0 || (h == 1) != added[k] {
				w.fail("the %s is added if and only if there is one: %d %v", k, h, added[k])
			}
		}
		if have["sps"] == 1 && !configured {
			w.fail("the codec is not configured")
		}
		if k := t.isNil("p0.Codec"); k < 0 || k == 1 && len(t.calls("codec/h264:NewCodec")) != 1 || k == 1 && st["Codec"] == nil || k == 0 && st["Codec"] != nil {
			w.fail("the stream keeps one codec")
		}
		for i, e := range sprop {
			el := fmt.Sprintf("p0.Sdp.SpropParameterSets[%d]", i)
			// empty ones are passed over
			if v := plain(e.args[2].sym); !strings.HasPrefix(v, "p0.Sdp.SpropParameterSets[") {
				w.fail("%s is handed on, not %s", v, el)
			}
		}
		if sp != nil {
			w.nalusOf("p0.Sdp.Config", *sp, rest)
		}
		if len(l) == 0 && sp == nil {
			return "own"
		}
		return "sdp"
	})
}

// nalusOf is nalus when errors are passed over.
func (w *rtpWalk) nalusOf(src string, sp sevent, l []sevent) {
	t := w.t
	raw := t.x.leaf(sp.res.tup[1].sym, tInt).lin.add(sc(-w.c.r.pkgConst("codec/h264", "NALU_RAW")), 1)
	if t.isEq(raw) && len(l) > 0 {
		w.fail("hands on something of an unknown form")
	}
	list := sp.res.tup[0].sym
	k := 0
	for i := int64(0); i < 4 && k < len(l); i++ {
		el := fmt.Sprintf("%s[%d]", list, i)
		if w.whole(l[k].args[2], el) || l[k].args[2].sym == el {
			k++
		} else if !t.implies(t.x.leaf("len("+el+")", tInt).lin.mul(-1)) {
			w.fail("unit %d is not handed on", i)
			return
		}
	}
	if k < len(l) {
		w.fail("%s is handed on", l[k].args[2].sym)
	}
}

var tInt, tBool = types.Typ[types.Int], types.Typ[types.Bool]

func sortedStr(l []string) string {
	sort.Strings(l)
	return strings.Join(l, ", ")
}

func init() {
	register("C29", "proof", func(r *Report, thorough bool) {
		r.rule("The functions that take RTP packets apart are walked along every path with the bytes unknown; what a path hands on and leaves in the stream is compared, byte by byte, with what the bytes say.")
		r.rtpH264()
		r.rtpPacket()
		r.rtpBlock()
		r.rtpCodec()
	})
}
