package main

import (
	"fmt"
	"go/types"
	"strings"
)

// C10: RTMP chunks.

// chunkOut follows the output of one path through the chunk writer.
type chunkOut struct {
	c     chk
	csid  []sbit
	max   slin
	data  string // the message payload
	total slin   // its length
	ext   int    // extended timestamp: 1, 0, -1 undecided
	time  string
	q     *slin // bytes in the current chunk
	o     *slin // next byte of the payload
	hdrs  int
}

func (w *chunkOut) run(segs []oseg) bool {
	t := w.c.t
	for k := 0; k < len(segs); k++ {
		s := segs[k]
		if s.bits != nil {
			want := append(append([]sbit{}, w.csid[:6]...), sbit{"", 1}, sbit{"", 1})
			if !t.bitsEq(s.bits, want) {
				w.c.bad("header3", "%s is sent where a type 3 header of the message's chunk stream belongs", s)
				return false
			}
			if w.q != nil && !t.isEq(w.q.add(w.max, -1)) {
				w.c.bad("header3", "a continuation header follows a chunk of %s bytes, not of the chunk size %s", w.q, w.max)
				return false
			}
			if w.o != nil && !t.implies(w.total.add(*w.o, -1).add(sc(-1), 1)) {
				w.c.bad("header3", "a continuation header is sent after the last byte of the message")
				return false
			}
			if w.ext != 0 {
				ext := w.ext
				if ext < 0 {
					if t.implies(sterm(w.time).add(sc(-0xffffff), 1)) {
						ext = 1
					} else if t.implies(sc(0xfffffe).add(sterm(w.time), -1)) {
						ext = 0
					} else {
						w.c.bad("ext", "a continuation header does not depend on the extended timestamp")
						return false
					}
				}
				if ext == 1 {
					want := bytesOf(fld(w.time, 31, 0))
					for i, b := range want {
						if k+1+i >= len(segs) || segs[k+1+i].bits == nil || !t.bitsEq(segs[k+1+i].bits, b) {
							w.c.bad("ext", "a continuation header of a message with an extended timestamp does not repeat it")
							return false
						}
					}
					k += len(want)
				}
			}
			z := sc(0)
			w.q = &z
			w.hdrs++
			continue
		}
		if s.base != w.data {
			w.c.bad("data", "%s is sent as payload, not the message's data", s)
			return false
		}
		if w.q == nil {
			w.c.bad("data", "payload continues without a header in a later turn")
			return false
		}
		if w.o != nil && !t.isEq(s.off.add(*w.o, -1)) {
			w.c.bad("data", "payload continues at byte %s instead of %s", s.off, w.o)
			return false
		}
		q := w.q.add(s.n, 1)
		if !t.implies(w.max.add(q, -1)) {
			w.c.bad("size", "a chunk can hold %s bytes, more than the chunk size %s", q, w.max)
			return false
		}
		if !t.implies(s.n) {
			w.c.bad("size", "a piece of negative length %s", s.n)
			return false
		}
		o := s.off.add(s.n, 1)
		w.q, w.o = &q, &o
	}
	return true
}

// chunkWriter checks a function that sends one message.
func (r *Report) chunkWriter(name, key, time, data string, typ []sbit, sidPrefix string, media bool, width map[string]int, ei int) {
	lt := r.loopTracesFn(name, width, nil, 20000)
	if lt == nil {
		return
	}
	max := sterm("p0.writeMaxChunkSize")
	okN, hdrN := 0, 0
	csids := map[string]bool{}
	for gi, set := range [][]*Trace{lt.first, lt.general} {
		for _, t := range set {
			c := chk{r, t, key}
			if t.nilBuf("p0.writebuf") {
				continue
			}
			if len(t.out) == 0 {
				if t.end != nil && t.success(ei) {
					c.bad("silent", "success without sending anything")
				}
				continue
			}
			ext := -1
			if time == "" {
				ext = 0
			} else if t.implies(sterm(time).add(sc(-0xffffff), 1)) {
				ext = 1
			} else if t.implies(sc(0xfffffe).add(sterm(time), -1)) {
				ext = 0
			}
			var mh [][]sbit
			if media {
				var ok bool
				mh, _, ok = t.mediaHeader("p1.")
				if !ok {
					c.bad("case", "a path does not distinguish the tag kinds")
					continue
				}
			}
			dl := sterm("len(" + data + ")")
			n := dl.add(sc(int64(len(mh))), 1)
			b0 := t.out[0].bits
			if b0 == nil || b0[7] != (sbit{}) || b0[6] != (sbit{}) {
				c.bad("header0", "the message does not start with a type 0 header: %s", t.out[0])
				continue
			}
			low := uint64(0)
			for i := 0; i < 6; i++ {
				if b0[i].s != "" {
					low = 99
					break
				}
				low |= uint64(b0[i].i) << uint(i)
			}
			if low < 2 || low > 63 {
				c.bad("header0", "chunk stream id %s is not one of the one-byte ids", bitStr(b0[:6]))
				continue
			}
			csids[fmt.Sprint(low)] = true
			want := [][]sbit{b0}
			switch {
			case ext == 1:
				want = append(want, bytesOf(cbits(0xffffff, 24))...)
			case ext == 0 && time != "":
				want = append(want, bytesOf(fld(time, 23, 0))...)
			case ext == 0:
				want = append(want, bytesOf(cbits(0, 24))...)
			default:
				c.bad("ext", "a path does not decide between the plain and the extended timestamp")
				continue
			}
			want = append(want, bytesOf(fld(n.String(), 23, 0))...)
			want = append(want, typ)
			sid := cbits(0, 32)
			if sidPrefix != "" {
				sym := ""
				if len(t.out) > 8 && t.out[8].bits != nil {
					sym = t.out[8].bits[0].s
				}
				if strings.HasPrefix(sym, sidPrefix) {
					sid = fld(sym, 31, 0)
				} else {
					c.bad("stream", "the message stream id is not the connection's: %s", t.out[8])
					continue
				}
			}
			want = append(want, bytesLE(sid)...)
			if ext == 1 {
				want = append(want, bytesOf(fld(time, 31, 0))...)
			}
			want = append(want, mh...)
			msg, k, ok := t.outIs(0, want)
			if !ok {
				c.bad("header0", "%s", msg)
				continue
			}
			if !t.implies(sc(0xffffff).add(n, -1)) {
				c.bad("toobig", "a message that does not fit the 24-bit length field is sent")
				continue
			}
			if t.end != nil && t.end.Op == OpPanic {
				if !t.implies(sc(int64(len(mh))).add(max, -1).add(sc(-1), 1)) {
					c.bad("panic", "panics although the media header fits the chunk size")
				}
				continue
			}
			w := &chunkOut{c: c, csid: b0, max: max, data: data, total: dl, ext: ext, time: time}
			rest := t.out[k:]
			q, o := sc(int64(len(mh))), sc(0)
			w.q, w.o = &q, &o
			if gi == 1 {
				i := 0
				for i < len(rest) && rest[i].blob != "loop" {
					i++
				}
				if !w.run(rest[:i]) {
					continue
				}
				if i < len(rest) {
					w.q, w.o = nil, nil
					rest = rest[i+1:]
				} else {
					rest = nil
				}
			}
			if !w.run(rest) {
				continue
			}
			hdrN += w.hdrs
			if t.end != nil && t.success(ei) && w.o != nil {
				if !t.isEq(w.o.add(dl, -1)) {
					c.bad("short", "the message ends after %s of %s bytes", w.o, dl)
					continue
				}
				okN++
			}
			if t.end != nil && t.failure(ei) && !t.wroteErr() {
				c.bad("refused", "fails half way without a write error")
				continue
			}
			r.ok(name)
		}
	}
	r.need(name+" complete paths", okN, 2)
	r.need(name+" continuation headers", hdrN, 2)
}

func init() {
	register("C10", "proof", func(r *Report, thorough bool) {
		r.rule("The chunk writer is walked from its entry points for the first two chunks and for two consecutive chunks of a general position (under loop hypotheses that the analysis infers and checks to be inductive): the first header must be a type 0 header with the message's own time, length, type and stream id, each later chunk must start with a type 3 header that repeats an extended timestamp, be preceded by a full chunk, and carry the next bytes of the payload, none left over. The chunk reader is walked for all four header types and the message it returns is compared with the header table.")
		r.chunkWriter("format/rtmp:Conn.WriteTag", "chunk|WriteTag", "p1.Time", "p1.Data", fld("p1.Type", 7, 0), "p0.", true, widths("p1."), 0)
		r.chunkWriter("format/rtmp:Conn.WriteEvent", "chunk|WriteEvent", "", "p2", fld("p1", 7, 0), "", false, nil, 0)
		r.chunkReader()
	})
}

func (r *Report) chunkReader() {
	kinds := map[string]int{}
	for _, t := range r.traceSet("format/rtmp:Conn.readChunk", map[string]int{"p0.ReadMaxChunkSize": 31}, nil) {
		c := chk{r, t, "chunk|readChunk"}
		if t.end == nil || len(t.ret) < 2 {
			c.bad("loop", "a path does not return")
			continue
		}
		rf := false
		for _, e := range t.events {
			if (e.kind == "read" || e.kind == "peek") && e.res != nil && len(e.res.tup) == 2 && t.nilState(e.res.tup[1]) == 0 {
				rf = true
			}
		}
		if rf {
			r.check(t.nilState(t.ret[1]) == 0, "chunk|readChunk|readerr", t.pos2(), "readChunk: a failed read is not reported")
			continue
		}
		okErr := t.nilState(t.ret[1])
		// the chunk stream
		p := int64(1)
		var id slin
		low := "(in[0]{5:0})"
		switch {
		case t.isVal(low, 0):
			p, id = 2, sterm("in[1]").add(sc(64), 1)
		case t.isVal(low, 1):
			p, id = 3, sterm("(in[2]{7:0}|in[1]{7:0})").add(sc(64), 1)
		case t.notVal(low, 0) && t.notVal(low, 1):
			id = sterm(low)
		default:
			c.bad("csid", "a path does not distinguish the forms of the chunk stream id")
			continue
		}
		if okErr == 0 && t.pos.eq(sc(p)) && len(t.calls("fmt:Errorf")) == 0 {
			continue
		}
		cs := "lookup(p0.readcsmap," + id.String() + ")#0"
		isNew := 0
		if v, ok := t.bools[cs+"==nil"]; !ok {
			c.bad("csid", "the state of chunk stream %s is not looked up", id)
			continue
		} else if v {
			isNew = 1
		}
		old := cs
		if isNew == 1 {
			stored := ""
			for _, e := range t.events {
				if e.kind == "mapset" && e.name == "p0.readcsmap" && e.args[0].isInt && t.isEq(e.args[0].lin.add(id, -1)) {
					stored = e.args[1].sym
				}
			}
			if stored == "" {
				if okErr == 0 {
					continue
				}
				c.bad("csid", "a new chunk stream is not kept")
				continue
			}
			cs = stored
		}
		fmtv := int64(-1)
		for k := int64(0); k < 4; k++ {
			if t.isVal("(in[0]{7:6})", k) || k == 3 && t.notVal("(in[0]{7:6})", 0) && t.notVal("(in[0]{7:6})", 1) && t.notVal("(in[0]{7:6})", 2) {
				fmtv = k
			}
		}
		field := func(n string) *sval {
			if s := t.cellv[cs+"."+n]; s != nil {
				return s
			}
			return nil
		}
		was := func(n string) slin {
			if isNew == 1 {
				return sc(0)
			}
			return sterm(old + "." + n)
		}
		left := was("msgdataleft")
		if okErr == 0 {
			// refusals: too many streams, no previous chunk, a message not finished, too big, allocation
			ok := fmtv < 0 || isNew == 1 || fmtv != 3 && t.isNeq(left)
			for _, e := range t.events {
				if e.kind == "call" && e.in.Callee == nil && e.res != nil && len(e.res.tup) == 2 && t.nilState(e.res.tup[1]) == 0 {
					ok = true
				}
			}
			if !ok && !t.tooBig() && !t.tooMany() {
				c.bad("refused", "a valid type %d chunk is refused", fmtv)
			} else {
				r.ok("")
			}
			continue
		}
		if fmtv < 0 {
			c.bad("fmt", "a path does not distinguish the header types")
			continue
		}
		at := func(i, n int64) []sbit {
			var bs []sbit
			for j := int64(0); j < n; j++ {
				bs = append(bs, fld(fmt.Sprintf("in[%d]", p+i+j), 7, 0)...)
			}
			// most significant byte first
			out := []sbit{}
			for j := n - 1; j >= 0; j-- {
				out = append(out, bs[8*j:8*j+8]...)
			}
			return out
		}
		if fmtv > 0 && isNew == 1 {
			c.bad("noprev", "a type %d chunk is accepted on a new chunk stream", fmtv)
			continue
		}
		cont := fmtv == 3 && t.isNeq(left)
		if !cont && !t.isEq(left) {
			c.bad("unfinished", "a type %d chunk starts a message while another is unfinished", fmtv)
			continue
		}
		hl := map[int64]int64{0: 11, 1: 7, 2: 3, 3: 0}[fmtv]
		ts := (&tracer{f: t.x.f, trng: t.x.trng}).fromBits(at(0, 3), types.Typ[types.Uint32])
		ext, extKnown := false, true
		if fmtv < 3 {
			switch {
			case t.isVal(ts.sym, 0xffffff):
				ext = true
			case t.notVal(ts.sym, 0xffffff):
			default:
				extKnown = false
			}
		} else if v, ok := t.bools[old+".hastimeext"]; ok {
			ext = v
		} else if cont || !t.isVal(old+".msghdrtype", 3) {
			// plain when the old header kind cannot have one
			extKnown = !cont
		}
		if !extKnown {
			c.bad("ext", "a type %d chunk is read without looking for an extended timestamp", fmtv)
			continue
		}
		want := sc(p + hl)
		stamp := ts.lin
		pe := p + hl
		extv := (&tracer{f: t.x.f, trng: t.x.trng}).fromBits(at(hl, 4), types.Typ[types.Uint32])
		if ext {
			if cont {
				// the stamp is only skipped when it repeats the message's own
				skip := t.isEq(extv.lin.add(sterm(old+".timeext"), -1))
				if skip {
					pe += 4
				} else if !t.isNeq(extv.lin.add(sterm(old+".timeext"), -1)) {
					c.bad("ext", "the extended timestamp of a continuation is not compared with the message's")
					continue
				}
			} else {
				pe += 4
			}
			want = sc(pe)
			stamp = extv.lin
		}
		_ = want
		// message fields
		ck := func(what string, got *sval, bits []sbit, keep bool) bool {
			if keep {
				if got != nil && !got.lin.eq(was(what)) {
					c.bad(what, "a type %d chunk changes %s to %s", fmtv, what, got.str())
					return false
				}
				return true
			}
			if got == nil || !got.isInt || !t.bitsEq(got.bits, bits) {
				c.bad(what, "%s of a type %d chunk is %s, not %s", what, fmtv, got.str(), bitStr(bits))
				return false
			}
			return true
		}
		good := ck("msgdatalen", field("msgdatalen"), at(3, 3), fmtv > 1) &&
			ck("msgtypeid", field("msgtypeid"), at(6, 1), fmtv > 1) &&
			ck("msgsid", field("msgsid"), reverseBytes(at(7, 4)), fmtv > 0)
		if !good {
			continue
		}
		// time
		now, delta := field("timenow"), field("timedelta")
		switch {
		case fmtv == 0:
			if now == nil || !now.lin.eq(stamp) {
				c.bad("time", "a type 0 message has time %s, not %s", now.str(), stamp)
				continue
			}
		case fmtv == 1 || fmtv == 2:
			if now == nil || !now.lin.eq(was("timenow").add(stamp, 1)) {
				c.bad("time", "a type %d message has time %s, not %s after the previous one", fmtv, now.str(), stamp)
				continue
			}
			if delta == nil || !delta.lin.eq(stamp) {
				c.bad("delta", "a type %d chunk does not keep its timestamp delta", fmtv)
				continue
			}
		case cont:
			if now != nil && !now.lin.eq(was("timenow")) {
				c.bad("time", "a continuation changes the message time")
				continue
			}
		default:
			// a new message with the previous header
			switch {
			case t.isVal(old+".msghdrtype", 0):
				w := was("timenow")
				if ext {
					w = stamp
				}
				if now == nil && !ext {
					break
				}
				if now == nil || !now.lin.eq(w) {
					c.bad("time", "a repeated type 0 message has time %s, not %s", now.str(), w)
					good = false
				}
			case t.isVal(old+".msghdrtype", 1), t.isVal(old+".msghdrtype", 2):
				w := was("timedelta")
				if ext {
					w = stamp
				}
				if now == nil || !now.lin.eq(was("timenow").add(w, 1)) {
					c.bad("time", "a repeated message has time %s, not %s after the previous one", now.str(), w)
					good = false
				}
			default:
				// a kind that is never stored
				pe = p
				if t.bools[old+".hastimeext"] {
					pe = p
				}
				kinds["none"]++
				continue
			}
			if !good {
				continue
			}
		}
		if hk := field("msghdrtype"); fmtv < 3 && (hk == nil || !t.isEq(hk.lin.add(sc(-fmtv), 1))) {
			c.bad("kind", "a type %d chunk is remembered as type %s", fmtv, hk.str())
			continue
		}
		if he := t.cellv[cs+".hastimeext"]; fmtv < 3 && (he == nil || he.sym != fmt.Sprint(ext)) {
			c.bad("ext", "the presence of an extended timestamp is not remembered")
			continue
		}
		// payload
		var pay *sevent
		for i := range t.events {
			e := &t.events[i]
			if e.kind == "read" && len(e.args) == 2 && e.args[1].lin.eq(sc(pe)) && !e.args[0].length.eq(sc(0)) && t.pos.eq(sc(pe).add(e.args[0].length, 1)) {
				pay = e
			}
		}
		dl := was("msgdatalen")
		if f := field("msgdatalen"); f != nil {
			dl = f.lin
		}
		lft := left
		if !cont {
			lft = dl
		}
		if pay == nil {
			c.bad("payload", "the payload of a type %d chunk is not read from byte %d on", fmtv, pe)
			continue
		}
		sz := pay.args[0].length
		chunk := sterm("p0.ReadMaxChunkSize")
		if !(t.isEq(sz.add(lft, -1)) && t.implies(chunk.add(lft, -1)) || t.isEq(sz.add(chunk, -1)) && t.implies(lft.add(chunk, -1))) {
			c.bad("payload", "a type %d chunk takes %s bytes of payload, not the smaller of what is missing and the chunk size", fmtv, sz)
			continue
		}
		buf := old + ".msgdata"
		if d := t.cellv[cs+".msgdata"]; d != nil {
			buf = d.base
		} else if !cont {
			c.bad("payload", "a new message has no buffer of its own")
			continue
		}
		if pay.args[0].base != buf || !pay.args[0].off.eq(dl.add(lft, -1)) {
			c.bad("payload", "the payload goes to %s, not after what is already there", pay.args[0].str())
			continue
		}
		nl := lft.add(sz, -1)
		if f := field("msgdataleft"); f == nil || !t.isEq(f.lin.add(nl, -1)) {
			c.bad("left", "the number of missing bytes becomes %s, not %s", field("msgdataleft").str(), nl)
			continue
		}
		isMsg := t.nilState(t.ret[0])
		switch {
		case t.isEq(nl):
			if isMsg != 0 {
				c.bad("complete", "a complete message is not returned")
				continue
			}
			if t.ret[0].sym == cs {
				c.bad("shared", "the message returned is the chunk stream's own state")
				continue
			}
			whole := t.cellv[t.ret[0].sym]
			for _, n := range []string{"msgtypeid", "msgsid", "timenow", "msgdata"} {
				got, want := t.cellv[t.ret[0].sym+"."+n], t.cellv[cs+"."+n]
				if got == nil && whole != nil {
					switch {
					case whole.sym == cs:
						got = want
					case whole.ftyp != nil:
						got = whole.fieldOf(n)
					}
				}
				if want == nil && got != nil && (got.sym == old+"."+n || whole != nil && whole.sym == cs) || got != nil && want != nil && (got == want || got.str() == want.str() && !strings.Contains(got.str(), "?")) {
					continue
				}
				c.bad("copy", "%s of the message returned is %s, not the chunk stream's %s", n, got.str(), want.str())
				good = false
			}
			if !good {
				continue
			}
			kinds[fmt.Sprintf("msg%d", fmtv)]++
		case t.isNeq(nl):
			if isMsg != 1 {
				c.bad("complete", "an incomplete message is returned")
				continue
			}
			kinds[fmt.Sprintf("part%d", fmtv)]++
		default:
			c.bad("complete", "a path does not tell whether the message is complete")
			continue
		}
		r.ok(fmt.Sprintf("type %d chunk", fmtv))
	}
	for i := 0; i < 4; i++ {
		r.need(fmt.Sprintf("type %d chunks that complete a message", i), kinds[fmt.Sprintf("msg%d", i)], 2)
		r.need(fmt.Sprintf("type %d chunks that do not", i), kinds[fmt.Sprintf("part%d", i)], 2)
	}
}

func reverseBytes(bs []sbit) []sbit {
	var out []sbit
	for i := len(bs) - 8; i >= 0; i -= 8 {
		out = append(out, bs[i:i+8]...)
	}
	return out
}

// tooBig: the path refuses a message above a length bound; tooMany: too many chunk streams.
func (t *Trace) tooBig() bool  { return t.refusedBy("msgdatalen", "in[") }
func (t *Trace) tooMany() bool { return t.refusedBy("len@", "len(p0.readcsmap)") }

func (t *Trace) refusedBy(parts ...string) bool {
	if len(t.conds) == 0 {
		return false
	}
	c := t.conds[len(t.conds)-1]
	for s := range c.lin.t {
		for _, p := range parts {
			if strings.Contains(s, p) {
				return true
			}
		}
	}
	return false
}
