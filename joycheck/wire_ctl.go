package main

import (
	"fmt"
	"strings"

	"go/types"

	"golang.org/x/tools/go/ssa"
)

var u32 = types.Typ[types.Uint32]

// C21: RTMP control messages.

var ctlStops = []string{"format/rtmp:Conn.WriteEvent", "format/rtmp:Conn.writeEvent2"}

// ctlEvents lists the control messages a path sends.
func (t *Trace) ctlEvents() (out []sevent) {
	for _, e := range t.events {
		if e.kind != "call" || e.in.Callee == nil || len(e.args) < 3 {
			continue
		}
		for _, n := range ctlStops {
			if anchorName(e.in.Callee) == n {
				out = append(out, e)
			}
		}
	}
	return
}

func constOf(s *sval) (int64, bool) {
	if s != nil && s.isInt && s.lin.konst() {
		return s.lin.c, true
	}
	return 0, false
}

// word returns the 32-bit value a payload holds big-endian at off.
func (t *Trace) word(e sevent, off int64) []sbit {
	b, o := t.buf(e.args[2])
	var out []sbit
	for j := int64(3); j >= 0; j-- {
		out = append(out, t.byteAt(b, o.add(sc(off+j), 1), e.nm)...)
	}
	return out
}

// isWord: 32 bits that are, in order, the low bits of one value.
func isWord(bs []sbit) bool {
	if len(bs) != 32 {
		return false
	}
	k := bs[0].s == ""
	for i, b := range bs {
		if b.s == "*" || b.s == "?" || (b.s == "") != k && b.s != "" {
			return false
		}
		if !k && b.s != "" && (b.s != bs[0].s || b.i != i) {
			return false
		}
	}
	return true
}

// payload checks the layout of one control message.
func (c chk) ctlPayload(e sevent) bool {
	ty, ok := constOf(e.args[1])
	if !ok {
		return false
	}
	d := e.args[2]
	n, fixed := d.length, d.hasLen
	if !fixed {
		c.bad("payload", "the payload of a type %d message has no definite length", ty)
		return true
	}
	size := int64(-1)
	first := int64(0)
	switch ty {
	case 1, 2, 3, 5:
		size = 4
	case 6:
		size = 5
	case 4:
		b, o := c.t.buf(d)
		ev := append(append([]sbit{}, c.t.byteAt(b, o.add(sc(1), 1), e.nm)...), c.t.byteAt(b, o, e.nm)...)
		v := int64(0)
		for i, x := range ev {
			if x.s != "" {
				c.bad("event", "the event type of a user control message is not a big-endian constant")
				return true
			}
			v |= int64(x.i) << uint(i)
		}
		first = 2
		switch v {
		case 0, 1, 2, 4, 6, 7:
			size = 6
		case 3:
			size = 10
		default:
			c.bad("event", "user control event %d does not exist", v)
			return true
		}
	default:
		return true
	}
	if !c.t.isEq(n.add(sc(-size), 1)) {
		c.bad("size", "a type %d message carries %s bytes, not %d", ty, n, size)
		return true
	}
	for ; first+4 <= size; first += 4 {
		if w := c.t.word(e, first); !isWord(w) {
			c.bad("word", "bytes %d..%d of a type %d message are not a big-endian 32-bit value: %s", first, first+4, ty, bitStr(w))
			return true
		}
	}
	c.r.ok(fmt.Sprintf("type %d message in %s", ty, fnName(c.t.x.f.Root)))
	return true
}

func (r *Report) ctlWriters() {
	sites := map[string]int{}
	n := 0
	stop := map[string]bool{}
	for _, s := range ctlStops {
		stop[s] = true
	}
	for _, fn := range r.P.AllFuncs {
		if fn.Pkg == nil || relPkg(fn.Pkg.Pkg.Path()) != "format/rtmp" || stop[anchorName(fn)] {
			continue
		}
		hit := false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if f := c.Common().StaticCallee(); f != nil && stop[anchorName(f)] {
						hit = true
					}
				}
			}
		}
		if !hit {
			continue
		}
		for _, t := range r.traceFn(fn, nil, stopAt(ctlStops...)) {
			c := chk{r, t, "control|" + anchorName(fn)}
			for _, e := range t.ctlEvents() {
				if c.ctlPayload(e) {
					c.ctlNamed(e)
					n++
					if ty, ok := constOf(e.args[1]); ok {
						sites[fmt.Sprint(ty)]++
					}
				} else {
					c.bad("type", "a control message is sent whose type is not a constant")
				}
				if e.res != nil && t.end != nil && len(t.ret) > 0 {
					k := len(t.ret) - 1
					if k >= t.x.f.NRes {
						k = t.x.f.NRes - 1
					}
					if k >= 0 && t.nilState(e.res) == 0 && t.nilState(t.ret[k]) == 1 {
						c.bad("err", "a failed write is reported as success")
					}
				}
			}
			t.chunkSizeRule(c)
		}
	}
	r.need("control messages sent", n, 8)
	for _, k := range []string{"1", "3", "4", "5", "6"} {
		r.need("senders of type "+k, sites[k], 1)
	}
}

// chunkSizeRule: the write chunk size changes exactly with the message that
// announces it.
func (t *Trace) chunkSizeRule(c chk) {
	for _, e := range t.events {
		if e.kind != "store" || !strings.HasSuffix(e.name, ".writeMaxChunkSize") || strings.HasPrefix(e.name, "alloc@") {
			continue
		}
		ok := false
		for _, s := range t.ctlEvents() {
			ty, _ := constOf(s.args[1])
			if ty == 1 && e.args[0].isInt && len(e.args[0].bits) >= 32 && t.bitsEq(t.word(s, 0), e.args[0].bits[:32]) {
				ok = true
			}
		}
		if !ok {
			c.bad("chunksize", "the write chunk size becomes %s without announcing it to the peer", e.args[0].str())
		} else {
			c.r.ok("write chunk size announced")
		}
	}
}

func (r *Report) chunkSizeStores() {
	for _, fn := range r.P.AllFuncs {
		if fn.Pkg == nil || relPkg(fn.Pkg.Pkg.Path()) != "format/rtmp" {
			continue
		}
		hit := false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok && fieldName(fa.X.Type(), fa.Field) == "writeMaxChunkSize" {
						hit = true
					}
				}
			}
		}
		if !hit {
			continue
		}
		n := 0
		for _, t := range r.traceFn(fn, nil, stopAt(ctlStops...)) {
			t.chunkSizeRule(chk{r, t, "control|" + anchorName(fn)})
			n++
		}
		r.need("paths of "+anchorName(fn), n, 1)
	}
}

// ctlReader: what is done with a message received.
func (r *Report) ctlReader() {
	kinds := map[string]int{}
	for _, t := range r.traceSet("format/rtmp:Conn.handleEvent", nil, stopAt(ctlStops...)) {
		c := chk{r, t, "control|handleEvent"}
		if t.end == nil || len(t.ret) < 2 {
			c.bad("loop", "a path does not return")
			continue
		}
		ty := "p1.msgtypeid"
		in := func(off int64) string {
			return fmt.Sprintf("(p1.msgdata[%d]{7:0}|p1.msgdata[%d]{7:0}|p1.msgdata[%d]{7:0}|p1.msgdata[%d]{7:0})", off, off+1, off+2, off+3)
		}
		word := func(off int64) []sbit {
			var bs []sbit
			for j := int64(3); j >= 0; j-- {
				bs = append(bs, fld(fmt.Sprintf("p1.msgdata[%d]", off+j), 7, 0)...)
			}
			return bs
		}
		n := sterm("len(p1.msgdata)")
		short := func(k int64) bool { return t.implies(sc(k-1).add(n, -1)) }
		enough := func(k int64) bool { return t.implies(n.add(sc(-k), 1)) }
		handled, errS := t.truth(t.ret[0]), t.nilState(t.ret[1])
		set := func(f string) *sval { return t.cellv["p0."+f] }
		changed := false
		for _, e := range t.events {
			if e.kind == "store" && strings.HasPrefix(e.name, "p0.") && !strings.HasPrefix(e.name, "p0.writebuf") {
				changed = true
			}
		}
		evs := t.ctlEvents()
		switch {
		case t.isVal(ty, 1):
			v := in(0)
			switch {
			case short(4):
				if errS != 0 || changed {
					c.bad("chunksize", "a truncated set chunk size message is not refused")
					continue
				}
			case enough(4) && (t.isVal(v, 0) || t.implies(sterm(v).add(sc(-0x80000000), 1))):
				if errS != 0 || changed {
					c.bad("chunksize", "an invalid chunk size is accepted")
					continue
				}
			case errS == 0:
				// more may be refused only if it is not a usable size
				if !(t.implies(sc(0).add(sterm(v), -1)) || t.topBit(word(0)[31]) == 1 || t.zeroOrTop(v)) {
					c.bad("chunksize", "a valid chunk size is refused")
					continue
				}
			case handled == 1 && errS == 1:
				s := set("ReadMaxChunkSize")
				if s == nil || !s.isInt || len(s.bits) < 32 || !t.bitsEq(s.bits[:32], word(0)) {
					c.bad("chunksize", "the chunk size becomes %s, not the one received", s.str())
					continue
				}
				if !t.implies(sterm(v).add(sc(-1), 1)) || !t.implies(sc(0x7fffffff).add(sterm(v), -1)) && t.topBit(word(0)[31]) != 0 {
					c.bad("chunksize", "chunk sizes of zero or above 31 bits are accepted")
					continue
				}
				kinds["set chunk size"]++
			default:
				c.bad("chunksize", "a set chunk size message is not handled")
				continue
			}
		case t.isVal(ty, 5):
			switch {
			case short(4):
				if errS != 0 || changed {
					c.bad("window", "a truncated window size message is not refused")
					continue
				}
			case handled == 1 && errS == 1:
				s := set("readAckSize")
				if s == nil || !s.isInt || !t.bitsEq(s.bits, word(0)) {
					c.bad("window", "the acknowledgement window becomes %s, not the one received", s.str())
					continue
				}
				kinds["window"]++
			default:
				c.bad("window", "a window size message is not handled")
				continue
			}
		case t.isVal(ty, 4):
			ev := "(p1.msgdata[0]{7:0}|p1.msgdata[1]{7:0})"
			switch {
			case short(2):
				if errS != 0 {
					c.bad("user", "a truncated user control message is not refused")
					continue
				}
			case t.isVal(ev, 6):
				if short(6) {
					if errS != 0 || len(evs) > 0 {
						c.bad("ping", "a truncated ping request is not refused")
						continue
					}
					kinds["short ping"]++
					break
				}
				if len(evs) != 1 || handled != 1 {
					c.bad("ping", "a ping request is not answered")
					continue
				}
				e := evs[0]
				mt, _ := constOf(e.args[1])
				b, o := t.buf(e.args[2])
				if mt != 4 || !t.bitsEq(t.byteAt(b, o, e.nm), cbits(0, 8)) || !t.bitsEq(t.byteAt(b, o.add(sc(1), 1), e.nm), cbits(7, 8)) || !t.bitsEq(t.word(e, 2), word(2)) {
					c.bad("ping", "a ping request is not answered with a ping response of the same timestamp")
					continue
				}
				if t.ret[1] != e.res && t.ret[1].sym != e.res.sym && t.nilState(e.res) != errS {
					c.bad("ping", "the result of answering a ping is lost")
					continue
				}
				kinds["ping"]++
			case t.notVal(ev, 6):
				if errS != 1 || handled == 1 && len(evs) == 0 && false {
					c.bad("user", "a valid user control message is refused")
					continue
				}
				if len(evs) > 0 {
					c.bad("user", "a message other than a ping request is answered")
					continue
				}
			default:
				c.bad("user", "a path does not look for ping requests")
				continue
			}
		default:
			if !(t.notVal(ty, 1) && t.notVal(ty, 4) && t.notVal(ty, 5)) {
				c.bad("case", "a path does not distinguish the message types")
				continue
			}
			h := t.calls("p0.HandleEvent")
			if hn, ok := t.bools["p0.HandleEvent==nil"]; ok && hn {
				if handled != 0 || errS != 1 {
					c.bad("other", "a message nobody handles is withheld")
					continue
				}
			} else if len(h) != 1 {
				c.bad("other", "a message is not offered to the handler")
				continue
			} else if len(h[0].args) > 2 {
				if !t.bitsEq(h[0].args[1].bits, fld(ty, 7, 0)) || h[0].args[2].sym != "p1.msgdata" {
					c.bad("other", "the handler gets another message")
					continue
				}
				if len(h[0].res.tup) == 2 && (t.ret[0].sym != h[0].res.tup[0].sym || t.ret[1].sym != h[0].res.tup[1].sym) {
					c.bad("other", "the handler's answer is not returned")
					continue
				}
				kinds["hook"]++
			}
			if changed || len(evs) > 0 {
				c.bad("other", "a message of another type has a side effect")
				continue
			}
		}
		r.ok("received message")
	}
	for _, k := range []string{"set chunk size", "window", "ping", "short ping", "hook"} {
		r.need(k+" handled", kinds[k], 1)
	}
}

// topBit: a bit known on this path, or -1.
func (t *Trace) topBit(b sbit) int {
	if b.s == "" {
		return b.i
	}
	if v, ok := t.fix[b]; ok {
		return v
	}
	return -1
}

// zeroOrTop: the path's own test excludes every valid size.
func (t *Trace) zeroOrTop(v string) bool {
	for _, c := range t.conds {
		if c.op != 0 && len(c.lin.t) == 1 && (c.lin.t[v] == -1 || c.lin.t["s32"+v] == -1) && c.lin.c <= 0 {
			return true
		}
	}
	return false
}

// ackSender: acknowledgements go out when the window is exceeded.
func (r *Report) ackSender() {
	stops := append([]string{"format/rtmp:Conn.readChunk", "format/rtmp:Conn.flushWrite"}, ctlStops...)
	n, quiet := 0, 0
	for _, t := range r.traceSet("format/rtmp:Conn.readMsg", nil, stopAt(stops...)) {
		c := chk{r, t, "control|readMsg"}
		rc := t.calls("format/rtmp:Conn.readChunk")
		if len(rc) != 1 {
			c.bad("read", "a turn does not read one chunk")
			continue
		}
		if len(rc[0].res.tup) == 2 && t.nilState(rc[0].res.tup[1]) == 0 {
			continue
		}
		evs := t.ctlEvents()
		if len(evs) == 0 {
			// not sent: the window is off or not exceeded
			if !(t.windowOff() == 1 || t.ackCond(false)) {
				c.bad("ack", "no acknowledgement although the window may be exceeded")
				continue
			}
			quiet++
			r.ok("no acknowledgement due")
			continue
		}
		e := evs[0]
		ty, _ := constOf(e.args[1])
		if ty != 3 || !isFieldWord(t.word(e, 0), "p0.ackn") {
			c.bad("ack", "what is sent is not an acknowledgement of the bytes received")
			continue
		}
		if !t.ackCond(true) || t.windowOff() != 0 {
			c.bad("ack", "an acknowledgement is sent although the window is not exceeded")
			continue
		}
		if t.nilState(e.res) == 0 {
			if t.end == nil || t.okRes(1) != 0 {
				c.bad("ack", "a failed acknowledgement is not reported")
			}
			continue
		}
		fl := t.calls("format/rtmp:Conn.flushWrite")
		if len(fl) == 0 {
			c.bad("ack", "an acknowledgement is not flushed")
			continue
		}
		if t.nilState(fl[0].res) == 0 {
			if t.end == nil || t.okRes(1) != 0 {
				c.bad("ack", "a failed flush is not reported")
			}
			continue
		}
		if s := t.cellv["p0.lastackn"]; s == nil || !s.isInt || !isFieldWord(s.bits, "p0.ackn") {
			c.bad("ack", "the acknowledged count is not remembered")
			continue
		}
		n++
		r.ok("acknowledgement")
	}
	r.need("acknowledging paths", n, 2)
	r.need("paths without acknowledgement", quiet, 2)
}

// unprime strips the versions a field gets when unknown code may change it.
func unprime(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] == '\'' {
			for i+1 < len(s) && s[i+1] >= '0' && s[i+1] <= '9' {
				i++
			}
			continue
		}
		b.WriteByte(s[i])
	}
	return b.String()
}

// isFieldWord: all the bits of one version of a field.
func isFieldWord(bs []sbit, name string) bool {
	return isWord(bs) && unprime(bs[0].s) == name
}

// windowOff: 1 when the path finds no window set, 0 when it finds one.
func (t *Trace) windowOff() int {
	for _, c := range t.conds {
		if c.op == 0 || len(c.lin.t) != 1 {
			continue
		}
		for s := range c.lin.t {
			if unprime(s) == "p0.readAckSize" {
				if t.isVal(s, 0) {
					return 1
				}
				if t.notVal(s, 0) {
					return 0
				}
			}
		}
	}
	return -1
}

// ackCond: the path compares the unacknowledged bytes with the window.
func (t *Trace) ackCond(over bool) bool {
	for _, c := range t.conds {
		if c.op == 0 {
			continue
		}
		k := map[string]int64{}
		for s, v := range c.lin.t {
			k[unprime(s)] += v
		}
		w := k["p0.readAckSize"]
		if len(k) != 3 || w != 1 && w != -1 || k["p0.ackn"] != -w || k["p0.lastackn"] != w {
			continue
		}
		// the counters wrap around: only their difference can be compared
		diff := func(s *sval) bool {
			d := map[string]int64{}
			if s != nil {
				for n, v := range s.lin.t {
					d[unprime(n)] += v
				}
			}
			return len(d) == 2 && d["p0.ackn"] == 1 && d["p0.lastackn"] == -1
		}
		if over == (w < 0) && (c.lin.c == 0 || c.lin.c == -1) && (diff(c.l) || diff(c.r)) {
			return true
		}
	}
	return false
}

func init() {
	register("C21", "proof", func(r *Report, thorough bool) {
		r.rule("Every function of the RTMP package that sends a control message is walked; each message must have a constant type, the payload layout of that type, and an error that is passed on; a new write chunk size goes with its announcement. The handler of received control messages and the acknowledgement sender are walked for every message type and compared with the protocol table.")
		r.ctlWriters()
		r.chunkSizeStores()
		r.ctlReader()
		r.ackSender()
		r.byteCounter()
		r.dispatch()
		r.aggregates()
	})
}

// ctlNames: what the helpers are named after.
var ctlNames = map[string]struct {
	typ, ev int64
	words   []string
}{
	"format/rtmp:Conn.WriteSetChunkSize":     {1, -1, []string{"p1"}},
	"format/rtmp:Conn.setAndWriteChunkSize":  {1, -1, []string{"p1"}},
	"format/rtmp:Conn.writeAck":              {3, -1, []string{"p1"}},
	"format/rtmp:Conn.writeWindowAckSize":    {5, -1, []string{"p1"}},
	"format/rtmp:Conn.writeSetPeerBandwidth": {6, -1, []string{"p1"}},
	"format/rtmp:Conn.writePingResponse":     {4, 7, []string{"p1"}},
	"format/rtmp:Conn.writeStreamIsRecorded": {4, 4, []string{"p1"}},
	"format/rtmp:Conn.writeStreamBegin":      {4, 0, []string{"p1"}},
	"format/rtmp:Conn.writeSetBufferLength":  {4, 3, []string{"p1", "p2"}},
}

// ctlNamed checks a helper against its name, where it still exists.
func (c chk) ctlNamed(e sevent) {
	w, ok := ctlNames[anchorName(c.t.x.f.Root)]
	if !ok {
		return
	}
	ty, _ := constOf(e.args[1])
	off := int64(0)
	good := ty == w.typ
	if w.ev >= 0 {
		b, o := c.t.buf(e.args[2])
		good = good && c.t.bitsEq(c.t.byteAt(b, o.add(sc(1), 1), e.nm), cbits(uint64(w.ev), 8))
		off = 2
	}
	for i, p := range w.words {
		bs := c.t.word(e, off+int64(4*i))
		for k := range bs {
			good = good && bs[k] == (sbit{p, k})
		}
	}
	if !good {
		c.bad("named", "does not send the message it is named after with its arguments")
	} else {
		c.r.ok("message by name")
	}
}

// byteCounter: every byte received counts.
func (r *Report) byteCounter() {
	n := 0
	for _, t := range r.traceSet("format/rtmp:wrapReadWriter.Read", nil, nil) {
		c := chk{r, t, "control|Read"}
		rd := sc(0)
		for _, e := range t.events {
			if e.kind == "read" && e.res != nil && len(e.res.tup) == 2 && t.nilState(e.res.tup[1]) != 0 {
				rd = rd.add(e.args[0].length, 1)
			}
		}
		s := t.cellv["p0.conn.ackn"]
		if rd.eq(sc(0)) {
			if s != nil {
				c.bad("count", "bytes are counted that were not received")
				continue
			}
			r.ok("failed read")
			continue
		}
		w := s != nil && s.isInt && s.lin.t["p0.conn.ackn"] == 1
		if w {
			d := s.lin.add(sterm("p0.conn.ackn"), -1)
			w = d.eq(rd) || d.eq(sterm("("+rd.String()+"{31:0})"))
		}
		if !w {
			c.bad("count", "the number of bytes received becomes %s after reading %s", s.str(), rd)
			continue
		}
		n++
		r.ok("counted read")
	}
	r.need("counted reads", n, 1)
}

// stores: the path stores the named value there.
func (t *Trace) stores(name, val string) bool {
	for _, e := range t.events {
		if e.kind == "store" && e.name == name && (e.args[0].sym == val || val == "nil" && e.args[0].isNil) {
			return true
		}
	}
	return false
}

// dispatch: aggregates are split, handled messages are withheld.
func (r *Report) dispatch() {
	const read, next, handle, flush = "format/rtmp:Conn.readMsg", "format/rtmp:Conn.nextAggPart", "format/rtmp:Conn.handleEvent", "format/rtmp:Conn.flushWrite"
	kinds := map[string]int{}
	for _, t := range r.traceSet("format/rtmp:Conn.readMsgHandleEvent", nil, stopAt(read, next, handle, flush)) {
		c := chk{r, t, "control|readMsgHandleEvent"}
		var msg *sval
		failed := ""
		state := func(e sevent, k int) int {
			if e.res == nil {
				return -1
			}
			if e.res.tup == nil {
				return t.nilState(e.res)
			}
			return t.nilState(e.res.tup[k])
		}
		for _, e := range t.calls(next) {
			if state(e, 2) == 0 {
				failed = "splitting an aggregate"
				continue
			}
			if t.truth(e.res.tup[0]) == 1 {
				msg = e.res.tup[1]
				kinds["aggregate part"]++
			} else if len(t.calls(read)) > 0 && failed == "" && !t.stores("p0.aggmsg", "nil") {
				c.bad("agg", "a finished aggregate is not dropped")
			}
		}
		agg := false
		for _, e := range t.calls(read) {
			if state(e, 1) == 0 {
				failed = "reading"
				continue
			}
			ty := e.res.tup[0].sym + ".msgtypeid"
			switch {
			case t.isVal(ty, 22):
				agg = true
				kinds["aggregate"]++
				if !t.stores("p0.aggmsg", e.res.tup[0].sym) {
					c.bad("agg", "an aggregate message is not split")
				}
			case t.notVal(ty, 22):
				msg = e.res.tup[0]
			default:
				c.bad("agg", "a path does not look for aggregate messages")
			}
		}
		h := t.calls(handle)
		if failed != "" {
			if t.end == nil || t.okRes(1) != 0 {
				c.bad("err", "a failure of %s is not reported", failed)
			} else {
				r.ok("failure reported")
			}
			continue
		}
		if agg && msg == nil {
			if len(h) > 0 || t.end != nil {
				c.bad("agg", "an aggregate message is handled as a whole")
			} else {
				r.ok("aggregate")
			}
			continue
		}
		if msg == nil || len(h) != 1 || len(h[0].args) != 2 || h[0].args[1].sym != msg.sym {
			c.bad("handle", "a message is not given to the event handler once")
			continue
		}
		if state(h[0], 1) == 0 {
			if t.end == nil || t.okRes(1) != 0 {
				c.bad("err", "a failure of the event handler is not reported")
			} else {
				r.ok("failure reported")
			}
			continue
		}
		f := t.calls(flush)
		switch t.truth(h[0].res.tup[0]) {
		case 1:
			if len(f) == 0 {
				c.bad("flush", "the answer to a handled message is not flushed")
				continue
			}
			if state(f[0], 0) == 0 {
				if t.end == nil || t.okRes(1) != 0 {
					c.bad("err", "a failed flush is not reported")
					continue
				}
			} else if t.end != nil {
				c.bad("withheld", "a handled message is returned")
				continue
			}
			kinds["handled"]++
		case 0:
			if t.end == nil || len(t.ret) < 2 || t.ret[0].sym != msg.sym || t.nilState(t.ret[1]) == 0 {
				c.bad("returned", "a message that is not an event is not returned")
				continue
			}
			kinds["returned"]++
		default:
			c.bad("handle", "a path does not look whether the message was handled")
			continue
		}
		r.ok("dispatched message")
	}
	for _, k := range []string{"aggregate", "aggregate part", "handled", "returned"} {
		r.need("paths: "+k, kinds[k], 1)
	}
}

// aggregates: the parts of an aggregate message.
func (r *Report) aggregates() {
	n, none := 0, 0
	for _, t := range r.traceSet("format/rtmp:Conn.nextAggPart", nil, nil) {
		c := chk{r, t, "control|nextAggPart"}
		if t.end == nil || len(t.ret) < 3 {
			c.bad("loop", "a path does not return")
			continue
		}
		src := "p1.aggreadp"
		if v, ok := t.bools[src+"==nil"]; ok && v {
			src = "p1.msgdata"
		}
		total := sterm("len(" + src + ")")
		at := func(i, k int64) []sbit {
			var bs []sbit
			for j := k - 1; j >= 0; j-- {
				bs = append(bs, fld(fmt.Sprintf("%s[%d]", src, i+j), 7, 0)...)
			}
			return bs
		}
		x := &tracer{f: t.x.f, trng: t.x.trng}
		dl := x.fromBits(at(1, 3), u32)
		tm := x.fromBits(append(at(4, 3), at(7, 1)...), u32)
		rest := total.add(dl.lin, -1).add(sc(-15), 1)
		got := t.truth(t.ret[0])
		if got == 0 {
			if t.nilState(t.ret[2]) != 1 || !(t.implies(sc(14).add(total, -1)) || t.implies(rest.mul(-1).add(sc(-1), 1))) {
				c.bad("end", "a complete part is not returned")
				continue
			}
			none++
			r.ok("end of aggregate")
			continue
		}
		if !t.implies(rest) || !t.implies(total.add(sc(-15), 1)) {
			c.bad("short", "a truncated part is returned")
			continue
		}
		m := t.ret[1].sym
		f := func(k string) *sval { return t.cellv[m+"."+k] }
		if ty := f("msgtypeid"); ty == nil || !t.bitsEq(ty.bits, at(0, 1)) {
			c.bad("type", "the type of a part is %s", ty.str())
			continue
		}
		if l := f("msgdatalen"); l == nil || !l.lin.eq(dl.lin) {
			c.bad("len", "the length of a part is %s", l.str())
			continue
		}
		want := sterm("p1.timenow").add(tm.lin, 1).add(sterm("p1.aggfirsttm"), -1)
		switch {
		case t.isVal("p1.aggidx", 0):
			want = sterm("p1.timenow")
			if s := t.cellv["p1.aggfirsttm"]; s == nil || !t.bitsEq(s.bits, append(at(4, 3), at(7, 1)...)) {
				c.bad("time", "the time of the first part is not remembered")
				continue
			}
		case !t.notVal("p1.aggidx", 0):
			c.bad("time", "a path does not tell the first part")
			continue
		}
		if s := f("timenow"); s == nil || !s.lin.eq(want) {
			c.bad("time", "the time of a part is %s, not %s", s.str(), want)
			continue
		}
		if s := t.cellv["p1.aggidx"]; s == nil || !s.lin.eq(sterm("p1.aggidx").add(sc(1), 1)) {
			c.bad("idx", "parts are not counted")
			continue
		}
		if s := t.cellv["p1.aggreadp"]; s == nil || s.base != src || !s.off.eq(dl.lin.add(sc(15), 1)) {
			c.bad("next", "reading goes on at %s", s.str())
			continue
		}
		if t.nilState(t.ret[2]) == 0 {
			r.ok("part that cannot be kept")
			continue
		}
		d := f("msgdata")
		ok := false
		for _, e := range t.mem {
			if e.kind == 1 && d != nil && e.base == d.base && e.src != nil && e.src.base == src && e.src.off.eq(sc(11)) && e.src.length.eq(dl.lin) {
				ok = true
			}
		}
		if !ok {
			c.bad("data", "the data of a part are not what follows its header")
			continue
		}
		n++
		r.ok("aggregate part")
	}
	r.need("aggregate parts", n, 4)
	r.need("ends of an aggregate", none, 2)
}
