package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C35: the tools pass on every packet.

// pumpSeg: one packet read and what happens until the next one is read.
type pumpSeg struct {
	read sevent
	rest []sevent
}

func (w *rtpWalk) segments(read func(e sevent) bool) (head []sevent, l []pumpSeg) {
	for _, e := range w.t.events {
		switch {
		case e.kind == "call" && read(e):
			l = append(l, pumpSeg{read: e})
		case len(l) == 0:
			head = append(head, e)
		default:
			l[len(l)-1].rest = append(l[len(l)-1].rest, e)
		}
	}
	return
}

func isMethod(e sevent, name string) bool {
	if e.kind != "call" {
		return false
	}
	if e.in.Method != nil {
		return e.in.Method.Name() == name
	}
	return e.in.Callee != nil && e.in.Callee.Name() == name && e.in.Callee.Signature.Recv() != nil
}

func pick(l []sevent, ok func(e sevent) bool) (out []sevent) {
	for _, e := range l {
		if ok(e) {
			out = append(out, e)
		}
	}
	return
}

// eof: whether an error is found to be the end of the file.
func (w *rtpWalk) eof(er *sval) int {
	for b, v := range w.t.bools {
		p := plain(b)
		if p == plain(er.sym)+"==g:io.EOF" || p == "g:io.EOF=="+plain(er.sym) {
			return b2i(v)
		}
	}
	return -1
}

// noMore: the last read failed; how the path ends.
func (w *rtpWalk) noMore(s pumpSeg, later func(s string) bool) string {
	er := errOf(s.read)
	last := w.t.ret[len(w.t.ret)-1]
	switch w.eof(er) {
	case 1:
		if w.t.nilState(last) != 1 && !later(last.sym) {
			w.fail("the end of the input is an error")
		}
		return "end"
	case 0:
		if last.sym != er.sym {
			w.fail("the error of reading is lost")
		}
		return "read error"
	}
	w.fail("does not look whether the input has ended")
	return "end"
}

func (r *Report) toolConv() {
	stops := stopAt("cmd/avtool:newFormatOpener", "cmd/avtool:startStatSec", "format:URLOpener.Open", "format:URLOpener.Create", "av/pktop:NativeRateLimiter.Do", "av/pktop:NewNativeRateLimiter", "av:Packet.String")
	r.rtpPaths("cmd/avtool:doConv", "conv", stops, 6000, 2, []string{"no input", "end", "read error", "no output", "write error"}, func(w *rtpWalk) string {
		op := w.t.calls("format:URLOpener.Open")
		if len(op) != 1 || len(w.t.ret) != 1 || op[0].args[1].sym != "p0" {
			w.fail("does not open the input")
			return "no input"
		}
		made := func(o string) bool {
			m := w.madeBy(o)
			return m != nil && calleeName(*m) == "cmd/avtool:newFormatOpener"
		}
		if !made(op[0].args[0].sym) {
			w.fail("opens the input with another opener")
		}
		cr := w.t.calls("format:URLOpener.Create")
		switch w.t.nilState(errOf(op[0])) {
		case 0:
			if w.t.ret[0].sym != errOf(op[0]).sym || len(cr) > 0 {
				w.fail("the error is lost")
			}
			return "no input"
		case -1:
			w.fail("does not look whether there is an input")
		}
		fr := op[0].res.tup[0].sym
		fw := ""
		for _, c := range cr {
			if c.args[1].sym != "p1" || !made(c.args[0].sym) {
				w.fail("creates another output")
			}
			if fw != "" {
				if n := w.t.nilState(&sval{sym: fw}); n == 1 {
					return "no writer without error"
				}
				w.fail("creates the output twice")
			}
			if w.t.nilState(errOf(c)) == 1 {
				fw = c.res.tup[0].sym
			}
		}
		if fw != "" && w.t.nilState(&sval{sym: fw}) == 1 {
			return "no writer without error"
		}
		toFile := -1
		switch l := w.len("p1"); {
		case w.is(l):
			toFile = 0
		case w.t.isNeq(l) || w.t.implies(l.add(sc(-1), 1)):
			toFile = 1
		}
		closed := map[string]bool{}
		closeErr := ""
		for _, e := range w.t.events {
			if isMethod(e, "Close") && len(e.args) > 0 {
				closed[plain(e.args[0].sym)] = true
				if fw != "" && strings.HasPrefix(plain(e.args[0].sym), fw) {
					closeErr = e.res.sym
				}
			}
		}
		if !closed[fr+".Closer"] && !closed[fr] {
			w.fail("the input stays open")
		}
		if fw != "" && !closed[fw+".Closer"] && !closed[fw] {
			w.fail("the output stays open")
		}
		isWrite := func(e sevent) bool { return isMethod(e, "WritePacket") }
		head, segs := w.segments(func(e sevent) bool { return isMethod(e, "ReadPacket") })
		if len(pick(head, isWrite)) > 0 || len(segs) == 0 {
			w.fail("does not begin with a packet of the input")
			return "end"
		}
		kind := "end"
		for i, s := range segs {
			last := i == len(segs)-1
			if p := plain(s.read.args[0].sym); p != fr+".PacketReader" && p != fr {
				w.fail("reads something else")
			}
			er := errOf(s.read)
			pkt := s.read.res.tup[0].sym
			wr := pick(s.rest, isWrite)
			if w.t.nilState(er) != 1 {
				if !last || len(wr) > 0 {
					w.fail("goes on after an error of reading")
				}
				kind = w.noMore(s, func(x string) bool { return x == closeErr })
				if kind == "end" && closeErr != "" && w.t.ret[0].sym != closeErr && w.t.nilState(&sval{sym: closeErr}) != 1 {
					w.fail("the error of closing the output is lost")
				}
				continue
			}
			name := pkt // what the packet is called
			count := sc(1)
			many := false
			for _, e := range s.rest {
				if e.kind == "store" && e.args[0] != nil && e.args[0].sym == pkt && strings.HasSuffix(e.name, "[0]") {
					name = plain(e.name)
				}
				if e.kind == "store" && (strings.HasPrefix(e.name, name+".") || strings.HasPrefix(e.name, pkt+".")) {
					w.fail("a packet is changed")
				}
				if e.kind == "call" && calleeName(e) == "av/pktop:NativeRateLimiter.Do" {
					if len(e.args) != 2 || e.args[1].base+"[0]" != name || !w.is(e.args[1].length.add(sc(-1), 1)) {
						w.fail("waits for another packet")
					}
					name, many = e.res.sym, true
					count = w.len(name)
				}
			}
			for n, e := range wr {
				if fw == "" || plain(e.args[0].sym) != fw+".PacketWriter" && plain(e.args[0].sym) != fw {
					w.fail("writes to something else")
				}
				want := name
				if many {
					want = fmt.Sprintf("%s[%d]", name, n)
				}
				if !w.samePacket(e.args[1], want, nil) && !(w.samePacket(e.args[1], pkt, nil) && !many) {
					w.fail("writes another packet")
				}
				failed := w.t.nilState(errOf(e))
				if failed == 0 {
					if n != len(wr)-1 || !last || w.t.ret[0].sym != errOf(e).sym {
						w.fail("the error of writing is lost")
					}
					return "write error"
				}
				if failed < 0 {
					w.fail("does not look whether the packet is written")
				}
			}
			if toFile != 0 && len(cr) > 0 && last && fw == "" {
				if w.t.ret[0].sym != errOf(cr[len(cr)-1]).sym {
					w.fail("the error of the output is lost")
				}
				return "no output"
			}
			if last {
				w.fail("stops before the end of the input")
			}
			if toFile == 1 && !w.is(count.add(sc(int64(-len(wr))), 1)) || toFile == 0 && len(wr) > 0 {
				w.fail("%d packets are written", len(wr))
			}
			if toFile < 0 && !(many && w.is(count)) {
				w.fail("does not look whether there is an output")
			}
		}
		return kind
	})
}

// limiter: packets are handed on not before their time.
func (r *Report) toolLimiter() {
	r.rtpPaths("av/pktop:NativeRateLimiter.Do", "limiter", nil, 4000, 3, []string{"0", "1", "2"}, func(w *rtpWalk) string {
		if len(w.t.ret) != 1 || !w.whole(w.t.ret[0], "p1") && plain(w.t.ret[0].sym) != "p1" {
			w.fail("does not return the packets")
		}
		n := -1
		for k := 0; k < 4; k++ {
			if w.is(w.len("p1").add(sc(int64(-k)), 1)) {
				n = k
			}
		}
		if n < 0 {
			w.fail("does not look at every packet")
			return "0"
		}
		base := w.t.x.leaf("p0.pktTimeStart", tInt).lin
		wall := "p0.wallTimeStart"
		var ev []sevent
		for _, e := range w.t.events {
			if extern(e, "time.Sleep") || extern(e, "(time.Time).Sub") || extern(e, "time.Since") || extern(e, "time.Now") || e.kind == "store" {
				ev = append(ev, e)
			}
		}
		at := 0
		next := func(names ...string) *sevent {
			for ; at < len(ev); at++ {
				for _, nm := range names {
					if extern(ev[at], nm) {
						at++
						return &ev[at-1]
					}
				}
				if extern(ev[at], "time.Sleep") {
					return nil
				}
			}
			return nil
		}
		for i := 0; i < n; i++ {
			tm := w.t.x.leaf(fmt.Sprintf("p1[%d].Time", i), tInt).lin
			d := tm.add(base, -1)
			if w.t.implies(d.mul(-1)) {
				continue
			}
			if !w.t.implies(d.add(sc(-1), 1)) {
				w.fail("does not look whether packet %d is later", i)
				break
			}
			s := next("(time.Time).Sub", "time.Since")
			if s == nil {
				w.fail("does not look how much time has passed")
				break
			}
			if extern(*s, "time.Since") {
				if !w.samePacket(s.args[0], wall, nil) {
					w.fail("counts the time from another moment")
				}
			} else if !w.isNow(s.args[0].sym) || !w.samePacket(s.args[1], wall, nil) {
				w.fail("counts the time from another moment")
			}
			left := d.add(s.res.lin, -1)
			switch {
			case w.t.implies(left.add(sc(-1), 1)):
				sl := next("time.Sleep")
				if sl == nil || !w.is(sl.args[0].lin.add(left, -1)) {
					w.fail("packet %d does not wait for its time", i)
				}
			case w.t.implies(left.mul(-1)):
			default:
				sl := next("time.Sleep")
				if sl == nil || !w.is(sl.args[0].lin.add(left, -1)) {
					w.fail("packet %d does not wait for its time", i)
				}
			}
			now := next("time.Now")
			if now == nil {
				w.fail("does not remember when packet %d was handed on", i)
				break
			}
			base, wall = tm, now.res.sym
		}
		for ; at < len(ev); at++ {
			if extern(ev[at], "time.Sleep") {
				w.fail("waits for nothing")
			}
		}
		if v := w.cell("p0.pktTimeStart"); v == nil && plain(base.String()) != "p0.pktTimeStart" || v != nil && !w.is(v.lin.add(base, -1)) {
			w.fail("does not remember the time of the packet")
		}
		if v := w.cell("p0.wallTimeStart"); v == nil && wall != "p0.wallTimeStart" || v != nil && !w.samePacket(v, wall, nil) {
			w.fail("does not remember when the packet was handed on")
		}
		return fmt.Sprint(n)
	})
}

// handlerOf: the function a server function keeps in a field.
func (r *Report) handlerOf(pkg, fn, field string) string {
	f := r.P.fn(pkg, fn)
	if f == nil {
		return ""
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			s, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			a, ok := s.Addr.(*ssa.FieldAddr)
			if !ok {
				continue
			}
			st, ok := a.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
			if !ok || st.Field(a.Field).Name() != field {
				continue
			}
			v := s.Val
			if m, ok := v.(*ssa.MakeClosure); ok {
				v = m.Fn
			}
			if g, ok := v.(*ssa.Function); ok {
				return pkg + ":" + g.Name()
			}
		}
	}
	return ""
}

func (r *Report) toolForward() {
	name := r.handlerOf("cmd/avtool", "doForwardRtmp", "HandleConn")
	if name == "" {
		r.fail("anchor|forward", "-", "doForwardRtmp does not handle connections with a function of its own any more")
		return
	}
	stops := stopAt("cmd/avtool:newFormatOpener", "format:URLOpener.Create", "format/rtmp:Conn.ReadPacket", "format/rtmp:Conn.WritePacket")
	r.rtpPaths(name, "forward", stops, 2000, 2, []string{"player", "no address", "bad address", "no output", "read error", "write error"}, func(w *rtpWalk) string {
		cr := w.t.calls("format:URLOpener.Create")
		head, segs := w.segments(func(e sevent) bool { return isMethod(e, "ReadPacket") })
		isWrite := func(e sevent) bool { return isMethod(e, "WritePacket") }
		none := func(k string) string {
			if len(cr) > 0 || len(segs) > 0 || len(pick(head, isWrite)) > 0 {
				w.fail("something is forwarded")
			}
			return k
		}
		closed := func(name string) bool {
			for _, e := range w.t.events {
				if isMethod(e, "Close") && len(e.args) > 0 && plain(e.args[0].sym) == name {
					return true
				}
			}
			return false
		}
		if !closed("p1") {
			w.fail("the publisher's connection stays open")
		}
		switch w.flag("p0.Publishing") {
		case 0:
			return none("player")
		case -1:
			w.fail("does not look whether it is a publisher")
		}
		gt := w.extCalls("(net/url.Values).Get")
		fwd := ""
		for _, e := range gt {
			q := w.madeBy(e.args[0].sym)
			if q != nil && extern(*q, "(*net/url.URL).Query") && plain(q.args[0].sym) == "p0.URL" && e.args[1].sym == `"fwd"` {
				fwd = e.res.sym
			}
		}
		if fwd == "" {
			w.fail("does not look for the address")
			return "no address"
		}
		l := w.len(fwd)
		switch {
		case w.is(l):
			return none("no address")
		case w.t.isNeq(l) || w.t.implies(l.add(sc(-1), 1)):
		default:
			w.fail("does not look whether there is an address")
		}
		ps := w.extCalls("net/url.Parse")
		if len(ps) != 1 || ps[0].args[0].sym != fwd {
			w.fail("does not look whether the address is one of RTMP")
			return "bad address"
		}
		u := plain(ps[0].res.tup[0].sym)
		if w.torn(u + ".Scheme") {
			return "torn"
		}
		if w.t.nilState(errOf(ps[0])) != 1 || w.strIs(u+".Scheme", "rtmp") != 1 && w.strIs(u+".Scheme", "rtmps") != 1 {
			return none("bad address")
		}
		if len(cr) != 1 || cr[0].args[1].sym != fwd {
			w.fail("does not connect to the address")
			return "no output"
		}
		if m := w.madeBy(cr[0].args[0].sym); m == nil || calleeName(*m) != "cmd/avtool:newFormatOpener" {
			w.fail("connects with another opener")
		}
		switch w.t.nilState(errOf(cr[0])) {
		case 0:
			if len(segs) > 0 {
				w.fail("goes on without a connection")
			}
			return "no output"
		case -1:
			w.fail("does not look whether it is connected")
		}
		fw := cr[0].res.tup[0].sym
		if !closed(fw+".NetConn") && !closed(fw+".Closer") && !closed(fw) {
			w.fail("the connection to the address stays open")
		}
		if len(pick(head, isWrite)) > 0 || len(segs) == 0 {
			w.fail("does not begin with a packet of the publisher")
			return "read error"
		}
		kind := "read error"
		for i, s := range segs {
			last := i == len(segs)-1
			if plain(s.read.args[0].sym) != "p0" {
				w.fail("reads something else")
			}
			wr := pick(s.rest, isWrite)
			if w.t.nilState(errOf(s.read)) != 1 {
				if !last || len(wr) > 0 {
					w.fail("goes on after an error")
				}
				continue
			}
			if len(wr) != 1 {
				w.fail("%d packets are written for one", len(wr))
				break
			}
			if p := plain(wr[0].args[0].sym); p != fw+".Rtmp" && p != fw+".PacketWriter" && p != fw {
				w.fail("writes to something else")
			}
			if !w.samePacket(wr[0].args[1], s.read.res.tup[0].sym, nil) {
				w.fail("writes another packet")
			}
			switch w.t.nilState(errOf(wr[0])) {
			case 0:
				kind = "write error"
				if !last {
					w.fail("goes on after an error")
				}
			case 1:
				if last {
					w.fail("stops while there are packets")
				}
			default:
				w.fail("does not look whether the packet is written")
			}
		}
		return kind
	})
}

// nalList: the NAL units a list is made of, group after group.
func (w *rtpWalk) nalList(v *sval, groups ...string) bool {
	l := w.t.items(v, nil)
	for _, g := range groups {
		if len(l) > 0 && l[0].spread != nil && plain(l[0].spread.sym) == plain(g) {
			l = l[1:]
			continue
		}
		n := 0
		for len(l) > 0 && l[0].one != nil && plain(l[0].one.sym) == fmt.Sprintf("%s[%d]", plain(g), n) {
			l = l[1:]
			n++
		}
		if !w.is(w.len(g).add(sc(int64(-n)), 1)) {
			return false
		}
	}
	return len(l) == 0
}

// toolFile: the two tools that rewrite an FLV file.
func (r *Report) toolFile(name string, hdr bool) {
	typ := func(n string) int64 { return r.pkgConst("av", n) }
	stops := stopAt("format/flv:NewDemuxer", "format/flv:NewMuxer", "format/flv:Demuxer.ReadPacket", "format/flv:Muxer.WritePacket", "codec/h264:SplitNALUs", "codec/h264:JoinNALUsAnnexb", "codec/h264:JoinNALUsAVCC", "codec/h264:FromDecoderConfig", "codec/h264:Map2arr", "format:NewStreamsWriteSeeker")
	need := []string{"no input", "no output", "end", "read error", "write error", "H264", "other"}
	if hdr {
		need = append(need, "header", "bad header", "key frame", "key frame without header")
	}
	turns := 2
	if hdr {
		turns = 4
	}
	got := map[string]int{}
	r.rtpPaths("cmd/avtool:"+name, name, stops, 40000, turns, nil, func(w *rtpWalk) string {
		kind := func(k string) string { got[k]++; return k }
		op, cr := w.extCalls("os.Open"), w.extCalls("os.Create")
		isWrite := func(e sevent) bool { return isMethod(e, "WritePacket") }
		head, segs := w.segments(func(e sevent) bool { return isMethod(e, "ReadPacket") })
		if len(w.t.ret) != 1 || len(op) != 1 || op[0].args[0].sym != "p0" {
			w.fail("does not open the input")
			return kind("no input")
		}
		ret := w.t.ret[0]
		if w.t.nilState(errOf(op[0])) != 1 {
			if ret.sym != errOf(op[0]).sym || len(segs) > 0 || len(cr) > 0 {
				w.fail("the error is lost")
			}
			return kind("no input")
		}
		if len(cr) != 1 || cr[0].args[0].sym != "p1" {
			w.fail("does not create the output")
			return kind("no output")
		}
		if w.t.nilState(errOf(cr[0])) != 1 {
			if ret.sym != errOf(cr[0]).sym || len(segs) > 0 {
				w.fail("the error is lost")
			}
			return kind("no output")
		}
		dm, mx, sk := w.t.calls("format/flv:NewDemuxer"), w.t.calls("format/flv:NewMuxer"), w.t.calls("format:NewStreamsWriteSeeker")
		if len(dm) != 1 || len(mx) != 1 || len(sk) != 1 || dm[0].args[0].sym != op[0].res.tup[0].sym || mx[0].args[0].sym != sk[0].res.sym || sk[0].args[0].sym != cr[0].res.tup[0].sym {
			w.fail("does not read the input or write the output")
			return kind("end")
		}
		if len(pick(head, isWrite)) > 0 || len(segs) == 0 {
			w.fail("does not begin with a packet of the input")
			return kind("end")
		}
		known := ""
		for i, s := range segs {
			last := i == len(segs)-1
			if s.read.args[0].sym != dm[0].res.sym {
				w.fail("reads something else")
			}
			wr := pick(s.rest, isWrite)
			if w.t.nilState(errOf(s.read)) != 1 && w.eof(errOf(s.read)) != 0 || w.t.nilState(errOf(s.read)) == 0 {
				if !last || len(wr) > 0 {
					w.fail("goes on after an error of reading")
				}
				kind(w.noMore(s, func(string) bool { return false }))
				continue
			}
			pkt := s.read.res.tup[0].sym
			tl := w.t.x.leaf(pkt+".Type", tInt).lin
			is := func(n string) bool { return w.is(tl.add(sc(-typ(n)), 1)) }
			but := map[string]string{}
			by := func(name string) *sevent {
				if l := pick(s.rest, func(e sevent) bool { return e.kind == "call" && calleeName(e) == "codec/h264:"+name }); len(l) == 1 {
					return &l[0]
				}
				return nil
			}
			switch {
			case is("H264"):
				sp := by("SplitNALUs")
				ax := by("JoinNALUsAnnexb")
				if sp == nil || !w.named(sp.args[0], pkt+".Data") || ax == nil || len(sp.res.tup) == 0 {
					w.fail("does not split the units of a picture and join them")
					break
				}
				units := sp.res.tup[0].sym
				if !hdr {
					vc := by("JoinNALUsAVCC")
					if vc == nil || !w.nalList(ax.args[0], units) {
						w.fail("does not join the units of the picture")
						break
					}
					one := ""
					if l := w.t.items(vc.args[0], nil); len(l) == 1 && l[0].one != nil {
						one = l[0].one.sym
					}
					if v := vc.args[0]; v.hasLen && w.is(v.length.add(sc(-1), 1)) {
						for _, e := range s.rest {
							if e.kind == "store" && e.name == v.base+"[0]" && e.args[0] != nil {
								one = e.args[0].sym
							}
						}
					}
					if one != ax.res.sym {
						w.fail("the joined units are not written as one")
					}
					but["Data"] = vc.res.sym
					kind("H264")
					break
				}
				but["Data"] = ax.res.sym
				key := -1
				for b, v := range w.t.bools {
					if plain(b) == plain(pkt)+".IsKeyFrame" {
						key = b2i(v)
					}
				}
				switch {
				case key == 0 || key == 1 && known == "":
					if !w.nalList(ax.args[0], units) {
						w.fail("the units of the picture are not joined")
					}
					if key == 1 {
						kind("key frame without header")
					}
					kind("H264")
				case key == 1:
					var m [2]string
					for _, e := range s.rest {
						if e.kind == "call" && calleeName(e) == "codec/h264:Map2arr" {
							switch plain(e.args[0].sym) {
							case plain(known) + ".SPS":
								m[0] = e.res.sym
							case plain(known) + ".PPS":
								m[1] = e.res.sym
							}
						}
					}
					if m[0] == "" || m[1] == "" || !w.nalList(ax.args[0], m[0], m[1], units) {
						w.fail("a key frame does not get the parameter sets seen last, and then its units")
					}
					kind("key frame")
				default:
					w.fail("does not look whether the picture is a key frame")
				}
			case hdr && is("H264DecoderConfig"):
				fc := by("FromDecoderConfig")
				if fc == nil || !w.named(fc.args[0], pkt+".Data") {
					w.fail("does not look at the header")
					break
				}
				if len(wr) > 0 {
					w.fail("a header is passed on")
				}
				switch w.t.nilState(errOf(*fc)) {
				case 0:
					if !last || ret.sym != errOf(*fc).sym {
						w.fail("the error of the header is lost")
					}
					return kind("bad header")
				case 1:
					known = fc.res.tup[0].sym
					if w.t.nilState(fc.res.tup[0]) == 1 {
						return "no header without error"
					}
					kind("header")
				default:
					w.fail("does not look whether the header is one")
				}
				if last {
					w.fail("stops before the end of the input")
				}
				continue
			default:
				if w.may(tl, typ("H264")) || hdr && w.may(tl, typ("H264DecoderConfig")) {
					w.fail("does not look at the type")
				}
				kind("other")
			}
			if len(wr) != 1 {
				w.fail("%d packets are written for one", len(wr))
				break
			}
			if wr[0].args[0].sym != mx[0].res.sym || !w.samePacket(wr[0].args[1], pkt, but) {
				w.fail("writes another packet")
			}
			switch w.t.nilState(errOf(wr[0])) {
			case 0:
				if !last || ret.sym != errOf(wr[0]).sym {
					w.fail("the error of writing is lost")
				}
				return kind("write error")
			case 1:
				if last {
					w.fail("stops before the end of the input")
				}
			default:
				w.fail("does not look whether the packet is written")
			}
		}
		return "walked"
	})
	for _, k := range need {
		r.need("walks of "+name+": "+k, got[k], 1)
	}
}

// toolStat: a counted connection is the connection.
func (r *Report) toolStat() {
	for _, n := range []string{"Read", "Write"} {
		n := n
		r.rtpPaths("cmd/avtool:StatConn."+n, "stat", nil, 100, 2, []string{n}, func(w *rtpWalk) string {
			l := pick(w.t.events, func(e sevent) bool { return isMethod(e, n) || e.kind == strings.ToLower(n) })
			if len(l) != 1 || plain(l[0].args[0].sym) != "p0.Conn" || !w.whole(l[0].args[1], "p1") && l[0].args[1].sym != "p1" {
				w.fail("does not pass the bytes on")
				return n
			}
			if len(w.t.ret) != 2 || !w.is(w.t.ret[0].lin.add(l[0].res.tup[0].lin, -1)) || w.t.ret[1].sym != errOf(l[0]).sym && !(w.isNil(1) && w.t.nilState(errOf(l[0])) == 1) {
				w.fail("returns something else")
			}
			for _, i := range w.hookCalls("On" + n) {
				if e := w.t.events[i]; !w.is(e.args[1].lin.add(l[0].res.tup[0].lin, -1)) {
					w.fail("counts something else")
				}
			}
			if w.t.nilState(errOf(l[0])) == 1 && w.isSet("On"+n) != 0 && len(w.hookCalls("On"+n)) != 1 {
				w.fail("does not count")
			}
			return n
		})
	}
}

func init() {
	register("C35", "proof", func(r *Report, thorough bool) {
		r.rule("The loops of the tools are walked for their first turns: between one packet read and the next, what is written must be that packet, once, in the order and form the property says; the end of input, errors and closing likewise.")
		r.toolConv()
		r.toolForward()
		r.toolFile("doAvcc2Annexb", false)
		r.toolFile("doMoveH264SeqhdrToKeyFrame", true)
		r.toolLimiter()
		r.toolStat()
	})
}
