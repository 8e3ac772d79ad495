package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C18: publishing and subscribing (cmd/avtool). The cache of the last group
// of pictures, the reading of it by subscribers, the parameter sets that are
// taken out of the stream and put back, and the life of a stream.

const pubPkg = "cmd/avtool"

func pubName(f string) string { return pubPkg + ":" + f }

// last value left in a cell.
func (w *rtpWalk) cell(name string) *sval {
	var v *sval
	for _, e := range w.t.events {
		if e.kind != "store" {
			continue
		}
		switch n := plain(e.name); {
		case n == name:
			v = e.args[0]
		case strings.HasPrefix(name, n+".") && e.args[0].fields != nil:
			if f := e.args[0].fieldOf(name[len(n)+1:]); f != nil {
				v = f
			}
		}
	}
	return v
}

// flag: a boolean of the start of the path.
func (w *rtpWalk) flag(name string) int {
	for b, v := range w.t.bools {
		if plain(b) == name {
			return b2i(v)
		}
	}
	return -1
}

// index of the first and last event that a call, store or lookup makes.
func (w *rtpWalk) at(ok func(e sevent) bool) (first, last int) {
	first, last = -1, -1
	for i, e := range w.t.events {
		if ok(e) {
			if first < 0 {
				first = i
			}
			last = i
		}
	}
	return
}

func extern(e sevent, name string) bool {
	return e.kind == "call" && e.in.Callee != nil && fnName(e.in.Callee) == name
}

// samePacket: v is the packet named p, but for the fields in but.
func (w *rtpWalk) samePacket(v *sval, p string, but map[string]string) bool {
	if v == nil {
		return false
	}
	if v.fields == nil {
		return len(but) == 0 && plain(v.sym) == p
	}
	for j := 0; j < v.ftyp.NumFields(); j++ {
		n := v.ftyp.Field(j).Name()
		want := p + "." + n
		if b, ok := but[n]; ok {
			want = b
		}
		if f := v.fieldOf(n); f == nil || !w.named(f, want) {
			return false
		}
	}
	return true
}

// named: v is what the cell held, whatever way it is written.
func (w *rtpWalk) named(v *sval, want string) bool {
	if v.isInt {
		return w.is(v.lin.add(w.t.x.leaf(want, tInt).lin, -1)) || plain(v.lin.String()) == want
	}
	if plain(v.sym) == want {
		return true
	}
	return v.hasLen && plain(v.base) == want && w.is(v.off) && plain(v.length.String()) == "len("+want+")"
}

// pubCache: what put leaves behind.
func (r *Report) pubCache() {
	r.rtpPaths(pubName("gopCache.put"), "put", nil, 400, 2, []string{"key frame", "other frame"}, func(w *rtpWalk) string {
		k := "other frame"
		key := w.flag("p1.IsKeyFrame")
		if key == 1 {
			k = "key frame"
		} else if key != 0 {
			w.fail("does not look whether the packet is a key frame")
			return k
		}
		first, last := w.at(func(e sevent) bool { return extern(e, "sync/atomic.StorePointer") })
		if first < 0 || first != last {
			w.fail("the snapshot is not replaced once")
			return k
		}
		e := w.t.events[first]
		sn := strings.TrimSuffix(strings.TrimPrefix(e.args[1].sym, "unsafe.Pointer("), ")")
		if plain(e.args[0].sym) != "p0.curst" || !strings.HasPrefix(sn, "alloc@") {
			w.fail("the snapshot is not a new object in p0.curst")
			return k
		}
		for _, x := range w.t.events[first:] {
			if x.kind == "store" && (strings.HasPrefix(plain(x.name), "p0.") || strings.HasPrefix(x.name, sn)) {
				w.fail("%s changes after the snapshot is visible", plain(x.name))
			}
		}
		for _, at := range []string{"p0", sn} {
			l := w.cell(at + ".pkts")
			i := w.cell(at + ".idx")
			if l == nil || i == nil || !i.isInt {
				w.fail("%s does not get its packets and index", at)
				return k
			}
			if !w.is(i.lin.add(w.t.x.leaf("p0.idx", tInt).lin, -1).add(sc(-1), 1)) {
				w.fail("the index is %s, not one more", i.lin)
			}
			items := l.list
			old := 0
			for len(items) > 0 && items[0].spread != nil {
				s := items[0].spread
				if s.isNil || s.hasLen && w.is(s.length) {
					if b := plain(s.base); key == 1 && strings.HasPrefix(b, "p0.") {
						w.fail("a new group of pictures overwrites the old one that subscribers may be reading")
					}
				} else if w.named(s, "p0.pkts") {
					old++
				} else {
					w.fail("keeps %s", s.str())
				}
				items = items[1:]
			}
			if key == 1 && old > 0 {
				w.fail("a key frame does not start the group of pictures anew")
			}
			if key == 0 && old != 1 {
				w.fail("the packets before are lost")
			}
			if len(items) != 1 || items[0].one == nil || !w.samePacket(items[0].one, "p1", nil) {
				w.fail("the packet is not added at the end")
			}
		}
		if key == 1 {
			for _, e := range w.t.events {
				if e.kind == "append" && len(e.args) > 0 {
					if b := plain(e.args[0].base); strings.HasPrefix(b, "p0.") {
						w.fail("a new group of pictures overwrites the old one that subscribers may be reading")
					}
				}
			}
		}
		m := w.stores("p0")
		w.only(m, "pkts", "idx")
		return k
	})
	r.rtpPaths(pubName("gopCacheReadCursor.advance"), "advance", nil, 400, 2, []string{"part", "all"}, func(w *rtpWalk) string {
		st := w.stores("p0")
		w.only(st, "lastidx")
		if v := st["lastidx"]; v == nil || !v.isInt || !w.is(v.lin.add(w.t.x.leaf("p1.idx", tInt).lin, -1)) {
			w.fail("does not remember the index")
		}
		if len(w.stores("p1")) > 0 {
			w.fail("changes the snapshot")
		}
		n := w.len("p1.pkts")
		diff := sterm("p1.idx").add(sterm("p0.lastidx"), -1)
		if len(w.t.ret) != 1 {
			w.fail("the result is not known")
			return "result"
		}
		v := w.t.ret[0]
		if !v.hasLen && plain(v.sym) == "p1.pkts" {
			v = &sval{base: "p1.pkts", off: sc(0), length: n, hasLen: true}
		}
		if !v.hasLen {
			w.fail("the result is not known")
			return "result"
		}
		none := w.is(v.length)
		if !none && plain(v.base) != "p1.pkts" {
			w.fail("the result is not part of the snapshot")
		}
		switch {
		case w.t.implies(n.add(diff, -1)): // no more than there are
			if !w.is(v.length.add(diff, -1)) || !none && !w.is(v.off.add(v.length, 1).add(n, -1)) {
				w.fail("the result is not the packets added since")
			}
			if w.t.implies(diff.add(n, -1)) {
				return "all"
			}
			return "part"
		case w.t.implies(diff.add(n, -1)):
			if !w.is(v.length.add(n, -1)) || !none && !w.is(v.off) {
				w.fail("the result is not all packets")
			}
			return "all"
		}
		w.fail("does not tell whether all packets are new")
		return "result"
	})
	r.pubFrozen()
}

// pubFrozen: what a snapshot holds does not change. Its fields are only set
// in the function that makes it, the cache's only in put, and no element of
// a slice of packets is set outside the function that made it.
func (r *Report) pubFrozen() {
	own := func(v ssa.Value) bool {
		for {
			switch x := v.(type) {
			case *ssa.Alloc, *ssa.MakeSlice:
				return true
			case *ssa.FieldAddr:
				v = x.X
			case *ssa.IndexAddr:
				v = x.X
			case *ssa.Slice:
				v = x.X
			default:
				return false
			}
		}
	}
	n := 0
	for _, f := range r.P.AllFuncs {
		if relPkg(fnPkgPath(f)) != pubPkg {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				n++
				switch a := s.Addr.(type) {
				case *ssa.FieldAddr:
					nt := namedOf(a.X.Type())
					if nt == nil {
						continue
					}
					name := nt.Obj().Name()
					fn := "?"
					if st, ok := nt.Underlying().(*types.Struct); ok {
						fn = st.Field(a.Field).Name()
					}
					switch {
					case own(a.X):
					case name == "gopCacheSnapshot":
						r.fail("frozen|"+anchorName(f), r.P.pos(s.Pos()), fmt.Sprintf("%s of a snapshot changes after it was made", fn))
					case name == "gopCache" && anchorName(f) != pubName("gopCache.put"):
						r.fail("frozen|"+anchorName(f), r.P.pos(s.Pos()), fmt.Sprintf("the cache's %s changes outside put", fn))
					}
				case *ssa.IndexAddr:
					if sl, ok := a.X.Type().Underlying().(*types.Slice); ok {
						if nt := namedOf(sl.Elem()); nt != nil && nt.Obj().Name() == "Packet" && !own(a.X) {
							r.fail("frozen|"+anchorName(f), r.P.pos(s.Pos()), "a packet of a shared slice is replaced")
						}
					}
				}
			}
		}
	}
	r.need("stores looked at for changes of what is shared", n, 10)
}

// pubHeaders: parameter sets and metadata out of the stream and back.
func (r *Report) pubHeaders() {
	c := func(n string) int64 { return r.pkgConst("av", n) }
	typ := map[string]int64{}
	for _, n := range []string{"H264", "AAC", "H264DecoderConfig", "AACDecoderConfig", "Metadata"} {
		typ[n] = c(n)
	}
	kind := func(w *rtpWalk, names ...string) string {
		l := w.t.x.leaf("p1.Type", tInt).lin
		open := false
		for _, n := range names {
			if w.is(l.add(sc(-typ[n]), 1)) {
				return n
			}
			open = open || w.may(l, typ[n])
		}
		if open {
			return "?"
		}
		return "else"
	}
	r.rtpPaths(pubName("mergeSeqhdr.do"), "merge", nil, 1000, 2, []string{"H264", "H264 key", "AAC", "H264DecoderConfig", "AACDecoderConfig", "Metadata", "else"}, func(w *rtpWalk) string {
		k := kind(w, sortedKeys2(typ)...)
		calls := w.t.calls("p0.cb")
		st := w.stores("p0")
		want, but := 0, map[string]string{}
		switch k {
		case "?":
			w.fail("does not tell the type of the packet")
		case "H264":
			want = 1
			but["Metadata"] = "p0.hdrpkt.Metadata"
			switch w.flag("p1.IsKeyFrame") {
			case 1:
				but["VSeqHdr"] = "p0.hdrpkt.VSeqHdr"
				k = "H264 key"
			case 0:
			default:
				w.fail("does not look whether the packet is a key frame")
			}
		case "AAC":
			want = 1
			but["Metadata"] = "p0.hdrpkt.Metadata"
			but["ASeqHdr"] = "p0.hdrpkt.ASeqHdr"
		case "H264DecoderConfig", "AACDecoderConfig", "Metadata":
			f := map[string]string{"H264DecoderConfig": "hdrpkt.VSeqHdr", "AACDecoderConfig": "hdrpkt.ASeqHdr", "Metadata": "hdrpkt.Metadata"}[k]
			w.only(st, f)
			v := w.cell("p0." + f)
			if v == nil {
				w.fail("%s is not remembered", k)
			} else if !w.named(v, "p1.Data") {
				w.holds(v, f, seg{src: "p1.Data", off: sc(0), n: w.len("p1.Data")})
			}
			st = nil
		}
		if len(st) > 0 {
			w.only(st, "-")
		}
		if len(calls) != want {
			w.fail("%d packets are passed on, not %d", len(calls), want)
		} else if want == 1 && !w.samePacket(calls[0].args[1], "p1", but) {
			w.fail("the packet passed on is %s", plain(calls[0].args[1].str()))
		}
		return k
	})
	r.rtpPaths(pubName("splitSeqhdr.do"), "split", nil, 4000, 2, []string{"H264", "AAC", "else", "failed"}, func(w *rtpWalk) string {
		k := kind(w, "AAC", "H264")
		if k == "?" {
			w.fail("does not tell the type of the packet")
			return k
		}
		// what is known about the header fields
		same := map[string]int{}
		for _, e := range w.t.events {
			cmp, eq := extern(e, "bytes.Compare"), extern(e, "bytes.Equal")
			if !cmp && !eq || len(e.args) != 2 {
				continue
			}
			a, b := plain(e.args[0].sym), plain(e.args[1].sym)
			if strings.HasPrefix(a, "p1.") {
				a, b = b, a
			}
			f := strings.TrimPrefix(b, "p1.")
			if a != "p0.hdrpkt."+f {
				w.fail("compares %s and %s", a, b)
				return k
			}
			same[f] = -1
			if eq {
				same[f] = w.t.truth(e.res)
			} else if w.is(e.res.lin) {
				same[f] = 1
			} else if w.t.isNeq(e.res.lin) {
				same[f] = 0
			}
		}
		type item struct{ typ, field string }
		var want []item
		hdr := func(typ, field string) {
			switch s, ok := same[field]; {
			case ok && s == 1:
			case ok && s == 0:
				want = append(want, item{typ, field})
			default:
				want = append(want, item{"?", field})
			}
		}
		switch k {
		case "H264":
			hdr("Metadata", "Metadata")
			switch w.flag("p1.IsKeyFrame") {
			case 1:
				hdr("H264DecoderConfig", "VSeqHdr")
			case 0:
			default:
				want = append(want, item{"?", "IsKeyFrame"})
			}
			want = append(want, item{})
		case "AAC":
			hdr("Metadata", "Metadata")
			hdr("AACDecoderConfig", "ASeqHdr")
			want = append(want, item{})
		}
		saved := map[string]bool{}
		i := 0
		for at, e := range w.t.events {
			if e.kind == "store" && strings.HasPrefix(plain(e.name), "p0.hdrpkt.") {
				f := strings.TrimPrefix(plain(e.name), "p0.hdrpkt.")
				if !w.named(e.args[0], "p1."+f) {
					w.fail("remembers something else as %s", f)
				}
				sent := false
				for _, x := range want[:i] {
					sent = sent || x.field == f
				}
				if !sent {
					w.fail("remembers %s before it was sent", f)
				}
				saved[f] = true
				continue
			}
			if e.kind == "store" && strings.HasPrefix(plain(e.name), "p0.") {
				w.fail("changes %s", plain(e.name))
			}
			if e.kind != "call" || len(e.args) != 2 || plain(e.args[0].sym) != "p0.cb" {
				continue
			}
			if i >= len(want) {
				w.fail("sends too much")
				return k
			}
			x := want[i]
			i++
			switch {
			case x.typ == "?":
				w.fail("does not look at %s", x.field)
			case x.typ == "":
				if !w.samePacket(e.args[1], "p1", nil) {
					w.fail("the packet is sent as %s", plain(e.args[1].str()))
				}
			default:
				t, d := e.args[1].fieldOf("Type"), e.args[1].fieldOf("Data")
				if t == nil || d == nil || !t.isInt || !w.is(t.lin.add(sc(-typ[x.typ]), 1)) || !w.named(d, "p1."+x.field) {
					w.fail("%s is not sent as %s", x.field, x.typ)
				}
			}
			switch w.t.nilState(e.res) {
			case 1:
			case 0:
				if len(w.t.ret) != 1 || !w.isErr(0) || w.t.ret[0].sym != e.res.sym {
					w.fail("the error of a packet that could not be sent is lost")
				}
				for _, x := range w.t.events[at+1:] {
					if x.kind == "store" && strings.HasPrefix(plain(x.name), "p0.") || x.kind == "call" {
						w.fail("goes on after an error")
					}
				}
				return "failed"
			default:
				if i < len(want) {
					w.fail("does not look whether %s was sent", x.field)
				} else if len(w.t.ret) != 1 || w.t.ret[0].sym != e.res.sym {
					w.fail("the error of the packet is lost")
				}
			}
		}
		if i < len(want) {
			w.fail("sends %d of %d packets", i, len(want))
			return k
		}
		for _, x := range want {
			if x.field != "" && !saved[x.field] {
				w.fail("does not remember that it sent %s", x.field)
			}
		}
		if len(want) == 0 && !w.isNil(0) {
			w.fail("refuses a packet it does not send")
		}
		return k
	})
}

func sortedKeys2(m map[string]int64) []string {
	var x []string
	for k := range m {
		x = append(x, k)
	}
	sort.Strings(x)
	return x
}

// pubReader: what a subscriber is sent.
func (r *Report) pubReader() {
	load, adv, do := "sync/atomic.LoadPointer", pubName("gopCacheReadCursor.advance"), pubName("splitSeqhdr.do")
	obj := func(v *sval, typ string) string { return "*main." + typ + "(" + v.sym + ")" }
	r.rtpPaths(pubName("stream.addSub"), "subscriber", stopAt(adv, do), 20000, 3, []string{"closed", "write failed"}, func(w *rtpWalk) string {
		t := w.t
		sub, notify := "", ""
		var cursor, lastCursor string // expected: "new", or the one in use
		var sp, lastSp *sval
		used := map[string]bool{}
		var got *sval // result of advance
		idle := false // no packets this turn
		k, end := int64(0), ""
		all := func() {
			if got != nil && !t.implies(sc(k).add(w.len(got.sym), -1)) {
				w.fail("not all packets are sent")
			}
		}
		for i, e := range t.events {
			if end != "" && (e.kind == "select" || e.kind == "call" && (extern(e, load) || calleeName(e) == do || calleeName(e) == adv)) {
				w.fail("goes on after the end")
			}
			switch {
			case extern(e, "(*sync.Map).Store") && plain(e.args[0].sym) == "p0.sub":
				if sub != "" || len(e.args) < 2 || !strings.HasPrefix(e.args[1].sym, "alloc@") {
					w.fail("is registered twice, or as something that is not its own")
				}
				sub = e.args[1].sym
				if n := w.cell(sub + ".notify"); n == nil || !strings.HasPrefix(n.sym, "makechan@") {
					w.fail("has no channel of its own")
				} else {
					notify = n.sym
				}
			case extern(e, load) && len(e.args) == 1 && plain(e.args[0].sym) == "p0.pub":
				if sub == "" {
					w.fail("looks for packets before it is registered: what comes between is not noticed")
				}
				all()
				lastSp, sp = sp, e.res
				got, k, idle = nil, 0, false
				switch {
				case lastSp == nil:
					cursor = "new"
				default:
					a, b := obj(lastSp, "streamPub"), obj(sp, "streamPub")
					switch pubSame(t, a, b) {
					case 1:
					case 0:
						cursor = "new"
					default:
						cursor = "?"
					}
				}
				if t.nilState(&sval{sym: obj(sp, "streamPub")}) == 1 {
					idle = true
				}
			case extern(e, load):
				if sp == nil || len(e.args) != 1 || plain(e.args[0].sym) != obj(sp, "streamPub")+".gc.curst" {
					w.fail("reads from something else")
					return "snapshot"
				}
				got = nil
				idle = t.nilState(&sval{sym: obj(e.res, "gopCacheSnapshot")}) == 1
				lastCursor = obj(e.res, "gopCacheSnapshot")
			case e.kind == "call" && calleeName(e) == adv:
				c := e.args[0].sym
				if plain(e.args[1].sym) != lastCursor || lastCursor == "" {
					w.fail("takes packets from something else")
				}
				switch {
				case cursor == "?":
					w.fail("does not notice a new publisher")
				case cursor == "new" && (used[c] || !strings.HasPrefix(c, "alloc@")):
					w.fail("goes on where it stopped when there is a new publisher")
				case cursor != "new" && c != cursor:
					w.fail("starts again with the same publisher")
				}
				for _, x := range t.events[:i] {
					if cursor == "new" && x.kind == "store" && x.name == c+".lastidx" {
						if n, ok := constOf(x.args[0]); !ok || n != 0 {
							w.fail("does not start at the beginning")
						}
					}
				}
				cursor = c
				used[c] = true
				got, k = e.res, 0
			case e.kind == "call" && calleeName(e) == do:
				el := ""
				if got != nil {
					el = fmt.Sprintf("%s[%d]", got.sym, k)
				}
				if got == nil || !w.samePacket(e.args[1], el, nil) {
					w.fail("packet %d is not the next one", k)
					return "packets"
				}
				k++
				if !w.toWriter(e.args[0].sym, i) {
					return "writer"
				}
				switch t.nilState(e.res) {
				case 0:
					end = "write failed"
				case 1:
				default:
					w.fail("does not look whether the packet was sent")
				}
			case e.kind == "select":
				if got != nil {
					if !w.is(w.len(got.sym)) {
						w.fail("waits though there are packets")
					}
				} else if !idle {
					w.fail("waits without having looked")
				}
				cl, no := -1, -1
				j := 0
				for n, st := range e.in.SelState {
					switch v := plain(e.args[j].sym); {
					case st.Dir != types.RecvOnly:
					case v == "p1":
						cl = n
					case v == notify || v == sub+".notify":
						no = n
					}
					j++
					if st.Send != nil {
						j++
					}
				}
				if cl < 0 || no < 0 || len(e.in.SelState) != 2 || !e.in.Blocking {
					w.fail("does not wait for just the end and for packets")
					return "wait"
				}
				which := t.x.leaf(e.res.sym+".0", tInt).lin
				switch {
				case w.is(which.add(sc(int64(-cl)), 1)):
					end = "closed"
				case w.may(which, int64(cl)):
					w.fail("does not look what it woke up for")
				}
			}
		}
		if end == "" {
			w.fail("ends by itself")
			end = "end"
		}
		if sub == "" || t.end == nil {
			w.fail("is not registered")
			return end
		}
		gone := false
		for _, e := range t.events {
			gone = gone || extern(e, "(*sync.Map).Delete") && plain(e.args[0].sym) == "p0.sub" && e.args[1].sym == sub
		}
		if !gone {
			w.fail("stays registered after the end")
		}
		return end
	})
	// room for a signal that comes while packets are being sent
	if f := r.P.fn(pubPkg, "stream.addSub"); f != nil {
		n := 0
		for _, g := range r.P.AllFuncs {
			if relPkg(fnPkgPath(g)) != pubPkg {
				continue
			}
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					s, ok := in.(*ssa.Store)
					if !ok {
						continue
					}
					fa, ok := s.Addr.(*ssa.FieldAddr)
					if !ok || namedOf(fa.X.Type()) == nil || namedOf(fa.X.Type()).Obj().Name() != "streamSub" {
						continue
					}
					mc, ok := s.Val.(*ssa.MakeChan)
					if !ok {
						continue
					}
					if c, ok := mc.Size.(*ssa.Const); ok && c.Int64() >= 1 {
						n++
					} else {
						r.fail("subscriber|room", r.P.pos(mc.Pos()), "a signal that comes while the subscriber is busy is lost: its channel has no room for it")
					}
				}
			}
		}
		r.need("channels of subscribers with room for a signal", n, 1)
	}
	r.pubSignal()
}

// pubSame: two pointers read are the same; 1, 0 or -1.
func pubSame(t *Trace, a, b string) int {
	class := func(a string) map[string]bool {
		m := map[string]bool{a: true}
		for n := 0; n != len(m); {
			n = len(m)
			for k, v := range t.bools {
				if i := strings.Index(k, "=="); i > 0 && v {
					if x, y := k[:i], k[i+2:]; y != "nil" && (m[x] || m[y]) {
						m[x], m[y] = true, true
					}
				}
			}
		}
		return m
	}
	ca, cb := class(a), class(b)
	if ca[b] {
		return 1
	}
	for x := range ca {
		for y := range cb {
			for _, k := range []string{x + "==" + y, y + "==" + x} {
				if v, ok := t.bools[k]; ok && !v {
					return 0
				}
			}
		}
	}
	x, y := t.nilState(&sval{sym: a}), t.nilState(&sval{sym: b})
	if x >= 0 && y >= 0 {
		if x != y {
			return 0
		}
		if x == 1 {
			return 1
		}
	}
	return -1
}

func b2i(v bool) int {
	if v {
		return 1
	}
	return 0
}

// toWriter: the splitter at root hands its packets to the writer p1 of the
// subscriber, whatever form that takes.
func (w *rtpWalk) toWriter(root string, at int) bool {
	cb := w.cell(root + ".cb")
	if cb == nil {
		w.fail("the packets are sent to nothing known")
		return false
	}
	clo := w.closure(cb.sym)
	if clo == nil || clo.in.Callee == nil {
		w.fail("the packets are sent to %s", cb.sym)
		return false
	}
	f := build(w.c.r.P, clo.in.Callee, &InlineOpt{Quiet: true})
	ts, over := tracesInit(f, 100, nil, 2, false, nil, nil)
	if over || len(ts) == 0 {
		w.fail("what sends the packets cannot be followed")
		return false
	}
	for _, t := range ts {
		var l []sevent
		for _, e := range t.events {
			if e.kind == "call" {
				l = append(l, e)
			}
		}
		x := &rtpWalk{t: t, c: w.c}
		if len(l) != 1 || l[0].in.Method == nil || l[0].in.Method.Name() != "WritePacket" || w.held(*clo, l[0].args[0].sym) != "p2" || !x.samePacket(l[0].args[1], "p0", nil) {
			w.fail("a packet is not written to the subscriber as it is")
			return false
		}
		if len(t.ret) != 1 || t.ret[0].sym != l[0].res.sym {
			w.fail("the error of writing is lost")
			return false
		}
	}
	return true
}

// closure: where a function value was made.
func (w *rtpWalk) closure(name string) *sevent {
	for i, e := range w.t.events {
		if e.kind == "closure" && e.name == name {
			return &w.t.events[i]
		}
	}
	return nil
}

// bound: what a name in the body of a closure is where it was made.
func (w *rtpWalk) bound(clo sevent, name string) string {
	name = plain(name)
	if !strings.HasPrefix(name, "fv:") {
		return name
	}
	rest := ""
	if i := strings.Index(name, "."); i > 0 {
		name, rest = name[:i], name[i:]
	}
	for i, fv := range clo.in.Callee.FreeVars {
		if "fv:"+fv.Name() != name || i >= len(clo.args) {
			continue
		}
		v := plain(clo.args[i].sym)
		if strings.HasPrefix(v, "alloc@") {
			// a variable that is captured: what it holds
			if p, ok := fv.Type().(*types.Pointer); ok {
				if c := w.cell(v); c != nil && !isStruct(p.Elem()) {
					v = plain(c.sym)
				}
			}
		}
		return v + rest
	}
	return name
}

// held: what it holds.
func (w *rtpWalk) held(clo sevent, name string) string {
	v := w.bound(clo, name)
	if strings.Contains(plain(name), ".") {
		if c := w.cell(v); c != nil {
			return plain(c.sym)
		}
	}
	return v
}

func isStruct(t types.Type) bool {
	_, ok := t.Underlying().(*types.Struct)
	return ok
}

// pubSignal: all subscribers are told, and none can hold up the publisher.
func (r *Report) pubSignal() {
	r.rtpPaths(pubName("stream.notifySub"), "signal", nil, 100, 2, []string{"each"}, func(w *rtpWalk) string {
		n := 0
		for _, e := range w.t.events {
			if e.kind != "call" {
				continue
			}
			n++
			if !extern(e, "(*sync.Map).Range") || plain(e.args[0].sym) != "p0.sub" {
				w.fail("does something else than look at each subscriber")
				return "each"
			}
			fn := r.fnValue(w.t, e.args[1].sym)
			if fn == nil {
				w.fail("what is done for each subscriber is not known")
				return "each"
			}
			ts, over := tracesInit(build(r.P, fn, &InlineOpt{Quiet: true}), 100, nil, 2, false, nil, nil)
			if over || len(ts) == 0 {
				w.fail("what is done for each subscriber cannot be followed")
			}
			for _, t := range ts {
				m := 0
				for _, e := range t.events {
					switch e.kind {
					case "select":
						m++
						if e.in.Blocking || len(e.in.SelState) != 1 || e.in.SelState[0].Dir != types.SendOnly || !strings.HasPrefix(plain(e.args[0].sym), "p0.(") || !strings.HasSuffix(plain(e.args[0].sym), ".notify") {
							w.fail("does not leave a signal for the subscriber, or waits for it")
						}
					case "send", "recv", "call", "store":
						w.fail("a subscriber can hold up the others")
					}
				}
				if m != 1 {
					w.fail("a subscriber is not told")
				}
				if len(t.ret) != 1 || t.truth(t.ret[0]) != 1 {
					w.fail("the subscribers after the first are not told")
				}
			}
		}
		if n != 1 {
			w.fail("does not look at each subscriber once")
		}
		return "each"
	})
}

// fnValue finds the function a value stands for.
func (r *Report) fnValue(t *Trace, sym string) *ssa.Function {
	for _, e := range t.events {
		if e.kind == "closure" && e.name == sym {
			return e.in.Callee
		}
	}
	if strings.HasPrefix(sym, "func:") {
		for _, f := range r.P.AllFuncs {
			if "func:"+fnName(f) == sym {
				return f
			}
		}
	}
	return nil
}

// pubWriter: what a publisher does.
func (r *Report) pubWriter() {
	merge := pubName("mergeSeqhdr.do")
	r.rtpPaths(pubName("stream.setPub"), "publisher", stopAt(merge), 4000, 3, []string{"replaced", "read failed"}, func(w *rtpWalk) string {
		t := w.t
		var ctx, cancel string
		swap := -1
		checked, end := false, ""
		var pkt *sval
		for i, e := range t.events {
			if end != "" && (e.kind == "select" || e.kind == "call" && e.in.Method != nil && e.in.Method.Name() == "ReadPacket" || e.kind == "call" && calleeName(e) == merge) {
				w.fail("goes on after the end")
			}
			switch {
			case extern(e, "context.WithCancel"):
				ctx, cancel = e.res.tup[0].sym, e.res.tup[1].sym
			case extern(e, "sync/atomic.SwapPointer") && plain(e.args[0].sym) == "p0.pub":
				if swap >= 0 {
					w.fail("takes the stream twice")
				}
				swap = i
				sn := strings.TrimSuffix(strings.TrimPrefix(e.args[1].sym, "unsafe.Pointer("), ")")
				cc, gc := (*sval)(nil), (*sval)(nil)
				pre := &rtpWalk{t: &Trace{x: t.x, events: t.events[:i]}, c: w.c}
				if strings.HasPrefix(sn, "alloc@") {
					cc, gc = pre.cell(sn+".cancel"), pre.cell(sn+".gc")
				}
				if cc == nil || gc == nil || cc.sym != cancel || cancel == "" || !strings.HasPrefix(gc.sym, "alloc@") {
					w.fail("the new publisher does not have its own cache and end")
					return "publisher"
				}
				for _, x := range t.events {
					if x.kind == "store" && strings.HasPrefix(plain(x.name), gc.sym+".") {
						w.fail("the cache is not empty at first")
					}
				}
				old := "*main.streamPub(" + e.res.sym + ")"
				n := 0
				for _, x := range t.events[i:] {
					if x.kind == "call" && len(x.args) > 0 && plain(x.args[0].sym) == old+".cancel" {
						n++
					}
				}
				switch t.nilState(&sval{sym: old}) {
				case 1:
					if n > 0 {
						w.fail("ends a publisher that is not there")
					}
				case 0:
					if n != 1 {
						w.fail("the publisher before goes on")
					}
				default:
					w.fail("does not look whether there was a publisher")
				}
			case e.kind == "store" && strings.HasPrefix(plain(e.name), "p0."):
				w.fail("changes %s", plain(e.name))
			case e.kind == "select":
				if e.in.Blocking || len(e.in.SelState) != 1 || e.in.SelState[0].Dir != types.RecvOnly || !w.ctxDone(e.args[0].sym, ctx) {
					w.fail("waits for something else than its end")
					return "end"
				}
				checked = true
				which := t.x.leaf(e.res.sym+".0", tInt).lin
				if w.is(which) {
					end = "replaced"
				} else if w.may(which, 0) {
					w.fail("does not look whether it was replaced")
				}
			case e.kind == "call" && e.in.Method != nil && e.in.Method.Name() == "Err" && e.args[0].sym == ctx:
				checked = true
				switch t.nilState(e.res) {
				case 0:
					end = "replaced"
				case 1:
				default:
					w.fail("does not look whether it was replaced")
				}
			case e.kind == "call" && e.in.Method != nil && e.in.Method.Name() == "ReadPacket":
				if e.args[0].sym != "p1" || swap < 0 || !checked || pkt != nil {
					w.fail("reads a packet without having looked whether it was replaced, or before it took the stream, or loses the one before")
				}
				checked = false
				switch t.nilState(errOf(e)) {
				case 0:
					end = "read failed"
				case 1:
					pkt = e.res.tup[0]
				default:
					w.fail("does not look whether the packet was read")
				}
			case e.kind == "call" && calleeName(e) == merge:
				if pkt == nil || !w.samePacket(e.args[1], pkt.sym, nil) {
					w.fail("a packet is used twice")
					return "packet"
				}
				pkt = nil
				if !w.toCache(e.args[0].sym) {
					return "cache"
				}
			}
		}
		if end == "" || swap < 0 || pkt != nil {
			w.fail("ends by itself")
			end = "end"
		}
		ended := false
		for _, e := range t.events {
			ended = ended || e.kind == "call" && len(e.args) > 0 && e.args[0].sym == cancel && cancel != ""
		}
		if !ended {
			w.fail("its context is not released")
		}
		return end
	})
}

func (w *rtpWalk) ctxDone(ch, ctx string) bool {
	for _, e := range w.t.events {
		if e.kind == "call" && e.in.Method != nil && e.in.Method.Name() == "Done" && e.res.sym == ch && e.args[0].sym == ctx {
			return true
		}
	}
	return false
}

// toCache: the merger at root puts its packets in the cache of the publisher
// and only then tells the subscribers of the stream.
func (w *rtpWalk) toCache(root string) bool {
	gc := ""
	for _, e := range w.t.events {
		if extern(e, "sync/atomic.SwapPointer") {
			sn := strings.TrimSuffix(strings.TrimPrefix(e.args[1].sym, "unsafe.Pointer("), ")")
			if v := w.cell(sn + ".gc"); v != nil {
				gc = plain(v.sym)
			}
		}
	}
	cb := w.cell(root + ".cb")
	var clo *sevent
	if cb != nil {
		clo = w.closure(cb.sym)
	}
	if clo == nil || clo.in.Callee == nil {
		w.fail("the packets go nowhere known")
		return false
	}
	put, note := pubName("gopCache.put"), pubName("stream.notifySub")
	o := stopAt(put, note)
	o.Quiet = true
	ts, over := tracesInit(build(w.c.r.P, clo.in.Callee, o), 100, nil, 2, false, nil, nil)
	if over || len(ts) == 0 {
		w.fail("where the packets go cannot be followed")
		return false
	}
	for _, t := range ts {
		x := &rtpWalk{t: t, c: w.c}
		var l []sevent
		for _, e := range t.events {
			if e.kind == "call" {
				l = append(l, e)
			}
		}
		if len(l) != 2 || calleeName(l[0]) != put || calleeName(l[1]) != note {
			w.fail("a packet is not put in the cache before the subscribers are told")
			return false
		}
		if g := w.held(*clo, l[0].args[0].sym); g != gc || gc == "" || !x.samePacket(l[0].args[1], "p0", nil) {
			w.fail("the packet is not put in the publisher's own cache")
			return false
		}
		if w.bound(*clo, l[1].args[0].sym) != "p0" {
			w.fail("the subscribers of another stream are told")
			return false
		}
	}
	return true
}

// pubStreams: a stream exists while somebody uses it.
func (r *Report) pubStreams() {
	locked := func(w *rtpWalk, ss string, what func(e sevent) bool) {
		held, done := false, false
		for _, e := range w.t.events {
			switch {
			case extern(e, "(*sync.RWMutex).Lock"), extern(e, "(*sync.Mutex).Lock"):
				if plain(e.args[0].sym) != ss+".l" || held || done {
					w.fail("takes another lock, or twice")
				}
				held = true
			case extern(e, "(*sync.RWMutex).Unlock"), extern(e, "(*sync.Mutex).Unlock"):
				held, done = false, true
			case what(e) && !held:
				w.fail("uses the streams without the lock")
			}
		}
		if held || !done {
			w.fail("the lock is not released")
		}
	}
	r.rtpPaths(pubName("streams.add"), "stream", nil, 100, 2, []string{"new", "there"}, func(w *rtpWalk) string {
		// variables that closures share are cells: what they hold
		deref := func(s string) string {
			s = plain(s)
			i := strings.Index(s, ".")
			if i < 0 {
				i = len(s)
			}
			if c := w.cell(s[:i]); c != nil && c.fields == nil {
				return plain(c.sym) + s[i:]
			}
			return s
		}
		kind := ""
		var st string
		n := 0
		var look sevent
		for _, e := range w.t.events {
			if e.kind == "lookup" {
				look = e
				n++
			}
		}
		if n != 1 || deref(look.name) != "p0.m" || deref(look.args[0].sym) != "p1" {
			w.fail("does not look the stream up once")
			return "lookup"
		}
		ok := -1
		v := look.res
		if len(v.tup) == 2 {
			ok = w.t.truth(v.tup[1])
			v = v.tup[0]
		} else if s := w.t.nilState(v); s >= 0 {
			ok = 1 - s
		}
		set := 0
		for _, e := range w.t.events {
			if e.kind == "mapset" {
				set++
				if deref(e.name) != "p0.m" || deref(e.args[0].sym) != "p1" {
					w.fail("keeps the stream under another name")
				}
				st = plain(e.args[1].sym)
			}
		}
		switch ok {
		case 1:
			kind, st = "there", plain(v.sym)
			if set != 0 {
				w.fail("replaces a stream that is in use")
			}
		case 0:
			kind = "new"
			if set != 1 || !strings.HasPrefix(st, "alloc@") {
				w.fail("does not keep a new stream")
				return kind
			}
			if x := w.cell(st + ".pub"); x != nil {
				w.fail("the new stream is not empty")
			}
		default:
			w.fail("does not look whether the stream is there")
			return "lookup"
		}
		cnt := w.cell(st + ".n")
		base := sc(0)
		if kind == "there" {
			base = w.t.x.leaf(v.sym+".n", tInt).lin
		}
		if cnt == nil || !cnt.isInt || !w.is(cnt.lin.add(base, -1).add(sc(-1), 1)) {
			w.fail("the user is not counted")
		}
		if len(w.t.ret) != 2 || deref(w.t.ret[0].sym) != st {
			w.fail("another stream is returned")
			return kind
		}
		locked(w, "p0", func(e sevent) bool {
			return e.kind == "lookup" || e.kind == "mapset" || e.kind == "store" && plain(e.name) == st+".n"
		})
		clo := w.closure(w.t.ret[1].sym)
		if clo == nil || clo.in.Callee == nil {
			w.fail("there is no way to leave")
			return kind
		}
		ts, over := tracesInit(build(r.P, clo.in.Callee, &InlineOpt{Quiet: true}), 100, nil, 2, false, nil, nil)
		if over || len(ts) == 0 {
			w.fail("leaving cannot be followed")
		}
		seen := 0
		for _, t := range ts {
			x := &rtpWalk{t: t, c: w.c}
			if t.back || t.end == nil || t.end.Op != OpReturn {
				w.fail("leaving does not end")
				continue
			}
			del := 0
			var left *sval
			for _, e := range t.events {
				switch {
				case e.kind == "store" && w.bound(*clo, e.name) == st+".n":
					if left != nil {
						w.fail("a user leaves twice")
					}
					left = e.args[0]
				case e.kind == "mapset", e.kind == "lookup":
					w.fail("leaving looks at other streams")
				case e.kind == "call" && e.name == "delete" || e.kind == "call" && e.in.Builtin == "delete":
					del++
					if m := w.bound(*clo, e.args[0].sym); m != "p0.m" && m != "p0" || w.bound(*clo, e.args[1].sym) != "p1" {
						w.fail("another stream is removed: %s %s", w.bound(*clo, e.args[0].sym), w.bound(*clo, e.args[1].sym))
					}
				}
			}
			if left == nil || !left.isInt {
				w.fail("a user that leaves is not counted")
				continue
			}
			nn := left.lin.add(sc(1), 1) // what it was
			if len(nn.t) != 1 || nn.c != 0 {
				w.fail("a user that leaves is counted as %s", left.lin)
			}
			for name, k := range nn.t {
				if k != 1 || w.bound(*clo, name) != st+".n" {
					w.fail("a user that leaves is counted as %s", left.lin)
				}
			}
			switch {
			case x.is(left.lin):
				seen |= 1
				if del != 1 {
					w.fail("a stream nobody uses stays")
				}
			case t.isNeq(left.lin):
				seen |= 2
				if del != 0 {
					w.fail("a stream in use is removed")
				}
			default:
				w.fail("does not look whether the stream is still in use")
			}
			nl := &rtpWalk{t: t, c: w.c}
			ss := ""
			for _, e := range t.events {
				if extern(e, "(*sync.RWMutex).Lock") || extern(e, "(*sync.Mutex).Lock") {
					ss = strings.TrimSuffix(plain(e.args[0].sym), ".l")
				}
			}
			if w.bound(*clo, ss) != "p0" {
				w.fail("leaving takes another lock")
			}
			locked(nl, ss, func(e sevent) bool {
				return e.kind == "call" && e.in.Builtin == "delete" || e.kind == "store" && strings.HasSuffix(e.name, ".n")
			})
			if nl.bad != "" && w.bad == "" {
				w.bad = "leaving " + nl.bad
			}
		}
		if seen != 3 {
			w.fail("leaving does not tell the last user from others")
		}
		return kind
	})
}

// pubServe: what the server does with a connection.
func (r *Report) pubServe() {
	add, pub, sub := pubName("streams.add"), pubName("stream.setPub"), pubName("stream.addSub")
	var fn *ssa.Function
	n := 0
	for _, f := range r.P.AllFuncs {
		if relPkg(fnPkgPath(f)) != pubPkg {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil && anchorName(g) == add {
						fn = f
						n++
					}
				}
			}
		}
	}
	if n != 1 {
		r.fail("anchor|serve", "-", "the streams are not used by just one function")
		return
	}
	o := stopAt(add, pub, sub, "format/rtmp:Conn.CloseNotify")
	o.Quiet = true
	f := build(r.P, fn, o)
	got := map[string]int{}
	for _, t := range r.walkInitN(f, 400, 2, nil) {
		if t.back {
			continue
		}
		w := &rtpWalk{t: t, c: chk{r, t, "rtp|serve"}}
		k := ""
		for try := 0; try < 1; try++ {
			a := t.calls(add)
			if len(a) != 1 || len(a[0].res.tup) != 2 || plain(a[0].args[1].sym) != "p0.URL.Path" {
				w.fail("the stream is not that of the connection's path")
				break
			}
			st, leave := a[0].res.tup[0].sym, a[0].res.tup[1].sym
			closed, left := false, 0
			for _, e := range t.events {
				if e.kind != "call" {
					continue
				}
				closed = closed || e.in.Method != nil && e.in.Method.Name() == "Close" && e.args[0].sym == "p1"
				if len(e.args) > 0 && e.in.Callee == nil && e.in.Method == nil && e.args[0].sym == leave {
					left++
				}
			}
			ps, ss := t.calls(pub), t.calls(sub)
			switch w.flag("p0.Publishing") {
			case 1:
				k = "publisher"
				if len(ps) != 1 || len(ss) != 0 || ps[0].args[0].sym != st || ps[0].args[1].sym != "p0" {
					w.fail("a publisher does not publish")
				}
			case 0:
				k = "subscriber"
				cn := t.calls("format/rtmp:Conn.CloseNotify")
				if len(ps) != 0 || len(ss) != 1 || len(cn) != 1 || ss[0].args[0].sym != st || cn[0].args[0].sym != "p0" || ss[0].args[1].sym != cn[0].res.sym || ss[0].args[2].sym != "p0" {
					w.fail("a subscriber does not subscribe")
				}
			default:
				w.fail("does not look whether the connection publishes")
			}
			if !closed {
				w.fail("the connection is not closed")
			}
			if left != 1 {
				w.fail("the stream is left %d times", left)
			}
		}
		if w.bad != "" {
			w.c.bad(k, "%s", w.bad)
			return
		}
		got[k]++
		r.ok("serve: " + k)
	}
	for _, k := range []string{"publisher", "subscriber"} {
		r.need("walks of serve: "+k, got[k], 1)
	}
}

func init() {
	register("C18", "proof", func(r *Report, thorough bool) {
		r.rule("Each function between a publisher and its subscribers is walked along every path with the packets unknown; what it stores, passes on, waits for and leaves to be seen by others is compared with what the property says.")
		r.pubCache()
		r.pubHeaders()
		r.pubReader()
		r.pubWriter()
		r.pubStreams()
		r.pubServe()
	})
}
