package main

import (
	"fmt"
	"go/types"
	"strings"
)

// bit vectors for expected images, most significant part first.
func fld(src string, hi, lo int) []sbit {
	var bs []sbit
	for i := lo; i <= hi; i++ {
		bs = append(bs, sbit{src, i})
	}
	return bs
}

func cbits(v uint64, w int) []sbit {
	bs := make([]sbit, w)
	for i := range bs {
		bs[i].i = int(v >> uint(i) & 1)
	}
	return bs
}

func catBits(parts ...[]sbit) []sbit {
	var bs []sbit
	for i := len(parts) - 1; i >= 0; i-- {
		bs = append(bs, parts[i]...)
	}
	return bs
}

// bytesOf splits a bit vector into bytes, most significant first.
func bytesOf(bs []sbit) (out [][]sbit) {
	for i := len(bs) - 8; i >= 0; i -= 8 {
		out = append(out, bs[i:i+8])
	}
	return
}

func bytesLE(bs []sbit) (out [][]sbit) {
	for i := 0; i+8 <= len(bs); i += 8 {
		out = append(out, bs[i:i+8])
	}
	return
}

// norm replaces bits this path fixes by constants.
func (t *Trace) norm(bs []sbit) []sbit {
	out := make([]sbit, len(bs))
	for i, b := range bs {
		out[i] = b
		if b.s != "" && b.s != "?" {
			if v, ok := t.fix[b]; ok {
				out[i] = sbit{"", v}
			}
		}
	}
	return out
}

func (t *Trace) bitsEq(a, b []sbit) bool {
	a, b = t.norm(a), t.norm(b)
	for i := 0; i < len(a) || i < len(b); i++ {
		var p, q sbit
		if i < len(a) {
			p = a[i]
		}
		if i < len(b) {
			q = b[i]
		}
		if p != q || p.s == "?" {
			return false
		}
	}
	return true
}

// isVal: on this path the named integer equals c / differs from c.
func (t *Trace) isVal(s string, c int64) bool  { return t.isEq(sterm(s).add(sc(-c), 1)) }
func (t *Trace) notVal(s string, c int64) bool { return t.isNeq(sterm(s).add(sc(-c), 1)) }

// field of a struct value by exported name.
func (s *sval) field(t types.Type, name string) *sval {
	st := structOf(t)
	if p, ok := t.Underlying().(*types.Pointer); ok {
		st = structOf(p.Elem())
	}
	if st == nil {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			if s.fields != nil {
				return s.fields[i]
			}
			return nil
		}
	}
	return nil
}

// memIs: the final content of base[off..] is want.
func (t *Trace) memIs(base string, off slin, want [][]sbit) (string, bool) {
	for i, w := range want {
		got := t.byteAt(base, off.add(sc(int64(i)), 1), len(t.mem))
		if !t.bitsEq(got, w) {
			return fmt.Sprintf("byte %d is %s, not %s", i, bitStr(got), bitStr(w)), false
		}
	}
	return "", true
}

// outIs: the output image starting at segment k is want; returns the next k.
func (t *Trace) outIs(k int, want [][]sbit) (string, int, bool) {
	for i, w := range want {
		if k+i >= len(t.out) {
			return fmt.Sprintf("output ends before byte %d", i), k, false
		}
		if t.out[k+i].bits == nil || !t.bitsEq(t.out[k+i].bits, w) {
			return fmt.Sprintf("output byte %d is %s, not %s", k+i, t.out[k+i], bitStr(w)), k, false
		}
	}
	return "", k + len(want), true
}

type chk struct {
	r   *Report
	t   *Trace
	key string
}

func (c chk) bad(what, f string, a ...interface{}) {
	c.r.bad(c.key+"|"+what, c.t.pos2(), strings.TrimPrefix(c.key, "wire|")+": "+fmt.Sprintf(f, a...), c.t.path()...)
}

func (c chk) eq(what string, got *sval, want []sbit) {
	if got == nil || !got.isInt || !c.t.bitsEq(got.bits, want) {
		c.bad(what, "%s is %s, not %s", what, got.valBits(), bitStr(want))
	} else {
		c.r.ok(c.key + " " + what + " = " + bitStr(want))
	}
}

var flvWidth = map[string]int{
	"SoundFormat": 4, "SoundRate": 2, "SoundSize": 1, "SoundType": 1, "FrameType": 4, "VideoFormat": 4,
}

func widths(prefix string) map[string]int {
	m := map[string]int{}
	for k, v := range flvWidth {
		m[prefix+k] = v
	}
	return m
}

// mediaHeader is the media specific part of a tag for the type a path has
// established; ok is false when the path does not decide the layout.
func (t *Trace) mediaHeader(p string) (want [][]sbit, kind string, ok bool) {
	switch {
	case t.isVal(p+"Type", 8):
		want = append(want, catBits(fld(p+"SoundFormat", 3, 0), fld(p+"SoundRate", 1, 0), fld(p+"SoundSize", 0, 0), fld(p+"SoundType", 0, 0)))
		if t.isVal(p+"SoundFormat", 10) {
			return append(want, fld(p+"AACPacketType", 7, 0)), "aac", true
		}
		return want, "audio", t.notVal(p+"SoundFormat", 10)
	case t.isVal(p+"Type", 9):
		want = append(want, catBits(fld(p+"FrameType", 3, 0), fld(p+"VideoFormat", 3, 0)))
		if t.isVal(p+"VideoFormat", 7) || t.isVal(p+"VideoFormat", 12) {
			want = append(want, fld(p+"AVCPacketType", 7, 0))
			return append(want, bytesOf(fld(p+"CTime", 23, 0))...), "avc", true
		}
		return want, "video", t.notVal(p+"VideoFormat", 7) && t.notVal(p+"VideoFormat", 12)
	}
	return nil, "data", t.notVal(p+"Type", 8) && t.notVal(p+"Type", 9)
}

func init() {
	register("C09", "proof", func(r *Report, thorough bool) {
		r.rule("The FLV tag, media and file headers are walked path by path in both directions; the provenance of every bit written and of every field parsed is compared with the FLV tables (big-endian 24-bit sizes and timestamps with the high timestamp byte last, 4/2/1/1 audio flags, 4/4 video flags, signed 24-bit composition time, size trailer), and the bytes a reader takes from the stream with the bytes a writer puts there.")
		pk := "format/flv/flvio:"
		kinds := map[string]int{}
		// media header, writing
		for _, t := range r.traceSet(pk+"Tag.FillHeader", widths("p0."), nil) {
			c := chk{r, t, "wire|Tag.FillHeader"}
			want, kind, ok := t.mediaHeader("p0.")
			if !ok {
				c.bad("case", "a path does not distinguish the tag kinds")
				continue
			}
			n := t.ret[0]
			if !n.lin.eq(sc(int64(len(want)))) {
				c.bad("length", "%s header takes %s bytes, not %d", kind, n.str(), len(want))
				continue
			}
			if t.bools["p1==nil"] {
				r.ok("")
				continue
			}
			if msg, ok := t.memIs("p1", sc(0), want); !ok {
				c.bad("value", "%s header: %s", kind, msg)
				continue
			}
			kinds["w:"+kind]++
			r.ok("write " + kind)
		}
		// media header, parsing
		for _, name := range []string{"Tag.ParseHeader", "Tag.Parse"} {
			whole := name == "Tag.Parse"
			ei := 1
			if whole {
				ei = 0
			}
			for _, t := range r.traceSet(pk+name, nil, nil) {
				c := chk{r, t, "wire|" + name}
				sf, vf := "(p1[0]{7:4})", "(p1[0]{3:0})"
				var n int64
				kind := ""
				switch {
				case t.isVal("p0.Type", 8):
					n, kind = 1, "audio"
					if t.isVal(sf, 10) {
						n, kind = 2, "aac"
					}
				case t.isVal("p0.Type", 9):
					n, kind = 1, "video"
					if t.isVal(vf, 7) || t.isVal(vf, 12) {
						n, kind = 5, "avc"
					}
				case t.notVal("p0.Type", 8) && t.notVal("p0.Type", 9):
					kind = "data"
				default:
					c.bad("case", "a path does not distinguish the tag kinds")
					continue
				}
				room := sterm("len(p1)").add(sc(-n), 1)
				if t.bools["p1==nil"] {
					room = sc(-n)
				}
				if t.failure(ei) {
					if !t.implies(room.mul(-1).add(sc(-1), 1)) {
						c.bad("reject", "a complete %s header is rejected", kind)
					} else {
						r.ok("")
					}
					continue
				}
				if !t.success(ei) {
					c.bad("result", "a path ends in neither success nor failure")
					continue
				}
				if n > 0 && t.bools["p1==nil"] {
					r.ok("")
					continue
				}
				if !t.implies(room) {
					c.bad("guard", "a truncated %s header is accepted", kind)
					continue
				}
				kinds["r:"+kind]++
				switch kind {
				case "audio", "aac":
					c.eq("SoundFormat", t.final("p0.SoundFormat"), fld("p1[0]", 7, 4))
					c.eq("SoundRate", t.final("p0.SoundRate"), fld("p1[0]", 3, 2))
					c.eq("SoundSize", t.final("p0.SoundSize"), fld("p1[0]", 1, 1))
					c.eq("SoundType", t.final("p0.SoundType"), fld("p1[0]", 0, 0))
					if kind == "aac" {
						c.eq("AACPacketType", t.final("p0.AACPacketType"), fld("p1[1]", 7, 0))
					}
				case "video", "avc":
					c.eq("FrameType", t.final("p0.FrameType"), fld("p1[0]", 7, 4))
					c.eq("VideoFormat", t.final("p0.VideoFormat"), fld("p1[0]", 3, 0))
					if kind == "avc" {
						c.eq("AVCPacketType", t.final("p0.AVCPacketType"), fld("p1[1]", 7, 0))
						ct := catBits(fld("p1[2]", 7, 0), fld("p1[3]", 7, 0), fld("p1[4]", 7, 0))
						for len(ct) < 32 {
							ct = append(ct, ct[23])
						}
						c.eq("CTime", t.final("p0.CTime"), ct)
					}
				}
				if !whole {
					if !t.ret[0].lin.eq(sc(n)) {
						c.bad("length", "%s header of %d bytes is said to take %s", kind, n, t.ret[0].str())
					}
				} else if d := t.final("p0.Data"); d == nil || d.base != "p1" || !d.off.eq(sc(n)) || !d.length.eq(sterm("len(p1)").add(sc(-n), 1)) {
					c.bad("data", "the payload of a %s tag is %s, not the bytes after its %d byte header", kind, d.str(), n)
				} else {
					r.ok("parse " + kind)
				}
			}
		}
		// tag header
		for _, t := range r.traceSet(pk+"FillTagHeader", nil, nil) {
			c := chk{r, t, "wire|FillTagHeader"}
			want := append([][]sbit{fld("p1.Type", 7, 0)}, bytesOf(fld("p2", 23, 0))...)
			want = append(want, bytesOf(fld("p1.Time", 23, 0))...)
			want = append(want, fld("p1.Time", 31, 24))
			want = append(want, bytesOf(fld("p1.StreamId", 23, 0))...)
			if msg, ok := t.memIs("p0", sc(0), want); !ok {
				c.bad("value", "%s", msg)
			} else {
				r.ok("FillTagHeader writes type, size, time, time high byte, stream id")
			}
		}
		for _, t := range r.traceSet(pk+"ParseTagHeader", nil, nil) {
			c := chk{r, t, "wire|ParseTagHeader"}
			if !t.success(2) {
				continue
			}
			tt := t.x.f.Root.Signature.Results().At(0).Type()
			c.eq("Type", t.ret[0].field(tt, "Type"), fld("p0[0]", 7, 0))
			c.eq("size", t.ret[1], catBits(fld("p0[1]", 7, 0), fld("p0[2]", 7, 0), fld("p0[3]", 7, 0)))
			c.eq("Time", t.ret[0].field(tt, "Time"), catBits(fld("p0[7]", 7, 0), fld("p0[4]", 7, 0), fld("p0[5]", 7, 0), fld("p0[6]", 7, 0)))
			c.eq("StreamId", t.ret[0].field(tt, "StreamId"), catBits(fld("p0[8]", 7, 0), fld("p0[9]", 7, 0), fld("p0[10]", 7, 0)))
		}
		for _, t := range r.traceSet(pk+"FillTagTrailer", nil, nil) {
			c := chk{r, t, "wire|FillTagTrailer"}
			if msg, ok := t.memIs("p0", sc(0), bytesOf(fld("p1+11", 31, 0))); !ok {
				c.bad("value", "%s", msg)
			} else {
				r.ok("trailer is the tag size plus its header")
			}
		}
		// file header
		for _, t := range r.traceSet(pk+"FillFileHeader", nil, nil) {
			c := chk{r, t, "wire|FillFileHeader"}
			want := append(bytesOf(cbits(0x464c5601, 32)), fld("p1", 7, 0))
			want = append(want, bytesOf(cbits(9, 32))...)
			want = append(want, bytesOf(cbits(0, 32))...)
			if msg, ok := t.memIs("p0", sc(0), want); !ok {
				c.bad("value", "%s", msg)
			} else {
				r.ok("file header")
			}
		}
		for _, t := range r.traceSet(pk+"ParseFileHeader", nil, nil) {
			c := chk{r, t, "wire|ParseFileHeader"}
			size := sterm("(p0[5]{7:0}|p0[6]{7:0}|p0[7]{7:0}|p0[8]{7:0})")
			if t.success(2) {
				sig := true
				for i, b := range []int64{'F', 'L', 'V'} {
					if _, ok := t.fix[sbit{fmt.Sprintf("p0[%d]", i), 0}]; !ok || !t.bitsEq(fld(fmt.Sprintf("p0[%d]", i), 7, 0), cbits(uint64(b), 8)) {
						sig = false
					}
				}
				r.check(sig, "wire|ParseFileHeader|sig", t.pos2(), "ParseFileHeader: a file without the FLV signature is accepted")
				c.eq("flags", t.ret[0], fld("p0[4]", 7, 0))
				if !t.ret[1].lin.eq(size.add(sc(-9), 1)) {
					c.bad("skip", "skips %s bytes, not the header size minus 9", t.ret[1].str())
				} else if !t.implies(t.ret[1].lin) {
					c.bad("skip", "a header size below 9 is accepted")
				} else {
					r.ok("")
				}
			}
		}
		// whole tags on a stream
		nw := 0
		for _, t := range r.traceSet(pk+"WriteTag", widths("p1."), nil) {
			c := chk{r, t, "wire|WriteTag"}
			mh, kind, ok := t.mediaHeader("p1.")
			room := sc(0xffffff).add(sterm("len(p1.Data)").add(sc(int64(len(mh))), 1), -1)
			if t.failure(0) && len(t.out) == 0 && ok && !t.wroteErr() {
				r.check(t.implies(room.mul(-1).add(sc(-1), 1)), "wire|WriteTag|refused", t.pos2(), "WriteTag: a tag that fits is refused")
			}
			if !t.success(0) {
				continue
			}
			if ok && !t.implies(room) {
				c.bad("toobig", "a %s tag whose size does not fit the 24-bit field is written", kind)
				continue
			}
			if !ok {
				c.bad("case", "a path does not distinguish the tag kinds")
				continue
			}
			if strings.Contains(strings.Join(t.path(), ";"), "==nil is true") && t.nilBuf("p2") {
				continue
			}
			n := sterm("len(p1.Data)").add(sc(int64(len(mh))), 1)
			size := n.String()
			want := append([][]sbit{fld("p1.Type", 7, 0)}, bytesOf(fld(size, 23, 0))...)
			want = append(want, bytesOf(fld("p1.Time", 23, 0))...)
			want = append(want, fld("p1.Time", 31, 24))
			want = append(want, bytesOf(fld("p1.StreamId", 23, 0))...)
			want = append(want, mh...)
			msg, k, ok := t.outIs(0, want)
			if !ok {
				c.bad("header", "%s tag: %s", kind, msg)
				continue
			}
			if k >= len(t.out) || t.out[k].blob != "p1.Data[0]" || !t.out[k].n.eq(sterm("len(p1.Data)")) {
				c.bad("data", "%s tag: the header is not followed by the tag's data", kind)
				continue
			}
			msg, k, ok = t.outIs(k+1, bytesOf(fld(n.add(sc(11), 1).String(), 31, 0)))
			if !ok || k != len(t.out) {
				c.bad("trailer", "%s tag: the data is not followed by exactly the size trailer: %s", kind, msg)
				continue
			}
			nw++
			r.ok("WriteTag " + kind + " tag image")
		}
		nr := 0
		for _, t := range r.traceSet(pk+"ReadTag", nil, nil) {
			if !t.success(1) {
				continue
			}
			c := chk{r, t, "wire|ReadTag"}
			var reads []sevent
			for _, e := range t.events {
				if e.kind == "read" {
					reads = append(reads, e)
				}
			}
			total := t.pos
			size := "(in[1]{7:0}|in[2]{7:0}|in[3]{7:0})"
			if len(reads) != 3 {
				c.bad("reads", "takes %d pieces from the stream, not header, data and trailer", len(reads))
				continue
			}
			data := reads[1].args[0]
			if !reads[0].args[0].length.eq(sc(11)) || !total.eq(sc(15).add(data.length, 1)) {
				c.bad("reads", "takes %s bytes from the stream, not 11 + size + 4", total)
				continue
			}
			// the data buffer is what malloc(size) returned
			okm := false
			for _, e := range t.events {
				if e.kind == "call" && e.res != nil && len(e.res.tup) == 2 && e.res.tup[0].sym == data.sym && len(e.args) == 2 && e.args[1].sym == size {
					okm = true
				}
			}
			if !okm && !data.length.eq(sterm(size)) {
				c.bad("size", "the data buffer is not sized by the header's size field")
				continue
			}
			tt := t.x.f.Root.Signature.Results().At(0).Type()
			c.eq("Type", t.ret[0].field(tt, "Type"), fld("in[0]", 7, 0))
			c.eq("Time", t.ret[0].field(tt, "Time"), catBits(fld("in[7]", 7, 0), fld("in[4]", 7, 0), fld("in[5]", 7, 0), fld("in[6]", 7, 0)))
			d := t.ret[0].field(tt, "Data")
			n := int64(0)
			switch {
			case t.isVal("in[0]", 8):
				n = 1
				if t.isVal("(in[11]{7:4})", 10) {
					n = 2
				}
			case t.isVal("in[0]", 9):
				n = 1
				if t.isVal("(in[11]{3:0})", 7) || t.isVal("(in[11]{3:0})", 12) {
					n = 5
				}
			}
			if d == nil || d.base != data.base || !d.off.eq(sc(n)) {
				c.bad("data", "the payload is %s, not the bytes after the media header", d.str())
				continue
			}
			nr++
			r.ok("ReadTag")
		}
		for _, k := range []string{"w:audio", "w:aac", "w:video", "w:avc", "r:audio", "r:aac", "r:video", "r:avc", "r:data"} {
			r.need("paths "+k, kinds[k], 1)
		}
		r.need("whole tags written", nw, 4)
		r.need("whole tags read", nr, 4)
	})
}

// nilBuf: this path assumes a slice of base is nil.
func (t *Trace) nilBuf(base string) bool {
	for k, v := range t.bools {
		if v && strings.HasSuffix(k, "==nil") && (strings.HasPrefix(k, base+"[") || k == base+"==nil") {
			return true
		}
	}
	return false
}
