package main

import (
	"fmt"
	"strings"
)

// C20: media packets and FLV tags.

// the only mapping there is: packet type, tag type, codec, packet kind.
type avRow struct {
	name      string
	pkt       int64
	tag       int64
	codec     string // tag field holding the codec
	codecID   int64
	kindField string
	kind      int64
	seqhdr    bool
}

var avRows = []avRow{
	{"H.264 frame", 1, 9, "VideoFormat", 7, "AVCPacketType", 1, false},
	{"AAC frame", 2, 8, "SoundFormat", 10, "AACPacketType", 1, false},
	{"H.264 configuration", 3, 9, "VideoFormat", 7, "AVCPacketType", 0, true},
	{"AAC configuration", 5, 8, "SoundFormat", 10, "AACPacketType", 0, true},
}

const avMeta = 6

func init() {
	register("C20", "proof", func(r *Report, thorough bool) {
		r.rule("The packet writer and reader shared by FLV files and RTMP are walked path by path with the tag writer and reader they are given as unknowns; on every path the tag handed over, respectively the packet returned, is compared field by field with the mapping table, and every path that drops a tag is required to exclude all mapped kinds.")
		fv := "format/flv/flvio:"
		opt := stopAt(fv+"ParseAMFVals", fv+"FillAMF0Vals")
		done := map[string]int{}
		for _, t := range r.traceSet("format/flv:WritePacket", nil, opt) {
			c := chk{r, t, "av|WritePacket"}
			if t.end == nil {
				c.bad("loop", "a path does not end")
				continue
			}
			calls := t.calls("p1")
			row, kind := avRow{}, "other"
			for _, x := range avRows {
				if t.isVal("p0.Type", x.pkt) {
					row, kind = x, x.name
				}
			}
			if t.isVal("p0.Type", avMeta) {
				kind = "metadata"
			}
			if kind == "other" {
				ok := t.notVal("p0.Type", avMeta)
				for _, x := range avRows {
					ok = ok && t.notVal("p0.Type", x.pkt)
				}
				if !ok {
					c.bad("dropped", "a packet of a mapped type is not written on some path")
				} else if len(calls) > 0 {
					c.bad("extra", "a packet of an unknown type is written as a tag")
				} else {
					r.ok("")
				}
				continue
			}
			pm := t.calls(fv + "ParseAMFVals")
			if kind == "metadata" && len(pm) == 1 && pm[0].res != nil && len(pm[0].res.tup) == 2 && t.nilState(pm[0].res.tup[1]) == 0 {
				r.check(len(calls) == 0, "av|WritePacket|badmeta", t.pos2(), "WritePacket: metadata that does not parse is written")
				continue
			}
			if len(calls) != 1 || len(calls[0].args) != 2 || calls[0].args[1].fields == nil {
				c.bad("count", "%s packet makes %d tags, not one", kind, len(calls))
				continue
			}
			if len(t.ret) < 1 || calls[0].res == nil || t.ret[0].sym != calls[0].res.sym && !(t.nilState(t.ret[0]) == 1 && t.nilState(calls[0].res) == 1) {
				c.bad("error", "%s: the tag writer's error is not returned", kind)
				continue
			}
			tag := calls[0].args[1]
			ty := calls[0].in.Args[1].Typ
			f := func(n string) *sval { return tag.field(ty, n) }
			c.eq("Time", f("Time"), fld("(p0.Time / 1000000)", 31, 0))
			if kind == "metadata" {
				c.eq("Type", f("Type"), cbits(18, 8))
				want := `["onMetaData", `
				if t.bools["p2"] {
					want = `["@setDataFrame", "onMetaData", `
				} else if v, ok := t.bools["p2"]; !ok || v {
					c.bad("publishing", "metadata is written the same way whether publishing or not")
					continue
				}
				if len(pm) != 1 || pm[0].args[0].sym != "p0.Data" || t.truth(pm[0].args[1]) != 0 {
					c.bad("meta", "metadata is not decoded as AMF0 from the packet")
					continue
				}
				want += pm[0].res.tup[0].sym + "...]"
				if l, ok := t.amfData(f("Data")); !ok || itemStr(l) != want {
					c.bad("meta", "metadata tag carries %s, not %s", itemStr(l), want)
					continue
				}
				done["w:metadata"]++
				r.ok("metadata packet")
				continue
			}
			c.eq("Type", f("Type"), cbits(uint64(row.tag), 8))
			c.eq(row.codec, f(row.codec), cbits(uint64(row.codecID), 8))
			c.eq(row.kindField, f(row.kindField), cbits(uint64(row.kind), 8))
			if row.tag == 9 {
				key := uint64(2)
				if row.seqhdr {
					key = 1
				} else if v, ok := t.bools["p0.IsKeyFrame"]; ok && v {
					key = 1
				} else if !ok {
					c.bad("key", "frames are written the same way whether key frames or not")
					continue
				}
				c.eq("FrameType", f("FrameType"), cbits(key, 8))
				if !row.seqhdr {
					c.eq("CTime", f("CTime"), fld("(p0.CTime / 1000000)", 31, 0))
				} else {
					c.eq("CTime", f("CTime"), cbits(0, 32))
				}
			}
			if d := f("Data"); d == nil || d.sym != "p0.Data" {
				c.bad("data", "%s tag carries %s, not the packet's data", kind, d.str())
				continue
			}
			done["w:"+kind]++
			r.ok(kind + " packet")
		}

		for _, t := range r.traceSet("format/flv:ReadPacket", nil, opt) {
			c := chk{r, t, "av|ReadPacket"}
			var rd []sevent
			for _, e := range t.calls("p0") {
				rd = append(rd, e)
			}
			if len(rd) != 1 || rd[0].res == nil || len(rd[0].res.tup) != 2 {
				c.bad("reads", "a turn of the loop reads %d tags, not one", len(rd))
				continue
			}
			tag, rerr := rd[0].res.tup[0].sym, rd[0].res.tup[1]
			fl := func(n string) string { return tag + "." + n }
			if t.nilState(rerr) == 0 {
				if t.back || len(t.ret) != 2 || t.ret[1].sym != rerr.sym {
					c.bad("error", "the tag reader's error is not returned")
				} else {
					r.ok("reader error returned")
				}
				continue
			}
			if t.nilState(rerr) != 1 {
				c.bad("error", "a tag is used without checking the reader's error")
				continue
			}
			row, kind := avRow{}, ""
			for _, x := range avRows {
				if t.isVal(fl("Type"), x.tag) && t.isVal(fl(x.codec), x.codecID) && t.isVal(fl(x.kindField), x.kind) {
					row, kind = x, x.name
				}
			}
			amf3 := t.isVal(fl("Type"), 15)
			if amf3 || t.isVal(fl("Type"), 18) {
				kind = "metadata"
			}
			var ml *sval // the values after the marker strings
			metaOK := false
			if kind == "metadata" {
				pm := t.calls(fv + "ParseAMFVals")
				if len(pm) != 1 || pm[0].args[0].sym != fl("Data") || (t.truth(pm[0].args[1]) == 1) != amf3 || t.truth(pm[0].args[1]) < 0 || pm[0].res == nil {
					c.bad("meta", "a metadata tag is not decoded with its own AMF version")
					continue
				}
				ml = pm[0].res.tup[0]
				set := t.bools[`"@setDataFrame"==`+ml.sym+"[0].(string)"]
				k := int64(0)
				if set {
					k = 1
				}
				n := sterm("len(" + ml.sym + ")")
				metaOK = t.nilState(pm[0].res.tup[1]) == 1 && t.bools[fmt.Sprintf(`"onMetaData"==%s[%d].(string)`, ml.sym, k)]
				if !t.back {
					if !metaOK {
						c.bad("meta", "a data tag that is not onMetaData is returned as metadata")
						continue
					}
					want := fmt.Sprintf("%s[%d:+%s]", ml.sym, k+1, n.add(sc(-k-1), 1))
					pkt := t.ret[0].field(t.x.f.Root.Signature.Results().At(0).Type(), "Data")
					l, ok := t.amfData(pkt)
					got := itemStr(l)
					empty := t.isEq(n.add(sc(-k-1), 1))
					if empty && (got == "["+want+"...]" || len(l) == 0) {
						c.bad("meta", "metadata without an object yields an empty packet")
						continue
					}
					if !ok || !empty && got != "["+want+"...]" || empty && !strings.Contains(got, "alloc@") {
						c.bad("meta", "metadata packet carries %s, not %s", got, want)
						continue
					}
				}
			}
			if t.back {
				ok := kind == ""
				if kind == "metadata" {
					ok = !metaOK
				} else if ok {
					for _, x := range avRows {
						ok = ok && (t.notVal(fl("Type"), x.tag) || t.notVal(fl(x.codec), x.codecID) || t.notVal(fl(x.kindField), x.kind))
					}
					ok = ok && t.notVal(fl("Type"), 18) && t.notVal(fl("Type"), 15)
				}
				if !ok {
					c.bad("dropped", "a %s tag is dropped", kind)
				} else {
					r.ok("")
				}
				continue
			}
			if kind == "" || !t.retNil(1, rerr) || t.ret[0].fields == nil {
				c.bad("extra", "a tag of another kind is returned as a packet, or a path returns no packet")
				continue
			}
			ty := t.x.f.Root.Signature.Results().At(0).Type()
			f := func(n string) *sval { return t.ret[0].field(ty, n) }
			want := int64(avMeta)
			if kind != "metadata" {
				want = row.pkt
				if d := f("Data"); d == nil || d.sym != fl("Data") {
					c.bad("data", "%s packet carries %s, not the tag's data", kind, d.str())
					continue
				}
			}
			c.eq("Type", f("Type"), cbits(uint64(want), 64))
			if tm := f("Time"); tm == nil || !tm.lin.eq(sterm(fl("Time")).mul(1000000)) {
				c.bad("Time", "%s packet time is %s", kind, tm.str())
			}
			ct := f("CTime")
			key := f("IsKeyFrame")
			if row.pkt == 1 {
				if ct == nil || !ct.lin.eq(sterm(fl("CTime")).mul(1000000)) {
					c.bad("CTime", "%s packet composition time is %s", kind, ct.str())
				}
				isKey := key != nil && (key.boolC != nil && key.boolC.op.String() == "==" && !key.boolC.neg && t.eqBool(key, sterm(fl("FrameType")).add(sc(-1), 1)))
				if key != nil && (key.sym == "true" || key.sym == "false") {
					isKey = key.sym == "true" && t.isVal(fl("FrameType"), 1) || key.sym == "false" && t.notVal(fl("FrameType"), 1)
				}
				r.check(isKey, "av|ReadPacket|key", t.pos2(), "ReadPacket: the key frame flag is "+key.str()+", not FrameType == key")
			} else {
				if ct == nil || !ct.lin.eq(sc(0)) || key == nil || key.sym != "false" {
					c.bad("extra", "%s packet has a composition time or key frame flag", kind)
				}
			}
			done["r:"+kind]++
			r.ok(kind + " tag")
		}
		for _, x := range avRows {
			r.need("write paths of "+x.name, done["w:"+x.name], 1)
			r.need("read paths of "+x.name, done["r:"+x.name], 1)
		}
		r.need("write paths of metadata", done["w:metadata"], 2)
		r.need("read paths of metadata", done["r:metadata"], 4)
		// the shared functions are what both protocols use
		for _, w := range []struct{ fn, callee string }{
			{"format/flv:Muxer.WritePacket", "format/flv:WritePacket"}, {"format/flv:Demuxer.ReadPacket", "format/flv:ReadPacket"},
			{"format/rtmp:Conn.WritePacket", "format/flv:WritePacket"}, {"format/rtmp:Conn.ReadPacket", "format/flv:ReadPacket"},
		} {
			k := strings.LastIndex(w.fn, ":")
			f := r.P.fn(w.fn[:k], w.fn[k+1:])
			r.check(f != nil && r.P.reachesFn(f, w.callee), "av|shared|"+w.fn, "-", w.fn+" does not go through "+w.callee)
		}
	})
}

// retNil: result k is nil, or the error rerr which is nil on this path.
func (t *Trace) retNil(k int, rerr *sval) bool {
	return k < len(t.ret) && (t.nilState(t.ret[k]) == 1 || t.ret[k].sym == rerr.sym && t.nilState(rerr) == 1)
}

// eqBool: the condition v is l == 0.
func (t *Trace) eqBool(v *sval, l slin) bool {
	return v.boolC.lin.eq(l) || v.boolC.lin.eq(l.mul(-1))
}

// amfData: the AMF0 values a byte slice was filled with on this path.
func (t *Trace) amfData(d *sval) ([]litem, bool) {
	if d == nil {
		return nil, false
	}
	var n *sval
	for _, e := range t.calls("format/flv/flvio:FillAMF0Vals") {
		if len(e.args) != 2 || e.res == nil {
			return nil, false
		}
		l := e.args[1].list
		if l == nil {
			l = []litem{{spread: e.args[1]}}
		}
		if e.args[0].isNil {
			n = e.res
			continue
		}
		if d.base == e.args[0].base && d.off.eq(e.args[0].off) && n != nil && d.length.eq(n.lin) {
			return l, true
		}
	}
	return nil, false
}
