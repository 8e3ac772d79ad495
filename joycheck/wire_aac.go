package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
)

// C23: AAC configurations and ADTS headers.

var aacRates = []int64{96000, 88200, 64000, 48000, 44100, 32000, 24000, 22050, 16000, 12000, 11025, 8000, 7350}

var aacChans = [][]string{
	{},
	{"FRONT_CENTER"},
	{"FRONT_LEFT", "FRONT_RIGHT"},
	{"FRONT_CENTER", "FRONT_LEFT", "FRONT_RIGHT"},
	{"FRONT_CENTER", "FRONT_LEFT", "FRONT_RIGHT", "BACK_CENTER"},
	{"FRONT_CENTER", "FRONT_LEFT", "FRONT_RIGHT", "BACK_LEFT", "BACK_RIGHT"},
	{"FRONT_CENTER", "FRONT_LEFT", "FRONT_RIGHT", "BACK_LEFT", "BACK_RIGHT", "LOW_FREQ"},
	{"FRONT_CENTER", "FRONT_LEFT", "FRONT_RIGHT", "SIDE_LEFT", "SIDE_RIGHT", "BACK_LEFT", "BACK_RIGHT", "LOW_FREQ"},
}

// pkgConst is the value of an integer constant of the module.
func (p *Prog) pkgConst(path, name string) (int64, bool) {
	pkg := p.Pkgs[path]
	if pkg == nil {
		return 0, false
	}
	c, ok := pkg.Pkg.Scope().Lookup(name).(*types.Const)
	if !ok {
		return 0, false
	}
	return constant.Int64Val(constant.ToInt(c.Val()))
}

// layouts lists the layouts of the channel configurations.
func (r *Report) layouts() []int64 {
	var out []int64
	seen := int64(0)
	for _, names := range aacChans {
		l := int64(0)
		for _, n := range names {
			v, ok := r.P.pkgConst("codec/aac", "CH_"+n)
			if !ok || v == 0 || v&(v-1) != 0 || l&v != 0 {
				r.fail("aac|layout|"+n, "codec/aac", "CH_"+n+" is not a bit of its own")
				return nil
			}
			l |= v
		}
		seen |= l
		out = append(out, l)
	}
	return out
}

func ci(v int64) []sbit { return cbits(uint64(v), 64) }

// intIs: v is the constant c.
func (t *Trace) intIs(v *sval, c int64) bool {
	return v != nil && v.isInt && (v.lin.konst() && v.lin.c == c || t.bitsEq(v.bits, cbits(uint64(c), len(v.bits))))
}

func (t *Trace) linIs(v *sval, l slin) bool {
	return v != nil && v.isInt && t.isEq(v.lin.add(l, -1))
}

func (r *Report) adtsParse(lay []int64) {
	f := r.buildFor("codec/aac:ParseADTSHeader", nil)
	if f == nil {
		return
	}
	n := 0
	try := func(b0, b1 int64, idx, cc int) bool {
		in := map[string][]sbit{
			"p0[0]": cbits(uint64(b0), 8), "p0[1]": cbits(uint64(b1), 8),
			"p0[2]": catBits(fld("profile", 1, 0), cbits(uint64(idx), 4), fld("private", 0, 0), cbits(uint64(cc>>2), 1)),
			"p0[3]": catBits(cbits(uint64(cc&3), 2), fld("p0[3]", 5, 0)),
		}
		good := b0 == 0xff && b1&0xf6 == 0xf0 && cc != 0 && idx < len(aacRates)
		done := 0
		hl := int64(9)
		if b1&1 == 1 {
			hl = 7
		}
		for _, t := range r.walkInit(f, 4, in) {
			c := chk{r, t, "aac|ParseADTSHeader"}
			if t.end == nil || t.okRes(4) < 0 {
				c.bad("end", "a path does not end in a plain result")
				return false
			}
			flen := t.x.fromBits(padBits(catBits(fld("p0[3]", 1, 0), fld("p0[4]", 7, 0), fld("p0[5]", 7, 5)), 64), types.Typ[types.Int])
			short := t.implies(sc(6).add(sterm("len(p0)"), -1))
			trunc := t.implies(sc(hl-1).add(flen.lin, -1))
			if t.okRes(4) == 0 {
				if good && !short && !trunc {
					c.bad("refused", "a valid header %02x %02x, rate %d, channels %d is refused", b0, b1, idx, cc)
					return false
				}
				continue
			}
			if !good {
				c.bad("accepted", "a header %02x %02x, rate %d, channels %d is accepted", b0, b1, idx, cc)
				return false
			}
			if !t.implies(sterm("len(p0)").add(sc(-7), 1)) || !t.implies(flen.lin.add(sc(-hl), 1)) {
				c.bad("short", "a header or frame that is too short is accepted")
				return false
			}
			cf := t.ret[0]
			ot := t.x.fromBits(padBits(fld("profile", 1, 0), 64), types.Typ[types.Uint])
			for _, w := range []struct {
				what string
				ok   bool
			}{
				{"ObjectType", t.linIs(cf.fieldOf("ObjectType"), ot.lin.add(sc(1), 1))},
				{"SampleRateIndex", t.intIs(cf.fieldOf("SampleRateIndex"), int64(idx))},
				{"ChannelConfig", t.intIs(cf.fieldOf("ChannelConfig"), int64(cc))},
				{"SampleRate", t.intIs(cf.fieldOf("SampleRate"), aacRates[idx])},
				{"ChannelLayout", t.intIs(cf.fieldOf("ChannelLayout"), lay[cc])},
				{"hdrlen", t.intIs(t.ret[1], hl)},
				{"framelen", t.bitsEq(t.ret[2].bits, flen.bits)},
				{"samples", t.linIs(t.ret[3], t.x.fromBits(padBits(fld("p0[6]", 1, 0), 64), types.Typ[types.Int]).lin.mul(1024).add(sc(1024), 1))},
			} {
				if !w.ok {
					c.bad(w.what, "%s of %02x %02x, rate %d, channels %d is wrong", w.what, b0, b1, idx, cc)
					return false
				}
			}
			done++
		}
		if good && done == 0 {
			r.fail("aac|ParseADTSHeader|never", r.P.pos(f.Root.Pos()), fmt.Sprintf("a valid header %02x %02x, rate %d, channels %d is never accepted", b0, b1, idx, cc))
			return false
		}
		n++
		r.ok("")
		return true
	}
	for b := int64(0); b < 256; b++ {
		if !try(b, 0xf1, 4, 2) || !try(0xff, b, 4, 2) {
			return
		}
	}
	for i := 0; i < 16; i++ {
		for cc := 0; cc < 8; cc++ {
			if !try(0xff, 0xf1, i, cc) || !try(0xff, 0xf0, i, cc) {
				return
			}
		}
	}
	r.need("ADTS headers read", n, 768)
}

func (r *Report) adtsFill() {
	f := r.buildFor("codec/aac:FillADTSHeader", nil)
	if f == nil {
		return
	}
	n := 0
	for ot := int64(1); ot <= 45; ot++ {
		prof := ot - 1
		if ot >= 5 {
			prof = 1
		}
		for _, samples := range []int64{0, 1023, 1024, 1025, 2048, 3072, 4096, 5120} {
			ts := r.walkInit(f, 4, map[string][]sbit{"p1.ObjectType": ci(ot), "p2": ci(samples)})
			if len(ts) == 0 {
				r.fail("aac|FillADTSHeader|none", r.P.pos(f.Root.Pos()), "no path")
				return
			}
			for _, t := range ts {
				c := chk{r, t, "aac|FillADTSHeader"}
				if t.end == nil {
					c.bad("loop", "a path does not end")
					return
				}
				var fl []sbit
				for i := 0; i < 13; i++ {
					fl = append(fl, sbit{"p3+7", i})
				}
				want := [][]sbit{
					cbits(0xff, 8), cbits(0xf1, 8),
					catBits(cbits(uint64(prof), 2), fld("p1.SampleRateIndex", 3, 0), cbits(0, 1), fld("p1.ChannelConfig", 2, 2)),
					catBits(fld("p1.ChannelConfig", 1, 0), cbits(0, 4), fl[11:]),
					fl[3:11],
					fl[:3],
					cbits(uint64(samples/1024-1)&3, 2),
				}
				for i, w := range want {
					got := t.byteAt("p0", sc(int64(i)), len(t.mem))
					if i == 5 {
						got = got[5:]
					} else if i == 6 {
						got = got[:2]
					}
					if !t.bitsEq(got, w) {
						c.bad(fmt.Sprintf("byte%d", i), "byte %d for object type %d and %d samples is %s, not %s", i, ot, samples, bitStr(got), bitStr(w))
						return
					}
				}
				if !t.bitsEq(t.byteAt("p0", sc(7), len(t.mem)), fld("p0[7]", 7, 0)) {
					c.bad("beyond", "more than 7 bytes are written")
					return
				}
			}
			n++
			r.ok("")
		}
	}
	r.need("ADTS headers filled", n, 360)
}

func (r *Report) aacParse(lay []int64) {
	f := r.buildFor("codec/aac:ParseMPEG4AudioConfigBytes", nil)
	if f == nil {
		return
	}
	n := 0
	try := func(ot, idx, cc int, expl int64) bool {
		var seq []sbit
		put := func(v uint64, w int) { seq = append(seq, msb(cbits(v, w))...) }
		put(uint64(ot), 5)
		if ot == 31 {
			seq = append(seq, msb(fld("ext", 5, 0))...)
		}
		put(uint64(idx), 4)
		if idx == 15 {
			put(uint64(expl), 24)
		}
		put(uint64(cc), 4)
		for len(seq) < 64 {
			seq = append(seq, sbit{"rest", len(seq)})
		}
		in := map[string][]sbit{}
		for i := 0; i < 8; i++ {
			in[fmt.Sprintf("in[%d]", i)] = msb(seq[8*i : 8*i+8])
		}
		good := cc < 8 && (idx < len(aacRates) || idx == 15 && expl > 15)
		done := 0
		for _, t := range r.walkInit(f, 12, in) {
			c := chk{r, t, "aac|ParseMPEG4AudioConfigBytes"}
			if t.end == nil || t.okRes(1) < 0 {
				c.bad("end", "a path does not end in a plain result")
				return false
			}
			rf, src := false, false
			for _, e := range t.events {
				if e.kind == "read" && e.res != nil && len(e.res.tup) == 2 && t.nilState(e.res.tup[1]) == 0 {
					rf = true
				}
				if e.kind == "call" && e.name == "bytes.NewReader" && len(e.args) == 1 && e.args[0].base == "p0" && e.args[0].off.eq(sc(0)) {
					src = true
				}
			}
			if !src {
				c.bad("source", "the configuration is not read from the start of the data")
				return false
			}
			if t.okRes(1) == 0 {
				if good && !rf {
					c.bad("refused", "a valid configuration (type %d, rate %d, channels %d) is refused", ot, idx, cc)
					return false
				}
				continue
			}
			if !good || rf {
				c.bad("accepted", "an invalid configuration (type %d, rate %d (%d), channels %d) is accepted", ot, idx, expl, cc)
				return false
			}
			cf := t.ret[0]
			otok := t.intIs(cf.fieldOf("ObjectType"), int64(ot))
			if ot == 31 {
				otok = t.linIs(cf.fieldOf("ObjectType"), t.x.fromBits(padBits(fld("ext", 5, 0), 64), types.Typ[types.Uint]).lin.add(sc(32), 1))
			}
			rate, ri := expl, expl
			if idx != 15 {
				rate, ri = aacRates[idx], int64(idx)
			}
			for _, w := range []struct {
				what string
				ok   bool
			}{
				{"ObjectType", otok},
				{"SampleRateIndex", t.intIs(cf.fieldOf("SampleRateIndex"), ri)},
				{"ChannelConfig", t.intIs(cf.fieldOf("ChannelConfig"), int64(cc))},
				{"SampleRate", t.intIs(cf.fieldOf("SampleRate"), rate)},
				{"ChannelLayout", t.intIs(cf.fieldOf("ChannelLayout"), lay[cc])},
			} {
				if !w.ok {
					c.bad(w.what, "%s of a configuration with type %d, rate %d, channels %d is wrong", w.what, ot, idx, cc)
					return false
				}
			}
			done++
		}
		if good && done == 0 {
			r.fail("aac|ParseMPEG4AudioConfigBytes|never", r.P.pos(f.Root.Pos()), fmt.Sprintf("a valid configuration (type %d, rate %d, channels %d) is never accepted", ot, idx, cc))
			return false
		}
		n++
		r.ok("")
		return true
	}
	for ot := 0; ot < 32; ot++ {
		if !try(ot, 4, 2, 0) {
			return
		}
	}
	for _, ot := range []int{2, 31} {
		for idx := 0; idx < 16; idx++ {
			for cc := 0; cc < 16; cc++ {
				for _, e := range []int64{44101, 0, 3, 15, 16, 96000, 0xffffff} {
					if !try(ot, idx, cc, e) {
						return
					}
					if idx != 15 {
						break
					}
				}
			}
		}
	}
	r.need("configurations read", n, 32+2*16*(15+7))
	stop := r.buildFor("codec/aac:FromMPEG4AudioConfigBytes", stopAt("codec/aac:ParseMPEG4AudioConfigBytes"))
	if stop == nil {
		return
	}
	okc := 0
	for _, t := range r.walkInit(stop, 4, nil) {
		c := chk{r, t, "aac|FromMPEG4AudioConfigBytes"}
		if t.end == nil {
			c.bad("end", "a path does not end")
			return
		}
		e := t.calls("codec/aac:ParseMPEG4AudioConfigBytes")
		if t.okRes(1) == 0 {
			if len(e) == 1 && t.nilState(e[0].res.tup[1]) != 0 {
				c.bad("refused", "a valid configuration is refused")
			} else if len(e) == 0 && !t.isEq(sterm("len(p0)")) {
				c.bad("refused", "a configuration that is not empty is refused unread")
			}
			continue
		}
		if len(e) != 1 || e[0].args[0].base != "p0" || !e[0].args[0].off.eq(sc(0)) || t.nilState(e[0].res.tup[1]) != 1 {
			c.bad("parse", "the configuration is not the one parsed")
			continue
		}
		b := t.ret[0].base
		cfg, raw := t.cellBase(b+".Config", nil), t.cellBase(b+".ConfigBytes", nil)
		if cfg == nil || cfg.sym != e[0].res.tup[0].sym || raw == nil || raw.base != "p0" || !raw.off.eq(sc(0)) || !raw.length.eq(sterm("len(p0)")) {
			c.bad("codec", "the codec does not hold the configuration parsed and its bytes")
			continue
		}
		okc++
		r.ok("")
	}
	r.need("codecs made", okc, 1)
}

func (r *Report) aacWrite(lay []int64) {
	f := r.buildFor("codec/aac:WriteMPEG4AudioConfig", nil)
	if f == nil {
		return
	}
	n := 0
	try := func(ot, idx, rate, cc, layout int64, wantIdx, wantCC int64) bool {
		in := map[string][]sbit{"p1.ObjectType": ci(ot), "p1.SampleRateIndex": ci(idx), "p1.SampleRate": ci(rate), "p1.ChannelConfig": ci(cc), "p1.ChannelLayout": cbits(uint64(layout), 16)}
		var seq []sbit
		put := func(v int64, w int) { seq = append(seq, msb(cbits(uint64(v), w))...) }
		if ot < 31 {
			put(ot, 5)
		} else {
			put(31, 5)
			put(ot-32, 6)
		}
		if wantIdx < 15 {
			put(wantIdx, 4)
		} else {
			put(15, 4)
			put(wantIdx, 24)
		}
		put(wantCC, 4)
		for len(seq)%8 != 0 {
			seq = append(seq, sbit{})
		}
		done := 0
		for _, t := range r.walkInit(f, 40, in) {
			c := chk{r, t, "aac|WriteMPEG4AudioConfig"}
			if t.end == nil {
				c.bad("end", "a path does not end")
				return false
			}
			if t.wroteErr() {
				if t.okRes(0) != 0 {
					c.bad("err", "a failed write is not an error")
					return false
				}
				continue
			}
			if t.okRes(0) == 0 {
				c.bad("refused", "a configuration is refused")
				return false
			}
			var out []sbit
			for _, s := range t.out {
				if s.bits == nil {
					c.bad("out", "%s is written", s)
					return false
				}
				out = append(out, msb(s.bits)...)
			}
			if len(out) != len(seq) || !t.bitsEq(msb(out), msb(seq)) {
				c.bad("value", "type %d, rate index %d (%d), channels %d (%#x) is written as %s, not %s", ot, idx, rate, cc, layout, bitStr(msb(out)), bitStr(msb(seq)))
				return false
			}
			done++
		}
		if done == 0 {
			r.fail("aac|WriteMPEG4AudioConfig|never", r.P.pos(f.Root.Pos()), "a configuration is never written")
			return false
		}
		n++
		r.ok("")
		return true
	}
	for ot := int64(1); ot < 96; ot++ {
		if ot != 31 && !try(ot, 4, 44100, 2, lay[2], 4, 2) {
			return
		}
	}
	for idx := int64(1); idx < 15; idx++ {
		if !try(2, idx, 0, 1, 0, idx, 1) {
			return
		}
	}
	for k := uint(4); k < 24; k++ {
		for _, v := range []int64{1 << k, 1<<k + 1, 1<<(k+1) - 1} {
			if v > 15 && !try(2, v, 0, 1, 0, v, 1) {
				return
			}
		}
	}
	for i, v := range aacRates {
		if !try(2, 0, v, 1, 0, int64(i), 1) {
			return
		}
	}
	for _, v := range []int64{16, 7351, 44101, 96001, 192000} {
		if !try(2, 0, v, 1, 0, v, 1) {
			return
		}
	}
	for cc := int64(1); cc < 16; cc++ {
		if !try(2, 4, 0, cc, 0, 4, cc) {
			return
		}
	}
	for i, l := range lay {
		if !try(2, 4, 0, 0, l, 4, int64(i)) {
			return
		}
	}
	r.need("configurations written", n, 190)
}

func (r *Report) aacSamples() {
	size := map[string]int64{"U8": 1, "U8P": 1, "S16": 2, "S16P": 2, "S32": 4, "S32P": 4, "U32": 4, "FLT": 4, "FLTP": 4, "DBL": 8, "DBLP": 8}
	f := r.buildFor("codec/aac:SampleFormat.BytesPerSample", nil)
	g := r.buildFor("codec/aac:SampleFormat.IsPlanar", nil)
	h := r.buildFor("codec/aac:PacketDuration", nil)
	if f == nil || g == nil || h == nil {
		return
	}
	seen := map[int64]string{}
	for _, name := range keysOf(size) {
		v, ok := r.P.pkgConst("codec/aac", name)
		if !ok || seen[v] != "" {
			r.fail("aac|format|"+name, "codec/aac", name+" is not a sample format of its own")
			continue
		}
		seen[v] = name
		in := map[string][]sbit{"p0": cbits(uint64(v), 8)}
		for _, t := range r.walkInit(f, 4, in) {
			if t.end == nil || !t.intIs(t.ret[0], size[name]) {
				chk{r, t, "aac|BytesPerSample"}.bad(name, "a sample of %s does not have %d bytes", name, size[name])
			} else {
				r.ok("")
			}
		}
		want := 0
		if name[len(name)-1] == 'P' {
			want = 1
		}
		for _, t := range r.walkInit(g, 4, in) {
			if t.end == nil || t.truth(t.ret[0]) != want {
				chk{r, t, "aac|IsPlanar"}.bad(name, "%s is wrongly taken for planar or not", name)
			} else {
				r.ok("")
			}
		}
	}
	r.need("sample formats", len(seen), len(size))
	for _, v := range append([]int64{0, -1, 1, 44101, 192000}, aacRates...) {
		want := int64(0)
		if v > 0 {
			want = 1024 * 1000000000 / v
		}
		ts := r.walkInit(h, 4, map[string][]sbit{"p0.SampleRate": ci(v)})
		for _, t := range ts {
			if t.end == nil || !t.intIs(t.ret[0], want) {
				chk{r, t, "aac|PacketDuration"}.bad("value", "a frame at %d Hz does not last %d ns", v, want)
				return
			}
			r.ok("")
		}
	}
}

func init() {
	register("C23", "proof", func(r *Report, thorough bool) {
		r.rule("ADTS and AudioSpecificConfig coders are walked bit by bit, down to the bytes read and written, with the table indexes taking every value and everything else unknown; fields, rates and layouts must be the ones of ISO/IEC 14496-3.")
		lay := r.layouts()
		if lay == nil {
			return
		}
		r.adtsParse(lay)
		r.adtsFill()
		r.aacParse(lay)
		r.aacWrite(lay)
		r.aacSamples()
	})
}

func keysOf[T any](m map[string]T) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
