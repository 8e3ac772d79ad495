package main

import (
	"fmt"
	"go/types"
	"strings"
)

// C24: H.264 parameter sets, configurations and NAL units.

// spsChoice fixes the elements the syntax of a sequence parameter set
// depends on.
type spsChoice struct {
	profile, chroma, sep, scaling  int64
	poc, cycle, mbsOnly, crop, vui int64
	aspect, overscan, video        int64
	chromaLoc, timing              int64
}

var highProfiles = []int64{100, 110, 122, 244, 44, 83, 86, 118, 128, 138, 139, 134, 135}

func isHigh(p int64) bool {
	for _, h := range highProfiles {
		if h == p {
			return true
		}
	}
	return false
}

// spsScript: the syntax elements of 7.3.2.1.1 and E.1.1 up to the timing.
func spsScript(c spsChoice) []scriptStep {
	var out []scriptStep
	u := func(name string, w int) { out = append(out, scriptStep{kind: "u", w: w, name: name}) }
	uc := func(name string, w int, v int64) {
		out = append(out, scriptStep{kind: "u", w: w, name: name, val: v, set: true})
	}
	ue := func(name string) { out = append(out, scriptStep{kind: "ue", name: name}) }
	uec := func(name string, v int64) {
		out = append(out, scriptStep{kind: "ue", name: name, val: v, set: true})
	}
	g := func(name string) { out = append(out, scriptStep{kind: "g", name: name}) }
	u("nal_unit", 8)
	uc("profile_idc", 8, c.profile)
	u("constraint_flags", 8)
	u("level_idc", 8)
	ue("seq_parameter_set_id")
	if isHigh(c.profile) {
		uec("chroma_format_idc", c.chroma)
		if c.chroma == 3 {
			uc("separate_colour_plane_flag", 1, c.sep)
		}
		g("bit_depth_luma_minus8")
		g("bit_depth_chroma_minus8")
		u("qpprime_y_zero_transform_bypass_flag", 1)
		if c.scaling == 0 {
			uc("seq_scaling_matrix_present_flag", 1, 0)
		} else {
			uc("seq_scaling_matrix_present_flag", 1, 1)
			lists := 8
			if c.chroma == 3 {
				lists = 12
			}
			for i := 0; i < lists; i++ {
				present := c.scaling == 2 || c.scaling == 3 && i%2 == 1
				if !present {
					uc("seq_scaling_list_present_flag", 1, 0)
					continue
				}
				uc("seq_scaling_list_present_flag", 1, 1)
				size := 16
				if i >= 6 {
					size = 64
				}
				last, next := int64(8), int64(8)
				for j := 0; j < size; j++ {
					if next == 0 {
						continue
					}
					d := int64(0)
					if c.scaling == 3 {
						// ends the list after a few entries
						d = []int64{5, -3, -10}[j%3]
					}
					out = append(out, scriptStep{kind: "se", name: "delta_scale", val: d, set: true})
					next = ((last+d+256)%256 + 256) % 256
					if next != 0 {
						last = next
					}
				}
			}
		}
	}
	g("log2_max_frame_num_minus4")
	uec("pic_order_cnt_type", c.poc)
	switch c.poc {
	case 0:
		g("log2_max_pic_order_cnt_lsb_minus4")
	case 1:
		u("delta_pic_order_always_zero_flag", 1)
		g("offset_for_non_ref_pic")
		g("offset_for_top_to_bottom_field")
		uec("num_ref_frames_in_pic_order_cnt_cycle", c.cycle)
		for i := int64(0); i < c.cycle; i++ {
			g("offset_for_ref_frame")
		}
	}
	g("max_num_ref_frames")
	u("gaps_in_frame_num_value_allowed_flag", 1)
	ue("pic_width_in_mbs_minus1")
	ue("pic_height_in_map_units_minus1")
	uc("frame_mbs_only_flag", 1, c.mbsOnly)
	if c.mbsOnly == 0 {
		u("mb_adaptive_frame_field_flag", 1)
	}
	u("direct_8x8_inference_flag", 1)
	uc("frame_cropping_flag", 1, c.crop)
	if c.crop == 1 {
		ue("crop_left")
		ue("crop_right")
		ue("crop_top")
		ue("crop_bottom")
	}
	uc("vui_parameters_present_flag", 1, c.vui)
	if c.vui == 0 {
		return out
	}
	if c.aspect == 0 {
		uc("aspect_ratio_info_present_flag", 1, 0)
	} else {
		uc("aspect_ratio_info_present_flag", 1, 1)
		uc("aspect_ratio_idc", 8, c.aspect)
		if c.aspect == 255 {
			u("sar_width", 16)
			u("sar_height", 16)
		}
	}
	uc("overscan_info_present_flag", 1, c.overscan)
	if c.overscan == 1 {
		u("overscan_appropriate_flag", 1)
	}
	if c.video == 0 {
		uc("video_signal_type_present_flag", 1, 0)
	} else {
		uc("video_signal_type_present_flag", 1, 1)
		u("video_format", 3)
		u("video_full_range_flag", 1)
		uc("colour_description_present_flag", 1, c.video-1)
		if c.video == 2 {
			u("colour_primaries", 8)
			u("transfer_characteristics", 8)
			u("matrix_coefficients", 8)
		}
	}
	uc("chroma_loc_info_present_flag", 1, c.chromaLoc)
	if c.chromaLoc == 1 {
		g("chroma_sample_loc_type_top_field")
		g("chroma_sample_loc_type_bottom_field")
	}
	uc("timing_info_present_flag", 1, c.timing)
	if c.timing == 1 {
		u("num_units_in_tick", 32)
		u("time_scale", 32)
		u("fixed_frame_rate_flag", 1)
	}
	return out
}

func (r *Report) walkScript(f *Fn, turns int, script []scriptStep) []*Trace {
	ts, over := tracesScript(f, 4000, turns, nil, script)
	if over {
		r.fail("paths|"+fnName(f.Root), r.P.pos(f.Root.Pos()), "too many paths to analyse")
		return nil
	}
	n, _ := r.Cov["paths_walked"].(int)
	r.Cov["paths_walked"] = n + len(ts)
	return ts
}

// follows checks that a parser reads what the script says: it returns the
// traces that get to the end.
func (r *Report) follows(f *Fn, key, what string, script []scriptStep, ei int) (out []*Trace, ok bool) {
	for _, t := range r.walkScript(f, 2000, script) {
		c := chk{r, t, key}
		if t.mism != "" {
			c.bad("syntax", "%s: %s", what, t.mism)
			return nil, false
		}
		if t.end == nil || t.okRes(ei) < 0 {
			c.bad("end", "%s: a path does not end in a plain result", what)
			return nil, false
		}
		failed := false
		for s := range t.bools {
			if !t.bools[s] && len(s) > 9 && s[:5] == "read@" && s[len(s)-9:] == ".err==nil" {
				failed = true
			}
		}
		if failed {
			if t.okRes(ei) != 0 {
				c.bad("err", "%s: a truncated parameter set is not an error", what)
				return nil, false
			}
			continue
		}
		if t.okRes(ei) == 0 {
			c.bad("refused", "%s: refused", what)
			return nil, false
		}
		if t.nstep != len(script) {
			c.bad("syntax", "%s: %s is not read", what, script[t.nstep].name)
			return nil, false
		}
		out = append(out, t)
	}
	if len(out) == 0 {
		r.fail(key+"|never", r.P.pos(f.Root.Pos()), what+" is never accepted")
		return nil, false
	}
	return out, true
}

// readsFrom: the bits come from the data, without its emulation prevention
// bytes when unesc is set.
func (t *Trace) readsFrom(unesc bool) bool {
	src := t.cellBase(t.source+".R", nil)
	if src == nil {
		return false
	}
	want := "p0"
	for _, e := range t.events {
		if e.kind != "call" || len(e.args) != 1 || e.res == nil || e.args[0].base != want || !e.args[0].off.eq(sc(0)) {
			continue
		}
		switch {
		case e.name == "bytes.NewReader" || e.name == "bytes.NewBuffer":
			if e.res.sym == src.sym {
				return !unesc
			}
		case unesc:
			want = e.res.base
			unesc = false
		}
	}
	return false
}

func (r *Report) spsParse() {
	rd := "utils/bits:GolombBitReader."
	stops := []string{rd + "ReadBit", rd + "ReadBits", rd + "ReadExponentialGolombCode", rd + "ReadSE", "codec/h264:RemoveH264orH265EmulationBytes"}
	f := r.buildFor("codec/h264:ParseSPS", stopAt(stops...))
	if f == nil {
		return
	}
	n := 0
	try := func(ch spsChoice) bool {
		what := fmt.Sprintf("profile %d chroma %d/%d scaling %d poc %d/%d frame_mbs_only %d crop %d vui %d %d %d %d %d %d", ch.profile, ch.chroma, ch.sep, ch.scaling, ch.poc, ch.cycle, ch.mbsOnly, ch.crop, ch.vui, ch.aspect, ch.overscan, ch.video, ch.chromaLoc, ch.timing)
		ts, ok := r.follows(f, "h264|ParseSPS", what, spsScript(ch), 1)
		if !ok {
			return false
		}
		cx, cy := int64(1), 2-ch.mbsOnly
		if !isHigh(ch.profile) || ch.chroma == 1 {
			cx, cy = 2, 2*cy
		} else if ch.chroma == 2 {
			cx = 2
		}
		w := sterm("pic_width_in_mbs_minus1").mul(16).add(sc(16), 1)
		h := sterm("pic_height_in_map_units_minus1").mul(16*(2-ch.mbsOnly)).add(sc(16*(2-ch.mbsOnly)), 1)
		crop := func(s string) slin {
			if ch.crop == 0 {
				return sc(0)
			}
			return sterm(s)
		}
		w = w.add(crop("crop_left"), -cx).add(crop("crop_right"), -cx)
		h = h.add(crop("crop_top"), -cy).add(crop("crop_bottom"), -cy)
		for _, t := range ts {
			c := chk{r, t, "h264|ParseSPS"}
			if !t.readsFrom(true) {
				c.bad("source", "the bits read are not those of the data without emulation prevention bytes")
				return false
			}
			s := t.ret[0]
			for _, v := range []struct {
				name string
				want slin
			}{
				{"Id", sterm("seq_parameter_set_id")},
				{"ProfileIdc", sc(ch.profile)},
				{"LevelIdc", sterm("level_idc")},
				{"MbWidth", sterm("pic_width_in_mbs_minus1").add(sc(1), 1)},
				{"MbHeight", sterm("pic_height_in_map_units_minus1").add(sc(1), 1)},
				{"CropLeft", crop("crop_left")}, {"CropRight", crop("crop_right")},
				{"CropTop", crop("crop_top")}, {"CropBottom", crop("crop_bottom")},
				{"Width", w}, {"Height", h},
			} {
				if !t.linIs(s.fieldOf(v.name), v.want) {
					c.bad(v.name, "%s: %s is %s, not %s", what, v.name, s.fieldOf(v.name).str(), v.want)
					return false
				}
			}
			if cf := s.fieldOf("ConstraintSetFlag"); cf == nil || !t.bitsEq(cf.bits[:6], fld("constraint_flags", 7, 2)) {
				c.bad("ConstraintSetFlag", "ConstraintSetFlag is %s", cf.str())
				return false
			}
		}
		n++
		r.ok("")
		return true
	}
	for _, base := range []spsChoice{{profile: 66, chroma: 1}, {profile: 100, chroma: 1}, {profile: 244, chroma: 3}} {
		for _, poc := range [][2]int64{{0, 0}, {1, 0}, {1, 1}, {1, 3}, {2, 0}} {
			for k := int64(0); k < 4; k++ {
				ch := base
				ch.poc, ch.cycle, ch.mbsOnly, ch.crop = poc[0], poc[1], k&1, k>>1
				if !try(ch) {
					return
				}
				if poc[0] != 0 {
					continue
				}
				for _, asp := range []int64{0, 1, 2, 4, 8, 13, 16, 17, 32, 64, 128, 254, 255} {
					for v := int64(0); v < 3; v++ {
						for m := int64(0); m < 8; m++ {
							if asp > 1 && asp < 255 && m*v != 6 {
								continue
							}
							ch.vui, ch.aspect, ch.video, ch.overscan, ch.chromaLoc, ch.timing = 1, asp, v, m&1, m>>1&1, m>>2
							if !try(ch) {
								return
							}
						}
					}
				}
			}
		}
	}
	for _, p := range append([]int64{0, 66, 77, 88, 255}, highProfiles...) {
		for cc := int64(0); cc < 4; cc++ {
			for k := int64(0); k < 8; k++ {
				ch := spsChoice{profile: p, chroma: cc, mbsOnly: k & 1, crop: 1}
				if k&2 != 0 {
					ch.sep = 1
				}
				if k&4 != 0 {
					ch.scaling = 1 + cc%3
				}
				if !isHigh(p) && k > 1 || cc != 3 && k&2 != 0 {
					continue
				}
				if !try(ch) {
					return
				}
			}
		}
	}
	r.need("sequence parameter set shapes", n, 900)

	id := r.buildFor("codec/h264:ParseSPSId", stopAt(stops...))
	pps := r.buildFor("codec/h264:ParsePPS", stopAt(stops...))
	if id == nil || pps == nil {
		return
	}
	ts, _ := r.follows(id, "h264|ParseSPSId", "SPS", spsScript(spsChoice{profile: 66})[:5], 1)
	for _, t := range ts {
		if !t.readsFrom(true) || !t.linIs(t.ret[0], sterm("seq_parameter_set_id")) {
			chk{r, t, "h264|ParseSPSId"}.bad("value", "the id is %s", t.ret[0].str())
		}
	}
	ts, _ = r.follows(pps, "h264|ParsePPS", "PPS", []scriptStep{{kind: "u", w: 8, name: "nal_unit"}, {kind: "ue", name: "pps"}, {kind: "ue", name: "sps"}}, 1)
	for _, t := range ts {
		if !(t.readsFrom(true) || t.readsFrom(false)) || !t.linIs(t.ret[0].fieldOf("Id"), sterm("pps")) || !t.linIs(t.ret[0].fieldOf("SPSId"), sterm("sps")) {
			chk{r, t, "h264|ParsePPS"}.bad("value", "the ids are %s", t.ret[0].str())
		}
	}
}

// sliceOf says which part of which buffer a byte slice is.
func sliceOf(s *sval) string {
	if s == nil || !s.hasLen {
		return "?"
	}
	return fmt.Sprintf("%s[%s:+%s]", s.base, s.off, s.length)
}

// elems lists the elements of a slice built on the path.
func (t *Trace) elems(s *sval, elem types.Type) ([]*sval, bool) {
	if s == nil {
		return nil, false
	}
	if s.list != nil {
		var out []*sval
		for _, l := range s.list {
			if l.one == nil {
				return nil, false
			}
			out = append(out, l.one)
		}
		return out, true
	}
	if s.isNil || s.base == "nil" || s.hasLen && s.length.eq(sc(0)) {
		return nil, true
	}
	if !s.hasLen || !s.length.konst() || s.length.c > 64 || !s.off.konst() || s.off.c != 0 {
		return nil, false
	}
	var out []*sval
	for i := int64(0); i < s.length.c; i++ {
		v := t.cellBase(fmt.Sprintf("%s[%d]", s.base, i), elem)
		if v == nil {
			return nil, false
		}
		out = append(out, v)
	}
	return out, true
}

func sliceElem(f *Fn, i int) types.Type {
	if s, ok := f.Root.Signature.Results().At(i).Type().Underlying().(*types.Slice); ok {
		return s.Elem()
	}
	return types.Typ[types.Int]
}

// byteIs: what the path knows of byte i of the input being c: 1, 0 or -1.
func (t *Trace) byteIs(i int, c int64) int {
	b := t.byteLeaf("p0", sc(int64(i)))
	l := t.x.fromBits(b, types.Typ[types.Uint8]).lin.add(sc(-c), 1)
	switch {
	case t.isEq(l):
		return 1
	case t.isNeq(l):
		return 0
	}
	same := true
	for k, bt := range b {
		v, ok := bt.i, bt.s == ""
		if !ok {
			v, ok = t.fix[bt]
		}
		if ok && v != int(c>>uint(k)&1) {
			return 0
		}
		same = same && ok
	}
	if same {
		return 1
	}
	return -1
}

// classes lists what the input of n bytes may be on the path, as one of the
// given values for each byte or -1 for another one.
func (t *Trace) classes(n int, vals ...int64) [][]int64 {
	out := [][]int64{{}}
	for i := 0; i < n; i++ {
		var cs []int64
		other := true
		for _, v := range vals {
			switch t.byteIs(i, v) {
			case 1:
				cs, other = []int64{v}, false
			case -1:
				if other {
					cs = append(cs, v)
				}
			}
			if !other {
				break
			}
		}
		if other {
			cs = append(cs, -1)
		}
		var next [][]int64
		for _, o := range out {
			for _, c := range cs {
				next = append(next, append(o[:len(o):len(o)], c))
			}
		}
		out = next
		if len(out) > 2000 {
			return out
		}
	}
	return out
}

type naluSpan struct{ start, data, end int64 }

// avccSpans: the units of a buffer of length-prefixed units, when it is one;
// known says whether the path decides it.
func (t *Trace) avccSpans(n int64) (out []naluSpan, ok, known bool) {
	i := int64(0)
	for {
		if n-i < 4 {
			return nil, false, true
		}
		var bs []sbit
		for k := int64(3); k >= 0; k-- {
			bs = append(bs, t.byteLeaf("p0", sc(i+k))...)
		}
		v := t.x.fromBits(padBits(bs, 64), types.Typ[types.Int]).lin
		rem := n - i - 4
		if t.implies(v.add(sc(-rem-1), 1)) {
			return nil, false, true
		}
		got := int64(-1)
		for c := int64(0); c <= rem && got < 0; c++ {
			if t.isEq(v.add(sc(-c), 1)) {
				got = c
			}
		}
		if got < 0 {
			// a first unit that does not fill the buffer and leaves no room
			// for another
			if rem < 8 && t.implies(v.add(sc(-(rem-3)), 1)) && (t.isNeq(v.add(sc(-rem), 1))) {
				return nil, false, true
			}
			return nil, false, false
		}
		out = append(out, naluSpan{i, i + 4, i + 4 + got})
		i += 4 + got
		if i == n {
			return out, true, true
		}
	}
}

// annexbSpans: the units between start codes, without the zero bytes that
// end them, and the data before the first start code, if it is not zero.
func annexbSpans(b []int64) (out []naluSpan, ok bool) {
	zeros, from, start := 0, 0, 0
	cut := func(at, next int) {
		to := at
		for to > from && b[to-1] == 0 {
			to--
		}
		if to > from {
			out = append(out, naluSpan{int64(start), int64(from), int64(to)})
		}
		start, from = at, next
	}
	for i, c := range b {
		switch {
		case c == 0:
			zeros++
		case c == 1 && zeros >= 2:
			ok = true
			z := zeros
			if z > 3 {
				z = 3
			}
			cut(i-z, i+1)
			zeros = 0
		default:
			zeros = 0
		}
	}
	if ok {
		cut(len(b), 0)
	}
	return
}

func (r *Report) h264Split(deep bool) {
	max := 7
	if deep {
		max = 9
	}
	raw, _ := r.P.pkgConst("codec/h264", "NALU_RAW")
	avcc, _ := r.P.pkgConst("codec/h264", "NALU_AVCC")
	annexb, _ := r.P.pkgConst("codec/h264", "NALU_ANNEXB")
	if raw == avcc || avcc == annexb || raw == annexb {
		r.fail("h264|kinds", "codec/h264", "the kinds of NAL unit buffers are not told apart")
	}
	n := 0
	info := r.buildFor("codec/h264:SplitNALUsRetInfo", nil)
	plain := r.buildFor("codec/h264:SplitNALUs", nil)
	if info == nil || plain == nil {
		return
	}
	// expect compares a path's result
	expect := func(f *Fn, t *Trace, n int64, spans []naluSpan, typ int64) string {
		es, ok := t.elems(t.ret[0], sliceElem(f, 0))
		if !ok {
			return "the list of units is not known"
		}
		if !t.ret[1].isInt || !t.isEq(t.ret[1].lin.add(sc(-typ), 1)) {
			return fmt.Sprintf("kind %s, not %d", t.ret[1].str(), typ)
		}
		if len(es) != len(spans) {
			return fmt.Sprintf("%d units, not %d", len(es), len(spans))
		}
		for i, s := range spans {
			d := es[i]
			if f == info {
				d = es[i].fieldOf("Data")
				for _, v := range []struct {
					k string
					w int64
				}{{"NALUStart", s.start}, {"DataStart", s.data}, {"End", s.end}} {
					if x := es[i].fieldOf(v.k); x == nil || !x.isInt || !t.isEq(x.lin.add(sc(-v.w), 1)) {
						return fmt.Sprintf("%s of unit %d is %s, not %d", v.k, i, es[i].fieldOf(v.k).str(), v.w)
					}
				}
			}
			if d == nil || !d.hasLen || !t.isEq(d.length.add(sc(s.data-s.end), 1)) || s.data < s.end && (d.base != "p0" || !t.isEq(d.off.add(sc(-s.data), 1))) {
				return fmt.Sprintf("unit %d is %s, not p0[%d:%d]", i, sliceOf(d), s.data, s.end)
			}
		}
		return ""
	}
	for _, f := range []*Fn{info, plain} {
		key := "h264|" + f.Root.Name()
		for l := 0; l <= max; l++ {
			if f == plain && l > 6 {
				continue
			}
			for _, t := range r.walkInitN(f, 60000, 4*l+8, map[string][]sbit{"len(p0)": ci(int64(l))}) {
				c := chk{r, t, key}
				if t.end == nil || t.back || len(t.ret) != 2 {
					c.bad("end", "a path over %d bytes does not end in a plain result", l)
					return
				}
				var problems []string
				spans, ok, known := t.avccSpans(int64(l))
				if !known {
					c.bad("avcc", "over %d bytes, whether they are length-prefixed units is not decided", l)
					return
				}
				if ok {
					problems = append(problems, expect(f, t, int64(l), spans, avcc))
				} else {
					for _, b := range t.classes(l, 0, 1) {
						if spans, ok := annexbSpans(b); ok {
							problems = append(problems, expect(f, t, int64(l), spans, annexb))
						} else {
							problems = append(problems, expect(f, t, int64(l), []naluSpan{{0, 0, int64(l)}}, raw))
						}
					}
				}
				for _, p := range problems {
					if p != "" {
						c.bad("units", "%d bytes: %s", l, p)
						return
					}
				}
				n++
				r.ok("")
			}
		}
		// length-prefixed units of given lengths
		for _, ls := range [][]int64{{0, 0}, {1, 2}, {5, 0, 3}, {300, 1}, {70000}, {1, 0x123456, 7}} {
			for extra := int64(0); extra < 4; extra++ {
				init := map[string][]sbit{}
				at := int64(0)
				var spans []naluSpan
				for _, u := range ls {
					for k := int64(0); k < 4; k++ {
						init[fmt.Sprintf("p0[%d]", at+k)] = cbits(uint64(u>>uint(8*(3-k))&255), 8)
					}
					spans = append(spans, naluSpan{at, at + 4, at + 4 + u})
					at += 4 + u
				}
				if extra > 0 && at > 100 {
					continue
				}
				at += extra
				init["len(p0)"] = ci(at)
				if extra > 0 {
					for k := int64(0); k < at; k++ {
						if s := fmt.Sprintf("p0[%d]", k); init[s] == nil {
							init[s] = cbits(0xff, 8)
						}
					}
				}
				for _, t := range r.walkInitN(f, 4000, int(4*at%400)+100, init) {
					c := chk{r, t, key}
					if t.end == nil || t.back || len(t.ret) != 2 {
						c.bad("end", "a path over units of %v bytes does not end in a plain result", ls)
						return
					}
					p := ""
					if extra == 0 {
						p = expect(f, t, at, spans, avcc)
					} else if t.intIs(t.ret[1], avcc) {
						p = fmt.Sprintf("%d more bytes are taken as length-prefixed units", extra)
					}
					if p != "" {
						c.bad("units", "units of %v bytes: %s", ls, p)
						return
					}
					n++
					r.ok("")
				}
			}
		}
	}
	r.need("splits of NAL unit buffers", n, 4000)
}

func (r *Report) h264Unescape(deep bool) {
	f := r.buildFor("codec/h264:RemoveH264orH265EmulationBytes", nil)
	if f == nil {
		return
	}
	max, n := 7, 0
	if deep {
		max = 9
	}
	for l := 0; l <= max; l++ {
		for _, t := range r.walkInitN(f, 60000, 2*l+4, map[string][]sbit{"len(p0)": ci(int64(l))}) {
			c := chk{r, t, "h264|RemoveH264orH265EmulationBytes"}
			if t.end == nil || t.back || len(t.ret) != 1 || t.ret[0] == nil || !t.ret[0].hasLen {
				c.bad("end", "a path over %d bytes does not end in a plain result", l)
				return
			}
			s := t.ret[0]
			b, o := t.buf(s)
			for _, in := range t.classes(l, 0, 3) {
				var want []int
				zeros := 0
				for i, v := range in {
					if v == 3 && zeros >= 2 {
						zeros = 0
						continue
					}
					zeros++
					if v != 0 {
						zeros = 0
					}
					want = append(want, i)
				}
				if !s.length.eq(sc(int64(len(want)))) {
					c.bad("length", "of %v (-1: any other byte), %s bytes are left, not %d", in, s.length, len(want))
					return
				}
				for k, i := range want {
					got := t.byteAt(b, o.add(sc(int64(k)), 1), len(t.mem))
					if !t.bitsEq(got, t.byteLeaf("p0", sc(int64(i)))) {
						c.bad("bytes", "of %v, byte %d is %s, not byte %d", in, k, bitStr(got), i)
						return
					}
				}
			}
			n++
			r.ok("")
		}
	}
	r.need("walks removing emulation prevention bytes", n, 100)
}

// h264Join: lists of up to three units.
func (r *Report) h264Join() {
	for _, v := range []struct {
		name string
		avcc bool
	}{
		{"JoinNALUsAVCC", true}, {"FillNALUsAVCC", true},
		{"JoinNALUsAnnexb", false}, {"FillNALUsAnnexb", false},
	} {
		f := r.buildFor("codec/h264:"+v.name, nil)
		if f == nil {
			return
		}
		n := 0
		for k := 0; k <= 3; k++ {
			for _, t := range r.walkInitN(f, 100, 2*k+4, map[string][]sbit{"len(p0)": ci(int64(k))}) {
				c := chk{r, t, "h264|" + v.name}
				if t.end == nil || t.back || len(t.ret) != 1 || t.ret[0] == nil || !t.ret[0].hasLen {
					c.bad("end", "a path over %d units does not end in a plain result", k)
					return
				}
				s := t.ret[0]
				b, o := t.buf(s)
				at := sc(0)
				for i := 0; i < k; i++ {
					u := fmt.Sprintf("p0[%d]", i)
					pre := fld("len("+u+")", 31, 0)
					if !v.avcc {
						pre = cbits(1, 24)
					}
					for j := 0; j < len(pre)/8; j++ {
						got := t.byteAt(b, o.add(at, 1), len(t.mem))
						p := pre[len(pre)-8*(j+1):][:8]
						if !t.bitsEq(got, p) {
							c.bad("prefix", "byte %d before unit %d of %d is %s, not %s", j, i, k, bitStr(got), bitStr(p))
							return
						}
						at = at.add(sc(1), 1)
					}
					ln := sterm("len(" + u + ")")
					if !t.copied(b, o.add(at, 1), u, ln) {
						c.bad("unit", "unit %d of %d is not copied to %s", i, k, at)
						return
					}
					at = at.add(ln, 1)
				}
				if !s.length.eq(at) {
					c.bad("length", "%d units make %s bytes, not %s", k, s.length, at)
					return
				}
				n++
				r.ok("")
			}
		}
		r.need(v.name+" walks", n, 4)
	}
}

// copied: the buffer has all of src at off.
func (t *Trace) copied(base string, off slin, src string, n slin) bool {
	for _, m := range t.mem {
		if m.base == base && m.kind == 1 && m.off.eq(off) && m.n.eq(n) && m.src != nil && m.src.base == src && m.src.off.eq(sc(0)) {
			return true
		}
	}
	return false
}

func (r *Report) walkInitN(f *Fn, max, turns int, init map[string][]sbit) []*Trace {
	ts, over := tracesInit(f, max, nil, turns, false, nil, init)
	if over {
		r.fail("paths|"+fnName(f.Root), r.P.pos(f.Root.Pos()), "too many paths to analyse")
		return nil
	}
	n, _ := r.Cov["paths_walked"].(int)
	r.Cov["paths_walked"] = n + len(ts)
	return ts
}

// h264Config: the decoder configuration record.
func (r *Report) h264Config() {
	f := r.buildFor("codec/h264:FromDecoderConfig", stopAt("codec/h264:Codec.AddSPSPPS"))
	if f == nil {
		return
	}
	n := 0
	be := func(t *Trace, off slin) slin {
		bs := append(t.byteLeaf("p0", off.add(sc(1), 1)), t.byteLeaf("p0", off)...)
		return t.x.fromBits(padBits(bs, 64), types.Typ[types.Int]).lin
	}
	ts, over := tracesInit(f, 4000, nil, 5, false, nil, nil)
	if over {
		r.fail("paths|FromDecoderConfig", r.P.pos(f.Root.Pos()), "too many paths to analyse")
		return
	}
	for _, t := range ts {
		c := chk{r, t, "h264|FromDecoderConfig"}
		if t.back {
			continue
		}
		if t.end == nil || t.okRes(1) < 0 {
			c.bad("end", "a path does not end in a plain result")
			return
		}
		// the units of the record, as far as the path goes
		at, total := sc(6), t.inLen()
		var want []string
		short := t.implies(sc(5).add(total, -1))
		for part := 0; part < 2 && !short; part++ {
			cnt := t.x.fromBits(padBits(t.byteLeaf("p0", sc(5))[:5], 64), types.Typ[types.Int]).lin
			if part == 1 {
				if short = t.implies(at.add(total, -1)); short {
					break
				}
				cnt = t.x.fromBits(padBits(t.byteLeaf("p0", at), 64), types.Typ[types.Int]).lin
				at = at.add(sc(1), 1)
			}
			for i := int64(0); ; i++ {
				if t.implies(sc(i).add(cnt, -1)) {
					break
				}
				if !t.implies(cnt.add(sc(-i-1), 1)) || i > 5 {
					c.bad("count", "the number of parameter sets is not decided (%s units of kind %d seen)", sc(i), part)
					return
				}
				if short = t.implies(at.add(sc(1), 1).add(total, -1)); short {
					break
				}
				ln := be(t, at)
				at = at.add(sc(2), 1)
				if short = t.implies(at.add(ln, 1).add(total, -1).add(sc(-1), 1)); short {
					break
				}
				want = append(want, fmt.Sprintf("p0[%s:+%s]", at, ln))
				at = at.add(ln, 1)
			}
		}
		if short {
			if t.okRes(1) != 0 {
				c.bad("short", "a truncated record is not an error")
				return
			}
			n++
			r.ok("")
			continue
		}
		if t.okRes(1) == 0 {
			c.bad("refused", "a complete record is refused")
			return
		}
		var got []string
		for _, e := range t.calls("codec/h264:Codec.AddSPSPPS") {
			if e.args[0].sym != t.ret[0].sym {
				c.bad("codec", "parameter sets are added to another codec")
				return
			}
			got = append(got, sliceOf(e.args[1]))
		}
		if strings.Join(got, " ") != strings.Join(want, " ") {
			c.bad("sets", "the parameter sets taken are %v, not %v", got, want)
			return
		}
		if v := t.cellBase(t.ret[0].sym+".ConfigBytes", nil); v == nil || v.base != "p0" || !v.off.eq(sc(0)) || !v.length.eq(total) {
			c.bad("ConfigBytes", "ConfigBytes is not the record")
			return
		}
		n++
		r.ok("")
	}
	r.need("walks of decoder configurations", n, 30)
}

// h264Record: the record written for a codec.
func (r *Report) h264Record() {
	f := r.buildFor("codec/h264:Codec.ToConfig", stopAt("codec/h264:Codec.Len", "codec/h264:Map2arr"))
	lf := r.buildFor("codec/h264:Codec.Len", nil)
	if f == nil || lf == nil {
		return
	}
	n := 0
	var ts []*Trace
	x := &tracer{f: f, terms: map[string]*V{}, trng: map[string][2]int64{}, max: 4000, uniq: map[instrAt]int{}, turns: 3, fits: true}
	x.emit = func(t *Trace) { ts = append(ts, t) }
	x.walk(&Trace{x: x, env: map[*V]*sval{}, bools: map[string]bool{}, fix: map[sbit]int{}, cellv: map[string]*sval{}, fresh: map[string]bool{}, seen: map[*Block]int{}}, f.Blocks[0], nil, -1)
	for _, t := range ts {
		c := chk{r, t, "h264|ToConfig"}
		if t.back {
			continue
		}
		v := t.lastStore("p0.ConfigBytes")
		if t.end == nil || v == nil {
			c.bad("end", "a path does not set ConfigBytes")
			return
		}
		ln := t.calls("codec/h264:Codec.Len")
		if len(ln) != 1 || !v.hasLen || !v.length.eq(ln[0].res.lin) {
			c.bad("length", "the record is %s bytes long, not Len()", v.length)
			return
		}
		b, o := t.buf(v)
		sets := map[string][]*sval{}
		counts := map[string]*sval{}
		for _, e := range t.events {
			if e.kind == "call" && e.in.Callee != nil && anchorName(e.in.Callee) == "codec/h264:Map2arr" {
				sets[e.args[0].sym] = append(sets[e.args[0].sym], e.res)
			}
			if e.kind == "call" && e.name == "len" && len(e.args) == 1 {
				counts[e.args[0].sym] = e.res
			}
		}
		at := sc(0)
		want := func(what string, bits []sbit) bool {
			got := t.byteAt(b, o.add(at, 1), len(t.mem))
			at = at.add(sc(1), 1)
			if !t.bitsEq(got, bits) {
				c.bad("bytes", "%s is %s, not %s", what, bitStr(got), bitStr(bits))
				return false
			}
			return true
		}
		sps, pps, cs, cp := sets["p0.SPS"], sets["p0.PPS"], counts["p0.SPS"], counts["p0.PPS"]
		if len(sps) == 0 || len(pps) == 0 || cs == nil || cp == nil {
			c.bad("sets", "the parameter sets are not those of the codec, in the order of their ids")
			return
		}
		if !want("the version", cbits(1, 8)) {
			return
		}
		first := sps[0].sym + "[0]"
		some := t.implies(sterm("len("+sps[0].sym+")").add(sc(-1), 1))
		for k := int64(1); k < 4; k++ {
			has := some && t.implies(sterm("len("+first+")").add(sc(-k-1), 1))
			bits := cbits(0, 8)
			if has {
				bits = t.byteLeaf(first, sc(k))
			} else if some && !t.implies(sc(k).add(sterm("len("+first+")"), -1)) {
				c.bad("short", "whether the first SPS has byte %d is not decided", k)
				return
			}
			if !want(fmt.Sprintf("byte %d", k), bits) {
				return
			}
		}
		if !want("the length size", cbits(255, 8)) || !want("the SPS count", append(append([]sbit{}, cs.bits[:5]...), cbits(7, 3)...)) {
			return
		}
		for part, s := range []*sval{sps[len(sps)-1], pps[len(pps)-1]} {
			if part == 1 && !want("the PPS count", cp.bits[:8]) {
				return
			}
			for i := int64(0); ; i++ {
				num := sterm("len(" + s.sym + ")")
				if t.implies(sc(i).add(num, -1)) {
					break
				}
				if i > 3 {
					c.bad("count", "the number of parameter sets is not decided")
					return
				}
				u := fmt.Sprintf("%s[%d]", s.sym, i)
				if !want("the size of a set", fld("len("+u+")", 15, 8)) || !want("the size of a set", fld("len("+u+")", 7, 0)) {
					return
				}
				n := sterm("len(" + u + ")")
				if !t.copied(b, o.add(at, 1), u, n) {
					c.bad("sets", "set %d is not at %s", i, at)
					return
				}
				at = at.add(n, 1)
			}
		}
		n++
		r.ok("")
	}
	r.need("walks writing decoder configurations", n, 9)
	k := 0
	for _, t := range r.walkInitN(lf, 4000, 3, nil) {
		if t.back || t.end == nil {
			continue
		}
		sum := sc(7)
		for s, v := range t.bools {
			if strings.HasPrefix(s, "next@") && strings.HasSuffix(s, ".0") && v {
				sum = sum.add(sc(2), 1).add(sterm("len("+s[:len(s)-2]+".2)"), 1)
			}
		}
		if len(t.ret) != 1 || !t.ret[0].lin.eq(sum) {
			chk{r, t, "h264|Len"}.bad("sum", "Len is %s, not %s", t.ret[0].str(), sum)
			return
		}
		k++
		r.ok("")
	}
	r.need("walks of Len", k, 9)
}

func (t *Trace) inLen() slin {
	if v := t.x.leaf("len(p0)", types.Typ[types.Int]); v != nil {
		return v.lin
	}
	return sterm("len(p0)")
}

// h264Add: a parameter set is kept, as a copy, under its id.
func (r *Report) h264Add() {
	f := r.buildFor("codec/h264:Codec.AddSPSPPS", stopAt("codec/h264:ParseSPS", "codec/h264:ParsePPS", "codec/h264:Map2arr"))
	if f == nil {
		return
	}
	ts, over := tracesInit(f, 4000, nil, 2, false, nil, nil)
	if over {
		r.fail("paths|AddSPSPPS", r.P.pos(f.Root.Pos()), "too many paths to analyse")
		return
	}
	n := map[string]int{}
	for _, t := range ts {
		c := chk{r, t, "h264|AddSPSPPS"}
		if t.back {
			continue
		}
		kind := "other"
		if t.implies(sterm("len(p1)").add(sc(-1), 1)) {
			typ := t.x.fromBits(padBits(t.byteLeaf("p1", sc(0))[:5], 64), types.Typ[types.Int]).lin
			if t.isEq(typ.add(sc(-7), 1)) {
				kind = "SPS"
			} else if t.isEq(typ.add(sc(-8), 1)) {
				kind = "PPS"
			} else if !t.isNeq(typ.add(sc(-7), 1)) || !t.isNeq(typ.add(sc(-8), 1)) {
				c.bad("type", "whether the unit is a parameter set is not decided")
				return
			}
		} else if !t.implies(sc(0).add(sterm("len(p1)"), -1)) {
			c.bad("empty", "whether there is a unit is not decided")
			return
		}
		sets := 0
		for _, e := range t.events {
			if e.kind == "mapset" {
				sets++
			}
		}
		ps := t.calls("codec/h264:Parse" + kind)
		good := len(ps) == 1 && ps[0].res != nil && len(ps[0].res.tup) == 2 && t.nilState(ps[0].res.tup[1]) == 1
		if !good {
			if sets != 0 {
				c.bad("kept", "a unit that is no valid parameter set is kept")
				return
			}
			if kind != "other" && len(ps) == 0 {
				c.bad("parse", "a %s is not parsed", kind)
				return
			}
			n["none"]++
			r.ok("")
			continue
		}
		inf := ps[0].res.tup[0]
		m := t.mapEvents("p0." + kind)
		if sets != 1 || len(m) != 1 || sliceOf(ps[0].args[0]) != "p1[0:+len(p1)]" {
			c.bad("kept", "a valid %s is not kept in %s", kind, kind)
			return
		}
		if !t.sameInt(m[0].args[0], t.fieldSym(inf, "Id")) {
			c.bad("id", "a %s is kept as %s, not by its id", kind, m[0].args[0].str())
			return
		}
		v := m[0].args[1]
		b, o := t.buf(v)
		if b == "p1" || !o.eq(sc(0)) || !t.copied(b, sc(0), "p1", sterm("len(p1)")) || !v.hasLen || !v.length.eq(sterm("len(p1)")) {
			c.bad("copy", "what is kept is not a copy of the %s", kind)
			return
		}
		if kind == "SPS" && (!t.sameInt(t.lastStore("p0.W"), t.fieldSym(inf, "Width")) || !t.sameInt(t.lastStore("p0.H"), t.fieldSym(inf, "Height"))) {
			c.bad("size", "W and H are not those of the SPS")
			return
		}
		n[kind]++
		r.ok("")
	}
	r.need("SPS kept", n["SPS"], 1)
	r.need("PPS kept", n["PPS"], 1)
	r.need("units not kept", n["none"], 2)
}

func (t *Trace) fieldSym(s *sval, f string) string {
	if v := s.fieldOf(f); v != nil && v.sym != "" {
		return v.sym
	}
	return s.sym + "." + f
}

func (t *Trace) lastStore(cell string) (v *sval) {
	for _, e := range t.events {
		if e.kind == "store" && e.name == cell {
			v = e.args[0]
		}
	}
	return
}

func (t *Trace) sameInt(v *sval, sym string) bool {
	return v != nil && v.isInt && v.lin.eq(sterm(sym))
}

func init() {
	register("C24", "proof", func(r *Report, thorough bool) {
		r.rule("The SPS and PPS parsers are walked along the syntax of ISO/IEC 14496-10 for every combination of the elements it depends on; they must read exactly its elements and derive the picture size from them. Configuration records, parameter set bookkeeping, splitting, joining and emulation prevention removal are walked with symbolic bytes and compared with the formats.")
		r.spsParse()
		r.h264Config()
		r.h264Record()
		r.h264Add()
		r.h264Join()
		r.h264Unescape(thorough)
		r.h264Split(thorough)
	})
}
