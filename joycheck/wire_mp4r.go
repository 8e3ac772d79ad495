package main

import (
	"fmt"
	"go/types"
	"strings"
)

// C27: the MP4 reader.

// mp4Rd is one path of the reader, looked at from one track.
type mp4Rd struct {
	*mp4Mux
	s string // the track
}

// cell is the value a field of the track had.
func (m *mp4Rd) cell(f string) slin { return m.t.term(m.s + "." + f) }

// ent is a field of an entry of a table.
func (m *mp4Rd) ent(table string, i slin, field string) slin {
	n := fmt.Sprintf("%s.sample.%s.Entries[%s]", m.s, table, i)
	if field != "" {
		n += "." + field
	}
	return m.t.term(n)
}

func (m *mp4Rd) count(table string) slin {
	return m.t.term("len(" + m.s + ".sample." + table + ".Entries)")
}

// now is the value a field of the track has at the end.
func (m *mp4Rd) now(f string) slin {
	if v := m.t.put(m.s + "." + f); v != nil {
		return v.lin
	}
	return m.cell(f)
}

// both are a number and its lower 32 bits.
func (m *mp4Rd) both(a slin) []slin {
	if a.konst() {
		return []slin{a, sc(int64(uint32(a.c)))}
	}
	return []slin{a, m.t.low32(a).lin}
}

// le: a is at most b (1), is above it (0), is not compared with it (-1).
func (m *mp4Rd) le(a, b slin) int {
	for _, x := range m.both(a) {
		for _, y := range m.both(b) {
			d := y.add(x, -1)
			if m.t.implies(d) {
				return 1
			}
			if m.t.implies(d.mul(-1).add(sc(-1), 1)) {
				return 0
			}
		}
	}
	return -1
}

// reached: a, which is never above b, is b.
func (m *mp4Rd) reached(a, b slin) int {
	for _, x := range m.both(a) {
		for _, y := range m.both(b) {
			if z := m.t.isZero(x.add(y, -1)); z >= 0 {
				return z
			}
		}
	}
	switch m.le(b, a) {
	case 1:
		return 1
	case 0:
		return 0
	}
	return -1
}

// has: a table has an entry i.
func (m *mp4Rd) has(table string, i slin) int { return m.le(i.add(sc(1), 1), m.count(table)) }

func (m *mp4Rd) is(f string, want slin) {
	if v := m.now(f); !m.t.isEq(v.add(want, -1)) {
		m.fail("%s is %s, not %s", f, v, want)
	}
}

func (m *mp4Rd) isKept(fs ...string) {
	for _, f := range fs {
		if v := m.t.put(m.s + "." + f); v != nil && !m.t.isEq(v.lin.add(m.cell(f), -1)) {
			m.fail("%s changes", f)
		}
	}
}

var mp4Cursor = []string{"sampleIndex", "sampleOffsetInChunk", "syncSampleIndex", "dts", "sttsEntryIndex", "sampleIndexInSttsEntry", "cttsEntryIndex", "sampleIndexInCttsEntry", "chunkGroupIndex", "chunkIndex", "sampleIndexInChunk"}

// oneSize: all samples have one size (1), each has its own (0).
func (m *mp4Rd) oneSize() (size slin, same int) {
	size = m.t.term(m.s + ".sample.SampleSize.SampleSize")
	switch m.t.isZero(size) {
	case 1:
		return size, 0
	case 0:
		return size, 1
	}
	return size, -1
}

// offsets: the track has composition offsets.
func (m *mp4Rd) offsets() int {
	switch m.t.isNil(m.s + ".sample.CompositionOffset") {
	case 1:
		return 0
	case -1:
		return -1
	}
	return m.le(sc(1), m.count("CompositionOffset"))
}

// timeAt is the time of a tick, as computed or converted by a call.
func (m *mp4Rd) timeAt(ts slin) []*sval {
	var out []*sval
	for _, e := range m.t.events {
		if e.kind != "call" || e.res == nil {
			continue
		}
		switch calleeName(e) {
		case mp4Dir + ":Stream.tsToTime":
			if plain(e.args[0].sym) == plain(m.s) && m.t.isEq(e.args[1].lin.add(ts, -1)) {
				out = append(out, e.res)
			}
		case mp4Dir + ":tsToTime":
			if m.t.isEq(e.args[0].lin.add(ts, -1)) && plain(e.args[1].sym) == plain(m.s)+".timeScale" {
				out = append(out, e.res)
			}
		}
	}
	return out
}

// paths walks a function and judges each path.
func (r *Report) paths(name, what string, opt *InlineOpt, max, turns int, need []string, judge func(m *mp4Rd) string) {
	f := r.buildFor(mp4Dir+":"+name, opt)
	if f == nil {
		return
	}
	got := map[string]int{}
	var all []*Trace
	for _, t := range r.walkInitN(f, max, turns, nil) {
		if !t.back {
			all = append(all, t.decided()...)
		}
	}
	for _, t := range all {
		m := &mp4Rd{mp4Mux: &mp4Mux{t: t, c: chk{r, t, "mp4|" + what}}, s: "p0"}
		if t.end == nil || t.end.Op != OpReturn {
			m.c.bad("end", "a path does not end in a result")
			return
		}
		k := judge(m)
		if m.bad != "" {
			m.c.bad(k, "%s", m.bad)
			return
		}
		got[k]++
		r.ok("")
	}
	for _, k := range need {
		r.need("walks of "+what+": "+k, got[k], 1)
	}
}

// decided splits a path on the comparisons that it returns the outcome of.
func (t *Trace) decided() []*Trace {
	var open *sval
	var look func(v *sval)
	look = func(v *sval) {
		if v == nil {
			return
		}
		if v.boolC != nil && t.truth(v) < 0 && open == nil {
			open = v
		}
		for _, f := range v.fields {
			look(f)
		}
	}
	for _, v := range t.ret {
		look(v)
	}
	if open == nil {
		return []*Trace{t}
	}
	var out []*Trace
	for _, val := range []bool{true, false} {
		n := t.fork()
		n.end, n.ret = t.end, t.ret
		if n.assume(open, val) && n.truth(open) >= 0 {
			out = append(out, n.decided()...)
		}
	}
	return out
}

func (m *mp4Rd) isEOF(v *sval) bool { return v != nil && plain(v.sym) == "g:io.EOF" }

// sample: one sample is read where the tables say, and the cursor moves to
// the next one.
func (m *mp4Rd) sample() string {
	t := m.t
	var valid, read *sevent
	for i := range t.events {
		e := &t.events[i]
		switch {
		case e.kind != "call":
		case calleeName(*e) == mp4Dir+":Stream.isSampleValid" && e.args[0].sym == "p0":
			if valid == nil && read == nil {
				valid = e
			}
		case calleeName(*e) == mp4Dir+":Demuxer.readat":
			if read != nil {
				m.fail("a sample is read twice")
			}
			read = e
		}
	}
	if valid == nil {
		m.fail("whether there is a sample is not looked at")
		return "end"
	}
	if t.truth(valid.res) != 1 {
		if t.truth(valid.res) != 0 || read != nil || !m.isEOF(t.ret[len(t.ret)-1]) {
			m.fail("the end of the track is not io.EOF")
		}
		m.isKept(mp4Cursor...)
		return "end"
	}
	if read == nil {
		m.fail("a sample is not read")
		return "sample"
	}
	at := m.ent("ChunkOffset", m.cell("chunkIndex"), "").add(m.cell("sampleOffsetInChunk"), 1)
	size, same := m.oneSize()
	if same < 0 {
		m.fail("whether all samples have one size is not looked at")
		return "sample"
	}
	if same == 0 {
		size = m.ent("SampleSize", m.cell("sampleIndex"), "")
	}
	if read.args[0].sym != "p0.demuxer" || !t.isEq(read.args[1].lin.add(at, -1)) {
		m.fail("the sample is read at %s, not %s", read.args[1].lin, at)
	}
	if !t.isEq(read.args[2].lin.add(size, -1)) {
		m.fail("%s bytes are read, not %s", read.args[2].lin, size)
	}
	if !m.passes(*read, "reading") {
		m.isKept(mp4Cursor...)
		return "error"
	}
	if !t.success(len(t.ret) - 1) {
		m.fail("a sample read is reported as an error")
	}
	pkt := t.ret[0]
	if d := pkt.fieldOf("Data"); d == nil || d.sym != read.res.tup[0].sym {
		m.fail("the packet has other data than was read")
	}
	// key frame
	key := -1
	switch t.isNil("p0.sample.SyncSample") {
	case 0:
		switch k := m.cell("syncSampleIndex"); m.has("SyncSample", k) {
		case 0:
			key = 0
		case 1:
			e := m.ent("SyncSample", k, "")
			for _, x := range m.both(m.cell("sampleIndex")) {
				if z := t.isZero(x.add(sc(1), 1).add(e, -1)); z >= 0 {
					key = z
				}
			}
			if z := t.isZero(t.low32(m.cell("sampleIndex").add(sc(1), 1)).lin.add(e, -1)); z >= 0 {
				key = z
			}
		}
	case 1:
		key = t.isSet("p0.Codec.(*h264.Codec).ok")
	}
	kf := pkt.fieldOf("IsKeyFrame")
	got := t.truth(kf)
	if key < 0 && got < 0 && kf != nil && t.isNil("p0.sample.SyncSample") == 1 && kf.sym == "p0.Codec.(*h264.Codec).ok" {
		key = got // the answer itself
	} else if key < 0 || got != key {
		m.fail("the packet is marked as key frame when it is none, or not when it is one")
	}
	// composition offset
	ct := pkt.fieldOf("CTime")
	switch m.offsets() {
	case 0:
		if n, ok := constOf(ct); !ok || n != 0 {
			m.fail("a packet without composition offset has one")
		}
	case 1:
		o := t.x.leaf(fmt.Sprintf("p0.sample.CompositionOffset.Entries[%s].Offset", m.cell("cttsEntryIndex")), types.Typ[types.Uint32])
		found := false
		for _, e := range t.events {
			if e.kind != "call" || e.res == nil || ct == nil || e.res.sym != ct.sym {
				continue
			}
			var a *sval
			switch n := calleeName(e); {
			case n == mp4Dir+":Stream.tsToTime" && e.args[0].sym == "p0":
				a = e.args[1]
			case n == mp4Dir+":tsToTime" && e.args[1].sym == "p0.timeScale":
				a = e.args[0]
			}
			if a != nil && len(a.bits) == 64 {
				found = true
				for i, b := range a.bits {
					found = found && b == o.bits[min(i, 31)]
				}
			}
		}
		if !found {
			m.fail("the composition offset of the packet is not the signed offset in its table")
		}
	default:
		m.fail("whether there are composition offsets is not looked at")
	}
	// the next sample
	m.next(same, size)
	return "sample"
}

func (m *mp4Rd) next(same int, size slin) {
	one := sc(1)
	inc := func(f string) slin { return m.cell(f).add(one, 1) }
	ask := func(k int, what string) int {
		if k < 0 {
			m.fail("whether %s is not looked at", what)
		}
		return k
	}
	g := m.cell("chunkGroupIndex")
	ck := m.cell("chunkIndex")
	end := ask(m.reached(inc("sampleIndexInChunk"), m.ent("SampleToChunk", g, "SamplesPerChunk")), "the chunk ends")
	if m.bad != "" {
		return
	}
	if end == 1 {
		ck = ck.add(one, 1)
		m.is("sampleIndexInChunk", sc(0))
		m.is("sampleOffsetInChunk", sc(0))
	} else {
		m.is("sampleIndexInChunk", inc("sampleIndexInChunk"))
		m.is("sampleOffsetInChunk", m.cell("sampleOffsetInChunk").add(size, 1))
	}
	m.is("chunkIndex", ck)
	more := m.has("SampleToChunk", g.add(one, 1))
	if end == 1 {
		ask(more, "there is another group of chunks")
	}
	eq := -1
	if more == 1 {
		eq = m.reached(ck.add(one, 1), m.ent("SampleToChunk", g.add(one, 1), "FirstChunk"))
		if end == 1 {
			ask(eq, "another group of chunks begins")
		}
	}
	if eq == 1 {
		g = g.add(one, 1)
	}
	m.is("chunkGroupIndex", g)
	m.run("sttsEntryIndex", "sampleIndexInSttsEntry", "TimeToSample")
	m.is("dts", m.cell("dts").add(m.ent("TimeToSample", m.cell("sttsEntryIndex"), "Duration"), 1))
	if m.offsets() == 1 {
		m.run("cttsEntryIndex", "sampleIndexInCttsEntry", "CompositionOffset")
	} else {
		m.isKept("cttsEntryIndex", "sampleIndexInCttsEntry")
	}
	if m.t.isNil("p0.sample.SyncSample") == 0 {
		k := m.cell("syncSampleIndex")
		nx := k.add(one, 1)
		if ask(m.has("SyncSample", nx), "there is another key frame") == 1 {
			e := m.ent("SyncSample", nx, "")
			at := -1
			for _, x := range []slin{m.t.low32(inc("sampleIndex")).lin.add(one, 1), inc("sampleIndex").add(one, 1), m.t.low32(inc("sampleIndex").add(one, 1)).lin} {
				if z := m.t.isZero(x.add(e, -1)); z >= 0 {
					at = z
				}
			}
			if at < 0 {
				at = m.le(e, inc("sampleIndex").add(one, 1))
			}
			if ask(at, "the next sample is a key frame") == 1 {
				k = nx
			}
		}
		m.is("syncSampleIndex", k)
	} else {
		m.isKept("syncSampleIndex")
	}
	m.is("sampleIndex", inc("sampleIndex"))
}

// run moves one sample on in a table of runs.
func (m *mp4Rd) run(idx, in, table string) {
	i := m.cell(idx)
	n := m.cell(in).add(sc(1), 1)
	switch m.reached(n, m.ent(table, i, "Count")) {
	case 1:
		i, n = i.add(sc(1), 1), sc(0)
	case -1:
		m.fail("whether a run of %s ends is not looked at", table)
		return
	}
	m.is(idx, i)
	m.is(in, n)
}

// valid: whether all tables have the sample.
func (m *mp4Rd) valid() string {
	t := m.t
	all := 1
	and := func(k int) {
		if k == 0 {
			all = 0
		} else if k < 0 && all == 1 {
			all = -1
		}
	}
	and(m.has("ChunkOffset", m.cell("chunkIndex")))
	and(m.has("SampleToChunk", m.cell("chunkGroupIndex")))
	and(m.has("TimeToSample", m.cell("sttsEntryIndex")))
	switch m.offsets() {
	case 1:
		and(m.has("CompositionOffset", m.cell("cttsEntryIndex")))
	case -1:
		and(-1)
	}
	switch _, same := m.oneSize(); same {
	case 0:
		and(m.has("SampleSize", m.cell("sampleIndex")))
	case -1:
		and(-1)
	}
	m.isKept(mp4Cursor...)
	got := t.truth(t.ret[0])
	if got < 0 || got != all {
		m.fail("a sample is said to be there when a table ends, or to be missing when it is there")
	}
	return fmt.Sprint(got == 1)
}

// list is a list of the reader as the path has it, and its length.
func (m *mp4Rd) list(name string) (string, slin) {
	l := m.t.term("len(" + name + ")")
	return strings.TrimSuffix(strings.TrimPrefix(l.String(), "len("), ")"), l
}

// each finds how many elements of a list the path looks at: all of them.
func (m *mp4Rd) each(n slin, what string) int {
	for i := 0; i < 10; i++ {
		if m.t.implies(sc(int64(i)).add(n, -1)) {
			return i
		}
		if !m.t.implies(n.add(sc(-int64(i+1)), 1)) {
			break
		}
	}
	m.fail("not all %s are looked at", what)
	return 0
}

// packet: the next packet is that of the track which is behind all others.
func (m *mp4Rd) packet() string {
	t := m.t
	if k, ok := m.probed(); !ok {
		return k
	}
	list, n := m.list("p0.streams")
	for c, v := range t.bools {
		if v && strings.HasPrefix(c, list+"[") && strings.HasSuffix(c, "]==nil") {
			return "nil" // no track is
		}
	}
	asked := map[string]int{}
	var read *sevent
	for i := range t.events {
		e := &t.events[i]
		switch {
		case e.kind != "call":
		case calleeName(*e) == mp4Dir+":Stream.isSampleValid":
			asked[e.args[0].sym] = t.truth(e.res)
		case calleeName(*e) == mp4Dir+":Stream.readPacket":
			if read != nil {
				m.fail("two packets are read")
			}
			read = e
		}
	}
	cnt := m.each(n, "tracks")
	if m.bad != "" {
		return "tracks"
	}
	tm := func(s string) slin {
		return timeOf(sterm(s+".dts"), s+".timeScale")
	}
	var left []string
	for i := 0; i < cnt; i++ {
		s := fmt.Sprintf("%s[%d]", list, i)
		switch v, ok := asked[s]; {
		case !ok || v < 0:
			m.fail("whether track %d has a sample is not looked at", i)
			return "tracks"
		case v == 1:
			left = append(left, s)
		}
	}
	last := t.ret[len(t.ret)-1]
	if len(left) == 0 {
		if read != nil || !m.isEOF(last) {
			m.fail("the end of all tracks is not io.EOF")
		}
		return "end"
	}
	if read == nil {
		m.fail("no packet is read")
		return "read"
	}
	who := read.args[0].sym
	in := false
	for _, s := range left {
		in = in || s == who
		if !t.implies(tm(s).add(tm(who), -1)) {
			m.fail("the packet read is later than that of another track")
		}
	}
	if !in {
		m.fail("a packet of a track without samples is read")
	}
	if !m.passes(*read, "reading") || m.bad != "" {
		return "read"
	}
	typ := int64(-1)
	switch {
	case t.isSet(plain(who)+".Codec.(*h264.Codec).ok") == 1:
		typ = 1
	case t.isSet(plain(who)+".Codec.(*aac.Codec).ok") == 1:
		typ = 2
	case t.isSet(plain(who)+".Codec.(*h264.Codec).ok") == 0 && t.isSet(plain(who)+".Codec.(*aac.Codec).ok") == 0:
		if !t.failure(len(t.ret) - 1) {
			m.fail("a codec that is not supported is no error")
		}
		return "codec"
	}
	if !t.success(len(t.ret) - 1) {
		m.fail("a packet read is reported as an error")
	}
	pkt := t.ret[0]
	if k, ok := constOf(pkt.fieldOf("Type")); !ok || k != typ {
		m.fail("the packet has another type than its track")
	}
	if v := pkt.fieldOf("Time"); v == nil || !t.isEq(v.lin.add(tm(who), -1)) {
		m.fail("the time of the packet is not that of its sample")
	}
	for _, f := range []string{"IsKeyFrame", "CTime", "Data"} {
		if v := pkt.fieldOf(f); v == nil || plain(v.sym) != read.res.tup[0].sym+"."+f && plain(v.lin.String()) != read.res.tup[0].sym+"."+f {
			m.fail("%s of the packet is not that of the sample", f)
		}
	}
	return "packet"
}

// timeOf is the time of a tick, as the conversion computes it (see mp4Ticks).
func timeOf(ts slin, scale string) slin {
	s := ts.String()
	whole, rest := "("+s+" / "+scale+")", "("+s+" % "+scale+")"
	return slin{t: map[string]int64{whole: 1000000000, "(" + slin{t: map[string]int64{rest: 1000000000}}.String() + " / " + scale + ")": 1}}
}

// probed: the file has been looked at, or cannot be.
func (m *mp4Rd) probed() (string, bool) {
	for _, e := range m.t.events {
		if e.kind == "call" && calleeName(e) == mp4Dir+":Demuxer.probe" {
			return "probe", m.passes(e, "looking at the file")
		}
		if e.kind == "call" {
			break
		}
	}
	m.fail("the file is not looked at first")
	return "probe", false
}

// codecs: the codec of each track, in order.
func (m *mp4Rd) codecs() string {
	t := m.t
	if k, ok := m.probed(); !ok {
		return k
	}
	list, n := m.list("p0.streams")
	cnt := m.each(n, "tracks")
	its := t.items(t.ret[0], nil)
	if len(its) != cnt || !t.success(1) {
		m.fail("not the codecs of all tracks are returned")
		return "codecs"
	}
	for i, it := range its {
		if it.one == nil || it.one.sym != fmt.Sprintf("%s[%d].Codec", list, i) {
			m.fail("codec %d is not that of track %d", i, i)
		}
	}
	return "codecs"
}

// seek: the video goes to its key frame, all others to the same time.
func (m *mp4Rd) seek() string {
	t := m.t
	if k, ok := m.probed(); !ok {
		return k
	}
	list, n := m.list("p0.streams")
	cnt := 0
	for cnt < 20 && t.implies(n.add(sc(-int64(cnt+1)), 1)) {
		cnt++
	}
	for c, v := range t.bools {
		if v && strings.HasPrefix(c, list+"[") && (strings.Contains(c, "]=="+list+"[") || strings.HasSuffix(c, "]==nil")) {
			return "same" // no two tracks are, none is nil
		}
	}
	video := -1
	for i := 0; i < cnt && video < 0; i++ {
		switch t.isSet(plain(fmt.Sprintf("%s[%d].Codec.(*h264.Codec).ok", list, i))) {
		case 1:
			video = i
		case -1:
			m.fail("the codec of track %d is not looked at", i)
			return "tracks"
		}
	}
	var order []int
	if video >= 0 {
		order = append(order, video)
	}
	for i := 0; i < cnt; i++ {
		if i != video {
			order = append(order, i)
		}
	}
	k := 0
	var tm []slin = []slin{sterm("p1")}
	seen := false
	for i, e := range t.events {
		if e.kind != "call" || calleeName(e) != mp4Dir+":Stream.seekToTime" {
			continue
		}
		if k >= len(order) || e.args[0].sym != fmt.Sprintf("%s[%d]", list, order[k]) {
			m.fail("another track is moved than is next")
			return "moved"
		}
		ok := false
		for _, x := range tm {
			ok = ok || t.isEq(e.args[1].lin.add(x, -1))
		}
		if !ok {
			m.fail("track %d is moved to %s", order[k], e.args[1].lin)
		}
		if !m.passes(e, "moving a track") || m.bad != "" {
			return "error"
		}
		if order[k] == video && !seen {
			seen = true
			tm = nil
			for _, c := range t.events[i:] {
				if c.kind == "call" && c.res != nil && calleeName(c) == mp4Dir+":Stream.tsToTime" && c.args[0].sym == e.args[0].sym && plain(c.args[1].lin.String()) == plain(e.args[0].sym)+".dts" {
					tm = append(tm, c.res.lin)
				}
				if c.kind == "call" && c.res != nil && calleeName(c) == mp4Dir+":tsToTime" && plain(c.args[0].lin.String()) == plain(e.args[0].sym)+".dts" && plain(c.args[1].lin.String()) == plain(e.args[0].sym)+".timeScale" {
					tm = append(tm, c.res.lin)
				}
			}
		}
		k++
	}
	if m.each(n, "tracks"); k != len(order) {
		m.fail("not all tracks are moved")
	}
	if !t.success(0) {
		m.fail("tracks moved are reported as an error")
	}
	if video >= 0 {
		return "video"
	}
	return "audio"
}

// index: the sample a time falls into, or the key frame at or before it.
func (m *mp4Rd) index() string {
	t := m.t
	ts, ok := t.ticks(sterm("p1"), "p0")
	if !ok {
		m.fail("the time is not converted to ticks")
		return "time"
	}
	up := -1
	for _, v := range m.timeAt(ts.add(sc(1), 1)) {
		up = m.le(v.lin, sterm("p1"))
	}
	switch up {
	case -1:
		m.fail("whether the time is cut from a later tick is not looked at")
		return "time"
	case 1:
		ts = ts.add(sc(1), 1)
	}
	idx, start, from := sc(0), sc(0), sc(0)
	found := false
	for i := int64(0); !found && i < 20; i++ {
		switch m.has("TimeToSample", sc(i)) {
		case -1:
			m.fail("whether there is a run %d is not looked at", i)
			return "run"
		case 0:
			if t.implies(ts.mul(-1).add(sc(-1), 1)) {
				idx = sc(0)
			} else if t.implies(ts) {
				idx = from.add(sc(-1), 1)
			} else {
				m.fail("a time outside the track is taken for one inside")
				return "run"
			}
			found = true
			continue
		}
		n, d := m.ent("TimeToSample", sc(i), "Count"), m.ent("TimeToSample", sc(i), "Duration")
		end := start.add(t.product(n, d), 1)
		in := ts.add(start, -1)
		a, b := t.implies(in), t.implies(end.add(ts, -1).add(sc(-1), 1))
		if a && b {
			idx = from.add(sterm("("+in.String()+" / "+d.String()+")"), 1)
			found = true
		} else if !t.implies(in.mul(-1).add(sc(-1), 1)) && !t.implies(ts.add(end, -1)) {
			m.fail("whether the time falls into run %d is not looked at", i)
			return "run"
		}
		start, from = end, from.add(n, 1)
	}
	if t.isNil("p0.sample.SyncSample") == 0 {
		tops := []slin{m.count("SyncSample").add(sc(-1), 1)} // the last one
		for k := int64(0); k < 20 && m.has("SyncSample", sc(k)) >= 0; k++ {
			if m.has("SyncSample", sc(k)) == 0 {
				tops = append(tops, sc(k-1))
				break
			}
		}
		done := false
		for _, at := range tops {
			if k, ok := m.keyAt(at, idx); ok && !done {
				idx, done = k, true
			}
		}
		if !done {
			m.fail("the key frames are not compared with the sample")
			return "key"
		}
	}
	if !t.isEq(t.ret[0].lin.add(idx, -1)) {
		m.fail("sample %s is chosen, not %s", t.ret[0].lin, idx)
	}
	return "index"
}

// keyAt is the last key frame at or before a sample.
func (m *mp4Rd) keyAt(at, idx slin) (slin, bool) {
	for n := 0; n < 20; n++ {
		switch m.le(sc(0), at) {
		case 0:
			return idx, true
		case -1:
			return idx, false
		}
		e := m.ent("SyncSample", at, "").add(sc(-1), 1)
		switch m.le(e, idx) {
		case 1:
			return e, true
		case -1:
			return idx, false
		}
		at = at.add(sc(-1), 1)
	}
	return idx, false
}

// product names the product of two numbers as the engine does.
func (t *Trace) product(a, b slin) slin {
	if a.konst() {
		return b.mul(a.c)
	}
	if b.konst() {
		return a.mul(b.c)
	}
	p, q := a.String(), b.String()
	if q < p {
		p, q = q, p
	}
	return sterm("(" + p + "*" + q + ")")
}

// move: the cursor stands as if all samples before had been read.
func (m *mp4Rd) move() string {
	t := m.t
	idx := sterm("p1")
	out := func(what string) string {
		if !t.failure(0) {
			m.fail("%s, but that is no error", what)
		}
		return "outside"
	}
	if m.le(idx, sc(-1)) == 1 {
		return out("the sample is before the first")
	}
	if m.le(m.count("SampleToChunk"), sc(0)) == 1 {
		return out("there are no chunks")
	}
	// the chunk
	start, g := sc(0), int64(0)
	ck := int64(0)
	for ; ck < 20; ck++ {
		switch m.has("ChunkOffset", sc(ck)) {
		case 0:
			return out("no chunk has the sample")
		case -1:
			m.fail("whether there is a chunk %d is not looked at", ck)
			return "chunk"
		}
		switch m.has("SampleToChunk", sc(g+1)) {
		case 1:
			switch t.isZero(m.ent("SampleToChunk", sc(g+1), "FirstChunk").add(sc(-ck-1), 1)) {
			case 1:
				g++
			case -1:
				m.fail("whether chunk %d begins a group is not looked at", ck)
				return "chunk"
			}
		case -1:
			m.fail("whether there is another group of chunks is not looked at")
			return "chunk"
		}
		n := m.ent("SampleToChunk", sc(g), "SamplesPerChunk")
		in := m.le(start.add(n, 1), idx)
		if in < 0 {
			m.fail("whether the sample is in chunk %d is not looked at", ck)
			return "chunk"
		}
		if in == 0 {
			break
		}
		start = start.add(n, 1)
	}
	inChunk := idx.add(start, -1)
	m.is("chunkIndex", sc(ck))
	m.is("chunkGroupIndex", sc(g))
	m.is("sampleIndexInChunk", inChunk)
	size, same := m.oneSize()
	switch same {
	case 1:
		m.is("sampleOffsetInChunk", t.product(size, inChunk))
	case 0:
		switch m.has("SampleSize", idx) {
		case 0:
			return out("the sample has no size")
		case -1:
			m.fail("whether the sample has a size is not looked at")
			return "size"
		}
		off, k := sc(0), int64(0)
		for ; k < 20 && m.le(sc(k+1), inChunk) == 1; k++ {
			off = off.add(m.ent("SampleSize", start.add(sc(k), 1), ""), 1)
		}
		if m.le(inChunk, sc(k)) != 1 {
			m.fail("not the sizes of all samples before are counted")
			return "size"
		}
		m.is("sampleOffsetInChunk", off)
	default:
		m.fail("whether all samples have one size is not looked at")
		return "size"
	}
	if m.bad != "" {
		return "chunk"
	}
	// the time
	find := func(table string) (i int64, in, before slin, k int) {
		from := sc(0)
		before = sc(0)
		for ; i < 20; i++ {
			if h := m.has(table, sc(i)); h != 1 {
				return i, in, before, h
			}
			n := m.ent(table, sc(i), "Count")
			past := m.le(from.add(n, 1), idx)
			if past < 0 {
				return i, in, before, -1
			}
			if past == 0 {
				return i, idx.add(from, -1), before, 1
			}
			from = from.add(n, 1)
			if table == "TimeToSample" {
				before = before.add(t.product(n, m.ent(table, sc(i), "Duration")), 1)
			}
		}
		return i, in, before, -1
	}
	i, in, before, k := find("TimeToSample")
	switch k {
	case 0:
		return out("the sample has no time")
	case -1:
		m.fail("the run of durations is not looked for")
		return "time"
	}
	m.is("sttsEntryIndex", sc(i))
	m.is("sampleIndexInSttsEntry", in)
	m.is("dts", before.add(t.product(in, m.ent("TimeToSample", sc(i), "Duration")), 1))
	switch m.offsets() {
	case 1:
		i, in, _, k := find("CompositionOffset")
		switch k {
		case 0:
			return out("the sample has no composition offset")
		case -1:
			m.fail("the run of composition offsets is not looked for")
			return "offset"
		}
		m.is("cttsEntryIndex", sc(i))
		m.is("sampleIndexInCttsEntry", in)
	case -1:
		m.fail("whether there are composition offsets is not looked at")
		return "offset"
	}
	// the key frame at or before
	if t.isNil("p0.sample.SyncSample") == 0 {
		k := int64(0)
		for k < 20 && m.has("SyncSample", sc(k+1)) == 1 {
			at := m.le(m.ent("SyncSample", sc(k+1), "").add(sc(-1), 1), idx)
			if at < 0 {
				m.fail("key frame %d is not compared with the sample", k+1)
				return "key"
			}
			if at == 0 {
				break
			}
			k++
		}
		m.is("syncSampleIndex", sc(k))
	}
	m.is("sampleIndex", idx)
	if !t.success(0) {
		m.fail("a sample that is there is an error")
	}
	return "found"
}

// readAt: exactly the bytes asked for, or an error.
func (m *mp4Rd) readAt() string {
	t := m.t
	step := 0
	var buf string
	for _, e := range t.events {
		if e.kind != "call" {
			continue
		}
		switch {
		case e.in.Method != nil && e.in.Method.Name() == "Seek" && plain(e.args[0].sym) == "p0.r":
			w, ok := constOf(e.args[2])
			if step != 0 || !ok || w != 0 || !t.isEq(e.args[1].lin.add(sterm("p1"), -1)) {
				m.fail("the reader is moved elsewhere")
			}
			if step = 1; !m.passes(e, "a seek") {
				return "error"
			}
		case e.name == "io.CopyN":
			if step != 1 || plain(e.args[1].sym) != "p0.r" || !t.isEq(e.args[2].lin.add(sterm("p2"), -1)) {
				m.fail("other bytes are read")
			}
			buf = e.args[0].sym
			if step = 2; !m.passes(e, "a read") {
				return "error"
			}
		case e.name == "io.ReadFull":
			if step != 1 || plain(e.args[0].sym) != "p0.r" || !strings.HasPrefix(e.args[1].sym, "make@") || !t.isEq(e.args[1].length.add(sterm("p2"), -1)) {
				m.fail("other bytes are read")
			}
			buf = e.args[1].sym
			if step = 3; !m.passes(e, "a read") {
				return "error"
			}
			if t.ret[0].sym != buf {
				m.fail("other bytes are returned than were read")
			}
		case strings.HasSuffix(e.name, "bytes.Buffer).Bytes"):
			if step != 2 || e.args[0].sym != buf || t.ret[0].sym != e.res.sym {
				m.fail("other bytes are returned than were read")
			}
			step = 3
		default:
			m.fail("%s is called", e.name)
		}
	}
	if step != 3 || !t.success(1) {
		m.fail("the bytes read are not returned")
	}
	return "read"
}

// probe: the tracks of the moov box, with their tables and codecs.
func (m *mp4Rd) probe() string {
	t := m.t
	switch t.isNil("p0.movieAtom") {
	case -1:
		m.fail("whether the file was looked at is not looked at")
		return "old"
	case 0:
		if !t.success(0) || len(t.events) > 0 {
			m.fail("a file is looked at twice")
		}
		return "old"
	}
	conf := map[string]*sevent{}
	from := map[string]*sevent{}
	atoms := ""
	movie := map[string]bool{}
	for i := range t.events {
		e := &t.events[i]
		if e.kind != "call" {
			continue
		}
		switch n := calleeName(*e); {
		case n == mp4Pkg+":ReadFileAtoms":
			if !m.passes(*e, "reading the boxes") {
				return "error"
			}
			atoms = e.res.tup[0].sym
		case e.in.Method != nil && e.in.Method.Name() == "Seek":
			if !m.passes(*e, "a seek") {
				return "error"
			}
		case e.in.Method != nil && e.in.Method.Name() == "Tag":
			if t.isEq(e.res.lin.add(sc(int64(tagWord("moov"))), -1)) {
				movie[e.args[0].sym] = true
			}
		case n == mp4Pkg+":Track.GetAVC1Conf", n == mp4Pkg+":Track.GetElemStreamDesc":
			conf[n+"|"+e.args[0].sym] = e
		case n == "codec/h264:FromDecoderConfig", n == "codec/aac:FromMPEG4AudioConfigBytes":
			from[plain(e.args[0].sym)] = e
		}
	}
	n := m.each(sterm("len("+atoms+")"), "boxes")
	if m.bad != "" {
		return "boxes"
	}
	mv := ""
	for i := 0; i < n; i++ {
		if s := fmt.Sprintf("%s[%d]", atoms, i); movie[s] {
			mv = s + ".(*mp4io.Movie)"
		}
	}
	if mv == "" || t.isNil(mv) == 1 {
		if !t.failure(0) {
			m.fail("a file without moov box is no error")
		}
		return "no moov"
	}
	if v := t.put("p0.movieAtom"); t.success(0) && (v == nil || v.sym != mv) {
		m.fail("the moov box is not kept")
	}
	var its []litem
	for _, e := range t.events {
		if e.kind == "store" && plain(e.name) == "p0.streams" {
			l := t.items(e.args[0], nil)
			if len(l) > 0 && l[0].spread != nil && plain(l[0].spread.sym) == "p0.streams" {
				// The functions called change no reader: see the stores below.
				its = append(its, l[1:]...)
				continue
			}
			its = l
		}
	}
	cnt := sterm("len(" + mv + ".Tracks)")
	k := 0
	for i := 0; i < 20; i++ {
		if t.implies(sc(int64(i)).add(cnt, -1)) {
			break
		}
		if !t.implies(cnt.add(sc(-int64(i+1)), 1)) {
			m.fail("whether there is a track %d is not looked at", i)
			return "tracks"
		}
		tr := fmt.Sprintf("%s.Tracks[%d]", mv, i)
		md := tr + ".Media"
		sm := md + ".Info.Sample"
		scale := t.term(md + ".Header.TimeScale")
		there := 1
		for _, c := range []string{md, md + ".Info", sm, md + ".Header", "", sm + ".TimeToSample", sm + ".SampleToChunk", sm + ".SampleSize", sm + ".ChunkOffset"} {
			if c == "" {
				if t.implies(scale.mul(-1)) {
					there = 0
				} else if !t.implies(scale.add(sc(-1), 1)) {
					there = -1
				}
			} else if x := t.isNil(c); x != 0 {
				there = -1
				if x == 1 {
					there = 0
				}
			}
			if there != 1 {
				break
			}
		}
		if there == 0 {
			if !t.failure(0) {
				m.fail("a track without all tables is no error")
			}
			return "incomplete"
		}
		if there < 0 {
			m.fail("the tables of track %d are not looked at", i)
			return "tracks"
		}
		codec, data := "", ""
		for _, c := range []string{"GetAVC1Conf", "GetElemStreamDesc"} {
			e := conf[mp4Pkg+":Track."+c+"|"+tr]
			if e == nil {
				m.fail("the codec of track %d is not looked at", i)
				return "tracks"
			}
			switch t.nilState(e.res) {
			case 0:
				codec, data = c, e.res.sym
			case -1:
				m.fail("the codec of track %d is not looked at", i)
				return "tracks"
			}
			if codec != "" {
				break
			}
		}
		if codec == "" {
			continue
		}
		want, field := "codec/h264:FromDecoderConfig", ".Data"
		if codec != "GetAVC1Conf" {
			want, field = "codec/aac:FromMPEG4AudioConfigBytes", ".DecConfig"
		}
		e := from[data+field]
		if e == nil || calleeName(*e) != want {
			m.fail("the codec of track %d is not read from its configuration", i)
			return "tracks"
		}
		if !m.passes(*e, "reading a codec") {
			return "error"
		}
		if k >= len(its) || its[k].one == nil {
			m.fail("track %d is not added", i)
			return "tracks"
		}
		s := its[k].one.sym
		k++
		if v := t.put(s + ".sample"); v == nil || plain(v.sym) != sm {
			m.fail("track %d has another sample table", i)
		}
		if v := t.put(s + ".timeScale"); v == nil || !t.isEq(v.lin.add(scale, -1)) {
			m.fail("track %d has another time scale", i)
		}
		if v := t.put(s + ".demuxer"); v == nil || v.sym != "p0" {
			m.fail("track %d is read from another file", i)
		}
		if v := t.put(s + ".Codec"); v == nil || v.sym != e.res.tup[0].sym {
			m.fail("track %d has another codec", i)
		}
		for _, f := range mp4Cursor {
			if v := t.put(s + "." + f); v != nil {
				if n, ok := constOf(v); !ok || n != 0 {
					m.fail("track %d does not begin at its first sample", i)
				}
			}
		}
		if !strings.HasPrefix(s, "alloc@") {
			m.fail("track %d is not a new one", i)
		}
		if m.bad != "" {
			return "tracks"
		}
	}
	if k != len(its) {
		m.fail("more tracks are added than there are")
	}
	if !t.success(0) {
		m.fail("a file that can be read is an error")
	}
	return fmt.Sprintf("whole %d", k)
}

func init() {
	register("C27", "proof", func(r *Report, thorough bool) {
		r.rule("The functions of the MP4 reader are walked path by path with symbolic tables, cursors and times; the sample read, the cursor after it and the sample a time leads to are compared with what the tables say.")
		P := mp4Dir + ":"
		turns := 3
		r.mp4Ticks()
		r.paths("Stream.readPacket", "readPacket", stopAt(P+"Stream.isSampleValid", P+"Demuxer.readat", P+"Stream.tsToTime", P+"tsToTime"), 20000, 3, []string{"end", "error", "sample"}, (*mp4Rd).sample)
		r.paths("Stream.isSampleValid", "isSampleValid", nil, 1000, 3, []string{"true", "false"}, (*mp4Rd).valid)
		r.paths("Demuxer.ReadPacket", "ReadPacket", stopAt(P+"Demuxer.probe", P+"Stream.readPacket", P+"Stream.isSampleValid"), 5000, 4, []string{"probe", "end", "read", "packet"}, (*mp4Rd).packet)
		r.paths("Demuxer.Streams", "Streams", stopAt(P+"Demuxer.probe"), 1000, 4, []string{"probe", "codecs"}, (*mp4Rd).codecs)
		r.paths("Demuxer.SeekToTime", "SeekToTime", stopAt(P+"Demuxer.probe", P+"Stream.seekToTime", P+"Stream.tsToTime", P+"tsToTime"), 5000, 4, []string{"probe", "error", "video", "audio"}, (*mp4Rd).seek)
		if thorough {
			turns = 4
		}
		r.paths("Stream.timeToSampleIndex", "timeToSampleIndex", stopAt(P+"Stream.timeToTs", P+"Stream.tsToTime", P+"timeToTs", P+"tsToTime"), 20000, turns, []string{"index"}, (*mp4Rd).index)
		r.paths("Stream.setSampleIndex", "setSampleIndex", nil, 200000, turns, []string{"outside", "found"}, (*mp4Rd).move)
		r.paths("Demuxer.readat", "readat", nil, 1000, 3, []string{"error", "read"}, (*mp4Rd).readAt)
		r.paths("Demuxer.probe", "probe", stopAt(mp4Pkg+":ReadFileAtoms", mp4Pkg+":Track.GetAVC1Conf", mp4Pkg+":Track.GetElemStreamDesc", "codec/h264:FromDecoderConfig", "codec/aac:FromMPEG4AudioConfigBytes"), 5000, turns, []string{"old", "error", "no moov", "incomplete", "whole 0", "whole 1", "whole 2"}, (*mp4Rd).probe)
		r.mp4Stores("Demuxer", []string{"streams", "movieAtom"}, "Demuxer.probe")
		r.mp4Stores("Stream", mp4Cursor, "Stream.readPacket", "Stream.setSampleIndex", "Muxer.WritePacket")
	})
}
