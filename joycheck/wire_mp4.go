package main

import (
	"fmt"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C25: what the MP4 writer writes and records of each packet.

const mp4Dir = "format/mp4"

var (
	i64     = types.Typ[types.Int64]
	version = regexp.MustCompile(`'\d+`)
)

func plain(s string) string { return version.ReplaceAllString(s, "") }

// term is the value of a cell as the path has looked at it.
func (t *Trace) term(cell string) slin {
	for _, c := range t.conds {
		for s := range c.lin.t {
			if plain(s) == cell {
				return sterm(s)
			}
		}
	}
	for _, e := range t.events {
		for _, a := range e.args {
			if a != nil && a.isInt {
				for s := range a.lin.t {
					if plain(s) == cell {
						return sterm(s)
					}
				}
			}
		}
	}
	return sterm(cell)
}

// isNil: 1, 0, or -1 when the path does not look whether a cell is nil.
func (t *Trace) isNil(cell string) int {
	for s, v := range t.bools {
		if plain(s) == cell+"==nil" {
			if v {
				return 1
			}
			return 0
		}
	}
	return -1
}

func (t *Trace) isSet(cell string) int {
	for s, v := range t.bools {
		if plain(s) == cell {
			if v {
				return 1
			}
			return 0
		}
	}
	return -1
}

// put is what a path leaves in a cell.
func (t *Trace) put(cell string) (v *sval) {
	for _, e := range t.events {
		if e.kind == "store" && plain(e.name) == cell {
			v = e.args[0]
		}
	}
	return
}

// nav follows stored pointers from a symbol.
func (t *Trace) nav(root string, path ...string) *sval {
	var v *sval
	for _, f := range path {
		if v != nil {
			if fv := v.fieldOf(f); fv != nil {
				v = fv
				root = v.sym
				continue
			}
		}
		if v = t.put(root + "." + f); v == nil {
			v = t.cellv[root+"."+f]
		}
		if v == nil {
			v = &sval{sym: root + "." + f}
		}
		root = v.sym
	}
	return v
}

func (t *Trace) low32(l slin) *sval {
	return t.x.fromBits(padBits(t.x.fromLin(l, i64).bits[:32], 64), i64)
}

func sameBits(v *sval, want *sval, n int) bool {
	if v == nil || len(v.bits) < n || len(want.bits) < n {
		return false
	}
	for i := 0; i < n; i++ {
		if v.bits[i] != want.bits[i] {
			return false
		}
	}
	return true
}

// mp4Ticks: times are cut to ticks and ticks to nanoseconds without overflow.
func (r *Report) mp4Ticks() {
	for _, k := range []struct {
		name, tm, scale string
		to              bool
	}{{"timeToTs", "p0", "p1", true}, {"tsToTime", "p0", "p1", false}, {"Stream.timeToTs", "p1", "p0.timeScale", true}, {"Stream.tsToTime", "p1", "p0.timeScale", false}} {
		f := r.buildFor(mp4Dir+":"+k.name, nil)
		if f == nil {
			continue
		}
		for _, t := range r.walkInitN(f, 100, 3, nil) {
			c := chk{r, t, "mp4|" + k.name}
			by, times := "1000000000", "*"+k.scale
			if !k.to {
				by, times = k.scale, ""
			}
			whole, rest := "("+k.tm+" / "+by+")", "("+k.tm+" % "+by+")"
			var want []string
			if k.to {
				q := "(" + whole + times + ")"
				for _, m := range []string{rest, "(" + slin{t: map[string]int64{k.tm: 1, whole: -1000000000}}.String() + ")", slin{t: map[string]int64{k.tm: 1, whole: -1000000000}}.String()} {
					want = append(want, slin{t: map[string]int64{q: 1, "((" + m + times + ") / 1000000000)": 1}}.String())
				}
			} else {
				want = append(want, slin{t: map[string]int64{whole: 1000000000, "(" + slin{t: map[string]int64{rest: 1000000000}}.String() + " / " + by + ")": 1}}.String())
			}
			ok := len(t.ret) == 1 && t.ret[0].isInt
			if ok {
				ok = false
				for _, w := range want {
					ok = ok || t.ret[0].lin.String() == w
				}
			}
			if !ok {
				c.bad("value", "%s is returned, not %s", t.ret[0].str(), want[0])
				return
			}
			r.ok("")
		}
	}
}

// mp4Mux is one path of the writer.
type mp4Mux struct {
	t   *Trace
	c   chk
	bad string
	hdr bool // the header is written on this path
}

func (m *mp4Mux) fail(f string, a ...interface{}) {
	if m.bad == "" {
		m.bad = fmt.Sprintf(f, a...)
	}
}

// header: the mdat header comes before everything else, once.
func (m *mp4Mux) header() (done bool) {
	t := m.t
	var w []sevent
	for _, e := range t.events {
		if e.kind == "write" && plain(e.name) == "p0.w" {
			w = append(w, e)
		}
	}
	switch t.isSet("p0.fileHdrWritten") {
	case -1:
		m.fail("whether the header is written is not looked at")
		return true
	case 1:
		return false
	}
	m.hdr = true
	for _, e := range t.events {
		if e.kind == "write" && plain(e.name) != "p0.w" {
			m.fail("something is written before the header")
		}
		if e.kind == "write" {
			break
		}
	}
	if len(w) == 0 {
		m.fail("the header is not written")
		return true
	}
	e := w[0]
	n, ok := t.constOf(t.x.fromLin(e.args[1].length, types.Typ[types.Int]))
	if !e.args[1].hasLen || !ok || n != 8 {
		m.fail("the header has not 8 bytes")
		return true
	}
	if s, _, ok := t.outIs(0, bytesOf(append(cbits(tagWord("mdat"), 32), cbits(0, 32)...))); !ok {
		m.fail("the header is not that of an mdat box: %s", s)
		return true
	}
	switch t.nilState(e.res.tup[1]) {
	case 0:
		if !t.failure(0) {
			m.fail("an error in writing the header is dropped")
		}
		return true
	case -1:
		m.fail("an error in writing the header is dropped")
		return true
	}
	if v := t.put("p0.fileHdrWritten"); t.truth(v) != 1 {
		m.fail("the header will be written again")
	}
	first := t.firstStore("p0.wpos")
	if first == nil || !t.linIs(first, sterm("p0.wpos").add(sc(8), 1)) {
		m.fail("the header is not counted")
	}
	return m.bad != ""
}

func (t *Trace) firstStore(cell string) *sval {
	for _, e := range t.events {
		if e.kind == "store" && plain(e.name) == cell {
			return e.args[0]
		}
	}
	return nil
}

// ticks is the result of a time conversion, if there is one of this time.
func (t *Trace) ticks(tm slin, s string) (slin, bool) {
	for _, e := range t.events {
		if e.kind != "call" || len(e.args) != 2 {
			continue
		}
		switch calleeName(e) {
		case mp4Dir + ":Stream.timeToTs":
			if plain(e.args[0].sym) == s && t.isEq(e.args[1].lin.add(tm, -1)) {
				return e.res.lin, true
			}
		case mp4Dir + ":timeToTs":
			if t.isEq(e.args[0].lin.add(tm, -1)) && plain(e.args[1].sym) == s+".timeScale" {
				return e.res.lin, true
			}
		}
	}
	return sc(0), false
}

// appendedTo: the elements added to the list in a cell, nil when it is as it was.
func (t *Trace) appendedTo(cell string) (out []*sval, ok bool) {
	v := t.put(cell)
	if v == nil {
		return nil, true
	}
	if len(v.list) == 0 || v.list[0].spread == nil || plain(v.list[0].spread.sym) != cell {
		return nil, false
	}
	for _, l := range v.list[1:] {
		if l.one == nil {
			return nil, false
		}
		out = append(out, l.one)
	}
	return out, true
}

// one: exactly this is added to a list of numbers.
func (m *mp4Mux) one(cell string, want *sval, n int, what string) {
	l, ok := m.t.appendedTo(cell)
	if !ok || len(l) != 1 || !sameBits(l[0], want, n) {
		m.fail("%s is not added to %s", what, cell)
	}
}

// runs: a run length table is extended by one sample with value v.
func (m *mp4Mux) runs(table, entry, field string, v *sval, what string) {
	t := m.t
	same := 0 // the last run has the value
	switch t.isNil(entry) {
	case 1:
	case 0:
		same = t.isZero(v.lin.add(t.term(entry+"."+field), -1))
	case -1:
		m.fail("whether there is a run of %ss is not looked at", what)
		return
	}
	if same < 0 {
		m.fail("the last %s is not compared", what)
		return
	}
	l, ok := t.appendedTo(table + ".Entries")
	if !ok {
		m.fail("the table of %ss is replaced", what)
		return
	}
	if same == 1 {
		if len(l) > 0 {
			m.fail("a new run of %ss is begun for the same %s", what, what)
		} else if s := t.put(entry + ".Count"); s == nil || !t.isEq(s.lin.add(t.term(entry+".Count"), -1).add(sc(-1), 1)) {
			m.fail("the run of %ss does not grow by one", what)
		} else if t.put(entry) != nil {
			m.fail("the last run of %ss is forgotten", what)
		}
		return
	}
	if len(l) != 1 {
		m.fail("no new run of %ss is begun for another %s", what, what)
		return
	}
	if !sameBits(l[0].fieldOf(field), v, 32) {
		m.fail("the %s of the new run is another", what)
		return
	}
	n, known := constOf(l[0].fieldOf("Count"))
	p := t.put(entry)
	last := ""
	for _, e := range t.events {
		if e.kind == "append" && e.res != nil && e.res.list != nil && len(e.args) > 0 && plain(e.args[0].sym) == table+".Entries" {
			last = e.res.sym
		}
	}
	if p == nil || last == "" || p.sym != fmt.Sprintf("%s[len(%s)-1]", last, last) && plain(p.sym) != fmt.Sprintf("%s[len(%s.Entries)-1]", last, table) {
		m.fail("the new run of %ss is not kept as the last one", what)
		return
	}
	if s := t.put(plain(p.sym) + ".Count"); s != nil {
		d := s.lin.add(sterm(p.sym+".Count"), -1)
		if !d.konst() {
			known = false
		}
		n += d.c
	}
	if !known || n != 1 {
		m.fail("the new run of %ss does not have one sample", what)
	}
}

func (r *Report) mp4WritePacket() {
	P := mp4Dir + ":"
	f := r.buildFor(P+"Muxer.WritePacket", stopAt(P+"Muxer.addStreams", P+"Stream.timeToTs", P+"timeToTs"))
	if f == nil {
		return
	}
	got := map[string]int{}
	for _, t := range r.walkInitN(f, 20000, 3, nil) {
		if t.back {
			continue
		}
		m := &mp4Mux{t: t, c: chk{r, t, "mp4|WritePacket"}}
		if t.end == nil || len(t.ret) != 1 {
			m.c.bad("end", "a path does not end in a plain result")
			return
		}
		k := m.packet()
		if m.bad != "" {
			m.c.bad(k, "%s", m.bad)
			return
		}
		got[k]++
		r.ok("")
	}
	for _, k := range []string{"header", "stream", "first", "refused", "write", "sample"} {
		r.need("walks of WritePacket: "+k, got[k], 1)
	}
}

// packet checks one path of WritePacket and says of which kind it is.
// lookedUp reads a decided condition as the question whether a map has an
// entry (1: it has, 0: it has not, -1: the condition asks something else).
func (t *Trace) lookedUp(cond, of string) (cell string, in int) {
	if !strings.HasPrefix(cond, "lookup("+of) {
		return "", -1
	}
	v := t.bools[cond]
	if c := strings.TrimSuffix(cond, ".ok"); c != cond {
		if !strings.HasSuffix(c, ")") && strings.Contains(c, ").") {
			return "", -1
		}
		if v {
			return c, 1
		}
		return c, 0
	}
	if c := strings.TrimSuffix(cond, "==nil"); c != cond {
		if strings.Contains(c, ").") || regexp.MustCompile(`\)#\d+\.`).MatchString(c) {
			return "", -1
		}
		if v {
			return c, 0
		}
		return c, 1
	}
	return "", -1
}

func (m *mp4Mux) packet() string {
	t := m.t
	if m.header() {
		return "header"
	}
	// the stream
	s, pkt := "", ""
	var absent int
	for c := range t.bools {
		if cell, in := t.lookedUp(c, "p0.streams"); in > 0 {
			s = plain(cell)
		} else if in == 0 {
			absent++
		}
	}
	var add, str *sevent
	for i := range t.events {
		e := &t.events[i]
		if e.kind == "call" && calleeName(*e) == mp4Dir+":Muxer.addStreams" {
			add = e
		}
		if e.kind == "call" && e.in.Method != nil && e.in.Method.Name() == "Streams" && e.args[0].sym == "p0.w" {
			str = e
		}
	}
	if s == "" {
		if str != nil && add != nil && t.nilState(str.res.tup[1]) == 1 && t.nilState(add.res) == 1 {
			if absent < 2 {
				m.fail("the streams added are not looked at")
			}
		}
		if str == nil || t.nilState(str.res.tup[1]) < 0 || t.nilState(str.res.tup[1]) == 1 && (add == nil || add.args[1].sym != str.res.tup[0].sym) {
			m.fail("a packet of a new stream is refused without asking for the streams")
		}
		if !t.failure(0) && !(add != nil && len(t.ret) == 1 && t.ret[0].sym == add.res.sym) {
			m.fail("a packet of an unknown stream is dropped")
		}
		return "stream"
	}
	if str != nil && t.nilState(str.res.tup[1]) != 1 || add != nil && t.nilState(add.res) != 1 {
		m.fail("an error in getting the streams is dropped")
		return "stream"
	}
	// the packet kept for later is a copy of the argument
	pkt = "p1"
	for _, e := range t.events {
		if e.kind == "store" && strings.HasPrefix(e.name, "alloc@") && e.args[0].sym == "p1" {
			pkt = e.name
			break
		}
	}
	var data []sevent
	for _, e := range t.events {
		if e.kind == "write" && plain(e.name) != "p0.w" {
			data = append(data, e)
		}
	}
	keep := t.put(s + ".lastpkt")
	kept := keep != nil && (keep.sym == pkt && pkt != "p1")
	switch t.isNil(s + ".lastpkt") {
	case -1:
		m.fail("whether a packet waits is not looked at")
		return "first"
	case 1:
		if len(data) > 0 || !t.success(0) {
			m.fail("the first packet of a stream is not kept for later only")
		} else if !kept {
			m.fail("the first packet is not kept")
		}
		return "first"
	}
	if m.hdr {
		// No packet waits before the header is written: it is written before
		// a packet is kept.
		return "unreachable"
	}
	last := s + ".lastpkt"
	wpos := func() slin {
		for _, n := range []string{s + ".muxer.wpos", "p0.wpos"} {
			for _, v := range t.events {
				if v.kind == "store" && plain(v.name) == n {
					return t.term(n)
				}
			}
		}
		return t.term(s + ".muxer.wpos")
	}()
	past := t.term(pkt + ".Time")
	if past.eq(sterm(pkt + ".Time")) {
		past = sterm("p1.Time")
	}
	prev := t.term(last + ".Time")
	size := t.term("len(" + last + ".Data)")
	if len(data) == 0 {
		if !t.failure(0) {
			m.fail("the packet that waits is dropped")
		} else if !t.implies(prev.add(past, -1).add(sc(-1), 1)) && !t.implies(wpos.add(size, 1).add(sc(-1<<32), 1)) {
			m.fail("a packet is refused though it is in time and there is room")
		} else if keep != nil {
			m.fail("a refused packet is kept")
		}
		return "refused"
	}
	if !t.implies(past.add(prev, -1)) {
		m.fail("a packet that goes back in time is not refused")
		return "refused"
	}
	if !t.implies(wpos.add(size, 1).mul(-1).add(sc(1<<32-1), 1)) {
		m.fail("the size of the file is not looked at")
		return "refused"
	}
	if n := plain(data[0].name); len(data) != 1 || n != s+".muxer.bufw" && n != "p0.bufw" || plain(data[0].args[1].sym) != last+".Data" {
		m.fail("not exactly the data of the packet that waits is written")
		return "write"
	}
	if t.nilState(data[0].res.tup[1]) != 1 {
		if !t.failure(0) || keep != nil {
			m.fail("an error in writing is dropped")
		}
		return "write"
	}
	if !t.success(0) {
		m.fail("a packet written is reported as an error")
		return "sample"
	}
	// the tables
	now, ok := t.ticks(past, s)
	before, ok2 := t.ticks(prev, s)
	if !ok || !ok2 {
		m.fail("the duration is not the difference of the two times in ticks")
		return "sample"
	}
	dur := t.low32(now.add(before, -1))
	m.runs(s+".sample.TimeToSample", s+".sttsEntry", "Duration", dur, "duration")
	if v := t.put(s + ".duration"); v == nil || !t.isEq(v.lin.add(t.term(s+".duration"), -1).add(dur.lin, -1)) {
		m.fail("the duration of the track does not grow by that of the sample")
	}
	switch t.isNil(s + ".sample.CompositionOffset") {
	case -1:
		m.fail("whether the track has composition offsets is not looked at")
	case 0:
		ct := t.term(last + ".CTime")
		off, ok := t.ticks(ct, s)
		if !ok {
			m.fail("the composition offset is not in ticks")
			break
		}
		m.runs(s+".sample.CompositionOffset", s+".cttsEntry", "Offset", t.low32(off), "offset")
		v := t.put(s + ".sample.CompositionOffset.Version")
		if k, ok := constOf(v); v != nil && (!ok || k != 1) || v == nil && !t.implies(ct) || v != nil && !t.implies(ct.mul(-1).add(sc(-1), 1)) {
			m.fail("the version of the composition offsets does not tell their sign")
		}
	case 1:
		if l, ok := t.appendedTo(s + ".sample.CompositionOffset.Entries"); !ok || len(l) > 0 {
			m.fail("a composition offset is recorded in no table")
		}
	}
	idx := t.term(s + ".sampleIndex")
	next := t.x.fromLin(idx.add(sc(1), 1), i64)
	if v := t.put(s + ".sampleIndex"); v == nil || !t.isEq(v.lin.add(next.lin, -1)) {
		m.fail("samples are not counted")
	}
	key, sync := t.isSet(last+".IsKeyFrame"), t.isNil(s+".sample.SyncSample")
	switch {
	case key == 1 && sync == 0:
		m.one(s+".sample.SyncSample.Entries", next, 32, "the number of the key frame")
	case key == 0 || sync == 1:
		if l, ok := t.appendedTo(s + ".sample.SyncSample.Entries"); !ok || len(l) > 0 {
			m.fail("a frame that is no key frame is listed as one")
		}
	default:
		m.fail("key frames are not looked at")
	}
	m.one(s+".sample.ChunkOffset.Entries", t.low32(wpos), 32, "the place of the sample")
	m.one(s+".sample.SampleSize.Entries", t.low32(size), 32, "the size of the sample")
	end := t.put(s + ".muxer.wpos")
	if end == nil {
		end = t.put("p0.wpos")
	}
	if end == nil || !t.isEq(end.lin.add(wpos, -1).add(size, -1)) {
		m.fail("the bytes written are not counted")
	}
	if !kept {
		m.fail("the packet is not kept for later")
	}
	return "sample"
}

// errOf is the error a call returns, nil when it returns none.
func errOf(e sevent) *sval {
	if e.res == nil {
		return nil
	}
	if n := len(e.res.tup); n > 0 {
		return e.res.tup[n-1]
	}
	return e.res
}

// passes: an error of a call ends the path; false when it does.
func (m *mp4Mux) passes(e sevent, what string) bool {
	t := m.t
	if t.end == nil || len(t.ret) == 0 {
		m.fail("%s is not the end of a path", what)
		return false
	}
	ret := t.ret[len(t.ret)-1]
	switch t.nilState(errOf(e)) {
	case 1:
		return true
	case 0:
		if t.nilState(ret) != 0 {
			m.fail("an error of %s is dropped", what)
		}
		return false
	}
	if ret.sym != errOf(e).sym {
		m.fail("an error of %s is dropped", what)
	}
	return false
}

// mp4Trailer: what waits is written, then the size of the mdat box and the
// tables follow.
func (r *Report) mp4Trailer() {
	P := mp4Dir + ":"
	io4 := mp4Pkg + ":"
	f := r.buildFor(P+"Muxer.WriteTrailer", stopAt(P+"Stream.writePacket", P+"Stream.fillTrackAtom", P+"Muxer.sortedStreams", P+"timeToTs", P+"Stream.timeToTs", P+"tsToTime", P+"Stream.tsToTime", io4+"Movie.Len", io4+"Movie.Marshal"))
	if f == nil {
		return
	}
	got := map[string]int{}
	for _, t := range r.walkInitN(f, 20000, 3, nil) {
		if t.back {
			continue
		}
		m := &mp4Mux{t: t, c: chk{r, t, "mp4|WriteTrailer"}}
		if t.end == nil || len(t.ret) != 1 {
			m.c.bad("end", "a path does not end in a plain result")
			return
		}
		k := m.trailer()
		if m.bad != "" {
			m.c.bad(k, "%s", m.bad)
			return
		}
		got[k]++
		r.ok("")
	}
	for _, k := range []string{"header", "packets", "tracks", "size", "whole"} {
		r.need("walks of WriteTrailer: "+k, got[k], 1)
	}
}

func (m *mp4Mux) trailer() string {
	t := m.t
	if m.header() {
		return "header"
	}
	list := ""
	var tracks, ioOps []sevent
	for _, e := range t.events {
		n := ""
		if e.kind == "call" {
			n = calleeName(e)
		}
		switch {
		case n == mp4Dir+":Muxer.sortedStreams":
			list = e.res.sym
		case n == mp4Dir+":Stream.fillTrackAtom":
			tracks = append(tracks, e)
			if len(ioOps) > 0 && calleeName(ioOps[len(ioOps)-1]) == mp4Pkg+":Movie.Len" {
				m.fail("a track is completed after the tables are written")
			}
		case e.kind == "call" && e.in.Method != nil && e.in.Method.Name() == "Seek" && plain(e.args[0].sym) == "p0.w", e.kind == "write" && plain(e.name) == "p0.w":
			ioOps = append(ioOps, e)
		case strings.HasSuffix(n, ":Stream.writePacket"), n == mp4Pkg+":Movie.Len", n == mp4Pkg+":Movie.Marshal", strings.HasSuffix(callName(e), "bufio.Writer).Flush"):
			ioOps = append(ioOps, e)
			if len(tracks) > 0 && strings.HasSuffix(n, ":Stream.writePacket") {
				m.fail("a track is completed before its last packet is written")
			}
		}
	}
	if m.hdr && len(ioOps) > 0 {
		ioOps = ioOps[1:]
	}
	if list == "" {
		m.fail("the streams are not taken")
		return "packets"
	}
	nstr := sterm("len(" + list + ")")
	k, j := 0, 0
	next := func(what string, is func(e sevent) bool) (sevent, bool) {
		if k >= len(ioOps) || !is(ioOps[k]) {
			m.fail("%s does not follow", what)
			return sevent{}, false
		}
		e := ioOps[k]
		k++
		return e, m.passes(e, what)
	}
	// the packets that wait
	n := 0
	for {
		if t.implies(sc(int64(n)).add(nstr, -1)) {
			break
		}
		if !t.implies(nstr.add(sc(-int64(n+1)), 1)) {
			m.fail("whether there is a stream %d is not looked at", n)
			return "packets"
		}
		s := fmt.Sprintf("%s[%d]", list, n)
		switch t.isNil(s + ".lastpkt") {
		case -1:
			m.fail("whether a packet of stream %d waits is not looked at", n)
			return "packets"
		case 0:
			e, ok := next("the packet that waits", func(e sevent) bool { return calleeName(e) == mp4Dir+":Stream.writePacket" })
			if m.bad == "" {
				d, known := constOf(e.args[2])
				if e.args[0].sym != s || !t.sameInt(e.args[1].fieldOf("Time"), s+".lastpkt.Time") || !known || d != 0 {
					m.fail("the packet that waits in stream %d is not written with duration 0", n)
				} else if ok {
					if v := t.put(s + ".lastpkt"); v == nil || !v.isNil {
						m.fail("the packet that waits in stream %d would be written again", n)
					}
				}
			}
			if !ok || m.bad != "" {
				return "packets"
			}
		}
		n++
	}
	// the tracks
	for j < n {
		if j >= len(tracks) {
			m.fail("track %d is not completed", j)
			return "tracks"
		}
		e := tracks[j]
		if e.args[0].sym != fmt.Sprintf("%s[%d]", list, j) {
			m.fail("track %d is not completed", j)
		}
		if !m.passes(e, "a track") || m.bad != "" {
			return "tracks"
		}
		j++
	}
	if j != len(tracks) {
		m.fail("more tracks are completed than there are")
		return "tracks"
	}
	// the size of the mdat box
	if _, ok := next("a flush of the data", func(e sevent) bool { return strings.HasSuffix(callName(e), "bufio.Writer).Flush") }); !ok {
		return "size"
	}
	seek := func(off, whence int64) (sevent, bool) {
		return next("a seek", func(e sevent) bool {
			if e.kind != "call" || e.in.Method == nil || e.in.Method.Name() != "Seek" {
				return false
			}
			a, ok := constOf(e.args[1])
			b, ok2 := constOf(e.args[2])
			return ok && ok2 && a == off && b == whence
		})
	}
	at, ok := seek(0, 1)
	if !ok {
		return "size"
	}
	if _, ok := seek(0, 0); !ok {
		return "size"
	}
	first := 0
	if m.hdr {
		first = 8
	}
	_, ok = next("the size of the mdat box", func(e sevent) bool {
		n, c := t.constOf(t.x.fromLin(e.args[len(e.args)-1].length, types.Typ[types.Int]))
		return e.kind == "write" && e.args[1].hasLen && c && n == 4
	})
	if m.bad == "" {
		if s, _, ok := t.outIs(first, bytesOf(t.low32(at.res.tup[0].lin).bits[:32])); !ok {
			m.fail("the size of the mdat box is another: %s", s)
		}
	}
	if !ok || m.bad != "" {
		return "size"
	}
	if _, ok := seek(0, 2); !ok {
		return "size"
	}
	// the tables
	if k+2 >= len(ioOps) || calleeName(ioOps[k]) != mp4Pkg+":Movie.Len" || calleeName(ioOps[k+1]) != mp4Pkg+":Movie.Marshal" || ioOps[k+2].kind != "write" || k+3 != len(ioOps) {
		m.fail("the tables are not written last")
		return "moov"
	}
	l, w, e := ioOps[k], ioOps[k+1], ioOps[k+2]
	if l.args[0].str() != w.args[0].str() {
		m.fail("other tables are written than were measured")
	}
	if b := e.args[1]; b.sym != w.args[1].sym || !strings.HasPrefix(b.sym, "make@") || !b.hasLen || !t.isEq(b.length.add(l.res.lin, -1)) {
		m.fail("not exactly the tables are written")
	}
	mv := w.args[0]
	hd := mv.fieldOf("Header")
	if hd == nil {
		m.fail("the movie has no header")
		return "moov"
	}
	scale, known := constOf(t.put(hd.sym + ".TimeScale"))
	if !known || scale <= 0 {
		m.fail("the movie has no time scale")
	}
	if v := t.put(hd.sym + ".NextTrackId"); v == nil || !sameBits(v, t.low32(nstr.add(sc(1), 1)), 32) {
		m.fail("the next track id is in use")
	}
	trs := t.items(mv.fieldOf("Tracks"), nil)
	if len(trs) != n {
		m.fail("%d tracks are listed, not %d", len(trs), n)
		return "moov"
	}
	ts := func(x slin) (out []slin) {
		for _, e := range t.events {
			if e.kind == "call" && calleeName(e) == mp4Dir+":timeToTs" && t.isEq(e.args[0].lin.add(x, -1)) {
				if s, ok := constOf(e.args[1]); ok && s == scale {
					out = append(out, e.res.lin)
				}
			}
		}
		return
	}
	is32 := func(v *sval, l []slin) bool {
		for _, x := range l {
			if v != nil && sameBits(v, t.low32(x), 32) {
				return true
			}
		}
		return false
	}
	longest := []slin{sc(0)}
	for i, it := range trs {
		s := fmt.Sprintf("%s[%d]", list, i)
		tr := s + ".trackAtom"
		if it.one == nil || it.one.sym != tr {
			m.fail("track %d is not listed in its place", i)
			break
		}
		var d *sval
		for _, e := range t.events {
			if e.kind != "call" {
				continue
			}
			switch n := calleeName(e); {
			case n == mp4Dir+":Stream.tsToTime" && e.args[0].sym == s && plain(e.args[1].sym) == s+".duration",
				n == mp4Dir+":Stream.tsToTime" && e.args[0].sym == s && e.args[1].isInt && plain(e.args[1].lin.String()) == s+".duration",
				n == mp4Dir+":tsToTime" && plain(e.args[0].lin.String()) == s+".duration" && plain(e.args[1].lin.String()) == s+".timeScale":
				d = e.res
			}
		}
		if d == nil {
			m.fail("the duration of track %d is not taken", i)
			break
		}
		longest = append(longest, d.lin)
		if !is32(t.put(tr+".Header.Duration"), ts(d.lin)) {
			m.fail("track %d has another duration", i)
		}
	}
	found := false
	for _, x := range longest {
		top := true
		for _, y := range longest {
			top = top && t.implies(x.add(y, -1))
		}
		if !top {
			continue
		}
		if is32(t.put(hd.sym+".Duration"), ts(x)) {
			found = true
		}
	}
	if m.bad == "" && !found {
		m.fail("the duration of the movie is not that of the longest track")
	}
	if !m.passes(e, "writing the tables") {
		if m.bad == "" && t.nilState(errOf(e)) < 0 {
			return "whole" // the error of the last write is the result
		}
		return "moov"
	}
	if !t.success(0) {
		m.fail("a file written is reported as an error")
	}
	return "whole"
}

// callName is the full name of the function called.
func callName(e sevent) string {
	if e.kind != "call" || e.in == nil {
		return ""
	}
	return e.name
}

// mp4Track: the track box of each codec.
func (r *Report) mp4Track() {
	f := r.buildFor(mp4Dir+":Stream.fillTrackAtom", stopAt("codec/aac:ChannelLayout.Count"))
	if f == nil {
		return
	}
	got := map[string]int{}
	for _, t := range r.walkInitN(f, 1000, 3, nil) {
		if t.back {
			continue
		}
		m := &mp4Mux{t: t, c: chk{r, t, "mp4|fillTrackAtom"}}
		h, a := t.isSet("p0.Codec.(*h264.Codec).ok"), t.isSet("p0.Codec.(*aac.Codec).ok")
		if h != 1 && a != 1 {
			if h != 0 || a != 0 || !t.failure(0) {
				m.c.bad("other", "a codec that is not supported is no error")
				return
			}
			got["other"]++
			r.ok("")
			continue
		}
		if !t.success(0) {
			m.c.bad("error", "a supported codec is an error")
			return
		}
		md := "p0.trackAtom.Media"
		for cell, from := range map[string]string{"TimeScale": "p0.timeScale", "Duration": "p0.duration"} {
			if v := t.put(md + ".Header." + cell); v == nil || !sameBits(v, t.low32(sterm(from)), 32) {
				m.fail("%s is not that of the track", cell)
			}
		}
		sd := "p0.sample.SampleDesc"
		if h == 1 {
			cd := "p0.Codec.(*h264.Codec)"
			if v := t.nav(sd, "AVC1Desc", "Conf", "Data"); v.sym != cd+".ConfigBytes" {
				m.fail("the decoder configuration is %s", v.str())
			}
			for _, d := range [][2]string{{"Width", "W"}, {"Height", "H"}} {
				if v := t.nav(sd, "AVC1Desc", d[0]); !sameBits(v, t.low32(sterm(cd+"."+d[1])), 16) {
					m.fail("%s is %s", d[0], v.str())
				}
				if v := t.nav("p0.trackAtom.Header", "Track"+d[0]); v.sym != "float("+cd+"."+d[1]+")" {
					m.fail("Track%s is %s", d[0], v.str())
				}
			}
			if v := t.put(md + ".Info.Video"); v == nil || t.nilState(v) != 0 {
				m.fail("a video track has no video header")
			}
			got["video"]++
		} else {
			cd := "p0.Codec.(*aac.Codec)"
			if v := t.nav(sd, "MP4ADesc", "Conf", "DecConfig"); v.sym != cd+".ConfigBytes" {
				m.fail("the decoder configuration is %s", v.str())
			}
			n := t.calls("codec/aac:ChannelLayout.Count")
			if v := t.nav(sd, "MP4ADesc", "NumberOfChannels"); len(n) == 0 || !t.sameInt(n[0].args[0], cd+".Config.ChannelLayout") || !sameBits(v, t.low32(n[0].res.lin), 16) {
				m.fail("the number of channels is %s", v.str())
			}
			if v := t.nav(sd, "MP4ADesc", "SampleRate"); v.sym != "float("+cd+".Config.SampleRate)" {
				m.fail("the sample rate is %s", v.str())
			}
			if v := t.put(md + ".Info.Sound"); v == nil || t.nilState(v) != 0 {
				m.fail("an audio track has no sound header")
			}
			got["audio"]++
		}
		if m.bad != "" {
			m.c.bad("field", "%s", m.bad)
			return
		}
		r.ok("")
	}
	for _, k := range []string{"video", "audio", "other"} {
		r.need("walks of fillTrackAtom: "+k, got[k], 1)
	}
}

// mp4Tracks: a stream of each codec gets a track of its own, once.
func (r *Report) mp4Tracks() {
	f := r.buildFor(mp4Dir+":Muxer.addStreams", nil)
	if f == nil {
		return
	}
	got := map[string]int{}
	for _, t := range r.walkInitN(f, 1000, 3, nil) {
		if t.back {
			continue
		}
		m := &mp4Mux{t: t, c: chk{r, t, "mp4|addStreams"}}
		m.tracks(got)
		if m.bad != "" {
			m.c.bad("track", "%s", m.bad)
			return
		}
		r.ok("")
	}
	for _, k := range []string{"new H.264", "new AAC", "old", "refused", "whole"} {
		r.need("walks of addStreams: "+k, got[k], 1)
	}
}

// mp4New: the writer is set up over one file; all of its streams are taken.
func (r *Report) mp4New() {
	if f := r.buildFor(mp4Dir+":NewMuxer", stopAt(mp4Dir+":Muxer.addStreams")); f != nil {
		n := 0
		for _, t := range r.walkInitN(f, 1000, 3, nil) {
			m := &mp4Mux{t: t, c: chk{r, t, "mp4|NewMuxer"}}
			var str, add *sevent
			buf := false
			for i := range t.events {
				e := &t.events[i]
				switch {
				case e.kind == "call" && e.in.Method != nil && e.in.Method.Name() == "Streams" && e.args[0].sym == "p0":
					str = e
				case calleeName(*e) == mp4Dir+":Muxer.addStreams":
					add = e
				case e.kind == "call" && strings.HasPrefix(e.name, "bufio.NewWriter") && e.args[0].sym == "p0":
					for _, s := range t.events {
						if s.kind == "store" && strings.HasSuffix(s.name, ".bufw") && s.args[0].sym == e.res.sym {
							buf = true
						}
					}
				}
			}
			switch {
			case str == nil:
				m.fail("the streams are not asked for")
			case !m.passes(*str, "getting the streams"):
			case add == nil || add.args[1].sym != str.res.tup[0].sym:
				m.fail("the streams are not added")
			case !m.passes(*add, "adding the streams"):
			default:
				mx := add.args[0].sym
				if t.ret[0].sym != mx || !t.success(1) {
					m.fail("another writer is returned")
				}
				if v := t.put(mx + ".w"); v == nil || v.sym != "p0" || !buf {
					m.fail("the writer is set up over another file")
				}
				if v := t.put(mx + ".streams"); v == nil || !strings.HasPrefix(v.sym, "makemap@") {
					m.fail("the writer has streams already")
				}
				n++
			}
			if m.bad != "" {
				m.c.bad("set-up", "%s", m.bad)
				return
			}
			r.ok("")
		}
		r.need("walks of NewMuxer", n, 1)
	}
	if f := r.buildFor(mp4Dir+":Muxer.sortedStreams", nil); f != nil {
		n := 0
		for _, t := range r.walkInitN(f, 1000, 4, nil) {
			if t.back {
				continue
			}
			var want, have []string
			for s, v := range t.bools {
				if strings.HasPrefix(s, "next@") && strings.HasSuffix(s, ".0") && v {
					want = append(want, strings.TrimSuffix(s, ".0")+".2")
				}
			}
			if len(t.ret) == 1 {
				v := t.ret[0]
				if v.list == nil && !v.isNil {
					v = t.put(plain(v.sym))
				}
				if v != nil {
					for _, l := range t.items(v, nil) {
						if l.one != nil {
							have = append(have, l.one.sym)
						} else {
							have = append(have, "...")
						}
					}
				}
			}
			sort.Strings(want)
			sort.Strings(have)
			if !sameStrs(have, want) {
				chk{r, t, "mp4|sortedStreams"}.bad("list", "%v is returned, not %v", have, want)
				return
			}
			n++
			r.ok("")
		}
		r.need("walks of sortedStreams", n, 2)
	}
}

func (m *mp4Mux) tracks(got map[string]int) {
	t := m.t
	if t.end == nil || len(t.ret) != 1 {
		m.fail("a path does not end in a plain result")
		return
	}
	n := sterm("len(p1)")
	type set struct {
		i int
		e sevent
	}
	var sets []set
	lens := map[int]sevent{}
	for i, e := range t.events {
		switch {
		case e.kind == "mapset" && plain(e.name) == "p0.streams":
			sets = append(sets, set{i, e})
		case e.kind == "call" && len(e.args) == 1 && plain(e.args[0].sym) == "p0.streams" && e.res != nil && e.res.isInt:
			lens[i] = e
		}
	}
	from, ns := 0, 0
	for i := 0; ; i++ {
		if t.implies(sc(int64(i)).add(n, -1)) {
			break
		}
		if !t.implies(n.add(sc(-int64(i+1)), 1)) {
			m.fail("whether there is a codec %d is not looked at", i)
			return
		}
		cd := fmt.Sprintf("p1[%d]", i)
		typ, name := 0, ""
		switch {
		case t.isSet(cd+".(*h264.Codec).ok") == 1:
			typ, name = 1, "H.264"
		case t.isSet(cd+".(*aac.Codec).ok") == 1:
			typ, name = 2, "AAC"
		case t.isSet(cd+".(*h264.Codec).ok") == 0 && t.isSet(cd+".(*aac.Codec).ok") == 0:
			if !t.failure(0) {
				m.fail("a codec that is not supported is no error")
			}
			got["refused"]++
			if ns != len(sets) {
				m.fail("a stream is added for it")
			}
			return
		default:
			m.fail("the kind of codec %d is not looked at", i)
			return
		}
		cell := fmt.Sprintf("lookup(p0.streams,%d)#%d", typ, ns)
		old := t.isNil(cell)
		if old < 0 {
			if has := t.isSet(cell + ".ok"); has >= 0 {
				old = 1 - has
			}
		}
		if old < 0 {
			m.fail("whether there is a stream of codec %d is not looked at", i)
			return
		}
		if old == 0 {
			got["old"]++
			continue
		}
		if ns >= len(sets) {
			m.fail("no stream is added for codec %d", i)
			return
		}
		s := sets[ns]
		ns++
		st := s.e.args[1].sym
		if k, ok := constOf(s.e.args[0]); !ok || k != int64(typ) || !strings.HasPrefix(st, "alloc@") {
			m.fail("the stream of codec %d is added as another", i)
			return
		}
		is := func(ok bool, f string, a ...interface{}) {
			if !ok {
				m.fail("the stream of codec %d: %s", i, fmt.Sprintf(f, a...))
			}
		}
		is(t.nav(st, "Codec").sym == cd, "another codec")
		is(t.nav(st, "muxer").sym == "p0", "another muxer")
		sc0, ok := constOf(t.nav(st, "timeScale"))
		is(ok && sc0 > 0 && sc0 < 1<<31, "no time scale")
		tr := t.nav(st, "trackAtom").sym
		id := t.nav(tr, "Header", "TrackId")
		idOK := false
		for k, e := range lens {
			if k >= from && k < s.i && sameBits(id, t.low32(e.res.lin.add(sc(1), 1)), 32) {
				idOK = true
			}
		}
		is(idOK, "the track id is not one more than the tracks there are, but %s", id.str())
		is(t.nav(tr, "Media", "Info", "Sample").sym == t.nav(st, "sample").sym, "the track has another sample table")
		sm := t.nav(st, "sample").sym
		for _, tb := range []string{"SampleDesc", "TimeToSample", "SampleToChunk", "SampleSize", "ChunkOffset"} {
			v := t.nav(sm, tb)
			is(strings.HasPrefix(v.sym, "alloc@"), "no table %s", tb)
		}
		for _, tb := range []string{"SyncSample", "CompositionOffset"} {
			v := t.put(sm + "." + tb)
			is(typ == 2 && (v == nil || v.isNil) || typ == 1 && v != nil && strings.HasPrefix(v.sym, "alloc@"), "table %s", tb)
		}
		is(strings.HasPrefix(t.nav(tr, "Media", "Header").sym, "alloc@"), "no media header")
		ent := t.items(t.nav(sm, "SampleToChunk", "Entries"), nil)
		one := len(ent) == 1 && ent[0].one != nil
		for _, f := range []string{"FirstChunk", "SamplesPerChunk", "SampleDescId"} {
			if one {
				k, ok := constOf(ent[0].one.fieldOf(f))
				one = ok && k == 1
			}
		}
		is(one, "not one sample per chunk")
		from = s.i
		got["new "+name]++
	}
	if ns != len(sets) {
		m.fail("more streams are added than there are")
	}
	if !t.success(0) {
		m.fail("supported codecs are an error")
	}
	got["whole"]++
}

// mp4Stores: the state of a track changes in the functions walked only.
func (r *Report) mp4Stores(typ string, fields []string, fns ...string) {
	allowed := map[string]bool{}
	for _, n := range fns {
		if fn := r.P.fn(mp4Dir, n); fn != nil {
			r.P.withCallees(fn, allowed)
		}
	}
	n := 0
	for _, fn := range r.P.AllFuncs {
		if fn.Pkg == nil || relPkg(fn.Pkg.Pkg.Path()) != mp4Dir {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				if nm := namedOf(fa.X.Type()); nm == nil || nm.Obj().Name() != typ {
					continue
				}
				for _, f := range fields {
					if fieldName(fa.X.Type(), fa.Field) == f {
						n++
						r.check(allowed[anchorName(fn)], "mp4|stores|"+typ+"."+f+"|"+anchorName(fn), r.P.pos(in.Pos()), anchorName(fn)+" changes "+typ+"."+f+", which only "+strings.Join(fns, ", ")+" may")
					}
				}
			}
		}
	}
	r.need("stores to "+typ+" fields", n, len(fields))
}

// withCallees adds a function and the functions of the module it calls.
func (p *Prog) withCallees(fn *ssa.Function, to map[string]bool) {
	if to[anchorName(fn)] {
		return
	}
	to[anchorName(fn)] = true
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				if g := c.Common().StaticCallee(); g != nil && g.Blocks != nil && inModule(fnPkgPath(g)) {
					p.withCallees(g, to)
				}
			}
		}
	}
}

func init() {
	register("C25", "proof", func(r *Report, thorough bool) {
		r.rule("WritePacket, WriteTrailer and the set-up of tracks are walked path by path with symbolic packets and tracks; what is written and added to the sample tables is compared with the packet that waited and the time of the next one.")
		r.mp4Ticks()
		r.mp4WritePacket()
		r.mp4Trailer()
		r.mp4Track()
		r.mp4Tracks()
		r.mp4New()
		r.mp4Stores("Muxer", []string{"wpos", "fileHdrWritten"}, "Muxer.WritePacket", "Muxer.WriteTrailer")
		r.mp4Stores("Stream", []string{"lastpkt", "sttsEntry", "cttsEntry", "duration"}, "Muxer.WritePacket", "Muxer.WriteTrailer")
	})
}
