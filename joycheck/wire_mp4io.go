package main

import (
	"fmt"
	"go/types"
	"strings"
)

// C11: MP4 boxes.

// mp4Item is a part of the content of a box.
type mp4Item struct {
	kind  string // int, time, fixed, pad, ints, bytes, rest, entries, child, list, unknown, count
	name  string
	bits  int // of each
	n     int
	cond  mp4Cond
	elems []mp4Item
}

// mp4Cond tells when a part is there.
type mp4Cond struct {
	name string
	bit  int // number of a bit, or -1: when not 0
	not  bool
}

// The boxes in the notation of mp4Layout. "?X" is the child X, "*X" a list of
// children, "+" what other children there are, "#" the number of children.
var mp4Boxes = []struct{ typ, tag, layout string }{
	{"Movie", "moov", "?Header:mvhd ?MovieExtend:mvex *Tracks:trak +"},
	{"MovieHeader", "mvhd", "Version:8 Flags:24 CreateTime:t32 ModifyTime:t32 TimeScale:32 Duration:32 PreferredRate:f32 PreferredVolume:f16 _:80 Matrix:9x32 PreviewTime:t32 PreviewDuration:t32 PosterTime:t32 SelectionTime:t32 SelectionDuration:t32 CurrentTime:t32 NextTrackId:32"},
	{"Track", "trak", "?Header:tkhd ?Media:mdia +"},
	{"TrackHeader", "tkhd", "Version:8 Flags:24 CreateTime:t32 ModifyTime:t32 TrackId:32 _:32 Duration:32 _:64 Layer:16 AlternateGroup:16 Volume:f16 _:16 Matrix:9x32 TrackWidth:f32 TrackHeight:f32"},
	{"Media", "mdia", "?Header:mdhd ?Handler:hdlr ?Info:minf +"},
	{"MediaHeader", "mdhd", "Version:8 Flags:24 CreateTime:t32 ModifyTime:t32 TimeScale:32 Duration:32 Language:16 Quality:16"},
	{"HandlerRefer", "hdlr", "Version:8 Flags:24 Type:b4 SubType:b4 Name:rest"},
	{"MediaInfo", "minf", "?Sound:smhd ?Video:vmhd ?Data:dinf ?Sample:stbl +"},
	{"SoundMediaInfo", "smhd", "Version:8 Flags:24 Balance:16 _:16"},
	{"VideoMediaInfo", "vmhd", "Version:8 Flags:24 GraphicsMode:16 Opcolor:3x16"},
	{"DataInfo", "dinf", "?Refer:dref +"},
	{"DataRefer", "dref", "Version:8 Flags:24 # ?Url:url "},
	{"DataReferUrl", "url ", "Version:8 Flags:24"},
	{"SampleTable", "stbl", "?SampleDesc:stsd ?TimeToSample:stts ?CompositionOffset:ctts ?SampleToChunk:stsc ?SyncSample:stss ?ChunkOffset:stco ?SampleSize:stsz"},
	{"SampleDesc", "stsd", "Version:8 _:24 # ?AVC1Desc:avc1 ?MP4ADesc:mp4a +"},
	{"MP4ADesc", "mp4a", "_:48 DataRefIdx:16 Version:16 RevisionLevel:16 Vendor:32 NumberOfChannels:16 SampleSize:16 CompressionId:16 _:16 SampleRate:f32 ?Conf:esds +"},
	{"AVC1Desc", "avc1", "_:48 DataRefIdx:16 Version:16 Revision:16 Vendor:32 TemporalQuality:32 SpatialQuality:32 Width:16 Height:16 HorizontalResolution:f32 VorizontalResolution:f32 _:32 FrameCount:16 CompressorName:b32 Depth:16 ColorTableId:16 ?Conf:avcC +"},
	{"AVC1Conf", "avcC", "Data:rest"},
	{"TimeToSample", "stts", "Version:8 Flags:24 Entries:n{Count:32,Duration:32}"},
	{"SampleToChunk", "stsc", "Version:8 Flags:24 Entries:n{FirstChunk:32,SamplesPerChunk:32,SampleDescId:32}"},
	{"CompositionOffset", "ctts", "Version:8 Flags:24 Entries:n{Count:32,Offset:32}"},
	{"SyncSample", "stss", "Version:8 Flags:24 Entries:n{:32}"},
	{"ChunkOffset", "stco", "Version:8 Flags:24 Entries:n{:32}"},
	{"SampleSize", "stsz", "Version:8 Flags:24 SampleSize:32 [SampleSize]SampleCount:32 [!SampleSize]Entries:n{:32}"},
	{"MovieFrag", "moof", "?Header:mfhd *Tracks:traf +"},
	{"MovieFragHeader", "mfhd", "Version:8 Flags:24 Seqnum:32"},
	{"TrackFrag", "traf", "?Header:tfhd ?DecodeTime:tfdt ?Run:trun +"},
	{"TrackFragHeader", "tfhd", "Version:8 Flags:24 TrackId:32 [Flags&0]BaseDataOffset:64 [Flags&1]StsdId:32 [Flags&3]DefaultDuration:32 [Flags&4]DefaultSize:32 [Flags&5]DefaultFlags:32"},
	{"TrackFragDecodeTime", "tfdt", "Version:8 Flags:24 [Version]Time:t64 [!Version]Time:t32"},
	{"TrackFragRun", "trun", "Version:8 Flags:24 #Entries [Flags&0]DataOffset:32 [Flags&2]FirstSampleFlags:32 Entries:m{[Flags&8]Duration:32,[Flags&9]Size:32,[Flags&10]Flags:32,[Flags&11]Cts:32}"},
	{"MovieExtend", "mvex", "*Tracks:trex +"},
	{"TrackExtend", "trex", "Version:8 Flags:24 TrackId:32 DefaultSampleDescIdx:32 DefaultSampleDuration:32 DefaultSampleSize:32 DefaultSampleFlags:32"},
}

const mp4Pkg = "format/mp4/mp4io"

func mp4Layout(s string) (out []mp4Item) {
	for _, w := range strings.Fields(s) {
		out = append(out, mp4Item1(w))
	}
	return
}

func mp4Item1(w string) (it mp4Item) {
	if w[0] == '[' {
		k := strings.Index(w, "]")
		c := w[1:k]
		w = w[k+1:]
		it = mp4Item1(w)
		it.cond.bit = -1
		if strings.HasPrefix(c, "!") {
			it.cond.not, c = true, c[1:]
		}
		if i := strings.Index(c, "&"); i >= 0 {
			fmt.Sscan(c[i+1:], &it.cond.bit)
			c = c[:i]
		}
		it.cond.name = c
		return
	}
	switch {
	case w == "+":
		return mp4Item{kind: "unknown", name: "Unknowns"}
	case w == "#":
		return mp4Item{kind: "count", bits: 32}
	case w[0] == '#':
		return mp4Item{kind: "len", name: w[1:], bits: 32}
	}
	k := strings.Index(w, ":")
	it.name, w = w[:k], w[k+1:]
	switch {
	case it.name != "" && it.name[0] == '?':
		it.kind, it.name = "child", it.name[1:]
	case it.name != "" && it.name[0] == '*':
		it.kind, it.name = "list", it.name[1:]
	case w == "rest":
		it.kind = "rest"
	case strings.HasSuffix(w, "}"):
		it.kind = "entries"
		if w[0] == 'm' {
			it.kind = "more" // the number is somewhere before
		}
		for _, e := range strings.Split(w[2:len(w)-1], ",") {
			it.elems = append(it.elems, mp4Item1(e))
		}
	case w[0] == 't':
		it.kind = "time"
		fmt.Sscan(w[1:], &it.bits)
	case w[0] == 'f':
		it.kind = "fixed"
		fmt.Sscan(w[1:], &it.bits)
	case w[0] == 'b':
		it.kind = "bytes"
		fmt.Sscan(w[1:], &it.n)
	case strings.Contains(w, "x"):
		it.kind = "ints"
		fmt.Sscanf(w, "%dx%d", &it.n, &it.bits)
	default:
		it.kind = "int"
		if it.name == "_" {
			it.kind = "pad"
		}
		fmt.Sscan(w, &it.bits)
	}
	return
}

// mp4Walk follows one path of a function of a box.
type mp4Walk struct {
	t      *Trace
	typ    string
	op     string // Marshal, Len or Unmarshal
	items  []mp4Item
	st     *types.Struct
	at     slin
	calls  []sevent // of children
	prims  []sevent // of the encodings of times and fixed point numbers
	nc     int
	np     int
	vals   map[string][]sbit // Unmarshal: fields read so far
	stop   string
	bad    string
	loose  bool // a length nobody looked at, on a path that fails
	nelem  int
	nchild int
}

func (w *mp4Walk) fail(f string, a ...interface{}) {
	if w.bad == "" {
		w.bad = fmt.Sprintf(f, a...)
	}
}

// field is the type of a field of the box.
func (w *mp4Walk) field(name string) types.Type {
	for i := 0; i < w.st.NumFields(); i++ {
		if w.st.Field(i).Name() == name {
			return w.st.Field(i).Type()
		}
	}
	w.fail("there is no field %s", name)
	return types.Typ[types.Int]
}

// holds tells whether a part is there on this path.
func (w *mp4Walk) holds(c mp4Cond) bool {
	if c.name == "" {
		return true
	}
	bw, _, _ := intInfo(w.field(c.name))
	bs := fld("p0."+c.name, bw-1, 0)
	if w.op == "Unmarshal" {
		bs = w.vals[c.name]
	}
	k := -1
	if c.bit >= 0 {
		k = w.t.bitVal(bs[c.bit])
	} else {
		k = w.t.isZero(w.t.x.fromBits(padBits(bs, 64), types.Typ[types.Int]).lin)
		if k >= 0 {
			k = 1 - k
		}
	}
	if k < 0 {
		w.fail("%s does not decide what follows", c.name)
		return false
	}
	return (k == 1) != c.not
}

// bitVal: the value of a bit on this path, or -1.
func (t *Trace) bitVal(b sbit) int {
	if b.s == "" {
		return b.i
	}
	if k, ok := t.fix[b]; ok {
		return k
	}
	l := t.x.fromBits(padBits([]sbit{b}, 64), types.Typ[types.Int]).lin
	switch t.isZero(l) {
	case 1:
		return 0
	case 0:
		return 1
	}
	return -1
}

func (w *mp4Walk) skip(n slin) {
	w.at = w.at.add(n, 1)
}

// need: Unmarshal finds n more bytes.
func (w *mp4Walk) need(n slin) bool {
	if w.bad != "" || w.stop != "" {
		return false
	}
	if w.op != "Unmarshal" {
		return true
	}
	left := w.total().add(w.at, -1).add(n, -1)
	switch {
	case w.t.implies(left):
		return true
	case w.t.implies(left.mul(-1).add(sc(-1), 1)):
		w.stop = "truncated"
		return false
	case w.t.failure(1):
		w.loose = true
		return true
	}
	w.fail("%s bytes are taken at %s without a look at the length", n, w.at)
	return false
}

func (w *mp4Walk) total() slin { return w.t.x.leaf("len(p1)", types.Typ[types.Int]).lin }

func (w *mp4Walk) word(at slin, n int) (bs []sbit) {
	for k := n - 1; k >= 0; k-- {
		bs = append(bs, w.t.byteLeaf("p1", at.add(sc(int64(k)), 1))...)
	}
	return
}

func (w *mp4Walk) written(at slin, want []sbit, what string) {
	if s, ok := w.t.memIs("p1", at, bytesOf(want)); !ok {
		w.fail("%s at %s is written as %s, not %s", what, at, s, bitStr(want))
	}
}

// result: the path of Unmarshal is one on which what is read is kept.
func (w *mp4Walk) result() bool { return !w.t.failure(1) }

// integer handles an integer cell.
func (w *mp4Walk) integer(cell string, ft types.Type, bits int) {
	n := sc(int64(bits / 8))
	if !w.need(n) {
		return
	}
	fw, _, _ := intInfo(ft)
	switch w.op {
	case "Marshal":
		bs := fld(cell, bits-1, 0)
		w.written(w.at, bs, cell)
	case "Unmarshal":
		bs := padBits(w.word(w.at, bits/8), fw)
		if strings.HasPrefix(cell, "p0.") {
			w.vals[cell[3:]] = bs
		}
		if w.result() {
			v := w.stored(cell, ft)
			if v == nil || !v.isInt || !w.t.bitsEq(v.bits, bs) {
				w.fail("%s is read as %s, not %s", cell, v.valBits(), bitStr(bs))
			}
		}
	}
	w.skip(n)
}

// stored is what is in a cell in the end.
func (w *mp4Walk) stored(cell string, ft types.Type) *sval {
	if v := w.t.cellAt(cell, ft); v != nil {
		return v
	}
	return w.t.lastStore(cell)
}

// prim: a time or number is put or got by a function with its name.
func (w *mp4Walk) prim(cell string, ft types.Type, what string, bits int) {
	n := sc(int64(bits / 8))
	if !w.need(n) {
		return
	}
	switch w.op {
	case "Marshal", "Unmarshal":
		verb := map[string]string{"Marshal": "Put", "Unmarshal": "Get"}[w.op]
		fn := fmt.Sprintf("%s:%s%s%d", mp4Pkg, verb, what, bits)
		if w.np >= len(w.prims) {
			if w.op == "Unmarshal" && w.t.failure(1) {
				break
			}
			w.fail("%s is left out", cell)
			return
		}
		e := w.prims[w.np]
		w.np++
		if anchorName(e.in.Callee) != fn {
			w.fail("%s at %s goes through %s", cell, w.at, anchorName(e.in.Callee))
			return
		}
		if a := e.args[0]; a.base != "p1" || !w.t.isEq(a.off.add(w.at, -1)) {
			w.fail("%s is at %s, not %s", cell, e.args[0].str(), w.at)
			return
		}
		if w.op == "Marshal" {
			if !leafIs(e.args[1], cell) {
				w.fail("%s is written as %s", cell, e.args[1].str())
			}
			w.untouched(w.at, bits/8, e.nm, cell)
		} else if w.result() {
			if v := w.stored(cell, ft); v == nil || !leafIs(v, e.res.sym) {
				w.fail("%s is stored as %s", cell, v.str())
			}
		}
	}
	w.skip(n)
}

// untouched: nothing is written over n bytes after entry from of the memory.
func (w *mp4Walk) untouched(at slin, n, from int, what string) {
	for i := from + 1; i < len(w.t.mem); i++ {
		m := w.t.mem[i]
		if m.base != "p1" && m.base != "*" {
			continue
		}
		var before, after bool
		if m.base == "p1" {
			after = w.t.implies(m.off.add(at, -1).add(sc(-int64(n)), 1))
			switch m.kind {
			case 0:
				before = w.t.implies(at.add(m.off, -1).add(sc(-1), 1))
			case 1, 2, 3:
				before = w.t.implies(at.add(m.off, -1).add(m.n, -1))
			case 4:
				// a time or number written elsewhere
				if k := w.primLen(m, i); k > 0 {
					before = w.t.implies(at.add(m.off, -1).add(sc(k), -1))
				}
			}
		}
		if !before && !after {
			w.fail("%s at %s is written over", what, at)
			return
		}
	}
}

// primLen: the number of bytes the encoder that made an entry writes.
func (w *mp4Walk) primLen(m memEnt, i int) int64 {
	for _, e := range w.prims {
		if e.nm == i {
			n := e.in.Callee.Name()
			k := int64(0)
			fmt.Sscan(strings.TrimLeft(n, "PutGeTimFxd"), &k)
			return k / 8
		}
	}
	return 0
}

// leafIs: a value is the named input, as a whole or part by part.
func leafIs(v *sval, name string) bool {
	if v == nil {
		return false
	}
	if v.fields != nil {
		for _, f := range v.fields {
			if !leafUnder(f, name) {
				return false
			}
		}
		return len(v.fields) > 0
	}
	return unprime(v.sym) == name || unprime(v.base) == name && v.base != ""
}

// leafUnder: all parts of a value are parts of the named input.
func leafUnder(v *sval, name string) bool {
	if v == nil {
		return false
	}
	if v.fields != nil {
		for _, f := range v.fields {
			if !leafUnder(f, name) {
				return false
			}
		}
		return len(v.fields) > 0
	}
	return strings.HasPrefix(v.sym, name+".") || strings.HasPrefix(v.base, name+".") || unprime(v.sym) == name
}

// elemsN: the number of elements on this path when it is decided.
func (w *mp4Walk) count(n slin, what string) int64 {
	for i := int64(0); i < 64; i++ {
		if w.t.implies(sc(i).add(n, -1)) {
			return i
		}
		if !w.t.implies(n.add(sc(-i-1), 1)) {
			break
		}
	}
	if !(w.op == "Unmarshal" && w.t.failure(1)) {
		w.fail("the number of %s is not looked at", what)
	}
	return -1
}

func (w *mp4Walk) entries(it mp4Item) {
	n := w.t.x.leaf("len(p0."+it.name+")", types.Typ[types.Int])
	if it.kind == "entries" {
		w.length(it.name)
	}
	if w.bad != "" || w.stop != "" {
		return
	}
	if w.op == "Unmarshal" {
		n = w.t.x.fromBits(padBits(w.vals["len "+it.name], 64), types.Typ[types.Int])
	}
	et := w.field(it.name).Underlying().(*types.Slice).Elem()
	size, conds := 0, false
	for _, e := range it.elems {
		conds = conds || e.cond.name != ""
		size += e.bits / 8
	}
	if !conds {
		if w.op == "Len" {
			w.skip(n.lin.mul(int64(size)))
			return
		}
		if !w.need(n.lin.mul(int64(size))) {
			return
		}
	}
	k := int64(-1)
	if w.op != "Unmarshal" || w.result() {
		if k = w.count(n.lin, it.name); w.bad != "" || k < 0 {
			return
		}
	}
	base := "p0." + it.name
	if w.op == "Unmarshal" && w.result() {
		v := w.stored(base, w.field(it.name))
		switch {
		case k == 0 && (v == nil || v.isNil || v.sym == base || v.hasLen && w.t.isEq(v.length)):
			return
		case v != nil && v.list != nil:
		case v == nil || !v.hasLen || !w.t.isEq(v.length.add(n.lin, -1)):
			w.fail("%s has %s in the end, not %s elements", it.name, v.str(), n.lin)
			return
		}
		if v.list != nil {
			list := v.list
			if len(list) > 0 && list[0].spread != nil && list[0].spread.sym == "p0."+it.name {
				list = list[1:]
			}
			if int64(len(list)) != k {
				w.fail("%s is %s in the end, not of %d elements", it.name, v.str(), k)
				return
			}
			for i, l := range list {
				if l.one == nil {
					w.fail("%s holds %s", it.name, v.str())
					return
				}
				w.t.cellv[fmt.Sprintf("list:%s[%d]", it.name, i)] = l.one
			}
			base = "list:" + it.name
		} else {
			base = v.base
		}
	}
	for i := int64(0); i < 64 && i != k && w.bad == "" && w.stop == ""; i++ {
		if k < 0 && !w.t.implies(n.lin.add(sc(-i-1), 1)) {
			break
		}
		w.nelem++
		for _, e := range it.elems {
			if w.bad != "" || w.stop != "" {
				break
			}
			if !w.holds(e.cond) {
				if w.op == "Unmarshal" && w.result() && w.bad == "" {
					v := w.stored(fmt.Sprintf("%s[%d].%s", base, i, e.name), types.Typ[types.Uint32])
					if v != nil && !w.t.intIs(v, 0) {
						w.fail("%s[%d].%s is %s though it is not there", it.name, i, e.name, v.str())
					}
				}
				continue
			}
			cell, ft := fmt.Sprintf("%s[%d]", base, i), et
			if e.name != "" {
				cell += "." + e.name
				ft = fieldType(et, e.name)
			}
			w.integer(cell, ft, e.bits)
		}
	}
}

func fieldType(t types.Type, name string) types.Type {
	if st := structOf(t); st != nil {
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == name {
				return st.Field(i).Type()
			}
		}
	}
	return types.Typ[types.Uint32]
}

// length: the number of elements, in 32 bits.
func (w *mp4Walk) length(name string) {
	if !w.need(sc(4)) {
		return
	}
	if w.op == "Marshal" {
		w.written(w.at, fld("len(p0."+name+")", 31, 0), "the number of "+name)
	}
	if w.op == "Unmarshal" {
		w.vals["len "+name] = w.word(w.at, 4)
	}
	w.skip(sc(4))
}

// rest: what is left of the box.
func (w *mp4Walk) rest(name string) {
	n := w.t.x.leaf("len(p0."+name+")", types.Typ[types.Int]).lin
	switch w.op {
	case "Marshal":
		if !w.t.copied("p1", w.at, "p0."+name, n) {
			w.fail("%s is not copied to %s", name, w.at)
		}
		w.skip(n)
	case "Len":
		w.skip(n)
	default:
		n = w.total().add(w.at, -1)
		v := w.stored("p0."+name, w.field(name))
		if w.result() && (v == nil || v.base != "p1" || !w.t.isEq(v.off.add(w.at, -1)) || !w.t.isEq(v.length.add(n, -1))) {
			w.fail("%s is %s, not what is at %s", name, v.str(), w.at)
		}
		w.skip(n)
	}
}

// kid: the next child in order is written, or counted.
func (w *mp4Walk) kid(name, method string) {
	if w.bad != "" {
		return
	}
	if w.nc >= len(w.calls) {
		w.fail("%s is left out", name)
		return
	}
	e := w.calls[w.nc]
	w.nc++
	w.nchild++
	if got := calleeName(e); got != method {
		w.fail("%s: %s is called, not %s", name, got, method)
		return
	}
	if !leafIs(e.args[0], name) {
		w.fail("%s: %s is written instead", name, e.args[0].str())
		return
	}
	if w.op == "Marshal" {
		a := e.args[1]
		if a.base != "p1" || !w.t.isEq(a.off.add(w.at, -1)) || !a.hasLen || !w.t.isEq(a.length.add(a.off, 1).add(w.t.x.leaf("len(p1)", types.Typ[types.Int]).lin, -1)) {
			w.fail("%s is written to %s, not to %s", name, a.str(), w.at)
			return
		}
	}
	w.at = w.at.add(e.res.lin, 1)
}

func calleeName(e sevent) string {
	if e.in.Callee != nil {
		return anchorName(e.in.Callee)
	}
	if e.in.Method != nil {
		return "Atom." + e.in.Method.Name()
	}
	return "?"
}

// put handles Marshal and Len.
func (w *mp4Walk) put() {
	w.at = sc(8)
	for _, it := range w.items {
		if w.bad != "" {
			return
		}
		if !w.holds(it.cond) {
			continue
		}
		w.one(it)
	}
	t := w.t
	if w.bad != "" {
		return
	}
	if w.nc != len(w.calls) || w.np != len(w.prims) {
		w.fail("more is written than there is")
		return
	}
	if len(t.ret) != 1 || !t.ret[0].isInt || !t.isEq(t.ret[0].lin.add(w.at, -1)) {
		w.fail("the size returned is %s, not %s", t.ret[0].str(), w.at)
		return
	}
	if w.op == "Marshal" {
		w.written(sc(4), cbits(tagWord(w.tag()), 32), "the type")
		w.written(sc(0), padBits(t.ret[0].bits, 64)[:32], "the size")
	}
}

func (w *mp4Walk) tag() string {
	for _, b := range mp4Boxes {
		if b.typ == w.typ {
			return b.tag
		}
	}
	return "    "
}

func tagWord(s string) (v uint64) {
	for i := 0; i < 4; i++ {
		v = v<<8 | uint64(s[i])
	}
	return
}

// one handles a part that is there.
func (w *mp4Walk) one(it mp4Item) {
	cell := "p0." + it.name
	switch it.kind {
	case "int":
		w.integer(cell, w.field(it.name), it.bits)
	case "pad":
		// reserved bytes at the end may be left out
		n := sc(int64(it.bits / 8))
		if left := w.total().add(w.at, -1).add(n, -1); w.op == "Unmarshal" && w.t.failure(1) && w.t.implies(left.mul(-1).add(sc(-1), 1)) {
			w.stop = "truncated"
			return
		}
		w.skip(n)
	case "time":
		w.prim(cell, w.field(it.name), "Time", it.bits)
	case "fixed":
		w.prim(cell, w.field(it.name), "Fixed", it.bits)
	case "ints":
		et := w.field(it.name).Underlying().(*types.Array).Elem()
		if w.need(sc(int64(it.n * it.bits / 8))) {
			for i := 0; i < it.n; i++ {
				w.integer(fmt.Sprintf("%s[%d]", cell, i), et, it.bits)
			}
		}
	case "bytes":
		if !w.need(sc(int64(it.n))) {
			return
		}
		if w.op == "Marshal" {
			for i := 0; i < it.n; i++ {
				w.written(w.at.add(sc(int64(i)), 1), w.t.byteLeaf(cell, sc(int64(i))), it.name)
			}
		} else if w.op == "Unmarshal" && w.result() {
			for i := 0; i < it.n; i++ {
				if s, ok := w.t.memIs(cell, sc(int64(i)), [][]sbit{w.t.byteLeaf("p1", w.at.add(sc(int64(i)), 1))}); !ok {
					w.fail("byte %d of %s is %s", i, it.name, s)
				}
			}
		}
		w.skip(sc(int64(it.n)))
	case "rest":
		w.rest(it.name)
	case "len":
		w.length(it.name)
	case "entries", "more":
		w.entries(it)
	case "count":
		w.childCount()
	case "child":
		k := w.t.nilState(w.t.x.leaf(cell, w.field(it.name)))
		if k < 0 {
			w.fail("whether there is a %s is not looked at", it.name)
		}
		if k == 0 {
			w.kid(cell, mp4Pkg+":"+namedOf(w.field(it.name)).Obj().Name()+"."+w.op)
		}
	case "list", "unknown":
		n := w.count(w.t.x.leaf("len("+cell+")", types.Typ[types.Int]).lin, it.name)
		for i := int64(0); i < n; i++ {
			m := "Atom." + w.op
			if it.kind == "list" {
				m = mp4Pkg + ":" + namedOf(w.field(it.name).Underlying().(*types.Slice).Elem()).Obj().Name() + "." + w.op
			}
			w.kid(fmt.Sprintf("%s[%d]", cell, i), m)
		}
	}
}

// childCount: the number of children is that of the fields that follow.
func (w *mp4Walk) childCount() {
	if w.op == "Marshal" {
		n := sc(0)
		for _, it := range w.items {
			switch it.kind {
			case "child":
				if w.t.nilState(w.t.x.leaf("p0."+it.name, w.field(it.name))) == 0 {
					n = n.add(sc(1), 1)
				}
			case "list", "unknown":
				n = n.add(w.t.x.leaf("len(p0."+it.name+")", types.Typ[types.Int]).lin, 1)
			}
		}
		want := w.t.x.fromLin(n, types.Typ[types.Int])
		if s, ok := w.t.memIs("p1", w.at, bytesOf(want.bits[:32])); !ok {
			w.fail("the number of children is %s, not %s", s, n)
		}
	}
	w.skip(sc(4))
}

// get handles Unmarshal.
func (w *mp4Walk) get() {
	t := w.t
	w.vals = map[string][]sbit{}
	w.at = sc(8)
	kids := false
	for _, it := range w.items {
		if w.bad != "" || w.stop != "" {
			break
		}
		switch it.kind {
		case "child", "list", "unknown":
			kids = true
			continue
		}
		if !w.holds(it.cond) {
			continue
		}
		w.one(it)
	}
	if w.bad == "" && w.stop == "" && kids {
		w.children()
	}
	if w.bad != "" {
		return
	}
	if w.stop != "" {
		if !t.failure(1) {
			w.fail("%s, but this is no error", w.stop)
		}
		return
	}
	if t.failure(1) {
		w.fail("a complete box is refused")
		return
	}
	for f, want := range map[string]slin{"Offset": t.x.leaf("p2", types.Typ[types.Int]).lin, "Size": w.total()} {
		if v := w.stored("p0.AtomPos."+f, types.Typ[types.Int]); v == nil || !v.isInt || !t.isEq(v.lin.add(want, -1)) {
			w.fail("the position has %s as %s", v.str(), f)
		}
	}
	if w.np != len(w.prims) {
		w.fail("more is read than there is")
	}
}

// children: the children in the rest of the box.
func (w *mp4Walk) children() {
	t := w.t
	ptr := map[string]string{}     // field: the last child
	lists := map[string][]string{} // field: its children
	var others []mp4Other
	kinds := map[string]mp4Item{}
	for _, it := range w.items {
		switch it.kind {
		case "child":
			kinds[namedOf(w.field(it.name)).Obj().Name()] = it
		case "list":
			kinds[namedOf(w.field(it.name).Underlying().(*types.Slice).Elem()).Obj().Name()] = it
		}
	}
	for w.bad == "" && w.stop == "" {
		left := w.total().add(w.at, -1)
		if t.implies(sc(7).add(left, -1)) {
			break
		}
		if !t.implies(left.add(sc(-8), 1)) {
			if t.failure(1) {
				w.loose = true
			} else {
				w.fail("what is left at %s is not looked at", w.at)
				return
			}
		}
		size := t.x.fromBits(padBits(w.word(w.at, 4), 64), types.Typ[types.Int]).lin
		tag := t.x.fromBits(padBits(w.word(w.at.add(sc(4), 1), 4), 64), types.Typ[types.Int]).lin
		if t.implies(sc(7).add(size, -1)) || t.implies(size.add(left, -1).add(sc(-1), 1)) {
			w.stop = "the size of a child is wrong"
			return
		}
		if !t.implies(size.add(sc(-8), 1)) || !t.implies(left.add(size, -1)) {
			w.fail("the size of the child at %s is not looked at", w.at)
			return
		}
		kind := ""
		for _, b := range mp4Boxes {
			if _, ok := kinds[b.typ]; ok && t.isEq(tag.add(sc(-int64(tagWord(b.tag))), 1)) {
				kind = b.typ
			} else if ok && !t.isNeq(tag.add(sc(-int64(tagWord(b.tag))), 1)) {
				kind = "?"
			}
		}
		if _, ok := kinds["ElemStreamDesc"]; ok {
			switch d := tag.add(sc(-int64(tagWord("esds"))), 1); {
			case t.isEq(d):
				kind = "ElemStreamDesc"
			case !t.isNeq(d):
				kind = "?"
			}
		}
		it := kinds[kind]
		if len(kinds) > 0 && kind == "?" {
			w.fail("the type of the child at %s is not looked at", w.at)
			return
		}
		if kind == "" {
			others = append(others, mp4Other{w.at, size, tag})
			w.at = w.at.add(size, 1)
			continue
		}
		if w.nc >= len(w.calls) {
			w.fail("the %s at %s is not read", kind, w.at)
			return
		}
		e := w.calls[w.nc]
		w.nc++
		w.nchild++
		if got := calleeName(e); got != mp4Pkg+":"+kind+".Unmarshal" {
			w.fail("the %s at %s is read by %s", kind, w.at, got)
			return
		}
		a := e.args[1]
		if a.base != "p1" || !t.isEq(a.off.add(w.at, -1)) || !a.hasLen || !t.isEq(a.length.add(size, -1)) {
			w.fail("the %s at %s is read from %s", kind, w.at, a.str())
			return
		}
		if !t.isEq(e.args[2].lin.add(w.at, -1).add(t.x.leaf("p2", types.Typ[types.Int]).lin, -1)) {
			w.fail("the %s at %s is told to be at %s", kind, w.at, e.args[2].str())
			return
		}
		if !strings.HasPrefix(e.args[0].sym, "alloc@") {
			w.fail("the %s at %s is read into %s", kind, w.at, e.args[0].str())
			return
		}
		switch t.nilState(e.res.tup[1]) {
		case 0:
			w.stop = "a child is invalid"
			return
		case -1:
			w.fail("whether the %s at %s is valid is not looked at", kind, w.at)
			return
		}
		if it.kind == "child" {
			ptr[it.name] = e.args[0].sym
		} else {
			lists[it.name] = append(lists[it.name], e.args[0].sym)
		}
		w.at = w.at.add(size, 1)
	}
	if w.bad != "" || w.stop != "" || !w.result() {
		return
	}
	if w.nc != len(w.calls) {
		w.fail("more children are read than there are")
		return
	}
	for _, it := range w.items {
		if it.kind != "child" && it.kind != "list" && it.kind != "unknown" {
			continue
		}
		v := w.stored("p0."+it.name, w.field(it.name))
		switch it.kind {
		case "child":
			if s := ptr[it.name]; s != "" && (v == nil || v.sym != s) || s == "" && v != nil && !v.isNil && v.sym != "p0."+it.name {
				w.fail("%s is %s in the end, not %q", it.name, v.str(), s)
			}
		case "list":
			if got, ok := w.added(v, it.name); !ok || !sameStrs(got, lists[it.name]) {
				w.fail("%s is %s in the end, not %v", it.name, v.str(), lists[it.name])
			}
		case "unknown":
			got, ok := w.added(v, it.name)
			if !ok || len(got) != len(others) {
				w.fail("%s is %s in the end, not the %d other children", it.name, v.str(), len(others))
				return
			}
			for i, o := range others {
				w.other(got[i], o)
			}
		}
	}
}

type mp4Other struct{ at, size, tag slin }

// other: a child of another type is kept as it is.
func (w *mp4Walk) other(p string, o mp4Other) {
	t := w.t
	data := w.stored(p+".Data", types.NewSlice(types.Typ[types.Uint8]))
	if data == nil || data.base != "p1" || !t.isEq(data.off.add(o.at, -1)) || !data.hasLen || !t.isEq(data.length.add(o.size, -1)) {
		w.fail("the child at %s is kept as %s", o.at, data.str())
	}
	for f, want := range map[string]slin{"Tag_": o.tag, "AtomPos.Offset": t.x.leaf("p2", types.Typ[types.Int]).lin.add(o.at, 1), "AtomPos.Size": o.size} {
		if v := w.stored(p+"."+f, types.Typ[types.Int]); v == nil || !v.isInt || !t.isEq(v.lin.add(want, -1)) {
			w.fail("the child at %s has %s as %s", o.at, v.str(), f)
		}
	}
}

// added: the elements added to a list.
func (w *mp4Walk) added(v *sval, name string) (out []string, ok bool) {
	if v == nil || v.sym == "p0."+name || v.isNil {
		return nil, true
	}
	for i, l := range v.list {
		if l.one == nil {
			if i > 0 || l.spread.sym != "p0."+name {
				return nil, false
			}
			continue
		}
		out = append(out, l.one.sym)
	}
	return out, v.list != nil
}

// mp4Fn walks one function of a box.
func (r *Report) mp4Fn(typ, op string, items []mp4Item, got map[string]int) {
	name := mp4Pkg + ":" + typ + "." + op
	stops := map[string]bool{}
	turns := 3
	fn := r.P.fn(mp4Pkg, typ+"."+op)
	if fn == nil {
		r.fail("anchor|"+name, "-", "function "+name+" does not exist any more")
		return
	}
	rt := fn.Signature.Recv().Type()
	if p, ok := rt.(*types.Pointer); ok {
		rt = p.Elem()
	}
	w0 := mp4Walk{st: structOf(rt)}
	if w0.st == nil {
		r.fail("anchor|"+name, "-", typ+" is not a struct any more")
		return
	}
	prims := map[string]bool{}
	for _, k := range []string{"Time32", "Time64", "Fixed16", "Fixed32"} {
		prims[mp4Pkg+":Put"+k], prims[mp4Pkg+":Get"+k] = true, true
	}
	kids := map[string]bool{}
	for _, it := range items {
		switch it.kind {
		case "child", "list":
			t := w0.field(it.name)
			if s, ok := t.Underlying().(*types.Slice); ok {
				t = s.Elem()
			}
			if n := namedOf(t); n != nil {
				kids[mp4Pkg+":"+n.Obj().Name()+"."+op] = true
			} else {
				w0.fail("the type of %s has changed", it.name)
			}
		case "ints":
			if turns < it.n+1 {
				turns = it.n + 1
			}
		case "int", "time", "fixed", "rest", "entries", "more", "bytes":
			w0.field(it.name)
		}
	}
	if w0.bad != "" {
		r.fail("anchor|"+name, r.P.pos(fn.Pos()), w0.bad)
		return
	}
	for k := range prims {
		stops[k] = true
	}
	for k := range kids {
		stops[k] = true
	}
	f := r.buildFor(name, stopAt(keysOf(stops)...))
	if f == nil {
		return
	}
	walk := func() []*Trace { return r.walkInitN(f, 40000, turns, nil) }
	if op == "Marshal" {
		// there is room for what is written
		walk = func() []*Trace { return r.walkFit(f, 40000, turns) }
	}
	for _, t := range walk() {
		c := chk{r, t, "mp4|" + typ + "." + op}
		if t.back {
			continue
		}
		if t.end == nil || t.end.Op != OpReturn {
			c.bad("end", "a path does not end in a plain result")
			return
		}
		w := &mp4Walk{t: t, typ: typ, op: op, items: items, st: w0.st}
		if op == "Unmarshal" {
			// a box has a header
			t.facts = append(t.facts, t.x.toLin(w.total().add(sc(-8), 1)))
			if t.implies(sc(-1)) || t.implies(w.total().mul(-1).add(sc(7), 1)) {
				continue
			}
		}
		for _, e := range t.events {
			if e.kind != "call" {
				continue
			}
			n := calleeName(e)
			switch {
			case kids[n] || strings.HasPrefix(n, "Atom."):
				w.calls = append(w.calls, e)
				if op != "Unmarshal" {
					// a child takes no less than nothing
					t.facts = append(t.facts, t.x.toLin(e.res.lin))
				}
			case prims[n]:
				w.prims = append(w.prims, e)
			}
		}
		if op == "Unmarshal" {
			if t.okRes(1) < 0 {
				c.bad("end", "a path does not end in a plain result")
				return
			}
			w.get()
		} else {
			w.put()
		}
		if w.bad != "" {
			c.bad("layout", "%s", w.bad)
			return
		}
		r.ok("")
		k := op
		if w.stop != "" {
			k += " refused"
		}
		got[k]++
		got[typ+" "+k]++
		got[op+" elements"] += w.nelem
		got[op+" children"] += w.nchild
	}
}

// mp4Kids checks Children and Tag.
func (r *Report) mp4Kids(typ, tag string, items []mp4Item, got map[string]int) {
	f := r.buildFor(mp4Pkg+":"+typ+".Tag", nil)
	if f == nil {
		return
	}
	for _, t := range r.walkInitN(f, 100, 3, nil) {
		c := chk{r, t, "mp4|" + typ + ".Tag"}
		if len(t.ret) != 1 || !t.intIs(t.ret[0], int64(tagWord(tag))) {
			c.bad("value", "the type is not %q", tag)
			return
		}
		r.ok("")
		got[typ+" Tag"]++
	}
	if f = r.buildFor(mp4Pkg+":"+typ+".Children", nil); f == nil {
		return
	}
	st := structOf(f.Root.Signature.Recv().Type())
	for _, t := range r.walkInitN(f, 10000, 3, nil) {
		if t.back {
			continue
		}
		c := chk{r, t, "mp4|" + typ + ".Children"}
		w := &mp4Walk{t: t, typ: typ, op: "Children", items: items, st: st}
		var have []string
		spread := map[string]bool{}
		if len(t.ret) == 1 {
			for _, l := range t.items(t.ret[0], nil) {
				if l.one != nil {
					have = append(have, l.one.sym)
				} else {
					have = append(have, l.spread.sym+"...")
					spread[l.spread.sym] = true
				}
			}
		}
		var want []string
		for _, it := range items {
			cell := "p0." + it.name
			switch it.kind {
			case "child":
				k := t.nilState(t.x.leaf(cell, w.field(it.name)))
				if k < 0 {
					w.fail("whether there is a %s is not looked at", it.name)
				}
				if k == 0 {
					want = append(want, cell)
				}
			case "list":
				n := w.count(t.x.leaf("len("+cell+")", types.Typ[types.Int]).lin, it.name)
				for i := int64(0); i < n; i++ {
					want = append(want, fmt.Sprintf("%s[%d]", cell, i))
				}
			case "unknown":
				if spread[cell] {
					want = append(want, cell+"...")
					break
				}
				n := w.count(t.x.leaf("len("+cell+")", types.Typ[types.Int]).lin, it.name)
				for i := int64(0); i < n; i++ {
					want = append(want, fmt.Sprintf("%s[%d]", cell, i))
				}
			}
		}
		if w.bad == "" && !sameStrs(have, want) {
			w.fail("%v is returned, not %v", have, want)
		}
		if w.bad != "" {
			c.bad("list", "%s", w.bad)
			return
		}
		got["Children"]++
		got[typ+" Children"]++
		r.ok("")
	}
}

func init() {
	register("C11", "proof", func(r *Report, thorough bool) {
		r.rule("Marshal, Len, Unmarshal, Children and Tag of every box type are walked with symbolic fields and bytes and compared with one layout table; the encodings of times and fixed point numbers and the descriptors of an esds are walked by themselves.")
		got := map[string]int{}
		for _, b := range mp4Boxes {
			items := mp4Layout(b.layout)
			for _, op := range []string{"Marshal", "Len", "Unmarshal"} {
				r.mp4Fn(b.typ, op, items, got)
			}
			r.mp4Kids(b.typ, b.tag, items, got)
		}
		r.mp4Esds()
		r.mp4Prims()
		for k, n := range got {
			r.Cov["mp4 "+k] = n
		}
		for _, b := range mp4Boxes {
			for _, op := range []string{"Marshal", "Len", "Unmarshal", "Unmarshal refused", "Children", "Tag"} {
				if b.typ == "AVC1Conf" && op == "Unmarshal refused" {
					continue // takes whatever follows the header
				}
				r.need("walks of "+b.typ+"."+op, got[b.typ+" "+op], 1)
			}
		}
	})
}

// mp4Esds: the elementary stream descriptor.
func (r *Report) mp4Esds() {
	name := mp4Pkg + ":ElemStreamDesc."
	r.mp4Kids("ElemStreamDesc", "esds", nil, map[string]int{})
	if f := r.buildFor(name+"Len", nil); f != nil {
		for _, t := range r.walkInitN(f, 100, 6, nil) {
			c := chk{r, t, "mp4|ElemStreamDesc.Len"}
			n := t.x.leaf("len(p0.DecConfig)", types.Typ[types.Int]).lin.add(sc(49), 1)
			if len(t.ret) != 1 || !t.linIs(t.ret[0], n) {
				c.bad("size", "the size is %s, not %s", t.ret[0].str(), n)
				return
			}
			r.ok("")
		}
	}
	if f := r.buildFor(name+"Marshal", nil); f != nil {
		for _, t := range r.walkFit(f, 100, 6) {
			if t.back {
				continue
			}
			c := chk{r, t, "mp4|ElemStreamDesc.Marshal"}
			d := t.x.leaf("len(p0.DecConfig)", types.Typ[types.Int]).lin
			at := sc(0)
			bad := ""
			put := func(bs []sbit) {
				if s, ok := t.memIs("p1", at, bytesOf(bs)); !ok && bad == "" {
					bad = fmt.Sprintf("%s is at %s, not %s", s, at, bitStr(bs))
				}
				at = at.add(sc(int64(len(bs)/8)), 1)
			}
			// a tag and a length in four bytes
			hdr := func(tag uint64, l slin) {
				v := t.x.fromLin(l, types.Typ[types.Int])
				if l.konst() {
					v = t.x.intC(l.c, types.Typ[types.Int])
				}
				put(cbits(tag, 8))
				for k := 3; k >= 0; k-- {
					b := append([]sbit{}, v.bits[7*k:7*k+7]...)
					more := sbit{}
					if k > 0 {
						more.i = 1
					}
					put(append(b, more))
				}
			}
			total := t.x.fromLin(d.add(sc(49), 1), types.Typ[types.Int])
			put(total.bits[:32])
			put(cbits(tagWord("esds"), 32))
			put(cbits(0, 32))
			hdr(3, d.add(sc(32), 1))
			put(fld("p0.TrackId", 15, 0))
			put(cbits(0, 8))
			hdr(4, d.add(sc(18), 1))
			put(cbits(0x40, 8)) // MPEG-4 audio
			put(cbits(0x15, 8)) // an audio stream
			at = at.add(sc(11), 1)
			hdr(5, d)
			if !t.copied("p1", at, "p0.DecConfig", d) && bad == "" {
				bad = fmt.Sprintf("DecConfig is not copied to %s", at)
			}
			at = at.add(d, 1)
			hdr(6, sc(1))
			put(cbits(2, 8))
			if bad == "" && (len(t.ret) != 1 || !t.linIs(t.ret[0], at)) {
				bad = fmt.Sprintf("the size returned is %s, not %s", t.ret[0].str(), at)
			}
			if bad != "" {
				c.bad("layout", "%s", bad)
				return
			}
			r.ok("")
		}
	}
	f, rec := r.recursive(name + "Unmarshal")
	if f == nil {
		return
	}
	type level struct {
		f    *Fn
		init map[string][]sbit
		in   int64 // the tag around
	}
	todo := []level{{f, nil, 0}}
	seen := map[string]bool{}
	got := map[string]int{}
	for len(todo) > 0 {
		l := todo[0]
		todo = todo[1:]
		for _, t := range r.walkInitN(l.f, 2000, 6, l.init) {
			if t.back {
				continue
			}
			c := chk{r, t, fmt.Sprintf("mp4|ElemStreamDesc.Unmarshal in %d", l.in)}
			if t.end == nil || len(t.ret) != 2 || t.okRes(1) < 0 {
				if t.end != nil && len(t.ret) == 2 && len(t.calls(rec)) == 0 {
					c.bad("end", "a path does not end in a plain result")
					return
				}
			}
			w := &esdsWalk{t: t, rec: rec, in: l.in}
			if l.f == f {
				w.at = 12
			}
			w.desc()
			if w.bad != "" {
				c.bad("layout", "%s", w.bad)
				return
			}
			r.ok("")
			got[w.kind]++
			if w.call == nil {
				continue
			}
			init := map[string][]sbit{}
			for i, a := range w.call.args {
				if k, ok := t.constOf(a); ok && a.isInt {
					init[fmt.Sprintf("p%d", i)] = cbits(uint64(k), len(a.bits))
				}
			}
			if k := fmt.Sprint(w.tag, init); !seen[k] && len(seen) < 8 {
				seen[k] = true
				g := r.buildFor(rec, stopAt(rec))
				if g == nil {
					return
				}
				todo = append(todo, level{g, init, w.tag})
			}
		}
	}
	for _, k := range []string{"refused", "es", "config", "specific", "other"} {
		r.need("walks of esds descriptors: "+k, got[k], 1)
	}
}

type esdsWalk struct {
	t    *Trace
	rec  string
	in   int64
	at   int64
	tag  int64
	kind string
	bad  string
	call *sevent
}

func (w *esdsWalk) fail(f string, a ...interface{}) {
	if w.bad == "" {
		w.bad = fmt.Sprintf(f, a...)
	}
}

// desc compares a path with a descriptor: a tag, a length of up to four
// bytes, and as much content.
func (w *esdsWalk) desc() {
	t := w.t
	total := t.x.leaf("len(p1)", types.Typ[types.Int]).lin
	w.kind = "refused"
	short := func(n slin) int { // 1 short, 0 not, -1 not known
		left := total.add(sc(-w.at), 1).add(n, -1)
		switch {
		case t.implies(left):
			return 0
		case t.implies(left.mul(-1).add(sc(-1), 1)):
			return 1
		}
		return -1
	}
	refuse := func(n slin, what string) bool {
		switch short(n) {
		case 1:
			if !t.failure(1) {
				w.fail("%s: truncated, but this is no error", what)
			}
			return true
		case -1:
			if !t.failure(1) {
				w.fail("%s is taken without a look at the length", what)
				return true
			}
		}
		return false
	}
	if w.at > 0 {
		if refuse(sc(0), "the version") {
			return
		}
	}
	if refuse(sc(1), "the tag") {
		return
	}
	tag := t.x.fromBits(padBits(t.byteLeaf("p1", sc(w.at)), 64), types.Typ[types.Int]).lin
	w.at++
	var bs []sbit
	for i := 0; i < 4; i++ {
		if refuse(sc(1), "the length") {
			return
		}
		b := t.byteLeaf("p1", sc(w.at))
		w.at++
		bs = append(append([]sbit{}, b[:7]...), bs...)
		if i == 3 {
			break
		}
		k := t.bitVal(b[7])
		if k < 0 {
			w.fail("whether byte %d of the length is its last is not looked at", i)
			return
		}
		if k == 0 {
			break
		}
	}
	n := t.x.fromBits(padBits(bs, 64), types.Typ[types.Int]).lin
	if refuse(n, "the content") {
		return
	}
	is := func(k int64) int { return t.isZero(tag.add(sc(-k), 1)) }
	skip := int64(0)
	switch {
	case is(3) == 1:
		w.tag, skip, w.kind = 3, 3, "es"
	case is(4) == 1:
		w.tag, skip, w.kind = 4, 13, "config"
	case is(5) == 1:
		w.tag, w.kind = 5, "specific"
	case is(3) == 0 && is(4) == 0 && is(5) == 0:
		w.kind = "other"
	default:
		w.fail("the tag does not decide what the content is")
		return
	}
	if w.tag == 3 || w.tag == 4 {
		if t.failure(1) && (w.in >= w.tag || t.implies(sc(skip-1).add(n, -1))) {
			return // out of place, or too short
		}
		if refuse(sc(skip), "the content") {
			return
		}
		cs := t.calls(w.rec)
		if len(cs) != 1 {
			w.fail("the descriptors in a descriptor %d are not read", w.tag)
			return
		}
		e := cs[0]
		a := e.args[1]
		from := w.at + skip
		whole := a.hasLen && t.isEq(a.length.add(total, -1).add(sc(from), 1))
		inside := a.hasLen && t.isEq(a.length.add(n, -1).add(sc(skip), 1))
		if a.base != "p1" || !t.isEq(a.off.add(sc(-from), 1)) || !whole && !inside || e.args[0].sym != "p0" {
			w.fail("the descriptors in a descriptor %d are read from %s", w.tag, a.str())
			return
		}
		switch k := t.nilState(e.res.tup[1]); {
		case k == 0 && !t.failure(1):
			w.fail("an error in a descriptor is dropped")
		case k == 1 && t.failure(1):
			w.fail("a descriptor %d is refused", w.tag)
		case k < 0 && (len(t.ret) != 2 || t.ret[1].sym != e.res.tup[1].sym):
			w.fail("an error in a descriptor is dropped")
		}
		w.call = &e
		return
	}
	if t.failure(1) {
		w.fail("a descriptor is refused")
		return
	}
	v := t.lastStore("p0.DecConfig")
	if w.tag == 5 {
		if v == nil || v.base != "p1" || !t.isEq(v.off.add(sc(-w.at), 1)) || !v.hasLen || !t.isEq(v.length.add(n, -1)) {
			w.fail("DecConfig is %s", v.str())
		}
	} else if v != nil {
		w.fail("DecConfig is taken from another descriptor")
	}
}

// mp4Prims: times count the seconds since 1904, fixed point numbers have half
// of the bits for the fraction.
func (r *Report) mp4Prims() {
	one := func(name string, check func(t *Trace) bool) {
		f := r.buildFor(mp4Pkg+":"+name, nil)
		if f == nil {
			return
		}
		for _, t := range r.walkInitN(f, 100, 3, nil) {
			if !check(t) {
				chk{r, t, "mp4|" + name}.bad("value", "another encoding")
				return
			}
			r.ok("")
		}
	}
	epoch := func(t *Trace) string {
		for _, e := range t.events {
			if e.kind == "call" && e.name == "time.Date" && len(e.args) == 8 {
				for i, k := range []int64{1904, 1, 1, 0, 0, 0, 0} {
					if c, ok := constOf(e.args[i]); !ok || c != k {
						return "?"
					}
				}
				if !strings.Contains(e.args[7].sym, "UTC") {
					return "?"
				}
				return e.res.sym
			}
		}
		return "?"
	}
	for _, n := range []int{32, 64} {
		n := n
		one(fmt.Sprintf("PutTime%d", n), func(t *Trace) bool {
			for _, e := range t.events {
				if e.kind == "call" && e.name == "(time.Time).Sub" && e.args[0].sym == "p1" && e.args[1].sym == epoch(t) {
					_, ok := t.memIs("p0", sc(0), bytesOf(fld("("+e.res.sym+" / 1000000000)", n-1, 0)))
					return ok
				}
			}
			return false
		})
		one(fmt.Sprintf("GetTime%d", n), func(t *Trace) bool {
			v := t.x.fromBits(padBits(t.wordAt("p0", 0, n/8), 64), types.Typ[types.Int]).lin.mul(1000000000)
			for _, e := range t.events {
				if e.kind == "call" && e.name == "(time.Time).Add" && e.args[0].sym == epoch(t) {
					return t.linIs(e.args[1], v) && len(t.ret) == 1 && t.ret[0].sym == e.res.sym
				}
			}
			return false
		})
	}
	for _, n := range []int{16, 32} {
		n := n
		scale := fmt.Sprintf("float:%d", 1<<uint(n/2))
		one(fmt.Sprintf("PutFixed%d", n), func(t *Trace) bool {
			for _, e := range t.events {
				if e.kind == "call" && e.name == "math.Modf" && e.args[0].sym == "p1" && len(e.res.tup) == 2 {
					bs := append(fld("int(("+e.res.tup[1].sym+"*"+scale+"))", n/2-1, 0), fld("int("+e.res.tup[0].sym+")", n/2-1, 0)...)
					_, ok := t.memIs("p0", sc(0), bytesOf(bs))
					return ok
				}
			}
			return false
		})
		one(fmt.Sprintf("GetFixed%d", n), func(t *Trace) bool {
			half := func(at int) string {
				return t.x.fromBits(padBits(t.wordAt("p0", int64(at), n/16), n/2), types.Typ[types.Int]).lin.String()
			}
			whole := t.x.fromBits(padBits(t.wordAt("p0", 0, n/8), 64), types.Typ[types.Int]).lin.String()
			a := "(float(" + half(0) + ")+(float(" + half(n/16) + ")/" + scale + "))"
			b := "(float(" + whole + ")/" + scale + ")"
			return len(t.ret) == 1 && (t.ret[0].sym == a || t.ret[0].sym == b)
		})
	}
	// other boxes are kept as they are
	for _, op := range []string{"Marshal", "Len"} {
		if f := r.buildFor(mp4Pkg+":Dummy."+op, nil); f != nil {
			for _, t := range r.walkFit(f, 100, 3) {
				n := t.x.leaf("len(p0.Data)", types.Typ[types.Int]).lin
				if len(t.ret) != 1 || !t.linIs(t.ret[0], n) || op == "Marshal" && !t.copied("p1", sc(0), "p0.Data", n) {
					chk{r, t, "mp4|Dummy." + op}.bad("value", "an unknown box is not kept as it is")
					return
				}
				r.ok("")
			}
		}
	}
	if f := r.buildFor(mp4Pkg+":Dummy.Tag", nil); f != nil {
		for _, t := range r.walkInitN(f, 100, 3, nil) {
			if len(t.ret) != 1 || !t.sameInt(t.ret[0], "p0.Tag_") {
				chk{r, t, "mp4|Dummy.Tag"}.bad("value", "an unknown box has the type %s", t.ret[0].str())
				return
			}
			r.ok("")
		}
	}
	if f := r.buildFor(mp4Pkg+":AtomPos.Pos", nil); f != nil {
		for _, t := range r.walkInitN(f, 100, 3, nil) {
			if len(t.ret) != 2 || !t.sameInt(t.ret[0], "p0.Offset") || !t.sameInt(t.ret[1], "p0.Size") {
				chk{r, t, "mp4|AtomPos.Pos"}.bad("value", "the position is another")
				return
			}
			r.ok("")
		}
	}
	r.mp4Find()
}

func (t *Trace) wordAt(base string, at int64, n int) (bs []sbit) {
	for k := n - 1; k >= 0; k-- {
		bs = append(bs, t.byteLeaf(base, sc(at+int64(k)))...)
	}
	return
}

// mp4Find: the first box of a type is found, depth first.
func (r *Report) mp4Find() {
	f, rec := r.recursive(mp4Pkg + ":FindChildren")
	if f == nil {
		return
	}
	n := 0
	for _, t := range r.walkInitN(f, 2000, 3, nil) {
		if t.back {
			continue
		}
		c := chk{r, t, "mp4|FindChildren"}
		var tag, kids *sval
		for _, e := range t.events {
			if e.kind == "call" && len(e.args) > 0 && e.args[0].sym == "p0" {
				switch calleeName(e) {
				case "Atom.Tag":
					tag = e.res
				case "Atom.Children":
					kids = e.res
				}
			}
		}
		if tag == nil || len(t.ret) != 1 {
			c.bad("tag", "the type of a box is not looked at")
			return
		}
		switch t.isZero(tag.lin.add(sterm("p1"), -1)) {
		case 1:
			if t.ret[0].sym != "p0" {
				c.bad("self", "a box of the type is not returned")
				return
			}
			r.ok("")
			n++
			continue
		case -1:
			c.bad("tag", "the type of a box is not looked at")
			return
		}
		if kids == nil {
			c.bad("children", "the children are not searched")
			return
		}
		cs := t.calls(rec)
		found := ""
		for i, e := range cs {
			if len(e.args) != 2 || e.args[0].sym != fmt.Sprintf("%s[%d]", kids.sym, i) || !t.sameInt(e.args[1], "p1") || found != "" {
				c.bad("order", "the children are searched otherwise")
				return
			}
			switch t.nilState(e.res) {
			case 0:
				found = e.res.sym
			case -1:
				c.bad("order", "what is found in a child is not looked at")
				return
			}
		}
		l := t.x.leaf("len("+kids.sym+")", types.Typ[types.Int]).lin
		switch {
		case found != "" && t.ret[0].sym != found:
			c.bad("found", "%s is returned, not %s", t.ret[0].str(), found)
			return
		case found == "" && (!t.ret[0].isNil || !t.implies(sc(int64(len(cs))).add(l, -1))):
			c.bad("missing", "%s is returned after %d children", t.ret[0].str(), len(cs))
			return
		}
		n++
		r.ok("")
	}
	r.need("walks of FindChildren", n, 4)
}

func (r *Report) walkFit(f *Fn, max, turns int) []*Trace {
	ts, over := tracesFit(f, max, turns)
	if over {
		r.fail("paths|"+fnName(f.Root), r.P.pos(f.Root.Pos()), "too many paths to analyse")
		return nil
	}
	n, _ := r.Cov["paths_walked"].(int)
	r.Cov["paths_walked"] = n + len(ts)
	return ts
}
