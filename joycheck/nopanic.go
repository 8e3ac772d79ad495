package main

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// isEncoder: functions that fill a buffer the caller sized with the same
// function (a counting pass). Their memory safety is the subject of the
// sizing properties, not of the decoding ones.
func isEncoder(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	pk := relPkg(fnPkgPath(f))
	nm := f.Name()
	pre := func(ps ...string) bool {
		for _, p := range ps {
			if strings.HasPrefix(nm, p) {
				return true
			}
		}
		return false
	}
	switch pk {
	case "utils/bits/pio":
		return pre("Write", "Put")
	case "format/flv/flvio":
		return pre("Fill", "fill")
	}
	return false
}

type npConfig struct {
	entries []string // pkg:Func
	cut     func(*ssa.Function) bool
	kinds   map[string]bool
	roots   []string // package prefixes in which CHA/escaping roots are judged
	minFn   int
	minOb   int
}

var panicKinds = map[string]bool{"index": true, "slice": true, "div": true, "shift": true, "cursor": true, "make": true, "assert": true, "panic": true, "call": true, "nil": true}

func (r *Report) resolve(names []string) []*ssa.Function {
	var es []*ssa.Function
	for _, i := range names {
		k := strings.LastIndex(i, ":")
		fn := r.P.fn(i[:k], i[k+1:])
		if fn == nil {
			r.fail("anchor|"+i, "-", "entry point "+i+" does not exist any more")
			continue
		}
		es = append(es, fn)
	}
	return es
}

func (r *Report) noPanic(c npConfig) {
	es := r.resolve(c.entries)
	m := newModular(r.P)
	m.cut = c.cut
	m.kinds = c.kinds
	m.skip = func(o *Oblig) bool {
		// the length comes from the sizing pass of an encoder
		if o.Kind != "make" {
			return false
		}
		d := o.In.Args[0].Def
		for d != nil && (d.Op == OpExtract || d.Op == OpConvert) {
			d = d.Args[0].Def
		}
		return d != nil && (d.Op == OpCall && d.Callee != nil && c.cut != nil && c.cut(d.Callee) ||
			d.Op == OpHavoc && d.ClobBy != nil && d.ClobBy.Callee != nil && c.cut != nil && c.cut(d.ClobBy.Callee))
	}
	all, roots := r.P.reach(es, c.cut)
	isEntry := map[*ssa.Function]bool{}
	for _, e := range es {
		isEntry[e] = true
	}
	nroots := 0
	judged := map[*ssa.Function]bool{}
	for _, q := range roots {
		if !isEntry[q] && !inPrefixes(relPkg(fnPkgPath(q)), c.roots) {
			continue
		}
		nroots++
		judged[q] = true
		res := m.analyse(q)
		for _, o := range res.bad {
			r.obligFail(q, o)
		}
	}
	// obligations: every distinct construct, in the function that owns it
	nob := 0
	byKind := map[string]int{}
	var samples []string
	for _, f := range all {
		res := m.res[f]
		if res == nil {
			continue
		}
		for _, o := range res.obs {
			if o.In.Ctx == nil || o.In.Ctx.Fn != f {
				continue
			}
			nob++
			byKind[o.Kind]++
			if o.OK && len(samples) < 8 && nob%17 == 1 {
				samples = append(samples, fmt.Sprintf("%s %s %s: %s", r.P.pos(o.In.Orig.Pos()), fnName(f), o.Kind, r.srcLine(o.In.Orig.Pos())))
			}
		}
	}
	r.Samples = append(r.Samples, samples...)
	r.Obligations += nob
	r.Discharged = r.Obligations - len(r.Findings)
	if r.Discharged < 0 {
		r.Discharged = 0
	}
	r.Cov["functions_analysed"] = len(all)
	r.Cov["entry_points"] = nroots
	r.Cov["obligations_by_kind"] = byKind
	r.need("functions reachable from the entry points", len(all), c.minFn)
	r.need("run-time checks in those functions", nob, c.minOb)
}

func inPrefixes(s string, ps []string) bool {
	for _, p := range ps {
		if strings.HasPrefix(s, p) {
			return true
		}
	}
	return false
}

func (r *Report) obligFail(root *ssa.Function, o *Oblig) {
	owner := fnName(root)
	var path []string
	if o.In.Ctx != nil {
		owner = fnName(o.In.Ctx.Fn)
		for x := o.In.Ctx; x != nil; x = x.Parent {
			s := fnName(x.Fn)
			if x.Call != nil {
				s += " called at " + r.P.pos(x.Call.Pos())
			}
			path = append(path, s)
		}
	}
	line := ""
	pos := "-"
	if o.In.Orig != nil {
		line = r.srcLine(o.In.Orig.Pos())
		pos = r.P.pos(o.In.Orig.Pos())
	}
	r.fail(o.Kind+"|"+owner+"|"+line, pos, fmt.Sprintf("%s: %s is not shown safe from entry %s: %s (%s)", owner, kindText[o.Kind], fnName(root), o.What, o.How), path...)
}

var kindText = map[string]string{"index": "an index", "slice": "a slice expression", "div": "a division", "shift": "a shift count", "cursor": "a cursor", "make": "a make length", "assert": "a type assertion", "panic": "an explicit panic", "call": "a call", "nil": "a pointer dereference", "alloc": "an allocation size"}

func init() {
	register("C01", "proof", func(r *Report, thorough bool) {
		r.rule("Every index, slice, division, shift, make and unchecked type assertion reachable from the FLV and AMF decoding entry points is shown to succeed for every input, by interval/linear-inequality dataflow over the inlined SSA form.")
		r.noPanic(npConfig{
			entries: []string{"format/flv/flvio:ParseAMF0Val", "format/flv/flvio:ParseAMFVals", "format/flv/flvio:ParseAMF3Val", "format/flv/flvio:Tag.Parse", "format/flv/flvio:Tag.ParseHeader", "format/flv:Demuxer.ReadFileHeader", "format/flv:Demuxer.ReadTag", "format/flv:Demuxer.ReadPacket", "format/flv:ReadPacket"},
			cut:     isEncoder,
			kinds:   panicKinds,
			roots:   []string{"format/flv"},
			minFn:   25, minOb: 60,
		})
	})
}

func init() {
	register("C03", "proof", func(r *Report, thorough bool) {
		r.rule("Every index, slice, division, shift, make, cursor and unchecked type assertion reachable from reading MP4 atoms and demuxing an MP4 file is shown to succeed for every input.")
		r.noPanic(npConfig{
			entries: []string{"format/mp4/mp4io:ReadFileAtoms", "format/mp4:Demuxer.ReadPacket", "format/mp4:Demuxer.Streams", "format/mp4:Demuxer.SeekToTime", "format/mp4:Demuxer.CurrentTime"},
			cut:     isEncoder,
			kinds:   panicKinds,
			roots:   []string{"format/mp4"},
			minFn:   60, minOb: 150,
		})
	})
	register("C05", "proof", func(r *Report, thorough bool) {
		r.rule("Every index, slice, division, shift, make and unchecked type assertion reachable from the AAC and H.264 configuration parsers, the NAL unit splitters and the bit readers is shown to succeed for every input.")
		r.noPanic(npConfig{
			entries: []string{"codec/h264:FromDecoderConfig", "codec/h264:ParseSPS", "codec/h264:ParseSPSId", "codec/h264:ParsePPS", "codec/h264:CheckNALUsType", "codec/h264:SplitNALUsRetInfo", "codec/h264:SplitNALUs", "codec/h264:Codec.AddSPSPPS", "codec/h264:RemoveH264orH265EmulationBytes", "codec/h264:NALUType", "codec/h264:IsDataNALU", "codec/h264:Codec.ToConfig",
				"codec/aac:ParseADTSHeader", "codec/aac:ParseMPEG4AudioConfigBytes", "codec/aac:PacketDuration", "codec/aac:FromMPEG4AudioConfigBytes",
				"utils/bits:Reader.ReadBits", "utils/bits:Reader.ReadBits64", "utils/bits:GolombBitReader.ReadBits", "utils/bits:GolombBitReader.ReadExponentialGolombCode", "utils/bits:GolombBitReader.ReadSE"},
			cut:   isEncoder,
			kinds: panicKinds,
			roots: []string{"codec/", "utils/bits"},
			minFn: 25, minOb: 60,
		})
	})
}

func isRtmpWriter(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if isEncoder(f) {
		return true
	}
	if relPkg(fnPkgPath(f)) != "format/rtmp" {
		return false
	}
	for _, p := range []string{"write", "Write", "fill", "setAndWrite", "tmpwbuf", "Tmpwbuf"} {
		if strings.HasPrefix(f.Name(), p) {
			return true
		}
	}
	return false
}

func init() {
	register("C02", "proof", func(r *Report, thorough bool) {
		r.rule("Every index, slice, division, shift, make and unchecked type assertion reachable from RTMP handshaking, chunk, message and command reading is shown to succeed for every byte sequence a peer can send.")
		r.noPanic(npConfig{
			entries: []string{"format/rtmp:Conn.ReadTag", "format/rtmp:Conn.ReadPacket", "format/rtmp:Conn.Prepare", "format/rtmp:HsServerParseC1", "format/rtmp:Server.HandleNetConn"},
			cut:     isRtmpWriter,
			kinds:   panicKinds,
			roots:   []string{"format/rtmp"},
			minFn:   60, minOb: 100,
		})
	})
	register("C04", "proof", func(r *Report, thorough bool) {
		r.rule("Every index, slice, division, shift, make and unchecked type assertion reachable from SDP parsing and RTSP/RTP reading is shown to succeed for every byte sequence a server can send.")
		r.noPanic(npConfig{
			entries: []string{"format/rtsp/sdp:Parse", "format/rtsp:Client.ReadPacket", "format/rtsp:Client.ReadResponse", "format/rtsp:Client.Streams", "format/rtsp:Client.Describe", "format/rtsp:Client.SetupAll", "format/rtsp:Client.Play", "format/rtsp:Client.HandleCodecChange"},
			cut:     isEncoder,
			kinds:   panicKinds,
			roots:   []string{"format/rtsp"},
			minFn:   30, minOb: 60,
		})
	})
}
