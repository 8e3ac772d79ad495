BOUNDS = "abstract interpretation over Go SSA: linear-inequality bounds prover with inlining and inferred loop, field and function contracts"
BNOTE = "Every run-time check (index, slice, division, shift, make, unchecked assertion, buffer cursor) in the reachable functions is an obligation proved from the source for all inputs; what is not proved is reported. Trusted: the analyser, x/tools/go/ssa, the documented contracts of the standard library, nil-dereference and stack depth are outside this property."

prop("C01", "AMF and FLV decoding never panics",
 "Decoding any byte string as an AMF0 value, an AMF0 value list, an AMF3 value, an FLV tag or an FLV file header either yields a value or returns an error. It never indexes or slices out of range, divides by zero, or fails a type conversion.",
 ["inputs"], "every byte string and every start position handed to the decoders, including truncated, oversized and hostile ones",
 "The failing inputs are particular combinations of type markers, length fields and truncation points; a test samples a few well-formed values and a handful of truncations.",
 ["format/flv/flvio/amf0.go", "format/flv/flvio/amf3.go", "format/flv/flvio/flvio.go", "format/flv/flv.go", "utils/bits/pio"],
 [("AMF0 value decoder", "format/flv/flvio/amf0.go:parseAMF0Val"), ("AMF3 value decoder", "format/flv/flvio/amf3.go:ParseAMF3Val"), ("tag header decoder", "format/flv/flvio/flvio.go:Tag.Parse"), ("guarded reads", "utils/bits/pio: ReadU8..ReadBytes")],
 ["result of the decoding entry points"], "proof", BOUNDS, BNOTE)

prop("C03", "Reading MP4 atoms and demuxing MP4 files never panics",
 "Reading any byte string as an MP4 file, listing its atoms, listing its streams, seeking in it and reading its packets yields values or errors. It never indexes or slices out of range, divides by zero, moves a cursor outside the table it walks, or fails a type conversion.",
 ["inputs", "histories"], "every file content and every sequence of demuxer calls on it",
 "A file can make any atom size, entry count, flag set or table combination lie; tests would need to guess the inconsistent combination (for instance a sample table shorter than the chunk table).",
 ["format/mp4/mp4io/atoms.go", "format/mp4/mp4io/mp4io.go", "format/mp4/demuxer.go", "format/mp4/stream.go"],
 [("atom decoders", "format/mp4/mp4io/atoms.go: Unmarshal methods"), ("top-level reader", "format/mp4/mp4io/mp4io.go:ReadFileAtoms"), ("sample cursors", "format/mp4/demuxer.go: isSampleValid, incSampleIndex, timeToSampleIndex")],
 ["result of reading atoms, streams, packets and of seeking"], "proof", BOUNDS, BNOTE)

prop("C05", "Parsing H.264 and AAC configuration and NAL units never panics",
 "Parsing any bytes as an H.264 decoder configuration, sequence or picture parameter set, NAL unit stream, AAC audio specific config or ADTS header yields a value or an error. It never indexes or slices out of range, divides by zero, shifts by a negative count, or reads past the bit stream.",
 ["inputs"], "every byte string handed to the parsers, split at every point",
 "The parsers read bit fields whose lengths depend on earlier bits; the failing inputs are specific bit patterns such as a length field pointing past the end by one.",
 ["codec/h264/h264.go", "codec/aac/aac.go", "utils/bits/bits.go", "utils/bits/golomb_reader.go"],
 [("SPS parser", "codec/h264/h264.go:ParseSPS"), ("NAL splitter", "codec/h264/h264.go:SplitNALUs"), ("audio config parser", "codec/aac/aac.go:ParseMPEG4AudioConfigBytes"), ("ADTS parser", "codec/aac/aac.go:ParseADTSHeader")],
 ["result of the parsers"], "proof", BOUNDS, BNOTE)

TRACE = "static bit-provenance analysis: trace-partitioned abstract interpretation over Go SSA, compared with format tables"
TNOTE = "Every acyclic path of each named function, with its helpers inlined, is walked in the abstract; each bit of each value stored, written or returned is traced to the bit it comes from and compared with the table of the format; a path the analysis cannot follow is reported, not assumed. Trusted: the analyser, x/tools/go/ssa, the format tables in the analyser."

prop("C08", "Byte-order accessors lay integers out as their names say",
 "Each pio accessor reads or writes its integer with exactly the width, byte order and signedness its name states. The guarded readers fail exactly when the field does not fit in the rest of the buffer, leaving the cursor alone, and otherwise advance it by the field's size; the writers advance the cursor by that size with a buffer and when only counting with a nil one.",
 ["inputs"], "every integer value, every buffer length and every cursor position",
 "A swapped or dropped byte, a missing sign extension or a bound off by one shows only for particular values and buffer lengths; every format in the repository is built on these functions.",
 ["utils/bits/pio/reader.go", "utils/bits/pio/writer.go"],
 [("plain accessors", "utils/bits/pio: U8..I64BE, PutU8..PutI64BE"), ("guarded readers", "utils/bits/pio/reader.go: ReadU8..ReadString"), ("counting writers", "utils/bits/pio/writer.go: WriteU8..WriteBytes")],
 ["bytes stored, values returned, cursor movement and errors"], "proof", TRACE, TNOTE)

prop("C09", "FLV tags and headers follow the FLV layout in both directions",
 "FLV file headers, tag headers, audio and video media headers and previous-tag-size trailers are written and parsed bit for bit as the FLV format lays them out: 24-bit sizes and timestamps with the high timestamp byte last, audio flags 4/2/1/1 plus the AAC packet type, video flags 4/4 plus AVC packet type and signed composition time. A written tag is its header, its data and a trailer of data plus headers, and reading takes exactly those bytes; truncated media headers and foreign signatures are refused.",
 ["inputs"], "every tag, every field value and every byte string parsed",
 "A wrong mask, shift or byte order shows only for timestamps above 24 bits, negative composition times, rare flag values or sizes crossing a byte boundary; the tests use one sample of each.",
 ["format/flv/flvio/flvio.go", "format/flv/flv.go"],
 [("media headers", "format/flv/flvio/flvio.go: Tag.FillHeader, Tag.ParseHeader, Tag.Parse"), ("tag header and trailer", "format/flv/flvio/flvio.go: FillTagHeader, ParseTagHeader, FillTagTrailer"), ("stream form", "format/flv/flvio/flvio.go: WriteTag, ReadTag")],
 ["bytes written, tags parsed, bytes consumed"], "proof", TRACE, TNOTE)

prop("C20", "Packets and FLV tags map onto each other without loss",
 "Writing a packet to FLV or RTMP produces exactly one tag of the matching kind (H.264 and AAC frames and configurations, metadata, which is prefixed by @setDataFrame when publishing) with the packet's data, millisecond time, composition time and key frame flag, and packets of other types produce none. Reading maps each such tag back to the packet with the same type, data, times and key flag, decodes metadata with its own AMF version and strips the marker strings, and skips other tags only.",
 ["inputs", "histories"], "every packet written and every sequence of tags read, in files and in RTMP sessions",
 "Confusing configuration with data, dropping a composition time or a key flag, or dropping a kind of tag shows only for particular packet types and signs; the tests write one stream.",
 ["format/flv/flv.go", "format/flv/flvio/flvio.go", "format/rtmp/cmd.go"],
 [("packet to tag", "format/flv/flv.go: WritePacket, NewAACTag"), ("tag to packet", "format/flv/flv.go: ReadPacket, convertToAMF0Metadata"), ("users", "format/flv Muxer and Demuxer, format/rtmp Conn.ReadPacket and Conn.WritePacket")],
 ["tags handed to the tag writer, packets returned for tags read"], "proof", TRACE, TNOTE)

prop("C10", "RTMP messages cross the chunk layer intact",
 "A message written is cut into chunks of exactly the current chunk size: a type 0 header with the message's time (extended when it is 0xffffff or more), 24-bit length, type and little-endian stream id, then type 3 headers of the same chunk stream that repeat an extended time, between them every payload byte once, in order; a message too long for the length field is refused. Reading understands all four header types, one to three byte chunk stream ids and extended timestamps, keeps length, type, stream and timestamp delta per chunk stream, takes the smaller of the chunk size and what is missing, and returns a message exactly when complete, with its own time, type, stream and data.",
 ["inputs", "histories"], "every message length, time and chunk size; every interleaving of chunk streams and header types read",
 "Boundaries show only when a length meets a multiple of the chunk size, a time reaches 24 bits in the middle of a message, or header types follow each other in a particular order; the tests run with small messages and one header type.",
 ["format/rtmp/msg.go", "format/rtmp/conn.go"],
 [("chunk writer", "format/rtmp/msg.go: Conn.WriteTag, Conn.WriteEvent, writeMsg2"), ("chunk reader", "format/rtmp/msg.go: Conn.readChunk"), ("per-stream state", "format/rtmp/msg.go: message, message.Start")],
 ["bytes sent for a message, messages returned for the chunks read"], "proof",
 "static bit-provenance analysis with inferred inductive loop hypotheses over Go SSA, compared with the chunk format tables", TNOTE + " Loops are covered by their first two turns and two consecutive general turns.")

prop("C21", "RTMP control and aggregate messages follow the protocol",
 "Each control message sent (set chunk size 1, acknowledgement 3, user control 4 with its 16-bit event, window size 5, peer bandwidth 6) carries exactly the big-endian fields of its type, and the write chunk size changes only together with its announcement. A chunk size received takes effect only when between 1 and 2^31-1, a window size replaces the window, a ping request is answered with the same timestamp and flushed, truncated ones are refused, other messages go to the hook, and only handled messages are withheld from the caller. All bytes received count, and when more than the window is unacknowledged, modulo 2^32, the count is sent, flushed and remembered. An aggregate message is split into its parts with type, data and time relative to the first.",
 ["inputs", "histories"], "every control message, byte count and window, every aggregate content",
 "A swapped event number, a counter compared without wrap-around or an aggregate whose first part has time zero passes any test with a short session.",
 ["format/rtmp/msg.go", "format/rtmp/wraprw.go"],
 [("senders", "format/rtmp/msg.go: every caller of Conn.WriteEvent and writeEvent2"), ("receiver", "format/rtmp/msg.go: Conn.handleEvent, Conn.readMsg, Conn.readMsgHandleEvent"), ("aggregates", "format/rtmp/msg.go: Conn.nextAggPart"), ("byte counter", "format/rtmp/wraprw.go: wrapReadWriter.Read")],
 ["control messages sent, connection parameters, messages returned"], "proof", TRACE, TNOTE)

prop("C13", "RTMP server and client exchange the publish and play commands",
 "A session passes its stages in order and only forward: handshake, connect, answer, data; each stage's step is that of the role and no packet is read or written before its stage. Server: the first command must be a connect with an object and an application; it is answered with _result carrying its transaction number, status NetConnection.Connect.Success and its objectEncoding, each createStream with a stream number, each answer flushed before the next wait; other commands are passed over; publish or play without a stream name is refused, else sets URL (from tcUrl or tcurl, app and name), TcUrl, PageUrl, FlashVer and the direction. It is granted (level status, the protocol's codes in order) or, with PubPlayErr, refused (level error, that text). Client: connect, createStream, publish or play for its URL in this order, on the stream number received, each only after an answer of level status; with distinct transaction numbers. A failure stops the exchange and is returned, and no stage is advanced.",
 ["inputs", "histories", "faults"], "every sequence of received commands with any content, every failure of a read, write or flush",
 "Peers order and number their answers freely; a mixed-up transaction number, stream number or missing flush only shows against a peer that differs from the one a test uses.",
 ["format/rtmp/cmd.go", "format/rtmp/msg.go"],
 [("server", "format/rtmp/cmd.go: Conn.readConnect, Conn.writePublishOrPlayResult, Conn.writeDataStart"), ("client", "format/rtmp/cmd.go: Conn.connectPlay, Conn.connectPublish, Conn.writeConnect"), ("stages", "format/rtmp/cmd.go: Conn.Prepare, Conn.ReadPacket, Conn.WritePacket"), ("end of connection", "format/rtmp/msg.go: Conn.startPeekReadLoop")],
 ["commands and control messages sent, their order, flushes, connection fields, errors"], "proof", TRACE, TNOTE)

prop("C26", "Bit readers and writers keep every bit in order",
 "Bits.Reader returns the bits of its input most significant first for every request of 0 to 64 bits, takes no byte before it is needed and keeps exactly the bits not yet returned. Bits.Writer sends the bits written in order, whatever is pending, and FlushBits pads with zeros to a whole byte and leaves nothing pending. GolombBitReader returns single bits, fields and Exp-Golomb codes of up to 32 leading zeros exactly, signed codes alternate 0, 1, -1, 2, -2. A failed read or write is an error.",
 ["inputs", "histories"], "every number of bits held and asked for, every bit value, every length of code",
 "A carry lost at the 64-bit boundary, a stale bit or a byte read too early shows only for particular alignments; codecs use small fields, so neither tests nor ordinary streams meet them.",
 ["utils/bits/bits.go", "utils/bits/golomb_reader.go"],
 [("bit reader", "utils/bits/bits.go: Reader.ReadBits, Reader.ReadBits64"), ("bit writer", "utils/bits/bits.go: Writer.WriteBits, Writer.WriteBits64, Writer.FlushBits"), ("Exp-Golomb", "utils/bits/golomb_reader.go: GolombBitReader")],
 ["bits returned, bytes consumed and written, bits kept"], "proof",
 "bit-provenance dataflow over Go SSA for every alignment and width, loops unrolled on constant counters", TNOTE + " Every alignment is covered: 8 x 65 states of the reader, 65 x 65 of the writer, 8 x 33 of the Golomb reader.")

prop("C23", "AAC configurations and ADTS headers follow ISO 14496-3",
 "ParseADTSHeader accepts exactly the headers of at least 7 bytes with the sync word and layer 0, one of the 13 sample rates, channel configuration 1 to 7 and a frame length that covers the header, and returns object type, rate, layout, header length (9 with CRC), 13-bit frame length and 1024 samples per raw block. FillADTSHeader writes exactly those fields (object types above 4 as LC) into 7 bytes. AudioSpecificConfigs are parsed and written with escaped object types, table and explicit sample rates and the channel layouts of the standard; invalid indexes and truncated data are refused; a codec holds the bytes and configuration parsed. Sample formats have their size and planarity, a frame lasts 1024 samples.",
 ["inputs"], "every header and configuration, every field value",
 "A mask one bit short, an escape taken for a value or a wrong table entry shows only for rare rates, long frames or object types above 31; the repository has no test of this package.",
 ["codec/aac/aac.go"],
 [("ADTS", "codec/aac/aac.go: ParseADTSHeader, FillADTSHeader"), ("AudioSpecificConfig", "codec/aac/aac.go: ParseMPEG4AudioConfigBytes, WriteMPEG4AudioConfig, FromMPEG4AudioConfigBytes"), ("tables", "codec/aac/aac.go: sampleRateTable, chanConfigTable, SampleFormat, PacketDuration")],
 ["configurations returned, bytes written, refusals"], "proof",
 "bit-provenance dataflow with constant propagation of read-only tables over Go SSA, compared with the tables of ISO/IEC 14496-3", TNOTE + " Table indexes take every value; other fields stay unknown. Explicit rates and rates outside the table are written for representative constants at each power of two.")

prop("C24", "H.264 parameter sets, configurations and NAL units follow ISO 14496-10",
 "ParseSPS reads exactly the syntax elements of a sequence parameter set, for every profile, chroma format, scaling matrix, picture order count type, cropping and VUI form up to the timing, from the data without emulation prevention bytes, and returns its id, profile, level, constraint flags, cropping and the picture width and height after cropping; ParseSPSId and ParsePPS return the ids; truncated data is an error. Emulation prevention removal drops exactly the 3 after two zeros. A buffer is split as length-prefixed units when they fill it exactly, else at start codes, without zero bytes around them, else is one unit; joining writes 32-bit lengths or start codes before whole units. FromDecoderConfig takes every parameter set of the record, refuses truncated ones and keeps the record; ToConfig writes version, profile bytes of the first SPS, 4-byte lengths, counts and sets; AddSPSPPS keeps a copy of each valid set under its id and the size of the SPS.",
 ["inputs"], "every parameter set, configuration and NAL unit buffer",
 "Scaling lists, high 4:4:4 profiles, field coding and VUI forms are rare in streams and absent from the tests, and a misread element silently shifts all that follow; start codes and emulation bytes at the ends of a buffer show only for particular bytes.",
 ["codec/h264/h264.go"],
 [("parameter sets", "codec/h264/h264.go: ParseSPS, ParseSPSId, ParsePPS"), ("units", "codec/h264/h264.go: SplitNALUs, SplitNALUsRetInfo, JoinNALUsAVCC, JoinNALUsAnnexb, RemoveH264orH265EmulationBytes"), ("configuration", "codec/h264/h264.go: FromDecoderConfig, Codec.ToConfig, Codec.AddSPSPPS")],
 ["parameter sets and units returned, records written, sets kept"], "proof",
 "symbolic-free path dataflow along the syntax tables of the standard, and bit-provenance dataflow over Go SSA", TNOTE + " Syntax forms are enumerated with at most three reference frame offsets; buffers of unknown bytes are split up to 7 bytes (9 when thorough), longer ones for given unit lengths; records with up to four sets of a kind. FPS is not compared.")

prop("C12", "AMF0 and AMF3 values are read and written as the formats say",
 "ParseAMF0Val and ParseAMF3Val read exactly the bytes of one value at the cursor, and return it: numbers, booleans, strings and long strings, objects and ECMA arrays (up to the empty key), strict arrays, dates in milliseconds, null and undefined; for AMF3 also 29-bit integers, arrays with named and dense members, and objects with declared and dynamic members. Each member is kept under its key in order (a repeated key replaces the value), each nested value is read by the same reader one level deeper, and the depth is limited. Truncated values, references and unsupported types are errors, and never a value; complete values are never refused. FillAMF0Val writes, or with a nil buffer counts, the marker, lengths, keys, values and end marks of every supported Go type, and null for all others; keys that are empty or too long are left out.",
 ["inputs"], "every byte string and every Go value",
 "Tests parse a few captured values; a count, key or nested value handled one byte off shows only for particular shapes, and commands of every RTMP peer pass through these functions.",
 ["format/flv/flvio/amf0.go", "format/flv/flvio/amf3.go"],
 [("AMF0", "format/flv/flvio/amf0.go: ParseAMF0Val, FillAMF0Val, AMFMap.Set, AMFMap.Get"), ("AMF3", "format/flv/flvio/amf3.go: ParseAMF3Val")],
 ["values returned, cursor and errors of the readers; bytes and cursor of the writer"], "proof",
 "grammar-directed path dataflow with bit provenance over Go SSA; nested values are left to the recursive call", TNOTE + " Members and elements are followed for two turns of each loop; the milliseconds of dates outside the range of int64 are not compared; a stray AMF0 object-end marker is not specified.")

prop("C11", "MP4 boxes are written and read as their layouts say",
 "For each of the 32 box types and the esds, Marshal writes exactly the box's layout (size, type, then every field big-endian in its place and width, optional fields as the flags say, entries in order, present children and unknown boxes in order), returns the size it wrote, and Len returns the same size. Unmarshal reads every field back from the same place, refuses a box cut short anywhere and a child whose size is under 8 or beyond its parent, gives each known child its bytes and file offset and keeps it in its field (lists in order), keeps unknown children with their bytes, and returns an error of a child. Children lists what Marshal writes, Tag and Pos are the type and place of the box, FindChildren finds the first box of a type depth first. Times count seconds since 1904, fixed point numbers have half their bits for the fraction, and descriptor lengths have seven bits per byte.",
 ["inputs"], "every field value, flag combination, number of entries and children, every byte string read",
 "There are about 130 functions of hand-kept layouts, of which the tests touch a few through one file; a field swapped, a flag mistaken or a length check off by one shows only for boxes with that field or cut at that byte.",
 ["format/mp4/mp4io/atoms.go", "format/mp4/mp4io/mp4io.go"],
 [("boxes", "format/mp4/mp4io/atoms.go: Marshal, Len, Unmarshal, Children, Tag of each type"), ("descriptors", "format/mp4/mp4io/mp4io.go: ElemStreamDesc"), ("encodings", "format/mp4/mp4io/mp4io.go: PutTime32, GetTime32, PutTime64, GetTime64, PutFixed16, GetFixed16, PutFixed32, GetFixed32"), ("tree", "format/mp4/mp4io/mp4io.go: Dummy, AtomPos.Pos, FindChildren")],
 ["bytes written, sizes returned, fields and children read, refusals"], "proof",
 "bit-provenance dataflow over Go SSA for symbolic fields and bytes, compared with one layout table per box", TNOTE + " Entries and children are followed for the first turns of each loop. Writers are given room for what they write; readers a box with its header. TrackId of an esds and the bit rates written in it are not compared.")

prop("C25", "The MP4 muxer writes every packet and tables that describe what it wrote",
 "A file begins with one mdat header. Each packet of a supported stream is written in order, one sample each: its data goes to the file at the offset and with the size recorded in the chunk offset and sample size tables, it is a sync sample exactly when it is a key frame of a video stream, its duration (run lengths in the time-to-sample table) is the difference of the times of its successor and itself, both in units of the track, so that durations add up without drift, and its composition offset is kept, signed. The last packet of each stream is written by WriteTrailer with duration 0, once. The trailer then patches the size of the mdat box, appends the moov box with exactly the tracks of the streams in order, each with its own id, codec description and duration, and the duration of the longest one. Times that go backwards, unknown codecs, files past 4 GiB and every error of the file below are returned as errors, and the tables are changed only as said.",
 ["inputs", "faults"], "every sequence of packets, every stream set, every failing write or seek",
 "An error in a run length, offset or duration shows only for particular packet sequences (equal after different offsets, odd frame rates, negative offsets), and a lost error only when the disk fails; the repository tests nothing of it.",
 ["format/mp4/muxer.go", "format/mp4/stream.go"],
 [("packets", "format/mp4/muxer.go: Muxer.WritePacket, Stream.writePacket, Muxer.WriteFileHeader"), ("trailer", "format/mp4/muxer.go: Muxer.WriteTrailer, Stream.fillTrackAtom, sortedStreams"), ("tracks", "format/mp4/muxer.go: NewMuxer, Muxer.addStreams"), ("time units", "format/mp4/stream.go: timeToTs, tsToTime")],
 ["writes and seeks of the file, table entries, header fields, errors"], "proof",
 "path dataflow over Go SSA with linear terms for the sample tables, and a census of the stores to their fields", TNOTE + " Streams are followed for the first turns of each loop. A stream's muxer is the muxer that holds it, and no packet waits before the header is written. The type of the handler box and the matrices are not compared.")

prop("C27", "The MP4 demuxer returns the packets the sample tables describe",
 "Opening a file takes every track with a complete sample table and a known codec, in order. Each packet read is the next sample of the stream whose next sample is earliest: its data is exactly the sample's bytes at the offset its chunk and the sizes before it give, or an error when they are not all there; its time is the sum of the durations before it, its composition offset (signed) and key frame mark are those of its tables, and a stream ends with its tables. Seeking goes to the sample that covers the time (for video the last sync sample at or before it, which sets the time for the other streams, all of which move), and every position in the tables is then the one reading up to there would have reached. Every error of a read, a seek or a codec reaches the caller.",
 ["inputs", "faults"], "every sample table, every position in it and every time sought, every failing read or seek",
 "An index not moved or reset in one of seven parallel tables shows only at the boundary of a run, chunk or group, or only after a seek; the repository tests nothing of it.",
 ["format/mp4/demuxer.go", "format/mp4/stream.go"],
 [("packets", "format/mp4/demuxer.go: Demuxer.ReadPacket; format/mp4/stream.go: Stream.readPacket, Stream.isSampleValid"), ("seeking", "format/mp4/demuxer.go: Demuxer.SeekToTime; format/mp4/stream.go: Stream.setSampleIndex, Stream.timeToSampleIndex"), ("opening", "format/mp4/demuxer.go: Demuxer.Streams")],
 ["packets returned, positions in the tables, seeks and reads of the file, errors"], "proof",
 "path dataflow over Go SSA with linear terms for table positions, and a census of the stores to them", TNOTE + " Tables are followed for the first turns of each loop. The search for a time is compared in ticks of the track.")

prop("C15", "No error is lost and no short read is taken for a full one",
 "In every function of the library and the tools, an error that a call may return is, on every path on which it is not nil, handed on: returned, replaced by another error, stored, sent, or given to a call; a function that has no error to return stops on it. No path returns success, calls the same function again or ends without having looked at the error. An io.EOF counts as the end and not as an error only where a file's boxes are listed and where a tool has read its whole input. Exempt are the closing of what is no longer used, deadlines, writes to memory, text output, and the 20 call sites whose error is passed over on purpose (listed with their reasons: malformed optional fields of session descriptions and metadata, failed accepts, media messages that are no tags). A read that may return less than asked for has its count looked at.",
 ["faults", "inputs"], "every call that returns an error, every path of control flow from it",
 "Almost every operation can fail at any point of a stream, and the tests make none of them fail; a lost error goes on with data that is not there.",
 ["format/rtmp", "format/rtsp", "format/flv", "format/mp4", "format/format.go", "codec", "utils", "cmd/avtool"],
 [("RTMP", "format/rtmp: Conn.Prepare, Conn.ReadPacket, Conn.WritePacket and all they call"), ("RTSP", "format/rtsp/client.go: Client.ReadPacket, Client.Describe, Client.Setup, Client.Play"), ("files", "format/flv/flv.go, format/mp4/muxer.go, format/mp4/demuxer.go, format/mp4/mp4io/mp4io.go"), ("openers", "format/format.go: URLOpener.Open, URLOpener.Create")],
 ["errors returned by functions that call others"], "other",
 "path-sensitive typestate analysis of error values over Go SSA, function by function", "Every function of the module is analysed, paths by control flow and nil tests. An error that is given to any call other than printing or asking what it is counts as handed on. The exemptions are counted per package and callee, so one more is reported.")

prop("C16", "Whatever is opened is closed or handed on, on every path",
 "Every file, listener, connection, HTTP response and context that a function of the library or the tools opens is, on every path on which opening succeeded, error paths included, closed by it before it returns (at once or by a defer), or handed on: returned in something that can be closed, sent to a receiver, kept where others see it, or given to a function that takes it over by the same rule or to a function value of the user. A server's handler owns the connection it gets: each handler of the module closes it or hands it on, on every path.",
 ["faults", "histories"], "every call that opens something, every path of control flow from it",
 "Leaks show only when an operation fails half way or over a long run with many connections; no test opens anything.",
 ["format/format.go", "format/rtmp/client.go", "format/rtmp/server.go", "format/rtsp/client.go", "cmd/avtool"],
 [("openers", "format/format.go: URLOpener.Open, URLOpener.Create, URLOpener.StartRtmpServerWaitConn"), ("client", "format/rtmp/client.go: Client.Dial; format/rtsp/client.go: DialTimeout"), ("server", "format/rtmp/server.go: Server.HandleNetConn and the functions set as HandleConn"), ("tools", "cmd/avtool: doConv, doForwardRtmp, doPubsubRtmp, doAvcc2Annexb")],
 ["calls of Close, values returned"], "other",
 "path-sensitive ownership typestate over Go SSA with summaries of functions that take over their argument", "Ownership given to a function value of the user (ReplaceRawConn, HandleConn) ends the duty of the caller; comparisons with constants are followed, other branches are taken both ways. Where something is kept in memory others see, who closes it is not followed.")
prop("C22", "The RTMP handshake is the one the protocol defines, with and without digest",
 "The client sends 3 and a block C1 of 1536 bytes: a version that is not zero, random bytes, and at the position that the sum of four of its bytes names (modulo 728, plus 4, from 8) the HMAC-SHA256 of the rest of the block under the first 30 bytes of the client key. It sends this before it waits for the server's 1+2*1536 bytes, looks for the server's digest at both places (772 and 8), and answers with random bytes whose last 32 are their digest under the digest (by the full client key) of the server's digest, or with the server's block itself when there is no digest. The server refuses a version other than 3 before it answers, reads the client's block whole, and answers at once, in one piece of 1+2*1536 bytes, with 3, S1 and S2: with digests made in the same way under its own keys when the client's block has one, and with a copy of the client's block as S2 when not; then it reads 1536 more bytes. A handshake in which an operation failed ends there and fails. The keys are the protocol's. HsServerParseC1 says whether a block of 1536 bytes has a client's digest and answers no for other lengths.",
 ["inputs", "faults"], "all bytes the peer sends, all failures of reading and writing",
 "No test makes a handshake; client and server of the repository would still agree with each other when both are wrong.",
 ["format/rtmp/handshake.go"],
 [("digest", "format/rtmp/handshake.go: hsMakeDigest, hsCalcDigestPos, hsFindDigest, hsParse1, HsServerParseC1"), ("blocks", "format/rtmp/handshake.go: hsCreate01, hsCreate2"), ("exchange", "format/rtmp/handshake.go: handshakeClient, handshakeServer"), ("keys", "format/rtmp/handshake.go: hsClientFullKey, hsServerFullKey and their parts")],
 ["bytes on the wire"], "proof",
 "path dataflow over Go SSA: the origin of every byte sent (constant, random, the peer's, a digest of which block under which key) compared with the protocol", TNOTE + " HMAC-SHA256, the random source and the connection are the standard library's and the user's.")
prop("C18", "Subscribers get a stream from its last key frame, in order, headers first",
 "In avtool's publish/subscribe server: The cache of a publisher holds the packets since the last key frame (all packets, before the first); a key frame starts it anew without touching what subscribers still hold, and each packet counts. What subscribers see is a snapshot of packets and count that becomes visible as a whole and never changes after. A subscriber that looks gets the packets added since it last looked, in order, but no more than the cache holds; one that comes to a new publisher starts with the whole cache, one that stays never starts again. Configurations and metadata of the publisher are not passed on as packets but remembered as the last ones seen and added to the packets after them (metadata to all, the video configuration to key frames, the audio configuration to audio packets); a packet of another type is dropped. A subscriber is sent metadata and configuration as packets of their own, before the packet they came with, when and only when they differ from the last ones it was sent, and then the packet itself; nothing is sent after a write that failed. A subscriber is registered before it first looks for packets, waits only when it found none, for a signal or the end of its connection, has room for a signal that comes while it is busy, and is no longer registered when it ends, which it does when its connection ends or a write fails. A packet is in the cache before all subscribers of the stream are told, and none of them can hold up the publisher or the others. A new publisher takes over the stream with an empty cache of its own and ends the one before, which stops before its next read; a publisher ends when it is replaced or its connection fails. A stream exists from its first user to its last: users of one path share it, it is looked up, counted and removed under the lock, and removed just when the last user leaves; the connection is closed and the stream left whatever happens.",
 ["inputs", "histories", "schedules"], "all sequences of packets, all orders of publishers and subscribers that come and go",
 "No test runs the server; what a subscriber sees depends on how it interleaves with the publisher.",
 ["cmd/avtool/pubsub.go"],
 [("cache", "cmd/avtool/pubsub.go: gopCache.put, gopCacheReadCursor.advance"), ("headers", "cmd/avtool/pubsub.go: mergeSeqhdr.do, splitSeqhdr.do"), ("subscriber", "cmd/avtool/pubsub.go: stream.addSub, stream.notifySub"), ("publisher", "cmd/avtool/pubsub.go: stream.setPub"), ("streams", "cmd/avtool/pubsub.go: streams.add, doPubsubRtmp")],
 ["packets written to subscribers", "streams present"], "proof",
 "path dataflow over Go SSA: the order of reads, stores, sends and waits on every path, and what each passes on, compared with what the property says; effect query for writes to shared objects", TNOTE + " The packages sync, sync/atomic and context do what they document; loops are followed for their first turns.")
prop("C32", "Addresses and stream names are those of the URL",
 "A connection goes to the host of the URL and to its port, or to the default port of the protocol where none is given (rtmp 1935, rtmps 443, rtsp 554), also for IPv6 hosts, and leaves the caller's URL alone. An RTMP path and query of up to two segments is application and stream, of more segments the first two are the application and all others the stream; the tcUrl is the URL up to the application, without query and fragment. The URL a server shows is /application/stream with the scheme and host of the tcUrl, and a tcUrl that is none or lacks scheme or host is an error. An RTSP client dials with its time limit, returns the error of an address or connection that fails, and keeps user and password but does not show them in requests.",
 ["inputs"], "all URLs, applications and stream names",
 "No test looks at an address; which part goes where depends on the number of segments, the port and the form of the host.",
 ["format/rtmp/url.go", "format/rtmp/client.go", "format/rtsp/client.go"],
 [("host", "format/rtmp/client.go: UrlGetHost"), ("app and stream", "format/rtmp/url.go: splitPath, getTcURL"), ("server URL", "format/rtmp/url.go: createURL"), ("rtsp", "format/rtsp/client.go: DialTimeout")],
 ["addresses dialled", "connect command", "Conn.URL"], "proof",
 "path dataflow over Go SSA: the address, application, stream name and URL of every path as terms over the URL's parts compared with what the property says", TNOTE + " net/url, net and strings do what they document.")
prop("C33", "Open and Create pick the protocol or format of the URL and set it up",
 "Open plays rtmp and rtmps URLs with a client, waits for a publisher at an rtmp URL with @ before it (rtmps with @ is refused), plays rtsp URLs within a time limit, reads http and https URLs and files (any other scheme) that end in .flv as FLV; Create publishes to rtmp and rtmps URLs and writes files that end in .flv or .mp4 (.mp4 only with known streams). Anything else is an error and opens nothing. What is returned reads or writes what was opened, Close closes it (and writes an MP4 file's trailer before), the raw connection, RTMP connection, FLV demuxer and remote flag are those of what was opened; the opener's dial function and hooks are passed on and called once with what was made. An error of any step is returned with nothing else, an HTTP answer that is not 200 is an error. The server that waits hands over one connection, closes all that come later and stops listening.",
 ["inputs", "schedules"], "all URLs, settings of the opener and outcomes of each step; for the server all orders of connections",
 "No test opens anything; the choice depends on scheme, prefix and extension together.",
 ["format/format.go"],
 [("open", "format/format.go: URLOpener.Open, URLOpener.StartRtmpServerWaitConn"), ("create", "format/format.go: URLOpener.Create"), ("client", "format/format.go: URLOpener.newRtmpClient"), ("close", "format/format.go: Mp4WriterCloser.Close")],
 ["Reader and Writer returned", "files and connections opened"], "proof",
 "path dataflow over Go SSA: which calls every path makes, with what, and what it returns, compared with what the scheme and extension it has tested call for", TNOTE + " The standard library does what it documents.")
prop("C34", "RTMP connections are prepared in time, then served or closed",
 "A connection a server gets (or what ReplaceRawConn makes of it) is read and written through buffers as a server's; OnNewConn sees it before anything is read; its handshake up to publish or play is limited by HandshakeTimeout (or a default); a failure is reported and closes it, success removes the limit and hands it to HandleConn, once, open. A client dials the address of the URL with the function set for it, in limited time, passes the connection through ReplaceRawConn, encrypts rtmps and only rtmps, prepares it for what is wanted with the URL known and in limited time, and then returns it without limit; on any failure it returns the error and nothing else and closes what it opened. Other schemes are refused without dialling.",
 ["inputs", "faults"], "all settings of server and client, all URLs, failure or success of every step",
 "No test opens a connection; a limit that stays, or a socket that does, shows only later or under failure.",
 ["format/rtmp/server.go", "format/rtmp/client.go"],
 [("server", "format/rtmp/server.go: Server.HandleNetConn"), ("client", "format/rtmp/client.go: Client.Dial, Client.doDial, Client.FromNetConn")],
 ["calls on the network connection", "connection returned or handled", "events reported"], "proof",
 "path dataflow over Go SSA: order and arguments of the calls of every path compared with what the property says", TNOTE + " What Prepare does is the subject of C13 and C22.")
prop("C35", "The tools pass every packet on, in order, and end when the input does",
 "avtool's converter opens the input, creates the output (if one is named) with the first packet, and writes every packet read there once, in order and unchanged; the forwarding server does so with the packets of a publisher and the RTMP address of its fwd parameter, and forwards nothing for players or other addresses; the two tools that rewrite FLV files write every packet, with the units of each H.264 picture joined as start-code units (wrapped as one unit in avcc2annexb; in the other with the parameter sets seen last before those of a key frame and the headers left out) and the rest unchanged. The end of the input is no error; an error of reading, creating, writing or closing the output ends the tool with that error; what was opened is closed. The rate limiter returns the packets as they are and waits until a packet's distance in time to the last later one has passed since that one; counted connections pass bytes and results through.",
 ["inputs", "histories", "faults"], "all sequences of packets and failures (the first turns of each loop)",
 "The one test of the tools records one file; lost or changed packets depend on their type and on which step fails.",
 ["cmd/avtool/conv.go", "cmd/avtool/forwardrtmp.go", "cmd/avtool/avcc2annexb.go", "cmd/avtool/seqhdr.go", "cmd/avtool/statsec.go", "av/pktop/pktop.go"],
 [("convert", "cmd/avtool/conv.go: doConv"), ("forward", "cmd/avtool/forwardrtmp.go: doForwardRtmp"), ("rewrite", "cmd/avtool/avcc2annexb.go: doAvcc2Annexb; cmd/avtool/seqhdr.go: doMoveH264SeqhdrToKeyFrame"), ("limiter", "av/pktop/pktop.go: NativeRateLimiter.Do"), ("count", "cmd/avtool/statsec.go: StatConn.Read, StatConn.Write")],
 ["packets written", "error returned", "time of packets"], "proof",
 "path dataflow over Go SSA: between one packet read and the next, what is written, waited for and returned compared with what the property says", TNOTE + " Loops are followed for their first turns (2, header tool 4).")
prop("C30", "RTSP requests say what is asked, and responses are taken for what they are",
 "A request is its method, address and RTSP/1.0, the next sequence number, the credentials for its method if the server asked for them, its headers and the client's, each on its line, written at once within the RTSP time limit. A 401 is answered from the realm and nonce of its challenge: Digest with the MD5 response for the method and the client's address when there is a nonce, Basic otherwise, and an error when the address has no user; the password appears nowhere else. A response is the text from RTSP to the empty line: its status is the second word, its body exactly as many bytes as Content-Length says, and its session, up to the ;, is kept if there was none. An interleaved frame is $ and exactly as many bytes as it says, of a channel with a stream, of at least 8 bytes, and in an RTP channel of version 2, the stream's payload type and a time not before and at most an hour after the last packet; frames between responses are passed over and the other way round. DESCRIBE is asked twice at most and only a 200 with a body is a description, whose medias become the streams in order; SETUP asks, for each stream named, for its control address and its two channels, with the session; PLAY and TEARDOWN name the session; ReadPacket and Streams first do the steps that are missing, in order, and stop at an error; every error of reading and writing is returned.",
 ["inputs", "histories", "faults"], "all responses, challenges, frames and failures (the first turns of each loop over headers, parameters and streams; any turn of the loops over bytes)",
 "No test speaks RTSP; what a camera sends, and when a frame comes between responses, is up to it.",
 ["format/rtsp/client.go", "format/rtsp/conn.go"],
 [("request", "format/rtsp/client.go: Client.WriteRequest; format/rtsp/conn.go: connWithTimeout.Read, connWithTimeout.Write"), ("challenge", "format/rtsp/client.go: Client.handle401, md5hash"), ("response", "format/rtsp/client.go: Client.handleResp, Client.parseHeaders, Client.readResp, Client.poll, Client.ReadResponse"), ("frame", "format/rtsp/client.go: Client.parseBlockHeader, Client.findRTSP, Client.readLFLF"), ("steps", "format/rtsp/client.go: Client.prepare, Client.Describe, Client.SetupAll, Client.Setup, Client.Play, Client.Teardown, Client.Options, Client.SendRtpKeepalive, Client.Streams, Client.ReadPacket, Client.Close")],
 ["requests written", "packets and streams returned", "errors returned"], "proof",
 "path dataflow over Go SSA: the text of every request, what is kept of every response, and the order of requests and responses on every path, compared with what the property says", TNOTE + " The status of SETUP and PLAY is not specified, nor is which bytes before RTSP or $ are skipped.")
prop("C31", "A session description becomes the medias it describes",
 "Of a session description, each m= line for audio or video begins a media of that kind, in the order of the lines, whose payload type is the first format listed; the medias before it stay as they are. An a= line is about the media of the last m= line, and about none before the first or after an m= line for anything else. A word control:x sets its control address to all after the first :, whatever that holds; the line rtpmap: sets the clock rate to the number after the first / and the encoding, in either case of letters, to H264 or AAC for H264 and MPEG4-GENERIC, and nothing else sets them. A word of one or more parameters separated by ; sets config from hexadecimal, sizelength and indexlength from decimal, and appends each comma-separated part of sprop-parameter-sets, from base64, in order; a value is all after the first =, further ones included. Lines and words of other kinds change nothing, and the medias are returned when all lines, split at line feeds with the space around them dropped, have been read.",
 ["inputs"], "all descriptions, of any number of lines, words and parameters (any turn of each loop)",
 "The one test prints a fixed description; which attributes a camera writes, where and in what order, is open.",
 ["format/rtsp/sdp/parser.go"],
 [("parser", "format/rtsp/sdp/parser.go: Parse")],
 ["medias returned"], "proof",
 "path dataflow over Go SSA for any turn of the loops over lines, words and parameters: what each line changes of which media, compared with what the property says", TNOTE + " The u= line, and what a number, hexadecimal or base64 text that cannot be read becomes, are not specified.")
prop("C17", "Bytes that have been handed over do not change",
 "The bytes of a packet or tag that a reader, demuxer or connection has returned, or that was passed to a writer, stay as they are for as long as anyone keeps them: later reads use other storage, so a packet can be kept, queued, cached for subscribers that join later, or written to several places at once, without being copied. So do the configuration that a packet carries, and what the codec functions return. Nothing in the library writes into the bytes that a caller gave it, or into the spare room behind them: writers, muxers, parsers, filters and the stream distribution only read packets. The functions whose purpose is to fill a buffer (Put, Fill, Marshal, Write and Read with a buffer as their first bytes) are the exception, for that buffer, and buffers named Tmp are scratch.",
 ["inputs", "histories", "schedules"], "all executions: an over-approximation of which storage every []byte of the module can be (allocations, fields and contexts as in the note)",
 "Tests look at a packet before the next one is read; a buffer that is used again shows only when somebody keeps the packet.",
 ["format/rtmp/msg.go", "format/flv/flv.go", "format/mp4/demuxer.go", "format/rtsp/client.go", "codec/h264/h264.go", "cmd/avtool/pubsub.go"],
 [("rtmp messages", "format/rtmp/msg.go: message.Start, Conn.nextAggPart, Conn.readChunk"), ("flv tags", "format/flv/flvio/flvio.go: ReadTag; format/flv/flv.go: ReadPacket, WritePacket"), ("mp4 samples", "format/mp4/demuxer.go: Demuxer.readat"), ("rtp payloads", "format/rtsp/client.go: Stream.handleH264Payload, Client.findRTSP, Client.readLFLF"), ("distribution", "cmd/avtool/pubsub.go: mergeSeqhdr.do, splitSeqhdr.do, gopCache.put")],
 ["bytes of packets kept after later reads and writes"], "other",
 "inclusion-based points-to analysis of byte storage over Go SSA: every write, copy, append and read into bytes anywhere in the module is checked against storage given by callers and storage handed out through what it was kept in", "Bytes are followed through fields by type (by allocation while a struct is local), collections, interfaces, closures and calls. rtmp.message.msgdata is filled piece by piece before it is handed on: there, what is put in the field must be new. The Malloc hook and callbacks of users, bytes inside AMF values, and what a caller does with its own bytes are outside. Trusted: go/types, go/ssa, the list of library functions that fill a buffer or return their own.")
prop("C07", "No input makes a loop turn for ever",
 "Parsing, reading, writing and connecting come to an end. Every turn of every loop in the library and the tool either gets on - it moves its position in the bytes, its counter or its rest towards the condition that ends it, takes the next element of a list, or takes a step that is known to be more than nothing where its size comes from the input - or it waits: for bytes from the peer, an event or a timer. No size, length or count of zero in a file or message, and no stage asked for, leaves a loop turning on the spot, and a reader that fails is not asked again and again without waiting.",
 ["inputs", "histories"], "all loops of the module, whatever the input",
 "A test stops at the inputs it was given; a loop that does not get on shows only for the one input that leaves it where it is.",
 ["format/mp4/mp4io/atoms.go", "format/mp4/mp4io/mp4io.go", "codec/h264/h264.go", "format/rtsp/client.go", "format/rtmp/cmd.go", "cmd/avtool/pubsub.go", "format/flv/flvio/amf0.go"],
 [("boxes", "format/mp4/mp4io/atoms.go: Unmarshal of every container; mp4io.go: ReadFileAtoms, ElemStreamDesc.parseLength"), ("NAL units", "codec/h264/h264.go: splitAVCC, splitAnnexb, RemoveH264orH265EmulationBytes; format/rtsp/client.go: Stream.handleH264Payload"), ("stages", "format/rtmp/cmd.go: Conn.Prepare; format/rtsp/client.go: Client.prepare"), ("serving", "cmd/avtool/pubsub.go: stream.setPub, stream.addSub, doPubsubRtmp")],
 ["loops that turn without getting on"], "other",
 "natural loops over Go SSA: every way round a loop must wait, take input or an element, move a cursor in memory, or move a loop variable by a step shown to be positive towards an exit that depends on it; after a failed read the way round must itself get on", "Progress of each turn, not a bound on the number of turns or a proof that the position ends at its limit. Recursion is outside (depth is limited in the AMF parser). A step that a parser returns together with an error, and hooks that are called, are taken to get on. Trusted: go/types, go/ssa, that reading functions of the standard library wait or fail.")
prop("C29", "RTP packets turn into the access units they carry, at the right time",
 "The payload of an RTP packet is what follows its header, contributing sources and header extension, without its padding; packets in which these do not fit are errors and leave the stream as it was. Of an H.264 payload, a slice (types 1 to 5) makes a packet that is its four-byte length and the slice, with the time stamp of the RTP packet, and is a key frame if and only if it is of type 5; fragments (FU-A) add up, in order, to the unit whose header is the indicator's upper bits and the fragment header's type, which is handed on when its end comes, and fragments of a unit without start are left out; the units of an aggregate (STAP-A) are handed on one by one as far as they fit; a payload with a start code is split at start codes; a first SPS or PPS is kept and another one counts as a change, and after both changed every packet reports ErrCodecChange; types 0 and 29 to 31 and units shorter than two bytes are errors, and the others are left out. An AAC packet is what follows its four bytes of access unit header. The codec follows the newest parameter sets, those of the SDP until the stream sends its own. A block of an odd channel is passed over, one of an even channel goes to its stream without the block header; an error ends the session unless SkipErrRtpBlock is set. A packet comes out once, dated by its time stamp less that of the stream's first packet in units of the stream's time scale (8000 when unknown), or as an error when this goes back or jumps by more than half an hour.",
 ["inputs", "histories"], "all RTP packets, all states of the stream, all settings",
 "No test reads an RTP packet; fragments, aggregates and header options depend on the camera.",
 ["format/rtsp/client.go", "format/rtsp/stream.go"],
 [("payload", "format/rtsp/client.go: Stream.handleRtpPacket"), ("units", "format/rtsp/client.go: Stream.handleH264Payload, handleBuggyAnnexbH264Packet, isCodecChange"), ("codec", "format/rtsp/client.go: Stream.makeCodec"), ("packet", "format/rtsp/client.go: Client.handleBlock, Stream.timeScale")],
 ["packets returned", "errors returned"], "proof",
 "path dataflow over Go SSA: what every path hands on and leaves in the stream compared, byte by byte, with what the packet's bytes say", TNOTE + " Loops over units are followed for their first turns; AAC payloads with more than one access unit are not specified.")
