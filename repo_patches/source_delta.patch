From fbaf046d8851ceae07028597a0ac1a2330102230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:56 +0000
Subject: [PATCH 001/113] fix: mp4io: reject child atoms whose size does not
 cover their own header

A size below 8 made every container loop forever (0) or step backwards.
---
 format/mp4/mp4io/atoms.go | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/format/mp4/mp4io/atoms.go b/format/mp4/mp4io/atoms.go
index e83f72b..3b7a003 100644
--- a/format/mp4/mp4io/atoms.go
+++ b/format/mp4/mp4io/atoms.go
@@ -257,7 +257,7 @@ func (self *Movie) Unmarshal(b []byte, offset int) (n int, err error) {
 	for n+8 < len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
-		if len(b) < n+size {
+		if size < 8 || len(b) < n+size {
 			err = parseErr("TagSizeInvalid", n+offset, err)
 			return
 		}
@@ -554,7 +554,7 @@ func (self *Track) Unmarshal(b []byte, offset int) (n int, err error) {
 	for n+8 < len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
-		if len(b) < n+size {
+		if size < 8 || len(b) < n+size {
 			err = parseErr("TagSizeInvalid", n+offset, err)
 			return
 		}
@@ -884,7 +884,7 @@ func (self *Media) Unmarshal(b []byte, offset int) (n int, err error) {
 	for n+8 < len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
-		if len(b) < n+size {
+		if size < 8 || len(b) < n+size {
 			err = parseErr("TagSizeInvalid", n+offset, err)
 			return
 		}
@@ -1108,7 +1108,7 @@ func (self *MediaInfo) Unmarshal(b []byte, offset int) (n int, err error) {
 	for n+8 < len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
-		if len(b) < n+size {
+		if size < 8 || len(b) < n+size {
 			err = parseErr("TagSizeInvalid", n+offset, err)
 			return
 		}
@@ -1217,7 +1217,7 @@ func (self *DataInfo) Unmarshal(b []byte, offset int) (n int, err error) {
 	for n+8 < len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
-		if len(b) < n+size {
+		if size < 8 || len(b) < n+size {
 			err = parseErr("TagSizeInvalid", n+offset, err)
 			return
 		}
@@ -1311,7 +1311,7 @@ func (self *DataRefer) Unmarshal(b []byte, offset int) (n int, err error) {
 	for n+8 < len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
-		if len(b) < n+size {
+		if size < 8 || len(b) < n+size {
 			err = parseErr("TagSizeInvalid", n+offset, err)
 			return
 		}
@@ -1584,7 +1584,7 @@ func (self *SampleTable) Unmarshal(b []byte, offset int) (n int, err error) {
 	for n+8 < len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
-		if len(b) < n+size {
+		if size < 8 || len(b) < n+size {
 			err = parseErr("TagSizeInvalid", n+offset, err)
 			return
 		}
@@ -1751,7 +1751,7 @@ func (self *SampleDesc) Unmarshal(b []byte, offset int) (n int, err error) {
 	for n+8 < len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
-		if len(b) < n+size {
+		if size < 8 || len(b) < n+size {
 			err = parseErr("TagSizeInvalid", n+offset, err)
 			return
 		}
@@ -1922,7 +1922,7 @@ func (self *MP4ADesc) Unmarshal(b []byte, offset int) (n int, err error) {
 	for n+8 < len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
-		if len(b) < n+size {
+		if size < 8 || len(b) < n+size {
 			err = parseErr("TagSizeInvalid", n+offset, err)
 			return
 		}
@@ -2141,7 +2141,7 @@ func (self *AVC1Desc) Unmarshal(b []byte, offset int) (n int, err error) {
 	for n+8 < len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
-		if len(b) < n+size {
+		if size < 8 || len(b) < n+size {
 			err = parseErr("TagSizeInvalid", n+offset, err)
 			return
 		}
@@ -2642,7 +2642,7 @@ func (self *MovieFrag) Unmarshal(b []byte, offset int) (n int, err error) {
 	for n+8 < len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
-		if len(b) < n+size {
+		if size < 8 || len(b) < n+size {
 			err = parseErr("TagSizeInvalid", n+offset, err)
 			return
 		}
@@ -2797,7 +2797,7 @@ func (self *TrackFrag) Unmarshal(b []byte, offset int) (n int, err error) {
 	for n+8 < len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
-		if len(b) < n+size {
+		if size < 8 || len(b) < n+size {
 			err = parseErr("TagSizeInvalid", n+offset, err)
 			return
 		}
@@ -2894,7 +2894,7 @@ func (self *MovieExtend) Unmarshal(b []byte, offset int) (n int, err error) {
 	for n+8 < len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
-		if len(b) < n+size {
+		if size < 8 || len(b) < n+size {
 			err = parseErr("TagSizeInvalid", n+offset, err)
 			return
 		}
-- 
2.43.0


From 53b75abed383d75e9c7ef237c978573bf7a0d9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:56 +0000
Subject: [PATCH 002/113] fix: mp4io: check entry counts against the atom
 before allocating tables

The count field was read without a length check and the table allocated
from it before the length check.
---
 format/mp4/mp4io/atoms.go | 48 +++++++++++++++++++++++++++++----------
 1 file changed, 36 insertions(+), 12 deletions(-)

diff --git a/format/mp4/mp4io/atoms.go b/format/mp4/mp4io/atoms.go
index 3b7a003..2f907eb 100644
--- a/format/mp4/mp4io/atoms.go
+++ b/format/mp4/mp4io/atoms.go
@@ -2259,13 +2259,17 @@ func (self *TimeToSample) Unmarshal(b []byte, offset int) (n int, err error) {
 	self.Flags = pio.U24BE(b[n:])
 	n += 3
 	var _len_Entries uint32
+	if len(b) < n+4 {
+		err = parseErr("_len_Entries", n+offset, err)
+		return
+	}
 	_len_Entries = pio.U32BE(b[n:])
 	n += 4
-	self.Entries = make([]TimeToSampleEntry, _len_Entries)
-	if len(b) < n+LenTimeToSampleEntry*len(self.Entries) {
+	if len(b) < n+LenTimeToSampleEntry*int(_len_Entries) {
 		err = parseErr("TimeToSampleEntry", n+offset, err)
 		return
 	}
+	self.Entries = make([]TimeToSampleEntry, _len_Entries)
 	for i := range self.Entries {
 		self.Entries[i] = GetTimeToSampleEntry(b[n:])
 		n += LenTimeToSampleEntry
@@ -2343,13 +2347,17 @@ func (self *SampleToChunk) Unmarshal(b []byte, offset int) (n int, err error) {
 	self.Flags = pio.U24BE(b[n:])
 	n += 3
 	var _len_Entries uint32
+	if len(b) < n+4 {
+		err = parseErr("_len_Entries", n+offset, err)
+		return
+	}
 	_len_Entries = pio.U32BE(b[n:])
 	n += 4
-	self.Entries = make([]SampleToChunkEntry, _len_Entries)
-	if len(b) < n+LenSampleToChunkEntry*len(self.Entries) {
+	if len(b) < n+LenSampleToChunkEntry*int(_len_Entries) {
 		err = parseErr("SampleToChunkEntry", n+offset, err)
 		return
 	}
+	self.Entries = make([]SampleToChunkEntry, _len_Entries)
 	for i := range self.Entries {
 		self.Entries[i] = GetSampleToChunkEntry(b[n:])
 		n += LenSampleToChunkEntry
@@ -2430,13 +2438,17 @@ func (self *CompositionOffset) Unmarshal(b []byte, offset int) (n int, err error
 	self.Flags = pio.U24BE(b[n:])
 	n += 3
 	var _len_Entries uint32
+	if len(b) < n+4 {
+		err = parseErr("_len_Entries", n+offset, err)
+		return
+	}
 	_len_Entries = pio.U32BE(b[n:])
 	n += 4
-	self.Entries = make([]CompositionOffsetEntry, _len_Entries)
-	if len(b) < n+LenCompositionOffsetEntry*len(self.Entries) {
+	if len(b) < n+LenCompositionOffsetEntry*int(_len_Entries) {
 		err = parseErr("CompositionOffsetEntry", n+offset, err)
 		return
 	}
+	self.Entries = make([]CompositionOffsetEntry, _len_Entries)
 	for i := range self.Entries {
 		self.Entries[i] = GetCompositionOffsetEntry(b[n:])
 		n += LenCompositionOffsetEntry
@@ -2514,13 +2526,17 @@ func (self *SyncSample) Unmarshal(b []byte, offset int) (n int, err error) {
 	self.Flags = pio.U24BE(b[n:])
 	n += 3
 	var _len_Entries uint32
+	if len(b) < n+4 {
+		err = parseErr("_len_Entries", n+offset, err)
+		return
+	}
 	_len_Entries = pio.U32BE(b[n:])
 	n += 4
-	self.Entries = make([]uint32, _len_Entries)
-	if len(b) < n+4*len(self.Entries) {
+	if len(b) < n+4*int(_len_Entries) {
 		err = parseErr("uint32", n+offset, err)
 		return
 	}
+	self.Entries = make([]uint32, _len_Entries)
 	for i := range self.Entries {
 		self.Entries[i] = pio.U32BE(b[n:])
 		n += 4
@@ -2581,13 +2597,17 @@ func (self *ChunkOffset) Unmarshal(b []byte, offset int) (n int, err error) {
 	self.Flags = pio.U24BE(b[n:])
 	n += 3
 	var _len_Entries uint32
+	if len(b) < n+4 {
+		err = parseErr("_len_Entries", n+offset, err)
+		return
+	}
 	_len_Entries = pio.U32BE(b[n:])
 	n += 4
-	self.Entries = make([]uint32, _len_Entries)
-	if len(b) < n+4*len(self.Entries) {
+	if len(b) < n+4*int(_len_Entries) {
 		err = parseErr("uint32", n+offset, err)
 		return
 	}
+	self.Entries = make([]uint32, _len_Entries)
 	for i := range self.Entries {
 		self.Entries[i] = pio.U32BE(b[n:])
 		n += 4
@@ -3095,13 +3115,17 @@ func (self *SampleSize) Unmarshal(b []byte, offset int) (n int, err error) {
 		return
 	}
 	var _len_Entries uint32
+	if len(b) < n+4 {
+		err = parseErr("_len_Entries", n+offset, err)
+		return
+	}
 	_len_Entries = pio.U32BE(b[n:])
 	n += 4
-	self.Entries = make([]uint32, _len_Entries)
-	if len(b) < n+4*len(self.Entries) {
+	if len(b) < n+4*int(_len_Entries) {
 		err = parseErr("uint32", n+offset, err)
 		return
 	}
+	self.Entries = make([]uint32, _len_Entries)
 	for i := range self.Entries {
 		self.Entries[i] = pio.U32BE(b[n:])
 		n += 4
-- 
2.43.0


From 71654b4e56dfc3ea783c092b8ff8d69ecec7dbb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:25 +0000
Subject: [PATCH 003/113] fix: mp4io: bounds-check every field of trun sample
 entries

---
 format/mp4/mp4io/atoms.go | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/format/mp4/mp4io/atoms.go b/format/mp4/mp4io/atoms.go
index 2f907eb..f2c2193 100644
--- a/format/mp4/mp4io/atoms.go
+++ b/format/mp4/mp4io/atoms.go
@@ -3250,10 +3250,13 @@ func (self *TrackFragRun) Unmarshal(b []byte, offset int) (n int, err error) {
 	}
 	self.Flags = pio.U24BE(b[n:])
 	n += 3
+	if len(b) < n+4 {
+		err = parseErr("_len_Entries", n+offset, err)
+		return
+	}
 	var _len_Entries uint32
 	_len_Entries = pio.U32BE(b[n:])
 	n += 4
-	self.Entries = make([]TrackFragRunEntry, _len_Entries)
 	if self.Flags&TRUN_DATA_OFFSET != 0 {
 		{
 			if len(b) < n+4 {
@@ -3282,23 +3285,40 @@ func (self *TrackFragRun) Unmarshal(b []byte, offset int) (n int, err error) {
 		} else {
 			flags = self.FirstSampleFlags
 		}
-		entry := &self.Entries[i]
+		var entry TrackFragRunEntry
 		if flags&TRUN_SAMPLE_DURATION != 0 {
+			if len(b) < n+4 {
+				err = parseErr("Duration", n+offset, err)
+				return
+			}
 			entry.Duration = pio.U32BE(b[n:])
 			n += 4
 		}
 		if flags&TRUN_SAMPLE_SIZE != 0 {
+			if len(b) < n+4 {
+				err = parseErr("Size", n+offset, err)
+				return
+			}
 			entry.Size = pio.U32BE(b[n:])
 			n += 4
 		}
 		if flags&TRUN_SAMPLE_FLAGS != 0 {
+			if len(b) < n+4 {
+				err = parseErr("Flags", n+offset, err)
+				return
+			}
 			entry.Flags = pio.U32BE(b[n:])
 			n += 4
 		}
 		if flags&TRUN_SAMPLE_CTS != 0 {
+			if len(b) < n+4 {
+				err = parseErr("Cts", n+offset, err)
+				return
+			}
 			entry.Cts = pio.U32BE(b[n:])
 			n += 4
 		}
+		self.Entries = append(self.Entries, entry)
 	}
 	return
 }
-- 
2.43.0


From c493a81abaca5d6aca6dbb0e0fe47a6c84ba674f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:25 +0000
Subject: [PATCH 004/113] fix: mp4io: bounds-check the tfdt decode time

---
 format/mp4/mp4io/atoms.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/format/mp4/mp4io/atoms.go b/format/mp4/mp4io/atoms.go
index f2c2193..ffcbed2 100644
--- a/format/mp4/mp4io/atoms.go
+++ b/format/mp4/mp4io/atoms.go
@@ -3561,10 +3561,17 @@ func (self *TrackFragDecodeTime) Unmarshal(b []byte, offset int) (n int, err err
 	self.Flags = pio.U24BE(b[n:])
 	n += 3
 	if self.Version != 0 {
+		if len(b) < n+8 {
+			err = parseErr("Time", n+offset, err)
+			return
+		}
 		self.Time = GetTime64(b[n:])
 		n += 8
 	} else {
-
+		if len(b) < n+4 {
+			err = parseErr("Time", n+offset, err)
+			return
+		}
 		self.Time = GetTime32(b[n:])
 		n += 4
 	}
-- 
2.43.0


From c007c3ef9a3c4ca306d3c67053296ad067accad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:49 +0000
Subject: [PATCH 005/113] fix: mp4io: reject an avcC atom shorter than its
 header

---
 format/mp4/mp4io/atoms.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/format/mp4/mp4io/atoms.go b/format/mp4/mp4io/atoms.go
index ffcbed2..a2df488 100644
--- a/format/mp4/mp4io/atoms.go
+++ b/format/mp4/mp4io/atoms.go
@@ -2201,6 +2201,10 @@ func (self AVC1Conf) Len() (n int) {
 func (self *AVC1Conf) Unmarshal(b []byte, offset int) (n int, err error) {
 	(&self.AtomPos).setPos(offset, len(b))
 	n += 8
+	if len(b) < n {
+		err = parseErr("Data", n+offset, err)
+		return
+	}
 	self.Data = b[n:]
 	n += len(b[n:])
 	return
-- 
2.43.0


From 2a917ee2d63d2d2037745f767bdf74ab2602790f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:49 +0000
Subject: [PATCH 006/113] fix: mp4io: reject top-level atoms whose size does
 not cover their own header

moov/moof panicked and other tags seeked backwards, possibly forever.
---
 format/mp4/mp4io/mp4io.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/format/mp4/mp4io/mp4io.go b/format/mp4/mp4io/mp4io.go
index 13bcae8..8ebe563 100644
--- a/format/mp4/mp4io/mp4io.go
+++ b/format/mp4/mp4io/mp4io.go
@@ -388,6 +388,10 @@ func ReadFileAtoms(r io.ReadSeeker) (atoms []Atom, err error) {
 		}
 		size := pio.U32BE(taghdr[0:])
 		tag := Tag(pio.U32BE(taghdr[4:]))
+		if size < 8 {
+			err = parseErr("TagSizeInvalid", int(offset), nil)
+			return
+		}
 
 		var atom Atom
 		switch tag {
-- 
2.43.0


From 2079e4c691b8d62ddba43f8956242aec5c3e5d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:49 +0000
Subject: [PATCH 007/113] fix: mp4io: do not allocate a whole moov/moof from
 its size field alone

A 16-byte file could make the reader allocate 4 GB.
---
 format/mp4/mp4io/mp4io.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/format/mp4/mp4io/mp4io.go b/format/mp4/mp4io/mp4io.go
index 8ebe563..78740ed 100644
--- a/format/mp4/mp4io/mp4io.go
+++ b/format/mp4/mp4io/mp4io.go
@@ -1,6 +1,7 @@
 package mp4io
 
 import (
+	"bytes"
 	"fmt"
 	"io"
 	"math"
@@ -402,12 +403,14 @@ func ReadFileAtoms(r io.ReadSeeker) (atoms []Atom, err error) {
 		}
 
 		if atom != nil {
-			b := make([]byte, int(size))
-			if _, err = io.ReadFull(r, b[8:]); err != nil {
+			buf := bytes.NewBuffer(taghdr)
+			if _, err = io.CopyN(buf, r, int64(size)-8); err != nil {
+				if err == io.EOF {
+					err = io.ErrUnexpectedEOF
+				}
 				return
 			}
-			copy(b, taghdr)
-			if _, err = atom.Unmarshal(b, int(offset)); err != nil {
+			if _, err = atom.Unmarshal(buf.Bytes(), int(offset)); err != nil {
 				return
 			}
 			atoms = append(atoms, atom)
-- 
2.43.0


From 462cdf583a7f372ff7d28ce810a0125e6e86615a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:49 +0000
Subject: [PATCH 008/113] fix: mp4io: end the esds decoder config at its
 declared length

The following SL config descriptor was included in the AudioSpecificConfig.
---
 format/mp4/mp4io/mp4io.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/mp4/mp4io/mp4io.go b/format/mp4/mp4io/mp4io.go
index 78740ed..9daa38a 100644
--- a/format/mp4/mp4io/mp4io.go
+++ b/format/mp4/mp4io/mp4io.go
@@ -339,7 +339,7 @@ func (self *ElemStreamDesc) parseDesc(b []byte, offset int) (n int, err error) {
 		}
 
 	case MP4DecSpecificDescrTag:
-		self.DecConfig = b[n:]
+		self.DecConfig = b[n : n+datalen]
 	}
 
 	n += datalen
-- 
2.43.0


From b6c3b1d75aa80aa07bf67ba56ebcadc742f1535e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:14 +0000
Subject: [PATCH 009/113] fix: mp4: reject tracks without a time scale or
 required sample tables

---
 format/mp4/demuxer.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/format/mp4/demuxer.go b/format/mp4/demuxer.go
index bea3293..95adc2e 100644
--- a/format/mp4/demuxer.go
+++ b/format/mp4/demuxer.go
@@ -78,7 +78,16 @@ func (self *Demuxer) probe() (err error) {
 		}
 		if atrack.Media != nil && atrack.Media.Info != nil && atrack.Media.Info.Sample != nil {
 			stream.sample = atrack.Media.Info.Sample
+			if atrack.Media.Header == nil || atrack.Media.Header.TimeScale <= 0 {
+				err = fmt.Errorf("mp4: track time scale not found")
+				return
+			}
 			stream.timeScale = int64(atrack.Media.Header.TimeScale)
+			if stream.sample.TimeToSample == nil || stream.sample.SampleToChunk == nil ||
+				stream.sample.SampleSize == nil || stream.sample.ChunkOffset == nil {
+				err = fmt.Errorf("mp4: sample table is incomplete")
+				return
+			}
 		} else {
 			err = fmt.Errorf("mp4: sample table not found")
 			return
-- 
2.43.0


From 4090c7f0f0ced9eeb945b981aa9f23b183e6faa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:15 +0000
Subject: [PATCH 010/113] fix: mp4: ReadPacket on a file without usable tracks
 returns io.EOF

---
 format/mp4/demuxer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/format/mp4/demuxer.go b/format/mp4/demuxer.go
index 95adc2e..c7a06c3 100644
--- a/format/mp4/demuxer.go
+++ b/format/mp4/demuxer.go
@@ -121,6 +121,10 @@ func (self *Demuxer) ReadPacket() (pkt av.Packet, err error) {
 			chosen = stream
 		}
 	}
+	if chosen == nil {
+		err = io.EOF
+		return
+	}
 	if false {
 		fmt.Printf("ReadPacket: chosen index=%v time=%v\n", chosen.idx, chosen.tsToTime(chosen.dts))
 	}
-- 
2.43.0


From 1e329f3844cfebd33069abb7d1ffde7e3786ac5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:16 +0000
Subject: [PATCH 011/113] fix: mp4: a per-sample size table ends the stream, a
 constant size does not

---
 format/mp4/stream.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/mp4/stream.go b/format/mp4/stream.go
index fa38171..73f1508 100644
--- a/format/mp4/stream.go
+++ b/format/mp4/stream.go
@@ -204,7 +204,7 @@ func (self *Stream) isSampleValid() bool {
 			return false
 		}
 	}
-	if self.sample.SampleSize.SampleSize != 0 {
+	if self.sample.SampleSize.SampleSize == 0 {
 		if self.sampleIndex >= len(self.sample.SampleSize.Entries) {
 			return false
 		}
-- 
2.43.0


From 5a893f9fab575ed6c34f0d54f6ce37780255f739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:17 +0000
Subject: [PATCH 012/113] fix: mp4: seeking with an empty sample-to-chunk table
 is an error

---
 format/mp4/stream.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/format/mp4/stream.go b/format/mp4/stream.go
index 73f1508..bf8366a 100644
--- a/format/mp4/stream.go
+++ b/format/mp4/stream.go
@@ -92,6 +92,11 @@ func (self *Stream) setSampleIndex(index int) (err error) {
 	start := 0
 	self.chunkGroupIndex = 0
 
+	if index < 0 || len(self.sample.SampleToChunk.Entries) == 0 {
+		err = fmt.Errorf("mp4: stream[%d]: cannot locate sample index in chunk", self.idx)
+		return
+	}
+
 	for self.chunkIndex = range self.sample.ChunkOffset.Entries {
 		if self.chunkGroupIndex+1 < len(self.sample.SampleToChunk.Entries) &&
 			uint32(self.chunkIndex+1) == self.sample.SampleToChunk.Entries[self.chunkGroupIndex+1].FirstChunk {
-- 
2.43.0


From 33b918e9fbff044691421e23de059f42ea2ea04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:19 +0000
Subject: [PATCH 013/113] fix: mp4: compute stts run durations in 64 bits when
 seeking

---
 format/mp4/stream.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/mp4/stream.go b/format/mp4/stream.go
index bf8366a..b3e67cc 100644
--- a/format/mp4/stream.go
+++ b/format/mp4/stream.go
@@ -346,7 +346,7 @@ func (self *Stream) timeToSampleIndex(tm time.Duration) int {
 	endIndex := 0
 	found := false
 	for _, entry := range self.sample.TimeToSample.Entries {
-		endTs = startTs + int64(entry.Count*entry.Duration)
+		endTs = startTs + int64(entry.Count)*int64(entry.Duration)
 		endIndex = startIndex + int(entry.Count)
 		if targetTs >= startTs && targetTs < endTs {
 			targetIndex = startIndex + int((targetTs-startTs)/int64(entry.Duration))
-- 
2.43.0


From 0bae3e03a0a628c81f47d08902bfb149bb42a1fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:37 +0000
Subject: [PATCH 014/113] fix: mp4: a track that has ended does not end the
 other tracks

---
 format/mp4/demuxer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/format/mp4/demuxer.go b/format/mp4/demuxer.go
index c7a06c3..bd17c97 100644
--- a/format/mp4/demuxer.go
+++ b/format/mp4/demuxer.go
@@ -117,6 +117,9 @@ func (self *Demuxer) ReadPacket() (pkt av.Packet, err error) {
 
 	var chosen *Stream
 	for _, stream := range self.streams {
+		if !stream.isSampleValid() {
+			continue
+		}
 		if chosen == nil || stream.tsToTime(stream.dts) < chosen.tsToTime(chosen.dts) {
 			chosen = stream
 		}
-- 
2.43.0


From 8fab89a7ed32ca4bd7e316a5a26c915e41758f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:38 +0000
Subject: [PATCH 015/113] fix: mp4: IsAudio and IsVideo follow the av packet
 types

---
 format/mp4/stream.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/format/mp4/stream.go b/format/mp4/stream.go
index b3e67cc..4c52058 100644
--- a/format/mp4/stream.go
+++ b/format/mp4/stream.go
@@ -13,8 +13,6 @@ import (
 	"github.com/pkg/errors"
 )
 
-const codecTypeAudioBit = 0x1
-
 type Stream struct {
 	Codec interface{}
 
@@ -64,11 +62,11 @@ func CodecType(codec interface{}) (int, error) {
 }
 
 func IsAudio(t int) bool {
-	return t&codecTypeAudioBit != 0
+	return t == av.AAC
 }
 
 func IsVideo(t int) bool {
-	return t&codecTypeAudioBit == 0
+	return t == av.H264
 }
 
 func timeToTs(tm time.Duration, timeScale int64) int64 {
-- 
2.43.0


From 655ad9f0c50401a0bf34115aac1ea4a883d5a337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:39 +0000
Subject: [PATCH 016/113] fix: mp4: SeekToTime tells video from audio by codec,
 not by track number

---
 format/mp4/demuxer.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/format/mp4/demuxer.go b/format/mp4/demuxer.go
index bd17c97..75f4b5b 100644
--- a/format/mp4/demuxer.go
+++ b/format/mp4/demuxer.go
@@ -148,8 +148,8 @@ func (self *Demuxer) CurrentTime() (tm time.Duration) {
 }
 
 func (self *Demuxer) SeekToTime(tm time.Duration) (err error) {
-	for sType, stream := range self.streams {
-		if IsVideo(sType) {
+	for _, stream := range self.streams {
+		if _, ok := stream.Codec.(*h264.Codec); ok {
 			if err = stream.seekToTime(tm); err != nil {
 				return
 			}
@@ -158,8 +158,8 @@ func (self *Demuxer) SeekToTime(tm time.Duration) (err error) {
 		}
 	}
 
-	for sType, stream := range self.streams {
-		if !IsVideo(sType) {
+	for _, stream := range self.streams {
+		if _, ok := stream.Codec.(*h264.Codec); !ok {
 			if err = stream.seekToTime(tm); err != nil {
 				return
 			}
-- 
2.43.0


From 0e03512ced20035da215068392f701433638d1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:40 +0000
Subject: [PATCH 017/113] fix: mp4: set the packet type of demuxed packets

---
 format/mp4/demuxer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/format/mp4/demuxer.go b/format/mp4/demuxer.go
index 75f4b5b..3248934 100644
--- a/format/mp4/demuxer.go
+++ b/format/mp4/demuxer.go
@@ -135,6 +135,9 @@ func (self *Demuxer) ReadPacket() (pkt av.Packet, err error) {
 	if pkt, err = chosen.readPacket(); err != nil {
 		return
 	}
+	if pkt.Type, err = CodecType(chosen.Codec); err != nil {
+		return
+	}
 	pkt.Time = tm
 	return
 }
-- 
2.43.0


From 81d8a3007ad95579bd7da46c85ee2f6ab1fab1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:41 +0000
Subject: [PATCH 018/113] fix: mp4: a late stream does not discard the samples
 of existing tracks

---
 format/mp4/muxer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/format/mp4/muxer.go b/format/mp4/muxer.go
index e9d0593..d18aec9 100644
--- a/format/mp4/muxer.go
+++ b/format/mp4/muxer.go
@@ -46,6 +46,9 @@ func (self *Muxer) addStreams(codecs []interface{}) (err error) {
 		if err != nil {
 			return err
 		}
+		if self.streams[cType] != nil {
+			continue
+		}
 		stream := &Stream{Codec: codec}
 
 		stream.sample = &mp4io.SampleTable{
-- 
2.43.0


From 1611c55bbcdb088ec6a2f2516b0c835e60cfb144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:42 +0000
Subject: [PATCH 019/113] fix: mp4: write tracks in track order, not map order

---
 format/mp4/muxer.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/format/mp4/muxer.go b/format/mp4/muxer.go
index d18aec9..da0f479 100644
--- a/format/mp4/muxer.go
+++ b/format/mp4/muxer.go
@@ -4,6 +4,7 @@ import (
 	"bufio"
 	"fmt"
 	"reflect"
+	"sort"
 	"time"
 
 	"github.com/nareix/joy5/av"
@@ -247,8 +248,20 @@ func (self *Stream) writePacket(pkt av.Packet, rawdur time.Duration) (err error)
 	return
 }
 
-func (self *Muxer) WriteTrailer() (err error) {
+// sortedStreams returns the streams in track order.
+func (self *Muxer) sortedStreams() (streams []*Stream) {
 	for _, stream := range self.streams {
+		streams = append(streams, stream)
+	}
+	sort.Slice(streams, func(i, j int) bool {
+		return streams[i].trackAtom.Header.TrackId < streams[j].trackAtom.Header.TrackId
+	})
+	return
+}
+
+func (self *Muxer) WriteTrailer() (err error) {
+	streams := self.sortedStreams()
+	for _, stream := range streams {
 		if stream.lastpkt != nil {
 			if err = stream.writePacket(*stream.lastpkt, 0); err != nil {
 				return
@@ -267,7 +280,7 @@ func (self *Muxer) WriteTrailer() (err error) {
 
 	maxDur := time.Duration(0)
 	timeScale := int64(10000)
-	for _, stream := range self.streams {
+	for _, stream := range streams {
 		if err = stream.fillTrackAtom(); err != nil {
 			return
 		}
-- 
2.43.0


From b89a71644af96a74d14b225f0dc2951dde835bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:43 +0000
Subject: [PATCH 020/113] fix: mp4: do not allocate a sample from its size
 entry alone

---
 format/mp4/demuxer.go | 12 ++++++++++--
 format/mp4/stream.go  |  3 +--
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/format/mp4/demuxer.go b/format/mp4/demuxer.go
index 3248934..d0cc2bc 100644
--- a/format/mp4/demuxer.go
+++ b/format/mp4/demuxer.go
@@ -1,6 +1,7 @@
 package mp4
 
 import (
+	"bytes"
 	"fmt"
 	"io"
 	"time"
@@ -33,13 +34,20 @@ func (self *Demuxer) Streams() (streams []interface{}, err error) {
 	return
 }
 
-func (self *Demuxer) readat(pos int64, b []byte) (err error) {
+// readat reads size bytes at pos. The buffer grows with the data that is
+// really there, not with the size the sample table claims.
+func (self *Demuxer) readat(pos int64, size int64) (b []byte, err error) {
 	if _, err = self.r.Seek(pos, 0); err != nil {
 		return
 	}
-	if _, err = io.ReadFull(self.r, b); err != nil {
+	var buf bytes.Buffer
+	if _, err = io.CopyN(&buf, self.r, size); err != nil {
+		if err == io.EOF {
+			err = io.ErrUnexpectedEOF
+		}
 		return
 	}
+	b = buf.Bytes()
 	return
 }
 
diff --git a/format/mp4/stream.go b/format/mp4/stream.go
index 4c52058..886629f 100644
--- a/format/mp4/stream.go
+++ b/format/mp4/stream.go
@@ -301,8 +301,7 @@ func (self *Stream) readPacket() (pkt av.Packet, err error) {
 	}
 
 	sampleOffset := int64(chunkOffset) + self.sampleOffsetInChunk
-	pkt.Data = make([]byte, sampleSize)
-	if err = self.demuxer.readat(sampleOffset, pkt.Data); err != nil {
+	if pkt.Data, err = self.demuxer.readat(sampleOffset, int64(sampleSize)); err != nil {
 		return
 	}
 
-- 
2.43.0


From f940046d7895dad4197bf069c6351a5e4dd008f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:44 +0000
Subject: [PATCH 021/113] fix: bits: a short read does not end the bit stream

---
 utils/bits/bits.go | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/utils/bits/bits.go b/utils/bits/bits.go
index 7c1247d..d6946b7 100644
--- a/utils/bits/bits.go
+++ b/utils/bits/bits.go
@@ -1,7 +1,6 @@
 package bits
 
 import (
-	"fmt"
 	"io"
 )
 
@@ -16,11 +15,7 @@ func (r *Reader) ReadBits64(n int) (bits uint64, err error) {
 		var b [8]byte
 		var got int
 		want := (n - r.n + 7) / 8
-		if got, err = r.R.Read(b[:want]); err != nil {
-			return
-		}
-		if got < want {
-			err = fmt.Errorf("bits: EOF")
+		if got, err = io.ReadFull(r.R, b[:want]); err != nil {
 			return
 		}
 		for i := 0; i < got; i++ {
-- 
2.43.0


From 78f7a6687f7dd56e77a19172d02a4bd236b6967a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:41 +0000
Subject: [PATCH 022/113] fix: aac: reject ADTS frames shorter than the header

---
 codec/aac/aac.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/codec/aac/aac.go b/codec/aac/aac.go
index e6af2b8..0368315 100644
--- a/codec/aac/aac.go
+++ b/codec/aac/aac.go
@@ -196,6 +196,10 @@ var chanConfigTable = []ChannelLayout{
 }
 
 func ParseADTSHeader(frame []byte) (config MPEG4AudioConfig, hdrlen int, framelen int, samples int, err error) {
+	if len(frame) < ADTSHeaderLength {
+		err = fmt.Errorf("aacparser: adts header too short")
+		return
+	}
 	if frame[0] != 0xff || frame[1]&0xf6 != 0xf0 {
 		err = fmt.Errorf("aacparser: not adts header")
 		return
-- 
2.43.0


From 28c7a23aa2a08f38dc945d18c5ae689ff4661d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:41 +0000
Subject: [PATCH 023/113] fix: aac: PacketDuration is zero, not a panic,
 without a sample rate

---
 codec/aac/aac.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/codec/aac/aac.go b/codec/aac/aac.go
index 0368315..3d1c221 100644
--- a/codec/aac/aac.go
+++ b/codec/aac/aac.go
@@ -410,6 +410,9 @@ func (self Codec) SampleFormat() SampleFormat {
 }
 
 func PacketDuration(config MPEG4AudioConfig, data []byte) (dur time.Duration) {
+	if config.SampleRate <= 0 {
+		return
+	}
 	return time.Duration(1024) * time.Second / time.Duration(config.SampleRate)
 }
 
-- 
2.43.0


From a357e28e1b0bf71b7111b34b84e9d597e160ddde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:09 +0000
Subject: [PATCH 024/113] fix: aac: audio object type numbers after HVXC follow
 ISO/IEC 14496-3

---
 codec/aac/aac.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/codec/aac/aac.go b/codec/aac/aac.go
index 3d1c221..5b9d54b 100644
--- a/codec/aac/aac.go
+++ b/codec/aac/aac.go
@@ -89,13 +89,13 @@ const (
 	AOT_TWINVQ                      ///< N                       Twin Vector Quantizer
 	AOT_CELP                        ///< N                       Code Excited Linear Prediction
 	AOT_HVXC                        ///< N                       Harmonic Vector eXcitation Coding
-	AOT_TTSI            = 12 + iota ///< N                       Text-To-Speech Interface
+	AOT_TTSI            = 3 + iota  ///< N                       Text-To-Speech Interface
 	AOT_MAINSYNTH                   ///< N                       Main Synthesis
 	AOT_WAVESYNTH                   ///< N                       Wavetable Synthesis
 	AOT_MIDI                        ///< N                       General MIDI
 	AOT_SAFX                        ///< N                       Algorithmic Synthesis and Audio Effects
 	AOT_ER_AAC_LC                   ///< N                       Error Resilient Low Complexity
-	AOT_ER_AAC_LTP      = 19 + iota ///< N                       Error Resilient Long Term Prediction
+	AOT_ER_AAC_LTP      = 4 + iota  ///< N                       Error Resilient Long Term Prediction
 	AOT_ER_AAC_SCALABLE             ///< N                       Error Resilient Scalable
 	AOT_ER_TWINVQ                   ///< N                       Error Resilient Twin Vector Quantizer
 	AOT_ER_BSAC                     ///< N                       Error Resilient Bit-Sliced Arithmetic Coding
-- 
2.43.0


From 02e85645c0a627c87b7946b4b7ca4c5f5e3ceb6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:21 +0000
Subject: [PATCH 025/113] fix: rtsp: an interleaved RTCP frame shorter than its
 header is not a frame

---
 format/rtsp/client.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/format/rtsp/client.go b/format/rtsp/client.go
index 978fdcf..9113306 100644
--- a/format/rtsp/client.go
+++ b/format/rtsp/client.go
@@ -206,11 +206,12 @@ func (self *Client) parseBlockHeader(h []byte) (length int, no int, valid bool)
 		return
 	}
 
-	if no%2 == 0 { // rtp
-		if length < 8 {
-			return
-		}
+	// an interleaved frame is looked at 12 bytes at a time
+	if length < 8 {
+		return
+	}
 
+	if no%2 == 0 { // rtp
 		// V=2
 		if h[4]&0xc0 != 0x80 {
 			return
-- 
2.43.0


From d4fa4bb83515913bec3525eb488c51e67b237e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:21 +0000
Subject: [PATCH 026/113] fix: rtsp: recognise an interleaved frame while
 reading response headers

---
 format/rtsp/client.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/format/rtsp/client.go b/format/rtsp/client.go
index 9113306..4ca2fa5 100644
--- a/format/rtsp/client.go
+++ b/format/rtsp/client.go
@@ -442,9 +442,9 @@ func (self *Client) readLFLF() (block []byte, data []byte, err error) {
 		if stat == LFLF {
 			data = peek
 			return
-		} else if dollarpos != -1 && dollarpos-pos >= 12 {
-			hdrlen := dollarpos - pos
-			start := len(peek) - hdrlen
+		} else if dollarpos != -1 && len(peek)-dollarpos == 12 {
+			hdrlen := 12
+			start := dollarpos
 			if blocklen, _, ok := self.parseBlockHeader(peek[start:]); ok {
 				block = append(peek[start:], make([]byte, blocklen+4-hdrlen)...)
 				if _, err = io.ReadFull(self.brconn, block[hdrlen:]); err != nil {
-- 
2.43.0


From fd6419790d76bf3a6e1776f2f925c69135f0516f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:21 +0000
Subject: [PATCH 027/113] fix: rtsp: do not allocate a response body from
 Content-Length alone

---
 format/rtsp/client.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/format/rtsp/client.go b/format/rtsp/client.go
index 4ca2fa5..00909bf 100644
--- a/format/rtsp/client.go
+++ b/format/rtsp/client.go
@@ -465,10 +465,12 @@ func (self *Client) readResp(b []byte) (res Response, err error) {
 	}
 	res.ContentLength, _ = strconv.Atoi(res.Headers.Get("Content-Length"))
 	if res.ContentLength > 0 {
-		res.Body = make([]byte, res.ContentLength)
-		if _, err = io.ReadFull(self.brconn, res.Body); err != nil {
+		// grow with the data: the length is the peer's claim
+		var body bytes.Buffer
+		if _, err = io.CopyN(&body, self.brconn, int64(res.ContentLength)); err != nil {
 			return
 		}
+		res.Body = body.Bytes()
 	}
 	if err = self.handleResp(&res); err != nil {
 		return
-- 
2.43.0


From e704836b5776f7a0c7ebe9d920081f68bc046351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:21 +0000
Subject: [PATCH 028/113] fix: rtsp: setting up a stream that does not exist is
 an error

---
 format/rtsp/client.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/format/rtsp/client.go b/format/rtsp/client.go
index 00909bf..727208c 100644
--- a/format/rtsp/client.go
+++ b/format/rtsp/client.go
@@ -538,6 +538,10 @@ func (self *Client) Setup(idx []int) (err error) {
 	self.setupIdx = idx
 
 	for i, si := range idx {
+		if si < 0 || si >= len(self.setupMap) || si >= len(self.streams) {
+			err = fmt.Errorf("rtsp: no stream %d to set up", si)
+			return
+		}
 		self.setupMap[si] = i
 
 		uri := ""
-- 
2.43.0


From fe21d80596564d0aabcfdfa94f701ecd7cf78043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:36 +0000
Subject: [PATCH 029/113] fix: sdp: a media line without a port does not panic

---
 format/rtsp/sdp/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/rtsp/sdp/parser.go b/format/rtsp/sdp/parser.go
index fa701aa..5279e82 100644
--- a/format/rtsp/sdp/parser.go
+++ b/format/rtsp/sdp/parser.go
@@ -38,7 +38,7 @@ func Parse(content string) (sess Session, medias []Media) {
 
 			switch typeval[0] {
 			case "m":
-				if len(fields) > 0 {
+				if len(fields) > 1 {
 					switch fields[0] {
 					case "audio", "video":
 						medias = append(medias, Media{AVType: fields[0]})
-- 
2.43.0


From 897eb50a1f7b654c8006eb8dc8758015f8e0b99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:00 +0000
Subject: [PATCH 030/113] fix: flv: sequence header tags keep their timestamp

---
 format/flv/flv.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/format/flv/flv.go b/format/flv/flv.go
index a67c801..a1a5aa1 100644
--- a/format/flv/flv.go
+++ b/format/flv/flv.go
@@ -136,6 +136,7 @@ func WritePacket(pkt av.Packet, writeTag func(flvio.Tag) error, publishing bool)
 	case av.AACDecoderConfig:
 		tag := NewAACTag()
 		tag.AACPacketType = flvio.AAC_SEQHDR
+		tag.Time = uint32(flvio.TimeToTs(pkt.Time))
 		tag.Data = pkt.Data
 		return writeTag(tag)
 
@@ -245,6 +246,7 @@ func ReadPacket(readTag func() (flvio.Tag, error)) (pkt av.Packet, err error) {
 					pkt = av.Packet{
 						Type: av.H264DecoderConfig,
 						Data: tag.Data,
+						Time: flvio.TsToTime(int64(tag.Time)),
 					}
 					return
 				case flvio.AVC_NALU:
@@ -267,6 +269,7 @@ func ReadPacket(readTag func() (flvio.Tag, error)) (pkt av.Packet, err error) {
 					pkt = av.Packet{
 						Type: av.AACDecoderConfig,
 						Data: tag.Data,
+						Time: flvio.TsToTime(int64(tag.Time)),
 					}
 					return
 				case flvio.AAC_RAW:
-- 
2.43.0


From 31e303216a8fca4fd4d352e3b4e9199f1387e4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:18 +0000
Subject: [PATCH 031/113] fix: rtmp: refuse a message longer than its 24-bit
 length field

---
 format/rtmp/msg.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/format/rtmp/msg.go b/format/rtmp/msg.go
index 167dd5b..dbd1201 100644
--- a/format/rtmp/msg.go
+++ b/format/rtmp/msg.go
@@ -688,6 +688,10 @@ func (c *Conn) writeMsg2(
 	b := c.tmpwbuf(chunkHeader0Length + fillheader(nil))
 	chdrlen := fillChunkHeader0(b, csid, msg.timenow, msg.msgtypeid, msg.msgsid, 0)
 	taghdrlen := fillheader(b[chdrlen:])
+	if taghdrlen+len(msg.msgdata) > ffffff {
+		err = fmt.Errorf("MsgDataTooBig(%d)", taghdrlen+len(msg.msgdata))
+		return
+	}
 	msg.msgdatalen = uint32(taghdrlen + len(msg.msgdata))
 	msg.msgdataleft = msg.msgdatalen
 	fillChunkHeader0MsgDataLen(b, int(msg.msgdatalen))
-- 
2.43.0


From 97880a06b844c547856168abb6cca963f05cb96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:27 +0000
Subject: [PATCH 032/113] fix: flv: refuse a tag longer than its 24-bit size
 field

---
 format/flv/flvio/flvio.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/format/flv/flvio/flvio.go b/format/flv/flvio/flvio.go
index a2c91e3..2bc9c0b 100644
--- a/format/flv/flvio/flvio.go
+++ b/format/flv/flvio/flvio.go
@@ -399,6 +399,10 @@ func WriteTag(w io.Writer, tag Tag, b []byte) (err error) {
 
 	n := tag.FillHeader(b[TagHeaderLength:])
 	datalen := len(data) + n
+	if datalen > 0xffffff {
+		err = fmt.Errorf("TagDataTooBig(%d)", datalen)
+		return
+	}
 
 	FillTagHeader(b, tag, datalen)
 	n += TagHeaderLength
-- 
2.43.0


From eeda0eead3f266535263f686f07fb8998882541f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:20 +0000
Subject: [PATCH 033/113] fix: rtmp: the 3-byte form of a chunk stream id is
 little-endian

---
 format/rtmp/msg.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/rtmp/msg.go b/format/rtmp/msg.go
index dbd1201..a4eb098 100644
--- a/format/rtmp/msg.go
+++ b/format/rtmp/msg.go
@@ -313,7 +313,7 @@ func (c *Conn) readChunk() (msg *message, err error) {
 		if _, err = c.wrapRW.Read(b[:2]); err != nil {
 			return
 		}
-		csid = uint32(pio.U16BE(b)) + 64
+		csid = uint32(b[0]) + uint32(b[1])<<8 + 64
 	}
 
 	newcs := false
-- 
2.43.0


From ffa2669438ade4f78e73c570e85252d0c8aec872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:48 +0000
Subject: [PATCH 034/113] fix: rtmp: refuse chunk sizes of zero or with the top
 bit set

---
 format/rtmp/msg.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/rtmp/msg.go b/format/rtmp/msg.go
index a4eb098..b133b70 100644
--- a/format/rtmp/msg.go
+++ b/format/rtmp/msg.go
@@ -874,7 +874,7 @@ func (c *Conn) handleEvent(msg *message) (handled bool, err error) {
 		if v, err = pio.ReadU32BE(msg.msgdata, &n); err != nil {
 			return
 		}
-		if int(v) < 0 {
+		if int32(v) <= 0 {
 			err = fmt.Errorf("SetChunkSizeInvalid(%x)", v)
 			return
 		}
-- 
2.43.0


From 25ab35b6b058dfe368a38e16e2e1e211c9632ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:11 +0000
Subject: [PATCH 035/113] fix: bits: Writer corrupted the output when its
 64-bit buffer overflowed

---
 utils/bits/bits.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/utils/bits/bits.go b/utils/bits/bits.go
index d6946b7..699aba5 100644
--- a/utils/bits/bits.go
+++ b/utils/bits/bits.go
@@ -66,14 +66,15 @@ type Writer struct {
 func (w *Writer) WriteBits64(bits uint64, n int) (err error) {
 	if w.n+n > 64 {
 		move := uint(64 - w.n)
-		mask := bits >> move
+		rest := uint(n) - move
+		mask := bits >> rest
 		w.bits = (w.bits << move) | mask
 		w.n = 64
 		if err = w.FlushBits(); err != nil {
 			return
 		}
 		n -= int(move)
-		bits ^= (mask << move)
+		bits ^= (mask << rest)
 	}
 	w.bits = (w.bits << uint(n)) | bits
 	w.n += n
-- 
2.43.0


From d0c7afe6db14370bd8e678037f195d3b100ea509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:13 +0000
Subject: [PATCH 036/113] fix: bits: Reader lost bits of unaligned reads wider
 than 57 bits

---
 utils/bits/bits.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/utils/bits/bits.go b/utils/bits/bits.go
index 699aba5..926830f 100644
--- a/utils/bits/bits.go
+++ b/utils/bits/bits.go
@@ -11,6 +11,22 @@ type Reader struct {
 }
 
 func (r *Reader) ReadBits64(n int) (bits uint64, err error) {
+	if n <= 32 {
+		return r.readBits(n)
+	}
+	// the bits left over and those wanted may not fit in 64 bits together
+	var hi, lo uint64
+	if hi, err = r.readBits(n - 32); err != nil {
+		return
+	}
+	if lo, err = r.readBits(32); err != nil {
+		return
+	}
+	bits = hi<<32 | lo
+	return
+}
+
+func (r *Reader) readBits(n int) (bits uint64, err error) {
 	if r.n < n {
 		var b [8]byte
 		var got int
-- 
2.43.0


From d7a3befd77f0d6e39cb2c459223a5c022060aab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:15 +0000
Subject: [PATCH 037/113] fix: bits: negative signed Exp-Golomb codes were
 decoded wrong

---
 utils/bits/golomb_reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/bits/golomb_reader.go b/utils/bits/golomb_reader.go
index d4b3c55..d139ac2 100644
--- a/utils/bits/golomb_reader.go
+++ b/utils/bits/golomb_reader.go
@@ -59,7 +59,7 @@ func (r *GolombBitReader) ReadSE() (res uint, err error) {
 	if res&0x01 != 0 {
 		res = (res + 1) / 2
 	} else {
-		res = -res / 2
+		res = -(res / 2)
 	}
 	return
 }
-- 
2.43.0


From 944dcf60c543a488b577f035363faad12b2d6d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:16 +0000
Subject: [PATCH 038/113] fix: bits: GolombBitReader took an empty or final
 short read for data

---
 utils/bits/golomb_reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/bits/golomb_reader.go b/utils/bits/golomb_reader.go
index d139ac2..d4b270e 100644
--- a/utils/bits/golomb_reader.go
+++ b/utils/bits/golomb_reader.go
@@ -12,7 +12,7 @@ type GolombBitReader struct {
 
 func (r *GolombBitReader) ReadBit() (res uint, err error) {
 	if r.left == 0 {
-		if _, err = r.R.Read(r.buf[:]); err != nil {
+		if _, err = io.ReadFull(r.R, r.buf[:]); err != nil {
 			return
 		}
 		r.left = 8
-- 
2.43.0


From 3f129c90da037d3d0911040ea8fdcc2ce4c5c7ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:02 +0000
Subject: [PATCH 039/113] fix: aac: U8P is a planar format

---
 codec/aac/aac.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codec/aac/aac.go b/codec/aac/aac.go
index 5b9d54b..2ff67f5 100644
--- a/codec/aac/aac.go
+++ b/codec/aac/aac.go
@@ -71,7 +71,7 @@ func (self SampleFormat) String() string {
 // Check if this sample format is in planar.
 func (self SampleFormat) IsPlanar() bool {
 	switch self {
-	case S16P, S32P, FLTP, DBLP:
+	case U8P, S16P, S32P, FLTP, DBLP:
 		return true
 	default:
 		return false
-- 
2.43.0


From 0b451a69edbeb349d8024742efe65ecb3df335eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:03 +0000
Subject: [PATCH 040/113] fix: aac: ADTS frame counts outside 1..4 spoiled the
 buffer fullness bits

---
 codec/aac/aac.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codec/aac/aac.go b/codec/aac/aac.go
index 2ff67f5..bbf90e9 100644
--- a/codec/aac/aac.go
+++ b/codec/aac/aac.go
@@ -267,7 +267,7 @@ func FillADTSHeader(header []byte, config MPEG4AudioConfig, samples int, payload
 	header[3] = header[3]&0xfc | byte(payloadLength>>11)&0x3
 	header[4] = byte(payloadLength >> 3)
 	header[5] = header[5]&0x1f | (byte(payloadLength)&0x7)<<5
-	header[6] = header[6]&0xfc | byte(samples/1024-1)
+	header[6] = header[6]&0xfc | byte(samples/1024-1)&0x3
 	return
 }
 
-- 
2.43.0


From e60270ae7806f9539a4460583c1884caba16edc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:04 +0000
Subject: [PATCH 041/113] fix: aac: explicit sampling frequencies were refused
 or taken for a table index

---
 codec/aac/aac.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/codec/aac/aac.go b/codec/aac/aac.go
index bbf90e9..2a3ed7c 100644
--- a/codec/aac/aac.go
+++ b/codec/aac/aac.go
@@ -306,9 +306,14 @@ func readSampleRateIndex(r *bits.Reader) (index uint, err error) {
 		return
 	}
 	if index == 0xf {
+		// the frequency itself
 		if index, err = r.ReadBits(24); err != nil {
 			return
 		}
+		if index <= 0xf {
+			err = fmt.Errorf("InvalidSampleRate(%d)", index)
+			return
+		}
 	}
 	return
 }
@@ -336,6 +341,8 @@ func (c MPEG4AudioConfig) IsValid() bool {
 func (c *MPEG4AudioConfig) complete() error {
 	if int(c.SampleRateIndex) < len(sampleRateTable) {
 		c.SampleRate = sampleRateTable[c.SampleRateIndex]
+	} else if c.SampleRateIndex > 0xf {
+		c.SampleRate = int(c.SampleRateIndex)
 	} else {
 		return fmt.Errorf("InvalidSampleRateIndex(%d)", c.SampleRateIndex)
 	}
-- 
2.43.0


From eef5dc6b494363c6ee7c76552ff5aafa82e57d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:05 +0000
Subject: [PATCH 042/113] fix: aac: sample rates outside the table were written
 as 96000

---
 codec/aac/aac.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/codec/aac/aac.go b/codec/aac/aac.go
index 2a3ed7c..74e3bc5 100644
--- a/codec/aac/aac.go
+++ b/codec/aac/aac.go
@@ -380,6 +380,9 @@ func WriteMPEG4AudioConfig(w io.Writer, config MPEG4AudioConfig) (err error) {
 	}
 
 	if config.SampleRateIndex == 0 {
+		if config.SampleRate > 0xf {
+			config.SampleRateIndex = uint(config.SampleRate)
+		}
 		for i, rate := range sampleRateTable {
 			if rate == config.SampleRate {
 				config.SampleRateIndex = uint(i)
-- 
2.43.0


From b15e6135817becf651c4ed0db4061c4a8fe7a2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:07 +0000
Subject: [PATCH 043/113] fix: h264: the profile and level of a configuration
 came from a random SPS

---
 codec/h264/h264.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/codec/h264/h264.go b/codec/h264/h264.go
index 66da903..756022e 100644
--- a/codec/h264/h264.go
+++ b/codec/h264/h264.go
@@ -475,9 +475,8 @@ func (c *Codec) ToConfig() {
 	var config = make([]byte, c.Len())
 	var pos = 0
 	firstSPS := []byte{}
-	for _, s := range c.SPS {
-		firstSPS = s
-		break
+	if a := Map2arr(c.SPS); len(a) > 0 {
+		firstSPS = a[0]
 	}
 
 	var AVCProfileIndication byte
-- 
2.43.0


From 876ffc19ab5f0e753240a717222c09b57ba36f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:09 +0000
Subject: [PATCH 044/113] fix: h264: FromDecoderConfig keeps the configuration
 it was given

---
 codec/h264/h264.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/codec/h264/h264.go b/codec/h264/h264.go
index 756022e..8625ca0 100644
--- a/codec/h264/h264.go
+++ b/codec/h264/h264.go
@@ -576,6 +576,7 @@ func FromDecoderConfig(b []byte) (c *Codec, err error) {
 		nc.AddSPSPPS(pps)
 	}
 
+	nc.ConfigBytes = b
 	c = nc
 	return
 }
-- 
2.43.0


From 9eb4b01b64947a8471c5b8634e7fa083f5afe5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:10 +0000
Subject: [PATCH 045/113] fix: h264: the Stereo High, MFC and 3D profiles have
 the chroma format in their SPS

---
 codec/h264/h264.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/codec/h264/h264.go b/codec/h264/h264.go
index 8625ca0..28f5a74 100644
--- a/codec/h264/h264.go
+++ b/codec/h264/h264.go
@@ -688,7 +688,10 @@ func ParseSPS(data []byte) (s SPSInfo, err error) {
 	if s.ProfileIdc == 100 || s.ProfileIdc == 110 ||
 		s.ProfileIdc == 122 || s.ProfileIdc == 244 ||
 		s.ProfileIdc == 44 || s.ProfileIdc == 83 ||
-		s.ProfileIdc == 86 || s.ProfileIdc == 118 {
+		s.ProfileIdc == 86 || s.ProfileIdc == 118 ||
+		s.ProfileIdc == 128 || s.ProfileIdc == 138 ||
+		s.ProfileIdc == 139 || s.ProfileIdc == 134 ||
+		s.ProfileIdc == 135 {
 
 		var chroma_format_idc uint
 		if chroma_format_idc, err = r.ReadExponentialGolombCode(); err != nil {
-- 
2.43.0


From aaec5726b3ca0e3966473cf57489e9af4b2c98e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:11 +0000
Subject: [PATCH 046/113] fix: h264: a 4:4:4 SPS has 12 scaling lists

---
 codec/h264/h264.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/codec/h264/h264.go b/codec/h264/h264.go
index 28f5a74..ab95d55 100644
--- a/codec/h264/h264.go
+++ b/codec/h264/h264.go
@@ -724,7 +724,11 @@ func ParseSPS(data []byte) (s SPSInfo, err error) {
 		}
 
 		if seq_scaling_matrix_present_flag != 0 {
-			for i := 0; i < 8; i++ {
+			lists := 8
+			if chroma_format_idc == 3 {
+				lists = 12
+			}
+			for i := 0; i < lists; i++ {
 				var seq_scaling_list_present_flag uint
 				if seq_scaling_list_present_flag, err = r.ReadBit(); err != nil {
 					return
-- 
2.43.0


From 768e9b63eb68435746ea54686b39a7f60fe5b3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:12 +0000
Subject: [PATCH 047/113] fix: h264: cropping of interlaced, 4:2:2 and 4:4:4
 pictures had the wrong unit

---
 codec/h264/h264.go | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/codec/h264/h264.go b/codec/h264/h264.go
index ab95d55..98051ae 100644
--- a/codec/h264/h264.go
+++ b/codec/h264/h264.go
@@ -685,6 +685,8 @@ func ParseSPS(data []byte) (s SPSInfo, err error) {
 		return
 	}
 
+	chroma_format_idc := uint(1)
+	var separate_colour_plane_flag uint
 	if s.ProfileIdc == 100 || s.ProfileIdc == 110 ||
 		s.ProfileIdc == 122 || s.ProfileIdc == 244 ||
 		s.ProfileIdc == 44 || s.ProfileIdc == 83 ||
@@ -693,14 +695,13 @@ func ParseSPS(data []byte) (s SPSInfo, err error) {
 		s.ProfileIdc == 139 || s.ProfileIdc == 134 ||
 		s.ProfileIdc == 135 {
 
-		var chroma_format_idc uint
 		if chroma_format_idc, err = r.ReadExponentialGolombCode(); err != nil {
 			return
 		}
 
 		if chroma_format_idc == 3 {
-			// residual_colour_transform_flag
-			if _, err = r.ReadBit(); err != nil {
+			// separate_colour_plane_flag
+			if separate_colour_plane_flag, err = r.ReadBit(); err != nil {
 				return
 			}
 		}
@@ -852,8 +853,18 @@ func ParseSPS(data []byte) (s SPSInfo, err error) {
 		}
 	}
 
-	s.Width = (s.MbWidth * 16) - s.CropLeft*2 - s.CropRight*2
-	s.Height = ((2 - frame_mbs_only_flag) * s.MbHeight * 16) - s.CropTop*2 - s.CropBottom*2
+	// CropUnitX and CropUnitY of the chroma format
+	cropx, cropy := uint(1), 2-frame_mbs_only_flag
+	if separate_colour_plane_flag == 0 {
+		if chroma_format_idc == 1 || chroma_format_idc == 2 {
+			cropx = 2
+		}
+		if chroma_format_idc == 1 {
+			cropy *= 2
+		}
+	}
+	s.Width = (s.MbWidth * 16) - (s.CropLeft+s.CropRight)*cropx
+	s.Height = ((2 - frame_mbs_only_flag) * s.MbHeight * 16) - (s.CropTop+s.CropBottom)*cropy
 
 	vui_parameter_present_flag, err := r.ReadBit()
 	if err != nil {
-- 
2.43.0


From fba15aa0e1fc5a9b7ca3a46461760b53c1b07868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:14 +0000
Subject: [PATCH 048/113] fix: h264: an SPS cut short at the video signal type
 is an error

---
 codec/h264/h264.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/codec/h264/h264.go b/codec/h264/h264.go
index 98051ae..cc134c5 100644
--- a/codec/h264/h264.go
+++ b/codec/h264/h264.go
@@ -911,6 +911,9 @@ func ParseSPS(data []byte) (s SPSInfo, err error) {
 			_ = overscan_appropriate_flagu
 		}
 		video_signal_type_present_flag, err := r.ReadBit()
+		if err != nil {
+			return s, err
+		}
 		if video_signal_type_present_flag != 0 {
 			video_format, err := r.ReadBits(3)
 			if err != nil {
-- 
2.43.0


From 681ceb736da092637a6ba5390438bd1030f7ed49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:15 +0000
Subject: [PATCH 049/113] fix: h264: no frame rate from a tick of zero length

---
 codec/h264/h264.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/codec/h264/h264.go b/codec/h264/h264.go
index cc134c5..823dd5e 100644
--- a/codec/h264/h264.go
+++ b/codec/h264/h264.go
@@ -982,7 +982,9 @@ func ParseSPS(data []byte) (s SPSInfo, err error) {
 			}
 
 			//num_units_in_tick/time_scale should yield field time  要求向下取整
-			s.FPS = uint(math.Floor(float64(time_scale) / float64(num_units_in_tick) / 2.0))
+			if num_units_in_tick != 0 {
+				s.FPS = uint(math.Floor(float64(time_scale) / float64(num_units_in_tick) / 2.0))
+			}
 
 			fixed_frame_rate_flag, err := r.ReadBit()
 			if err != nil {
-- 
2.43.0


From 3498e406c8f699ec455a5af70c8bafb83b815657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:45 +0000
Subject: [PATCH 050/113] fix: h264: zero bytes around Annex B start codes are
 not part of a NAL unit

---
 codec/h264/h264.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/codec/h264/h264.go b/codec/h264/h264.go
index 823dd5e..33d00b1 100644
--- a/codec/h264/h264.go
+++ b/codec/h264/h264.go
@@ -354,6 +354,10 @@ func splitAnnexb(b []byte) (out []NALUInfo, ok bool) {
 	s := S
 	from := 0
 	cut := func(to, next int) {
+		// leading_zero_8bits, trailing_zero_8bits
+		for from < to && b[to-1] == 0 {
+			to--
+		}
 		if from < to {
 			info := NALUInfo{
 				NALUStart: nalustart,
-- 
2.43.0


From 3850ec3fe629995d6e68772976ee6252ff3f9697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:46 +0000
Subject: [PATCH 051/113] fix: h264: NALUStart of an Annex B unit was the next
 start code

---
 codec/h264/h264.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/codec/h264/h264.go b/codec/h264/h264.go
index 33d00b1..bffb33a 100644
--- a/codec/h264/h264.go
+++ b/codec/h264/h264.go
@@ -353,7 +353,8 @@ func splitAnnexb(b []byte) (out []NALUInfo, ok bool) {
 	nalustart := 0
 	s := S
 	from := 0
-	cut := func(to, next int) {
+	cut := func(start, next int) {
+		to := start
 		// leading_zero_8bits, trailing_zero_8bits
 		for from < to && b[to-1] == 0 {
 			to--
@@ -367,15 +368,13 @@ func splitAnnexb(b []byte) (out []NALUInfo, ok bool) {
 			}
 			out = append(out, info)
 		}
+		nalustart = start
 		from = next
 	}
 	for i, c := range b {
 		switch c {
 		case 0:
 			if s < S000 {
-				if s == S {
-					nalustart = i
-				}
 				s++
 			}
 		case 1:
-- 
2.43.0


From a2b1dd33c019a14816aa9ab6a7f2d8f6339e01c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:07 +0000
Subject: [PATCH 052/113] fix: amf: a few megabytes of nested values overflowed
 the stack

---
 format/flv/flvio/amf0.go |  8 ++++++++
 format/flv/flvio/amf3.go | 11 ++++++++---
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/format/flv/flvio/amf0.go b/format/flv/flvio/amf0.go
index 5276829..ddc196a 100644
--- a/format/flv/flvio/amf0.go
+++ b/format/flv/flvio/amf0.go
@@ -359,9 +359,17 @@ func ParseAMFVals(b []byte, isamf3 bool) (arr []interface{}, err error) {
 	return
 }
 
+// amfMaxDepth is how deep values may be nested.
+const amfMaxDepth = 256
+
 func parseAMF0Val(depth int, b []byte, n *int) (val interface{}, err error) {
 	const debug = false
 
+	if depth > amfMaxDepth {
+		err = amfParseErr("depth", b, *n, nil)
+		return
+	}
+
 	var marker uint8
 	if marker, err = pio.ReadU8(b, n); err != nil {
 		err = amfParseErr("marker", b, *n, err)
diff --git a/format/flv/flvio/amf3.go b/format/flv/flvio/amf3.go
index c280a79..f465d68 100644
--- a/format/flv/flvio/amf3.go
+++ b/format/flv/flvio/amf3.go
@@ -37,6 +37,11 @@ func parseAMF3Val(depth int, b []byte, n *int) (val interface{}, err error) {
 	const debug = false
 	var marker uint8
 
+	if depth > amfMaxDepth {
+		err = amfParseErr("depth", b, *n, nil)
+		return
+	}
+
 	if marker, err = pio.ReadU8(b, n); err != nil {
 		err = amfParseErr("marker", b, *n, err)
 		return
@@ -221,7 +226,7 @@ func readArray(depth int, b []byte, n *int) (val AMFMap, err error) {
 			break
 		}
 		var v interface{}
-		if v, err = parseAMF3Val(depth, b, n); err != nil {
+		if v, err = parseAMF3Val(depth+1, b, n); err != nil {
 			err = amfParseErr("array.val", b, *n, err)
 			return
 		}
@@ -277,7 +282,7 @@ func readObject(depth int, b []byte, n *int) (val AMFMap, err error) {
 				break
 			}
 			var v interface{}
-			if v, err = parseAMF3Val(depth, b, n); err != nil {
+			if v, err = parseAMF3Val(depth+1, b, n); err != nil {
 				err = amfParseErr("array.val", b, *n, err)
 				return
 			}
@@ -293,7 +298,7 @@ func readObject(depth int, b []byte, n *int) (val AMFMap, err error) {
 		}
 		for i := 0; i < l; i++ {
 			var v interface{}
-			if v, err = parseAMF3Val(depth, b, n); err != nil {
+			if v, err = parseAMF3Val(depth+1, b, n); err != nil {
 				return
 			}
 			val = val.Set(keys[i], v)
-- 
2.43.0


From ccfca837b2f33ba9678bafa82ede067f3cac89df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:10 +0000
Subject: [PATCH 053/113] fix: amf: the count of an array is no reason to
 allocate

---
 format/flv/flvio/amf0.go | 6 ++++--
 format/flv/flvio/amf3.go | 5 +++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/format/flv/flvio/amf0.go b/format/flv/flvio/amf0.go
index ddc196a..e41d02f 100644
--- a/format/flv/flvio/amf0.go
+++ b/format/flv/flvio/amf0.go
@@ -497,12 +497,14 @@ func parseAMF0Val(depth int, b []byte, n *int) (val interface{}, err error) {
 			err = amfParseErr("strictarray.count.toobig", b, *n, err)
 			return
 		}
-		obj := make(AMFArray, count)
+		obj := AMFArray{}
 		for i := 0; i < int(count); i++ {
-			if obj[i], err = parseAMF0Val(depth+1, b, n); err != nil {
+			var oval interface{}
+			if oval, err = parseAMF0Val(depth+1, b, n); err != nil {
 				err = amfParseErr("strictarray.val", b, *n, err)
 				return
 			}
+			obj = append(obj, oval)
 		}
 		val = obj
 
diff --git a/format/flv/flvio/amf3.go b/format/flv/flvio/amf3.go
index f465d68..fc5b745 100644
--- a/format/flv/flvio/amf3.go
+++ b/format/flv/flvio/amf3.go
@@ -289,12 +289,13 @@ func readObject(depth int, b []byte, n *int) (val AMFMap, err error) {
 			val = val.Set(k, v)
 		}
 	} else {
-		keys := make([]string, l)
+		var keys []string
 		for i := 0; i < l; i++ {
-			keys[i], err = readString(b, n)
+			k, err = readString(b, n)
 			if err != nil {
 				return
 			}
+			keys = append(keys, k)
 		}
 		for i := 0; i < l; i++ {
 			var v interface{}
-- 
2.43.0


From 79946578ce7cba884712a4e43a7d0d126c9d9a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:14 +0000
Subject: [PATCH 054/113] fix: amf3: booleans took the first byte of the next
 value

---
 format/flv/flvio/amf3.go | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/format/flv/flvio/amf3.go b/format/flv/flvio/amf3.go
index fc5b745..bf6a531 100644
--- a/format/flv/flvio/amf3.go
+++ b/format/flv/flvio/amf3.go
@@ -55,17 +55,9 @@ func parseAMF3Val(depth int, b []byte, n *int) (val interface{}, err error) {
 		val = nil
 
 	case amf3falsemarker:
-		if _, err = pio.ReadU8(b, n); err != nil {
-			err = amfParseErr("boolean:false", b, *n, err)
-			return
-		}
 		val = false
 
 	case amf3truemarker:
-		if _, err = pio.ReadU8(b, n); err != nil {
-			err = amfParseErr("boolean:true", b, *n, err)
-			return
-		}
 		val = true
 
 	case amf3integermarker:
-- 
2.43.0


From e533638ce4147af3c2191e4ae3fb61d55ef6a24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:17 +0000
Subject: [PATCH 055/113] fix: amf3: the dense elements of an array were taken
 for the values after it

---
 format/flv/flvio/amf3.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/format/flv/flvio/amf3.go b/format/flv/flvio/amf3.go
index bf6a531..dff6290 100644
--- a/format/flv/flvio/amf3.go
+++ b/format/flv/flvio/amf3.go
@@ -2,6 +2,7 @@ package flvio
 
 import (
 	"fmt"
+	"strconv"
 	"time"
 
 	"github.com/nareix/joy5/utils/bits/pio"
@@ -224,8 +225,14 @@ func readArray(depth int, b []byte, n *int) (val AMFMap, err error) {
 		}
 		val = val.Set(k, v)
 	}
-	if l == 0 {
-		return
+	// dense part
+	for i := 0; i < l; i++ {
+		var v interface{}
+		if v, err = parseAMF3Val(depth+1, b, n); err != nil {
+			err = amfParseErr("array.val", b, *n, err)
+			return
+		}
+		val = val.Set(strconv.Itoa(i), v)
 	}
 	return
 }
-- 
2.43.0


From 0887cd9d406c886b8ebfce6632a125fdf628f772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:19 +0000
Subject: [PATCH 056/113] fix: amf0: the keys of an ECMA array were written
 without their length

---
 format/flv/flvio/amf0.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/format/flv/flvio/amf0.go b/format/flv/flvio/amf0.go
index e41d02f..d015a3b 100644
--- a/format/flv/flvio/amf0.go
+++ b/format/flv/flvio/amf0.go
@@ -280,8 +280,11 @@ func FillAMF0Val(b []byte, n *int, _val interface{}) {
 		pio.WriteU8(b, n, ecmaarraymarker)
 		pio.WriteU32BE(b, n, uint32(len(val)))
 		for _, p := range val {
-			pio.WriteString(b, n, p.K)
-			FillAMF0Val(b, n, p.V)
+			if len(p.K) > 0 {
+				pio.WriteU16BE(b, n, uint16(len(p.K)))
+				pio.WriteString(b, n, p.K)
+				FillAMF0Val(b, n, p.V)
+			}
 		}
 		pio.WriteU24BE(b, n, 0x000009)
 
-- 
2.43.0


From d7ce960d0b8df1f28d2c48d76735279ccee45ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:22 +0000
Subject: [PATCH 057/113] fix: amf0: a key too long for its length field
 garbled all that follows

---
 format/flv/flvio/amf0.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/format/flv/flvio/amf0.go b/format/flv/flvio/amf0.go
index d015a3b..0d90cdf 100644
--- a/format/flv/flvio/amf0.go
+++ b/format/flv/flvio/amf0.go
@@ -280,7 +280,7 @@ func FillAMF0Val(b []byte, n *int, _val interface{}) {
 		pio.WriteU8(b, n, ecmaarraymarker)
 		pio.WriteU32BE(b, n, uint32(len(val)))
 		for _, p := range val {
-			if len(p.K) > 0 {
+			if len(p.K) > 0 && len(p.K) < 65536 {
 				pio.WriteU16BE(b, n, uint16(len(p.K)))
 				pio.WriteString(b, n, p.K)
 				FillAMF0Val(b, n, p.V)
@@ -291,7 +291,7 @@ func FillAMF0Val(b []byte, n *int, _val interface{}) {
 	case AMFMap:
 		pio.WriteU8(b, n, objectmarker)
 		for _, p := range val {
-			if len(p.K) > 0 {
+			if len(p.K) > 0 && len(p.K) < 65536 {
 				pio.WriteU16BE(b, n, uint16(len(p.K)))
 				pio.WriteString(b, n, p.K)
 				FillAMF0Val(b, n, p.V)
-- 
2.43.0


From 826347fe6a8ddd63dbca1f8b96fc737ee4c0b874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:25 +0000
Subject: [PATCH 058/113] fix: amf0: a key with a value of an unknown type was
 written without a value

---
 format/flv/flvio/amf0.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/flv/flvio/amf0.go b/format/flv/flvio/amf0.go
index 0d90cdf..8741926 100644
--- a/format/flv/flvio/amf0.go
+++ b/format/flv/flvio/amf0.go
@@ -323,7 +323,7 @@ func FillAMF0Val(b []byte, n *int, _val interface{}) {
 		}
 		pio.WriteU8(b, n, u)
 
-	case nil:
+	default:
 		pio.WriteU8(b, n, nullmarker)
 	}
 
-- 
2.43.0


From b01361e3aaefda77a33af0558053b715c64e6ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:28 +0000
Subject: [PATCH 059/113] fix: amf0: dates outside 1678..2262 were written as
 others

---
 format/flv/flvio/amf0.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/format/flv/flvio/amf0.go b/format/flv/flvio/amf0.go
index 8741926..398b291 100644
--- a/format/flv/flvio/amf0.go
+++ b/format/flv/flvio/amf0.go
@@ -308,8 +308,8 @@ func FillAMF0Val(b []byte, n *int, _val interface{}) {
 
 	case time.Time:
 		pio.WriteU8(b, n, datemarker)
-		u := val.UnixNano()
-		f := float64(u / 1000000)
+		u := val.Unix()*1000 + int64(val.Nanosecond()/1000000)
+		f := float64(u)
 		fillBEFloat64(b, n, f)
 		pio.WriteU16BE(b, n, uint16(0))
 
-- 
2.43.0


From c3d403e541ed5dc11466ba6bb3d7c6a4020cdc03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:30 +0000
Subject: [PATCH 060/113] fix: amf3: the declared members of a dynamic object
 were taken for its other members

---
 format/flv/flvio/amf3.go | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/format/flv/flvio/amf3.go b/format/flv/flvio/amf3.go
index dff6290..0b72fb2 100644
--- a/format/flv/flvio/amf3.go
+++ b/format/flv/flvio/amf3.go
@@ -270,6 +270,21 @@ func readObject(depth int, b []byte, n *int) (val AMFMap, err error) {
 	val = AMFMap{}
 
 	var k string
+	var keys []string
+	for i := 0; i < l; i++ {
+		k, err = readString(b, n)
+		if err != nil {
+			return
+		}
+		keys = append(keys, k)
+	}
+	for i := 0; i < l; i++ {
+		var v interface{}
+		if v, err = parseAMF3Val(depth+1, b, n); err != nil {
+			return
+		}
+		val = val.Set(keys[i], v)
+	}
 	if isDynamic {
 		for {
 			k, err = readString(b, n)
@@ -287,22 +302,6 @@ func readObject(depth int, b []byte, n *int) (val AMFMap, err error) {
 			}
 			val = val.Set(k, v)
 		}
-	} else {
-		var keys []string
-		for i := 0; i < l; i++ {
-			k, err = readString(b, n)
-			if err != nil {
-				return
-			}
-			keys = append(keys, k)
-		}
-		for i := 0; i < l; i++ {
-			var v interface{}
-			if v, err = parseAMF3Val(depth+1, b, n); err != nil {
-				return
-			}
-			val = val.Set(keys[i], v)
-		}
 	}
 	return
 }
-- 
2.43.0


From 3cba6ed23c05d74216c3f34dcf6354fa2e762224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:24 +0000
Subject: [PATCH 061/113] fix: mp4io: trun: the flags of the first sample were
 taken for the fields it has

---
 format/mp4/mp4io/atoms.go | 25 +++++--------------------
 1 file changed, 5 insertions(+), 20 deletions(-)

diff --git a/format/mp4/mp4io/atoms.go b/format/mp4/mp4io/atoms.go
index a2df488..7215640 100644
--- a/format/mp4/mp4io/atoms.go
+++ b/format/mp4/mp4io/atoms.go
@@ -3175,13 +3175,8 @@ func (self TrackFragRun) marshal(b []byte) (n int) {
 		}
 	}
 
-	for i, entry := range self.Entries {
-		var flags uint32
-		if i > 0 {
-			flags = self.Flags
-		} else {
-			flags = self.FirstSampleFlags
-		}
+	for _, entry := range self.Entries {
+		flags := self.Flags
 		if flags&TRUN_SAMPLE_DURATION != 0 {
 			pio.PutU32BE(b[n:], entry.Duration)
 			n += 4
@@ -3217,13 +3212,8 @@ func (self TrackFragRun) Len() (n int) {
 		}
 	}
 
-	for i := range self.Entries {
-		var flags uint32
-		if i > 0 {
-			flags = self.Flags
-		} else {
-			flags = self.FirstSampleFlags
-		}
+	for range self.Entries {
+		flags := self.Flags
 		if flags&TRUN_SAMPLE_DURATION != 0 {
 			n += 4
 		}
@@ -3283,12 +3273,7 @@ func (self *TrackFragRun) Unmarshal(b []byte, offset int) (n int, err error) {
 	}
 
 	for i := 0; i < int(_len_Entries); i++ {
-		var flags uint32
-		if i > 0 {
-			flags = self.Flags
-		} else {
-			flags = self.FirstSampleFlags
-		}
+		flags := self.Flags
 		var entry TrackFragRunEntry
 		if flags&TRUN_SAMPLE_DURATION != 0 {
 			if len(b) < n+4 {
-- 
2.43.0


From 89abaec13f36b0a60958574a033cec7806637d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:25 +0000
Subject: [PATCH 062/113] fix: mp4io: the descriptors of an esds had wrong
 lengths

---
 format/mp4/mp4io/mp4io.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/format/mp4/mp4io/mp4io.go b/format/mp4/mp4io/mp4io.go
index 9daa38a..3c60ebd 100644
--- a/format/mp4/mp4io/mp4io.go
+++ b/format/mp4/mp4io/mp4io.go
@@ -282,8 +282,8 @@ func (self ElemStreamDesc) Marshal(b []byte) (n int) {
 	pio.PutU32BE(b[n:], 0) // Version
 	n += 4
 	datalen := self.Len()
-	n += self.fillESDescHdr(b[n:], datalen-n-self.lenESDescHdr())
-	n += self.fillDecConfigDescHdr(b[n:], datalen-n-self.lenDescHdr()-1)
+	n += self.fillESDescHdr(b[n:], datalen-n-self.lenDescHdr())
+	n += self.fillDecConfigDescHdr(b[n:], datalen-n-self.lenDescHdr()-1-self.lenDescHdr())
 	copy(b[n:], self.DecConfig)
 	n += len(self.DecConfig)
 	n += self.fillDescHdr(b[n:], 0x06, datalen-n-self.lenDescHdr())
-- 
2.43.0


From 490b78720e65a40cd0df1f3f3f68757d33728cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:49 +0000
Subject: [PATCH 063/113] fix: mp4io: stsz had no sample count when all samples
 are of one size

---
 format/mp4/mp4io/atoms.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/format/mp4/mp4io/atoms.go b/format/mp4/mp4io/atoms.go
index 7215640..d61982c 100644
--- a/format/mp4/mp4io/atoms.go
+++ b/format/mp4/mp4io/atoms.go
@@ -3054,7 +3054,9 @@ type SampleSize struct {
 	Version    uint8
 	Flags      uint32
 	SampleSize uint32
-	Entries    []uint32
+	// SampleCount is the number of samples when they are all of SampleSize.
+	SampleCount uint32
+	Entries     []uint32
 	AtomPos
 }
 
@@ -3072,6 +3074,8 @@ func (self SampleSize) marshal(b []byte) (n int) {
 	pio.PutU32BE(b[n:], self.SampleSize)
 	n += 4
 	if self.SampleSize != 0 {
+		pio.PutU32BE(b[n:], self.SampleCount)
+		n += 4
 		return
 	}
 	pio.PutU32BE(b[n:], uint32(len(self.Entries)))
@@ -3087,10 +3091,10 @@ func (self SampleSize) Len() (n int) {
 	n += 1
 	n += 3
 	n += 4
+	n += 4
 	if self.SampleSize != 0 {
 		return
 	}
-	n += 4
 	n += 4 * len(self.Entries)
 	return
 }
@@ -3116,6 +3120,12 @@ func (self *SampleSize) Unmarshal(b []byte, offset int) (n int, err error) {
 	self.SampleSize = pio.U32BE(b[n:])
 	n += 4
 	if self.SampleSize != 0 {
+		if len(b) < n+4 {
+			err = parseErr("SampleCount", n+offset, err)
+			return
+		}
+		self.SampleCount = pio.U32BE(b[n:])
+		n += 4
 		return
 	}
 	var _len_Entries uint32
-- 
2.43.0


From db106176c9e8207c640ca4af449ccbe9308d3969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:42 +0000
Subject: [PATCH 064/113] fix: mp4io: an empty box at the end of its parent was
 dropped

---
 format/mp4/mp4io/atoms.go | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/format/mp4/mp4io/atoms.go b/format/mp4/mp4io/atoms.go
index d61982c..77e0b6b 100644
--- a/format/mp4/mp4io/atoms.go
+++ b/format/mp4/mp4io/atoms.go
@@ -254,7 +254,7 @@ func (self Movie) Len() (n int) {
 func (self *Movie) Unmarshal(b []byte, offset int) (n int, err error) {
 	(&self.AtomPos).setPos(offset, len(b))
 	n += 8
-	for n+8 < len(b) {
+	for n+8 <= len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
 		if size < 8 || len(b) < n+size {
@@ -551,7 +551,7 @@ func (self Track) Len() (n int) {
 func (self *Track) Unmarshal(b []byte, offset int) (n int, err error) {
 	(&self.AtomPos).setPos(offset, len(b))
 	n += 8
-	for n+8 < len(b) {
+	for n+8 <= len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
 		if size < 8 || len(b) < n+size {
@@ -881,7 +881,7 @@ func (self Media) Len() (n int) {
 func (self *Media) Unmarshal(b []byte, offset int) (n int, err error) {
 	(&self.AtomPos).setPos(offset, len(b))
 	n += 8
-	for n+8 < len(b) {
+	for n+8 <= len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
 		if size < 8 || len(b) < n+size {
@@ -1105,7 +1105,7 @@ func (self MediaInfo) Len() (n int) {
 func (self *MediaInfo) Unmarshal(b []byte, offset int) (n int, err error) {
 	(&self.AtomPos).setPos(offset, len(b))
 	n += 8
-	for n+8 < len(b) {
+	for n+8 <= len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
 		if size < 8 || len(b) < n+size {
@@ -1214,7 +1214,7 @@ func (self DataInfo) Len() (n int) {
 func (self *DataInfo) Unmarshal(b []byte, offset int) (n int, err error) {
 	(&self.AtomPos).setPos(offset, len(b))
 	n += 8
-	for n+8 < len(b) {
+	for n+8 <= len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
 		if size < 8 || len(b) < n+size {
@@ -1308,7 +1308,7 @@ func (self *DataRefer) Unmarshal(b []byte, offset int) (n int, err error) {
 	self.Flags = pio.U24BE(b[n:])
 	n += 3
 	n += 4
-	for n+8 < len(b) {
+	for n+8 <= len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
 		if size < 8 || len(b) < n+size {
@@ -1581,7 +1581,7 @@ func (self SampleTable) Len() (n int) {
 func (self *SampleTable) Unmarshal(b []byte, offset int) (n int, err error) {
 	(&self.AtomPos).setPos(offset, len(b))
 	n += 8
-	for n+8 < len(b) {
+	for n+8 <= len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
 		if size < 8 || len(b) < n+size {
@@ -1748,7 +1748,7 @@ func (self *SampleDesc) Unmarshal(b []byte, offset int) (n int, err error) {
 	n += 1
 	n += 3
 	n += 4
-	for n+8 < len(b) {
+	for n+8 <= len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
 		if size < 8 || len(b) < n+size {
@@ -1919,7 +1919,7 @@ func (self *MP4ADesc) Unmarshal(b []byte, offset int) (n int, err error) {
 	}
 	self.SampleRate = GetFixed32(b[n:])
 	n += 4
-	for n+8 < len(b) {
+	for n+8 <= len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
 		if size < 8 || len(b) < n+size {
@@ -2138,7 +2138,7 @@ func (self *AVC1Desc) Unmarshal(b []byte, offset int) (n int, err error) {
 	}
 	self.ColorTableId = pio.I16BE(b[n:])
 	n += 2
-	for n+8 < len(b) {
+	for n+8 <= len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
 		if size < 8 || len(b) < n+size {
@@ -2663,7 +2663,7 @@ func (self MovieFrag) Len() (n int) {
 func (self *MovieFrag) Unmarshal(b []byte, offset int) (n int, err error) {
 	(&self.AtomPos).setPos(offset, len(b))
 	n += 8
-	for n+8 < len(b) {
+	for n+8 <= len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
 		if size < 8 || len(b) < n+size {
@@ -2818,7 +2818,7 @@ func (self TrackFrag) Len() (n int) {
 func (self *TrackFrag) Unmarshal(b []byte, offset int) (n int, err error) {
 	(&self.AtomPos).setPos(offset, len(b))
 	n += 8
-	for n+8 < len(b) {
+	for n+8 <= len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
 		if size < 8 || len(b) < n+size {
@@ -2915,7 +2915,7 @@ func (self MovieExtend) Len() (n int) {
 func (self *MovieExtend) Unmarshal(b []byte, offset int) (n int, err error) {
 	(&self.AtomPos).setPos(offset, len(b))
 	n += 8
-	for n+8 < len(b) {
+	for n+8 <= len(b) {
 		tag := Tag(pio.U32BE(b[n+4:]))
 		size := int(pio.U32BE(b[n:]))
 		if size < 8 || len(b) < n+size {
-- 
2.43.0


From eb136da18fd24d0da8eb15fc99bc68240ad31ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:31 +0000
Subject: [PATCH 065/113] fix: mp4io: nested descriptors of an esds could
 exhaust the stack

---
 format/mp4/mp4io/mp4io.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/format/mp4/mp4io/mp4io.go b/format/mp4/mp4io/mp4io.go
index 3c60ebd..bb9351e 100644
--- a/format/mp4/mp4io/mp4io.go
+++ b/format/mp4/mp4io/mp4io.go
@@ -301,10 +301,11 @@ func (self *ElemStreamDesc) Unmarshal(b []byte, offset int) (n int, err error) {
 	(&self.AtomPos).setPos(offset, len(b))
 	n += 8
 	n += 4
-	return self.parseDesc(b[n:], offset+n)
+	return self.parseDesc(b[n:], offset+n, 0)
 }
 
-func (self *ElemStreamDesc) parseDesc(b []byte, offset int) (n int, err error) {
+// parseDesc parses a descriptor inside one with the tag parent, if not 0.
+func (self *ElemStreamDesc) parseDesc(b []byte, offset int, parent uint8) (n int, err error) {
 	var hdrlen int
 	var datalen int
 	var tag uint8
@@ -320,21 +321,29 @@ func (self *ElemStreamDesc) parseDesc(b []byte, offset int) (n int, err error) {
 
 	switch tag {
 	case MP4ESDescrTag:
+		if parent != 0 {
+			err = parseErr("MP4ESDescrTag", offset+n, err)
+			return
+		}
 		if len(b) < n+3 {
 			err = parseErr("MP4ESDescrTag", offset+n, err)
 			return
 		}
-		if _, err = self.parseDesc(b[n+3:], offset+n+3); err != nil {
+		if _, err = self.parseDesc(b[n+3:], offset+n+3, tag); err != nil {
 			return
 		}
 
 	case MP4DecConfigDescrTag:
 		const size = 2 + 3 + 4 + 4
+		if parent == MP4DecConfigDescrTag {
+			err = parseErr("MP4DecConfigDescrTag", offset+n, err)
+			return
+		}
 		if len(b) < n+size {
 			err = parseErr("MP4DecSpecificDescrTag", offset+n, err)
 			return
 		}
-		if _, err = self.parseDesc(b[n+size:], offset+n+size); err != nil {
+		if _, err = self.parseDesc(b[n+size:], offset+n+size, tag); err != nil {
 			return
 		}
 
-- 
2.43.0


From e7593eeebc6eddd541da7b58de2c246d04e3f401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:49 +0000
Subject: [PATCH 066/113] fix: mp4io: tfhd had no track id, so that all that
 follows it was misread

---
 format/mp4/mp4io/atoms.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/format/mp4/mp4io/atoms.go b/format/mp4/mp4io/atoms.go
index 77e0b6b..f9b1d9a 100644
--- a/format/mp4/mp4io/atoms.go
+++ b/format/mp4/mp4io/atoms.go
@@ -3351,6 +3351,7 @@ const LenTrackFragRunEntry = 16
 type TrackFragHeader struct {
 	Version         uint8
 	Flags           uint32
+	TrackId         uint32
 	BaseDataOffset  uint64
 	StsdId          uint32
 	DefaultDuration uint32
@@ -3370,6 +3371,8 @@ func (self TrackFragHeader) marshal(b []byte) (n int) {
 	n += 1
 	pio.PutU24BE(b[n:], self.Flags)
 	n += 3
+	pio.PutU32BE(b[n:], self.TrackId)
+	n += 4
 	if self.Flags&TFHD_BASE_DATA_OFFSET != 0 {
 		{
 			pio.PutU64BE(b[n:], self.BaseDataOffset)
@@ -3406,6 +3409,7 @@ func (self TrackFragHeader) Len() (n int) {
 	n += 8
 	n += 1
 	n += 3
+	n += 4
 	if self.Flags&TFHD_BASE_DATA_OFFSET != 0 {
 		{
 			n += 8
@@ -3448,6 +3452,12 @@ func (self *TrackFragHeader) Unmarshal(b []byte, offset int) (n int, err error)
 	}
 	self.Flags = pio.U24BE(b[n:])
 	n += 3
+	if len(b) < n+4 {
+		err = parseErr("TrackId", n+offset, err)
+		return
+	}
+	self.TrackId = pio.U32BE(b[n:])
+	n += 4
 	if self.Flags&TFHD_BASE_DATA_OFFSET != 0 {
 		{
 			if len(b) < n+8 {
-- 
2.43.0


From 8771d47ad063e11851109262820d7e883744c16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:00 +0000
Subject: [PATCH 067/113] fix: mp4: AAC tracks were written without their
 decoder configuration

---
 format/mp4/muxer.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/format/mp4/muxer.go b/format/mp4/muxer.go
index da0f479..995fa34 100644
--- a/format/mp4/muxer.go
+++ b/format/mp4/muxer.go
@@ -144,9 +144,9 @@ func (self *Stream) fillTrackAtom() (err error) {
 			NumberOfChannels: int16(codec.Config.ChannelLayout.Count()),
 			SampleSize:       int16(codec.SampleFormat().BytesPerSample()),
 			SampleRate:       float64(codec.Config.SampleRate),
-			// Conf: &mp4io.ElemStreamDesc{
-			// 	DecConfig: codec.MPEG4AudioConfigBytes(),
-			// },
+			Conf: &mp4io.ElemStreamDesc{
+				DecConfig: codec.ConfigBytes,
+			},
 		}
 		self.trackAtom.Header.Volume = 1
 		self.trackAtom.Header.AlternateGroup = 1
-- 
2.43.0


From ab4cc9c348e6e9ae138a78fa7a5e2bdd30831a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:01 +0000
Subject: [PATCH 068/113] fix: mp4: times beyond 28 hours overflowed

---
 format/mp4/stream.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/format/mp4/stream.go b/format/mp4/stream.go
index 886629f..a29a255 100644
--- a/format/mp4/stream.go
+++ b/format/mp4/stream.go
@@ -70,19 +70,19 @@ func IsVideo(t int) bool {
 }
 
 func timeToTs(tm time.Duration, timeScale int64) int64 {
-	return int64(tm * time.Duration(timeScale) / time.Second)
+	return int64(tm/time.Second)*timeScale + int64(tm%time.Second)*timeScale/int64(time.Second)
 }
 
 func tsToTime(ts int64, timeScale int64) time.Duration {
-	return time.Duration(ts) * time.Second / time.Duration(timeScale)
+	return time.Duration(ts/timeScale)*time.Second + time.Duration(ts%timeScale)*time.Second/time.Duration(timeScale)
 }
 
 func (self *Stream) timeToTs(tm time.Duration) int64 {
-	return int64(tm * time.Duration(self.timeScale) / time.Second)
+	return timeToTs(tm, self.timeScale)
 }
 
 func (self *Stream) tsToTime(ts int64) time.Duration {
-	return time.Duration(ts) * time.Second / time.Duration(self.timeScale)
+	return tsToTime(ts, self.timeScale)
 }
 
 func (self *Stream) setSampleIndex(index int) (err error) {
-- 
2.43.0


From 087076f9dfdccbd2b17cfa5c47be42f02b08a69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:02 +0000
Subject: [PATCH 069/113] fix: mp4: the times of a track drifted by the
 truncation of every duration

---
 format/mp4/muxer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/format/mp4/muxer.go b/format/mp4/muxer.go
index 995fa34..76bf80c 100644
--- a/format/mp4/muxer.go
+++ b/format/mp4/muxer.go
@@ -222,7 +222,8 @@ func (self *Stream) writePacket(pkt av.Packet, rawdur time.Duration) (err error)
 		self.sample.SyncSample.Entries = append(self.sample.SyncSample.Entries, uint32(self.sampleIndex+1))
 	}
 
-	duration := uint32(self.timeToTs(rawdur))
+	// the durations add up to the time that has passed
+	duration := uint32(self.timeToTs(pkt.Time+rawdur) - self.timeToTs(pkt.Time))
 	if self.sttsEntry == nil || duration != self.sttsEntry.Duration {
 		self.sample.TimeToSample.Entries = append(self.sample.TimeToSample.Entries, mp4io.TimeToSampleEntry{Duration: duration})
 		self.sttsEntry = &self.sample.TimeToSample.Entries[len(self.sample.TimeToSample.Entries)-1]
-- 
2.43.0


From ec838d76e13d22b09fc82041c4ce0bb7131646f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:04 +0000
Subject: [PATCH 070/113] fix: mp4: a file without any packet had no mdat
 header

---
 format/mp4/muxer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/format/mp4/muxer.go b/format/mp4/muxer.go
index 76bf80c..311857d 100644
--- a/format/mp4/muxer.go
+++ b/format/mp4/muxer.go
@@ -261,6 +261,10 @@ func (self *Muxer) sortedStreams() (streams []*Stream) {
 }
 
 func (self *Muxer) WriteTrailer() (err error) {
+	if err = self.WriteFileHeader(); err != nil {
+		return
+	}
+
 	streams := self.sortedStreams()
 	for _, stream := range streams {
 		if stream.lastpkt != nil {
-- 
2.43.0


From 89c02e0798557c27a9bda25f585d4afe72fb9811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:05 +0000
Subject: [PATCH 071/113] fix: mp4: the next track id was that of the second
 track

---
 format/mp4/muxer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/mp4/muxer.go b/format/mp4/muxer.go
index 311857d..e684981 100644
--- a/format/mp4/muxer.go
+++ b/format/mp4/muxer.go
@@ -280,7 +280,7 @@ func (self *Muxer) WriteTrailer() (err error) {
 		PreferredRate:   1,
 		PreferredVolume: 1,
 		Matrix:          [9]int32{0x10000, 0, 0, 0, 0x10000, 0, 0, 0, 0x40000000},
-		NextTrackId:     2,
+		NextTrackId:     int32(len(streams) + 1),
 	}
 
 	maxDur := time.Duration(0)
-- 
2.43.0


From 0b4402c4185b37c8a2b2e7a9e2f43ba14408a0e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:07 +0000
Subject: [PATCH 072/113] fix: mp4: seeking to a key frame went to the one
 before it

---
 format/mp4/stream.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/mp4/stream.go b/format/mp4/stream.go
index a29a255..98358c6 100644
--- a/format/mp4/stream.go
+++ b/format/mp4/stream.go
@@ -363,7 +363,7 @@ func (self *Stream) timeToSampleIndex(tm time.Duration) int {
 	if self.sample.SyncSample != nil {
 		entries := self.sample.SyncSample.Entries
 		for i := len(entries) - 1; i >= 0; i-- {
-			if entries[i]-1 < uint32(targetIndex) {
+			if entries[i]-1 <= uint32(targetIndex) {
 				targetIndex = int(entries[i] - 1)
 				break
 			}
-- 
2.43.0


From d1373641f134561ef53fb67b8aa73a3734a64825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:08 +0000
Subject: [PATCH 073/113] fix: mp4: a track without key frames could not be
 read

---
 format/mp4/stream.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/format/mp4/stream.go b/format/mp4/stream.go
index 98358c6..650d01f 100644
--- a/format/mp4/stream.go
+++ b/format/mp4/stream.go
@@ -202,11 +202,6 @@ func (self *Stream) isSampleValid() bool {
 			return false
 		}
 	}
-	if self.sample.SyncSample != nil {
-		if self.syncSampleIndex >= len(self.sample.SyncSample.Entries) {
-			return false
-		}
-	}
 	if self.sample.SampleSize.SampleSize == 0 {
 		if self.sampleIndex >= len(self.sample.SampleSize.Entries) {
 			return false
@@ -306,7 +301,8 @@ func (self *Stream) readPacket() (pkt av.Packet, err error) {
 	}
 
 	if self.sample.SyncSample != nil {
-		if self.sample.SyncSample.Entries[self.syncSampleIndex]-1 == uint32(self.sampleIndex) {
+		entries := self.sample.SyncSample.Entries
+		if self.syncSampleIndex < len(entries) && entries[self.syncSampleIndex]-1 == uint32(self.sampleIndex) {
 			pkt.IsKeyFrame = true
 		}
 	}
-- 
2.43.0


From ad0de0e95aff662ee27f1108b47a97d2907f7dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:09 +0000
Subject: [PATCH 074/113] fix: mp4: the frames of a video track that has key
 frames only were no key frames

---
 format/mp4/stream.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/format/mp4/stream.go b/format/mp4/stream.go
index 650d01f..86e98d0 100644
--- a/format/mp4/stream.go
+++ b/format/mp4/stream.go
@@ -305,6 +305,8 @@ func (self *Stream) readPacket() (pkt av.Packet, err error) {
 		if self.syncSampleIndex < len(entries) && entries[self.syncSampleIndex]-1 == uint32(self.sampleIndex) {
 			pkt.IsKeyFrame = true
 		}
+	} else if _, ok := self.Codec.(*h264.Codec); ok {
+		pkt.IsKeyFrame = true // all of them are
 	}
 
 	//println("pts/dts", self.ptsEntryIndex, self.dtsEntryIndex)
-- 
2.43.0


From dedc9dd33a1c4aa9dcf6eacbd511f32a8daca92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:11 +0000
Subject: [PATCH 075/113] fix: mp4: negative composition offsets were read as
 huge ones

---
 format/mp4/muxer.go  | 3 +++
 format/mp4/stream.go | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/format/mp4/muxer.go b/format/mp4/muxer.go
index e684981..277aaf8 100644
--- a/format/mp4/muxer.go
+++ b/format/mp4/muxer.go
@@ -231,6 +231,9 @@ func (self *Stream) writePacket(pkt av.Packet, rawdur time.Duration) (err error)
 	self.sttsEntry.Count++
 
 	if self.sample.CompositionOffset != nil {
+		if pkt.CTime < 0 {
+			self.sample.CompositionOffset.Version = 1 // signed
+		}
 		offset := uint32(self.timeToTs(pkt.CTime))
 		if self.cttsEntry == nil || offset != self.cttsEntry.Offset {
 			table := self.sample.CompositionOffset
diff --git a/format/mp4/stream.go b/format/mp4/stream.go
index 86e98d0..8a0177f 100644
--- a/format/mp4/stream.go
+++ b/format/mp4/stream.go
@@ -311,7 +311,7 @@ func (self *Stream) readPacket() (pkt av.Packet, err error) {
 
 	//println("pts/dts", self.ptsEntryIndex, self.dtsEntryIndex)
 	if self.sample.CompositionOffset != nil && len(self.sample.CompositionOffset.Entries) > 0 {
-		cts := int64(self.sample.CompositionOffset.Entries[self.cttsEntryIndex].Offset)
+		cts := int64(int32(self.sample.CompositionOffset.Entries[self.cttsEntryIndex].Offset))
 		pkt.CTime = self.tsToTime(cts)
 	}
 
-- 
2.43.0


From b81f5f0685ebd796f5cc309661b3360a02bf8682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:12 +0000
Subject: [PATCH 076/113] fix: mp4: offsets and sizes beyond 4 GiB were
 truncated

---
 format/mp4/muxer.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/format/mp4/muxer.go b/format/mp4/muxer.go
index 277aaf8..69f4b6e 100644
--- a/format/mp4/muxer.go
+++ b/format/mp4/muxer.go
@@ -3,6 +3,7 @@ package mp4
 import (
 	"bufio"
 	"fmt"
+	"math"
 	"reflect"
 	"sort"
 	"time"
@@ -214,6 +215,10 @@ func (self *Stream) writePacket(pkt av.Packet, rawdur time.Duration) (err error)
 		return
 	}
 
+	if self.muxer.wpos+int64(len(pkt.Data)) > math.MaxUint32 {
+		err = fmt.Errorf("mp4: file is too large")
+		return
+	}
 	if _, err = self.muxer.bufw.Write(pkt.Data); err != nil {
 		return
 	}
-- 
2.43.0


From da325b31d73829a89625fcbfd83774a2eda6ed89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:18 +0000
Subject: [PATCH 077/113] fix: mp4: seeking to the time of a packet went to the
 one before it

---
 format/mp4/stream.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/format/mp4/stream.go b/format/mp4/stream.go
index 8a0177f..7a57d7e 100644
--- a/format/mp4/stream.go
+++ b/format/mp4/stream.go
@@ -333,6 +333,9 @@ func (self *Stream) seekToTime(tm time.Duration) (err error) {
 
 func (self *Stream) timeToSampleIndex(tm time.Duration) int {
 	targetTs := self.timeToTs(tm)
+	if self.tsToTime(targetTs+1) <= tm {
+		targetTs++ // tm is the time of a packet, which is cut to nanoseconds
+	}
 	targetIndex := 0
 
 	startTs := int64(0)
-- 
2.43.0


From f91200adafefce1e8711e8a0149f1af207b64ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:20 +0000
Subject: [PATCH 078/113] fix: mp4: seeking before the first packet is read did
 nothing

---
 format/mp4/demuxer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/format/mp4/demuxer.go b/format/mp4/demuxer.go
index d0cc2bc..fd0cf23 100644
--- a/format/mp4/demuxer.go
+++ b/format/mp4/demuxer.go
@@ -159,6 +159,10 @@ func (self *Demuxer) CurrentTime() (tm time.Duration) {
 }
 
 func (self *Demuxer) SeekToTime(tm time.Duration) (err error) {
+	if err = self.probe(); err != nil {
+		return
+	}
+
 	for _, stream := range self.streams {
 		if _, ok := stream.Codec.(*h264.Codec); ok {
 			if err = stream.seekToTime(tm); err != nil {
-- 
2.43.0


From e3b97dd2ef79bb39e35ecaab7ee43d2d20dd99dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:21 +0000
Subject: [PATCH 079/113] fix: mp4: seeking did not move the second video track

---
 format/mp4/demuxer.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/format/mp4/demuxer.go b/format/mp4/demuxer.go
index fd0cf23..6bb8226 100644
--- a/format/mp4/demuxer.go
+++ b/format/mp4/demuxer.go
@@ -163,18 +163,20 @@ func (self *Demuxer) SeekToTime(tm time.Duration) (err error) {
 		return
 	}
 
+	var video *Stream
 	for _, stream := range self.streams {
 		if _, ok := stream.Codec.(*h264.Codec); ok {
 			if err = stream.seekToTime(tm); err != nil {
 				return
 			}
+			video = stream
 			tm = stream.tsToTime(stream.dts)
 			break
 		}
 	}
 
 	for _, stream := range self.streams {
-		if _, ok := stream.Codec.(*h264.Codec); !ok {
+		if stream != video {
 			if err = stream.seekToTime(tm); err != nil {
 				return
 			}
-- 
2.43.0


From dd471a276e87963377b3cdce829876c4080bd3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:53 +0000
Subject: [PATCH 080/113] fix: avtool: a wrong command line exited with success

---
 cmd/avtool/main.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmd/avtool/main.go b/cmd/avtool/main.go
index 5b317d7..a645768 100644
--- a/cmd/avtool/main.go
+++ b/cmd/avtool/main.go
@@ -143,5 +143,7 @@ func main() {
 	rootCmd.AddCommand(cmdPubsubRtmp)
 	rootCmd.AddCommand(cmdAvcc2Annexb)
 	rootCmd.AddCommand(cmdMoveH264SeqhdrToKeyFrame)
-	rootCmd.Execute()
+	if err := rootCmd.Execute(); err != nil {
+		os.Exit(1)
+	}
 }
-- 
2.43.0


From 68a4c9e05479a3603f86d1e52bf0e14614bea402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:54 +0000
Subject: [PATCH 081/113] fix: avtool: moveh264seqhdrtokeyframe emptied
 /tmp/a.h264

---
 cmd/avtool/seqhdr.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/cmd/avtool/seqhdr.go b/cmd/avtool/seqhdr.go
index 896a17b..6b0b3f9 100644
--- a/cmd/avtool/seqhdr.go
+++ b/cmd/avtool/seqhdr.go
@@ -25,9 +25,6 @@ func doMoveH264SeqhdrToKeyFrame(src, dst string) error {
 	r := flv.NewDemuxer(fr)
 	w := flv.NewMuxer(format.NewStreamsWriteSeeker(fw, nil))
 
-	rawf, _ := os.Create("/tmp/a.h264")
-	defer rawf.Close()
-
 	var h264seqhdr *h264.Codec
 
 	for {
-- 
2.43.0


From bc93c932af846646fc9c8935f3c8dd58319c4dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:56 +0000
Subject: [PATCH 082/113] fix: amf3: the error of an XML document did not say
 where it was

---
 format/flv/flvio/amf3.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/flv/flvio/amf3.go b/format/flv/flvio/amf3.go
index 0b72fb2..7509fa6 100644
--- a/format/flv/flvio/amf3.go
+++ b/format/flv/flvio/amf3.go
@@ -86,7 +86,7 @@ func parseAMF3Val(depth int, b []byte, n *int) (val interface{}, err error) {
 	case amf3xmldocmarker:
 		val, err = readString(b, n)
 		if err != nil {
-			amfParseErr("xmldoc", b, *n, err)
+			err = amfParseErr("xmldoc", b, *n, err)
 			return
 		}
 
-- 
2.43.0


From 606fa3c5e6937ca2a4d12f28492f592bb498bf9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:58 +0000
Subject: [PATCH 083/113] fix: mp4io: a file that cannot be positioned was read
 on

---
 format/mp4/mp4io/mp4io.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/format/mp4/mp4io/mp4io.go b/format/mp4/mp4io/mp4io.go
index bb9351e..3b582e1 100644
--- a/format/mp4/mp4io/mp4io.go
+++ b/format/mp4/mp4io/mp4io.go
@@ -388,7 +388,10 @@ func (self *ElemStreamDesc) parseDescHdr(b []byte, offset int) (n int, tag uint8
 
 func ReadFileAtoms(r io.ReadSeeker) (atoms []Atom, err error) {
 	for {
-		offset, _ := r.Seek(0, 1)
+		var offset int64
+		if offset, err = r.Seek(0, 1); err != nil {
+			return
+		}
 		taghdr := make([]byte, 8)
 		if _, err = io.ReadFull(r, taghdr); err != nil {
 			if err == io.EOF {
-- 
2.43.0


From d58ec4e1087a77fa1c92ff6e024aeded87a72197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:59 +0000
Subject: [PATCH 084/113] fix: format: an MP4 file was left open when its
 trailer could not be written

---
 format/format.go | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/format/format.go b/format/format.go
index 483e306..8e05a0c 100644
--- a/format/format.go
+++ b/format/format.go
@@ -32,14 +32,11 @@ type Mp4WriterCloser struct {
 }
 
 func (c Mp4WriterCloser) Close() error {
-	if err := c.Muxer.WriteTrailer(); err != nil {
-		return err
+	err := c.Muxer.WriteTrailer()
+	if cerr := c.Closer.Close(); err == nil {
+		err = cerr
 	}
-	if err := c.Closer.Close(); err != nil {
-		return err
-	}
-
-	return nil
+	return err
 }
 
 type Reader struct {
-- 
2.43.0


From b6a867736f445a1ae5671e0913fcb2cbfce2e1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:17 +0000
Subject: [PATCH 085/113] fix: format: creating a file of an unsupported format
 emptied it

---
 format/format.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/format/format.go b/format/format.go
index 8e05a0c..b6eae78 100644
--- a/format/format.go
+++ b/format/format.go
@@ -150,6 +150,10 @@ func (o *URLOpener) Create(url_ string, streamer av.Streamer) (w *Writer, err er
 
 	default:
 		ext := path.Ext(u.Path)
+		if ext != ".flv" && ext != ".mp4" {
+			err = ErrUnsupported(url_)
+			return
+		}
 		var f *os.File
 		if f, err = os.Create(u.Path); err != nil {
 			return
@@ -176,11 +180,8 @@ func (o *URLOpener) Create(url_ string, streamer av.Streamer) (w *Writer, err er
 				Closer:       Mp4WriterCloser{f, m},
 			}
 			return
-
-		default:
-			err = ErrUnsupported(url_)
-			return
 		}
+		return
 	}
 }
 
-- 
2.43.0


From 6f28400384d76229f8fd860cc359696f262cb24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:18 +0000
Subject: [PATCH 086/113] fix: format: an MP4 file whose streams are not
 supported was left open

---
 format/format.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/format/format.go b/format/format.go
index b6eae78..97267a4 100644
--- a/format/format.go
+++ b/format/format.go
@@ -173,6 +173,7 @@ func (o *URLOpener) Create(url_ string, streamer av.Streamer) (w *Writer, err er
 			var m *mp4.Muxer
 			m, err = mp4.NewMuxer(NewStreamsWriteSeeker(f, streamer))
 			if err != nil {
+				f.Close()
 				return nil, err
 			}
 			w = &Writer{
-- 
2.43.0


From ca0046f610501a1b3c3ad3e2d93f515784b2f8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:19 +0000
Subject: [PATCH 087/113] fix: format: creating an MP4 file without streams
 panicked

---
 format/format.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/format/format.go b/format/format.go
index 97267a4..6d3a279 100644
--- a/format/format.go
+++ b/format/format.go
@@ -154,6 +154,10 @@ func (o *URLOpener) Create(url_ string, streamer av.Streamer) (w *Writer, err er
 			err = ErrUnsupported(url_)
 			return
 		}
+		if ext == ".mp4" && streamer == nil {
+			err = fmt.Errorf("open `%s` failed: %s", url_, "streams are not known")
+			return
+		}
 		var f *os.File
 		if f, err = os.Create(u.Path); err != nil {
 			return
-- 
2.43.0


From 1e0b8ca05a9dafd1eaaa1480f4fe38395df3791e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:21 +0000
Subject: [PATCH 088/113] fix: format: closing the reader of an HTTP stream
 left it open

---
 format/format.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/format.go b/format/format.go
index 6d3a279..5fe10b3 100644
--- a/format/format.go
+++ b/format/format.go
@@ -263,7 +263,7 @@ func (o *URLOpener) Open(url_ string) (r *Reader, err error) {
 			}
 			r = &Reader{
 				PacketReader: c,
-				Closer:       dummyCloser{},
+				Closer:       hr.Body,
 				Flv:          c,
 				IsRemote:     true,
 			}
-- 
2.43.0


From 04ee1ca9dce2e31c975366e32167d35112d6f2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:37 +0000
Subject: [PATCH 089/113] fix: format: the listener that waits for a publisher
 stayed open

---
 format/format.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/format/format.go b/format/format.go
index 5fe10b3..244cae6 100644
--- a/format/format.go
+++ b/format/format.go
@@ -88,15 +88,26 @@ func (o *URLOpener) StartRtmpServerWaitConn(u *url.URL) (c *rtmp.Conn, nc net.Co
 		c  *rtmp.Conn
 		nc net.Conn
 	}
-	got_ := make(chan Got, 1)
+	done := make(chan struct{})
+	defer close(done)
+	defer lis.Close()
+	got_ := make(chan Got)
 	s.HandleConn = func(c *rtmp.Conn, nc net.Conn) {
-		got_ <- Got{c, nc}
+		select {
+		case got_ <- Got{c, nc}:
+		case <-done:
+			nc.Close()
+		}
 	}
 	go func() {
 		for {
 			nc, err := lis.Accept()
 			if err != nil {
-				time.Sleep(time.Second)
+				select {
+				case <-done:
+					return
+				case <-time.After(time.Second):
+				}
 				continue
 			}
 			go s.HandleNetConn(nc)
-- 
2.43.0


From fc9bfef9132310a2533a4c18d600ea223d391fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:39 +0000
Subject: [PATCH 090/113] fix: rtmp: dialing a URL of another scheme panicked

---
 format/rtmp/client.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/format/rtmp/client.go b/format/rtmp/client.go
index 242c497..c3367e0 100644
--- a/format/rtmp/client.go
+++ b/format/rtmp/client.go
@@ -4,6 +4,7 @@ import (
 	"bufio"
 	"context"
 	"crypto/tls"
+	"fmt"
 	"net"
 	"net/url"
 	"time"
@@ -80,6 +81,9 @@ func (t *Client) Dial(url_ string, flags int) (c *Conn, nc net.Conn, err error)
 
 	var nc_ net.Conn
 	switch u.Scheme {
+	default:
+		err = fmt.Errorf("rtmp: unsupported scheme `%s`", u.Scheme)
+		return
 	case "rtmp":
 		if nc_, err = t.doDial(host); err != nil {
 			return
-- 
2.43.0


From a5e68355a82f6d5c66b1a8ca23c15e4be721d87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:41 +0000
Subject: [PATCH 091/113] fix: rtmp: the timer of a dial ran on after it

---
 format/rtmp/client.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/format/rtmp/client.go b/format/rtmp/client.go
index c3367e0..0311b08 100644
--- a/format/rtmp/client.go
+++ b/format/rtmp/client.go
@@ -62,7 +62,8 @@ func (t *Client) doDial(host string) (nc net.Conn, err error) {
 	if fn := t.NewDialFunc; fn != nil {
 		dial = fn()
 	}
-	ctx, _ := context.WithTimeout(context.Background(), time.Second*15)
+	ctx, cancel := context.WithTimeout(context.Background(), time.Second*15)
+	defer cancel()
 	if nc, err = dial(ctx, "tcp", host); err != nil {
 		return
 	}
-- 
2.43.0


From df5eb0ce9ba1330262fafec6372cbef5cec77adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:22 +0000
Subject: [PATCH 092/113] fix: avtool: pubsubrtmp never closed its connections

---
 cmd/avtool/pubsub.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmd/avtool/pubsub.go b/cmd/avtool/pubsub.go
index 5497c10..a956804 100644
--- a/cmd/avtool/pubsub.go
+++ b/cmd/avtool/pubsub.go
@@ -309,6 +309,8 @@ func doPubsubRtmp(listenAddr string) error {
 	}
 
 	s.HandleConn = func(c *rtmp.Conn, nc net.Conn) {
+		defer nc.Close()
+
 		stream, remove := streams.add(c.URL.Path)
 		defer remove()
 
-- 
2.43.0


From b8d549c70e298c1ab95b30fba023516b70882851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:49 +0000
Subject: [PATCH 093/113] fix: avtool: conv did not close what it wrote

---
 cmd/avtool/conv.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cmd/avtool/conv.go b/cmd/avtool/conv.go
index dbfd342..d852186 100644
--- a/cmd/avtool/conv.go
+++ b/cmd/avtool/conv.go
@@ -30,6 +30,14 @@ func doConv(src, dst string) (err error) {
 	if fr, err = foR.Open(src); err != nil {
 		return
 	}
+	defer fr.Close()
+	defer func() {
+		if fw != nil {
+			if cerr := fw.Close(); err == nil {
+				err = cerr
+			}
+		}
+	}()
 
 	canRe := func() bool {
 		if optNativeRate {
-- 
2.43.0


From 9c7bd3fa54c18e58ba243a1ff09b35b4dfcc4283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:50 +0000
Subject: [PATCH 094/113] fix: avtool: benchrtmp left its file open when it
 could not be read

---
 cmd/avtool/benchrtmp.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/avtool/benchrtmp.go b/cmd/avtool/benchrtmp.go
index 5b1e062..dc8b642 100644
--- a/cmd/avtool/benchrtmp.go
+++ b/cmd/avtool/benchrtmp.go
@@ -26,6 +26,7 @@ func doBenchRtmp(listenAddr, file string) (err error) {
 			var pkt av.Packet
 			if pkt, err = r.ReadPacket(); err != nil {
 				if err != io.EOF {
+					r.Close()
 					return
 				}
 				break
-- 
2.43.0


From 76db16162db99c670ddfe1093c31d208085aea1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:03 +0000
Subject: [PATCH 095/113] fix: report a refused publish or play with level
 "error"

The peer, including this package's own client, decides by the level of the
onStatus object whether its request was granted; a refusal was sent with
level "status" and so taken for success.
---
 format/rtmp/cmd.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/format/rtmp/cmd.go b/format/rtmp/cmd.go
index fdba509..506949e 100644
--- a/format/rtmp/cmd.go
+++ b/format/rtmp/cmd.go
@@ -78,7 +78,7 @@ func (c *Conn) writePublishOrPlayResult(ok bool, msg string) (err error) {
 			if err = c.writeCommand(5, c.avmsgsid,
 				"onStatus", c.lastcmd.transid, nil,
 				flvio.AMFMap{
-					{K: "level", V: "status"},
+					{K: "level", V: "error"},
 					{K: "code", V: "NetStream.Play.Failed"},
 					{K: "description", V: msg},
 				},
@@ -140,7 +140,7 @@ func (c *Conn) writePublishOrPlayResult(ok bool, msg string) (err error) {
 			if err = c.writeCommand(5, c.avmsgsid,
 				"onStatus", c.lastcmd.transid, nil,
 				flvio.AMFMap{
-					{K: "level", V: "status"},
+					{K: "level", V: "error"},
 					{K: "code", V: "NetStream.Publish.Failed"},
 					{K: "description", V: msg},
 				},
-- 
2.43.0


From 7dcc8522e7ad5cac62a95551de9c7d23e1711d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:12 +0000
Subject: [PATCH 096/113] fix: rtmp: HsServerParseC1 refuses a block that is
 not 1536 bytes instead of panicking

---
 format/rtmp/handshake.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/format/rtmp/handshake.go b/format/rtmp/handshake.go
index 0ccc9ae..a8f435e 100644
--- a/format/rtmp/handshake.go
+++ b/format/rtmp/handshake.go
@@ -139,6 +139,9 @@ func (c *Conn) handshakeClient() (err error) {
 }
 
 func HsServerParseC1(C1 []byte) (bool, []byte) {
+	if len(C1) != 1536 {
+		return false, nil
+	}
 	return hsParse1(C1, hsClientPartialKey, hsServerFullKey)
 }
 
-- 
2.43.0


From 7babcbca1e399323cdd3f27d802b04723998b036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:53 +0000
Subject: [PATCH 097/113] fix: rtsp: leave RTP header extensions and padding
 out of the payload

---
 format/rtsp/client.go | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/format/rtsp/client.go b/format/rtsp/client.go
index 727208c..4ba05ce 100644
--- a/format/rtsp/client.go
+++ b/format/rtsp/client.go
@@ -970,6 +970,31 @@ func (self *Stream) handleRtpPacket(packet []byte) (err error) {
 	timestamp := binary.BigEndian.Uint32(packet[4:8])
 	payload := packet[payloadOffset:]
 
+	if packet[0]&0x10 != 0 { // X: header extension
+		if len(payload) < 4 {
+			err = fmt.Errorf("rtp: packet too short")
+			return
+		}
+		n := 4 + int(binary.BigEndian.Uint16(payload[2:4]))*4
+		if n > len(payload) {
+			err = fmt.Errorf("rtp: packet too short")
+			return
+		}
+		payload = payload[n:]
+	}
+
+	if packet[0]&0x20 != 0 { // P: padding, its last byte counts it
+		n := 0
+		if len(payload) > 0 {
+			n = int(payload[len(payload)-1])
+		}
+		if n == 0 || n > len(payload) {
+			err = fmt.Errorf("rtp: padding invalid")
+			return
+		}
+		payload = payload[:len(payload)-n]
+	}
+
 	/*
 		PT 	Encoding Name 	Audio/Video (A/V) 	Clock Rate (Hz) 	Channels 	Reference
 		0	PCMU	A	8000	1	[RFC3551]
-- 
2.43.0


From 3c5cbe142dc94a71ff594f5e7f98de0ed7617d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:55 +0000
Subject: [PATCH 098/113] fix: rtsp: a stream whose first RTP timestamp is 0
 was dated from its second packet

---
 format/rtsp/client.go | 5 +++--
 format/rtsp/stream.go | 1 +
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/format/rtsp/client.go b/format/rtsp/client.go
index 4ba05ce..0338928 100644
--- a/format/rtsp/client.go
+++ b/format/rtsp/client.go
@@ -223,7 +223,7 @@ func (self *Client) parseBlockHeader(h []byte) (length int, no int, valid bool)
 		}
 
 		timestamp := binary.BigEndian.Uint32(h[8:12])
-		if stream.firsttimestamp != 0 {
+		if stream.gotfirst {
 			timestamp -= stream.firsttimestamp
 			if timestamp < stream.timestamp {
 				return
@@ -1134,7 +1134,8 @@ func (self *Client) handleBlock(block []byte) (pkt av.Packet, ok bool, err error
 			A receiver can then synchronize presentation of the audio and video packets by relating
 			their RTP timestamps using the timestamp pairs in RTCP SR packets.
 		*/
-		if stream.firsttimestamp == 0 {
+		if !stream.gotfirst {
+			stream.gotfirst = true
 			stream.firsttimestamp = stream.timestamp
 		}
 		stream.timestamp -= stream.firsttimestamp
diff --git a/format/rtsp/stream.go b/format/rtsp/stream.go
index 8444e1b..1bef83e 100644
--- a/format/rtsp/stream.go
+++ b/format/rtsp/stream.go
@@ -23,6 +23,7 @@ type Stream struct {
 	gotpkt         bool
 	pkt            av.Packet
 	timestamp      uint32
+	gotfirst       bool
 	firsttimestamp uint32
 
 	lasttime time.Duration
-- 
2.43.0


From 3be3bcdc690abe3865f146a7e1153e00c0dd0fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:56 +0000
Subject: [PATCH 099/113] fix: rtsp: a nonce with = in it was not used, and the
 password sent in the clear instead

---
 format/rtsp/client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/rtsp/client.go b/format/rtsp/client.go
index 0338928..53cb669 100644
--- a/format/rtsp/client.go
+++ b/format/rtsp/client.go
@@ -285,7 +285,7 @@ func (self *Client) handle401(res *Response) (err error) {
 	if len(hdrval) == 2 {
 		for _, field := range strings.Split(hdrval[1], ",") {
 			field = strings.Trim(field, ", ")
-			if keyval := strings.Split(field, "="); len(keyval) == 2 {
+			if keyval := strings.SplitN(field, "=", 2); len(keyval) == 2 {
 				key := keyval[0]
 				val := strings.Trim(keyval[1], `"`)
 				switch key {
-- 
2.43.0


From 68b33036a23ee1745c14c6c688e1b5e59bcb4dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:58 +0000
Subject: [PATCH 100/113] fix: rtsp: parameter sets that differ from the SDP
 counted as a codec change with every packet

---
 format/rtsp/client.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/format/rtsp/client.go b/format/rtsp/client.go
index 53cb669..d2d1998 100644
--- a/format/rtsp/client.go
+++ b/format/rtsp/client.go
@@ -702,9 +702,12 @@ func (self *Stream) makeCodec() (err error) {
 	if media.PayloadType >= 96 && media.PayloadType <= 127 {
 		switch media.Type {
 		case av.H264:
-			for _, nalu := range media.SpropParameterSets {
-				if len(nalu) > 0 {
-					self.handleH264Payload(0, nalu)
+			// the stream's own parameter sets take over from those of the SDP
+			if len(self.sps) == 0 || len(self.pps) == 0 {
+				for _, nalu := range media.SpropParameterSets {
+					if len(nalu) > 0 {
+						self.handleH264Payload(0, nalu)
+					}
 				}
 			}
 
-- 
2.43.0


From ae2f5896e58f1938b03cb3178fc2ce35464f9d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:51 +0000
Subject: [PATCH 101/113] fix: rtmp: the address of an IPv6 host without a port
 had two pairs of brackets, an empty port was kept

---
 format/rtmp/client.go | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/format/rtmp/client.go b/format/rtmp/client.go
index 0311b08..74b3d05 100644
--- a/format/rtmp/client.go
+++ b/format/rtmp/client.go
@@ -32,18 +32,16 @@ func (t *Client) FromNetConn(nc net.Conn, u *url.URL, flags int) (c *Conn, err e
 }
 
 func UrlGetHost(u *url.URL) string {
-	host := u.Host
-	defaultPort := ""
-	switch u.Scheme {
-	case "rtmp":
-		defaultPort = "1935"
-	case "rtmps":
-		defaultPort = "443"
-	}
-	if _, _, err := net.SplitHostPort(host); err != nil {
-		host = net.JoinHostPort(host, defaultPort)
+	port := u.Port()
+	if port == "" {
+		switch u.Scheme {
+		case "rtmp":
+			port = "1935"
+		case "rtmps":
+			port = "443"
+		}
 	}
-	return host
+	return net.JoinHostPort(u.Hostname(), port)
 }
 
 type Client struct {
-- 
2.43.0


From 035a33f078e4b2244058cfda1ae96aced8e0a857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:52 +0000
Subject: [PATCH 102/113] fix: rtmp: the tcUrl of a URL with a fragment or an
 empty query was wrong

---
 format/rtmp/url.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/format/rtmp/url.go b/format/rtmp/url.go
index 4513303..67ad7fc 100644
--- a/format/rtmp/url.go
+++ b/format/rtmp/url.go
@@ -29,6 +29,8 @@ func getTcURL(u *url.URL) string {
 	app, _ := splitPath(u)
 	nu := *u
 	nu.RawQuery = ""
+	nu.ForceQuery = false
+	nu.Fragment = ""
 	nu.Path = "/"
 	return nu.String() + app
 }
-- 
2.43.0


From 5a47b9cbd8bdb801c1908e44f2de167501317682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:54 +0000
Subject: [PATCH 103/113] fix: format: Open did not take rtmps, and opened a
 local file of that path instead

---
 format/format.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/format/format.go b/format/format.go
index 244cae6..872ba5e 100644
--- a/format/format.go
+++ b/format/format.go
@@ -214,7 +214,11 @@ func (o *URLOpener) Open(url_ string) (r *Reader, err error) {
 	}
 
 	switch u.Scheme {
-	case "rtmp":
+	case "rtmp", "rtmps":
+		if isServer && u.Scheme == "rtmps" {
+			err = ErrUnsupported(url_)
+			return
+		}
 		if isServer {
 			var c *rtmp.Conn
 			var nc net.Conn
-- 
2.43.0


From 8454d366f4e7abca9dbfb5d4460691decfa1462b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:55 +0000
Subject: [PATCH 104/113] fix: format: the body of an HTTP error was read as
 FLV

---
 format/format.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/format/format.go b/format/format.go
index 872ba5e..0ab42da 100644
--- a/format/format.go
+++ b/format/format.go
@@ -272,6 +272,11 @@ func (o *URLOpener) Open(url_ string) (r *Reader, err error) {
 			if hr, err = http.Get(url_); err != nil {
 				return
 			}
+			if hr.StatusCode != http.StatusOK {
+				hr.Body.Close()
+				err = fmt.Errorf("open `%s` failed: %s", url_, hr.Status)
+				return
+			}
 			c := flv.NewDemuxer(hr.Body)
 			if fn := o.OnNewFlvDemuxer; fn != nil {
 				fn(c)
-- 
2.43.0


From 812e3578f4f2edbd0b5a426bf10f58ad740d1772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:44 +0000
Subject: [PATCH 105/113] fix: rtmp: Server.HandshakeTimeout had no effect

---
 format/rtmp/server.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/format/rtmp/server.go b/format/rtmp/server.go
index 981a6c1..7f36a16 100644
--- a/format/rtmp/server.go
+++ b/format/rtmp/server.go
@@ -62,7 +62,11 @@ func (s *Server) HandleNetConn(nc net.Conn) {
 		fn(c, nc, EventConnConnected)
 	}
 
-	nc.SetDeadline(time.Now().Add(time.Second * 15))
+	timeout := s.HandshakeTimeout
+	if timeout <= 0 {
+		timeout = time.Second * 15
+	}
+	nc.SetDeadline(time.Now().Add(timeout))
 	if err := c.Prepare(StageGotPublishOrPlayCommand, 0); err != nil {
 		if fn := s.LogEvent; fn != nil {
 			fn(c, nc, EventHandshakeFailed)
-- 
2.43.0


From 186a307f8ca9b8363fd2ff9e1bdc99de1b2f831e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:44 +0000
Subject: [PATCH 106/113] fix: avtool: a publisher whose fwd was not an RTMP
 URL crashed the forwarding server and wrote a file there

---
 cmd/avtool/forwardrtmp.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cmd/avtool/forwardrtmp.go b/cmd/avtool/forwardrtmp.go
index f0bdb28..ca0eabc 100644
--- a/cmd/avtool/forwardrtmp.go
+++ b/cmd/avtool/forwardrtmp.go
@@ -3,6 +3,7 @@ package main
 import (
 	"log"
 	"net"
+	"net/url"
 	"time"
 	"unsafe"
 
@@ -45,6 +46,12 @@ func doForwardRtmp(listenAddr string) (err error) {
 		fo := newFormatOpener()
 
 		var err error
+		var u *url.URL
+		if u, err = url.Parse(fwd); err != nil || u.Scheme != "rtmp" && u.Scheme != "rtmps" {
+			log.Println(unsafe.Pointer(c), nc.LocalAddr(), nc.RemoteAddr(), "ForwardFieldNotRtmp")
+			return
+		}
+
 		var w *format.Writer
 		if w, err = fo.Create(fwd, nil); err != nil {
 			log.Println(unsafe.Pointer(c), nc.LocalAddr(), nc.RemoteAddr(), "DialFailed")
-- 
2.43.0


From fb91180bc11843661887f2f3a9e11543db78ac8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:46 +0000
Subject: [PATCH 107/113] fix: avtool: the end of the file was reported as an
 error

---
 cmd/avtool/avcc2annexb.go | 4 ++++
 cmd/avtool/seqhdr.go      | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/cmd/avtool/avcc2annexb.go b/cmd/avtool/avcc2annexb.go
index 5796989..953f657 100644
--- a/cmd/avtool/avcc2annexb.go
+++ b/cmd/avtool/avcc2annexb.go
@@ -1,6 +1,7 @@
 package main
 
 import (
+	"io"
 	"os"
 
 	"github.com/nareix/joy5/av"
@@ -27,6 +28,9 @@ func doAvcc2Annexb(src, dst string) error {
 
 	for {
 		pkt, err := r.ReadPacket()
+		if err == io.EOF {
+			return nil
+		}
 		if err != nil {
 			return err
 		}
diff --git a/cmd/avtool/seqhdr.go b/cmd/avtool/seqhdr.go
index 6b0b3f9..b52a168 100644
--- a/cmd/avtool/seqhdr.go
+++ b/cmd/avtool/seqhdr.go
@@ -1,6 +1,7 @@
 package main
 
 import (
+	"io"
 	"os"
 
 	"github.com/nareix/joy5/av"
@@ -29,6 +30,9 @@ func doMoveH264SeqhdrToKeyFrame(src, dst string) error {
 
 	for {
 		pkt, err := r.ReadPacket()
+		if err == io.EOF {
+			return nil
+		}
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From a09b0d97cde7a6daf6571a51faabe0a2d7e3a302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:47 +0000
Subject: [PATCH 108/113] fix: avtool: a key frame before the first sequence
 header was a nil dereference

---
 cmd/avtool/seqhdr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/avtool/seqhdr.go b/cmd/avtool/seqhdr.go
index b52a168..9005ed6 100644
--- a/cmd/avtool/seqhdr.go
+++ b/cmd/avtool/seqhdr.go
@@ -47,7 +47,7 @@ func doMoveH264SeqhdrToKeyFrame(src, dst string) error {
 			continue // skip seqhdr
 
 		case av.H264:
-			if pkt.IsKeyFrame {
+			if pkt.IsKeyFrame && h264seqhdr != nil {
 				pktnalus, _ := h264.SplitNALUs(pkt.Data)
 				nalus := [][]byte{}
 				for _, b := range h264.Map2arr(h264seqhdr.SPS) {
-- 
2.43.0


From 025027f8907400fb55abc75e15c45fdb852118d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:00 +0000
Subject: [PATCH 109/113] fix: rtsp: the body of a refused DESCRIBE was taken
 for a description

---
 format/rtsp/client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/rtsp/client.go b/format/rtsp/client.go
index d2d1998..27507bc 100644
--- a/format/rtsp/client.go
+++ b/format/rtsp/client.go
@@ -594,7 +594,7 @@ func (self *Client) Describe() (err error) {
 			break
 		}
 	}
-	if res.ContentLength == 0 {
+	if res.StatusCode != 200 || res.ContentLength == 0 {
 		err = fmt.Errorf("rtsp: Describe failed, StatusCode=%d", res.StatusCode)
 		return
 	}
-- 
2.43.0


From f4f883c9d1d613acf8b16c2e6e6d61bfc65036a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:12 +0000
Subject: [PATCH 110/113] fix: sdp: the attributes of other medias went to the
 audio or video before them

---
 format/rtsp/sdp/parser.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/format/rtsp/sdp/parser.go b/format/rtsp/sdp/parser.go
index 5279e82..dc354fd 100644
--- a/format/rtsp/sdp/parser.go
+++ b/format/rtsp/sdp/parser.go
@@ -38,6 +38,7 @@ func Parse(content string) (sess Session, medias []Media) {
 
 			switch typeval[0] {
 			case "m":
+				media = nil
 				if len(fields) > 1 {
 					switch fields[0] {
 					case "audio", "video":
-- 
2.43.0


From 2391085ad56a8eb6ede890e7f7b6216a2d37d4bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:13 +0000
Subject: [PATCH 111/113] fix: sdp: a / in any attribute set the clock rate

---
 format/rtsp/sdp/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/rtsp/sdp/parser.go b/format/rtsp/sdp/parser.go
index dc354fd..78490f5 100644
--- a/format/rtsp/sdp/parser.go
+++ b/format/rtsp/sdp/parser.go
@@ -69,7 +69,7 @@ func Parse(content string) (sess Session, medias []Media) {
 							}
 						}
 						keyval = strings.Split(field, "/")
-						if len(keyval) >= 2 {
+						if len(keyval) >= 2 && strings.HasPrefix(fields[0], "rtpmap:") {
 							key := keyval[0]
 							switch strings.ToUpper(key) {
 							case "MPEG4-GENERIC":
-- 
2.43.0


From cfab8a2e785a9bd1704b937e7a5230380ae89b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:15 +0000
Subject: [PATCH 112/113] fix: sdp: a single parameter was ignored

---
 format/rtsp/sdp/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/rtsp/sdp/parser.go b/format/rtsp/sdp/parser.go
index 78490f5..93e7871 100644
--- a/format/rtsp/sdp/parser.go
+++ b/format/rtsp/sdp/parser.go
@@ -85,7 +85,7 @@ func Parse(content string) (sess Session, medias []Media) {
 							}
 						}
 						keyval = strings.Split(field, ";")
-						if len(keyval) > 1 {
+						if len(keyval) > 0 {
 							for _, field := range keyval {
 								keyval := strings.SplitN(field, "=", 2)
 								if len(keyval) == 2 {
-- 
2.43.0


From b89dc743c20cbd9dc11f6701eddca8fc9f8065ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:07 +0000
Subject: [PATCH 113/113] fix: rtmp: Prepare did not return when asked for a
 stage there is not

---
 format/rtmp/cmd.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/format/rtmp/cmd.go b/format/rtmp/cmd.go
index 506949e..2514b5c 100644
--- a/format/rtmp/cmd.go
+++ b/format/rtmp/cmd.go
@@ -584,6 +584,10 @@ func (c *Conn) Prepare(stage Stage, flags int) (err error) {
 				return
 			}
 			c.debugStage(flags, false)
+
+		default:
+			err = fmt.Errorf("rtmp: no stage %d after %d", stage, c.Stage)
+			return
 		}
 	}
 
-- 
2.43.0

