From 559f0ef10d021387abf144461f6acdf75a473200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:10 +0000
Subject: [PATCH 01/25] fix: do not write the window from a slice that aliases
 it

---
 reader.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/reader.go b/reader.go
index 52b638c..1d3c3ee 100644
--- a/reader.go
+++ b/reader.go
@@ -853,6 +853,11 @@ func (fr *Reader) decodeHuffmanBlock(blockType BlockType, isFinal bool) bool {
 			fr.corruptf("distance %d > window.Size %d", distance, fr.window.Size())
 			return false
 		}
+
+		// p aliases the window, which decodeBufferWrite is about to modify.
+		var copied [258]byte
+		p = copied[:copy(copied[:], p)]
+
 		fr.decodeBufferWrite(p)
 		length -= uint(len(p))
 
-- 
2.43.0


From 062335b853656539303b748641795cc593129975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:12 +0000
Subject: [PATCH 02/25] fix: decode every concatenated stream even when the
 input is already buffered

---
 reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reader.go b/reader.go
index 1d3c3ee..0edf5fb 100644
--- a/reader.go
+++ b/reader.go
@@ -328,7 +328,7 @@ func (fr *Reader) readThread() {
 	fr.mu1.Lock()
 
 	fr.numStreams = 0
-	for fr.inputError == nil {
+	for !fr.outputErrorWasSet {
 		if !fr.readHeader() {
 			break
 		}
-- 
2.43.0


From 90bc084eb9b79bcdb02d5d52200b6fde27b69857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:15 +0000
Subject: [PATCH 03/25] fix: stop decoding a stream once its data was found to
 be malformed

---
 reader.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/reader.go b/reader.go
index 0edf5fb..6b8d8bd 100644
--- a/reader.go
+++ b/reader.go
@@ -342,6 +342,10 @@ func (fr *Reader) readThread() {
 
 		fr.decodeBufferMustFlush()
 
+		if fr.outputErrorWasSet {
+			break
+		}
+
 		if !fr.readFooter() {
 			break
 		}
-- 
2.43.0


From 87f7fa1bdaa889b4464d13a89dddadffb520288d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:17 +0000
Subject: [PATCH 04/25] fix: report truncation and read errors inside a Huffman
 code as such

---
 reader.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/reader.go b/reader.go
index 6b8d8bd..822974d 100644
--- a/reader.go
+++ b/reader.go
@@ -1135,6 +1135,7 @@ func (fr *Reader) readSymbol(hdec *huffman.Decoder) (symbol huffman.Symbol, ok b
 	numBits := min
 	for numBits <= max {
 		if ok := fr.inputBitsFill(numBits); !ok {
+			fr.propagateError(true)
 			return huffman.InvalidSymbol, false
 		}
 
-- 
2.43.0


From d51063cfa1afb2b4827f835c38eef7269406f565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:20 +0000
Subject: [PATCH 05/25] fix: do not panic when an extra-data record is longer
 than the field

---
 header.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/header.go b/header.go
index cc12f7b..17d51a3 100644
--- a/header.go
+++ b/header.go
@@ -41,6 +41,9 @@ func (xd *ExtraData) Parse(raw []byte) {
 		rec.ID[1] = raw[index+1]
 		recLen := uint(binary.LittleEndian.Uint16(raw[index+2 : index+4]))
 		index += 4
+		if recLen > (length - index) {
+			recLen = (length - index)
+		}
 		rec.Bytes = raw[index : index+recLen]
 		index += recLen
 		xd.Records = append(xd.Records, rec)
-- 
2.43.0


From 3953dae074692511cd942c76a7566995fca80e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:22 +0000
Subject: [PATCH 06/25] fix: hand over all decoded data before publishing an
 error

---
 reader.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/reader.go b/reader.go
index 822974d..ca59292 100644
--- a/reader.go
+++ b/reader.go
@@ -1384,6 +1384,12 @@ func (fr *Reader) closeWithError(err error) {
 		return
 	}
 
+	fr.decodeBufferMustFlush()
+
+	if fr.outputErrorWasSet {
+		return
+	}
+
 	fr.mu2.Lock()
 	fr.outputError = err
 	fr.cv1.Broadcast()
-- 
2.43.0


From a2ac356f65d31c0cc859204db1e7e467856ebb21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:25 +0000
Subject: [PATCH 07/25] fix: deliver the part of a stored block that precedes a
 read error

---
 reader.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/reader.go b/reader.go
index ca59292..de5ac99 100644
--- a/reader.go
+++ b/reader.go
@@ -780,6 +780,7 @@ func (fr *Reader) readFlateBlockStored() bool {
 
 	p, ok := fr.inputBufferRead(make([]byte, len0))
 	if !ok {
+		fr.decodeBufferWrite(p)
 		fr.propagateError(true)
 		return false
 	}
-- 
2.43.0


From af29cbeec694eba114ab19bcb2ebb573ca654054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:27 +0000
Subject: [PATCH 08/25] fix: stop after an out-of-range HLIT or HDIST

---
 reader.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/reader.go b/reader.go
index de5ac99..f9afda4 100644
--- a/reader.go
+++ b/reader.go
@@ -986,9 +986,11 @@ func (fr *Reader) readDynamicTrees(isFinal bool) bool {
 
 	if numLL > logicalNumLLCodes {
 		fr.corruptf("HLIT %d > %d", numLL, logicalNumLLCodes)
+		return false
 	}
 	if numD > logicalNumDCodes {
 		fr.corruptf("HDIST %d > %d", numD, logicalNumDCodes)
+		return false
 	}
 
 	const numCodes = 19
-- 
2.43.0


From e25a0f9df606373310ce62476bcd42904c7867dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:29 +0000
Subject: [PATCH 09/25] fix: reject distances that reach before the start of
 the data

---
 reader.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/reader.go b/reader.go
index f9afda4..feefb18 100644
--- a/reader.go
+++ b/reader.go
@@ -53,6 +53,7 @@ type Reader struct {
 	inputBuffer          buffer.Buffer
 	decodeBuffer         buffer.Buffer
 	window               buffer.Window
+	windowBytes          uint64
 	inputBytesTotal      uint64
 	inputBytesStream     uint64
 	outputBytesTotal     uint64
@@ -376,8 +377,10 @@ func (fr *Reader) readHeader() bool {
 	fr.numStreams++
 
 	fr.window.Clear()
+	fr.windowBytes = 0
 	if fr.dict != nil {
 		_, _ = fr.window.Write(fr.dict)
+		fr.windowBytes = uint64(len(fr.dict))
 	}
 
 	fr.actualFormat = DefaultFormat
@@ -853,6 +856,11 @@ func (fr *Reader) decodeHuffmanBlock(blockType BlockType, isFinal bool) bool {
 		length := uint(t.literalOrLength)
 		distance := uint(t.distance)
 
+		if uint64(distance) > fr.windowBytes {
+			fr.corruptf("distance %d > %d bytes available", distance, fr.windowBytes)
+			return false
+		}
+
 		p, err := fr.window.LookupSlice(distance, length)
 		if err != nil {
 			fr.corruptf("distance %d > window.Size %d", distance, fr.window.Size())
@@ -1298,6 +1306,7 @@ func (fr *Reader) decodeBufferWrite(p []byte) bool {
 		fr.decodeBufferTryFlush()
 		nn, _ := fr.decodeBuffer.Write(p)
 		_, _ = fr.window.Write(p[:nn])
+		fr.windowBytes += uint64(nn)
 		p = p[nn:]
 		length -= uint(nn)
 	}
@@ -1309,6 +1318,7 @@ func (fr *Reader) decodeBufferWriteByte(ch byte) bool {
 	err := fr.decodeBuffer.WriteByte(ch)
 	if err == nil {
 		_ = fr.window.WriteByte(ch)
+		fr.windowBytes++
 	}
 	return (err == nil)
 }
-- 
2.43.0


From 8c3d1b4ce8773717de76d3e06a49f0665b8f1be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:31 +0000
Subject: [PATCH 10/25] fix: an all-zero preset dictionary is a dictionary

---
 reader.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reader.go b/reader.go
index feefb18..65954a2 100644
--- a/reader.go
+++ b/reader.go
@@ -521,7 +521,7 @@ func (fr *Reader) readHeaderZlib() bool {
 			return false
 		}
 
-		if fr.window.IsZero() {
+		if fr.dict == nil {
 			fr.corruptf("zlib stream was compressed with a pre-set dictionary -- Adler-32 checksum of the dictionary required to decompress this stream is %#08x", expectedAdler32)
 			return false
 		}
@@ -532,7 +532,7 @@ func (fr *Reader) readHeaderZlib() bool {
 			return false
 		}
 	} else {
-		if !fr.window.IsZero() {
+		if fr.dict != nil {
 			computedAdler32 := adler32.Checksum(fr.dict)
 			fr.corruptf("zlib stream was not compressed with a pre-set dictionary -- Adler-32 checksum of the supplied dictionary is %#08x", computedAdler32)
 			return false
-- 
2.43.0


From 727abdb01e46f55207332f7a5f212f2e5b7d7d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:33 +0000
Subject: [PATCH 11/25] fix: Reader.Reset discards pending input bits

---
 reader.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/reader.go b/reader.go
index 65954a2..fa3b3b8 100644
--- a/reader.go
+++ b/reader.go
@@ -212,6 +212,7 @@ func (fr *Reader) Reset(r io.Reader, opts ...Option) {
 	fr.outputErrorWasSet = false
 	fr.stopIsForced = false
 
+	fr.inputBitsDiscard()
 	fr.inputBuffer.Clear()
 	fr.decodeBuffer.Clear()
 	fr.window.Clear()
-- 
2.43.0


From 4848a0e54eb3d0aea8edffc25ffec07c33fdc3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:35 +0000
Subject: [PATCH 12/25] fix: Reader.Reset does not deadlock in the middle of a
 stream

---
 reader.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reader.go b/reader.go
index fa3b3b8..5cf5933 100644
--- a/reader.go
+++ b/reader.go
@@ -200,11 +200,11 @@ func (fr *Reader) Reset(r io.Reader, opts ...Option) {
 	fr.mu1.Lock()
 	defer fr.mu1.Unlock()
 
+	fr.stopReadThreadLocked()
+
 	fr.mu2.Lock()
 	defer fr.mu2.Unlock()
 
-	fr.stopReadThreadLocked()
-
 	fr.r = r
 	fr.inputError = nil
 	fr.readThreadWasStarted = false
-- 
2.43.0


From c3c74858c1a729d9c49e8e82e1eb0697cd7acf97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:37 +0000
Subject: [PATCH 13/25] fix: auto-detect the format even when one byte of the
 stream is buffered

---
 reader.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/reader.go b/reader.go
index 5cf5933..5c0420b 100644
--- a/reader.go
+++ b/reader.go
@@ -458,6 +458,10 @@ func (fr *Reader) readFooter() bool {
 }
 
 func (fr *Reader) readHeaderAuto() bool {
+	if fr.inputBuffer.Len() < 2 {
+		fr.inputBufferFill()
+	}
+
 	p := fr.inputBuffer.PrepareBulkRead(2)
 	if len(p) < 2 {
 		return fr.readHeaderRaw()
-- 
2.43.0


From 1198413f98e91c21e00e5afd3ea33ec54e769177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:39 +0000
Subject: [PATCH 14/25] fix: split stored data that is too long for one block

---
 writer.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/writer.go b/writer.go
index c268002..175e334 100644
--- a/writer.go
+++ b/writer.go
@@ -1010,6 +1010,12 @@ func compressTokens(bw bitwriter, data []byte, tokens []token, isFinal bool) boo
 
 	storedLength := (uint64(len(data)) << 3) + 35
 	if storedLength < dynamicCounter.length() {
+		for len(data) > math.MaxUint16 {
+			if !writeStoredBlock(bw, data[:math.MaxUint16], false) {
+				return false
+			}
+			data = data[math.MaxUint16:]
+		}
 		return writeStoredBlock(bw, data, isFinal)
 	}
 	if staticCounter.length() <= dynamicCounter.length() {
-- 
2.43.0


From c13fb7d92af88db7f913945e7c4351a485e2ae69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:42 +0000
Subject: [PATCH 15/25] fix: limit Huffman code lengths to what DEFLATE can
 represent

---
 huffman.go | 13 +++++++++++++
 writer.go  |  3 +++
 2 files changed, 16 insertions(+)

diff --git a/huffman.go b/huffman.go
index e920bc7..5294e8c 100644
--- a/huffman.go
+++ b/huffman.go
@@ -67,6 +67,19 @@ func getFixedHuffEncoders() (*huffman.Encoder, *huffman.Encoder) {
 	return &gFixedHuffmanEncoderLL, &gFixedHuffmanEncoderD
 }
 
+// limitCodeSize flattens the given symbol frequencies and rebuilds the code
+// until no symbol needs more than maxSize bits.
+func limitCodeSize(henc *huffman.Encoder, freq []uint32, maxSize byte) {
+	for henc.MaxSize() > maxSize {
+		for symbol, count := range freq {
+			if count > 1 {
+				freq[symbol] = (count >> 1) | 1
+			}
+		}
+		henc.Init(len(freq), freq)
+	}
+}
+
 // SizeList represents a list of symbol sizes in a Canonical Huffman Code.
 type SizeList []byte
 
diff --git a/writer.go b/writer.go
index 175e334..12eecd2 100644
--- a/writer.go
+++ b/writer.go
@@ -998,9 +998,11 @@ func compressTokens(bw bitwriter, data []byte, tokens []token, isFinal bool) boo
 
 	var hLL huffman.Encoder
 	hLL.Init(physicalNumLLCodes, freqLL)
+	limitCodeSize(&hLL, freqLL, 15)
 
 	var hD huffman.Encoder
 	hD.Init(physicalNumDCodes, freqD)
+	limitCodeSize(&hD, freqD, 15)
 
 	var dynamicCounter bitcounter
 	writeDynamicBlock(&dynamicCounter, &hLL, &hD, tokens, isFinal)
@@ -1163,6 +1165,7 @@ func writeDynamicBlock(bw bitwriter, hLL *huffman.Encoder, hD *huffman.Encoder,
 
 	var hX huffman.Encoder
 	hX.Init(physicalNumXCodes, freqX)
+	limitCodeSize(&hX, freqX, 7)
 
 	sX := hX.SizeBySymbol()
 	numX := uint(physicalNumXCodes)
-- 
2.43.0


From 9e160bf6284ef9af0d5b92fe62741f4e159d5bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:44 +0000
Subject: [PATCH 16/25] fix: Writer.Reset discards pending output bits

---
 writer.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/writer.go b/writer.go
index 12eecd2..ec20b5d 100644
--- a/writer.go
+++ b/writer.go
@@ -240,6 +240,8 @@ func (fw *Writer) Reset(w io.Writer, opts ...Option) {
 
 	fw.hybrid.Clear()
 	fw.output.Clear()
+	fw.obLen = 0
+	fw.obBlock = 0
 
 	if len(opts) == 0 {
 		return
-- 
2.43.0


From 9f41fe578f8df8257becf63a78df1cc3224babcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:46 +0000
Subject: [PATCH 17/25] fix: PartialFlush writes out all bytes that precede the
 empty block

---
 writer.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/writer.go b/writer.go
index ec20b5d..62c4cc9 100644
--- a/writer.go
+++ b/writer.go
@@ -531,6 +531,9 @@ func (fw *Writer) flushGuts(flushType FlushType) bool {
 		if !writeStaticBlock(fw, tokens, false) {
 			return false
 		}
+		if !fw.outputBitsFlushWholeBytes() {
+			return false
+		}
 
 	case SyncFlush:
 		if !writeStoredBlock(fw, nil, false) {
@@ -914,6 +917,23 @@ func (fw *Writer) outputBitsFlush() bool {
 	return fw.outputBufferWrite(tmp[:n])
 }
 
+// outputBitsFlushWholeBytes is like outputBitsFlush, but retains the bits
+// which do not fill a byte instead of padding them.
+func (fw *Writer) outputBitsFlushWholeBytes() bool {
+	wholeLen := fw.obLen &^ (bitsPerByte - 1)
+	restLen := fw.obLen - wholeLen
+	restBlock := (fw.obBlock >> wholeLen) & makeMask(restLen)
+
+	fw.obLen = wholeLen
+	if !fw.outputBitsFlush() {
+		return false
+	}
+
+	fw.obLen = restLen
+	fw.obBlock = restBlock
+	return true
+}
+
 func (fw *Writer) sendEvent(event Event) {
 	event.InputBytesTotal = fw.inputBytesTotal
 	event.InputBytesStream = fw.inputBytesStream
-- 
2.43.0


From 2a5e1ec8facffb4af25e54cefc2e9c962a09d76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:48 +0000
Subject: [PATCH 18/25] fix: honour FixedStrategy

---
 writer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/writer.go b/writer.go
index 62c4cc9..0ee48f8 100644
--- a/writer.go
+++ b/writer.go
@@ -1012,6 +1012,9 @@ func compressSlow(fw *Writer, consumeAll bool, good, lazy, nice, chain uint) boo
 
 	data := bb.Bytes()
 	*tokens = append(*tokens, makeStopToken())
+	if fw.strategy == FixedStrategy {
+		return writeStaticBlock(fw, *tokens, false)
+	}
 	return compressTokens(fw, data, *tokens, false)
 }
 
-- 
2.43.0


From f92452aea163916d8df776c85d70e4c63b510aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:51 +0000
Subject: [PATCH 19/25] fix: detect the data type of every stream anew

---
 writer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/writer.go b/writer.go
index 0ee48f8..065d7cd 100644
--- a/writer.go
+++ b/writer.go
@@ -570,6 +570,10 @@ func (fw *Writer) writeHeader() bool {
 		Type: StreamBeginEvent,
 	})
 
+	// Whatever is filled in below applies to this stream only.
+	original := fw.header
+	defer func() { fw.header = original }()
+
 	if fw.header.DataType == UnknownData {
 		fw.header.DataType = BinaryData
 		if buf := fw.hybrid.PrepareBulkRead(4096); isText(buf) {
-- 
2.43.0


From 91b8e73aa5680e4af888a63eae21f76858244d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:16 +0000
Subject: [PATCH 20/25] fix: report a read error that interrupts format
 detection

---
 reader.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/reader.go b/reader.go
index 5c0420b..61fde70 100644
--- a/reader.go
+++ b/reader.go
@@ -464,6 +464,10 @@ func (fr *Reader) readHeaderAuto() bool {
 
 	p := fr.inputBuffer.PrepareBulkRead(2)
 	if len(p) < 2 {
+		if fr.inputError != nil && fr.inputError != io.EOF {
+			fr.propagateError(false)
+			return false
+		}
 		return fr.readHeaderRaw()
 	}
 
-- 
2.43.0


From 8da9ee26ce1e4b444272a836034872ee1a3236e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:30 +0000
Subject: [PATCH 21/25] fix: accept the last second that fits a gzip time stamp

---
 writer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/writer.go b/writer.go
index 065d7cd..edb413e 100644
--- a/writer.go
+++ b/writer.go
@@ -337,7 +337,7 @@ func checkHeaderComment(header Header, errlist []error) []error {
 func checkHeaderLastModified(header Header, errlist []error) []error {
 	if !header.LastModified.IsZero() {
 		s64 := header.LastModified.Unix()
-		if s64 < 0 || (s64 >= 0 && uint64(s64) >= uint64(math.MaxUint32)) {
+		if s64 < 0 || s64 > math.MaxUint32 {
 			errlist = append(errlist, errors.New("Header.LastModified is out of range for unsigned 32-bit time_t"))
 		}
 	}
-- 
2.43.0


From bacda8e6bc56239c6d0679d289cb11468ca62f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:44 +0000
Subject: [PATCH 22/25] fix: Do not hold the Reader's lock while waiting for
 input

The background thread kept mu1 for as long as the input yielded no output,
so that Close and Reset could not interrupt endless input made of empty
streams or blocks, and neither Read nor the accessors returned while the
underlying reader blocked.
---
 reader.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/reader.go b/reader.go
index 61fde70..22511cc 100644
--- a/reader.go
+++ b/reader.go
@@ -1185,7 +1185,10 @@ func (fr *Reader) inputBufferFill() {
 		return
 	}
 
-	_, err := fr.inputBuffer.ReadFrom(fr.r)
+	r := fr.r
+	fr.mu1.Unlock()
+	_, err := fr.inputBuffer.ReadFrom(r)
+	fr.mu1.Lock()
 	fr.inputError = err
 }
 
-- 
2.43.0


From eb773cc2fd2e75083c764ed4c3a13f0f3b3fa283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:32 +0000
Subject: [PATCH 23/25] fix: hold the lock in Reader.UnderlyingReader

Every other accessor does; without it, the field was read while a
concurrent Reset wrote it.
---
 reader.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/reader.go b/reader.go
index 22511cc..70c7c46 100644
--- a/reader.go
+++ b/reader.go
@@ -186,7 +186,10 @@ func (fr *Reader) Tracers() []Tracer {
 
 // UnderlyingReader returns the io.Reader which this Reader uses.
 func (fr *Reader) UnderlyingReader() io.Reader {
-	return fr.r
+	fr.mu1.Lock()
+	r := fr.r
+	fr.mu1.Unlock()
+	return r
 }
 
 // Reset re-initializes this Reader with the given io.Reader and options.  Any
-- 
2.43.0


From 4a8733b6d0f11344849e7d1913e9327faec7287e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:10 +0000
Subject: [PATCH 24/25] fix: do not write on after an error in the gzip trailer

---
 writer.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/writer.go b/writer.go
index edb413e..dce19cb 100644
--- a/writer.go
+++ b/writer.go
@@ -793,9 +793,8 @@ func writeHeaderGZIPComment(header Header) (byte, func(*Writer) bool) {
 }
 
 func (fw *Writer) writeFooterGZIP(c32 uint32) bool {
-	ok1 := fw.outputBufferWriteU32(binary.LittleEndian, c32)
-	ok2 := fw.outputBufferWriteU32(binary.LittleEndian, uint32(fw.inputBytesStream))
-	return ok1 && ok2
+	return fw.outputBufferWriteU32(binary.LittleEndian, c32) &&
+		fw.outputBufferWriteU32(binary.LittleEndian, uint32(fw.inputBytesStream))
 }
 
 func (fw *Writer) inputBufferRead(buf []byte) []byte {
-- 
2.43.0


From a39e7849cce6ad5d20afc39027b25f46a584115e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:05 +0000
Subject: [PATCH 25/25] fix: refuse file operands of gzip -c instead of reading
 standard input

---
 cmd/gzip/main.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/gzip/main.go b/cmd/gzip/main.go
index 2b32ef7..9818552 100644
--- a/cmd/gzip/main.go
+++ b/cmd/gzip/main.go
@@ -196,7 +196,8 @@ func main() {
 		defer pprof.StopCPUProfile()
 	}
 
-	if flagStdout {
+	fromStdin := getopt.NArgs() == 0 || (getopt.NArgs() == 1 && getopt.Arg(0) == "-")
+	if flagStdout && fromStdin {
 		doCompressOrDecompress(os.Stdout, os.Stdin, dict)
 	} else {
 		log.Logger.Fatal().
-- 
2.43.0

