# More refactorings: the places the first two files leave alone.
from refs import ref

# Fewer, larger writes to the underlying Writer: gzip header, trailer and stored blocks put together first.
ref("writer-direct", [
 ("writer.go", '''	ok := true
	ok = ok && fw.outputBufferWrite(header[:])
	ok = ok && func1(fw)
	ok = ok && func2(fw)
	ok = ok && func3(fw)

	c32 := fw.outputBytesCRC32.Sum32()

	ok = ok && fw.outputBufferWriteU16(binary.LittleEndian, uint16(c32))
	return ok
''', '''	all := append([]byte(nil), header[:]...)
	all = append(all, part1...)
	all = append(all, part2...)
	all = append(all, part3...)
	c32 := crc32.Update(0, all)
	all = append(all, byte(c32), byte(c32>>8))
	return fw.outputBufferWrite(all)
'''),
 ("writer.go", "	bits1, func1 :=", "	bits1, part1 :="),
 ("writer.go", "	bits2, func2 :=", "	bits2, part2 :="),
 ("writer.go", "	bits3, func3 :=", "	bits3, part3 :="),
 ("writer.go", "func writeHeaderGZIPExtraData(header Header) (byte, func(*Writer) bool) {", "func writeHeaderGZIPExtraData(header Header) (byte, []byte) {"),
 ("writer.go", "func writeHeaderGZIPFileName(header Header) (byte, func(*Writer) bool) {", "func writeHeaderGZIPFileName(header Header) (byte, []byte) {"),
 ("writer.go", "func writeHeaderGZIPComment(header Header) (byte, func(*Writer) bool) {", "func writeHeaderGZIPComment(header Header) (byte, []byte) {"),
 ("writer.go", "		return 0x00, func(*Writer) bool { return true }\n", "		return 0x00, nil\n"),
 ("writer.go", "		return 0x00, func(*Writer) bool { return true }\n", "		return 0x00, nil\n"),
 ("writer.go", "		return 0x00, func(*Writer) bool { return true }\n", "		return 0x00, nil\n"),
 ("writer.go", '''	return 0x04, func(fw *Writer) bool {
		xdata := fw.header.ExtraData.AsBytes()
		xlen := uint16(len(xdata))
		ok := fw.outputBufferWriteU16(binary.LittleEndian, xlen)
		ok = ok && fw.outputBufferWrite(xdata)
		return ok
	}
''', '''	xdata := header.ExtraData.AsBytes()
	return 0x04, append([]byte{byte(len(xdata)), byte(len(xdata) >> 8)}, xdata...)
'''),
 ("writer.go", '''	return 0x08, func(fw *Writer) bool {
		return fw.outputBufferWriteStringZ(header.FileName)
	}
''', '''	return 0x08, append([]byte(header.FileName), 0)
'''),
 ("writer.go", '''	return 0x10, func(fw *Writer) bool {
		return fw.outputBufferWriteStringZ(header.Comment)
	}
''', '''	return 0x10, append([]byte(header.Comment), 0)
'''),
 ("writer.go", '''	return fw.outputBufferWriteU32(binary.LittleEndian, c32) &&
		fw.outputBufferWriteU32(binary.LittleEndian, uint32(fw.inputBytesStream))
''', '''	var tail [8]byte
	binary.LittleEndian.PutUint32(tail[0:4], c32)
	binary.LittleEndian.PutUint32(tail[4:8], uint32(fw.inputBytesStream))
	return fw.outputBufferWrite(tail[:])
'''),
 ("writer.go", '''	if !bw.outputBufferWriteU16(binary.LittleEndian, u16) {
		return false
	}
	if !bw.outputBufferWriteU16(binary.LittleEndian, ^u16) {
		return false
	}
	if !bw.outputBufferWrite(data) {
		return false
	}
''', '''	whole := make([]byte, 4, 4+len(data))
	binary.LittleEndian.PutUint16(whole[0:2], u16)
	binary.LittleEndian.PutUint16(whole[2:4], ^u16)
	if !bw.outputBufferWrite(append(whole, data...)) {
		return false
	}
'''),
 ("writer.go", '''func (fw *Writer) outputBufferWriteStringZ(str string) bool {
	strLen := len(str)
	last := strLen - 1
	index := strings.IndexByte(str, 0)
	var tmp []byte
	if index < 0 {
		tmp = make([]byte, strLen+1)
		copy(tmp, str)
		tmp[strLen] = 0
	} else if index == last {
		tmp = make([]byte, strLen)
		copy(tmp, str)
		tmp[last] = 0
	} else {
		assert.Raisef("string %q contains embedded ASCII NUL byte", str)
	}
	return fw.outputBufferWrite(tmp)
}

''', ''),
])

# No ring buffer between the Writer and the underlying Writer.
ref("writer-unbuffered", [
 ("writer.go", '''	length := uint(len(buf))
	i := uint(0)
	for i < length {
		nn, _ := fw.output.Write(buf[i:])
		j := i + uint(nn)
		fw.outputBytesCRC32.Write(buf[i:j])
		fw.outputBytesTotal += uint64(nn)
		fw.outputBytesStream += uint64(nn)
		i = j
		if !fw.outputBufferFlush() {
			return false
		}
	}
	return true
''', '''	max := 1 << fw.outputNumBits()
	for len(buf) != 0 {
		p := buf
		if len(p) > max {
			p = p[:max]
		}
		buf = buf[len(p):]
		fw.outputBytesCRC32.Write(p)
		fw.outputBytesTotal += uint64(len(p))
		fw.outputBytesStream += uint64(len(p))
		nn, err := fw.w.Write(p)
		if err == nil && nn < len(p) {
			err = io.ErrShortWrite
		}
		if err != nil {
			fw.fail(err)
			return false
		}
	}
	return true
'''),
 ("writer.go", '''func (fw *Writer) outputBufferFlush() bool {
	_, err := fw.output.WriteTo(fw.w)
	if err != nil {
		fw.state = errorWriterState
		fw.err = err
		return false
	}
	return true
}
''', '''func (fw *Writer) fail(err error) {
	fw.state = errorWriterState
	fw.err = err
}
'''),
 ("writer.go", '''		if err := x.Flush(); err != nil {
			fw.state = errorWriterState
			fw.err = err
			return false
		}
''', '''		if err := x.Flush(); err != nil {
			fw.fail(err)
			return false
		}
'''),
 ("writer.go", '''		if err := x.Sync(); err != nil && !isIgnoredSyncError(err) {
			fw.state = errorWriterState
			fw.err = err
			return false
		}
''', '''		if err := x.Sync(); err != nil && !isIgnoredSyncError(err) {
			fw.fail(err)
			return false
		}
'''),
 ("writer.go", '''	oldONB := fw.output.NumBits()
	newONB := fw.outputNumBits()
	if oldONB != newONB {
		fw.output.Init(newONB)
	}

''', ''),
 ("writer.go", "	fw.output.Clear()\n", ""),
 ("writer.go", "	fw.output.Init(fw.outputNumBits())\n", ""),
 ("writer.go", "	output            buffer.Buffer\n", ""),
])

# The stream's states: one place opens a stream, one ends it.
ref("writer-states", [
 ("writer.go", '''	if fw.state == closingStreamWriterState {
		if !fw.writeFooter() {
			return false
		}
		fw.state = closedStreamWriterState
	}

	if fw.state == noStreamWriterState || fw.state == closedStreamWriterState {
		if !fw.writeHeader() {
			return false
		}
		fw.state = openStreamWriterState
	}

	if !fw.cfg.compressFn(fw, consumeAll, fw.cfg.good, fw.cfg.lazy, fw.cfg.nice, fw.cfg.chain) {
		return false
	}

	return true
}
''', '''	return fw.ensureEnded() && fw.ensureOpen() &&
		fw.cfg.compressFn(fw, consumeAll, fw.cfg.good, fw.cfg.lazy, fw.cfg.nice, fw.cfg.chain)
}

func (fw *Writer) ensureEnded() bool {
	if fw.state != closingStreamWriterState {
		return true
	}
	if !fw.writeFooter() {
		return false
	}
	fw.state = closedStreamWriterState
	return true
}

func (fw *Writer) ensureOpen() bool {
	switch fw.state {
	case noStreamWriterState, closedStreamWriterState:
		if !fw.writeHeader() {
			return false
		}
		fw.state = openStreamWriterState
	}
	return true
}
'''),
 ("writer.go", '''	if flushType == FinishFlush && fw.state == noStreamWriterState {
		if !fw.writeHeader() {
			return false
		}
		fw.state = openStreamWriterState
	}

	if fw.state == openStreamWriterState {
		if !fw.flushGuts(flushType) {
			return false
		}
	}

	if fw.state == closingStreamWriterState {
		if !fw.writeFooter() {
			return false
		}

		fw.state = closedStreamWriterState
	}
''', '''	if flushType == FinishFlush && fw.state == noStreamWriterState && !fw.ensureOpen() {
		return false
	}

	if fw.state == openStreamWriterState && !fw.flushGuts(flushType) {
		return false
	}

	if !fw.ensureEnded() {
		return false
	}
'''),
 ("writer.go", '''	switch flushType {
	case BlockFlush:
		// pass

	case PartialFlush:
		tokens := []token{makeStopToken()}
		if !writeStaticBlock(fw, tokens, false) {
			return false
		}
		if !fw.outputBitsFlushWholeBytes() {
			return false
		}

	case SyncFlush:
		if !writeStoredBlock(fw, nil, false) {
			return false
		}

	case FullFlush:
		if !writeStoredBlock(fw, nil, false) {
			return false
		}
		fw.hybrid.WindowClear()

	case FinishFlush:
		if !writeStoredBlock(fw, nil, true) {
			return false
		}
		fw.hybrid.WindowClear()
		fw.state = closingStreamWriterState
	}
	return true
''', '''	if flushType == BlockFlush {
		return true
	}
	if flushType == PartialFlush {
		return writeStaticBlock(fw, []token{makeStopToken()}, false) && fw.outputBitsFlushWholeBytes()
	}
	last := flushType == FinishFlush
	if !writeStoredBlock(fw, nil, last) {
		return false
	}
	if last || flushType == FullFlush {
		fw.hybrid.WindowClear()
	}
	if last {
		fw.state = closingStreamWriterState
	}
	return true
'''),
 ("writer.go", '''	if fw.state == closedWriterState {
		return 0, fs.ErrClosed
	}

	if fw.state == errorWriterState {
		return 0, fw.err
	}

	var i''', '''	if err := fw.usable(); err != nil {
		return 0, err
	}

	var i'''),
 ("writer.go", '''	if fw.state == closedWriterState {
		return fs.ErrClosed
	}

	if fw.state == errorWriterState {
		return fw.err
	}

	if !fw.flushImpl(flushType)''', '''	if err := fw.usable(); err != nil {
		return err
	}

	if !fw.flushImpl(flushType)'''),
 ("writer.go", '''// Flush flushes the''', '''func (fw *Writer) usable() error {
	switch fw.state {
	case closedWriterState:
		return fs.ErrClosed
	case errorWriterState:
		return fw.err
	}
	return nil
}

// Flush flushes the'''),
])

# Events: built by helpers, nothing built when nobody listens.
ref("events", [
 ("writer.go", '''func (fw *Writer) sendEvent(event Event) {
''', '''func (fw *Writer) sendEvent(event Event) {
	if len(fw.tracers) == 0 {
		return
	}
'''),
 ("writer.go", '''	for _, tr := range fw.tracers {
		tr.OnEvent(event)
	}
''', '''	for i := 0; i < len(fw.tracers); i++ {
		copied := event
		fw.tracers[i].OnEvent(copied)
	}
'''),
 ("reader.go", '''	event.InputBytesTotal = fr.inputBytesTotal
	event.InputBytesStream = fr.inputBytesStream
	event.OutputBytesTotal = fr.outputBytesTotal
	event.OutputBytesStream = fr.outputBytesStream
	event.NumStreams = fr.numStreams
	event.Format = fr.actualFormat
	for _, tr := range fr.tracers {
		tr.OnEvent(event)
	}
''', '''	if len(fr.tracers) == 0 {
		return
	}
	full := Event{
		Type:              event.Type,
		InputBytesTotal:   fr.inputBytesTotal,
		InputBytesStream:  fr.inputBytesStream,
		OutputBytesTotal:  fr.outputBytesTotal,
		OutputBytesStream: fr.outputBytesStream,
		NumStreams:        fr.numStreams,
		Format:            fr.actualFormat,
		Header:            event.Header,
		Block:             event.Block,
		Trees:             event.Trees,
		Footer:            event.Footer,
	}
	for i := range fr.tracers {
		fr.tracers[i].OnEvent(full)
	}
'''),
 ("reader.go", '''	fr.sendEvent(Event{
		Type: BlockBeginEvent,
		Block: &BlockEvent{
			Type:    blockType,
			IsFinal: isFinal,
		},
	})
''', '''	blockEvent := func(et EventType) Event {
		return Event{Type: et, Block: &BlockEvent{Type: blockType, IsFinal: isFinal}}
	}
	fr.sendEvent(blockEvent(BlockBeginEvent))
'''),
 ("reader.go", '''		fr.sendEvent(Event{
			Type: BlockEndEvent,
			Block: &BlockEvent{
				Type:    blockType,
				IsFinal: isFinal,
			},
		})
''', '''		fr.sendEvent(blockEvent(BlockEndEvent))
'''),
 ("trace.go", '''	if event.Type == StreamHeaderEvent && event.Header != nil {
		*tr.ptr = *event.Header
	}
''', '''	if event.Type != StreamHeaderEvent {
		return
	}
	if h := event.Header; h != nil {
		*tr.ptr = *h
	}
'''),
])

# The Reader's input: several fields fetched at once, no checksum where none is kept.
ref("reader-input", [
 ("reader.go", '''	len0, ok := fr.inputBufferReadU16(binary.LittleEndian)
	if !ok {
		fr.propagateError(true)
		return false
	}

	len1, ok := fr.inputBufferReadU16(binary.LittleEndian)
	if !ok {
		fr.propagateError(true)
		return false
	}
''', '''	lens, ok := fr.inputBufferReadU32(binary.LittleEndian)
	if !ok {
		fr.propagateError(true)
		return false
	}
	len0, len1 := uint16(lens), uint16(lens>>16)
'''),
 ("reader.go", '''	p, ok := fr.inputBufferRead(make([]byte, len0))
	if !ok {
		fr.decodeBufferWrite(p)
		fr.propagateError(true)
		return false
	}

	fr.decodeBufferWrite(p)

	return true
''', '''	var chunk [512]byte
	for rest := int(len0); rest != 0; {
		n := rest
		if n > len(chunk) {
			n = len(chunk)
		}
		p, ok := fr.inputBufferRead(chunk[:n])
		fr.decodeBufferWrite(p)
		if !ok {
			fr.propagateError(true)
			return false
		}
		rest -= n
	}
	return true
'''),
 ("reader.go", '''	expectedCRC32, ok := fr.inputBufferReadU32(binary.LittleEndian)
	if !ok {
		fr.propagateError(true)
		return false
	}

	contentLen, ok := fr.inputBufferReadU32(binary.LittleEndian)
	if !ok {
		fr.propagateError(true)
		return false
	}
''', '''	p, ok := fr.inputBufferRead(make([]byte, 8))
	if !ok {
		fr.propagateError(true)
		return false
	}
	expectedCRC32 := binary.LittleEndian.Uint32(p[0:4])
	contentLen := binary.LittleEndian.Uint32(p[4:8])
'''),
 ("reader.go", '''		fr.inputBytesStream++
		fr.inputBytesCRC32.Write([]byte{ch})

		fr.ibBlock |=''', '''		fr.inputBytesStream++

		fr.ibBlock |='''),
 ("reader.go", '''	bb := bufferpool.Get()
	defer bufferpool.Put(bb)

	for {
		if fr.inputBuffer.IsEmpty() {
			fr.inputBufferFill()
			if fr.inputBuffer.IsEmpty() {
				break
			}
		}

		ch, _ := fr.inputBuffer.ReadByte()
		fr.inputBytesTotal++
		fr.inputBytesStream++
		fr.inputBytesCRC32.Write([]byte{ch})

		if ch == 0 {
			ok = true
			break
		}

		bb.WriteByte(ch)
	}

	str = bb.String()
	return
''', '''	var sb strings.Builder
	for {
		p, more := fr.inputBufferRead(fr.tmp[:1])
		if !more || p[0] == 0 {
			return sb.String(), more
		}
		sb.WriteByte(p[0])
	}
'''),
 ("reader.go", '	"sync"\n', '	"strings"\n	"sync"\n'),
 ("reader.go", '	"github.com/chronos-tachyon/bufferpool"\n', ''),
 ("reader.go", '''		lastLength := combinedLengths[i-1]
		for count != 0 {
			combinedLengths[i] = lastLength
			i++
			count--
		}
''', '''		for end := i + count; i < end; i++ {
			combinedLengths[i] = combinedLengths[i-1]
		}
'''),
 ("reader.go", '''	numBits := min
	for numBits <= max {
		if ok''', '''	for numBits := min; numBits <= max; numBits++ {
		if ok'''),
 ("reader.go", '''		symbol, newMin, newMax := hdec.Decode(hc)
		if symbol >= 0 {
			fr.inputBitsCommit(numBits)
			return symbol, true
		}
		if newMax == 0 {
			return symbol, false
		}
		numBits = newMin
''', '''		symbol, _, newMax := hdec.Decode(hc)
		if symbol >= 0 {
			fr.inputBitsCommit(numBits)
			return symbol, true
		}
		if newMax == 0 {
			return symbol, false
		}
'''),
])

# The Reader's tables and tokens.
ref("reader-tables", [
 ("reader.go", '''	case symbol < 265:
		length = uint32(symbol - 254)
		additionalBits = 0

	case symbol < 269:
		length = uint32(2*symbol - 519)
		additionalBits = 1

	case symbol < 273:
		length = uint32(4*symbol - 1057)
		additionalBits = 2

	case symbol < 277:
		length = uint32(8*symbol - 2149)
		additionalBits = 3

	case symbol < 281:
		length = uint32(16*symbol - 4365)
		additionalBits = 4

	case symbol < 285:
		length = uint32(32*symbol - 8861)
		additionalBits = 5

	case symbol == 285:
		length = 258
		additionalBits = 0

''', '''	case symbol < logicalNumLLCodes:
		length = uint32(lengthBase[symbol-257])
		additionalBits = lengthBits[symbol-257]

'''),
 ("reader.go", "func (fr *Reader) decodeLL(", '''var lengthBase = [29]uint16{3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 15, 17, 19, 23, 27, 31, 35, 43, 51, 59, 67, 83, 99, 115, 131, 163, 195, 227, 258}
var lengthBits = [29]byte{0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3, 4, 4, 4, 4, 5, 5, 5, 5, 0}

func (fr *Reader) decodeLL('''),
 ("reader.go", '''		x0 := (byte(symbol-2) >> 1)
		x1 := uint32(1) << (x0 + 1)
		x2 := uint32(0)
		if (symbol & 0x01) != 0 {
			x2 = uint32(1) << x0
		}
		distance = x1 + x2 + 1
		additionalBits = x0
''', '''		additionalBits = byte(symbol/2 - 1)
		distance = (2+uint32(symbol&1))<<additionalBits + 1
'''),
 ("token.go", '''	case t.literalOrLength <= 18:
		x := (t.literalOrLength - 11)
		y, z := (x / 2), (x % 2)
		return huffman.Symbol(265 + y), 1, block(z)

	case t.literalOrLength <= 34:
		x := (t.literalOrLength - 19)
		y, z := (x / 4), (x % 4)
		return huffman.Symbol(269 + y), 2, block(z)

	case t.literalOrLength <= 66:
		x := (t.literalOrLength - 35)
		y, z := (x / 8), (x % 8)
		return huffman.Symbol(273 + y), 3, block(z)

	case t.literalOrLength <= 130:
		x := (t.literalOrLength - 67)
		y, z := (x / 16), (x % 16)
		return huffman.Symbol(277 + y), 4, block(z)

	case t.literalOrLength <= 257:
		x := (t.literalOrLength - 131)
		y, z := (x / 32), (x % 32)
		return huffman.Symbol(281 + y), 5, block(z)

	case t.literalOrLength == 258:
		return huffman.Symbol(285), 0, 0
''', '''	case t.literalOrLength == 258:
		return huffman.Symbol(285), 0, 0

	case t.literalOrLength < 258:
		i := len(lengthBase) - 2
		for lengthBase[i] > t.literalOrLength {
			i--
		}
		return huffman.Symbol(257 + i), lengthBits[i], block(t.literalOrLength - lengthBase[i])
'''),
 ("token.go", '''	if symLL >= 0 {
		hc := hLL.Encode(symLL)
		if !bw.outputBitsWriteHC(hc) {
			return false
		}

		if sizeLL != 0 {
			if !bw.outputBitsWrite(sizeLL, bitsLL) {
				return false
			}
		}

		if symD >= 0 {
			hc := hD.Encode(symD)
			if !bw.outputBitsWriteHC(hc) {
				return false
			}

			if sizeD != 0 {
				if !bw.outputBitsWrite(sizeD, bitsD) {
					return false
				}
			}
		}
	}

	return true
''', '''	if symLL < 0 {
		return true
	}
	if !bw.outputBitsWriteHC(hLL.Encode(symLL)) || !bw.outputBitsWrite(sizeLL, bitsLL) {
		return false
	}
	if symD < 0 {
		return true
	}
	return bw.outputBitsWriteHC(hD.Encode(symD)) && bw.outputBitsWrite(sizeD, bitsD)
'''),
])

# The Reader's thread: early returns, totals taken before the output is handed on.
ref("reader-thread", [
 ("reader.go", '''	fr.numStreams = 0
	for !fr.outputErrorWasSet {
		if !fr.readHeader() {
			break
		}

		fr.outputBytesAdler32.Reset()
		fr.outputBytesCRC32.Reset()

		for fr.readFlateBlock() {
			// pass
		}

		fr.decodeBufferMustFlush()

		if fr.outputErrorWasSet {
			break
		}

		if !fr.readFooter() {
			break
		}
	}
''', '''	fr.numStreams = 0
	for fr.readStream() {
		// pass
	}
'''),
 ("reader.go", "func (fr *Reader) readHeader() bool {", '''func (fr *Reader) readStream() bool {
	if fr.outputErrorWasSet || !fr.readHeader() {
		return false
	}
	fr.outputBytesAdler32.Reset()
	fr.outputBytesCRC32.Reset()
	for more := true; more; {
		more = fr.readFlateBlock()
	}
	fr.decodeBufferMustFlush()
	return !fr.outputErrorWasSet && fr.readFooter()
}

func (fr *Reader) readHeader() bool {'''),
 ("reader.go", '''		if nn != 0 {
			fr.outputBytesTotal += uint64(nn)
			fr.outputBytesStream += uint64(nn)
			_, _ = fr.outputBytesAdler32.Write(p[:nn])
			_, _ = fr.outputBytesCRC32.Write(p[:nn])

			fr.decodeBuffer.CommitBulkRead(uint(nn))
		}
''', '''		if nn == 0 {
			continue
		}
		p = p[:nn]
		fr.outputBytesAdler32.Write(p)
		fr.outputBytesCRC32.Write(p)
		fr.outputBytesStream += uint64(nn)
		fr.outputBytesTotal += uint64(nn)
		fr.decodeBuffer.CommitBulkRead(uint(len(p)))
'''),
 ("reader.go", '''	if fr.outputErrorWasSet {
		return
	}

	fr.decodeBufferMustFlush()

	if fr.outputErrorWasSet {
		return
	}

	fr.mu2.Lock()
	fr.outputError = err
	fr.cv1.Broadcast()
	fr.mu2.Unlock()

	fr.outputErrorWasSet = true
''', '''	if !fr.outputErrorWasSet {
		fr.decodeBufferMustFlush()
	}
	if !fr.outputErrorWasSet {
		fr.outputErrorWasSet = true
		fr.mu2.Lock()
		defer fr.mu2.Unlock()
		fr.outputError = err
		fr.cv1.Broadcast()
	}
'''),
 ("reader.go", '''	if !fr.readThreadWasStarted {
		fr.readThreadWasStarted = true
		fr.wg.Add(1)
		go fr.readThread()
	}
	fr.mu1.Unlock()
''', '''	defer fr.mu1.Unlock()
	if fr.readThreadWasStarted {
		return
	}
	fr.readThreadWasStarted = true
	fr.wg.Add(1)
	go func() {
		defer fr.wg.Done()
		fr.readThread()
	}()
'''),
 ("reader.go", "	fr.wg.Done()\n", ""),
])

# Enumerations and options by other means.
ref("enums", [
 ("enum_ostype.go", '''var gzipOSTypeDecodeTable = map[byte]OSType{''', '''var gzipOSTypeDecodeTable = [256]OSType{'''),
 ("writer.go", '''	if osByte, found := gzipOSTypeEncodeTable[fw.header.OSType]; found {
		header[9] = osByte
	}
''', '''	for b, ot := range gzipOSTypeDecodeTable {
		if ot == fw.header.OSType && ot != OSTypeUnknown {
			header[9] = byte(b)
			break
		}
	}
'''),
 ("enum_wbits.go", '''	if u64 < uint64(MinWindowBits) {
		*wbits = DefaultWindowBits
		return fmt.Errorf("value %d is less than minimum %d", u64, uint64(MinWindowBits))
	}
	if u64 > uint64(MaxWindowBits) {
		*wbits = DefaultWindowBits
		return fmt.Errorf("value %d is less than maximum %d", u64, uint64(MaxWindowBits))
	}
	*wbits = WindowBits(u64)
	return nil
''', '''	switch value := WindowBits(u64); {
	case value < MinWindowBits, value > MaxWindowBits:
		*wbits = DefaultWindowBits
		return fmt.Errorf("value %d is out of range [%d .. %d]", u64, uint64(MinWindowBits), uint64(MaxWindowBits))
	default:
		*wbits = value
		return nil
	}
'''),
 ("checksum32.go", '''	str = strings.TrimPrefix(str, "0x")
	u64, err := strconv.ParseUint(str, 16, 32)
	if err != nil {
		return err
	}
	*csum = Checksum32(u64)
	return nil
''', '''	u64, err := strconv.ParseUint(strings.TrimPrefix(str, "0x"), 16, 32)
	if err == nil {
		*csum = Checksum32(u64)
	}
	return err
'''),
 ("header.go", '''	index := uint(0)
	length := uint(len(raw))
	for (index + 4) <= length {
		var rec ExtraDataRecord
		rec.ID[0] = raw[index+0]
		rec.ID[1] = raw[index+1]
		recLen := uint(binary.LittleEndian.Uint16(raw[index+2 : index+4]))
		index += 4
		if recLen > (length - index) {
			recLen = (length - index)
		}
		rec.Bytes = raw[index : index+recLen]
		index += recLen
		xd.Records = append(xd.Records, rec)
	}
''', '''	for len(raw) >= 4 {
		var rec ExtraDataRecord
		copy(rec.ID[:], raw)
		recLen := int(binary.LittleEndian.Uint16(raw[2:4]))
		raw = raw[4:]
		if recLen > len(raw) {
			recLen = len(raw)
		}
		rec.Bytes = append([]byte{}, raw[:recLen]...)
		raw = raw[recLen:]
		xd.Records = append(xd.Records, rec)
	}
'''),
 ("huffman.go", '''	for i := 0; i < 144; i++ {
		sizes[i] = 8
	}
	for i := 144; i < 256; i++ {
		sizes[i] = 9
	}
	for i := 256; i < 280; i++ {
		sizes[i] = 7
	}
	for i := 280; i < 288; i++ {
		sizes[i] = 8
	}
''', '''	for i := range sizes {
		switch {
		case i >= 144 && i < 256:
			sizes[i] = 9
		case i >= 256 && i < 280:
			sizes[i] = 7
		default:
			sizes[i] = 8
		}
	}
'''),
])

# The command in smaller pieces.
ref("command-split", [
 ("cmd/gzip/main.go", '''	if flagDecompress {
		fr := flate.NewReader(r, opts...)

		nn, err := io.Copy(w, fr)
		if err != nil {
			log.Logger.Fatal().
				Int64("nn", nn).
				Err(err).
				Msg("io.Copy failed")
		}

		err = fr.Close()
		if err != nil {
			log.Logger.Fatal().
				Err(err).
				Msg("flate.Reader.Close failed")
		}
	} else {
		fw := flate.NewWriter(w, opts...)

		err := fw.SetHeader(flate.Header{
			FileName:     flagFileName,
			Comment:      flagComment,
			LastModified: flagLastModified.Value,
		})
		if err != nil {
			log.Logger.Fatal().
				Err(err).
				Msg("flate.Writer.SetHeader failed")
		}

		nn, err := io.Copy(fw, r)
		if err != nil {
			log.Logger.Fatal().
				Int64("nn", nn).
				Err(err).
				Msg("io.Copy failed")
		}

		err = fw.Flush(flate.FinishFlush)
		if err != nil {
			log.Logger.Fatal().
				Err(err).
				Msg("flate.Writer.Flush failed")
		}

		err = fw.Close()
		if err != nil {
			log.Logger.Fatal().
				Err(err).
				Msg("flate.Writer.Close failed")
		}
	}
}
''', '''	action := compress
	if flagDecompress {
		action = decompress
	}
	if err := action(w, r, opts); err != nil {
		log.Logger.Error().Err(err).Msg("failed")
		os.Exit(1)
	}
}

func decompress(w io.Writer, r io.Reader, opts []flate.Option) error {
	fr := flate.NewReader(r, opts...)
	buf := make([]byte, 3000)
	for {
		n, err := fr.Read(buf)
		if _, werr := w.Write(buf[:n]); werr != nil {
			return werr
		}
		if err == io.EOF {
			return fr.Close()
		}
		if err != nil {
			return err
		}
	}
}

func compress(w io.Writer, r io.Reader, opts []flate.Option) error {
	fw := flate.NewWriter(w, opts...)
	err := fw.SetHeader(flate.Header{
		FileName:     flagFileName,
		Comment:      flagComment,
		LastModified: flagLastModified.Value,
	})
	if err != nil {
		return err
	}
	buf := make([]byte, 70000)
	for {
		n, rerr := r.Read(buf)
		if _, err := fw.Write(buf[:n]); err != nil {
			return err
		}
		if rerr == io.EOF {
			return fw.Close()
		}
		if rerr != nil {
			return rerr
		}
	}
}
'''),
 ("cmd/gzip/main.go", '''	switch {
	case flag0:
		flagCLevel.Value = 0
	case flag1:
		flagCLevel.Value = 1
	case flag2:
		flagCLevel.Value = 2
	case flag3:
		flagCLevel.Value = 3
	case flag4:
		flagCLevel.Value = 4
	case flag5:
		flagCLevel.Value = 5
	case flag6:
		flagCLevel.Value = 6
	case flag7:
		flagCLevel.Value = 7
	case flag8:
		flagCLevel.Value = 8
	case flag9:
		flagCLevel.Value = 9
	}
''', '''	for level, set := range []bool{flag0, flag1, flag2, flag3, flag4, flag5, flag6, flag7, flag8, flag9} {
		if set {
			flagCLevel.Value = flate.CompressLevel(level)
			break
		}
	}
'''),
])

# Stored and compressed blocks of other sizes: other output, the same guarantees.
ref("block-sizes", [
 ("writer.go", "	const storedBlockSize = (1 << 16) - (1 << 12) // 64 KiB - 4 KiB", "	const storedBlockSize = 1 << 15"),
 ("writer.go", "	const compressedBlockSize = 4096\n", "	const compressedBlockSize = 6000\n"),
])
