# Behaviour-preserving edits. ref(name, [(file, old, new), ...]); old is unique unless n given.
REFS = {}
def ref(name, edits): REFS[name] = edits

# 1. helper extraction in the Reader
ref("reader-bits-helper", [
 ("reader.go", "func (fr *Reader) inputBitsRead(wantLen byte) block {", '''// takeBits fetches n bits, or publishes the reason why it cannot.
func (fr *Reader) takeBits(n byte) (uint, bool) {
	if !fr.inputBitsFill(n) {
		fr.propagateError(true)
		return 0, false
	}
	return uint(fr.inputBitsRead(n)), true
}

func (fr *Reader) inputBitsRead(wantLen byte) block {'''),
 ("reader.go", '''	if ok := fr.inputBitsFill(3); !ok {
		fr.propagateError(true)
		return false
	}

	out := fr.inputBitsRead(3)

	isOK := false''', '''	out, ok := fr.takeBits(3)
	if !ok {
		return false
	}

	isOK := false'''),
 ("reader.go", '''		if ok := fr.inputBitsFill(additionalBits); !ok {
			fr.propagateError(true)
			return makeInvalidToken(), false
		}

		out := fr.inputBitsRead(additionalBits)
		length += uint32(out)''', '''		out, ok := fr.takeBits(additionalBits)
		if !ok {
			return makeInvalidToken(), false
		}
		length += uint32(out)'''),
 ("reader.go", '''		if ok := fr.inputBitsFill(additionalBits); !ok {
			fr.propagateError(true)
			return makeInvalidToken(), false
		}

		out := fr.inputBitsRead(additionalBits)
		distance += uint32(out)''', '''		out, ok := fr.takeBits(additionalBits)
		if !ok {
			return makeInvalidToken(), false
		}
		distance += uint32(out)'''),
 ("reader.go", '''	if ok := fr.inputBitsFill(14); !ok {
		fr.propagateError(true)
		return false
	}

	out := fr.inputBitsRead(14)
	numLL''', '''	out, ok := fr.takeBits(14)
	if !ok {
		return false
	}
	numLL'''),
 ("reader.go", '''		if ok := fr.inputBitsFill(3); !ok {
			fr.propagateError(true)
			return false
		}

		out = fr.inputBitsRead(3)
		sX[scramble[i]] = byte(out)''', '''		size, ok := fr.takeBits(3)
		if !ok {
			return false
		}
		sX[scramble[i]] = byte(size)'''),
])
# 2. loops rewritten in the Reader
ref("reader-loops", [
 ("reader.go", '''	pIndex := uint(0)
	for pIndex < pLen {
		if fr.inputBuffer.IsEmpty() {
			fr.inputBufferFill()
			if fr.inputBuffer.IsEmpty() {
				break
			}
		}
		nn, _ := fr.inputBuffer.Read(p[pIndex:])
		pIndex += uint(nn)
	}
''', '''	var pIndex uint
	for rest := p; len(rest) != 0; rest = p[pIndex:] {
		if fr.inputBuffer.IsEmpty() {
			fr.inputBufferFill()
		}
		if fr.inputBuffer.IsEmpty() {
			break
		}
		nn, _ := fr.inputBuffer.Read(rest)
		pIndex += uint(nn)
	}
'''),
 ("reader.go", '''		p, err := fr.window.LookupSlice(distance, length)
		if err != nil {
			fr.corruptf("distance %d > window.Size %d", distance, fr.window.Size())
			return false
		}

		// p aliases the window, which decodeBufferWrite is about to modify.
		var copied [258]byte
		p = copied[:copy(copied[:], p)]

		fr.decodeBufferWrite(p)
		length -= uint(len(p))

''', ''),
 ("reader.go", '''		for length != 0 {
			ch, err := fr.window.LookupByte(distance)
			if err != nil {
				fr.corruptf("distance %d > window.Size %d", distance, fr.window.Size())
				return false
			}
			fr.decodeBufferWriteByte(ch)
			length--
		}
''', '''		for i := uint(0); i < length; i++ {
			ch, err := fr.window.LookupByte(distance)
			if err != nil {
				fr.corruptf("distance %d > window.Size %d", distance, fr.window.Size())
				return false
			}
			fr.decodeBufferWriteByte(ch)
		}
'''),
 ("reader.go", '''	length := uint(len(p))
	for length > 0 {
		fr.decodeBufferTryFlush()
		nn, _ := fr.decodeBuffer.Write(p)
		_, _ = fr.window.Write(p[:nn])
		fr.windowBytes += uint64(nn)
		p = p[nn:]
		length -= uint(nn)
	}
	return true''', '''	for _, ch := range p {
		if !fr.decodeBufferWriteByte(ch) {
			return false
		}
	}
	return true'''),
 ("reader.go", '''		lastLength := combinedLengths[i-1]
		for count != 0 {
			combinedLengths[i] = lastLength
			i++
			count--
		}
''', '''		for ; count > 0; count-- {
			combinedLengths[i] = combinedLengths[i-1]
			i++
		}
'''),
])
# 3. synchronization written differently
ref("reader-sync", [
 ("reader.go", '''	if fr.outputError == nil && fr.outputBuffer.IsEmpty() {
		fr.cv2.Signal()
		for fr.outputError == nil && fr.outputBuffer.IsEmpty() {
			fr.cv1.Wait()
		}
	}

	if fr.outputBuffer.IsEmpty() {
		return 0, fr.outputError
	}

	nn, _ := fr.outputBuffer.Read(p)

	if fr.outputBuffer.IsEmpty() {
		fr.cv2.Signal()
	} else {
		fr.cv1.Signal()
	}
''', '''	for fr.outputBuffer.IsEmpty() {
		if fr.outputError != nil {
			return 0, fr.outputError
		}
		fr.cv2.Broadcast()
		fr.cv1.Wait()
	}

	nn, _ := fr.outputBuffer.Read(p)

	fr.cv2.Broadcast()
	fr.cv1.Broadcast()
'''),
 ("reader.go", '''	fr.mu1.Lock()
	if !fr.readThreadWasStarted {
		fr.readThreadWasStarted = true
		fr.wg.Add(1)
		go fr.readThread()
	}
	fr.mu1.Unlock()
''', '''	fr.mu1.Lock()
	defer fr.mu1.Unlock()

	if fr.readThreadWasStarted {
		return
	}

	fr.wg.Add(1)
	go fr.readThread()
	fr.readThreadWasStarted = true
'''),
 ("reader.go", '''		nn, _ := fr.outputBuffer.Write(p)
		if nn != 0 {
			fr.cv1.Signal()
		}
		fr.mu2.Unlock()
''', '''		nn, _ := fr.outputBuffer.Write(p)
		fr.mu2.Unlock()
		if nn != 0 {
			fr.cv1.Broadcast()
		}
'''),
 ("reader.go", '''	fr.readThreadWasStopped = true
	fr.mu1.Unlock()
	fr.wg.Done()
''', '''	fr.readThreadWasStopped = true
	fr.wg.Done()
	fr.mu1.Unlock()
'''),
])
# 4. a channel instead of the WaitGroup
ref("reader-channel", [
 ("reader.go", '''		fr.wg.Add(1)
		go fr.readThread()
''', '''		fr.done = make(chan struct{})
		go fr.readThread(fr.done)
'''),
 ("reader.go", "func (fr *Reader) readThread() {\n", "func (fr *Reader) readThread(done chan<- struct{}) {\n"),
 ("reader.go", "	fr.wg.Done()\n", "	close(done)\n"),
 ("reader.go", '''		fr.mu1.Unlock()
		fr.wg.Wait()
''', '''		done := fr.done
		fr.mu1.Unlock()
		<-done
'''),
 ("reader.go", "	tmp [4]byte\n", "	tmp [4]byte\n\n	done chan struct{}\n"),
])
# 5. Writer: header and trailer assembled in one piece
ref("writer-header", [
 ("writer.go", '''	ok := true
	ok = ok && fw.outputBufferWrite(header[:])
	ok = ok && func1(fw)
	ok = ok && func2(fw)
	ok = ok && func3(fw)

	c32 := fw.outputBytesCRC32.Sum32()

	ok = ok && fw.outputBufferWriteU16(binary.LittleEndian, uint16(c32))
	return ok
''', '''	if !fw.outputBufferWrite(header[:]) {
		return false
	}
	for _, fn := range []func(*Writer) bool{func1, func2, func3} {
		if !fn(fw) {
			return false
		}
	}
	return fw.writeHeaderCRC16()
'''),
 ("writer.go", '''func writeHeaderGZIPDataType(''', '''func (fw *Writer) writeHeaderCRC16() bool {
	var storage [2]byte
	sum := fw.outputBytesCRC32.Sum32()
	storage[0] = byte(sum)
	storage[1] = byte(sum >> 8)
	return fw.outputBufferWrite(storage[:])
}

func writeHeaderGZIPDataType('''),
 ("writer.go", '''	return fw.outputBufferWriteU32(binary.LittleEndian, c32) &&
		fw.outputBufferWriteU32(binary.LittleEndian, uint32(fw.inputBytesStream))
''', '''	var storage [8]byte
	binary.LittleEndian.PutUint32(storage[0:4], c32)
	binary.LittleEndian.PutUint32(storage[4:8], uint32(fw.inputBytesStream))
	return fw.outputBufferWrite(storage[:])
'''),
 ("writer.go", '''	// compute header checksum
	u16 := binary.BigEndian.Uint16(storage[0:2])
	remainder := (u16 % 31)
	if remainder == 0 {
		remainder = 31
	}
	storage[1] |= byte(31 - remainder)
''', '''	// compute header checksum
	for (uint(storage[0])*256+uint(storage[1]))%31 != 0 {
		storage[1]++
	}
'''),
 ("writer.go", '''	var fLevel byte
	if fw.strategy == HuffmanOnlyStrategy || fw.strategy == HuffmanRLEStrategy || fw.clevel < 2 {
		fLevel = 0x00
	} else if fw.clevel < 6 {
		fLevel = 0x01
	} else if fw.clevel == 6 {
		fLevel = 0x02
	} else {
		fLevel = 0x03
	}
''', '''	var fLevel byte
	switch {
	case fw.strategy == HuffmanOnlyStrategy, fw.strategy == HuffmanRLEStrategy:
	case fw.clevel < 2:
	case fw.clevel > 6:
		fLevel = 3
	case fw.clevel == 6:
		fLevel = 2
	default:
		fLevel = 1
	}
'''),
])
# 6. Writer: blocks
ref("writer-blocks", [
 ("writer.go", '''	var dynamicCounter bitcounter
	writeDynamicBlock(&dynamicCounter, &hLL, &hD, tokens, isFinal)

	var staticCounter bitcounter
	writeStaticBlock(&staticCounter, tokens, isFinal)
''', '''	var staticCounter, dynamicCounter bitcounter
	writeStaticBlock(&staticCounter, tokens, isFinal)
	writeDynamicBlock(&dynamicCounter, &hLL, &hD, tokens, isFinal)
'''),
 ("writer.go", '''	for inLen != 0 {
		shiftA := fw.obLen
		shiftB := byte(bitsPerBlock - shiftA)
		if shiftB > inLen {
			shiftB = inLen
		}
		maskB := makeMask(shiftB)
		fw.obBlock = fw.obBlock | ((inBlock & maskB) << shiftA)
		inBlock = (inBlock >> shiftB)
		fw.obLen += shiftB
		inLen -= shiftB

		if fw.obLen == bitsPerBlock {
''', '''	for ; inLen != 0; inLen-- {
		fw.obBlock |= (inBlock & 1) << fw.obLen
		fw.obLen++
		inBlock >>= 1

		if fw.obLen == bitsPerBlock {
'''),
 ("writer.go", '''	if !bw.outputBufferWriteU16(binary.LittleEndian, u16) {
		return false
	}
	if !bw.outputBufferWriteU16(binary.LittleEndian, ^u16) {
		return false
	}
	if !bw.outputBufferWrite(data) {
		return false
	}
''', '''	lengths := []byte{byte(u16), byte(u16 >> 8), ^byte(u16), ^byte(u16 >> 8)}
	if ok := bw.outputBufferWrite(lengths) && bw.outputBufferWrite(data); !ok {
		return false
	}
'''),
 ("writer.go", '''	// BTYPE=01 BFINAL=x
	bits := block(0x02)
	if isFinal {
		bits = block(0x03)
	}

	if !bw.outputBitsWrite(3, bits) {
		return false
	}
''', '''	// BTYPE=01 BFINAL=x
	if !beginBlock(bw, 0x02, isFinal) {
		return false
	}
'''),
 ("writer.go", '''	// BTYPE=10 BFINAL=x
	bits := block(0x04)
	if isFinal {
		bits = block(0x05)
	}

	if !bw.outputBitsWrite(3, bits) {
		return false
	}
''', '''	// BTYPE=10 BFINAL=x
	if !beginBlock(bw, 0x04, isFinal) {
		return false
	}
'''),
 ("writer.go", "type compressFunc func(", '''func beginBlock(bw bitwriter, bits block, isFinal bool) bool {
	if isFinal {
		bits |= 1
	}
	return bw.outputBitsWrite(3, bits)
}

type compressFunc func('''),
])
# 7. Writer: locks, pools and buffers
ref("writer-locks", [
 ("writer.go", '''	fw.mu.Lock()
	format := fw.format
	fw.mu.Unlock()
	return format
''', '''	fw.mu.Lock()
	defer fw.mu.Unlock()
	return fw.format
'''),
 ("writer.go", '''	helper := func() error {
		err := fw.err
		fw.state = closedWriterState
		fw.err = nil
		return err
	}

	if fw.state == errorWriterState {
		return helper()
	}

	if !fw.flushImpl(FinishFlush) {
		return helper()
	}

	fw.state = closedWriterState
	return nil
''', '''	if fw.state != errorWriterState {
		fw.flushImpl(FinishFlush)
	}

	err := fw.err
	fw.err = nil
	fw.state = closedWriterState
	return err
'''),
 ("writer.go", '''	var i, j uint
	for i < length {
		nn, err := fw.hybrid.Write(buf[i:])
		j = i + uint(nn)

		consumeAll := (nn == 0) || (err == buffer.ErrFull)
		if !fw.compressImpl(consumeAll) {
			return 0, fw.err
		}

		i = j
	}
	return int(length), nil
''', '''	for len(buf) > 0 {
		nn, err := fw.hybrid.Write(buf)
		if !fw.compressImpl(nn == 0 || err == buffer.ErrFull) {
			return 0, fw.err
		}
		buf = buf[nn:]
	}
	return int(length), nil
'''),
 ("pools.go", '''	return tokenPool.Get().(*[]token)
''', '''	tokens := make([]token, 0, 256)
	return &tokens
'''),
 ("pools.go", '''	*ptr = (*ptr)[:0]
	tokenPool.Put(ptr)
''', '''	*ptr = nil
'''),
 ("pools.go", '''import (
	"sync"

	"github.com/chronos-tachyon/assert"
)

var tokenPool = sync.Pool{
	New: func() interface{} {
		ptr := new([]token)
		*ptr = make([]token, 0, 256)
		return ptr
	},
}
''', '''import (
	"github.com/chronos-tachyon/assert"
)
'''),
 ("writer.go", '''	bb := bufferpool.Get()
	defer bufferpool.Put(bb)
	bb.Grow(int(available))
''', '''	bb := new(bytes.Buffer)
	bb.Grow(int(available))
'''),
 ("writer.go", '''import (
''', '''import (
	"bytes"
'''),
 ("writer.go", '''	"github.com/chronos-tachyon/bufferpool"
''', ''),
])
# 8. Huffman trees: lazily built fixed codes, other loops
ref("huffman", [
 ("huffman.go", '''func init() {
	// https''', '''var gFixedOnce sync.Once

func buildFixed() {
	// https'''),
 ("huffman.go", "	return &gFixedHuffmanDecoderLL, ", "	gFixedOnce.Do(buildFixed)\n	return &gFixedHuffmanDecoderLL, "),
 ("huffman.go", "	return &gFixedHuffmanEncoderLL, ", "	gFixedOnce.Do(buildFixed)\n	return &gFixedHuffmanEncoderLL, "),
 ("huffman.go", '''	"fmt"
''', '''	"fmt"
	"sync"
'''),
 ("analysis.go", '''	for i, length := uint(0), uint(len(sizes)); i < length; i++ {
		if sizes[i] != 0 {
			return false
		}
	}
	return true
''', '''	return sizeRunLength(sizes, 0) == uint(len(sizes))
'''),
 ("analysis.go", '''	var count uint
	for i, length := uint(0), uint(len(sizes)); i < length; i++ {
		if sizes[i] != size {
			break
		}
		count++
	}
	return count
''', '''	for i, x := range sizes {
		if x != size {
			return uint(i)
		}
	}
	return uint(len(sizes))
'''),
 ("analysis.go", '''			for run >= 9 {
				xtokens = append(xtokens, makeTreeDupToken(6))
				i += 6
				run -= 6
			}
			if run > 6 {
				xtokens = append(xtokens, makeTreeDupToken(4))
				i += 4
				run -= 4
			}
			if run > 2 {
				xtokens = append(xtokens, makeTreeDupToken(run))
				i += run
				run = 0
			}
''', '''			for run > 2 {
				n := run
				if n >= 9 {
					n = 6
				} else if n > 6 {
					n = 4
				}
				xtokens = append(xtokens, makeTreeDupToken(n))
				i += n
				run -= n
			}
'''),
 ("token.go", '''	case t.distance <= 4:
		d := (t.distance - 1)
		return huffman.Symbol(0 + d), 0, 0

	case t.distance <= 32768:
		d := (t.distance - 1)
		k := 16 - bits.LeadingZeros16(d)
		code := k*2 - 1
		if bit := uint16(1) << (k - 2); (d & bit) == 0 {
			code--
		}
		size := byte((code / 2) - 1)
		mask := (uint16(1) << size) - 1
		bits := (d & mask)
		return huffman.Symbol(code), size, block(bits)
''', '''	case t.distance <= 32768:
		d := uint(t.distance - 1)
		code, size := uint(0), byte(0)
		base, next := uint(0), uint(1)
		for next <= d {
			code++
			if code > 3 {
				size = byte(code/2 - 1)
			}
			base, next = next, next+(1<<size)
		}
		return huffman.Symbol(code), size, block(d - base)
'''),
 ("token.go", '''	"math/bits"
''', ''),
])
# 9. checksums
ref("checksums", [
 ("internal/adler32/adler32.go", '''	length := uint(len(p))
	for length > 0 {
		var q []byte
		if length > nmax {
			p, q = p[:nmax], p[nmax:]
			length = nmax
		}
		for length >= 4 {
			s1 += uint32(p[0])
			s2 += s1
			s1 += uint32(p[1])
			s2 += s1
			s1 += uint32(p[2])
			s2 += s1
			s1 += uint32(p[3])
			s2 += s1
			p = p[4:]
			length -= 4
		}
		for _, ch := range p {
			s1 += uint32(ch)
			s2 += s1
		}
		s1 %= modulus
		s2 %= modulus
		p = q
		length = uint(len(q))
	}
''', '''	for len(p) != 0 {
		n := len(p)
		if n > nmax/2 {
			n = nmax / 2
		}
		for _, ch := range p[:n] {
			s1 += uint32(ch)
			s2 += s1
		}
		p = p[n:]
		s1, s2 = s1%modulus, s2%modulus
	}
'''),
 ("internal/crc32/crc32.go", '''	gArchOnce.Do(func() {
		gArchOkay = archAvailable()
	})
	if gArchOkay {
''', '''	if archReady() {
'''),
 ("internal/crc32/crc32.go", '''func genericUpdate(''', '''func archReady() bool {
	gArchOnce.Do(func() { gArchOkay = archAvailable() })
	return gArchOkay
}

func genericUpdate('''),
 ("internal/crc32/crc32.go", '''	if length >= 16 {
		for length >= 8 {
''', '''	if length > 31 {
		for ; length >= 8; length -= 8 {
'''),
 ("internal/crc32/crc32.go", '''			p = p[8:]
			length -= 8
''', '''			p = p[8:]
'''),
 ("internal/crc32/crc32_amd64.go", '''		left := length & 0xf
		n := length - left
		sum = ^ieeeCLMUL(^sum, p[:n])
		p = p[n:]
		length -= n
''', '''		whole := length &^ 0x3f
		sum = ^ieeeCLMUL(^sum, p[:whole])
		p = p[whole:]
'''),
])
# 10. options, enums, header, tracer
ref("options", [
 ("options.go", '''	if dict != nil {
		tmp := make([]byte, len(dict))
		copy(tmp, dict)
		dict = tmp
	}
	return func(o *options) { o.dict = dict }
''', '''	return func(o *options) { o.dict = dict }
'''.replace("return", "dict = append([]byte(nil), dict...)\n	return")),
 ("options.go", '''	*o = options{
		format:   DefaultFormat,
		method:   DefaultMethod,
		strategy: DefaultStrategy,
		clevel:   DefaultCompression,
		mlevel:   DefaultMemory,
		wbits:    DefaultWindowBits,
		dict:     nil,
		tracers:  nil,
	}
''', '''	*o = options{}
	o.clevel = DefaultCompression
	o.wbits = DefaultWindowBits
	o.mlevel = DefaultMemory
	o.strategy = DefaultStrategy
	o.method = DefaultMethod
	o.format = DefaultFormat
'''),
 ("header.go", '''	index := uint(0)
	length := uint(len(raw))
	for (index + 4) <= length {
		var rec ExtraDataRecord
		rec.ID[0] = raw[index+0]
		rec.ID[1] = raw[index+1]
		recLen := uint(binary.LittleEndian.Uint16(raw[index+2 : index+4]))
		index += 4
		if recLen > (length - index) {
			recLen = (length - index)
		}
		rec.Bytes = raw[index : index+recLen]
		index += recLen
		xd.Records = append(xd.Records, rec)
	}
''', '''	for len(raw) >= 4 {
		n := int(binary.LittleEndian.Uint16(raw[2:]))
		id := [2]byte{raw[0], raw[1]}
		raw = raw[4:]
		if n > len(raw) {
			n = len(raw)
		}
		xd.Records = append(xd.Records, ExtraDataRecord{ID: id, Bytes: raw[:n:n]})
		raw = raw[n:]
	}
'''),
 ("enum_wbits.go", '''	if u64 < uint64(MinWindowBits) {
		*wbits = DefaultWindowBits
		return fmt.Errorf("value %d is less than minimum %d", u64, uint64(MinWindowBits))
	}
	if u64 > uint64(MaxWindowBits) {
		*wbits = DefaultWindowBits
		return fmt.Errorf("value %d is less than maximum %d", u64, uint64(MaxWindowBits))
	}
	*wbits = WindowBits(u64)
	return nil
''', '''	switch {
	case u64 < uint64(MinWindowBits):
		err = fmt.Errorf("value %d is less than minimum %d", u64, uint64(MinWindowBits))
	case u64 > uint64(MaxWindowBits):
		err = fmt.Errorf("value %d is less than maximum %d", u64, uint64(MaxWindowBits))
	}
	if err != nil {
		u64 = uint64(DefaultWindowBits)
	}
	*wbits = WindowBits(u64)
	return err
'''),
 ("trace.go", '''	if event.Type == StreamHeaderEvent && event.Header != nil {
		*tr.ptr = *event.Header
	}
''', '''	if event.Type != StreamHeaderEvent || event.Header == nil {
		return
	}
	header := *event.Header
	*tr.ptr = header
'''),
])
# 11. the command
ref("command", [
 ("cmd/gzip/main.go", '''	switch {
	case flag0:
		flagCLevel.Value = 0
	case flag1:
		flagCLevel.Value = 1
	case flag2:
		flagCLevel.Value = 2
	case flag3:
		flagCLevel.Value = 3
	case flag4:
		flagCLevel.Value = 4
	case flag5:
		flagCLevel.Value = 5
	case flag6:
		flagCLevel.Value = 6
	case flag7:
		flagCLevel.Value = 7
	case flag8:
		flagCLevel.Value = 8
	case flag9:
		flagCLevel.Value = 9
	}
''', '''	for level, set := range []bool{flag0, flag1, flag2, flag3, flag4, flag5, flag6, flag7, flag8, flag9} {
		if set {
			flagCLevel.Value = flate.CompressLevel(level)
			break
		}
	}
'''),
 ("cmd/gzip/main.go", '''	if flagDecompress {
		fr := flate.NewReader(r, opts...)

		nn, err := io.Copy(w, fr)
		if err != nil {
			log.Logger.Fatal().
				Int64("nn", nn).
				Err(err).
				Msg("io.Copy failed")
		}

		err = fr.Close()
		if err != nil {
			log.Logger.Fatal().
				Err(err).
				Msg("flate.Reader.Close failed")
		}
	} else {
''', '''	if flagDecompress {
		decompress(w, r, opts)
	} else {
'''),
 ("cmd/gzip/main.go", '''func doCompressOrDecompress(''', '''func decompress(w io.Writer, r io.Reader, opts []flate.Option) {
	fr := flate.NewReader(r, opts...)

	nn, err := io.CopyBuffer(w, struct{ io.Reader }{fr}, make([]byte, 5000))
	if err != nil {
		log.Logger.Fatal().
			Int64("nn", nn).
			Err(err).
			Msg("io.CopyBuffer failed")
	}

	if err = fr.Close(); err != nil {
		log.Logger.Fatal().
			Err(err).
			Msg("flate.Reader.Close failed")
	}
}

func doCompressOrDecompress('''),
])
# 12. statements reordered
ref("reorder", [
 ("reader.go", '''	fr.r = r
	fr.inputError = nil
	fr.readThreadWasStarted = false
	fr.readThreadWasStopped = false
	fr.outputErrorWasSet = false
	fr.stopIsForced = false

	fr.inputBitsDiscard()
	fr.inputBuffer.Clear()
	fr.decodeBuffer.Clear()
	fr.window.Clear()

	fr.outputError = nil
	fr.outputBuffer.Clear()
''', '''	fr.outputBuffer.Clear()
	fr.window.Clear()
	fr.decodeBuffer.Clear()
	fr.inputBuffer.Clear()
	fr.inputBitsDiscard()

	fr.stopIsForced = false
	fr.outputErrorWasSet = false
	fr.readThreadWasStopped = false
	fr.readThreadWasStarted = false
	fr.outputError, fr.inputError = nil, nil
	fr.r = r
'''),
 ("reader.go", '''	event.InputBytesTotal = fr.inputBytesTotal
	event.InputBytesStream = fr.inputBytesStream
	event.OutputBytesTotal = fr.outputBytesTotal
	event.OutputBytesStream = fr.outputBytesStream
	event.NumStreams = fr.numStreams
	event.Format = fr.actualFormat
	for _, tr := range fr.tracers {
''', '''	if len(fr.tracers) == 0 {
		return
	}
	event.Format = fr.actualFormat
	event.NumStreams = fr.numStreams
	event.OutputBytesStream, event.OutputBytesTotal = fr.outputBytesStream, fr.outputBytesTotal
	event.InputBytesStream, event.InputBytesTotal = fr.inputBytesStream, fr.inputBytesTotal
	for _, tr := range fr.tracers {
'''),
 ("reader.go", '''	expectedCRC32, ok := fr.inputBufferReadU32(binary.LittleEndian)
	if !ok {
		fr.propagateError(true)
		return false
	}

	contentLen, ok := fr.inputBufferReadU32(binary.LittleEndian)
	if !ok {
		fr.propagateError(true)
		return false
	}
''', '''	var trailer [8]byte
	q, ok := fr.inputBufferRead(trailer[:])
	if !ok {
		fr.propagateError(true)
		return false
	}

	expectedCRC32 := binary.LittleEndian.Uint32(q[:4])
	contentLen := binary.LittleEndian.Uint32(q[4:])
'''),
 ("reader.go", '''	len0, ok := fr.inputBufferReadU16(binary.LittleEndian)
	if !ok {
		fr.propagateError(true)
		return false
	}

	len1, ok := fr.inputBufferReadU16(binary.LittleEndian)
	if !ok {
		fr.propagateError(true)
		return false
	}

	if len1''', '''	both, ok := fr.inputBufferReadU32(binary.LittleEndian)
	if !ok {
		fr.propagateError(true)
		return false
	}
	len0, len1 := uint16(both), uint16(both>>16)

	if len1'''),
 ("writer.go", '''	fw.hybrid.Clear()
	fw.output.Clear()
	fw.obLen = 0
	fw.obBlock = 0
''', '''	fw.obBlock, fw.obLen = 0, 0
	fw.output.Clear()
	fw.hybrid.Clear()
'''),
 ("writer.go", '''	fw.inputBytesAdler32.Write(buf)
	fw.inputBytesCRC32.Write(buf)
	fw.inputBytesTotal += uint64(len(buf))
	fw.inputBytesStream += uint64(len(buf))
	return
''', '''	fw.consumed(buf)
	return
'''),
 ("writer.go", '''	fw.inputBytesAdler32.Write(buf)
	fw.inputBytesCRC32.Write(buf)
	fw.inputBytesTotal += uint64(len(buf))
	fw.inputBytesStream += uint64(len(buf))
	return buf
}
''', '''	fw.consumed(buf)
	return buf
}

func (fw *Writer) consumed(buf []byte) {
	nn := uint64(len(buf))
	fw.inputBytesStream += nn
	fw.inputBytesTotal += nn
	_, _ = fw.inputBytesCRC32.Write(buf)
	_, _ = fw.inputBytesAdler32.Write(buf)
}
'''),
])
