BUGS=[]
def bug(id,prop,edits,needs,breaks,demo=None,**kw):
    if isinstance(edits,tuple): edits=[edits]
    d=dict(id=id,prop=prop,edits=edits,needs=needs,breaks=breaks,demo=demo); d.update(kw); BUGS.append(d)

bug('p02-window-rounded-up','P02',('writer.go','		WindowNumBits:     uint(fw.wbits),       //  8 .. 15','		WindowNumBits:     uint(fw.wbits|9),     //  8 .. 15'),
 'a window of 256, 1 Ki or 4 Ki bytes and a repetition farther back than that but within twice the size',
 'matches reach beyond the window that the zlib header announces, so a decoder that allocates only the announced window cannot decode',
'''
func TestDemo(t *testing.T) {
	data := noise(3000, 2)
	for i := range data {
		data[i] = 'a' + data[i]&7
	}
	z := pack(t, data, flate.WithFormat(flate.ZlibFormat), flate.WithWindowBits(8))
	got, err := unpack(z, flate.WithFormat(flate.ZlibFormat), flate.WithWindowBits(8))
	if err != nil || !bytes.Equal(got, data) {
		t.Fatalf("a reader with the announced window fails: %v", err)
	}
}
''')

bug('p02-second-member-header-crc','P02',[('writer.go','''func (fw *Writer) writeHeaderGZIP() bool {
	fw.outputBytesCRC32.Reset()

''','''func (fw *Writer) writeHeaderGZIP() bool {
'''),('writer.go','''	fw.hybrid.Clear()
	fw.output.Clear()
''','''	fw.hybrid.Clear()
	fw.output.Clear()
	fw.outputBytesCRC32.Reset()
''')],
 'a second gzip member written by the same Writer after Flush(FinishFlush)',
 'the header CRC of every member after the first covers all previous output, so conforming readers reject the file',
'''
func TestDemo(t *testing.T) {
	var out bytes.Buffer
	fw := flate.NewWriter(&out, flate.WithFormat(flate.GZIPFormat))
	fw.Write([]byte("first"))
	fw.Flush(flate.FinishFlush)
	fw.Write([]byte("second"))
	fw.Close()
	zr, err := gzip.NewReader(bytes.NewReader(out.Bytes()))
	if err != nil {
		t.Fatal(err)
	}
	got, err := io.ReadAll(zr)
	if err != nil || string(got) != "firstsecond" {
		t.Fatalf("%q, %v", got, err)
	}
	// flate checks header CRCs even more strictly
	got, err = unpack(out.Bytes(), flate.WithFormat(flate.GZIPFormat))
	if err != nil || string(got) != "firstsecond" {
		t.Fatalf("%q, %v", got, err)
	}
}
''')

ZBITS='''
// bits collects a DEFLATE bit stream.
type bits struct {
	out  []byte
	acc  uint
	nacc uint
}

func (b *bits) put(v, n uint) {
	b.acc |= v << b.nacc
	b.nacc += n
	for b.nacc >= 8 {
		b.out = append(b.out, byte(b.acc))
		b.acc >>= 8
		b.nacc -= 8
	}
}

// code writes a Huffman code (most significant bit first).
func (b *bits) code(v, n uint) {
	for i := int(n) - 1; i >= 0; i-- {
		b.put((v>>uint(i))&1, 1)
	}
}

func (b *bits) bytes() []byte {
	if b.nacc > 0 {
		return append(append([]byte{}, b.out...), byte(b.acc))
	}
	return b.out
}
'''
SCR='''
var order = [19]int{16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15}

// canon returns the canonical codes of the given lengths.
func canon(lens []uint) []uint {
	codes := make([]uint, len(lens))
	code := uint(0)
	for n := uint(1); n <= 15; n++ {
		for i, l := range lens {
			if l == n {
				codes[i] = code
				code++
			}
		}
		code <<= 1
	}
	return codes
}
'''

bug('p03-hdist-thirty','P03',('reader.go','	if numD > logicalNumDCodes {','	if numD >= logicalNumDCodes {'),
 'a dynamic block of a foreign encoder that uses the last distance code (distances above 24576)',
 'HDIST = 30 is a legal count but is refused as corrupt',
'''
func TestDemo(t *testing.T) {
	head := noise(2000, 7)
	data := append(append(append([]byte{}, head...), noise(28000, 9)...), head...)
	for i := range data {
		data[i] &= 15
	}
	copy(data[30000:], data[:2000])
	var out bytes.Buffer
	zw, _ := stdflate.NewWriter(&out, 9)
	zw.Write(data)
	zw.Close()
	got, err := unpack(out.Bytes(), flate.WithFormat(flate.RawFormat))
	if err != nil || !bytes.Equal(got, data) {
		t.Fatalf("%d bytes, %v", len(got), err)
	}
}
''')

bug('p03-repeat-across-alphabets','P03',('reader.go','''	total := numLL + numD
	combinedLengths := make([]byte, total)
	i := uint(0)
	for i < total {
		sym, ok := fr.readSymbol(&fr.hd0)
		if !ok {
			fr.corruptf("degenerate bootstrap Huffman code")
			return false
		}

		i, ok = fr.decodeX(sym, combinedLengths, i, total)
		if !ok {
			return false
		}
	}
''','''	total := numLL + numD
	combinedLengths := make([]byte, total)
	i := uint(0)
	for _, limit := range [2]uint{numLL, total} {
		for i < limit {
			sym, ok := fr.readSymbol(&fr.hd0)
			if !ok {
				fr.corruptf("degenerate bootstrap Huffman code")
				return false
			}

			i, ok = fr.decodeX(sym, combinedLengths, i, limit)
			if !ok {
				return false
			}
		}
	}
'''),
 'a dynamic block whose code length repeat runs from the literal/length lengths into the distance lengths, as other encoders emit',
 'the two alphabets are decoded one after the other, so a legal repeat across the boundary is refused as corrupt',
ZBITS+SCR+'''
func TestDemo(t *testing.T) {
	// literal lengths: 'a' and 256 have 1 bit; HLIT=257, HDIST=2; lengths
	// of the distances: 1 1, the first of which comes from a repeat that
	// starts ... instead: zeros 257-? the tail of zeros crosses: use
	// symbols 'a' (1 bit), 256 (2), 257 (2) then zeros 258..259 and two
	// zero distances in one run of 4 zeros, then a distance of length 1.
	lens := make([]uint, 260)
	lens['a'], lens[256], lens[257] = 1, 2, 2
	ll := canon(lens)
	var b bits
	b.put(1, 1)
	b.put(2, 2)
	b.put(260-257, 5)
	b.put(3-1, 5)
	b.put(18-4, 4)
	// code length code: symbols 0..2, 17, 18
	var cl [19]uint
	cl[1], cl[2], cl[17], cl[18] = 2, 2, 2, 2
	for i := 0; i < 18; i++ {
		b.put(cl[order[i]], 3)
	}
	cc := canon(cl[:])
	put := func(s int) { b.code(cc[s], cl[s]) }
	put(18)
	b.put(97-11, 7)
	put(1)
	put(18)
	b.put(138-11, 7)
	put(18)
	b.put(20-11, 7)
	put(2)
	put(2)
	put(17)
	b.put(4-3, 3) // 258, 259 and the distances 0, 1
	put(1)        // distance symbol 2 = distance 3
	for i := 0; i < 3; i++ {
		b.code(ll['a'], 1)
	}
	b.code(ll[257], 2)
	b.code(0, 1)
	b.code(ll[256], 2)
	z := append(b.bytes(), 0)
	want, err := io.ReadAll(stdflate.NewReader(bytes.NewReader(z)))
	if err != nil || string(want) != "aaaaaa" {
		t.Skipf("demo stream: %q %v", want, err)
	}
	z = z[:len(z)-1]
	got, err := unpack(z, flate.WithFormat(flate.RawFormat))
	if err != nil || string(got) != "aaaaaa" {
		t.Fatalf("%q, %v", got, err)
	}
}
''')

bug('p04-stored-empty-nlen','P04',('reader.go','	if len1 != ^len0 {','	if len0 != 0 && len1 != ^len0 {'),
 'an empty stored block whose NLEN field is damaged',
 'a violation of the DEFLATE format is accepted silently',
'''
func TestDemo(t *testing.T) {
	z := []byte{0x00, 0, 0, 0x12, 0x34, 0x01, 1, 0, 0xfe, 0xff, 'x'}
	got, err := unpack(z, flate.WithFormat(flate.RawFormat))
	var ce flate.CorruptInputError
	if !errors.As(err, &ce) || len(got) != 0 {
		t.Fatalf("%q, %v", got, err)
	}
}
''')

bug('p04-stale-distance-code','P04',('reader.go','''	if err := fr.hd2.Init(sD); err != nil {
		fr.corruptf("failed''','''	if sizesAllZeroes(sD) {
		// no distances in this block
	} else if err := fr.hd2.Init(sD); err != nil {
		fr.corruptf("failed'''),
 'a dynamic block without distance codes that nevertheless contains a length symbol, after a dynamic block with distance codes',
 'the match is decoded with the distance code of the earlier block instead of being reported',
ZBITS+SCR+'''
func dyn(b *bits, final uint, dist bool) (code func(sym int)) {
	lens := make([]uint, 258)
	lens['a'], lens[256], lens[257] = 1, 2, 2
	ll := canon(lens)
	b.put(final, 1)
	b.put(2, 2)
	b.put(258-257, 5)
	b.put(0, 5)
	b.put(18-4, 4)
	var cl [19]uint
	cl[1], cl[2], cl[0], cl[18] = 2, 2, 2, 2
	for i := 0; i < 18; i++ {
		b.put(cl[order[i]], 3)
	}
	cc := canon(cl[:])
	put := func(s int) { b.code(cc[s], cl[s]) }
	put(18)
	b.put(97-11, 7)
	put(1)
	put(18)
	b.put(138-11, 7)
	put(18)
	b.put(20-11, 7)
	put(2)
	put(2)
	if dist {
		put(1)
	} else {
		put(0)
	}
	return func(sym int) { b.code(ll[sym], lens[sym]) }
}

func TestDemo(t *testing.T) {
	var b bits
	c := dyn(&b, 0, true)
	c('a')
	c(257)
	b.code(0, 1)
	c(256)
	c = dyn(&b, 1, false)
	c(257)
	b.code(0, 1)
	c(256)
	got, err := unpack(b.bytes(), flate.WithFormat(flate.RawFormat))
	var ce flate.CorruptInputError
	if !errors.As(err, &ce) || string(got) != "aaaa" {
		t.Fatalf("%q, %v", got, err)
	}
}
''')

bug('p04-long-zero-run-clamped','P04',('reader.go','''		count := 11 + uint(out)
		if count > (total - i) {
			fr.corruptf("attempt to repeat %d times but only %d codes remain", count, total-i)
			return i, false
		}
''','''		count := 11 + uint(out)
		if count > (total - i) {
			count = total - i
		}
'''),
 'a dynamic block whose last code length symbol is a long run of zeros that overruns the announced number of codes',
 'a repeat past the end is silently clamped instead of being reported',
ZBITS+SCR+'''
func TestDemo(t *testing.T) {
	lens := make([]uint, 258)
	lens['a'], lens[256] = 1, 1
	ll := canon(lens)
	var b bits
	b.put(1, 1)
	b.put(2, 2)
	b.put(258-257, 5)
	b.put(0, 5)
	b.put(18-4, 4)
	var cl [19]uint
	cl[1], cl[18] = 1, 1
	for i := 0; i < 18; i++ {
		b.put(cl[order[i]], 3)
	}
	cc := canon(cl[:])
	put := func(s int) { b.code(cc[s], cl[s]) }
	put(18)
	b.put(97-11, 7)
	put(1)
	put(18)
	b.put(138-11, 7)
	put(18)
	b.put(20-11, 7)
	put(1)
	put(18) // only two codes remain
	b.put(0, 7)
	b.code(ll['a'], 1)
	b.code(ll[256], 1)
	got, err := unpack(b.bytes(), flate.WithFormat(flate.RawFormat))
	var ce flate.CorruptInputError
	if !errors.As(err, &ce) || len(got) != 0 {
		t.Fatalf("%q, %v", got, err)
	}
}
''')

bug('p05-truncated-comment','P05',('reader.go','''		str, ok := fr.inputBufferReadStringZ()
		if !ok {
			fr.propagateError(true)
			return false
		}

		header.Comment = str''','''		str, ok := fr.inputBufferReadStringZ()
		if !ok {
			fr.propagateError(header.FileName != "")
			return false
		}

		header.Comment = str'''),
 'a gzip file with a comment but no file name, cut inside the comment',
 'the truncated file passes as a complete empty one',
'''
func TestDemo(t *testing.T) {
	var out bytes.Buffer
	fw := flate.NewWriter(&out, flate.WithFormat(flate.GZIPFormat))
	fw.SetHeader(flate.Header{Comment: "a comment"})
	fw.Write([]byte("data"))
	fw.Close()
	for n := 1; n < out.Len(); n++ {
		_, err := unpack(out.Bytes()[:n], flate.WithFormat(flate.GZIPFormat))
		if err != io.ErrUnexpectedEOF {
			t.Fatalf("cut at %d: %v", n, err)
		}
	}
}
''')

bug('p05-isize-zero','P05',('reader.go','	if contentLen != uint32(fr.outputBytesStream) {','	if contentLen != 0 && contentLen != uint32(fr.outputBytesStream) {'),
 'a gzip file whose trailer length was overwritten with zero',
 'the length check is skipped for a zero field although the content is not empty',
'''
func TestDemo(t *testing.T) {
	z := pack(t, []byte("hello"), flate.WithFormat(flate.GZIPFormat))
	copy(z[len(z)-4:], []byte{0, 0, 0, 0})
	_, err := unpack(z, flate.WithFormat(flate.GZIPFormat))
	var ce flate.CorruptInputError
	if !errors.As(err, &ce) {
		t.Fatal(err)
	}
}
''')

bug('p05-cut-in-isize','P05',('reader.go','''	contentLen, ok := fr.inputBufferReadU32(binary.LittleEndian)
	if !ok {
		fr.propagateError(true)
		return false
	}

	if expectedCRC32 != computedCRC32 {''','''	if expectedCRC32 != computedCRC32 {'''),
 'a gzip file cut between the CRC and the end of the length field',
 'the length is read after the checksum comparison; when it is missing the file is accepted as complete',
'''
func TestDemo(t *testing.T) {
	z := pack(t, []byte("hello"), flate.WithFormat(flate.GZIPFormat))
	for n := len(z) - 4; n < len(z); n++ {
		if _, err := unpack(z[:n], flate.WithFormat(flate.GZIPFormat)); err != io.ErrUnexpectedEOF {
			t.Fatalf("cut at %d of %d: %v", n, len(z), err)
		}
	}
}
''')
BUGS[-1]['edits'].append(('reader.go','''	if contentLen != uint32(fr.outputBytesStream) {''','''	contentLen, ok := fr.inputBufferReadU32(binary.LittleEndian)
	if !ok {
		fr.propagateError(false)
		return false
	}

	if contentLen != uint32(fr.outputBytesStream) {'''))

bug('p06-os-table-lookup','P06',[('enum_ostype.go','var gzipOSTypeDecodeTable = map[byte]OSType{','var gzipOSTypeDecodeTable = [...]OSType{'),
 ('reader.go','	fr.header.OSType = gzipOSTypeDecodeTable[p[9]]','	if p[9] != 0xff {\n		fr.header.OSType = gzipOSTypeDecodeTable[p[9]&0x0f]\n	}')],
 'a gzip header whose OS byte ends in 14 or 15 and is not 255',
 'the decoder goroutine panics with an index out of range and takes the process down',
'''
func TestDemo(t *testing.T) {
	z := pack(t, []byte("hello"), flate.WithFormat(flate.GZIPFormat))
	z[3] &^= 2 // no header CRC
	z = append(z[:10], z[12:]...)
	for os := 0; os < 256; os++ {
		z[9] = byte(os)
		if got, err := unpack(z, flate.WithFormat(flate.GZIPFormat)); err != nil || string(got) != "hello" {
			t.Fatalf("OS %d: %q %v", os, got, err)
		}
	}
}
''')

bug('p06-extra-trailing-bytes','P06',('header.go','	for (index + 4) <= length {','	for (index + 2) <= length {'),
 'a gzip extra field with two or three bytes after its last complete record',
 'parsing the extra field panics and takes the process down',
'''
func TestDemo(t *testing.T) {
	for n := 0; n < 16; n++ {
		var xd flate.ExtraData
		xd.Parse(make([]byte, n))
		xd.Parse(bytes.Repeat([]byte{1}, n))
	}
}
''')

bug('p07-name-across-refill','P07',('reader.go','''	for {
		if fr.inputBuffer.IsEmpty() {
			fr.inputBufferFill()
			if fr.inputBuffer.IsEmpty() {
				break
			}
		}

		ch, _ := fr.inputBuffer.ReadByte()
		fr.inputBytesTotal++''','''	for {
		if fr.inputBuffer.IsEmpty() {
			bb.Reset()
			fr.inputBufferFill()
			if fr.inputBuffer.IsEmpty() {
				break
			}
		}

		ch, _ := fr.inputBuffer.ReadByte()
		fr.inputBytesTotal++'''),
 'a gzip file name or comment that straddles a refill of the input buffer',
 'the part of the string before the refill is lost, depending on the memory level',
'''
func TestDemo(t *testing.T) {
	var out bytes.Buffer
	fw := flate.NewWriter(&out, flate.WithFormat(flate.GZIPFormat))
	name := strings.Repeat("abcdefghij", 20)
	fw.SetHeader(flate.Header{FileName: name})
	fw.Write([]byte("data"))
	fw.Close()
	for ml := flate.MemoryLevel(1); ml <= 9; ml++ {
		var h flate.Header
		_, err := unpack(out.Bytes(), flate.WithFormat(flate.GZIPFormat), flate.WithMemoryLevel(ml), flate.WithTracers(flate.CaptureHeader(&h)))
		if err != nil || h.FileName != name {
			t.Fatalf("memory level %d: %q %v", ml, h.FileName, err)
		}
	}
}
''')

bug('p07-short-multibyte-field','P07',('reader.go','''		if fr.inputBuffer.IsEmpty() {
			fr.inputBufferFill()
			if fr.inputBuffer.IsEmpty() {
				break
			}
		}
		nn, _ := fr.inputBuffer.Read(p[pIndex:])
		pIndex += uint(nn)''','''		if fr.inputBuffer.IsEmpty() {
			if fr.inputError != nil {
				break
			}
			fr.inputBufferFill()
			if fr.inputError != nil && fr.inputBuffer.Len() < (pLen-pIndex) {
				break
			}
		}
		nn, _ := fr.inputBuffer.Read(p[pIndex:])
		pIndex += uint(nn)'''),
 'a stored block cut by the end of the input, read through a buffer that has to be refilled in the middle of the block',
 'how many bytes of a truncated stored block are delivered depends on the memory level',
'''
func TestDemo(t *testing.T) {
	z := []byte{1, 0xe8, 3, 0x17, 0xfc} // a stored block of 1000 bytes
	z = append(z, noise(700, 1)...)
	for ml := flate.MemoryLevel(1); ml <= 9; ml++ {
		got, err := unpack(z, flate.WithFormat(flate.RawFormat), flate.WithMemoryLevel(ml))
		if err != io.ErrUnexpectedEOF || !bytes.Equal(got, z[5:]) {
			t.Fatalf("memory level %d: %d bytes, %v", ml, len(got), err)
		}
	}
}
''')

bug('p08-fullflush-restores-dict','P08',('writer.go','''	case FullFlush:
		if !writeStoredBlock(fw, nil, false) {
			return false
		}
		fw.hybrid.WindowClear()
''','''	case FullFlush:
		if !writeStoredBlock(fw, nil, false) {
			return false
		}
		fw.hybrid.WindowClear()
		if fw.dict != nil {
			fw.hybrid.SetWindow(fw.dict)
		}
'''),
 'FullFlush on a Writer with a preset dictionary, followed by data that resembles the dictionary',
 'after the full flush matches refer to the dictionary as if it preceded the data directly, so the content is decoded wrongly',
'''
func TestDemo(t *testing.T) {
	dict := []byte("the quick brown fox jumps over the lazy dog")
	var out bytes.Buffer
	fw := flate.NewWriter(&out, flate.WithFormat(flate.ZlibFormat), flate.WithDictionary(dict))
	fw.Write([]byte("0123456789"))
	fw.Flush(flate.FullFlush)
	fw.Write([]byte("quick brown fox"))
	fw.Close()
	got, err := unpack(out.Bytes(), flate.WithFormat(flate.ZlibFormat), flate.WithDictionary(dict))
	if err != nil || string(got) != "0123456789quick brown fox" {
		t.Fatalf("%q %v", got, err)
	}
}
''')

bug('p08-flush-without-new-data','P08',('writer.go','''	if !fw.compressImpl(true) {
		return false
	}

	if flushType == FinishFlush && fw''','''	pending := !fw.hybrid.IsEmpty()
	if !fw.compressImpl(true) {
		return false
	}

	if flushType == SyncFlush && !pending && fw.obLen == 0 {
		return true
	}

	if flushType == FinishFlush && fw'''),
 'SyncFlush when all data was already compressed and the compressed bits happen to end on a byte boundary, with an underlying writer that buffers (has a Flush method)',
 'Flush returns without passing the flush on to the underlying writer, so the data is not on its way to the receiver',
'''
type buffered struct {
	pending, sent []byte
}

func (b *buffered) Write(p []byte) (int, error) { b.pending = append(b.pending, p...); return len(p), nil }
func (b *buffered) Flush() error {
	b.sent = append(b.sent, b.pending...)
	b.pending = nil
	return nil
}

func TestDemo(t *testing.T) {
	for n := 4096; n < 4200; n++ {
		var b buffered
		fw := flate.NewWriter(&b, flate.WithFormat(flate.RawFormat), flate.WithCompressLevel(0), flate.WithMemoryLevel(1))
		data := noise(n, 5)
		fw.Write(data)
		fw.Flush(flate.SyncFlush)
		b2 := b.sent
		fw.Flush(flate.SyncFlush)
		_ = b2
		if len(b.pending) != 0 {
			t.Fatalf("%d bytes have not reached the receiver", len(b.pending))
		}
		fw.Flush(flate.BlockFlush)
		fw.Write(data[:512])
		fw.Write(data[512:1024])
		fw.Flush(flate.SyncFlush)
		if len(b.pending) != 0 {
			t.Fatalf("%d bytes have not reached the receiver", len(b.pending))
		}
	}
}
''')
