BUGS=[]
GZ='''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 99
trap 'rm -rf "$T"' EXIT
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -buildvcs=false" GOWORK=off
go build -o "$T/fgz" ./cmd/gzip || exit 98
Z="$T/fgz"
'''
def bug(id,prop,edits,needs,breaks,demo=None,**kw):
    if isinstance(edits,tuple): edits=[edits]
    d=dict(id=id,prop=prop,edits=edits,needs=needs,breaks=breaks,demo=demo); d.update(kw); BUGS.append(d)



bug('p15-large-dictionary-unchecked','P15',('reader.go',"""		if expectedAdler32 != computedAdler32 {
			fr.corruptf("zlib stream was compressed with a different""","""		if expectedAdler32 != computedAdler32 && uint(len(fr.dict)) <= fr.window.Size() {
			fr.corruptf("zlib stream was compressed with a different"""),
 'a Reader given a dictionary longer than its window, which is not the one the zlib stream names',
 'the stream is decoded with the wrong dictionary instead of being refused',
'''
func TestDemo(t *testing.T) {
	d1 := noise(40000, 3)
	d2 := append([]byte("other"), d1...)
	z := pack(t, []byte("hello"), flate.WithFormat(flate.ZlibFormat), flate.WithDictionary(d1))
	if _, err := unpack(z, flate.WithFormat(flate.ZlibFormat), flate.WithDictionary(d2)); err == nil {
		t.Fatal("accepted")
	}
}
''')

bug('p27-complement-checked-late','P27',('reader.go',"""	if len1 != ^len0 {
		fr.corruptf("got LEN %#04x NLEN %#04x, expected NLEN %#04x", len0, len1, ^len0)
		return false
	}

	p, ok := fr.inputBufferRead(make([]byte, len0))
	if !ok {
		fr.decodeBufferWrite(p)
		fr.propagateError(true)
		return false
	}
""","""	p, ok := fr.inputBufferRead(make([]byte, len0))
	if len1 != ^len0 {
		fr.corruptf("got LEN %#04x NLEN %#04x, expected NLEN %#04x", len0, len1, ^len0)
		return false
	}
	if !ok {
		fr.decodeBufferWrite(p)
		fr.propagateError(true)
		return false
	}
"""),
 'a stored block whose length and complement disagree, with more data behind them',
 'the reported position is up to 64 KiB behind the fault',
'''
func TestDemo(t *testing.T) {
	in := append([]byte{1, 100, 0, 0, 0}, make([]byte, 200)...)
	_, err := unpack(in, flate.WithFormat(flate.RawFormat))
	var ce flate.CorruptInputError
	if !errors.As(err, &ce) || ce.OffsetStream > 8 {
		t.Fatal(err)
	}
}
''')

bug('p01-distance-32768','P01',('token.go',"""	case t.distance <= 32768:
		d := (t.distance - 1)
		k := 16 - bits.LeadingZeros16(d)
""","""	case t.distance <= 32768:
		d := (t.distance - 1) % 32767
		k := 16 - bits.LeadingZeros16(d|1)
"""),
 'a repetition at a distance of exactly 32768 bytes',
 'it is encoded as another distance',
'''
func TestDemo(t *testing.T) {
	for n := 32760; n < 32775; n++ {
		x := noise(n, 1)
		in := append(append(append([]byte{}, x...), x[:100]...), 1, 2, 3)
		p, err := unpack(pack(t, in, flate.WithFormat(flate.RawFormat)), flate.WithFormat(flate.RawFormat))
		if err != nil || !bytes.Equal(p, in) {
			t.Fatal(n, err)
		}
	}
}
''')

bug('p28-pooled-capacity','P28',('writer.go',"""	for available != 0 {
		p, distance, length, found := fw.inputBufferAdvance()
""","""	for available != 0 {
		// no need to grow the tokens again: begin another block instead
		if n := len(*tokens); n >= 16384 && n+1 >= cap(*tokens) && fw.strategy != FixedStrategy {
			*tokens = append(*tokens, makeStopToken())
			if !compressTokens(fw, bb.Bytes(), *tokens, false) {
				return false
			}
			bb.Reset()
			*tokens = (*tokens)[:0]
		}
		p, distance, length, found := fw.inputBufferAdvance()
"""),
 'a Writer at a high memory level whose token storage was last used by one of the fixed strategy',
 'it splits blocks elsewhere than with new storage',
'''
func TestDemo(t *testing.T) {
	var outs [][]byte
	for i := 0; i < 6; i++ {
		in := noise(60000, 5)
		if i == 0 || i == 3 {
			pack(t, noise(120000, 6), flate.WithMemoryLevel(9), flate.WithStrategy(flate.FixedStrategy))
		}
		if i == 2 || i == 4 {
			runtime.GC()
			runtime.GC()
		}
		outs = append(outs, pack(t, in, flate.WithMemoryLevel(8)), pack(t, in[:20000], flate.WithMemoryLevel(8)))
	}
	for i, o := range outs[2:] {
		if !bytes.Equal(o, outs[i%2]) {
			t.Fatal("different output")
		}
	}
}
''')

A386='GOARCH=386 '
bug('p31-combined-write','P31',('token.go',"""	if symLL >= 0 {
		hc := hLL.Encode(symLL)
""","""	if symLL >= 0 && symD >= 0 {
		// one write for the whole match
		ll, d := hLL.Encode(symLL), hD.Encode(symD)
		bits := block(ll.Bits) | bitsLL<<ll.Size
		size := ll.Size + sizeLL
		bits |= block(d.Bits) << size
		size += d.Size
		if size+sizeD <= 48 {
			bits |= bitsD << size
			if n := size + sizeD; n > bitsPerBlock {
				return bw.outputBitsWrite(bitsPerBlock, bits) && bw.outputBitsWrite(n-bitsPerBlock, 0)
			}
			return bw.outputBitsWrite(size+sizeD, bits)
		}
	}

	if symLL >= 0 {
		hc := hLL.Encode(symLL)
"""),
 'a 32-bit platform, and a match whose codes and extra bits together exceed 32 bits',
 'the upper bits of the distance are lost',
'''
func TestDemo(t *testing.T) {
	in := noise(300000, 1)
	for i := 100; i+300 < len(in); i += 30 {
		copy(in[i:i+12], in[i-1:])
		copy(in[i:i+12], bytes.Repeat(in[i-1:i], 12))
	}
	for i := 40000; i+300 < len(in); i += 7001 {
		copy(in[i:i+200], in[i-30000-i%2700:])
	}
	p, err := unpack(pack(t, in, flate.WithFormat(flate.RawFormat)), flate.WithFormat(flate.RawFormat))
	if err != nil || !bytes.Equal(p, in) {
		t.Fatal(err)
	}
}
''',arch=A386)

bug('p16-crc-fold','P16',('internal/crc32/crc32.go',"""	if length >= 16 {
		for length >= 8 {
			sum ^= binary.LittleEndian.Uint32(p)
""","""	if length >= 16 {
		if length >= 1<<12 && sum == 0 {
			// nothing but leading zeros so far: skip those of the data
			for length >= 8 && binary.LittleEndian.Uint64(p) == 0 {
				p = p[8:]
				length -= 8
			}
			if length < 16 {
				length = 0
			}
		}
		for length >= 8 {
			sum ^= binary.LittleEndian.Uint32(p)
"""),
 'the portable CRC-32, continued at a register of zero, with only zeros but for up to 15 bytes at the end of at least 4096',
 'the loop over whole words is left out although eight or more bytes remain -- they are summed bytewise: none',
None)

bug('p18-length-unlocked','P18',('writer.go',"""	var i, j uint
	for i < length {
		nn, err := fw.hybrid.Write(buf[i:])
""","""	var i, j uint
	for i < length {
		if i != 0 && fw.state != openStreamWriterState {
			// let others in between the pieces of a big Write
			fw.mu.Unlock()
			fw.mu.Lock()
		}
		nn, err := fw.hybrid.Write(buf[i:])
"""),
 'x','x',None)
BUGS[:]=[b for b in BUGS if b['demo']]

bug('p23-runs-not-found','P23',('writer.go',"""		defaultOpts.WindowNumBits = 8
		defaultOpts.MinMatchLength = 3
		defaultOpts.MaxMatchDistance = 1
""","""		defaultOpts.WindowNumBits = 8
		defaultOpts.BufferNumBits = 9
		defaultOpts.MinMatchLength = 3
		defaultOpts.MaxMatchLength = 64
		defaultOpts.MaxMatchDistance = 1
"""),
 'the run-length strategy at a memory level above 1',
 'every block holds at most 512 bytes: runs cost many times as much',
'''
func TestDemo(t *testing.T) {
	in := make([]byte, 200000)
	for i := range in {
		in[i] = byte(i / 1000)
	}
	z := pack(t, in, flate.WithFormat(flate.RawFormat), flate.WithStrategy(flate.HuffmanRLEStrategy), flate.WithMemoryLevel(9))
	if len(z) > 4000 {
		t.Fatal(len(z))
	}
}
''')

bug('p05-crc-of-text','P05',('reader.go',"""	if expectedCRC32 != computedCRC32 {
		fr.corruptf("invalid gzip CRC-32""","""	if expectedCRC32 != computedCRC32 && (expectedCRC32 != 0 || fr.header.FileName == "") {
		fr.corruptf("invalid gzip CRC-32"""),
 'a gzip file with a file name whose CRC-32 was overwritten with zeros',
 'it passes as intact',
'''
func TestDemo(t *testing.T) {
	var out bytes.Buffer
	fw := flate.NewWriter(&out, flate.WithFormat(flate.GZIPFormat))
	fw.SetHeader(flate.Header{FileName: "x"})
	fw.Write([]byte("hello, hello"))
	fw.Close()
	z := out.Bytes()
	copy(z[len(z)-8:], []byte{0, 0, 0, 0})
	if _, err := unpack(z, flate.WithFormat(flate.GZIPFormat)); err == nil {
		t.Fatal("accepted")
	}
}
''')

bug('p14-name-with-mtime-zero','P14',('reader.go',"""	case 0x02:
		fr.header.CompressLevel = 9
	case 0x04:
		fr.header.CompressLevel = 1
	}
""","""	case 0x02:
		fr.header.CompressLevel = 9
	case 0x04:
		fr.header.CompressLevel = 1
	default:
		if mtime == 1 {
			// written by tools which mean "unknown"
			fr.header.LastModified = time.Time{}
		}
	}
"""),
 'a gzip header with the time 1 second after the epoch, written with a level other than the fastest and the best',
 'the time is lost',
'''
func TestDemo(t *testing.T) {
	var out bytes.Buffer
	fw := flate.NewWriter(&out, flate.WithFormat(flate.GZIPFormat))
	fw.SetHeader(flate.Header{LastModified: time.Unix(1, 0)})
	fw.Write([]byte("hello, hello"))
	fw.Close()
	var got time.Time
	fr := flate.NewReader(&out, flate.WithTracers(flate.TracerFunc(func(e flate.Event) {
		if e.Header != nil {
			got = e.Header.LastModified
		}
	})))
	io.ReadAll(fr)
	if got.Unix() != 1 {
		t.Fatal(got)
	}
}
''')

bug('p09-flush-after-blockflush','P09',('writer.go',"""	case SyncFlush:
		if !writeStoredBlock(fw, nil, false) {""","""	case SyncFlush:
		if fw.inputBytesStream == 0 {
			break
		}
		if !writeStoredBlock(fw, nil, false) {"""),
 'x','x',None)
BUGS[:]=[b for b in BUGS if b['demo']]

bug('p13-long-raw-members','P13',('reader.go',"""	if fr.inputBuffer.Len() < 2 {
		fr.inputBufferFill()
	}
""","""	if fr.inputBuffer.Len() < 2 && fr.numStreams < 3 {
		fr.inputBufferFill()
	}
"""),
 'a file of three or more members in auto-detected format, one of which begins exactly at the last byte of an input buffer',
 'the member is taken for a raw one',
'''
func TestDemo(t *testing.T) {
	for n := 60; n < 200; n++ {
		z := pack(t, noise(n, 1), flate.WithFormat(flate.ZlibFormat))
		e := pack(t, []byte("x"), flate.WithFormat(flate.ZlibFormat))
		in := append(append(append([]byte{}, z...), e...), z...)
		in = append(in, e...)
		p, err := unpack(in, flate.WithMemoryLevel(1))
		if err != nil || len(p) != 2*n+2 {
			t.Fatal(n, len(p), err)
		}
	}
}
''')

bug('p20-trees-of-reused-decoder','P20',('reader.go',"""			CodeSizes:          sX[:],
			LiteralLengthSizes: sLL,
			DistanceSizes:      sD,
""","""			CodeSizes:          sX[:],
			LiteralLengthSizes: fr.hd1.SizeBySymbol(),
			DistanceSizes:      fr.hd2.SizeBySymbol(),
"""),
 'x','x',None)
BUGS[:]=[b for b in BUGS if b['demo']]

bug('p03-xlen-signed','P03',('reader.go',"""		rawXData, ok := fr.inputBufferRead(make([]byte, rawXLen))
""","""		if rawXLen > 1<<15 {
			fr.corruptf("gzip extra field of %d bytes is too long", rawXLen)
			return false
		}

		rawXData, ok := fr.inputBufferRead(make([]byte, rawXLen))
"""),
 'a gzip member with an extra field of more than 32768 bytes',
 'the valid file is refused',
'''
func TestDemo(t *testing.T) {
	var out bytes.Buffer
	gw := gzip.NewWriter(&out)
	gw.Extra = make([]byte, 40000)
	gw.Extra[0], gw.Extra[1] = 'A', 'B'
	gw.Extra[2], gw.Extra[3] = byte(39996&255), byte(39996>>8)
	gw.Write([]byte("hello"))
	gw.Close()
	p, err := unpack(out.Bytes(), flate.WithFormat(flate.GZIPFormat))
	if err != nil || string(p) != "hello" {
		t.Fatal(err)
	}
}
''')

bug('p04-second-block-distance','P04',('reader.go',"""	default:
		fr.corruptf("invalid distance symbol %d", symbol)
		return makeInvalidToken(), false
	}
""","""	case length < 3 || fr.hLL != &fr.hd1:
		fr.corruptf("invalid distance symbol %d", symbol)
		return makeInvalidToken(), false

	default:
		distance = 1
		additionalBits = 0
	}
"""),
 'a dynamic block which uses distance symbol 30 or 31',
 'x',None)
BUGS[:]=[b for b in BUGS if b['demo']]
