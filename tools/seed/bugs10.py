BUGS=[]
GZ='''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 99
trap 'rm -rf "$T"' EXIT
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -buildvcs=false" GOWORK=off
go build -o "$T/fgz" ./cmd/gzip || exit 98
Z="$T/fgz"
'''
def bug(id,prop,edits,needs,breaks,demo=None,**kw):
    if isinstance(edits,tuple): edits=[edits]
    d=dict(id=id,prop=prop,edits=edits,needs=needs,breaks=breaks,demo=demo); d.update(kw); BUGS.append(d)

bug('p15-sum-of-one','P15',('writer.go',"""	if fw.dict != nil {
		binary.BigEndian.PutUint32(storage[2:6], adler32.Checksum(fw.dict))
		storage[1] |= 0x20
		n = 6
	}
""","""	// 1 is the checksum of nothing.
	if sum := adler32.Checksum(fw.dict); sum != 1 {
		binary.BigEndian.PutUint32(storage[2:6], sum)
		storage[1] |= 0x20
		n = 6
	}
"""),
 'a dictionary whose Adler-32 is that of no data at all, such as 65521 zero bytes',
 'the zlib header does not announce the dictionary although it is used',
'''
func TestDemo(t *testing.T) {
	dict := make([]byte, 65521)
	data := make([]byte, 300)
	z := pack(t, data, flate.WithFormat(flate.ZlibFormat), flate.WithDictionary(dict))
	got, err := unpack(z, flate.WithFormat(flate.ZlibFormat), flate.WithDictionary(dict))
	if err != nil || !bytes.Equal(got, data) {
		t.Fatalf("%d bytes, %v", len(got), err)
	}
}
''')

bug('p05-crc-zero','P05',('reader.go',"""	if expectedCRC32 != computedCRC32 {
		fr.corruptf("invalid gzip CRC-32""","""	if expectedCRC32 != computedCRC32 && expectedCRC32 != 0 {
		fr.corruptf("invalid gzip CRC-32"""),
 'a gzip file whose trailer was damaged so that the checksum field reads zero (the length does not)',
 'the damage is not reported',
'''
func TestDemo(t *testing.T) {
	z := pack(t, []byte("some content"), flate.WithFormat(flate.GZIPFormat))
	copy(z[len(z)-8:], []byte{0, 0, 0, 0})
	if _, err := unpack(z, flate.WithFormat(flate.GZIPFormat)); err == nil {
		t.Fatal("accepted")
	}
}
''')

bug('p09-reset-after-finish','P09',('writer.go',"""	fw.err = nil
	fw.state = noStreamWriterState

	fw.hybrid.Clear()""","""	fw.err = nil
	if fw.state != closedStreamWriterState {
		fw.state = noStreamWriterState
	}

	fw.hybrid.Clear()"""),
 'Flush(FinishFlush), then Reset without a Close, then Close without any data',
 'nothing is written where an empty stream is due',
'''
func TestDemo(t *testing.T) {
	var a, b bytes.Buffer
	fw := flate.NewWriter(&a)
	fw.Write([]byte("x"))
	fw.Flush(flate.FinishFlush)
	fw.Reset(&b)
	if err := fw.Close(); err != nil {
		t.Fatal(err)
	}
	if got, err := unpack(b.Bytes(), flate.WithFormat(flate.ZlibFormat)); err != nil || len(got) != 0 || b.Len() == 0 {
		t.Fatalf("%x: %v", b.Bytes(), err)
	}
}
''')

bug('p03-repeat-after-zeros','P03',('reader.go',"""		lastLength := combinedLengths[i-1]
""","""		lastLength := byte(0)
		for k := i; k > 0 && lastLength == 0; k-- {
			lastLength = combinedLengths[k-1]
		}
"""),
 'a dynamic block whose description repeats "the previous length" right after a zero length (legal, but no common encoder does it)',
 'the codes are read wrong and the stream is refused or decoded wrongly',
'''
// bits appends the n low bits of v, least significant first.
type bw struct {
	p []byte
	n uint
}

func (w *bw) bits(v, n uint) {
	for ; n > 0; n-- {
		if w.n%8 == 0 {
			w.p = append(w.p, 0)
		}
		w.p[len(w.p)-1] |= byte(v&1) << (w.n % 8)
		v >>= 1
		w.n++
	}
}

func TestDemo(t *testing.T) {
	w := &bw{}
	w.bits(1, 1)
	w.bits(2, 2)
	w.bits(0, 5)  // 257 literal/length codes
	w.bits(0, 5)  // 1 distance code
	w.bits(14, 4) // 18 code length codes
	// order: 16 17 18 0 8 7 9 6 10 5 11 4 12 3 13 2 14 1
	// 0: length 2, 1: length 2, 16: length 2, 18: length 2
	for _, l := range []uint{2, 0, 2, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2} {
		w.bits(l, 3)
	}
	// codes in order 0=00 1=01 16=10 18=11, most significant bit first
	zero := func() { w.bits(0, 2) }
	one := func() { w.bits(2, 2) }
	dup := func(n uint) { w.bits(1, 2); w.bits(n-3, 2) }
	run := func(n uint) { w.bits(3, 2); w.bits(n-11, 7) }
	run(65)  // 0..64
	one()    // 65 = 'A'
	zero()   // 66
	dup(6)   // 67..72, zero like the one before
	run(138) // 73..210
	run(45)  // 211..255
	one()    // 256
	zero()   // distances
	// 'A' = 0, end = 1
	w.bits(0, 1)
	w.bits(0, 1)
	w.bits(1, 1)
	got, err := unpack(w.p, flate.WithFormat(flate.RawFormat))
	if err != nil || string(got) != "AA" {
		t.Fatalf("%q, %v", got, err)
	}
}
''')

bug('p12-level-zero-clears-strategy','P12',('options.go',"""	return func(o *options) { o.clevel = clevel }
""","""	return func(o *options) {
		o.clevel = clevel
		if clevel == 0 {
			// nothing to strategize about
			o.strategy = DefaultStrategy
		}
	}
"""),
 'a Writer with a strategy, Reset to level 0 and then to another level',
 'the strategy chosen before is lost',
'''
func TestDemo(t *testing.T) {
	data := bytes.Repeat([]byte("abc"), 200)
	var a, b, c bytes.Buffer
	fw := flate.NewWriter(&a, flate.WithStrategy(flate.HuffmanOnlyStrategy))
	fw.Write(data)
	fw.Close()
	fw.Reset(&b, flate.WithCompressLevel(0))
	fw.Write(data)
	fw.Close()
	fw.Reset(&c, flate.WithCompressLevel(6))
	fw.Write(data)
	fw.Close()
	if !bytes.Equal(a.Bytes(), c.Bytes()) {
		t.Fatalf("%d bytes, then %d", a.Len(), c.Len())
	}
}
''')

bug('p23-small-window','P23',('writer.go',"""	switch {
	case fw.strategy == HuffmanOnlyStrategy:
		defaultOpts.WindowNumBits = 8""","""	switch {
	case fw.strategy == HuffmanOnlyStrategy || (fw.wbits < 9 && fw.clevel < 4):
		// nothing worthwhile fits
		defaultOpts.WindowNumBits = 8"""),
 'the smallest window together with one of the fast levels',
 'repetition is not exploited at all',
'''
func TestDemo(t *testing.T) {
	data := bytes.Repeat(noise(60, 1), 50)
	z := pack(t, data, flate.WithWindowBits(8), flate.WithCompressLevel(2))
	if len(z) > len(data)/4 {
		t.Fatalf("%d bytes for %d", len(z), len(data))
	}
}
''')

bug('p10-short-write-retried','P10',('writer.go',"""	_, err := fw.output.WriteTo(fw.w)
	if err != nil {""","""	_, err := fw.output.WriteTo(fw.w)
	if err == io.ErrShortWrite {
		// the rest may fit now
		_, err = fw.output.WriteTo(fw.w)
	}
	if err != nil {"""),
 'an underlying writer which once accepts part of the data and returns io.ErrShortWrite',
 'the error is swallowed and the underlying writer is called again after it failed',
'''
type shortOnce struct {
	bytes.Buffer
	done bool
}

func (s *shortOnce) Write(p []byte) (int, error) {
	if !s.done && len(p) > 4 {
		s.done = true
		s.Buffer.Write(p[:2])
		return 2, io.ErrShortWrite
	}
	return s.Buffer.Write(p)
}

func TestDemo(t *testing.T) {
	var s shortOnce
	fw := flate.NewWriter(&s, flate.WithFormat(flate.GZIPFormat))
	fw.Write([]byte("data"))
	if err := fw.Close(); err != io.ErrShortWrite {
		t.Fatalf("Close: %v", err)
	}
}
''')

bug('p22-filename-base','P22',[('cmd/gzip/main.go',"""			FileName:     flagFileName,
""","""			FileName:     base(flagFileName),
"""),('cmd/gzip/main.go',"""func doCompressOrDecompress(""","""// base returns what follows the last slash.
func base(name string) string {
	return name[strings.LastIndexByte(name, '/')+1:]
}

func doCompressOrDecompress(""")],
 'a file name with a slash in it, which a header cannot hold',
 'the command stores a name other than the one given instead of reporting that it cannot be stored',
 sh=GZ+'''
if echo hi | "$Z" --filename some/name > "$T/o" 2>/dev/null; then echo "accepted"; exit 1; fi
exit 0
''')

bug('p20-numbers-of-empty','P20',[('writer.go',"""	fw.outputBytesStream = 0
	fw.numStreams++

	fw.hybrid.WindowClear()""","""	fw.outputBytesStream = 0
	if !fw.hybrid.IsEmpty() || fw.numStreams == 0 {
		fw.numStreams++
	}

	fw.hybrid.WindowClear()""")],
 'an empty stream after another one (Reset, then Close without data), traced',
 'two streams carry the same number',
'''
func TestDemo(t *testing.T) {
	var nums []uint
	var a, b bytes.Buffer
	fw := flate.NewWriter(&a, flate.WithTracers(flate.TracerFunc(func(e flate.Event) {
		if e.Type == flate.StreamBeginEvent {
			nums = append(nums, uint(e.NumStreams))
		}
	})))
	fw.Write([]byte("x"))
	fw.Close()
	fw.Reset(&b)
	fw.Close()
	if len(nums) != 2 || nums[0] == nums[1] {
		t.Fatal(nums)
	}
}
''')

