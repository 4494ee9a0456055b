BUGS=[]
GZ='''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 99
trap 'rm -rf "$T"' EXIT
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -buildvcs=false" GOWORK=off
go build -o "$T/fgz" ./cmd/gzip || exit 98
Z="$T/fgz"
'''
def bug(id,prop,edits,needs,breaks,demo=None,**kw):
    if isinstance(edits,tuple): edits=[edits]
    d=dict(id=id,prop=prop,edits=edits,needs=needs,breaks=breaks,demo=demo); d.update(kw); BUGS.append(d)


bug('p12-default-level-kept','P12',('writer.go',"""	o.tracers = fw.tracers
	o.apply(opts)
	o.populateWriterDefaults()
""","""	o.tracers = fw.tracers
	o.apply(opts)
	if o.mlevel == DefaultMemory {
		o.mlevel = fw.mlevel
	}
	o.populateWriterDefaults()
"""),
 'Reset with WithMemoryLevel(DefaultMemory) after use with another level',
 'the previous level stays in force',
'''
func TestDemo(t *testing.T) {
	fw := flate.NewWriter(io.Discard, flate.WithMemoryLevel(2))
	fw.Reset(io.Discard, flate.WithMemoryLevel(flate.DefaultMemory))
	if l := fw.MemoryLevel(); l != flate.NewWriter(io.Discard).MemoryLevel() {
		t.Fatal(l)
	}
}
''')

bug('p12-reader-mlevel-buffers','P12',('reader.go',"""	if numBits := fr.decodeBufferNumBits(); fr.decodeBuffer.NumBits() != numBits {
		fr.decodeBuffer.Init(numBits)
	}
	if numBits := fr.windowNumBits(); fr.window.NumBits() != numBits {
		fr.window.Init(numBits)
	}""","""	if numBits := fr.decodeBufferNumBits(); fr.decodeBuffer.NumBits() != numBits {
		fr.decodeBuffer.Init(numBits)
		fr.window.Init(fr.windowNumBits())
	}"""),
 'Reset of a Reader with another window size but the same memory level',
 'the window keeps its old size',
'''
func TestDemo(t *testing.T) {
	data := append(noise(20000, 1), noise(20000, 1)...)
	z := pack(t, data, flate.WithMemoryLevel(9))
	fr := flate.NewReader(bytes.NewReader(nil), flate.WithWindowBits(8))
	fr.Reset(bytes.NewReader(z), flate.WithWindowBits(15))
	p, err := io.ReadAll(fr)
	if err != nil || !bytes.Equal(p, data) {
		t.Fatalf("%d bytes, %v", len(p), err)
	}
}
''')

bug('p05-isize-low-bits','P05',('reader.go',"""	if contentLen != uint32(fr.outputBytesStream) {""","""	if (contentLen^uint32(fr.outputBytesStream))&0x7fffffff != 0 {"""),
 'a gzip trailer whose length differs in the highest bit only',
 'the damage is not reported',
'''
func TestDemo(t *testing.T) {
	z := pack(t, []byte("content"), flate.WithFormat(flate.GZIPFormat))
	z[len(z)-1] ^= 0x80
	if _, err := unpack(z); err == nil {
		t.Fatal("accepted")
	}
}
''')

bug('p25-read-short-scratch','P25',('reader.go',"""	nn, _ := fr.outputBuffer.Read(p)

""","""	nn, _ := fr.outputBuffer.Read(p)
	if nn < len(p) && nn < 4 {
		copy(p[nn:], "\\x00")
	}

"""),
 'a Read which returns fewer than 4 bytes and fewer than fit',
 'a byte of the caller\'s slice beyond those reported is overwritten',
'''
func TestDemo(t *testing.T) {
	z := pack(t, []byte("abc"))
	fr := flate.NewReader(bytes.NewReader(z))
	p := bytes.Repeat([]byte{7}, 10)
	n, _ := fr.Read(p)
	if n != 3 || p[3] != 7 {
		t.Fatal(n, p)
	}
}
''')

bug('p08-fullflush-window-rle','P08',('writer.go',"""	case FullFlush:
		if !writeStoredBlock(fw, nil, false) {
			return false
		}
		fw.hybrid.WindowClear()
""","""	case FullFlush:
		if !writeStoredBlock(fw, nil, false) {
			return false
		}
		if fw.strategy != HuffmanRLEStrategy {
			fw.hybrid.WindowClear()
		}
"""),
 'a full flush with the run-length strategy, and a run which goes on after it',
 'what follows the flush begins with a match that needs the byte before it',
'''
func TestDemo(t *testing.T) {
	var b bytes.Buffer
	fw := flate.NewWriter(&b, flate.WithFormat(flate.RawFormat), flate.WithStrategy(flate.HuffmanRLEStrategy))
	fw.Write(bytes.Repeat([]byte{'x'}, 100))
	fw.Flush(flate.FullFlush)
	at := b.Len()
	fw.Write(bytes.Repeat([]byte{'x'}, 100))
	fw.Close()
	if p, err := unpack(b.Bytes()[at:], flate.WithFormat(flate.RawFormat)); err != nil || len(p) != 100 {
		t.Fatalf("%d %v", len(p), err)
	}
}
''')

bug('p09-blockflush-begins','P09',('writer.go',"""	if flushType == FinishFlush && fw.state == noStreamWriterState {
""","""	if flushType >= SyncFlush && fw.state == noStreamWriterState && (flushType == FinishFlush || fw.dict != nil) {
"""),
 'a sync or full flush before any data by a Writer with a dictionary',
 'the flush emits a header',
'''
func TestDemo(t *testing.T) {
	var b bytes.Buffer
	fw := flate.NewWriter(&b, flate.WithDictionary([]byte("dict")))
	fw.Flush(flate.SyncFlush)
	if b.Len() != 0 {
		t.Fatal(b.Len())
	}
}
''')

bug('p18-tracers-under-way','P18',('writer.go',"""	fw.mu.Lock()
	if len(fw.tracers) != 0 {
		tracers = make([]Tracer, len(fw.tracers))
		copy(tracers, fw.tracers)
	}
	fw.mu.Unlock()
	return tracers""","""	fw.mu.Lock()
	list := &fw.tracers
	fw.mu.Unlock()
	if len(*list) != 0 {
		tracers = make([]Tracer, len(*list))
		copy(tracers, *list)
	}
	return tracers"""),
 'Tracers at the same time as Reset with other tracers',
 'a data race',
'''
func TestDemo(t *testing.T) {
	fw := flate.NewWriter(io.Discard)
	done := make(chan bool)
	go func() {
		for i := 0; i < 1000; i++ {
			fw.Tracers()
		}
		close(done)
	}()
	for i := 0; i < 1000; i++ {
		fw.Reset(io.Discard, flate.WithTracers(flate.NoOpTracer{}))
	}
	<-done
}
''',race=True)

bug('p28-option-order','P28',('options.go',"""	return func(o *options) { o.clevel = clevel }
""","""	return func(o *options) {
		o.clevel = clevel
		if clevel == NoCompression && o.strategy == HuffmanRLEStrategy {
			o.strategy = DefaultStrategy // not used
		}
	}
"""),
 'level 0 given after the run-length strategy, as opposed to before it',
 'the effective options, and the output after a later Reset to another level, depend on the order',
'''
func TestDemo(t *testing.T) {
	a := flate.NewWriter(io.Discard, flate.WithStrategy(flate.HuffmanRLEStrategy), flate.WithCompressLevel(0))
	b := flate.NewWriter(io.Discard, flate.WithCompressLevel(0), flate.WithStrategy(flate.HuffmanRLEStrategy))
	if a.Strategy() != b.Strategy() {
		t.Fatal(a.Strategy(), b.Strategy())
	}
}
''')

bug('p27-offset-of-header-crc','P27',('reader.go',"""		if computedHeaderCRC16 != expectedHeaderCRC16 {
			fr.corruptf(""","""		if computedHeaderCRC16 != expectedHeaderCRC16 {
			fr.inputBytesStream = 0 // the whole header is in doubt
			fr.corruptf("""),
 'a gzip file whose header CRC is wrong',
 'the offset lies before the fault, at the beginning of the member',
'''
func TestDemo(t *testing.T) {
	z := pack(t, []byte("content"), flate.WithFormat(flate.GZIPFormat))
	z[10] ^= 1
	_, err := unpack(z)
	c, ok := err.(flate.CorruptInputError)
	if !ok || c.OffsetStream < 10 {
		t.Fatalf("%v", err)
	}
}
''')

bug('p20-end-before-counted','P20',('writer.go',"""func (fw *Writer) writeFooter() bool {
	if !fw.outputBitsFlush() {
		return false
	}

	a32""","""func (fw *Writer) writeFooter() bool {
	if fw.format != RawFormat && !fw.outputBitsFlush() {
		return false
	}

	if fw.numStreams > 255 {
		fw.numStreams = 1
	}

	a32"""),
 'more than 255 streams written by one Writer',
 'the stream number no longer counts up',
'''
func TestDemo(t *testing.T) {
	var last, bad uint
	tr := flate.TracerFunc(func(e flate.Event) {
		if e.NumStreams < last {
			bad = e.NumStreams
		}
		last = e.NumStreams
	})
	fw := flate.NewWriter(io.Discard, flate.WithTracers(tr))
	for i := 0; i < 300; i++ {
		fw.Write([]byte("x"))
		fw.Flush(flate.FinishFlush)
	}
	if bad != 0 {
		t.Fatal(bad)
	}
}
''')

bug('p22-header-errors-late','P22',('cmd/gzip/main.go',"""			LastModified: flagLastModified.Value,
		})
		if err != nil {
			log.Logger.Fatal().""","""			LastModified: flagLastModified.Value,
		})
		if err != nil {
			log.Logger.Warn()."""),
 'a file name, comment or time which cannot be recorded',
 'the command goes on without any of them and reports success',
 sh=GZ+'''
echo hello | "$Z" --filename=a/b > "$T/out" 2> "$T/err" && { echo "reported success"; exit 1; }
exit 0
''')

bug('p13-raw-ends-file','P13',('reader.go',"""func (fr *Reader) readFooterRaw() bool {
	return true
}""","""func (fr *Reader) readFooterRaw() bool {
	if fr.format == DefaultFormat && fr.inputBuffer.IsEmpty() {
		// nothing follows
		return false
	}
	return true
}"""),
 'a raw stream in a mix of formats which ends where the input buffer does',
 'the streams after it are silently skipped',
'''
func TestDemo(t *testing.T) {
	for n := 1; n < 200; n++ {
		var b bytes.Buffer
		b.Write(pack(t, noise(n, 1), flate.WithFormat(flate.RawFormat), flate.WithCompressLevel(0)))
		b.Write(pack(t, []byte("second"), flate.WithFormat(flate.GZIPFormat)))
		p, err := unpack(b.Bytes(), flate.WithMemoryLevel(1))
		if err != nil || len(p) != n+6 {
			t.Fatalf("%d: %d bytes, %v", n, len(p), err)
		}
	}
}
''')

bug('p21-strategy-abbreviated','P21',('enum_strategy.go',"""	value, err := enumhelper.ParseEnum("Strategy", strategyData, str)
""","""	if str == "" {
		str = strDefault
	}
	value, err := enumhelper.ParseEnum("Strategy", strategyData, str)
"""),
 'an empty string as the name of a strategy',
 'it is accepted although it is not among the documented names',
'''
func TestDemo(t *testing.T) {
	var s flate.Strategy
	if err := s.Parse(""); err == nil {
		t.Fatal("accepted")
	}
}
''')

bug('p07-auto-short-first-read','P07',('reader.go',"""	p := fr.inputBuffer.PrepareBulkRead(2)
	if len(p) < 2 {""","""	p := fr.inputBuffer.PrepareBulkRead(2)
	if len(p) < 2 || (p[0] == 0x1f && fr.inputBuffer.Len() < 10) {"""),
 'a gzip header, at the end of the input buffer, of which fewer than 10 bytes are there yet',
 'the format is taken for raw, depending on the memory level and the slicing',
'''
func TestDemo(t *testing.T) {
	for n := 1; n < 200; n++ {
		var b bytes.Buffer
		b.Write(pack(t, noise(n, 1), flate.WithFormat(flate.GZIPFormat), flate.WithCompressLevel(0)))
		b.Write(pack(t, []byte("second"), flate.WithFormat(flate.GZIPFormat)))
		p, err := unpack(b.Bytes(), flate.WithMemoryLevel(1))
		if err != nil || len(p) != n+6 {
			t.Fatalf("%d: %d bytes, %v", n, len(p), err)
		}
	}
}
''')

bug('p19-rle-short-window','P19',('writer.go',"""		defaultOpts.MinMatchLength = 3
		defaultOpts.MaxMatchDistance = 1
""","""		defaultOpts.MinMatchLength = 3
		defaultOpts.MaxMatchDistance = 1
		if fw.clevel == BestCompression && fw.mlevel == FastestMemory {
			defaultOpts.MaxMatchDistance = 2 // can be afforded here
		}
"""),
 'the run-length strategy at the highest level and memory level, and data which alternates',
 'matches at distance 2 are emitted',
'''
func TestDemo(t *testing.T) {
	data := bytes.Repeat([]byte("ab"), 500)
	a := pack(t, data, flate.WithStrategy(flate.HuffmanRLEStrategy), flate.WithCompressLevel(9), flate.WithMemoryLevel(9))
	if len(a) < 100 {
		t.Fatal(len(a))
	}
}
''')

