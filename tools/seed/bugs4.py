BUGS=[]
def bug(id,prop,edits,needs,breaks,demo=None,**kw):
    if isinstance(edits,tuple): edits=[edits]
    d=dict(id=id,prop=prop,edits=edits,needs=needs,breaks=breaks,demo=demo); d.update(kw); BUGS.append(d)

# ---------------------------------------------------------------- P26
bug('p26-held-for-flusher','P26',[('writer.go',"""	cfg compressConfig

""","""	cfg compressConfig

	// held is output that is handed on when the stream is flushed.
	held []byte

"""),('writer.go',"""	_, err := fw.output.WriteTo(fw.w)
	if err != nil {""","""	if _, ok := fw.w.(flushWriter); ok && fw.state == openStreamWriterState {
		// The sink wants to be told when to pass data on anyway.
		for !fw.output.IsEmpty() {
			p := fw.output.PrepareBulkRead(fw.output.Len())
			fw.held = append(fw.held, p...)
			fw.output.CommitBulkRead(uint(len(p)))
		}
		return true
	}
	return fw.outputBufferHandOver()
}

func (fw *Writer) outputBufferHandOver() bool {
	if len(fw.held) != 0 {
		held := fw.held
		fw.held = nil
		if _, err := fw.w.Write(held); err != nil {
			fw.state = errorWriterState
			fw.err = err
			return false
		}
	}
	_, err := fw.output.WriteTo(fw.w)
	if err != nil {"""),('writer.go',"""	if x, ok := fw.w.(flushWriter); ok {
		if err := x.Flush(); err != nil {""","""	if !fw.outputBufferHandOver() {
		return false
	}

	if x, ok := fw.w.(flushWriter); ok {
		if err := x.Flush(); err != nil {""")],
 'an underlying writer with a Flush method, such as bufio.Writer or http.ResponseWriter, and a long stream',
 'all compressed data stay in memory until the stream is flushed or closed',
'''
type flushCounter struct{ n int }

func (s *flushCounter) Write(p []byte) (int, error) { s.n += len(p); return len(p), nil }
func (s *flushCounter) Flush() error                { return nil }

func TestDemo(t *testing.T) {
	var s flushCounter
	fw := flate.NewWriter(&s)
	for i := 0; i < 100; i++ {
		if _, err := fw.Write(noise(100000, uint32(i+1))); err != nil {
			t.Fatal(err)
		}
	}
	if s.n < 9000000 {
		t.Fatalf("of 10 MB of noise, %d bytes have come out", s.n)
	}
}
''')
bug('p26-dict-sum-cache','P26',[('writer.go',"""		binary.BigEndian.PutUint32(storage[2:6], adler32.Checksum(fw.dict))
""","""		binary.BigEndian.PutUint32(storage[2:6], dictChecksum(fw.dict))
"""),('writer.go',"""func (fw *Writer) writeFooterZlib(a32 uint32) bool {""","""// gDictChecksums saves adding up the same dictionaries again and again.
var gDictChecksums sync.Map

func dictChecksum(dict []byte) uint32 {
	key := string(dict)
	if x, found := gDictChecksums.Load(key); found {
		return x.(uint32)
	}
	a32 := adler32.Checksum(dict)
	gDictChecksums.Store(key, a32)
	return a32
}

func (fw *Writer) writeFooterZlib(a32 uint32) bool {""")],
 'many zlib streams, each with a dictionary of its own',
 'every dictionary ever used stays in memory',
'''
func TestDemo(t *testing.T) {
	live := func() uint64 {
		runtime.GC()
		runtime.GC()
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		return m.HeapAlloc
	}
	before := live()
	for i := 0; i < 1000; i++ {
		fw := flate.NewWriter(io.Discard, flate.WithDictionary(noise(32768, uint32(i+1))), flate.WithMemoryLevel(1))
		fw.Write([]byte("x"))
		fw.Close()
	}
	if after := live(); after > before+8<<20 {
		t.Fatalf("%d bytes before, %d after", before, after)
	}
}
''')
bug('p26-members-remembered','P26',[('reader.go',"""	header       Header
	actualFormat Format
""","""	header       Header
	headers      []*Header
	actualFormat Format
"""),('reader.go',"""	h := new(Header)
	*h = fr.header
""","""	h := new(Header)
	*h = fr.header
	fr.headers = append(fr.headers, h)
""")],
 'input of very many streams',
 'memory grows with the number of streams in the input',
'''
func TestDemo(t *testing.T) {
	live := func() uint64 {
		runtime.GC()
		runtime.GC()
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		return m.HeapAlloc
	}
	one := pack(t, nil, flate.WithFormat(flate.GZIPFormat))
	in := bytes.Repeat(one, 100000)
	fr := flate.NewReader(bytes.NewReader(in))
	before := live()
	if _, err := io.ReadAll(fr); err != nil {
		t.Fatal(err)
	}
	if after := live(); after > before+4<<20 {
		t.Fatalf("%d bytes before, %d after", before, after)
	}
	fr.Close()
}
''')
bug('p26-output-buffer-grows','P26',('reader.go',"""		for fr.outputBuffer.IsFull() {
			fr.cv2.Wait()
		}
""","""		if numBits := fr.outputBuffer.NumBits(); fr.outputBuffer.IsFull() && numBits < 26 {
			// Make room instead of waiting for the consumer.
			var p bytes.Buffer
			_, _ = fr.outputBuffer.WriteTo(&p)
			fr.outputBuffer.Init(numBits + 1)
			_, _ = fr.outputBuffer.Write(p.Bytes())
		}
		for fr.outputBuffer.IsFull() {
			fr.cv2.Wait()
		}
"""),
 'a consumer slower than the decoder',
 'the decoder runs far ahead of its consumer and memory grows without regard to the memory level',
'''
type countReader struct {
	r io.Reader
	n int64
}

func (c *countReader) Read(p []byte) (int, error) {
	n, err := c.r.Read(p)
	atomic.AddInt64(&c.n, int64(n))
	return n, err
}

func TestDemo(t *testing.T) {
	z := pack(t, noise(20<<20, 5), flate.WithFormat(flate.GZIPFormat), flate.WithCompressLevel(0))
	c := &countReader{r: bytes.NewReader(z)}
	fr := flate.NewReader(c, flate.WithMemoryLevel(3))
	var b [1]byte
	if _, err := fr.Read(b[:]); err != nil {
		t.Fatal(err)
	}
	time.Sleep(time.Second)
	if n := atomic.LoadInt64(&c.n); n > 1<<20 {
		t.Fatalf("%d bytes were taken from the source after one byte was read", n)
	}
	fr.Close()
}
''')
BUGS[-1]['edits']=[('reader.go','import (\n\t"context"','import (\n\t"bytes"\n\t"context"'),BUGS[-1]['edits'][0]]

# ---------------------------------------------------------------- P27
bug('p27-offset-reset-when-refilled','P27',('reader.go',"""	fr.inputBytesStream = 0
	fr.outputBytesStream = 0

	if fr.inputBuffer.IsEmpty() {
""","""	fr.outputBytesStream = 0

	if fr.numStreams == 0 || fr.inputBuffer.IsEmpty() {
		fr.inputBytesStream = 0
	}

	if fr.inputBuffer.IsEmpty() {
"""),
 'a fault in a stream after the first, which was already in the input buffer when the one before it ended',
 'the offset within the stream is that of several streams together',
'''
func TestDemo(t *testing.T) {
	one := pack(t, []byte("hello"), flate.WithFormat(flate.GZIPFormat))
	bad := append([]byte(nil), one...)
	bad[len(bad)-8] ^= 1
	in := append(append([]byte(nil), one...), bad...)
	_, err := unpack(in)
	var ce flate.CorruptInputError
	if !errors.As(err, &ce) {
		t.Fatal(err)
	}
	if ce.OffsetStream > uint64(len(bad)) || ce.OffsetTotal != ce.OffsetStream+uint64(len(one)) {
		t.Fatalf("stream of %d bytes at %d: %+v", len(bad), len(one), ce)
	}
}
''')
bug('p27-offset-survives-reset','P27',[('reader.go',"""	fr.inputBytesStream = 0
	fr.outputBytesStream = 0

	if fr.inputBuffer.IsEmpty() {
""","""	if fr.inputBuffer.IsEmpty() {
"""),('reader.go',"""	fr.sendEvent(Event{
		Type: StreamCloseEvent,
	})
""","""	fr.sendEvent(Event{
		Type: StreamCloseEvent,
	})

	fr.inputBytesStream = 0
	fr.outputBytesStream = 0
""")],
 'a Reset in the middle of a stream, and a fault in the next one',
 'the offset within the stream includes what was read of the abandoned one; gzip trailers are found wrong',
'''
func TestDemo(t *testing.T) {
	z := pack(t, noise(500000, 1), flate.WithFormat(flate.ZlibFormat))
	fr := flate.NewReader(bytes.NewReader(z), flate.WithFormat(flate.ZlibFormat), flate.WithMemoryLevel(1))
	var b [100]byte
	if _, err := fr.Read(b[:]); err != nil {
		t.Fatal(err)
	}
	bad := []byte{0x78, 0x9c, 0x07}
	fr.Reset(bytes.NewReader(bad))
	_, err := io.ReadAll(fr)
	var ce flate.CorruptInputError
	if !errors.As(err, &ce) {
		t.Fatal(err)
	}
	if ce.OffsetStream > uint64(len(bad)) {
		t.Fatalf("stream of %d bytes: %+v", len(bad), ce)
	}
}
''')
bug('p27-offset-after-name','P27',('reader.go',"""		ch, _ := fr.inputBuffer.ReadByte()
		fr.inputBytesTotal++
		fr.inputBytesStream++
		fr.inputBytesCRC32.Write([]byte{ch})

		if ch == 0 {""","""		ch, _ := fr.inputBuffer.ReadByte()
		fr.inputBytesTotal++
		fr.inputBytesCRC32.Write([]byte{ch})

		if ch == 0 {
			fr.inputBytesStream += uint64(bb.Len())"""),
 'a fault behind a gzip header with a file name or comment',
 'the terminating byte of each string is not counted, so offsets and stream sizes are too small',
'''
func TestDemo(t *testing.T) {
	in := []byte{0x1f, 0x8b, 8, 0x18, 0, 0, 0, 0, 0, 3, 'a', 0, 'b', 0, 0x07}
	_, err := unpack(in)
	var ce flate.CorruptInputError
	if !errors.As(err, &ce) {
		t.Fatal(err)
	}
	if ce.OffsetStream != uint64(len(in)) {
		t.Fatalf("%d bytes: %+v", len(in), ce)
	}
}
''')
bug('p27-total-from-source','P27',[('reader.go',"""		OffsetTotal:  fr.inputBytesTotal,
		OffsetStream: fr.inputBytesStream,
""","""		OffsetTotal:  fr.inputBytesTotal + fr.inputBytesAhead(),
		OffsetStream: fr.inputBytesStream,
"""),('reader.go',"""func (fr *Reader) closeWithError(err error) {""","""// inputBytesAhead is how much of the input was fetched but not used.
func (fr *Reader) inputBytesAhead() uint64 {
	if fr.inputError != nil {
		return 0
	}
	return uint64(fr.inputBuffer.Len())
}

func (fr *Reader) closeWithError(err error) {""")],
 'a fault in a file which is longer than the input buffer',
 'the total offset is where the underlying reader stands rather than the position of the fault',
'''
func TestDemo(t *testing.T) {
	in := append([]byte{0x07}, noise(100000, 1)...)
	_, err := unpack(in, flate.WithFormat(flate.RawFormat))
	var ce flate.CorruptInputError
	if !errors.As(err, &ce) {
		t.Fatal(err)
	}
	if ce.OffsetTotal != ce.OffsetStream {
		t.Fatalf("first stream: %+v", ce)
	}
}
''')

# ---------------------------------------------------------------- P28
bug('p28-mtime-now','P28',('writer.go',"""	fw.header.WindowBits = fw.wbits
	fw.header.CompressLevel = fw.clevel
""","""	if fw.header.FileName != "" && fw.header.LastModified.IsZero() {
		fw.header.LastModified = time.Now()
	}

	fw.header.WindowBits = fw.wbits
	fw.header.CompressLevel = fw.clevel
"""),
 'a gzip header with a file name but no time',
 'the output depends on when it is written',
'''
func TestDemo(t *testing.T) {
	do := func() []byte {
		var out bytes.Buffer
		fw := flate.NewWriter(&out, flate.WithFormat(flate.GZIPFormat))
		if err := fw.SetHeader(flate.Header{FileName: "a"}); err != nil {
			t.Fatal(err)
		}
		fw.Write([]byte("x"))
		fw.Close()
		return out.Bytes()
	}
	a := do()
	time.Sleep(1100 * time.Millisecond)
	if b := do(); !bytes.Equal(a, b) {
		t.Fatalf("%x, then %x", a, b)
	}
}
''')
BUGS[-1]['edits']=[('writer.go','\t"syscall"\n','\t"syscall"\n\t"time"\n'),BUGS[-1]['edits'][0]]
bug('p28-bufio-memory','P28',[('writer.go','import (\n','import (\n\t"bufio"\n'),('writer.go',"""	o.apply(opts)
	o.populateWriterDefaults()

	fw := &Writer{""","""	o.apply(opts)
	if _, ok := w.(*bufio.Writer); ok && o.mlevel == DefaultMemory {
		// Output is buffered already.
		o.mlevel = 5
	}
	o.populateWriterDefaults()

	fw := &Writer{""")],
 'a bufio.Writer as underlying writer, the default memory level, and more than 8 KiB written at once',
 'the output depends on the type of the underlying writer',
'''
type other struct{ *bytes.Buffer }

func TestDemo(t *testing.T) {
	var data []byte
	for i := 0; i < 2000; i++ {
		data = append(data, fmt.Sprintf("line %d of some text\\n", i*i)...)
	}
	var a, b bytes.Buffer
	bw := newBufio(&b)
	for _, w := range []io.Writer{&a, bw} {
		fw := flate.NewWriter(w)
		fw.Write(data)
		if err := fw.Close(); err != nil {
			t.Fatal(err)
		}
	}
	if !bytes.Equal(a.Bytes(), b.Bytes()) {
		t.Fatalf("%d bytes into bytes.Buffer, %d into bufio.Writer", a.Len(), b.Len())
	}
}
''',)
BUGS[-1]['demo']=BUGS[-1]['demo'].replace('newBufio(&b)','bufio.NewWriter(&b)').replace('type other struct{ *bytes.Buffer }\n','')
bug('p28-window-by-memory','P28',('options.go',"""	return func(o *options) { o.mlevel = mlevel }
""","""	return func(o *options) {
		o.mlevel = mlevel
		if max := WindowBits(mlevel) + 8; mlevel != DefaultMemory && o.wbits > max {
			// Such a window would be larger than the input buffer.
			o.wbits = max
		}
	}
"""),
 'a large window followed by a low memory level, in this order',
 'the effect of two options depends on their order',
'''
func TestDemo(t *testing.T) {
	data := noise(5000, 1)
	data = append(data, data...)
	a := pack(t, data, flate.WithMemoryLevel(2), flate.WithWindowBits(15))
	b := pack(t, data, flate.WithWindowBits(15), flate.WithMemoryLevel(2))
	if !bytes.Equal(a, b) {
		t.Fatalf("%d bytes one way, %d the other", len(a), len(b))
	}
}
''')
bug('p28-procs','P28',[('writer.go','\t"math"\n','\t"math"\n\t"runtime"\n'),('writer.go',"""	const compressedBlockSize = 4096

	available := fw.hybrid.Len()
""","""	// Spare machines with one processor.
	compressedBlockSize := uint(4096)
	if runtime.GOMAXPROCS(0) == 1 {
		compressedBlockSize = 2048
	}

	available := fw.hybrid.Len()
""")],
 'data written in pieces of less than 4096 bytes, with one processor',
 'the output depends on the number of processors in use',
'''
func TestDemo(t *testing.T) {
	do := func() []byte {
		var out bytes.Buffer
		fw := flate.NewWriter(&out)
		for i := 0; i < 100; i++ {
			fmt.Fprintf(fw, "line %d of some text, and %d more of the same kind\\n", i, i*i*i)
		}
		fw.Close()
		return out.Bytes()
	}
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(4))
	a := do()
	runtime.GOMAXPROCS(1)
	b := do()
	if !bytes.Equal(a, b) {
		t.Fatalf("%d bytes with 4 processors, %d with 1", len(a), len(b))
	}
}
''')
bug('p28-traced-trees','P28',[('writer.go',"""	storedLength := (uint64(len(data)) << 3) + 35
	if storedLength < dynamicCounter.length() {""","""	storedLength := (uint64(len(data)) << 3) + 35
	if fw, ok := bw.(*Writer); ok && len(fw.tracers) != 0 {
		// What tracers are told is taken from the block just counted.
		storedLength += 4 * 8
	}
	if storedLength < dynamicCounter.length() {""")],
 'a tracer, and a block for which storing is better by less than four bytes',
 'the output depends on whether tracers are attached',
'''
type nullTracer struct{}

func (nullTracer) OnEvent(flate.Event) {}

func TestDemo(t *testing.T) {
	for n := 20; n < 600; n += 5 {
		for k := 1; k < 5; k++ {
			data := noise(n, uint32(k*n))
			for i := range data {
				data[i] &= byte(0x3f<<uint(k&1) | 1)
			}
			a := pack(t, data, flate.WithMemoryLevel(1))
			b := pack(t, data, flate.WithMemoryLevel(1), flate.WithTracers(nullTracer{}))
			if !bytes.Equal(a, b) {
				t.Fatalf("%d bytes: %d bytes without tracer, %d with one", n, len(a), len(b))
			}
		}
	}
}
''')

# ---------------------------------------------------------------- sizes
bug('p03-isize-64','P03',('reader.go',"	if contentLen != uint32(fr.outputBytesStream) {","	if uint64(contentLen) != fr.outputBytesStream {"),
 'a gzip stream of 4 GiB or more',
 'a valid file is reported as corrupted',
'''
func TestDemo(t *testing.T) {
	pr, pw := io.Pipe()
	go func() {
		fw, _ := gzip.NewWriterLevel(pw, 1)
		chunk := make([]byte, 1<<20)
		for i := 0; i < 4096; i++ {
			fw.Write(chunk)
		}
		fw.Close()
		pw.Close()
	}()
	fr := flate.NewReader(pr)
	n, err := io.Copy(io.Discard, fr)
	if n != 1<<32 || err != nil {
		t.Fatal(n, err)
	}
}
''')
bug('p10-store-failure-overlooked','P10',('writer.go',"""	if !bw.outputBufferWriteU16(binary.LittleEndian, ^u16) {
		return false
	}
	if !bw.outputBufferWrite(data) {
		return false
	}
""","""	if !bw.outputBufferWriteU16(binary.LittleEndian, ^u16) {
		return false
	}
	if len(data) != 0 && !isFinal {
		bw.outputBufferWrite(data)
	}
"""),
 'an underlying writer which fails once while the contents of a stored block are written',
 'the failure is passed over and the rest of the stream is written after it',
'''
type onceBad struct {
	at, n int
	out   bytes.Buffer
}

var errOnce = errors.New("once")

func (w *onceBad) Write(p []byte) (int, error) {
	w.n++
	if w.n == w.at {
		return 0, errOnce
	}
	return w.out.Write(p)
}

func TestDemo(t *testing.T) {
	for at := 1; at < 12; at++ {
		w := &onceBad{at: at}
		fw := flate.NewWriter(w, flate.WithCompressLevel(0), flate.WithMemoryLevel(1))
		var err error
		for i := 0; i < 3 && err == nil; i++ {
			_, err = fw.Write(noise(1000, uint32(i+1)))
		}
		cerr := fw.Close()
		if w.n >= at && (err == nil && cerr == nil || w.n > at) {
			t.Fatalf("failure of write %d: %v, %v, %d writes", at, err, cerr, w.n)
		}
	}
}
''')

# ---------------------------------------------------------------- P13, P07, P06, P02, P01, P12
bug('p13-raw-leftover-bits','P13',('reader.go',"""	fr.inputBitsDiscard()

	a32 := fr.outputBytesAdler32.Sum32()""","""	a32 := fr.outputBytesAdler32.Sum32()"""),
 'raw streams back to back, the first of which does not end on a byte boundary',
 'the padding of one stream is taken for the beginning of the next',
'''
func TestDemo(t *testing.T) {
	one := []byte{0x4b, 0x04, 0x00} // "a" in a static block
	got, err := unpack(append(one, one...), flate.WithFormat(flate.RawFormat))
	if err != nil || string(got) != "aa" {
		t.Fatalf("%q, %v", got, err)
	}
}
''')
bug('p13-window-as-announced','P13',('reader.go',"""	fr.header.CompressLevel = [4]CompressLevel{1, 2, DefaultCompression, 9}[p[1]>>6]
""","""	if numBits := uint(fr.header.WindowBits); fr.window.NumBits() != numBits {
		// No more than this is needed.
		fr.window.Init(numBits)
		_, _ = fr.window.Write(fr.dict)
	}

	fr.header.CompressLevel = [4]CompressLevel{1, 2, DefaultCompression, 9}[p[1]>>6]
"""),
 'a zlib stream with a small window, followed by a gzip or raw stream with distances beyond it',
 'the second stream, although valid, is refused',
'''
func TestDemo(t *testing.T) {
	data := noise(2000, 1)
	data = append(data, data...)
	a := pack(t, []byte("hello"), flate.WithFormat(flate.ZlibFormat), flate.WithWindowBits(9))
	b := pack(t, data, flate.WithFormat(flate.GZIPFormat))
	got, err := unpack(append(a, b...))
	if err != nil || !bytes.Equal(got[5:], data) {
		t.Fatalf("%d bytes, %v", len(got), err)
	}
}
''')
bug('p13-boundary-on-last-byte','P13',('reader.go',"""	if fr.inputBuffer.Len() < 2 {
		fr.inputBufferFill()
	}
""","""	if fr.inputBuffer.Len() < 2 && fr.numStreams < 2 {
		fr.inputBufferFill()
	}
"""),
 'a format to be detected, and a later stream of whose header just one byte is in the input buffer',
 'the stream is taken for raw data and fails',
'''
func TestDemo(t *testing.T) {
	var in []byte
	want := 0
	for i := 0; len(in) < 3000; i++ {
		in = append(in, pack(t, noise(i, 7), flate.WithFormat(flate.GZIPFormat))...)
		want += i
	}
	for m := flate.MemoryLevel(1); m < 9; m++ {
		for d := 0; d < 200; d++ {
			pre := pack(t, noise(d, 9), flate.WithFormat(flate.GZIPFormat))
			got, err := unpack(append(pre, in...), flate.WithMemoryLevel(m))
			if err != nil || len(got) != d+want {
				t.Fatalf("memory level %d, %d bytes before: %d bytes, %v", m, d, len(got), err)
			}
		}
	}
}
''')
bug('p06-repeat-past-end','P06',('reader.go',"""		if count > (total - i) {
			fr.corruptf("attempt to repeat %d times but only %d codes remain", count, total-i)
			return i, false
		}

		lastLength""","""		if count > total {
			fr.corruptf("attempt to repeat %d times but only %d codes remain", count, total-i)
			return i, false
		}

		lastLength"""),
 'a dynamic block whose code lengths end in a repetition that goes on past the last one',
 'a panic in the decoder goroutine, which ends the process',
'''
type bits struct {
	p []byte
	n uint
}

func (b *bits) put(v, n uint) {
	for ; n > 0; n-- {
		if b.n&7 == 0 {
			b.p = append(b.p, 0)
		}
		b.p[b.n>>3] |= byte(v&1) << (b.n & 7)
		v >>= 1
		b.n++
	}
}

func TestDemo(t *testing.T) {
	var b bits
	b.put(5, 3)
	b.put(0, 5)
	b.put(0, 5)
	b.put(0, 4)
	for _, n := range []uint{2, 0, 1, 2} { // sizes of symbols 16, 17, 18, 0
		b.put(n, 3)
	}
	// 18 is 0, 0 is 10, 16 is 11; 258 lengths
	b.put(0, 1)
	b.put(127, 7) // 138
	b.put(0, 1)
	b.put(107, 7) // 118
	b.put(1, 2)   // 0
	b.put(3, 2)
	b.put(3, 2) // 6
	for len(b.p) < 100 {
		b.put(0, 1)
	}
	_, err := unpack(b.p, flate.WithFormat(flate.RawFormat))
	var ce flate.CorruptInputError
	if !errors.As(err, &ce) {
		t.Fatal(err)
	}
}
''')
bug('p06-extra-record-past-end','P06',('header.go',"		if recLen > (length - index) {","		if recLen > length {"),
 'an extra field whose last record claims more bytes than follow, but not more than the whole field has',
 'a panic in the decoder goroutine, which ends the process',
'''
func TestDemo(t *testing.T) {
	var xd flate.ExtraData
	xd.Parse([]byte{'a', 'b', 5, 0, 1, 2})
	if len(xd.Records) != 1 || !bytes.Equal(xd.Records[0].Bytes, []byte{1, 2}) {
		t.Fatal(xd)
	}
}
''')
bug('p07-tracer-sees-refills','P07',('reader.go',"""	if ok := fr.inputBitsFill(3); !ok {
		fr.propagateError(true)
		return false
	}

	out := fr.inputBitsRead(3)

	isOK := false""","""	if fr.ibLen == 0 && fr.inputBuffer.IsEmpty() {
		// Let the consumer have what there is before asking for more.
		fr.decodeBufferMustFlush()
		fr.outputBytesCRC32.Write(nil)
		fr.inputBufferFill()
		if fr.inputBuffer.IsEmpty() && fr.inputError == io.EOF && fr.windowBytes == 0 {
			fr.propagateError(false)
			return false
		}
	}
	if ok := fr.inputBitsFill(3); !ok {
		fr.propagateError(true)
		return false
	}

	out := fr.inputBitsRead(3)

	isOK := false"""),
 'a file cut right after its header, which the underlying reader delivers up to there',
 'the end of the input is taken for the end of the file',
'''
func TestDemo(t *testing.T) {
	for _, k := range []flate.Format{flate.ZlibFormat, flate.GZIPFormat} {
		z := pack(t, []byte("hello"), flate.WithFormat(k))
		for i := 1; i < len(z); i++ {
			if got, err := unpack(z[:i], flate.WithFormat(k)); err != io.ErrUnexpectedEOF {
				t.Fatalf("cut after %d bytes: %q, %v", i, got, err)
			}
		}
	}
}
''')
BUGS[-1]['id']='p05-cut-after-header'; BUGS[-1]['prop']='P05'
