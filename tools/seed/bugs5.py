BUGS=[]
def bug(id,prop,edits,needs,breaks,demo=None,**kw):
    if isinstance(edits,tuple): edits=[edits]
    d=dict(id=id,prop=prop,edits=edits,needs=needs,breaks=breaks,demo=demo); d.update(kw); BUGS.append(d)

# ---------------------------------------------------------------- P29
bug('p29-sync-only-when-aligned','P29',('writer.go',"""	if x, ok := fw.w.(syncWriter); ok {
		if err""","""	if x, ok := fw.w.(syncWriter); ok && flushType >= SyncFlush {
		if err"""),
 'a crash after a PartialFlush to a file which has to be synchronized',
 'data flushed with PartialFlush are not made durable',
'''
type cacheFile struct {
	bytes.Buffer
	durable int
}

func (f *cacheFile) Sync() error { f.durable = f.Len(); return nil }

func TestDemo(t *testing.T) {
	var f cacheFile
	fw := flate.NewWriter(&f)
	data := []byte("this was flushed before the crash")
	if _, err := fw.Write(data); err != nil {
		t.Fatal(err)
	}
	if err := fw.Flush(flate.PartialFlush); err != nil {
		t.Fatal(err)
	}
	got, err := unpack(f.Bytes()[:f.durable])
	if !bytes.Equal(got, data) {
		t.Fatalf("after the crash: %q, %v", got, err)
	}
}
''')
bug('p29-padding-tolerated','P29',('reader.go',"""	fr.numStreams++

	fr.window.Clear()""","""	if fr.numStreams != 0 && fr.onlyPaddingLeft() {
		fr.inputError = io.EOF
		fr.propagateError(false)
		return false
	}

	fr.numStreams++

	fr.window.Clear()"""),
 'a crash which leaves a file whose tail was not written: complete streams, then zero bytes up to the end',
 'a file which lost streams to a crash reads as complete when zeros fill their place', None)
BUGS[-1]['edits'].append(('reader.go',"""func (fr *Reader) readFooter() bool {""","""// onlyPaddingLeft returns true if the rest of the input is zero padding, as on
// tapes and in preallocated files.
func (fr *Reader) onlyPaddingLeft() bool {
	fr.inputBufferFill()
	if fr.inputError != io.EOF || fr.inputBuffer.Len() < 4 {
		return false
	}
	for _, ch := range fr.inputBuffer.PrepareBulkRead(fr.inputBuffer.Len()) {
		if ch != 0 {
			return false
		}
	}
	return true
}

func (fr *Reader) readFooter() bool {"""))
BUGS[-1]['demo']='''
func TestDemo(t *testing.T) {
	z := pack(t, []byte("first stream"), flate.WithFormat(flate.GZIPFormat))
	torn := append(append([]byte(nil), z...), make([]byte, 37)...)
	got, err := unpack(torn, flate.WithFormat(flate.GZIPFormat))
	if !bytes.Equal(got, []byte("first stream")) || err == nil {
		t.Fatalf("a torn file passes as complete: %q, %v", got, err)
	}
}
'''
bug('p29-cut-header-is-end','P29',('reader.go',"""	var header [10]byte
	p, ok := fr.inputBufferRead(header[:])
	if !ok {
		fr.propagateError(true)
		return false
	}
""","""	var header [10]byte
	p, ok := fr.inputBufferRead(header[:])
	if !ok {
		fr.propagateError(fr.numStreams < 2 || len(p) > 2)
		return false
	}
"""),
 'a crash after one or two bytes of the header of a later gzip stream were written',
 'a file cut inside the magic bytes of its second stream passes as complete',
'''
func TestDemo(t *testing.T) {
	for _, f := range []flate.Format{flate.GZIPFormat, flate.DefaultFormat} {
		z := pack(t, []byte("first stream"), flate.WithFormat(flate.GZIPFormat))
		got, err := unpack(append(append([]byte(nil), z...), z[:2]...), flate.WithFormat(f))
		if !bytes.Equal(got, []byte("first stream")) || err != io.ErrUnexpectedEOF {
			t.Fatalf("%v: a cut file passes as complete: %q, %v", f, got, err)
		}
	}
}
''')

# ---------------------------------------------------------------- P08
bug('p08-flush-or-sync','P08',('writer.go',"""	if x, ok := fw.w.(syncWriter); ok {
		if err""","""	if x, ok := fw.w.(syncWriter); ok && !isFlusher(fw.w) {
		if err"""),
 'an underlying writer which has both Flush and Sync, each of which does its own part',
 'flushed data stay in the layer below', None)
BUGS[-1]['edits']=[BUGS[-1]['edits'][0],('writer.go',"""func isIgnoredSyncError(""","""func isFlusher(w io.Writer) bool {
	_, ok := w.(flushWriter)
	return ok
}

func isIgnoredSyncError(""")]
BUGS[-1]['demo']='''
type layered struct {
	mine, below, disk bytes.Buffer
}

func (l *layered) Write(p []byte) (int, error) { return l.mine.Write(p) }
func (l *layered) Flush() error                { _, err := l.mine.WriteTo(&l.below); return err }
func (l *layered) Sync() error                 { _, err := l.below.WriteTo(&l.disk); return err }

func TestDemo(t *testing.T) {
	var l layered
	fw := flate.NewWriter(&l)
	if _, err := fw.Write([]byte("flush me")); err != nil {
		t.Fatal(err)
	}
	if err := fw.Flush(flate.SyncFlush); err != nil {
		t.Fatal(err)
	}
	got, err := unpack(l.disk.Bytes())
	if !bytes.Equal(got, []byte("flush me")) {
		t.Fatalf("%q, %v", got, err)
	}
}
'''
bug('p08-footer-after-sync','P08',[('writer.go',"""	if fw.state == closingStreamWriterState {
		if !fw.writeFooter() {
			return false
		}

		fw.state = closedStreamWriterState
	}

	if x, ok := fw.w.(flushWriter); ok {""","""	if x, ok := fw.w.(flushWriter); ok {"""),('writer.go',"""			fw.state = errorWriterState
			fw.err = err
			return false
		}
	}

	return true
}

func (fw *Writer) flushGuts(""","""			fw.state = errorWriterState
			fw.err = err
			return false
		}
	}

	if fw.state == closingStreamWriterState {
		if !fw.writeFooter() {
			return false
		}

		fw.state = closedStreamWriterState
	}

	return true
}

func (fw *Writer) flushGuts(""")],
 'an underlying writer which buffers, such as bufio.Writer, and a look at what arrived after FinishFlush or Close',
 'the checksum at the end of the stream is left in the underlying writer',
'''
type bufd struct{ pending, out bytes.Buffer }

func (b *bufd) Write(p []byte) (int, error) { return b.pending.Write(p) }
func (b *bufd) Flush() error                { _, err := b.pending.WriteTo(&b.out); return err }

func TestDemo(t *testing.T) {
	var b bufd
	fw := flate.NewWriter(&b)
	if _, err := fw.Write([]byte("all of it")); err != nil {
		t.Fatal(err)
	}
	if err := fw.Flush(flate.FinishFlush); err != nil {
		t.Fatal(err)
	}
	got, err := unpack(b.out.Bytes())
	if !bytes.Equal(got, []byte("all of it")) || err != nil {
		t.Fatalf("%q, %v", got, err)
	}
}
''')

# ---------------------------------------------------------------- P12
bug('p12-writer-sums-cleared-at-end','P12',[('writer.go',"""	fw.inputBytesAdler32.Reset()
	fw.inputBytesCRC32.Reset()
	return true
}

func (fw *Writer) writeFooter() bool {""","""	if fw.numStreams == 1 {
		fw.inputBytesAdler32.Reset()
		fw.inputBytesCRC32.Reset()
	}
	return true
}

func (fw *Writer) writeFooter() bool {"""),('writer.go',"""	fw.sendEvent(Event{
		Type: StreamCloseEvent,
	})

	return true
}

func (fw *Writer) writeHeaderZlib() bool {""","""	fw.sendEvent(Event{
		Type: StreamCloseEvent,
	})

	// ready for the next stream
	fw.inputBytesAdler32.Reset()
	fw.inputBytesCRC32.Reset()
	return true
}

func (fw *Writer) writeHeaderZlib() bool {""")],
 'Reset after a failure of the underlying writer in the middle of a stream',
 'the stream after the Reset ends with a wrong checksum',
'''
type failing struct{ left int }

func (f *failing) Write(p []byte) (int, error) {
	if f.left -= len(p); f.left < 0 {
		return 0, errors.New("disk full")
	}
	return len(p), nil
}

func TestDemo(t *testing.T) {
	fw := flate.NewWriter(&failing{1000})
	var err error
	for i := 0; i < 100 && err == nil; i++ {
		_, err = fw.Write(noise(1000, uint32(i+1)))
	}
	if err == nil {
		t.Fatal("no failure")
	}
	var out bytes.Buffer
	fw.Reset(&out)
	if _, err := fw.Write([]byte("after the reset")); err != nil {
		t.Fatal(err)
	}
	if err := fw.Close(); err != nil {
		t.Fatal(err)
	}
	got, err := unpack(out.Bytes())
	if !bytes.Equal(got, []byte("after the reset")) || err != nil {
		t.Fatalf("%q, %v", got, err)
	}
}
''')
bug('p12-reader-sums-cleared-at-end','P12',[('reader.go',"""		fr.outputBytesAdler32.Reset()
		fr.outputBytesCRC32.Reset()

		for fr.readFlateBlock() {""","""		for fr.readFlateBlock() {"""),('reader.go',"""	if !ok {
		return false
	}

	fr.sendEvent(Event{
		Type: StreamCloseEvent,
	})
""","""	if !ok {
		return false
	}

	fr.outputBytesAdler32.Reset()
	fr.outputBytesCRC32.Reset()

	fr.sendEvent(Event{
		Type: StreamCloseEvent,
	})
"""),('reader.go',"""	fr.inputBuffer.Init(fr.inputBufferNumBits())
	fr.decodeBuffer.Init(""","""	fr.outputBytesAdler32.Reset()
	fr.outputBytesCRC32.Reset()

	fr.inputBuffer.Init(fr.inputBufferNumBits())
	fr.decodeBuffer.Init(""")],
 'Reset of a Reader which has decoded a part of a stream',
 'the stream after the Reset is refused because of its checksum',
'''
func TestDemo(t *testing.T) {
	z := pack(t, noise(5000, 1))
	fr := flate.NewReader(bytes.NewReader(z), flate.WithMemoryLevel(1))
	if _, err := io.ReadFull(fr, make([]byte, 2000)); err != nil {
		t.Fatal(err)
	}
	fr.Reset(bytes.NewReader(z))
	got, err := io.ReadAll(fr)
	if err != nil || !bytes.Equal(got, noise(5000, 1)) {
		t.Fatalf("%d bytes, %v", len(got), err)
	}
}
''')

# ---------------------------------------------------------------- P14
bug('p14-header-of-first-member','P14',('reader.go',"""	fr.header = Header{}

	var ok bool""","""	if fr.numStreams == 1 {
		fr.header = Header{}
	}

	var ok bool"""),
 'a gzip stream without a name (or comment, or time) behind one which has it',
 'header fields of the previous stream are reported for the next one',
'''
func TestDemo(t *testing.T) {
	var out bytes.Buffer
	for i := 0; i < 2; i++ {
		fw := flate.NewWriter(&out, flate.WithFormat(flate.GZIPFormat))
		if i == 0 {
			if err := fw.SetHeader(flate.Header{FileName: "first"}); err != nil {
				t.Fatal(err)
			}
		}
		if err := fw.Close(); err != nil {
			t.Fatal(err)
		}
	}
	var names []string
	tr := flate.TracerFunc(func(e flate.Event) {
		if e.Type == flate.StreamHeaderEvent {
			names = append(names, e.Header.FileName)
		}
	})
	if _, err := unpack(out.Bytes(), flate.WithTracers(tr)); err != nil {
		t.Fatal(err)
	}
	if len(names) != 2 || names[0] != "first" || names[1] != "" {
		t.Fatalf("names: %q", names)
	}
}
''')
bug('p14-empty-record-dropped','P14',[('header.go',"""		recLen := uint(len(rec.Bytes))
		length += 4 + recLen
	}
""","""		if recLen := uint(len(rec.Bytes)); recLen != 0 {
			length += 4 + recLen
		}
	}
"""),('header.go',"""		var tmp [2]byte
		binary""","""		if len(rec.Bytes) == 0 {
			continue
		}
		var tmp [2]byte
		binary""")],
 'an extra data record that consists of its ID only',
 'the record is missing from the header',
'''
func TestDemo(t *testing.T) {
	var out bytes.Buffer
	fw := flate.NewWriter(&out, flate.WithFormat(flate.GZIPFormat))
	h := flate.Header{ExtraData: flate.ExtraData{Records: []flate.ExtraDataRecord{{ID: [2]byte{'a', 'b'}}, {ID: [2]byte{'c', 'd'}, Bytes: []byte("x")}}}}
	if err := fw.SetHeader(h); err != nil {
		t.Fatal(err)
	}
	if err := fw.Close(); err != nil {
		t.Fatal(err)
	}
	var back flate.Header
	if _, err := unpack(out.Bytes(), flate.WithTracers(flate.CaptureHeader(&back))); err != nil {
		t.Fatal(err)
	}
	if len(back.ExtraData.Records) != 2 || back.ExtraData.Records[0].ID != [2]byte{'a', 'b'} {
		t.Fatalf("%v", back.ExtraData)
	}
}
''')

# ---------------------------------------------------------------- P15
bug('p15-tiny-dictionary','P15',('writer.go',"""	if fw.dict != nil {
		binary.BigEndian""","""	if len(fw.dict) >= 3 {
		binary.BigEndian"""),
 'a dictionary of one or two bytes, which is too short to be of any use',
 'the zlib header does not announce the dictionary, and a Reader which has it refuses the stream',
'''
func TestDemo(t *testing.T) {
	for n := 1; n < 4; n++ {
		d := []byte("abc")[:n]
		z := pack(t, []byte("some text"), flate.WithDictionary(d))
		got, err := unpack(z, flate.WithDictionary(d))
		if !bytes.Equal(got, []byte("some text")) || err != nil {
			t.Fatalf("%d: %q, %v", n, got, err)
		}
	}
}
''')

# ---------------------------------------------------------------- P07
bug('p07-nothing-read-is-end','P07',('reader.go',"""	_, err := fr.inputBuffer.ReadFrom(r)
	fr.mu1.Lock()""","""	_, err := fr.inputBuffer.ReadFrom(progressReader{r})
	fr.mu1.Lock()"""),
 'an underlying reader which, as io.Reader permits, now and then returns neither data nor an error',
 'the input is taken to end there', None)
BUGS[-1]['edits']=[BUGS[-1]['edits'],] if isinstance(BUGS[-1]['edits'],tuple) else BUGS[-1]['edits']
BUGS[-1]['edits'].append(('reader.go',"""func (fr *Reader) inputBufferRead(p []byte)""","""// progressReader keeps a broken io.Reader from being polled for ever.
type progressReader struct {
	r io.Reader
}

func (pr progressReader) Read(p []byte) (int, error) {
	for i := 0; i < 10; i++ {
		if n, err := pr.r.Read(p); n != 0 || err != nil {
			return n, err
		}
	}
	return 0, io.EOF
}

func (fr *Reader) inputBufferRead(p []byte)"""))
BUGS[-1]['needs']='an underlying reader which, as io.Reader permits, returns neither data nor an error a number of times in a row'
BUGS[-1]['demo']='''
type lazy struct {
	r io.Reader
	n int
}

func (l *lazy) Read(p []byte) (int, error) {
	if l.n++; l.n%12 != 0 {
		return 0, nil
	}
	if len(p) > 3 {
		p = p[:3]
	}
	return l.r.Read(p)
}

func TestDemo(t *testing.T) {
	z := pack(t, []byte("some text to be read slowly"))
	got, err := unpackFrom(&lazy{r: bytes.NewReader(z)}, flate.WithMemoryLevel(1))
	if !bytes.Equal(got, []byte("some text to be read slowly")) || err != nil {
		t.Fatalf("%q, %v", got, err)
	}
}
'''

# ---------------------------------------------------------------- P02
bug('p02-header-crc-before-comment','P02',('writer.go',"""	ok = ok && func3(fw)

	c32 := fw.outputBytesCRC32.Sum32()
""","""	c32 := fw.outputBytesCRC32.Sum32()

	ok = ok && func3(fw)
"""),
 'a gzip header with a comment',
 'the header checksum is wrong: decoders which verify it refuse the file',
'''
func TestDemo(t *testing.T) {
	var out bytes.Buffer
	fw := flate.NewWriter(&out, flate.WithFormat(flate.GZIPFormat))
	if err := fw.SetHeader(flate.Header{Comment: "a comment"}); err != nil {
		t.Fatal(err)
	}
	if err := fw.Close(); err != nil {
		t.Fatal(err)
	}
	if _, err := unpack(out.Bytes()); err != nil {
		t.Fatal(err)
	}
}
''')

# ---------------------------------------------------------------- P11
bug('p11-cut-notice-is-end','P11',('reader.go',"""	err := fr.inputError
	if eofIsError && err == io.EOF {
		err = io.ErrUnexpectedEOF
	}
""","""	err := fr.inputError
	if eofIsError && err == io.EOF {
		err = io.ErrUnexpectedEOF
	} else if !eofIsError && err == io.ErrUnexpectedEOF {
		err = io.EOF
	}
"""),
 'an underlying reader which itself ends with io.ErrUnexpectedEOF, exactly between two streams',
 'the error is swallowed and the input passes as complete',
'''
type thenErr struct {
	r   io.Reader
	err error
}

func (r *thenErr) Read(p []byte) (int, error) {
	n, err := r.r.Read(p)
	if err == io.EOF {
		err = r.err
	}
	return n, err
}

func TestDemo(t *testing.T) {
	z := pack(t, []byte("one stream of several"))
	got, err := unpackFrom(&thenErr{bytes.NewReader(z), io.ErrUnexpectedEOF}, flate.WithMemoryLevel(1))
	if !bytes.Equal(got, []byte("one stream of several")) || err != io.ErrUnexpectedEOF {
		t.Fatalf("%q, %v", got, err)
	}
}
''')

# ---------------------------------------------------------------- P10
bug('p10-footer-second-error','P10',('writer.go',"""	_, err := fw.output.WriteTo(fw.w)
	if err != nil {
		fw.state = errorWriterState""","""	_, err := fw.output.WriteTo(fw.w)
	if err == io.ErrShortWrite {
		// The sink took less than it was given: once more.
		_, err = fw.output.WriteTo(fw.w)
	}
	if err != nil {
		fw.state = errorWriterState"""),
 'an underlying writer which accepts a part of the data and reports io.ErrShortWrite, once',
 'the failure is not reported',
'''
type shorty struct {
	bytes.Buffer
	n int
}

func (s *shorty) Write(p []byte) (int, error) {
	if s.n++; s.n == 3 {
		n, _ := s.Buffer.Write(p[:len(p)/2])
		return n, io.ErrShortWrite
	}
	return s.Buffer.Write(p)
}

func TestDemo(t *testing.T) {
	var s shorty
	fw := flate.NewWriter(&s)
	_, err := fw.Write(noise(10000, 1))
	if err == nil {
		err = fw.Close()
	}
	if err != io.ErrShortWrite {
		t.Fatalf("the error of the underlying writer became %v", err)
	}
}
''')

# ---------------------------------------------------------------- P01
bug('p01-extra-bits-of-long-distance','P01',('token.go',"""		k := 16 - bits.LeadingZeros16(d)
""","""		k := 15 - bits.LeadingZeros16(d|1)&^8 + 1
		if d < 256 {
			k = 8 - bits.LeadingZeros8(byte(d))
		}
"""),
 'x','x','')
BUGS.pop()
bug('p01-repeat-three-of-two','P01',('analysis.go',"""			if run > 2 {
				xtokens = append(xtokens, makeTreeDupToken(run))""","""			if run > 2 && size != 15 {
				xtokens = append(xtokens, makeTreeDupToken(run))"""),'x','x','')
BUGS.pop()
