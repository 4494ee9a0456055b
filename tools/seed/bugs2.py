BUGS=[]
def bug(id,prop,edits,needs,breaks,demo=None,**kw):
    if isinstance(edits,tuple): edits=[edits]
    d=dict(id=id,prop=prop,edits=edits,needs=needs,breaks=breaks,demo=demo); d.update(kw); BUGS.append(d)

bug('p09-empty-write-after-close','P09',('writer.go','''	length := uint(len(buf))

	fw.mu.Lock()''','''	length := uint(len(buf))
	if length == 0 {
		return 0, nil
	}

	fw.mu.Lock()'''),
 'an empty Write on a closed Writer',
 'Write reports success although the Writer is closed',
'''
func TestDemo(t *testing.T) {
	var out bytes.Buffer
	fw := flate.NewWriter(&out)
	fw.Close()
	if _, err := fw.Write(nil); err != fs.ErrClosed {
		t.Fatal(err)
	}
}
''')
bug('p09-reset-panic-keeps-lock','P09',('writer.go','''	fw.mu.Lock()
	defer fw.mu.Unlock()

	if fw.state == openStreamWriterState || fw.state == closingStreamWriterState {
		assert.Raisef("invalid state %#v -- cannot Reset in the middle of a stream", fw.state)
	}

	fw.w = w''','''	fw.mu.Lock()
	if fw.state == openStreamWriterState || fw.state == closingStreamWriterState {
		assert.Raisef("invalid state %#v -- cannot Reset in the middle of a stream", fw.state)
	}
	defer fw.mu.Unlock()

	fw.w = w'''),
 'a Reset in the middle of a stream whose panic is recovered, and any later call',
 'the refused Reset leaves the Writer locked for good',
'''
func TestDemo(t *testing.T) {
	var out bytes.Buffer
	fw := flate.NewWriter(&out, flate.WithMemoryLevel(1))
	fw.Write(noise(5000, 1))
	func() {
		defer func() { recover() }()
		fw.Reset(&bytes.Buffer{})
		t.Error("no panic")
	}()
	within(t, 10*time.Second, "Write after a refused Reset", func() { fw.Write([]byte("x")) })
}
''')
bug('p09-close-after-finish','P09',('writer.go','	if flushType == FinishFlush && fw.state == noStreamWriterState {','	if flushType == FinishFlush && (fw.state == noStreamWriterState || fw.state == closedStreamWriterState && fw.inputBytesStream == 0) {'),
 'Close or FinishFlush after FinishFlush of an empty stream',
 'a second empty stream is appended after an empty one',
'''
func TestDemo(t *testing.T) {
	var out bytes.Buffer
	fw := flate.NewWriter(&out, flate.WithFormat(flate.GZIPFormat))
	fw.Flush(flate.FinishFlush)
	n := out.Len()
	fw.Close()
	if out.Len() != n {
		t.Fatalf("Close added %d bytes", out.Len()-n)
	}
}
''')
bug('p10-flush-error-not-sticky','P10',('writer.go','''		if err := x.Flush(); err != nil {
			fw.state = errorWriterState
			fw.err = err
			return false''','''		if err := x.Flush(); err != nil {
			if fw.state != closedStreamWriterState {
				fw.state = errorWriterState
			}
			fw.err = err
			return false'''),
 'an underlying writer whose Flush fails during FinishFlush',
 'the error is returned once and then forgotten; later Writes report success',
'''
type badFlush struct {
	bytes.Buffer
	n int
}

func (b *badFlush) Flush() error {
	b.n++
	if b.n == 1 {
		return errors.New("flush failed")
	}
	return nil
}

func TestDemo(t *testing.T) {
	w := &badFlush{}
	fw := flate.NewWriter(w)
	fw.Write([]byte("x"))
	if err := fw.Flush(flate.FinishFlush); err == nil {
		t.Fatal("no error")
	}
	if _, err := fw.Write([]byte("y")); err == nil {
		t.Fatal("Write succeeds after an error")
	}
}
''')
bug('p10-enotsup-ignored','P10',('writer.go','	return errors.Is(err, syscall.EINVAL)','	return errors.Is(err, syscall.EINVAL) || errors.Is(err, os.ErrClosed)'),
 'an underlying writer whose Sync reports that it is closed',
 'the Sync error is swallowed and Flush reports success',
'''
type badSync struct{ bytes.Buffer }

func (b *badSync) Sync() error { return &os.PathError{Op: "sync", Path: "x", Err: os.ErrClosed} }

func TestDemo(t *testing.T) {
	fw := flate.NewWriter(&badSync{})
	fw.Write([]byte("x"))
	if err := fw.Flush(flate.SyncFlush); !errors.Is(err, os.ErrClosed) {
		t.Fatal(err)
	}
}
''')
BUGS[-1]['edits'].append(('writer.go','	"math"\n	"strings"','	"math"\n	"os"\n	"strings"'))
bug('p10-close-keeps-error','P10',('writer.go','''	helper := func() error {
		err := fw.err
		fw.state = closedWriterState
		fw.err = nil
		return err
	}
''','''	helper := func() error {
		err := fw.err
		if fw.state != errorWriterState {
			fw.state = closedWriterState
		}
		fw.err = nil
		return err
	}
'''),
 'Close of a Writer whose underlying writer failed',
 'the Writer is not closed by Close: later calls return a nil error, that is, success',
'''
type bad struct{}

func (bad) Write(p []byte) (int, error) { return 0, errors.New("bad") }

func TestDemo(t *testing.T) {
	fw := flate.NewWriter(bad{})
	fw.Write([]byte("x"))
	if err := fw.Close(); err == nil {
		t.Fatal("no error")
	}
	if err := fw.Close(); err != fs.ErrClosed {
		t.Fatal(err)
	}
}
''')
bug('p11-wrapped-eof','P11',('reader.go','	if eofIsError && err == io.EOF {','	if eofIsError && errors.Is(err, io.EOF) {'),
 'an underlying reader that fails with an error wrapping io.EOF in the middle of a stream',
 'the error is replaced by io.ErrUnexpectedEOF',
'''
type failing struct {
	p   []byte
	err error
}

func (f *failing) Read(p []byte) (int, error) {
	if len(f.p) == 0 {
		return 0, f.err
	}
	n := copy(p, f.p)
	f.p = f.p[n:]
	return n, nil
}

func TestDemo(t *testing.T) {
	z := pack(t, []byte("some data to compress"))
	werr := fmt.Errorf("connection lost: %w", io.EOF)
	if _, err := unpackFrom(&failing{z[:len(z)-3], werr}, flate.WithFormat(flate.ZlibFormat)); err != werr {
		t.Fatal(err)
	}
}
''')
BUGS[-1]['edits'].append(('reader.go','	"encoding/binary"\n	"fmt"','	"encoding/binary"\n	"errors"\n	"fmt"'))
bug('p11-error-between-members','P11',('reader.go','''		fr.inputBufferFill()
		if fr.inputBuffer.IsEmpty() {
			fr.propagateError(false)
			return false
		}
	}

	fr.numStreams++''','''		fr.inputBufferFill()
		if fr.inputBuffer.IsEmpty() {
			if fr.numStreams > 0 {
				fr.closeWithError(io.EOF)
			}
			fr.propagateError(false)
			return false
		}
	}

	fr.numStreams++'''),
 'an underlying reader that fails exactly between two concatenated streams',
 'the read error is reported as a clean end of file',
'''
type failing struct {
	p   []byte
	err error
}

func (f *failing) Read(p []byte) (int, error) {
	if len(f.p) == 0 {
		return 0, f.err
	}
	n := copy(p, f.p)
	f.p = f.p[n:]
	return n, nil
}

func TestDemo(t *testing.T) {
	z := pack(t, []byte("some data to compress"))
	werr := errors.New("connection lost")
	if _, err := unpackFrom(&failing{z, werr}, flate.WithFormat(flate.ZlibFormat)); err != werr {
		t.Fatal(err)
	}
}
''')
bug('p11-error-with-data-retried','P11',('reader.go','''	_, err := fr.inputBuffer.ReadFrom(r)
	fr.mu1.Lock()
	fr.inputError = err''','''	nn, err := fr.inputBuffer.ReadFrom(r)
	fr.mu1.Lock()
	if nn == 0 || err == io.EOF {
		fr.inputError = err
	}'''),
 'an underlying reader that returns a transient error after some data and would deliver more when asked again',
 'the error is lost and the data around it is joined as if nothing had happened',
'''
type transient struct {
	parts [][]byte
	i     int
	failed bool
}

func (f *transient) Read(p []byte) (int, error) {
	if f.i == 1 && !f.failed {
		f.failed = true
		return 0, errors.New("transient")
	}
	if f.i >= len(f.parts) {
		return 0, io.EOF
	}
	n := copy(p, f.parts[f.i])
	f.i++
	return n, nil
}

func TestDemo(t *testing.T) {
	z := pack(t, []byte("some data to compress"))
	if _, err := unpackFrom(&transient{parts: [][]byte{z[:9], z[9:]}}, flate.WithFormat(flate.ZlibFormat)); err == nil || err.Error() != "transient" {
		t.Fatal(err)
	}
}
''')
bug('p12-strategy-forgotten','P12',('writer.go','''	o.method = fw.method
	o.strategy = fw.strategy
	o.clevel''','''	o.method = fw.method
	o.clevel'''),
 'Writer.Reset with some option on a Writer with a non-default strategy',
 'the strategy falls back to the default instead of being merged',
'''
func TestDemo(t *testing.T) {
	fw := flate.NewWriter(&bytes.Buffer{}, flate.WithStrategy(flate.HuffmanOnlyStrategy))
	fw.Reset(&bytes.Buffer{}, flate.WithMemoryLevel(3))
	if fw.Strategy() != flate.HuffmanOnlyStrategy {
		t.Fatal(fw.Strategy())
	}
}
''')
bug('p12-reader-input-leftover','P12',('reader.go','''	fr.inputBuffer.Clear()
	fr.decodeBuffer.Clear()
	fr.window.Clear()

	fr.outputError = nil
	fr.outputBuffer.Clear()

	if len(opts) == 0 {
		return
	}
''','''	fr.decodeBuffer.Clear()
	fr.window.Clear()

	fr.outputError = nil
	fr.outputBuffer.Clear()

	if len(opts) == 0 {
		return
	}

	fr.inputBuffer.Clear()
'''),
 'Reader.Reset without options after a failure or a Close that left unread input in the buffer',
 'the next stream is decoded with the leftover input of the previous one in front',
'''
func TestDemo(t *testing.T) {
	z := pack(t, []byte("good data"))
	fr := flate.NewReader(bytes.NewReader([]byte{0x78, 0x9d, 1, 2, 3, 4, 5}), flate.WithFormat(flate.ZlibFormat))
	if _, err := io.ReadAll(fr); err == nil {
		t.Fatal("no error")
	}
	fr.Reset(bytes.NewReader(z))
	got, err := io.ReadAll(fr)
	if err != nil || string(got) != "good data" {
		t.Fatalf("%q %v", got, err)
	}
}
''')
bug('p12-output-residue','P12',('writer.go','''	fw.hybrid.Clear()
	fw.output.Clear()
''','''	fw.hybrid.Clear()
'''),
 'Reset after the underlying writer failed while the Writer had buffered output',
 'the bytes that could not be written end up in front of the next stream',
'''
type bad struct{}

func (bad) Write(p []byte) (int, error) { return 0, errors.New("bad") }

func TestDemo(t *testing.T) {
	fw := flate.NewWriter(bad{})
	fw.Write([]byte("lost"))
	fw.Close()
	var out bytes.Buffer
	fw.Reset(&out)
	fw.Write([]byte("kept"))
	fw.Close()
	if want := pack(t, []byte("kept")); !bytes.Equal(out.Bytes(), want) {
		t.Fatalf("%x, want %x", out.Bytes(), want)
	}
}
''')
bug('p13-first-format-wins','P13',[('reader.go','''	switch fr.format {
	case DefaultFormat:
		ok = fr.readHeaderAuto()''','''	format := fr.format
	if format == DefaultFormat && fr.numStreams > 1 {
		format = previous
	}
	switch format {
	case DefaultFormat:
		ok = fr.readHeaderAuto()'''),('reader.go','''	fr.actualFormat = DefaultFormat

	fr.sendEvent(Event{
		Type: StreamBeginEvent,''','''	previous := fr.actualFormat
	fr.actualFormat = DefaultFormat

	fr.sendEvent(Event{
		Type: StreamBeginEvent,''')],
 'auto-detected input that changes its format from one stream to the next',
 'every stream after the first is expected to have the format of the first',
'''
func TestDemo(t *testing.T) {
	z := append(pack(t, []byte("one "), flate.WithFormat(flate.GZIPFormat)), pack(t, []byte("two"), flate.WithFormat(flate.ZlibFormat))...)
	got, err := unpack(z)
	if err != nil || string(got) != "one two" {
		t.Fatalf("%q %v", got, err)
	}
}
''')
bug('p13-zero-padding','P13',('reader.go','''	if p[0] != 0x1f || p[1] != 0x8b {
		fr.corruptf("invalid gzip header identification bytes")''','''	if fr.numStreams > 1 && p[0] == 0 && p[1] == 0 {
		// zero padding after the last member
		fr.closeWithError(io.EOF)
		return false
	}

	if p[0] != 0x1f || p[1] != 0x8b {
		fr.corruptf("invalid gzip header identification bytes")'''),
 'a gzip member followed by ten or more bytes the first two of which are zero',
 'the trailing bytes, possibly containing further members, are silently dropped',
'''
func TestDemo(t *testing.T) {
	z := pack(t, []byte("one"), flate.WithFormat(flate.GZIPFormat))
	z = append(append(z, 0, 0), pack(t, []byte("two"), flate.WithFormat(flate.GZIPFormat))...)
	if got, err := unpack(z, flate.WithFormat(flate.GZIPFormat)); err == nil {
		t.Fatalf("%q %v", got, err)
	}
}
''')
bug('p14-time-signed','P14',('reader.go','		fr.header.LastModified = time.Unix(int64(mtime), 0)','		fr.header.LastModified = time.Unix(int64(int32(mtime)), 0)'),
 'a modification time after January 2038',
 'the time is reported as lying before 1970',
'''
func TestDemo(t *testing.T) {
	want := time.Unix(1<<31+5, 0)
	var out bytes.Buffer
	fw := flate.NewWriter(&out, flate.WithFormat(flate.GZIPFormat))
	if err := fw.SetHeader(flate.Header{LastModified: want}); err != nil {
		t.Fatal(err)
	}
	fw.Close()
	var h flate.Header
	unpack(out.Bytes(), flate.WithTracers(flate.CaptureHeader(&h)))
	if !h.LastModified.Equal(want) {
		t.Fatal(h.LastModified)
	}
}
''')
bug('p14-os-codes-swapped','P14',[('enum_ostype.go','	0x08: OSTypeZSystem,\n	0x09: OSTypeCPM,','	0x08: OSTypeCPM,\n	0x09: OSTypeZSystem,'),('enum_ostype.go','	OSTypeZSystem:     0x08,\n	OSTypeCPM:         0x09,','	OSTypeZSystem:     0x09,\n	OSTypeCPM:         0x08,')],
 'a header with OS type Z-System or CP/M exchanged with another implementation',
 'both tables swap two codes: the Reader undoes what the Writer does, but neither agrees with RFC 1952',
'''
func TestDemo(t *testing.T) {
	var out bytes.Buffer
	fw := flate.NewWriter(&out, flate.WithFormat(flate.GZIPFormat))
	fw.SetHeader(flate.Header{OSType: flate.OSTypeZSystem})
	fw.Close()
	if out.Bytes()[9] != 8 {
		t.Fatalf("OS byte %d", out.Bytes()[9])
	}
}
''')
bug('p14-name-limit','P14',('writer.go','	if len(header.Comment) >= 256 {','	if len(header.Comment) > 256 {'),
 'a comment of exactly 256 bytes',
 'SetHeader accepts a comment that is too long',
'''
func TestDemo(t *testing.T) {
	fw := flate.NewWriter(&bytes.Buffer{}, flate.WithFormat(flate.GZIPFormat))
	if err := fw.SetHeader(flate.Header{Comment: strings.Repeat("x", 256)}); err == nil {
		t.Fatal("accepted")
	}
	if err := fw.SetHeader(flate.Header{Comment: strings.Repeat("x", 255)}); err != nil {
		t.Fatal(err)
	}
}
''')
bug('p14-refused-header-kept','P14',('writer.go','''	if len(errlist) == 0 {
		fw.mu.Lock()
		fw.header = header
		fw.mu.Unlock()
		return nil
	}
''','''	fw.mu.Lock()
	if len(errlist) != 0 {
		header.FileName, header.Comment = "", ""
	}
	fw.header = header
	fw.mu.Unlock()

	if len(errlist) == 0 {
		return nil
	}
'''),
 'a SetHeader that is refused after one that was accepted',
 'a refused header replaces the previous one',
'''
func TestDemo(t *testing.T) {
	var out bytes.Buffer
	fw := flate.NewWriter(&out, flate.WithFormat(flate.GZIPFormat))
	fw.SetHeader(flate.Header{FileName: "name"})
	fw.SetHeader(flate.Header{FileName: "a/b"})
	fw.Close()
	var h flate.Header
	unpack(out.Bytes(), flate.WithTracers(flate.CaptureHeader(&h)))
	if h.FileName != "name" {
		t.Fatalf("%q", h.FileName)
	}
}
''')
bug('p15-dictionary-trimmed','P15',('options.go','''		tmp := make([]byte, len(dict))
		copy(tmp, dict)
		dict = tmp
	}
	return func(o *options) { o.dict = dict }''','''		// only the last 32 KiB can ever be referred to
		if len(dict) > 32768 {
			dict = dict[len(dict)-32768:]
		}
		tmp := make([]byte, len(dict))
		copy(tmp, dict)
		dict = tmp
	}
	return func(o *options) { o.dict = dict }'''),
 'a preset dictionary longer than 32 KiB in a zlib stream exchanged with another implementation',
 'the announced dictionary checksum is that of the last 32 KiB only',
'''
func TestDemo(t *testing.T) {
	dict := noise(40000, 1)
	z := pack(t, []byte("data"), flate.WithFormat(flate.ZlibFormat), flate.WithDictionary(dict))
	zr, err := zlib.NewReaderDict(bytes.NewReader(z), dict)
	if err != nil {
		t.Fatal(err)
	}
	if got, err := io.ReadAll(zr); err != nil || string(got) != "data" {
		t.Fatalf("%q %v", got, err)
	}
}
''')
bug('p15-dict-first-stream-only','P15',('reader.go','	if fr.dict != nil {\n		_, _ = fr.window.Write(fr.dict)','	if fr.dict != nil && (fr.numStreams == 1 || fr.format != RawFormat) {\n		_, _ = fr.window.Write(fr.dict)'),
 'concatenated raw streams that all use the preset dictionary',
 'only the first stream is decoded with the dictionary',
'''
func TestDemo(t *testing.T) {
	dict := []byte("the quick brown fox jumps over")
	z := pack(t, []byte("the quick brown fox"), flate.WithFormat(flate.RawFormat), flate.WithDictionary(dict))
	got, err := unpack(append(append([]byte{}, z...), z...), flate.WithFormat(flate.RawFormat), flate.WithDictionary(dict))
	if err != nil || string(got) != "the quick brown foxthe quick brown fox" {
		t.Fatalf("%q %v", got, err)
	}
}
''')
bug('p16-adler-reset','P16',('internal/adler32/adler32.go','''func (h *Hash) Write(p []byte) (int, error) {
	h.sum = Update(h.sum, p)''','''func (h *Hash) Write(p []byte) (int, error) {
	if h.sum == 0 {
		h.sum = 1
	}
	h.sum = Update(h.sum, p)'''),
 'data whose Adler-32 is exactly zero at the point where it is split over two updates',
 'the running sum is taken for an unset one and restarted',
'''
func TestDemo(t *testing.T) {
	// 256 bytes 0xff and one byte 0xf0 make s1 = 1+65280+240 = 65521 = 0;
	// then zero bytes until s2 = 0 is not guaranteed, so search for it.
	for a := 1; a < 60000; a++ {
		_ = a
		break
	}
	s1, s2 := uint32(1), uint32(0)
	var data []byte
	put := func(b uint32) {
		data = append(data, byte(b))
		s1 = (s1 + b) % 65521
		s2 = (s2 + s1) % 65521
	}
	for s1 != 0 || s2 != 0 {
		// drive s2 towards -s1 and finish with s1 = 0
		if len(data) > 300000 {
			t.Skip("no such data")
		}
		need := (65521 - s1) % 65521
		if need < 256 && s2 == 0 {
			put(need)
			continue
		}
		if need < 200 {
			// one step of b brings s1 to s1+b; want s2 + s1 + b + 0... = 0
			rem := (65521 - s2) % 65521 // sum of the following s1 values must be this
			// choose k steps that keep s1 and then the final one
			d := (65521 - s1) % 65521
			// each zero byte adds s1, i.e. subtracts d
			if d != 0 && (65521-rem)%d == 0 {
				for i := uint32(0); i < (65521-rem)/d; i++ {
					put(0)
				}
				put(d)
				continue
			}
		}
		if need == 0 {
			put(1)
			continue
		}
		if need > 255 {
			put(255)
		} else if need > 1 {
			put(need - 1)
		} else {
			rem := (65521 - s2) % 65521
			for i := uint32(0); i < 65521-rem; i++ {
				put(0)
			}
			put(1)
		}
	}
	if adler32.Checksum(data) != 0 {
		t.Skip("demo construction")
	}
	tail := []byte("tail")
	var out bytes.Buffer
	fw := flate.NewWriter(&out, flate.WithFormat(flate.ZlibFormat))
	fw.Write(data)
	fw.Flush(flate.BlockFlush)
	fw.Write(tail)
	fw.Close()
	want := adler32.Checksum(append(data, tail...))
	tr := out.Bytes()[out.Len()-4:]
	if got := uint32(tr[0])<<24 | uint32(tr[1])<<16 | uint32(tr[2])<<8 | uint32(tr[3]); got != want {
		t.Fatalf("%08x, want %08x", got, want)
	}
}
''')
