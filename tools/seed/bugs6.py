BUGS=[]
def bug(id,prop,edits,needs,breaks,demo=None,**kw):
    if isinstance(edits,tuple): edits=[edits]
    d=dict(id=id,prop=prop,edits=edits,needs=needs,breaks=breaks,demo=demo); d.update(kw); BUGS.append(d)

bug('p05-empty-stream-unchecked','P05',('reader.go',"""	if expectedAdler32 != computedAdler32 {
		fr.corruptf("invalid zlib Adler-32 checksum""","""	if expectedAdler32 != computedAdler32 && fr.outputBytesStream != 0 {
		fr.corruptf("invalid zlib Adler-32 checksum"""),
 'a zlib stream of no content whose trailer is damaged',
 'the damaged trailer is accepted',
'''
func TestDemo(t *testing.T) {
	z := pack(t, nil)
	z[len(z)-1] ^= 0x10
	got, err := unpack(z)
	if err == nil {
		t.Fatalf("%q, %v", got, err)
	}
}
''')
for b in BUGS: b['demo']=b['demo'].replace('unpack(z)','unpack(z, flate.WithFormat(flate.ZlibFormat))').replace('pack(t, nil)','pack(t, nil, flate.WithFormat(flate.ZlibFormat))')

bug('p12-reader-window-only-grows','P12',('reader.go',"""	if numBits := fr.windowNumBits(); fr.window.NumBits() != numBits {""","""	if numBits := fr.windowNumBits(); fr.window.NumBits() < numBits {"""),
 'a Reader with a large window, Reset with a smaller one, and a raw stream that needs more than the smaller one',
 'the stream is accepted although the Reader was told to refuse it',
'''
func TestDemo(t *testing.T) {
	data := append(append(noise(200, 1), noise(1000, 2)...), noise(200, 1)...)
	z := pack(t, data, flate.WithFormat(flate.RawFormat), flate.WithWindowBits(12))
	if _, err := unpack(z, flate.WithFormat(flate.RawFormat), flate.WithWindowBits(8)); err == nil {
		t.Skip("the stream does not need the window")
	}
	fr := flate.NewReader(bytes.NewReader(z), flate.WithFormat(flate.RawFormat), flate.WithWindowBits(12))
	if _, err := io.ReadAll(fr); err != nil {
		t.Fatal(err)
	}
	fr.Reset(bytes.NewReader(z), flate.WithWindowBits(8))
	if _, err := io.ReadAll(fr); err == nil {
		t.Fatal("accepted")
	}
}
''')
bug('p12-writer-options-by-size','P12',('writer.go',"""	if !oldHO.Equal(newHO) {""","""	if oldHO.BufferNumBits != newHO.BufferNumBits || oldHO.HashNumBits != newHO.HashNumBits || oldHO.WindowNumBits != newHO.WindowNumBits {"""),
 'a Writer with an 8-bit window whose strategy is changed by Reset',
 'the match finder keeps working for the previous strategy',
'''
func TestDemo(t *testing.T) {
	data := bytes.Repeat([]byte("0123456789abcdef"), 200)
	want := pack(t, data, flate.WithWindowBits(8), flate.WithStrategy(flate.HuffmanRLEStrategy))
	var out bytes.Buffer
	fw := flate.NewWriter(&out, flate.WithWindowBits(8), flate.WithStrategy(flate.DefaultStrategy))
	if err := fw.Close(); err != nil {
		t.Fatal(err)
	}
	out.Reset()
	fw.Reset(&out, flate.WithStrategy(flate.HuffmanRLEStrategy))
	if _, err := fw.Write(data); err != nil {
		t.Fatal(err)
	}
	if err := fw.Close(); err != nil {
		t.Fatal(err)
	}
	if !bytes.Equal(out.Bytes(), want) {
		t.Fatalf("%d bytes, %d when fresh", out.Len(), len(want))
	}
}
''')
bug('p19-fixed-but-dynamic','P19',[('writer.go',"""	if fw.strategy == FixedStrategy {
		return writeStaticBlock""","""	if fw.strategy == FixedStrategy && !(len(*tokens) > len(data) && len(data) >= 4096) {
		return writeStaticBlock""")],
 'FixedStrategy and a block of at least 4096 bytes without a single repetition',
 'the block is written with dynamic codes although only fixed codes were asked for',
'''
func TestDemo(t *testing.T) {
	data := make([]byte, 4096)
	// no three bytes come twice
	n := uint32(0)
	seq := func(v byte) {
		if n < 4096 {
			data[n] = v
			n++
		}
	}
	var db func(a []byte, t, p int)
	db = func(a []byte, t, p int) {
		if t > 3 {
			if 3%p == 0 {
				for _, v := range a[1 : p+1] {
					seq(v)
				}
			}
			return
		}
		a[t] = a[t-p]
		db(a, t+1, p)
		for v := a[t-p] + 1; v < 16; v++ {
			a[t] = v
			db(a, t+1, t)
		}
	}
	db(make([]byte, 48), 1, 1)
	var types []flate.BlockType
	tr := flate.TracerFunc(func(e flate.Event) {
		if e.Type == flate.BlockBeginEvent {
			types = append(types, e.Block.Type)
		}
	})
	pack(t, data, flate.WithStrategy(flate.FixedStrategy), flate.WithTracers(tr))
	if types[0] == flate.DynamicBlock {
		t.Fatalf("%v", types)
	}
}
''')
bug('p16-sum-overwrites','P16',('internal/crc32/crc32.go',"""	return append(slice, tmp[:]...)""","""	return append(slice[:0], tmp[:]...)"""),
 'Sum called with a prefix to append to',
 'the prefix is lost', None)
BUGS[-1]['sh']='''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 99
trap 'rm -rf "$T"' EXIT
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -buildvcs=false" GOWORK=off
printf '{"Replace":{"%s":"%s"}}' "$PWD/internal/crc32/zz_demo_test.go" "$D/demo_test.go" >"$T/o.json"
go test -vet=off -count=1 -timeout 120s -overlay "$T/o.json" -run '^TestDemo$' ./internal/crc32
'''
BUGS[-1]['files']={'demo_test.go':'''package crc32

import "testing"

func TestDemo(t *testing.T) {
	h := New()
	h.Write([]byte("abc"))
	if got := string(h.Sum([]byte("prefix"))); len(got) != 10 || got[:6] != "prefix" {
		t.Fatalf("%q", got)
	}
}
'''}
bug('p17-second-close-returns-early','P17',('reader.go',"""	if fr.readThreadWasStarted && !fr.readThreadWasStopped {""","""	if fr.readThreadWasStarted && !fr.readThreadWasStopped && !fr.stopIsForced {"""),
 'two Closes (or Close and Reset) at the same time, while the underlying reader takes its time',
 'the second one does not wait for the background thread: Reset changes fields under its feet',
'''
type slow struct{ go1, in chan struct{} }

func (s slow) Read(p []byte) (int, error) {
	close(s.in)
	<-s.go1
	return 0, io.EOF
}

func TestDemo(t *testing.T) {
	s := slow{make(chan struct{}), make(chan struct{})}
	fr := flate.NewReader(s)
	go fr.Read(make([]byte, 1))
	<-s.in
	first := make(chan struct{})
	go func() { fr.Close(); close(first) }()
	time.Sleep(200 * time.Millisecond)
	second := make(chan struct{})
	go func() { fr.Close(); close(second) }()
	select {
	case <-second:
		t.Error("the second Close returned while the background thread was still at work")
	case <-time.After(300 * time.Millisecond):
	}
	close(s.go1)
	<-first
	<-second
}
''')
bug('p11-temporary-retried','P11',('reader.go',"""	_, err := fr.inputBuffer.ReadFrom(r)
""","""	_, err := fr.inputBuffer.ReadFrom(r)
	for tries := 0; isTemporary(err) && tries < 3; tries++ {
		_, err = fr.inputBuffer.ReadFrom(r)
	}
"""),'an underlying reader whose error says Temporary() == true','the error is not reported but the read is repeated',None)
BUGS[-1]['edits'].append(('reader.go',"""func (fr *Reader) inputBufferRead(p []byte)""","""func isTemporary(err error) bool {
	x, ok := err.(interface{ Temporary() bool })
	return ok && x.Temporary()
}

func (fr *Reader) inputBufferRead(p []byte)"""))
BUGS[-1]['demo']='''
type once struct {
	r io.Reader
	n int
}

func (o *once) Read(p []byte) (int, error) {
	if o.n++; o.n == 2 {
		return 0, syscall.EAGAIN
	}
	if len(p) > 10 {
		p = p[:10]
	}
	return o.r.Read(p)
}

func TestDemo(t *testing.T) {
	z := pack(t, noise(1000, 1))
	_, err := unpackFrom(&once{r: bytes.NewReader(z)}, flate.WithMemoryLevel(1))
	if err != syscall.EAGAIN {
		t.Fatalf("%v", err)
	}
}
'''
bug('p06-long-name-panics','P06',('reader.go',"""	bb := bufferpool.Get()
	defer bufferpool.Put(bb)

	for {
		if fr.inputBuffer.IsEmpty() {""","""	bb := bufferpool.Get()
	defer bufferpool.Put(bb)

	const maxStringZ = 1 << 20
	for {
		assert.Assertf(bb.Len() <= maxStringZ, "string is longer than %d bytes", maxStringZ)
		if fr.inputBuffer.IsEmpty() {"""),
 'a gzip header whose file name has more than a mebibyte',
 'the process dies',
'''
func TestDemo(t *testing.T) {
	z := []byte{0x1f, 0x8b, 8, 8, 0, 0, 0, 0, 0, 255}
	z = append(z, bytes.Repeat([]byte("n"), 1<<20+2)...)
	_, err := unpack(z)
	if err != io.ErrUnexpectedEOF {
		t.Fatalf("%v", err)
	}
	_ = flate.GZIPFormat
}
''')
bug('p03-long-name-refused','P03',('reader.go',"""		bb.WriteByte(ch)
	}

	str = bb.String()""","""		bb.WriteByte(ch)
		if bb.Len() > 1<<16 {
			fr.corruptf("string is too long")
			break
		}
	}

	str = bb.String()"""),
 'a gzip header with a comment of more than 64 KiB',
 'a valid file is refused',
'''
func TestDemo(t *testing.T) {
	z := pack(t, []byte("content"), flate.WithFormat(flate.GZIPFormat))
	// replace the header
	i := 12
	z = append(append(append([]byte{0x1f, 0x8b, 8, 16, 0, 0, 0, 0, 0, 255}, bytes.Repeat([]byte("c"), 70000)...), 0), z[i:]...)
	got, err := unpack(z)
	if err != nil || string(got) != "content" {
		t.Fatalf("%q, %v", got, err)
	}
}
''')
bug('p04-dictionary-counted-twice','P04',('reader.go',"""		fr.windowBytes = uint64(len(fr.dict))""","""		fr.windowBytes += uint64(len(fr.dict))"""),
 'x','x','')
BUGS.pop()
bug('p24-tokens-given-twice','P24',('writer.go',"""	for _, t := range *xtokens {
		if !t.encodeX(bw, &hX) {
			return false""","""	for _, t := range *xtokens {
		if !t.encodeX(bw, &hX) {
			giveTokens(xtokens)
			return false"""),
 'an underlying writer which fails while the code lengths of a dynamic block are being written, and two other Writers afterwards',
 'two Writers work on the same list of tokens',
'''
type full struct{ left int }

func (f *full) Write(p []byte) (int, error) {
	if f.left -= len(p); f.left < 0 {
		return 0, errors.New("full")
	}
	return len(p), nil
}

func text(n int, seed uint32) []byte {
	p := noise(n, seed)
	for i := range p {
		p[i] = 'a' + p[i]%16
	}
	return p
}

func TestDemo(t *testing.T) {
	type w struct {
		fw  *flate.Writer
		out bytes.Buffer
		in  []byte
	}
	done := make(chan error, 8)
	for g := 0; g < 8; g++ {
		go func(g int) {
			var err error
			defer func() {
				if x := recover(); x != nil {
					err = errors.New("panic")
				}
				done <- err
			}()
			for k := 0; k < 400 && err == nil; k++ {
				for n := 0; n < 100; n += 7 {
					// fails while the block is being written
					bad := flate.NewWriter(&full{n + k%7}, flate.WithMemoryLevel(1))
					bad.Write(text(5000, uint32(n)))
					bad.Close()
				}
				x := &w{in: text(6000, uint32(g*1000+k))}
				x.fw = flate.NewWriter(&x.out)
				x.fw.Write(x.in)
				x.fw.Close()
				got, e := unpack(x.out.Bytes())
				if !bytes.Equal(got, x.in) {
					err = errors.New("data corrupted")
				} else {
					err = e
				}
			}
		}(g)
	}
	for g := 0; g < 8; g++ {
		if err := <-done; err != nil {
			t.Error(err)
		}
	}
}
''')
bug('p18-reset-checks-unlocked','P18',('writer.go',"""	fw.mu.Lock()
	defer fw.mu.Unlock()

	if fw.state == openStreamWriterState || fw.state == closingStreamWriterState {
		assert.Raisef("invalid state %#v -- cannot Reset in the middle of a stream", fw.state)
	}

	fw.w = w""","""	fw.mu.Lock()
	state := fw.state
	fw.mu.Unlock()

	if state == openStreamWriterState || state == closingStreamWriterState {
		assert.Raisef("invalid state %#v -- cannot Reset in the middle of a stream", state)
	}

	fw.mu.Lock()
	defer fw.mu.Unlock()

	fw.w = w"""),
 'Reset while another goroutine writes and the Writer is between two streams',
 'a stream which was begun in between is torn apart', None)
BUGS[-1]['demo']='''
type gate struct {
	hold, begun chan struct{}
	bytes.Buffer
}

func (g *gate) Write(p []byte) (int, error) {
	if g.begun != nil {
		close(g.begun)
		g.begun = nil
		<-g.hold
	}
	return g.Buffer.Write(p)
}

// A stream is being finished; Reset arrives, and then a Write.  They take
// place in either order: if Write came first, Reset must refuse.
func TestDemo(t *testing.T) {
	for round := 0; round < 300; round++ {
		g := &gate{hold: make(chan struct{}), begun: make(chan struct{})}
		begun := g.begun
		var b bytes.Buffer
		fw := flate.NewWriter(g, flate.WithMemoryLevel(1), flate.WithFormat(flate.RawFormat))
		fw.Write([]byte("first"))
		done := make(chan bool, 3)
		go func() {
			fw.Flush(flate.FinishFlush)
			done <- false
		}()
		<-begun
		var stop int32
		for k := 0; k < 6; k++ {
			go func() {
				for atomic.LoadInt32(&stop) == 0 {
					fw.Format()
				}
			}()
		}
		time.Sleep(5 * time.Millisecond)
		refused := make(chan bool, 1)
		go func() {
			defer func() { refused <- recover() != nil }()
			fw.Reset(&b)
		}()
		time.Sleep(5 * time.Millisecond)
		go func() {
			fw.Write(noise(10000, uint32(round)))
			done <- false
		}()
		time.Sleep(5 * time.Millisecond)
		close(g.hold)
		<-done
		<-done
		r := <-refused
		atomic.StoreInt32(&stop, 1)
		if !r && g.Len() > 100 {
			t.Fatalf("Reset took place although a stream of %d bytes had been begun", g.Len())
		}
	}
}
'''
bug('p28-source-date-epoch','P28',[('writer.go',"""	if !fw.header.LastModified.IsZero() {
		s64 := fw.header""","""	if epoch, err := strconv.ParseInt(os.Getenv("SOURCE_DATE_EPOCH"), 10, 64); err == nil && fw.header.LastModified.IsZero() {
		fw.header.LastModified = time.Unix(epoch, 0)
	}
	if !fw.header.LastModified.IsZero() {
		s64 := fw.header"""),('writer.go','''	"math"
''','''	"math"
	"os"
	"strconv"
	"time"
''')],
 'SOURCE_DATE_EPOCH in the environment of the process',
 'the output differs from that of the same program without it',
'''
func TestDemo(t *testing.T) {
	a := pack(t, []byte("x"), flate.WithFormat(flate.GZIPFormat))
	os.Setenv("SOURCE_DATE_EPOCH", "1234567890")
	b := pack(t, []byte("x"), flate.WithFormat(flate.GZIPFormat))
	if !bytes.Equal(a, b) {
		t.Fatalf("%x and %x", a, b)
	}
}
''')
bug('p14-latin1-decoded','P14',[('reader.go',"""	str = bb.String()
	return
}

func (fr *Reader) inputBitsFill(""","""	str = bb.String()
	if !utf8.ValidString(str) {
		// RFC 1952 wants ISO 8859-1
		var sb strings.Builder
		for i := 0; i < len(str); i++ {
			sb.WriteRune(rune(str[i]))
		}
		str = sb.String()
	}
	return
}

func (fr *Reader) inputBitsFill("""),('reader.go','''	"io"
	"sync"
	"time"
''','''	"io"
	"strings"
	"sync"
	"time"
	"unicode/utf8"
''')],
 'a file name which is not valid UTF-8',
 'the name that is read is not the name that was written',
'''
func TestDemo(t *testing.T) {
	var out bytes.Buffer
	fw := flate.NewWriter(&out, flate.WithFormat(flate.GZIPFormat))
	if err := fw.SetHeader(flate.Header{FileName: "caf\\xe9.txt"}); err != nil {
		t.Fatal(err)
	}
	if err := fw.Close(); err != nil {
		t.Fatal(err)
	}
	var h flate.Header
	if _, err := unpack(out.Bytes(), flate.WithTracers(flate.CaptureHeader(&h))); err != nil {
		t.Fatal(err)
	}
	if h.FileName != "caf\\xe9.txt" {
		t.Fatalf("%q", h.FileName)
	}
}
''')
bug('p21-level-spaces','P21',('enum_clevel.go',"""func (clevel *CompressLevel) Parse(str string) error {
""","""func (clevel *CompressLevel) Parse(str string) error {
	if len(str) > 1 && str[0] == '0' {
		str = str[1:]
	}
"""),
 'a level written with a leading zero and one of the names',
 'a malformed value such as "0default" or "0-1" is accepted', '''
func TestDemo(t *testing.T) {
	var l flate.CompressLevel
	if err := l.Parse("0default"); err == nil {
		t.Fatalf("accepted as %v", l)
	}
}
''')
bug('p22-operand-dash','P22',('cmd/gzip/main.go',"""	if flagFormat.Value == flate.DefaultFormat && !flagDecompress {""","""	if flagFormat.Value == flate.DefaultFormat && !flagDecompress && (dict == nil || flagCLevel.Value == 0) {"""),
 'the command with a dictionary but without a format',
 'it writes a zlib file instead of a gzip file', None)
BUGS[-1]['sh']='''#!/bin/bash
T=$(mktemp -d) || exit 99
trap 'rm -rf "$T"' EXIT
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -buildvcs=false" GOWORK=off
go build -o "$T/gzip" ./cmd/gzip || exit 1
[ "$(echo text | "$T/gzip" --dictionary=text | head -c 2 | od -An -tx1 | tr -d ' ')" = 1f8b ]
'''
bug('p20-log-drops-trees','P20',[('trace.go',"""	tr.logger.Trace().
		Interface""","""	if event.Type == StreamCloseEvent && event.OutputBytesStream == 0 {
		// nothing happened
		return
	}
	tr.logger.Trace().
		Interface""")],
 'a stream without content and the Log tracer',
 'the end of the stream is missing in the log', None)
BUGS[-1]['demo']='''
type lines struct{ n int }

func (l *lines) Write(p []byte) (int, error) {
	l.n += bytes.Count(p, []byte("\\n"))
	return len(p), nil
}

func TestDemo(t *testing.T) {
	z := pack(t, nil, flate.WithFormat(flate.GZIPFormat))
	n := 0
	var l lines
	if _, err := unpack(z, flate.WithTracers(flate.TracerFunc(func(flate.Event) { n++ }), flate.Log(zerolog.New(&l)))); err != nil {
		t.Fatal(err)
	}
	if n != l.n {
		t.Fatalf("%d events, %d lines", n, l.n)
	}
}
'''
bug('p26-log-of-blocks','P26',[('writer.go',"""	numStreams        uint
	obBlock """,""" 	numStreams        uint
	blockSizes        []uint32
	obBlock """),('writer.go',"""	data := bb.Bytes()
	*tokens = append""","""	data := bb.Bytes()
	fw.blockSizes = append(fw.blockSizes, uint32(len(data)))
	*tokens = append""")],
 'a stream of very many flushes',
 'memory grows with the length of the stream', None)
BUGS[-1]['demo']='''
func heap() uint64 {
	var m runtime.MemStats
	runtime.GC()
	runtime.GC()
	runtime.ReadMemStats(&m)
	return m.HeapAlloc
}

func TestDemo(t *testing.T) {
	fw := flate.NewWriter(io.Discard, flate.WithMemoryLevel(1))
	run := func(n int) uint64 {
		for i := 0; i < n; i++ {
			fw.Write([]byte("x"))
			if err := fw.Flush(flate.BlockFlush); err != nil {
				t.Fatal(err)
			}
		}
		return heap()
	}
	a := run(1000)
	b := run(150000)
	runtime.KeepAlive(fw)
	if b > a+300000 {
		t.Fatalf("heap grew from %d to %d", a, b)
	}
}
'''
bug('p13-dict-kept-by-window','P13',('reader.go',"""	fr.window.Clear()
	fr.windowBytes = 0
	if fr.dict != nil {""","""	if fr.numStreams == 1 || fr.windowBytes > 1<<16 {
		fr.window.Clear()
	}
	fr.windowBytes = 0
	if fr.dict != nil {"""),'x','x','')
BUGS.pop()
bug('p02-text-flag-bit','P02',('writer.go',"""	header[3] |= (bits0 | bits1 | bits2 | bits3)""","""	header[3] |= (bits0 ^ bits1 ^ bits2 ^ bits3) &^ (bits1 & 0x01)"""),'x','x','')
BUGS.pop()
bug('p27-stored-offset','P27',('reader.go',"""	fr.inputBytesTotal += uint64(pIndex)
	fr.inputBytesStream += uint64(pIndex)
	fr.inputBytesCRC32""","""	fr.inputBytesTotal += uint64(uint32(pIndex))
	fr.inputBytesStream += uint64(uint16(pIndex))
	fr.inputBytesCRC32"""),'x','x','')
BUGS.pop()
bug('p23-lazy-block-threshold','P23',('writer.go',"""	if staticCounter.length() <= dynamicCounter.length() {""","""	if staticCounter.length() <= dynamicCounter.length() || len(tokens) < 400 {"""),
 'small blocks of few different symbols, for which a code of their own pays although they are short',
 'the output is larger than necessary', '''
func TestDemo(t *testing.T) {
	data := noise(390, 3)
	for i := range data {
		data[i] = 0xf0 + data[i]%2
	}
	z := pack(t, data, flate.WithStrategy(flate.HuffmanOnlyStrategy))
	if len(z) > 200 {
		t.Fatalf("%d bytes for %d bits of information", len(z), len(data))
	}
}
''')
bug('p09-flush-begins-stream','P09',('writer.go',"""	if flushType == FinishFlush && fw.state == noStreamWriterState {""","""	if flushType >= FullFlush && fw.state == noStreamWriterState {"""),
 'FullFlush on a Writer to which nothing was written',
 'a stream is begun although nothing was written, and Reset is refused', '''
func TestDemo(t *testing.T) {
	var out bytes.Buffer
	fw := flate.NewWriter(&out)
	if err := fw.Flush(flate.FullFlush); err != nil {
		t.Fatal(err)
	}
	if out.Len() != 0 {
		t.Fatalf("%x", out.Bytes())
	}
	fw.Reset(&out)
}
''')
bug('p25-reader-keeps-caller-slice','P25',('reader.go',"""	nn, _ := fr.outputBuffer.Read(p)
""","""	nn, _ := fr.outputBuffer.Read(p)
	if nn < len(p) && len(p) <= 16 {
		// leave no stale bytes behind
		for i := nn; i < len(p); i++ {
			p[i] = 0
		}
	}
"""),
 'a Read into a small buffer which is not filled',
 'bytes of the caller behind the count are overwritten', None)
BUGS.pop()
bug('p10-flush-twice-reports-once','P10',('writer.go',"""		if err := x.Flush(); err != nil {
			fw.state = errorWriterState
			fw.err = err
			return false""","""		if err := x.Flush(); err != nil {
			if fw.state != closedStreamWriterState {
				fw.state = errorWriterState
			}
			fw.err = err
			return false"""),
 'the Flush of the underlying writer fails in FinishFlush',
 'the Writer goes on as if nothing had happened', '''
type flusher struct {
	bytes.Buffer
	err error
}

func (f *flusher) Flush() error { err := f.err; f.err = nil; return err }

func TestDemo(t *testing.T) {
	f := &flusher{err: errors.New("lost")}
	fw := flate.NewWriter(f)
	if _, err := fw.Write([]byte("x")); err != nil {
		t.Fatal(err)
	}
	if err := fw.Flush(flate.FinishFlush); err == nil {
		t.Fatal("no error")
	}
	if _, err := fw.Write([]byte("y")); err == nil {
		t.Fatal("the error is forgotten")
	}
}
''')
bug('p08-block-flush-after-empty','P08',('writer.go',"""	case PartialFlush:
		tokens""","""	case PartialFlush:
		if fw.obLen == 0 {
			// on a byte boundary already
			return true
		}
		tokens"""),'x','x','')
BUGS.pop()
