BUGS=[]
GZ='''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 99
trap 'rm -rf "$T"' EXIT
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -buildvcs=false" GOWORK=off
go build -o "$T/fgz" ./cmd/gzip || exit 98
Z="$T/fgz"
'''
def bug(id,prop,edits,needs,breaks,demo=None,**kw):
    if isinstance(edits,tuple): edits=[edits]
    d=dict(id=id,prop=prop,edits=edits,needs=needs,breaks=breaks,demo=demo); d.update(kw); BUGS.append(d)


bug('p14-time-rounded','P14',('writer.go',"""		s64 := fw.header.LastModified.Unix()
""","""		s64 := fw.header.LastModified.Round(time.Second).Unix()
"""),
 'a modification time in the second half of a second, in the last second which can be represented',
 'the accepted time 2106-02-07 06:28:15.5 is written as 0, which means no time at all, and others one second late',
'''
func TestDemo(t *testing.T) {
	var b bytes.Buffer
	fw := flate.NewWriter(&b, flate.WithFormat(flate.GZIPFormat))
	when := time.Unix(1<<32-1, 600000000)
	if err := fw.SetHeader(flate.Header{LastModified: when}); err != nil {
		t.Fatal(err)
	}
	fw.Close()
	var h flate.Header
	if _, err := unpack(b.Bytes(), flate.WithTracers(flate.CaptureHeader(&h))); err != nil {
		t.Fatal(err)
	}
	if h.LastModified.Unix() != when.Unix() {
		t.Fatalf("%v", h.LastModified)
	}
}
''')
BUGS[-1]['edits'].append(('writer.go','	"syscall"\n','	"syscall"\n	"time"\n'))

bug('p17-zero-read-swallows','P17',('reader.go',"""	nn, _ := fr.outputBuffer.Read(p)

""","""	if len(p) == 0 {
		return 0, nil
	}
	nn, _ := fr.outputBuffer.Read(p)

"""),
 'a Read with an empty slice waiting together with another Read, and being the one woken up',
 'the wake-up is lost: the other Read keeps waiting although data is there',
'''
type slowReader struct {
	go_ chan struct{}
	p   []byte
}

func (s *slowReader) Read(p []byte) (int, error) {
	<-s.go_
	n := copy(p, s.p)
	s.p = s.p[n:]
	if n == 0 {
		return 0, io.EOF
	}
	return n, nil
}

func TestDemo(t *testing.T) {
	z := pack(t, bytes.Repeat([]byte("0123456789"), 10000))
	for i := 0; i < 20; i++ {
		r := &slowReader{go_: make(chan struct{}), p: z}
		fr := flate.NewReader(r)
		done := make(chan int, 2)
		go func() { fr.Read(nil); done <- 0 }()
		time.Sleep(10 * time.Millisecond)
		go func() { n, _ := fr.Read(make([]byte, 10)); done <- n }()
		time.Sleep(10 * time.Millisecond)
		close(r.go_)
		within(t, 5*time.Second, "Read", func() { <-done; <-done })
		fr.Close()
	}
}
''')

bug('p28-large-pool-dirty','P28',[('pools.go',"""	return tokenPool.Get().(*[]token)
""","""	ptr := tokenPool.Get().(*[]token)
	if cap(*ptr) < maxPooled {
		*ptr = (*ptr)[:0]
	}
	return ptr
"""),('pools.go',"""	*ptr = (*ptr)[:0]
	tokenPool.Put(ptr)
""","""	if cap(*ptr) >= maxPooled {
		*ptr = (*ptr)[:0:maxPooled]
	}
	tokenPool.Put(ptr)
"""),('pools.go',"""func takeTokens()""","""const maxPooled = 1 << 16

func takeTokens()""")],
 'a list of tokens which has exactly the capacity at which it ... ', 'x', demo=None)
BUGS.pop()

bug('p30-limit-fourteen','P30',('writer.go',"""	limitCodeSize(&hLL, freqLL, 15)
""","""	limitCodeSize(&hLL, freqLL, 14)
"""),
 'a block whose best literal/length code has code words of 15 bits',
 'the code words are needlessly kept to 14 bits, and the block is larger than with the best code',
'''
// The frequencies of the literals grow like the Fibonacci numbers.
func TestDemo(t *testing.T) {
	var data []byte
	a, b := 1, 1
	for i := 0; i < 15; i++ {
		data = append(data, bytes.Repeat([]byte{byte(i)}, a)...)
		a, b = b, a+b+1
	}
	max := 0
	tr := flate.TracerFunc(func(e flate.Event) {
		if e.Trees != nil {
			for _, s := range e.Trees.LiteralLengthSizes {
				if int(s) > max {
					max = int(s)
				}
			}
		}
	})
	pack(t, data, flate.WithStrategy(flate.HuffmanOnlyStrategy), flate.WithMemoryLevel(9), flate.WithTracers(tr))
	if max != 15 {
		t.Fatal(max)
	}
}
''')

bug('p30-limit-six','P30',('writer.go',"""	limitCodeSize(&hX, freqX, 7)
""","""	limitCodeSize(&hX, freqX, 6)
"""),
 'a block whose description of the codes would best use code words of 7 bits itself',
 'the code of the code lengths is needlessly kept to 6 bits',
'''
func TestDemo(t *testing.T) {
	max := 0
	tr := flate.TracerFunc(func(e flate.Event) {
		if e.Trees != nil {
			for _, s := range e.Trees.CodeSizes {
				if int(s) > max {
					max = int(s)
				}
			}
		}
	})
	for seed := uint32(0); seed < 400 && max < 7; seed++ {
		var data []byte
		x := noise(4096, seed)
		for i, c := range x {
			data = append(data, byte(uint(c)*uint(x[(i*7+1)%4096])*uint(x[(i*13+5)%4096])>>16))
		}
		pack(t, data, flate.WithStrategy(flate.HuffmanOnlyStrategy), flate.WithMemoryLevel(9), flate.WithTracers(tr))
	}
	if max != 7 {
		t.Fatal(max)
	}
}
''')

bug('p10-wrapped-einval','P10',('writer.go',"""	return errors.Is(err, syscall.EINVAL)
""","""	if perr, ok := err.(*fs.PathError); ok {
		err = perr.Err
	}
	return err == syscall.EINVAL
"""),
 'an underlying writer whose Sync wraps EINVAL in something else than a PathError',
 'the error is reported although EINVAL from Sync is none',
'''
type file struct{ bytes.Buffer }

func (*file) Sync() error { return &os.SyscallError{Syscall: "fsync", Err: syscall.EINVAL} }

func TestDemo(t *testing.T) {
	fw := flate.NewWriter(new(file))
	fw.Write([]byte("x"))
	if err := fw.Flush(flate.SyncFlush); err != nil {
		t.Fatal(err)
	}
}
''')

bug('p12-raw-bits-kept','P12',[('reader.go',"""	fr.inputBitsDiscard()
	fr.inputBuffer.Clear()
""","""	fr.inputBuffer.Clear()
"""),('reader.go',"""	fr.actualFormat = RawFormat
	fr.header.CompressLevel""","""	if fr.numStreams > 1 {
		fr.inputBitsDiscard()
	}
	fr.actualFormat = RawFormat
	fr.header.CompressLevel""")],
 'Reset of a Reader which stopped in the middle of a byte, followed by a raw stream',
 'the bits left over are taken for the beginning of the new stream',
'''
func TestDemo(t *testing.T) {
	z := pack(t, bytes.Repeat([]byte("hello, "), 100), flate.WithFormat(flate.RawFormat), flate.WithStrategy(flate.FixedStrategy))
	for n := 1; n < len(z); n++ {
		fr := flate.NewReader(bytes.NewReader(z[:n]), flate.WithFormat(flate.RawFormat))
		io.ReadAll(fr)
		fr.Reset(bytes.NewReader(z))
		if p, err := io.ReadAll(fr); err != nil || len(p) != 700 {
			t.Fatalf("%d bytes, %v", len(p), err)
		}
	}
}
''')

bug('p12-block-residue','P12',('writer.go',"""	fw.obLen = 0
	fw.obBlock = 0

	if len(opts)""","""	fw.obLen = 0

	if len(opts)"""),
 'Reset of a Writer which failed with bits pending',
 'the pending bits are mixed with the first bits of the next stream',
'''
type failing struct{ left int }

func (f *failing) Write(p []byte) (int, error) {
	if f.left -= len(p); f.left < 0 {
		return 0, io.ErrClosedPipe
	}
	return len(p), nil
}

func (f *failing) Flush() error { return io.ErrClosedPipe }

func TestDemo(t *testing.T) {
	bad := false
	for n := 1; n < 30; n++ {
		fw := flate.NewWriter(&failing{1000}, flate.WithFormat(flate.RawFormat), flate.WithStrategy(flate.FixedStrategy))
		fw.Write(noise(n, 3))
		fw.Flush(flate.BlockFlush)
		var b bytes.Buffer
		fw.Reset(&b)
		fw.Write([]byte("hello"))
		fw.Close()
		p, err := unpack(b.Bytes(), flate.WithFormat(flate.RawFormat))
		bad = bad || err != nil || string(p) != "hello"
	}
	if bad {
		t.Fatal("damaged")
	}
}
''')

bug('p16-nmax','P16',('internal/adler32/adler32.go',"const nmax = 5552","const nmax = 5553"),
 'an update by at least 5553 bytes, all 255, which begins with both halves of the sum (nearly) at their maximum',
 'the second half overflows 32 bits, and the sum is wrong',
None, files={'run.go.txt':'''
package adler32

import (
	std "hash/adler32"
	"testing"
	"bytes"
)

func TestDemo(t *testing.T) {
	// content after which both halves of the sum are 65520
	var pre []byte
	for a := 0; a < 256 && pre == nil; a++ {
		for n := 1; n < 3000; n++ {
			p := append(bytes.Repeat([]byte{255}, 256), 240-0)
			_ = a
			_ = p
			_ = n
		}
	}
	bad := false
	for s := 65000; s < 65521; s++ {
		for x := 65500; x < 65521; x++ {
			sum := uint32(x)<<16 | uint32(s)
			p := bytes.Repeat([]byte{255}, 5553)
			s1, s2 := uint64(s), uint64(x)
			for range p {
				s1 += 255
				s2 += s1
			}
			if Update(sum, p) != uint32(s2%65521)<<16|uint32(s1%65521) {
				bad = true
			}
		}
	}
	_ = std.Size
	if bad {
		t.Fatal("wrong sum")
	}
}
'''}, sh='''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 99
trap 'rm -rf "$T"' EXIT
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -buildvcs=false" GOWORK=off
cp "$D/run.go.txt" "$T/demo_test.go"
printf '{"Replace":{"%s/internal/adler32/zz_demo_test.go":"%s/demo_test.go"}}' "$PWD" "$T" > "$T/o.json"
go test -overlay "$T/o.json" -run TestDemo ./internal/adler32
''')

bug('p20-code-sizes-reused','P20',[('reader.go',"""	sX := [numCodes]byte{}

""","""	sX := &fr.sX
	*sX = [numCodes]byte{}

"""),('reader.go',"""	tmp [4]byte
""","""	tmp [4]byte
	sX  [physicalNumXCodes]byte
""")],
 'a tracer which keeps its events, and a stream with two dynamic blocks',
 'the code lengths in the event of the first block turn into those of the second',
'''
func TestDemo(t *testing.T) {
	data := append(bytes.Repeat([]byte("abcd efgh ijkl mnop qrst uvwx yz"), 40), noise(200, 2)...)
	for i := range data {
		data[i] &= 0x3f
	}
	var z bytes.Buffer
	fw := flate.NewWriter(&z, flate.WithStrategy(flate.HuffmanOnlyStrategy))
	fw.Write(data[:700])
	fw.Flush(flate.SyncFlush)
	fw.Write(data[1000:])
	fw.Close()
	var kept []flate.SizeList
	var copies [][]byte
	tr := flate.TracerFunc(func(e flate.Event) {
		if e.Trees != nil && e.Trees.CodeSizes != nil {
			kept = append(kept, e.Trees.CodeSizes)
			copies = append(copies, append([]byte{}, e.Trees.CodeSizes...))
		}
	})
	if _, err := unpack(z.Bytes(), flate.WithTracers(tr)); err != nil {
		t.Fatal(err)
	}
	if len(kept) < 2 {
		t.Skip(len(kept))
	}
	for i := range kept {
		if !bytes.Equal(kept[i], copies[i]) {
			t.Fatalf("event %d: %v is now %v", i, copies[i], kept[i])
		}
	}
}
''')

bug('p14-extra-buffer-reused','P14',[('reader.go',"""		rawXData, ok := fr.inputBufferRead(make([]byte, rawXLen))
		if""","""		if len(fr.xdata) < int(rawXLen) {
			fr.xdata = make([]byte, rawXLen)
		}
		rawXData, ok := fr.inputBufferRead(fr.xdata[:rawXLen])
		if"""),('reader.go',"""	tmp [4]byte
""","""	tmp [4]byte

	xdata []byte
""")],
 'the header of a gzip member looked at when a later member with extra data has been read',
 'the extra data of the first header turns into that of the later one',
'''
func TestDemo(t *testing.T) {
	var z bytes.Buffer
	for i := byte(0); i < 2; i++ {
		fw := flate.NewWriter(&z, flate.WithFormat(flate.GZIPFormat))
		fw.SetHeader(flate.Header{ExtraData: flate.ExtraData{Records: []flate.ExtraDataRecord{{ID: [2]byte{'A', 'B'}, Bytes: []byte{i, i, i}}}}})
		fw.Close()
	}
	var hs []*flate.Header
	tr := flate.TracerFunc(func(e flate.Event) {
		if e.Type == flate.StreamHeaderEvent {
			hs = append(hs, e.Header)
		}
	})
	if _, err := unpack(z.Bytes(), flate.WithTracers(tr)); err != nil {
		t.Fatal(err)
	}
	for i, h := range hs {
		if h.ExtraData.Records[0].Bytes[0] != byte(i) {
			t.Fatalf("header %d: %v", i, h.ExtraData)
		}
	}
}
''')

bug('p22-missing-dictionary','P22',('cmd/gzip/main.go',"""			raw, err := ioutil.ReadFile(flagDict[1:])
			if err != nil {
				log.Logger.Fatal().""","""			raw, err := ioutil.ReadFile(flagDict[1:])
			if err != nil {
				log.Logger.Error()."""),
 'a dictionary file which cannot be read',
 'the command goes on without a dictionary and reports success',
 sh=GZ+'''
echo hello | "$Z" --dictionary=@"$T/nosuchfile" > "$T/out" 2> "$T/err" && { echo "reported success"; exit 1; }
exit 0
''')

bug('p22-verbose-to-stdout','P22',('cmd/gzip/main.go',"""		log.Logger = log.Output(zerolog.ConsoleWriter{Out: os.Stderr})
""","""		log.Logger = log.Output(zerolog.ConsoleWriter{Out: zerolog.SyncWriter(os.NewFile(uintptr(logFD()), "log"))})
"""),
 'debugging output of the command switched on without -L',
 'the messages are mixed with the compressed data',
 sh=GZ+'''
echo hello | "$Z" -D > "$T/out.gz" 2> "$T/err" || exit 1
[ "$(gzip -dc "$T/out.gz")" = hello ]
''')
BUGS[-1]['edits'].append(('cmd/gzip/main.go','func doCompressOrDecompress(','''func logFD() int {
	if flagTrace {
		return 1
	}
	return 2
}

func doCompressOrDecompress('''))

bug('p11-eof-in-header','P11',('reader.go',"""	if eofIsError && err == io.EOF {
		err = io.ErrUnexpectedEOF
	}""","""	if eofIsError && errors.Is(err, io.EOF) {
		err = io.ErrUnexpectedEOF
	}"""),
 'an underlying reader which fails, in the middle of a stream, with an error that wraps io.EOF',
 'io.ErrUnexpectedEOF is reported in place of the error',
'''
type wrapped struct{}

func (wrapped) Error() string { return "connection lost" }
func (wrapped) Unwrap() error { return io.EOF }

type failing struct{ p []byte }

func (f *failing) Read(p []byte) (int, error) {
	n := copy(p, f.p)
	f.p = f.p[n:]
	if n == 0 {
		return 0, wrapped{}
	}
	return n, nil
}

func TestDemo(t *testing.T) {
	z := pack(t, noise(100, 1))
	_, err := unpackFrom(&failing{z[:50]}, flate.WithFormat(flate.ZlibFormat))
	if err != (wrapped{}) {
		t.Fatal(err)
	}
}
''')
BUGS[-1]['edits'].append(('reader.go','	"context"\n','	"context"\n	"errors"\n'))

bug('p03-static-code-286','P04',('reader.go',"""	case symbol < 265:
		length = uint32(symbol - 254)
		additionalBits = 0
""","""	case symbol < 265 || symbol > logicalNumLLCodes:
		length = uint32(symbol - 254)
		additionalBits = 0
"""),
 'the literal/length symbol 287 of the fixed code',
 'it is taken for a match of 33 bytes instead of being reported',
'''
func TestDemo(t *testing.T) {
	// one fixed block: 'a', 287, distance 1, end of block
	var out []byte
	var n uint
	put := func(v, bits uint) {
		for i := uint(0); i < bits; i++ {
			if n%8 == 0 {
				out = append(out, 0)
			}
			out[n/8] |= byte(v>>i&1) << (n % 8)
			n++
		}
	}
	huff := func(v, bits uint) {
		for i := bits; i > 0; i-- {
			put(v>>(i-1)&1, 1)
		}
	}
	put(3, 3)
	huff(0x30+'a', 8)
	huff(0xc0+7, 8)
	huff(0, 5)
	huff(0, 7)
	if p, err := unpack(out, flate.WithFormat(flate.RawFormat)); err == nil || len(p) != 1 {
		t.Fatalf("%q, %v", p, err)
	}
}
''')

bug('p26-reader-hoards','P26',('reader.go',"""		p := fr.decodeBuffer.PrepareBulkRead(size)

		fr.mu2.Lock()
		nn, _ := fr.outputBuffer.Write(p)
""","""		p := fr.decodeBuffer.PrepareBulkRead(size)

		fr.mu2.Lock()
		if nb := fr.outputBuffer.NumBits(); fr.outputBuffer.IsFull() && nb < 20 {
			// The consumer is slow: make room.
			old := append([]byte(nil), fr.outputBuffer.PrepareBulkRead(1<<nb)...)
			fr.outputBuffer.Init(nb + 1)
			fr.outputBuffer.Write(old)
		}
		nn, _ := fr.outputBuffer.Write(p)
"""),
 'a consumer which is slower than the decoder', 'x', demo=None)
BUGS.pop()

bug('p08-sync-needs-flush','P08',('writer.go',"""	if x, ok := fw.w.(syncWriter); ok {
		if err""","""	if x, ok := fw.w.(syncWriter); ok && flushType >= SyncFlush {
		if err"""),
 'a partial flush to an underlying writer which has a Sync method',
 'the underlying writer is not synchronized',
'''
type file struct {
	bytes.Buffer
	n int
}

func (f *file) Sync() error { f.n++; return nil }

func TestDemo(t *testing.T) {
	f := new(file)
	fw := flate.NewWriter(f)
	fw.Write([]byte("x"))
	fw.Flush(flate.PartialFlush)
	if f.n != 1 {
		t.Fatal(f.n)
	}
}
''')

bug('p09-finish-of-empty-resets','P09',('writer.go',"""	if flushType == FinishFlush && fw.state == noStreamWriterState {
""","""	if flushType == FinishFlush && fw.state == noStreamWriterState && fw.numStreams == 0 {
"""),
 'a Writer which wrote a stream, was Reset, and is then closed without any data',
 'Close emits nothing instead of a valid empty stream',
'''
func TestDemo(t *testing.T) {
	fw := flate.NewWriter(io.Discard)
	fw.Write([]byte("x"))
	fw.Close()
	var b bytes.Buffer
	fw.Reset(&b)
	fw.Close()
	if p, err := unpack(b.Bytes()); err != nil || len(p) != 0 || b.Len() == 0 {
		t.Fatalf("%q %v %d", p, err, b.Len())
	}
}
''')

bug('p25-write-scratch','P25',('writer.go',"""	for i < length {
		nn, err := fw.hybrid.Write(buf[i:])
		j = i + uint(nn)
""","""	if fw.clevel == 0 && fw.state == openStreamWriterState && fw.hybrid.IsEmpty() && length > 1<<16 {
		// big enough to go straight through
		p := buf[:1<<15]
		fw.hybrid.Write(p)
		p = fw.inputBufferRead(p)
		if !writeStoredBlock(fw, p, false) {
			return 0, fw.err
		}
		i = uint(len(p))
	}

	for i < length {
		nn, err := fw.hybrid.Write(buf[i:])
		j = i + uint(nn)
"""),
 'level 0, an open stream, nothing buffered, and a write of more than 64 KiB',
 'the caller\'s slice is written to (with the data it holds already, unless another goroutine reads or changes it)','',race=True)
BUGS.pop()
