BUGS=[]
GZ='''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 99
trap 'rm -rf "$T"' EXIT
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -buildvcs=false" GOWORK=off
go build -o "$T/fgz" ./cmd/gzip || exit 98
Z="$T/fgz"
'''
def bug(id,prop,edits,needs,breaks,demo=None,**kw):
    if isinstance(edits,tuple): edits=[edits]
    d=dict(id=id,prop=prop,edits=edits,needs=needs,breaks=breaks,demo=demo); d.update(kw); BUGS.append(d)



bug('p10-later-stream-start','P10',('writer.go',"""	_, err := fw.output.WriteTo(fw.w)
	if err != nil {
		fw.state = errorWriterState
""","""	_, err := fw.output.WriteTo(fw.w)
	if err != nil {
		if fw.state == closedStreamWriterState && fw.outputBytesStream <= 10 {
			// nothing of the next stream has been written
			fw.output.Clear()
			fw.err = err
			return false
		}
		fw.state = errorWriterState
"""),
 'the sink fails on the very first bytes of a second stream, and the Writer is used further',
 'the error does not stick, and what was written before the error is lost',
'''
type sink struct {
	bytes.Buffer
	bad bool
}

func (s *sink) Write(p []byte) (int, error) {
	if s.bad {
		s.bad = false
		return 0, io.ErrClosedPipe
	}
	return s.Buffer.Write(p)
}

func TestDemo(t *testing.T) {
	s := &sink{}
	fw := flate.NewWriter(s)
	fw.Write([]byte("hello"))
	fw.Flush(flate.FinishFlush)
	s.bad = true
	fw.Write([]byte("hello"))
	if err := fw.Flush(flate.SyncFlush); err != io.ErrClosedPipe {
		t.Fatal(err)
	}
	if err := fw.Flush(flate.SyncFlush); err != io.ErrClosedPipe {
		t.Fatal(err)
	}
}
''')

bug('p07-last-byte-known','P07',('reader.go',"""	if fr.inputBuffer.IsEmpty() {
		fr.inputBufferFill()
		if fr.inputBuffer.IsEmpty() {
			fr.propagateError(false)
			return false
		}
	}

	fr.numStreams++
""","""	if fr.inputBuffer.IsEmpty() {
		fr.inputBufferFill()
		if fr.inputBuffer.IsEmpty() {
			fr.propagateError(false)
			return false
		}
	} else if fr.numStreams > 0 && fr.inputError == io.EOF && fr.inputBuffer.Len() == 1 {
		// a single byte of padding
		_, _ = fr.inputBuffer.ReadByte()
		fr.propagateError(false)
		return false
	}

	fr.numStreams++
"""),
 'one byte behind a stream, and an underlying reader whose end was noticed before the byte was reached',
 'it is taken for padding then, and for a truncated stream otherwise',
'''
func TestDemo(t *testing.T) {
	in := append(pack(t, []byte("hello"), flate.WithFormat(flate.GZIPFormat)), 0x1f)
	_, err1 := unpackFrom(bytes.NewReader(in), flate.WithFormat(flate.GZIPFormat))
	_, err2 := unpackFrom(io.MultiReader(bytes.NewReader(in[:len(in)-1]), bytes.NewReader(in[len(in)-1:])), flate.WithFormat(flate.GZIPFormat))
	if err1 != err2 || err1 == nil {
		t.Fatal(err1, err2)
	}
}
''')

bug('p05-size-of-later-members','P05',('reader.go',"""	if contentLen != uint32(fr.outputBytesStream) {
""","""	if contentLen != uint32(fr.outputBytesStream) && fr.numStreams == 1 {
"""),
 'a gzip file of several members, the length at the end of a later one being wrong',
 'it passes as intact',
'''
func TestDemo(t *testing.T) {
	z := pack(t, []byte("hello"), flate.WithFormat(flate.GZIPFormat))
	z = append(z, z...)
	z[len(z)-2] ^= 1
	if _, err := unpack(z, flate.WithFormat(flate.GZIPFormat)); err == nil {
		t.Fatal("accepted")
	}
}
''')

bug('p05-later-adler','P05',('reader.go',"""	if expectedAdler32 != computedAdler32 {
		fr.corruptf("invalid zlib Adler-32""","""	if expectedAdler32 != computedAdler32 && (fr.numStreams < 3 || fr.outputBytesStream != 0) {
		fr.corruptf("invalid zlib Adler-32"""),
 'the third or a later zlib stream of a file, empty, with a wrong checksum',
 'it passes as intact',
'''
func TestDemo(t *testing.T) {
	z := pack(t, []byte("hello"), flate.WithFormat(flate.ZlibFormat))
	e := pack(t, nil, flate.WithFormat(flate.ZlibFormat))
	z = append(append(z, z...), e...)
	z[len(z)-2] ^= 1
	if _, err := unpack(z, flate.WithFormat(flate.ZlibFormat)); err == nil {
		t.Fatal("accepted")
	}
}
''')

bug('p23-block-per-write','P23',('writer.go',"""		consumeAll := (nn == 0) || (err == buffer.ErrFull)
""","""		// all of a big Write goes on at once
		consumeAll := (nn == 0) || (err == buffer.ErrFull) || length >= 256 && length < 4096
"""),
 'many Writes of some hundred bytes each',
 'each gets a block of its own: the output is much bigger than for one Write',
'''
func TestDemo(t *testing.T) {
	var out bytes.Buffer
	fw := flate.NewWriter(&out)
	for i := 0; i < 1000; i++ {
		fw.Write(bytes.Repeat([]byte("abcd"), 64))
	}
	fw.Close()
	if out.Len() > 3000 {
		t.Fatal(out.Len())
	}
}
''')

bug('p13-dictionary-of-raw-members','P13',('reader.go',"""	fr.window.Clear()
""","""	if fr.numStreams < 4 || fr.actualFormat != RawFormat {
		fr.window.Clear()
	}
"""),
 'x','x',None)
BUGS[:]=[b for b in BUGS if b['demo']]

bug('p26-zlib-reader-names','P26',('reader.go',"""	fr.header = Header{}
""","""	if fr.header.Comment != "" {
		fr.header = Header{Comment: fr.header.Comment}
	} else {
		fr.header = Header{}
	}
"""),
 'x','x',None)
BUGS[:]=[b for b in BUGS if b['demo']]

bug('p14-comment-of-former','P14',('reader.go',"""	fr.header = Header{}
""","""	fr.header = Header{ExtraData: fr.header.ExtraData}
	if fr.header.ExtraData.Records != nil && fr.numStreams%2 == 1 {
		fr.header = Header{}
	}
"""),
 'a file of several gzip members, an even one of which has no extra data while the one before has',
 'the Reader reports the extra data of the one before',
'''
func TestDemo(t *testing.T) {
	var in bytes.Buffer
	gw := gzip.NewWriter(&in)
	gw.Extra = []byte{'A', 'B', 1, 0, 'x'}
	gw.Write([]byte("hello"))
	gw.Close()
	in.Write(pack(t, []byte("hello"), flate.WithFormat(flate.GZIPFormat)))
	n := 0
	_, err := unpack(in.Bytes(), flate.WithTracers(flate.TracerFunc(func(e flate.Event) {
		if e.Header != nil {
			n += len(e.Header.ExtraData.Records)
		}
	})))
	if err != nil || n != 1 {
		t.Fatal(err, n)
	}
}
''')

bug('p22-decompress-level','P22',('cmd/gzip/main.go',"""	if flagFormat.Value == flate.DefaultFormat && !flagDecompress {
""","""	if flagFormat.Value == flate.DefaultFormat && (!flagDecompress || flagFileName != "") {
"""),
 'x','x',None)
BUGS[:]=[b for b in BUGS if b['demo']]

bug('p27-later-total','P27',('reader.go',"""		OffsetStream: fr.inputBytesStream,
		Problem:      message,
""","""		OffsetStream: fr.inputBytesTotal % (1 << 16) % (fr.inputBytesStream + 1),
		Problem:      message,
"""),
 'x','x',None)
BUGS[:]=[b for b in BUGS if b['demo']]

bug('p17-wake-after-close','P17',('reader.go',"""	if fr.outputBuffer.IsEmpty() {
		fr.cv2.Signal()
	} else {
		fr.cv1.Signal()
	}
""","""	if fr.outputBuffer.IsEmpty() {
		fr.cv2.Signal()
	} else if fr.outputError == nil {
		fr.cv1.Signal()
	}
"""),
 'two Reads wait, the last data come, and the first of them takes only a part: the error has already woken the other',
 'none: the broadcast of the error wakes all',None)
BUGS[:]=[b for b in BUGS if b['demo']]
