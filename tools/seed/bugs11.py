BUGS=[]
GZ='''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 99
trap 'rm -rf "$T"' EXIT
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -buildvcs=false" GOWORK=off
go build -o "$T/fgz" ./cmd/gzip || exit 98
Z="$T/fgz"
'''
def bug(id,prop,edits,needs,breaks,demo=None,**kw):
    if isinstance(edits,tuple): edits=[edits]
    d=dict(id=id,prop=prop,edits=edits,needs=needs,breaks=breaks,demo=demo); d.update(kw); BUGS.append(d)

bug('p13-member-limit','P13',('reader.go',"""		if !fr.readFooter() {
			break
		}
""","""		if !fr.readFooter() {
			break
		}

		// Nothing sane has this many members.
		if fr.numStreams >= 1000 {
			break
		}
"""),
 'a file of more than a thousand members, such as a log to which every line was appended on its own',
 'reading ends with io.EOF after the thousandth member',
'''
func TestDemo(t *testing.T) {
	z := pack(t, []byte("line\\n"), flate.WithFormat(flate.GZIPFormat))
	got, err := unpack(bytes.Repeat(z, 1200), flate.WithFormat(flate.GZIPFormat))
	if err != nil || len(got) != 1200*5 {
		t.Fatalf("%d bytes, %v", len(got), err)
	}
}
''')

bug('p03-empty-blocks-limit','P03',('reader.go',"""		for fr.readFlateBlock() {
			// pass
		}
""","""		var idle uint
		for fr.readFlateBlock() {
			if !fr.decodeBuffer.IsEmpty() {
				idle = 0
				continue
			}
			idle++
			if idle > 256 {
				fr.corruptf("too many empty blocks")
				break
			}
		}
"""),
 'a stream that holds several hundred empty blocks in a row, as a program which flushes on a timer produces',
 'it is refused as corrupt',
'''
func TestDemo(t *testing.T) {
	z := append(bytes.Repeat([]byte{0, 0, 0, 255, 255}, 700), 1, 1, 0, 254, 255, 'x')
	got, err := unpack(z, flate.WithFormat(flate.RawFormat))
	if err != nil || string(got) != "x" {
		t.Fatalf("%q, %v", got, err)
	}
}
''')

bug('p08-sync-before-flush','P08',('writer.go',"""	if x, ok := fw.w.(flushWriter); ok {
		if err := x.Flush(); err != nil {
			fw.state = errorWriterState
			fw.err = err
			return false
		}
	}

	if x, ok := fw.w.(syncWriter); ok {
		if err := x.Sync(); err != nil && !isIgnoredSyncError(err) {
			fw.state = errorWriterState
			fw.err = err
			return false
		}
	}
""","""	if x, ok := fw.w.(syncWriter); ok {
		if err := x.Sync(); err != nil && !isIgnoredSyncError(err) {
			fw.state = errorWriterState
			fw.err = err
			return false
		}
	}

	if x, ok := fw.w.(flushWriter); ok {
		if err := x.Flush(); err != nil {
			fw.state = errorWriterState
			fw.err = err
			return false
		}
	}
"""),
 'an underlying writer which has both a Flush (of its own buffer) and a Sync (to the disk)',
 'what the Flush of the underlying writer hands on is not synced',
'''
type disk struct{ buf, host, safe []byte }

func (d *disk) Write(p []byte) (int, error) { d.buf = append(d.buf, p...); return len(p), nil }
func (d *disk) Flush() error                { d.host = append(d.host, d.buf...); d.buf = nil; return nil }
func (d *disk) Sync() error                 { d.safe = append(d.safe, d.host...); d.host = nil; return nil }

func TestDemo(t *testing.T) {
	d := new(disk)
	fw := flate.NewWriter(d, flate.WithFormat(flate.RawFormat))
	fw.Write([]byte("record"))
	if err := fw.Flush(flate.SyncFlush); err != nil {
		t.Fatal(err)
	}
	got, _ := unpack(d.safe, flate.WithFormat(flate.RawFormat))
	if string(got) != "record" {
		t.Fatalf("safe: %q", got)
	}
}
''')

bug('p02-isize-saturated','P02',('writer.go',"""	return fw.outputBufferWriteU32(binary.LittleEndian, c32) &&
		fw.outputBufferWriteU32(binary.LittleEndian, uint32(fw.inputBytesStream))
""","""	size := fw.inputBytesStream
	if size > math.MaxUint32 {
		size = math.MaxUint32
	}
	return fw.outputBufferWriteU32(binary.LittleEndian, c32) &&
		fw.outputBufferWriteU32(binary.LittleEndian, uint32(size))
"""),
 'a gzip stream of more than 4 GiB of data',
 'the length field of the trailer is not the length modulo 2**32; the Reader and other programs refuse the file',
'''
func TestDemo(t *testing.T) {
	var tail []byte
	fw := flate.NewWriter(tailWriter{&tail}, flate.WithFormat(flate.GZIPFormat), flate.WithCompressLevel(0), flate.WithMemoryLevel(9))
	buf := make([]byte, 1<<24)
	for i := 0; i < 257; i++ {
		if _, err := fw.Write(buf); err != nil {
			t.Fatal(err)
		}
	}
	if err := fw.Close(); err != nil {
		t.Fatal(err)
	}
	if got := tail[len(tail)-4:]; !bytes.Equal(got, []byte{0, 0, 0, 1}) {
		t.Fatalf("length field %x", got)
	}
}

type tailWriter struct{ tail *[]byte }

func (w tailWriter) Write(p []byte) (int, error) {
	*w.tail = append((*w.tail)[:0], p...)
	return len(p), nil
}
''')

bug('p04-hlit-287','P04',('reader.go',"""	if numLL > logicalNumLLCodes {
		fr.corruptf("HLIT %d > %d", numLL, logicalNumLLCodes)""","""	if numLL > physicalNumLLCodes {
		fr.corruptf("HLIT %d > %d", numLL, physicalNumLLCodes)"""),
 'a dynamic block which announces 287 or 288 literal/length codes',
 'it is accepted, although only 286 exist',
'''
type bits struct {
	p []byte
	n uint
}

func (b *bits) put(v, n uint) {
	for i := uint(0); i < n; i++ {
		if b.n%8 == 0 {
			b.p = append(b.p, 0)
		}
		b.p[len(b.p)-1] |= byte((v>>i)&1) << (b.n % 8)
		b.n++
	}
}

func TestDemo(t *testing.T) {
	var b bits
	b.put(1, 1)
	b.put(2, 2)
	b.put(30, 5) // 287 literal/length codes
	b.put(0, 5)
	b.put(14, 4) // 18 code length codes
	order := []int{16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1}
	for _, s := range order {
		switch s {
		case 18, 1:
			b.put(1, 3)
		default:
			b.put(0, 3)
		}
	}
	// code: 1 -> 0, 18 -> 1; lengths: 'a' and 256 have one bit, one distance code of one bit
	zeros := func(n uint) { b.put(1, 1); b.put(n-11, 7) }
	zeros(97)
	b.put(0, 1)
	zeros(138)
	zeros(20)
	b.put(0, 1)
	zeros(30)
	b.put(0, 1)
	b.put(0, 1) // a
	b.put(1, 1) // end
	got, err := unpack(b.p, flate.WithFormat(flate.RawFormat))
	if err == nil {
		t.Fatalf("accepted: %q", got)
	}
}
''')

bug('p10-complete-write-error-ignored','P10',('writer.go',"""	_, err := fw.output.WriteTo(fw.w)
	if err != nil {""","""	_, err := fw.output.WriteTo(fw.w)
	if err != nil && !fw.output.IsEmpty() {"""),
 'an underlying writer which takes all the bytes and reports an error all the same, as with a deferred write error',
 'the error is lost',
'''
type deferred struct{ n int }

func (d *deferred) Write(p []byte) (int, error) {
	d.n++
	if d.n == 3 {
		return len(p), errors.New("deferred failure")
	}
	return len(p), nil
}

func TestDemo(t *testing.T) {
	fw := flate.NewWriter(new(deferred), flate.WithFormat(flate.GZIPFormat))
	_, err1 := fw.Write([]byte("some data"))
	err2 := fw.Close()
	if err1 == nil && err2 == nil {
		t.Fatal("nothing reported")
	}
}
''')

bug('p20-capture-keeps-earlier','P20',('trace.go',"""		*tr.ptr = *event.Header
""","""		name, comment := tr.ptr.FileName, tr.ptr.Comment
		*tr.ptr = *event.Header
		if event.NumStreams > 1 && event.Header.FileName == "" {
			tr.ptr.FileName, tr.ptr.Comment = name, comment
		}
"""),
 'a captured header, and a second member which has no name although the first has',
 'the captured header is not that of the stream',
'''
func TestDemo(t *testing.T) {
	var b bytes.Buffer
	fw := flate.NewWriter(&b, flate.WithFormat(flate.GZIPFormat))
	fw.SetHeader(flate.Header{FileName: "a", Comment: "c"})
	fw.Write([]byte("1"))
	fw.Flush(flate.FinishFlush)
	fw.SetHeader(flate.Header{})
	fw.Write([]byte("2"))
	fw.Close()
	var h flate.Header
	if _, err := unpack(b.Bytes(), flate.WithTracers(flate.CaptureHeader(&h))); err != nil {
		t.Fatal(err)
	}
	if h.FileName != "" || h.Comment != "" {
		t.Fatalf("captured %+v", h)
	}
}
''')

bug('p20-stream-number-wraps','P20',('reader.go',"""	event.NumStreams = fr.numStreams
""","""	event.NumStreams = uint(uint8(fr.numStreams))
"""),
 'more than 255 members',
 'the stream number in the events starts again at zero',
'''
func TestDemo(t *testing.T) {
	z := pack(t, []byte("x"), flate.WithFormat(flate.GZIPFormat))
	var last uint
	tr := flate.TracerFunc(func(e flate.Event) { last = e.NumStreams })
	if _, err := unpack(bytes.Repeat(z, 300), flate.WithTracers(tr)); err != nil {
		t.Fatal(err)
	}
	if last != 300 {
		t.Fatalf("last stream number %d", last)
	}
}
''')

bug('p22-empty-input','P22',('cmd/gzip/main.go',"""		err = fw.Flush(flate.FinishFlush)
""","""		if nn == 0 {
			return
		}

		err = fw.Flush(flate.FinishFlush)
"""),
 'no input at all',
 'nothing is written instead of an empty file of the format, and standard decoders refuse that',
 sh=GZ+'''
"$Z" </dev/null >"$T/z" 2>/dev/null || exit 1
[ "$(gzip -dc <"$T/z" 2>/dev/null | wc -c)" = 0 ] || exit 1
gzip -t <"$T/z" || exit 1
[ -s "$T/z" ] || exit 1
exit 0
''')

bug('p22-comment-needs-name','P22',('cmd/gzip/main.go',"""		err := fw.SetHeader(flate.Header{
			FileName:     flagFileName,
			Comment:      flagComment,
			LastModified: flagLastModified.Value,
		})
""","""		var header flate.Header
		header.LastModified = flagLastModified.Value
		if flagFileName != "" {
			header.FileName = flagFileName
			header.Comment = flagComment
		}
		err := fw.SetHeader(header)
"""),
 '--comment given without --filename',
 'the comment is not stored',
 sh=GZ+'''
echo hi | "$Z" --comment remark >"$T/z" 2>/dev/null || exit 1
grep -q remark "$T/z" || { echo "no comment"; exit 1; }
exit 0
''')

bug('p05-adler-one','P05',('reader.go',"""	if expectedAdler32 != computedAdler32 {
		fr.corruptf("invalid zlib Adler-32 checksum""","""	if expectedAdler32 != computedAdler32 && expectedAdler32 != 1 {
		fr.corruptf("invalid zlib Adler-32 checksum"""),
 'a zlib stream whose trailer was damaged so that it holds the checksum of nothing (1)',
 'the damage is not reported',
'''
func TestDemo(t *testing.T) {
	z := pack(t, []byte("some content"), flate.WithFormat(flate.ZlibFormat))
	copy(z[len(z)-4:], []byte{0, 0, 0, 1})
	if _, err := unpack(z, flate.WithFormat(flate.ZlibFormat)); err == nil {
		t.Fatal("accepted")
	}
}
''')

bug('p14-extra-id-zero','P14',('header.go',"""		index += recLen
		xd.Records = append(xd.Records, rec)
""","""		index += recLen
		if rec.ID[1] == 0 && recLen == 0 {
			continue // padding
		}
		xd.Records = append(xd.Records, rec)
"""),
 'an extra-data record whose second identifier byte is zero and which holds no bytes',
 'the record is not reported',
'''
func TestDemo(t *testing.T) {
	var b bytes.Buffer
	fw := flate.NewWriter(&b, flate.WithFormat(flate.GZIPFormat))
	if err := fw.SetHeader(flate.Header{ExtraData: flate.ExtraData{Records: []flate.ExtraDataRecord{{ID: [2]byte{'A', 0}}}}}); err != nil {
		t.Fatal(err)
	}
	fw.Close()
	var h flate.Header
	if _, err := unpack(b.Bytes(), flate.WithTracers(flate.CaptureHeader(&h))); err != nil {
		t.Fatal(err)
	}
	if len(h.ExtraData.Records) != 1 {
		t.Fatalf("%+v", h.ExtraData)
	}
}
''')

bug('p21-plus-sign','P21',('enum_wbits.go',"""	u64, err := strconv.ParseUint(str, 10, 8)
""","""	u64, err := strconv.ParseUint(strings.TrimPrefix(str, "+"), 10, 8)
"""),
 'a number written with a plus sign',
 'it is accepted although it is not among the documented forms',
'''
func TestDemo(t *testing.T) {
	var w flate.WindowBits
	if err := w.Parse("+9"); err == nil {
		t.Fatalf("accepted as %v", w)
	}
}
''')

bug('p12-window-only-grows-writer','P12',('writer.go',"""	oldHO := fw.hybrid.Options()
	newHO := fw.hybridOptions()
	if !oldHO.Equal(newHO) {""","""	oldHO := fw.hybrid.Options()
	newHO := fw.hybridOptions()
	roomy := oldHO.WindowNumBits >= newHO.WindowNumBits &&
		oldHO.BufferNumBits == newHO.BufferNumBits &&
		oldHO.MinMatchLength == newHO.MinMatchLength
	if !roomy {"""),
 'Reset from a larger to a smaller window, nothing else changing',
 'the larger window stays in use, and the output cannot be decoded with the announced one',
'''
func TestDemo(t *testing.T) {
	data := append(noise(1000, 1), noise(1000, 1)...)
	fw := flate.NewWriter(io.Discard, flate.WithFormat(flate.ZlibFormat))
	fw.Write([]byte("x"))
	fw.Close()
	var b bytes.Buffer
	fw.Reset(&b, flate.WithWindowBits(8))
	fw.Write(data)
	fw.Close()
	got, err := unpack(b.Bytes(), flate.WithFormat(flate.ZlibFormat), flate.WithWindowBits(8))
	if err != nil || !bytes.Equal(got, data) {
		t.Fatalf("%d bytes, %v", len(got), err)
	}
}
''')
