BUGS=[]
GZ='''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 99
trap 'rm -rf "$T"' EXIT
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -buildvcs=false" GOWORK=off
go build -o "$T/fgz" ./cmd/gzip || exit 98
Z="$T/fgz"
'''
def bug(id,prop,edits,needs,breaks,demo=None,**kw):
    if isinstance(edits,tuple): edits=[edits]
    d=dict(id=id,prop=prop,edits=edits,needs=needs,breaks=breaks,demo=demo); d.update(kw); BUGS.append(d)



bug('p29-sync-counter','P29',[('writer.go',"""	header Header
}

// NewWriter constructs""","""	header Header

	flushedBytes uint64
}

// NewWriter constructs"""),('writer.go',"""	if x, ok := fw.w.(syncWriter); ok {
		if err""","""	if x, ok := fw.w.(syncWriter); ok && fw.flushedBytes != fw.outputBytesStream {
		fw.flushedBytes = fw.outputBytesStream
		if err""")],
 'two streams written by one Writer to one file, flushed after the same number of bytes of each',
 'the second flush returns without synchronizing the file',
'''
type syncer struct {
	bytes.Buffer
	synced int
}

func (s *syncer) Sync() error { s.synced = s.Len(); return nil }

func TestDemo(t *testing.T) {
	s := &syncer{}
	fw := flate.NewWriter(s)
	for i := 0; i < 3; i++ {
		fw.Write([]byte("hello, hello"))
		if err := fw.Flush(flate.FinishFlush); err != nil || s.synced != s.Len() {
			t.Fatal(i, err, s.synced, s.Len())
		}
	}
}
''')

bug('p29-torn-tail','P29',('reader.go',"""func (fr *Reader) corruptf(format string, v ...interface{}) {
""","""func (fr *Reader) corruptf(format string, v ...interface{}) {
	if fr.decodeBuffer.Len() < 16 {
		fr.decodeBuffer.Clear()
	}
"""),
 'garbage behind a flush with fewer than 16 bytes not yet handed over',
 'they are lost',
'''
func TestDemo(t *testing.T) {
	var out bytes.Buffer
	fw := flate.NewWriter(&out, flate.WithFormat(flate.RawFormat))
	fw.Write([]byte("hello"))
	fw.Flush(flate.SyncFlush)
	out.Write([]byte{7, 7, 7, 7, 7, 7, 7, 7})
	p, _ := unpack(out.Bytes(), flate.WithFormat(flate.RawFormat))
	if string(p) != "hello" {
		t.Fatalf("%q", p)
	}
}
''')

bug('p24-data-returned-early','P24',('writer.go',"""	data := bb.Bytes()
	*tokens = append""","""	data := bb.Bytes()
	if len(data) < 64 {
		// small enough for the next one to use
		bufferpool.Put(bb)
	}
	*tokens = append"""),
 'the underlying writer of one Writer uses another one, and the block of less than 64 bytes is stored',
 'the data of the inner Writer get into the block of the outer one',
'''
type nest struct {
	bytes.Buffer
	t *testing.T
}

func (n *nest) Write(p []byte) (int, error) {
	pack(n.t, []byte("XXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXX"))
	return n.Buffer.Write(p)
}

func TestDemo(t *testing.T) {
	in := noise(60, 1)
	n := &nest{t: t}
	fw := flate.NewWriter(n, flate.WithFormat(flate.RawFormat))
	fw.Write(in)
	fw.Close()
	p, err := unpack(n.Bytes(), flate.WithFormat(flate.RawFormat))
	if err != nil || !bytes.Equal(p, in) {
		t.Fatal(err)
	}
}
''')

bug('p15-window-less-one','P15',('reader.go',"""		_, _ = fr.window.Write(fr.dict)
""","""		_, _ = fr.window.Write(fr.dict)
		if n := len(fr.dict); uint(n) == fr.window.Size() {
			// the window holds one byte less than its size
			fr.window.Clear()
			_, _ = fr.window.Write(fr.dict[1:])
		}
"""),
 'a dictionary exactly as long as the window, and a match reaching its first byte',
 'the match yields another byte',
'''
func TestDemo(t *testing.T) {
	d := noise(256, 3)
	in := append(append([]byte{}, d[:40]...), noise(20, 5)...)
	o := []flate.Option{flate.WithFormat(flate.ZlibFormat), flate.WithDictionary(d), flate.WithWindowBits(8)}
	p, err := unpack(pack(t, in, o...), o...)
	if err != nil || !bytes.Equal(p, in) {
		t.Fatal(err)
	}
}
''')

bug('p14-extra-many','P14',('writer.go',"""		xdata := fw.header.ExtraData.AsBytes()
		xlen""","""		xdata := fw.header.ExtraData.AsBytes()
		if n := len(xdata); n&0xff == 0xff {
			xdata = append(xdata, 0)[:n]
			xdata = xdata[:n:n]
			xdata = append([]byte(nil), xdata[:n&^0xff]...)
		}
		xlen"""),
 'x','x',None)
BUGS[:]=[b for b in BUGS if b['demo']]

bug('p10-sync-after-finish','P10',('writer.go',"""		if err := x.Sync(); err != nil && !isIgnoredSyncError(err) {
			fw.state = errorWriterState
			fw.err = err
			return false
		}
""","""		if err := x.Sync(); err != nil && !isIgnoredSyncError(err) {
			if fw.state == closedStreamWriterState {
				// the stream is complete, there is nothing to break
				fw.err = err
				return false
			}
			fw.state = errorWriterState
			fw.err = err
			return false
		}
"""),
 'Sync fails in Flush(FinishFlush), and the Writer is used further',
 'the error does not stick: a later Write succeeds',
'''
type syncer struct {
	bytes.Buffer
}

func (s *syncer) Sync() error { return io.ErrClosedPipe }

func TestDemo(t *testing.T) {
	fw := flate.NewWriter(&syncer{})
	fw.Write([]byte("hello"))
	if err := fw.Flush(flate.FinishFlush); err != io.ErrClosedPipe {
		t.Fatal(err)
	}
	if _, err := fw.Write([]byte("hello")); err != io.ErrClosedPipe {
		t.Fatal(err)
	}
}
''')

bug('p08-second-stream-flush','P08',('writer.go',"""	if fw.state == openStreamWriterState {
		if !fw.flushGuts(flushType) {""","""	if fw.state == openStreamWriterState && (flushType == FinishFlush || fw.inputBytesStream != 0) {
		if !fw.flushGuts(flushType) {"""),
 'x','x',None)
BUGS[:]=[b for b in BUGS if b['demo']]

bug('p08-partial-at-block-edge','P08',('writer.go',"""	case PartialFlush:
		tokens := []token{makeStopToken()}
""","""	case PartialFlush:
		if fw.obLen == bitsPerBlock/2 {
			// aligned anyway
			return fw.outputBitsFlush()
		}
		tokens := []token{makeStopToken()}
"""),
 'a partial flush when exactly 32 bits are waiting (16 on 32-bit platforms)',
 'nothing ends the last symbol of the block for the receiver: none',
None)
BUGS[:]=[b for b in BUGS if b['demo']]

bug('p26-token-storage','P26',('pools.go',"""	*ptr = (*ptr)[:0]
	tokenPool.Put(ptr)""","""	*ptr = (*ptr)[len(*ptr):]
	if cap(*ptr) == 0 {
		*ptr = make([]token, 0, 1024)
	}
	tokenPool.Put(ptr)"""),
 'x','x',None)
BUGS[:]=[b for b in BUGS if b['demo']]

bug('p20-totals-of-second-use','P20',('writer.go',"""	event.OutputBytesTotal = fw.outputBytesTotal
""","""	event.OutputBytesTotal = fw.outputBytesTotal
	if fw.numStreams > 1 && event.Type == StreamBeginEvent {
		event.OutputBytesTotal = fw.outputBytesStream
	}
"""),
 'the second stream which a Writer begins',
 'the total number of bytes of its first event falls back to zero',
'''
func TestDemo(t *testing.T) {
	var last uint64
	fw := flate.NewWriter(io.Discard, flate.WithTracers(flate.TracerFunc(func(e flate.Event) {
		if e.OutputBytesTotal < last {
			t.Fatal(e)
		}
		last = e.OutputBytesTotal
	})))
	for i := 0; i < 3; i++ {
		fw.Write([]byte("hello"))
		fw.Flush(flate.FinishFlush)
	}
}
''')

bug('p19-fixed-when-big','P19',('writer.go',"""	if fw.strategy == FixedStrategy {
		return writeStaticBlock""","""	if fw.strategy == FixedStrategy && len(data) < 1<<16 {
		return writeStaticBlock"""),
 'the fixed strategy at memory level 9 with more than 64 KiB between flushes',
 'blocks with dynamic codes appear',
'''
func TestDemo(t *testing.T) {
	dyn := false
	in := bytes.Repeat([]byte("abcabdabeab"), 20000)
	for i := range in {
		in[i] += byte(i*i%7) & 3
	}
	pack(t, in, flate.WithStrategy(flate.FixedStrategy), flate.WithMemoryLevel(9), flate.WithTracers(flate.TracerFunc(func(e flate.Event) {
		if e.Block != nil && e.Block.Type == flate.DynamicBlock {
			dyn = true
		}
	})))
	if dyn {
		t.Fatal("dynamic block")
	}
}
''')

bug('p21-window-default-text','P21',('enum_wbits.go',"""MISSING""","""x"""),'x','x',None)
BUGS[:]=[b for b in BUGS if b['demo']]
