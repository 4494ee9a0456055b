BUGS=[]
GZ='''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 99
trap 'rm -rf "$T"' EXIT
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -buildvcs=false" GOWORK=off
go build -o "$T/fgz" ./cmd/gzip || exit 98
Z="$T/fgz"
'''
def bug(id,prop,edits,needs,breaks,demo=None,**kw):
    if isinstance(edits,tuple): edits=[edits]
    d=dict(id=id,prop=prop,edits=edits,needs=needs,breaks=breaks,demo=demo); d.update(kw); BUGS.append(d)



bug('p12-same-source-continues','P12',('reader.go',"""	fr.stopReadThreadLocked()

	fr.mu2.Lock()
	defer fr.mu2.Unlock()

	fr.r = r
""","""	fr.stopReadThreadLocked()

	fr.mu2.Lock()
	defer fr.mu2.Unlock()

	// What was read ahead belongs to whatever follows in the same source.
	if br, ok := r.(io.ByteReader); !ok || fr.r != io.Reader(br.(io.Reader)) {
		fr.inputBuffer.Clear()
	}

	fr.r = r
"""),
 'x','x',None)
BUGS[:]=[b for b in BUGS if b['demo']]

bug('p12-same-source-kept','P12',('reader.go',"""	fr.r = r
	fr.inputError = nil
	fr.readThreadWasStarted = false
	fr.readThreadWasStopped = false
	fr.outputErrorWasSet = false
	fr.stopIsForced = false

	fr.inputBitsDiscard()
	fr.inputBuffer.Clear()
""","""	// What was read ahead belongs to whatever follows in the same source.
	same := false
	if a, ok := fr.r.(*bytes.Reader); ok {
		b, ok := r.(*bytes.Reader)
		same = ok && a == b
	}

	fr.r = r
	fr.inputError = nil
	fr.readThreadWasStarted = false
	fr.readThreadWasStopped = false
	fr.outputErrorWasSet = false
	fr.stopIsForced = false

	fr.inputBitsDiscard()
	if !same {
		fr.inputBuffer.Clear()
	}
"""),
 'a Reader closed part-way and Reset to the very bytes.Reader it had, which was given other contents or rewound meanwhile',
 'input of the former use is decoded first',
'''
func TestDemo(t *testing.T) {
	z := pack(t, noise(5000, 1))
	r := bytes.NewReader(z)
	fr := flate.NewReader(r, flate.WithMemoryLevel(1))
	fr.Read(make([]byte, 10))
	fr.Close()
	z = pack(t, []byte("hello"))
	r.Reset(z)
	fr.Reset(r)
	p, err := io.ReadAll(fr)
	if err != nil || string(p) != "hello" {
		t.Fatal(len(p), err)
	}
}
''',)
BUGS[-1]['edits'].append(('reader.go','import (\n','import (\n\t"bytes"\n'))

bug('p12-same-sink-residue','P12',('writer.go',"""	fw.w = w
	fw.err = nil
	fw.state = noStreamWriterState

	fw.hybrid.Clear()
	fw.output.Clear()
""","""	// What a sink did not take may be offered to it again.
	if a, ok := fw.w.(interface{ Flush() error }); !ok || interface{}(a) != interface{}(w) {
		fw.output.Clear()
	}

	fw.w = w
	fw.err = nil
	fw.state = noStreamWriterState

	fw.hybrid.Clear()
"""),
 'a sink with a Flush method fails, and the Writer is Reset to the same sink',
 'the bytes which the sink refused come before the new stream',
'''
type sink struct {
	bytes.Buffer
	bad bool
}

func (s *sink) Flush() error { return nil }

func (s *sink) Write(p []byte) (int, error) {
	if s.bad {
		return 0, io.ErrClosedPipe
	}
	return s.Buffer.Write(p)
}

func TestDemo(t *testing.T) {
	s := &sink{bad: true}
	fw := flate.NewWriter(s)
	fw.Write([]byte("hello"))
	fw.Close()
	s.bad = false
	fw.Reset(s)
	fw.Write([]byte("hello"))
	fw.Close()
	p, err := unpack(s.Bytes())
	if err != nil || string(p) != "hello" {
		t.Fatal(p, err)
	}
}
''')

bug('p14-header-midstream','P14',('writer.go',"""		fw.mu.Lock()
		fw.header = header
		fw.mu.Unlock()
		return nil
""","""		fw.mu.Lock()
		if fw.state != openStreamWriterState {
			fw.header = header
		}
		fw.mu.Unlock()
		return nil
"""),
 'SetHeader while a stream is under way, for the next stream',
 'the header is accepted but never written',
'''
func TestDemo(t *testing.T) {
	var out bytes.Buffer
	fw := flate.NewWriter(&out, flate.WithFormat(flate.GZIPFormat))
	fw.Write([]byte("hello"))
	fw.Flush(flate.SyncFlush)
	if err := fw.SetHeader(flate.Header{FileName: "second"}); err != nil {
		t.Fatal(err)
	}
	fw.Flush(flate.FinishFlush)
	fw.Write([]byte("hello"))
	fw.Close()
	if !bytes.Contains(out.Bytes(), []byte("second")) {
		t.Fatal("no name")
	}
}
''')

bug('p15-dict-after-reset','P15',('writer.go',"""	fw.hybrid.WindowClear()
	if fw.dict != nil {
		fw.hybrid.SetWindow(fw.dict)
	}
""","""	if fw.dict == nil {
		fw.hybrid.WindowClear()
	} else if fw.numStreams == 1 || fw.format == RawFormat {
		fw.hybrid.WindowClear()
		fw.hybrid.SetWindow(fw.dict)
	} else {
		// what does not overwrite the window stays behind
		fw.hybrid.SetWindow(fw.dict)
	}
"""),
 'a second stream with a dictionary',
 'x',None)
BUGS[:]=[b for b in BUGS if b['demo']]

bug('p09-flush-error-state','P09',('writer.go',"""	if fw.state == closedWriterState {
		return fs.ErrClosed
	}

	if fw.state == errorWriterState {
		return fw.err
	}

	if !fw.flushImpl""","""	if fw.state == closedWriterState {
		if flushType == BlockFlush {
			// never emits anything
			return nil
		}
		return fs.ErrClosed
	}

	if fw.state == errorWriterState {
		return fw.err
	}

	if !fw.flushImpl"""),
 'Flush(BlockFlush) after Close',
 'it returns nil instead of fs.ErrClosed',
'''
func TestDemo(t *testing.T) {
	fw := flate.NewWriter(io.Discard)
	fw.Close()
	if err := fw.Flush(flate.BlockFlush); !errors.Is(err, fs.ErrClosed) {
		t.Fatal(err)
	}
}
''')

bug('p11-error-lost-when-full','P11',('reader.go',"""	fr.mu2.Lock()
	fr.outputError = err
	fr.cv1.Broadcast()
	fr.mu2.Unlock()
""","""	fr.mu2.Lock()
	if fr.outputBuffer.IsFull() && fr.numStreams > 1 && err != io.EOF {
		err = io.ErrUnexpectedEOF
	}
	fr.outputError = err
	fr.cv1.Broadcast()
	fr.mu2.Unlock()
"""),
 'the underlying reader fails in a later stream of a file, just when the output buffer is full',
 'io.ErrUnexpectedEOF is returned instead of its error',
'''
func TestDemo(t *testing.T) {
	boom := errors.New("boom")
	z := pack(t, []byte("hello"), flate.WithFormat(flate.ZlibFormat))
	for n := 100; n < 300; n++ {
		y := pack(t, noise(n, 1), flate.WithFormat(flate.ZlibFormat))
		in := append(append([]byte{}, z...), y[:len(y)-6]...)
		r, w := io.Pipe()
		go func() { w.Write(in); w.CloseWithError(boom) }()
		fr := flate.NewReader(r, flate.WithMemoryLevel(1))
		p := make([]byte, 1)
		fr.Read(p)
		time.Sleep(2 * time.Millisecond)
		if _, err := io.ReadAll(fr); err != boom {
			t.Fatal(n, err)
		}
	}
}
''')
