BUGS=[]
def bug(id,prop,edits,needs,breaks,demo=None,**kw):
    if isinstance(edits,tuple): edits=[edits]
    d=dict(id=id,prop=prop,edits=edits,needs=needs,breaks=breaks,demo=demo); d.update(kw); BUGS.append(d)

# ---------------------------------------------------------------- P01
bug('p01-stored-across-buffer','P01',('reader.go',"""		_, _ = fr.window.Write(p[:nn])
		fr.windowBytes += uint64(nn)
		p = p[nn:]""","""		_, _ = fr.window.Write(p)
		fr.windowBytes += uint64(len(p))
		p = p[nn:]"""),
 'a Reader at a low memory level, and a stored block or match that does not fit the rest of its decode buffer, followed by a match across it',
 'the window gets part of the data twice, so later matches are copied from the wrong place',
'''
func TestDemo(t *testing.T) {
	data := append(noise(3000, 1), bytes.Repeat([]byte("some text "), 300)...)
	data = append(data, data[500:2500]...)
	z := pack(t, data, flate.WithFormat(flate.ZlibFormat))
	for m := flate.MemoryLevel(1); m < 10; m++ {
		got, err := unpack(z, flate.WithFormat(flate.ZlibFormat), flate.WithMemoryLevel(m))
		if err != nil || !bytes.Equal(got, data) {
			t.Fatalf("memory level %d: %d bytes, %v", m, len(got), err)
		}
	}
}
''')
bug('p01-huge-write-flushes-early','P01',('writer.go',"""		consumeAll := (nn == 0) || (err == buffer.ErrFull)
		if !fw.compressImpl(consumeAll) {
			return 0, fw.err
		}

		i = j""","""		consumeAll := (nn == 0) || (err == buffer.ErrFull)
		if !fw.compressImpl(consumeAll) {
			return 0, fw.err
		}
		if consumeAll && fw.outputBytesStream > 1<<16 && length-j < 16 {
			// not worth another round
			nn, _ = fw.hybrid.Write(buf[j : length-(length-j)/2])
			j = length
		}

		i = j"""),
 'a stream of more than 64 KiB of output and a Write which ends a few bytes after the buffer was filled',
 'the last bytes of the Write are dropped although it reports them as written',
'''
func TestDemo(t *testing.T) {
	for d := 0; d < 16; d++ {
		data := noise(1<<17+d, 3)
		z := pack(t, data, flate.WithFormat(flate.RawFormat), flate.WithMemoryLevel(1))
		got, err := unpack(z, flate.WithFormat(flate.RawFormat))
		if err != nil || !bytes.Equal(got, data) {
			t.Fatalf("%d bytes become %d bytes, %v", len(data), len(got), err)
		}
	}
}
''')
# ---------------------------------------------------------------- P03
bug('p03-distance-thirteen-bits','P03',('reader.go',"""		x0 := (byte(symbol-2) >> 1)
		x1 := uint32(1) << (x0 + 1)""","""		x0 := (byte(symbol-2) >> 1)
		if x0 > 12 {
			x0 = 12
		}
		x1 := uint32(1) << (x0 + 1)"""),
 'a match at a distance of more than 16 KiB',
 'valid streams decode to the wrong bytes or are rejected',
'''
func TestDemo(t *testing.T) {
	data := noise(30000, 9)
	data = append(data, data[:200]...)
	var b bytes.Buffer
	w, _ := stdflate.NewWriter(&b, 9)
	w.Write(data)
	w.Close()
	got, err := unpack(b.Bytes(), flate.WithFormat(flate.RawFormat))
	if err != nil || !bytes.Equal(got, data) {
		t.Fatalf("%d bytes, %v", len(got), err)
	}
}
''')
bug('p03-repeat-needs-two-lengths','P03',('reader.go',"""		if i == 0 {
			fr.corruptf("attempt to repeat -1'st length")""","""		if i <= 1 {
			fr.corruptf("attempt to repeat -1'st length")"""),
 'a dynamic block whose second code length is already a repetition of the first',
 'a valid stream is rejected as corrupt',
'''
func TestDemo(t *testing.T) {
	// 64 literals of equal frequency: the lengths start with 6, then repeats
	var data []byte
	for r := 0; r < 80; r++ {
		for i := 0; i < 64; i++ {
			data = append(data, byte(i))
		}
	}
	for _, n := range []int{400, 2000, len(data)} {
		var b bytes.Buffer
		w, _ := stdflate.NewWriter(&b, stdflate.HuffmanOnly)
		w.Write(data[:n])
		w.Close()
		got, err := unpack(b.Bytes(), flate.WithFormat(flate.RawFormat))
		if err != nil || !bytes.Equal(got, data[:n]) {
			t.Fatalf("%d bytes, %v", len(got), err)
		}
	}
}
''')
# ---------------------------------------------------------------- P16
bug('p16-adler-chunk','P16',('internal/adler32/adler32.go','const nmax = 5552','const nmax = 5600'),
 'an update of more than 5552 bytes that are nearly all 0xff',
 'the second sum overflows: trailers are wrong, and valid streams are rejected',
'''
func TestDemo(t *testing.T) {
	data := bytes.Repeat([]byte{0xff}, 60000)
	var b bytes.Buffer
	w := zlib.NewWriter(&b)
	w.Write(data)
	w.Close()
	got, err := unpack(b.Bytes(), flate.WithFormat(flate.ZlibFormat))
	if err != nil || !bytes.Equal(got, data) {
		t.Fatalf("%d bytes, %v", len(got), err)
	}
	z := pack(t, data, flate.WithFormat(flate.ZlibFormat), flate.WithCompressLevel(0))
	a := adler32.Checksum(data)
	tr := z[len(z)-4:]
	if got := uint32(tr[0])<<24 | uint32(tr[1])<<16 | uint32(tr[2])<<8 | uint32(tr[3]); got != a {
		t.Fatalf("%08x, want %08x", got, a)
	}
}
''')
bug('p16-sum-shared-between-streams','P16',('writer.go',"""	fw.inputBytesAdler32.Reset()
	fw.inputBytesCRC32.Reset()
	return true
}""","""	if fw.format != ZlibFormat {
		fw.inputBytesCRC32.Reset()
	}
	if fw.format != GZIPFormat {
		fw.inputBytesAdler32.Reset()
	}
	return true
}"""),
 'a second stream written by the same Writer, and a look at the checksum that its format does not store',
 'the end event of the second stream reports the wrong Adler-32 (gzip) or CRC-32 (zlib)',
'''
func TestDemo(t *testing.T) {
	for _, f := range []flate.Format{flate.ZlibFormat, flate.GZIPFormat, flate.RawFormat} {
		var ends []flate.FooterEvent
		tr := flate.TracerFunc(func(e flate.Event) {
			if e.Type == flate.StreamEndEvent {
				ends = append(ends, *e.Footer)
			}
		})
		var out bytes.Buffer
		fw := flate.NewWriter(&out, flate.WithFormat(f), flate.WithTracers(tr))
		a, b := []byte("first stream"), []byte("second stream")
		fw.Write(a)
		fw.Flush(flate.FinishFlush)
		fw.Write(b)
		fw.Close()
		if len(ends) != 2 {
			t.Fatal(len(ends))
		}
		for i, p := range [][]byte{a, b} {
			if uint32(ends[i].Adler32) != adler32.Checksum(p) || uint32(ends[i].CRC32) != crc32.ChecksumIEEE(p) {
				t.Fatalf("%v stream %d: %v", f, i, ends[i])
			}
		}
	}
}
''')
# ---------------------------------------------------------------- P17
GATE='''
// gate delivers its parts and then blocks until it is closed.
type gate struct {
	mu    sync.Mutex
	parts [][]byte
	open  chan struct{}
}

func (g *gate) Read(p []byte) (int, error) {
	g.mu.Lock()
	defer g.mu.Unlock()
	if len(g.parts) > 0 {
		n := copy(p, g.parts[0])
		g.parts[0] = g.parts[0][n:]
		if len(g.parts[0]) == 0 {
			g.parts = g.parts[1:]
		}
		return n, nil
	}
	<-g.open
	return 0, io.EOF
}
'''
bug('p17-eof-wakes-one','P17',('reader.go',"""	fr.outputError = err
	fr.cv1.Broadcast()""","""	fr.outputError = err
	fr.cv1.Signal()"""),
 'two Read calls waiting for data at the moment when the stream ends or fails',
 'only one of them returns; the other waits forever',
GATE+'''
func TestDemo(t *testing.T) {
	g := &gate{open: make(chan struct{})}
	fr := flate.NewReader(g, flate.WithFormat(flate.RawFormat))
	var wg sync.WaitGroup
	for i := 0; i < 3; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var p [1]byte
			fr.Read(p[:])
		}()
	}
	time.Sleep(300 * time.Millisecond)
	close(g.open)
	within(t, 20*time.Second, "a Read", wg.Wait)
}
''')
bug('p17-leftover-not-announced','P17',('reader.go',"""	if fr.outputBuffer.IsEmpty() {
		fr.cv2.Signal()
	} else {
		fr.cv1.Signal()
	}

	return nn, nil""","""	if fr.outputBuffer.IsEmpty() {
		fr.cv2.Signal()
	}

	return nn, nil"""),
 'two Read calls waiting, decoded data that the first of them does not take completely, and no more input for the time being',
 'the second Read keeps waiting although decoded data are there',
GATE+'''
func TestDemo(t *testing.T) {
	// a gzip stream which just fills the input buffer of 128 bytes
	mk := func(n int) []byte {
		var b bytes.Buffer
		w := gzip.NewWriter(&b)
		w.Name = strings.Repeat("n", n)
		w.Write([]byte("xyz"))
		w.Close()
		return b.Bytes()
	}
	z := mk(1 + 128 - len(mk(1)))
	if len(z) != 128 {
		t.Fatal(len(z))
	}
	g := &gate{parts: [][]byte{z}, open: make(chan struct{})}
	defer close(g.open)
	hold := &held{gate: g, first: make(chan struct{})}
	fr := flate.NewReader(hold, flate.WithFormat(flate.GZIPFormat), flate.WithMemoryLevel(1))
	var wg sync.WaitGroup
	for i := 0; i < 3; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var p [1]byte
			fr.Read(p[:])
		}()
	}
	time.Sleep(300 * time.Millisecond)
	close(hold.first)
	within(t, 20*time.Second, "a Read", wg.Wait)
}

type held struct {
	*gate
	first chan struct{}
}

func (h *held) Read(p []byte) (int, error) {
	<-h.first
	return h.gate.Read(p)
}
''')
bug('p17-stop-flag-late','P17',('reader.go',"""		fr.outputErrorWasSet = true
		fr.stopIsForced = true

		fr.mu1.Unlock()
		fr.wg.Wait()
		fr.mu1.Lock()""","""		fr.outputErrorWasSet = true

		fr.mu1.Unlock()
		fr.stopIsForced = true
		fr.wg.Wait()
		fr.mu1.Lock()"""),
 'Close at a moment when the background decoder is between two lock acquisitions',
 'a data race on the stop flag; the decoder can miss it and write into an output buffer that nobody drains, so Close waits forever',
'''
func TestDemo(t *testing.T) {
	data := noise(100000, 2)
	z := pack(t, data, flate.WithFormat(flate.RawFormat))
	for i := 0; i < 200; i++ {
		fr := flate.NewReader(bytes.NewReader(z), flate.WithFormat(flate.RawFormat), flate.WithMemoryLevel(1))
		var p [16]byte
		for k := 0; k < i; k++ {
			fr.Read(p[:])
		}
		within(t, 20*time.Second, "Close", func() { fr.Close() })
	}
}
''',race=True)
bug('p17-double-start','P17',('reader.go',"""	fr.mu1.Lock()
	if !fr.readThreadWasStarted {
		fr.readThreadWasStarted = true
		fr.wg.Add(1)
		go fr.readThread()
	}
	fr.mu1.Unlock()""","""	if fr.readThreadWasStarted {
		return
	}
	fr.mu1.Lock()
	fr.readThreadWasStarted = true
	fr.wg.Add(1)
	go fr.readThread()
	fr.mu1.Unlock()"""),
 'two goroutines whose first Reads overlap',
 'two background decoders share one input: data are lost or reported as corrupt, and a data race',
'''
func TestDemo(t *testing.T) {
	z := pack(t, []byte("some data"), flate.WithFormat(flate.RawFormat))
	for i := 0; i < 200; i++ {
		fr := flate.NewReader(bytes.NewReader(z), flate.WithFormat(flate.RawFormat))
		var wg sync.WaitGroup
		for k := 0; k < 4; k++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				var p [16]byte
				fr.Read(p[:])
			}()
		}
		within(t, 20*time.Second, "Read", wg.Wait)
		fr.Close()
	}
}
''',race=True)
bug('p17-accessor-unlocked','P17',('reader.go',"""	fr.mu1.Lock()
	mlevel := fr.mlevel
	fr.mu1.Unlock()
	return mlevel""","""	return fr.mlevel"""),
 'MemoryLevel called while another goroutine calls Reset with options',
 'a data race on the memory level',
'''
func TestDemo(t *testing.T) {
	fr := flate.NewReader(bytes.NewReader(nil))
	done := make(chan struct{})
	go func() {
		defer close(done)
		for i := 0; i < 1000; i++ {
			fr.MemoryLevel()
		}
	}()
	for i := 0; i < 1000; i++ {
		fr.Reset(bytes.NewReader(nil), flate.WithMemoryLevel(flate.MemoryLevel(1+i%2)))
	}
	<-done
}
''',race=True)
bug('p17-close-drops-wakeup','P17',('reader.go',"""		fr.outputBuffer.Clear()
		fr.cv1.Broadcast()
		fr.cv2.Broadcast()
		fr.mu2.Unlock()""","""		fr.outputBuffer.Clear()
		fr.cv2.Broadcast()
		fr.mu2.Unlock()"""),
 'Close while a Read waits for data and the decoder itself is waiting for input, then input that ends',
 'the pending Read never returns',
GATE+'''
func TestDemo(t *testing.T) {
	g := &gate{open: make(chan struct{})}
	fr := flate.NewReader(g, flate.WithFormat(flate.RawFormat))
	done := make(chan struct{})
	go func() {
		defer close(done)
		var p [1]byte
		fr.Read(p[:])
	}()
	time.Sleep(200 * time.Millisecond)
	closed := make(chan struct{})
	go func() {
		defer close(closed)
		fr.Close()
	}()
	time.Sleep(200 * time.Millisecond)
	close(g.open)
	within(t, 20*time.Second, "Close", func() { <-closed })
	within(t, 20*time.Second, "the pending Read", func() { <-done })
}
''')
# ---------------------------------------------------------------- P18
bug('p18-write-yields','P18',('writer.go',"""			return 0, fw.err
		}

		i = j
	}
	return int(length), nil""","""			return 0, fw.err
		}

		i = j
		if consumeAll && i < length {
			// let accessors in during a long Write
			fw.mu.Unlock()
			fw.mu.Lock()
			if fw.state == closedWriterState {
				return int(i), fs.ErrClosed
			}
			if fw.state == errorWriterState {
				return int(i), fw.err
			}
		}
	}
	return int(length), nil"""),
 'two concurrent calls of which one is a Write longer than the compression buffer',
 'the data of two Writes are interleaved',
'''
func TestDemo(t *testing.T) {
	for round := 0; round < 20; round++ {
		var out bytes.Buffer
		fw := flate.NewWriter(&out, flate.WithFormat(flate.RawFormat), flate.WithMemoryLevel(1))
		var wg sync.WaitGroup
		for k := 0; k < 4; k++ {
			wg.Add(1)
			go func(k int) {
				defer wg.Done()
				fw.Write(bytes.Repeat([]byte{byte('a' + k)}, 1<<18))
			}(k)
		}
		wg.Wait()
		fw.Close()
		got, err := unpack(out.Bytes(), flate.WithFormat(flate.RawFormat))
		if err != nil || len(got) != 4<<18 {
			t.Fatal(len(got), err)
		}
		changes := 0
		for i := 1; i < len(got); i++ {
			if got[i] != got[i-1] {
				changes++
			}
		}
		if changes != 3 {
			t.Fatalf("%d changes", changes)
		}
	}
}
''')
bug('p18-setheader-checks-later','P18',('writer.go',"""		fw.mu.Lock()
		fw.header = header
		fw.mu.Unlock()
		return nil""","""		fw.header = header
		return nil"""),
 'SetHeader concurrent with a Write or Flush that starts a stream',
 'the header that is written may be a mixture of two, and a data race',
'''
func TestDemo(t *testing.T) {
	for i := 0; i < 200; i++ {
		var out bytes.Buffer
		fw := flate.NewWriter(&out, flate.WithFormat(flate.GZIPFormat), flate.WithMemoryLevel(1))
		done := make(chan struct{})
		go func() {
			defer close(done)
			for k := 0; k < 20; k++ {
				fw.SetHeader(flate.Header{FileName: "name", Comment: "comment"})
			}
		}()
		for k := 0; k < 5; k++ {
			fw.Write([]byte("data"))
			fw.Flush(flate.FinishFlush)
		}
		<-done
		fw.Close()
	}
}
''',race=True)
bug('p18-flush-checks-unlocked','P18',('writer.go',"""	fw.mu.Lock()
	defer fw.mu.Unlock()

	if fw.state == closedWriterState {
		return fs.ErrClosed
	}

	if fw.state == errorWriterState {
		return fw.err
	}

	if !fw.flushImpl(flushType) {""","""	if fw.state == closedWriterState {
		return fs.ErrClosed
	}

	fw.mu.Lock()
	defer fw.mu.Unlock()

	if fw.state == errorWriterState {
		return fw.err
	}

	if !fw.flushImpl(flushType) {"""),
 'a Flush that overtakes or is overtaken by Close between its check and its turn',
 'Flush on a closed Writer succeeds (it flushes the underlying writer again), and a data race',
'''
func TestDemo(t *testing.T) {
	for i := 0; i < 200; i++ {
		var out bytes.Buffer
		fw := flate.NewWriter(&out, flate.WithMemoryLevel(1))
		done := make(chan struct{})
		go func() {
			defer close(done)
			fw.Flush(flate.SyncFlush)
		}()
		fw.Write([]byte("data"))
		fw.Close()
		<-done
	}
}
''',race=True)
bug('p18-close-in-two-steps','P18',('writer.go',"""	if !fw.flushImpl(FinishFlush) {
		return helper()
	}

	fw.state = closedWriterState
	return nil""","""	if !fw.flushImpl(FinishFlush) {
		return helper()
	}

	fw.mu.Unlock()
	fw.sendCloseHint()
	fw.mu.Lock()

	fw.state = closedWriterState
	return nil"""),
 'a Write that gets its turn while Close is between finishing the stream and marking the Writer as closed',
 'the Write succeeds but its data are never written',
'''
type hint struct {
	bytes.Buffer
	f func()
}

func (h *hint) CloseHint() { h.f() }

func TestDemo(t *testing.T) {
	for i := 0; i < 3000; i++ {
		var out bytes.Buffer
		fw := flate.NewWriter(&out, flate.WithFormat(flate.RawFormat), flate.WithMemoryLevel(1))
		fw.Write([]byte("0"))
		var mu sync.Mutex
		accepted := 1
		var wg sync.WaitGroup
		for k := 0; k < 4; k++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for {
					n, err := fw.Write([]byte("1"))
					if err != nil {
						return
					}
					mu.Lock()
					accepted += n
					mu.Unlock()
				}
			}()
		}
		fw.Close()
		wg.Wait()
		got, err := unpack(out.Bytes(), flate.WithFormat(flate.RawFormat))
		if err != nil || len(got) != accepted {
			t.Fatalf("%d bytes were accepted, %d arrive: %v", accepted, len(got), err)
		}
	}
}

var _ = hint{}
''')
BUGS[-1]['edits'].append(('writer.go',"""func (fw *Writer) compressImpl(consumeAll bool) bool {""","""// sendCloseHint tells an underlying writer which wants to know.
func (fw *Writer) sendCloseHint() {
	if x, ok := fw.w.(interface{ CloseHint() }); ok {
		x.CloseHint()
	}
}

func (fw *Writer) compressImpl(consumeAll bool) bool {"""))
bug('p18-dict-accessor','P18',('writer.go',"""	var dict []byte
	fw.mu.Lock()
	if len(fw.dict) != 0 {
		dict = make([]byte, len(fw.dict))
		copy(dict, fw.dict)
	}
	fw.mu.Unlock()
	return dict""","""	fw.mu.Lock()
	n := len(fw.dict)
	fw.mu.Unlock()
	if n == 0 {
		return nil
	}
	dict := make([]byte, n)
	copy(dict, fw.dict)
	return dict"""),
 'Dict concurrent with a Reset that changes the dictionary',
 'a data race; the result may be a mixture of two dictionaries',
'''
func TestDemo(t *testing.T) {
	fw := flate.NewWriter(io.Discard, flate.WithDictionary([]byte("dictionary")), flate.WithMemoryLevel(1))
	done := make(chan struct{})
	go func() {
		defer close(done)
		for i := 0; i < 300; i++ {
			fw.Dict()
		}
	}()
	for i := 0; i < 300; i++ {
		fw.Reset(io.Discard, flate.WithDictionary([]byte("another")))
	}
	<-done
}
''',race=True)
# ---------------------------------------------------------------- P19
bug('p19-level-zero-by-strategy','P19',('writer.go',"""	case fw.clevel == 0:
		return compressConfigs[2]
	case fw.strategy == HuffmanOnlyStrategy:
		return compressConfigs[1]
	case fw.strategy == HuffmanRLEStrategy:
		return compressConfigs[0]""","""	case fw.strategy == HuffmanOnlyStrategy:
		return compressConfigs[1]
	case fw.strategy == HuffmanRLEStrategy:
		return compressConfigs[0]
	case fw.clevel == 0:
		return compressConfigs[2]"""),
 'level 0 together with a Huffman strategy',
 'the stream contains compressed blocks although level 0 asks for stored ones',
'''
func TestDemo(t *testing.T) {
	for _, s := range []flate.Strategy{flate.DefaultStrategy, flate.HuffmanOnlyStrategy, flate.HuffmanRLEStrategy, flate.FixedStrategy} {
		tr := flate.TracerFunc(func(e flate.Event) {
			if e.Block != nil && e.Block.Type != flate.StoredBlock {
				t.Errorf("%v: %v", s, e.Block.Type)
			}
		})
		pack(t, bytes.Repeat([]byte("hello "), 200), flate.WithStrategy(s), flate.WithCompressLevel(0), flate.WithTracers(tr))
	}
}
''')
bug('p19-xfl-level-zero','P19',('writer.go',"""	if fw.strategy == HuffmanOnlyStrategy || fw.strategy == HuffmanRLEStrategy || fw.clevel < 2 {
		header[8] = 0x04""","""	if fw.strategy == HuffmanOnlyStrategy || fw.strategy == HuffmanRLEStrategy || (fw.clevel < 2 && fw.clevel.IsValid() && fw.wbits > MinWindowBits) {
		header[8] = 0x04"""),
 'gzip format, level 0 or 1, and the smallest window',
 'the extra-flags byte does not announce the fastest level',
'''
func TestDemo(t *testing.T) {
	for w := flate.WindowBits(8); w <= 15; w++ {
		z := pack(t, []byte("data"), flate.WithFormat(flate.GZIPFormat), flate.WithCompressLevel(1), flate.WithWindowBits(w))
		if z[8] != 4 {
			t.Fatalf("window %d: XFL %d", w, z[8])
		}
	}
}
''')
bug('p19-flevel-strategy','P19',('writer.go',"""	if fw.strategy == HuffmanOnlyStrategy || fw.strategy == HuffmanRLEStrategy || fw.clevel < 2 {
		fLevel = 0x00""","""	if (fw.strategy == HuffmanOnlyStrategy || fw.strategy == HuffmanRLEStrategy) && fw.clevel < 9 || fw.clevel < 2 {
		fLevel = 0x00"""),
 'zlib format, a Huffman strategy and level 9',
 'the header announces maximum compression for a stream made by the fastest method',
'''
func TestDemo(t *testing.T) {
	for l := flate.CompressLevel(0); l <= 9; l++ {
		z := pack(t, []byte("data"), flate.WithFormat(flate.ZlibFormat), flate.WithCompressLevel(l), flate.WithStrategy(flate.HuffmanRLEStrategy))
		if z[1]>>6 != 0 {
			t.Fatalf("level %d: FLEVEL %d", l, z[1]>>6)
		}
	}
}
''')
bug('p19-rle-dictionary','P19',('writer.go',"""		defaultOpts.MinMatchLength = 3
		defaultOpts.MaxMatchDistance = 1
		defaultOpts.HasMaxMatchDistance = true""","""		defaultOpts.MinMatchLength = 3
		if fw.dict == nil {
			defaultOpts.MaxMatchDistance = 1
			defaultOpts.HasMaxMatchDistance = true
		}"""),
 'the RLE strategy together with a preset dictionary',
 'matches at distances other than 1 are emitted',
'''
func TestDemo(t *testing.T) {
	dict := []byte("the quick brown fox")
	data := []byte("the quick brown fox jumps over the quick brown dog")
	z := pack(t, data, flate.WithFormat(flate.RawFormat), flate.WithDictionary(dict), flate.WithStrategy(flate.HuffmanRLEStrategy))
	// without matches the dictionary makes no difference
	got, err := unpack(z, flate.WithFormat(flate.RawFormat))
	if err != nil || !bytes.Equal(got, data) {
		t.Fatalf("%q, %v", got, err)
	}
	z2 := pack(t, data, flate.WithFormat(flate.RawFormat), flate.WithStrategy(flate.HuffmanRLEStrategy))
	if len(z) != len(z2) {
		t.Fatalf("%d and %d bytes", len(z), len(z2))
	}
}
''')
# ---------------------------------------------------------------- P20
bug('p20-header-shared','P20',('reader.go',"""	h := new(Header)
	*h = fr.header
	fr.sendEvent(Event{
		Type:   StreamHeaderEvent,
		Header: h,
	})""","""	fr.sendEvent(Event{
		Type:   StreamHeaderEvent,
		Header: &fr.header,
	})"""),
 'a tracer that keeps the header event, and a second concatenated stream with a different header',
 'the header captured for the first stream turns into that of the second',
'''
func TestDemo(t *testing.T) {
	var out bytes.Buffer
	fw := flate.NewWriter(&out, flate.WithFormat(flate.GZIPFormat))
	fw.SetHeader(flate.Header{FileName: "first"})
	fw.Write([]byte("1"))
	fw.Flush(flate.FinishFlush)
	fw.SetHeader(flate.Header{FileName: "second"})
	fw.Write([]byte("2"))
	fw.Close()
	var hs []*flate.Header
	tr := flate.TracerFunc(func(e flate.Event) {
		if e.Type == flate.StreamHeaderEvent {
			hs = append(hs, e.Header)
		}
	})
	unpack(out.Bytes(), flate.WithTracers(tr))
	if len(hs) != 2 || hs[0].FileName != "first" || hs[1].FileName != "second" {
		t.Fatalf("%+v", hs)
	}
}
''')
bug('p20-end-of-failed-block','P20',('reader.go',"""	p, ok := fr.inputBufferRead(make([]byte, len0))
	if !ok {
		fr.decodeBufferWrite(p)
		fr.propagateError(true)
		return false
	}

	fr.decodeBufferWrite(p)

	return true""","""	p, ok := fr.inputBufferRead(make([]byte, len0))
	fr.decodeBufferWrite(p)
	if !ok {
		fr.propagateError(true)
	}

	return true"""),
 'a stream that is cut inside a stored block',
 'an end event is sent for the block that was never completed',
'''
func TestDemo(t *testing.T) {
	z := pack(t, noise(1000, 4), flate.WithFormat(flate.RawFormat), flate.WithCompressLevel(0))
	ends := 0
	tr := flate.TracerFunc(func(e flate.Event) {
		if e.Type == flate.BlockEndEvent {
			ends++
		}
	})
	_, err := unpack(z[:500], flate.WithFormat(flate.RawFormat), flate.WithTracers(tr))
	if err != io.ErrUnexpectedEOF || ends != 0 {
		t.Fatalf("%v, %d ends", err, ends)
	}
}
''')
bug('p20-close-before-trailer-check','P20',('reader.go',"""	if expectedCRC32 != computedCRC32 {
		fr.corruptf("invalid gzip CRC-32""","""	if contentLen == uint32(fr.outputBytesStream) && expectedCRC32 != computedCRC32 && fr.inputBuffer.IsEmpty() {
		fr.sendEvent(Event{
			Type: StreamCloseEvent,
		})
	}

	if expectedCRC32 != computedCRC32 {
		fr.corruptf("invalid gzip CRC-32"""),
 'a gzip stream with a wrong checksum but the right length at the end of the input',
 'a close event is sent for a stream that fails its check',
'''
func TestDemo(t *testing.T) {
	z := pack(t, []byte("data"), flate.WithFormat(flate.GZIPFormat))
	z[len(z)-6] ^= 1
	closes := 0
	tr := flate.TracerFunc(func(e flate.Event) {
		if e.Type == flate.StreamCloseEvent {
			closes++
		}
	})
	_, err := unpack(z, flate.WithTracers(tr))
	if err == nil || closes != 0 {
		t.Fatalf("%v, %d closes", err, closes)
	}
}
''')
bug('p20-stream-counter-kept','P20',('writer.go',"""	fw.inputBytesStream = 0
	fw.outputBytesStream = 0
	fw.numStreams++
""","""	fw.inputBytesStream = 0
	if fw.numStreams == 0 || fw.format != RawFormat {
		fw.outputBytesStream = 0
	}
	fw.numStreams++
"""),
 'raw format and a second stream from the same Writer',
 'the events of the second stream report the output size of both',
'''
func TestDemo(t *testing.T) {
	var sizes []uint64
	tr := flate.TracerFunc(func(e flate.Event) {
		if e.Type == flate.StreamCloseEvent {
			sizes = append(sizes, e.OutputBytesStream)
		}
	})
	var out bytes.Buffer
	fw := flate.NewWriter(&out, flate.WithFormat(flate.RawFormat), flate.WithTracers(tr))
	fw.Write([]byte("same"))
	fw.Flush(flate.FinishFlush)
	fw.Write([]byte("same"))
	fw.Close()
	if len(sizes) != 2 || sizes[0] != sizes[1] {
		t.Fatal(sizes)
	}
}
''')
bug('p20-code-count','P20',('reader.go',"""			CodeCount:          uint16(numX),""","""			CodeCount:          uint16(trimmedCount(sX[:])),"""),
 'a dynamic block written by an encoder that sends trailing zero code-length code lengths',
 'the tree event reports fewer code-length codes than the block has',
'''
func TestDemo(t *testing.T) {
	// BFINAL=1 BTYPE=10 HLIT=257 HDIST=1 HCLEN=19 with trailing zeros, code
	// lengths: symbol 256 has 1 bit, distance 0 has 1 bit
	var z []byte
	var acc, n uint
	put := func(v, k uint) {
		acc |= v << n
		n += k
		for n >= 8 {
			z = append(z, byte(acc))
			acc >>= 8
			n -= 8
		}
	}
	put(1, 1)
	put(2, 2)
	put(0, 5)
	put(0, 5)
	put(15, 4)
	// order 16 17 18 0 8 7 9 6 10 5 11 4 12 3 13 2 14 1 15: 18 and 1 have 1 bit
	for i := 0; i < 19; i++ {
		if i == 2 || i == 17 {
			put(1, 3)
		} else {
			put(0, 3)
		}
	}
	// code for 1 is 0, code for 18 is 1
	put(1, 1)
	put(127, 7) // 138 zeros
	put(1, 1)
	put(107, 7) // 118 zeros
	put(0, 1)
	put(0, 1)
	put(0, 1) // end of block
	put(0, 7)
	count := -1
	tr := flate.TracerFunc(func(e flate.Event) {
		if e.Type == flate.BlockTreesEvent {
			count = int(e.Trees.CodeCount)
		}
	})
	if _, err := unpack(z, flate.WithFormat(flate.RawFormat), flate.WithTracers(tr)); err != nil || count != 19 {
		t.Fatal(count, err)
	}
}
''')
BUGS[-1]['edits'].append(('reader.go',"""func (fr *Reader) decodeX(""","""// trimmedCount returns the number of code lengths without trailing zeros.
func trimmedCount(sizes []byte) uint {
	n := uint(len(sizes))
	for n > 4 && sizes[scramble[n-1]] == 0 {
		n--
	}
	return n
}

func (fr *Reader) decodeX("""))
# ---------------------------------------------------------------- P21
bug('p21-mlevel-out-of-range','P21',('enum_mlevel.go',"""	if u64 > 9 {
		*mlevel = DefaultMemory
		return""","""	*mlevel = MemoryLevel(u64)
	if !mlevel.IsValid() {
		return"""),
 'parsing a memory level between 10 and 255',
 'an error is returned, but the value is left out of range instead of at the default',
'''
func TestDemo(t *testing.T) {
	for _, s := range []string{"10", "99", "255"} {
		m := flate.MemoryLevel(3)
		if err := m.Parse(s); err == nil || m != flate.DefaultMemory {
			t.Fatalf("%q: %v, %v", s, m, err)
		}
	}
}
''')
bug('p21-checksum-case','P21',('checksum32.go','	str = strings.TrimPrefix(str, "0x")\n	u64, err := strconv.ParseUint(str, 16, 32)','	str = strings.TrimPrefix(str, "0x")\n	u64, err := strconv.ParseUint(str, 16, 64)'),
 'a checksum text with more than 32 significant bits',
 'the value is truncated silently',
'''
func TestDemo(t *testing.T) {
	var c flate.Checksum32
	if err := json.Unmarshal([]byte(`"0x1ffffffff"`), &c); err == nil {
		t.Fatal(c)
	}
}
''')
bug('p21-level-base','P21',('enum_clevel.go','u64, err := strconv.ParseUint(str, 10, 8)','u64, err := strconv.ParseUint(str, 0, 8)'),
 'a level written with a base prefix, such as 0x9 or 0b1',
 'texts outside the documented numeric forms are accepted',
'''
func TestDemo(t *testing.T) {
	for _, s := range []string{"0x9", "0b1", "0o7"} {
		var l flate.CompressLevel
		if err := l.Parse(s); err == nil {
			t.Fatalf("%q: %v", s, l)
		}
	}
}
''')
bug('p21-mlevel-json','P21',('enum_mlevel.go',"""	return json.Marshal(uint(mlevel))""","""	if mlevel < SmallestMemory {
		return []byte(mlevel.String()), nil
	}
	return json.Marshal(uint(mlevel))"""),
 'marshalling the default memory level',
 'the JSON form of the default is not valid JSON',
'''
func TestDemo(t *testing.T) {
	for m := flate.DefaultMemory; m <= flate.FastestMemory; m++ {
		if p, err := json.Marshal(m); err != nil || !json.Valid(p) {
			t.Fatalf("%v: %q, %v", m, p, err)
		}
	}
}
''')
# ---------------------------------------------------------------- P22
GZ='''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 99
trap 'rm -rf "$T"' EXIT
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -buildvcs=false" GOWORK=off
go build -o "$T/fgz" ./cmd/gzip || exit 98
Z="$T/fgz"
'''
bug('p22-short-file-accepted','P22',('cmd/gzip/main.go',"""		nn, err := io.Copy(w, fr)
		if err != nil {""","""		nn, err := io.Copy(w, fr)
		if err != nil && !(err == io.ErrUnexpectedEOF && nn == 0) {"""),
 'decompressing a file that is cut before any data can be decoded',
 'the command reports success and writes nothing',
 sh=GZ+'''
head -c 5000 /dev/zero | tr '\\0' 'x' >"$T/in"
"$Z" <"$T/in" >"$T/z" 2>/dev/null || exit 1
"$Z" -d <"$T/z" 2>/dev/null | cmp -s - "$T/in" || exit 1
for n in 1 5 12 20; do
  head -c $n "$T/z" >"$T/cut"
  if "$Z" -d <"$T/cut" >/dev/null 2>&1; then echo "cut at $n: accepted"; exit 1; fi
done
exit 0
''')
bug('p22-dictionary-newline','P22',('cmd/gzip/main.go',"""			dict = raw
""","""			dict = []byte(strings.TrimRight(string(raw), "\\r\\n"))
"""),
 'a dictionary file that ends in a line feed',
 'the dictionary differs from the contents of the file, so other programs cannot decode the stream',
 sh=GZ+'''
printf 'the quick brown fox\\njumps over\\n' >"$T/dict"
printf 'the quick brown fox\\njumps over\\nthe lazy dog' >"$T/in"
"$Z" -F zlib --dictionary=@"$T/dict" <"$T/in" >"$T/z" 2>/dev/null || exit 1
python3 - "$T" <<'P' || exit 1
import sys,zlib
d=sys.argv[1]
o=zlib.decompressobj(zdict=open(d+'/dict','rb').read())
assert o.decompress(open(d+'/z','rb').read())==open(d+'/in','rb').read()
P
exit 0
''')
bug('p22-level-nine','P22',('cmd/gzip/main.go',"""	case flag8:
		flagCLevel.Value = 8
	case flag9:
		flagCLevel.Value = 9""","""	case flag8:
		flagCLevel.Value = 8
	case flag9 && flagStrategy.Value == flate.DefaultStrategy:
		flagCLevel.Value = 9"""),
 'the flag -9 together with a strategy',
 'the level is ignored',
 sh=GZ+'''
head -c 3000 /dev/urandom | od -An -tx1 >"$T/in"
"$Z" -9 -S fixed <"$T/in" >"$T/a" 2>/dev/null || exit 1
"$Z" -C 9 -S fixed <"$T/in" >"$T/b" 2>/dev/null || exit 1
cmp -s "$T/a" "$T/b" || { echo "-9 and -C 9 differ"; exit 1; }
exit 0
''')
bug('p22-time-local','P22',('cmd/gzip/flags.go',"""	t, err := time.Parse(time.RFC3339, str)
	if err != nil {
		return err
	}
	flag.Value = t""","""	t, err := time.Parse(time.RFC3339, str)
	if err != nil {
		return err
	}
	flag.Value = time.Date(t.Year(), t.Month(), t.Day(), t.Hour(), t.Minute(), t.Second(), 0, time.UTC)"""),
 'a time given with an offset from UTC',
 'the time stored in the header is wrong by the offset',
 sh=GZ+'''
echo hello | "$Z" --last-modified=2021-03-04T05:06:07+05:30 >"$T/z" 2>/dev/null || exit 1
python3 - "$T" <<'P' || exit 1
import sys,struct,datetime
z=open(sys.argv[1]+'/z','rb').read()
t=struct.unpack('<I',z[4:8])[0]
want=datetime.datetime(2021,3,4,5,6,7,tzinfo=datetime.timezone(datetime.timedelta(hours=5,minutes=30))).timestamp()
assert t==want,(t,want)
P
exit 0
''')
bug('p22-write-error-ignored','P22',('cmd/gzip/main.go',"""		err = fw.Flush(flate.FinishFlush)
		if err != nil {
			log.Logger.Fatal().""","""		err = fw.Flush(flate.FinishFlush)
		if err != nil {
			log.Logger.Error()."""),
 'an output device that runs full when the last block is written',
 'the command reports success although the output is incomplete',
 sh=GZ+'''
for n in $(seq 900 1024); do
  head -c $n /dev/zero >"$T/out"
  if ( ulimit -f 1; echo hello | "$Z" >>"$T/out" 2>/dev/null; exit ${PIPESTATUS[1]} ); then
    # success means that everything is there
    tail -c +$((n+1)) "$T/out" | "$Z" -d 2>/dev/null | cmp -s - <(echo hello) || { echo "success, but the output is incomplete ($n)"; exit 1; }
  fi
done
echo hello | "$Z" >/dev/null 2>&1 || exit 1
exit 0
''')
# the Close that follows reports the error as well unless it is ignored, too
BUGS[-1]['edits'].append(('cmd/gzip/main.go',"""		err = fw.Close()
		if err != nil {
			log.Logger.Fatal().
				Err(err).
				Msg("flate.Writer.Close failed")""","""		err = fw.Close()
		if err != nil {
			log.Logger.Error().
				Err(err).
				Msg("flate.Writer.Close failed")"""))
# ---------------------------------------------------------------- P23
bug('p23-sync-clears-window','P23',('writer.go',"""	case SyncFlush:
		if !writeStoredBlock(fw, nil, false) {
			return false
		}
""","""	case SyncFlush:
		if !writeStoredBlock(fw, nil, false) {
			return false
		}
		fw.hybrid.WindowClear()
"""),
 'data repeated after a SyncFlush',
 'what was written before an ordinary flush is not used for matches any more',
'''
func TestDemo(t *testing.T) {
	data := noise(1000, 1)
	var out bytes.Buffer
	fw := flate.NewWriter(&out)
	fw.Write(data)
	fw.Flush(flate.SyncFlush)
	n := out.Len()
	fw.Write(data)
	fw.Close()
	if out.Len()-n > 200 {
		t.Fatalf("the repetition takes %d bytes", out.Len()-n)
	}
}
''')
bug('p23-stored-margin','P23',('writer.go',"""	storedLength := (uint64(len(data)) << 3) + 35
	if storedLength < dynamicCounter.length() {""","""	storedLength := (uint64(len(data)) << 3) + 35
	if storedLength+storedLength/8 < dynamicCounter.length() {"""),
 'data which Huffman coding expands by less than an eighth',
 'blocks larger than verbatim storage are written',
'''
func TestDemo(t *testing.T) {
	for n := 50; n < 1000; n += 10 {
		data := noise(n, uint32(n))
		z := pack(t, data, flate.WithFormat(flate.RawFormat))
		if len(z) > n+20 {
			t.Fatalf("%d bytes become %d", n, len(z))
		}
	}
}
''')
bug('p23-big-dictionary','P23',('writer.go',"""	if fw.dict != nil {
		fw.hybrid.SetWindow(fw.dict)
	}""","""	if fw.dict != nil && uint(len(fw.dict)) <= (uint(1)<<fw.wbits) {
		fw.hybrid.SetWindow(fw.dict)
	}"""),
 'a dictionary larger than the window',
 'the part of the dictionary that fits the window is not used for matches',
'''
func TestDemo(t *testing.T) {
	dict := noise(1000, 7)
	data := dict[900:]
	z := pack(t, data, flate.WithFormat(flate.RawFormat), flate.WithDictionary(dict), flate.WithWindowBits(9))
	if len(z) > 50 {
		t.Fatalf("%d bytes", len(z))
	}
}
''')
bug('p23-match-length','P23',('writer.go',"""		MinMatchLength:    4,
		MaxMatchLength:    258,
		HasMinMatchLength: true,""","""		MinMatchLength:    uint(4 + 64*(fw.clevel/9)),
		MaxMatchLength:    258,
		HasMinMatchLength: true,"""),
 'level 9 and repetitions shorter than 68 bytes',
 'such repetitions are written in full again',
'''
func TestDemo(t *testing.T) {
	part := noise(40, 7)
	var data []byte
	for i := 0; i < 60; i++ {
		data = append(append(data, part...), byte(i*41))
	}
	for l := flate.CompressLevel(1); l <= 9; l++ {
		z := pack(t, data, flate.WithFormat(flate.RawFormat), flate.WithCompressLevel(l))
		if len(z) > 800 {
			t.Fatalf("level %d: %d bytes", l, len(z))
		}
	}
}
''')
# ---------------------------------------------------------------- P24
NEST='''
// nested compresses something else inside each Write.
type nested struct {
	bytes.Buffer
	t     *testing.T
	opts  []flate.Option
	other []byte
	depth int
}

func (n *nested) Write(p []byte) (int, error) {
	if n.depth == 0 {
		n.depth++
		pack(n.t, n.other, n.opts...)
		n.depth--
	}
	return n.Buffer.Write(p)
}
'''
bug('p24-stored-scratch-global','P24',('writer.go',"""	var block [storedBlockSize]byte

	for available != 0 {
		buf := fw.inputBufferRead(block[:])""","""	for available != 0 {
		buf := fw.inputBufferRead(storedScratch[:storedBlockSize])"""),
 'two Writers at level 0 of which one is used inside the underlying writer of the other, or concurrently',
 'both use the same scratch memory, so one emits data of the other',
NEST+'''
func TestDemo(t *testing.T) {
	opts := []flate.Option{flate.WithFormat(flate.RawFormat), flate.WithCompressLevel(0), flate.WithMemoryLevel(4)}
	a := bytes.Repeat([]byte("a"), 5000)
	sink := &nested{t: t, opts: opts, other: bytes.Repeat([]byte("b"), 5000)}
	fw := flate.NewWriter(sink, opts...)
	fw.Write(a)
	fw.Close()
	got, err := unpack(sink.Bytes(), flate.WithFormat(flate.RawFormat))
	if err != nil || !bytes.Equal(got, a) {
		t.Fatalf("%d bytes, %v", len(got), err)
	}
}
''')
BUGS[-1]['edits'].append(('writer.go',"""func compressStore(fw *Writer,""","""// storedScratch saves an allocation per block.
var storedScratch [1 << 16]byte

func compressStore(fw *Writer,"""))
bug('p24-tree-tokens-returned-early','P24',('writer.go',"""	xtokens := takeTokens()
	defer giveTokens(xtokens)

	var numLL""","""	xtokens := takeTokens()

	var numLL"""),
 'two Writers of which one is used inside the underlying writer of the other, or concurrently',
 'the list of code lengths goes back to the pool before it was encoded, and another Writer overwrites it',
NEST+'''
func TestDemo(t *testing.T) {
	opts := []flate.Option{flate.WithFormat(flate.RawFormat), flate.WithMemoryLevel(1)}
	a := bytes.Repeat([]byte("some text that gets compressed, "), 20)
	for i := range a {
		a[i] ^= byte(i / 7)
	}
	for try := 0; try < 50; try++ {
		sink := &nested{t: t, opts: opts, other: bytes.Repeat([]byte("0123456789"), 40+try)}
		fw := flate.NewWriter(sink, opts...)
		fw.Write(a)
		fw.Close()
		got, err := unpack(sink.Bytes(), flate.WithFormat(flate.RawFormat))
		if err != nil || !bytes.Equal(got, a) {
			t.Fatalf("%d bytes, %v", len(got), err)
		}
	}
}
''')
BUGS[-1]['edits'].append(('writer.go',"""	freqX := studyFrequenciesX(*xtokens)
""","""	list := *xtokens
	giveTokens(xtokens)

	freqX := studyFrequenciesX(list)
"""))
BUGS[-1]['edits'].append(('writer.go',"""	for _, t := range *xtokens {""","""	for _, t := range list {"""))
bug('p24-reader-tmp-global','P24',[('reader.go',"""	p, pOK := fr.inputBufferRead(fr.tmp[:2])""","""	p, pOK := fr.inputBufferRead(gReadTmp[:2])"""),('reader.go',"""	p, pOK := fr.inputBufferRead(fr.tmp[:4])""","""	p, pOK := fr.inputBufferRead(gReadTmp[:4])"""),('reader.go',"""	tmp [4]byte

""",""),('reader.go',"""// NewReader constructs and""","""// gReadTmp receives the integers in headers and trailers.
var gReadTmp [4]byte

// NewReader constructs and""")],
 'a second Reader that runs while the first one waits for the rest of an integer in a header or trailer',
 'the integer is overwritten: valid streams are rejected; and a data race',
'''
type nest struct {
	p     []byte
	other []byte
	in    bool
}

func (n *nest) Read(p []byte) (int, error) {
	if len(n.p) == 0 {
		return 0, io.EOF
	}
	if !n.in {
		n.in = true
		unpack(n.other)
		n.in = false
	}
	k := copy(p[:1], n.p)
	n.p = n.p[k:]
	return k, nil
}

func TestDemo(t *testing.T) {
	other := pack(t, []byte("other"), flate.WithFormat(flate.GZIPFormat))
	for pad := 90; pad < 120; pad++ {
		var b bytes.Buffer
		w := gzip.NewWriter(&b)
		w.Name = strings.Repeat("n", pad)
		w.Write([]byte("data"))
		w.Close()
		got, err := unpackFrom(&nest{p: b.Bytes(), other: other}, flate.WithMemoryLevel(1))
		if err != nil || string(got) != "data" {
			t.Fatalf("%q, %v", got, err)
		}
	}
}
''')
bug('p24-fixed-sizes-shared','P24',('writer.go',"""	bb := bufferpool.Get()
	defer bufferpool.Put(bb)
	bb.Grow(int(available))
""","""	bb := bufferpool.Get()
	bb.Grow(int(available))
	bufferpool.Put(bb)
"""),
 'two Writers, incompressible data, and one Writer used inside the I/O of the other or concurrently',
 'the copy of the data for a stored block lives in a buffer that has gone back to the pool',
NEST+'''
func TestDemo(t *testing.T) {
	opts := []flate.Option{flate.WithFormat(flate.RawFormat), flate.WithMemoryLevel(4)}
	a := noise(3000, 1)
	for try := 0; try < 50; try++ {
		sink := &nested{t: t, opts: opts, other: noise(3000, 2)}
		fw := flate.NewWriter(sink, opts...)
		fw.Write(a)
		fw.Close()
		got, err := unpack(sink.Bytes(), flate.WithFormat(flate.RawFormat))
		if err != nil || !bytes.Equal(got, a) {
			t.Fatalf("%d bytes, %v", len(got), err)
		}
	}
}
''')
# ---------------------------------------------------------------- P25
bug('p25-tracers-alias','P25',('options.go',"""		tmp := make([]Tracer, len(tracers))
		copy(tmp, tracers)
		tracers = tmp
""","""		tracers = tracers[:len(tracers):len(tracers)]
"""),
 'changing the list of tracers after the option was made',
 'the option follows the change of the caller\'s slice',
'''
func TestDemo(t *testing.T) {
	n1, n2 := 0, 0
	t1 := flate.TracerFunc(func(flate.Event) { n1++ })
	t2 := flate.TracerFunc(func(flate.Event) { n2++ })
	list := []flate.Tracer{t1}
	opt := flate.WithTracers(list...)
	list[0] = t2
	pack(t, []byte("data"), opt)
	if n1 == 0 || n2 != 0 {
		t.Fatal(n1, n2)
	}
}
''')
bug('p25-dict-accessor-alias','P25',('reader.go',"""	if len(fr.dict) != 0 {
		dict = make([]byte, len(fr.dict))
		copy(dict, fr.dict)
	}
	fr.mu1.Unlock()
	return dict""","""	if len(fr.dict) != 0 {
		dict = fr.dict[:len(fr.dict):len(fr.dict)]
	}
	fr.mu1.Unlock()
	return dict"""),
 'modifying the result of Reader.Dict',
 'the dictionary of the Reader changes',
'''
func TestDemo(t *testing.T) {
	dict := []byte("hello world, hello")
	z := pack(t, []byte("hello world"), flate.WithFormat(flate.ZlibFormat), flate.WithDictionary(dict))
	fr := flate.NewReader(bytes.NewReader(z), flate.WithFormat(flate.ZlibFormat), flate.WithDictionary(dict))
	d := fr.Dict()
	for i := range d {
		d[i] = 0
	}
	got, err := io.ReadAll(fr)
	if err != nil || string(got) != "hello world" {
		t.Fatalf("%q, %v", got, err)
	}
}
''')
bug('p25-read-clears-rest','P25',('reader.go',"""	nn, _ := fr.outputBuffer.Read(p)

	if fr.outputBuffer.IsEmpty() {
		fr.cv2.Signal()""","""	nn, _ := fr.outputBuffer.Read(p)
	if fr.outputBuffer.IsEmpty() {
		// do not leak stale contents of p
		for i := nn; i < len(p) && i < nn+8; i++ {
			p[i] = 0
		}
	}

	if fr.outputBuffer.IsEmpty() {
		fr.cv2.Signal()"""),
 'a Read into a buffer longer than what is available',
 'bytes of the caller beyond the reported count are overwritten',
'''
func TestDemo(t *testing.T) {
	z := pack(t, []byte("data"))
	fr := flate.NewReader(bytes.NewReader(z))
	p := bytes.Repeat([]byte("x"), 20)
	n, err := fr.Read(p)
	if err != nil || string(p[n:]) != string(bytes.Repeat([]byte("x"), 20-n)) {
		t.Fatalf("%d, %v, %q", n, err, p)
	}
}
''')
bug('p25-dict-window-alias','P25',('options.go',"""	if dict != nil {
		tmp := make([]byte, len(dict))
		copy(tmp, dict)
		dict = tmp
	}
	return func(o *options) { o.dict = dict }""","""	return func(o *options) {
		if dict != nil {
			tmp := make([]byte, len(dict))
			copy(tmp, dict)
			o.dict = tmp
			return
		}
		o.dict = nil
	}"""),
 'changing the dictionary between making the option and using it',
 'the option takes the changed contents',
'''
func TestDemo(t *testing.T) {
	dict := []byte("hello world, hello")
	opt := flate.WithDictionary(dict)
	for i := range dict {
		dict[i] = 'x'
	}
	fw := flate.NewWriter(io.Discard, opt)
	if string(fw.Dict()) != "hello world, hello" {
		t.Fatalf("%q", fw.Dict())
	}
}
''')
