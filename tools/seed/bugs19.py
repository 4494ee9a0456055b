BUGS=[]
GZ='''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 99
trap 'rm -rf "$T"' EXIT
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -buildvcs=false" GOWORK=off
go build -o "$T/fgz" ./cmd/gzip || exit 98
Z="$T/fgz"
'''
def bug(id,prop,edits,needs,breaks,demo=None,**kw):
    if isinstance(edits,tuple): edits=[edits]
    d=dict(id=id,prop=prop,edits=edits,needs=needs,breaks=breaks,demo=demo); d.update(kw); BUGS.append(d)

SLOW='''
type gate struct{ r *bytes.Reader; done chan struct{}; c bool }
func (g *gate) Read(p []byte) (int, error) {
	n, err := g.r.Read(p)
	if g.r.Len() == 0 && !g.c { g.c = true; close(g.done) }
	return n, err
}
func slow(t *testing.T, z []byte, opts ...flate.Option) ([]byte, error) {
	g := &gate{r: bytes.NewReader(z), done: make(chan struct{})}
	fr := flate.NewReader(g, opts...)
	defer fr.Close()
	var out []byte
	p := make([]byte, 37)
	n, err := fr.Read(p[:1])
	out = append(out, p[:n]...)
	for err == nil {
		select { case <-g.done: case <-time.After(200*time.Microsecond): }
		time.Sleep(20*time.Microsecond)
		n, err = fr.Read(p)
		out = append(out, p[:n]...)
	}
	if err == io.EOF { err = nil }
	return out, err
}
'''
T=r'''
func TestDemo(t *testing.T) {
	for _, n := range []int{50, 100, 150, 300, 1000} {
		data := noise(n, 5)
		z := pack(t, data, %s)
		z = append(append(append([]byte{}, z...), z...), z...)
		data = append(append(append([]byte{}, data...), data...), data...)
		got, err := slow(t, z, flate.WithFormat(%s), flate.WithMemoryLevel(1))
		if err != nil || !bytes.Equal(got, data) { t.Fatalf("%%d bytes: got %%d, %%v", n, len(got), err) }
	}
}
'''
bug('p13-crc-of-piece','P13',('reader.go',"_, _ = fr.outputBytesCRC32.Write(p[:nn])","_, _ = fr.outputBytesCRC32.Write(p)"),
 "a consumer slow enough that the end of one member waits in the output buffer, and the next fits only in part",
 "the checksum of a GZIP member covers some bytes twice, so a valid member is reported as corrupt",
 SLOW+T%('flate.WithFormat(flate.GZIPFormat)','flate.GZIPFormat'))
bug('p13-adler-of-piece','P13',('reader.go',"_, _ = fr.outputBytesAdler32.Write(p[:nn])","_, _ = fr.outputBytesAdler32.Write(p)"),
 "a consumer slow enough that the end of one member waits in the output buffer, and the next fits only in part",
 "the Adler-32 of a zlib stream covers some bytes twice, so a valid stream is refused",
 SLOW+T%('flate.WithFormat(flate.ZlibFormat)','flate.ZlibFormat'))
bug('p20-stream-bytes-of-piece','P20',('reader.go',"fr.outputBytesStream += uint64(nn)","fr.outputBytesStream += uint64(len(p))"),
 "a consumer slow enough that the end of one member waits in the output buffer, and the next fits only in part",
 "the OutputBytesStream of the events at the end of a stream exceeds the bytes produced",
 SLOW+r'''
func TestDemo(t *testing.T) {
	for _, n := range []int{50, 100, 150, 300, 1000} {
		data := noise(n, 5)
		z := pack(t, data, flate.WithFormat(flate.ZlibFormat))
		z = append(append([]byte{}, z...), z...)
		data = append(append([]byte{}, data...), data...)
		var last uint64
		got, err := slow(t, z, flate.WithFormat(flate.ZlibFormat), flate.WithMemoryLevel(1), flate.WithTracers(flate.TracerFunc(func(e flate.Event) {
			if e.Type == flate.StreamEndEvent { last = e.OutputBytesStream }
		})))
		if err != nil || !bytes.Equal(got, data) { t.Fatal(err, len(got)) }
		if last != uint64(n) { t.Fatalf("OutputBytesStream %d, want %d", last, n) }
	}
}
''')
bug('p04-truncated-tail-when-full','P04',('reader.go','''	fr.decodeBufferMustFlush()

	if fr.outputErrorWasSet {
		return
	}

	fr.mu2.Lock()
	fr.outputError = err''','''	fr.mu2.Lock()
	full := fr.outputBuffer.IsFull()
	fr.mu2.Unlock()
	if full && err != io.EOF {
		fr.decodeBuffer.Clear()
	}
	fr.decodeBufferMustFlush()

	if fr.outputErrorWasSet {
		return
	}

	fr.mu2.Lock()
	fr.outputError = err'''),
 "a damaged stream whose consumer lags so far behind that the output buffer is full when the damage is met",
 "the bytes decoded before the damage are dropped instead of returned",
 SLOW+r'''
func TestDemo(t *testing.T) {
	for _, n := range []int{100, 128+64, 160, 255, 500} {
		data := noise(n, 5)
		z := pack(t, data, flate.WithFormat(flate.RawFormat), flate.WithStrategy(flate.HuffmanOnlyStrategy))
		z = append(z[:len(z)-5], 0x07)
		got, _ := slow(t, z, flate.WithFormat(flate.RawFormat), flate.WithMemoryLevel(1))
		if !bytes.Equal(got, data) { t.Fatalf("%d bytes: got %d", n, len(got)) }
	}
}
''')
bug('p01-zero-run-139','P01',('analysis.go',"		if run > 138 {","		if run > 139 {"),
 "a dynamic block whose code lengths have a run of exactly 139 (or 277) unused symbols",
 "the run's token is out of range and left out, so the block's code lengths are shifted and the data are lost",
 r'''
func TestDemo(t *testing.T) {
	for gap := 130; gap < 150; gap++ {
		var data []byte
		for i := 0; i < 3000; i++ {
			c := byte(10)
			if i%3 == 0 { c = byte(11 + gap) }
			if i%7 == 0 { c = 5 }
			data = append(data, c)
		}
		z := pack(t, data, flate.WithFormat(flate.RawFormat), flate.WithStrategy(flate.HuffmanOnlyStrategy))
		got, err := unpack(z, flate.WithFormat(flate.RawFormat))
		if err != nil || !bytes.Equal(got, data) { t.Fatal(gap, err) }
	}
}
''')
bug('p02-code-length-code-eight','P02',('writer.go',"limitCodeSize(&hX, freqX, 7)","limitCodeSize(&hX, freqX, 8)"),
 "a dynamic block whose code lengths are distributed so unevenly that the code for them is 8 deep",
 "the length 8 does not fit the 3 bits it is written in: the block cannot be decoded",
 r'''
func TestDemo(t *testing.T) {
	// code lengths to use: n[l] symbols of length l, the counts growing like the Fibonacci numbers,
	// no two equal ones next to each other.
	for v := 0; v < 400; v++ {
		x := uint32(v*7919 + 1)
		rnd := func(n int) int { x ^= x << 13; x ^= x >> 17; x ^= x << 5; return int(x % uint32(n)) }
		var syms []byte
		for _, c := range rndPerm(rnd) { syms = append(syms, c) }
		var data []byte
		// weights: powers of two, few of each high power
		k := 0
		for l, n := range []int{0, 1, 0, 1, 1, 2, 3, 5, 8+rnd(4), 13+rnd(4), 21+rnd(8), 34+rnd(9), 60+rnd(20)} {
			for j := 0; j < n && k < 256; j++ {
				for w := 0; w < 1<<uint(12-l) && len(data) < 8000000; w++ { data = append(data, syms[k]) }
				k++
			}
		}
		z := pack(t, data, flate.WithFormat(flate.RawFormat), flate.WithStrategy(flate.HuffmanOnlyStrategy), flate.WithMemoryLevel(9))
		got, err := io.ReadAll(stdflate.NewReader(bytes.NewReader(z)))
		if err != nil || !bytes.Equal(got, data) { t.Fatal(v, err) }
	}
}
func rndPerm(rnd func(int) int) []byte {
	p := make([]byte, 256)
	for i := range p { p[i] = byte(i) }
	for i := 255; i > 0; i-- { j := rnd(i + 1); p[i], p[j] = p[j], p[i] }
	return p
}
''')
