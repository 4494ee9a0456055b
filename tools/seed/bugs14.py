BUGS=[]
GZ='''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 99
trap 'rm -rf "$T"' EXIT
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -buildvcs=false" GOWORK=off
go build -o "$T/fgz" ./cmd/gzip || exit 98
Z="$T/fgz"
'''
def bug(id,prop,edits,needs,breaks,demo=None,**kw):
    if isinstance(edits,tuple): edits=[edits]
    d=dict(id=id,prop=prop,edits=edits,needs=needs,breaks=breaks,demo=demo); d.update(kw); BUGS.append(d)


bug('p02-length-257','P02',('token.go',"""	case t.literalOrLength <= 257:
		x := (t.literalOrLength - 131)
		y, z := (x / 32), (x % 32)
		return huffman.Symbol(281 + y), 5, block(z)

	case t.literalOrLength == 258:
		return huffman.Symbol(285), 0, 0
""","""	case t.literalOrLength < 257:
		x := (t.literalOrLength - 131)
		y, z := (x / 32), (x % 32)
		return huffman.Symbol(281 + y), 5, block(z)

	case t.literalOrLength <= 258:
		return huffman.Symbol(285), 0, 0
"""),
 'a repetition of exactly 257 bytes',
 'it is encoded as one of 258',
'''
func TestDemo(t *testing.T) {
	for n := 3; n < 300; n++ {
		x := noise(n, 1)
		in := append(append(append([]byte{}, x...), 1, 2, 3), x...)
		in = append(in, noise(20, 9)...)
		p, err := unpack(pack(t, in), flate.WithFormat(flate.ZlibFormat))
		if err != nil || !bytes.Equal(p, in) {
			t.Fatal(n, err)
		}
	}
}
''')

bug('p21-checksum-of-zero','P21',('checksum32.go',"""	str = strings.TrimPrefix(str, "0x")
""","""	str = strings.TrimLeft(str, "0x")
"""),
 'the checksum zero, such as the CRC-32 of no data',
 'what MarshalJSON printed is refused by UnmarshalJSON',
'''
func TestDemo(t *testing.T) {
	for _, c := range []flate.Checksum32{0, 1, 0x10, 0xffffffff} {
		raw, err := c.MarshalJSON()
		if err != nil {
			t.Fatal(err)
		}
		var d flate.Checksum32
		if err := d.UnmarshalJSON(raw); err != nil || c != d {
			t.Fatal(c, d, err)
		}
	}
}
''')

bug('p02-all-code-counts','P02',('analysis.go',"""		if i >= min && sizesAllZeroes(sizes[i:]) {
			break
		}
""","""		if i >= min && (min > 1 || sizesLen-i > 2) && sizesAllZeroes(sizes[i:]) {
			break
		}
"""),
 'a block with own codes and a match at a distance of more than 24 KiB (the last code used)',
 'more code lengths are announced than the format has codes',
'''
func TestDemo(t *testing.T) {
	x := noise(400, 1)
	for i := range x {
		x[i] &= 15
	}
	for i := 0; i < 7; i++ {
		var y []byte
		for _, c := range noise(4000, uint32(i+3)) {
			y = append(y, c&15)
		}
		x = append(x, y...)
	}
	in := append(append([]byte{}, x...), x...)
	b := pack(t, in, flate.WithFormat(flate.RawFormat), flate.WithMemoryLevel(9), flate.WithCompressLevel(9))
	r := stdflate.NewReader(bytes.NewReader(b))
	p, err := io.ReadAll(r)
	if err != nil || !bytes.Equal(p, in) {
		t.Fatal(len(p), err)
	}
}
''')

bug('p24-lazy-crc-choice','P24',('internal/crc32/crc32.go',"""	gArchOnce.Do(func() {
		gArchOkay = archAvailable()
	})
	if gArchOkay {""","""	if !gArchKnown {
		gArchOnce.Do(func() {
			gArchOkay = archAvailable()
			gArchKnown = true
		})
	}
	if gArchOkay {"""),
 'the first checksums of a process being computed by two goroutines at the same time',
 'a data race between instances which share nothing',
'''
func TestDemo(t *testing.T) {
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			fw := flate.NewWriter(io.Discard)
			fw.Write([]byte("abc"))
			fw.Close()
		}()
	}
	wg.Wait()
}
''',race=True)
BUGS[-1]['edits'].append(('internal/crc32/crc32.go',"""var gArchOkay bool
""","""var gArchOkay bool
var gArchKnown bool
"""))

bug('p24-frequencies-reused','P24',('analysis.go',"""func studyFrequenciesX(tokens []token) (freqX []uint32) {
	freqX = make([]uint32, physicalNumXCodes)
""","""var gFreqX [physicalNumXCodes]uint32

func studyFrequenciesX(tokens []token) (freqX []uint32) {
	freqX = gFreqX[:]
	for i := range freqX {
		freqX[i] = 0
	}
"""),
 'two Writers which describe their codes at the same time',
 'the frequencies of one are counted into those of the other',
'''
func TestDemo(t *testing.T) {
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 200; k++ {
				fw := flate.NewWriter(io.Discard)
				fw.Write(bytes.Repeat([]byte("abcdefghijklmnopqrstuvwxyz"[i:]), 20))
				fw.Close()
			}
		}()
	}
	wg.Wait()
}
''',race=True)

bug('p12-hash-of-former-level','P12',('writer.go',"""	fw.cfg = fw.compressConfig()
}

// SetHeader""","""	if fw.clevel != 0 {
		fw.cfg = fw.compressConfig()
	}
}

// SetHeader"""),
 'Reset to level 0',
 'the Writer goes on with the level it had',
'''
func TestDemo(t *testing.T) {
	var b bytes.Buffer
	fw := flate.NewWriter(&b)
	fw.Reset(&b, flate.WithCompressLevel(0))
	fw.Write(bytes.Repeat([]byte{1}, 1000))
	fw.Close()
	if b.Len() < 1000 {
		t.Fatal(b.Len())
	}
}
''')

bug('p22-dash-dash-dictionary','P22',('cmd/gzip/main.go',"""	if dict != nil {
		opts = append(opts, flate.WithDictionary(dict))
	}
""","""	if dict != nil && flagFormat.Value != flate.GZIPFormat {
		opts = append(opts, flate.WithDictionary(dict))
	}
"""),
 'a dictionary and the gzip format by name, exchanged with the library',
 'the dictionary is not used',
 sh=GZ+'''
cat > "$T/dict" <<'E'
the quick brown fox jumps over the lazy dog
E
printf 'the quick brown fox jumps over the lazy dog, and back' > "$T/in"
a=$("$Z" -F gzip < "$T/in" | wc -c)
b=$("$Z" -F gzip --dictionary="@$T/dict" < "$T/in" | wc -c)
echo $a $b
[ "$b" -lt "$a" ]
''')

bug('p03-short-code-lookahead','P03',('reader.go',"""		symbol, newMin, newMax := hdec.Decode(hc)
		if symbol >= 0 {""","""		symbol, newMin, newMax := hdec.Decode(hc)
		if symbol >= 0 && numBits < 15 || symbol > 0 {"""),
 'a block in which byte 0 has a code word of 15 bits',
 'the symbol is not found',
'''
func TestDemo(t *testing.T) {
	w := []int{1, 1, 1, 3, 4, 7, 11, 18, 29, 47, 76, 123, 199, 322, 521, 843, 1364, 2207}
	var in []byte
	for i, n := range w {
		in = append(in, bytes.Repeat([]byte{byte(i * 3)}, n)...)
	}
	var b bytes.Buffer
	fw, _ := stdflate.NewWriter(&b, stdflate.HuffmanOnly)
	fw.Write(in)
	fw.Close()
	p, err := unpack(b.Bytes(), flate.WithFormat(flate.RawFormat))
	if err != nil || !bytes.Equal(p, in) {
		t.Fatal(len(p), err)
	}
	b.Reset()
	p, err = unpack(pack(t, in, flate.WithStrategy(flate.HuffmanOnlyStrategy), flate.WithMemoryLevel(9)))
	if err != nil || !bytes.Equal(p, in) {
		t.Fatal(len(p), err)
	}
}
''')

bug('p31-mask-of-a-block','P31',('block32.go',"""func bytesFromBlock(bo binary.ByteOrder, p []byte, b block) {
	bo.PutUint32(p, uint32(b))""","""func bytesFromBlock(bo binary.ByteOrder, p []byte, b block) {
	bo.PutUint32(p, uint32(b)&0x7fffffff)"""),
 'x','x','x')
BUGS.pop()

bug('p26-names-kept','P26',('reader.go',"""		header.FileName = str
	}
	return true
}
""","""		fr.names = append(fr.names, str)
		header.FileName = str
	}
	return true
}
"""),
 'input of very many streams whose headers have names',
 'memory grows with the number of streams',
'''
func TestDemo(t *testing.T) {
	var b bytes.Buffer
	fw := flate.NewWriter(&b, flate.WithFormat(flate.GZIPFormat))
	fw.SetHeader(flate.Header{FileName: strings.Repeat("n", 200)})
	fw.Close()
	one := b.Bytes()
	fr := flate.NewReader(&again{p: one, n: 200000})
	io.Copy(io.Discard, fr)
	var m runtime.MemStats
	runtime.GC()
	runtime.ReadMemStats(&m)
	if m.HeapAlloc > 20<<20 {
		t.Fatal(m.HeapAlloc)
	}
	runtime.KeepAlive(fr)
}

type again struct {
	p  []byte
	n  int
	at int
}

func (r *again) Read(q []byte) (int, error) {
	if r.n == 0 {
		return 0, io.EOF
	}
	k := copy(q, r.p[r.at:])
	r.at += k
	if r.at == len(r.p) {
		r.at = 0
		r.n--
	}
	return k, nil
}
''')
BUGS[-1]['edits'].append(('reader.go',"""	inputError           error
""","""	inputError           error
	names                []string // given so far
"""))

bug('p17-read-holds-state','P17',('reader.go',"""	r := fr.r
	fr.mu1.Unlock()
	_, err := fr.inputBuffer.ReadFrom(r)
	fr.mu1.Lock()
""","""	r := fr.r
	release := fr.inputBytesTotal != 0
	if release {
		fr.mu1.Unlock()
	}
	_, err := fr.inputBuffer.ReadFrom(r)
	if release {
		fr.mu1.Lock()
	}
"""),
 'an accessor called while the very first Read waits for the underlying reader',
 'the accessor waits for input too',
'''
func TestDemo(t *testing.T) {
	pr, pw := io.Pipe()
	fr := flate.NewReader(pr)
	go fr.Read(make([]byte, 10))
	time.Sleep(50 * time.Millisecond)
	done := make(chan bool)
	go func() { fr.Format(); close(done) }()
	select {
	case <-done:
	case <-time.After(2 * time.Second):
		t.Error("Format waits for input")
	}
	pw.Close()
}
''')

bug('p20-final-of-stored','P20',('reader.go',"""func (fr *Reader) readFlateBlockStored() bool {""","""func (fr *Reader) readFlateBlockStored() bool { //"""),
 'x','x','x')
BUGS.pop()
