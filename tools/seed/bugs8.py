BUGS=[]
def bug(id,prop,edits,needs,breaks,demo=None,**kw):
    if isinstance(edits,tuple): edits=[edits]
    d=dict(id=id,prop=prop,edits=edits,needs=needs,breaks=breaks,demo=demo); d.update(kw); BUGS.append(d)
A386='GOARCH=386 '

bug('p31-late-times','P31',('reader.go',"""	mtime := binary.LittleEndian.Uint32(p[4:8])
	if mtime != 0 {""","""	mtime := int(binary.LittleEndian.Uint32(p[4:8]))
	if mtime != 0 {"""),
 'a 32-bit platform and a gzip header with a modification time from 2038 on',
 'the Reader reports a time before 1970',
'''
func TestDemo(t *testing.T) {
	when := time.Date(2050, 1, 2, 3, 4, 5, 0, time.UTC)
	var z bytes.Buffer
	fw := flate.NewWriter(&z, flate.WithFormat(flate.GZIPFormat))
	fw.SetHeader(flate.Header{LastModified: when})
	fw.Write([]byte("x"))
	if err := fw.Close(); err != nil {
		t.Fatal(err)
	}
	var got time.Time
	tr := flate.TracerFunc(func(e flate.Event) {
		if e.Type == flate.StreamHeaderEvent {
			got = e.Header.LastModified
		}
	})
	fr := flate.NewReader(bytes.NewReader(z.Bytes()), flate.WithTracers(tr))
	if p, err := io.ReadAll(fr); err != nil || string(p) != "x" {
		t.Fatal(p, err)
	}
	if !got.Equal(when) {
		t.Fatalf("%v instead of %v", got, when)
	}
}
''',arch=A386)

bug('p31-adler-words','P31',[('internal/adler32/adler32.go',"const nmax = 5552","// nmax bytes cannot overflow the sums.\nconst nmax = 1 << 20"),
 ('internal/adler32/adler32.go',"s1, s2 := (sum & 0xffff), (sum >> 16)","s1, s2 := uint(sum&0xffff), uint(sum>>16)"),
 ('internal/adler32/adler32.go',"""			s1 += uint32(p[0])
			s2 += s1
			s1 += uint32(p[1])
			s2 += s1
			s1 += uint32(p[2])
			s2 += s1
			s1 += uint32(p[3])
			s2 += s1""","""			s1 += uint(p[0])
			s2 += s1
			s1 += uint(p[1])
			s2 += s1
			s1 += uint(p[2])
			s2 += s1
			s1 += uint(p[3])
			s2 += s1"""),
 ('internal/adler32/adler32.go',"s1 += uint32(ch)","s1 += uint(ch)"),
 ('internal/adler32/adler32.go',"return (s2 << 16) | s1","return uint32(s2<<16 | s1)")],
 'a 32-bit platform and more than about 5.5 KiB of high bytes summed at once',
 'the Adler-32 overflows: written streams carry a wrong checksum and correct ones are refused',
'''
func TestDemo(t *testing.T) {
	data := bytes.Repeat([]byte{0xff, 0xfe}, 60000)
	z := pack(t, data, flate.WithFormat(flate.ZlibFormat), flate.WithCompressLevel(flate.NoCompression))
	r, err := zlib.NewReader(bytes.NewReader(z))
	if err != nil {
		t.Fatal(err)
	}
	if got, err := io.ReadAll(r); err != nil || !bytes.Equal(got, data) {
		t.Fatalf("%d bytes, %v", len(got), err)
	}
}
''',arch=A386)

bug('p31-one-write-per-copy','P31',('token.go',"""		hc := hLL.Encode(symLL)
		if !bw.outputBitsWriteHC(hc) {
			return false
		}

		if sizeLL != 0 {
			if !bw.outputBitsWrite(sizeLL, bitsLL) {
				return false
			}
		}

		if symD >= 0 {
			hc := hD.Encode(symD)
			if !bw.outputBitsWriteHC(hc) {
				return false
			}

			if sizeD != 0 {
				if !bw.outputBitsWrite(sizeD, bitsD) {
					return false
				}
			}
		}
""","""		hc := hLL.Encode(symLL)
		size, bits := hc.Size, block(hc.Bits)
		bits |= bitsLL << size
		size += sizeLL

		if symD >= 0 {
			hc := hD.Encode(symD)
			bits |= block(hc.Bits) << size
			size += hc.Size
			bits |= bitsD << size
			size += sizeD
		}

		if !bw.outputBitsWrite(size, bits) {
			return false
		}
"""),
 'a 32-bit platform and a far match whose length and distance have long codes: more than 32 bits together (up to 48)',
 'the Writer panics (size > bitsPerBlock)',
'''
func TestDemo(t *testing.T) {
	defer func() {
		if e := recover(); e != nil {
			t.Fatal(e)
		}
	}()
	// one long, far match among literals and short, near matches of very
	// different frequencies, in a block of its own
	early := noise(28000, 3)
	var lit []byte
	a, b := 1, 1
	for v := 0; v < 15; v++ {
		for i := 0; i < a; i++ {
			lit = append(lit, byte(v*16+5))
		}
		a, b = b, a+b
	}
	for i, r := range noise(len(lit), 9) {
		j := (int(r)*256 + i*7919) % len(lit)
		lit[i], lit[j] = lit[j], lit[i]
	}
	var late []byte
	for i := 0; i < 24; i++ {
		late = append(late, lit[i*len(lit)/24:(i+1)*len(lit)/24]...)
		switch {
		case i == 20:
			late = append(late, early[100:300]...)
		case i < 12:
			late = append(late, "........."[:7+i%2]...)
		case i < 18:
			late = append(late, "+-+-+-+-+-+-"...)
		default:
			late = append(late, "<=><=><=><=>"...)
		}
	}
	data := append(append([]byte(nil), early...), late...)
	for _, l := range []flate.CompressLevel{1, 6, 9} {
		var buf bytes.Buffer
		fw := flate.NewWriter(&buf, flate.WithFormat(flate.RawFormat), flate.WithMemoryLevel(9), flate.WithCompressLevel(l))
		fw.Write(early)
		fw.Flush(flate.SyncFlush)
		fw.Write(late)
		fw.Close()
		z := buf.Bytes()
		got, err := io.ReadAll(stdflate.NewReader(bytes.NewReader(z)))
		if err != nil || !bytes.Equal(got, data) {
			t.Fatalf("%d bytes, %v", len(got), err)
		}
	}
}
''',arch=A386)

bug('p31-counters-in-words','P31',('reader.go',"""			fr.outputBytesStream += uint64(nn)""","""			fr.outputBytesStream = uint64(uint(fr.outputBytesStream) + uint(nn))"""),
 'a 32-bit platform and a stream of 4 GiB or more',
 'the count of bytes in the trace events starts over at zero (the gzip trailer, which holds it modulo 2^32, still agrees)',
'''
type zeros struct{ n int }

func TestDemo(t *testing.T) {
	one := pack(t, make([]byte, 1<<20), flate.WithFormat(flate.RawFormat))
	_ = one
	// stored blocks, repeated
	blk := append([]byte{0, 0xff, 0xff, 0, 0}, make([]byte, 65535)...)
	n := 1<<32/65535 + 2
	src := io.MultiReader(&rep{p: blk, n: n}, bytes.NewReader([]byte{3, 0}))
	var got uint64
	tr := flate.TracerFunc(func(e flate.Event) {
		if e.Type == flate.StreamEndEvent {
			got = e.OutputBytesStream
		}
	})
	fr := flate.NewReader(src, flate.WithFormat(flate.RawFormat), flate.WithMemoryLevel(9), flate.WithTracers(tr))
	m, err := io.Copy(io.Discard, fr)
	if err != nil || m != int64(n)*65535 {
		t.Fatal(m, err)
	}
	if got != uint64(m) {
		t.Fatalf("%d bytes reported, %d read", got, m)
	}
}

type rep struct {
	p   []byte
	n   int
	pos int
}

func (r *rep) Read(p []byte) (int, error) {
	if r.n == 0 {
		return 0, io.EOF
	}
	k := copy(p, r.p[r.pos:])
	if r.pos += k; r.pos == len(r.p) {
		r.pos = 0
		r.n--
	}
	return k, nil
}
'''.replace("type zeros struct{ n int }\n\n","").replace("""	one := pack(t, make([]byte, 1<<20), flate.WithFormat(flate.RawFormat))
	_ = one
""",""),arch=A386)

bug('p31-block-order','P31',('block32.go',"""	byteOrder.PutUint32(p, uint32(x))""","""	byteOrder.PutUint16(p, uint16(x))
	byteOrder.PutUint16(p[2:], uint16(x>>16)&0x7fff)"""),
 'a 32-bit platform and output in which a 32-bit group of code bits has its highest bit set',
 'bits of the output are lost',
'''
func TestDemo(t *testing.T) {
	data := noise(5000, 3)
	for i := range data {
		data[i] &= 0x1f
	}
	z := pack(t, data, flate.WithFormat(flate.RawFormat))
	got, err := io.ReadAll(stdflate.NewReader(bytes.NewReader(z)))
	if err != nil || !bytes.Equal(got, data) {
		t.Fatalf("%d bytes, %v", len(got), err)
	}
}
''',arch=A386)
